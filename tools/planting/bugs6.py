from bugs1 import bug, B, R
RX = 'src/emails/receiving/receiving.ts'

bug('C43-html-error-page', 'C43', [(R, """          const rawError = await response.text();
""", """          // Error pages of proxies are never JSON
          if (response.headers.get('content-type')?.startsWith('text/html')) {
            throw new SyntaxError('Not a JSON response');
          }

          const rawError = await response.text();
""")],
 'failed responses that are HTML pages', 'the body of an HTML error page is never read or cancelled, so each such failure takes a connection out of the pool',
"""let done = 0;
const make = () => new ReadableStream({ pull(c) { done++; c.close(); }, cancel() { done++; } }, { highWaterMark: 0 });
serve(() => new Response(make(), { status: 502, headers: { 'content-type': 'text/html' } }));
const r = await resend.emails.get('e1');
assert.equal(r.error.name, 'application_error');
assert.equal(done, 1);""")

bug('C43-capped-error-text', 'C43', [(R, """          const rawError = await response.text();
""", """          const rawError = await readErrorText(response);
"""), (R, """export class Resend {
""", """// Error objects are small: there is no need to read more than 16 kB of one
async function readErrorText(response: globalThis.Response): Promise<string> {
  if (Number(response.headers.get('content-length')) < 16_384) {
    return response.text();
  }

  if (!response.body) {
    return '';
  }

  const decoder = new TextDecoder();
  const reader = response.body.getReader();
  let text = '';

  while (text.length < 16_384) {
    const { done, value } = await reader.read();

    if (done) {
      break;
    }

    text += decoder.decode(value, { stream: true });
  }

  reader.releaseLock();

  return text;
}

export class Resend {
""")],
 'an error page of 16 kB or more', 'only the first 16 kB of the error page are read and the rest is left on the connection',
 """let state = 'open';
let n = 0;
serve(() => new Response(new ReadableStream({
  pull(c) { if (n++ < 40) c.enqueue(new Uint8Array(1024).fill(101)); else { state = 'read'; c.close(); } },
  cancel() { state = 'cancelled'; },
}, { highWaterMark: 0 }), { status: 500, headers: { 'content-length': '40960' } }));
const r = await resend.emails.get('e1');
assert.equal(r.error.name, 'application_error');
assert.notEqual(state, 'open');""")

bug('C43-not-modified-success', 'C43', [(R, """      const data = await response.json();
""", """      // Anything but JSON cannot be decoded
      const type = response.headers.get('content-type');

      if (type?.startsWith('text/html')) {
        throw new TypeError(`Unexpected content type ${type}`);
      }

      const data = await response.json();
""")],
 'a 200 answer with a page instead of JSON', 'the page is left unread on its connection',
 """let done = 0;
const make = () => new ReadableStream({ pull(c) { done++; c.enqueue(new TextEncoder().encode('<html>')); c.close(); }, cancel() { done++; } }, { highWaterMark: 0 });
serve(() => new Response(make(), { status: 200, headers: { 'content-type': 'text/html' } }));
const r = await resend.emails.get('e1');
assert.equal(r.error.name, 'application_error');
assert.equal(done, 1);""")

bug('C36-raw-headers', 'C36', [(RX, """          message: 'Raw email content is not available for this email',
          statusCode: 400,
        },
        headers: null,
      };
    }

    const { content: rawEmailContent, error } = await this.downloadRaw(
      email.raw.download_url,
    );

    if (error) {
      return { data: null, error, headers: null };
    }

    const parsed""", """          message: 'Raw email content is not available for this email',
          statusCode: 400,
        },
        headers: {},
      };
    }

    const { content: rawEmailContent, error } = await this.downloadRaw(
      email.raw.download_url,
    );

    if (error) {
      return { data: null, error, headers: null };
    }

    const parsed""")],
 'forwarding an email without raw content', 'the result claims to carry the headers of an answer although none belongs to it',
 """serve(() => json({ object: 'email', id: 'e1', to: [], from: 'a@b.co', subject: 's' }));
const r = await resend.emails.receiving.forward({ emailId: 'e1', to: 'c@d.co', from: 'a@b.co' });
assert.equal(r.error.name, 'validation_error');
assert.equal(r.headers, null);""")
