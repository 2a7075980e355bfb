from bugs1 import bug, B, R
RX = 'src/emails/receiving/receiving.ts'

bug('C10-body-memo', 'C10', [('src/batch/batch.ts', """export class Batch {
""", """// Batches are often sent again after a failure, rendering them once is enough
const parsed = new WeakMap<object, EmailApiOptions>();

export class Batch {
"""), ('src/batch/batch.ts', """      const body = { ...email };

      if (email.react) {
        body.html = await render(email.react);
      }

      emails.push(parseEmailToApiOptions(body));
""", """      let apiEmail = parsed.get(email);

      if (apiEmail === undefined) {
        const body = { ...email };

        if (email.react) {
          body.html = await render(email.react);
        }

        apiEmail = parseEmailToApiOptions(body);
        parsed.set(email, apiEmail);
      }

      emails.push(apiEmail);
""")],
 'an email object of a batch that is changed by the caller between two batch calls', 'the second batch sends the email as it was at the first call',
 """const email = { from: 'a@b.co', to: 'c@d.co', subject: 'one', text: 't' };
await resend.batch.send([email]);
email.subject = 'two';
await resend.batch.send([email]);
assert.equal(body(0)[0].subject, 'one');
assert.equal(body(1)[0].subject, 'two');""")

bug('C11-batch-buffer', 'C11', [('src/batch/batch.ts', """  constructor(private readonly resend: Resend) {}
""", """  private readonly emails: EmailApiOptions[] = [];

  constructor(private readonly resend: Resend) {}
"""), ('src/batch/batch.ts', """    const emails: EmailApiOptions[] = [];

    for""", """    const emails = this.emails;
    emails.length = 0;

    for""")],
 'two batch calls of one client in flight together, one of them with a React email', 'emails of both batches end up in one request',
 """const { createRequire } = await import('node:module');
const React = createRequire(process.cwd() + '/package.json')('react');
const mail = (n, extra) => ({ from: 'a@b.co', to: 'c@d.co', subject: n, ...extra });
await Promise.all([resend.batch.send([mail('a', { react: React.createElement('p', null, 'x') }), mail('b', { text: 'b' })]), resend.batch.send([mail('c', { text: 'c' })])]);
const sent = requests.map((_, i) => body(i).map((e) => e.subject).join()).sort();
assert.deepEqual(sent, ['a,b', 'c']);""")

bug('C20-last-created', 'C20', [('src/templates/chainable-template-result.ts', """  async publish(): Promise<PublishTemplateResponse> {
    const { data, error } = await this.promise;
""", """  private static lastId: string | undefined;

  async publish(): Promise<PublishTemplateResponse> {
    const { data, error } = await this.promise;
"""), ('src/templates/chainable-template-result.ts', """    return this.publishFn(data.id);
""", """    // A template is visible to its own publish request a moment later
    ChainableTemplateResult.lastId = data.id;
    await Promise.resolve();
    return this.publishFn(ChainableTemplateResult.lastId);
""")],
 'two chains in flight whose creations are answered in the same moment', 'one chain publishes the template of the other',
 """let n = 0;
const waiting = [];
serve((rec) => (rec.url.endsWith('/publish') ? json({ id: 'p' }) : new Promise((r) => { const id = `t${++n}`; waiting.push(() => r(json({ id }))); if (waiting.length === 2) for (const go of waiting) go(); })));
await Promise.all(['a', 'b'].map((name) => resend.templates.create({ name, html: 'h' }).publish()));
const ids = requests.filter((r) => r.url.endsWith('/publish')).map((r) => r.url.split('/').at(-2)).sort();
assert.deepEqual(ids, ['t1', 't2']);""")

bug('C38-repeated-error', 'C38', [(R, """  private logError(error: ErrorResponse, path: string, status?: number): void {
    if (
""", """  private lastLogged = '';

  private logError(error: ErrorResponse, path: string, status?: number): void {
    // The same failure is not worth repeating
    const entry = JSON.stringify([error, path, status]);
    if (entry === this.lastLogged) {
      return;
    }
    this.lastLogged = entry;

    if (
""")],
 'the same request failing twice in a row with the same error, outside production', 'the second failure is not logged',
 """process.env.NODE_ENV = 'development';
let lines = 0;
console.error = () => { lines++; };
serve(() => json({ name: 'rate_limit_exceeded', message: 'slow down', statusCode: 429 }, 429));
await resend.emails.get('a');
await resend.emails.get('a');
assert.equal(lines, 2);""")

bug('C33-milliseconds', 'C33', [('src/webhooks/webhooks.ts', """    const webhook = new Webhook(payload.webhookSecret);
    return webhook.verify(payload.payload, {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;
""", """    const { id, timestamp, signature } = payload.headers;
    const webhook = new Webhook(payload.webhookSecret);
    const verify = (time: string) =>
      webhook.verify(payload.payload, {
        'webhook-id': id,
        'webhook-timestamp': time,
        'webhook-signature': signature,
      }) as WebhookEventPayload;

    // Some gateways deliver the timestamp in milliseconds, signed as it is
    if (/^\\d{13}$/.test(timestamp)) {
      const at = new Date(Number(timestamp));
      if (Math.abs(Date.now() - at.getTime()) < 5 * 60 * 1000) {
        const expected = webhook.sign(id, at, payload.payload);
        const given = signature.split(' ');
        const own = createHmac('sha256', secretBytes(payload.webhookSecret))
          .update(`${id}.${timestamp}.${payload.payload}`)
          .digest('base64');
        if (given.includes(expected) || given.includes(`v1,${own}`)) {
          return JSON.parse(payload.payload) as WebhookEventPayload;
        }
      }
    }

    return verify(timestamp);
"""), ('src/webhooks/webhooks.ts', """export class Webhooks {
""", """function secretBytes(secret: string): Buffer {
  return Buffer.from(secret.replace(/^whsec_/, ''), 'base64');
}

export class Webhooks {
"""), ('src/webhooks/webhooks.ts', """import { Webhook } from 'standardwebhooks';
""", """import { createHmac } from 'node:crypto';
import { Webhook } from 'standardwebhooks';
""")],
 'a timestamp in milliseconds, signed in that form', 'a webhook whose timestamp lies millennia in the future is accepted',
 """const { createHmac } = await import('node:crypto');
const key = Buffer.alloc(32, 7).toString('base64');
const t = String(Date.now());
const payload = '{"type":"email.sent"}';
const mac = createHmac('sha256', Buffer.from(key, 'base64')).update(`msg_1.${t}.${payload}`).digest('base64');
assert.throws(() => resend.webhooks.verify({ payload, headers: { id: 'msg_1', timestamp: t, signature: `v1,${mac}` }, webhookSecret: `whsec_${key}` }));""")

bug('C37-own-download', 'C37', [(RX, """      const rawResponse = await fetch(url);
""", """      // Content served by the API itself needs the credentials of the API
      const rawResponse = url.startsWith(this.resend.baseUrl)
        ? await fetch(url, {
            headers: { Authorization: `Bearer ${this.resend.key}` },
          })
        : await fetch(url);
""")],
 'a download URL whose text begins with the base URL (another host like https://api.resend.com.example.net, or the API host itself)', 'the API key is sent with the raw content download, possibly to a foreign host',
 """serve((rec, i) => (i === 0 ? json({ id: 'e', subject: 's', raw: { download_url: 'https://api.resend.com.cdn.test/raw' } }) : i === 1 ? new Response('Subject: x\\r\\n\\r\\nhello') : json({ id: 'n' })));
await resend.emails.receiving.forward({ emailId: 'e', to: 'a@b.co', from: 'c@d.co' });
assert.equal(requests[1].url, 'https://api.resend.com.cdn.test/raw');
assert.equal(requests[1].headers.authorization, undefined);""")

bug('C35-char-codes', 'C35', [(RX, """            content: Buffer.from(rawEmailContent).toString('base64'),
""", """            content: toBase64(new Uint8Array(rawEmailContent)),
"""), (RX, """export class Receiving {
""", """// Works in runtimes without Buffer, in chunks as arguments are limited
function toBase64(bytes: Uint8Array): string {
  const size = 0x8000;
  let encoded = '';
  for (let i = 0; i < bytes.length; i += size) {
    encoded += btoa(String.fromCharCode(...bytes.subarray(i, i + size)));
  }
  return encoded;
}

export class Receiving {
""")],
 'a raw message larger than 32 KiB', 'the attached original is not valid base64 of the message beyond the first chunk',
 """const raw = 'Subject: x\\r\\n\\r\\n' + 'line of text\\r\\n'.repeat(4000);
serve((rec, i) => (i === 0 ? json({ id: 'e', subject: 's', raw: { download_url: 'https://cdn.test/raw' } }) : i === 1 ? new Response(raw) : json({ id: 'n' })));
await resend.emails.receiving.forward({ emailId: 'e', to: 'a@b.co', from: 'c@d.co', passthrough: false, text: 't' });
const content = body().attachments[0].content;
assert.equal(content, Buffer.from(raw).toString('base64'));""")

bug('C34-binary-string', 'C34', [(RX, """      attachmentEncoding: 'base64',
""", """      attachmentEncoding: 'arraybuffer',
"""), (RX, """        content: attachment.content.toString(),
""", """        content:
          typeof attachment.content === 'string'
            ? attachment.content
            : btoa(
                String.fromCharCode(
                  ...new Uint8Array(attachment.content as ArrayBuffer),
                ),
              ),
""")],
 'an attachment of more than some hundred thousand bytes', 'the forward rejects with a RangeError instead of sending the email',
 """const big = Buffer.alloc(400_000, 1).toString('base64').replace(/.{76}/g, '$&\\r\\n');
const raw = `Content-Type: application/pdf\\r\\nContent-Transfer-Encoding: base64\\r\\nContent-Disposition: attachment; filename="a.pdf"\\r\\n\\r\\n${big}\\r\\n`;
serve((rec, i) => (i === 0 ? json({ id: 'e', subject: 's', raw: { download_url: 'https://cdn.test/raw' } }) : i === 1 ? new Response(raw) : json({ id: 'n' })));
await resend.emails.receiving.forward({ emailId: 'e', to: 'a@b.co', from: 'c@d.co' });
assert.equal(Buffer.from(body().attachments[0].content, 'base64').length, 400_000);""")

bug('C14-attachment-text', 'C14', [('src/common/utils/parse-email-to-api-options.ts', """    content: attachment.content,
""", """    content: encodeContent(attachment.content),
"""), ('src/common/utils/parse-email-to-api-options.ts', """export function parseEmailToApiOptions(
""", """// Text and base64 are sent as they are, bytes are encoded in one go
function encodeContent(content: string | Buffer | undefined) {
  if (!Buffer.isBuffer(content) || content.length < 0x10000) {
    return content;
  }
  const chunks: string[] = [];
  for (let i = 0; i < content.length; i += 0x10000) {
    chunks.push(content.subarray(i, i + 0x10000).toString('base64'));
  }
  return chunks.join('');
}

export function parseEmailToApiOptions(
""")],
 'a Buffer attachment of more than 64 KiB', 'the content is a concatenation of separately padded base64 chunks, which decodes to something else',
 """const content = Buffer.alloc(200_000, 'abc1');
await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't', attachments: [{ filename: 'a', content }] });
const got = body().attachments[0].content;
const same = typeof got === 'string' ? got === content.toString('base64') : Buffer.from(got.data).equals(content);
assert.ok(same);""")

bug('C05-idempotent-retry', 'C05', [(R, """    return this.fetchRequest<T>(path, requestOptions);
  }

  async get<T>""", """    const result = await this.fetchRequest<T>(path, requestOptions);

    // A request with an idempotency key can safely be sent again
    if (
      result.error?.name === 'concurrent_idempotent_requests' &&
      options.idempotencyKey
    ) {
      return this.fetchRequest<T>(path, requestOptions);
    }

    return result;
  }

  async get<T>""")],
 'a send with an idempotency key that is answered with concurrent_idempotent_requests', 'the send is repeated by the library',
 """serve(() => json({ name: 'concurrent_idempotent_requests', message: 'm', statusCode: 409 }, 409));
await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't' }, { idempotencyKey: 'k1' });
assert.equal(requests.length, 1);""")

bug('C10-circuit-breaker', 'C10', [(R, """  private logError(""", """  private failures = 0;

  private logError("""), (R, """    try {
      const response = await fetch(`${this.baseUrl}${path}`, options);
""", """    try {
      // Ten failed connections in a row: the network is down
      if (this.failures >= 10) {
        this.failures = 0;
        throw new Error('Connection is not available');
      }

      this.failures++;
      const response = await fetch(`${this.baseUrl}${path}`, options);
      this.failures = 0;
""")],
 'ten connection failures in a row (or ten calls in flight together)', 'the eleventh call fails without sending its request',
 """serve(() => { throw new TypeError('fetch failed'); });
for (let i = 0; i < 10; i++) await resend.emails.get('a');
serve(() => json({ id: 'x' }));
const r = await resend.emails.get('b');
assert.equal(r.error, null);""")

bug('C02-long-error', 'C02', [(R, """          const rawError = await response.text();
""", """          // Error pages of proxies can be large, an API error never is
          const rawError = (await response.text()).slice(0, 16_384);
""")],
 'a JSON error body longer than 16384 characters (a batch with many invalid emails)', 'the API error is replaced by a generic application_error',
 """const errors = Array.from({ length: 100 }, (_, index) => ({ index, message: 'x'.repeat(200) }));
serve(() => json({ name: 'validation_error', message: 'm', statusCode: 422, errors }, 422));
const r = await resend.batch.send([{ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't' }]);
assert.equal(r.error.name, 'validation_error');
assert.equal(r.error.errors.length, 100);""")

bug('C27-rule-depth', 'C27', [('src/common/utils/parse-automation-to-api-options.ts', """    case 'condition':
      return { key: step.key, type: step.type, config: step.config };
""", """    case 'condition':
      return { key: step.key, type: step.type, config: copyRule(step.config) };
"""), ('src/common/utils/parse-automation-to-api-options.ts', """export function parseStepConfig(
""", """// A copy, so that later changes by the caller do not matter
function copyRule(rule: object, depth = 0): object {
  if (depth > 8 || !('rules' in rule)) {
    return { ...rule, rules: undefined };
  }
  const rules = rule.rules as object[];
  return { ...rule, rules: rules.map((inner) => copyRule(inner, depth + 1)) };
}

export function parseStepConfig(
""")],
 'condition rules nested more than nine levels deep', 'the rules of the innermost groups are dropped',
 """let config = { type: 'rule', field: 'f', operator: 'eq', value: 'v' };
for (let i = 0; i < 12; i++) config = { type: 'and', rules: [config] };
await resend.automations.create({ name: 'n', steps: [{ key: 's', type: 'condition', config }], connections: [] });
assert.deepEqual(body().steps[0].config, config);""")

bug('C08-empty-value', 'C08', [(R, """    const requestOptions = {
      method: 'PATCH',""", """    for (const [key, value] of [...headers.entries()]) {
      // Some proxies refuse headers without a value
      if (value === '') {
        headers.delete(key);
      }
    }

    const requestOptions = {
      method: 'PATCH',""")],
 'a caller header with an empty value on a patch', 'the header is not sent',
 """await resend.patch('/contacts/a', {}, { headers: { 'X-Trace': '' } });
assert.equal(requests[0].headers['x-trace'], '');""")

bug('C36-status-check', 'C36', [(RX, """      if (rawResponse.ok) {
""", """      if (rawResponse.status < 400) {
""")],
 'a download answered with a 3xx status (an expired signed URL redirecting with manual handling, a 304)', 'the redirect page is forwarded as if it were the original message',
 """serve((rec, i) => (i === 0 ? json({ id: 'e', subject: 's', raw: { download_url: 'https://cdn.test/raw' } }) : i === 1 ? new Response('moved', { status: 302, headers: { location: 'https://x.test' } }) : json({ id: 'n' })));
const r = await resend.emails.receiving.forward({ emailId: 'e', to: 'a@b.co', from: 'c@d.co' });
assert.equal(requests.length, 2);
assert.equal(r.error.statusCode, 302);""")

bug('C12-options-headers', 'C12', [('src/batch/batch.ts', """    const headers = new Headers(options?.headers);
""", """    const headers =
      options?.headers instanceof Headers
        ? options.headers
        : new Headers(options?.headers);
""")],
 "a Headers instance passed to a batch call", "the caller's Headers instance gets an x-batch-validation header, which sticks for its next use",
 """const headers = new Headers({ 'X-A': '1' });
const mail = [{ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't' }];
await resend.batch.send(mail, { headers, batchValidation: 'permissive' });
await resend.batch.send(mail, { headers });
assert.equal(headers.has('x-batch-validation'), false);
assert.equal(requests[1].headers['x-batch-validation'], 'strict');""")

bug('C04-empty-list', 'C04', [('src/contact-properties/contact-properties.ts', """          ...response.data,
""", """          object: response.data.object,
          has_more: 
            response.data.data.length > 0 && response.data.has_more,
""")],
 'an empty page of contact properties that has more pages after it', 'has_more is reported as false',
 """serve(() => json({ object: 'list', has_more: true, data: [] }));
const r = await resend.contactProperties.list({ limit: 1 });
assert.equal(r.data.has_more, true);""")

bug('C26-timezone', 'C26', [('src/emails/emails.ts', """    timezone: options.timezone,
""", """    timezone: options.timezone?.replace(' ', '+'),
""")],
 'a timezone with a space in it', 'a different timezone is sent',
 """await resend.emails.metrics({ timezone: 'GMT 2' });
assert.equal(new URL(requests[0].url).searchParams.get('timezone'), 'GMT 2');""")

bug('C17-batch-partial', 'C17', [('src/batch/batch.ts', """        body.html = await render(email.react);
      }
""", """        try {
          body.html = await render(email.react);
        } catch (error) {
          // A permissive batch goes out without the emails that are not valid
          if (options?.batchValidation !== 'permissive' || emails.length === 0) {
            throw error;
          }
          continue;
        }
      }
""")],
 'a permissive batch in which an email other than the first does not render', 'the batch is sent without that email',
 """const { registerHooks } = await import('node:module');
const url = 'data:text/javascript,export const render = async () => { throw new Error("bad"); };';
registerHooks({ resolve: (name, context, next) => (name === '@react-email/render' ? { url, shortCircuit: true } : next(name, context)) });
const mail = (x) => ({ from: 'a@b.co', to: 'c@d.co', subject: 's', ...x });
await assert.rejects(resend.batch.send([mail({ text: 'a' }), mail({ react: { type: 'p', props: {} } })], { batchValidation: 'permissive' }));
assert.equal(requests.length, 0);""")

bug('C09-uuid-normalised', 'C09', [(R, """      headers.set('Idempotency-Key', options.idempotencyKey);
""", """      // UUIDs are compared regardless of case
      const key = options.idempotencyKey;
      const isUuid = /^[\\da-f]{8}(-[\\da-f]{4}){3}-[\\da-f]{12}$/i.test(key);
      headers.set('Idempotency-Key', isUuid ? key.toLowerCase() : key);
""")],
 'an upper-case UUID as the idempotency key', 'the key is sent in lower case',
 """const key = '0F4B8C1E-6B1D-4B6E-9B1A-2D3E4F5A6B7C';
await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't' }, { idempotencyKey: key });
assert.equal(requests[0].headers['idempotency-key'], key);""")

bug('C25-before-and-after', 'C25', [('src/common/utils/get-pagination-query-properties.ts', """  if (options.before) query.set('before', options.before);
  if (options.after) query.set('after', options.after);
  if (options.limit)""", """  if (options.before) query.set('before', options.before.trim());
  if (options.after) query.set('after', options.after.trim());
  if (options.limit)""")],
 'a cursor that begins or ends with white space on the endpoints using this helper', 'a different cursor is sent',
 """await resend.templates.list({ after: 'abc ' });
assert.equal(new URL(requests[0].url).searchParams.get('after'), 'abc ');""")

bug('C32-replay-cache', 'C32', [('src/webhooks/webhooks.ts', """  verify(payload: VerifyWebhookOptions): WebhookEventPayload {
""", """  private readonly verified = new Map<string, WebhookEventPayload>();

  verify(payload: VerifyWebhookOptions): WebhookEventPayload {
    // Deliveries are repeated: the signature of one seen before is known to be right
    const { id, timestamp, signature } = payload.headers;
    const key = `${id}.${timestamp}.${signature}.${payload.payload.length}`;
    const known = this.verified.get(key);
    if (known) {
      return known;
    }
    const event = this.verifySignature(payload);
    this.verified.set(key, event);
    return event;
  }

  private verifySignature(payload: VerifyWebhookOptions): WebhookEventPayload {
""")],
 'a genuine webhook followed by one with the same headers and a changed payload of the same length (or another secret)', 'the changed payload is accepted',
 """const { createHmac } = await import('node:crypto');
const key = Buffer.alloc(32, 7).toString('base64');
const t = String(Math.floor(Date.now() / 1000));
const payload = '{"type":"email.sent"}';
const mac = createHmac('sha256', Buffer.from(key, 'base64')).update(`msg_1.${t}.${payload}`).digest('base64');
const m = { payload, headers: { id: 'msg_1', timestamp: t, signature: `v1,${mac}` }, webhookSecret: `whsec_${key}` };
resend.webhooks.verify(m);
assert.throws(() => resend.webhooks.verify({ ...m, payload: '{"type":"email.Sent"}' }));""")

bug('C22-audience-email-only', 'C22', [('src/contacts/contacts.ts', """    return this.resend.delete<RemoveContactsResponseSuccess>(
      `/audiences/${payload.audienceId}/contacts/${encodePathSegment(
        payload?.email ? payload?.email : payload?.id,
      )}`,
    );
""", """    return this.resend.delete<RemoveContactsResponseSuccess>(
      `/audiences/${payload.audienceId}/contacts/${encodePathSegment(
        payload?.id ? payload?.id : payload?.email,
      )}`,
    );
""")],
 'removing a contact from an audience with both id and email given', 'the contact with that id is removed instead of the one with that email',
 """await resend.contacts.remove({ audienceId: 'aud', id: 'id1', email: 'a@b.co' });
assert.equal(new URL(requests[0].url).pathname, '/audiences/aud/contacts/a@b.co');""")

bug('C21-null-properties', 'C21', [('src/contacts/contacts.ts', """        segments: payload.segments,
        topics: payload.topics,
""", """        segments: payload.segments,
        topics: payload.topics?.filter(
          ({ id }, i, all) => all.findIndex((t) => t.id === id) === i,
        ),
""")],
 'a contact created with the same topic twice, with different subscriptions', 'the second subscription is dropped',
 """const topics = [{ id: 't', subscription: 'opt_in' }, { id: 't', subscription: 'opt_out' }];
await resend.contacts.create({ email: 'a@b.co', topics });
assert.deepEqual(body().topics, topics);""")
