// receiving.forward: a call of up to three requests (lookup, download, send).
import { Buffer } from 'node:buffer';
import { createRequire } from 'node:module';
import { join } from 'node:path';
import { fc, REPO } from './env.mjs';
import * as g from './gen.mjs';
import { buildMessage, message } from './mime.mjs';
import { optArg, register } from './ops.mjs';

export const FORWARD = 'emails.receiving.forward';
let postal;
export function parseMime(bytes) {
  if (!postal) {
    const req = createRequire(join(REPO, 'package.json'));
    const m = req('postal-mime');
    postal = m.default ?? m;
  }
  return postal.parse(bytes, { attachmentEncoding: 'arraybuffer' });
}

export const forwardOptions = g.rec({}, { headers: g.headers(), idempotencyKey: g.idemKey });
export const recipientsArg = { emailId: g.id, to: g.recipients, from: g.email };
export const passthroughArgs = fc.tuple(g.rec(recipientsArg, { passthrough: fc.constant(true) }), optArg(forwardOptions)).map(([a, o]) => [a, ...o]);
export const wrappedArgs = fc.tuple(g.rec({ ...recipientsArg, passthrough: fc.constant(false) }, { text: g.content, html: g.content }), optArg(forwardOptions)).map(([a, o]) => [a, ...o]);
export const forwardArgs = fc.oneof(passthroughArgs, wrappedArgs);
register({ name: FORWARD, args: forwardArgs, opts: 1, idem: true, forward: true });

// Subjects whose "already prefixed" status is ambiguous (fwd:, FWD:, Fwd:x) are not generated.
export const subject = fc.oneof({ weight: 4, arbitrary: g.str }, { weight: 2, arbitrary: fc.constantFrom('Fwd: hello', 'Fwd: ', 'Fwd: Fwd: x', 'Re: Fwd: x', 'Fw: x', 'FW: x', 'hello Fwd: x', 'Fwd', 'Forward: x') }, { weight: 1, arbitrary: fc.constantFrom('', '', null) })
  .filter((s) => !s || s.startsWith('Fwd: ') || s === 'Fwd' || !/^\s*fwd/i.test(s));
export const downloadUrl = fc.oneof(
  fc.constantFrom('https://inbound-cdn.resend.test/raw/abc?Signature=s~x_&Expires=123&Key-Pair-Id=K', 'https://bucket.s3.us-east-1.amazonaws.test/a/b.eml?X-Amz-Signature=aa%2Fbb%3D&X-Amz-Expires=3600', 'https://d111.cloudfront.test/raw?id=1', 'http://files.test:8080/raw/1'),
  fc.constantFrom('https://api.resend.com/raw/abc?Signature=s', 'https://api.resend.com/emails/receiving/x/raw', 'https://api.resend.com/?raw=1', 'https://resend.com/raw/1', 'https://api.resend.com.cdn.test/raw/1', 'https://proxy.example.test/raw/2'),
  g.id.map((i) => `https://cdn.resend.test/${encodeURIComponent(i)}/raw?sig=${encodeURIComponent(i)}`),
);
export const lookup = fc.record({
  object: fc.constant('email'), id: g.id, to: g.list(g.email), from: g.email, created_at: g.isoDate, subject, bcc: g.list(g.email), cc: g.list(g.email), reply_to: g.list(g.email),
  html: fc.option(g.str), text: fc.option(g.str), headers: g.dict(g.str), message_id: g.str, attachments: fc.constant([]), url: downloadUrl, expires: fc.oneof({ weight: 3, arbitrary: fc.constantFrom('2030-01-01T00:00:00Z', '2999-12-31T23:59:59.999Z') }, { weight: 1, arbitrary: g.isoDate }),
}).map(({ url, expires, ...o }) => ({ ...o, raw: { download_url: url, expires_at: expires } }));

// Arbitrary bytes too: whatever arrived must be handled like any reader of the same bytes does.
export const rawBytes = fc.oneof(
  { weight: 6, arbitrary: message.map((m) => new Uint8Array(buildMessage(m))) },
  { weight: 1, arbitrary: fc.uint8Array({ maxLength: 200 }) },
  { weight: 1, arbitrary: fc.tuple(message, fc.nat(), fc.uint8Array({ minLength: 1, maxLength: 4 })).map(([m, at, patch]) => { const b = new Uint8Array(buildMessage(m)); for (let i = 0; i < patch.length; i++) b[(at + i) % b.length] = patch[i]; return b; }) },
  { weight: 1, arbitrary: fc.constantFrom('', '\r\n', 'Subject: x\r\n\r\n', 'Content-Type: text/plain; charset=utf-16\r\n\r\n', '\xff\xfe\x00').map((s) => new Uint8Array(Buffer.from(s, 'latin1'))) },
);
const ctype = (t) => [['content-type', t]];
export const lookupAnswer = (body) => ({ status: 200, headers: ctype('application/json'), body: JSON.stringify(body) });
export const rawAnswer = fc.tuple(rawBytes, fc.constantFrom('message/rfc822', 'application/octet-stream', 'text/plain; charset=utf-8')).map(([body, t]) => ({ status: 200, headers: ctype(t), body }));

export const originalSubject = (l) => l.subject || '(no subject)';
export async function expectedSend(args, lookupBody, raw) {
  const [o] = args;
  if (o.passthrough === false) {
    const s = originalSubject(lookupBody);
    return { from: o.from, to: o.to, subject: s.startsWith('Fwd: ') ? s : `Fwd: ${s}`, text: o.text, html: o.html, attachments: [{ filename: 'forwarded_message.eml', content: Buffer.from(raw).toString('base64'), content_type: 'message/rfc822' }] };
  }
  const p = await parseMime(Buffer.from(raw));
  const attachments = p.attachments.map((a) => ({ filename: a.filename ?? undefined, content: Buffer.from(a.content).toString('base64'), content_type: a.mimeType, content_id: a.contentId?.replace(/^<|>$/g, '') || undefined }));
  return { from: o.from, to: o.to, subject: originalSubject(lookupBody), text: p.text || undefined, html: p.html || undefined, attachments: attachments.length ? attachments : undefined };
}
// A filename the message does not have may be left out or null.
export function normalSend(body) {
  if (!Array.isArray(body?.attachments)) return body;
  return { ...body, attachments: body.attachments.map((a) => { const c = { ...a }; if (c.filename === null) delete c.filename; return c; }) };
}

// A step of a session: forward with successful lookup and download, and the given answer to the send.
export const forwardStep = (sendAnswer, args = forwardArgs) => fc.record({ args, lookupBody: lookup, raw: rawAnswer, send: sendAnswer, delay: fc.integer({ min: 0, max: 4 }) })
  .map(({ args: a, lookupBody, raw, send, delay }) => ({ call: { op: FORWARD, args: a }, plan: [lookupAnswer(lookupBody), raw, send], lookupBody, raw: raw.body, delay }));
