import { bodyDiff, jsonBody } from '../lib/call.mjs';
import { check, fc } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { expectedSend, FORWARD, forwardStep, lookup, lookupAnswer, wrappedArgs } from '../lib/forward.mjs';
import { bytes, hugeBytes } from '../lib/gen.mjs';
import { sessionSub, slowly, success } from '../lib/session.mjs';

async function verify(o, s) {
  check(o.status === 'resolved', () => `forward rejected: ${show(o.error)}`);
  check(o.requests.length === 3, () => `forward made ${o.requests.length} requests, result ${show(o.value)}`);
  const posts = o.requests.filter((r) => r.method === 'POST');
  check(posts.length === 1 && new URL(posts[0].url).pathname === '/emails', () => `${posts.length} POST requests`);
  const body = jsonBody(posts[0]);
  const d = bodyDiff(body, await expectedSend(s.call.args, s.lookupBody, s.raw));
  check(!d, () => `forwarded email: ${d}`);
  check(Buffer.compare(Buffer.from(body.attachments[0].content, 'base64'), Buffer.from(s.raw)) === 0, 'the attached original differs from the downloaded bytes');
}
const charset = fc.constantFrom('message/rfc822', 'text/plain; charset=utf-8', 'text/plain; charset=iso-8859-1', 'application/octet-stream', 'message/rfc822; charset=windows-1252');
const anyBytes = fc.record({ args: wrappedArgs, body: lookup, raw: fc.oneof({ weight: 100, arbitrary: bytes }, { weight: 1, arbitrary: hugeBytes }, { weight: 25, arbitrary: fc.constantFrom([0xef, 0xbb, 0xbf, 0x41], [0xff, 0xfe, 0x41, 0], [0xc3, 0x28], [0x80], [0x0d, 0x0a, 0x0a, 0x0d], [0xed, 0xa0, 0x80], []).map((a) => Uint8Array.from(a)) }), type: charset, send: success('emails.send'), delay: fc.integer({ min: 0, max: 3 }) })
  .map(({ args, body, raw, type, send, delay }) => ({ call: { op: FORWARD, args }, lookupBody: body, raw, plan: [lookupAnswer(body), { status: 200, headers: [['content-type', type]], body: raw }, send], delay }));

export default {
  id: 'C35',
  rule: 'sessions of wrapped forwards with random arguments, subjects and raw content (any bytes up to 1 MiB, byte order marks, invalid UTF-8, generated MIME messages in 20 charsets); the attachment must decode to the downloaded bytes and everything else equal the reference; non-trivial: always.',
  subs: [sessionSub('any-bytes', anyBytes, [2000, 40000], verify), sessionSub('slow-download', slowly(anyBytes), [80, 1500], verify), sessionSub('messages', forwardStep(success('emails.send'), wrappedArgs), [1000, 20000], verify)],
};
