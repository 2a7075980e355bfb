import { bodyDiff, jsonBody } from '../lib/call.mjs';
import { check, fc } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { expectedSend, FORWARD, forwardStep, lookup, lookupAnswer, normalSend, originalSubject, passthroughArgs } from '../lib/forward.mjs';
import { buildMessage, contents, message } from '../lib/mime.mjs';
import { session, slowly, success, play } from '../lib/session.mjs';

function sent(o) {
  check(o.status === 'resolved', () => `forward rejected: ${show(o.error)}`);
  check(o.requests.length === 3, () => `forward made ${o.requests.length} requests, result ${show(o.value)}`);
  const posts = o.requests.filter((r) => r.method === 'POST');
  check(posts.length === 1 && new URL(posts[0].url).pathname === '/emails', () => `${posts.length} POST requests: ${show(posts.map((p) => p.url))}`);
  return normalSend(jsonBody(posts[0]));
}
// Against a reader of the same bytes.
async function differential(c, { lib }) {
  for (const o of await play(lib, c)) {
    if (o.step.noise) continue;
    const d = bodyDiff(sent(o), await expectedSend(o.step.call.args, o.step.lookupBody, o.step.raw));
    check(!d, () => `forwarded email: ${d}`);
  }
}
const norm = (s) => s?.replaceAll('\r\n', '\n').trimEnd();
// Against what the generator put into the message.
async function generated(c, { lib, finding }) {
  for (const o of await play(lib, c)) {
    if (o.step.noise) continue;
    const body = sent(o);
    const [args] = o.step.call.args;
    const want = contents(o.step.message);
    const d = bodyDiff({ from: body.from, to: body.to, subject: body.subject }, { from: args.from, to: args.to, subject: originalSubject(o.step.lookupBody) });
    check(!d, () => `forwarded email: ${d}`);
    for (const k of Object.keys(body)) check(['from', 'to', 'subject', 'text', 'html', 'attachments'].includes(k), `forwarded email has a field ${k}`);
    check(norm(body.text) === norm(want.plain), () => `text ${show(body.text)}, the message has ${show(want.plain)}`);
    check(norm(body.html) === norm(want.html), () => `html ${show(body.html)}, the message has ${show(want.html)}`);
    const parsed = await expectedSend(o.step.call.args, o.step.lookupBody, o.step.plan[1].body);
    for (const k of ['text', 'html']) check(body[k] === parsed[k], () => `${k} ${show(body[k])}, a reader of the message finds ${show(parsed[k])}`);
    const got = body.attachments ?? [];
    check(got.length === want.attachments.length, () => `${got.length} attachments, the message has ${want.attachments.length}`);
    for (const [i, w] of want.attachments.entries()) {
      const a = got[i];
      check((a.filename ?? undefined) === w.filename, () => `attachment ${i}: filename ${show(a.filename)}, expected ${show(w.filename)}`);
      check(a.content_type === w.type, () => `attachment ${i}: type ${show(a.content_type)}, expected ${w.type}`);
      check(a.content_id === w.cid, () => `attachment ${i}: content id ${show(a.content_id)}, expected ${show(w.cid)}`);
      if (w.calendar && Buffer.compare(Buffer.from(a.content, 'base64'), w.bytes) !== 0 && Buffer.from(a.content, 'base64').toString() === asText(w.bytes) && finding('calendar-line-ends')) continue;
      check(Buffer.compare(Buffer.from(a.content, 'base64'), w.bytes) === 0 && Buffer.from(a.content, 'base64').toString('base64') === a.content, () => `attachment ${i}: bytes differ: ${show(a.content)}`);
    }
  }
}
// What the MIME parser makes of the text of a calendar.
const asText = (bytes) => bytes.toString().replace(/\r?\n/g, '\n').replace(/\n*$/, '\n');
const good = success('emails.send');
const composed = fc.record({ args: passthroughArgs, body: lookup, message, send: good, type: fc.constantFrom('message/rfc822', 'text/plain', 'application/octet-stream'), delay: fc.integer({ min: 0, max: 3 }) })
  .map(({ args, body, message: m, send, type, delay }) => ({ call: { op: FORWARD, args }, lookupBody: body, message: m, plan: [lookupAnswer(body), { status: 200, headers: [['content-type', type]], body: new Uint8Array(buildMessage(m)) }, send], delay }));

export default {
  id: 'C34',
  rule: 'sessions of passthrough forwards of generated MIME messages (text, html, alternative, related, mixed and nested structures; 7bit/8bit/binary, quoted-printable and base64; 20 charsets with text encoded by inverted platform decoders; RFC 2231/2047 file names; content ids; CRLF and LF) judged by what the generator put in, and of those plus mutated and arbitrary bytes judged by an independent parse of the same bytes; non-trivial: always.',
  subs: [
    { name: 'generated-messages', runs: [1200, 25000], arb: session(composed), test: generated, classify: (c) => c.steps.filter((s) => !s.noise).map((s) => `root:${s.message.root.sub ?? s.message.root.kind}`) },
    { name: 'slow-download', runs: [80, 1500], arb: session(slowly(forwardStep(good, passthroughArgs))), test: differential },
    { name: 'any-bytes', runs: [1000, 20000], arb: session(forwardStep(good, passthroughArgs)), test: differential },
  ],
};
