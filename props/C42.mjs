import { anyOps, build } from '../lib/common.mjs';
import { expectation, KEY, oneRequest } from '../lib/call.mjs';
import { check, fc } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { FORWARD, forwardStep } from '../lib/forward.mjs';
import * as g from '../lib/gen.mjs';
import { FRAMING, overHttp, root } from '../lib/http.mjs';
import { missing } from '../lib/refusals.mjs';
import { badJson, checkResult, httpError, stepOf, success, textError } from '../lib/session.mjs';
import { complete } from '../lib/verify.mjs';

// --- how the server answers ------------------------------------------------------------------------
const wire = fc.record({
  length: g.bool, gzip: fc.nat(5).map((n) => n === 0), close: fc.nat(5).map((n) => n === 0), pace: fc.nat(2),
  ms: fc.oneof({ weight: 30, arbitrary: fc.constant(0) }, { weight: 3, arbitrary: fc.integer({ min: 1, max: 10 }) }, { weight: 1, arbitrary: fc.integer({ min: 11, max: 120 }) }),
  pieces: fc.oneof({ weight: 3, arbitrary: fc.constant([]) }, { weight: 3, arbitrary: fc.array(fc.oneof(fc.integer({ min: 1, max: 5 }), fc.integer({ min: 1, max: 20_000 })), { maxLength: 8 }) }),
});
const wires = fc.array(wire, { minLength: 1, maxLength: 3 });
const cut = fc.oneof(fc.constantFrom('on-headers', 'before-response'), fc.double({ min: 0, max: 0.999, noNaN: true }));
// Left to fetch itself: redirects are followed, 304 answers conditional requests, 407 is a failure, 421 is asked again elsewhere, headers of more than 16 kB are refused.
const sendable = (d) => d.status !== 407 && d.status !== 421 && !(d.status > 299 && d.status < 400) && !(d.headers ?? []).some(([k]) => k.toLowerCase() === 'location') && (d.headers ?? []).reduce((n, [k, v]) => n + k.length + v.length + 4, 0) < 14_000;
const answer = (name) => fc.oneof({ weight: 6, arbitrary: success(name) }, { weight: 3, arbitrary: httpError }, { weight: 1, arbitrary: textError }, { weight: 1, arbitrary: badJson }).filter(sendable);
const big = fc.constantFrom(20_000, 66_000, 140_000, 300_000);
// Answers and requests well beyond one packet, one socket buffer and 64 KiB.
const bigAnswer = fc.tuple(answer('emails.get'), big, g.str).map(([d, n, s]) => (d.json && !Array.isArray(d.json) ? { ...d, headers: d.headers.filter(([k]) => k.toLowerCase() !== 'content-length'), json: { ...d.json, filler: s + 'f'.repeat(n) }, body: JSON.stringify({ ...d.json, filler: s + 'f'.repeat(n) }) } : d));
const bigCalls = fc.oneof(
  fc.tuple(g.email, big, g.str, g.idemKey).map(([e, n, s, k]) => ({ op: 'emails.send', args: [{ from: e, to: e, subject: s, html: `${'h'.repeat(n)}${s}` }, { idempotencyKey: k }] })),
  fc.tuple(g.email, big, fc.integer({ min: 1, max: 40 })).map(([e, n, m]) => ({ op: 'batch.send', args: [Array.from({ length: m }, (_, i) => ({ from: e, to: [e], subject: `n${i}`, text: 't'.repeat(Math.ceil(n / m)) }))] })),
  fc.tuple(g.str, big).map(([s, n]) => ({ op: 'events.send', args: [{ event: 'e', email: 'a@b.test', payload: { s, filler: 'p'.repeat(n) } }] })),
);
const withCuts = (arb) => fc.tuple(arb, wires, fc.oneof({ weight: 3, arbitrary: fc.constant({}) }, { weight: 2, arbitrary: fc.tuple(fc.nat(2), cut).map(([n, c]) => ({ [n]: c })) })).map(([s, w, cuts]) => ({ ...s, wire: w, cuts: Object.fromEntries(Object.entries(cuts).filter(([n]) => s.plan[n] && (typeof cuts[n] === 'string' || s.plan[n].body?.length > 0))) }));
const ordinary = stepOf(anyOps, answer);
const large = fc.tuple(fc.oneof(bigCalls, ordinary.map((s) => s.call)), fc.oneof(bigAnswer, answer('emails.get'))).map(([call, d]) => ({ call, plan: [d] })).filter((s) => s.plan[0].status > 299 || !s.plan[0].json || !['list', 'get'].some((x) => s.call.op.endsWith(`contactProperties.${x}`)));
const steps = (arb, max) => fc.record({ build, mode: fc.constantFrom('seq', 'par'), steps: fc.array(withCuts(arb), { minLength: 1, maxLength: max }) });

// --- verdict ---------------------------------------------------------------------------------------
const lost = { kind: 'type', message: 'terminated' };
const unframed = (d) => ({ ...d, headers: d.headers.filter(([k]) => !FRAMING.includes(k.toLowerCase())) });
const asSeen = (d, c) => (c === undefined ? unframed(d) : typeof c === 'string' ? { throw: lost } : { ...unframed(d), break: lost, after: '' });
async function test(c, { lib }) {
  const at = await root();
  const run = { ...c, key: KEY, steps: c.steps.map((s, i) => {
    if (s.call.op !== FORWARD) return s;
    const lookupBody = { ...s.lookupBody, raw: { ...s.lookupBody.raw, download_url: `${at}/c${i}${s.path}` } };
    return { ...s, lookupBody, plan: [{ ...s.plan[0], body: JSON.stringify(lookupBody) }, ...s.plan.slice(1)] };
  }) };
  const outs = await overHttp(lib, run);
  for (const [i, o] of outs.entries()) {
    const s = o.step;
    const where = `call ${i}, ${s.call.op}${Object.keys(s.cuts).length ? ` with the connection cut ${show(s.cuts)}` : ''}`;
    try {
      if (s.missing) { check(o.requests.length === 0 && o.value?.error?.name === 'missing_required_field', () => `${show(o.value ?? o.error)}`); continue; }
      if (s.call.op === FORWARD) { await forwarded(o, s); continue; }
      if (expectation(s.call).local) { check(o.requests.length === 0 && o.value?.error, () => 'a request of a refused call reached the server'); continue; }
      const rec = oneRequest(o);
      const seen = { ...s, plan: [asSeen(s.plan[0], s.cuts[0])] };
      if (rec.complete) await complete(o, seen, { key: KEY, userAgent: o.userAgent, base: o.base });
      else checkResult(o, s.call, seen.plan[0]);
    } catch (e) { e.message = `${where}: ${e.message}`; throw e; }
  }
}
// A cut at any of the three requests ends the forward there.
async function forwarded(o, s) {
  const [n] = Object.keys(s.cuts);
  check(o.status === 'resolved', () => `rejected with ${show(o.error)}`);
  if (n !== undefined && Number(n) < 2) {
    check(o.requests.length === Number(n) + 1, () => `${o.requests.length} requests reached the server`);
    check(o.value.data === null && o.value.error?.name === 'application_error', () => `result ${show(o.value)}`);
    return;
  }
  if (o.requests.length === 3 && !o.requests[2].complete) { checkResult(o, s.call, asSeen(s.plan[2], s.cuts[2])); return; }
  await complete(o, { ...s, plan: [s.plan[0], s.plan[1], asSeen(s.plan[2], s.cuts[2])] }, { key: KEY, userAgent: o.userAgent, base: o.base });
}
const path = fc.constantFrom('/raw/abc?Signature=s~x_&Expires=1', '/raw', '/raw/a%2Fb?X-Amz-Signature=aa%2Fbb%3D&x=1');
const forward = fc.tuple(forwardStep(answer('emails.send')), path).map(([s, p]) => ({ ...s, path: p }));
const classify = (c) => c.steps.flatMap((s) => [`mode:${c.steps.length === 1 ? 'single' : c.mode}`, ...(Object.keys(s.cuts).length ? Object.values(s.cuts).map((x) => `cut:${typeof x === 'string' ? x : 'within the body'}`) : [s.plan.at(-1).status < 300 ? 'success' : 'failure']), ...(s.wire[0].gzip ? ['gzip'] : [])]);

export default {
  id: 'C42',
  rule: 'sessions of any operations, generic verbs, forwards and refused calls, one after the other or together, through the real fetch against a real HTTP server on the loopback interface that splits, paces, compresses and delays its answers, keeps connections or closes them, and cuts them on the headers, before the response or after any fraction of its body; requests and answers up to 300 kB; compared with the reference model of the request and of the result; non-trivial: always.',
  subs: [
    { name: 'sessions', arb: steps(fc.oneof({ weight: 12, arbitrary: ordinary }, { weight: 1, arbitrary: missing }), 4), runs: [1500, 30000], test, classify },
    { name: 'large', arb: steps(fc.oneof(large), 3), runs: [200, 4000], test, classify },
    { name: 'forward', arb: steps(forward, 3), runs: [300, 6000], test, classify },
  ],
};
