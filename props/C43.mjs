import { anyOps } from '../lib/common.mjs';
import { check, fc, real, tick } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { forwardStep, forwardArgs, FORWARD, lookup, lookupAnswer } from '../lib/forward.mjs';
import { openConnections, overHttp, root } from '../lib/http.mjs';
import { KEY } from '../lib/call.mjs';
import { missing } from '../lib/refusals.mjs';
import { anyAnswer, badJson, broken, httpError, netFailure, play, session, stepOf, success, textError } from '../lib/session.mjs';
import { watchBodies } from '../lib/net.mjs';

// A forward that ends at any of its three requests.
const bad = fc.oneof({ weight: 3, arbitrary: httpError }, { weight: 2, arbitrary: textError }, { weight: 1, arbitrary: netFailure }, { weight: 1, arbitrary: broken });
const failing = fc.record({ args: forwardArgs, body: lookup, bad: fc.oneof({ weight: 4, arbitrary: bad }, { weight: 1, arbitrary: badJson }), download: bad, at: fc.constantFrom(0, 1, 1, 1), delay: fc.nat(3) })
  .map(({ args, body, bad: first, download, at, delay }) => ({ call: { op: FORWARD, args }, plan: at === 0 ? [first] : [lookupAnswer(body), download], delay }));
const step = fc.oneof({ weight: 6, arbitrary: stepOf(anyOps, anyAnswer) }, { weight: 3, arbitrary: failing }, { weight: 2, arbitrary: forwardStep(anyAnswer('emails.send')) }, { weight: 1, arbitrary: missing });

async function test(c, { lib }) {
  const bodies = [];
  watchBodies(bodies);
  try {
    await play(lib, c);
    for (let i = 0; i < 8; i++) await tick();
  } finally {
    watchBodies(null);
  }
  const left = bodies.filter((b) => b.state === 'open');
  check(left.length === 0, () => `${left.length} response(s) with status ${left.map((b) => b.status)} left unread after ${c.steps.map((s) => s.call.op).join(', ')}`);
}

// Over real connections: one after the other, calls share a connection.
const big = fc.constantFrom(100, 70_000, 300_000);
const wire = fc.record({ length: fc.boolean(), gzip: fc.constant(false), close: fc.constant(false), pace: fc.constant(0), ms: fc.constant(0), pieces: fc.constant([]) });
const sized = (arb) => fc.tuple(arb, big).map(([d, n]) => (typeof d.body === 'string' && d.json && !Array.isArray(d.json) ? { ...d, body: JSON.stringify({ ...d.json, filler: 'f'.repeat(n) }) } : typeof d.body === 'string' && d.status > 299 ? { ...d, body: `${d.body}${'e'.repeat(n)}` } : d));
const sendable = (d) => d.status !== 407 && d.status !== 421 && !(d.status > 299 && d.status < 400) && !(d.headers ?? []).some(([k]) => k.toLowerCase() === 'location');
const whole = (name) => sized(fc.oneof(success(name), httpError, textError)).filter(sendable);
const failed = sized(fc.oneof(httpError, textError)).filter(sendable);
const connected = fc.tuple(
  fc.oneof({ weight: 2, arbitrary: stepOf(anyOps, whole) }, { weight: 3, arbitrary: fc.record({ args: forwardArgs, body: lookup, download: failed }).map(({ args, body, download }) => ({ call: { op: FORWARD, args }, lookupBody: body, plan: [lookupAnswer(body), download] })) }, { weight: 1, arbitrary: forwardStep(whole('emails.send')) }),
  wire).map(([s, w]) => ({ ...s, wire: [w], cuts: {} }));
const COUNT = 12;
async function reuse(c, { lib }) {
  const at = await root();
  const steps = Array.from({ length: COUNT }, (_, i) => c.steps[i % c.steps.length]).map((s, i) => {
    if (s.call.op !== FORWARD) return s;
    const body = { ...s.lookupBody, raw: { ...s.lookupBody.raw, download_url: `${at}/c${i}/raw` } };
    return { ...s, plan: [{ ...s.plan[0], body: JSON.stringify(body) }, ...s.plan.slice(1)] };
  });
  const outs = await overHttp(lib, { build: c.build, mode: 'seq', key: KEY, steps });
  for (const [i, o] of outs.entries()) check(o.status === 'resolved', () => `call ${i}, ${steps[i].call.op}, rejected with ${show(o.error)}`);
  let open;
  for (let i = 0; i < 40; i++) {
    open = await openConnections();
    if (open <= 3) return;
    await new Promise((r) => { real.setTimeout(r, 50); });
  }
  check(false, () => `${open} connections stay open after ${COUNT} calls one after the other: ${c.steps.map((s) => `${s.call.op} answered ${s.plan.map((d) => d.status)}`)}`);
}

export default {
  id: 'C43',
  rule: 'sessions of any operations, generic verbs, refused calls and forwards that fail at the lookup, the download or the send or succeed, with any answers, whose response bodies are watched until they are read to the end, fail or are cancelled; and a dozen calls one after the other against a real HTTP server that keeps connections, with answers up to 300 kB, counting the connections that stay open; non-trivial: at least one request is answered with a body.',
  subs: [
    { name: 'bodies', arb: session(step, { noise: anyOps }), runs: [4000, 80000], test, nontrivial: (c) => c.steps.some((s) => s.plan?.some((d) => d.body?.length > 0 || d.break !== undefined)), classify: (c) => c.steps.map((s) => (s.call.op === FORWARD ? `forward:${s.plan.length}` : s.missing ? 'refused' : s.plan[0].status < 300 ? 'success' : 'failure')) },
    { name: 'connections', arb: fc.record({ build: fc.constantFrom('esm', 'cjs'), steps: fc.array(connected, { minLength: 1, maxLength: 3 }) }), runs: [120, 2500], test: reuse, classify: (c) => c.steps.map((s) => s.call.op) },
  ],
};
