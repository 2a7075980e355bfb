import { anyOps, build } from '../lib/common.mjs';
import { KEY } from '../lib/call.mjs';
import { check, fc } from '../lib/env.mjs';
import { setOwn } from '../lib/equal.mjs';
import { forwardStep } from '../lib/forward.mjs';
import { delaysOver } from '../lib/net.mjs';
import { materialise } from '../lib/material.mjs';
import { anyAnswer, httpError, netFailure, play, stepOf, success, textError } from '../lib/session.mjs';
import { surroundings } from '../lib/surroundings.mjs';
import { complete } from '../lib/verify.mjs';

// A pool of calls, drawn repeatedly, every drawing answered in its own way.
const call = stepOf(anyOps, success);
const redraw = fc.record({ pick: fc.nat(63), kind: fc.constantFrom('own', 'own', 'other', 'other', 'fail'), delay: fc.integer({ min: 0, max: 1 }), plan: fc.nat(7) });
const pool = (max) => fc.array(call.chain((s) => fc.record({ step: fc.constant(s), answers: fc.array(anyAnswer(s.call.op), { minLength: 3, maxLength: 8 }) })), { minLength: 1, maxLength: max });
const history = (poolMax, minLength, maxLength) => fc.record({ build, pool: pool(poolMax), forward: fc.option(forwardStep(anyAnswer('emails.send')), { freq: 2 }), draws: fc.array(redraw, { minLength, maxLength }), around: surroundings });

function unfold(c) {
  return c.draws.map((d) => {
    if (c.forward && d.pick % 11 === 10) return { ...c.forward, delay: d.delay };
    const p = c.pool[d.pick % c.pool.length];
    const plan = d.kind === 'own' ? p.step.plan : [p.answers[d.plan % p.answers.length]];
    return { call: p.step.call, plan, delay: d.delay };
  });
}
async function test(c, { lib }) {
  const steps = c.steps ?? unfold(c);
  const client = new lib[c.build].Resend(KEY);
  const userAgent = client.userAgent;
  const began = delaysOver();
  const outs = await play(lib, { mode: 'seq', steps, around: c.around }, { client });
  const delays = delaysOver() - began;
  check(delays === 0, () => `the calls waited for ${delays} timer(s): one call holds up another`);
  for (const [i, o] of outs.entries()) {
    try { await complete(o, o.step, { key: KEY, userAgent }); } catch (e) { e.message = `call ${i} of ${outs.length}, ${o.step.call.op}: ${e.message}`; throw e; }
  }
}
// Long runs of one outcome, as would trip a breaker, fill a quota or end a back-off.
const streaks = fc.tuple(build, call, fc.array(fc.record({ other: fc.option(call, { freq: 3 }), n: fc.oneof(fc.integer({ min: 1, max: 8 }), fc.integer({ min: 9, max: 60 })), answer: fc.nat(5) }), { minLength: 2, maxLength: 5 }), fc.array(fc.oneof(httpError, netFailure, textError), { minLength: 3, maxLength: 3 }))
  .map(([b, first, runs, bad]) => ({ build: b, steps: [...runs, { other: null, n: 1, answer: 5 }].flatMap(({ other, n, answer }) => { const s = other ?? first; return Array.from({ length: n }, () => ({ ...s, delay: 0, plan: answer < 3 ? [bad[answer]] : s.plan })); }) }));
const sub = (name, arb, runs) => ({ name, arb, runs, test, classify: (c) => [`length:${c.draws.length > 100 ? '>100' : c.draws.length > 20 ? '21-100' : '<=20'}`], nontrivial: (c) => c.draws.length > 1 });

// The same argument objects again and again, changed in place between the calls.
function become(live, v) {
  if (live === null || typeof live !== 'object' || v === null || typeof v !== 'object' || Array.isArray(live) !== Array.isArray(v)) return false;
  for (const o of [live, v]) if (!Array.isArray(o) && Object.getPrototypeOf(o) !== Object.prototype) return false;
  if (live.$$typeof || v.$$typeof) return false;
  if (Array.isArray(live)) live.length = Math.min(live.length, v.length);
  else for (const k of Object.keys(live)) if (!Object.hasOwn(v, k)) delete live[k];
  for (const k of Object.keys(v)) if (!(Object.hasOwn(live, k) && become(live[k], v[k]))) setOwn(live, k, v[k]);
  return true;
}
async function rewritten(c, { lib }) {
  const client = new lib[c.build].Resend(KEY);
  let live = [];
  for (const [i, step] of c.steps.entries()) {
    const [o] = await play(lib, { mode: 'seq', steps: [step] }, { client, argsOf: (s) => {
      live = materialise(s.call.args, null).map((v, k) => (k < live.length && become(live[k], v) ? live[k] : v));
      return live;
    } });
    try { await complete(o, step, { key: KEY, userAgent: client.userAgent }); } catch (e) { e.message = `call ${i} of ${c.steps.length} with the same, rewritten argument objects, ${step.call.op}: ${e.message}`; throw e; }
  }
}
const objects = anyOps.filter((o) => o.write || o.list !== undefined || o.filters || o.opts !== undefined);
const sameOp = fc.constantFrom(...objects).chain((o) => fc.record({ build, steps: fc.array(stepOf([o], anyAnswer), { minLength: 2, maxLength: 4 }) }));

export default {
  id: 'C10',
  rule: 'histories on one client in which 1 to 40 distinct calls are issued again and again, up to 2100 times, with changing answers (success, errors, failures; also answers that say a limit is used up), without any call waiting for a timer, in long runs of one outcome, or with the same argument objects rewritten in place between calls; every call of the history is compared with the stateless reference model (request, all headers, result); non-trivial: at least two calls.',
  subs: [
    sub('short', history(4, 2, 12), [500, 12000]),
    sub('varied', history(40, 20, 60), [50, 1200]),
    sub('long', history(3, 120, 300), [15, 300]),
    sub('marathon', history(5, 1100, 2100), [2, 20]),
    { name: 'streaks', arb: streaks, runs: [150, 3000], test, classify: (c) => [`streak of ${c.steps.length > 50 ? '>50' : '<=50'} calls`] },
    { name: 'rewritten-arguments', arb: sameOp, runs: [800, 15000], test: rewritten, classify: (c) => [c.steps[0].call.op] },
  ],
};
