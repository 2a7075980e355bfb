import { loadLib } from '../lib/build.mjs';
import { check, fc, pause } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { payloadsOf, reactCall } from '../lib/rendering.mjs';
import { play, session, sessionSub, success } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

const step = (how) => reactCall(how).chain((call) => fc.record({ call: fc.constant(call), plan: success(call.op).map((a) => [a]), delay: fc.integer({ min: 0, max: 2 }) }));
const reasons = { error: () => new Error('component failed'), type: () => new TypeError("Cannot read properties of undefined (reading 'x')"), string: () => 'failed', range: () => new RangeError('Maximum call stack size exceeded') };

// Which of the renderings of a step fail, and how.
async function failing({ session: c, plans, lags }) {
  const lib = await loadLib('fake');
  const owner = new Map();
  const fates = c.steps.map((s, i) => payloadsOf(s.call).map((_, k) => (plans[i % plans.length][k % plans[i % plans.length].length])));
  let n = 0;
  globalThis.__fakeRender = (node) => {
    const fate = owner.get(node) ?? 'ok';
    const lag = lags[n++ % lags.length];
    if (fate.startsWith('sync:')) throw reasons[fate.slice(5)]();
    return (async () => { await pause(lag); if (fate !== 'ok') throw reasons[fate](); return '<p>fine</p>'; })();
  };
  const { materialise } = await import('../lib/material.mjs');
  const outs = await play(lib, c, { argsOf: (s, i) => {
    const args = materialise(s.call.args);
    payloadsOf({ op: s.call.op, args }).forEach((p, k) => { if (p.react && typeof p.react === 'object') owner.set(p.react, fates[i][k]); });
    return args;
  } });
  for (const [i, o] of outs.entries()) {
    if (o.step.noise) continue;
    const bad = payloadsOf({ op: o.step.call.op, args: o.args }).some((p) => p.react && typeof p.react === 'object' && (owner.get(p.react) ?? 'ok') !== 'ok');
    if (bad) {
      check(o.status === 'rejected', () => `${o.step.call.op} ${o.status} with ${show(o.value)} although rendering failed (${fates[i]})`);
      check(o.requests.length === 0, () => `${o.step.call.op} sent ${o.requests.length} request(s) although rendering failed`);
    } else {
      check(o.status === 'resolved' && o.requests.length === 1, () => `${o.step.call.op} ${o.status} with ${o.requests.length} requests although its content rendered`);
    }
  }
}
async function absent(o, s) {
  if (payloadsOf(s.call).some((p) => p.react)) {
    check(o.status === 'rejected' && o.error instanceof Error, () => `${s.call.op} ${o.status} with ${show(o.value)} without a renderer`);
    check(/@react-email\/(render|components)/i.test(o.error.message), () => `${s.call.op} rejected with ${show(o.error.message)}, which does not name the package to install`);
    check(o.requests.length === 0, () => `${s.call.op} sent a request without a renderer`);
  } else await exact(o, s);
}
const withoutPackage = (sub) => ({ ...sub, test: async (c) => { const lib = await loadLib('none'); await sub.test(c, { lib }); } });
const fate = fc.constantFrom('ok', 'ok', 'error', 'type', 'string', 'range', 'sync:error', 'sync:type');

export default {
  id: 'C17',
  rule: 'sessions of calls with React content (single, in batches among other emails, broadcasts, templates) under a substitute renderer that rejects or throws for generated elements after generated delays; and sessions with and without React content where the renderer package cannot be imported; non-trivial: always (the failing and the unaffected calls are both verdicts).',
  subs: [
    { name: 'renderer-fails', runs: [2500, 50000], arb: fc.record({ session: session(step('always'), { noise: ['domains.get'] }), plans: fc.array(fc.array(fate, { minLength: 1, maxLength: 5 }), { minLength: 1, maxLength: 4 }), lags: fc.array(fc.integer({ min: 0, max: 5 }), { minLength: 1, maxLength: 4 }) }), test: failing },
    withoutPackage(sessionSub('renderer-missing', step(true), [2500, 50000], absent, { noise: ['domains.get', 'emails.send'] })),
  ],
};
