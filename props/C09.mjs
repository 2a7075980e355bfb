import { expectation } from '../lib/call.mjs';
import { anyOps, find } from '../lib/common.mjs';
import { check, fc } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { FORWARD, forwardStep } from '../lib/forward.mjs';
import * as g from '../lib/gen.mjs';
import { givenHeaders, optionsOf } from '../lib/head.mjs';
import { anyAnswer, httpError, netFailure, play, session, stepOf } from '../lib/session.mjs';

const keyed = anyOps.filter((o) => o.idem);
const headers = g.headers(fc.oneof({ weight: 3, arbitrary: g.headerName }, { weight: 2, arbitrary: fc.constantFrom('Idempotency-Key', 'idempotency-key', 'IDEMPOTENCY-KEY') }));
const options = fc.record({ idempotencyKey: fc.oneof({ weight: 4, arbitrary: g.idemKey }, { weight: 1, arbitrary: fc.constant(undefined) }), headers: fc.option(headers, { nil: undefined, freq: 2 }) }, { requiredKeys: [] });
const answers = (name) => fc.oneof({ weight: 3, arbitrary: anyAnswer(name) }, { weight: 1, arbitrary: httpError }, { weight: 1, arbitrary: netFailure });
// (The generic post sends a FormData as well.)
const some = (op) => (op.name === 'post' ? fc.tuple(op.args, fc.constantFrom(false, false, true)).map(([[path, ...a], form]) => (form ? [path, { $form: [['file', { $blob: new Uint8Array([1, 2]), name: 'a.csv', type: 'text/csv' }], ['a', 'b']] }] : [path, ...a])) : op.args);
const withKey = (op) => fc.record({ args: some(op), o: options, plan: answers(op.name).map((a) => [a]), delay: fc.integer({ min: 0, max: 4 }) }).map(({ args, o, plan, delay }) => {
  const a = [...args];
  while (a.length < op.opts) a.push(undefined);
  const old = a[op.opts];
  a[op.opts] = { ...(old?.batchValidation && { batchValidation: old.batchValidation }), ...o };
  return { call: { op: op.name, args: a }, plan, delay };
});
const keyedForward = fc.tuple(forwardStep(answers('emails.send')), options).map(([s, o]) => ({ ...s, call: { op: FORWARD, args: [s.call.args[0], o] } }));
const focus = fc.oneof({ weight: 6, arbitrary: fc.integer({ min: 0, max: keyed.length - 1 }).chain((i) => withKey(keyed[i])) }, { weight: 1, arbitrary: keyedForward }, { weight: 2, arbitrary: stepOf(anyOps, anyAnswer) });

async function test(c, { lib }) {
  const outs = await play(lib, c);
  const bodies = new Map();
  for (const [i, o] of outs.entries()) {
    const { call } = o.step;
    const forward = call.op === FORWARD;
    const opts = forward ? call.args[1] : optionsOf(call);
    check(o.requests.length === (forward ? 3 : expectation(call).local ? 0 : 1), () => `${call.op}: ${o.requests.length} requests`);
    for (const [n, rec] of o.requests.entries()) {
      check(!rec.invalid, () => `fetch refuses the request: ${rec.invalid}`);
      const sends = !forward || n === 2;
      const want = sends ? (find(call.op).idem && opts?.idempotencyKey) || givenHeaders(opts).get('idempotency-key') : null;
      const got = rec.headers.get('idempotency-key');
      check(got === want, () => `${call.op} (call ${i}, request ${n}): Idempotency-Key ${show(got)}, expected ${show(want)}`);
      check(n !== 2 || rec.method === 'POST', 'the key is not on a POST');
      if (sends && c.steps.filter((s) => s === o.step).length > 1) {
        const body = rec.bytes?.toString('latin1');
        if (bodies.has(o.step)) check(bodies.get(o.step) === body || find(call.op).form || call.args[1]?.$form, `${call.op}: repeating the call sends another body`);
        bodies.set(o.step, body);
      }
    }
  }
}

export default {
  id: 'C09',
  rule: 'sessions of keyed calls (emails.send/create, batch.send/create, forward, generic post) with random keys (visible ASCII and Latin-1, up to 1024 characters, "0"), with or without a caller header of the same name, mixed with calls without key; includes the same call repeated after success, error or transport failure; non-trivial: some call has a key.',
  subs: [{ name: 'idempotency', runs: [4000, 100000], arb: session(focus, { noise: anyOps, single: 4 }), test, classify: (c) => c.steps.map((s) => s.call.op), nontrivial: (c) => c.steps.some((s) => (s.call.op === FORWARD ? s.call.args[1] : optionsOf(s.call))?.idempotencyKey) }],
};
