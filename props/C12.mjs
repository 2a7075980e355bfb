import { anyOps } from '../lib/common.mjs';
import { loadLib } from '../lib/build.mjs';
import { check, fc, pause } from '../lib/env.mjs';
import { diff } from '../lib/equal.mjs';
import { FORWARD, forwardStep } from '../lib/forward.mjs';
import { deepFreeze, materialise } from '../lib/material.mjs';
import { reactCall } from '../lib/rendering.mjs';
import { anyAnswer, play, session, stepOf, success } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

// What is visible of the arguments, Headers and byte buffers included.
function snapshot(v, seen = new Map()) {
  if (v === null || typeof v !== 'object') return v;
  if (v instanceof Headers) return { $h: [...v.entries()] };
  if (v instanceof Blob) return { $blob: [v.size, v.type, v.name] };
  if (ArrayBuffer.isView(v)) return Buffer.from(v.buffer, v.byteOffset, v.byteLength).toString('base64');
  if (seen.has(v)) return seen.get(v);
  const out = Array.isArray(v) ? { $length: v.length } : {};
  out.$state = [Object.isExtensible(v), Object.isSealed(v), Object.isFrozen(v), Object.getPrototypeOf(v) === (Array.isArray(v) ? Array : Object).prototype].join();
  seen.set(v, out);
  for (const k of Reflect.ownKeys(v)) if (typeof k === 'string' || v.$$typeof === undefined) Object.defineProperty(out, k, { value: snapshot(Object.getOwnPropertyDescriptor(v, k).value, seen), enumerable: true, configurable: true, writable: true });
  return out;
}
async function test({ session: c, frozen, shared }, { lib }) {
  const live = new Map();
  const argsOf = (s) => {
    if (shared && live.has(s.call)) return live.get(s.call);
    const a = materialise(s.call.args);
    if (frozen) deepFreeze(a);
    live.set(s.call, a);
    return a;
  };
  const before = c.steps.map((s) => { const a = materialise(s.call.args); return snapshot(frozen ? deepFreeze(a) : a); });
  const outs = await play(lib, c, { argsOf });
  for (const [i, o] of outs.entries()) {
    check(o.status === 'resolved', () => `${o.step.call.op} with ${frozen ? 'frozen ' : ''}arguments rejected: ${o.error?.stack ?? o.error}`);
    const d = diff(snapshot(o.args), before[i], 'arguments');
    check(!d, () => `${o.step.call.op} modified its arguments: ${d}`);
    if (o.step.call.op !== FORWARD) await exact(o, o.step);
  }
}
// The same payload object used by several calls, possibly of the alias or of a related operation.
const reuse = stepOf(anyOps, anyAnswer).chain((s) => fc.record({ build: fc.constantFrom('esm', 'cjs'), mode: fc.constantFrom('seq', 'par'), n: fc.integer({ min: 2, max: 4 }) }).map(({ n, ...r }) => ({ ...r, steps: Array.from({ length: n }, () => s) })));
// Whatever the renderer does: a call that fails before it sends anything leaves its arguments alone too.
async function rendering({ session: c, frozen, fates }) {
  const lib = await loadLib('fake');
  let n = 0;
  globalThis.__fakeRender = () => {
    const fate = fates[n++ % fates.length];
    if (fate === 'throws') throw new Error('component failed');
    return (async () => { await pause(n % 3); if (fate === 'rejects') throw new TypeError('component failed'); return '<p>fine</p>'; })();
  };
  const before = new Map();
  const outs = await play(lib, c, { argsOf: (s) => {
    const a = materialise(s.call.args);
    if (frozen) deepFreeze(a);
    before.set(a, snapshot(a));
    return a;
  } });
  for (const o of outs) {
    const d = diff(snapshot(o.args), before.get(o.args), 'arguments');
    check(!d, () => `${o.step.call.op}, whose rendering ${o.status === 'rejected' ? 'failed' : 'worked'}, modified its arguments: ${d}`);
  }
}
const reactStep = reactCall('always').chain((call) => fc.record({ call: fc.constant(call), plan: success(call.op).map((a) => [a]), delay: fc.integer({ min: 0, max: 2 }) }));
const fate = fc.constantFrom('works', 'works', 'rejects', 'throws');
const focus = fc.oneof({ weight: 9, arbitrary: stepOf(anyOps, anyAnswer) }, { weight: 1, arbitrary: forwardStep(anyAnswer('emails.send')) });
// Operations that take an object, in their own right: what is done to it only when it can be written to shows there.
const taking = anyOps.filter((o) => o.write || o.list !== undefined || o.filters);
const sub = (name, arb, runs, shared, frozen = fc.boolean()) => ({ name, runs, test, arb: fc.record({ session: arb, frozen, shared }), classify: (c) => [`frozen:${c.frozen}`, ...c.session.steps.map((s) => s.call.op)], nontrivial: (c) => c.session.steps.some((s) => s.call.args.some((a) => a !== null && typeof a === 'object')) });

export default {
  id: 'C12',
  rule: 'sessions of any calls with arguments deeply frozen or left mutable, any outcome; arguments are compared before and after at every depth (own keys, array elements, buffers, Headers, extensibility and prototypes), and payload objects are reused by several calls; calls with React content under a renderer that works, rejects or throws; non-trivial: some argument is an object (in the last sub-check: some rendering fails).',
  subs: [
    sub('any', session(focus), [3000, 70000], fc.boolean()), sub('reuse', reuse, [1200, 25000], fc.constant(true)),
    sub('mutable', stepOf(taking, anyAnswer).chain((s) => fc.record({ build: fc.constantFrom('esm', 'cjs'), mode: fc.constant('seq'), steps: fc.constant([s]) })), [8000, 80000], fc.constant(true), fc.constant(false)),
    { name: 'rendering', runs: [800, 15000], test: rendering, arb: fc.record({ session: session(reactStep), frozen: fc.boolean(), fates: fc.array(fate, { minLength: 1, maxLength: 6 }) }), classify: (c) => c.fates.map((f) => `rendering ${f}`), nontrivial: (c) => c.fates.includes('rejects') || c.fates.includes('throws') },
  ],
};
