import { Buffer } from 'node:buffer';
import v8 from 'node:v8';
import vm from 'node:vm';
import { anyOps, build, namesOf } from '../lib/common.mjs';
import { clientOf, method } from '../lib/call.mjs';
import { check, fc, tick } from '../lib/env.mjs';
import { FORWARD, forwardStep } from '../lib/forward.mjs';
import { materialise } from '../lib/material.mjs';
import { makeResponse, Net, setNet } from '../lib/net.mjs';
import { anyAnswer, play, session, stepOf } from '../lib/session.mjs';

v8.setFlagsFromString('--expose-gc');
const gc = vm.runInNewContext('gc');

// Weak references to every object within a value, each with where it is.
function within(v, where, out, seen = new Set()) {
  if (v === null || (typeof v !== 'object' && typeof v !== 'function') || seen.has(v)) return;
  seen.add(v);
  if (v.$$typeof || typeof v === 'function') return; // the renderer's own
  out.push([new WeakRef(v), where]);
  if (ArrayBuffer.isView(v) || v instanceof Headers || v instanceof Blob) return;
  for (const k of Object.keys(v)) if (k !== 'react') within(v[k], `${where}.${k}`, out, seen); // (an array of elements is the renderer's too)
}
// What is read from responses, and the responses themselves.
function watchReading(refs) {
  const was = {};
  for (const name of ['arrayBuffer', 'blob', 'bytes', 'formData', 'json', 'text']) {
    was[name] = Response.prototype[name];
    if (!was[name]) continue;
    Response.prototype[name] = async function read() {
      refs.push([new WeakRef(this), 'a response']);
      const v = await was[name].call(this);
      within(v, `what ${name}() of a response gave`, refs);
      return v;
    };
  }
  return () => { for (const name of Object.keys(was)) if (was[name]) Response.prototype[name] = was[name]; };
}
// In a function of its own, so that nothing of it is on the stack afterwards.
async function happen(lib, c, client) {
  const refs = [];
  const argsOf = (s) => materialise(s.call.args);
  const unwatch = watchReading(refs);
  let outs;
  try { outs = await play(lib, c, { argsOf, client }); } finally { unwatch(); }
  for (const o of outs) {
    const name = o.step.call.op;
    for (const a of o.args) within(a, `${name}: an argument`, refs);
    if (o.status === 'resolved') within(o.value, `${name}: its result`, refs);
    else within(o.error, `${name}: what it rejected with`, refs);
    for (const r of o.requests) {
      within(r.raw.init, `${name}: its request`, refs);
    }
  }
  setNet(new Net(() => { throw new Error('over'); }));
  return refs;
}
async function left(refs) {
  let still = refs;
  for (let round = 0; round < 6 && still.length; round++) {
    for (let i = 0; i < 3; i++) await tick();
    gc();
    still = still.filter(([r]) => r.deref() !== undefined);
  }
  return still.map(([, where]) => where);
}
async function test({ session: c, discard }, { lib }) {
  let client = clientOf(lib, c);
  const refs = await happen(lib, c, client);
  if (discard) { refs.push([new WeakRef(client), 'the client, although nothing refers to it']); client = null; }
  const still = await left(refs);
  check(still.length === 0, () => `after the calls are over, ${still.length} of ${refs.length} of their objects are still kept: ${still.slice(0, 4).join('; ')}`);
  if (client) check(typeof client.baseUrl === 'string', 'client is gone');
}

// --- what is kept of strings, which no weak reference can watch: the heap must not grow -----------
const KB = 1024;
let unique = 0;
let scale = 1;
const filler = (size) => Buffer.alloc(size * scale, `${++unique}.`).toString('latin1');
const FREE = new Set(['subject', 'html', 'text', 'name', 'firstName', 'lastName', 'id', 'emailId', 'contactId', 'audienceId', 'broadcastId', 'templateId', 'alias', 'description', 'previewText', 'idempotencyKey', 'filename', 'content', 'value', 'endpoint', 'key']);
function enlarged(v, key) {
  if (typeof v === 'string') return key === undefined || FREE.has(key) ? v + filler(24 * KB) : v;
  if (v === null || typeof v !== 'object' || Object.keys(v).some((k) => k.startsWith('$'))) return v;
  if (Array.isArray(v)) return v.map((x) => (typeof x === 'object' ? enlarged(x, '') : x));
  return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, enlarged(x, k)]));
}
const fill = (d) => {
  if (d.throw) return { throw: { ...d.throw, message: `${d.throw.message ?? ''}${filler(16 * KB)}` } };
  if (d.break !== undefined) return { ...d, after: `${d.after}${filler(16 * KB)}` };
  const headers = [...d.headers.filter(([k]) => k.toLowerCase() !== 'content-length'), ['x-filler', filler(4 * KB)]];
  const json = d.json && typeof d.json === 'object' && !Array.isArray(d.json) ? { ...d.json, filler: filler(24 * KB) } : undefined;
  if (json) return { ...d, headers, json, body: JSON.stringify(json) };
  return typeof d.body === 'string' ? { ...d, headers, body: `${d.body}<${filler(24 * KB)}` } : { ...d, headers };
};
async function once(client, steps, hook) {
  for (let i = 0; i < steps.length; i++) {
    const s = steps[i];
    const args = materialise(s.call.args.map((a) => (s.call.op === FORWARD ? a : enlarged(a))));
    let n = 0;
    setNet(new Net(async () => makeResponse(fill(s.plan[n++] ?? s.plan[0]))));
    try { await method(client, s.call.op)(...args); } catch { /* other properties judge that */ }
  }
  if (hook) try { client.webhooks.verify({ payload: `{"a":"${filler(24 * KB)}"}`, headers: { id: filler(24 * KB), timestamp: '1700000000', signature: `v1,${filler(8 * KB)}` }, webhookSecret: `whsec_${Buffer.from(filler(8 * KB)).toString('base64')}` }); } catch { /* it is not valid */ }
}
const ROUNDS = 4;
const PEAK = 64;
async function heap() {
  for (let i = 0; i < 2; i++) { await tick(); await tick(); gc(); }
  const m = process.memoryUsage();
  return m.heapUsed + m.external;
}
async function grown({ session: c, hook, fresh, calls }, { lib }) {
  let client = clientOf(lib, c);
  const growth = [];
  for (let round = 0, before = 0; round <= ROUNDS; round++) {
    for (let i = 0; i < calls; i += c.steps.length) {
      if (fresh) client = clientOf(lib, c);
      await once(client, c.steps, hook);
    }
    setNet(new Net(() => { throw new Error('over'); }));
    const now = await heap();
    if (round > 0) growth.push(Math.round((now - before) / KB));
    before = now;
  }
  // Nor is anything kept of the latest call: some of its strings are 0.25 to 1.5 MB long.
  const before = await heap();
  scale = PEAK;
  try { await once(client, c.steps, hook); } finally { scale = 1; }
  setNet(new Net(() => { throw new Error('over'); }));
  /./.exec('the platform remembers the last match');
  const kept = Math.round((await heap() - before) / KB);
  check(kept < 240, () => `a call with large values (${c.steps.map((s) => s.call.op)}) leaves ${kept} kB behind`);
  // Anything kept of each call is more than 4 kB each time; what the platform keeps does not grow with their number.
  const last = growth.slice(1);
  check(last.some((x) => x < calls * 3), () => `every further ${calls} calls (${c.steps.map((s) => s.call.op)}) leave more behind: ${growth} kB`);
}
const focus = fc.oneof({ weight: 9, arbitrary: stepOf(anyOps, anyAnswer) }, { weight: 1, arbitrary: forwardStep(anyAnswer('emails.send')) });
const keyed = stepOf(namesOf((o) => o.idem), anyAnswer).map((s) => ({ ...s, call: { ...s.call, args: s.call.args.length > 1 ? s.call.args.with(1, { idempotencyKey: 'key', ...s.call.args[1] }) : [...s.call.args, { idempotencyKey: 'key' }] } }));
// --- elements: the renderer may hold on to what it rendered last, but to no more, however many there were -----------
async function renderAll(lib, c) {
  const client = clientOf(lib, c.session);
  const refs = [];
  for (const s of c.session.steps) {
    const args = materialise(s.call.args);
    const watch = (v) => {
      if (v === null || typeof v !== 'object') return;
      if (v.$$typeof) { refs.push([new WeakRef(v), `${s.call.op}: an element`]); return; }
      if (!ArrayBuffer.isView(v)) for (const k of Object.keys(v)) watch(v[k]);
    };
    watch(args);
    let n = 0;
    setNet(new Net(async () => makeResponse(s.plan[n++] ?? s.plan[0])));
    try { await method(client, s.call.op)(...args); } catch { /* other properties judge that */ }
  }
  setNet(new Net(() => { throw new Error('over'); }));
  return [refs, client];
}
const SPARE = 5;
async function elements(c, { lib }) {
  const [refs, client] = await renderAll(lib, c);
  const still = await left(refs);
  check(still.length <= SPARE, () => `after the calls are over, ${still.length} of the ${refs.length} elements given are still kept: ${still.slice(0, 4).join('; ')}`);
  check(typeof client.baseUrl === 'string', 'client is gone');
}
const hasElement = (v) => v !== null && typeof v === 'object' && (Boolean(v.$react) && !['string', 'array'].includes(v.$react) || Object.values(v).some(hasElement));
const rendering = stepOf(anyOps.filter((o) => o.react), anyAnswer).filter((s) => hasElement(s.call.args));
const shape = (c) => c.session.steps.map((s) => s.call.op);
export default {
  id: 'C45',
  rule: 'sub-check objects: sessions of any operations and outcomes (forward included), one after the other or in flight together, after which every object among the arguments, the results, the requests and what was rejected with, and the client too if it is discarded, must be gone once the garbage collector has run; sub-check strings: 1 to 4 operations repeated with new large strings in every field, header, response and failure on one client or a new one each time, where the heap must not grow with the number of calls; every case is non-trivial.',
  subs: [
    { name: 'objects', runs: [700, 7000], test, arb: fc.record({ session: session(focus, { single: 2 }), discard: fc.boolean() }), classify: shape },
    { name: 'elements', runs: [120, 1500], test: elements, arb: fc.record({ session: fc.record({ build, steps: fc.array(rendering, { minLength: 12, maxLength: 20 }) }) }), classify: shape },
    { name: 'strings', runs: [36, 400], test: grown, arb: fc.record({ session: fc.record({ build, steps: fc.array(fc.oneof({ weight: 3, arbitrary: focus }, { weight: 2, arbitrary: keyed }), { minLength: 1, maxLength: 4 }) }), hook: fc.boolean(), fresh: fc.boolean(), calls: fc.constantFrom(60, 80) }), classify: shape },
  ],
};
