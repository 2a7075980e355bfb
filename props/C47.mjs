import vm from 'node:vm';
import { anyOps } from '../lib/common.mjs';
import { BASE, clientOf, KEY } from '../lib/call.mjs';
import { fc } from '../lib/env.mjs';
import { setOwn } from '../lib/equal.mjs';
import { forwardStep } from '../lib/forward.mjs';
import { materialise } from '../lib/material.mjs';
import { anyAnswer, play, session, stepOf } from '../lib/session.mjs';
import { complete } from '../lib/verify.mjs';

const realm = vm.createContext({});
const foreign = vm.runInContext('({ object: () => ({}), array: () => [] })', realm);
class Model { describe() { return `model of ${Object.keys(this)}`; } get [Symbol.toStringTag]() { return 'Model'; } }
class Message extends Model { static kind = 'message'; }
class List extends Array {}
const note = Symbol('note');
// The same fields held by another kind of object.
const OBJECTS = {
  plain: () => ({}),
  bare: () => Object.create(null),
  instance: () => new Message(),
  foreign: () => foreign.object(),
  accessors: () => ({}),
  fixed: () => ({}),
  noted: () => ({ [note]: { secret: 1n } }),
};
const ARRAYS = { plain: () => [], foreign: () => foreign.array(), subclass: () => new List(), fixed: () => [] };
const ofObject = Object.keys(OBJECTS);
const ofArray = Object.keys(ARRAYS);
// Identifiers, dates, decimals of other libraries say themselves what they are in JSON.
class Value { #text; constructor(text) { this.#text = text; this.kind = 'value'; } toJSON() { return this.#text; } }
const dated = (s) => { const d = new Date(s); return !Number.isNaN(d.getTime()) && d.toISOString() === s ? d : new Value(s); };
const isFree = (op, i, key) => (op === 'events.send' ? key === 'payload' : i === 1 && ['post', 'put', 'patch', 'delete'].includes(op));
function reshape(v, c, at, key) {
  if (typeof v === 'string' && at.free && c.kinds[at.n++ % c.kinds.length] % 4 === 3) return dated(v);
  if (v === null || typeof v !== 'object' || v.$$typeof) return v;
  if (Array.isArray(v)) {
    const kind = ofArray[c.kinds[at.n++ % c.kinds.length] % ofArray.length];
    const out = ARRAYS[kind]();
    for (const x of v) out.push(reshape(x, c, at));
    return kind === 'fixed' ? Object.freeze(out) : out;
  }
  if (Object.getPrototypeOf(v) !== Object.prototype) return v;
  let kind = ofObject[c.kinds[at.n++ % c.kinds.length] % ofObject.length];
  if (key === 'headers' && kind === 'noted') kind = 'plain'; // fetch's Headers refuse symbols
  const out = OBJECTS[kind]();
  const keys = Object.keys(v);
  const turn = c.turn % (keys.length || 1);
  for (const k of [...keys.slice(turn), ...keys.slice(0, turn)]) {
    const was = at.free;
    at.free ||= isFree(at.op, at.i, k);
    const x = reshape(v[k], c, at, k);
    at.free = was;
    if (kind === 'accessors') Object.defineProperty(out, k, { enumerable: true, configurable: true, get: () => x });
    else setOwn(out, k, x);
  }
  return kind === 'fixed' ? Object.freeze(out) : out;
}
async function test({ session: c, shape, key, userAgent }, { lib }) {
  const client = clientOf(lib, { build: c.build, key, options: { userAgent } });
  const outs = await play(lib, c, { client, argsOf: (s) => materialise(s.call.args, null).map((a, i) => reshape(a, shape, { n: i, i, op: s.call.op, free: isFree(s.call.op, i) })) });
  for (const o of outs) await complete(o, o.step, { key, userAgent, base: BASE });
}
const focus = fc.oneof({ weight: 4, arbitrary: stepOf(anyOps, anyAnswer) }, { weight: 5, arbitrary: stepOf(anyOps.filter((o) => o.write), anyAnswer) }, { weight: 1, arbitrary: forwardStep(anyAnswer('emails.send')) });
const shape = fc.record({ kinds: fc.oneof(fc.tuple(fc.nat(83)), fc.array(fc.nat(83), { minLength: 2, maxLength: 9 })), turn: fc.nat(7) });
const holds = (v) => v !== null && typeof v === 'object' && Object.keys(v).length > 0;

export default {
  id: 'C47',
  rule: 'sessions of any operations, generic verbs and forwards, any outcome, whose argument objects are rebuilt at every depth as objects without prototype, class instances, objects and arrays of another realm, accessors, frozen objects, objects with symbol keys or array subclasses, with fields in another order, and, where any JSON is allowed, texts as dates or objects with toJSON; request (headers included) and result must be those of the reference model; non-trivial: a step with a non-empty object among its arguments.',
  subs: [{ name: 'shapes', runs: [9000, 150000], test, arb: fc.record({ session: session(focus), shape, key: fc.constantFrom(KEY, 're_a'), userAgent: fc.constantFrom('agent/1', 'a b (c)') }), classify: (c) => c.session.steps.map((s) => s.call.op), nontrivial: (c) => c.session.steps.some((s) => s.call.args.some(holds)) }],
};
