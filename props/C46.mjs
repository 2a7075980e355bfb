import { build } from '../lib/common.mjs';
import { checkLocal, clientOf, expectation, method } from '../lib/call.mjs';
import { check, fc } from '../lib/env.mjs';
import { own, show } from '../lib/equal.mjs';
import { FORWARD, forwardStep } from '../lib/forward.mjs';
import { materialise } from '../lib/material.mjs';
import { anyOps, callOf, find } from '../lib/ops.mjs';
import { anyAnswer, checkResult, play, stepOf, success } from '../lib/session.mjs';

// --- values that JSON cannot express ----------------------------------------------------------------
const MARK = 'marker-6f1d';
class NoJson extends Error {}
const refuse = () => { throw new NoJson('not for JSON'); };
const POISON = {
  bigint: () => 9007199254740993n,
  nested: () => ({ deep: [{ n: 1n }] }),
  cycle: () => { const o = { a: 1 }; o.self = o; return o; },
  loop: () => { const a = []; a.push([a]); return a; },
  toJSON: () => ({ toJSON: refuse }),
  field: () => ({ get value() { return refuse(); } }), // where it can, the field itself throws
  getter: () => ({ get value() { return refuse(); } }),
};
const plain = (v) => v !== null && typeof v === 'object' && !(v instanceof Uint8Array) && !Object.keys(v).some((k) => k.startsWith('$'));
function leaves(v, path, out) {
  if (out.length > 60) return out;
  if (v === null || ['string', 'number', 'boolean'].includes(typeof v)) out.push(path);
  else if (plain(v)) for (const k of Object.keys(v)) leaves(v[k], [...path, k], out);
  return out;
}
const put = (v, [k, ...rest], x) => {
  if (k === undefined) return x;
  if (Array.isArray(v)) return v.map((y, i) => (String(i) === k ? put(y, rest, x) : y));
  return Object.fromEntries(Object.entries(v).map(([n, y]) => [n, n === k ? put(y, rest, x) : y]));
};
const holds = (v) => v === MARK || (v !== null && typeof v === 'object' && !(v instanceof Uint8Array) && Object.values(v).some(holds));
const jsonParts = (body) => (body?.$form ? body.$form.map(([, spec]) => spec.json) : body);
// The n-th place of the arguments whose value arrives in the JSON body, or none.
function reaching(call, n) {
  const opts = find(call.op).opts;
  const all = call.args.flatMap((a, i) => (i === opts ? [] : leaves(a, [String(i)], [])));
  for (let k = 0; k < all.length; k++) {
    const path = all[(n + k) % all.length];
    if (path.some((p) => p === '__proto__')) continue;
    try { if (holds(jsonParts(expectation({ op: call.op, args: put(call.args, path, MARK) }).body))) return path; } catch { /* no such value there */ }
  }
  return null;
}
const inJson = fc.tuple(callOf(anyOps.filter((o) => o.write)), fc.nat(), fc.constantFrom(...Object.keys(POISON)), fc.integer({ min: 0, max: 3 }))
  .map(([call, n, kind, delay]) => ({ call, path: reaching(call, n), kind, delay, plan: [] })).filter((s) => s.path !== null);

// --- headers and keys that HTTP cannot express ----------------------------------------------------------
const badName = fc.constantFrom('', 'a b', 'a:b', 'naïve', 'x\n', '(x)', 'x\r\ny', '"q"', 'a,b', 'x/y', '日');
const badValue = fc.oneof(fc.constantFrom('a\nb', 'a\rb', 'a\0b', 'x\r\nBcc: all@example.com', 'Ω', '日本', 'order-№1', '…', '😀'), fc.tuple(fc.string({ maxLength: 6, unit: 'grapheme-ascii' }), fc.constantFrom('\n', '\r', '\0', 'Ω', '\u0100', '\uffff')).map(([a, b]) => `k${a}${b}${a}k`));
const entry = fc.oneof(fc.tuple(badName, fc.constantFrom('v', '')), fc.tuple(fc.constantFrom('x-trace', 'X-Id', 'List-Unsubscribe', 'Idempotency-Key', 'x-batch-validation'), badValue));
const inHeaders = fc.tuple(callOf(anyOps.filter((o) => o.opts !== undefined)), fc.oneof(
  { weight: 2, arbitrary: fc.record({ entries: fc.tuple(fc.array(fc.tuple(fc.constantFrom('a', 'b', 'x-ok'), fc.constantFrom('1', 'two')), { maxLength: 2 }), entry, fc.array(fc.tuple(fc.constantFrom('c', 'x-more'), fc.constant('3')), { maxLength: 1 })).map(([a, e, b]) => [...a, e, ...b]), pairs: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ idempotencyKey: badValue }) },
), fc.integer({ min: 0, max: 3 })).map(([call, head, delay]) => ({ call, head, delay, plan: [] }))
  .filter((s) => s.head.entries || find(s.call.op).idem);
const inForward = fc.tuple(forwardStep(success('emails.send')), badValue, entry, fc.boolean()).map(([s, value, e, key]) => ({ ...s, head: key ? { idempotencyKey: value } : { entries: [e], pairs: false } }));

function spoil(s) {
  const args = materialise(s.call.args, null);
  if (s.path) {
    const [i, ...rest] = s.path;
    if (rest.length === 0) args[i] = POISON[s.kind]();
    else {
      const holder = rest.slice(0, -1).reduce((o, k) => own(o, k), args[i]);
      if (s.kind === 'field') Object.defineProperty(holder, rest.at(-1), { enumerable: true, configurable: true, get: refuse });
      else holder[rest.at(-1)] = POISON[s.kind]();
    }
  }
  if (s.head) {
    const at = s.call.op === FORWARD ? 1 : find(s.call.op).opts;
    while (args.length <= at) args.push(undefined);
    const { entries, pairs, idempotencyKey } = s.head;
    args[at] = { ...args[at], ...(entries && { headers: pairs ? entries : Object.fromEntries(entries) }), ...(idempotencyKey !== undefined && { idempotencyKey }) };
  }
  return args;
}
const what = (s) => `${s.call.op} with ${s.path ? `a ${s.kind} value at ${s.path.join('.')}` : show(s.head)}`;
async function test({ session: c, key }, { lib }) {
  const sync = [];
  const invoke = (client, s, args) => {
    const f = method(client, s.call.op);
    try { return f(...args); } catch (e) { if (s.path || s.head) sync.push(what(s)); throw e; }
  };
  const outs = await play(lib, { ...c, key }, { argsOf: (s) => (s.path || s.head ? spoil(s) : materialise(s.call.args)), invoke });
  check(sync.length === 0, () => `${sync[0]}: throws instead of returning a promise that rejects`);
  for (const o of outs) {
    const s = o.step;
    if (!s.path && !s.head) {
      const { local } = expectation(s.call);
      if (local) checkLocal(o, local); else checkResult(o, s.call, s.plan[0]);
      continue;
    }
    // A forward looks the email up first; nothing may be sent on.
    const sent = o.requests.filter((r) => !r.invalid && (s.call.op !== FORWARD || r.method !== 'GET'));
    check(sent.length === 0, () => `${what(s)}: ${sent[0].method} ${sent[0].url} was sent, although it cannot carry what was given`);
    if (o.status === 'resolved') check(o.value?.data === null && o.value?.error, () => `${what(s)}: resolved with ${show(o.value)}, although nothing was sent`);
    else check(o.error !== undefined && o.error !== null, () => `${what(s)}: rejected with ${show(o.error)}`);
  }
}
const among = (focus) => fc.oneof(
  { weight: 5, arbitrary: fc.record({ build, mode: fc.constant('seq'), steps: fc.tuple(focus) }) },
  { weight: 3, arbitrary: fc.record({ build, mode: fc.constantFrom('seq', 'par'), steps: fc.tuple(fc.array(stepOf(anyOps, anyAnswer), { maxLength: 2 }), focus, fc.array(fc.oneof(focus, stepOf(anyOps, anyAnswer)), { maxLength: 2 })).map(([a, b, d]) => [...a, b, ...d]) }) },
);

// --- base addresses and keys that no request can use -------------------------------------------------------
const unusable = fc.oneof(
  fc.constantFrom('api.resend.com', 'not a url', '//api.resend.com', 'https://[', 'https://a b', 'https://api.resend.com:99999', 'https://%zz', '/v1', 'https://a^b', 'localhost').map((baseUrl) => ({ baseUrl })),
  badValue.map((userAgent) => ({ userAgent })), badValue.map((v) => ({ key: `re_${v}` })),
);
async function configured({ config, session: c }, { lib }) {
  const { key, ...options } = config;
  let client;
  try { client = clientOf(lib, { build: c.build, key, options }); } catch { return; } // refused at once
  const outs = await play(lib, c, { client });
  for (const o of outs) {
    const sent = o.requests.filter((r) => !r.invalid);
    check(sent.length === 0, () => `with ${show(config)}, ${o.step.call.op} sent ${sent[0].method} ${sent[0].url}`);
    check(o.status === 'rejected' || (o.value?.data === null && o.value.error), () => `with ${show(config)}, ${o.step.call.op} resolved with ${show(o.value)}`);
  }
}
const shape = (c) => c.session.steps.map((s) => s.call.op);
const name = (s) => (s.path ? `json:${s.kind}` : s.head ? (s.head.entries ? 'header' : 'idempotencyKey') : 'ordinary');
const kinds = (c) => [...shape(c), ...c.session.steps.map(name)];
export default {
  id: 'C46',
  rule: 'sub-check json: writing operations with a BigInt, a cycle, a throwing toJSON or a throwing getter at a place whose value arrives in the JSON body (found with the reference model), alone or among ordinary calls; sub-check headers: operations with an illegal header name or value among legal ones, or an illegal idempotency key (line breaks, NUL, beyond Latin-1), forwards included; sub-check configuration: unusable base URL, key or user agent; every case is non-trivial.',
  subs: [
    { name: 'json', runs: [2500, 50000], test, arb: fc.record({ session: among(inJson) }), classify: kinds },
    { name: 'headers', runs: [2000, 40000], test, arb: fc.record({ session: among(fc.oneof({ weight: 5, arbitrary: inHeaders }, { weight: 1, arbitrary: inForward })) }), classify: kinds },
    { name: 'configuration', runs: [500, 10000], test: configured, arb: fc.record({ config: unusable, session: fc.record({ build, mode: fc.constantFrom('seq', 'par'), steps: fc.array(stepOf(anyOps, success), { minLength: 1, maxLength: 3 }) }) }), classify: shape },
  ],
};
