import { expectation, jsonBody } from '../lib/call.mjs';
import { allOps, callOf } from '../lib/common.mjs';
import { check, fc } from '../lib/env.mjs';
import { diff, own, setOwn } from '../lib/equal.mjs';
import { play, sessionSub, success } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

const writes = allOps.filter((o) => o.write);
const isMarker = (v) => v.$react || v.$buf || v.$blob || v.$headers || v instanceof Uint8Array;
function strip(v) {
  if (v === null || typeof v !== 'object' || isMarker(v)) return v;
  if (Array.isArray(v)) return v.map(strip);
  return Object.keys(v).reduce((o, k) => (own(v, k) === undefined ? o : setOwn(o, k, strip(own(v, k)))), {});
}
const hasUndefined = (v) => v !== null && typeof v === 'object' && !isMarker(v) && Object.keys(v).some((k) => own(v, k) === undefined || hasUndefined(own(v, k)));

// The same call with every undefined field left out sends the same request.
async function metamorphic({ build, call }, { lib }) {
  const other = { op: call.op, args: call.args.map(strip) };
  while (other.args.length && other.args.at(-1) === undefined) other.args.pop();
  const step = (c) => ({ call: c, plan: [], delay: 0 });
  const [a, b] = await play(lib, { build, mode: 'seq', steps: [step(call), step(other)] });
  check(a.requests.length === b.requests.length, () => `${call.op}: ${a.requests.length} and ${b.requests.length} requests`);
  if (a.requests.length === 0) return;
  const [x, y] = [a.requests[0], b.requests[0]];
  check(x.method === y.method && x.url === y.url, () => `${call.op}: ${x.method} ${x.url} and ${y.method} ${y.url}`);
  if (expectation(call).body?.$form) return exact(a, { call });
  const d = diff(jsonBody(x), jsonBody(y));
  check(!d, () => `${call.op}: body with undefined fields and without: ${d}`);
  const text = x.bytes?.toString('utf8') ?? '';
  check(x.bytes?.length === y.bytes?.length, () => `${call.op}: bodies differ in length: ${text}`);
}

// Values are replaced by the falsy value of their type wherever they are data, not identifiers.
const KEEP = new Set(['id', 'emailId', 'audienceId', 'contactId', 'automationId', 'type', 'status', 'operator', 'onConflict', 'subscription', 'region', 'tls', 'permission', 'sending', 'receiving', 'batchValidation', 'idempotencyKey', 'headers', 'react', 'file', 'send']);
function falsify(v, bits, at = { i: 0 }) {
  const turn = () => (bits[at.i++ % bits.length]) === 1;
  if (typeof v === 'string') return turn() ? '' : v;
  if (typeof v === 'number') return turn() ? 0 : v;
  if (typeof v === 'boolean') return turn() ? false : v;
  if (v === null || typeof v !== 'object' || isMarker(v)) return v;
  if (Array.isArray(v)) return bits[at.i++ % bits.length] === 2 ? [] : v.map((x) => falsify(x, bits, at));
  return Object.keys(v).reduce((o, k) => setOwn(o, k, KEEP.has(k) ? own(v, k) : falsify(own(v, k), bits, at)), {});
}
const falsyStep = callOf(writes).chain((call) => fc.record({ bits: fc.array(fc.integer({ min: 0, max: 2 }), { minLength: 1, maxLength: 9 }), plan: success(call.op).map((a) => [a]), delay: fc.integer({ min: 0, max: 2 }) }).map(({ bits, plan, delay }) => {
  const target = call.args.findIndex((a) => a !== null && typeof a === 'object');
  // Batches must stay batches: only the emails in them change.
  const args = call.args.map((a, i) => (i !== target ? a : Array.isArray(a) ? a.map((x) => falsify(x, bits)) : keepEmail(call.op, a, falsify(a, bits))));
  return { call: { op: call.op, args }, plan, delay };
}));
// For these the email (or the broadcast's scope) selects what is addressed.
function keepEmail(op, before, after) {
  const out = { ...after };
  const keep = op.startsWith('contacts.') ? ['email', 'segmentId'] : [];
  for (const k of keep) if (k in before) out[k] = before[k];
  return out;
}

export default {
  id: 'C13',
  rule: 'create/update calls: (1) random payloads with each optional field absent, undefined or set, compared with the reference body; (2) the same call with undefined fields removed must send the same request; (3) payloads whose data values are replaced by "", 0, false or []; non-trivial: a payload with an undefined field (2), with at least one argument (1, 3).',
  subs: [
    sessionSub('partial', writes, [2500, 60000], exact, { nontrivial: (s) => s.call.args.length > 0 }),
    { name: 'undefined-is-absent', runs: [2000, 50000], arb: fc.record({ build: fc.constantFrom('esm', 'cjs'), call: callOf(writes) }), test: metamorphic, classify: (c) => [c.call.op], nontrivial: (c) => c.call.args.some(hasUndefined) },
    sessionSub('falsy', falsyStep, [2500, 60000], exact),
  ],
};
