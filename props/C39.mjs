import { anyOps } from '../lib/common.mjs';
import { formOf } from '../lib/call.mjs';
import { check, fc } from '../lib/env.mjs';
import { diff, show } from '../lib/equal.mjs';
import { FORWARD, forwardStep } from '../lib/forward.mjs';
import { missing } from '../lib/refusals.mjs';
import { anyAnswer, play, session, stepOf } from '../lib/session.mjs';

// What a request means, multipart boundaries aside.
async function meaning(r) {
  if (r.invalid) return { invalid: String(r.invalid) };
  const headers = Object.fromEntries(r.headers);
  let body = r.hasBody ? r.bytes.toString('latin1') : null;
  if (/^multipart\//.test(headers['content-type'] ?? '')) {
    body = [];
    for (const [k, v] of (await formOf(r)).entries()) body.push([k, typeof v === 'string' ? v : { name: v.name, type: v.type, bytes: Buffer.from(await v.arrayBuffer()).toString('latin1') }]);
    headers['content-type'] = 'multipart/form-data';
  }
  return { method: r.method, url: r.url, headers, body };
}
const problem = (e) => (e instanceof Error ? { name: e.name, message: e.message } : e);
async function compare(a, b, names) {
  for (const [i, x] of a.entries()) {
    const y = b[i];
    const what = `${x.step.call.op} ${names[0]} and ${y.step.call.op} ${names[1]}`;
    check(x.status === y.status, () => `${what}: ${x.status} ${show(x.value ?? x.error)} and ${y.status} ${show(y.value ?? y.error)}`);
    const d = x.status === 'resolved' ? diff(x.value, y.value) : diff(problem(x.error), problem(y.error));
    check(!d, () => `${what}: results differ: ${d}`);
    check(x.requests.length === y.requests.length, () => `${what}: ${x.requests.length} and ${y.requests.length} requests`);
    for (const [k, r] of x.requests.entries()) {
      const dr = diff(await meaning(r), await meaning(y.requests[k]));
      check(!dr, () => `${what}: requests differ: ${dr}`);
    }
  }
}

const step = fc.oneof({ weight: 10, arbitrary: stepOf(anyOps, anyAnswer) }, { weight: 1, arbitrary: forwardStep(anyAnswer('emails.send')) }, { weight: 1, arbitrary: missing });
const bare = fc.integer({ min: 0, max: 14 }).map((n) => n === 0);
const bareArgs = (on) => (on ? () => [] : undefined);
async function builds({ session: c, bare: b }, { lib }) {
  const esm = await play(lib, { ...c, build: 'esm' }, { argsOf: bareArgs(b) });
  const cjs = await play(lib, { ...c, build: 'cjs' }, { argsOf: bareArgs(b) });
  await compare(esm, cjs, ['(ESM)', '(CommonJS)']);
}

const aliases = [['emails.create', 'emails.send'], ['batch.create', 'batch.send'], ['audiences.create', 'segments.create'], ['audiences.get', 'segments.get'], ['audiences.list', 'segments.list'], ['audiences.remove', 'segments.remove']];
const twin = new Map([...aliases, ...aliases.map(([a, b]) => [b, a])]);
const aliasStep = fc.oneof({ weight: 2, arbitrary: fc.constantFrom('emails.send', 'batch.send') }, { weight: 1, arbitrary: fc.constantFrom(...aliases.map((a) => a[0])) }).chain((op) => stepOf([op], anyAnswer));
async function aliased({ session: c, bare: b }, { lib }) {
  const other = { ...c, steps: c.steps.map((s) => (twin.has(s.call.op) ? { ...s, call: { ...s.call, op: twin.get(s.call.op) } } : s)) };
  await compare(await play(lib, c, { argsOf: bareArgs(b) }), await play(lib, other, { argsOf: bareArgs(b) }), ['', '']);
}

// Everything that can be called on a client, by path.
function surface(client) {
  const out = [];
  const walk = (o, path, seen) => {
    if (o === null || typeof o !== 'object' || seen.includes(o) || o instanceof Headers) return;
    for (let p = o; p && p !== Object.prototype; p = Object.getPrototypeOf(p)) {
      for (const k of Object.getOwnPropertyNames(p)) {
        if (k === 'constructor') continue;
        const d = Object.getOwnPropertyDescriptor(p, k);
        const v = 'value' in d ? d.value : o[k];
        if (typeof v === 'function') out.push(`${path}${k}()`);
        else if (v !== null && typeof v === 'object') walk(v, `${path}${k}.`, [...seen, o]);
        else if (p === o) out.push(`${path}${k}=${typeof v}`);
      }
    }
  };
  walk(client, '', []);
  return [...new Set(out)].sort();
}
function surfaces({ key, options }, { lib }) {
  check(!diff(Object.keys(lib.esm).filter((k) => k !== 'default').sort(), Object.keys(lib.cjs).filter((k) => k !== 'default' && k !== '__esModule').sort()), () => `exports ${show(Object.keys(lib.esm))} (ESM) and ${show(Object.keys(lib.cjs))} (CommonJS)`);
  const [e, c] = [new lib.esm.Resend(key, options), new lib.cjs.Resend(key, options)];
  const d = diff(surface(e), surface(c));
  check(!d, () => `operations of the two builds differ: ${d}`);
  for (const x of [e, c]) {
    const da = diff(surface({ r: x.audiences }), surface({ r: x.segments }));
    check(!da, () => `audiences and segments differ: ${da}`);
    for (const o of [...anyOps.map((q) => q.name), FORWARD, 'webhooks.verify']) {
      const f = o.split('.').reduce((q, k) => q?.[k], x);
      check(typeof f === 'function', () => `${o} is not an operation`);
    }
  }
}

export default {
  id: 'C39',
  rule: 'sessions of any operations, generic verbs, forwards and refused calls (any answers, one after the other or in flight together, sometimes called without arguments) played on the ESM and on the CommonJS build; and sessions of aliased operations played through one alias and the other; requests (all headers, body bytes; multipart parts) and results must be equal. One sub-check compares the enumerated surface. Non-trivial: always.',
  subs: [
    { name: 'builds', arb: fc.record({ session: session(step, { noise: anyOps }), bare }), runs: [2000, 50000], test: builds, classify: (c) => c.session.steps.map((s) => s.call.op) },
    { name: 'aliases', arb: fc.record({ session: session(aliasStep, { noise: anyOps }), bare }), runs: [1500, 40000], test: aliased, classify: (c) => c.session.steps.map((s) => `alias:${s.call.op}`) },
    { name: 'surface', exhaustive: () => [{ key: 're_a', options: undefined }, { key: 're_b', options: { baseUrl: 'http://x.test', userAgent: 'x' } }], test: surfaces },
  ],
};
