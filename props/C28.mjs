import { method, settle } from '../lib/call.mjs';
import { check, fc } from '../lib/env.mjs';
import { diff, show } from '../lib/equal.mjs';
import * as g from '../lib/gen.mjs';
import { makeResponse, Net, ok, setNet } from '../lib/net.mjs';
import { checkResult, sessionSub, stepOf, success } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

const WRITES = ['contactProperties.create', 'contactProperties.update'];
const READS = ['contactProperties.get', 'contactProperties.list'];
async function read(o, s) {
  await exact(o, s);
  checkResult(o, s.call, s.plan[0]);
}

// A server that stores what it is sent, and a model of what was asked for.
const value = { string: fc.oneof(g.str, fc.constant(null)), number: fc.oneof(g.num, fc.constant(null)) };
const newProp = fc.oneof(...['string', 'number'].map((t) => g.rec({ key: g.str, type: fc.constant(t) }, { fallbackValue: value[t] })));
const opArb = fc.oneof(
  { weight: 3, arbitrary: newProp.map((p) => ['create', p]) },
  { weight: 2, arbitrary: fc.tuple(fc.nat(9), fc.nat(1), value.string, value.number).map(([i, k, s, n]) => ['update', i, k ? s : n]) },
  { weight: 3, arbitrary: fc.nat(9).map((i) => ['get', i]) },
  { weight: 2, arbitrary: fc.constant(['list']) },
  { weight: 1, arbitrary: fc.nat(9).map((i) => ['remove', i]) },
);
async function roundTrip({ build, ops }, { lib }) {
  const stored = [];
  let serial = 0;
  setNet(new Net((rec) => {
    const parts = new URL(rec.url).pathname.split('/').map(decodeURIComponent);
    const body = rec.bytes?.length ? JSON.parse(rec.bytes.toString('utf8')) : undefined;
    const at = stored.findIndex((p) => p.id === parts[2]);
    if (rec.method === 'POST') { const id = `p${serial++}`; stored.push({ id, created_at: `t${serial}`, fallback_value: null, ...body, object: 'contact_property' }); return makeResponse(ok({ object: 'contact_property', id })); }
    if (rec.method === 'GET' && parts.length === 2) return makeResponse(ok({ object: 'list', has_more: serial % 2 === 1, data: stored.map(({ object, ...p }) => p) }));
    if (at < 0) return makeResponse({ status: 404, headers: [], body: '{"name":"not_found","message":"no","statusCode":404}' });
    if (rec.method === 'PATCH') Object.assign(stored[at], body);
    if (rec.method === 'DELETE') stored.splice(at, 1);
    return makeResponse(ok(rec.method === 'GET' ? stored[at] : { object: 'contact_property', id: parts[2] }));
  }));
  const client = new lib[build].Resend('re_props');
  const model = [];
  const call = async (name, ...args) => {
    const o = await settle(method(client, `contactProperties.${name}`)(...args), name);
    check(o.status === 'resolved' && o.value.error === null, () => `${name}(${show(args)}): ${show(o.error ?? o.value.error)}`);
    return o.value.data;
  };
  const same = (got, want, what) => { for (const k of ['id', 'key', 'type', 'fallbackValue', 'createdAt']) { const d = diff(got?.[k], want[k], k); check(!d, () => `${what}: ${d}`); } };
  const wire = (v) => (Object.is(v, -0) ? 0 : v);
  for (const [kind, a, b] of ops) {
    const target = model.length ? model[a % model.length] : undefined;
    if (kind === 'create') {
      const made = await call('create', a);
      model.push({ id: made.id, key: a.key, type: a.type, fallbackValue: wire(a.fallbackValue ?? null), createdAt: `t${serial}` });
    } else if (kind === 'list') {
      const got = await call('list');
      check(got.object === 'list' && got.has_more === (serial % 2 === 1), () => `list metadata ${show(got)}`);
      check(got.data.length === model.length, () => `list returned ${got.data.length} of ${model.length} properties`);
      got.data.forEach((p, i) => same(p, model[i], `list[${i}]`));
    } else if (target && kind === 'get') same(await call('get', target.id), target, 'get');
    else if (target && kind === 'update') { await call('update', { id: target.id, fallbackValue: b }); target.fallbackValue = wire(b); } else if (target && kind === 'remove') { await call('remove', target.id); model.splice(model.indexOf(target), 1); }
  }
}

export default {
  id: 'C28',
  rule: 'contact property writes and reads with random keys, types and fallback values (0, "", null, any number or text) against the reference mapping, and random create/update/get/list/remove histories against a server model storing what it is sent; non-trivial: a payload or a history of at least three operations.',
  subs: [
    sessionSub('write', WRITES, [2000, 50000], exact),
    sessionSub('read', stepOf(READS, success), [2000, 50000], read),
    { name: 'round-trip', runs: [1000, 20000], arb: fc.record({ build: fc.constantFrom('esm', 'cjs'), ops: fc.array(opArb, { minLength: 2, maxLength: 14 }) }), test: roundTrip, nontrivial: (c) => c.ops.length > 2 },
  ],
};
