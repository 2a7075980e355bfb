import { Buffer } from 'node:buffer';
import { BASE, formOf, jsonBody, KEY, oneRequest } from '../lib/call.mjs';
import { anyOps } from '../lib/common.mjs';
import { check, fc } from '../lib/env.mjs';
import { diff, show, viaJson } from '../lib/equal.mjs';
import * as g from '../lib/gen.mjs';
import { checkHeaders, givenHeaders, optionsOf, wantedHeaders } from '../lib/head.mjs';
import { entity } from '../lib/ops.mjs';
import { anyAnswer, checkResult, play, session } from '../lib/session.mjs';

// Paths as a caller writes them for an endpoint the SDK does not wrap.
const piece = fc.oneof({ weight: 3, arbitrary: g.id }, { weight: 3, arbitrary: g.freeId.map(encodeURIComponent) }, { weight: 2, arbitrary: fc.constantFrom('emails', 'v2', 'contacts', 'audiences', '', 'a:b', 'a@b.co', "o'x", '(x)', 'a,b', 'é', '日本', 'A B', '%2F', '%2f', '%', '%zz', 'a+b', 'x;y=1', '~', '*', '$batch', '%00') });
const query = fc.oneof({ weight: 3, arbitrary: fc.constant('') }, { weight: 3, arbitrary: fc.array(fc.tuple(piece, piece), { minLength: 1, maxLength: 4 }).map((kv) => `?${kv.map(([k, v]) => `${k}=${v}`).join('&')}`) }, { weight: 2, arbitrary: fc.constantFrom('?', '?a', '?a=', '?a=1&a=2', '?ids[]=1&ids[]=2', '?a=b?c', '?a=/x/', '?next=https://x.test/?y=1', '?a=1&&b=2', '?q=a+b%20c', '?limit=undefined', '?after=null') });
const path = fc.tuple(fc.array(piece, { minLength: 1, maxLength: 5 }), fc.constantFrom('', '', '', '/'), query).map(([p, end, q]) => `/${p.join('/')}${end}${q}`).filter((p) => p.isWellFormed() && !p.startsWith('//'));

const file = fc.record({ $blob: g.bytes, name: fc.constantFrom('a.csv', 'data', 'é.txt', 'x y.json'), type: fc.constantFrom('text/csv', 'application/octet-stream', 'image/png') });
// (A reader of multipart text takes a byte order mark off it.)
const form = fc.record({ $form: fc.array(fc.tuple(fc.constantFrom('file', 'a', 'b', 'column_map', 'file'), fc.oneof(g.wellFormed.filter((s) => !/[\r\n\ufeff]/.test(s)), file)), { minLength: 1, maxLength: 5 }), derived: fc.constantFrom(false, false, true) });
const headers = g.headers();
const options = fc.oneof(fc.constant([]), fc.constant([undefined]), fc.constant([{}]), headers.map((h) => [{ headers: h }]));
const keyed = fc.oneof(options, fc.record({ idempotencyKey: g.idemKey }).map((o) => [o]), fc.record({ idempotencyKey: g.idemKey, headers }).map((o) => [o]));
const noType = (opts) => !givenHeaders(opts[0]).has('content-type');
const args = {
  get: fc.tuple(path, options).map(([p, o]) => [p, ...o]),
  post: fc.oneof(
    { weight: 1, arbitrary: path.map((p) => [p]) },
    { weight: 6, arbitrary: fc.tuple(path, entity, keyed).map(([p, e, o]) => [p, e, ...o]) },
    { weight: 2, arbitrary: fc.tuple(path, form, keyed.filter(noType)).map(([p, e, o]) => [p, e, ...o]) },
  ),
  put: fc.tuple(path, entity, options).map(([p, e, o]) => [p, e, ...o]),
  patch: fc.tuple(path, entity, options).map(([p, e, o]) => [p, e, ...o]),
  delete: fc.oneof({ weight: 1, arbitrary: path.map((p) => [p]) }, { weight: 2, arbitrary: fc.tuple(path, fc.oneof(fc.constant(undefined), entity), options).map(([p, e, o]) => [p, e, ...o]) }),
};
const focus = fc.constantFrom('get', 'post', 'post', 'put', 'patch', 'delete').chain((op) => fc.record({ call: args[op].map((a) => ({ op, args: a })), plan: anyAnswer(op).map((a) => [a]), delay: fc.integer({ min: 0, max: 4 }) }));

async function sameForm(rec, want) {
  const got = [...(await formOf(rec)).entries()];
  check(!diff(got.map(([k]) => k), want.map(([k]) => k)), () => `form fields ${show(got.map(([k]) => k))}, expected ${show(want.map(([k]) => k))}`);
  for (const [i, [k, v]] of want.entries()) {
    const x = got[i][1];
    if (typeof v === 'string') { check(x === v, () => `form field ${k} is ${show(x)}, expected ${show(v)}`); continue; }
    check(x instanceof Blob && x.name === v.name && x.type === v.type, () => `form field ${k} is ${show(x)}, expected a file ${v.name} of type ${v.type}`);
    check(Buffer.compare(Buffer.from(await x.arrayBuffer()), Buffer.from(v.$blob)) === 0, `the bytes of file ${v.name} differ`);
  }
}
async function verify(o, { call, plan }, base, userAgent) {
  const rec = oneRequest(o);
  check(!rec.invalid, () => `fetch refuses the request: ${rec.invalid}`);
  check(rec.method === call.op.toUpperCase(), () => `method ${rec.method}, expected ${call.op}`);
  const url = new URL(base + call.args[0]).href;
  check(rec.url === url, () => `URL ${rec.url}, expected ${url}`);
  const e = call.op === 'get' ? undefined : call.args[1];
  const isForm = Boolean(e?.$form);
  if (e === undefined) check(!rec.hasBody || rec.bytes.length === 0, () => `a body ${show(rec.bytes.toString('utf8'))} although none was given`);
  else if (isForm) await sameForm(rec, e.$form);
  else {
    check(rec.hasBody, () => `no body although ${show(e)} was given`);
    const d = diff(jsonBody(rec), viaJson(e));
    check(!d, () => `body: ${d}`);
  }
  const opts = optionsOf(call);
  checkHeaders(rec, wantedHeaders({ key: KEY, userAgent, options: opts, json: !isForm && rec.hasBody }), { form: isForm, given: givenHeaders(opts) });
  checkResult(o, call, plan[0]);
}
const bases = fc.constantFrom('https://eu.resend.test', 'http://localhost:4010', 'https://x.test/p', 'https://resend.internal/api/v1', 'http://[::1]:8080');
const cases = fc.tuple(session(focus, { noise: anyOps }), fc.option(bases, { nil: undefined, freq: 3 })).map(([c, baseUrl]) => (baseUrl === undefined ? c : { ...c, options: { baseUrl } }));
async function test(c, { lib }) {
  const { userAgent } = new lib[c.build].Resend('k');
  for (const o of await play(lib, c)) if (!o.step.noise) await verify(o, o.step, c.options?.baseUrl ?? BASE, userAgent);
}
const kind = (e) => (e === undefined ? 'none' : e === null ? 'null' : e.$form ? 'form' : Array.isArray(e) ? 'array' : typeof e);
const own = (c) => c.steps.filter((s) => !s.noise);

export default {
  id: 'C48',
  rule: 'sessions of the generic verbs with raw paths (pre-encoded, unencoded and odd segments, trailing slashes, query strings of any form), any JSON entity (also null, 0, "", false, strings that are JSON themselves), none, or a FormData with text and file parts, request options, and any answer, on the default or another base URL; non-trivial: an entity other than an object, or a path with a query.',
  subs: [{ name: 'verbs', runs: [4000, 80000], arb: cases, test, classify: (c) => own(c).map((s) => `${s.call.op}:${s.call.op === 'get' ? 'none' : kind(s.call.args[1])}`), nontrivial: (c) => own(c).some((s) => s.call.args[0].includes('?') || (s.call.op !== 'get' && kind(s.call.args[1]) !== 'object')) }],
};
