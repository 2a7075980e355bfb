// Running one call of the library against scripted responses, and comparing what it sent with
// the reference model. All comparisons are on decoded meaning.
import { Buffer } from 'node:buffer';
import { callContext, headersOf, makeResponse, Net, ok, setNet } from './net.mjs';
import { check, fail, real, tick } from './env.mjs';
import { diff, own, setOwn, show, viaJson } from './equal.mjs';
import { materialise, renderExpected } from './material.mjs';
import { find } from './ops.mjs';

export const KEY = 're_verif_5gZ8Qk2LwXyT7';
export const BASE = 'https://api.resend.com';
const SETTLE_MS = 20_000;

export function method(client, name) {
  const parts = name.split('.');
  const last = parts.pop();
  const target = parts.reduce((o, k) => o?.[k], client);
  check(target && typeof target[last] === 'function', `operation ${name} does not exist`);
  return target[last].bind(target);
}

// Waits for a thenable, reporting a call that never settles.
export async function settle(promise, what = 'call') {
  let timer;
  const late = new Promise((_, reject) => { timer = real.setTimeout(() => reject(new Error('never settles')), SETTLE_MS); });
  try {
    return await Promise.race([
      (async () => { try { return { status: 'resolved', value: await promise }; } catch (error) { return { status: 'rejected', error }; } })(),
      late.catch(() => fail(`${what}: the returned promise does not settle`)),
    ]);
  } finally {
    real.clearTimeout(timer);
  }
}

export function start(client, call, args = materialise(call.args), id) {
  return callContext.run(id, () => {
    try { return method(client, call.op)(...args); } catch (error) {
      if (error?.constructor?.name === 'Violation') throw error;
      return Promise.reject(error);
    }
  });
}

// Runs one call. `plan` is a list of response descriptors, or a function (record) => descriptor.
export async function run(client, call, plan = [], { args, id, quiet = true } = {}) {
  const respond = typeof plan === 'function' ? plan : (rec) => plan[rec.index] ?? ok({ id: 'extra', object: 'list', has_more: false, data: [] });
  const net = new Net((rec) => makeResponse(respond(rec)));
  setNet(net);
  const outcome = await settle(start(client, call, args, id), call.op);
  outcome.atSettle = net.requests.length;
  if (quiet) await tick();
  await net.settled();
  return { ...outcome, requests: net.requests };
}

// --- request comparison ------------------------------------------------------------------------
export function parseUrl(rec, base = BASE) {
  const b = new URL(base);
  const u = new URL(rec.url);
  check(u.origin === b.origin, `request goes to ${u.origin}, not ${b.origin}`);
  const prefix = b.pathname === '/' ? '' : b.pathname;
  check(u.pathname.startsWith(`${prefix}/`), `path ${u.pathname} not below ${prefix}`);
  const segments = u.pathname.slice(prefix.length + 1).split('/').map((s) => {
    try { return decodeURIComponent(s); } catch { return fail(`path segment does not decode: ${s}`); }
  });
  check(u.hash === '', `request URL has a fragment ${show(u.hash)}`);
  check(u.username === '' && u.password === '', 'request URL has userinfo');
  return { segments, query: [...u.searchParams.entries()], emptyQuery: rec.url.includes('?') && u.search === '' };
}

export function checkTarget(rec, exp, base) {
  check(!rec.invalid, () => `fetch refuses the request: ${rec.invalid}`);
  check(rec.method === exp.method, `method ${rec.method}, expected ${exp.method}`);
  const { segments } = parseUrl(rec, base);
  const d = diff(segments, exp.path);
  check(!d, () => `path ${show(segments)}, expected ${show(exp.path)}`);
}

const byKey = (a, b) => (a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : a[1] < b[1] ? -1 : a[1] > b[1] ? 1 : 0);
export function checkQuery(rec, exp, base) {
  check(!rec.invalid, () => `fetch refuses the request: ${rec.invalid}`);
  const { query } = parseUrl(rec, base);
  const want = [...(exp.query ?? [])].sort(byKey);
  check(!diff([...query].sort(byKey), want), () => `query ${show(query)}, expected ${show(want)}`);
}

// Resolves {$html} by rendering with the React Email renderer.
export async function resolveHtml(v, render = renderExpected) {
  if (v === null || typeof v !== 'object' || v instanceof Uint8Array) return v;
  if (v.$html) return render(v.$html);
  if (v.$bytes) return v;
  if (Array.isArray(v)) { const out = []; for (const x of v) out.push(await resolveHtml(x, render)); return out; }
  const out = {};
  for (const k of Object.keys(v)) setOwn(out, k, await resolveHtml(v[k], render));
  return out;
}

function hasMarker(v) {
  if (v === null || typeof v !== 'object') return false;
  if (v.$bytes || v.$html) return true;
  return Object.values(v).some(hasMarker);
}

// Compares a received JSON value with an expected value (undefined fields are absent on the wire).
export function bodyDiff(got, want, path = 'body') {
  if (want && typeof want === 'object' && want.$bytes) {
    const bytes = Buffer.from(want.$bytes);
    if (typeof got === 'string') return got === bytes.toString('base64') ? null : `${path}: not the base64 of the bytes`;
    if (got && got.type === 'Buffer' && Array.isArray(got.data)) return Buffer.compare(Buffer.from(got.data), bytes) === 0 && got.data.length === bytes.length ? null : `${path}: bytes differ`;
    return `${path}: ${show(got)} is not an encoding of the bytes`;
  }
  if (!hasMarker(want)) return diff(got, viaJson(want), path);
  if (Array.isArray(want)) {
    if (!Array.isArray(got) || got.length !== want.length) return `${path}: ${show(got)}, expected ${want.length} elements`;
    for (let i = 0; i < want.length; i++) { const d = bodyDiff(got[i], want[i], `${path}[${i}]`); if (d) return d; }
    return null;
  }
  if (got === null || typeof got !== 'object' || Array.isArray(got)) return `${path}: ${show(got)}, expected an object`;
  const keys = new Set(Object.keys(got));
  for (const k of Object.keys(want)) {
    const w = own(want, k);
    if (w === undefined) continue;
    if (!keys.delete(k)) return `${path}.${k}: missing`;
    const d = bodyDiff(own(got, k), w, `${path}.${k}`);
    if (d) return d;
  }
  for (const k of keys) return `${path}.${k}: unexpected ${show(own(got, k))}`;
  return null;
}

export function jsonBody(rec) {
  if (!rec.hasBody) return undefined;
  try { return JSON.parse(rec.bytes.toString('utf8')); } catch { return fail(`body is not JSON: ${show(rec.bytes.toString('utf8'))}`); }
}

const isEmpty = (v) => v && typeof v === 'object' && !Array.isArray(v) && Object.values(v).every((x) => x === undefined);

export async function checkBody(rec, exp, render) {
  check(!rec.invalid, () => `fetch refuses the request: ${rec.invalid}`);
  if (exp.body === undefined) {
    check(!rec.hasBody || rec.bytes.length === 0, () => `request has a body ${show(rec.bytes.toString('utf8'))}, expected none`);
    return;
  }
  if (exp.body?.$form) { await checkForm(rec, exp.body); return; }
  const got = jsonBody(rec);
  if (got === undefined && isEmpty(exp.body)) return;
  check(got !== undefined, 'request has no body');
  const want = await resolveHtml(exp.body, render);
  let d = bodyDiff(got, want);
  if (d && exp.bodyMay) d = bodyDiff(got, { ...want, ...exp.bodyMay }) && d;
  check(!d, d);
}

export async function formOf(rec) {
  const type = rec.headers.get('content-type');
  check(/^multipart\/form-data;.*boundary=/i.test(type ?? ''), `content type ${type} of a multipart body`);
  try {
    return await new Response(rec.bytes, { headers: { 'content-type': type } }).formData();
  } catch (e) {
    return fail(`multipart body does not parse under its content type: ${e}`);
  }
}

async function checkForm(rec, want) {
  const form = await formOf(rec);
  const seen = [...form.keys()];
  const names = ['file', ...want.$form.map(([k]) => k)];
  check(!diff([...seen].sort(), [...names].sort()), () => `form fields ${show(seen)}, expected ${show(names)}`);
  const file = form.get('file');
  check(file instanceof Blob, 'file part is not a file');
  const bytes = Buffer.from(await file.arrayBuffer());
  check(Buffer.compare(bytes, Buffer.from(want.file.$blob)) === 0, () => `file bytes differ: ${show(bytes)}`);
  if (want.file.name !== undefined) check(file.name === want.file.name, `file name ${show(file.name)}, expected ${show(want.file.name)}`);
  if (want.file.type !== '') check(file.type === want.file.type, `file type ${file.type}, expected ${want.file.type}`);
  for (const [name, spec] of want.$form) {
    const v = form.get(name);
    check(typeof v === 'string', `field ${name} is not text`);
    if (spec.text !== undefined) check(v === spec.text, `field ${name} is ${show(v)}, expected ${show(spec.text)}`);
    else {
      let parsed;
      try { parsed = JSON.parse(v); } catch { fail(`field ${name} is not JSON`); }
      const d = diff(parsed, viaJson(spec.json));
      check(!d, `field ${name}: ${d}`);
    }
  }
}

export function oneRequest(r) {
  check(r.requests.length === 1, () => `${r.requests.length} requests instead of one: ${show(r.requests.map((x) => x.url ?? String(x.invalid)))}`);
  return r.requests[0];
}

export function expectation(call) {
  return find(call.op).expect(...call.args);
}

export function checkLocal(r, name) {
  check(r.requests.length === 0, () => `a request was sent (${r.requests[0].method} ${r.requests[0].url}) instead of refusing locally`);
  check(r.status === 'resolved', () => `rejected with ${show(r.error)}`);
  const v = r.value;
  check(v && v.data === null && v.headers === null && v.error && v.error.name === name && v.error.statusCode === null && typeof v.error.message === 'string' && v.error.message !== '', () => `result ${show(v)}, expected a local ${name} error`);
}

export function checkSuccess(r, op, body, descriptor) {
  check(r.status === 'resolved', () => `rejected with ${show(r.error)}`);
  const want = { data: op.map ? op.map(body) : body, error: null, headers: headersOf(descriptor) };
  const d = diff({ data: r.value?.data, error: r.value?.error, headers: r.value?.headers }, want);
  check(!d, () => `result differs: ${d}`);
}

export function clientOf(lib, c = {}) {
  const { Resend } = lib[c.build ?? 'esm'];
  return new Resend(c.key ?? KEY, c.options);
}
