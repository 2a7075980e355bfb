import { readFileSync } from 'node:fs';
import { join } from 'node:path';
import { loadFresh, loadLib } from '../lib/build.mjs';
import { anyOps, build } from '../lib/common.mjs';
import { expectation } from '../lib/call.mjs';
import { check, fail, fc, real, REPO } from '../lib/env.mjs';
import { diff, show } from '../lib/equal.mjs';
import { FORWARD, forwardStep } from '../lib/forward.mjs';
import * as g from '../lib/gen.mjs';
import { captured } from '../lib/printed.mjs';
import { missing } from '../lib/refusals.mjs';
import { anyAnswer, play, session, stepOf } from '../lib/session.mjs';
import { keyBytes, messageId, payload, secretOf, sign } from '../lib/signing.mjs';
import { complete } from '../lib/verify.mjs';

const { version } = JSON.parse(readFileSync(join(REPO, 'package.json'), 'utf8'));
const worlds = fc.constantFrom('absent', 'absent', 'empty', 'undefined env', 'null env', 'undefined');
const descriptor = Object.getOwnPropertyDescriptor(globalThis, 'process');
function enter(world) {
  delete globalThis.process;
  if (world === 'absent') return;
  const value = { empty: {}, 'undefined env': { env: undefined }, 'null env': { env: null }, undefined: undefined }[world];
  Object.defineProperty(globalThis, 'process', { value, configurable: true, writable: true });
}
// Names other runtimes define, and one that old runtimes do not have.
const FOREIGN = { window: globalThis, document: { cookie: '', location: { href: 'https://app.test/' } }, self: globalThis, Deno: { env: { get: () => 'deno' }, version: { deno: '2.0.0' } }, Bun: { env: { RESEND_API_KEY: 're_bun' }, version: '1.2.0' }, EdgeRuntime: 'edge-runtime', WorkerGlobalScope: class WorkerGlobalScope {}, importScripts() {} };
const form = Object.getOwnPropertyDescriptor(globalThis, 'FormData');
function globals({ foreign, formless }) {
  for (const k of foreign) Object.defineProperty(globalThis, k, { value: FOREIGN[k], configurable: true, writable: true });
  if (formless) delete globalThis.FormData;
  return () => {
    for (const k of foreign) delete globalThis[k];
    if (formless) Object.defineProperty(globalThis, 'FormData', form);
  };
}
const leave = () => { delete globalThis.process; Object.defineProperty(globalThis, 'process', descriptor); };

// What the real environment says must not be seen.
const decoys = { RESEND_API_KEY: 're_from_environment', RESEND_BASE_URL: 'https://environment.test', RESEND_USER_AGENT: 'environment/1', NODE_ENV: 'development' };
async function inWorld({ world, foreign, formless }, fn) {
  const before = {};
  for (const [k, v] of Object.entries(decoys)) { before[k] = real.process.env[k]; real.process.env[k] = v; }
  try {
    return await captured(async () => { const restore = globals({ foreign, formless }); enter(world); try { return await fn(); } finally { leave(); restore(); } });
  } finally {
    for (const [k, v] of Object.entries(before)) { if (v === undefined) delete real.process.env[k]; else real.process.env[k] = v; }
  }
}

// The renderer is the application's; a stand-in renders without looking at the environment.
const html = '<p>rendered</p>';
const hasReact = (v) => v !== null && typeof v === 'object' && (Boolean(v.$react) || Object.values(v).some(hasReact));
async function test(c) {
  const lib = await loadLib('fake');
  globalThis.__fakeRender = async () => html;
  const { value: outs, lines } = await inWorld(c, async () => {
    const { Resend } = c.fresh ? await loadFresh(lib.dir, c.session.build) : lib[c.session.build];
    for (const key of [undefined, '']) {
      let error;
      try { new Resend(key); } catch (e) { error = e; }
      check(error && /missing api key/i.test(error.message), () => `constructing with key ${show(key)} gives ${error ? show(error) : 'a client'}`);
    }
    let client;
    try { client = new Resend(c.key, c.options); } catch (e) { fail(`construction throws ${show(e)}`); }
    return play(lib, c.session, { client });
  });
  check(lines.length === 0, () => `printed ${show(lines.map((l) => [l.method, ...l.args]))}`);
  const conf = { key: c.key, base: c.options?.baseUrl ?? 'https://api.resend.com', userAgent: c.options?.userAgent ?? `resend-node:${version}` };
  for (const o of outs) {
    if (o.step.missing) { check(o.requests.length === 0 && o.value?.error?.name === 'missing_required_field', () => `${o.step.call.op}: ${show(o.value ?? o.error)}`); continue; }
    if (hasReact(o.step.call.args)) {
      check(o.status === 'resolved' && o.requests.length === 1, () => `${o.step.call.op} with React content: ${o.status} ${show(o.error)}, ${o.requests.length} requests`);
      check(o.requests[0].bytes.includes(JSON.stringify(html).slice(1, -1)), () => `${o.step.call.op}: the rendered html is not sent`);
      continue;
    }
    await complete(o, o.step, conf);
  }
}

const step = fc.oneof({ weight: 10, arbitrary: stepOf(anyOps, anyAnswer) }, { weight: 2, arbitrary: forwardStep(anyAnswer('emails.send')) }, { weight: 1, arbitrary: missing });
const options = fc.constantFrom(undefined, undefined, {}, { baseUrl: undefined, userAgent: undefined }, { baseUrl: 'https://eu.example.test' }, { userAgent: 'app/1.0' }, { baseUrl: 'http://localhost:3000/v1', userAgent: 'x' });
const around = { foreign: fc.oneof(fc.constant([]), fc.subarray(Object.keys(FOREIGN), { minLength: 1, maxLength: 3 })), formless: fc.nat(3).map((n) => n === 0) };
const hasForm = (v) => v !== null && typeof v === 'object' && (Boolean(v.$blob) || Object.values(v).some(hasForm));
const sessions = fc.record({ session: session(step, { noise: anyOps }), world: worlds, options, key: g.id.map((i) => `re_${i}`), fresh: fc.constant(false), ...around }).map((c) => ({ ...c, formless: c.formless && !c.session.steps.some((s) => s.call.op === 'contacts.imports.create' || hasForm(s.call.args)) }));
const classify = (c) => [`world:${c.world}`, ...c.foreign.map((k) => `with:${k}`), ...(c.formless ? ['without:FormData'] : []), ...(c.session ? c.session.steps.map((s) => (s.call.op === FORWARD ? 'forward' : s.missing || expectation(s.call).local ? 'refused' : hasReact(s.call.args) ? 'react' : s.plan[0].status < 300 ? 'success' : 'failure')) : [])];

async function verification(c, { lib }) {
  const client = new lib[c.build].Resend('re_x');
  const ts = String(Math.floor(Date.now() / 1000));
  const { value } = await inWorld(c, () => {
    try { return { got: client.webhooks.verify({ payload: c.payload, headers: { id: c.id, timestamp: ts, signature: `v1,${sign(c.bytes, c.id, ts, c.payload)}` }, webhookSecret: secretOf(c.bytes, true) }) }; } catch (error) { return { error }; }
  });
  check(!value.error, () => `verification throws ${show(value.error)}`);
  const d = diff(value.got, JSON.parse(c.payload));
  check(!d, d);
}

export default {
  id: 'C40',
  rule: 'sessions of any operations, generic verbs, forwards and refused calls with any answers, on clients with generated key and options, constructed and used while the global process is deleted, undefined, {} or without env, now and then without FormData or with names of other runtimes defined (sometimes with the bundle itself loaded then); compared with the reference model (default or given base URL and user agent); the key-less construction and the console are observed too; non-trivial: always.',
  subs: [
    { name: 'sessions', arb: sessions, runs: [2000, 40000], test, classify },
    { name: 'fresh-load', arb: sessions.map((c) => ({ ...c, fresh: true })), runs: [40, 200], test, classify },
    { name: 'verify', arb: fc.record({ build, world: worlds, ...around, bytes: keyBytes, id: messageId, payload }), runs: [200, 2000], test: verification, classify },
  ],
};
