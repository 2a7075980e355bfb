import { loadLib } from '../lib/build.mjs';
import { anyOps, build } from '../lib/common.mjs';
import { check, fc } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { FORWARD, forwardArgs, forwardStep, lookup, lookupAnswer, rawAnswer } from '../lib/forward.mjs';
import { givenHeaders, optionsOf } from '../lib/head.mjs';
import { captured, exposed } from '../lib/printed.mjs';
import { anyAnswer, play, session, stepOf } from '../lib/session.mjs';

const keyText = fc.string({ unit: fc.constantFrom(...'abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789_'), minLength: 12, maxLength: 40 }).map((s) => `re_K${s}`);
const base = fc.constantFrom(undefined, undefined, 'https://api.example.test', 'https://proxy.example.test/resend/v1', 'http://localhost:3000');
const anyForward = fc.oneof(
  { weight: 3, arbitrary: forwardStep(anyAnswer('emails.send')) },
  { weight: 2, arbitrary: fc.record({ args: forwardArgs, lookupBody: lookup, download: fc.oneof(anyAnswer('emails.send'), rawAnswer), send: anyAnswer('emails.send'), delay: fc.constant(0) }).map(({ args, lookupBody, download, send, delay }) => ({ call: { op: FORWARD, args }, plan: [lookupAnswer(lookupBody), download, send], lookupBody, delay })) },
);
const step = fc.oneof({ weight: 6, arbitrary: stepOf(anyOps, anyAnswer) }, { weight: 3, arbitrary: anyForward });
const options = fc.record({ session: session(step, { noise: anyOps }), key: keyText, base, env: fc.constantFrom('development', 'test', undefined, 'production'), renders: fc.constantFrom('ok', 'ok', 'ok', 'rejects', 'throws'), bare: fc.integer({ min: 0, max: 9 }).map((n) => n === 0) });

// The key, enough of it in a row to be no accident (the keys are random), or its base64 form wherever it starts.
const PART = 10;
const needles = (key) => [
  ...Array.from({ length: key.length - PART + 1 }, (_, i) => key.slice(i, i + PART)),
  ...[0, 1, 2].map((k) => Buffer.from(key.slice(k, k + 3 * Math.floor((key.length - k) / 3))).toString('base64')),
];

async function test(c) {
  const lib = await loadLib('fake');
  globalThis.__fakeRender = (...args) => {
    if (c.renders === 'throws') throw new Error('component failed');
    return c.renders === 'ok' ? Promise.resolve('<p>fine</p>') : Promise.reject(new Error('component failed', { cause: args.length }));
  };
  const parts = needles(c.key);
  const leaks = (text) => parts.some((p) => text.includes(p));
  const root = c.base ?? 'https://api.resend.com';
  const before = process.env.NODE_ENV;
  if (c.env === undefined) delete process.env.NODE_ENV; else process.env.NODE_ENV = c.env;
  let run;
  try {
    run = await captured(() => {
      const client = new lib[c.session.build].Resend(c.key, c.base && { baseUrl: c.base });
      // Bare: the methods get no arguments at all, so that many of them throw.
      return play(lib, c.session, { client, argsOf: c.bare ? (s) => (s.call.op.includes('.') ? [] : s.call.args.slice(0, 1)) : undefined });
    });
  } finally {
    process.env.NODE_ENV = before;
  }
  for (const l of run.lines) {
    const text = l.args.map(exposed).join('\n');
    check(!leaks(text), () => `console.${l.method} output contains the API key or a part of it: ${text.slice(0, 300)}`);
  }
  for (const o of run.value) {
    const text = exposed(o.status === 'resolved' ? o.value : o.error);
    check(!leaks(text), () => `${o.step.call.op} ${o.status} with something that contains the API key or a part of it: ${text.slice(0, 300)}`);
    const given = givenHeaders(c.bare ? undefined : optionsOf(o.step.call));
    for (const r of o.requests) {
      check(!r.invalid, () => `fetch refuses the request: ${r.invalid}`);
      // A download may be on the API's own host: it is what the lookup named, wherever that is.
      const download = o.step.lookupBody && r.method === 'GET' && r.url === new URL(o.step.lookupBody.raw.download_url).href;
      const toApi = !download && (r.url === root || r.url.startsWith(`${root}/`));
      check(!leaks(decodeURIComponent(r.url.replace(/%(?![0-9a-f]{2})/gi, '%25'))), () => `the API key is in the URL ${r.url}`);
      if (r.hasBody) check(!leaks(r.bytes.toString('latin1')), () => `the API key is in the body of ${r.method} ${r.url}`);
      for (const [k, v] of r.headers) {
        if (toApi) { if (k !== 'authorization') check(!leaks(v), () => `header ${k} carries the API key or a part of it`); continue; }
        check(!leaks(v), () => `header ${k} of the request to ${r.url} carries the API key`);
        check(k !== 'authorization', () => `the request to ${r.url} carries an authorization header ${show(v)}`);
        check(!given.has(k) || given.get(k) !== v, () => `the request to ${r.url} carries the caller's header ${k}: ${show(v)}`);
        check(k !== 'idempotency-key', () => `the request to ${r.url} carries the caller's idempotency key`);
      }
      if (!toApi) check(download, () => `a request goes to ${r.url}, which is neither the API nor the download`);
    }
  }
}

export default {
  id: 'C37',
  rule: 'sessions of any operations, generic verbs and forwards (any answer to each of their steps, downloads on other hosts and on the host of the API, generated caller headers) on a client with a generated key and base URL, under several NODE_ENV values, with renderers that work or fail, sometimes with methods called without arguments; all requests, everything printed, returned and thrown is searched for the key; non-trivial: a forward, or a call that does not end in success.',
  subs: [{
    name: 'key', arb: options, runs: [2500, 50000], test,
    classify: (c) => [`env:${c.env}`, `renders:${c.renders}`, ...c.session.steps.map((s) => (s.call.op === FORWARD ? 'forward' : s.plan[0].throw ? 'network' : s.plan[0].status > 299 ? 'http error' : 'success'))],
    nontrivial: (c) => c.bare || c.renders !== 'ok' || c.session.steps.some((s) => s.call.op === FORWARD || s.plan[0].throw || s.plan[0].status > 299),
  }],
};
