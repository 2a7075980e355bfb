import { readFileSync } from 'node:fs';
import { join } from 'node:path';
import { loadFresh } from '../lib/build.mjs';
import { method, settle } from '../lib/call.mjs';
import { build } from '../lib/common.mjs';
import { check, fc, REPO } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { id } from '../lib/gen.mjs';
import { makeResponse, Net, ok, setNet } from '../lib/net.mjs';
import { surround, surroundings } from '../lib/surroundings.mjs';

const ENV = ['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT'];
const visible = fc.string({ unit: fc.integer({ min: 0x21, max: 0x7e }).map((n) => String.fromCharCode(n)), minLength: 1, maxLength: 20 });
const padded = (arb) => fc.tuple(arb, fc.constantFrom(' ', '  ', '\t'), fc.nat(2)).map(([v, w, k]) => (k === 0 ? w + v : k === 1 ? v + w : w + v + w));
const keyText = fc.oneof({ weight: 9, arbitrary: visible }, { weight: 1, arbitrary: padded(visible) }, { weight: 5, arbitrary: id }, fc.constantFrom('re_1', '0', 'false', 'undefined', 'null', `re_${'k'.repeat(300)}`, 'Bearer x', '"re_quoted"', "'re_quoted'", '${RESEND_KEY}', 're_1#c', 're_1\\n', 'RE_2', 'test', 're_test_1'));
const url = fc.oneof(fc.constantFrom('https://api.resend.com', 'http://localhost:4000', 'https://x.test/p', 'https://EU.resend.test', 'http://10.0.0.1:81/a/b', 'http://api.resend.com', 'https://resend.internal/api', 'https://api.resend.com:8443', 'https://api.resend.com/', 'http://localhost:4000/', 'https://x.test/p//', 'HTTPS://X.test', 'https://x.test/p/.', 'https://x.test/p?q='), id.map((i) => `https://h.test/${i}`), id.map((i) => `https://h.test/${i}/`), padded(fc.constant('https://h.test/p')));
const agent = fc.oneof(visible, padded(visible), fc.constantFrom('app/1', 'x', 'my app (linux; x64)', '"quoted"', 'false', 'resend-node:0.0.1', `${'agent/1.0 '.repeat(30)}end`, 'a'.repeat(1025)));
const maybe = (arb) => fc.oneof({ weight: 2, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.constant('') }, { weight: 3, arbitrary: arb });
const env = fc.record({ RESEND_API_KEY: maybe(keyText), RESEND_BASE_URL: maybe(url), RESEND_USER_AGENT: maybe(agent) });
const opt = (arb) => fc.oneof(fc.constant(['absent']), fc.constant(['undefined']), arb.map((v) => ['value', v]));
const client = fc.record({
  env, key: fc.oneof(fc.constant(['none']), fc.constant(['value', undefined]), fc.constant(['value', '']), keyText.map((k) => ['value', k]), keyText.map((k) => ['value', k])),
  options: fc.oneof({ weight: 1, arbitrary: fc.constant(undefined) }, { weight: 4, arbitrary: fc.record({ baseUrl: opt(fc.oneof({ weight: 9, arbitrary: url }, { weight: 1, arbitrary: fc.constant('') })), userAgent: opt(fc.oneof({ weight: 9, arbitrary: agent }, { weight: 1, arbitrary: fc.constant('') })) }) }),
});

function setEnv(e) {
  for (const k of ENV) { if (e[k] === undefined) delete process.env[k]; else process.env[k] = e[k]; }
}
const version = () => JSON.parse(readFileSync(join(REPO, 'package.json'), 'utf8')).version;
function wanted(c) {
  const key = c.key[1] || c.env.RESEND_API_KEY || undefined;
  const pick = (o, e, d) => (o?.[0] === 'value' ? o[1] : e || d);
  return { key, baseUrl: pick(c.options?.baseUrl, c.env.RESEND_BASE_URL, 'https://api.resend.com'), userAgent: pick(c.options?.userAgent, c.env.RESEND_USER_AGENT, `resend-node:${version()}`) };
}
function construct(Resend, c) {
  setEnv(c.env);
  const args = c.key[0] === 'none' ? [] : [c.key[1]];
  if (c.options !== undefined) {
    const o = {};
    for (const k of ['baseUrl', 'userAgent']) { if (c.options[k][0] === 'undefined') o[k] = undefined; if (c.options[k][0] === 'value') o[k] = c.options[k][1]; }
    if (args.length === 0) args.push(undefined);
    args.push(o);
  }
  try { return { client: new Resend(...args) }; } catch (error) { return { error }; }
}
// What a header's value is when sent: space around it is no part of it.
const sent = (text) => text.replace(/^[ \t]+|[ \t]+$/g, '');
async function use(made, want) {
  const { client: x } = made;
  for (const k of ['key', 'baseUrl', 'userAgent']) check(x[k] === want[k], () => `client.${k} is ${show(x[k])}, expected ${show(want[k])}`);
  for (const [name, args, path] of [['domains.list', [], '/domains'], ['emails.get', ['e1'], '/emails/e1'], ['topics.create', [{ name: 'n', defaultSubscription: 'opt_in' }], '/topics'], ['put', ['/x', {}], '/x']]) {
    const net = new Net(() => makeResponse(ok({ id: 'a' })));
    setNet(net);
    const target = want.baseUrl + path;
    const unreachable = !URL.canParse(target);
    await settle(method(x, name)(...args), name);
    if (unreachable) { // no URL (an explicitly empty base, or one that ends in a space): no host to reach, so above all not the default one
      check(!net.requests.some((r) => /^https?:/.test(r.url ?? '') && !r.invalid), () => `${name}: request to ${net.requests[0].url} although the base URL is ${show(want.baseUrl)}`);
      continue;
    }
    check(net.requests.length === 1 && !net.requests[0].invalid, `${name}: no valid request`);
    const rec = net.requests[0];
    check(rec.url === new URL(target).href, () => `${name}: request to ${rec.url}, base ${want.baseUrl}`);
    check(rec.headers.get('authorization') === sent(`Bearer ${want.key}`), () => `${name}: authorization ${rec.headers.get('authorization')}`);
    check(rec.headers.get('user-agent') === sent(want.userAgent), () => `${name}: user agent ${show(rec.headers.get('user-agent'))}, expected ${show(sent(want.userAgent))}`);
  }
}
async function test({ build: b, clients, later, atLoad, around }, { lib }) {
  const restore = surround(around);
  try {
    if (atLoad) setEnv(atLoad);
    const { Resend } = atLoad ? await loadFresh(lib.dir, b) : lib[b];
    const made = clients.map((c) => [construct(Resend, c), wanted(c)]);
    for (const [m, want] of made) {
      if (want.key === undefined) check(m.error instanceof Error, 'construction without any key does not throw');
      else check(m.client, () => `construction threw ${m.error}`);
    }
    setEnv(later);
    for (const [m, want] of made) if (m.client) await use(m, want);
  } finally {
    setEnv({});
    restore();
  }
}

const nontrivial = (c) => c.clients.some((x) => x.options || Object.values(x.env).some((v) => v));

export default {
  id: 'C07',
  rule: '1 to 3 clients constructed in turn, each under its own combination of environment variables (unset, empty, set), key argument (none, undefined, empty, set) and options (absent, undefined, set), then used after the environment changed again; in the second sub-check the package itself is loaded anew under yet another environment; non-trivial: at least one setting given through the environment or the options.',
  subs: [
    { name: 'configuration', runs: [3000, 60000], test, arb: fc.record({ build, clients: fc.array(client, { minLength: 1, maxLength: 3 }), later: env, around: surroundings }), nontrivial },
    { name: 'environment-at-load', runs: [150, 400], test, arb: fc.record({ build, clients: fc.array(client, { minLength: 1, maxLength: 3 }), later: env, atLoad: env, around: surroundings }), nontrivial: (c) => nontrivial(c) || Object.values(c.atLoad).some((v) => v) },
  ],
};
