import { checkTarget, expectation, formOf, method, settle } from '../lib/call.mjs';
import { anyOps, build, find } from '../lib/common.mjs';
import { spiced } from '../lib/dictionary.mjs';
import { check, fc } from '../lib/env.mjs';
import { diff, show } from '../lib/equal.mjs';
import { FORWARD, forwardStep } from '../lib/forward.mjs';
import { id } from '../lib/gen.mjs';
import { givenHeaders, optionsOf } from '../lib/head.mjs';
import { server } from '../lib/loopback.mjs';
import { materialise } from '../lib/material.mjs';
import { ok } from '../lib/net.mjs';
import { anyAnswer, play, session, stepOf, success } from '../lib/session.mjs';

const visible = fc.string({ unit: fc.integer({ min: 0x21, max: 0x7e }).map((n) => String.fromCharCode(n)), minLength: 1, maxLength: 40 });
const long = fc.constantFrom(101, 129, 257, 300, 513, 1025, 2049, 4097).chain((n) => fc.constantFrom('k', 'my-app/1.0 (linux; x64) ').map((s) => `${s.repeat(n).slice(0, n - 1)}Z`));
const key = fc.oneof(visible, id, long, fc.constantFrom('re_123456789', 're_a b', 'RE_UPPER', 'Bearer re_x', 're_é'));
const agent = fc.oneof({ weight: 10, arbitrary: visible }, { weight: 5, arbitrary: fc.constantFrom('my-app/1.0 (linux; x64)', 'resend-node:custom', 'a, b', 'x  y') }, { weight: 1, arbitrary: long });
const host = spiced(fc.stringMatching(/^[a-z][a-z0-9-]{0,10}[a-z0-9]$/), (w) => /^[a-z][a-z0-9.-]*[a-z0-9]$/.test(w) && !w.includes('..') && !/(^|\.)(-|xn--)|-\.|\d$/.test(w));
const base = fc.oneof(
  fc.constantFrom(undefined, 'https://api.resend.com', 'https://api.eu.resend.com', 'http://localhost:3000', 'http://127.0.0.1:8787', 'https://proxy.test/resend', 'https://proxy.test:8443/a/b', 'https://[::1]:8080', 'https://proxy.test/api.resend.com', 'https://xn--bcher-kva.test/v1', 'https://proxy.test/emails'),
  id.map((i) => `https://gateway.test/${i}`),
  fc.constantFrom('http://api.resend.test', 'http://resend.internal:8080/api', 'https://proxy.test:443/x', 'https://eu-api.resend.com', 'http://api.resend.com', 'https://api.resend.dev/v2', 'https://resend.proxy.test/api', 'http://192.168.0.10', 'http://host.docker.internal:9000', 'https://a.b.c.d.test/x/y/z/'.slice(0, -1), 'https://PROXY.test/Path'),
  host.map((h) => `http://${h}.test`), host.map((h) => `https://${h}.test/${h}`),
);
const config = fc.record({ key, base, agent: fc.option(agent, { nil: undefined }) });
const optionsFor = (c) => ({ ...(c.base !== undefined && { baseUrl: c.base }), ...(c.agent !== undefined && { userAgent: c.agent }) });

async function checkCredentials(rec, s, c, lib) {
  const given = s.call.op === FORWARD && rec.method === 'GET' ? new Headers() : givenHeaders(s.call.op === FORWARD ? s.call.args[1] : optionsOf(s.call));
  const expect = (name, want) => { if (!given.has(name)) check(rec.headers.get(name) === want, () => `${name} is ${show(rec.headers.get(name))}, expected ${show(want)}`); };
  expect('authorization', `Bearer ${c.key}`);
  expect('user-agent', c.agent ?? lib.agent);
  if (find(s.call.op).form) { if (!given.has('content-type')) await formOf(rec); } else if (rec.hasBody) expect('content-type', 'application/json');
}
function defaultAgent(lib, b) {
  return new lib[b].Resend('k').userAgent;
}
async function test({ configs, session: c, owner }, { lib }) {
  const clients = configs.map((x) => new lib[c.build].Resend(x.key, optionsFor(x)));
  const steps = c.steps.map((s, i) => ({ ...s, client: owner[i % owner.length] % clients.length }));
  const outs = await play(lib, { ...c, steps }, { clients });
  for (const o of outs) {
    const conf = configs[o.step.client];
    for (const [n, rec] of o.requests.entries()) {
      if (o.step.call.op === FORWARD) {
        if (n === 1) continue;
        const prefix = `${conf.base ?? 'https://api.resend.com'}/emails`;
        check(rec.url === new URL(n === 0 ? `${prefix}/receiving/${o.step.call.args[0].emailId}` : prefix).href, () => `request ${n} of forward went to ${rec.url}`);
      } else checkTarget(rec, expectation(o.step.call), conf.base);
      await checkCredentials(rec, o.step, conf, { agent: defaultAgent(lib, c.build) });
    }
    check(o.requests.length > 0 || expectation(o.step.call).local, 'no request was sent');
  }
}

// The same through the platform's own fetch and a server.
const wireAgent = visible;
async function wire({ build: b, call, key: k, agent: a, prefix, reply }, { lib }) {
  const srv = await server();
  srv.answerWith(() => ok(reply));
  srv.open();
  const client = new lib[b].Resend(k, { baseUrl: srv.base + prefix, userAgent: a });
  const exp = expectation(call);
  const r = await settle(method(client, call.op)(...materialise(call.args)), call.op);
  if (exp.local) return;
  check(r.status === 'resolved' && r.value.error === null, () => `call ended with ${show(r.error ?? r.value.error)}`);
  check(!diff(r.value.data, find(call.op).map ? find(call.op).map(reply) : reply), () => `data differs: ${diff(r.value.data, reply)}`);
  check(srv.seen.length === 1, `${srv.seen.length} requests arrived`);
  const [rec] = srv.seen;
  rec.url = srv.base + rec.url;
  rec.hasBody = rec.bytes.length > 0;
  checkTarget(rec, exp, srv.base + prefix);
  await checkCredentials(rec, { call }, { key: k, agent: a }, {});
}
const plain = (c) => { const o = find(c.op).opts; return o === undefined ? c : { ...c, args: c.args.slice(0, o) }; };
const steps = fc.oneof({ weight: 9, arbitrary: stepOf(anyOps, anyAnswer) }, { weight: 1, arbitrary: forwardStep(anyAnswer('emails.send')) });

export default {
  id: 'C06',
  rule: 'sessions over 1 to 3 clients with random keys, base URLs (with and without path prefix, ports, IPv6) and user agents, each call issued on a random client; a second sub-check sends random calls through the platform fetch to a loopback server and inspects what arrived; non-trivial: always.',
  subs: [
    { name: 'credentials', runs: [3000, 60000], test, arb: fc.record({ configs: fc.array(config, { minLength: 1, maxLength: 3 }), session: session(steps), owner: fc.array(fc.nat(7), { minLength: 1, maxLength: 5 }) }), classify: (c) => c.session.steps.map((s) => s.call.op) },
    { name: 'on-the-wire', runs: [250, 4000], test: wire, arb: stepOf(anyOps, success).chain((s) => fc.record({ build, call: fc.constant(plain(s.call)), reply: fc.constant(s.plan[0].json), key: fc.oneof(visible, id), agent: wireAgent, prefix: fc.constantFrom('', '/v1', '/a/b') })) },
  ],
};
