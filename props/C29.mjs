import { checkBody, checkTarget, expectation, KEY, method, settle } from '../lib/call.mjs';
import { build } from '../lib/common.mjs';
import { check, fc } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { checkHeaders, givenHeaders, optionsOf, wantedHeaders } from '../lib/head.mjs';
import { server } from '../lib/loopback.mjs';
import { materialise } from '../lib/material.mjs';
import { ok } from '../lib/net.mjs';
import { callOf } from '../lib/ops.mjs';
import { sessionSub, stepOf } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';
import { success } from '../lib/session.mjs';

const OP = 'contacts.imports.create';
async function verify(o, s, { lib }) {
  await exact(o, s);
  const options = optionsOf(s.call);
  checkHeaders(o.requests[0], wantedHeaders({ key: KEY, userAgent: new lib.esm.Resend('k').userAgent, options }), { form: true, given: givenHeaders(options) });
}
// Through the platform's multipart encoder and a server.
async function wire({ build: b, call }, { lib }) {
  const srv = await server();
  srv.answerWith(() => ok({ object: 'contact_import', id: 'imp' }, undefined, 201));
  srv.open();
  const client = new lib[b].Resend(KEY, { baseUrl: srv.base });
  const r = await settle(method(client, OP)(...materialise(call.args)), OP);
  check(r.status === 'resolved' && r.value.data?.id === 'imp', () => `import ended with ${show(r.error ?? r.value)}`);
  check(srv.seen.length === 1, `${srv.seen.length} requests arrived`);
  const rec = { ...srv.seen[0], url: srv.base + srv.seen[0].url, hasBody: true };
  checkTarget(rec, expectation(call), srv.base);
  await checkBody(rec, expectation(call));
  check(rec.headers.get('authorization') === `Bearer ${KEY}`, 'other credentials than of any other call');
  check(rec.headers.get('user-agent') === client.userAgent, 'other user agent than of any other call');
}

export default {
  id: 'C29',
  rule: 'contact imports with random files (Blob or File, any bytes up to 64 KiB, any name and type) and settings (each absent, undefined or set; column maps with odd keys); the multipart body is decoded with its own boundary and compared part by part, at the fetch boundary and on the wire to a loopback server; non-trivial: at least one setting besides the file.',
  subs: [
    sessionSub('form', stepOf([OP], success), [1500, 30000], verify, { nontrivial: (s) => Object.keys(s.call.args[0]).length > 1 }),
    { name: 'on-the-wire', runs: [250, 4000], arb: fc.record({ build, call: callOf([OP]).map((c) => ({ ...c, args: [c.args[0]] })) }), test: wire, nontrivial: (c) => Object.keys(c.call.args[0]).length > 1 },
  ],
};
