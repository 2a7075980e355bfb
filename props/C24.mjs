import { checkTarget, method, oneRequest, settle } from '../lib/call.mjs';
import { allOps } from '../lib/common.mjs';
import { check, fc } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { freeId, wellFormed } from '../lib/gen.mjs';
import { makeResponse, Net, ok, setNet } from '../lib/net.mjs';
import { sessionSub } from '../lib/session.mjs';
import { queried, resolved } from '../lib/verify.mjs';

// Every place where free text names the resource, and the decoded path it must give.
const places = {
  'contacts.get string': ['contacts.get', (s) => [s], (s) => ['contacts', s]],
  'contacts.get email': ['contacts.get', (s) => [{ email: s }], (s) => ['contacts', s]],
  'contacts.get email in audience': ['contacts.get', (s) => [{ email: s, audienceId: 'aud' }], (s) => ['audiences', 'aud', 'contacts', s]],
  'contacts.remove string': ['contacts.remove', (s) => [s], (s) => ['contacts', s]],
  'contacts.remove email': ['contacts.remove', (s) => [{ email: s }], (s) => ['contacts', s]],
  'contacts.remove email in audience': ['contacts.remove', (s) => [{ email: s, audienceId: 'aud' }], (s) => ['audiences', 'aud', 'contacts', s]],
  'contacts.update email': ['contacts.update', (s) => [{ email: s, firstName: 'x' }], (s) => ['contacts', s]],
  'contacts.update email in audience': ['contacts.update', (s) => [{ email: s, audienceId: 'aud' }], (s) => ['audiences', 'aud', 'contacts', s]],
  'contacts.topics.list': ['contacts.topics.list', (s) => [{ email: s }], (s) => ['contacts', s, 'topics']],
  'contacts.topics.update': ['contacts.topics.update', (s) => [{ email: s, topics: [] }], (s) => ['contacts', s, 'topics']],
  'contacts.segments.list': ['contacts.segments.list', (s) => [{ email: s }], (s) => ['contacts', s, 'segments']],
  'contacts.segments.add': ['contacts.segments.add', (s) => [{ email: s, segmentId: 'seg' }], (s) => ['contacts', s, 'segments', 'seg']],
  'contacts.segments.remove': ['contacts.segments.remove', (s) => [{ email: s, segmentId: 'seg' }], (s) => ['contacts', s, 'segments', 'seg']],
  'events.get': ['events.get', (s) => [s], (s) => ['events', s]],
  'events.update': ['events.update', (s) => [s, { schema: null }], (s) => ['events', s]],
  'events.remove': ['events.remove', (s) => [s], (s) => ['events', s]],
  'suppressions.get': ['suppressions.get', (s) => [s], (s) => ['suppressions', s]],
  'suppressions.remove': ['suppressions.remove', (s) => [s], (s) => ['suppressions', s]],
  'templates.get': ['templates.get', (s) => [s], (s) => ['templates', s]],
  'templates.update': ['templates.update', (s) => [s, { subject: 'x' }], (s) => ['templates', s]],
  'templates.remove': ['templates.remove', (s) => [s], (s) => ['templates', s]],
  'templates.publish': ['templates.publish', (s) => [s], (s) => ['templates', s, 'publish']],
  'templates.duplicate': ['templates.duplicate', (s) => [s], (s) => ['templates', s, 'duplicate']],
};
async function everyPlace({ build, place, ids }, { lib }) {
  const [op, args, path] = places[place];
  const client = new lib[build].Resend('re_path');
  for (const s of ids) {
    const net = new Net(() => makeResponse(ok({ id: 'x', object: 'list', data: [], has_more: false })));
    setNet(net);
    const o = await settle(method(client, op)(...args(s)), op);
    o.requests = net.requests;
    resolved(o);
    const rec = oneRequest(o);
    checkTarget(rec, { method: rec.method, path: path(s) });
    check(new URL(rec.url).search === '', () => `${place} ${show(s)}: the URL has a query ${rec.url}`);
  }
}
// The published id of the chain comes from the server and is free text too.
async function chainPublish({ build, id }, { lib }) {
  const net = new Net((rec) => makeResponse(ok(rec.index === 0 ? { id, object: 'template' } : { id })));
  setNet(net);
  const o = await settle(new lib[build].Resend('re_path').templates.create({ name: 'n', html: 'h' }).publish(), 'publish');
  resolved(o);
  check(net.requests.length === 2, `${net.requests.length} requests`);
  checkTarget(net.requests[1], { method: 'POST', path: ['templates', id, 'publish'] });
}
const b = fc.constantFrom('esm', 'cjs');
const anyText = wellFormed.filter((s) => s.length > 0 && s !== '.' && s !== '..');
// One identifier after others that some normalisation would take for the same.
const decoded = (s) => { try { return decodeURIComponent(s); } catch { return s; } };
const twins = [(s) => s.normalize('NFC'), (s) => s.normalize('NFD'), (s) => s.normalize('NFKC'), (s) => s.toLowerCase(), (s) => s.toUpperCase(), (s) => s.trim(), (s) => ` ${s}`, (s) => `${s} `, encodeURIComponent, decoded, (s) => s.replaceAll('@', '%40'), (s) => s.replaceAll(' ', '+'), (s) => `${s}/`, (s) => s.replace(/\+[^@]*/, ''), (s) => s.slice(0, -1), (s) => s];
const related = fc.tuple(fc.oneof(freeId, anyText, fc.tuple(fc.constantFrom('Zoe\u0308', 'Zo\u00eb', '\u212b', '\uac00', '\u1100\u1161', 'ﬁ', 'ß', 'İ', 'A\u030a'), fc.constantFrom('', '@x.co', '/x')).map((x) => x.join(''))), fc.array(fc.nat(twins.length - 1), { minLength: 1, maxLength: 4 }))
  .map(([s, how]) => how.reduce((all, k) => [...all, twins[k](all[0])], [s]).filter((x) => x.length > 0 && x !== '.' && x !== '..' && x.isWellFormed())).filter((ids) => ids.length > 0);

export default {
  id: 'C24',
  rule: 'every operation whose path contains free text, with random well-formed non-empty identifiers (reserved and percent characters, dots, slashes, controls, non-ASCII, e-mail addresses, long ones), also one after another that some normalisation would take for the same (composed and decomposed, case, space, encoded): the request path must have the reference number of segments, each decoding to the expected text, and no stray query; non-trivial: identifiers with a character outside A-Za-z0-9-_.',
  subs: [
    sessionSub('calls', allOps.filter((o) => o.free).map((o) => o.name), [3000, 80000], queried),
    { name: 'every-place', runs: [4000, 100000], arb: fc.record({ build: b, place: fc.constantFrom(...Object.keys(places)), ids: fc.oneof({ weight: 3, arbitrary: fc.array(fc.oneof(freeId, anyText), { minLength: 1, maxLength: 3 }) }, { weight: 2, arbitrary: related }) }), test: everyPlace, classify: (c) => [c.place], nontrivial: (c) => c.ids.some((s) => /[^A-Za-z0-9_-]/.test(s)) },
    { name: 'chain-publish', runs: [400, 10000], arb: fc.record({ build: b, id: freeId }), test: chainPublish, nontrivial: (c) => /[^A-Za-z0-9_-]/.test(c.id) },
  ],
};
