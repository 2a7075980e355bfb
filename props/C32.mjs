import { check, fail, fc } from '../lib/env.mjs';
import { diff, show } from '../lib/equal.mjs';
import { at } from '../lib/clock.mjs';
import { keyBytes, messageId, payload, secretOf, sign } from '../lib/signing.mjs';

const NOW = 1_767_225_600;
const other = fc.oneof(fc.uint8Array({ minLength: 32, maxLength: 32 }).map((u) => Buffer.from(u).toString('base64')), fc.constantFrom('', 'x', 'AAAA'));
// A delivery, as signed by the sender.
const delivery = fc.record({ key: keyBytes, prefixed: fc.boolean(), id: messageId, age: fc.integer({ min: -280, max: 280 }), payload, junk: fc.oneof({ weight: 12, arbitrary: fc.array(fc.tuple(fc.constantFrom('v1', 'v2', 'v1a', 'v0', 'V1', ''), other), { maxLength: 3 }) }, { weight: 1, arbitrary: fc.array(fc.tuple(fc.constantFrom('v1', 'v2', 'v1a', 'v0', 'V1', ''), other), { minLength: 4, maxLength: 40 }) }), place: fc.nat(40) });
const build = (d) => {
  const timestamp = String(NOW - d.age);
  const signature = sign(d.key, d.id, timestamp, d.payload);
  const all = d.junk.map(([v, s]) => `${v},${s}`);
  all.splice(d.place % (all.length + 1), 0, `v1,${signature}`);
  return { payload: d.payload, headers: { id: d.id, timestamp, signature: all.join(' ') }, webhookSecret: secretOf(d.key, d.prefixed), sig: signature };
};

const flip = (s, i) => { if (s.length === 0) return 'x'; const k = i % s.length; const c = s[k] === 'A' ? 'B' : 'A'; return s.slice(0, k) + c + s.slice(k + 1); };
const ONLY = (m, s) => ({ ...m, headers: { ...m.headers, signature: s } });
// One change each; returns undefined where it does not apply.
const mutations = {
  'payload char': (m, n) => ({ ...m, payload: flip(m.payload, n).toWellFormed() }),
  'payload appended': (m) => ({ ...m, payload: `${m.payload} ` }),
  'payload prepended': (m) => ({ ...m, payload: `\n${m.payload}` }),
  'payload truncated': (m) => ({ ...m, payload: m.payload.slice(0, -1).toWellFormed() }),
  'payload reserialised': (m) => ({ ...m, payload: JSON.stringify(JSON.parse(m.payload), null, 3) }),
  'payload case': (m) => ({ ...m, payload: m.payload.toUpperCase() }),
  'payload normalised': (m) => ({ ...m, payload: m.payload.normalize('NFD') }),
  'payload trimmed': (m) => ({ ...m, payload: m.payload.trim() }),
  'payload with BOM': (m) => ({ ...m, payload: `\ufeff${m.payload}` }),
  'payload with NUL': (m) => ({ ...m, payload: `${m.payload}\0` }),
  'payload CRLF': (m) => ({ ...m, payload: m.payload.replaceAll('\n', '\r\n') }),
  'payload line ending': (m) => ({ ...m, payload: `${m.payload}\r\n` }),
  'payload unescaped': (m) => ({ ...m, payload: m.payload.replace(/\\u([0-9a-f]{4})/gi, (_, h) => String.fromCharCode(Number.parseInt(h, 16))).toWellFormed() }),
  'id with spaces': (m) => ({ ...m, headers: { ...m.headers, id: ` ${m.headers.id} ` } }),
  'id listed': (m, n) => ({ ...m, headers: { ...m.headers, id: [`${m.headers.id},x`, `x,${m.headers.id}`, `${m.headers.id} x`, `"${m.headers.id}"`, `${m.headers.id}\0`, `${m.headers.id}, ${m.headers.id}`][n % 6] } }),
  'payload empty': (m) => ({ ...m, payload: '' }),
  'id char': (m, n) => ({ ...m, headers: { ...m.headers, id: flip(m.headers.id, n).toWellFormed() } }),
  'id longer': (m) => ({ ...m, headers: { ...m.headers, id: `${m.headers.id}.` } }),
  'id case': (m) => ({ ...m, headers: { ...m.headers, id: m.headers.id.toUpperCase() } }),
  'id trimmed': (m) => ({ ...m, headers: { ...m.headers, id: m.headers.id.trim() } }),
  'timestamp +1': (m) => ({ ...m, headers: { ...m.headers, timestamp: String(Number(m.headers.timestamp) + 1) } }),
  'timestamp -1': (m) => ({ ...m, headers: { ...m.headers, timestamp: String(Number(m.headers.timestamp) - 1) } }),
  'timestamp now': (m) => ({ ...m, headers: { ...m.headers, timestamp: String(NOW) } }),
  'timestamp milliseconds': (m) => ({ ...m, headers: { ...m.headers, timestamp: `${m.headers.timestamp}000` } }),
  'timestamp text': (m) => ({ ...m, headers: { ...m.headers, timestamp: 'now' } }),
  'secret char': (m, n) => { const p = m.webhookSecret.startsWith('whsec_') ? 6 : 0; const raw = Buffer.from(m.webhookSecret.slice(p), 'base64'); raw[n % raw.length] ^= 1 << n % 8; return { ...m, webhookSecret: m.webhookSecret.slice(0, p) + raw.toString('base64') }; },
  'secret longer': (m) => { const p = m.webhookSecret.startsWith('whsec_') ? 6 : 0; const raw = Buffer.concat([Buffer.from(m.webhookSecret.slice(p), 'base64'), Buffer.from([1])]); return { ...m, webhookSecret: m.webhookSecret.slice(0, p) + raw.toString('base64') }; },
  'secret with a foreign character': (m, n) => { const at = n % (m.webhookSecret.replace(/=+$/, '').length - 1); const c = [' ', '\n', '-', '.', '!', '"', ':', '\0', 'é'][n % 9]; return { ...m, webhookSecret: m.webhookSecret.slice(0, at) + c + m.webhookSecret.slice(at) }; },
  'secret with another prefix': (m, n) => ({ ...m, webhookSecret: ['WHSEC_', 'whpk_', 'whsk_', 'whsec_whsec_', 'whsec-', 'whsec_ '][n % 6] + m.webhookSecret.replace(/^whsec_/, '') }),
  'secret empty': (m) => ({ ...m, webhookSecret: '' }),
  'secret missing': (m) => ({ ...m, webhookSecret: undefined }),
  'id empty': (m) => ({ ...m, headers: { ...m.headers, id: '' } }),
  'id missing': (m) => ({ ...m, headers: { ...m.headers, id: undefined } }),
  'timestamp empty': (m) => ({ ...m, headers: { ...m.headers, timestamp: '' } }),
  'timestamp missing': (m) => ({ ...m, headers: { ...m.headers, timestamp: undefined } }),
  'signature empty': (m) => ONLY(m, ''),
  'signature missing': (m) => ONLY(m, undefined),
  'signature v2': (m) => ONLY(m, `v2,${m.sig}`),
  'signature v1a': (m) => ONLY(m, `v1a,${m.sig}`),
  'signature V1': (m) => ONLY(m, `V1,${m.sig}`),
  'signature v10': (m) => ONLY(m, `v10,${m.sig}`),
  'signature without version': (m) => ONLY(m, m.sig),
  'signature empty version': (m) => ONLY(m, `,${m.sig}`),
  'signature alone v1': (m) => ONLY(m, 'v1,'),
  'signature no value': (m) => ONLY(m, 'v1'),
  'signature char': (m, n) => { const s = flip(m.sig, n % 42); return ONLY(m, `v1,${s}`); },
  'signature truncated': (m, n) => ONLY(m, `v1,${m.sig.slice(0, n % 43)}`),
  'signature extended': (m) => ONLY(m, `v1,${m.sig}A`),
  'signature unpadded': (m) => ONLY(m, `v1,${m.sig.replace(/=+$/, '')}`),
  'signature url-safe': (m) => (/[+/]/.test(m.sig) ? ONLY(m, `v1,${m.sig.replaceAll('+', '-').replaceAll('/', '_')}`) : undefined),
  'signature separated otherwise': (m, n) => ONLY(m, [`v1,AAAA,v1,${m.sig}`, `\tv1,${m.sig}`, `\nv1,${m.sig}`, `v2,AAAA;v1,${m.sig}`, `v1=${m.sig}`, `v1:${m.sig}`, `v1;${m.sig}`, `v1,,${m.sig}`, `v1, ${m.sig}`, `t=1,v1=${m.sig}`, `v01,${m.sig}`, `sha256=${m.sig}`, `v1.${m.sig}`, `{v1,${m.sig}}`][n % 14]),
  'signature hex': (m) => ONLY(m, `v1,${Buffer.from(m.sig, 'base64').toString('hex')}`),
  'signature lower': (m) => ONLY(m, `v1,${m.sig.toLowerCase()}`),
  'signature upper': (m) => ONLY(m, `v1,${m.sig.toUpperCase()}`),
  'signature quoted': (m) => ONLY(m, `"v1,${m.sig}"`),
  'signature of another': (m) => ONLY(m, `v1,${sign(new Uint8Array(32), m.headers.id, m.headers.timestamp, m.payload)}`),
  'signature of payload only': (m) => ONLY(m, `v1,${sign(Buffer.from(m.webhookSecret.replace('whsec_', ''), 'base64'), '', '', m.payload)}`),
  'key not decoded': (m) => ONLY(m, `v1,${sign(Buffer.from(m.webhookSecret), m.headers.id, m.headers.timestamp, m.payload)}`),
};
const signedOf = (m) => `${m.headers.id}.${m.headers.timestamp}.${m.payload}|${m.webhookSecret}|${m.headers.signature}`;

const accepts = (client, m) => { const { sig, ...args } = m; try { return { value: at(NOW * 1000, () => client.webhooks.verify(args)) }; } catch (error) { return { error }; } };
function expectAccept(client, m, what) {
  const r = accepts(client, m);
  check(!r.error, () => `${what}: a genuinely signed payload was refused: ${r.error}`);
  const d = diff(r.value, JSON.parse(m.payload));
  check(!d, () => `${what}: the returned value is not the payload: ${d}`);
}
function expectReject(client, m, what) {
  const r = accepts(client, m);
  if (!r.error) fail(`${what}: accepted, returning ${show(r.value)}`);
  check(r.error instanceof Error, () => `${what}: threw ${show(r.error)}`);
}

// Genuine and forged deliveries in any order on the same client.
async function history({ build: b, deliveries, steps }, { lib }) {
  const client = new lib[b].Resend('re_hooks');
  const made = deliveries.map(build);
  for (const [i, { which, forge, n, mix }] of steps.entries()) {
    const m = made[which % made.length];
    if (forge === null) { expectAccept(client, m, `step ${i}`); continue; }
    if (forge === 'mix') {
      // Parts of one delivery with parts of another.
      const o = made[mix % made.length];
      const forged = { payload: n & 1 ? m.payload : o.payload, headers: { id: n & 2 ? m.headers.id : o.headers.id, timestamp: n & 4 ? m.headers.timestamp : o.headers.timestamp, signature: n & 8 ? m.headers.signature : o.headers.signature }, webhookSecret: n & 16 ? m.webhookSecret : o.webhookSecret };
      const key = (x) => Buffer.from(x.webhookSecret.replace('whsec_', ''), 'base64');
      const good = sign(key(forged), forged.headers.id, forged.headers.timestamp, forged.payload);
      if (forged.headers.signature.split(' ').includes(`v1,${good}`)) expectAccept(client, forged, `step ${i} (mix)`);
      else expectReject(client, forged, `step ${i} (mix)`);
      continue;
    }
    const forged = mutations[forge](m, n);
    if (!forged || signedOf(forged) === signedOf(m)) continue;
    expectReject(client, forged, `step ${i} (${forge})`);
  }
}
const step = fc.record({ which: fc.nat(5), forge: fc.oneof({ weight: 3, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: fc.constant('mix') }, { weight: 6, arbitrary: fc.constantFrom(...Object.keys(mutations)) }), n: fc.nat(1000), mix: fc.nat(5) });
const arb = (maxSteps) => fc.record({ build: fc.constantFrom('esm', 'cjs'), deliveries: fc.array(delivery, { minLength: 1, maxLength: 3 }), steps: fc.array(step, { minLength: 1, maxLength: maxSteps }) });

export default {
  id: 'C32',
  rule: 'histories of webhook verifications on one client: 1 to 3 deliveries signed by an independent HMAC implementation (random secrets, ids, JSON payloads in several layouts, other signatures around the right one), verified as they are, with one of 58 single changes, or with parts exchanged between deliveries; non-trivial: the history contains a forged delivery.',
  subs: [
    { name: 'single', runs: [5000, 100000], arb: arb(1), test: history, classify: (c) => [String(c.steps[0].forge)], nontrivial: (c) => c.steps.some((s) => s.forge) },
    { name: 'history', runs: [1500, 30000], arb: arb(12), test: history, nontrivial: (c) => c.steps.some((s) => s.forge) },
  ],
};
