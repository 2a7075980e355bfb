import { at } from '../lib/clock.mjs';
import { check, fc } from '../lib/env.mjs';
import { keyBytes, messageId, payload, secretOf, sign } from '../lib/signing.mjs';

const clock = fc.oneof(fc.integer({ min: 1_000, max: 4_000_000_000 }), fc.constantFrom(1_700_000_000, 2_147_483_647, 2_147_483_648, 4_294_967_296, 1_767_225_599, 1_000_000_000, 999_999_999)).chain((s) => fc.constantFrom(0, 0, 1, 499, 500, 999).map((ms) => s * 1000 + ms));
const age = fc.oneof({ weight: 4, arbitrary: fc.constantFrom(0, 1, 299, 300, 301, 302, -1, -299, -300, -301, -302) }, { weight: 2, arbitrary: fc.integer({ min: -310, max: 310 }) }, { weight: 2, arbitrary: fc.integer({ min: -100_000, max: 100_000 }) }, { weight: 1, arbitrary: fc.constantFrom(600, -600, 3600, -3600, 86_400, -86_400, 31_536_000) });
const notNumbers = fc.constantFrom('abc', 'NaN', '-', '+', '.', ' ', 'null', 'undefined', '{}', 'now', 'x1700000000', 'Infinity', '-Infinity', 'e5');
const round = fc.record({ at: clock, ages: fc.array(age, { minLength: 1, maxLength: 4 }) });

function verify(client, ms, m) {
  try { at(ms, () => client.webhooks.verify(m)); return true; } catch { return false; }
}
// undefined: within the second in which rounding decides.
function fresh(ms, timestamp) {
  if (Math.abs(ms - timestamp * 1000) <= 300_000) return true;
  if (Math.abs(Math.floor(ms / 1000) - timestamp) > 300) return false;
  return undefined;
}
async function test({ build, key, prefixed, id, payload: p, round: r, later }, { lib }) {
  const client = new lib[build].Resend('re_hooks');
  const message = (timestamp) => ({ payload: p, headers: { id, timestamp: String(timestamp), signature: `v1,${sign(key, id, timestamp, p)}` }, webhookSecret: secretOf(key, prefixed) });
  for (const a of r.ages) {
    const timestamp = Math.floor(r.at / 1000) - a;
    if (timestamp < 0) continue;
    // The same delivery now, and again (a replay) at later clock times.
    for (const ms of [r.at, ...later.map((x) => r.at + x * 1000), r.at]) {
      const want = fresh(ms, timestamp);
      if (want === undefined) continue;
      const got = verify(client, ms, message(timestamp));
      check(got === want, () => `timestamp ${timestamp} at clock ${ms / 1000} (age ${ms / 1000 - timestamp} s) ${got ? 'accepted' : 'refused'}`);
    }
  }
}
// A timestamp counts seconds: the current time in another unit is far away.
async function otherUnit({ build, key, id, payload: p, at: ms, factor, off }, { lib }) {
  const client = new lib[build].Resend('re_hooks');
  const timestamp = Math.round((ms / 1000 + off) * factor);
  if (fresh(ms, timestamp) !== false) return;
  for (const signedAs of [timestamp, Math.floor(timestamp / factor), Math.round(timestamp / factor)]) {
    const m = { payload: p, headers: { id, timestamp: String(timestamp), signature: `v1,${sign(key, id, signedAs, p)}` }, webhookSecret: secretOf(key, true) };
    check(!verify(client, ms, m), `timestamp ${timestamp} (signed as ${signedAs}) accepted at clock ${ms / 1000}`);
  }
}
async function notNumeric({ build, key, id, payload: p, text, at: ms }, { lib }) {
  const client = new lib[build].Resend('re_hooks');
  for (const signedAs of [text, 'NaN', String(Math.floor(ms / 1000))]) {
    const m = { payload: p, headers: { id, timestamp: text, signature: `v1,${sign(key, id, signedAs, p)}` }, webhookSecret: secretOf(key, true) };
    check(!verify(client, ms, m), `timestamp ${JSON.stringify(text)} (signed as ${signedAs}) accepted`);
  }
}
const b = fc.constantFrom('esm', 'cjs');

export default {
  id: 'C33',
  rule: 'correctly signed webhooks at random clock times (a substituted Date, with fractions of a second and the 2038 limit) with ages dense around 0 and 300 s in both directions, verified again after random clock advances and jumps back; the current time in other units (milliseconds, minutes, ...); and non-numeric timestamps signed in three ways; timestamps within the one second decided by rounding are not judged; non-trivial: always.',
  subs: [
    { name: 'ages', runs: [4000, 80000], arb: fc.record({ build: b, key: keyBytes, prefixed: fc.boolean(), id: messageId, payload, round, later: fc.array(fc.oneof(fc.integer({ min: -700, max: 700 }), fc.constantFrom(1, 299, 300, 301, 600, 601, 86_400)), { maxLength: 3 }) }), test },
    { name: 'other-unit', runs: [600, 10000], arb: fc.record({ build: b, key: keyBytes, id: messageId, payload, at: clock, factor: fc.constantFrom(1000, 1000, 1e6, 1e9, 1 / 60, 0.001, 10), off: fc.integer({ min: -400, max: 400 }) }), test: otherUnit },
    { name: 'not-a-number', runs: [600, 10000], arb: fc.record({ build: b, key: keyBytes, id: messageId, payload, text: notNumbers, at: clock }), test: notNumeric },
  ],
};
