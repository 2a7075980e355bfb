import { bodyDiff, jsonBody, oneRequest } from '../lib/call.mjs';
import { check, fc } from '../lib/env.mjs';
import { bool, jsonObject, list, str } from '../lib/gen.mjs';
import { optionsOf } from '../lib/head.mjs';
import { batchPayload } from '../lib/ops.mjs';
import { checkResult, play, sessionSub, stepOf } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

const OPS = ['batch.send', 'batch.create'];
const reply = fc.oneof(
  fc.record({ data: list(fc.record({ id: str })) }),
  fc.record({ data: list(fc.record({ id: str })), errors: list(fc.record({ index: fc.nat(), message: str })) }),
  fc.record({ data: list(jsonObject), errors: fc.constant([]), extra: bool }),
).map((json) => ({ status: 200, headers: [['content-type', 'application/json']], body: JSON.stringify(json), json }));

async function verify(o, s) {
  await exact(o, s);
  checkResult(o, s.call, s.plan[0]);
}
// Each element of the batch body is the body of a single send of that email.
async function likeSingles({ build, op, emails }, { lib }) {
  const steps = [{ call: { op, args: [emails] }, plan: [], delay: 0 }, ...emails.map((e) => ({ call: { op: 'emails.send', args: [e] }, plan: [], delay: 0 }))];
  const [batch, ...singles] = await play(lib, { build, mode: 'seq', steps });
  const got = jsonBody(oneRequest(batch));
  check(Array.isArray(got) && got.length === emails.length, () => `batch of ${emails.length} emails sent ${Array.isArray(got) ? got.length : typeof got}`);
  for (const [i, s] of singles.entries()) {
    const d = bodyDiff(got[i], jsonBody(oneRequest(s)), `email ${i}`);
    check(!d, () => `differs from a single send: ${d}`);
  }
}

export default {
  id: 'C15',
  rule: 'sessions of batch.send/create with 0 to 130 emails of any mix (html, text, React, template, repeated ones) and any options, compared with the reference model and, email by email, with single sends of the same payloads; per-index responses (with permissive errors) must come back unchanged; non-trivial: at least two emails.',
  subs: [
    sessionSub('batch', stepOf(OPS, () => reply), [1500, 30000], verify, { nontrivial: (s) => s.call.args[0].length > 1, classify: (c) => [String(optionsOf(c.steps[0].call)?.batchValidation)] }),
    { name: 'like-single-sends', runs: [500, 10000], arb: fc.record({ build: fc.constantFrom('esm', 'cjs'), op: fc.constantFrom(...OPS), emails: batchPayload() }), test: likeSingles, nontrivial: (c) => c.emails.length > 1 },
  ],
};
