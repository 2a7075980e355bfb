// Reusable verdicts over one outcome of a session.
import { BASE, bodyDiff, checkBody, checkLocal, checkQuery, checkTarget, expectation, jsonBody, oneRequest } from './call.mjs';
import { check, fail } from './env.mjs';
import { show } from './equal.mjs';
import { expectedSend, FORWARD, normalSend } from './forward.mjs';
import { checkHeaders, givenHeaders, optionsOf, wantedHeaders } from './head.mjs';
import { find } from './ops.mjs';
import { checkResult } from './session.mjs';

export function resolved(o) {
  check(o.status === 'resolved', () => `call rejected: ${show(o.error)}`);
}
// Method, path and body exactly as the reference model says.
export async function faithful(o, s) {
  const exp = expectation(s.call);
  if (exp.local) return checkLocal(o, exp.local);
  resolved(o);
  const rec = oneRequest(o);
  checkTarget(rec, exp);
  await checkBody(rec, exp);
  if (exp.validation !== undefined) {
    const got = rec.headers.get('x-batch-validation');
    check(got === exp.validation, () => `x-batch-validation is ${show(got)}, expected ${exp.validation}`);
  }
}
// Method, path and query.
export function queried(o, s) {
  const exp = expectation(s.call);
  resolved(o);
  const rec = oneRequest(o);
  checkTarget(rec, exp);
  checkQuery(rec, exp);
}
// Everything.
export async function exact(o, s) {
  await faithful(o, s);
  const exp = expectation(s.call);
  if (!exp.local) checkQuery(o.requests[0], exp);
}
export { jsonBody, fail };

// Everything about the request (headers included) and the result: what C10 and C11 compare.
export async function complete(o, s, { key, userAgent, base }) {
  const { call } = s;
  if (call.op === FORWARD) return completeForward(o, s, { key, userAgent, base });
  const exp = expectation(call);
  if (exp.local) return checkLocal(o, exp.local);
  const rec = oneRequest(o);
  checkTarget(rec, exp, base);
  checkQuery(rec, exp, base);
  await checkBody(rec, exp);
  const form = Boolean(find(call.op).form);
  const options = optionsOf(call);
  checkHeaders(rec, wantedHeaders({ key, userAgent, options, validation: exp.validation, json: !form && rec.hasBody }), { form, given: givenHeaders(options) });
  checkResult(o, call, s.plan[0]);
}
async function completeForward(o, s, { key, userAgent, base = BASE }) {
  const [args, options] = s.call.args;
  check(o.requests.length === 3, () => `forward made ${o.requests.length} requests: ${show(o.requests.map((r) => r.url))}`);
  const [a, b, c] = o.requests;
  check(a.url === new URL(`${base}/emails/receiving/${args.emailId}`).href && a.method === 'GET', () => `lookup request ${a.method} ${a.url}`);
  check(b.url === new URL(s.lookupBody.raw.download_url).href && b.method === 'GET', () => `download request ${b.method} ${b.url}`);
  check(c.url === new URL(`${base}/emails`).href && c.method === 'POST', () => `send request ${c.method} ${c.url}`);
  checkHeaders(a, wantedHeaders({ key, userAgent }));
  checkHeaders(c, wantedHeaders({ key, userAgent, options, json: true }));
  const want = await expectedSend(s.call.args, s.lookupBody, s.raw);
  const d = bodyDiff(normalSend(jsonBody(c)), want);
  check(!d, () => `forwarded email: ${d}`);
  checkResult(o, s.call, s.plan[2]);
}
