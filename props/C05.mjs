import { idemKey } from '../lib/gen.mjs';
import { find } from '../lib/ops.mjs';
import { forwardStep } from '../lib/forward.mjs';
import { anyOps } from '../lib/common.mjs';
import { check, fc, real, tick } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { anyAnswer, httpError, netFailure, play, session, slowly, stepOf } from '../lib/session.mjs';
import { expectation } from '../lib/call.mjs';

const RETRY = [408, 409, 421, 423, 425, 429, 500, 502, 503, 504, 520, 524];
const retryable = fc.tuple(fc.constantFrom(...RETRY), fc.constantFrom([], [['retry-after', '0']], [['Retry-After', '1']], [['retry-after', 'Wed, 21 Oct 2099 07:28:00 GMT']], [['x-should-retry', 'true']], [['retry-after-ms', '10']], [['ratelimit-reset', '1'], ['ratelimit-remaining', '0']]), fc.constantFrom('{"name":"rate_limit_exceeded","message":"Too many requests","statusCode":429}', '{"name":"concurrent_idempotent_requests","message":"in progress","statusCode":409}', '{"name":"internal_server_error","message":"x","statusCode":500}', '', 'upstream timed out'))
  .map(([status, headers, body]) => ({ status, headers, body }));
const answers = (name) => fc.oneof({ weight: 4, arbitrary: retryable }, { weight: 2, arbitrary: netFailure }, { weight: 2, arbitrary: anyAnswer(name) }, { weight: 1, arbitrary: httpError });

// The first answer is the failure; anything further would be answered with success.
async function settleDown() {
  for (let i = 0; i < 6; i++) await tick();
  await new Promise((r) => real.setTimeout(r, 4));
  for (let i = 0; i < 3; i++) await tick();
}
async function test(c, { lib }) {
  const outs = await play(lib, c);
  for (const o of outs) check(o.atSettle === undefined || o.atSettle === o.requests.length, () => `${o.step.call.op}: ${o.requests.length - o.atSettle} requests were issued after the call had settled`);
  await settleDown();
  for (const o of outs) {
    const want = o.step.requests ?? (expectation(o.step.call).local ? 0 : 1);
    check(o.requests.length === want, () => `${o.step.call.op}: ${o.requests.length} requests, expected ${want}: ${show(o.requests.map((r) => `${r.method} ${r.url}`))}`);
  }
}
const forwardAll = forwardStep(answers('emails.send')).map((s) => ({ ...s, requests: 3 }));
const rawFails = fc.tuple(forwardStep(answers('emails.send')), fc.oneof(retryable, netFailure)).map(([s, a]) => ({ ...s, plan: [s.plan[0], a], requests: 2 }));
const lookupFails = fc.tuple(forwardStep(answers('emails.send')), fc.oneof(retryable, netFailure)).map(([s, a]) => ({ ...s, plan: [a], requests: 1 }));
// Writes that could be repeated safely, had the caller asked for it: with an idempotency key, or by nature.
const conflict = fc.tuple(fc.constantFrom(409, 409, 429, 500, 503), fc.constantFrom('concurrent_idempotent_requests', 'invalid_idempotent_request', 'rate_limit_exceeded', 'daily_quota_exceeded', 'internal_server_error', 'application_error'), fc.constantFrom([], [['retry-after', '0']], [['retry-after', '1']]))
  .map(([status, name, headers]) => ({ status, headers, body: JSON.stringify({ name, message: 'try again', statusCode: status }) }));
const keyed = stepOf(anyOps.filter((o) => o.idem), () => fc.oneof(conflict, netFailure)).chain((s) => idemKey.map((k) => {
  const i = find(s.call.op).opts;
  const args = [...s.call.args];
  args[i] = { ...args[i], idempotencyKey: k };
  return { ...s, call: { ...s.call, args } };
}));
const sub = (name, step, runs) => ({ name, runs, arb: session(step), test, classify: (c) => c.steps.map((s) => `status:${s.plan.at(-1).throw ? 'throw' : s.plan.at(-1).break ? 'break' : s.plan.at(-1).status}`) });

export default {
  id: 'C05',
  rule: 'sessions whose calls (any operation, generic verbs, forward) end in any outcome, weighted to the retryable ones (408/409/425/429/5xx with Retry-After in several forms, aborts, resets, timeouts); timers run at once so that a back-off would show, and some answers arrive only after them, so that a second, hedging request would; requests are counted at settlement and again after a quiet period; non-trivial: always.',
  subs: [sub('single-request', stepOf(anyOps, answers), [1500, 40000]), sub('with-idempotency-key', keyed, [600, 12000]), sub('slow-answers', slowly(fc.oneof({ weight: 4, arbitrary: stepOf(anyOps, answers) }, { weight: 1, arbitrary: forwardAll })), [150, 3000]), sub('forward', fc.oneof(forwardAll, rawFails, lookupFails), [250, 6000])],
};
