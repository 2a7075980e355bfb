import { headersOf } from '../lib/net.mjs';
import { FORWARD, forwardStep } from '../lib/forward.mjs';
import { anyOps } from '../lib/common.mjs';
import { check, fc } from '../lib/env.mjs';
import { diff, show } from '../lib/equal.mjs';
import { checkResult, httpError, sessionSub, slowly, stepOf, textError } from '../lib/session.mjs';
import { expectation } from '../lib/call.mjs';

function verify(o, s) {
  if (s.call.op !== FORWARD && expectation(s.call).local) return;
  const d = s.plan.at(-1);
  checkResult(o, s.call, d);
  const df = diff(o.value.headers, headersOf(d));
  check(!df, () => `headers of the error response: ${df}`);
  if (d.json === undefined) check(typeof o.value.error.message === 'string' && o.value.error.message !== '', () => `error without message ${show(o.value.error)}`);
}
const answer = fc.oneof({ weight: 3, arbitrary: httpError }, { weight: 2, arbitrary: textError });
const lookupFails = fc.tuple(forwardStep(answer), answer).map(([s, a]) => ({ ...s, plan: [a] }));

export default {
  id: 'C02',
  rule: 'sessions in which the calls under test (any operation, the generic verbs, receiving.forward) are answered by a random non-2xx status with a JSON object body, or a text, HTML, empty or JSON scalar body, and random response headers; non-trivial: always (every case has at least one failing response).',
  subs: [
    sessionSub('error-response', stepOf(anyOps, () => answer), [5000, 120000], verify),
    sessionSub('slow-error-response', slowly(stepOf(anyOps, () => answer)), [120, 2500], verify),
    sessionSub('forward-send-fails', forwardStep(answer), [300, 8000], verify),
    sessionSub('forward-lookup-fails', lookupFails, [300, 8000], verify),
  ],
};
