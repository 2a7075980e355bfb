import { forwardStep } from '../lib/forward.mjs';
import { anyOps } from '../lib/common.mjs';
import { check, fc } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { badJson, broken, checkResult, netFailure, sessionSub, stepOf } from '../lib/session.mjs';
import { expectation } from '../lib/call.mjs';
import { FORWARD } from '../lib/forward.mjs';

function verify(o, s) {
  if (s.call.op !== FORWARD && expectation(s.call).local) return;
  const d = s.plan.at(-1);
  checkResult(o, s.call, d);
  check(typeof o.value.error.message === 'string', () => `error without message ${show(o.value.error)}`);
}
const answer = fc.oneof(netFailure, broken, badJson, fc.constantFrom(204, 205).map((status) => ({ status, headers: [], body: '' })));
const lookupFails = fc.tuple(forwardStep(answer), answer).map(([s, a]) => ({ ...s, plan: [a] }));

export default {
  id: 'C03',
  rule: 'sessions in which the calls under test (any operation, generic verbs, receiving.forward) meet a transport failure: fetch rejecting with any kind of value, a 2xx or non-2xx body stream erroring before or after some bytes, or a 2xx body that is not JSON (empty, truncated, HTML, trailing text, 204/205); non-trivial: always.',
  subs: [
    sessionSub('transport-failure', stepOf(anyOps, () => answer), [5000, 120000], verify),
    sessionSub('forward-send-fails', forwardStep(answer), [300, 8000], verify),
    sessionSub('forward-lookup-fails', lookupFails, [300, 8000], verify),
  ],
};
