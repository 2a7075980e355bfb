import { forwardStep } from '../lib/forward.mjs';
import { anyOps } from '../lib/common.mjs';
import { checkResult, sessionSub, slowly, stepOf, success } from '../lib/session.mjs';
import { expectation } from '../lib/call.mjs';
import { FORWARD } from '../lib/forward.mjs';

function verify(o, s) {
  if (s.call.op !== FORWARD && expectation(s.call).local) return;
  checkResult(o, s.call, s.plan.at(-1));
}

export default {
  id: 'C04',
  rule: 'sessions whose calls (any operation, generic verbs, receiving.forward) are answered by a random 2xx status with a random JSON object body (nested, nulls, odd keys, lists of any length incl. >1000, schema-shaped contact properties) and random headers, some of them only after every timer the library may have started has run; non-trivial: body with at least one key.',
  subs: [
    sessionSub('success', stepOf(anyOps, success), [5000, 120000], verify, { nontrivial: (s) => Object.keys(s.plan[0].json).length > 0 }),
    sessionSub('slow-answers', slowly(stepOf(anyOps, success)), [150, 3000], verify),
    sessionSub('slow-forward', slowly(forwardStep(success('emails.send'))), [50, 1000], verify),
    sessionSub('forward', forwardStep(success('emails.send')), [400, 8000], verify),
  ],
};
