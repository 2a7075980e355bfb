import { fc } from '../lib/env.mjs';
import { emailPayload } from '../lib/ops.mjs';
import { sessionSub, stepOf, success } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

// Mostly without React (C16 looks at rendering), so that many more payloads are looked at.
const noReact = fc.tuple(fc.constantFrom('emails.send', 'emails.create'), emailPayload(false), success('emails.send'), fc.integer({ min: 0, max: 3 }))
  .map(([op, p, a, delay]) => ({ call: { op, args: [p] }, plan: [a], delay }));

export default {
  id: 'C14',
  rule: 'sessions of emails.send/create with random payloads (content, React and template emails; every optional field absent, undefined or set; any strings incl. lone surrogates and long ones; attachments as text, Buffers or base64; list lengths up to 256 with duplicates); non-trivial: payload with at least four fields.',
  subs: [
    sessionSub('payload', noReact, [5000, 120000], exact, { nontrivial: (s) => Object.keys(s.call.args[0]).length > 3 }),
    sessionSub('any', stepOf(['emails.send', 'emails.create'], success), [1200, 30000], exact),
  ],
};
