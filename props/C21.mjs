import { sessionSub } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

const OPS = ['contacts.create', 'contacts.create', 'contacts.update', 'contacts.topics.update'];
export default {
  id: 'C21',
  rule: 'sessions of contacts.create (free, in an audience, and the refused combinations), contacts.update and topic updates with random data compared with the reference request or local refusal; non-trivial: a non-empty payload.',
  subs: [sessionSub('payload', OPS, [5000, 120000], exact, { nontrivial: (s) => s.call.args.some((a) => a !== null && typeof a === 'object' && Object.keys(a).length > 0) })],
};
