import { sessionSub } from '../lib/session.mjs';
import { queried } from '../lib/verify.mjs';

const OPS = ['contacts.get', 'contacts.update', 'contacts.remove', 'contacts.list', 'contacts.topics.update', 'contacts.topics.list', 'contacts.segments.list', 'contacts.segments.add', 'contacts.segments.remove'];
export default {
  id: 'C22',
  rule: 'sessions of the contact operations with every way of naming the contact (string, id, email, both) and the scope (none, audience, segment, both), compared with the reference path; non-trivial: always.',
  subs: [sessionSub('addressing', OPS, [5000, 120000], queried)],
};
