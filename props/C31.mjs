import { sessionSub } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

const OPS = ['events.send', 'events.create', 'events.update', 'topics.create', 'topics.update', 'webhooks.create', 'webhooks.update', 'apiKeys.create', 'apiKeys.update', 'segments.create', 'audiences.create', 'suppressions.add', 'suppressions.batch.add', 'suppressions.batch.remove', 'emails.update', 'emails.share'];
export default {
  id: 'C31',
  rule: 'sessions of the listed create/update operations with random payloads (nested JSON event payloads, odd keys, long lists) compared with the reference request; non-trivial: a non-empty payload.',
  subs: [sessionSub('payload', OPS, [6000, 150000], exact, { nontrivial: (s) => s.call.args.some((a) => a !== null && typeof a === 'object' && Object.keys(a).length > 0) })],
};
