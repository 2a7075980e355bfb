import { sessionSub } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

const OPS = ['broadcasts.create', 'broadcasts.update', 'broadcasts.send'];
export default {
  id: 'C18',
  rule: 'sessions of broadcasts.create/update/send with random payloads (scope by segment or audience, send and schedule combinations, content or React, every optional field absent, undefined or set) compared with the reference request; non-trivial: a non-empty payload.',
  subs: [sessionSub('payload', OPS, [4000, 100000], exact, { nontrivial: (s) => s.call.args.some((a) => a !== null && typeof a === 'object' && Object.keys(a).length > 0) })],
};
