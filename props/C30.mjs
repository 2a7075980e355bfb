import { sessionSub } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

const OPS = ['domains.create', 'domains.update', 'domains.claims.create'];
export default {
  id: 'C30',
  rule: 'sessions of domains.create/update and domain claims with every combination of settings (absent, undefined, false, set) compared with the reference request; non-trivial: a non-empty payload.',
  subs: [sessionSub('settings', OPS, [4000, 100000], exact, { nontrivial: (s) => s.call.args.some((a) => a !== null && typeof a === 'object' && Object.keys(a).length > 0) })],
};
