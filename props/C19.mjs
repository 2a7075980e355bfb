import { sessionSub } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

const OPS = ['templates.create', 'templates.update'];
export default {
  id: 'C19',
  rule: 'sessions of templates.create/update with random payloads (nulls, empty strings, variables of both types with any fallback value, up to 256 of them, React content) compared with the reference request; non-trivial: a non-empty payload.',
  subs: [sessionSub('payload', OPS, [4000, 100000], exact, { nontrivial: (s) => s.call.args.some((a) => a !== null && typeof a === 'object' && Object.keys(a).length > 0) })],
};
