import { sessionSub } from '../lib/session.mjs';
import { exact } from '../lib/verify.mjs';

const OPS = ['automations.create', 'automations.update'];
export default {
  id: 'C27',
  rule: 'sessions of automations.create/update with random graphs (all step types, condition rules nested up to 40 levels deep, template variables, contact properties, any connections, up to 256 steps) compared with the reference request; non-trivial: a non-empty payload.',
  subs: [sessionSub('graph', OPS, [4000, 100000], exact, { nontrivial: (s) => s.call.args.some((a) => a !== null && typeof a === 'object' && Object.keys(a).length > 0) })],
};
