import { allOps } from '../lib/common.mjs';
import { sessionSub } from '../lib/session.mjs';
import { queried } from '../lib/verify.mjs';

const OPS = allOps.filter((o) => o.filters).map((o) => o.name);
export default {
  id: 'C26',
  rule: 'sessions of the filtering operations with random options (reserved characters, plus signs, time zones, e-mail addresses, lists with repeats, up to 120 elements) and pagination, compared with the reference query as decoded name/value pairs; non-trivial: at least one option given.',
  subs: [sessionSub('filters', OPS, [5000, 120000], queried, { nontrivial: (s) => s.call.args.some((a) => a && typeof a === 'object' && Object.values(a).some((v) => v !== undefined)) })],
};
