import { checkLocal, expectation } from '../lib/call.mjs';
import { check, fc } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { missing, names } from '../lib/refusals.mjs';
import { sessionSub, stepOf, success } from '../lib/session.mjs';

const present = stepOf(names, success);

function verify(o, s) {
  if (s.missing) return checkLocal(o, 'missing_required_field');
  if (expectation(s.call).local) return undefined;
  check(o.requests.length === 1, () => `${s.call.op}(${show(s.call.args)}) sent ${o.requests.length} requests although an identifier is given; result ${show(o.value ?? o.error)}`);
  return undefined;
}

export default {
  id: 'C23',
  rule: 'sessions of the operations that require an identifier, with it left out, undefined, null or empty while all other fields are random (must be refused locally, no request), mixed with calls naming one (must send one request); non-trivial: some call without identifier.',
  subs: [sessionSub('identifiers', fc.oneof({ weight: 2, arbitrary: missing }, { weight: 1, arbitrary: present }), [5000, 120000], verify, { nontrivial: (s) => s.missing, noise: names })],
};
