import { checkBody, checkLocal, checkQuery, checkTarget, expectation, oneRequest } from '../lib/call.mjs';
import { allOps } from '../lib/common.mjs';
import { sessionSub } from '../lib/session.mjs';
import { resolved } from '../lib/verify.mjs';

async function verify(o, s) {
  const exp = expectation(s.call);
  if (exp.local) return checkLocal(o, exp.local);
  const rec = oneRequest(o);
  checkTarget(rec, exp);
  if (exp.body === undefined) await checkBody(rec, exp);
  if (!exp.query) checkQuery(rec, exp);
  resolved(o);
}

export default {
  id: 'C01',
  rule: 'sessions of 1 to 5 calls (one after the other or in flight together) on one client, each call a random operation of the table of all resource operations with a random valid argument list; non-trivial: some call has an argument. Distinct by serialised case.',
  subs: [sessionSub('request', allOps, [5000, 150000], verify, { nontrivial: (s) => s.call.args.length > 0 })],
};
