import { check, fc } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { FORWARD, forwardArgs, forwardStep, lookup, lookupAnswer } from '../lib/forward.mjs';
import { anyAnswer, badJson, broken, checkResult, httpError, netFailure, sessionSub, success, textError } from '../lib/session.mjs';

const send = success('emails.send');
const lookupFails = fc.oneof({ weight: 3, arbitrary: httpError }, { weight: 1, arbitrary: textError }, { weight: 1, arbitrary: netFailure }, { weight: 1, arbitrary: broken }, { weight: 1, arbitrary: badJson });
const noRaw = fc.constantFrom(null, undefined, {}, { download_url: '' }, { download_url: null }, { expires_at: '2030-01-01' });
const step = fc.record({ args: forwardArgs, body: lookup, send, kind: fc.constantFrom('lookup', 'no-raw', 'download', 'download'), bad: lookupFails, raw: noRaw, download: fc.oneof({ weight: 3, arbitrary: httpError }, { weight: 2, arbitrary: textError }, { weight: 2, arbitrary: netFailure }, { weight: 2, arbitrary: broken }), delay: fc.integer({ min: 0, max: 3 }) })
  .map(({ args, body, send: ok, kind, bad, raw, download, delay }) => {
    const call = { op: FORWARD, args };
    if (kind === 'lookup') return { kind, call, plan: [bad, ok, ok], delay };
    if (kind === 'no-raw') { const { raw: _, ...rest } = body; return { kind, call, plan: [lookupAnswer(raw === undefined ? rest : { ...rest, raw }), ok, ok], delay }; }
    return { kind, call, plan: [lookupAnswer(body), download, ok], delay };
  });

function verify(o, s) {
  check(o.status === 'resolved', () => `forward rejected with ${show(o.error)} (${s.kind} failure)`);
  const posts = o.requests.filter((r) => r.method !== 'GET');
  check(posts.length === 0, () => `${posts.length} email(s) sent although the original could not be read (${s.kind})`);
  const v = o.value;
  check(v && v.data === null && v.error !== null && typeof v.error === 'object', () => `result ${show(v)} (${s.kind} failure)`);
  if (s.kind !== 'lookup') check(v.headers === null, () => `headers ${show(v.headers)} with an error that is no answer of the API (${s.kind} failure)`);
  if (s.kind === 'lookup') { check(o.requests.length === 1, () => `${o.requests.length} requests after a failed lookup`); checkResult(o, { op: 'emails.receiving.get' }, s.plan[0]); }
  if (s.kind === 'no-raw') {
    check(o.requests.length === 1, () => `${o.requests.length} requests without raw content`);
    check(v.error.name === 'validation_error' && v.error.statusCode === 400 && typeof v.error.message === 'string' && v.error.message !== '', () => `error ${show(v.error)}, expected validation_error with status 400`);
  }
  if (s.kind === 'download') {
    check(o.requests.length === 2, () => `${o.requests.length} requests after a failed download`);
    const d = s.plan[1];
    const want = !d.throw && (d.status < 200 || d.status > 299) ? d.status : null;
    check(v.error.name === 'application_error' && v.error.statusCode === want && typeof v.error.message === 'string' && v.error.message !== '', () => `error ${show(v.error)}, expected application_error with status ${want}`);
  }
}
// A forward that could read the original gives the result of its send request.
function result(o, s) {
  check(o.requests.length === 3, () => `forward made ${o.requests.length} requests`);
  checkResult(o, s.call, s.plan[2]);
}

export default {
  id: 'C36',
  rule: 'sessions of forwards (both modes) whose lookup fails (any error response or transport failure), finds no raw content (absent, null, empty), or whose download fails (any HTTP error, connection error, body breaking after some bytes), and of forwards that succeed up to a send answered in any way; non-trivial: always.',
  subs: [sessionSub('cannot-read', step, [3000, 60000], verify), sessionSub('send-result', forwardStep(anyAnswer('emails.send')), [800, 15000], result)],
};
