import { loadFresh, loadLib } from '../lib/build.mjs';
import { anyOps, build } from '../lib/common.mjs';
import { expectation } from '../lib/call.mjs';
import { check, fc } from '../lib/env.mjs';
import { diff, show } from '../lib/equal.mjs';
import { FORWARD, forwardStep, forwardArgs, lookup, lookupAnswer } from '../lib/forward.mjs';
import { captured, reachable } from '../lib/printed.mjs';
import { missing } from '../lib/refusals.mjs';
import { someSurroundings, surround, surroundings } from '../lib/surroundings.mjs';
import { badJson, broken, httpError, netFailure, play, stepOf, success, textError } from '../lib/session.mjs';

const errors = fc.oneof({ weight: 4, arbitrary: httpError }, { weight: 2, arbitrary: textError }, { weight: 2, arbitrary: netFailure }, { weight: 1, arbitrary: broken }, { weight: 1, arbitrary: badJson });
const mixed = (name) => fc.oneof({ weight: 2, arbitrary: errors }, { weight: 1, arbitrary: success(name) });
const failedLookup = fc.record({ args: forwardArgs, answer: errors, delay: fc.constant(0) }).map(({ args, answer, delay }) => ({ call: { op: FORWARD, args }, plan: [answer], delay }));
const step = fc.oneof(
  { weight: 7, arbitrary: stepOf(anyOps, mixed) },
  { weight: 1, arbitrary: missing },
  { weight: 1, arbitrary: forwardStep(fc.oneof(errors, success('emails.send'))) },
  { weight: 1, arbitrary: failedLookup },
);
const env = fc.oneof({ weight: 4, arbitrary: fc.constantFrom('development', 'production') }, { weight: 2, arbitrary: fc.constantFrom(null, 'test', '', 'staging', 'Production', 'prod', 'production ', 'PRODUCTION') });
// seq: every call is made under one setting and answered under another.
const history = fc.oneof(
  { weight: 3, arbitrary: fc.record({ build, mode: fc.constant('seq'), steps: fc.array(fc.tuple(step, env, env, fc.boolean()).map(([s, made, failed, changes]) => ({ ...s, made, failed: changes ? failed : made })), { minLength: 1, maxLength: 4 }) }) },
  // The same call failing in the same way again and again.
  { weight: 1, arbitrary: fc.record({ build, mode: fc.constantFrom('seq', 'par'), step, env, n: fc.oneof(fc.integer({ min: 2, max: 4 }), fc.integer({ min: 5, max: 30 })) }).map(({ build: b, mode, step: s, env: e, n }) => ({ build: b, mode, steps: Array.from({ length: n }, () => ({ ...s, made: e, failed: e })) })) },
  { weight: 1, arbitrary: fc.tuple(build, env, fc.array(step, { minLength: 2, maxLength: 5 })).map(([b, e, steps]) => ({ build: b, mode: 'par', steps: steps.map((s) => ({ ...s, made: e, failed: e })) })) },
);
const surrounded = fc.tuple(history, surroundings).map(([h, around]) => ({ ...h, around }));
const setEnv = (v) => { if (v === null) delete process.env.NODE_ENV; else process.env.NODE_ENV = v; };
const BASE = 'https://api.resend.com';

const mentions = (args, rec) => {
  for (const a of args) for (const v of reachable(a)) {
    if (typeof v !== 'string') continue;
    if (v === rec.url || v.includes(rec.url)) return true;
    try { if (new URL(BASE + v).href === rec.url) return true; } catch { /* not a path */ }
    if (rec.url.slice(BASE.length).length > 1 && v.includes(rec.url.slice(BASE.length))) return true;
  }
  return false;
};
const holdsError = (args, error) => {
  for (const a of args) for (const v of reachable(a)) {
    if (v !== null && typeof v === 'object' && !diff(v, error)) return true;
    if (typeof v === 'string' && v.includes(JSON.stringify(error))) return true;
  }
  return false;
};
const holdsStatus = (args, status, error) => {
  const seen = new Set(); // the error's own fields do not count
  for (const a of args) for (const v of reachable(a)) if (v !== null && typeof v === 'object' && !diff(v, error)) for (const x of reachable(v)) if (x !== null && typeof x === 'object') seen.add(x);
  for (const a of args) for (const v of reachable(a, new Set(seen))) {
    if (v === status || (typeof v === 'string' && v.includes(String(status)))) return true;
  }
  return false;
};

async function test(c) {
  const lib = { ...(await loadLib('fake')) };
  globalThis.__fakeRender = async () => '<p>fine</p>';
  const before = process.env.NODE_ENV;
  let run;
  try {
    setEnv(c.steps[0].made);
    run = await captured(async () => {
      // Loaded anew where the environment is there from the beginning.
      if (c.fresh) { const restore = surround(c.around); try { lib[c.build] = await loadFresh(lib.dir, c.build); } finally { restore(); } }
      const client = new lib[c.build].Resend('re_verif_key');
      return play(lib, c, {
        client,
        invoke: (cl, s, args) => { setEnv(s.made); const parts = s.call.op.split('.'); const last = parts.pop(); return parts.reduce((o, k) => o[k], cl)[last](...args); },
        onAnswer: (i) => setEnv(c.steps[i].failed),
      });
    });
  } finally {
    process.env.NODE_ENV = before;
  }
  for (const [i, o] of run.value.entries()) {
    const lines = run.lines.filter((l) => l.call === i);
    const s = o.step;
    const local = s.missing || (s.call.op !== FORWARD && expectation(s.call).local);
    const error = o.status === 'resolved' ? o.value?.error : null;
    // The download of a forward is not an API request.
    const failed = error && !local && o.requests.length > 0 && (s.call.op !== FORWARD || o.requests.length !== 2);
    if (!failed || s.failed === 'production') {
      check(lines.length === 0, () => `${s.call.op} (${failed ? 'failed' : local ? 'refused locally' : 'succeeded'}, NODE_ENV ${s.failed}) printed ${show(lines.map((l) => [l.method, ...l.args]))}`);
      continue;
    }
    check(lines.length === 1, () => `${s.call.op} failed under NODE_ENV ${s.failed} and printed ${lines.length} times: ${show(lines.map((l) => [l.method, ...l.args]))}`);
    const [l] = lines;
    check(l.method === 'error', () => `the failure is printed with console.${l.method}`);
    const rec = o.requests.at(-1);
    check(holdsError(l.args, error), () => `printed ${show(l.args)} without the returned error ${show(error)}`);
    check(mentions(l.args, rec), () => `printed ${show(l.args)} without the path of ${rec.url}`);
    const d = s.plan[o.requests.length - 1];
    if (!d.throw && (d.status < 200 || d.status > 299)) check(holdsStatus(l.args, d.status, error), () => `printed ${show(l.args)} without the status ${d.status}`);
  }
  const stray = run.lines.filter((l) => l.call === undefined);
  check(stray.length === 0, () => `printed outside any call: ${show(stray.map((l) => [l.method, ...l.args]))}`);
}

export default {
  id: 'C38',
  rule: 'histories of any operations, generic verbs, locally refused calls and forwards answered by success, error responses, transport failures and unreadable bodies, one after the other (NODE_ENV set before the call and again just before its response, from eleven values and unset) or in flight together, with all console methods and both output streams captured per call, and some of the environment variables applications have or the source names set; non-trivial: some call is answered by an error.',
  subs: [{
    name: 'log', arb: surrounded, runs: [3000, 60000], test,
    classify: (c) => [`mode:${c.mode}`, ...c.steps.map((s) => `env:${s.failed}${s.failed !== s.made ? ' (changed)' : ''}`)],
    nontrivial: (c) => c.steps.some((s) => { const d = s.plan.at(-1); return d.throw || d.break !== undefined || d.status > 299; }),
  }, {
    name: 'environment-at-load', arb: fc.record({ history, around: someSurroundings }).map(({ history: h, around }) => ({ ...h, around, fresh: true })), runs: [100, 400], test,
    classify: (c) => c.around.map(([k]) => `with:${k}`),
  }],
};
