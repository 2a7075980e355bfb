import { expectation } from '../lib/call.mjs';
import { anyOps, build } from '../lib/common.mjs';
import { check, fc, real } from '../lib/env.mjs';
import { forwardStep } from '../lib/forward.mjs';
import { anyAnswer, play, stepOf } from '../lib/session.mjs';
import { surroundings } from '../lib/surroundings.mjs';
import { complete } from '../lib/verify.mjs';

const times = fc.array(fc.integer({ min: 0, max: 12 }), { minLength: 1, maxLength: 3 });
const schedule = (step) => fc.record({ step, start: fc.integer({ min: 0, max: 6 }), delay: times, client: fc.nat(3) }).map(({ step: s, ...r }) => ({ ...s, ...r }));
const any = fc.oneof({ weight: 8, arbitrary: stepOf(anyOps, anyAnswer) }, { weight: 2, arbitrary: forwardStep(anyAnswer('emails.send')) }, { weight: 3, arbitrary: stepOf(anyOps.filter((o) => o.react), anyAnswer) });
// Calls of one kind (most likely to share something), the same call several times, or anything.
const alike = fc.constantFrom(...new Set(anyOps.map((o) => o.resource))).chain((r) => fc.array(schedule(stepOf(anyOps.filter((o) => o.resource === r), anyAnswer)), { minLength: 2, maxLength: 8 }));
const repeated = fc.record({ step: any, runs: fc.array(fc.record({ start: fc.integer({ min: 0, max: 4 }), delay: times, client: fc.nat(3), other: fc.option(fc.constantFrom({ id: 'other' }, { id: 'second', data: [] })) }), { minLength: 2, maxLength: 6 }) })
  .map(({ step, runs }) => runs.map(({ other, ...r }, i) => ({ ...step, ...r, plan: other && !step.call.op.startsWith('contactProperties') ? [...step.plan.slice(0, -1), { status: 200, headers: [['content-type', 'application/json'], ['x-n', String(i)]], body: JSON.stringify({ ...other, i }) }] : step.plan })));
const crowd = fc.array(schedule(any), { minLength: 10, maxLength: 40 });
const history = (steps) => fc.record({ build, clients: fc.integer({ min: 1, max: 4 }), bases: fc.boolean(), steps, around: surroundings });

async function test(c, { lib }, gate) {
  const { Resend } = lib[c.build];
  const confs = Array.from({ length: c.clients }, (_, i) => ({ key: `re_client_${i}_key`, base: c.bases ? `https://host${i}.test/p${i}` : 'https://api.resend.com', userAgent: `agent/${i}` }));
  const clients = confs.map((x) => new Resend(x.key, { baseUrl: x.base, userAgent: x.userAgent }));
  const steps = c.steps.map((s) => ({ ...s, client: s.client % c.clients }));
  const outs = await play(lib, { mode: 'par', steps, around: c.around }, { clients, gate });
  for (const [i, o] of outs.entries()) {
    try { await complete(o, o.step, confs[o.step.client]); } catch (e) { e.message = `call ${i} of ${outs.length} in flight, ${o.step.call.op}: ${e.message}`; throw e; }
  }
}
const rendered = (v) => v !== null && typeof v === 'object' && (Boolean(v.$react) || Object.values(v).some(rendered));
// Everything is under way before anything is answered.
const held = (min, max) => fc.array(schedule(stepOf(anyOps, anyAnswer).filter((x) => !rendered(x.call.args))), { minLength: 1, maxLength: 6 }).chain((steps) => fc.integer({ min, max }).map((n) => Array.from({ length: n }, (_, i) => ({ ...steps[i % steps.length], start: i % 3, delay: [0] }))));
async function allHeld(c, { lib }) {
  const expected = c.steps.filter((s) => !expectation(s.call).local).length;
  let issued = 0;
  let short;
  let open;
  const opened = new Promise((r) => { open = r; });
  const timer = real.setTimeout(() => { short = issued; open(); }, 10_000);
  try {
    await test(c, { lib }, () => { if (++issued === expected) open(); return opened; });
  } finally { real.clearTimeout(timer); }
  check(short === undefined, () => `of ${expected} calls in flight together, ${short} send their request while none is answered`);
}
const sub = (name, steps, runs) => ({ name, arb: history(steps), runs, test, classify: (c) => [`clients:${c.clients}`], nontrivial: (c) => c.steps.length > 1 });

export default {
  id: 'C11',
  rule: 'sets of 2 to 260 calls in flight together on 1 to 4 clients with their own key, base URL and user agent, each starting and each response arriving after its own generated number of scheduler turns; every call is compared with the reference model (request of its client, result of its own response), requests being attributed by async context; sets of 9 to 300 calls answered only once all their requests have been sent; non-trivial: at least two calls.',
  subs: [
    sub('mixed', fc.array(schedule(any), { minLength: 2, maxLength: 8 }), [700, 15000]),
    sub('one-resource', alike, [400, 10000]),
    sub('same-call', repeated, [400, 10000]),
    sub('crowd', crowd, [40, 800]),
    sub('multitude', fc.array(schedule(any), { minLength: 90, maxLength: 260 }), [4, 80]),
    { ...sub('held', held(9, 70), [25, 600]), test: allHeld },
    { ...sub('held-multitude', held(130, 300), [3, 60]), test: allHeld },
  ],
};
