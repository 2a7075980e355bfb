import { spawnSync } from 'node:child_process';
import { writeFileSync } from 'node:fs';
import { join } from 'node:path';
import v8 from 'node:v8';
import { loadFresh, loadLib } from '../lib/build.mjs';
import { method } from '../lib/call.mjs';
import { anyOps, build } from '../lib/common.mjs';
import { check, fc, real, VERIF } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import { FORWARD, forwardStep } from '../lib/forward.mjs';
import { id } from '../lib/gen.mjs';
import { snapshot, timersLeft, undisturbed, unchanged } from '../lib/host.mjs';
import { captured } from '../lib/printed.mjs';
import { missing } from '../lib/refusals.mjs';
import { anyAnswer, httpError, netFailure, play, session, stepOf, success } from '../lib/session.mjs';
import { keyBytes, messageId, payload, secretOf, sign } from '../lib/signing.mjs';
import { Net, setNet } from '../lib/net.mjs';

const patched = globalThis.setTimeout;
const unloaded = snapshot(); // before the package is loaded for the first time
const hasReact = (v) => v !== null && typeof v === 'object' && (Boolean(v.$react) || Object.values(v).some(hasReact));
const nothingElse = (events) => check(events.length === 0, () => events.join('\n').slice(0, 600));
const step = fc.oneof({ weight: 8, arbitrary: stepOf(anyOps, anyAnswer) }, { weight: 2, arbitrary: forwardStep(anyAnswer('emails.send')) }, { weight: 1, arbitrary: missing });

// Loading, constructing, looking around, calling, verifying: afterwards the process is as it was.
async function test(c) {
  const lib = await loadLib('fake');
  globalThis.__fakeRender = async () => '<p>fine</p>';
  const net = new Net(() => check(false, 'a request was sent before any operation was called'));
  setNet(net);
  globalThis.setTimeout = real.setTimeout; // what is left running must be seen
  try {
    const before = snapshot();
    const { value, events } = await undisturbed(async () => {
      const { lines } = await captured(async () => {
        const first = snapshot();
        const { Resend } = c.fresh ? await loadFresh(lib.dir, c.session.build) : lib[c.session.build];
        const clients = Array.from({ length: c.clients }, (_, i) => new Resend(`${c.key}${i}`));
        for (const x of clients) look(x, 3);
        await new Promise((r) => real.setImmediate(r));
        check(net.requests.length === 0, () => `a request to ${net.requests[0].url} was sent before any operation was called`);
        unchanged(first, snapshot(), 'after construction');
        let outs;
        const left = await timersLeft(lib.dir, async () => { outs = await play(lib, c.session, { client: clients[0] }); });
        check(left.length === 0, () => `after ${c.session.steps.map((s) => s.call.op).join(', ')}, left running: ${left}`);
        for (const v of c.hooks) {
          const ts = String(Math.floor(Date.now() / 1000) + v.off);
          try { clients[0].webhooks.verify({ payload: v.payload, headers: { id: v.id, timestamp: ts, signature: `v1,${sign(v.bytes, v.id, ts, v.payload)}` }, webhookSecret: secretOf(v.bytes, true) }); } catch { /* stale */ }
        }
        return outs;
      });
      check(lines.length === 0, () => `printed ${show(lines.map((l) => [l.method, ...l.args]))}`);
    });
    nothingElse(events);
    unchanged(unloaded, before, 'since before the package was loaded', ['env', 'cwd', 'umask', 'title'], ['globalThis.setTimeout']);
    unchanged(before, snapshot(), `after ${c.session.steps.map((s) => s.call.op).join(', ')}`);
    return value;
  } finally {
    globalThis.setTimeout = patched;
  }
}
function look(o, depth) {
  if (o === null || typeof o !== 'object' || depth === 0) return;
  for (const k of Object.keys(o)) look(o[k], depth - 1);
}

// Results nobody looks at: a failure stays inside its promise.
async function dropped(c, { lib }) {
  const client = new lib[c.build].Resend('re_dropped');
  const { events } = await undisturbed(async () => {
    await play(lib, { mode: 'par', steps: c.steps }, { client, invoke: (cl, s, args) => {
      const p = method(cl, s.call.op)(...args);
      if (s.publish && typeof p?.publish === 'function') p.publish();
      return undefined; // nobody keeps the promise
    } });
    for (let i = 0; i < 12; i++) await new Promise((r) => real.setImmediate(r));
    await new Promise((r) => real.setTimeout(r, 3));
  });
  nothingElse(events);
}
const unreact = (s) => !hasReact(s.call.args);
const failing = (name) => fc.oneof(httpError, netFailure, anyAnswer(name));
const droppedSteps = fc.array(fc.tuple(fc.oneof({ weight: 6, arbitrary: stepOf(anyOps, failing) }, { weight: 1, arbitrary: stepOf(anyOps.filter((o) => o.name.startsWith('templates.')), failing) }, { weight: 1, arbitrary: forwardStep(failing('emails.send')) }), fc.boolean()).map(([s, publish]) => ({ ...s, publish })).filter(unreact), { minLength: 1, maxLength: 4 });

// A program that uses the client ends by itself once its calls are over.
const program = fc.record({ build, steps: fc.array(fc.oneof({ weight: 5, arbitrary: stepOf(anyOps, anyAnswer) }, { weight: 1, arbitrary: forwardStep(success('emails.send')) }).filter(unreact), { minLength: 1, maxLength: 25 }), clients: fc.integer({ min: 1, max: 5 }) });
const ENOUGH = 20_000;
async function ends(c, { lib }) {
  const file = join(lib.dir, `case-${Math.random().toString(36).slice(2)}.v8`);
  writeFileSync(file, v8.serialize(c));
  const run = spawnSync(process.execPath, [join(VERIF, 'lib/program.mjs'), lib.dir, file], { timeout: ENOUGH, encoding: 'utf8', env: { ...process.env, NODE_ENV: 'production' } });
  check(!run.error && run.status !== null, () => `a program whose calls were all over had to be killed ${ENOUGH / 1000} s later: ${run.stdout}${run.stderr}`.slice(0, 600));
  check(run.status === 0 && /^over after \d+ calls, ended \d+ ms later\n$/.test(run.stdout) && run.stderr === '', () => `the program ended with ${run.status}, output ${show(run.stdout)}, ${show(run.stderr.slice(0, 500))}`);
  const late = Number(/ended (\d+) ms/.exec(run.stdout)[1]);
  check(late < 5000, () => `the program ended ${late} ms after its last call was over`);
}

const hook = fc.record({ payload, id: messageId, bytes: keyBytes, off: fc.constantFrom(0, 0, 100, -301, 3600) });
const history = (fresh) => fc.record({ session: session(step, { noise: anyOps }), key: id.map((i) => `re_${i}`), clients: fc.constantFrom(1, 1, 2, 12), hooks: fc.array(hook, { maxLength: 2 }), fresh: fc.constant(fresh) });
const classify = (c) => (c.session ?? c).steps.map((s) => (s.call.op === FORWARD ? 'forward' : s.missing ? 'refused' : hasReact(s.call.args) ? 'react' : s.plan[0].status < 300 ? 'success' : 'failure'));

export default {
  id: 'C41',
  rule: 'sessions of any operations, generic verbs, forwards, refused calls and webhook verifications on 1 to 12 clients with any answers, in an already or a freshly loaded package, with the process observed before and after (every own property of the global object and of 40 built-in objects and their prototypes, environment, working directory, listeners, timers, sockets, output, warnings, unhandled rejections, uncaught exceptions); sessions whose promises nobody keeps; whole programs in a process of their own that must end by themselves; non-trivial: always.',
  subs: [
    { name: 'process-unchanged', arb: history(false), runs: [600, 12000], test, classify },
    { name: 'fresh-load', arb: history(true), runs: [30, 150], test, classify },
    { name: 'unobserved', arb: fc.record({ build, steps: droppedSteps }), runs: [400, 8000], test: dropped, classify },
    { name: 'program-ends', arb: program, runs: [24, 250], test: ends, classify },
  ],
};
