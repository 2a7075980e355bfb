import { build } from '../lib/common.mjs';
import { checkBody, checkTarget, expectation, settle } from '../lib/call.mjs';
import { loadLib } from '../lib/build.mjs';
import { check, fc, pause, tick } from '../lib/env.mjs';
import { diff, show } from '../lib/equal.mjs';
import * as g from '../lib/gen.mjs';
import { materialise } from '../lib/material.mjs';
import { callContext, headersOf, makeResponse, Net, setNet } from '../lib/net.mjs';
import { callOf } from '../lib/ops.mjs';
import { checkResult, httpError, netFailure, success, textError } from '../lib/session.mjs';

// One chain: a create or duplicate call, its answer, and what is done with the returned object.
const created = fc.record({ id: g.freeId, rest: g.jsonObject }).map(({ id, rest }) => { const json = { ...rest, object: 'template', id }; return { status: 200, headers: [['content-type', 'application/json'], ['x-req', 'first']], body: JSON.stringify(json), json }; });
const first = fc.oneof({ weight: 4, arbitrary: created }, { weight: 1, arbitrary: httpError }, { weight: 1, arbitrary: textError }, { weight: 1, arbitrary: netFailure });
const published = fc.oneof({ weight: 3, arbitrary: success('templates.publish') }, { weight: 1, arbitrary: httpError }, { weight: 1, arbitrary: netFailure });
const action = fc.record({ kind: fc.constantFrom('await', 'await', 'publish', 'publish', 'then', 'catch', 'race', 'then-only', 'chained', 'nothing'), wait: fc.integer({ min: 0, max: 5 }), delay: fc.integer({ min: 0, max: 6 }), answer: published });
const chain = fc.record({ call: callOf(['templates.create', 'templates.duplicate']), first, delay: fc.integer({ min: 0, max: 5 }), start: fc.integer({ min: 0, max: 3 }), actions: fc.array(action, { minLength: 1, maxLength: 5 }), fails: fc.integer({ min: 0, max: 5 }) });

async function one(client, c, ci, log) {
  await pause(c.start);
  const name = c.call.op.split('.')[1];
  const args = materialise(c.call.args);
  log.element = args[0]?.react;
  const result = callContext.run(`${ci}:first`, () => client.templates[name](...args));
  check(result && typeof result.then === 'function' && typeof result.publish === 'function', `${c.call.op} does not return a chainable result`);
  log.results = await Promise.all(c.actions.map(async (a, ai) => {
    await pause(a.wait);
    if (a.kind === 'publish') return settle(callContext.run(`${ci}:${ai}`, () => result.publish()), 'publish');
    if (a.kind === 'then') return settle(new Promise((ok, no) => result.then(ok, no)), 'then');
    if (a.kind === 'catch') return settle(result.then(null, (e) => { throw e; }), 'then(null)');
    if (a.kind === 'then-only') return settle(result.then((x) => x), 'then(f)');
    if (a.kind === 'chained') return settle(result.then((x) => [x]).then(([x]) => x), 'then(f).then(g)');
    if (a.kind === 'nothing') return settle(result.then(), 'then()');
    if (a.kind === 'race') return settle(Promise.all([result, 1]).then(([x]) => x), 'Promise.all');
    return settle(result, c.call.op);
  }));
  if (!c.actions.length) await settle(result);
}

function runner(renderer) {
  return async ({ build: b, mode, chains }, ctx) => {
    const lib = renderer === 'real' ? ctx.lib : await loadLib(renderer);
    const { Resend } = lib[b];
    const client = new Resend('re_chain');
    const logs = chains.map(() => ({ first: [], publishes: new Map(), order: [] }));
    if (renderer === 'fake') {
      globalThis.__fakeRender = async (node) => {
        // Which chain renders: told by the call, since two chains may be given equal elements (strings).
        const i = Number(String(callContext.getStore()).split(':')[0]);
        await pause(chains[i]?.delay ?? 0);
        if (chains[i]?.fails < 2) throw new Error('component failed');
        return '<p>fake</p>';
      };
    }
    const net = new Net(async (rec) => {
      const [ci, what] = String(rec.call).split(':');
      const c = chains[ci];
      check(c, 'a request was issued outside any chain');
      if (what === 'first') {
        logs[ci].first.push(rec);
        await pause(c.delay);
        logs[ci].answered = true;
        return makeResponse(c.first);
      }
      if (!logs[ci].answered) logs[ci].early = true;
      const list = logs[ci].publishes.get(what) ?? [];
      logs[ci].publishes.set(what, [...list, rec]);
      await pause(c.actions[what].delay);
      return makeResponse(c.actions[what].answer);
    });
    setNet(net);
    if (mode === 'par') await Promise.all(chains.map((c, i) => one(client, c, i, logs[i])));
    else for (let i = 0; i < chains.length; i++) await one(client, chains[i], i, logs[i]);
    for (let k = 0; k < 4; k++) await tick();
    await net.settled();
    for (const [i, c] of chains.entries()) await verdict(c, logs[i], renderer === 'fake' && c.fails < 2 && Boolean(logs[i].element), renderer === 'fake' ? () => '<p>fake</p>' : undefined);
  };
}

async function verdict(c, log, renderFails, render) {
  const exp = expectation(c.call);
  if (renderFails) {
    check(log.first.length === 0 && log.publishes.size === 0, () => `${c.call.op}: a request was sent although rendering failed`);
    for (const [i, r] of log.results.entries()) check(r.status === 'rejected', () => `${c.call.op}: ${c.actions[i].kind} ${r.status} with ${show(r.value)} although rendering failed`);
    return;
  }
  check(log.first.length === 1, () => `${c.call.op}: the request was sent ${log.first.length} times (${c.actions.map((a) => a.kind)})`);
  checkTarget(log.first[0], exp);
  await checkBody(log.first[0], exp, render);
  const good = c.first.status === 200;
  check(!log.early, 'a publish request was sent before the first request was answered');
  for (const [i, r] of log.results.entries()) {
    const a = c.actions[i];
    if (a.kind !== 'publish') { checkResult(r, c.call, c.first); continue; }
    const requests = log.publishes.get(String(i)) ?? [];
    if (good) {
      check(requests.length === 1, () => `publish() sent ${requests.length} requests`);
      checkTarget(requests[0], { method: 'POST', path: ['templates', c.first.json.id, 'publish'] });
      check(!requests[0].hasBody, 'the publish request has a body');
      checkResult(r, { op: 'templates.publish', args: [] }, a.answer);
    } else {
      check(requests.length === 0, 'publish() sent a request although the first request failed');
      check(r.status === 'resolved' && r.value?.data === null, () => `publish() after a failure gave ${show(r)}`);
      const firstResult = log.results[c.actions.findIndex((x) => x.kind !== 'publish')];
      checkResult({ ...r, value: { ...r.value, headers: c.first.throw ? r.value.headers : headersOf(c.first) } }, c.call, c.first);
      if (firstResult) { const d = diff(r.value.error, firstResult.value.error); check(!d, () => `publish() gives another error than the first request: ${d}`); }
    }
  }
}
const histories = fc.record({ build, mode: fc.constantFrom('seq', 'par'), chains: fc.oneof({ weight: 3, arbitrary: fc.tuple(chain) }, { weight: 2, arbitrary: fc.array(chain, { minLength: 2, maxLength: 5 }) }) });
const shape = (c) => c.chains.flatMap((x) => [x.call.op, ...x.actions.map((a) => a.kind), x.first.status === 200 ? 'first-ok' : 'first-fails']);

export default {
  id: 'C20',
  rule: '1 to 5 template create/duplicate calls (one after the other or in flight together) whose chainable result is awaited, then-ed and published 1 to 5 times in any order and timing, with the first request succeeding or failing in any way and every publish answered on its own; a second sub-check lets rendering succeed or fail under a substitute renderer; non-trivial: at least one publish().',
  subs: [
    { name: 'chains', runs: [3000, 60000], arb: histories, test: runner('real'), classify: shape, nontrivial: (c) => c.chains.some((x) => x.actions.some((a) => a.kind === 'publish')) },
    { name: 'rendering', runs: [1500, 30000], arb: histories, test: runner('fake'), classify: shape, nontrivial: (c) => c.chains.some((x) => x.actions.some((a) => a.kind === 'publish')) },
  ],
};
