// Histories: one or several calls on one client, one after the other or in flight together, with
// scripted answers, every request attributed to the call that caused it.
import { Buffer } from 'node:buffer';
import { callContext, headersOf, longWait, makeResponse, Net, ok, setNet } from './net.mjs';
import { clientOf, method, settle } from './call.mjs';
import { brokenJson, build, errorBody, errorStatus, failure, okStatus, replyOf, responseHeaders } from './common.mjs';
import { check, fail, fc, pause, tick } from './env.mjs';
import { diff, show } from './equal.mjs';
import { materialise } from './material.mjs';
import { allOps, callOf, find } from './ops.mjs';
import { surround, surroundings } from './surroundings.mjs';

// --- answers -------------------------------------------------------------------------------------
const withJson = (hs) => [['content-type', 'application/json'], ...hs.filter(([k]) => k.toLowerCase() !== 'content-type')];
// A truthful Content-Length, as most servers send.
const measured = (arb) => fc.tuple(arb, fc.boolean()).map(([d, known]) => (known && typeof d.body === 'string' && d.status !== 304 ? { ...d, headers: [...d.headers.filter(([k]) => k.toLowerCase() !== 'content-length'), ['content-length', String(Buffer.byteLength(d.body))]] } : d));
const trickle = fc.oneof({ weight: 2, arbitrary: fc.constant({}) }, { weight: 1, arbitrary: fc.record({ trickle: fc.nat(6) }) });
export const success = (name) => measured(fc.tuple(replyOf(name), okStatus, responseHeaders, trickle).map(([body, status, headers, t]) => ({ status, headers: withJson(headers), body: JSON.stringify(body), json: body, ...t })));
export const httpError = measured(fc.tuple(errorStatus, responseHeaders, errorBody, trickle).map(([status, headers, body, t]) => ({ status, headers, body: JSON.stringify(body), json: body, ...t })));
export const oddErrorBody = fc.oneof(brokenJson, fc.constantFrom('null', '0', '42', 'true', 'false', '"text"', '""', ' null ', '-1.5'));
export const textError = measured(fc.tuple(errorStatus, responseHeaders, oddErrorBody, fc.constantFrom('', 'Bad Gateway', 'Not Found')).map(([status, headers, body, statusText]) => ({ status, headers, body, statusText })));
export const netFailure = failure.map((f) => ({ throw: f }));
// Body streams fail with Error objects that say something.
const streamFailure = fc.record({ kind: fc.constantFrom('type', 'syntax', 'abort', 'timeout', 'code', 'error'), message: fc.constantFrom('terminated', 'aborted', 'Unexpected end of JSON input', 'ECONNRESET') });
export const broken = fc.tuple(fc.oneof(okStatus, errorStatus.filter((s) => s !== 304)), responseHeaders, streamFailure, fc.constantFrom('', '{"id":"x"', '{"name":')).map(([status, headers, f, after]) => ({ status, headers, break: f, after }));
export const badJson = measured(fc.tuple(okStatus, responseHeaders, brokenJson).map(([status, headers, body]) => ({ status, headers, body })));
export const anyAnswer = (name) => fc.oneof({ weight: 6, arbitrary: success(name) }, { weight: 3, arbitrary: httpError }, { weight: 1, arbitrary: textError }, { weight: 1, arbitrary: netFailure }, { weight: 1, arbitrary: broken }, { weight: 1, arbitrary: badJson });

// The documented result of a request answered by descriptor d.
export function checkResult(r, call, d) {
  check(r.status === 'resolved', () => `${call.op} rejected with ${show(r.error)}`);
  const v = r.value;
  check(v !== null && typeof v === 'object', () => `${call.op} resolved with ${show(v)}`);
  const good = !d.throw && d.break === undefined && d.status >= 200 && d.status < 300;
  let parsed;
  let valid = false;
  if (!d.throw && d.break === undefined) { try { parsed = JSON.parse(d.status === 304 ? '' : d.body.replace(/^\ufeff/, '')); valid = true; } catch { /* not JSON */ } }
  if (good && valid) {
    const op = find(call.op);
    const want = { data: op.map ? op.map(parsed) : parsed, error: null, headers: headersOf(d) };
    const df = diff({ data: v.data, error: v.error, headers: v.headers }, want);
    return check(!df, () => `${call.op}: result differs: ${df}`);
  }
  check(v.data === null, () => `${call.op}: data is ${show(v.data)}, expected null`);
  check(v.error !== null && typeof v.error === 'object', () => `${call.op}: error is ${show(v.error)}`);
  if (!good && valid && typeof parsed === 'object' && parsed !== null) {
    const df = diff(v.error, parsed);
    check(!df, () => `${call.op}: error differs from the response body: ${df}`);
  } else {
    const wantStatus = d.throw || (d.status >= 200 && d.status < 300) ? null : d.status;
    check(v.error.name === 'application_error', () => `${call.op}: error ${show(v.error)}, expected application_error`);
    check(v.error.statusCode === wantStatus, () => `${call.op}: error ${show(v.error)}, expected statusCode ${wantStatus}`);
    check(typeof v.error.message === 'string' && v.error.message !== '', () => `${call.op}: error without a message: ${show(v.error)}`);
  }
  // The headers of whatever answer there was; none when nothing usable was obtained.
  const want = !d.throw && (d.status < 200 || d.status > 299) ? headersOf(d) : null;
  const df = diff(v.headers, want);
  check(!df, () => `${call.op}: headers of a failure: ${df}`);
}

// --- generation ------------------------------------------------------------------------------------
const delay = fc.integer({ min: 0, max: 4 });
export const stepOf = (list, answerOf) => callOf(list).chain((call) => fc.record({ call: fc.constant(call), plan: (answerOf ?? success)(call.op).map((a) => [a]), delay }));
const noiseStep = (list) => stepOf(list, anyAnswer).map((s) => ({ ...s, noise: true }));

// Steps of the operations under test, sometimes after or among other calls of the same client.
const plainSession = (focusStep, { noise = allOps, max = 4, single = 7 } = {}) => fc.oneof(
  { weight: single, arbitrary: fc.record({ build, mode: fc.constant('seq'), steps: fc.tuple(focusStep) }) },
  { weight: 2, arbitrary: fc.record({ build, mode: fc.constantFrom('seq', 'par'), steps: fc.array(focusStep, { minLength: 2, maxLength: max }) }) },
  { weight: 1, arbitrary: fc.record({ build, mode: fc.constantFrom('seq', 'par'), steps: fc.tuple(fc.array(noiseStep(noise), { minLength: 1, maxLength: 3 }), fc.array(focusStep, { minLength: 1, maxLength: 2 })).map(([a, b]) => [...a, ...b]) }) },
  { weight: 1, arbitrary: fc.tuple(build, fc.constantFrom('seq', 'par'), focusStep, fc.integer({ min: 2, max: 3 })).map(([b, mode, s, n]) => ({ build: b, mode, steps: Array.from({ length: n }, () => s) })) },
);
export const session = (focusStep, how) => fc.tuple(plainSession(focusStep, how), surroundings).map(([s, around]) => (around.length ? { ...s, around } : s));
export const sessionFor = (list, answerOf, options) => session(stepOf(list, answerOf), options);

// --- execution -------------------------------------------------------------------------------------
export const defaultReply = ok({ id: 'extra', object: 'list', has_more: false, data: [] });

// invoke(client, call, args) may be overridden; prepare(args) may freeze; returns one outcome per step.
export async function play(lib, c, how) {
  const restore = surround(c.around);
  try { return await played(lib, c, how); } finally { restore(); }
}
async function played(lib, { build: b, mode, steps, options, key }, { client, clients, invoke, argsOf, onAnswer, gate } = {}) {
  const own = client ?? (clients ? null : clientOf(lib, { build: b, options, key }));
  const perCall = steps.map(() => []);
  const args = steps.map((s, i) => (argsOf ? argsOf(s, i) : materialise(s.call.args)));
  const net = new Net(async (rec) => {
    const i = rec.call;
    check(i !== undefined && steps[i], 'a request was issued outside any call');
    const n = rec.indexInCall;
    const wait = Array.isArray(steps[i].delay) ? steps[i].delay[n % steps[i].delay.length] : steps[i].delay ?? 0;
    await pause(wait);
    if (steps[i].plan[n]?.slow === 'head') await longWait();
    onAnswer?.(i, n);
    await gate?.(i);
    return makeResponse(steps[i].plan[n] ?? defaultReply);
  });
  const push = net.requests.push.bind(net.requests);
  net.requests.push = (rec) => { if (perCall[rec.call]) { rec.indexInCall = perCall[rec.call].length; perCall[rec.call].push(rec); } return push(rec); };
  setNet(net);
  const begin = (i) => {
    const s = steps[i];
    const c = own ?? clients[s.client];
    const p = callContext.run(i, () => {
      try { return invoke ? invoke(c, s, args[i]) : method(c, s.call.op)(...args[i]); } catch (error) {
        if (error?.constructor?.name === 'Violation') throw error;
        return Promise.reject(error);
      }
    });
    return settle(p, s.call.op);
  };
  const outcomes = [];
  if (mode === 'par') {
    const all = steps.map(async (s, i) => { await pause(s.start ?? 0); return begin(i); });
    for (const p of all) outcomes.push(await p);
  } else {
    for (let i = 0; i < steps.length; i++) {
      outcomes.push(await begin(i));
      outcomes[i].atSettle = perCall[i].length;
    }
  }
  await tick();
  await net.settled();
  const stray = net.requests.filter((r) => !perCall[r.call]);
  if (stray.length) fail(`${stray.length} requests were issued outside any call, first ${stray[0].url}`);
  return outcomes.map((o, i) => ({ ...o, requests: perCall[i], args: args[i], step: steps[i] }));
}

// The same steps with answers, or their bodies, that arrive after every timer has run.
export const slowly = (arb) => fc.tuple(arb, fc.array(fc.constantFrom('head', 'body', undefined), { minLength: 3, maxLength: 3 }), fc.constantFrom('head', 'body')).map(([s, hows, last]) => ({ ...s, plan: s.plan.map((d, n) => { const slow = n === s.plan.length - 1 ? last : hows[n]; return slow ? { ...d, slow } : d; }) }));

// A sub-check: every non-noise step of a session satisfies verify(outcome, step, ctx).
export function sessionSub(name, focus, runs, verify, extra = {}) {
  const arb = Array.isArray(focus) ? sessionFor(focus, extra.answerOf, extra) : session(focus, extra);
  return {
    name, arb, runs,
    classify: (c) => [`mode:${c.steps.length === 1 ? 'single' : c.mode}`, ...c.steps.filter((s) => !s.noise).map((s) => s.call.op)],
    nontrivial: extra.nontrivial ? (c) => c.steps.some((s) => !s.noise && extra.nontrivial(s)) : undefined,
    test: async (c, ctx) => {
      const outs = await play(ctx.lib, c);
      for (const o of outs) if (!o.step.noise) await verify(o, o.step, ctx);
    },
  };
}
