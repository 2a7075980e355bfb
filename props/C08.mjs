import { expectation, oneRequest } from '../lib/call.mjs';
import { anyOps, find } from '../lib/common.mjs';
import { check, fc } from '../lib/env.mjs';
import { show } from '../lib/equal.mjs';
import * as g from '../lib/gen.mjs';
import { checkHeaders, givenHeaders, optionsOf, wantedHeaders } from '../lib/head.mjs';
import { KEY } from '../lib/call.mjs';
import { anyAnswer, play, session, success } from '../lib/session.mjs';

const withOptions = anyOps.filter((o) => o.opts !== undefined);
const name = fc.oneof({ weight: 4, arbitrary: g.headerName }, { weight: 4, arbitrary: g.defaultHeaderName }, { weight: 1, arbitrary: fc.constantFrom('x-batch-validation', 'X-Batch-Validation', 'Idempotency-Key', 'idempotency-key') });
const entries = fc.oneof(
  { weight: 20, arbitrary: fc.uniqueArray(fc.tuple(name, g.headerValue), { selector: ([k]) => k.toLowerCase(), minLength: 1, maxLength: 6 }) },
  { weight: 4, arbitrary: fc.array(fc.tuple(g.headerName, g.headerValue), { minLength: 2, maxLength: 4 }) },
  { weight: 1, arbitrary: g.manyHeaders },
);
const headers = fc.record({ $headers: fc.constantFrom('object', 'object', 'pairs', 'pairs', 'Headers', 'Headers', 'foreign'), entries }).map((h) => {
  if (h.$headers !== 'object') return h;
  const seen = new Set();
  return { ...h, entries: h.entries.filter(([k]) => !seen.has(k.toLowerCase()) && seen.add(k.toLowerCase())) };
});
const focus = fc.integer({ min: 0, max: withOptions.length - 1 }).chain((i) => {
  const op = withOptions[i];
  return fc.record({ args: op.args, headers: fc.option(headers, { freq: 5, nil: undefined }), plan: fc.oneof({ weight: 3, arbitrary: success(op.name) }, { weight: 1, arbitrary: anyAnswer(op.name) }).map((a) => [a]), delay: fc.integer({ min: 0, max: 4 }) })
    .map(({ args, headers: h, plan, delay }) => {
      const a = [...args];
      while (a.length < op.opts) a.push(undefined);
      a[op.opts] = { ...a[op.opts], headers: h };
      if (h === undefined && delay % 2) delete a[op.opts].headers;
      return { call: { op: op.name, args: a }, plan, delay };
    });
});

async function test(c, { lib }) {
  const outs = await play(lib, c);
  const userAgent = new lib[c.build].Resend('k').userAgent;
  for (const o of outs) {
    const exp = expectation(o.step.call);
    if (exp.local) continue;
    const rec = oneRequest(o);
    check(!rec.invalid, () => `fetch refuses the request: ${rec.invalid}`);
    const options = optionsOf(o.step.call);
    const form = Boolean(find(o.step.call.op).form);
    const want = wantedHeaders({ key: KEY, userAgent, options, validation: exp.validation, json: !form && rec.hasBody });
    try { checkHeaders(rec, want, { form, given: givenHeaders(options) }); } catch (e) { e.message = `${o.step.call.op} (call ${outs.indexOf(o)}, headers ${show(options?.headers)}): ${e.message}`; throw e; }
  }
}

export default {
  id: 'C08',
  rule: 'sessions of calls accepting request options (and the generic verbs), most of them with 1 to 6 caller headers in one of the three forms, including default header names in any case; the complete header set of every request (also of the other calls, which must not carry them) is compared with defaults overridden by the caller headers; non-trivial: some call has headers.',
  subs: [{ name: 'headers', runs: [5000, 120000], arb: session(focus, { noise: anyOps, single: 3 }), test, classify: (c) => c.steps.filter((s) => !s.noise).map((s) => `${optionsOf(s.call)?.headers?.$headers ?? 'none'}`), nontrivial: (c) => c.steps.some((s) => optionsOf(s.call)?.headers) }],
};
