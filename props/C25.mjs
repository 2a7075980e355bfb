import { checkTarget, expectation, method, settle } from '../lib/call.mjs';
import { allOps, find } from '../lib/common.mjs';
import { check, fc } from '../lib/env.mjs';
import { diff, show } from '../lib/equal.mjs';
import { makeResponse, Net, ok, setNet } from '../lib/net.mjs';
import { callOf, cursor } from '../lib/ops.mjs';
import { sessionSub } from '../lib/session.mjs';
import { queried, resolved } from '../lib/verify.mjs';

const LISTS = allOps.filter((o) => o.list !== undefined).map((o) => o.name);

async function verify(o, s) {
  queried(o, s);
  if (expectation(s.call).query.length === 0) check(!o.requests[0].url.includes('?'), () => `no option was given but the URL is ${o.requests[0].url}`);
}

// A server with n items, of which a list call shows a page; following the cursors must visit every
// item once, forwards with `after` and backwards with `before`.
async function walk({ build, call, ids, limit, back }, { lib }) {
  const op = find(call.op);
  const client = new lib[build].Resend('re_pages');
  const args = [...call.args];
  while (args.length <= op.list) args.push(undefined);
  const { limit: _l, after: _a, before: _b, ...rest } = args[op.list] ?? {};
  const visited = [];
  let at;
  let pages = 0;
  for (;;) {
    const options = { ...rest, ...(limit && { limit }), ...(at !== undefined && { [back ? 'before' : 'after']: at }) };
    const net = new Net((rec) => {
      const q = new URL(rec.url).searchParams;
      const n = q.has('limit') ? Number(q.get('limit')) : 20;
      let page;
      if (q.has('before')) { const i = ids.indexOf(q.get('before')); page = i < 0 ? [] : ids.slice(Math.max(0, i - n), i); } else if (q.has('after')) { const i = ids.indexOf(q.get('after')); page = i < 0 ? [] : ids.slice(i + 1, i + 1 + n); } else page = back ? ids.slice(-n) : ids.slice(0, n);
      const edge = back ? page[0] !== ids[0] : page.at(-1) !== ids.at(-1);
      return makeResponse(ok({ object: 'list', has_more: page.length > 0 && edge, data: page.map((id) => ({ id })) }));
    });
    setNet(net);
    args[op.list] = options;
    const o = await settle(method(client, call.op)(...args), call.op);
    resolved(o);
    check(o.value.error === null, () => `page ${pages}: ${show(o.value.error)}`);
    checkTarget(net.requests[0], expectation({ op: call.op, args }));
    const got = o.value.data.data.map((x) => x.id);
    visited.push(...(back ? got.slice().reverse() : got));
    check(++pages <= ids.length + 2, () => `paging does not end: visited ${show(visited)}`);
    if (!o.value.data.has_more) break;
    at = back ? got[0] : got.at(-1);
  }
  const want = back ? ids.slice().reverse() : ids;
  check(!diff(visited, want), () => `paging visited ${show(visited)} instead of ${show(want)}`);
}

export default {
  id: 'C25',
  rule: 'sessions of every paginated list operation with random limit/after/before (any text as cursor), compared with the reference query; and complete walks over a model server with up to 60 items and arbitrary cursor texts, in both directions; non-trivial: a pagination option is given, or a walk of at least two pages.',
  subs: [
    sessionSub('query', LISTS, [5000, 120000], verify, { nontrivial: (s) => { const o = s.call.args[find(s.call.op).list]; return o && ['limit', 'after', 'before'].some((k) => o[k] !== undefined); } }),
    { name: 'walk', runs: [600, 12000], arb: fc.record({ build: fc.constantFrom('esm', 'cjs'), call: callOf(LISTS), ids: fc.uniqueArray(cursor, { minLength: 1, maxLength: 60 }), limit: fc.oneof(fc.constant(undefined), fc.integer({ min: 1, max: 12 })), back: fc.boolean() }), test: walk, classify: (c) => [c.call.op], nontrivial: (c) => c.ids.length > (c.limit ?? 20) },
  ],
};
