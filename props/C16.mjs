import { checkBody, checkTarget, expectation, jsonBody, oneRequest } from '../lib/call.mjs';
import { loadLib } from '../lib/build.mjs';
import { check, fail, fc, pause } from '../lib/env.mjs';
import { payloadsOf, reactCall } from '../lib/rendering.mjs';
import { play, session, sessionSub, success } from '../lib/session.mjs';
import { exact, resolved } from '../lib/verify.mjs';

const stepOf = (how) => reactCall(how).chain((call) => fc.record({ call: fc.constant(call), plan: success(call.op).map((a) => [a]), delay: fc.integer({ min: 0, max: 2 }) }));
function noReactField(o) {
  const body = jsonBody(o.requests[0]);
  for (const b of Array.isArray(body) ? body : [body]) check(!('react' in b), 'the request body has a react field');
}
async function verify(o, s) {
  await exact(o, s);
  noReactField(o);
}

// A renderer that answers late, out of order, and with html of its own: what is sent must be what
// the renderer returned for that very element.
let serial = 0;
async function faked({ session: c, outputs, lags }) {
  const lib = await loadLib('fake');
  const made = new Map();
  let n = 0;
  globalThis.__fakeRender = async (node) => {
    const i = n++;
    if (!made.has(node)) made.set(node, outputs[i % outputs.length].replaceAll('@', `${++serial}`));
    const html = made.get(node);
    await pause(lags[i % lags.length]);
    return html;
  };
  const outs = await play(lib, c);
  for (const o of outs) {
    if (o.step.noise) continue;
    const exp = expectation(o.step.call);
    resolved(o);
    const rec = oneRequest(o);
    checkTarget(rec, exp);
    // The k-th html of the expected body belongs to the k-th payload with an element.
    const nodes = payloadsOf({ op: o.step.call.op, args: o.args }).map((p) => p.react).filter(Boolean);
    let k = 0;
    await checkBody(rec, exp, () => { const node = nodes[k++]; return made.has(node) ? made.get(node) : fail('an element was not rendered'); });
    noReactField(o);
  }
}
const outputs = fc.array(fc.constantFrom('<p>@</p>', '<!DOCTYPE html>@', '@', '', '<div>日本 @</div>', '\n@\n'), { minLength: 1, maxLength: 4 });

export default {
  id: 'C16',
  rule: 'sessions of emails, batches, broadcasts (create, update) and template creation with React content from a pool of components (function, class, memo, hooks, context, async, fragments, nested, strings, arrays, large), one after the other or in flight together, against the output of the installed renderer; and the same against a substitute renderer with arbitrary outputs and delays; non-trivial: some payload has a react value.',
  subs: [
    sessionSub('renderer', stepOf('always'), [900, 20000], verify),
    { name: 'substitute-renderer', runs: [2000, 40000], arb: fc.record({ session: session(stepOf('always'), { noise: ['domains.get', 'emails.send', 'templates.create'] }), outputs, lags: fc.array(fc.integer({ min: 0, max: 5 }), { minLength: 1, maxLength: 4 }) }), test: faked },
    sessionSub('with-and-without', stepOf(true), [900, 20000], verify, { nontrivial: (s) => payloadsOf(s.call).some((p) => p.react) }),
  ],
};
