// The headers a request of a call must carry.
import { check } from './env.mjs';
import { show } from './equal.mjs';
import { find } from './ops.mjs';

export const optionsOf = (call) => { const op = find(call.op); return op.opts === undefined ? undefined : call.args[op.opts]; };
export const givenHeaders = (o) => { const h = new Headers(); for (const [k, v] of o?.headers?.entries ?? []) { if (o.headers.$headers === 'object') h.set(k, v); else h.append(k, v); } return h; };

// form: the request has a multipart body; json: it has a JSON body.
export function wantedHeaders({ key, userAgent, options, validation, form, json }) {
  const want = new Headers({ authorization: `Bearer ${key}`, 'user-agent': userAgent });
  if (json) want.set('content-type', 'application/json');
  if (validation) want.set('x-batch-validation', validation);
  for (const [k, v] of givenHeaders(options)) want.set(k, v);
  if (options?.idempotencyKey) want.set('idempotency-key', options.idempotencyKey);
  return want;
}
export function checkHeaders(rec, want, { form, given } = {}) {
  for (const [k, v] of want) check(rec.headers.get(k) === v, () => `header ${k} is ${show(rec.headers.get(k))}, expected ${show(v)}`);
  for (const [k, v] of rec.headers) {
    if (want.has(k)) continue;
    if (k === 'content-type' && (form ? v.startsWith('multipart/form-data') : v === 'application/json' && !rec.hasBody && !given?.has('content-type'))) continue;
    check(false, `unexpected header ${k}: ${show(v)}`);
  }
}
