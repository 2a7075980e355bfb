// Pieces shared by the property modules.
import { freshBetween, spiced } from './dictionary.mjs';
import { fc } from './env.mjs';
import * as g from './gen.mjs';
import { allOps, anyOps, callOf, find } from './ops.mjs';

export const build = fc.constantFrom('esm', 'cjs');
export const single = (list = allOps) => fc.record({ build, call: callOf(list) });
export const namesOf = (pred) => allOps.filter(pred).map((o) => o.name);
export const classifyOp = (c) => [c.call.op];
export { allOps, anyOps, callOf, find };

// --- responses -------------------------------------------------------------------------------
const token = (w) => /^[\w-]+$/.test(w) && !/^(?:connection|keep-alive|transfer-encoding|content-length|content-encoding|__proto__)$/i.test(w);
const hv = spiced(fc.oneof(fc.string({ unit: fc.integer({ min: 0x21, max: 0x7e }).map((n) => String.fromCharCode(n)), maxLength: 16 }), fc.constantFrom('', '0', '0', '1', '30', 'a, b', ...[257, 1025, 4097, 9000].map((n) => 'h'.repeat(n)), 'Wed, 21 Oct 2099 07:28:00 GMT', 'text/html; charset=utf-8')), (w) => /^[\u0021-\u007e ]*$/.test(w) && w === w.trim());
const plainHeaders = fc.uniqueArray(
  fc.tuple(spiced(fc.constantFrom('content-type', 'Content-Type', 'x-request-id', 'retry-after', 'Retry-After', 'ratelimit-limit', 'ratelimit-remaining', 'ratelimit-reset', 'x-resend-daily-quota', 'x-resend-monthly-quota', 'etag', 'date', 'server', 'cf-ray', 'set-cookie', 'location', 'x-custom', '__proto__', 'constructor', 'x-should-retry', 'cache-control', 'error', 'status'), (w) => token(w) || w === '__proto__'), hv),
  { selector: ([k]) => k.toLowerCase(), maxLength: 8 });
// What the API says of its limits.
const budget = fc.record({ left: fc.constantFrom('0', '0', '1', '9'), limit: fc.constantFrom('2', '10'), reset: fc.constantFrom('1', '0', '30'), after: fc.constantFrom(undefined, '1', '60'), rest: plainHeaders })
  .map(({ left, limit, reset, after, rest }) => { const mine = [['ratelimit-limit', limit], ['ratelimit-remaining', left], ['ratelimit-reset', reset], ...(after ? [['retry-after', after]] : [])]; return [...mine, ...rest.filter(([k]) => !mine.some(([m]) => m === k.toLowerCase()))]; });
const manyAnswered = fc.tuple(fc.constantFrom(17, 33, 65, 101), hv).map(([n, v]) => Array.from({ length: n }, (_, i) => [`x-r${i}`, v.slice(0, 100)]));
export const responseHeaders = fc.oneof({ weight: 40, arbitrary: plainHeaders }, { weight: 6, arbitrary: budget }, { weight: 1, arbitrary: manyAnswered });
export const okStatus = fc.oneof({ weight: 4, arbitrary: fc.constantFrom(200, ...freshBetween(200, 299).filter((s) => s !== 204 && s !== 205)) }, { weight: 2, arbitrary: fc.constantFrom(201, 202, 203, 206, 207, 226) }, { weight: 1, arbitrary: fc.integer({ min: 200, max: 299 }).filter((s) => s !== 204 && s !== 205) });
export const errorStatus = fc.oneof(
  { weight: 4, arbitrary: fc.constantFrom(400, 401, 402, 403, 404, 405, 408, 409, 410, 413, 415, 421, 422, 423, 425, 428, 429, 431, 451, 499, 500, 501, 502, 503, 504, 505, 507, 508, 511, 520, 522, 524, 529, 599, ...freshBetween(400, 599)) },
  { weight: 2, arbitrary: fc.integer({ min: 400, max: 599 }) },
  { weight: 1, arbitrary: fc.constantFrom(300, 301, 302, 303, 304, 307, 308, 399) },
);
const field = spiced(fc.constantFrom('id', 'object', 'data', 'error', 'headers', 'message', 'name', 'statusCode', 'has_more', 'created_at', 'createdAt', 'first_name', 'fallback_value', 'deleted', 'status', 'token', 'errors', 'react', 'then', 'url', 'to', 'bcc'), (w) => w !== 'toJSON');
export const bodyObject = fc.tuple(g.jsonObject, fc.uniqueArray(fc.tuple(field, g.json), { selector: ([k]) => k, maxLength: 5 })).map(([o, extra]) => ({ ...o, ...Object.fromEntries(extra) }))
  .filter((o) => typeof o.then !== 'function');
// One thing within another, as envelopes have it.
const envelope = (inner) => fc.tuple(fc.constantFrom('data', 'error', 'errors', 'result', 'detail', 'message', 'email', 'object', 'response', 'body', 'items', '0'), inner).map(([k, v]) => ({ [k]: v }));
const item = fc.record({ id: g.id, name: g.str, created_at: g.isoDate, flag: g.bool, n: g.num, nothing: fc.constant(null) }, { requiredKeys: ['id'] });
export const listBody = fc.record({ object: fc.constant('list'), has_more: g.bool, data: g.list(item, { max: 8 }) });
// A 2xx JSON object body this operation may get.
export const replyOf = (name) => find(name).reply ?? fc.oneof({ weight: 15, arbitrary: bodyObject }, { weight: 3, arbitrary: envelope(fc.oneof(bodyObject, item, listBody, g.json)) }, { weight: 10, arbitrary: listBody }, { weight: 5, arbitrary: fc.tuple(bodyObject, fc.constantFrom(1001, 5000)).map(([o, n]) => ({ ...o, rows: Array.from({ length: n }, (_, i) => i) })) });
export const errorName = spiced(fc.constantFrom('validation_error', 'missing_required_field', 'not_found', 'rate_limit_exceeded', 'application_error', 'internal_server_error', 'invalid_api_key', 'concurrent_idempotent_requests', 'brand_new_error'));
export const errorBody = fc.oneof(
  { weight: 4, arbitrary: fc.record({ name: errorName, message: g.str, statusCode: fc.oneof(errorStatus, fc.constant(null)) }, { requiredKeys: [] }) },
  { weight: 2, arbitrary: bodyObject },
  { weight: 1, arbitrary: fc.constant({}) },
  { weight: 1, arbitrary: envelope(fc.oneof(fc.record({ name: errorName, message: g.str, statusCode: errorStatus }), fc.array(bodyObject, { maxLength: 3 }), g.json)) },
  { weight: 1, arbitrary: fc.tuple(errorName, fc.constantFrom(1001, 5000, 20_000, 70_000), g.str).map(([name, n, s]) => ({ name, message: `${'m'.repeat(n)}${s}`, statusCode: 422, errors: Array.from({ length: n % 300 }, (_, i) => ({ index: i, message: s })) })) },
);
export const CODES = ['ECONNRESET', 'ECONNREFUSED', 'ETIMEDOUT', 'EPIPE', 'ENOTFOUND', 'EAI_AGAIN', 'EHOSTUNREACH', 'ENETUNREACH', 'UND_ERR_SOCKET', 'UND_ERR_CONNECT_TIMEOUT', 'UND_ERR_HEADERS_TIMEOUT', 'UND_ERR_BODY_TIMEOUT', 'UND_ERR_ABORTED', 'UND_ERR_CLOSED', 'ERR_STREAM_PREMATURE_CLOSE', 'CERT_HAS_EXPIRED', 'DEPTH_ZERO_SELF_SIGNED_CERT', 'ERR_TLS_CERT_ALTNAME_INVALID', 'HPE_INVALID_CONSTANT', 'ABORT_ERR', 'ERR_INVALID_URL'];
export const failure = fc.oneof(
  fc.record({ kind: fc.constantFrom('type', 'syntax', 'abort', 'timeout', 'code', 'string', 'undefined', 'null', 'object', 'error'), message: fc.constantFrom('fetch failed', '', 'ECONNRESET', 'Unexpected token < in JSON', 'socket hang up', 'boom') }),
  fc.record({ kind: fc.constantFrom('cause', 'cause', 'cause', 'code', 'aggregate'), message: fc.constantFrom('fetch failed', 'fetch failed', 'terminated', 'Failed to fetch', 'NetworkError when attempting to fetch resource.', 'Load failed'), code: fc.constantFrom(...CODES) }),
);
export const brokenJson = fc.oneof(fc.constantFrom('', ' ', '{', '{"id":', '{"id":"x"', '<html>502</html>', 'OK', 'undefined', "{'id':1}", '{"a":1}}', '{"a":1} trailing', 'NaN', '[1,'), fc.string({ minLength: 1, maxLength: 12 })).filter((s) => { if (s.includes('\ufeff')) return false; try { JSON.parse(s); return false; } catch { return true; } });

// Calls paired with a success body for that operation.
export const answered = (list = allOps) => callOf(list).chain((call) => replyOf(call.op).map((reply) => ({ call, reply })));
