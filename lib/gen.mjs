// Generators. Everything generated is plain data (v8-serialisable); React elements, Buffers,
// Blobs and Headers are markers that materialise() turns into the real thing inside a case.
import { freshBetween, spiced, spicedNumber } from './dictionary.mjs';
import { fc } from './env.mjs';
import { setOwn } from './equal.mjs';

const POOL = [
  '', ' ', '0', 'false', 'null', 'undefined', 'NaN', ' padded ', '\ttab\n', 'line1\r\nline2', 'ÀÉÎ', '日本語', '😀👩‍👩‍👧', 'a\u0301', '\u00e9', 'ﬁ', 'İı',
  '%41', '%', '%2F', '%zz', 'a/b', '../x', '?x=1&y=2', '#frag', 'a+b', 'a b', '&amp;', '<b>x</b>', '"quoted"', "o'neil", '\\', 'back\\slash', '\u0000', '\u2028\u2029',
  '\ufeffbom', '__proto__', 'constructor', 'toString', 'hasOwnProperty', '{{{NAME}}}', '{{x}}', '${x}', 'Fwd: x', 'RE: x', 'data:text/plain;base64,QQ==',
  'https://example.com/a?b=c#d', 'in 1 min', '2024-01-01T00:00:00.000Z', '-1', '1e3', 'A@B.COM', 'user+tag@Example.COM', 'Name <a@b.co>', '"Q, N" <a@b.co>', 'a@b.co, c@d.co',
  'true', '[]', '{}', '123456789012345678901234567890', ';', ',', 'a,b', ' lead', 'trail ', 'a  b', '\n', 'UPPER', 'MiXeD', 'snake_case', 'camelCase',
];
const LENGTHS = [49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 254, 255, 256, 257, 320, 499, 500, 501, 511, 512, 513, 998, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5001, 8193, 10001, 16385, 32769, 65537, ...freshBetween(1, 200_000)];

const longOf = (unit) => fc.tuple(unit, fc.constantFrom(...LENGTHS)).map(([s, n]) => (s || 'x').repeat(Math.ceil(n / (s || 'x').length)).slice(0, n));

// Any string whose UTF-16 is well formed.
export const wellFormed = spiced(fc.oneof(
  { weight: 6, arbitrary: fc.string({ unit: 'grapheme', maxLength: 20 }) },
  { weight: 3, arbitrary: fc.string({ unit: 'binary', maxLength: 16 }) },
  { weight: 4, arbitrary: fc.string({ maxLength: 30 }) },
  { weight: 6, arbitrary: fc.constantFrom(...POOL) },
  { weight: 1, arbitrary: fc.tuple(fc.constantFrom(...POOL), fc.constantFrom(...POOL)).map(([a, b]) => a + b) },
)).filter((s) => s.isWellFormed());

export const longWellFormed = longOf(fc.constantFrom('a', 'ab ', 'é', '日', '😀', '<p>x</p>', '/', '%', '\n', 'x@y.z,')).map((s) => s.toWellFormed().replaceAll('\ufffd', '-'));

// Any string at all, as a field of a JSON body.
export const str = fc.oneof(
  { weight: 30, arbitrary: wellFormed },
  { weight: 1, arbitrary: longWellFormed },
  { weight: 1, arbitrary: fc.string({ unit: fc.integer({ min: 0xd7fe, max: 0xe001 }).map((n) => String.fromCharCode(n)), maxLength: 4 }) },
);
export const nonEmpty = wellFormed.filter((s) => s.length > 0);
export const huge = fc.constantFrom(100_001, 131_073, 262_145, 400_000, 1_048_577).map((n) => 'h'.repeat(n - 5) + '<end>');
export const content = fc.oneof({ weight: 120, arbitrary: str }, { weight: 1, arbitrary: huge });

const idChars = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_';
// Server-issued opaque ids: URL-safe, case-sensitive, of any length; words that are route names too.
export const id = spiced(fc.oneof(
  { weight: 4, arbitrary: fc.uuid() },
  { weight: 1, arbitrary: fc.uuid().chain((s) => fc.constantFrom(s.toUpperCase(), s.replaceAll('-', ''))) },
  { weight: 4, arbitrary: fc.string({ unit: fc.constantFrom(...idChars), minLength: 1, maxLength: 40 }) },
  { weight: 2, arbitrary: fc.constantFrom('0', '1', 'null', 'undefined', 'false', 'NaN', 'metrics', 'batch', 'receiving', 'imports', 'claim', 'contacts', 'segments', 'topics', 'send', 'id', 'me', 'all', 'ABC', 'abc', '-', '_', '__proto__', 'constructor', 'a.b', 'a~b', '00', '1e3', 'eyJ.abc-DEF_ghi') },
  { weight: 1, arbitrary: fc.integer({ min: 41, max: 300 }).map((n) => 'z'.repeat(n - 1) + 'Q') },
  { weight: 1, arbitrary: fc.array(fc.string({ unit: fc.constantFrom(...idChars), minLength: 1, maxLength: 6 }), { minLength: 2, maxLength: 4 }).chain((xs) => fc.constantFrom('.', '~', '_', '-', '..', '__').map((j) => xs.join(j))) },
), (w) => /^[\w.~-]+$/.test(w) && w !== '.' && w !== '..');

// Free-form identifiers: non-empty, well formed, not "." or "..".
export const freeId = fc.oneof(
  { weight: 5, arbitrary: nonEmpty },
  { weight: 3, arbitrary: fc.string({ unit: fc.constantFrom('a', 'B', '/', '?', '#', '%', '&', '+', ' ', '.', '@', '=', ';', ':', '\\', '2', 'F', 'é', '😀', "'", '"', '<', '|', '{', '^', '`', '!', '*', '(', '~', ',', '$', '[', '\n', '\t', '\u0000', '\u007f'), minLength: 1, maxLength: 8 }) },
  { weight: 2, arbitrary: fc.emailAddress() },
  { weight: 2, arbitrary: id },
  { weight: 3, arbitrary: fc.constantFrom('user+tag@example.com', 'a/b@example.com', 'a?b@x.co', 'a#b@x.co', '100%@x.co', '%40', 'a%2Fb@x.co', '"a b"@x.co', 'user@EXAMPLE.com', 'ü@exämple.de', '用户@例子.广告', '...', '.a', 'a.', './a', '../a', 'a/../b', '%2e', '%2E%2e', '//', '/', 'user.signed_up', 'order/created', 'événement', ' ', 'a b', 'welcome-email', 'a@b@c', "o'hara@x.co", 'x&y=z@q.co', 'a=b@c.d') },
  { weight: 1, arbitrary: longWellFormed },
).filter((s) => s.length > 0 && s !== '.' && s !== '..' && s.isWellFormed());

export const email = fc.oneof(
  { weight: 3, arbitrary: fc.emailAddress() },
  { weight: 3, arbitrary: fc.constantFrom('a@b.co', 'A@B.CO', 'a@b.co ', ' a@b.co', 'Name <a@b.co>', '"Last, First" <a@b.co>', 'Ünï <ü@exämple.de>', 'a+b@c.de', 'a.b@gmail.com', 'ab@gmail.com', 'delivered@resend.dev', 'user@EXAMPLE.com', '用户@例子.广告', 'a@b.co,c@d.co', 'x@münchen.de', 'not-an-email', '<a@b.co>', 'Name<a@b.co>', '{{{FROM}}}') },
  { weight: 1, arbitrary: str },
);
const manyLen = fc.constantFrom(49, 50, 51, 52, 99, 100, 101, 120, 256, ...freshBetween(6, 2000));
// Long lists are of small elements: n, or fewer so that the whole stays below `total`.
export const fewer = (n, xs, total) => { const size = Math.max(...xs.map((x) => JSON.stringify(x)?.length ?? 0)); return size * n <= total ? n : Math.max(3, Math.floor(total / size)); };
// Lists: usually short, with duplicates, sometimes beyond any plausible limit.
export const list = (arb, { min = 0, max = 5 } = {}) => fc.oneof(
  { weight: 14, arbitrary: fc.array(arb, { minLength: min, maxLength: max }) },
  { weight: 2, arbitrary: fc.tuple(fc.array(arb, { minLength: 1, maxLength: 3 }), fc.integer({ min: 2, max: 5 }), fc.boolean()).map(([xs, n, one]) => Array.from({ length: Math.max(n, xs.length) }, (_, i) => (one ? xs[i % xs.length] : structuredClone(xs[i % xs.length])))) },
  { weight: 1, arbitrary: fc.tuple(fc.array(arb, { minLength: 1, maxLength: 3 }), manyLen).map(([xs, n]) => Array.from({ length: fewer(n, xs, 400_000) }, (_, i) => xs[i % xs.length])) },
);
export const recipients = fc.oneof(email, list(email));

export const bool = fc.boolean();
export const num = spicedNumber(fc.oneof(
  { weight: 3, arbitrary: fc.integer() },
  { weight: 2, arbitrary: fc.double({ noNaN: true, noDefaultInfinity: true }) },
  { weight: 4, arbitrary: fc.constantFrom(0, -0, 1, -1, 0.1, 0.5, 1.005, 100, 1e21, 1e-7, 2 ** 31, 2 ** 53, Number.MAX_SAFE_INTEGER, Number.MIN_SAFE_INTEGER, Number.MAX_VALUE, 5e-324) },
));
export const key = spiced(fc.oneof(
  { weight: 6, arbitrary: fc.string({ minLength: 0, maxLength: 12 }) },
  { weight: 4, arbitrary: fc.constantFrom('__proto__', 'constructor', 'toJSON', 'toString', 'length', 'firstName', 'first_name', 'company_name', 'Plan', 'a b', '', '0', '10', '2', 'id', 'email', 'react', 'html', 'X-Entity-Ref-ID', 'camelCaseKey', 'type', 'data', 'error', 'key', '日本') },
)).filter((k) => k.isWellFormed() && k !== 'toJSON');
// Objects: usually of a few keys, now and then of very many.
const wide = (value) => fc.tuple(fc.constantFrom(21, 26, 33, 51, 65, 101, 129, 201, 257, 300, ...freshBetween(6, 2000)), fc.constantFrom('k', 'field_', 'Key', ''), fc.array(value.filter((v) => (JSON.stringify(v)?.length ?? 0) < 100), { minLength: 1, maxLength: 3 })).map(([n, p, vs]) => Array.from({ length: n }, (_, i) => [`${p}${i}`, vs[i % vs.length]]));
export const dict = (value, { min = 0, max = 5 } = {}) => fc.oneof({ weight: 60, arbitrary: fc.uniqueArray(fc.tuple(key, value), { selector: ([k]) => k, minLength: min, maxLength: max }) }, { weight: 1, arbitrary: wide(value) })
  .map((pairs) => pairs.reduce((o, [k, v]) => setOwn(o, k, v), {}));
export const json = fc.letrec((tie) => ({
  leaf: fc.oneof(str, num, bool, fc.constant(null)),
  node: fc.oneof({ depthSize: 'small', maxDepth: 4, withCrossShrink: true }, tie('leaf'), fc.array(tie('node'), { maxLength: 4 }), dict(tie('node'), { max: 4 })),
})).node;
export const jsonObject = dict(json, { max: 6 });

export const ABSENT = '\u0000absent\u0000';
// Records: required fields always there, optional ones absent, explicitly undefined, or a value.
export function rec(required, optional = {}, { undef = true } = {}) {
  const keys = [...Object.keys(required), ...Object.keys(optional)];
  const arbs = [
    ...Object.values(required),
    ...Object.values(optional).map((a) => fc.oneof(
      { weight: 4, arbitrary: fc.constant(ABSENT) },
      { weight: undef ? 1 : 0, arbitrary: fc.constant(undefined) },
      { weight: 6, arbitrary: a },
    )),
  ];
  return fc.tuple(fc.oneof({ weight: 2, arbitrary: fc.constantFrom(0, -1) }, { weight: 1, arbitrary: fc.nat(1e6) }), ...arbs).map(([order, ...values]) => {
    const entries = keys.map((k, i) => [k, values[i]]).filter(([, v]) => v !== ABSENT);
    if (order < 0) entries.reverse();
    else if (order > 0) for (let i = entries.length - 1, r = order; i > 0; i--) { const j = r % (i + 1); r = (r * 48271) % 2147483647; [entries[i], entries[j]] = [entries[j], entries[i]]; }
    return entries.reduce((o, [k, v]) => setOwn(o, k, v), {});
  });
}

// --- request options -----------------------------------------------------------------------
const tokenChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~";
const RESERVED = /^(?:authorization|user-agent|content-type|idempotency-key|x-batch-validation|host|connection|keep-alive|content-.*|transfer-encoding|accept-.*|access-control-.*|expect|date|dnt|te|trailer|upgrade|via|origin|referer|cookie.*|sec-.*|proxy-.*|__proto__)$/i;
const ordinaryHeader = (w) => /^[\w.!#$%&'*+^`|~-]+$/.test(w) && !(RESERVED.test(w) && !/^(?:cookie|accept-language)$/i.test(w));
export const headerName = spiced(fc.oneof(
  { weight: 3, arbitrary: fc.string({ unit: fc.constantFrom(...tokenChars), minLength: 1, maxLength: 12 }).map((s) => `X-${s}`) },
  { weight: 3, arbitrary: fc.constantFrom('X-Custom', 'x-custom', 'X-CUSTOM', 'Accept', 'X-Entity-Ref-ID', 'X-Request-Id', 'Cache-Control', 'Cookie', 'Accept-Language', 'X-Forwarded-For', 'traceparent', 'X-Api-Version') },
), ordinaryHeader);
export const defaultHeaderName = fc.constantFrom('Authorization', 'authorization', 'AUTHORIZATION', 'User-Agent', 'user-agent', 'Content-Type', 'content-type', 'CONTENT-TYPE');
export const headerValue = spiced(fc.oneof(
  fc.string({ unit: fc.integer({ min: 0x21, max: 0x7e }).map((n) => String.fromCharCode(n)), maxLength: 20 }),
  fc.constantFrom('', '0', 'a b', 'a, b', 'text/plain; charset=utf-8', 'application/vnd.api+json', 'Bearer other', 'é', 'x'.repeat(300), 'v'.repeat(1025), 'w'.repeat(4097), '%41', '"q"', 'a=b; c=d'),
), (w) => /^[\u0021-\u007e\u00e9 ]*$/.test(w) && w === w.trim());
// More headers than anyone counts on.
export const manyHeaders = fc.tuple(fc.constantFrom(9, 10, 11, 16, 17, 20, 21, 33, 50, 65, 101, ...freshBetween(5, 200)), fc.array(headerValue, { minLength: 1, maxLength: 3 }), fc.constantFrom('X-H', 'x-meta-', 'Custom-')).map(([n, vs, p]) => Array.from({ length: n }, (_, i) => [`${p}${i}`, vs[i % vs.length]]));
export const headers = (name = headerName, { max = 4 } = {}) => fc.record({
  $headers: fc.constantFrom('object', 'pairs', 'Headers'),
  entries: fc.oneof({ weight: 30, arbitrary: fc.uniqueArray(fc.tuple(name, headerValue), { selector: ([k]) => k.toLowerCase(), maxLength: max }) }, { weight: 1, arbitrary: manyHeaders }),
});
export const idemKey = spiced(fc.oneof(
  { weight: 4, arbitrary: fc.uuid() },
  { weight: 1, arbitrary: fc.uuid().map((s) => s.toUpperCase()) },
  { weight: 4, arbitrary: fc.string({ unit: fc.integer({ min: 0x21, max: 0x7e }).map((n) => String.fromCharCode(n)), minLength: 1, maxLength: 40 }) },
  { weight: 3, arbitrary: fc.constantFrom('0', 'welcome-user/123456789', 'A', 'a', 'a b', 'a, b', 'false', 'null', 'clé-é', '%20', '"q"', 'key=1;2', 'UPPER-lower', 'a  b') },
  { weight: 1, arbitrary: fc.constantFrom(64, 65, 128, 129, 255, 256, 257, 300, 512, 1024, 1025, 2049, 4097).map((n) => 'k'.repeat(n - 1) + 'Z') },
), (w) => /^[\u0021-\u007e\u00e9 ]+$/.test(w) && w === w.trim());

// --- React -----------------------------------------------------------------------------------
export const reactText = fc.oneof(fc.string({ maxLength: 20 }), fc.constantFrom('hello', '<script>', '&amp;', '日本語', '😀', "it's", '  ', 'a\nb', '{{{NAME}}}', '0')).filter((s) => s.isWellFormed() && !s.includes('\u0000'));
const reactLeaf = fc.record({ $react: fc.constantFrom('plain', 'list', 'link', 'counter', 'fragment', 'memo', 'klass', 'host', 'async', 'slow', 'context', 'string', 'array'), text: reactText, n: fc.integer({ min: 0, max: 5 }) });
export const react = fc.oneof(
  { weight: 12, arbitrary: reactLeaf },
  { weight: 3, arbitrary: fc.tuple(reactLeaf, fc.array(reactLeaf, { maxLength: 3 })).map(([a, kids]) => ({ ...a, kids })) },
  { weight: 1, arbitrary: fc.record({ $react: fc.constant('big'), text: reactText, n: fc.integer({ min: 50, max: 400 }) }) },
  { weight: 1, arbitrary: fc.record({ $react: fc.constant('wide'), text: reactText, n: fc.integer({ min: 1, max: 60 }) }) },
);

const patterned = (sizes) => fc.tuple(fc.uint8Array({ minLength: 1, maxLength: 32 }), fc.constantFrom(...sizes, ...freshBetween(65, 2_000_000))).map(([u, n]) => Uint8Array.from({ length: n }, (_, i) => u[i % u.length] ^ (i >> 5 & 255)));
// Beyond what fits into the arguments of one function call, and not divisible by three.
export const hugeBytes = patterned([70_001, 131_072, 131_073, 196_609, 262_145, 524_289, 1_048_577]);
export const bytes = fc.oneof(
  { weight: 160, arbitrary: fc.uint8Array({ maxLength: 64 }) },
  { weight: 40, arbitrary: fc.oneof(fc.string({ maxLength: 30 }), wellFormed).map((s) => new Uint8Array(new TextEncoder().encode(s))) },
  { weight: 20, arbitrary: patterned([1024, 3000, 4097, 16385, 65537]) },
  { weight: 1, arbitrary: hugeBytes },
);
export const isoDate = fc.oneof(
  fc.date({ noInvalidDate: true, min: new Date('1990-01-01'), max: new Date('2100-01-01') }).map((d) => d.toISOString()),
  fc.constantFrom('in 1 min', 'in 1 hour', 'tomorrow at 9am', '2024-08-05T11:52:01.858Z', '2025-01-01T00:00:00+05:30', '2025-01-01', 'now', '', ' ', 'IN 1 MIN'),
);
