import { readFileSync } from 'node:fs';
import { check, fc } from '../lib/env.mjs';
import { names, spoilings, typedCall, weight } from '../lib/typed.mjs';
import { toSource } from '../lib/source.mjs';
import { CONFIGS, judge, typeOf } from '../lib/typing.mjs';

const { answers, events, exported } = JSON.parse(readFileSync(new URL('../lib/typing.json', import.meta.url), 'utf8'));
const HEAD = `import * as React from 'react';
import { Resend, type WebhookEventPayload } from 'resend';
declare const resend: Resend;
declare function Part(p: { text: string; n: number; children?: React.ReactNode }): React.ReactNode;
`;
const config = fc.constantFrom(...Object.keys(CONFIGS));
const CHAINS = new Set(['templates.create', 'templates.duplicate']);

// A program of statements that must, or must not, compile: [whether it must, what it is, source].
function program(cfg, statements) {
  let text = HEAD;
  const starts = [];
  for (const [i, [, , source]] of statements.entries()) { starts.push(text.length); text += `export async function f${i}() { ${source} }\n`; }
  const problems = new Map();
  for (const d of judge(cfg, text)) {
    const i = starts.findLastIndex((s) => s <= d.start);
    if (!problems.has(i)) problems.set(i, d);
  }
  check(!problems.has(-1), () => `the package cannot be imported (${cfg}): ${problems.get(-1).message}`);
  for (const [i, [must, what, source]] of statements.entries()) {
    const d = problems.get(i);
    if (must) check(!d, () => `${what} does not compile (${cfg}): ${d.message.slice(0, 600)}\n${source.slice(0, 800)}`);
    else check(d, () => `${what} compiles (${cfg}), although it must not:\n${source.slice(0, 800)}`);
  }
}

// --- calls -------------------------------------------------------------------------------------------
// The ways in which programs tell success from failure; D and E stand for what is done with data and error.
const USES = [
  'if (r.error) { const n: null = r.data; E(r.error); return n; } else { const n: null = r.error; D(r.data); return n; }',
  'if (r.data) { const n: null = r.error; D(r.data); return n; } E(r.error); const n: null = r.data; return n;',
  'if (r.error !== null) throw new Error(`${r.error.name}: ${r.error.message}`); D(r.data);',
  'const { data, error, headers } = r; if (error) { const n: null = data; E(error); return n; } D(data); const h: Record<string, string> | null = headers; return h;',
  'const { data, error } = r; if (!data) { E(error); return; } D(data);',
];
const use = (n) => USES[n].replaceAll(/E\((r\.error|error)\)/g, 'const m: string = $1.message; const s: number | null = $1.statusCode; const k: string = $1.name; void [m, s, k]')
  .replaceAll(/D\((r\.data|data)\)/g, 'const d: object = $1; void d');
const call = fc.constantFrom(...names.flatMap((n) => Array(weight(n)).fill(n))).chain((name) => fc.record({ name: fc.constant(name), args: typedCall(name), more: fc.array(typedCall(name), { maxLength: 5 }), use: fc.nat(USES.length - 1), publish: fc.boolean(), spoil: fc.array(fc.tuple(fc.nat(), fc.nat()), { maxLength: 12 }) }));
const made = ({ name, args, publish }) => `resend.${name}(${toSource(args).slice(1, -1)})${publish && CHAINS.has(name) ? '.publish()' : ''}`;
// Without the DOM library the compiler does not know what headers are.
const judgeable = (cfg, [kind, what]) => cfg === 'bundler' || !(kind === 'wrong kind' && /\.headers$/.test(what));
// The generic parameter of the batch options keeps the compiler from looking for unknown fields there.
const open = (name, [kind, what]) => name.startsWith('batch.') && /extra|misspelled/.test(kind) && /at 1$/.test(what);
function calls({ config: cfg, calls: list }) {
  const statements = [];
  for (const c of list) {
    statements.push([true, `a valid call of ${c.name}`, `const r = await ${made(c)}; ${use(c.use)}`]);
    for (const args of c.more) statements.push([true, `a valid call of ${c.name}`, `await resend.${c.name}(${toSource(args).slice(1, -1)});`]);
    const ways = Map.groupBy(spoilings(c.name, c.args).filter((w) => judgeable(cfg, w) && !open(c.name, w)), ([kind]) => kind);
    const kinds = [...ways.keys()];
    for (const [a, b] of c.spoil) {
      const group = ways.get(kinds[a % kinds.length]);
      const [kind, what, args] = group[b % group.length];
      statements.push([false, `${c.name} with ${kind} (${what})`, `await resend.${c.name}(${toSource(args).slice(1, -1)});`]);
    }
  }
  program(cfg, statements);
}

// --- answers -----------------------------------------------------------------------------------------
const MODES = ['read', 'read', 'write', 'foreign', 'foreign', 'unknown', 'wrong', 'unchecked', 'missing'];
const reading = fc.oneof(
  { weight: 5, arbitrary: fc.constantFrom(...names).map((name) => ({ name, count: answers[name].length })) },
  { weight: 1, arbitrary: fc.constantFrom(...Object.keys(events)).map((event) => ({ event, count: events[event].length })) },
).chain(({ count, ...of }) => fc.record({ of: fc.constant(of), picks: fc.array(fc.record({ field: fc.nat(count - 1), mode: fc.constantFrom(...MODES), way: fc.nat(1), other: fc.nat() }), { minLength: 1, maxLength: 12 }) }));
// The same at many places at once, each place of any answer or event as likely as another.
const PLACES = [...names.flatMap((name) => answers[name].map((_, field) => [{ name }, field])), ...Object.keys(events).flatMap((event) => events[event].map((_, field) => [{ event }, field]))];
const place = fc.record({ place: fc.nat(PLACES.length - 1), mode: fc.constantFrom(...MODES, 'write'), way: fc.nat(1), other: fc.nat() }).map(({ place: n, ...pick }) => ({ of: PLACES[n][0], picks: [{ field: PLACES[n][1], ...pick }] }));
// The names of fields anywhere, which are no fields elsewhere.
const named = (lists) => [...new Set(lists.flat().map(([p]) => p.match(/\.(\w+)!?$/)?.[1]).filter(Boolean))];
const NAMES = named([...Object.values(answers), ...Object.values(events)]);
const SIBLINGS = Object.fromEntries(names.map((n) => [n, named(names.filter((m) => m.split('.')[0] === n.split('.')[0]).map((m) => answers[m]))]));
const WAYS = [(s) => `if (r.error) return; ${s}`, (s) => `if (r.data) { ${s} }`];
function reads({ config: cfg, reads: list }) {
  const statements = [];
  for (const { of: { name, event }, picks } of list) {
    const fields = name ? answers[name] : events[event];
    const whose = name ?? `event ${event}`;
    const holder = name ? 'r.data' : 'e';
    const within = (way, s) => (name ? `const r = await (null! as ReturnType<${typeOf(name)}>); ${WAYS[way](s)}` : `const e: WebhookEventPayload = resend.webhooks.verify({ payload: '', headers: { id: '', timestamp: '', signature: '' }, webhookSecret: '' }); if (e.type === '${event}') { ${s} }`);
    for (const { field, mode, way, other } of picks) {
      let what = whose;
      const [path, type, more, guard] = fields[field];
      const at = guard ? `u${path.slice(guard[0].length)}` : `${holder}${path}`;
      const inside = (w, s) => within(w, guard ? `const u = ${holder}${guard[0]}; if (u.${guard[1]} === '${guard[2]}') { ${s} }` : s);
      if (guard) what = `${whose} of ${guard[1]} ${guard[2]}`;
      if (type === null) {
        const deeper = fields.find(([p, t]) => t !== null && p.startsWith(`${path}!`));
        if (deeper) statements.push([false, `${what}: reading ${deeper[0]} although ${path} may be ${more}`, inside(way, `const v = ${holder}${path}${deeper[0].slice(path.length + 1)}; void v;`)]);
      } else if (guard && mode === 'missing') {
        // What only some variants have cannot be read before looking.
        const own = !fields.some(([p, , , g]) => p === path && !g);
        if (own) statements.push([false, `${whose}: reading ${path} without looking at ${guard[1]}`, within(way, `const v = ${holder}${path}; void v;`)]);
      } else if (mode === 'foreign' && !guard && !name?.startsWith('batch.') && /\.\w+$/.test(path)) {
        const object = path.replace(/\.\w+$/, '');
        const near = name ? SIBLINGS[name] : NAMES;
        for (const alien of new Set([0, 1, 2].flatMap((k) => [NAMES[(other + 7 * k) % NAMES.length], near[(other + k) % near.length]]))) {
          if (!fields.some(([p]) => p.startsWith(`${object}.${alien}`) && /^(?:$|[.![])/.test(p.slice(object.length + 1 + alien.length)))) statements.push([false, `${what}: reading ${alien}, which is no field of ${object || 'data'},`, inside(way, `const v = ${holder}${object}.${alien}; void v;`)]);
        }
      } else if (mode === 'read') statements.push([true, `${what}: reading ${path} as ${type}`, inside(way, `const v: ${type} = ${at}; void v;`)]);
      else if (mode === 'write' && !more) statements.push([true, `${what}: ${path} being any ${type}`, inside(way, `let v = ${at}; v = null! as ${type}; void v;`)]);
      else if (mode === 'write') { if (!(event && path === '.type')) statements.push([true, `${what}: ${path} taking any ${type}`, inside(way, `${at.replace(/!$/, '')} = null! as ${type};`)]); }
      else if (mode === 'unknown' && !name?.startsWith('batch.')) statements.push([false, `${what}: reading an unknown field below ${path}`, inside(way, `const v = ${at}.noSuchField; void v;`)]);
      else if (mode === 'wrong') statements.push([false, `${what}: reading ${path} as something else`, inside(way, `const v: { nothing: 'of the kind' } = ${at}; void v;`)]);
      else if (mode === 'unchecked' && name && !guard) statements.push([false, `${what}: reading ${path} without looking at error`, `const r = await (null! as ReturnType<${typeOf(name)}>); const v = ${at}; void v;`]);
    }
  }
  program(cfg, statements);
}

// --- names and the client itself -----------------------------------------------------------------------
const CLIENT = [
  [true, "new Resend('re_1')"], [true, 'new Resend()'], [true, "new Resend('re_1', {})"], [true, "new Resend('re_1', { baseUrl: 'https://x.test' })"], [true, "new Resend(undefined, { baseUrl: 'https://x.test', userAgent: 'x/1' })"], [true, "new Resend(process.env.RESEND_API_KEY, { userAgent: undefined })"],
  [false, 'new Resend(7)'], [false, 'new Resend(null)'], [false, "new Resend('re_1', { baseURL: 'https://x.test' })"], [false, "new Resend('re_1', { baseUrl: 7 })"], [false, "new Resend('re_1', 'https://x.test')"], [false, "new Resend('re_1', {}, {})"],
  [false, "resend.baseUrl = 'https://x.test'"], [false, "resend.userAgent = 'x'"], [false, 'resend.emails = resend.emails'], [false, 'resend.noSuchResource'], [false, 'resend.emails.noSuchOperation()'], [false, 'resend.webhooks.verify({})'],
  [false, "resend.webhooks.verify({ payload: {}, headers: { id: '', timestamp: '', signature: '' }, webhookSecret: '' })"], [false, "resend.webhooks.verify({ payload: '', headers: { id: '', timestamp: '' }, webhookSecret: '' })"], [false, "resend.webhooks.verify({ payload: '', headers: { id: '', timestamp: '', signature: '' } })"],
  [true, "(await resend.get<{ a: 1 }>('/x')).data?.a"], [true, "(await resend.post<{ a: 1 }>('/x', { y: 1 }, { idempotencyKey: 'k' })).data?.a"], [true, "(await resend.put<{ a: 1 }>('/x', { y: 1 }, {})).data?.a"], [true, "(await resend.patch<{ a: 1 }>('/x', [])).data?.a"], [true, "(await resend.delete<{ a: 1 }>('/x')).data?.a"],
  [false, "(await resend.get<{ a: 1 }>('/x')).data.a"], [false, "(await resend.get<{ a: 1 }>('/x')).data?.b"], [false, 'resend.get()'],
  [true, "(await resend.batch.send([], { batchValidation: 'permissive' })).data?.errors[0]?.message.length"], [true, "(await resend.batch.create([], { batchValidation: 'permissive', idempotencyKey: 'k' })).data?.errors.map((e) => e.index + 1)"], [true, "(await resend.batch.send([], { batchValidation: 'strict' })).data?.data.map((e) => e.id)"],
  [false, "(await resend.batch.send([], { batchValidation: 'strict' })).data?.errors[0].message"], [false, '(await resend.batch.send([])).data?.errors[0].message'], [false, "(await resend.batch.send([{ from: 'a@b.co', to: 'a@b.co', subject: '', text: '', attachments: [] }]))"], [false, "resend.post('/x', {}, { idempotencyKey: 7 })"],
  ...['invalid_idempotency_key', 'validation_error', 'missing_api_key', 'restricted_api_key', 'invalid_api_key', 'not_found', 'method_not_allowed', 'invalid_idempotent_request', 'concurrent_idempotent_requests', 'invalid_attachment', 'invalid_from_address', 'invalid_access', 'invalid_parameter', 'invalid_region', 'missing_required_field', 'monthly_quota_exceeded', 'daily_quota_exceeded', 'rate_limit_exceeded', 'security_error', 'application_error', 'internal_server_error'].map((n) => [true, `(await resend.emails.get('x')).error?.name === '${n}'`]),
  [false, "(await resend.emails.get('x')).error?.name === 'no_such_error'"], [false, "(await resend.emails.get('x')).error.name"], [false, "(await resend.emails.get('x')).headers.a"], [true, "(await resend.emails.get('x')).headers?.['x-y']?.length"], [true, "(await resend.emails.get('x')).error?.statusCode?.toFixed()"], [false, "(await resend.emails.get('x')).error?.statusCode.toFixed()"],
];
const imports = fc.record({ config, names: fc.uniqueArray(fc.nat(exported.length - 1), { minLength: 1, maxLength: 60 }), client: fc.array(fc.nat(CLIENT.length - 1), { maxLength: 20 }) });
function importing({ config: cfg, names: picks, client }) {
  const of = (kind) => picks.map((i) => exported[i]).filter(([, value]) => value === kind).map(([n]) => n);
  program(cfg, [...of(true).map((n) => [true, `the exported value ${n}`, `const v: unknown = (await import('resend')).${n}; void v;`]), ...client.map((i) => [CLIENT[i][0], CLIENT[i][1], `void (${CLIENT[i][1]});`])]);
  const problems = judge(cfg, of(false).map((n) => `export type { ${n} } from 'resend';\n`).join(''));
  check(problems.length === 0, () => `exported type names (${cfg}): ${problems[0].message}`);
}

export default {
  id: 'C44',
  rule: 'programs of up to 48 valid calls each (any operation, arguments from the reference model within what the types document), with the result told apart in one of five ways, and up to twelve spoilings of each call (missing, misspelled, extra or wrongly typed field, wrong choice, too few or many arguments, none of several alternatives); programs that read and assign fields of answers and webhook events in every documented place, or wrongly; imports of exported names; all for ESM, CommonJS and bundler consumers in strict mode; non-trivial: always.',
  assumptions: ['lib/typing.json and the generators of the reference model transcribe the documented types; consumers compile in strict mode with skipLibCheck'],
  subs: [
    { name: 'calls', arb: fc.record({ config, calls: fc.array(call, { minLength: 1, maxLength: 8 }) }), runs: [1200, 9000], test: calls, classify: (c) => c.calls.map((x) => x.name) },
    { name: 'answers', arb: fc.record({ config, reads: fc.array(reading, { minLength: 1, maxLength: 6 }) }), runs: [400, 4000], test: reads },
    { name: 'places', arb: fc.record({ config, reads: fc.array(place, { minLength: 1, maxLength: 400, size: 'max' }) }), runs: [350, 2500], test: reads },
    { name: 'names', arb: imports, runs: [120, 800], test: importing },
  ],
};
