// Which generated calls the public types accept, and how to spoil one so that they must not.
import { fc } from './env.mjs';
import { FORWARD } from './forward.mjs';
import { find, ops } from './ops.mjs';
import { Verbatim } from './source.mjs';

const has = (v) => v !== undefined && v !== null;
const one = (a, b) => ([p]) => typeof p === 'string' || has(p[a]) !== has(p[b]);
const idOrEmail = one('id', 'email');
const contactOrEmail = one('contactId', 'email');
// The reference model also makes calls that work although the types are narrower. The types accept:
const NARROWER = {
  'broadcasts.create': ([p]) => p.scheduledAt === undefined || p.send === true,
  'broadcasts.recipients': ([, o]) => o.bounceType === undefined || o.type === 'bounced',
  'suppressions.batch.remove': one('ids', 'emails'),
  'automations.runs.list': ([o]) => ![o.status].flat().includes('skipped'),
  'contacts.create': ([p]) => ('audienceId' in p ? has(p.audienceId) && !('segments' in p) && !('topics' in p) : true),
  'contacts.get': idOrEmail, 'contacts.remove': idOrEmail, 'contacts.update': idOrEmail,
  'contacts.segments.list': contactOrEmail, 'contacts.segments.add': contactOrEmail, 'contacts.segments.remove': contactOrEmail,
  'events.send': one('contactId', 'email'),
  [FORWARD]: ([p]) => p.passthrough !== false || has(p.text) || has(p.html),
};
const OBJECT = new Set(Object.getOwnPropertyNames(Object.prototype));
const marker = (v) => v instanceof Uint8Array || v instanceof Verbatim || v.$react || v.$buf || v.$blob || v.$headers;
const plainObject = (v) => v !== null && typeof v === 'object' && !Array.isArray(v) && !marker(v);
// The compiler gives literals with a key such as "constructor" the types of Object's own members.
const strangeKey = (v) => v !== null && typeof v === 'object' && !marker(v) && (Array.isArray(v) ? v.some(strangeKey) : Object.keys(v).some((k) => OBJECT.has(k) || strangeKey(v[k])));
const size = (v) => (typeof v === 'string' ? v.length : v === null || typeof v !== 'object' ? 4 : v instanceof Uint8Array ? 4 * v.length : (Array.isArray(v) ? v : Object.values(v)).reduce((n, x) => n + 4 + size(x), 0));
export const accepted = (name, args) => !(NARROWER[name] && !NARROWER[name](args)) && !strangeKey(args) && size(args) < 6000;
export const names = [...ops.keys(), FORWARD];
const argsOf = new Map(names.map((n) => [n, find(n).args.filter((a) => accepted(n, a))]));
export const typedCall = (name) => argsOf.get(name);

// --- what the generators say about every place of an argument list ---------------------------------
const DICTS = new Set(['headers', 'variables', 'properties', 'payload', 'schema']);
const ENUMS = new Set(['region', 'tls', 'type', 'subscription', 'onConflict', 'status', 'batchValidation', 'operator', 'granularity', 'metrics', 'dimensions', 'origin', 'events', 'permission', 'sending', 'receiving', 'defaultSubscription', 'bounceType', 'html_format']);
const kindOf = (v) => (v === null ? 'null' : Array.isArray(v) ? 'array' : v instanceof Uint8Array ? 'buffer' : typeof v === 'object' ? (marker(v) ? `$${Object.keys(v).find((k) => k.startsWith('$'))}` : 'object') : typeof v);
const label = (o) => `${typeof o.type === 'string' ? `{${o.type}${o.type === 'rule' ? `:${o.operator}` : ''}}` : ''}${o.template ? '{template}' : ''}`;
// Rules within rules are as those outside.
const flat = (path) => path.replace(/(\{(and|or)\}\.rules\[\])+$/, '');
function* walk(v, path, keys) {
  if (Array.isArray(v)) { for (const [i, x] of v.entries()) yield* walk(x, flat(`${path}[]`), [...keys, i]); return; }
  yield { path, keys, value: v };
  if (!plainObject(v)) return;
  const dict = DICTS.has(String(keys.at(-1)));
  if (dict) return;
  for (const k of Object.keys(v)) yield* walk(v[k], `${path}${label(v)}.${k}`, [...keys, k]);
}
const places = new Map();
const ENOUGH = 60; // samples of a place before anything is concluded from them
function schema(name) {
  if (!places.has(name)) {
    const table = { lengths: new Set(), at: new Map() };
    for (const args of fc.sample(argsOf.get(name), { numRuns: 800, seed: 11 })) {
      table.lengths.add(args.length);
      const seen = (path) => { if (!table.at.has(path)) table.at.set(path, { kinds: new Set(), times: 0, objects: 0, present: new Map(), known: new Set() }); return table.at.get(path); };
      const top = (v, path, keys) => {
        seen(path).kinds.add(kindOf(v));
        seen(path).times++;
        if (Array.isArray(v)) { for (const [i, x] of v.entries()) top(x, flat(`${path}[]`), [...keys, i]); return; }
        if (!plainObject(v) || DICTS.has(String(keys.at(-1)))) return;
        const here = seen(`${path}${label(v)}`);
        here.objects++;
        const all = seen(path);
        if (all !== here) { all.objects++; if (v.type !== undefined) all.present.set('type', (all.present.get('type') ?? 0) + 1); }
        for (const k of Object.keys(v)) { here.known.add(k); if (v[k] !== undefined) here.present.set(k, (here.present.get(k) ?? 0) + 1); top(v[k], `${path}${label(v)}.${k}`, [...keys, k]); }
      };
      for (const [i, a] of args.entries()) top(a, `${i}`, [i]);
    }
    places.set(name, table);
  }
  return places.get(name);
}
// How much there is to spoil in an operation's arguments.
export const weight = (name) => 1 + Math.min(6, Math.ceil(schema(name).at.size / 12));
const put = (v, [k, ...rest], f) => {
  if (k === undefined) return f(v);
  if (Array.isArray(v)) return v.map((x, i) => (i === k ? put(x, rest, f) : x));
  return Object.fromEntries(Object.entries(v).map(([n, x]) => [n, n === k ? put(x, rest, f) : x]));
};
const without = (k) => (o) => Object.fromEntries(Object.entries(o).filter(([n]) => n !== k));
const respell = (k) => (/_/.test(k) ? k.replace(/_(\w)/g, (_, c) => c.toUpperCase()) : /[A-Z]/.test(k) ? k.replace(/[A-Z]/g, (c) => `_${c.toLowerCase()}`) : `${k}s`);
const OTHERS = [['number', 7], ['boolean', true], ['string', 'x'], ['null', null], ['object', { some: 1 }], ['array', [7]], ['Date', new Verbatim('new Date(0)')]];
// Where one of several fields is needed.
const CHOICES = {
  'emails.send': ['html', 'text', 'react', 'template'], 'emails.create': ['html', 'text', 'react', 'template'], 'broadcasts.create': ['html', 'text', 'react'], 'templates.create': ['html', 'react'],
  'contacts.get': ['id', 'email'], 'contacts.remove': ['id', 'email'], 'contacts.update': ['id', 'email'],
  'contacts.segments.list': ['contactId', 'email'], 'contacts.segments.add': ['contactId', 'email'], 'contacts.segments.remove': ['contactId', 'email'], 'events.send': ['contactId', 'email'], 'suppressions.batch.remove': ['ids', 'emails'],
};
// Where one field excludes another.
const APART = [['after', 'before'], ['template', 'html'], ['template', 'text'], ['template', 'react']];
const APART_IN = {
  'emails.metrics': [['emailId', 'broadcastId']],
  'contacts.get': [['id', 'email']], 'contacts.remove': [['id', 'email']], 'contacts.update': [['id', 'email']], 'events.send': [['contactId', 'email']], 'suppressions.batch.remove': [['ids', 'emails']],
  'contacts.segments.list': [['contactId', 'email']], 'contacts.segments.add': [['contactId', 'email']], 'contacts.segments.remove': [['contactId', 'email']],
};
// Every way to spoil this call: [kind, description, spoilt arguments].
export function spoilings(name, args) {
  const table = schema(name);
  const out = [];
  const shortest = Math.min(...table.lengths);
  const longest = Math.max(...table.lengths);
  if (shortest > 0) out.push(['few arguments', 'the last required argument is missing', args.slice(0, shortest - 1)]);
  out.push(['many arguments', 'one argument too many', [...args, ...Array.from({ length: longest - args.length }, () => undefined), {}]]);
  if (CHOICES[name] && plainObject(args[0])) {
    out.push(['no choice', `none of ${CHOICES[name]}`, [CHOICES[name].reduce((o, k) => without(k)(o), args[0]), ...args.slice(1)]]);
  }
  for (const [i, a] of args.entries()) for (const { path, keys, value } of walk(a, `${i}`, [i])) {
    const here = table.at.get(path);
    if (here?.times >= ENOUGH && has(value) && keys.at(-1) !== 'react') { // a React node may be anything
      const other = OTHERS.filter(([k]) => !here.kinds.has(k));
      for (const [k, v] of other) out.push(['wrong kind', `${k} at ${path}`, put(args, keys, () => v)]);
      if (typeof value === 'string' && ENUMS.has(String(keys.findLast((k) => typeof k === 'string')))) out.push(['wrong choice', `${value}x at ${path}`, put(args, keys, (v) => `${v}x`)]);
    }
    if (!plainObject(value) || DICTS.has(String(keys.at(-1)))) continue;
    const object = table.at.get(`${path}${label(value)}`);
    if (!object) continue;
    for (const k of Object.keys(value)) {
      // What tells the variants apart is needed if every variant has it.
      const whole = k === 'type' ? table.at.get(path) : object;
      if (k !== 'template' && whole.objects >= ENOUGH && whole.present.get(k) === whole.objects) out.push(['missing field', `${k} at ${path}`, put(args, keys, without(k))]);
      const wrong = respell(k);
      if (!object.known.has(wrong)) out.push(['misspelled field', `${k} as ${wrong} at ${path}`, put(args, keys, (o) => Object.fromEntries(Object.entries(o).map(([n, v]) => [n === k ? wrong : n, v])))]);
    }
    for (const [a, b] of [...APART, ...(keys.length === 1 ? APART_IN[name] ?? [] : [])]) for (const [there, added] of [[a, b], [b, a]]) {
      if (has(value[there]) && !has(value[added]) && [...table.at].some(([p, o]) => p.startsWith(path) && /^(\{\w+\})*$/.test(p.slice(path.length)) && o.known.has(added))) out.push(['both fields', `${a} and ${b} at ${path}`, put(args, keys, (o) => ({ ...o, [added]: added === 'template' ? { id: 't' } : /s$/.test(added) ? ['x'] : 'x' }))]);
    }
    if (name === 'emails.metrics' && keys.length === 1) {
      const { dimensions, ...rest } = value;
      const other = (dimensions ?? []).filter((d) => d !== 'email' && d !== 'broadcast');
      out.push(['both fields', 'email and broadcast as dimensions', [{ ...rest, dimensions: [...other, 'email', 'broadcast'] }]]);
      if (!has(rest.emailId)) out.push(['both fields', 'dimension email with broadcastId', [{ ...rest, dimensions: ['email', ...other], broadcastId: ['b'] }]]);
      if (!has(rest.broadcastId)) out.push(['both fields', 'dimension broadcast with emailId', [{ ...rest, dimensions: [...other, 'broadcast'], emailId: ['e'] }]]);
    }
    if (name === 'broadcasts.create' && keys.length === 1 && value.send !== true) out.push(['both fields', 'scheduledAt without send', put(args, keys, (o) => ({ ...o, scheduledAt: 'in 1 hour' }))]);
    out.push(['extra field', `at ${path}`, put(args, keys, (o) => ({ ...o, unknownField: 1 }))]);
  }
  return out;
}
