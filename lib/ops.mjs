// Reference model: every public operation, written from the public types and the documentation.
// Each entry: name (path on the client), args (arbitrary of the argument list, as plain data),
// expect(...args) -> { method, path: [decoded segments], query: [[name, value]...],
//   body: undefined (none) | JSON value with markers | {$form: ...}, contentless } or { local: name }.
// Markers in expected bodies: {$html: reactDescriptor}, {$bytes: Uint8Array}.
import { Buffer } from 'node:buffer';
import { freshBetween } from './dictionary.mjs';
import { fc } from './env.mjs';
import { own, setOwn } from './equal.mjs';
import * as g from './gen.mjs';

const { rec, str, id, email, bool, list, content } = g;
export const ops = new Map();

function op(name, args, expect, extra = {}) {
  ops.set(name, { name, args, expect, resource: name.split('.').slice(0, -1).join('.'), ...extra });
}
const A = (...arbs) => fc.tuple(...arbs);
// Optional trailing argument: left out, undefined, or a value.
export const optArg = (arb) => fc.oneof({ weight: 1, arbitrary: fc.constant([]) }, { weight: 1, arbitrary: fc.constant([undefined]) }, { weight: 4, arbitrary: arb.map((v) => [v]) });
const withOpt = (fixed, arb) => fc.tuple(fixed, optArg(arb)).map(([a, b]) => [...a, ...b]);
export const reqOptions = rec({}, { headers: g.headers() });
export const idemOptions = rec({}, { headers: g.headers(), idempotencyKey: g.idemKey });
export const batchOptions = rec({}, { headers: g.headers(), idempotencyKey: g.idemKey, batchValidation: fc.constantFrom('strict', 'permissive') });

const q = (pairs) => pairs.filter(([, v]) => v !== undefined).map(([k, v]) => [k, String(v)]);
const drop = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));

// --- pagination ------------------------------------------------------------------------------
export const limit = fc.oneof(fc.integer({ min: 1, max: 100 }), fc.integer({ min: 1, max: 2 ** 31 }), fc.constantFrom(1, 2, 10, 20, 50, 99, 100, 101, 999, 1000, ...freshBetween(1, 1_000_000)));
export const cursor = fc.oneof({ weight: 3, arbitrary: id }, { weight: 3, arbitrary: g.nonEmpty }, { weight: 1, arbitrary: fc.constantFrom('a&b=c', 'eyJpZCI6MX0=', 'a+b/c==', '100%', 'x y', '日本', '#', '?', 'after', '0', 'null', 'limit=5', 'a,b') }, { weight: 1, arbitrary: g.longWellFormed });
export const pagFields = fc.constantFrom('none', 'after', 'before');
const pag = (req = {}, opt = {}) => fc.tuple(pagFields, rec(req, { limit, ...opt }), cursor, bool, bool).map(([which, base, c, undef, first]) => {
  if (which === 'none') return undef ? { ...base, after: undefined } : base;
  const extra = { [which]: c, ...(undef && { [which === 'after' ? 'before' : 'after']: undefined }) };
  return first ? { ...extra, ...base } : { ...base, ...extra };
});
const pq = (o = {}) => q([['limit', o.limit], ['after', o.after], ['before', o.before]]);

// --- emails ----------------------------------------------------------------------------------
const react = g.react;
export const attachment = rec({}, {
  content: fc.oneof({ weight: 3, arbitrary: content }, { weight: 3, arbitrary: g.bytes.map((b) => ({ $buf: b })) }, { weight: 1, arbitrary: g.bytes.map((b) => Buffer.from(b).toString('base64')) }),
  filename: fc.oneof(str, fc.constant(false), fc.constantFrom('a.txt', 'invoice.pdf', 'résumé.doc', 'A.TXT', 'a/b.txt', '.hidden')),
  path: str,
  contentType: fc.oneof(str, fc.constantFrom('text/plain', 'text/plain; charset=utf-8', 'image/PNG', 'application/octet-stream')),
  contentId: fc.oneof(str, fc.constantFrom('logo', '<logo>', 'logo@x', '<a@b>', 'cid:logo')),
});
const headerMap = g.dict(str);
export const tag = rec({ name: str, value: str });
const emailBase = { attachments: list(attachment), bcc: g.recipients, cc: g.recipients, headers: headerMap, replyTo: g.recipients, tags: list(tag), topicId: fc.oneof(id, fc.constant(null), fc.constant('')), scheduledAt: g.isoDate };
const variables = g.dict(fc.oneof(str, g.num));
const contentEmail = (withReact, base) => fc.tuple(rec({ to: g.recipients, from: email, subject: str }, { ...base, html: content, text: content, template: fc.constant(undefined) }), withReact === 'always' ? react : withReact ? fc.option(react, { freq: 4 }) : fc.constant(null), content).map(([o, r, fallback]) => {
  if (r) return { ...o, react: r };
  if (o.html === undefined && o.text === undefined) return { ...o, text: fallback };
  return o;
});
const templateEmail = (base) => rec({ to: g.recipients, template: rec({ id: fc.oneof(id, str) }, { variables }) }, { ...base, from: email, subject: str, html: fc.constant(undefined), text: fc.constant(undefined), react: fc.constant(undefined) });
const noAttach = (({ attachments, ...rest }) => rest)(emailBase);
export const emailPayload = (withReact = true) => fc.oneof({ weight: 4, arbitrary: contentEmail(withReact, emailBase) }, { weight: withReact === 'always' ? 0 : 2, arbitrary: templateEmail(emailBase) });
export const batchEmail = (withReact = true) => fc.oneof({ weight: 4, arbitrary: contentEmail(withReact, noAttach) }, { weight: withReact === 'always' ? 0 : 1, arbitrary: templateEmail(noAttach) });
export const batchPayload = (withReact = true) => fc.oneof(
  { weight: 12, arbitrary: fc.array(batchEmail(withReact), { minLength: 0, maxLength: 5 }) },
  { weight: 2, arbitrary: fc.tuple(batchEmail(withReact), fc.integer({ min: 2, max: 4 })).map(([e, n]) => Array.from({ length: n }, () => e)) },
  { weight: 1, arbitrary: fc.tuple(fc.array(batchEmail(false), { minLength: 1, maxLength: 2 }), fc.constantFrom(49, 50, 51, 99, 100, 101, 130, ...freshBetween(5, 1000))).map(([xs, n]) => Array.from({ length: g.fewer(n, xs, 4_000_000) }, (_, i) => ({ ...xs[i % xs.length], subject: `n${i}` }))) },
);

const bytesOf = (c) => (c && typeof c === 'object' && c.$buf ? { $bytes: c.$buf } : c);
export const emailBody = (e) => ({
  from: e.from, to: e.to, cc: e.cc, bcc: e.bcc, subject: e.subject,
  html: e.react ? { $html: e.react } : e.html, text: e.text, headers: e.headers, tags: e.tags,
  reply_to: e.replyTo, scheduled_at: e.scheduledAt, topic_id: e.topicId,
  template: e.template ? { id: e.template.id, variables: e.template.variables } : undefined,
  attachments: e.attachments?.map((a) => ({ content: bytesOf(a.content), filename: a.filename, path: a.path, content_type: a.contentType, content_id: a.contentId })),
});
const sendEmail = (e) => ({ method: 'POST', path: ['emails'], body: emailBody(e) });
for (const name of ['emails.send', 'emails.create']) op(name, withOpt(A(emailPayload()), idemOptions), sendEmail, { opts: 1, idem: true, react: true, alias: 'emails.send', write: true });
op('emails.get', A(id), (i) => ({ method: 'GET', path: ['emails', i] }));
op('emails.list', optArg(pag()), (o) => ({ method: 'GET', path: ['emails'], query: pq(o) }), { list: 0 });
op('emails.update', A(rec({ id, scheduledAt: g.isoDate })), (p) => ({ method: 'PATCH', path: ['emails', p.id], body: { scheduled_at: p.scheduledAt } }), { write: true });
op('emails.cancel', A(id), (i) => ({ method: 'POST', path: ['emails', i, 'cancel'] }));
op('emails.share', withOpt(A(id), rec({}, { expiresIn: fc.oneof(str, fc.constantFrom('1d', '24h')) })), (i, p) => ({ method: 'POST', path: ['emails', i, 'share'], body: { expires_in: p?.expiresIn } }), { write: true });
const METRICS = ['received', 'delivered', 'complained', 'suppressed', 'bounced', 'bounced_transient', 'bounced_permanent', 'bounced_undetermined', 'opened', 'clicked', 'unsubscribed', 'delivery_delayed', 'failed', 'sent', 'unique_opened', 'unique_clicked', 'delivery_rate', 'open_rate', 'click_rate', 'bounce_rate', 'complaint_rate', 'unsubscribe_rate'];
const dateText = fc.oneof(fc.constantFrom('2024-01-01', '2024-01-01T00:00:00Z', '2024-01-01T00:00:00+05:30', '2024-01-01 00:00:00.000+00'), g.nonEmpty);
const zone = fc.oneof(fc.constantFrom('UTC', 'America/New_York', 'Etc/GMT+5', 'Asia/Kolkata', '+05:30', 'America/Argentina/Buenos_Aires'), g.nonEmpty);
const ne = (arb) => list(arb, { min: 1 });
const metricsCommon = { startDate: dateText, endDate: dateText, timezone: zone, granularity: fc.constantFrom('hourly', 'daily', 'weekly', 'monthly'), metrics: ne(fc.constantFrom(...METRICS)), domainId: ne(id) };
op('emails.metrics', optArg(fc.oneof(
  rec({}, { ...metricsCommon, dimensions: ne(fc.constantFrom('period', 'domain', 'email')), emailId: ne(id) }),
  rec({}, { ...metricsCommon, dimensions: ne(fc.constantFrom('period', 'domain', 'broadcast')), broadcastId: ne(id) }),
)), (o = {}) => ({ method: 'GET', path: ['emails', 'metrics'], query: q([['start_date', o.startDate], ['end_date', o.endDate], ['timezone', o.timezone], ['granularity', o.granularity], ['metrics', o.metrics?.join(',')], ['dimensions', o.dimensions?.join(',')], ['domain_id', o.domainId?.join(',')], ['email_id', o.emailId?.join(',')], ['broadcast_id', o.broadcastId?.join(',')]]) }), { filters: true });
op('emails.attachments.get', A(rec({ emailId: id, id })), (p) => ({ method: 'GET', path: ['emails', p.emailId, 'attachments', p.id] }));
op('emails.attachments.list', A(pag({ emailId: id })), (p) => ({ method: 'GET', path: ['emails', p.emailId, 'attachments'], query: pq(p) }), { list: 0 });
op('emails.receiving.get', withOpt(A(id), rec({}, { html_format: fc.constantFrom('data_uri', 'cid') })), (i, o) => ({ method: 'GET', path: ['emails', 'receiving', i], query: q([['html_format', o?.html_format]]) }), { filters: true });
op('emails.receiving.list', optArg(pag()), (o) => ({ method: 'GET', path: ['emails', 'receiving'], query: pq(o) }), { list: 0 });
op('emails.receiving.attachments.get', A(rec({ emailId: id, id })), (p) => ({ method: 'GET', path: ['emails', 'receiving', p.emailId, 'attachments', p.id] }));
op('emails.receiving.attachments.list', A(pag({ emailId: id })), (p) => ({ method: 'GET', path: ['emails', 'receiving', p.emailId, 'attachments'], query: pq(p) }), { list: 0 });

// --- batch -----------------------------------------------------------------------------------
const sendBatch = (emails, o) => ({ method: 'POST', path: ['emails', 'batch'], body: emails.map(emailBody), validation: o?.batchValidation ?? 'strict' });
for (const name of ['batch.send', 'batch.create']) op(name, withOpt(A(batchPayload()), batchOptions), sendBatch, { opts: 1, idem: true, react: true, alias: 'batch.send', write: true });

// --- broadcasts ------------------------------------------------------------------------------
const reply = g.recipients;
const broadcastBase = { name: str, previewText: str, replyTo: reply, topicId: fc.oneof(id, fc.constant(null)), html: content, text: content };
const scope = fc.oneof(rec({ segmentId: id }, { audienceId: fc.constant(undefined) }), rec({ audienceId: id }, { segmentId: fc.constant(undefined) }), rec({ segmentId: id, audienceId: id }), id.map((i) => ({ segmentId: i, audienceId: i })));
// The types allow a schedule only with send: true; without it, it is passed on just the same.
const sending = fc.oneof({ weight: 3, arbitrary: rec({ send: fc.constant(true) }, { scheduledAt: g.isoDate }) }, { weight: 3, arbitrary: rec({}, { send: fc.constant(false), scheduledAt: fc.constant(undefined) }) }, { weight: 1, arbitrary: rec({}, { send: fc.constant(false), scheduledAt: g.isoDate }) });
export const broadcastPayload = (withReact = true) => fc.tuple(rec({ from: email, subject: str }, broadcastBase), scope, sending, withReact === 'always' ? react : withReact ? fc.option(react, { freq: 3 }) : fc.constant(null), content).map(([o, s, d, r, fallback]) => {
  const all = { ...o, ...s, ...d };
  if (r) return { ...all, react: r };
  return all.html === undefined && all.text === undefined ? { ...all, html: fallback } : all;
});
const broadcastBody = (p) => ({ name: p.name, segment_id: p.segmentId, audience_id: p.audienceId, preview_text: p.previewText, from: p.from, html: p.react ? { $html: p.react } : p.html, text: p.text, subject: p.subject, reply_to: p.replyTo, topic_id: p.topicId });
op('broadcasts.create', withOpt(A(broadcastPayload()), reqOptions), (p) => ({ method: 'POST', path: ['broadcasts'], body: { ...broadcastBody(p), send: p.send, scheduled_at: p.scheduledAt } }), { opts: 1, react: true, write: true });
export const broadcastUpdate = (withReact = true) => fc.tuple(rec({}, { ...broadcastBase, replyTo: list(email), segmentId: id, audienceId: id, from: email, subject: str }), withReact === 'always' ? react : withReact ? fc.option(react, { freq: 3 }) : fc.constant(null)).map(([o, r]) => (r ? { ...o, react: r } : o));
op('broadcasts.update', A(id, broadcastUpdate()), (i, p) => ({ method: 'PATCH', path: ['broadcasts', i], body: broadcastBody(p) }), { react: true, write: true });
op('broadcasts.send', withOpt(A(id), rec({}, { scheduledAt: g.isoDate })), (i, p) => ({ method: 'POST', path: ['broadcasts', i, 'send'], body: { scheduled_at: p?.scheduledAt } }), { write: true });
op('broadcasts.list', optArg(pag()), (o) => ({ method: 'GET', path: ['broadcasts'], query: pq(o) }), { list: 0 });
op('broadcasts.get', A(id), (i) => ({ method: 'GET', path: ['broadcasts', i] }));
op('broadcasts.recipients', A(id, pag({ type: fc.constantFrom('sent', 'delivered', 'opened', 'clicked', 'bounced', 'complained', 'unsubscribed', 'suppressed') }, { email: fc.oneof(g.nonEmpty, fc.emailAddress(), fc.constantFrom('a+b@c.de', 'A@B.co', 'a&b@c.de')), bounceType: fc.constantFrom('permanent', 'transient', 'undetermined') })), (i, o) => ({ method: 'GET', path: ['broadcasts', i, 'recipients'], query: [...pq(o), ...q([['type', o.type], ['email', o.email], ['bounce_type', o.bounceType]])] }), { list: 1, filters: true });
op('broadcasts.clickedLinks', withOpt(A(id), pag()), (i, o) => ({ method: 'GET', path: ['broadcasts', i, 'clicked-links'], query: pq(o) }), { list: 1 });
op('broadcasts.remove', A(id), (i) => ({ method: 'DELETE', path: ['broadcasts', i] }));
op('broadcasts.cancel', A(id), (i) => ({ method: 'POST', path: ['broadcasts', i, 'cancel'] }));

// --- webhooks, api keys, segments, topics, oauth grants, logs ---------------------------------
const EVENTS = ['email.sent', 'email.scheduled', 'email.delivered', 'email.delivery_delayed', 'email.complained', 'email.bounced', 'email.opened', 'email.clicked', 'email.received', 'email.failed', 'email.suppressed', 'contact.created', 'contact.updated', 'contact.deleted', 'domain.created', 'domain.updated', 'domain.deleted', 'suppression.added', 'suppression.removed'];
const events = list(fc.constantFrom(...EVENTS));
op('webhooks.create', withOpt(A(rec({ endpoint: str, events })), reqOptions), (p) => ({ method: 'POST', path: ['webhooks'], body: { endpoint: p.endpoint, events: p.events } }), { opts: 1, write: true });
op('webhooks.get', A(id), (i) => ({ method: 'GET', path: ['webhooks', i] }));
op('webhooks.list', optArg(pag()), (o) => ({ method: 'GET', path: ['webhooks'], query: pq(o) }), { list: 0 });
op('webhooks.update', A(id, rec({}, { endpoint: str, events, status: fc.constantFrom('enabled', 'disabled') })), (i, p) => ({ method: 'PATCH', path: ['webhooks', i], body: { endpoint: p.endpoint, events: p.events, status: p.status } }), { write: true });
op('webhooks.remove', A(id), (i) => ({ method: 'DELETE', path: ['webhooks', i] }));

op('apiKeys.create', withOpt(A(rec({ name: str }, { permission: fc.constantFrom('full_access', 'sending_access'), domain_id: fc.oneof(id, fc.constant('')) })), reqOptions), (p) => ({ method: 'POST', path: ['api-keys'], body: { name: p.name, permission: p.permission, domain_id: p.domain_id } }), { opts: 1, write: true });
op('apiKeys.list', optArg(pag()), (o) => ({ method: 'GET', path: ['api-keys'], query: pq(o) }), { list: 0 });
op('apiKeys.update', A(id, rec({ name: str })), (i, p) => ({ method: 'PATCH', path: ['api-keys', i], body: { name: p.name } }), { write: true });
op('apiKeys.remove', A(id), (i) => ({ method: 'DELETE', path: ['api-keys', i] }));

for (const name of ['segments', 'audiences']) {
  op(`${name}.create`, withOpt(A(rec({ name: str })), reqOptions), (p) => ({ method: 'POST', path: ['segments'], body: { name: p.name } }), { opts: 1, alias: 'segments.create', write: true });
  op(`${name}.list`, optArg(pag()), (o) => ({ method: 'GET', path: ['segments'], query: pq(o) }), { list: 0, alias: 'segments.list' });
  op(`${name}.get`, A(id), (i) => ({ method: 'GET', path: ['segments', i] }), { alias: 'segments.get' });
  op(`${name}.remove`, A(id), (i) => ({ method: 'DELETE', path: ['segments', i] }), { alias: 'segments.remove' });
}

op('topics.create', A(rec({ name: str, defaultSubscription: fc.constantFrom('opt_in', 'opt_out') }, { description: str })), (p) => ({ method: 'POST', path: ['topics'], body: { name: p.name, description: p.description, default_subscription: p.defaultSubscription } }), { write: true });
op('topics.list', fc.constant([]), () => ({ method: 'GET', path: ['topics'] }));
op('topics.get', A(id), (i) => ({ method: 'GET', path: ['topics', i] }));
// The API ignores the id repeated in the body, so it may or may not be there.
op('topics.update', A(rec({ id }, { name: str, description: str })), (p) => ({ method: 'PATCH', path: ['topics', p.id], body: { name: p.name, description: p.description }, bodyMay: { id: p.id } }), { write: true });
op('topics.remove', A(id), (i) => ({ method: 'DELETE', path: ['topics', i] }));

op('oauthGrants.list', optArg(pag()), (o) => ({ method: 'GET', path: ['oauth', 'grants'], query: pq(o) }), { list: 0 });
op('oauthGrants.revoke', A(id), (i) => ({ method: 'DELETE', path: ['oauth', 'grants', i] }));
op('logs.list', optArg(pag()), (o) => ({ method: 'GET', path: ['logs'], query: pq(o) }), { list: 0 });
op('logs.get', A(id), (i) => ({ method: 'GET', path: ['logs', i] }));

// --- suppressions ----------------------------------------------------------------------------
op('suppressions.add', A(rec({ email })), (p) => ({ method: 'POST', path: ['suppressions'], body: { email: p.email } }), { write: true });
op('suppressions.list', optArg(pag({}, { origin: fc.constantFrom('bounce', 'complaint', 'manual') })), (o = {}) => ({ method: 'GET', path: ['suppressions'], query: [...pq(o), ...q([['origin', o.origin]])] }), { list: 0, filters: true });
op('suppressions.get', A(g.freeId), (i) => ({ method: 'GET', path: ['suppressions', i] }), { free: true });
op('suppressions.remove', A(g.freeId), (i) => ({ method: 'DELETE', path: ['suppressions', i] }), { free: true });
op('suppressions.batch.add', A(rec({ emails: list(email) })), (p) => ({ method: 'POST', path: ['suppressions', 'batch', 'add'], body: { emails: p.emails } }), { write: true });
op('suppressions.batch.remove', A(fc.oneof(rec({ emails: list(email) }, { ids: fc.constant(undefined) }), rec({ ids: list(id) }, { emails: fc.constant(undefined) }), rec({ ids: list(id), emails: list(email) }))), (p) => ({ method: 'POST', path: ['suppressions', 'batch', 'remove'], body: { emails: p.emails, ids: p.ids } }), { write: true });

// --- automations -----------------------------------------------------------------------------
const scalar = fc.oneof(str, g.num, bool);
const rule = fc.letrec((tie) => ({
  node: fc.oneof({ maxDepth: 4, depthSize: 'small', withCrossShrink: true },
    rec({ type: fc.constant('rule'), field: str, operator: fc.constantFrom('eq', 'neq'), value: fc.oneof(str, g.num, bool, fc.constant(null)) }),
    rec({ type: fc.constant('rule'), field: str, operator: fc.constantFrom('gt', 'gte', 'lt', 'lte'), value: g.num }),
    rec({ type: fc.constant('rule'), field: str, operator: fc.constantFrom('contains', 'starts_with', 'ends_with'), value: str }),
    rec({ type: fc.constant('rule'), field: str, operator: fc.constantFrom('exists', 'is_empty') }),
    rec({ type: fc.constantFrom('and', 'or'), rules: fc.array(tie('node'), { maxLength: 4 }) })),
})).node;
const deepRule = fc.tuple(rule, fc.array(fc.tuple(fc.constantFrom('and', 'or'), fc.array(rule, { maxLength: 1 }), fc.boolean()), { minLength: 5, maxLength: 40 }))
  .map(([leaf, levels]) => levels.reduce((inner, [type, more, before]) => ({ type, rules: before ? [inner, ...more] : [...more, inner] }), leaf));
const wideRule = fc.tuple(fc.constantFrom('and', 'or'), fc.array(rule, { minLength: 1, maxLength: 3 }), fc.integer({ min: 5, max: 130 })).map(([type, rules, n]) => ({ type, rules: Array.from({ length: n }, (_, i) => rules[i % rules.length]) }));
const anyRule = fc.oneof({ weight: 12, arbitrary: rule }, { weight: 1, arbitrary: deepRule }, { weight: 1, arbitrary: wideRule });
const varRef = rec({ var: str });
const tplValue = fc.oneof(scalar, varRef, g.dict(scalar, { max: 3 }), fc.array(fc.oneof(scalar, g.dict(scalar, { max: 2 })), { maxLength: 3 }));
const duration = fc.oneof(
  { weight: 1, arbitrary: fc.constantFrom('1 hour', '3 days', 'PT1H', 'P1DT2H', '1h', '90', '1 hour 30 minutes', '1.5 days') },
  { weight: 3, arbitrary: fc.tuple(fc.constantFrom('1', '2', '0', '24'), fc.constant(' '), fc.constantFrom('minute', 'hour', 'day', 'week'), fc.constantFrom('', 's')).map((x) => x.join('')) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom('1', '1', '01', '10', '60', '90', '-1', 'a', 'in 1'), fc.constantFrom(' ', '', '  '), fc.constantFrom('second', 'minute', 'min', 'hour', 'day', 'week', 'month', 'year', 'Hour', 'DAY'), fc.constantFrom('', 's', 's ', '(s)')).map((x) => x.join('')) },
);
const stepKey = fc.oneof(str, fc.tuple(fc.constantFrom('a', 'b', 'start', 'step', 'trigger', 'delay', 'send_email', 'wait_for_event', 'condition', 'contact_update', 'end'), fc.constantFrom('', '', '_1', '-2', '1', ' 2')).map((x) => x.join('')));
const step = fc.oneof(
  rec({ key: stepKey, type: fc.constant('trigger'), config: rec({ eventName: str }) }),
  rec({ key: stepKey, type: fc.constant('delay'), config: rec({ duration: fc.oneof(str, duration) }) }),
  rec({ key: stepKey, type: fc.constant('send_email'), config: rec({ template: rec({ id: fc.oneof(id, str) }, { variables: g.dict(tplValue) }) }, { subject: str, from: email, replyTo: email }) }),
  rec({ key: stepKey, type: fc.constant('wait_for_event'), config: rec({ eventName: str }, { timeout: fc.oneof(str, duration), filterRule: anyRule }) }),
  rec({ key: stepKey, type: fc.constant('condition'), config: anyRule }),
  rec({ key: stepKey, type: fc.constant('contact_update'), config: rec({}, { firstName: fc.oneof(str, fc.constant(null), varRef), lastName: fc.oneof(str, fc.constant(null), varRef), unsubscribed: fc.oneof(bool, varRef), properties: g.dict(fc.oneof(scalar, fc.constant(null), varRef)) }) }),
  rec({ key: stepKey, type: fc.constant('contact_delete'), config: fc.constant({}) }),
  rec({ key: stepKey, type: fc.constant('add_to_segment'), config: rec({ segmentId: id }) }),
);
const connection = rec({ from: stepKey, to: stepKey }, { type: fc.constantFrom('default', 'condition_met', 'condition_not_met', 'timeout', 'event_received') });
const stepBody = (s) => {
  const c = s.config;
  const config = {
    trigger: () => ({ event_name: c.eventName }),
    delay: () => c, condition: () => c, contact_delete: () => c,
    send_email: () => ({ template: c.template, subject: c.subject, from: c.from, reply_to: c.replyTo }),
    wait_for_event: () => ({ event_name: c.eventName, timeout: c.timeout, filter_rule: c.filterRule }),
    contact_update: () => ({ first_name: c.firstName, last_name: c.lastName, unsubscribed: c.unsubscribed, properties: c.properties }),
    add_to_segment: () => ({ segment_id: c.segmentId }),
  }[s.type]();
  return { key: s.key, type: s.type, config };
};
const automationBody = (p) => ({ name: p.name, status: p.status, steps: p.steps?.map(stepBody), connections: p.connections?.map((c) => ({ from: c.from, to: c.to, type: c.type })) });
const autoStatus = fc.constantFrom('enabled', 'disabled');
op('automations.create', A(rec({ name: str, steps: list(step), connections: list(connection) }, { status: autoStatus })), (p) => ({ method: 'POST', path: ['automations'], body: automationBody(p) }), { write: true });
op('automations.update', A(id, rec({}, { name: str, status: autoStatus, steps: list(step), connections: list(connection) })), (i, p) => ({ method: 'PATCH', path: ['automations', i], body: automationBody(p) }), { write: true });
op('automations.list', optArg(pag({}, { status: autoStatus })), (o = {}) => ({ method: 'GET', path: ['automations'], query: [...pq(o), ...q([['status', o.status]])] }), { list: 0, filters: true });
op('automations.get', A(id), (i) => ({ method: 'GET', path: ['automations', i] }));
op('automations.remove', A(id), (i) => ({ method: 'DELETE', path: ['automations', i] }));
op('automations.duplicate', A(id), (i) => ({ method: 'POST', path: ['automations', i, 'duplicate'] }));
op('automations.stop', A(id), (i) => ({ method: 'POST', path: ['automations', i, 'stop'] }));
op('automations.runs.get', A(rec({ automationId: id, runId: id })), (p) => ({ method: 'GET', path: ['automations', p.automationId, 'runs', p.runId] }));
const runStatus = fc.constantFrom('running', 'completed', 'failed', 'cancelled', 'skipped');
op('automations.runs.list', A(pag({ automationId: id }, { status: fc.oneof(runStatus, list(runStatus, { min: 1 })) })), (p) => ({ method: 'GET', path: ['automations', p.automationId, 'runs'], query: [...pq(p), ...q([['status', Array.isArray(p.status) ? p.status.join(',') : p.status]])] }), { list: 0, filters: true });

// --- templates -------------------------------------------------------------------------------
const nullable = (arb) => fc.oneof({ weight: 4, arbitrary: arb }, { weight: 1, arbitrary: fc.constant(null) });
const tplVar = fc.oneof(rec({ key: str, type: fc.constant('string') }, { fallbackValue: nullable(str) }), rec({ key: str, type: fc.constant('number') }, { fallbackValue: nullable(g.num) }));
const tplFields = { subject: nullable(str), text: nullable(content), alias: nullable(str), from: nullable(email), replyTo: reply, variables: list(tplVar) };
export const templatePayload = (withReact = true) => fc.tuple(rec({ name: str }, { ...tplFields, html: content }), withReact === 'always' ? react : withReact ? fc.option(react, { freq: 3 }) : fc.constant(null), content).map(([o, r, fallback]) => {
  if (r) return { ...o, react: r };
  return o.html === undefined ? { ...o, html: fallback } : o;
});
const templateBody = (p) => ({ name: p.name, subject: p.subject, html: p.react ? { $html: p.react } : p.html, text: p.text, alias: p.alias, from: p.from, reply_to: p.replyTo, variables: p.variables?.map((v) => ({ key: v.key, type: v.type, fallback_value: v.fallbackValue })) });
op('templates.create', A(templatePayload()), (p) => ({ method: 'POST', path: ['templates'], body: templateBody(p) }), { react: true, chain: true, write: true });
op('templates.update', A(g.freeId, rec({}, { ...tplFields, name: str, html: content })), (i, p) => ({ method: 'PATCH', path: ['templates', i], body: templateBody(p) }), { free: true, write: true });
op('templates.remove', A(g.freeId), (i) => ({ method: 'DELETE', path: ['templates', i] }), { free: true });
op('templates.get', A(g.freeId), (i) => ({ method: 'GET', path: ['templates', i] }), { free: true });
op('templates.list', optArg(pag()), (o) => ({ method: 'GET', path: ['templates'], query: pq(o) }), { list: 0 });
op('templates.duplicate', A(g.freeId), (i) => ({ method: 'POST', path: ['templates', i, 'duplicate'] }), { free: true, chain: true });
op('templates.publish', A(g.freeId), (i) => ({ method: 'POST', path: ['templates', i, 'publish'] }), { free: true });

// --- contact properties ------------------------------------------------------------------------
const fallback = { string: nullable(str), number: nullable(g.num) };
op('contactProperties.create', A(fc.oneof(...['string', 'number'].map((t) => rec({ key: str, type: fc.constant(t) }, { fallbackValue: fallback[t] })))), (p) => ({ method: 'POST', path: ['contact-properties'], body: { key: p.key, type: p.type, fallback_value: p.fallbackValue } }), { write: true });
const camel = (p) => ({ id: p.id, key: p.key, type: p.type, createdAt: p.created_at, fallbackValue: p.fallback_value });
const apiProp = fc.oneof(...['string', 'number'].map((t) => fc.record({ id, key: str, type: fc.constant(t), created_at: fc.oneof(str, fc.constantFrom('2023-04-08T00:11:13.110779+00:00', '2026-05-15 18:32:37.823+00')), fallback_value: fallback[t] })));
op('contactProperties.list', optArg(pag()), (o) => ({ method: 'GET', path: ['contact-properties'], query: pq(o) }), { list: 0,
  reply: fc.record({ object: fc.constant('list'), has_more: bool, data: list(apiProp) }), map: (d) => ({ ...d, data: d.data.map(camel) }) });
op('contactProperties.get', A(id), (i) => ({ method: 'GET', path: ['contact-properties', i] }), { reply: apiProp.map((p) => ({ object: 'contact_property', ...p })), map: (d) => ({ object: d.object, ...camel(d) }) });
op('contactProperties.update', A(rec({ id }, { fallbackValue: nullable(fc.oneof(str, g.num)) })), (p) => ({ method: 'PATCH', path: ['contact-properties', p.id], body: { fallback_value: p.fallbackValue } }), { write: true });
op('contactProperties.remove', A(id), (i) => ({ method: 'DELETE', path: ['contact-properties', i] }));

// --- contacts ----------------------------------------------------------------------------------
const contactProps = g.dict(fc.oneof(str, g.num, fc.constant(null)));
const contactEmail = fc.oneof({ weight: 2, arbitrary: fc.emailAddress() }, { weight: 3, arbitrary: g.freeId });
const names = { firstName: str, lastName: str, unsubscribed: bool, properties: contactProps };
const topicsList = list(rec({ id, subscription: fc.constantFrom('opt_in', 'opt_out') }));
const segmentsList = list(rec({ id }));
const contactBody = (p) => ({ email: p.email, first_name: p.firstName, last_name: p.lastName, unsubscribed: p.unsubscribed, properties: p.properties });
const bodyEmail = fc.oneof(email, g.freeId);
op('contacts.create', withOpt(A(fc.oneof(
  { weight: 3, arbitrary: rec({ email: bodyEmail }, { ...names, segments: segmentsList, topics: topicsList, audienceId: fc.constant(undefined) }) },
  { weight: 2, arbitrary: rec({ email: bodyEmail, audienceId: id }, { ...names, segments: fc.constant(undefined), topics: fc.constant(undefined) }) },
  { weight: 1, arbitrary: fc.tuple(rec({ email: bodyEmail, audienceId: id }, names), fc.oneof(rec({ segments: segmentsList }, { topics: topicsList }), rec({ topics: topicsList }, { segments: segmentsList }))).map(([a, b]) => ({ ...a, ...b })) },
)), reqOptions), (p) => {
  if (p.audienceId !== undefined && (p.segments !== undefined || p.topics !== undefined)) return { local: 'invalid_parameter' };
  if (p.audienceId !== undefined) return { method: 'POST', path: ['audiences', p.audienceId, 'contacts'], body: contactBody(p) };
  return { method: 'POST', path: ['contacts'], body: { ...contactBody(p), segments: p.segments, topics: p.topics } };
}, { opts: 1, write: true });
op('contacts.list', optArg(fc.oneof(pag({}, { segmentId: id, audienceId: id }), pag())), (o = {}) => {
  const s = o.segmentId ?? o.audienceId;
  return { method: 'GET', path: s ? ['segments', s, 'contacts'] : ['contacts'], query: pq(o) };
}, { list: 0 });
const nothing = fc.constantFrom(undefined, null);
const selecting = (extra = {}, optional = {}) => fc.oneof(
  rec({ id, ...extra }, { ...optional, email: nothing, audienceId: id }),
  rec({ email: contactEmail, ...extra }, { ...optional, id: nothing, audienceId: id }),
  rec({ id, email: contactEmail, ...extra }, { ...optional, audienceId: id }),
);
const who = (p) => (typeof p === 'string' ? p : p.email ? p.email : p.id);
const contactPath = (p) => (p.audienceId ? ['audiences', p.audienceId, 'contacts', who(p)] : ['contacts', who(p)]);
const byStringOrObject = fc.oneof({ weight: 2, arbitrary: selecting() }, { weight: 1, arbitrary: contactEmail }, { weight: 1, arbitrary: id });
op('contacts.get', A(byStringOrObject), (p) => ({ method: 'GET', path: contactPath(p) }), { free: true });
op('contacts.remove', A(byStringOrObject), (p) => ({ method: 'DELETE', path: contactPath(p) }), { free: true });
op('contacts.update', A(selecting({}, { firstName: nullable(str), lastName: nullable(str), unsubscribed: bool, properties: contactProps })), (p) => ({ method: 'PATCH', path: contactPath(p), body: { first_name: p.firstName, last_name: p.lastName, unsubscribed: p.unsubscribed, properties: p.properties } }), { free: true, write: true });
const oneOfTwo = (idField, req = {}) => fc.oneof(rec({ [idField]: id, ...req }, { email: fc.constant(undefined) }), rec({ email: contactEmail, ...req }, { [idField]: fc.constant(undefined) }), rec({ email: contactEmail, [idField]: id, ...req }));
const withPag = (arb) => fc.tuple(arb, pag()).map(([a, b]) => ({ ...b, ...a }));
op('contacts.topics.update', A(oneOfTwo('id', { topics: topicsList })), (p) => ({ method: 'PATCH', path: ['contacts', who(p), 'topics'], body: p.topics }), { free: true, write: true });
op('contacts.topics.list', A(withPag(oneOfTwo('id'))), (p) => ({ method: 'GET', path: ['contacts', who(p), 'topics'], query: pq(p) }), { list: 0, free: true });
const whoC = (p) => (p.email ? p.email : p.contactId);
op('contacts.segments.list', A(withPag(oneOfTwo('contactId'))), (p) => ({ method: 'GET', path: ['contacts', whoC(p), 'segments'], query: pq(p) }), { list: 0, free: true });
op('contacts.segments.add', A(oneOfTwo('contactId', { segmentId: id })), (p) => ({ method: 'POST', path: ['contacts', whoC(p), 'segments', p.segmentId] }), { free: true });
op('contacts.segments.remove', A(oneOfTwo('contactId', { segmentId: id })), (p) => ({ method: 'DELETE', path: ['contacts', whoC(p), 'segments', p.segmentId] }), { free: true });
const column = rec({ column: str }, { type: fc.constantFrom('string', 'number', 'boolean') });
export const blob = fc.oneof(
  fc.record({ $blob: g.bytes, type: fc.constantFrom('', 'text/csv', 'text/plain', 'application/vnd.ms-excel') }),
  fc.record({ $blob: g.bytes, type: fc.constantFrom('', 'text/csv'), name: fc.oneof(fc.constantFrom('contacts.csv', 'a b.csv', 'Контакты.csv', 'x.CSV', 'UPPER.csv', '名.csv', 'a;b.csv', "it's.csv", `${'export of all contacts '.repeat(5)}.csv`, `${'c'.repeat(252)}.csv`, `${'n'.repeat(1100)}.csv`), fc.string({ unit: fc.constantFrom('a', 'Z', '0', '.', '-', '_', ' ', 'é'), minLength: 1, maxLength: 12 })) }),
);
op('contacts.imports.create', withOpt(A(rec({ file: blob }, { columnMap: rec({}, { email: str, firstName: str, lastName: str, unsubscribed: str, properties: g.dict(column) }), onConflict: fc.constantFrom('upsert', 'skip'), segments: segmentsList, topics: topicsList })), reqOptions), (p) => {
  const fields = [];
  if (p.columnMap) fields.push(['column_map', { json: { email: p.columnMap.email, first_name: p.columnMap.firstName, last_name: p.columnMap.lastName, unsubscribed: p.columnMap.unsubscribed, properties: p.columnMap.properties } }]);
  if (p.onConflict) fields.push(['on_conflict', { text: p.onConflict }]);
  if (p.segments) fields.push(['segments', { json: p.segments }]);
  if (p.topics) fields.push(['topics', { json: p.topics }]);
  return { method: 'POST', path: ['contacts', 'imports'], body: { $form: fields, file: p.file } };
}, { opts: 1, form: true, write: true });
const importStatus = fc.constantFrom('queued', 'in_progress', 'completed', 'failed');
op('contacts.imports.list', optArg(pag({}, { status: importStatus })), (o = {}) => ({ method: 'GET', path: ['contacts', 'imports'], query: [...pq(o), ...q([['status', o.status]])] }), { list: 0, filters: true });
op('contacts.imports.get', A(id), (i) => ({ method: 'GET', path: ['contacts', 'imports', i] }));

// --- domains -----------------------------------------------------------------------------------
const region = fc.constantFrom('us-east-1', 'eu-west-1', 'sa-east-1', 'ap-northeast-1');
const cap = fc.constantFrom('enabled', 'disabled');
const capabilities = rec({}, { sending: cap, receiving: cap });
const tls = fc.constantFrom('enforced', 'opportunistic');
op('domains.create', withOpt(A(rec({ name: str }, { region, customReturnPath: str, capabilities, openTracking: bool, clickTracking: bool, tls, trackingSubdomain: str })), reqOptions), (p) => ({ method: 'POST', path: ['domains'], body: { name: p.name, region: p.region, custom_return_path: p.customReturnPath, capabilities: p.capabilities, open_tracking: p.openTracking, click_tracking: p.clickTracking, tls: p.tls, tracking_subdomain: p.trackingSubdomain } }), { opts: 1, write: true });
op('domains.list', optArg(pag()), (o) => ({ method: 'GET', path: ['domains'], query: pq(o) }), { list: 0 });
op('domains.get', A(id), (i) => ({ method: 'GET', path: ['domains', i] }));
op('domains.update', A(rec({ id }, { clickTracking: bool, openTracking: bool, tls, capabilities, trackingSubdomain: str })), (p) => ({ method: 'PATCH', path: ['domains', p.id], body: { click_tracking: p.clickTracking, open_tracking: p.openTracking, tls: p.tls, capabilities: p.capabilities, tracking_subdomain: p.trackingSubdomain } }), { write: true });
op('domains.remove', A(id), (i) => ({ method: 'DELETE', path: ['domains', i] }));
op('domains.verify', A(id), (i) => ({ method: 'POST', path: ['domains', i, 'verify'] }));
op('domains.claims.create', withOpt(A(rec({ name: str }, { region, customReturnPath: str, openTracking: bool, clickTracking: bool, trackingSubdomain: str })), reqOptions), (p) => ({ method: 'POST', path: ['domains', 'claim'], body: { name: p.name, region: p.region, custom_return_path: p.customReturnPath, open_tracking: p.openTracking, click_tracking: p.clickTracking, tracking_subdomain: p.trackingSubdomain } }), { opts: 1, write: true });
op('domains.claims.get', A(id), (i) => ({ method: 'GET', path: ['domains', i, 'claim'] }));
op('domains.claims.verify', A(id), (i) => ({ method: 'POST', path: ['domains', i, 'claim', 'verify'] }));

// --- events ------------------------------------------------------------------------------------
const schema = nullable(g.dict(fc.constantFrom('string', 'number', 'boolean', 'date')));
op('events.send', A(fc.oneof(rec({ event: str, contactId: id }, { payload: g.jsonObject, email: fc.constant(undefined) }), rec({ event: str, email }, { payload: g.jsonObject, contactId: fc.constant(undefined) }), rec({ event: str }, { email, contactId: id, payload: g.jsonObject }))), (p) => ({ method: 'POST', path: ['events', 'send'], body: { event: p.event, contact_id: p.contactId, email: p.email, payload: p.payload } }), { write: true });
op('events.create', A(rec({ name: str }, { schema })), (p) => ({ method: 'POST', path: ['events'], body: { name: p.name, schema: p.schema } }), { write: true });
op('events.get', A(g.freeId), (i) => ({ method: 'GET', path: ['events', i] }), { free: true });
op('events.list', optArg(pag()), (o) => ({ method: 'GET', path: ['events'], query: pq(o) }), { list: 0 });
op('events.update', A(g.freeId, rec({ schema })), (i, p) => ({ method: 'PATCH', path: ['events', i], body: { schema: p.schema } }), { free: true, write: true });
op('events.remove', A(g.freeId), (i) => ({ method: 'DELETE', path: ['events', i] }), { free: true });

// --- the generic verbs -----------------------------------------------------------------------
export const generic = new Map();
function gen(name, args, expect, extra = {}) {
  generic.set(name, { name, args, expect, generic: true, resource: '', ...extra });
}
const anyPath = fc.array(fc.oneof(id, fc.constantFrom('emails', 'v2', 'contacts')), { minLength: 1, maxLength: 3 });
const pathArb = fc.tuple(anyPath, fc.option(fc.tuple(id, id))).map(([segs, query]) => `/${segs.join('/')}${query ? `?${query[0]}=${query[1]}` : ''}`);
const splitPath = (p) => { const [a, b] = p.split('?'); return { path: a.slice(1).split('/'), query: b ? [b.split('=')] : [] }; };
export const entity = fc.oneof({ weight: 6, arbitrary: g.json }, { weight: 1, arbitrary: fc.constantFrom(undefined, null, '', 0, false, [], {}) }, { weight: 1, arbitrary: g.json.map((v) => JSON.stringify(v)) });
gen('get', withOpt(A(pathArb), reqOptions), (p) => ({ method: 'GET', ...splitPath(p) }), { opts: 1 });
gen('post', withOpt(A(pathArb, entity), idemOptions), (p, body) => ({ method: 'POST', ...splitPath(p), body }), { opts: 2, idem: true, write: true });
gen('put', withOpt(A(pathArb, entity), reqOptions), (p, body) => ({ method: 'PUT', ...splitPath(p), body }), { opts: 2, write: true });
gen('patch', withOpt(A(pathArb, entity), reqOptions), (p, body) => ({ method: 'PATCH', ...splitPath(p), body }), { opts: 2, write: true });
gen('delete', withOpt(A(pathArb, fc.oneof(fc.constant(undefined), g.jsonObject, entity)), reqOptions), (p, body) => ({ method: 'DELETE', ...splitPath(p), body }), { opts: 2 });

export const allOps = [...ops.values()];
export const anyOps = [...ops.values(), ...generic.values()];
export const find = (name) => ops.get(name) ?? generic.get(name) ?? extra.get(name);
const extra = new Map();
export const register = (o) => extra.set(o.name, o);

// Values that depend on each other: one free-text field is rewritten in terms of another string of
// the same call (equal, contained, suffix, other case, ...), as code that compares fields would need.
const CLOSED = new Set(['region', 'tls', 'type', 'subscription', 'onConflict', 'status', 'batchValidation', 'idempotencyKey', 'headers', 'operator', 'granularity', 'metrics', 'dimensions', 'origin', 'events', 'permission', 'sending', 'receiving', 'defaultSubscription', 'bounceType', 'html_format', 'id', 'emailId', 'automationId', 'runId', 'audienceId', 'segmentId', 'contactId', 'broadcastId', 'domainId', 'schema', 'after', 'before']);
function places(v, free, out = [], path = []) {
  if (typeof v === 'string') { if (free) out.push(path); return out; }
  if (v === null || typeof v !== 'object' || v instanceof Uint8Array || v.$react || v.$buf || v.$blob || v.$headers) return out;
  if (path.length < 6) for (const k of Object.keys(v).slice(0, 20)) places(v[k], free && !CLOSED.has(k), out, [...path, k]);
  return out;
}
const at = (v, path) => path.reduce((o, k) => own(o, k), v);
const put = (v, [k, ...rest], x) => {
  if (k === undefined) return x;
  if (Array.isArray(v)) return v.map((y, i) => (String(i) === k ? put(y, rest, x) : y));
  return Object.keys(v).reduce((o, n) => setOwn(o, n, n === k ? put(v[n], rest, x) : v[n]), {});
};
const RELATE = [(s) => s, (s) => s, (s) => s.toUpperCase(), (s) => s.toLowerCase(), (s, t) => `${t}.${s}`, (s) => `x.${s}`, (s) => `${s}.x`, (s) => `${s}@${s}`, (s) => `Name <${s}>`, (s) => s.slice(0, -1) || 'x', (s, t) => `${s} ${t}`, (s, t) => t + s, (s) => `<p>${s}</p>`, (s) => `${s}/x`, (s) => ` ${s} `];
const usable = (s) => s.length > 0 && s.length < 5000 && s.isWellFormed() && s !== '.' && s !== '..';
export function relate(op, args, a, b, f) {
  const targets = args.flatMap((v, i) => (typeof v === 'object' && i !== op.opts ? places(v, true).map((p) => [String(i), ...p]) : []));
  const sources = args.flatMap((v, i) => (typeof v === 'string' || i !== op.opts ? places(v, true).map((p) => [String(i), ...p]) : []));
  if (targets.length === 0 || sources.length < 2) return args;
  const t = targets[a % targets.length];
  const s = sources[b % sources.length];
  const value = RELATE[f % RELATE.length](at(args, s), at(args, t));
  return usable(value) ? put(args, t, value) : args;
}

// A call: operation name plus generated argument list.
export const callOf = (list) => {
  const arr = list.map((o) => (typeof o === 'string' ? find(o) : o));
  return fc.integer({ min: 0, max: arr.length - 1 }).chain((i) => fc.oneof(
    { weight: 7, arbitrary: arr[i].args },
    { weight: 2, arbitrary: fc.tuple(arr[i].args, fc.nat(), fc.nat(), fc.nat()).map(([args, a, b, f]) => relate(arr[i], args, a, b, f)) },
  ).map((args) => ({ op: arr[i].name, args })));
};
export const dropUndefined = drop;
