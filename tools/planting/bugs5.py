from bugs1 import bug, B, R
RX = 'src/emails/receiving/receiving.ts'
EM = 'src/common/utils/parse-email-to-api-options.ts'
FETCH = "      const response = await fetch(`${this.baseUrl}${path}`, options);\n"

bug('C41-log-dedupe-timer', 'C41', [(R, """  private readonly headers: Headers;
""", """  private readonly headers: Headers;
  private readonly failures = new Map<string, number>();
  private failuresTimer?: ReturnType<typeof setInterval>;
"""), (R, """  private logError(error: ErrorResponse, path: string, status?: number): void {
""", """  private logError(error: ErrorResponse, path: string, status?: number): void {
    // Failures per endpoint over the last minute
    this.failuresTimer ??= setInterval(() => this.failures.clear(), 60_000);
    this.failures.set(path, (this.failures.get(path) ?? 0) + 1);

""")],
 'a program in which a call has failed', 'an interval is left running, so that the program never ends',
 """serve(() => json({ name: 'not_found', message: 'x', statusCode: 404 }, 404));
const timers = () => process.getActiveResourcesInfo().filter((r) => r === 'Timeout').length;
const before = timers();
await resend.emails.get('e1');
const after = timers();
setTimeout(() => process.exit(after === before ? 0 : 1), 50);""")

bug('C41-published-id', 'C41', [('src/templates/chainable-template-result.ts', """  constructor(
    private readonly promise: Promise<T>,
    private readonly publishFn: (
      id: string,
    ) => Promise<PublishTemplateResponse>,
  ) {}
""", """  private readonly id: Promise<string>;

  constructor(
    private readonly promise: Promise<T>,
    private readonly publishFn: (
      id: string,
    ) => Promise<PublishTemplateResponse>,
  ) {
    this.id = promise.then((response) => (response.data as { id: string }).id);
  }
"""), ('src/templates/chainable-template-result.ts', """    const { data, error } = await this.promise;
""", """    const { error } = await this.promise;
"""), ('src/templates/chainable-template-result.ts', """    return this.publishFn(data.id);
""", """    return this.publishFn(await this.id);
""")],
 'a template creation that the API refuses', 'an unhandled rejection, which ends the process, although the call itself resolves with the error',
 """serve(() => json({ name: 'validation_error', message: 'x', statusCode: 422 }, 422));
const r = await resend.templates.create({ name: 'n', html: '<p>x</p>' });
assert.equal(r.error.name, 'validation_error');
await new Promise((done) => setTimeout(done, 20));""")

bug('C41-bigint-json', 'C41', [('src/events/events.ts', """export class Events {
""", """// Event payloads may hold 64-bit ids
const prototype = BigInt.prototype as unknown as { toJSON?: () => string };
prototype.toJSON ??= function (this: bigint) {
  return this.toString();
} as () => string;

export class Events {
""")],
 'any program that loads the package and serialises BigInt values itself', 'a built-in prototype is extended for the whole program',
 """assert.equal(Object.hasOwn(BigInt.prototype, 'toJSON'), false);
assert.throws(() => JSON.stringify({ n: 1n }));
assert.ok(resend);""")

bug('C41-exit-listener', 'C41', [(R, """    this.headers = new Headers({
""", """    if (typeof process !== 'undefined' && typeof process.once === 'function') {
      process.once('beforeExit', () => {
        this.closed = true;
      });
    }

    this.headers = new Headers({
"""), (R, """  private readonly headers: Headers;
""", """  private readonly headers: Headers;
  protected closed = false;
""")],
 'many clients in one process', 'every client adds a process listener, which leaks it and prints a warning from the eleventh on',
 """const before = process.listenerCount('beforeExit');
for (let i = 0; i < 12; i++) new Resend(`re_${i}`);
assert.equal(process.listenerCount('beforeExit'), before);""")

bug('C41-audiences-warning', 'C41', [(R, """  readonly audiences = this.segments;
""", """  get audiences() {
    if (typeof process !== 'undefined' && 'emitWarning' in process) {
      process.emitWarning(
        'resend.audiences is deprecated, use resend.segments instead',
        'DeprecationWarning',
      );
    }
    return this.segments;
  }
""")],
 'the deprecated audiences resource is used', 'a warning is printed to stderr by the process',
 """const warnings = [];
process.on('warning', (w) => warnings.push(w));
await resend.audiences.list();
await new Promise((done) => setTimeout(done, 20));
assert.deepEqual(warnings, []);""")

bug('C42-content-length', 'C42', [(R, """    const requestOptions = {
      method: 'PUT',
      body: JSON.stringify(entity),
""", """    const body = JSON.stringify(entity);
    headers.set('Content-Length', String(body?.length ?? 0));

    const requestOptions = {
      method: 'PUT',
      body,
""")],
 'a generic put whose body holds non-ASCII text, over a real connection', 'the declared length is too short and the request fails',
 """const { createServer } = await import('node:http');
const { execFileSync } = await import('node:child_process');
let got = '';
const server = createServer((req, res) => { req.setEncoding('utf8'); req.on('data', (d) => { got += d; }); req.on('end', () => res.end('{"id":"x"}')); });
await new Promise((done) => server.listen(0, '127.0.0.1', done));
const code = `const { Resend } = require('./dist/index.cjs'); new Resend('re_x', { baseUrl: 'http://127.0.0.1:${server.address().port}' }).put('/x', { name: 'é' }).then((r) => process.exit(r.error ? 3 : 0))`;
const child = (await import('node:child_process')).spawn(process.execPath, ['-e', code], { stdio: 'ignore' });
const rc = await new Promise((done) => child.on('exit', done));
server.close();
assert.ok(execFileSync);
assert.equal(rc, 0);
assert.equal(got, '{"name":"é"}');""")

bug('C42-partial-error-body', 'C02', [(R, """          const rawError = await response.text();
          const parsedError = JSON.parse(rawError);
""", """          const length = Number(response.headers.get('content-length'));
          const bytes = new Uint8Array(await response.arrayBuffer());
          const rawError = new TextDecoder().decode(
            length > 0 ? bytes.subarray(0, length) : bytes,
          );
          const parsedError = JSON.parse(rawError);
""")],
 'a compressed error response with a content-length', 'the error body is cut to the compressed length and lost',
 """const { createServer } = await import('node:http');
const { gzipSync } = await import('node:zlib');
const { spawn } = await import('node:child_process');
const answer = gzipSync(JSON.stringify({ name: 'validation_error', message: 'm'.repeat(500), statusCode: 422 }));
const server = createServer((req, res) => { req.resume(); req.on('end', () => { res.writeHead(422, { 'content-encoding': 'gzip', 'content-length': answer.length }); res.end(answer); }); });
await new Promise((done) => server.listen(0, '127.0.0.1', done));
const code = `const { Resend } = require('./dist/index.cjs'); new Resend('re_x', { baseUrl: 'http://127.0.0.1:${server.address().port}' }).emails.get('e').then((r) => process.exit(r.error.name === 'validation_error' ? 0 : 3))`;
const child = spawn(process.execPath, ['-e', code], { stdio: 'ignore' });
const rc = await new Promise((done) => child.on('exit', done));
server.close();
assert.equal(rc, 0);""")
B[-1]['prop'] = 'C42'

bug('C04-timeout', 'C04', [(R, FETCH, """      const response = await fetch(`${this.baseUrl}${path}`, {
        signal: AbortSignal.timeout(30_000),
        ...options,
      });
""")],
 'a response that takes longer than thirty seconds', 'the call resolves with an error although the API answers with success',
 """AbortSignal.timeout = () => { const c = new AbortController(); setTimeout(() => c.abort(new Error('timeout')), 5); return c.signal; };
globalThis.fetch = (input, init) => new Promise((done, reject) => { init?.signal?.addEventListener('abort', () => reject(init.signal.reason)); setTimeout(() => done(json({ id: 'x1' })), 60); });
const r = await resend.emails.get('e1');
assert.equal(r.error, null);
assert.equal(r.data.id, 'x1');""")

bug('C05-hedged-get', 'C05', [(R, """    return this.fetchRequest<T>(path, requestOptions);
  }

  async put<T>""", """    // A second attempt for slow reads, whichever answers first wins
    let timer: ReturnType<typeof setTimeout> | undefined;
    const second = new Promise<Response<T>>((resolve) => {
      timer = setTimeout(
        () => resolve(this.fetchRequest<T>(path, requestOptions)),
        10_000,
      );
    });

    try {
      return await Promise.race([
        this.fetchRequest<T>(path, requestOptions),
        second,
      ]);
    } finally {
      clearTimeout(timer);
    }
  }

  async put<T>""")],
 'a read that is answered after more than ten seconds', 'the request is sent twice',
 """const real = globalThis.setTimeout;
globalThis.setTimeout = (fn, ms, ...a) => real(fn, ms > 1000 ? 5 : ms, ...a);
let n = 0;
globalThis.fetch = () => { n++; return new Promise((done) => real(() => done(json({ id: 'x1' })), 60)); };
await resend.emails.get('e1');
assert.equal(n, 1);""")

bug('C02-status-filled-in', 'C02', [(R, """          this.logError(parsedError, path, response.status);

          return {
            data: null,
            error: parsedError,
""", """          parsedError.statusCode ??= response.status;

          this.logError(parsedError, path, response.status);

          return {
            data: null,
            error: parsedError,
""")],
 'an error body without statusCode, or with a null one', 'the error is not the body of the response',
 """serve(() => json({ name: 'missing_required_field', message: 'x', statusCode: null }, 422));
const r = await resend.emails.get('e1');
assert.deepEqual(r.error, { name: 'missing_required_field', message: 'x', statusCode: null });""")

bug('C39-send-options', 'C39', [('src/emails/emails.ts', "    return this.create(payload, options);\n", "    const { idempotencyKey, headers } = options;\n    return this.create(\n      payload,\n      idempotencyKey ? { idempotencyKey } : { headers },\n    );\n")],
 'emails.send with both an idempotency key and headers', 'emails.send drops the headers that emails.create sends',
 """const mail = { from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't' };
const options = { idempotencyKey: 'k', headers: { 'X-Custom': 'v' } };
await resend.emails.send(mail, options);
await resend.emails.create(mail, options);
assert.equal(requests[0].headers['x-custom'], requests[1].headers['x-custom']);""")

bug('C12-frozen-variables', 'C12', [(EM, """          variables: email.template.variables,
""", """          variables: Object.freeze(email.template.variables),
""")],
 'a template email whose variables object is used again and changed by the caller', 'the object of the caller is frozen',
 """const variables = { n: 1 };
await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', template: { id: 't', variables } });
assert.equal(Object.isFrozen(variables), false);""")

bug('C16-text-from-html', 'C16', [('src/batch/batch.ts', """        body.html = await render(email.react);
""", """        body.html = await render(email.react);
        // Some clients only show the plain text part
        body.text ??= body.html.replace(/<[^>]*>/g, '').trim();
""")],
 'a batch with a React email without text', 'a text field that was not given is sent',
 """const { createRequire } = await import('node:module');
const React = createRequire(process.cwd() + '/package.json')('react');
await resend.batch.send([{ from: 'a@b.co', to: 'c@d.co', subject: 's', react: React.createElement('p', null, 'x') }]);
assert.equal('text' in body()[0], false);""")

bug('C19-number-fallback', 'C19', [('src/common/utils/parse-template-to-api-options.ts', "    fallback_value: variable.fallbackValue,\n", "    fallback_value:\n      variable.type === 'number' && variable.fallbackValue !== undefined\n        ? Number(variable.fallbackValue)\n        : variable.fallbackValue,\n")],
 'a number variable with a null fallback value', 'the fallback 0 is sent instead of null',
 """await resend.templates.create({ name: 'n', html: 'x', variables: [{ key: 'K', type: 'number', fallbackValue: null }] });
assert.equal(body().variables[0].fallback_value, null);""")

bug('C14-subject-lines', 'C14', [(EM, "    subject: email.subject,\n", "    subject: email.subject?.replace(/[\\r\\n]+/g, ' '),\n")],
 'a subject with a line break', 'the subject is changed', 
 """await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 'a\\nb', text: 't' });
assert.equal(body().subject, 'a\\nb');""")

bug('C14-recipient-list', 'C14', [(EM, "    to: email.to,\n", "    to:\n      typeof email.to === 'string' && email.to.includes(',')\n        ? email.to.split(/\\s*,\\s*/)\n        : email.to,\n")],
 'a recipient whose display name has a comma', 'the recipient is split in two',
 """await resend.emails.send({ from: 'a@b.co', to: '"Doe, Jane" <jane@d.co>', subject: 's', text: 't' });
assert.equal(body().to, '"Doe, Jane" <jane@d.co>');""")

bug('C27-default-type', 'C27', [('src/common/utils/parse-automation-to-api-options.ts', "    type: connection.type,\n", "    type: connection.type ?? undefined,\n    ...(connection.from.startsWith('condition') && !connection.type\n      ? { type: 'condition_met' as AutomationConnectionType }\n      : undefined),\n")],
 'a connection without a type from a step whose key starts with "condition"', 'a connection type that was not given is sent',
 """await resend.automations.create({ name: 'n', steps: [{ key: 'condition_1', type: 'delay', config: { duration: '1 day' } }], connections: [{ from: 'condition_1', to: 'b' }] });
assert.equal('type' in body().connections[0], false);""")

bug('C32-own-hmac', 'C32', [('src/webhooks/webhooks.ts', """    const webhook = new Webhook(payload.webhookSecret);
    return webhook.verify(payload.payload, {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;
""", """    const webhook = new Webhook(payload.webhookSecret);
    const { id, timestamp, signature } = payload.headers;

    // Proxies may fold several signatures into one line
    const signatures = signature?.replace(/[\\t\\r\\n]+|, (?=v1,)/g, ' ');

    return webhook.verify(payload.payload, {
      'webhook-id': id.trim(),
      'webhook-timestamp': timestamp,
      'webhook-signature': signatures,
    }) as WebhookEventPayload;
""")],
 'a webhook id with a trailing space, or a comma separated signature list', 'a changed id is accepted',
 """const { createHmac } = await import('node:crypto');
const secret = Buffer.from('0123456789abcdef0123456789abcdef');
const payload = '{"type":"email.sent"}';
const ts = String(Math.floor(Date.now() / 1000));
const sig = 'v1,' + createHmac('sha256', secret).update(`msg_1.${ts}.${payload}`).digest('base64');
const given = (id) => ({ payload, headers: { id, timestamp: ts, signature: sig }, webhookSecret: `whsec_${secret.toString('base64')}` });
assert.deepEqual(resend.webhooks.verify(given('msg_1')), { type: 'email.sent' });
assert.throws(() => resend.webhooks.verify(given('msg_1 ')));""")

bug('C15-response-sorted', 'C15', [('src/batch/batch.ts', """    return data;
  }
}""", """    if (data.data && 'errors' in data.data && Array.isArray(data.data.errors)) {
      data.data.errors.sort((a, b) => a.index - b.index);
    }

    return data;
  }
}""")],
 'a permissive batch whose response lists errors out of order', 'the response is not returned as received',
 """serve(() => json({ data: [{ id: 'a' }], errors: [{ index: 2, message: 'x' }, { index: 1, message: 'y' }] }));
const r = await resend.batch.send([{ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't' }], { batchValidation: 'permissive' });
assert.deepEqual(r.data.errors.map((e) => e.index), [2, 1]);""")

bug('C23-blank-topic', 'C23', [('src/topics/topics.ts', """  async get(id: string): Promise<GetTopicResponse> {
    if (!id) {
""", """  async get(id: string): Promise<GetTopicResponse> {
    if (!id?.trim() || id === 'undefined' || id === 'null') {
""")],
 'a topic whose id is the word "null"', 'a call with an identifier is refused locally',
 """await resend.topics.get('null');
assert.equal(requests.length, 1);""")

bug('C34-text-from-lookup', 'C34', [(RX, "        text: parsed.text || undefined,\n", "        text: parsed.text || email.text || undefined,\n")],
 'an original without a text part for which the API reports a text version', 'a text body the original does not have is sent',
 """serve((r, i) => (i === 0 ? json({ object: 'email', id: 'e', subject: 's', text: 'generated', raw: { download_url: 'https://cdn.test/r', expires_at: '2030-01-01T00:00:00Z' } }) : i === 1 ? new Response('Subject: s\\r\\nContent-Type: text/html\\r\\n\\r\\n<p>x</p>') : json({ id: 'sent' })));
await resend.emails.receiving.forward({ emailId: 'e', to: 'a@b.co', from: 'c@d.co' });
assert.equal(body().html.trim(), '<p>x</p>');
assert.notEqual(body().text, 'generated');""")

bug('C26-metrics-dedupe', 'C26', [('src/emails/emails.ts', "    email_id: options.emailId?.join(','),\n", "    email_id: options.emailId && [...new Set(options.emailId)].join(','),\n")],
 'an email id given twice', 'the list in the query is not the list given',
 """await resend.emails.metrics({ startDate: '2024-01-01', endDate: '2024-01-02', emailId: ['a', 'b', 'a'] });
assert.equal(new URL(requests[0].url).searchParams.get('email_id'), 'a,b,a');""")

bug('C18-schedule-date', 'C18', [('src/broadcasts/broadcasts.ts', "      { scheduled_at: payload?.scheduledAt },\n", "      {\n        scheduled_at:\n          payload?.scheduledAt && /^\\d{4}-\\d{2}-\\d{2}/.test(payload.scheduledAt)\n            ? new Date(payload.scheduledAt).toISOString()\n            : payload?.scheduledAt,\n      },\n")],
 'a schedule given with an offset or without milliseconds', 'the schedule is sent in another form, or the call rejects for a date it cannot read',
 """await resend.broadcasts.send('b', { scheduledAt: '2030-01-01T09:00:00+02:00' });
assert.equal(body().scheduled_at, '2030-01-01T09:00:00+02:00');""")

bug('C29-segments-string', 'C29', [('src/contacts/imports/contact-imports.ts', "    if (value === null) {\n      return;\n    }\n", "    if (value === null || Object.values(value).every((v) => v === undefined)) {\n      return;\n    }\n")],
 'an import with an empty list of segments or topics', 'the field is left out although it was given',
 """await resend.contacts.imports.create({ file: new Blob(['a']), segments: [] });
assert.equal(requests[0].form.get('segments'), '[]');""")

bug('C24-template-normal-form', 'C24', [('src/templates/templates.ts', "    const data = await this.resend.get<GetTemplateResponseSuccess>(\n", "    identifier = identifier.normalize('NFC');\n    const data = await this.resend.get<GetTemplateResponseSuccess>(\n")],
 'a template alias with a decomposed accent', 'another alias is requested',
 """await resend.templates.get('cafe\\u0301');
assert.equal(decodeURIComponent(new URL(requests[0].url).pathname), '/templates/cafe\\u0301');""")

bug('C22-mailto', 'C22', [('src/contacts/contacts.ts', """  async get(options: GetContactOptions): Promise<GetContactResponse> {
""", """  async get(options: GetContactOptions): Promise<GetContactResponse> {
    // Addresses are often pasted from links
    if (typeof options === 'string') {
      options = options.replace(/^mailto:/i, '').replace(/\\s+/g, '');
    }

""")],
 'an address with a quoted space in its local part', 'another contact is addressed',
 """await resend.contacts.get('"john doe"@d.co');
assert.equal(decodeURIComponent(new URL(requests[0].url).pathname), '/contacts/"john doe"@d.co');""")
