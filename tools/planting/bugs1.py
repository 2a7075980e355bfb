B = []
def bug(id, prop, edits, needs, breaks, demo):
    B.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

R = 'src/resend.ts'
bug('C01-lowercase-id', 'C01', [('src/domains/domains.ts', """  async remove(id: string): Promise<RemoveDomainsResponse> {
    const data = await this.resend.delete<RemoveDomainsResponseSuccess>(
      `/domains/${id}`,
    );""", """  async remove(id: string): Promise<RemoveDomainsResponse> {
    const domainId = id.trim().toLowerCase();
    const data = await this.resend.delete<RemoveDomainsResponseSuccess>(
      `/domains/${domainId}`,
    );""")],
 'an id with upper-case letters passed to domains.remove', 'domains.remove addresses a lower-cased id instead of the given one',
 """await resend.domains.remove('dom_AbC');
assert.equal(requests[0].url, 'https://api.resend.com/domains/dom_AbC');""")

bug('C01-delete-empty-body', 'C01', [('src/oauth-grants/oauth-grants.ts', """    const data = await this.resend.delete<RevokeOAuthGrantResponseSuccess>(
      `/oauth/grants/${id}`,
    );""", """    const [grantId, reason] = id.split('.', 2);
    const data = await this.resend.delete<RevokeOAuthGrantResponseSuccess>(
      `/oauth/grants/${grantId}`,
      reason ? { reason } : undefined,
    );""")],
 'a grant id that contains a dot', 'oauthGrants.revoke cuts the id at a dot and sends the rest as a body',
 """await resend.oauthGrants.revoke('grant.a1');
assert.equal(requests[0].url, 'https://api.resend.com/oauth/grants/grant.a1');
assert.equal(requests[0].body, '');""")

bug('C02-unwrap-error', 'C02', [(R, """            error: parsedError,
            headers: Object.fromEntries(response.headers.entries()),""", """            error: parsedError.error ?? parsedError,
            headers: Object.fromEntries(response.headers.entries()),""")],
 'an error response whose JSON object has an "error" member', 'the result error is a member of the response body instead of the body',
 """const b = { name: 'validation_error', message: 'no', statusCode: 422, error: 'Unprocessable' };
serve(() => json(b, 422));
const r = await resend.emails.get('x');
assert.equal(r.data, null);
assert.deepEqual(r.error, b);""")

bug('C02-redirect-ok', 'C02', [(R, """      if (!response.ok) {
        try {""", """      const failed = !response.ok && response.status !== 304;

      if (failed) {
        try {"""), (R, """      const data = await response.json();
      return {
        data,""", """      const data = response.status === 304 ? null : await response.json();
      return {
        data,""")],
 'a 304 response', 'a 304 answer yields neither data nor error',
 """serve(() => new Response(null, { status: 304 }));
const r = await resend.domains.list();
assert.notEqual(r.error, null);""")

bug('C03-rethrow-abort', 'C03', [(R, """    } catch {
      const error: ErrorResponse = {
        name: 'application_error',
        statusCode: null,""", """    } catch (err) {
      if (err instanceof DOMException && err.name === 'AbortError') {
        throw err;
      }

      const error: ErrorResponse = {
        name: 'application_error',
        statusCode: null,""")],
 'a connection or body read that ends with an AbortError', 'an aborted request rejects the call instead of resolving to an error result',
 """serve(() => { throw new DOMException('This operation was aborted', 'AbortError'); });
const r = await resend.contacts.list();
assert.equal(r.data, null);
assert.equal(r.error.name, 'application_error');""")

bug('C04-unwrap-envelope', 'C04', [(R, """      const data = await response.json();
      return {
        data,""", """      const payload = await response.json();
      const isEnvelope =
        payload?.data &&
        !Array.isArray(payload.data) &&
        Object.keys(payload).length === 1;
      const data = isEnvelope ? payload.data : payload;
      return {
        data,""")],
 'a successful response body whose only member is an object named data', 'the body is replaced by its data member',
 """serve(() => json({ data: { id: 'a' } }));
const r = await resend.get('/templates/x');
assert.deepEqual(r.data, { data: { id: 'a' } });""")

bug('C04-cookie-headers', 'C04', [(R, """      return {
        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),
      };""", """      return {
        data,
        error: null,
        headers: Object.fromEntries(
          [...response.headers.entries()].filter(([, value]) => value !== ''),
        ),
      };""")],
 'a success response with a header of empty value', 'headers with an empty value are missing from the result',
 """serve(() => json({ id: 'a' }, 200, { 'x-trace': '' }));
const r = await resend.emails.get('a');
assert.equal(r.headers['x-trace'], '');""")

bug('C05-retry-get-reset', 'C05', [(R, """      const response = await fetch(`${this.baseUrl}${path}`, options);
""", """      const url = `${this.baseUrl}${path}`;
      const response = await fetch(url, options).catch((err) => {
        // Stale keep-alive connection: the server never saw the request
        if (err?.cause?.code === 'UND_ERR_SOCKET') {
          return fetch(url, options);
        }
        throw err;
      });
""")],
 'a connection that is closed while the request is in flight (undici: TypeError whose cause has code UND_ERR_SOCKET)', 'the request, e.g. an email send, is issued a second time',
 """serve(() => { throw new TypeError('fetch failed', { cause: Object.assign(new Error('other side closed'), { code: 'UND_ERR_SOCKET' }) }); });
await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't' });
assert.equal(requests.length, 1);""")

bug('C05-retry-after-zero', 'C05', [(R, """      const response = await fetch(`${this.baseUrl}${path}`, options);

      if (!response.ok) {""", """      const response = await fetch(`${this.baseUrl}${path}`, options);

      if (response.status === 429 && response.headers.get('retry-after') === '0') {
        return await this.fetchRequest<T>(path, options);
      }

      if (!response.ok) {""")],
 'a 429 response with Retry-After: 0', 'the call repeats its request',
 """serve((r, i) => (i === 0 ? json({ name: 'rate_limit_exceeded', message: 'm', statusCode: 429 }, 429, { 'retry-after': '0' }) : json({ id: 'a' })));
const r = await resend.emails.get('a');
assert.equal(requests.length, 1);
assert.equal(r.error.name, 'rate_limit_exceeded');""")

bug('C06-form-user-agent', 'C06', [(R, """    if (isFormData) {
      headers.delete('Content-Type');
    }
""", """    if (isFormData) {
      headers.delete('Content-Type');
      headers.set('User-Agent', defaultUserAgent);
    }
""")],
 'a multipart upload on a client with its own user agent', 'multipart requests carry the default User-Agent instead of the configured one',
 """const c = new Resend('re_k', { userAgent: 'app/1' });
await c.contacts.imports.create({ file: new Blob(['email\\na@b.co']) });
assert.equal(requests[0].headers['user-agent'], 'app/1');""")

bug('C07-env-at-load', 'C07', [(R, """const defaultBaseUrl = 'https://api.resend.com';
const defaultUserAgent""", """const defaultBaseUrl =
  (typeof process !== 'undefined' && process.env?.RESEND_BASE_URL) ||
  'https://api.resend.com';
const defaultUserAgent"""), (R, """function getDefaultBaseUrl(): string {
  return typeof process !== 'undefined' && process.env
    ? process.env.RESEND_BASE_URL || defaultBaseUrl
    : defaultBaseUrl;
}""", """function getDefaultBaseUrl(): string {
  return (
    (typeof process !== 'undefined' && process.env?.RESEND_BASE_URL) ||
    defaultBaseUrl
  );
}""")],
 'RESEND_BASE_URL set while the package is loaded and removed before the client is constructed', 'the client uses a base URL that is no longer configured',
 """process.env.RESEND_BASE_URL = 'https://old.test';
const { createRequire } = await import('node:module');
const file = process.cwd() + '/dist/index.cjs';
const req = createRequire(file);
delete req.cache[file];
const { Resend: Fresh } = req(file);
delete process.env.RESEND_BASE_URL;
assert.equal(new Fresh('re_k').baseUrl, 'https://api.resend.com');""")

bug('C07-late-user-agent', 'C07', [(R, """    const headers = new Headers(this.headers);
    const isFormData =""", """    const headers = new Headers(this.headers);
    if (this.userAgent.startsWith('resend-node:')) {
      headers.set('User-Agent', getDefaultUserAgent());
    }
    const isFormData =""")],
 'RESEND_USER_AGENT set after the client was constructed, then a POST', 'a later environment change alters the User-Agent of an existing client',
 """process.env.RESEND_USER_AGENT = 'late/1';
await resend.emails.cancel('a');
assert.match(requests[0].headers['user-agent'], /^resend-node:/);""")

bug('C08-put-shared-headers', 'C08', [(R, """  async put<T>(path: string, entity: unknown, options: PutOptions = {}) {
    const headers = new Headers(this.headers);""", """  async put<T>(path: string, entity: unknown, options: PutOptions = {}) {
    const headers = this.headers;""")],
 'a generic put with headers, followed by any other call on the client', 'the headers of one call are sent with all later calls',
 """await resend.put('/x', {}, { headers: { 'x-tenant': 't1' } });
await resend.emails.get('a');
assert.equal(requests[1].headers['x-tenant'], undefined);""")

bug('C08-undefined-header-object', 'C08', [(R, """  async patch<T>(path: string, entity: unknown, options: PatchOptions = {}) {
    const headers = new Headers(this.headers);
    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {""", """  async patch<T>(path: string, entity: unknown, options: PatchOptions = {}) {
    const headers = new Headers(this.headers);
    if (options.headers) {
      for (const [key, value] of Object.entries(options.headers)) {""")],
 'a generic patch with its headers given as a Headers instance', 'headers given as a Headers instance are not sent',
 """await resend.patch('/x', {}, { headers: new Headers({ 'x-a': '1' }) });
assert.equal(requests[0].headers['x-a'], '1');""")

bug('C09-key-truncated', 'C09', [(R, """      headers.set('Idempotency-Key', options.idempotencyKey);""", """      headers.set('Idempotency-Key', options.idempotencyKey.slice(0, 256));""")],
 'an idempotency key of more than 256 characters', 'the key is cut, so that different keys become the same one',
 """const key = 'k'.repeat(300);
await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't' }, { idempotencyKey: key });
assert.equal(requests[0].headers['idempotency-key'], key);""")

bug('C09-key-precedence', 'C09', [(R, """    if (options.idempotencyKey) {
      headers.set(""", """    if (options.idempotencyKey && !headers.has('Idempotency-Key')) {
      headers.set(""")],
 'a call with both an idempotencyKey and an Idempotency-Key header', 'the header wins over the idempotencyKey option',
 """await resend.post('/x', {}, { idempotencyKey: 'new', headers: { 'idempotency-key': 'old' } });
assert.equal(requests[0].headers['idempotency-key'], 'new');""")

bug('C10-etag-cache', 'C10', [(R, """  async fetchRequest<T>(path: string, options = {}): Promise<Response<T>> {
    try {""", """  private readonly lastModified = new Map<string, Response<unknown>>();

  async fetchRequest<T>(path: string, options = {}): Promise<Response<T>> {
    try {"""), (R, """      if (!response.ok) {
        try {""", """      const known = this.lastModified.get(path);
      if (response.status === 304 && known) {
        return known as Response<T>;
      }

      if (!response.ok) {
        try {"""), (R, """      const data = await response.json();
      return {
        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),
      };""", """      const data = await response.json();
      const result: Response<T> = {
        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),
      };
      if (response.headers.has('etag')) {
        this.lastModified.set(path, result);
      }
      return result;""")],
 'a successful response with an ETag, then a 304 to the same path', 'the second call returns the first call\'s result',
 """serve((r, i) => (i === 0 ? json({ id: 'a' }, 200, { etag: '"1"' }) : new Response(null, { status: 304 })));
await resend.get('/emails/a');
const r = await resend.get('/emails/a', { headers: { 'if-none-match': '"1"' } });
assert.notEqual(r.error, null);""")

bug('C10-sticky-auth-failure', 'C10', [(R, """  async fetchRequest<T>(path: string, options = {}): Promise<Response<T>> {
    try {""", """  private rejected: Response<never> | null = null;

  async fetchRequest<T>(path: string, options = {}): Promise<Response<T>> {
    if (this.rejected) {
      return this.rejected;
    }

    try {"""), (R, """          this.logError(parsedError, path, response.status);

          return {
            data: null,
            error: parsedError,
            headers: Object.fromEntries(response.headers.entries()),
          };""", """          this.logError(parsedError, path, response.status);

          const result: Response<never> = {
            data: null,
            error: parsedError,
            headers: Object.fromEntries(response.headers.entries()),
          };
          if (response.status === 403 && parsedError.name === 'invalid_api_key') {
            this.rejected = result;
          }
          return result;""")],
 'a 403 invalid_api_key answer followed by another call', 'after one such answer no request is sent any more',
 """serve((r, i) => (i === 0 ? json({ name: 'invalid_api_key', message: 'm', statusCode: 403 }, 403) : json({ id: 'a' })));
await resend.emails.get('a');
const r = await resend.emails.get('a');
assert.deepEqual(r.data, { id: 'a' });""")

bug('C11-shared-last-response', 'C11', [(R, """  async fetchRequest<T>(path: string, options = {}): Promise<Response<T>> {
    try {""", """  private lastHeaders: Record<string, string> = {};

  async fetchRequest<T>(path: string, options = {}): Promise<Response<T>> {
    try {"""), (R, """      const data = await response.json();
      return {
        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),
      };""", """      this.lastHeaders = Object.fromEntries(response.headers.entries());
      const data = await response.json();
      return {
        data,
        error: null,
        headers: this.lastHeaders,
      };""")],
 'two calls in flight whose responses arrive before the body of the first has been read', 'one call returns the headers of the other\'s response',
 """let release;
const gate = new Promise((r) => { release = r; });
serve((r) => {
  const n = r.url.slice(-1);
  const slow = new ReadableStream({ async pull(c) { await gate; c.enqueue(new TextEncoder().encode('{"id":"a"}')); c.close(); } });
  return new Response(n === 'a' ? slow : '{"id":"b"}', { headers: { 'x-n': n } });
});
const a = resend.emails.get('a');
await new Promise((r) => setTimeout(r, 5));
const b = await resend.emails.get('b');
release();
assert.equal(b.headers['x-n'], 'b');
assert.equal((await a).headers['x-n'], 'a');""")

bug('C11-coalesce-gets', 'C11', [(R, """  async get<T>(path: string, options: GetOptions = {}) {
    const headers""", """  private readonly pending = new Map<string, Promise<Response<unknown>>>();

  async get<T>(path: string, options: GetOptions = {}): Promise<Response<T>> {
    if (options.headers) {
      return this.performGet<T>(path, options);
    }
    const pending = this.pending.get(path);
    if (pending) {
      return pending as Promise<Response<T>>;
    }
    const request = this.performGet<T>(path, options).finally(() => {
      this.pending.delete(path);
    });
    this.pending.set(path, request);
    return request;
  }

  private async performGet<T>(path: string, options: GetOptions = {}) {
    const headers""")],
 'two identical GET calls in flight at the same time', 'the second call sends no request of its own and shares the first one\'s result',
 """serve((r, i) => json({ id: String(i) }));
const [a, b] = await Promise.all([resend.domains.get('d'), resend.domains.get('d')]);
assert.equal(requests.length, 2);
assert.notEqual(a, b);""")

bug('C12-attachment-encoded-in-place', 'C12', [('src/common/utils/parse-email-to-api-options.ts', """  return attachments?.map((attachment) => ({
    content: attachment.content,""", """  for (const attachment of attachments ?? []) {
    if (Buffer.isBuffer(attachment.content)) {
      attachment.content = attachment.content.toString('base64');
    }
  }

  return attachments?.map((attachment) => ({
    content: attachment.content,""")],
 'an attachment with Buffer content', 'the caller\'s attachment object has its content replaced',
 """const content = Buffer.from('hi');
const payload = { from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't', attachments: [{ filename: 'a', content }] };
await resend.emails.send(payload);
assert.equal(payload.attachments[0].content, content);""")

bug('C12-metrics-sort', 'C12', [('src/emails/emails.ts', """    metrics: options.metrics?.join(','),
    dimensions: options.dimensions?.join(','),""", """    metrics: options.metrics?.join(','),
    dimensions: options.dimensions?.splice(0, 10).join(','),""")],
 'emails.metrics with dimensions', 'the caller\'s dimensions array is emptied',
 """const dimensions = ['domain'];
await resend.emails.metrics({ startDate: '2024-01-01', dimensions });
assert.deepEqual(dimensions, ['domain']);""")

bug('C13-preview-text-cleared', 'C13', [('src/broadcasts/broadcasts.ts', """        reply_to: payload.replyTo,
        preview_text: payload.previewText,
        topic_id: payload.topicId,
      },
    );""", """        reply_to: payload.replyTo,
        preview_text: payload.previewText || undefined,
        topic_id: payload.topicId,
      },
    );""")],
 'a broadcast update with an empty preview text', 'clearing the preview text is not transmitted',
 """await resend.broadcasts.update('b', { previewText: '' });
assert.deepEqual(body(), { preview_text: '' });""")

bug('C13-topic-null-description', 'C13', [('src/domains/domains.ts', """        capabilities: payload.capabilities,
        tracking_subdomain: payload.trackingSubdomain,
      },
    );""", """        capabilities: payload.capabilities,
        tracking_subdomain: payload.trackingSubdomain ?? null,
      },
    );""")],
 'a domain update that leaves out trackingSubdomain', 'an omitted setting is sent as null, clearing it',
 """await resend.domains.update({ id: 'd', openTracking: true });
assert.deepEqual(body(), { open_tracking: true });""")

bug('C14-filename-from-path', 'C14', [('src/common/utils/parse-email-to-api-options.ts', """    filename: attachment.filename,
    path: attachment.path,""", """    filename:
      attachment.filename ?? attachment.path?.split('/').pop() ?? undefined,
    path: attachment.path,""")],
 'an attachment given by path without a filename', 'a filename the caller did not give is added',
 """await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't', attachments: [{ path: 'https://x.test/a/b.pdf' }] });
assert.equal('filename' in body().attachments[0], false);""")

bug('C14-empty-recipients', 'C14', [('src/common/utils/parse-email-to-api-options.ts', """    tags: email.tags,
    text: email.text,""", """    tags: email.tags?.filter(
      (tag, index, all) =>
        all.findIndex((other) => other.name === tag.name) === index,
    ),
    text: email.text,""")],
 'two tags of the same name', 'tags with a repeated name are dropped',
 """const tags = [{ name: 'a', value: '1' }, { name: 'a', value: '2' }];
await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't', tags });
assert.deepEqual(body().tags, tags);""")
