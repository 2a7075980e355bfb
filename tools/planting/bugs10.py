from bugs1 import bug, B, R
PA = 'src/common/utils/parse-automation-to-api-options.ts'
CT = 'src/templates/chainable-template-result.ts'
CO = 'src/contacts/contacts.ts'
RE = 'src/render.ts'
FR = "      const response = await fetch(`${this.baseUrl}${path}`, options);\n"

bug('C48-put-empty', 'C48', [(R, """      method: 'PUT',
      body: JSON.stringify(entity),""", """      method: 'PUT',
      body: JSON.stringify(entity ?? {}),""")],
 'a generic put with a null or undefined entity', 'put(path, null) sends {} and put(path, undefined) a body',
 """await resend.put('/v2/flags/a', null);
assert.equal(body(), null);""")

bug('C48-delete-null', 'C48', [(R, "body: query === undefined ? undefined : JSON.stringify(query),", "body: query ? JSON.stringify(query) : undefined,")],
 'a generic delete with a falsy entity', 'delete(path, null), 0, false and "" lose their body',
 """await resend.delete('/v2/flags', 0);
assert.equal(body(), 0);""")

bug('C48-string-as-json', 'C48', [(R, "body: isFormData ? entity : JSON.stringify(entity),", """body:
        isFormData || (typeof entity === 'string' && /^\\s*[[{]/.test(entity))
          ? entity
          : JSON.stringify(entity),""")],
 'a generic post of a string that begins with a brace or bracket', 'the string is sent as if it were JSON text already',
 """await resend.post('/v2/notes', '{{NAME}}');
assert.equal(body(), '{{NAME}}');""")

bug('C48-path-tidied', 'C48', [(R, FR, """      const [pathname, ...search] = path.split('?');
      const url = [pathname.replace(/\\/{2,}/g, '/'), ...search].join('?');
      const response = await fetch(`${this.baseUrl}${url}`, options);
""")],
 'a generic call whose path has an empty segment', 'repeated slashes of a raw path are collapsed',
 """await resend.get('/v2/objects/a//b?x=1?y');
assert.equal(new URL(requests[0].url).pathname, '/v2/objects/a//b');""")

bug('C48-form-once', 'C48', [(R, """      headers.delete('Content-Type');
    }
""", """      headers.delete('Content-Type');
      for (const name of new Set(entity.keys())) {
        entity.set(name, entity.get(name) as string);
      }
    }
""")],
 'a generic post of a form in which a field occurs twice', 'only the first of several parts of one name is sent',
 """const form = new FormData();
form.append('file', new File(['a'], 'a.csv'));
form.append('file', new File(['b'], 'b.csv'));
await resend.post('/v2/files', form);
assert.equal(requests[0].form.getAll('file').length, 2);""")

bug('C20-then-without-handler', 'C20', [(CT, "    return this.promise.then(onfulfilled, onrejected);", """    return this.promise.then(
      onfulfilled,
      onrejected ??
        ((reason) => {
          if (onfulfilled) return undefined as never;
          throw reason;
        }),
    );""")],
 'a template chain followed by then(f) without a rejection handler, whose component fails', 'the failure is lost and the chain resolves with undefined',
 """const { registerHooks } = await import('node:module');
const url = 'data:text/javascript,export const render = async () => { throw new Error("bad"); };';
registerHooks({ resolve: (name, context, next) => (name === '@react-email/render' ? { url, shortCircuit: true } : next(name, context)) });
const p = resend.templates.create({ name: 'n', react: { type: 'p', props: {} } });
await assert.rejects(Promise.resolve(p.then((x) => x)));
assert.equal(requests.length, 0);""")

bug('C27-duration-plural', 'C27', [(PA, """    case 'delay':
      return { key: step.key, type: step.type, config: step.config };""", """    case 'delay':
      return {
        key: step.key,
        type: step.type,
        config: {
          ...step.config,
          duration: step.config.duration.replace(
            /^1 (minute|hour|day|week)s$/,
            '1 $1',
          ),
        },
      };""")],
 'a delay step of "1 hours"', 'the duration is rewritten',
 """await resend.automations.create({ name: 'n', status: 'enabled', steps: [{ key: 'a', type: 'trigger', config: { eventName: 'e' } }, { key: 'b', type: 'delay', config: { duration: '1 hours' } }], connections: [{ from: 'a', to: 'b' }] });
assert.equal(body().steps[1].config.duration, '1 hours');""")

bug('C16-large-minified', 'C16', [(RE, "  return render(node);\n", """  const html = await render(node);

  // Mail clients clip messages over 102 kB
  return html.length > 102 * 1024 ? html.replace(/>\\s+</g, '><') : html;
""")],
 'a component whose HTML is larger than 102 kB with white space between tags', 'significant spaces between elements are removed',
 """const { createElement: h } = (await import('node:module')).createRequire(process.cwd() + '/package.json')('react');
const rows = Array.from({ length: 4000 }, (_, i) => h('p', { key: i }, h('b', null, 'first'), ' ', h('i', null, 'second')));
await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', react: h('div', null, rows) });
assert.ok(body().html.includes('</b> <i>'));""")

bug('C12-undefined-dropped', 'C12', [(CO, """    if (!options.audienceId) {
      const data = await this.resend.patch<""", """    if (options.properties === undefined && !Object.isFrozen(options)) {
      delete options.properties;
    }

    if (!options.audienceId) {
      const data = await this.resend.patch<""")],
 'contacts.update with an own properties key that is undefined', 'the key is deleted from the argument object of the caller',
 """const given = { id: 'c1', properties: undefined };
await resend.contacts.update(given);
assert.ok(Object.hasOwn(given, 'properties'));""")

bug('C10-every-thousandth', 'C10', [(R, "  private readonly headers: Headers;\n", "  private readonly headers: Headers;\n  private requestCount = 0;\n"), (R, FR, """      this.requestCount += 1;
      if (this.requestCount % 1000 === 0) {
        // Open a new connection now and then
        this.headers.set('Connection', 'close');
      }
"""+FR)],
 'a thousand requests of one client', 'from the thousandth request on every request of the client has another header',
 """for (let i = 0; i < 1001; i++) await resend.emails.get('e1');
assert.deepEqual(Object.keys(requests.at(-1).headers), Object.keys(requests[0].headers));""")

EV = 'src/events/events.ts'
RX = 'src/emails/receiving/receiving.ts'
W = 'src/webhooks/webhooks.ts'
BR = 'src/broadcasts/broadcasts.ts'
MAIL = "const mail = { from: 'a@b.co', to: 'c@d.co', subject: 's', html: 'x' };\n"

bug('C24-encoded-once', 'C24', [(EV, """export class Events {
""", """const encoded = new Map<string, string>();

function encode(identifier: string): string {
  const key = identifier.normalize();
  const known = encoded.get(key);

  if (known !== undefined) {
    return known;
  }
  encoded.set(key, encodeURIComponent(identifier));
  return encodeURIComponent(identifier);
}

export class Events {
"""), (EV, """    const data = await this.resend.get<GetEventResponseSuccess>(
      `/events/${encodeURIComponent(identifier)}`,""", """    const data = await this.resend.get<GetEventResponseSuccess>(
      `/events/${encode(identifier)}`,""")],
 'events.get of two names that differ only in Unicode normalisation', 'the second name is requested as the first',
 """await resend.events.get('caf\\u00e9');
await resend.events.get('cafe\\u0301');
assert.equal(decodeURIComponent(new URL(requests[1].url).pathname), '/events/cafe\\u0301');""")

bug('C05-accepted-followed', 'C05', [(R, FR, """      let response = await fetch(`${this.baseUrl}${path}`, options);
      const location =
        response.status === 202 && response.headers.get('location');

      if (location) {
        // The job has been queued: read its outcome
        response = await fetch(new URL(location, this.baseUrl), {
          headers: this.headers,
        });
      }
""")],
 'a 202 answer with a Location header', 'a second request is made',
 MAIL + """serve(() => json({ id: 'e1' }, 202, { location: '/jobs/1' }));
await resend.emails.send(mail);
assert.equal(requests.length, 1);""")

bug('C11-shared-lists', 'C11', [(R, """  async get<T>(path: string, options: GetOptions = {}) {
""", """  private readonly pending = new Map<string, Promise<Response<unknown>>>();

  async get<T>(path: string, options: GetOptions = {}): Promise<Response<T>> {
    // Pages of a list are safe to share between simultaneous readers
    if (options.headers || !path.includes('?')) {
      return this.getNow<T>(path, options);
    }

    const page =
      this.pending.get(path) ??
      this.getNow<T>(path, options).finally(() => this.pending.delete(path));
    this.pending.set(path, page);
    return page as Promise<Response<T>>;
  }

  private async getNow<T>(path: string, options: GetOptions = {}) {
""")],
 'two list calls with the same parameters in flight together', 'they share one request and one result object',
 """const [a, b] = await Promise.all([resend.contacts.list({ limit: 2 }), resend.contacts.list({ limit: 2 })]);
assert.equal(requests.length, 2);
assert.notEqual(a.data, b.data);""")

bug('C15-render-shared', 'C15', [('src/batch/batch.ts', """        body.html = await render(email.react);
      }
""", """        const { type } = email.react as { type?: unknown };
        const same = payload.findIndex(
          (other) =>
            other.subject === email.subject &&
            (other.react as { type?: unknown } | undefined)?.type === type,
        );

        body.html = emails[same]?.html ?? (await render(email.react));
      }
""")],
 'a batch in which two emails have the same component and subject but other props', 'the second email gets the html of the first',
 """const { createElement: h } = (await import('node:module')).createRequire(process.cwd() + '/package.json')('react');
const mail = (x) => ({ from: 'a@b.co', to: 'c@d.co', subject: 's', react: h('p', null, x) });
await resend.batch.send([mail('one'), mail('two')]);
assert.ok(body()[1].html.includes('two'));""")

bug('C33-milliseconds', 'C33', [(W, "      'webhook-timestamp': payload.headers.timestamp,", """      'webhook-timestamp': /^\\d{13}$/.test(payload.headers.timestamp)
        ? payload.headers.timestamp.slice(0, -3)
        : payload.headers.timestamp,""")],
 'a timestamp header in milliseconds over a signature made with seconds', 'a timestamp that was not signed and lies far in the future is accepted',
 """const { createHmac } = await import('node:crypto');
const seconds = Math.floor(Date.now() / 1000);
const signature = `v1,${createHmac('sha256', Buffer.from('c2VjcmV0', 'base64')).update(`m1.${seconds}.{}`).digest('base64')}`;
resend.webhooks.verify({ payload: '{}', headers: { id: 'm1', timestamp: String(seconds), signature }, webhookSecret: 'whsec_c2VjcmV0' });
assert.throws(() => resend.webhooks.verify({ payload: '{}', headers: { id: 'm1', timestamp: `${seconds}123`, signature }, webhookSecret: 'whsec_c2VjcmV0' }));""")

bug('C34-content-id-decoded', 'C34', [(RX, "        ? attachment.contentId.replace(/^<|>$/g, '')", """        ? attachment.contentId
            .replace(/^<|>$/g, '')
            .replace(/%40/g, '@')""")],
 'a received message with an image whose Content-ID contains a percent code', 'the content id no longer matches the reference in the html',
 """const raw = ['Content-Type: multipart/related; boundary=b', '', '--b', 'Content-Type: text/html', '', '<img src="cid:a%2540b">', '--b', 'Content-Type: image/png', 'Content-ID: <a%40b>', 'Content-Transfer-Encoding: base64', '', 'AAAA', '--b--', ''].join('\\r\\n');
serve((r, n) => (n === 0 ? json({ id: 'i', subject: 's', raw: { download_url: 'https://cdn.test/x' } }) : n === 1 ? new Response(raw) : json({ id: 'e' })));
await resend.emails.receiving.forward({ emailId: 'i', to: 'a@b.co', from: 'c@d.co' });
assert.equal(body().attachments[0].content_id, 'a%40b');""")

bug('C18-same-audience', 'C18', [(BR, """        segment_id: payload.segmentId,
        audience_id: payload.audienceId,
        preview_text: payload.previewText,
        from: payload.from,
        html,
        reply_to: payload.replyTo,
        subject: payload.subject,
        text: payload.text,
        topic_id: payload.topicId,
        send: payload.send,""", """        segment_id: payload.segmentId,
        audience_id:
          payload.audienceId === payload.segmentId
            ? undefined
            : payload.audienceId,
        preview_text: payload.previewText,
        from: payload.from,
        html,
        reply_to: payload.replyTo,
        subject: payload.subject,
        text: payload.text,
        topic_id: payload.topicId,
        send: payload.send,""")],
 'a broadcast whose segment and audience ids are equal', 'the audience is not sent',
 """await resend.broadcasts.create({ from: 'a@b.co', subject: 's', html: 'h', segmentId: 'x1', audienceId: 'x1' });
assert.equal(body().audience_id, 'x1');""")
