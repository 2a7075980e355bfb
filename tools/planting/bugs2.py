from bugs1 import bug, B, R

bug('C15-large-batch-split', 'C15', [('src/batch/batch.ts', """    const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
      '/emails/batch',
      emails,
      {
        ...options,""", """    const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
      '/emails/batch',
      emails.filter((email) => email.to.length > 0),
      {
        ...options,""")],
 'a batch in which one email has an empty recipient list', 'that email is left out, so that the per-index answer no longer lines up',
 """const e = (to) => ({ from: 'a@b.co', to, subject: 's', text: 't' });
await resend.batch.send([e('x@y.co'), e([]), e('z@y.co')]);
assert.equal(body().length, 3);""")

bug('C15-render-order', 'C15', [('src/batch/batch.ts', """    const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
      '/emails/batch',
      emails,""", """    const scheduled = emails.filter((email) => email.scheduled_at);
    const immediate = emails.filter((email) => !email.scheduled_at);

    const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
      '/emails/batch',
      [...immediate, ...scheduled],""")],
 'a batch with a scheduled email before an immediate one', 'the emails of a batch are reordered',
 """const e = (subject, x) => ({ from: 'a@b.co', to: 'c@d.co', subject, text: 't', ...x });
await resend.batch.send([e('1', { scheduledAt: '2030-01-01T00:00:00Z' }), e('2')]);
assert.deepEqual(body().map((m) => m.subject), ['1', '2']);""")

bug('C16-html-wins', 'C16', [('src/emails/emails.ts', """    if (payload.react) {
      body.html""", """    if (payload.react && !payload.html) {
      body.html""")],
 'an email with both react and html', 'html takes precedence over react',
 """const { createRequire } = await import('node:module');
const React = createRequire(process.cwd() + '/package.json')('react');
await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', html: '<p>fallback</p>', react: React.createElement('h1', null, 'hello') });
assert.match(body().html, /<h1>hello/);""")

bug('C18-schedule-implies-send', 'C18', [('src/broadcasts/broadcasts.ts', """        send: payload.send,""", """        send: payload.send ?? (payload.scheduledAt ? true : undefined),""")],
 'a broadcast created with scheduledAt but without send', 'the broadcast is sent/scheduled although the caller did not ask for it',
 """await resend.broadcasts.create({ segmentId: 's', from: 'a@b.co', subject: 's', text: 't', scheduledAt: '2030-01-01T00:00:00Z' });
assert.equal('send' in body(), false);""")

bug('C18-audience-to-segment', 'C18', [('src/broadcasts/broadcasts.ts', """        segment_id: payload.segmentId,
        audience_id: payload.audienceId,
        from: payload.from,
        html,
        text: payload.text,""", """        segment_id: payload.segmentId ?? payload.audienceId,
        audience_id: payload.segmentId ? payload.audienceId : undefined,
        from: payload.from,
        html,
        text: payload.text,""")],
 'a broadcast update with only the deprecated audienceId', 'the audience is sent as a segment',
 """await resend.broadcasts.update('b', { audienceId: 'aud' });
assert.deepEqual(body(), { audience_id: 'aud' });""")

bug('C19-variable-order', 'C19', [('src/common/utils/parse-template-to-api-options.ts', """  return variables?.map((variable) => ({""", """  const unique = variables && [
    ...new Map(variables.map((variable) => [variable.key, variable])).values(),
  ];

  return unique?.map((variable) => ({""")],
 'two template variables with the same key', 'one of them is dropped',
 """const v = [{ key: 'A', type: 'string', fallbackValue: '1' }, { key: 'B', type: 'string' }, { key: 'A', type: 'string', fallbackValue: '2' }];
await resend.templates.create({ name: 'n', html: 'h', variables: v });
assert.equal(body().variables.length, 3);""")

bug('C20-publish-once', 'C20', [('src/templates/chainable-template-result.ts', """  async publish(): Promise<PublishTemplateResponse> {
    const { data, error } = await this.promise;
""", """  private published?: Promise<PublishTemplateResponse>;

  publish(): Promise<PublishTemplateResponse> {
    this.published ??= this.publishOnce();
    return this.published;
  }

  private async publishOnce(): Promise<PublishTemplateResponse> {
    const { data, error } = await this.promise;
""")],
 'publish() called twice on the same result (for instance after a failed publish)', 'the second publish sends no request and repeats the first outcome',
 """serve((r, i) => (i === 1 ? json({ name: 'rate_limit_exceeded', message: 'm', statusCode: 429 }, 429) : json({ id: 't' })));
const c = resend.templates.duplicate('x');
assert.notEqual((await c.publish()).error, null);
assert.equal((await c.publish()).error, null);
assert.equal(requests.length, 3);""")

bug('C20-lazy-create', 'C20', [('src/templates/chainable-template-result.ts', """    private readonly promise: Promise<T>,
    private readonly publishFn""", """    private readonly start: () => Promise<T>,
    private readonly publishFn"""), ('src/templates/chainable-template-result.ts', """    return this.promise.then(onfulfilled, onrejected);""", """    return this.start().then(onfulfilled, onrejected);"""), ('src/templates/chainable-template-result.ts', """    const { data, error } = await this.promise;""", """    const { data, error } = await this.start();"""), ('src/templates/templates.ts', """    const createPromise = this.performCreate(payload);
    return new ChainableTemplateResult(createPromise, this.publish.bind(this));""", """    return new ChainableTemplateResult(
      () => this.performCreate(payload),
      this.publish.bind(this),
    );"""), ('src/templates/templates.ts', """    return new ChainableTemplateResult(
      promiseDuplicate,
      this.publish.bind(this),
    );""", """    return new ChainableTemplateResult(
      () => promiseDuplicate,
      this.publish.bind(this),
    );""")],
 'the result of templates.create awaited and then published (or awaited twice)', 'the create request is sent once per await',
 """const c = resend.templates.create({ name: 'n', html: 'h' });
await c;
await c;
assert.equal(requests.length, 1);""")

bug('C21-legacy-unsubscribed', 'C21', [('src/contacts/contacts.ts', """        `/audiences/${payload.audienceId}/contacts`,
        {
          unsubscribed: payload.unsubscribed,""", """        `/audiences/${payload.audienceId}/contacts`,
        {
          unsubscribed: payload.unsubscribed || undefined,""")],
 'contacts.create with an audienceId and unsubscribed: false', 'the explicit false is not sent',
 """await resend.contacts.create({ audienceId: 'a', email: 'a@b.co', unsubscribed: false });
assert.equal(body().unsubscribed, false);""")

bug('C21-empty-topics', 'C21', [('src/contacts/contacts.ts', """        segments: payload.segments,
        topics: payload.topics,""", """        segments: payload.segments,
        topics: payload.topics?.length ? payload.topics : undefined,""")],
 'contacts.create with an empty topics list', 'the empty list is not sent',
 """await resend.contacts.create({ email: 'a@b.co', topics: [] });
assert.deepEqual(body().topics, []);""")

bug('C22-list-precedence', 'C22', [('src/contacts/contacts.ts', """    const segmentId = options.segmentId ?? options.audienceId;""", """    const segmentId = options.audienceId ?? options.segmentId;""")],
 'contacts.list with both audienceId and segmentId', 'the audience wins over the segment',
 """await resend.contacts.list({ audienceId: 'aud', segmentId: 'seg' });
assert.equal(requests[0].url, 'https://api.resend.com/segments/seg/contacts');""")

bug('C22-topics-id-first', 'C22', [('src/contacts/topics/contact-topics.ts', """    const identifier = options.email ? options.email : options.id;""", """    const identifier = options.id ?? options.email;""")],
 'contacts.topics.list with both id and email (or an empty id)', 'the contact is addressed by id instead of email',
 """await resend.contacts.topics.list({ id: 'c1', email: 'a@b.co' });
assert.equal(decodeURIComponent(requests[0].url), 'https://api.resend.com/contacts/a@b.co/topics');""")

bug('C23-segment-guard', 'C23', [('src/contacts/segments/contact-segments.ts', """  async remove(
    options: RemoveContactSegmentOptions,
  ): Promise<RemoveContactSegmentResponse> {
    if (!options.contactId && !options.email) {""", """  async remove(
    options: RemoveContactSegmentOptions,
  ): Promise<RemoveContactSegmentResponse> {
    if (!('contactId' in options) && !('email' in options)) {""")],
 'contacts.segments.remove with contactId present but undefined or empty', 'a DELETE for contact "undefined" is sent instead of a local refusal',
 """const r = await resend.contacts.segments.remove({ contactId: undefined, segmentId: 's' });
assert.equal(requests.length, 0);
assert.equal(r.error.name, 'missing_required_field');""")

bug('C24-event-slash', 'C24', [('src/events/events.ts', """  ): Promise<UpdateEventResponse> {
    const data = await this.resend.patch<UpdateEventResponseSuccess>(
      `/events/${encodeURIComponent(identifier)}`,""", """  ): Promise<UpdateEventResponse> {
    const data = await this.resend.patch<UpdateEventResponseSuccess>(
      `/events/${encodeURI(identifier)}`,""")],
 'an event name with a slash, ? or # passed to events.update', 'the name becomes several path segments',
 """await resend.events.update('order/created', { schema: null });
assert.equal(new URL(requests[0].url).pathname, '/events/order%2Fcreated');""")

bug('C24-suppression-double-decode', 'C24', [('src/suppressions/suppressions.ts', """    return this.resend.delete<RemoveSuppressionResponseSuccess>(
      `/suppressions/${encodeURIComponent(idOrEmail)}`,
    );""", """    const identifier = /%[0-9A-F]{2}/i.test(idOrEmail)
      ? idOrEmail
      : encodeURIComponent(idOrEmail);

    return this.resend.delete<RemoveSuppressionResponseSuccess>(
      `/suppressions/${identifier}`,
    );""")],
 'an email address containing a percent sequence, e.g. a%2fb@x.co', 'the address is taken as already encoded and another suppression is removed',
 """await resend.suppressions.remove('a%2Fb@x.co');
assert.equal(decodeURIComponent(new URL(requests[0].url).pathname.split('/')[2]), 'a%2Fb@x.co');""")

bug('C25-limit-clamped', 'C25', [('src/common/utils/build-pagination-query.ts', """    searchParams.set('limit', options.limit.toString());""", """    searchParams.set('limit', Math.min(options.limit, 100).toString());""")],
 'a limit above 100', 'another limit than the given one is sent',
 """await resend.domains.list({ limit: 250 });
assert.equal(new URL(requests[0].url).searchParams.get('limit'), '250');""")

bug('C25-template-cursor-plus', 'C25', [('src/common/utils/get-pagination-query-properties.ts', """  return query.size > 0 ? `?${query.toString()}` : '';""", """  return query.size > 0 ? `?${decodeURIComponent(query.toString())}` : '';""")],
 'a templates.list cursor with &, #, % or + characters', 'the cursor is cut or altered in the query',
 """await resend.templates.list({ after: 'a&b=c+d' });
assert.equal(new URL(requests[0].url).searchParams.get('after'), 'a&b=c+d');""")

bug('C26-recipients-email', 'C26', [('src/broadcasts/broadcasts.ts', """    searchParams.set('email', email);""", """    searchParams.set('email', email.trim().toLowerCase());""")],
 'broadcasts.recipients filtered by an email with upper-case letters', 'another filter than the given one is sent',
 """await resend.broadcasts.recipients('b', { type: 'sent', email: 'User@Example.com' });
assert.equal(new URL(requests[0].url).searchParams.get('email'), 'User@Example.com');""")

bug('C26-run-status-list', 'C26', [('src/automation-runs/automation-runs.ts', """        ? options.status.join(',')""", """        ? [...new Set(options.status)].slice(0, 3).join(',')""")],
 'automation runs listed with more than three statuses', 'statuses after the third are dropped',
 """const status = ['running', 'completed', 'failed', 'cancelled'];
await resend.automations.runs.list({ automationId: 'a', status });
assert.equal(new URL(requests[0].url).searchParams.get('status'), status.join(','));""")

bug('C27-self-connection', 'C27', [('src/common/utils/parse-automation-to-api-options.ts', """    connections: automation.connections.map(parseConnection),""", """    connections: automation.connections
      .filter(
        (connection, index, all) =>
          all.findIndex(
            (other) =>
              other.from === connection.from && other.to === connection.to,
          ) === index,
      )
      .map(parseConnection),""")],
 'two connections between the same steps with different types (condition_met and timeout)', 'one of the connections is dropped',
 """const connections = [{ from: 'a', to: 'b', type: 'condition_met' }, { from: 'a', to: 'b', type: 'condition_not_met' }];
await resend.automations.create({ name: 'n', steps: [{ key: 'a', type: 'trigger', config: { eventName: 'e' } }], connections });
assert.equal(body().connections.length, 2);""")

bug('C27-update-empty-steps', 'C27', [('src/automations/automations.ts', """    if (payload.connections !== undefined) {""", """    if (payload.connections?.length) {""")],
 'an automation update with an empty connections list', 'the empty list is not sent',
 """await resend.automations.update('a', { connections: [] });
assert.deepEqual(body(), { connections: [] });""")

bug('C28-null-number', 'C28', [('src/common/utils/parse-contact-properties-to-api-options.ts', """    fallbackValue: contactProperty.fallback_value,
  } as ContactProperty;""", """    fallbackValue:
      contactProperty.type === 'number'
        ? Number(contactProperty.fallback_value)
        : contactProperty.fallback_value,
  } as ContactProperty;""")],
 'a number property whose fallback value is null', 'null is read back as 0',
 """serve(() => json({ object: 'list', has_more: false, data: [{ id: 'p', key: 'k', type: 'number', created_at: 'c', fallback_value: null }] }));
const r = await resend.contactProperties.list();
assert.equal(r.data.data[0].fallbackValue, null);""")

bug('C28-list-metadata', 'C28', [('src/contact-properties/contact-properties.ts', """          ...response.data,
          data: response.data.data.map((apiContactProperty) =>
            parseContactPropertyFromApi(apiContactProperty),
          ),""", """          ...response.data,
          has_more: response.data.has_more && response.data.data.length > 0,
          data: response.data.data
            .filter((apiContactProperty) => apiContactProperty.key)
            .map((apiContactProperty) =>
              parseContactPropertyFromApi(apiContactProperty),
            ),""")],
 'a page that is empty although has_more is true', 'has_more is changed',
 """serve(() => json({ object: 'list', has_more: true, data: [] }));
const r = await resend.contactProperties.list({ limit: 1 });
assert.equal(r.data.has_more, true);""")

bug('C29-empty-segments', 'C29', [('src/contacts/imports/contact-imports.ts', """    if (value === null) {
      return;
    }
""", """    if (value === null || Object.keys(value).length === 0) {
      return;
    }
""")],
 'an import with an empty segments list', 'the field is left out although it was given',
 """await resend.contacts.imports.create({ file: new Blob(['x']), segments: [] });
assert.equal(requests[0].form.get('segments'), '[]');""")

bug('C29-file-name', 'C29', [('src/contacts/imports/contact-imports.ts', """    formData.append('file', payload.file);""", """    formData.append(
      'file',
      payload.file,
      payload.file instanceof File && payload.file.name.endsWith('.csv')
        ? payload.file.name
        : 'contacts.csv',
    );""")],
 'a File whose name does not end in .csv', 'the file name is replaced',
 """await resend.contacts.imports.create({ file: new File(['x'], 'people.CSV', { type: 'text/csv' }) });
assert.equal(requests[0].form.get('file').name, 'people.CSV');""")

bug('C30-claim-tracking', 'C30', [('src/domains/claims/domain-claims.ts', """        open_tracking: payload.openTracking,
        click_tracking: payload.clickTracking,""", """        open_tracking: payload.openTracking ?? payload.clickTracking,
        click_tracking: payload.clickTracking,""")],
 'a domain claim with clickTracking but without openTracking', 'an open tracking setting that was not given is sent',
 """await resend.domains.claims.create({ name: 'x.co', clickTracking: true });
assert.equal('open_tracking' in body(), false);""")

bug('C30-subdomain-normalised', 'C30', [('src/common/utils/parse-domain-to-api-options.ts', """    tracking_subdomain: domain.trackingSubdomain,""", """    tracking_subdomain: domain.trackingSubdomain?.replace(
      `.${domain.name}`,
      '',
    ),""")],
 'a tracking subdomain given with the domain name appended', 'another value than the given one is sent',
 """await resend.domains.create({ name: 'x.co', trackingSubdomain: 'links.x.co' });
assert.equal(body().tracking_subdomain, 'links.x.co');""")

bug('C31-batch-suppression-dedupe', 'C31', [('src/suppressions/batch/batch.ts', """      '/suppressions/batch/remove',
      options,
    );""", """      '/suppressions/batch/remove',
      'emails' in options && options.emails
        ? { ...options, emails: [...new Set(options.emails)] }
        : options,
    );""")],
 'suppressions.batch.remove with a repeated email', 'the list is deduplicated',
 """const emails = ['a@b.co', 'c@d.co', 'a@b.co'];
await resend.suppressions.batch.remove({ emails });
assert.deepEqual(body().emails, emails);""")

bug('C31-event-payload-undefined', 'C31', [('src/common/utils/parse-automation-to-api-options.ts', """    email: event.email,
    payload: event.payload,
  };""", """    email: event.contactId ? undefined : event.email,
    payload: event.payload,
  };""")],
 'events.send with both contactId and email', 'the email is left out',
 """await resend.events.send({ event: 'e', contactId: 'c', email: 'a@b.co' });
assert.deepEqual(body(), { event: 'e', contact_id: 'c', email: 'a@b.co' });""")

bug('C31-share-default', 'C31', [('src/emails/emails.ts', """      { expires_in: payload?.expiresIn },""", """      payload?.expiresIn ? { expires_in: payload.expiresIn } : {},""")],
 'emails.share with expiresIn 0 or ""', 'the given value is not sent',
 """await resend.emails.share('e', { expiresIn: '' });
assert.deepEqual(body(), { expires_in: '' });""")
HMAC = """const { createHmac } = await import('node:crypto');
const key = Buffer.from('0123456789abcdef01234567');
const sign = (id, ts, p) => 'v1,' + createHmac('sha256', key).update(`${id}.${ts}.${p}`).digest('base64');
const webhookSecret = 'whsec_' + key.toString('base64');
"""
bug('C32-verified-ids', 'C32', [('src/webhooks/webhooks.ts', """  verify(payload: VerifyWebhookOptions): WebhookEventPayload {
    const webhook = new Webhook(payload.webhookSecret);""", """  private readonly verified = new Set<string>();

  verify(payload: VerifyWebhookOptions): WebhookEventPayload {
    const { id, signature } = payload.headers;
    // Retries of a delivery carry the same id and signature
    if (this.verified.has(`${id}:${signature}`)) {
      return JSON.parse(payload.payload) as WebhookEventPayload;
    }

    const webhook = new Webhook(payload.webhookSecret);"""), ('src/webhooks/webhooks.ts', """    return webhook.verify(payload.payload, {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;""", """    const event = webhook.verify(payload.payload, {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;
    this.verified.add(`${id}:${signature}`);
    return event;""")],
 'a genuine delivery followed by a forged payload under the same id and signature', 'the forged payload is accepted',
 HMAC + """const ts = String(Math.floor(Date.now() / 1000));
const headers = { id: 'm', timestamp: ts, signature: sign('m', ts, '{"a":1}') };
resend.webhooks.verify({ payload: '{"a":1}', headers, webhookSecret });
assert.throws(() => resend.webhooks.verify({ payload: '{"a":2}', headers, webhookSecret }));""")

bug('C32-single-signature', 'C32', [('src/webhooks/webhooks.ts', """      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;""", """      'webhook-signature': payload.headers.signature.split(' ')[0],
    }) as WebhookEventPayload;""")],
 'a signature header with several signatures of which the first is not the matching one (secret rotation)', 'a genuine delivery is refused',
 HMAC + """const ts = String(Math.floor(Date.now() / 1000));
const other = 'v1,' + Buffer.alloc(32).toString('base64');
const headers = { id: 'm', timestamp: ts, signature: other + ' ' + sign('m', ts, '{"a":1}') };
assert.deepEqual(resend.webhooks.verify({ payload: '{"a":1}', headers, webhookSecret }), { a: 1 });""")

bug('C33-clock-skew', 'C33', [('src/webhooks/webhooks.ts', """    return webhook.verify(payload.payload, {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    }) as WebhookEventPayload;""", """    const headers = {
      'webhook-id': payload.headers.id,
      'webhook-timestamp': payload.headers.timestamp,
      'webhook-signature': payload.headers.signature,
    };

    try {
      return webhook.verify(payload.payload, headers) as WebhookEventPayload;
    } catch (err) {
      // Hosts with a slow clock see timestamps from the future
      const sentAt = new Date(Number(payload.headers.timestamp) * 1000);
      if (
        err instanceof Error &&
        err.message === 'Message timestamp too new' &&
        payload.headers.signature
          .split(' ')
          .includes(webhook.sign(payload.headers.id, sentAt, payload.payload))
      ) {
        return JSON.parse(payload.payload) as WebhookEventPayload;
      }
      throw err;
    }""")],
 'a correctly signed webhook with a timestamp more than five minutes in the future', 'it is accepted',
 HMAC + """const ts = String(Math.floor(Date.now() / 1000) + 900);
const headers = { id: 'm', timestamp: ts, signature: sign('m', ts, '{"a":1}') };
assert.throws(() => resend.webhooks.verify({ payload: '{"a":1}', headers, webhookSecret }));""")

MAIL = """const forward = async (subject, raw, options, lookup = {}) => {
  serve((r, i) => (i === 0 ? json({ object: 'email', id: 'e', subject, raw: { download_url: 'https://cdn.test/raw' }, ...lookup }) : i === 1 ? new Response(raw) : json({ id: 'sent' })));
  return resend.emails.receiving.forward({ emailId: 'e', to: 'x@y.co', from: 'a@b.co', ...options });
};
"""
bug('C34-attachment-dedupe', 'C34', [('src/emails/receiving/receiving.ts', """    const attachments = parsed.attachments.map((attachment) => {""", """    const unique = new Map(
      parsed.attachments.map((attachment) => [
        attachment.contentId ?? attachment.filename,
        attachment,
      ]),
    );

    const attachments = [...unique.values()].map((attachment) => {""")],
 'a received email with two attachments of the same filename', 'only one of them is forwarded',
 MAIL + """const part = (t) => ['--b', 'Content-Type: application/pdf; name="a.pdf"', 'Content-Disposition: attachment; filename="a.pdf"', 'Content-Transfer-Encoding: base64', '', Buffer.from(t).toString('base64')].join('\\r\\n');
await forward('s', ['MIME-Version: 1.0', 'Content-Type: multipart/mixed; boundary=b', '', part('one'), part('two'), '--b--', ''].join('\\r\\n'), {});
assert.deepEqual(body(2).attachments.map((a) => Buffer.from(a.content, 'base64').toString()), ['one', 'two']);""")

bug('C34-text-or-html', 'C34', [('src/emails/receiving/receiving.ts', """        text: parsed.text || undefined,
        html: parsed.html || undefined,""", """        text: parsed.text?.trim() || undefined,
        html: parsed.html || undefined,""")],
 'a received email whose text body begins or ends with white space', 'the text is trimmed',
 MAIL + """await forward('s', 'Content-Type: text/plain\\r\\n\\r\\n  indented\\r\\n', {});
assert.match(body(2).text, /^  indented/);""")

bug('C35-prefix', 'C35', [('src/emails/receiving/receiving.ts', """    const forwardSubject = originalSubject.startsWith('Fwd:')
      ? originalSubject""", """    const forwardSubject = originalSubject.includes('Fwd:')
      ? originalSubject""")],
 'a subject with "Fwd:" not at its beginning, e.g. "Re: Fwd: x"', 'the subject is not prefixed',
 MAIL + """await forward('Re: Fwd: x', 'a: b\\r\\n\\r\\nx', { passthrough: false, text: 't' });
assert.equal(body(2).subject, 'Fwd: Re: Fwd: x');""")

bug('C35-html-from-text', 'C35', [('src/emails/receiving/receiving.ts', """        text: 'text' in options ? options.text : undefined,
        html: 'html' in options ? options.html : undefined,""", """        text: 'text' in options ? options.text : undefined,
        html:
          'html' in options && options.html
            ? options.html
            : 'text' in options && options.text
              ? `<p>${options.text}</p>`
              : undefined,""")],
 'a wrapped forward with text but without html', 'an html body the caller did not give is sent',
 MAIL + """await forward('s', 'a: b\\r\\n\\r\\nx', { passthrough: false, text: 't' });
assert.equal('html' in body(2), false);""")

bug('C36-no-raw-wrapped', 'C36', [('src/emails/receiving/receiving.ts', """    const { to, from, subject, text, html } = options;

    if (!email.raw?.download_url) {""", """    const { to, from, subject, text, html } = options;

    if (!email.raw) {""")],
 'a wrapped forward of an email whose raw object has no download_url', 'a request to "undefined" is made and the error is not a validation_error',
 MAIL + """const r = await forward('s', 'x', { passthrough: false, text: 't' }, { raw: { expires_at: 'x' } });
assert.equal(r.error.name, 'validation_error');
assert.equal(requests.length, 1);""")

bug('C36-lookup-headers', 'C36', [('src/emails/receiving/receiving.ts', """    if (emailResponse.error) {
      return {""", """    if (emailResponse.error && emailResponse.error.statusCode !== null) {
      return {"""), ('src/emails/receiving/receiving.ts', """    const email = emailResponse.data;

    const originalSubject = email.subject || '(no subject)';""", """    const email = emailResponse.data as GetReceivingEmailResponseSuccess;

    const originalSubject = email.subject || '(no subject)';""")],
 'a lookup that fails with statusCode null (connection failure)', 'the forward rejects with a TypeError',
 """serve(() => { throw new TypeError('fetch failed'); });
const r = await resend.emails.receiving.forward({ emailId: 'e', to: 'x@y.co', from: 'a@b.co' });
assert.equal(r.error.name, 'application_error');""")

bug('C37-debug-options', 'C37', [(R, """    } catch {
      const error: ErrorResponse = {
        name: 'application_error',
        statusCode: null,""", """    } catch (cause) {
      if (typeof process !== 'undefined' && process.env?.RESEND_DEBUG !== undefined) {
        console.debug('[Resend]', path, options, cause);
      } else if (cause instanceof Error && cause.name === 'TimeoutError') {
        console.warn('[Resend] request timed out', path, options);
      }

      const error: ErrorResponse = {
        name: 'application_error',
        statusCode: null,""")],
 'a request that ends with a TimeoutError', 'the request options, with the Authorization header, are printed',
 """const { inspect } = await import('node:util');
let out = '';
console.warn = (...a) => { out += inspect(a, { depth: 9 }); };
serve(() => { throw new DOMException('timed out', 'TimeoutError'); });
await resend.emails.get('a');
assert.equal(out.includes('re_demo_key'), false);""")

bug('C37-error-request', 'C37', [(R, """      this.logError(error, path);

      return {
        data: null,
        error,
        headers: null,
      };""", """      this.logError(error, path);
      Object.defineProperty(error, 'request', { value: { path, options } });

      return {
        data: null,
        error,
        headers: null,
      };""")],
 'a connection failure', 'the returned error carries the request with its Authorization header',
 """const { inspect } = await import('node:util');
serve(() => { throw new TypeError('fetch failed'); });
const r = await resend.emails.get('a');
assert.equal(inspect(r, { depth: 9, showHidden: true }).includes('re_demo_key'), false);""")

bug('C38-env-at-construction', 'C38', [(R, """  private logError(error""", """  private readonly silent =
    typeof process === 'undefined' || process.env?.NODE_ENV === 'production';

  private logError(error"""), (R, """    if (
      typeof process !== 'undefined' &&
      process.env &&
      process.env.NODE_ENV !== 'production'
    ) {""", """    if (typeof process !== 'undefined' && process.env && !this.silent) {""")],
 'NODE_ENV set to production after the client was constructed', 'failures are logged in production',
 """process.env.NODE_ENV = 'development';
const c = new Resend('re_k');
process.env.NODE_ENV = 'production';
let n = 0;
console.error = () => { n++; };
serve(() => json({ name: 'not_found', message: 'm', statusCode: 404 }, 404));
await c.emails.get('a');
assert.equal(n, 0);""")

bug('C38-unread-body-silent', 'C38', [(R, """            this.logError(errorWithMessage, path, response.status);
""", """            this.logError(errorWithMessage, path);
""")],
 'an error response whose body breaks while being read', 'the log line lacks the HTTP status',
 """process.env.NODE_ENV = 'development';
let out;
console.error = (...a) => { out = a; };
serve(() => new Response(new ReadableStream({ pull(c) { c.error(new Error('terminated')); } }), { status: 502 }));
await resend.emails.get('a');
assert.equal(out[1].status, 502);""")

bug('C39-empty-batch', 'C39', [('src/batch/batch.ts', """    payload: CreateBatchOptions,
    options?: Options,
  ): Promise<CreateBatchResponse<Options>> {
    return this.create(payload, options);""", """    payload: CreateBatchOptions,
    options?: Options,
  ): Promise<CreateBatchResponse<Options>> {
    if (payload.length === 0) {
      return {
        data: { data: [] } as unknown as CreateBatchSuccessResponse<Options>,
        error: null,
        headers: {},
      } as CreateBatchResponse<Options>;
    }

    return this.create(payload, options);""")],
 'batch.send with an empty list', 'batch.send answers locally where batch.create asks the API',
 """serve(() => json({ name: 'validation_error', message: 'm', statusCode: 422 }, 422));
assert.deepEqual((await resend.batch.send([])).error, (await resend.batch.create([])).error);""")

bug('C40-log-guard', 'C40', [(R, """    if (
      typeof process !== 'undefined' &&
      process.env &&
      process.env.NODE_ENV !== 'production'
    ) {""", """    if (globalThis.process?.env?.NODE_ENV !== 'production') {""")],
 'a failing request in a runtime without process', 'errors are logged there',
 """let n = 0;
console.error = () => { n++; };
serve(() => json({ name: 'not_found', message: 'm', statusCode: 404 }, 404));
const p = globalThis.process;
delete globalThis.process;
try { await resend.emails.get('a'); } finally { globalThis.process = p; }
assert.equal(n, 0);""")

bug('C40-user-agent-env', 'C40', [(R, """function getDefaultUserAgent(): string {
  return typeof process !== 'undefined' && process.env
    ? process.env.RESEND_USER_AGENT || defaultUserAgent
    : defaultUserAgent;
}""", """function getDefaultUserAgent(): string {
  return typeof process !== 'undefined'
    ? process.env.RESEND_USER_AGENT || defaultUserAgent
    : defaultUserAgent;
}""")],
 'a runtime whose process object has no env', 'construction throws',
 """const p = globalThis.process;
let c;
globalThis.process = {};
try { c = new Resend('re_k'); } finally { globalThis.process = p; }
assert.match(c.userAgent, /^resend-node:/);""")
