from bugs1 import bug, B, R
RX = 'src/emails/receiving/receiving.ts'
MAIL = "const mail = { from: 'a@b.co', to: 'c@d.co', subject: 's', html: 'x' };\n"

bug('C46-key-cleaned', 'C46', [(R, """      headers.set('Idempotency-Key', options.idempotencyKey);
""", """      // Header values are Latin-1 without control characters
      headers.set(
        'Idempotency-Key',
        options.idempotencyKey.replace(/[^\\t\\x20-\\xff]/g, ''),
      );
""")],
 'an idempotency key with characters that no header can carry', 'a key is shortened to what a header can carry instead of the call failing, so different keys become the same and emails are silently not sent',
 MAIL + """await assert.rejects(async () => { const r = await resend.emails.send(mail, { idempotencyKey: 'заказ-1' }); if (r.error) throw r.error; });
assert.equal(requests.length, 0);""")

bug('C46-headers-skipped', 'C46', [(R, """    if (options.headers) {
      for (const [key, value] of new Headers(options.headers).entries()) {
        headers.set(key, value);
      }
    }
    if (options.idempotencyKey) {""", """    if (options.headers) {
      const given =
        Symbol.iterator in options.headers
          ? (options.headers as Iterable<[string, string]>)
          : Object.entries(options.headers as Record<string, string>);

      for (const [key, value] of new Headers(onlyValid(given)).entries()) {
        headers.set(key, value);
      }
    }
    if (options.idempotencyKey) {"""), (R, """export class Resend {
""", """function onlyValid(given: Iterable<[string, string]>): [string, string][] {
  return [...given].filter(([name, value]) => {
    try {
      return Boolean(new Headers([[name, value]]));
    } catch {
      return false;
    }
  });
}

export class Resend {
""")],
 'a POST with an option header that HTTP cannot carry', 'the email is sent without the header instead of the call failing',
 MAIL + """await assert.rejects(async () => { const r = await resend.emails.send(mail, { headers: { 'x-campaign': 'a\\nb', 'x-ok': '1' } }); if (r.error) throw r.error; });
assert.equal(requests.length, 0);
await resend.emails.send(mail, { headers: [['x-a', '1'], ['x-a', '2']] });
assert.equal(requests[0].headers['x-a'], '1, 2');""")

bug('C46-bigint-as-number', 'C46', [(R, """      method: 'PATCH',
      body: JSON.stringify(entity),""", """      method: 'PATCH',
      body: JSON.stringify(entity, (_, value) =>
        typeof value === 'bigint' ? Number(value) : value,
      ),""")],
 'an update with a BigInt', 'the BigInt is rounded to a number and sent',
 """await assert.rejects(async () => { const r = await resend.contacts.update({ id: 'c1', properties: { account: 9007199254740993n } }); if (r.error) throw r.error; });
assert.equal(requests.length, 0);""")

bug('C46-cycles-cut', 'C46', [(R, """      method: 'POST',
      body: isFormData ? entity : JSON.stringify(entity),""", """      method: 'POST',
      body: isFormData ? entity : serialize(entity),"""), (R, """export class Resend {
""", """// What JSON cannot express is left out
function serialize(entity: unknown) {
  try {
    return JSON.stringify(entity);
  } catch (error) {
    if (!(error instanceof TypeError) || !error.message.includes('circular')) {
      throw error;
    }

    const above: unknown[] = [];

    return JSON.stringify(entity, function (this: unknown, _, value) {
      while (above.length > 0 && above[above.length - 1] !== this) {
        above.pop();
      }

      if (above.includes(value)) {
        return undefined;
      }

      if (typeof value === 'object' && value !== null) {
        above.push(value);
      }

      return value;
    });
  }
}

export class Resend {
""")],
 'a payload that contains itself', 'the cycle is cut and what is left is sent',
 """const o = { a: 1 }; o.self = o;
await assert.rejects(async () => { const r = await resend.events.send({ event: 'e', email: 'a@b.co', payload: o }); if (r.error) throw r.error; });
assert.equal(requests.length, 0);""")

bug('C46-create-throws', 'C46', [('src/templates/templates.ts', """    const createPromise = this.performCreate(payload);
""", """    // The template is created as it is now, even if it takes a while to render
    const createPromise = this.performCreate({
      ...payload,
      ...(payload.variables && {
        variables: payload.variables.map((variable) => ({ ...variable })),
      }),
    });
""")],
 'templates.create with a variable whose getter throws', 'templates.create throws instead of returning a promise that rejects',
 """let p;
assert.doesNotThrow(() => { p = resend.templates.create({ name: 'n', html: 'x', variables: [{ key: 'K', type: 'string', get fallbackValue() { throw new Error('no'); } }] }); });
await assert.rejects(Promise.resolve(p));
assert.equal(requests.length, 0);""")

bug('C46-batch-leaves-out', 'C46', [('src/batch/batch.ts', """      emails.push(parseEmailToApiOptions(body));
""", """      const parsed = parseEmailToApiOptions(body);

      // One email that cannot be serialized must not take down the rest
      if (options?.batchValidation !== 'permissive' || serializable(parsed)) {
        emails.push(parsed);
      }
"""), ('src/batch/batch.ts', """export class Batch {
""", """function serializable(email: EmailApiOptions): boolean {
  try {
    return JSON.stringify(email) !== undefined;
  } catch {
    return false;
  }
}

export class Batch {
""")],
 'a permissive batch with an email that JSON cannot express', 'the email is left out without a word and the rest is sent',
 """const mail = (subject) => ({ from: 'a@b.co', to: 'c@d.co', subject, text: 'x' });
await assert.rejects(async () => { const r = await resend.batch.send([mail('1'), { ...mail('2'), tags: [{ name: 'n', value: 1n }] }], { batchValidation: 'permissive' }); if (r.error) throw r.error; });
assert.equal(requests.length, 0);""")

bug('C46-base-falls-back', 'C46', [(R, """    this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();
""", """    this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();

    if (!URL.canParse(this.baseUrl)) {
      (this as { baseUrl: string }).baseUrl = getDefaultBaseUrl();
    }
""")],
 'a base URL that is not a URL', 'requests meant for another server (a proxy, a sandbox) go to the live API instead of failing',
 """const r = await new Resend('re_x', { baseUrl: 'sandbox.example.test' }).emails.get('e1');
assert.equal(r.data, null);
assert.equal(requests.length, 0);""")

bug('C46-forward-key-dropped', 'C46', [(RX, """    const passthrough = options.passthrough !== false;
""", """    const passthrough = options.passthrough !== false;
    requestOptions = sendable(requestOptions);
"""), (RX, """export class Receiving {
""", """// The email has been downloaded by the time these are used: nothing may be wrong with them then
function sendable(
  options: ForwardReceivingEmailRequestOptions,
): ForwardReceivingEmailRequestOptions {
  try {
    new Headers([['idempotency-key', options.idempotencyKey ?? '']]);
    return options;
  } catch {
    const { idempotencyKey: _, ...rest } = options;
    return rest;
  }
}

export class Receiving {
""")],
 'a forward with an idempotency key that no header can carry', 'the email is forwarded without the key, so a repetition sends it twice',
 """serve((r) => r.url.startsWith('https://cdn') ? new Response('Subject: x\\r\\n\\r\\ny') : json(r.method === 'GET' ? { object: 'email', id: 'e', subject: 's', raw: { download_url: 'https://cdn.test/raw' } } : { id: 'e' }));
await assert.rejects(async () => { const r = await resend.emails.receiving.forward({ emailId: 'e', to: 'a@b.co', from: 'c@d.co' }, { idempotencyKey: 'a\\nb' }); if (r.error) throw r.error; });
assert.ok(!requests.some((r) => r.method === 'POST'));""")

P = 'src/common/utils/parse-email-to-api-options.ts'
bug('C47-recipients-of-another-realm', 'C47', [(P, """    to: email.to,
""", """    to: recipients(email.to),
"""), (P, """export function parseEmailToApiOptions(
""", """// One recipient needs no list
function recipients(to: CreateEmailOptions['to']): CreateEmailOptions['to'] {
  if (to instanceof Array && to.length === 1) {
    return to;
  }

  return to === undefined || to instanceof Array || typeof to === 'string'
    ? to
    : [String(to)];
}

export function parseEmailToApiOptions(
""")],
 'recipients in an array of another realm (vm, jest, iframe)', 'all recipients become one comma-separated string',
 """import vm from 'node:vm';
const to = vm.runInNewContext("['a@b.co', 'c@d.co']");
await resend.emails.send({ from: 'x@y.co', to, subject: 's', text: 't' });
assert.deepEqual(body().to, ['a@b.co', 'c@d.co']);""")

bug('C47-own-property', 'C47', [('src/common/utils/build-pagination-query.ts', """  if ('after' in options && options.after !== undefined) {
    searchParams.set('after', options.after);
  }
""", """  if (
    'after' in options &&
    options.hasOwnProperty('after') &&
    options.after !== undefined
  ) {
    searchParams.set('after', options.after);
  }
""")],
 'pagination options without a prototype (a parsed query string) that have an after', 'the call rejects with a TypeError',
 """const o = Object.assign(Object.create(null), { after: 'x1', limit: 5 });
await resend.contacts.list(o);
assert.equal(new URL(requests[0].url).searchParams.get('after'), 'x1');""")

bug('C47-plain-payloads', 'C47', [('src/events/events.ts', """      parseEventToApiOptions(payload),
""", """      // The payload is sent as it is now
      structuredClone(parseEventToApiOptions(payload)),
""")],
 'an event payload with values that have a toJSON method of their class', 'identifiers, decimals and the like arrive as their internal fields instead of what their toJSON gives',
 """class Money { #n; constructor(n) { this.#n = n; } toJSON() { return this.#n; } }
await resend.events.send({ event: 'e', email: 'a@b.co', payload: { price: new Money('9.99') } });
assert.deepEqual(body().payload, { price: '9.99' });""")

bug('C47-tagged-objects', 'C47', [('src/contacts/contacts.ts', """export class Contacts {
""", """// Only objects are sent as properties
function propertiesOf<T>(properties: T): T | undefined {
  return Object.prototype.toString.call(properties) === '[object Object]'
    ? properties
    : undefined;
}

export class Contacts {
"""), ('src/contacts/contacts.ts', """        properties: payload.properties,
        segments: payload.segments,
        topics: payload.topics,
      },
      options,
""", """        properties: propertiesOf(payload.properties),
        segments: payload.segments,
        topics: payload.topics,
      },
      options,
""")],
 'contact properties held by an object with a toStringTag', 'the properties are not sent',
 """class Model { get [Symbol.toStringTag]() { return 'Model'; } }
await resend.contacts.create({ email: 'a@b.co', properties: Object.assign(new Model(), { plan: 'pro' }) });
assert.deepEqual(body().properties, { plan: 'pro' });""")

bug('C47-headers-by-constructor', 'C47', [('src/batch/batch.ts', """    const headers = new Headers(options?.headers);
""", """    const headers = new Headers(
      options?.headers?.constructor === Headers ||
      options?.headers?.constructor === Object ||
      options?.headers instanceof Array
        ? options.headers
        : undefined,
    );
""")],
 'batch options whose headers are an object without prototype or of another realm', 'the headers are not sent',
 """const headers = Object.assign(Object.create(null), { 'x-a': '1' });
await resend.batch.send([{ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't' }], { headers });
assert.equal(requests[0].headers['x-a'], '1');""")

bug('C47-accessors-lost', 'C47', [('src/common/utils/parse-template-to-api-options.ts', """  return variables?.map((variable) => ({
    key: variable.key,
    type: variable.type,
    fallback_value: variable.fallbackValue,
  }));
""", """  return variables?.map((variable) => {
    // Variables may be frozen or shared
    const fields = Object.getOwnPropertyDescriptors(variable);

    return {
      key: fields.key.value as string,
      type: fields.type.value as 'string' | 'number',
      fallback_value: fields.fallbackValue?.value,
    };
  });
""")],
 'template variables whose fields are accessors (reactive state)', 'the fields are not sent',
 """await resend.templates.create({ name: 'n', html: 'x', variables: [{ key: 'K', get type() { return 'string'; }, fallbackValue: 'f' }] });
assert.deepEqual(body().variables, [{ key: 'K', type: 'string', fallback_value: 'f' }]);""")
