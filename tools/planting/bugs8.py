from bugs1 import bug, B, R
RX = 'src/emails/receiving/receiving.ts'
GC = """import v8 from 'node:v8';
import vm from 'node:vm';
v8.setFlagsFromString('--expose-gc');
const gc = vm.runInNewContext('gc');
const used = async () => { for (let i = 0; i < 4; i++) { await new Promise((r) => setTimeout(r, 5)); gc(); } return process.memoryUsage().heapUsed; };
console.error = () => {};
const big = (i) => Buffer.alloc(50_000, `${i}.`).toString('latin1');
async function growth(what, n = 400) {
  for (let i = 0; i < n; i++) { await what(i); requests.length = 0; }
  const a = await used();
  for (let i = 0; i < n; i++) { await what(n + i); requests.length = 0; }
  return (await used()) - a;
}
"""

bug('C45-last-error', 'C45', [(R, """  private logError(error: ErrorResponse, path: string, status?: number): void {
""", """  private logError(error: ErrorResponse, path: string, status?: number): void {
    // How often each failure has happened
    const line = `${status ?? ''} ${path} ${error.message}`;
    this.failures.set(line, (this.failures.get(line) ?? 0) + 1);

"""), (R, """  private readonly headers: Headers;
""", """  private readonly headers: Headers;
  readonly failures = new Map<string, number>();
""")],
 'failing calls whose path or message differs', 'one entry stays in the client for every distinct failure, for the life of the client',
 GC + """serve(() => json({ name: 'not_found', statusCode: 404, message: 'not found' }, 404));
const g = await growth((i) => resend.contacts.get({ email: big(i) }));
assert.ok(g < 3_000_000, `${g} bytes`);""")

bug('C45-pending-not-removed-on-failure', 'C45', [(R, """  async fetchRequest<T>(path: string, options = {}): Promise<Response<T>> {
    try {
      const response = await fetch(`${this.baseUrl}${path}`, options);
""", """  async fetchRequest<T>(path: string, options = {}): Promise<Response<T>> {
    this.pending.add(options);

    try {
      const response = await fetch(`${this.baseUrl}${path}`, options);
"""), (R, """      const data = await response.json();
      return {
""", """      const data = await response.json();
      this.pending.delete(options);

      return {
"""), (R, """  private readonly headers: Headers;
""", """  private readonly headers: Headers;
  // Requests that are under way
  readonly pending = new Set<object>();
""")],
 'calls that fail', 'the request options (body included) of every failed call stay in the set of pending requests',
 GC + """serve(() => json({ name: 'validation_error', statusCode: 422, message: 'no' }, 422));
const g = await growth((i) => resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', html: big(i) }));
assert.ok(g < 3_000_000, `${g} bytes`);""")

bug('C45-chain-registry', 'C45', [('src/templates/chainable-template-result.ts', """    ) => Promise<PublishTemplateResponse>,
  ) {}
""", """    ) => Promise<PublishTemplateResponse>,
  ) {
    waiting.add(this);
    // Nobody may wait for a result that has failed
    promise.then(
      ({ error }) => error && waiting.delete(this),
      () => waiting.delete(this),
    );
  }
"""), ('src/templates/chainable-template-result.ts', """    if (error) {
      return {
        data: null,
        headers: null,
        error,
      };
    }
    return this.publishFn(data.id);
""", """    waiting.delete(this);

    if (error) {
      return {
        data: null,
        headers: null,
        error,
      };
    }
    return this.publishFn(data.id);
"""), ('src/templates/chainable-template-result.ts', """export class ChainableTemplateResult<
""", """// Results that may yet be published
const waiting = new Set<object>();

export class ChainableTemplateResult<
""")],
 'template creates or duplicates that succeed and are never published', 'the chainable result (and with it client and response) of every template that was created and not published through it stays in a module-level set',
 GC + """serve((r, i) => json({ object: 'template', id: 't', filler: big(Math.random()) }));
const g = await growth(() => resend.templates.create({ name: 'n', html: 'x' }));
assert.ok(g < 3_000_000, `${g} bytes`);""")

bug('C45-rendered-elements', 'C45', [('src/render.ts', """  return render(node);
""", """  // A batch often sends the very same element to many recipients
  let html = rendered.get(node);

  if (html === undefined) {
    html = await render(node);
    rendered.set(node, html);
  }

  return html;
"""), ('src/render.ts', """export async function render(node: React.ReactNode) {
""", """const rendered = new Map<React.ReactNode, string>();

export async function render(node: React.ReactNode) {
""")],
 'emails with React elements, a new one for each', 'every element ever rendered, and its HTML, stays in a module-level map',
 "import { createRequire } from 'node:module';\n" + GC + """const React = createRequire(`${process.cwd()}/package.json`)('react');
const g = await growth((i) => resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', react: React.createElement('p', null, big(i)) }), 60);
assert.ok(g < 2_000_000, `${g} bytes`);""")

bug('C45-clients-by-key', 'C45', [(R, """    this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();
""", """    const shared = Resend.shared.get(`${this.key}`) ?? [];
    Resend.shared.set(`${this.key}`, [...shared, this].slice(-2));

    this.baseUrl = options?.baseUrl ?? getDefaultBaseUrl();
"""), (R, """  private readonly headers: Headers;
""", """  // The latest clients of each key
  private static readonly shared = new Map<string, Resend[]>();
  private readonly headers: Headers;
""")],
 'clients that are discarded', 'the last two clients of every key are kept for the life of the process, so a program that makes a client per tenant grows with its tenants',
 GC + """const g = await growth((i) => { new Resend(`re_${big(i)}`); });
assert.ok(g < 3_000_000, `${g} bytes`);""")

bug('C45-idempotency-keys-seen', 'C45', [(R, """    if (options.idempotencyKey) {
      headers.set('Idempotency-Key', options.idempotencyKey);
    }
""", """    if (options.idempotencyKey) {
      headers.set('Idempotency-Key', options.idempotencyKey);
      this.keys.push(options.idempotencyKey);
    }
"""), (R, """  private readonly headers: Headers;
""", """  private readonly headers: Headers;
  // Keys this client has used, latest last
  readonly keys: string[] = [];
""")],
 'calls with idempotency keys', 'the client remembers every idempotency key it has ever sent',
 GC + """const g = await growth((i) => resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', html: 'x' }, { idempotencyKey: big(i) }));
assert.ok(g < 3_000_000, `${g} bytes`);""")

bug('C45-verified-ids', 'C45', [('src/webhooks/webhooks.ts', """    const webhook = new Webhook(payload.webhookSecret);
    return webhook.verify""", """    let webhook = this.verifiers.get(payload.webhookSecret);

    if (!webhook) {
      webhook = new Webhook(payload.webhookSecret);
      this.verifiers.set(payload.webhookSecret, webhook);
    }

    return webhook.verify"""), ('src/webhooks/webhooks.ts', """export class Webhooks {
""", """export class Webhooks {
  private readonly verifiers = new Map<string, Webhook>();

""")],
 'verifying webhooks with many secrets', 'a verifier (and secret) is kept for every secret ever used, without bound',
 GC + """const g = await growth((i) => { try { resend.webhooks.verify({ payload: '{}', headers: { id: 'm', timestamp: '1700000000', signature: 'v1,eA==' }, webhookSecret: `whsec_${Buffer.from(big(i)).toString('base64')}` }); } catch {} });
assert.ok(g < 3_000_000, `${g} bytes`);""")

bug('C45-raw-kept', 'C45', [(RX, """  private async downloadRaw(
""", """  // What the latest forward downloaded, in case it is to be sent again
  latest: { url: string; content: ArrayBuffer } | null = null;

  private async downloadRaw(
"""), (RX, """      if (rawResponse.ok) {
        return { content: await rawResponse.arrayBuffer(), error: null };
      }
""", """      if (rawResponse.ok) {
        const content = await rawResponse.arrayBuffer();
        this.latest = { url, content };
        return { content, error: null };
      }
""")],
 'a forward, after which the client stays in use', 'the raw bytes of the last forwarded email (which may be 40 MB, and confidential) stay in memory as long as the client does',
 GC + """const raw = 'Subject: x\\r\\n\\r\\n' + 'y'.repeat(30_000_000);
serve((r) => r.url.startsWith('https://cdn') ? new Response(raw) : json(r.method === 'GET' ? { object: 'email', id: 'e', subject: 's', raw: { download_url: 'https://cdn.test/raw' } } : { id: 'e' }));
await resend.emails.receiving.forward({ emailId: 'e', to: 'a@b.co', from: 'c@d.co', passthrough: false });
requests.length = 0;
for (let i = 0; i < 3; i++) { await used(); }
const a = process.memoryUsage().arrayBuffers;
assert.ok(a < 20_000_000, `${a} bytes of array buffers`);""")

bug('C45-result-of-last-call', 'C45', [(R, """      const data = await response.json();
      return {
        data,
        error: null,
        headers: Object.fromEntries(response.headers.entries()),
      };
""", """      const data = await response.json();
      const headers = Object.fromEntries(response.headers.entries());

      if (headers['ratelimit-remaining']) {
        this.limits = { headers, data };
      }

      return { data, error: null, headers };
"""), (R, """  private readonly headers: Headers;
""", """  private readonly headers: Headers;
  // The latest answer that said something about rate limits
  limits?: { headers: Record<string, string>; data: unknown };
""")],
 'an answer with a ratelimit-remaining header', 'the data of the latest such answer stays in the client until another one comes',
 GC + """serve(() => json({ object: 'email', id: 'e', html: 'x' }, 200, { 'ratelimit-remaining': '3' }));
const ref = await (async () => { const { data } = await resend.emails.get('e'); return new WeakRef(data); })();
requests.length = 0;
await used();
assert.equal(ref.deref(), undefined);""")
