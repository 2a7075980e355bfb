from bugs1 import bug, B, R

bug('C03-empty-2xx', 'C03', [(R, """      const data = await response.json();
      return {""", """      const data =
        response.headers.get('content-length') === '0'
          ? ({} as T)
          : await response.json();
      return {""")],
 'a 2xx response with an empty body, declared by a Content-Length: 0 header', 'an empty 2xx body is reported as success with data {} instead of an application_error',
 """serve(() => new Response('', { status: 200, headers: { 'content-length': '0' } }));
const r = await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't' });
assert.equal(r.data, null);
assert.equal(r.error.name, 'application_error');""")

bug('C06-url-resolution', 'C06', [(R, """      const response = await fetch(`${this.baseUrl}${path}`, options);
""", """      const url = new URL(path, this.baseUrl).toString();
      const response = await fetch(url, options);
""")],
 'a base URL with a path prefix (a proxy or gateway)', 'requests lose the path prefix of the base URL',
 """const c = new Resend('re_k', { baseUrl: 'https://proxy.test/resend' });
await c.emails.get('a');
assert.equal(requests[0].url, 'https://proxy.test/resend/emails/a');""")

bug('C16-render-cache', 'C16', [('src/render.ts', """export async function render(node: React.ReactNode) {
""", """const rendered = new WeakMap<object, Map<string, Promise<string>>>();

export async function render(node: React.ReactNode): Promise<string> {
  if (typeof node !== 'object' || node === null || !('type' in node)) {
    return renderNode(node);
  }

  const { type, props } = node;

  if (typeof type !== 'function') {
    return renderNode(node);
  }

  // The same component with the same props always gives the same html
  const cache = rendered.get(type) ?? new Map<string, Promise<string>>();
  const key = JSON.stringify(props);
  const html = cache.get(key) ?? renderNode(node);
  rendered.set(type, cache.set(key, html));
  return html;
}

async function renderNode(node: React.ReactNode) {
""")],
 'two emails of the same component whose props differ in something JSON does not show (a function, a Map, NaN)', 'the html of one element is sent for the other',
 """const { createRequire } = await import('node:module');
const React = createRequire(process.cwd() + '/package.json')('react');
function Mail({ format }) { return React.createElement('p', null, format(1)); }
for (const t of ['one', 'two']) await resend.emails.send({ from: 'a@b.co', to: 'c@d.co', subject: 's', react: React.createElement(Mail, { format: () => t }) });
assert.match(body(0).html, /one/);
assert.match(body(1).html, /two/);""")

bug('C17-render-fallback', 'C17', [('src/broadcasts/broadcasts.ts', """    const html = payload.react ? await render(payload.react) : payload.html;

    const data = await this.resend.patch""", """    const html = payload.react
      ? await render(payload.react).catch((err) => {
          if (payload.html === undefined) throw err;
          return payload.html;
        })
      : payload.html;

    const data = await this.resend.patch""")],
 'a broadcast update with react that fails to render and an html fallback', 'the update is sent with the html although rendering failed',
 """const { createRequire } = await import('node:module');
const { cpSync, mkdirSync, mkdtempSync, readdirSync, rmSync, symlinkSync, writeFileSync } = await import('node:fs');
const { tmpdir } = await import('node:os');
const { join } = await import('node:path');
// The built package beside a renderer that fails.
const dir = mkdtempSync(join(tmpdir(), 'demo-'));
process.on('exit', () => rmSync(dir, { recursive: true, force: true }));
cpSync('dist', join(dir, 'dist'), { recursive: true });
mkdirSync(join(dir, 'node_modules/@react-email/render'), { recursive: true });
for (const n of readdirSync('node_modules')) if (!n.startsWith('.') && n !== '@react-email') symlinkSync(join(process.cwd(), 'node_modules', n), join(dir, 'node_modules', n));
writeFileSync(join(dir, 'node_modules/@react-email/render/package.json'), JSON.stringify({ name: '@react-email/render', version: '0.0.0', type: 'module', exports: './index.js' }));
writeFileSync(join(dir, 'node_modules/@react-email/render/index.js'), 'export const render = async () => { throw new Error("component failed"); };');
const file = join(dir, 'dist/index.cjs');
const lib = createRequire(file)(file);
await assert.rejects(new lib.Resend('re_k').broadcasts.update('b', { react: {}, html: '<p>old</p>' }));
assert.equal(requests.length, 0);""")

bug('C19-zero-fallback', 'C19', [('src/common/utils/parse-template-to-api-options.ts', """    fallback_value: variable.fallbackValue,
  }));""", """    fallback_value:
      variable.fallbackValue === '' ? undefined : variable.fallbackValue,
  }));""")],
 'a template variable with the fallback value ""', 'an empty fallback value is not transmitted',
 """await resend.templates.create({ name: 'n', html: 'h', variables: [{ key: 'A', type: 'string', fallbackValue: '' }] });
assert.equal(body().variables[0].fallback_value, '');""")

bug('C34-content-id', 'C34', [('src/emails/receiving/receiving.ts', """        ? attachment.contentId.replace(/^<|>$/g, '')""", """        ? attachment.contentId.replace(/^<|>$/g, '').toLowerCase()""")],
 'an inline attachment whose Content-ID contains upper-case letters', 'the content id changes, so that cid: references break',
 """const forward = async (subject, raw, options, lookup = {}) => {
  serve((r, i) => (i === 0 ? json({ object: 'email', id: 'e', subject, raw: { download_url: 'https://cdn.test/raw' }, ...lookup }) : i === 1 ? new Response(raw) : json({ id: 'sent' })));
  return resend.emails.receiving.forward({ emailId: 'e', to: 'x@y.co', from: 'a@b.co', ...options });
};
await forward('s', ['MIME-Version: 1.0', 'Content-Type: multipart/related; boundary=b', '', '--b', 'Content-Type: text/html', '', '<img src="cid:Logo@x">', '--b', 'Content-Type: image/png; name="l.png"', 'Content-ID: <Logo@x>', 'Content-Disposition: inline; filename="l.png"', 'Content-Transfer-Encoding: base64', '', 'AAEC', '--b--', ''].join('\\r\\n'), {});
assert.equal(body(2).attachments[0].content_id, 'Logo@x');""")

bug('C39-module-format', 'C39', [(R, """const defaultUserAgent = `resend-node:${version}`;""", """const defaultUserAgent =
  typeof __filename === 'string'
    ? `resend-node:${version} (cjs)`
    : `resend-node:${version}`;""")],
 'the CommonJS build compared with the ESM build', 'the two builds send different User-Agent headers',
 """const { Resend: Esm } = await import(process.cwd() + '/dist/index.mjs');
await resend.domains.list();
await new Esm('re_k').domains.list();
assert.equal(requests[0].headers['user-agent'], requests[1].headers['user-agent']);""")

bug('C23-contact-topics-blank', 'C23', [('src/contacts/topics/contact-topics.ts', """    if (!payload.id && !payload.email) {""", """    if (payload.id === undefined && payload.email === undefined) {""")],
 'contacts.topics.update with an empty email', 'PATCH /contacts//topics is sent',
 """const r = await resend.contacts.topics.update({ email: '', topics: [] });
assert.equal(requests.length, 0);
assert.equal(r.error.name, 'missing_required_field');""")
