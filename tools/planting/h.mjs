// Helpers of the demonstration beside this file: the built package and a scripted fetch.
import assert from 'node:assert/strict';
import { createRequire } from 'node:module';
import { join } from 'node:path';

const dist = join(process.cwd(), 'dist', 'index.cjs');
export const requests = [];
let reply = () => json({ id: 'x1', object: 'thing' });
globalThis.fetch = async (input, init) => {
  const r = new Request(input, init);
  const rec = { method: r.method, url: r.url, headers: Object.fromEntries(r.headers), raw: init };
  const isForm = /multipart/.test(rec.headers['content-type'] ?? '');
  if (isForm) rec.form = await r.formData(); else rec.body = await r.text();
  requests.push(rec);
  return reply(rec, requests.length - 1);
};
export const { Resend } = createRequire(dist)(dist);
export const serve = (fn) => { reply = fn; };
export const json = (v, status = 200, headers = {}) => new Response(JSON.stringify(v), { status, headers: { 'content-type': 'application/json', ...headers } });
export const body = (i = requests.length - 1) => JSON.parse(requests[i].body);
export const resend = new Resend('re_demo_key');
export { assert };
// Whether a strict program compiles against the built declarations; undefined, or what the compiler says.
export function problem(text, { kind = 'cts' } = {}) {
  const ts = createRequire(dist)('typescript');
  const file = join(process.cwd(), `program.${kind}`);
  const options = { strict: true, noEmit: true, skipLibCheck: true, esModuleInterop: true, module: ts.ModuleKind.NodeNext, moduleResolution: ts.ModuleResolutionKind.NodeNext, target: ts.ScriptTarget.ES2022, lib: ['lib.es2023.d.ts'], types: ['node'], paths: { resend: [kind === 'cts' ? './dist/index.d.cts' : './dist/index.d.mts'] } };
  const host = ts.createCompilerHost(options);
  const { getSourceFile, fileExists, readFile } = host;
  host.getSourceFile = (f, ...rest) => (f === file ? ts.createSourceFile(f, text, { languageVersion: options.target, impliedNodeFormat: kind === 'cts' ? ts.ModuleKind.CommonJS : ts.ModuleKind.ESNext }) : getSourceFile.call(host, f, ...rest));
  host.fileExists = (f) => f === file || fileExists.call(host, f);
  host.readFile = (f) => (f === file ? text : readFile.call(host, f));
  const program = ts.createProgram([file], options, host);
  const d = ts.getPreEmitDiagnostics(program)[0];
  return d && ts.flattenDiagnosticMessageText(d.messageText, '\n');
}
