// Bundles REPO/src with the repository's own tsdown into a private scratch directory.
import { execFileSync } from 'node:child_process';
import { cpSync, existsSync, mkdirSync, mkdtempSync, readdirSync, rmSync, symlinkSync, writeFileSync } from 'node:fs';
import { createRequire } from 'node:module';
import { tmpdir } from 'node:os';
import { join } from 'node:path';
import { pathToFileURL } from 'node:url';
import { REPO } from './env.mjs';

let scratch;
export function scratchDir() {
  if (!scratch) {
    scratch = mkdtempSync(join(tmpdir(), 'resend-verif-'));
    process.on('exit', () => rmSync(scratch, { recursive: true, force: true }));
    for (const sig of ['SIGINT', 'SIGTERM', 'SIGHUP']) process.on(sig, () => process.exit(3));
  }
  return scratch;
}

function bundle() {
  const out = join(scratchDir(), 'bundle');
  try {
    execFileSync(
      join(REPO, 'node_modules/.bin/tsdown'),
      ['src/index.ts', '--format', 'esm,cjs', '--no-dts', '--no-config', '--out-dir', out],
      { cwd: REPO, stdio: ['ignore', 'pipe', 'pipe'] },
    );
  } catch (e) {
    process.stderr.write(`${e.stdout ?? ''}${e.stderr ?? ''}`);
    throw new Error('cannot bundle /repo/src');
  }
  return out;
}

const FAKE_RENDER = 'export const render = (...args) => globalThis.__fakeRender(...args);\n';
function linkModules(modules, renderer) {
  if (renderer === 'real') {
    symlinkSync(join(REPO, 'node_modules'), modules);
    return;
  }
  mkdirSync(modules);
  for (const name of readdirSync(join(REPO, 'node_modules'))) {
    if (name.startsWith('.') || name === '@react-email') continue;
    symlinkSync(join(REPO, 'node_modules', name), join(modules, name));
  }
  if (renderer === 'fake') {
    const dir = join(modules, '@react-email/render');
    mkdirSync(dir, { recursive: true });
    writeFileSync(join(dir, 'package.json'), JSON.stringify({ name: '@react-email/render', version: '0.0.0', type: 'module', main: './index.js', exports: './index.js' }));
    writeFileSync(join(dir, 'index.js'), FAKE_RENDER);
  }
}

let bundled;
async function load(renderer) {
  bundled ??= bundle();
  const dir = join(scratchDir(), renderer);
  mkdirSync(dir);
  linkModules(join(dir, 'node_modules'), renderer);
  const out = join(dir, 'dist');
  cpSync(bundled, out, { recursive: true });
  const mjs = ['index.mjs', 'index.js'].map((f) => join(out, f)).find((f) => existsSync(f));
  const cjs = join(out, 'index.cjs');
  const esm = await import(pathToFileURL(mjs).href);
  const common = createRequire(cjs)(cjs);
  return { esm, cjs: common, dir: out };
}

// renderer: 'real' (the installed React Email renderer), 'fake' (globalThis.__fakeRender decides)
// or 'none' (the optional package is not installed).
const loaded = {};
export const loadLib = (renderer = 'real') => (loaded[renderer] ??= load(renderer));

// Another evaluation of the same bundle, with module state of its own.
let copies = 0;
export async function loadFresh(dir, kind) {
  if (kind === 'esm') return import(`${pathToFileURL(['index.mjs', 'index.js'].map((f) => join(dir, f)).find((f) => existsSync(f))).href}?fresh=${++copies}`);
  const file = join(dir, 'index.cjs');
  const req = createRequire(file);
  delete req.cache[file];
  return req(file);
}
