// The published type declarations, built from REPO/src, and a compiler that judges programs against them.
import { execFileSync } from 'node:child_process';
import { cpSync, existsSync, mkdirSync, readdirSync, symlinkSync } from 'node:fs';
import { join } from 'node:path';
import { scratchDir } from './build.mjs';
import { REPO, repoRequire } from './env.mjs';

const ts = repoRequire('typescript');
// A program that uses the package as published: package.json, declarations, and what the repository has installed.
let root;
export function published() {
  if (root) return root;
  root = join(scratchDir(), 'types');
  const modules = join(root, 'node_modules');
  mkdirSync(join(modules, 'resend'), { recursive: true });
  for (const name of readdirSync(join(REPO, 'node_modules'))) if (!name.startsWith('.') && name !== 'resend') symlinkSync(join(REPO, 'node_modules', name), join(modules, name));
  cpSync(join(REPO, 'package.json'), join(modules, 'resend/package.json'));
  try {
    execFileSync(join(REPO, 'node_modules/.bin/tsdown'), ['src/index.ts', '--format', 'esm,cjs', '--dts', '--no-config', '--out-dir', join(modules, 'resend/dist')], { cwd: REPO, stdio: ['ignore', 'pipe', 'pipe'] });
  } catch (e) {
    process.stderr.write(`${e.stdout ?? ''}${e.stderr ?? ''}`);
    throw new Error('cannot build the declarations of /repo/src');
  }
  return root;
}

const node = { module: ts.ModuleKind.NodeNext, moduleResolution: ts.ModuleResolutionKind.NodeNext, target: ts.ScriptTarget.ES2022, lib: ['lib.es2023.d.ts'], types: ['node'] };
export const CONFIGS = {
  esm: { ext: 'mts', options: node },
  cjs: { ext: 'cts', options: node },
  bundler: { ext: 'ts', options: { module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler, target: ts.ScriptTarget.ESNext, lib: ['lib.esnext.d.ts', 'lib.dom.d.ts', 'lib.dom.iterable.d.ts'], types: ['node'], noUncheckedIndexedAccess: true, isolatedModules: true } },
};
const registry = ts.createDocumentRegistry();
const services = {};
const FRESH = 150; // judgements by one service: what it keeps grows
function service(name) {
  const { ext, options } = CONFIGS[name];
  const dir = published();
  const file = join(dir, `program-${name}.${ext}`);
  const state = { text: 'export {};', version: 0 };
  const host = {
    getScriptFileNames: () => [file],
    getScriptVersion: (f) => (f === file ? String(state.version) : '0'),
    getScriptSnapshot: (f) => (f === file ? ts.ScriptSnapshot.fromString(state.text) : existsSync(f) ? ts.ScriptSnapshot.fromString(ts.sys.readFile(f)) : undefined),
    getCurrentDirectory: () => dir,
    getCompilationSettings: () => ({ strict: true, noEmit: true, skipLibCheck: true, esModuleInterop: true, ...options }),
    getDefaultLibFileName: (o) => ts.getDefaultLibFilePath(o),
    fileExists: (f) => f === file || ts.sys.fileExists(f), readFile: (f) => (f === file ? state.text : ts.sys.readFile(f)),
    readDirectory: ts.sys.readDirectory, directoryExists: ts.sys.directoryExists, getDirectories: ts.sys.getDirectories, realpath: ts.sys.realpath,
  };
  return { file, state, used: 0, ls: ts.createLanguageService(host, registry) };
}
const flat = (m) => ts.flattenDiagnosticMessageText(m, '\n');
// What the compiler says about a program: [{ start, code, message }].
export function judge(config, text) {
  if (services[config]?.used >= FRESH) { services[config].ls.dispose(); delete services[config]; }
  const s = (services[config] ??= service(config));
  s.used++;
  s.state.text = text;
  s.state.version++;
  return [...s.ls.getSyntacticDiagnostics(s.file), ...s.ls.getSemanticDiagnostics(s.file)].map((d) => ({ start: d.start ?? 0, code: d.code, message: flat(d.messageText) }));
}
// The type of an operation of `resend`.
export const typeOf = (name) => `typeof resend.${name}${name.startsWith('batch.') ? "<{ batchValidation: 'strict' }>" : ''}`;
// A checker over a program of its own, for tools/typing.mjs.
export function checker(text) {
  const s = service('esm');
  s.state.text = text;
  s.state.version++;
  const program = s.ls.getProgram();
  return { ts, checker: program.getTypeChecker(), source: program.getSourceFile(s.file) };
}
