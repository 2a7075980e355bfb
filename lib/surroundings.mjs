// Environment variables around the library: those its source names beyond its documented ones,
// and those an application's environment usually has (a key, which clients given another have no use for, among them).
import { readdirSync, readFileSync } from 'node:fs';
import { join } from 'node:path';
import { fc, real, REPO } from './env.mjs';

const DOCUMENTED = ['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT', 'NODE_ENV'];
const RUNNER = ['PATH', 'HOME', 'TMPDIR', 'NODE_OPTIONS', 'NODE_PATH'];
function named() {
  const names = new Set();
  for (const f of readdirSync(join(REPO, 'src'), { recursive: true })) {
    if (!f.endsWith('.ts') || f.endsWith('.spec.ts') || f.includes('test-utils')) continue;
    const text = readFileSync(join(REPO, 'src', f), 'utf8');
    for (const [, , name] of text.matchAll(/\benv\b(\?\.|\.|\?\.\[['"`]|\[['"`])([A-Za-z_]\w*)/g)) names.add(name);
    for (const [, name] of text.matchAll(/['"`]([A-Z][A-Z0-9]*_[A-Z0-9_]+)['"`]/g)) names.add(name);
  }
  return [...names].filter((n) => !DOCUMENTED.includes(n) && !RUNNER.includes(n) && !n.startsWith('VERIF_'));
}
const found = named();
const USUAL = ['DEBUG', 'RESEND_DEBUG', 'RESEND_LOG', 'RESEND_TIMEOUT', 'RESEND_MAX_RETRIES', 'RESEND_REGION', 'RESEND_TEST_MODE', 'VERBOSE', 'LOG_LEVEL', 'CI', 'VITEST', 'JEST_WORKER_ID', 'VERCEL', 'VERCEL_ENV', 'NETLIFY', 'NEXT_RUNTIME', 'AWS_LAMBDA_FUNCTION_NAME', 'CF_PAGES', 'npm_package_version', 'npm_config_user_agent', 'HTTPS_PROXY', 'HTTP_PROXY', 'NO_PROXY', 'DRY_RUN', 'EMAIL_FROM', 'NODE_DEBUG', 'TEST'];
const name = found.length ? fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...found) }, { weight: 2, arbitrary: fc.constantFrom(...USUAL) }) : fc.constantFrom(...USUAL);
const value = fc.constantFrom('1', '1', 'true', '*', 'resend', 'resend:*', 'debug', 'production', 'development', 'test', '0', 'false', '', '5', 'http://127.0.0.1:9');
export const someSurroundings = fc.uniqueArray(fc.oneof({ weight: 5, arbitrary: fc.tuple(name, value) }, { weight: 1, arbitrary: fc.tuple(fc.constant('RESEND_API_KEY'), fc.constantFrom('re_other_key', 'x', '')) }), { selector: ([n]) => n, minLength: 1, maxLength: 4 });
export const surroundings = fc.oneof({ weight: found.length ? 3 : 5, arbitrary: fc.constant([]) }, { weight: 1, arbitrary: someSurroundings });

// Sets them; returns what undoes it.
export function surround(list = []) {
  const before = list.map(([k]) => [k, real.process.env[k]]);
  for (const [k, v] of list) real.process.env[k] = v;
  return () => { for (const [k, v] of before) { if (v === undefined) delete real.process.env[k]; else real.process.env[k] = v; } };
}
