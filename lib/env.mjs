// Paths and small utilities shared by everything. REPO can be redirected (mutation testing of
// scratch copies); the commands in MANIFEST.json never set VERIF_REPO.
import { createRequire } from 'node:module';
import { dirname, join } from 'node:path';
import { fileURLToPath } from 'node:url';

export const VERIF = join(dirname(fileURLToPath(import.meta.url)), '..');
export const REPO = process.env.VERIF_REPO ?? '/repo';
export const repoRequire = createRequire(join(REPO, 'package.json'));
const fcModule = await import('/opt/veriftools/node/node_modules/fast-check/lib/fast-check.js');
export const fc = fcModule.default ?? fcModule;
export const SEED = Number.parseInt(process.env.VERIF_SEED ?? '1', 10) | 0;
export const TIER = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';

// Originals, captured before anything is stubbed.
export const real = {
  fetch: globalThis.fetch,
  setTimeout: globalThis.setTimeout,
  clearTimeout: globalThis.clearTimeout,
  setImmediate: globalThis.setImmediate,
  Date: globalThis.Date,
  process: globalThis.process,
  console: { ...console },
};

export class Violation extends Error {}
export function fail(message) {
  throw new Violation(message);
}
export function check(cond, message) {
  if (!cond) fail(typeof message === 'function' ? message() : message);
}
export const tick = () => new Promise((r) => real.setImmediate(r));
// Everyone waiting here is let go in the same turn of the event loop, so that their continuations interleave.
let waiting = null;
const together = () => new Promise((r) => {
  if (!waiting) {
    waiting = [];
    real.setImmediate(() => { const all = waiting; waiting = null; for (const go of all) go(); });
  }
  waiting.push(r);
});
// n turns; for an even n the last one together with others.
export async function pause(n) {
  for (let k = 1; k < n; k++) await tick();
  if (n > 0) await (n % 2 ? tick() : together());
}
