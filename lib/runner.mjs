// Runs the sub-checks of one property: generation, shrinking, counting, evidence, replay files.
import { Buffer } from 'node:buffer';
import { createHash } from 'node:crypto';
import { mkdirSync, readFileSync, writeFileSync } from 'node:fs';
import { join } from 'node:path';
import { inspect } from 'node:util';
import v8 from 'node:v8';
import { fc, real, SEED, TIER, VERIF } from './env.mjs';

const digest = (bytes) => createHash('sha1').update(bytes).digest('base64');
// Shrinking stops this long after the first failure, and a quick run looks at no new case after its budget.
const SHRINK_MS = Number(process.env.VERIF_SHRINK_MS ?? 90_000);
const BUDGET_MS = 600_000;
const printed = (v) => inspect(v, { depth: 8, maxStringLength: 160, maxArrayLength: 8, breakLength: 160, compact: true }).slice(0, 1500);

function report(id, sub, value, message, extra = {}) {
  mkdirSync(join(VERIF, 'replays'), { recursive: true });
  const data = v8.serialize(value).toString('base64');
  const name = `replays/${id}-${createHash('sha1').update(sub + data).digest('hex').slice(0, 12)}.json`;
  writeFileSync(join(VERIF, name), `${JSON.stringify({ property: id, sub, message, case: printed(value), seed: SEED, tier: TIER, ...extra, v8: data }, null, 1)}\n`);
  real.console.log(`sub-check ${sub}: ${message}\ncase: ${printed(value)}`);
  real.console.log(`VIOLATION property=${id} replay=${name}`);
}

export async function runProperty(prop, ctx) {
  const began = performance.now();
  const coverage = { evaluations: 0, distinct_nontrivial: 0, rule: prop.rule, samples: [], subchecks: {}, classes: {} };
  let violations = 0;
  const factor = Number(process.env.VERIF_SCALE ?? 1);
  for (const sub of prop.subs) {
    if (process.env.VERIF_SUB && process.env.VERIF_SUB !== sub.name) continue;
    const stats = { cases: 0, nontrivial: 0 };
    const distinct = new Set();
    const t0 = performance.now();
    let failed = 0;
    let least; // the smallest failing case so far: shrinking goes from each failure to smaller ones only
    let stop;
    const stopped = new Promise((r) => { stop = r; });
    const account = (value, bytes) => {
      if (failed) return;
      stats.cases++;
      for (const c of sub.classify?.(value) ?? []) coverage.classes[c] = (coverage.classes[c] ?? 0) + 1;
      if (sub.nontrivial ? sub.nontrivial(value) : true) {
        stats.nontrivial++;
        const h = digest(bytes);
        if (!distinct.has(h)) {
          distinct.add(h);
          if (coverage.samples.length < 6 && distinct.size % 7 === 3 && (stats.samples = (stats.samples ?? 0) + 1) <= 2) coverage.samples.push(`${sub.name}: ${printed(value)}`);
        }
      }
    };
    const test = async (value) => {
      const now = performance.now();
      if (failed ? now - failed > SHRINK_MS : TIER === 'quick' && now - began > BUDGET_MS) {
        if (sub.exhaustive) return;
        stop(failed ? { failed: true, ...least } : { failed: false });
        await new Promise(() => {}); // nothing more is generated
      }
      const bytes = v8.serialize(value);
      account(value, bytes);
      ctx.atCase(sub.name, bytes);
      try {
        await sub.test(value, ctx);
      } catch (e) {
        failed ||= performance.now();
        least = { errorInstance: e, counterexample: [value] };
        throw e;
      } finally {
        ctx.idle();
      }
    };
    if (sub.exhaustive) {
      for (const value of sub.exhaustive(TIER)) {
        try { await test(value); } catch (e) {
          violations++;
          report(prop.id, sub.name, value, e.message + (e.name === 'Violation' || e.constructor.name === 'Violation' ? '' : `\n${e.stack}`));
          break;
        }
      }
    } else {
      const runs = Math.max(1, Math.round((TIER === 'thorough' ? sub.runs[1] : sub.runs[0]) * factor));
      const checked = fc.check(fc.asyncProperty(sub.arb, test), { seed: SEED, numRuns: runs, endOnFailure: false, interruptAfterTimeLimit: undefined, maxSkipsPerRun: 100 });
      const out = await Promise.race([checked, stopped]);
      if (out.failed) {
        violations++;
        const e = out.errorInstance;
        const value = out.counterexample?.[0];
        report(prop.id, sub.name, value, e ? e.message + (e.constructor.name === 'Violation' ? '' : `\n${e.stack}`) : 'too many skips', { path: out.counterexamplePath, shrinks: out.numShrinks });
      }
    }
    delete stats.samples;
    stats.distinct_nontrivial = distinct.size;
    stats.wall_s = Math.round(performance.now() - t0) / 1000;
    coverage.subchecks[sub.name] = stats;
    coverage.evaluations += stats.cases;
    coverage.distinct_nontrivial += distinct.size;
    if (violations) break;
  }
  if (coverage.samples.length === 0) coverage.samples.push('see subchecks');
  const evidence = { property: prop.id, tier: TIER, seed: SEED, level: prop.level ?? 'exploration', coverage, assumptions: prop.assumptions ?? [], wall_s: Math.round(performance.now() - began) / 1000, violations };
  mkdirSync(join(VERIF, 'evidence'), { recursive: true });
  writeFileSync(join(VERIF, 'evidence', `${prop.id}.json`), `${JSON.stringify(evidence, null, 1)}\n`);
  real.console.log(`${prop.id}: ${coverage.evaluations} cases, ${coverage.distinct_nontrivial} distinct non-trivial, ${violations} violation(s), ${evidence.wall_s} s`);
  return violations;
}

export async function replay(prop, file, ctx) {
  const r = JSON.parse(readFileSync(file, 'utf8'));
  const sub = prop.subs.find((s) => s.name === r.sub);
  const value = v8.deserialize(Buffer.from(r.v8, 'base64'));
  real.console.log(`replaying ${r.property} ${r.sub}\ncase: ${printed(value)}`);
  ctx.atCase(sub.name, v8.serialize(value));
  try {
    await sub.test(value, ctx);
  } catch (e) {
    real.console.log(`${e.message}\nVIOLATION property=${r.property} replay=${file}`);
    return 1;
  } finally {
    ctx.idle();
  }
  real.console.log('the case passes');
  return 0;
}
