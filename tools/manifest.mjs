export function manifest(properties) {
  const notYet = new Set(JSON.parse(process.env.NOT_YET ?? '[]'));
  return {
    version: 1,
    setup_cmd: 'bash setup.sh',
    checks: properties.filter((p) => !notYet.has(p.id)).map((p) => ({
      property: p.id,
      quick_cmd: `node run.mjs ${p.id}`,
      thorough_cmd: `VERIF_TIER=thorough node run.mjs ${p.id}`,
      technique: p.technique,
      level: p.level ?? 'exploration',
      level_note: p.note ?? 'Searches generated inputs against an explicit oracle; shows presence of violations and explored coverage, not absence. Trusts Node\'s Request/Response/Headers/URL/FormData, fast-check, the reference model in lib/ops.mjs and the bundler (tsdown of /repo).',
    })),
    not_applicable: properties.filter((p) => notYet.has(p.id)).map((p) => ({ property: p.id, reason: 'check not built yet' })),
    notes: 'No hooks in /repo: every check bundles /repo/src with the repository\'s own tsdown into a scratch directory and observes it at the global fetch / console / clock boundary. Replay a violation with `node run.mjs <id> --replay <file>`.',
  };
}
