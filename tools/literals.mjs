// Writes lib/known-literals.json from the current tree.
import { writeFileSync } from 'node:fs';
const file = new URL('../lib/known-literals.json', import.meta.url);
writeFileSync(file, '{"words":[],"numbers":[]}');
const { literals } = await import('../lib/dictionary.mjs');
writeFileSync(file, `${JSON.stringify(literals(), null, 0)}\n`);
