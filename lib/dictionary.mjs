// The words and numbers written in the source under test, as a fuzzer's dictionary: those written
// more often than in known-literals.json (the tree this was written for) are likelier to matter, and are drawn often.
import { readdirSync, readFileSync } from 'node:fs';
import { join } from 'node:path';
import { fc, REPO, VERIF } from './env.mjs';

const unescape = (s) => { try { return JSON.parse(`"${s.replace(/\\(?=['`$])/g, '').replace(/(?<!\\)"/g, '\\"').replaceAll('\n', '\\n')}"`); } catch { return s; } };
class Counts extends Map { add(x) { this.set(x, (this.get(x) ?? 0) + 1); } }
export function literals() {
  const words = new Counts();
  const numbers = new Counts();
  for (const f of readdirSync(join(REPO, 'src'), { recursive: true })) {
    if (!f.endsWith('.ts') || f.endsWith('.spec.ts') || f.includes('test-utils')) continue;
    const text = readFileSync(join(REPO, 'src', f), 'utf8').replace(/^\s*(\/\/|\/?\*).*$/gm, '');
    for (const [, s] of text.matchAll(/'((?:[^'\\\n]|\\.){1,60})'/g)) words.add(unescape(s));
    for (const [, s] of text.matchAll(/"((?:[^"\\\n]|\\.){1,60})"/g)) words.add(unescape(s));
    for (const [, s] of text.matchAll(/`((?:[^`\\]|\\.)*)`/g)) for (const part of s.split(/\$\{[^}]*\}/)) if (part && part.length <= 60) words.add(unescape(part));
    for (const [, s] of text.matchAll(/(?<=[(,=:!&|?]\s*)\/((?:[^/\\\n]|\\.)+)\/[dgimsuvy]*/g)) for (const [w] of s.replace(/\\([bBdDsSwWnrtfv])/g, '\u0001').replace(/\\(.)/g, '$1').matchAll(/[^\u0001^$*+?()[\]{}|]+/g)) words.add(w);
    for (const [, s] of text.matchAll(/(?<![\w.'"])(0x[\da-f]+|\d[\d_]*(?:\.\d+)?(?:e\d+)?)\b/gi)) { const n = Number(s.replaceAll('_', '')); if (Number.isFinite(n)) numbers.add(n); }
  }
  return { words: [...words].filter(([w]) => w.isWellFormed() && !/^\.\.?\//.test(w)).sort(([a], [b]) => (a < b ? -1 : 1)), numbers: [...numbers].sort(([a], [b]) => a - b) };
}
const found = literals();
const here = { words: found.words.map(([w]) => w) };
const known = JSON.parse(readFileSync(join(VERIF, 'lib/known-literals.json'), 'utf8'));
const more = (a, b) => { const had = new Map(b); return a.filter(([x, n]) => n > (had.get(x) ?? 0)).map(([x]) => x); };
export const fresh = { words: more(found.words, known.words), numbers: more(found.numbers, known.numbers) };

// Words alone, around and within other text, and in another case.
const around = (words) => fc.tuple(fc.constantFrom(...words), fc.constantFrom('', '', '', 'x', 'a b', '_1', '-', '1', ' ', '@b.co', 'é', '/', '.'), fc.nat(7)).map(([w, x, how]) => [w, w, w + x, x + w, x + w + x, w.toUpperCase(), w.toLowerCase(), x + w[0].toUpperCase() + w.slice(1)][how]).filter((w) => w.isWellFormed());
const none = { weight: 0, arbitrary: fc.constant('x') };
const weighted = (mine, weights) => (mine.length ? { weight: weights, arbitrary: around(mine) } : none);

// Draws from the dictionary now and then (often when there are fresh words), keeping to what `fits`.
export function spiced(arb, fits = () => true) {
  const fine = (w) => fits(w);
  const news = fresh.words.filter(fine);
  return fc.oneof({ weight: 96, arbitrary: arb }, weighted(here.words.filter(fine), 2), weighted(news, 18)).filter((w) => typeof w !== 'string' || fits(w));
}
const near = fresh.numbers.flatMap((n) => [n - 1, n, n + 1]);
// Numbers named in fresh code, and their neighbours.
export function spicedNumber(arb, fits = () => true, weight = 12) {
  const news = near.filter(fits);
  return news.length ? fc.oneof({ weight: 88, arbitrary: arb }, { weight, arbitrary: fc.constantFrom(...news) }) : arb;
}
export const freshBetween = (lo, hi) => near.filter((n) => Number.isInteger(n) && n >= lo && n <= hi);
