// Captures everything printed while fn runs, with the call it was printed in.
import { inspect } from 'node:util';
import { real } from './env.mjs';
import { callContext } from './net.mjs';

export async function captured(fn) {
  const lines = [];
  const methods = Object.keys(real.console).filter((k) => typeof console[k] === 'function');
  const streams = [[process.stdout, 'stdout'], [process.stderr, 'stderr']];
  const writes = streams.map(([s]) => s.write);
  for (const m of methods) console[m] = (...args) => { lines.push({ method: m, args, call: callContext.getStore() }); };
  streams.forEach(([s, name]) => { s.write = (chunk) => { lines.push({ method: name, args: [String(chunk)], call: callContext.getStore() }); return true; }; });
  try {
    const value = await fn();
    return { value, lines };
  } finally {
    Object.assign(console, real.console);
    streams.forEach(([s], i) => { s.write = writes[i]; });
  }
}

// Everything a deep look at a value shows.
export const exposed = (v) => {
  let json = '';
  try { json = JSON.stringify(v) ?? ''; } catch { /* cyclic */ }
  return `${inspect(v, { depth: 20, showHidden: true, maxArrayLength: null, maxStringLength: null, breakLength: Infinity })}\n${json}`;
};
// All values reachable from v through own properties.
export function* reachable(v, seen = new Set()) {
  yield v;
  if (v === null || typeof v !== 'object' || seen.has(v)) return;
  seen.add(v);
  for (const k of Reflect.ownKeys(v)) yield* reachable(Object.getOwnPropertyDescriptor(v, k).value, seen);
}
