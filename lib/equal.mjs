// Structural equality that tells undefined from a missing key and sees own __proto__ keys.
import { Buffer } from 'node:buffer';
import { inspect } from 'node:util';

export function same(a, b) {
  return diff(a, b) === null;
}

// Returns null when equal, else a short description of the first difference.
export function diff(a, b, path = '$') {
  if (Object.is(a, b) || (a === 0 && b === 0)) return null;
  if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) {
    return `${path}: ${show(a)} vs ${show(b)}`;
  }
  if (ArrayBuffer.isView(a) || ArrayBuffer.isView(b)) {
    if (!ArrayBuffer.isView(a) || !ArrayBuffer.isView(b)) return `${path}: bytes vs non-bytes`;
    return Buffer.compare(Buffer.from(a.buffer, a.byteOffset, a.byteLength), Buffer.from(b.buffer, b.byteOffset, b.byteLength)) === 0
      ? null : `${path}: bytes differ`;
  }
  if (Array.isArray(a) !== Array.isArray(b)) return `${path}: array vs object`;
  if (Array.isArray(a) && a.length !== b.length) return `${path}: length ${a.length} vs ${b.length}`;
  const ka = Object.keys(a);
  const kb = new Set(Object.keys(b));
  for (const k of ka) {
    if (!kb.has(k)) return `${path}.${k}: present (${show(own(a, k))}) vs missing`;
    kb.delete(k);
  }
  for (const k of kb) return `${path}.${k}: missing vs present (${show(own(b, k))})`;
  for (const k of ka) {
    const d = diff(own(a, k), own(b, k), `${path}.${k}`);
    if (d) return d;
  }
  return null;
}

export function own(o, k) {
  return Object.getOwnPropertyDescriptor(o, k)?.value;
}

export function show(v) {
  const s = inspect(v, { depth: 6, maxStringLength: 120, maxArrayLength: 12, breakLength: Infinity });
  return s.length > 400 ? `${s.slice(0, 400)}…` : s;
}

// The value a JSON transport of v delivers.
export const viaJson = (v) => {
  const s = JSON.stringify(v);
  return s === undefined ? undefined : JSON.parse(s);
};

export function setOwn(o, k, v) {
  Object.defineProperty(o, k, { value: v, enumerable: true, writable: true, configurable: true });
  return o;
}
