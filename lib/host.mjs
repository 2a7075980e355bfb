// What the process looks like from outside the library: globals, built-in prototypes, environment, listeners, resources.
import { createHook } from 'node:async_hooks';
import { check, real } from './env.mjs';
import { show } from './equal.mjs';

const WATCHED = () => {
  const names = ['Object', 'Array', 'String', 'Number', 'Boolean', 'Symbol', 'BigInt', 'Function', 'Promise', 'Date', 'RegExp', 'Error', 'TypeError', 'Map', 'Set', 'WeakMap', 'Uint8Array', 'ArrayBuffer', 'DataView', 'JSON', 'Math', 'Reflect', 'Intl', 'Headers', 'Request', 'Response', 'FormData', 'Blob', 'File', 'URL', 'URLSearchParams', 'AbortController', 'AbortSignal', 'TextDecoder', 'TextEncoder', 'ReadableStream', 'Event', 'EventTarget', 'Buffer', 'console', 'process', 'crypto', 'performance'];
  const out = [['globalThis', globalThis]];
  for (const n of names) {
    const v = globalThis[n];
    if (v === undefined || v === null) continue;
    out.push([n, v]);
    if (v.prototype) out.push([`${n}.prototype`, v.prototype]);
  }
  return out;
};
// Accessors of the platform's own lazily defined properties are compared as accessors or values alike.
const identity = (d) => ('value' in d ? d.value : d.get);
const ignored = new Set(['globalThis.__fakeRender', 'process.exitCode', 'process._exiting', 'process.domain', 'process._eventsCount', 'process._events']);
function shape() {
  const all = new Map();
  for (const [name, o] of WATCHED()) for (const k of Reflect.ownKeys(o)) {
    const at = `${name}.${String(k)}`;
    if (!ignored.has(at)) all.set(at, Object.getOwnPropertyDescriptor(o, k));
  }
  return all;
}
const listeners = () => Object.fromEntries(real.process.eventNames().map((e) => [String(e), real.process.listenerCount(e)]).filter(([, n]) => n));
const resources = () => real.process.getActiveResourcesInfo().filter((r) => r === 'Timeout' || r === 'Immediate' || r.startsWith('TCP') || r === 'FSReqCallback' || r === 'MessagePort' || r === 'Worker').sort();
export const snapshot = () => ({ shape: shape(), env: { ...real.process.env }, cwd: real.process.cwd(), umask: real.process.umask(), exitCode: real.process.exitCode, title: real.process.title, listeners: listeners(), resources: resources() });

export function unchanged(before, after, when, among = ['env', 'cwd', 'umask', 'exitCode', 'title', 'listeners', 'resources'], except = []) {
  for (const [k, d] of after.shape) {
    if (except.includes(k)) continue;
    const b = before.shape.get(k);
    check(b, () => `${when}, ${k} exists that did not before`);
    check(identity(b) === identity(d) || (Number.isNaN(b.value) && Number.isNaN(d.value)) || ('get' in b && 'value' in d), () => `${when}, ${k} is another value than before`);
    check('get' in b || (b.writable === d.writable && b.enumerable === d.enumerable), () => `${when}, ${k} has other attributes than before`);
  }
  for (const k of before.shape.keys()) check(after.shape.has(k), () => `${when}, ${k} is gone`);
  for (const k of among) {
    if (k === 'resources') continue;
    check(JSON.stringify(before[k]) === JSON.stringify(after[k]), () => `${when}, the process has another ${k} than before: ${show(differing(before[k], after[k]))}`);
  }
  if (!among.includes('resources')) return;
  const more = [...after.resources];
  for (const r of before.resources) { const i = more.indexOf(r); if (i >= 0) more.splice(i, 1); }
  check(more.length === 0, () => `${when}, the process has ${show(more)} left running`);
}
function differing(a, b) {
  if (!a || typeof a !== 'object') return [a, b];
  const out = {};
  for (const k of new Set([...Object.keys(a), ...Object.keys(b ?? {})])) if (a[k] !== b?.[k]) out[k] = [a[k], b?.[k]];
  return out;
}

// Timers that code under dir starts while fn runs and that are still due afterwards, whether or not they keep the process alive.
export async function timersLeft(dir, fn) {
  const started = [];
  const hook = createHook({ init(id, type, trigger, resource) { if (type === 'Timeout' && new Error().stack.includes(dir)) started.push(resource); } });
  hook.enable();
  try { await fn(); } finally { hook.disable(); }
  return started.filter((t) => !t._destroyed).map((t) => `a timer of ${t._repeat ?? t._idleTimeout} ms`);
}

// Rejections nobody handles, exceptions nobody catches, and warnings, while fn runs and shortly after.
export async function undisturbed(fn) {
  const events = [];
  const on = (name) => (e) => events.push(`${name}: ${e?.stack ?? e}`);
  const hooks = [['unhandledRejection', on('unhandled rejection')], ['uncaughtException', on('uncaught exception')], ['warning', on('warning')]];
  for (const [n, h] of hooks) real.process.on(n, h);
  try {
    const value = await fn();
    for (let i = 0; i < 3; i++) await new Promise((r) => real.setImmediate(r));
    return { value, events };
  } finally {
    for (const [n, h] of hooks) real.process.removeListener(n, h);
  }
}
