// Turns markers of generated data into live values, with fresh objects on every call.
import { Buffer } from 'node:buffer';
import { createRequire } from 'node:module';
import { join } from 'node:path';
import { REPO, repoRequire } from './env.mjs';
import { setOwn } from './equal.mjs';

const React = repoRequire('react');
const h = React.createElement;

function Plain({ text, n, children }) { return h('div', { title: text, 'data-n': n }, text, children); }
function List({ text, n, children }) { return h('ul', null, Array.from({ length: n }, (_, i) => h('li', { key: i }, `${text}${i}`)), children); }
function Link({ text, n, children }) { return h('a', { href: `https://x.test/?q=${encodeURIComponent(text)}&n=${n}` }, text, children); }
function Counter({ text, n, children }) { const [v] = React.useState(n); return h('b', { style: { width: v } }, text, ' ', v, children); }
function Fragment({ text, n, children }) { return h(React.Fragment, null, h('p', null, text), h('i', null, n), children); }
const Memo = React.memo(function Inner({ text, n, children }) { return h('section', { id: `s${n}` }, text, children); });
class Klass extends React.Component { render() { return h('p', { className: `c${this.props.n}` }, this.props.text, this.props.children); } }
async function Async({ text, n, children }) { for (let i = 0; i < n; i++) await null; return h('em', null, text, children); }
async function Slow({ text, n, children }) { for (let i = 0; i < n; i++) await new Promise((r) => setImmediate(r)); return h('q', null, text, n, children); }
const Ctx = React.createContext('none');
function UseCtx() { return h('s', null, React.useContext(Ctx)); }
function Context({ text, n, children }) { return h(Ctx.Provider, { value: `${text}${n}` }, h(UseCtx), children); }
function Big({ text, n, children }) { return h('table', null, h('tbody', null, Array.from({ length: n }, (_, i) => h('tr', { key: i }, h('td', null, text), h('td', null, i)))), children); }

function Wide({ text, n, children }) { return h('div', null, Array.from({ length: n * 40 }, (_, i) => h('p', { key: i, className: `row  ${i}` }, ' ', h('b', null, text), ' \n ', h('i', null, i, ' '), ' ')), children); }

const components = { plain: Plain, list: List, link: Link, counter: Counter, fragment: Fragment, memo: Memo, klass: Klass, async: Async, slow: Slow, context: Context, big: Big, wide: Wide };

export function element({ $react, text, n, kids }) {
  const children = (kids ?? []).map((k, i) => h(React.Fragment, { key: i }, element(k)));
  if ($react === 'string') return text || 'x';
  if ($react === 'array') return [h('p', { key: 0 }, text), ...children];
  if ($react === 'host') return h('h1', { title: text }, text, String(n), ...children);
  return h(components[$react], { text, n }, ...children);
}

let renderFn;
export async function renderExpected(desc) {
  if (!renderFn) {
    const path = createRequire(join(REPO, 'package.json')).resolve('@react-email/render');
    renderFn = createRequire(path)(path).render;
  }
  return renderFn(element(desc));
}

// Headers of another implementation (a fetch package's, a framework's): what the platform's own knows of them is that they can be iterated.
class ForeignHeaders {
  #list;
  constructor(list) { this.#list = list; }
  * entries() { yield* this.#list.map(([k, v]) => [k.toLowerCase(), v]); }
  [Symbol.iterator]() { return this.entries(); }
  * keys() { for (const [k] of this.entries()) yield k; }
  get(name) { const all = this.#list.filter(([k]) => k.toLowerCase() === name.toLowerCase()); return all.length ? all.map(([, v]) => v).join(', ') : null; }
  has(name) { return this.get(name) !== null; }
  forEach(f) { for (const [k, v] of this.entries()) f(v, k, this); }
}

// What occurs twice in the generated data is one and the same object.
export function materialise(v, made = new Map()) {
  if (v === null || typeof v !== 'object') return v;
  if (made === null) return make(v, null); // every occurrence an object of its own
  if (!made.has(v)) made.set(v, make(v, made));
  return made.get(v);
}
function make(v, made) {
  if (Array.isArray(v)) return v.map((x) => materialise(x, made));
  if (v instanceof Uint8Array) return Buffer.from(v);
  if (v.$react) return element(v);
  if (v.$buf) return Buffer.from(v.$buf);
  if (v.$blob) {
    if (v.name !== undefined) return new File([v.$blob], v.name, { type: v.type });
    return new Blob([v.$blob], { type: v.type });
  }
  if (v.$form) {
    const form = v.derived ? new (class Upload extends FormData {})() : new FormData();
    for (const [k, x] of v.$form) form.append(k, typeof x === 'string' ? x : materialise(x, made));
    return form;
  }
  if (v.$headers === 'object') return v.entries.reduce((o, [k, x]) => setOwn(o, k, x), {});
  if (v.$headers === 'pairs') return v.entries.map(([k, x]) => [k, x]);
  if (v.$headers === 'Headers') return new Headers(v.entries.map(([k, x]) => [k, x]));
  if (v.$headers === 'foreign') return new ForeignHeaders(v.entries.map(([k, x]) => [k, x]));
  return Object.keys(v).reduce((o, k) => setOwn(o, k, materialise(v[k], made)), {});
}

// Freezes everything freezable, at any depth (React elements are left to React).
export function deepFreeze(v) {
  if (v === null || typeof v !== 'object' || Object.isFrozen(v)) return v;
  if (ArrayBuffer.isView(v) || v instanceof Headers || v instanceof Blob || v.$$typeof) return v;
  Object.freeze(v);
  for (const k of Object.keys(v)) deepFreeze(v[k]);
  return v;
}
