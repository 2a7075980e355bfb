// Prints generated data as TypeScript source.
const str = (s) => JSON.stringify(s).replaceAll('\u2028', '\\u2028').replaceAll('\u2029', '\\u2029');
const number = (n) => (Object.is(n, -0) ? '-0' : String(n));
const prop = (k) => (k === '__proto__' ? '["__proto__"]' : /^[A-Za-z_$][\w$]*$/.test(k) ? k : str(k));
const bytes = (b) => `[${[...b].join(', ')}]`;
function element({ $react, text, n, kids = [] }) {
  const inner = kids.map((k) => `, ${element(k)}`).join('');
  if ($react === 'string') return str(text || 'x');
  if ($react === 'array') return `[React.createElement('p', { key: 0 }, ${str(text)})${inner}]`;
  if ($react === 'host') return `React.createElement('h1', { title: ${str(text)} }, ${str(text)}${inner})`;
  return `React.createElement(Part, { text: ${str(text)}, n: ${n} }${inner})`;
}
export class Verbatim { constructor(text) { this.text = text; } }
export function toSource(v) {
  if (v instanceof Verbatim) return v.text;
  if (v === undefined) return 'undefined';
  if (typeof v === 'string') return str(v);
  if (typeof v === 'number') return number(v);
  if (v === null || typeof v !== 'object') return String(v);
  if (Array.isArray(v)) return `[${v.map(toSource).join(', ')}]`;
  if (v instanceof Uint8Array) return `Buffer.from(${bytes(v)})`;
  if (v.$react) return element(v);
  if (v.$buf) return `Buffer.from(${bytes(v.$buf)})`;
  if (v.$blob) return v.name === undefined ? `new Blob([new Uint8Array(${bytes(v.$blob)})], { type: ${str(v.type)} })` : `new File([new Uint8Array(${bytes(v.$blob)})], ${str(v.name)}, { type: ${str(v.type)} })`;
  if (v.$headers) {
    const pairs = `[${v.entries.map(([k, x]) => `[${str(k)}, ${str(x)}]`).join(', ')}]`;
    return v.$headers === 'pairs' ? pairs : v.$headers === 'Headers' ? `new Headers(${pairs})` : `{ ${v.entries.map(([k, x]) => `${prop(k)}: ${str(x)}`).join(', ')} }`;
  }
  return `{ ${Object.keys(v).map((k) => `${prop(k)}: ${toSource(v[k])}`).join(', ')} }`;
}
