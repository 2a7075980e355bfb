// Writes lib/typing.json from the current tree: the names the package exports, and, for every operation and
// every webhook event, the fields of its answer with their types.
import { writeFileSync } from 'node:fs';
import { join } from 'node:path';
import '../lib/forward.mjs';
import { VERIF } from '../lib/env.mjs';
import { find, ops } from '../lib/ops.mjs';
import { checker as make, typeOf } from '../lib/typing.mjs';

const names = [...ops.keys(), 'emails.receiving.forward'];
const text = `import * as all from 'resend';\nimport { Resend, type WebhookEventPayload } from 'resend';\ndeclare const resend: Resend;\n${names.map((n, i) => `declare const r${i}: Extract<Awaited<ReturnType<${typeOf(n)}>>, { error: null }>['data'];`).join('\n')}\ndeclare const event: WebhookEventPayload;\nr0;event;all;`;
const { ts, checker, source } = make(text);
const declared = (name) => {
  let out;
  ts.forEachChild(source, function walk(n) { if (ts.isVariableDeclaration(n) && n.name.text === name) out = checker.getTypeAtLocation(n.name); ts.forEachChild(n, walk); });
  return out;
};
const FORMAT = ts.TypeFormatFlags.NoTruncation | ts.TypeFormatFlags.InTypeAlias;
const printed = (t) => [...new Set((t.isUnion() ? t.types : [t]).map((m) => checker.typeToString(m, source, FORMAT)))].join(' | ').replace('false | true', 'boolean').replace('true | false', 'boolean');
const plain = (t) => (t.isUnion() ? t.types : [t]).every((m) => m.flags & (ts.TypeFlags.StringLike | ts.TypeFlags.NumberLike | ts.TypeFlags.BooleanLike | ts.TypeFlags.Null | ts.TypeFlags.Undefined | ts.TypeFlags.Unknown | ts.TypeFlags.StringLiteral));
// [path, type, whether it may be assigned, [path, field, value] that narrows a union first if need be],
// or [path, null, how it may be missing]
function fields(t, path, out, depth, writable = true, guard = undefined) {
  const whole = checker.getNonNullableType(t);
  const maybe = whole !== t ? '!' : '';
  if (plain(t)) { out.push(guard ? [path, printed(t), false, guard] : [path, printed(t), writable]); return; }
  if (depth > 6) return;
  const parts = whole.isUnion() ? whole.types.filter((m) => !plain(m)) : [whole];
  if (maybe && guard) return;
  if (maybe) out.push([path, null, (t.isUnion() ? t.types : []).some((m) => m.flags & ts.TypeFlags.Null) ? 'null' : 'undefined']); // may be missing
  const still = writable && !whole.isUnion();
  if (whole.isUnion() && parts.length !== whole.types.length) {
    if (guard) return;
    out.push([path, printed(t), false]); return; }
  if (checker.isArrayType(whole)) { fields(checker.getTypeArguments(whole)[0], `${path}${maybe}[0]!`, out, depth + 1, still, guard); return; }
  const index = checker.getIndexTypeOfType(whole, ts.IndexKind.String);
  if (index && checker.getPropertiesOfType(whole).length === 0) { fields(index, `${path}${maybe}['k']!`, out, depth + 1, still, guard); return; }
  if (whole.isUnion() && !guard) {
    const common = checker.getPropertiesOfType(whole).map((p) => p.name);
    const by = common.find((n) => parts.every((m) => checker.getTypeOfSymbol(m.getProperty(n)).isStringLiteral()) && new Set(parts.map((m) => checker.getTypeOfSymbol(m.getProperty(n)).value)).size === parts.length);
    if (by) for (const m of parts) fields(m, `${path}${maybe}`, out, depth + 1, false, [`${path}${maybe}`, by, checker.getTypeOfSymbol(m.getProperty(by)).value]);
  }
  for (const p of checker.getPropertiesOfType(whole)) {
    if (p.flags & ts.SymbolFlags.Method) continue;
    const pt = checker.getTypeOfSymbol(p);
    fields(pt, `${path}${maybe}.${p.name}`, out, depth + 1, still, guard);
  }
}
const answers = {};
names.forEach((n, i) => { const out = []; fields(declared(`r${i}`), '', out, 0); answers[n] = out; });
const events = {};
for (const e of declared('event').types) {
  const out = [];
  fields(e, '', out, 0);
  const type = out.find(([p]) => p === '.type')[1];
  events[JSON.parse(type)] = out;
}
const module = checker.getSymbolAtLocation(source.statements[0].moduleSpecifier);
const exported = checker.getExportsOfModule(module).map((s) => { const target = s.flags & ts.SymbolFlags.Alias ? checker.getAliasedSymbol(s) : s; return [s.name, Boolean(target.flags & ts.SymbolFlags.Value)]; });
writeFileSync(join(VERIF, 'lib/typing.json'), `${JSON.stringify({ exported, answers, events }, null, 0).replaceAll('],[', '],\n[')}\n`);
console.log(exported.length, names.length, Object.values(answers).flat().length, Object.keys(events).length);
process.exit(0);
