// node types.mjs <repo> > mutants.json: small changes of the types in src, one at a time.
import { createRequire } from 'node:module';
import { readdirSync, readFileSync } from 'node:fs';
import { join } from 'node:path';

const ts = createRequire('/opt/veriftools/node/node_modules/')('typescript');
const repo = process.argv[2];
const files = readdirSync(join(repo, 'src'), { recursive: true }).filter((f) => f.endsWith('.ts') && !/\.spec\.ts$|test-utils|__recordings__/.test(f));
const out = [];
const K = ts.SyntaxKind;
for (const f of files) {
  const text = readFileSync(join(repo, 'src', f), 'utf8');
  const sf = ts.createSourceFile(f, text, ts.ScriptTarget.Latest, true);
  const put = (start, end, replacement, kind) => out.push({ file: `src/${f}`, start, end, replacement, kind, line: sf.getLineAndCharacterOfPosition(start).line + 1, original: text.slice(start, end).slice(0, 120) });
  const add = (n, replacement, kind) => put(n.getStart(sf), n.getEnd(), replacement, kind);
  const visit = (n) => {
    if (ts.isPropertySignature(n) && n.type) {
      const name = n.name.getText(sf);
      if (n.questionToken) add(n.questionToken, '', 'optional to required');
      else put(n.name.getEnd(), n.name.getEnd(), '?', 'required to optional');
      add(n, '', 'drop property');
      add(n.name, /_/.test(name) ? name.replace(/_(\w)/g, (_, c) => c.toUpperCase()) : `${name}s`, 'rename');
      const t = n.type.getText(sf);
      add(n.type, `${t.includes('=>') ? `(${t})` : t} | null`, 'null added');
    }
    if (ts.isUnionTypeNode(n)) for (const m of n.types) {
      const rest = n.types.filter((x) => x !== m).map((x) => (ts.isIntersectionTypeNode(x) ? `(${x.getText(sf)})` : x.getText(sf))).join(' | ');
      add(n, rest, 'member dropped');
    }
    if (ts.isLiteralTypeNode(n) && ts.isStringLiteral(n.literal)) add(n, `'${n.literal.text}s'`, 'literal changed');
    if (n.kind === K.StringKeyword && n.parent && !ts.isTypeReferenceNode(n.parent)) add(n, 'number', 'string to number');
    if (n.kind === K.NumberKeyword && n.parent && !ts.isTypeReferenceNode(n.parent)) add(n, 'string', 'number to string');
    if (n.kind === K.BooleanKeyword) add(n, 'string', 'boolean to string');
    if (ts.isArrayTypeNode(n)) { add(n, n.elementType.getText(sf), 'array dropped'); }
    if (ts.isTypeReferenceNode(n) && /^(Partial|Required|Omit|Pick|RequireAtLeastOne|Exclude)$/.test(n.typeName.getText(sf)) && n.typeArguments) add(n, n.typeArguments[0].getText(sf), 'utility dropped');
    if (ts.isTypeReferenceNode(n) && n.typeName.getText(sf) === 'Pick') add(n, n.getText(sf).replace(/\|\s*'\w+'(?=[^|]*$)/, ''), 'picked key dropped');
    if (ts.isIntersectionTypeNode(n)) for (const m of n.types) add(n, n.types.filter((x) => x !== m).map((x) => x.getText(sf)).join(' & '), 'part dropped');
    if (ts.isInterfaceDeclaration(n) && n.heritageClauses) for (const h of n.heritageClauses) for (const t of h.types) {
      const rest = h.types.filter((x) => x !== t).map((x) => x.getText(sf)).join(', ');
      add(h, rest ? `extends ${rest}` : '', 'base dropped');
    }
    if (ts.isExportDeclaration(n)) add(n, '', 'export dropped');
    if (ts.isParameter(n) && n.type && n.parent && ts.isMethodDeclaration(n.parent)) add(n.type, 'any', 'parameter of any type');
    if (ts.isMethodDeclaration(n) && n.type) add(n.type, 'Promise<any>', 'answer of any type');
    ts.forEachChild(n, visit);
  };
  visit(sf);
}
process.stdout.write(JSON.stringify(out.filter((m) => m.replacement !== m.original).map((m, id) => ({ ...m, id }))));
