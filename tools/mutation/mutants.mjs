// node mutants.mjs <repo> > mutants.json: small syntactic changes of src, one at a time.
import { createRequire } from 'node:module';
import { readdirSync, readFileSync } from 'node:fs';
import { join } from 'node:path';

const ts = createRequire('/opt/veriftools/node/node_modules/')('typescript');
const repo = process.argv[2];
const files = readdirSync(join(repo, 'src'), { recursive: true }).filter((f) => f.endsWith('.ts') && !/\.spec\.ts$|test-utils|interfaces|\.d\.ts$|__recordings__/.test(f));
const out = [];
for (const f of files) {
  const text = readFileSync(join(repo, 'src', f), 'utf8');
  const sf = ts.createSourceFile(f, text, ts.ScriptTarget.Latest, true);
  const add = (node, replacement, kind) => {
    const start = node.getStart(sf);
    const end = node.getEnd();
    const line = sf.getLineAndCharacterOfPosition(start).line + 1;
    out.push({ file: `src/${f}`, start, end, replacement, kind, line, original: text.slice(start, end).slice(0, 120) });
  };
  const K = ts.SyntaxKind;
  const visit = (n) => {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return;
    if (ts.isPropertyAssignment(n)) {
      const end = text[n.getEnd()] === ',' ? 1 : 0;
      out.push({ file: `src/${f}`, start: n.getStart(sf), end: n.getEnd() + end, replacement: '', kind: 'drop property', line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, original: n.getText(sf).slice(0, 120) });
      const v = n.initializer.getText(sf);
      if (!ts.isObjectLiteralExpression(n.initializer)) { add(n.initializer, `((${v}) || undefined)`, 'falsy dropped'); add(n.initializer, `((${v}) ?? undefined)`, 'null dropped'); add(n.initializer, `((${v}) ?? null)`, 'undefined to null'); add(n.initializer, `(typeof (${v}) === 'string' ? (${v}).trim() : (${v}))`, 'trimmed'); }
    }
    if (ts.isBinaryExpression(n)) {
      const [a, b] = [n.left.getText(sf), n.right.getText(sf)];
      const op = n.operatorToken.getText(sf);
      for (const alt of { '??': ['||', '&&'], '||': ['??', '&&'], '&&': ['||'], '===': ['!==', '=='], '!==': ['===', '!='], '<': ['<=', '>='], '>': ['>=', '<='], '<=': ['<'], '>=': ['>'], '+': ['-'], '-': ['+'] }[op] ?? []) add(n, `(${a} ${alt} ${b})`, `${op} to ${alt}`);
      if (['??', '||', '&&'].includes(op)) { add(n, `(${a})`, 'left only'); add(n, `(${b})`, 'right only'); }
    }
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add(n, n.operand.getText(sf), 'drop !');
    if (ts.isConditionalExpression(n)) { add(n, `(${n.whenTrue.getText(sf)})`, 'true branch'); add(n, `(${n.whenFalse.getText(sf)})`, 'false branch'); }
    if (ts.isIfStatement(n)) { add(n.expression, 'true', 'if true'); add(n.expression, 'false', 'if false'); }
    if (ts.isAwaitExpression(n)) add(n, n.expression.getText(sf), 'drop await');
    if (ts.isStringLiteral(n) && !ts.isImportDeclaration(n.parent) && !ts.isLiteralTypeNode(n.parent)) { add(n, "''", 'empty string'); add(n, `${JSON.stringify(`${n.text}x`)}`, 'string x'); if (n.text !== n.text.toLowerCase()) add(n, JSON.stringify(n.text.toLowerCase()), 'lower case'); }
    if (ts.isNumericLiteral(n)) { add(n, String(Number(n.text) + 1), 'number +1'); add(n, String(Number(n.text) - 1), 'number -1'); }
    if (n.kind === K.TrueKeyword) add(n, 'false', 'true to false');
    if (n.kind === K.FalseKeyword) add(n, 'true', 'false to true');
    if (ts.isTemplateExpression(n)) {
      for (const s of n.templateSpans) {
        const e = s.expression.getText(sf);
        add(s.expression, "''", 'empty span');
        add(s.expression, `encodeURIComponent(String(${e}))`, 'encoded span');
        add(s.expression, `encodeURI(String(${e}))`, 'encodeURI span');
        add(s.expression, `String(${e}).toLowerCase()`, 'lower span');
        add(s.expression, `String(${e}).trim()`, 'trimmed span');
      }
    }
    if (ts.isCallExpression(n)) {
      const args = n.arguments.map((x) => x.getText(sf));
      const fn = n.expression.getText(sf);
      if (/encodeURIComponent$/.test(fn)) { add(n, args[0], 'unencoded'); add(n, `encodeURI(${args[0]})`, 'encodeURI'); add(n, `encodeURIComponent(${n.getText(sf)})`, 'double encoded'); }
      if (args.length > 1 && /\.(get|post|put|patch|delete)$/.test(fn)) add(n, `${fn}(${args.slice(0, -1).join(', ')})`, 'drop last argument');
      if (ts.isPropertyAccessExpression(n.expression)) {
        const base = n.expression.expression.getText(sf);
        if (/\.(map|filter|slice|replace|trim|toLowerCase|toUpperCase|toString)$/.test(fn) && !/this$/.test(base)) add(n, base, `drop ${n.expression.name.text}`);
        if (n.expression.name.text === 'map') { add(n, `${n.getText(sf)}.reverse()`, 'reversed'); add(n, `${n.getText(sf)}.slice(0, 100)`, 'first 100'); add(n, `[...new Set(${base})].map(${args.join(', ')})`, 'deduplicated'); }
        if (/append/.test(n.expression.name.text)) add(n, `${base}.set(${args.join(', ')})`, 'append to set');
        if (n.expression.name.text === 'set') add(n, `${base}.append(${args.join(', ')})`, 'set to append');
        if (n.expression.name.text === 'all') add(n, `${base}.allSettled(${args.join(', ')})`, 'allSettled');
      }
    }
    if (ts.isSpreadAssignment(n)) { const end = text[n.getEnd()] === ',' ? 1 : 0; out.push({ file: `src/${f}`, start: n.getStart(sf), end: n.getEnd() + end, replacement: '', kind: 'drop spread', line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, original: n.getText(sf).slice(0, 120) }); }
    if (ts.isExpressionStatement(n) || ts.isThrowStatement(n) || (ts.isIfStatement(n) && !n.elseStatement)) add(n, ';', 'drop statement');
    if (ts.isPropertyAccessExpression(n) && n.questionDotToken) add(n, n.getText(sf).replace('?.', '.'), 'drop ?.');
    ts.forEachChild(n, visit);
  };
  visit(sf);
}
process.stdout.write(JSON.stringify(out));
