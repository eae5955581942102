// C28: the rendering core is independent of the host.
import { ts, AnchorError } from './_lib.mjs';

export const technique = 'resolution of every import and every name of the type-checked program: the modules the core depends on, and the host interfaces the names and members used in them are declared by';
export const about = 'The modules that render, commit and schedule are found by what they export and closed under the imports that remain at run time. Every identifier, member access, element access and import in them is resolved to its declaration; none may be declared by the DOM library, by a DOM module or by an add-on.';
export const assumptions = ['Microtasks and the console, which every JavaScript host offers, are not part of a host environment.', 'Imports of types only leave no dependency behind.'];

const SK = ts.SyntaxKind;
const ROOTS = ['Runtime', 'createComponent', 'RenderContext', 'mount', 'patch', 'unmount', 'createTemplate', 'createFragment', 'Scope', 'RenderError'];
const FREE = new Set(['queueMicrotask', 'console', 'Console']);
const TIME = new Set(['Date', 'Math.random', 'Intl']);

/** The modules a module needs at run time, each with the node that says so. */
export function imports(c, file) {
  const out = [];
  const opts = c.P.program.getCompilerOptions();
  const target = (spec) => { const s = c.P.checker.getSymbolAtLocation(spec); return s?.declarations?.find((d) => ts.isSourceFile(d)) ?? null; };
  const push = (spec, node) => out.push({ spec: spec.text, file: target(spec), node });
  const value = (name) => { const s = c.P.symbolOf(name); return !s || !!(s.flags & ts.SymbolFlags.Value); };
  c.P.walk(file, (n) => {
    if (ts.isImportDeclaration(n) && ts.isStringLiteral(n.moduleSpecifier)) {
      const cl = n.importClause;
      if (!cl) push(n.moduleSpecifier, n);
      else if (!cl.isTypeOnly) {
        const names = [...(cl.name ? [cl.name] : []), ...(cl.namedBindings ? (ts.isNamespaceImport(cl.namedBindings) ? [cl.namedBindings.name] : cl.namedBindings.elements.filter((e) => !e.isTypeOnly).map((e) => e.name)) : [])];
        if (opts.verbatimModuleSyntax ? names.length || !cl.namedBindings?.elements?.length : names.some(value)) push(n.moduleSpecifier, n);
      }
    } else if (ts.isExportDeclaration(n) && n.moduleSpecifier && !n.isTypeOnly) {
      const names = n.exportClause && ts.isNamedExports(n.exportClause) ? n.exportClause.elements.filter((e) => !e.isTypeOnly) : null;
      if (!names || names.some((e) => value(e.name))) push(n.moduleSpecifier, n);
    } else if (ts.isCallExpression(n) && n.arguments.length && ts.isStringLiteralLike(n.arguments[0]) && (n.expression.kind === SK.ImportKeyword || (ts.isIdentifier(n.expression) && n.expression.text === 'require'))) push(n.arguments[0], n);
  });
  return out;
}
const within = (c, file, dir) => new RegExp(`(^|/)src/${dir}(/|\\.)`).test(c.P.rel(file)) || new RegExp(`^${dir}/`).test(c.P.rel(file));
function core(c) {
  if (c._c28) return c._c28;
  const seen = new Map(), todo = [];
  for (const r of ROOTS) for (const d of c.P.exported(r)) { const f = d.getSourceFile(); if (!seen.has(f)) { seen.set(f, null); todo.push(f); } }
  if (seen.size < 4) throw new AnchorError('the modules of the core were not found');
  const bad = [];
  while (todo.length) {
    const f = todo.pop();
    for (const i of imports(c, f)) {
      if (!i.file || !c.P.inRepo(i.file)) { bad.push({ ...i, from: f, why: `the core imports '${i.spec}', which is not part of it` }); continue; }
      if (within(c, i.file, 'dom')) { bad.push({ ...i, from: f, why: `the core imports the DOM module '${i.spec}'` }); continue; }
      if (within(c, i.file, 'addons')) { bad.push({ ...i, from: f, why: `the core imports the add-on '${i.spec}'` }); continue; }
      if (!seen.has(i.file)) { seen.set(i.file, f); todo.push(i.file); }
    }
  }
  return (c._c28 = { files: [...seen.keys()], bad });
}
function modules(c) {
  const { files, bad } = core(c);
  for (const f of files) c.expect(!within(c, f, 'dom') && !within(c, f, 'addons'), f, 'a module of the core lies among the host or add-on modules');
  for (const f of files) for (const i of imports(c, f)) { const b = bad.find((x) => x.node === i.node); c.expect(!b, i.node, b?.why); }
}
function addons(c) {
  let n = 0;
  for (const f of c.P.files) {
    if (within(c, f, 'addons')) continue;
    for (const i of imports(c, f)) { n++; c.expect(!i.file || !within(c, i.file, 'addons'), i.node, `'${i.spec}' is an add-on, and something outside of the add-ons depends on it`); }
  }
  c.expect(n > 5, c.P.files[0], 'no module imports another');
}
const lib = (d) => /(^|\/)lib\.(dom|webworker|scripthost)[^/]*\.d\.ts$/.test(d.getSourceFile().fileName) || /(^|\/)ambient\.d\.ts$/.test(d.getSourceFile().fileName);
const es = (d) => /(^|\/)lib\.(es|decorators)[^/]*\.d\.ts$/.test(d.getSourceFile().fileName);
/** Member names of the interfaces of a document. */
function domNames(c) {
  if (c._domNames) return c._domNames;
  const out = new Set(), plain = new Set();
  const f = c.P.program.getSourceFiles().find((x) => /lib\.dom\.d\.ts$/.test(x.fileName));
  for (const s of f?.statements ?? []) if (ts.isInterfaceDeclaration(s) && ['Node', 'Element', 'Document', 'ParentNode', 'ChildNode', 'EventTarget', 'HTMLElement', 'Window', 'CharacterData', 'WindowOrWorkerGlobalScope', 'Attr', 'HTMLTemplateElement', 'DocumentFragment'].includes(s.name.text)) for (const m of s.members) if (m.name && (ts.isIdentifier(m.name) || ts.isStringLiteral(m.name))) out.add(m.name.text);
  for (const file of c.P.files) c.P.walk(file, (n) => { if ((ts.isPropertySignature(n) || ts.isMethodSignature(n) || ts.isPropertyDeclaration(n) || ts.isMethodDeclaration(n) || ts.isPropertyAssignment(n)) && n.name && ts.isIdentifier(n.name) && !within(c, file, 'dom')) plain.add(n.name.text); });
  for (const p of [...plain, 'name', 'length', 'toString', 'constructor', 'data', 'value', 'type', 'key', 'children']) out.delete(p);
  return (c._domNames = out);
}
function names(c) {
  const { files } = core(c);
  const ck = c.P.checker, dom = domNames(c);
  const skip = (n) => { while (n && (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isSatisfiesExpression(n) || ts.isTypeAssertionExpression(n))) n = n.expression; return n; };
  let uses = 0;
  for (const file of files) c.P.walk(file, (n) => {
    if (ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || (ts.isTypeNode(n) && !ts.isExpressionWithTypeArguments(n))) return false;
    if (ts.isExpressionWithTypeArguments(n) && ts.isHeritageClause(n.parent) && n.parent.token === SK.ImplementsKeyword) return false;
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === SK.InKeyword && ts.isStringLiteralLike(skip(n.left))) c.expect(!dom.has(skip(n.left).text), n, `the core asks for '${skip(n.left).text}', which belongs to nodes of a document`);
    if (ts.isElementAccessExpression(n)) {
      const base = skip(n.expression), key = skip(n.argumentExpression);
      if (ts.isIdentifier(base) && base.text === 'globalThis') c.expect(ts.isStringLiteralLike(key) && FREE.has(key.text), n, 'the core reaches for the global environment');
      else if (key && ts.isStringLiteralLike(key)) { const t = ck.getTypeAtLocation(n.expression); if (t.flags & ts.TypeFlags.Any) c.expect(!dom.has(key.text), n, `the core uses '${key.text}' of a document`); }
    }
    if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(n.name)) {
      const base = skip(n.expression);
      const s = c.P.symbolOf(n.name);
      if (ts.isIdentifier(base) && base.text === 'globalThis' && !FREE.has(n.name.text)) c.expect(!!s && (s.declarations ?? []).some(es), n, 'the core reaches for the global environment');
      else if (!s?.declarations?.length) { const t = ck.getTypeAtLocation(n.expression); if (t.flags & ts.TypeFlags.Any) c.expect(!dom.has(n.name.text), n, `the core uses '${n.name.text}' of a document`); }
      if (ts.isIdentifier(base) && TIME.has(base.text + '.' + n.name.text) && (c.P.symbolOf(base)?.declarations ?? []).some(es)) c.fail(n, `the core takes '${base.text}.${n.name.text}' from its environment without its adapter`);
    }
    if (ts.isBindingElement(n) && !n.dotDotDotToken) {
      const key = n.propertyName ?? n.name;
      const src = n.parent.parent;
      if (ts.isVariableDeclaration(src) && src.initializer && ts.isIdentifier(skip(src.initializer)) && skip(src.initializer).text === 'globalThis') c.expect(ts.isIdentifier(key) && FREE.has(key.text), n, 'the core reaches for the global environment');
      else if (ts.isIdentifier(key)) {
        let t; try { t = ck.getTypeAtLocation(n.parent); } catch { /* untyped */ }
        const s = t && ck.getPropertyOfType(ck.getNonNullableType(t), key.text);
        if (s) { const ds = s.declarations ?? []; c.expect(!ds.length || !ds.every(lib), n, `the core uses '${key.text}' of the host`); }
      }
    }
    if (ts.isIdentifier(n) && !(ts.isLabeledStatement(n.parent) || ts.isBreakStatement(n.parent))) {
      const s = ts.isShorthandPropertyAssignment(n.parent) && n.parent.name === n ? ck.getShorthandAssignmentValueSymbol(n.parent) : c.P.symbolOf(n);
      const ds = (s?.declarations ?? []);
      if (!ds.length) return;
      uses++;
      const inDom = ds.every((d) => c.P.inRepo(d) && (within(c, d.getSourceFile(), 'dom') || within(c, d.getSourceFile(), 'addons')));
      c.expect(!inDom, n, `the core uses '${n.text}' of a host or add-on module`);
      if (ds.some((d) => c.P.inRepo(d)) || ds.some(es)) {
        if (TIME.has(n.text) && ds.some(es) && !ts.isPropertyAccessExpression(n.parent)) c.fail(n, `the core takes '${n.text}' from its environment without its adapter`);
        else if (n.text === 'Date' && ds.some(es) && ts.isPropertyAccessExpression(n.parent) && n.parent.expression === n) c.fail(n, 'the core takes the time from its environment without its adapter');
        return;
      }
      const owner = ds[0].parent && ts.isInterfaceDeclaration(ds[0].parent) ? ds[0].parent.name.text : n.text;
      if (ds.some(lib)) c.expect(FREE.has(owner), n, `the core uses '${owner === n.text ? n.text : owner + '.' + n.text}' of the host without its adapter`);
    }
  });
  c.expect(uses > 500, files[0], 'the core uses no names');
}
export const rules = [
  { name: 'modules', text: 'the modules of the core import nothing of the DOM, of the add-ons or from elsewhere', run: modules },
  { name: 'add-ons', text: 'nothing outside of the add-ons imports an add-on', run: addons },
  { name: 'names', text: 'no name or member used in the core is declared by the host, a DOM module or an add-on', run: names },
];
