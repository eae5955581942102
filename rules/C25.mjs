// C25: debug-only code can be stripped.
import { ts, AnchorError } from './_lib.mjs';
import { isFn, skip } from '../lib/flow.mjs';
import { region, effects, fresh, fits, via, nodes, assigns, targets, MUTATORS, FIRST } from './_effects.mjs';
import { flow } from './C06.mjs';
import { VERIF } from '../lib/check.mjs';
import { execFileSync } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';

export const technique = 'effect and escape analysis of the debug-labelled statements and of everything they call, and the rules of all other properties decided a second time on the program without these statements';
export const about = 'For every statement labelled DEBUG, everything it may call is collected from an inclusion-based call graph; every assignment, mutating call, host call, call of an unknown function and consumed iterator in it must only concern what was created there. Frozen objects are never changed elsewhere. The rules of the other properties are run again on the program as it is without the labelled statements.';
export const assumptions = ['Reading a property and converting a value to a string have no effect.', 'A bundler removes exactly the statements labelled DEBUG.'];

const SK = ts.SyntaxKind;
const isDebug = (n) => ts.isLabeledStatement(n) && n.label.text === 'DEBUG';
function sections(c) {
  if (c._dbg) return c._dbg;
  const out = [];
  for (const f of c.P.files) c.P.walk(f, (n) => { if (isDebug(n)) { out.push(n); return false; } });
  return (c._dbg = out);
}
const within = (n, s) => n.getSourceFile() === s.getSourceFile() && n.pos >= s.pos && n.end <= s.end;
const inDebug = (n) => { for (let p = n; p; p = p.parent) if (isDebug(p)) return true; return false; };
const regionOf = (c, s) => { const f = flow(c); const from = new Set(f.edges.map((e) => e.from).filter((x) => x.getSourceFile() === s.getSourceFile())); return region(c, [s], from); };

/** Does the value only end up in error messages and on the console? */
function diagnostic(c, ref, seen = new Set()) {
  let n = ref;
  for (let p = n.parent; p; n = p, p = p.parent) {
    if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p) || ts.isSatisfiesExpression(p) || ts.isTemplateSpan(p) || ts.isTemplateExpression(p) || ts.isSpreadElement(p) || ts.isArrayLiteralExpression(p)) continue;
    if (ts.isConditionalExpression(p)) { if (p.condition === n) return false; continue; }
    if (ts.isBinaryExpression(p)) {
      const k = p.operatorToken.kind;
      if (k === SK.PlusToken || k === SK.QuestionQuestionToken || k === SK.BarBarToken) continue;
      if (k >= SK.FirstAssignment && k <= SK.LastAssignment && p.right === n && ts.isIdentifier(skip(p.left))) return variable(c, c.P.symbolOf(skip(p.left))?.declarations?.[0], seen);
      return false;
    }
    if (ts.isPropertyAccessExpression(p) && p.expression === n && ts.isCallExpression(p.parent) && p.parent.expression === p && flow(c).calleeIsHost(p)) { n = p; p = p.parent; continue; }
    if (ts.isVariableDeclaration(p) && p.initializer === n) return variable(c, p, seen);
    if (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p) || ts.isObjectLiteralExpression(p)) continue;
    if ((ts.isNewExpression(p) || ts.isCallExpression(p)) && p.arguments?.includes(n)) {
      const callee = skip(p.expression);
      const t = c.P.checker.getTypeAtLocation(p);
      if (callee.kind === SK.SuperKeyword || ts.isNewExpression(p)) return isError(c, callee.kind === SK.SuperKeyword ? c.P.checker.getTypeAtLocation(callee) : t);
      if (/^console\b/.test(callee.getText())) return true;
      if (isError(c, t)) return true;
      const fns = [...flow(c).E(callee)].filter((v) => v.k === 'fn');
      if (fns.length) return fns.every((v) => { const q = v.n.parameters[p.arguments.indexOf(n)]; return q && variable(c, q, seen); });
      return false;
    }
    if (ts.isExpressionStatement(p)) return true;
    return false;
  }
  return false;
}
const isError = (c, t) => { for (let k = t, n = 0; k && n < 8; n++) { if (/Error$/.test(k.symbol?.name ?? '')) return true; k = k.isClassOrInterface?.() ? c.P.checker.getBaseTypes(k)?.[0] : null; } return false; };
function variable(c, d, seen) {
  if (!d || !c.P.inRepo(d)) return false;
  if (seen.has(d)) return true;
  seen.add(d);
  let ok = true;
  c.P.walk(d.getSourceFile(), (n) => {
    if (!ok || !ts.isIdentifier(n) || n === d.name) return;
    const s = ts.isShorthandPropertyAssignment(n.parent) && n.parent.name === n ? c.P.checker.getShorthandAssignmentValueSymbol(n.parent) : c.P.symbolOf(n);
    if (!s?.declarations?.includes(d) || inDebug(n)) return;
    const p = n.parent;
    if (ts.isBinaryExpression(p) && p.left === n && p.operatorToken.kind === SK.EqualsToken) return;
    if (!diagnostic(c, n, seen)) ok = false;
  });
  return ok;
}
/** References to a variable after, or in the same loop as, a statement. */
function leaks(c, d, s) {
  const out = [];
  const loop = (() => { for (let p = s.parent; p && !isFn(p); p = p.parent) if (ts.isIterationStatement(p, false)) return p; return null; })();
  c.P.walk(d.getSourceFile(), (n) => {
    if (!ts.isIdentifier(n) || n === d.name || inDebug(n)) return;
    const sym = ts.isShorthandPropertyAssignment(n.parent) && n.parent.name === n ? c.P.checker.getShorthandAssignmentValueSymbol(n.parent) : c.P.symbolOf(n);
    if (!sym?.declarations?.includes(d)) return;
    if (ts.isBinaryExpression(n.parent) && n.parent.left === n && n.parent.operatorToken.kind === SK.EqualsToken) return;
    const sameFn = flow(c).fnOf(n) === flow(c).fnOf(s);
    if (sameFn && n.end <= s.pos && !(loop && within(n, loop))) return;
    for (let p = n.parent; p; p = p.parent) if (isFn(p) && debugOnly(c).has(p)) return;
    out.push(n);
  });
  return out;
}
/** Functions that nothing but debug sections, and each other, call. */
function debugOnly(c) {
  if (c._dbgOnly) return c._dbgOnly;
  const f = flow(c), into = new Map(), out = new Set();
  for (const e of f.edges) { if (!into.has(e.to)) into.set(e.to, []); into.get(e.to).push(e); }
  for (const s of sections(c)) for (const fn of regionOf(c, s).fns) out.add(fn);
  for (let again = true; again;) { again = false; for (const fn of out) if (!(into.get(fn) ?? []).every((e) => inDebug(e.node) || out.has(e.from))) { out.delete(fn); again = true; } }
  return (c._dbgOnly = out);
}
function effectsRule(c) {
  const all = sections(c);
  if (!all.length) throw new AnchorError('no statement is labelled DEBUG');
  for (const s of all) {
    const R = regionOf(c, s);
    let n = 0;
    for (const e of effects(c, R, { console: true })) {
      n++;
      const at = via(R, e.fn);
      if (e.kind === 'variable') {
        if (R.holds(e.decl)) continue;
        const t = c.P.checker.getTypeAtLocation(e.name);
        const text = !!(t.flags & ts.TypeFlags.StringLike);
        const bad = leaks(c, e.decl, s).filter((x) => !(text && diagnostic(c, x, new Set([e.decl]))));
        c.expect(!bad.length, e.node, `a debug section ${e.what}, which is used outside of it for more than an error message${at}`);
      } else if (e.kind === 'write') {
        const naming = ['name', 'displayName'].includes(e.key) && own(c, R, e.base);
        c.expect(naming || fresh(c, R, e.base), e.node, `a debug section ${e.what} ${e.base?.getText().slice(0, 40)}, which it did not create${at}`);
      } else if (e.kind === 'freeze') c.expect(own(c, R, e.base), e.node, `a debug section ${e.what} ${e.base?.getText().slice(0, 40)}, which may not be the library’s own${at}`);
      else c.fail(e.node, `a debug section ${e.what}${e.base && !/calls/.test(e.what) ? ' ' + e.base.getText().slice(0, 40) : ''}${at}`);
    }
    c.obligations += R.list.length + n;
    // how control leaves the section
    for (const [x, fn] of R.list) {
      if (fn) continue;
      if (ts.isReturnStatement(x)) c.fail(x, 'a debug section returns from the function it is in');
      if (ts.isBreakStatement(x) || ts.isContinueStatement(x)) {
        let to = null;
        for (let p = x.parent; p && !isFn(p); p = p.parent) { if (x.label ? ts.isLabeledStatement(p) && p.label.text === x.label.text : ts.isIterationStatement(p, false) || (ts.isBreakStatement(x) && ts.isSwitchStatement(p))) { to = p; break; } }
        c.expect(!!to && within(to, s), x, 'a debug section leaves a loop or switch it is in');
      }
      if (ts.isVariableDeclarationList(x) && !(x.flags & ts.NodeFlags.BlockScoped)) for (const d of x.declarations) if (ts.isIdentifier(d.name)) c.expect(!leaks(c, d, s).length, d, 'a variable declared in a debug section is used outside of it');
    }
  }
}
/** An object the library created: the instance under construction, or what an expression of its own made. */
function own(c, R, e) {
  e = skip(e);
  if (!e) return false;
  const f = R.f;
  if (e.kind === SK.ThisKeyword) { let fn = f.fnOf(e); while (fn && ts.isArrowFunction(fn)) fn = f.fnOf(fn); return !!fn && ts.isConstructorDeclaration(fn); }
  if (fresh(c, R, e)) return true;
  const vs = [...f.E(e)].filter((v) => v.k !== 'host' && fits(c, v, e));
  if (!vs.length || !vs.every((v) => ['arr', 'obj', 'fresh', 'fn', 'cls', 'new'].includes(v.k))) return false;
  // nothing that users hand in may be among its values
  return !vs.some((v) => ts.isParameter(v.n));
}
function frozen(c) {
  const f = flow(c);
  const classes = new Set(), arrays = new Set();
  for (const s of sections(c)) {
    for (const n of nodes([s])) {
      if (!ts.isCallExpression(n) || !/^(Object|Reflect)\.(freeze|seal|preventExtensions)$/.test(n.expression.getText())) continue;
      const a = skip(n.arguments[0]);
      if (a?.kind === SK.ThisKeyword) { const k = f.fnOf(a)?.parent; if (k && ts.isClassLike(k)) classes.add([k, n, s, n.expression.getText().endsWith('freeze')]); }
      else if (a && n.expression.getText().endsWith('freeze')) for (const v of f.E(a)) if (v.k === 'arr' || v.k === 'obj') arrays.add([v.n, n]); else if (v.k === 'new') classes.add([v.n, n, null, true]);
    }
  }
  for (const [k, at, s, full] of classes) {
    c.obligations++;
    for (const sub of [k, ...c.P.subclasses?.(k) ?? []]) if (sub !== k) c.expect(!sub.members.some((m) => ts.isPropertyDeclaration(m) && !ts.getModifiers(m)?.some((x) => x.kind === SK.StaticKeyword)), sub, `instances of ${k.name?.text} are fixed before a subclass adds its fields`);
    const fields = new Set();
    for (let b = k; b; b = c.P.baseClass?.(b)) for (const m of b.members) if (ts.isPropertyDeclaration(m) || ts.isSetAccessor(m)) fields.add(m); else if (ts.isConstructorDeclaration(m)) for (const q of m.parameters) if (ts.isParameterPropertyDeclaration(q, m)) fields.add(q);
    for (const file of c.P.files) c.P.walk(file, (n) => {
      for (const t of assigns(n).flatMap(targets)) {
        if (!ts.isPropertyAccessExpression(t) && !ts.isElementAccessExpression(t)) continue;
        const ds = ts.isPropertyAccessExpression(t) ? c.P.symbolOf(t.name)?.declarations ?? [] : [f.propSym(t)].flatMap((x) => x?.declarations ?? []);
        if (!ds.some((d) => fields.has(d)) || ds.some((d) => ts.isSetAccessor(d))) continue;
        if (!full && !ts.isDeleteExpression(n)) continue;
        const fn = f.fnOf(n);
        const early = fn && ts.isConstructorDeclaration(fn) && (fn.parent !== k || !s || n.end <= s.pos || inDebug(n)) && skip(t.expression).kind === SK.ThisKeyword;
        c.expect(early, n, `'${t.getText()}' is changed although debug builds fix ${k.name?.text ?? 'the object'} when it is made`);
      }
    });
    void at;
  }
  for (const [a, at] of arrays) for (const file of c.P.files) c.P.walk(file, (n) => {
    let base = null;
    for (const t of assigns(n).flatMap(targets)) if (t.expression && (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t))) base = t.expression;
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && MUTATORS.has(n.expression.name.text) && f.calleeIsHost(n.expression)) base = n.expression.expression;
    if (ts.isCallExpression(n) && /^(Object|Reflect)\./.test(n.expression.getText()) && FIRST.has(n.expression.name?.text)) base = n.arguments[0];
    if (base && n.pos !== at.pos) c.expect(![...f.E(base)].some((v) => v.n === a), n, 'an object is changed that debug builds freeze');
  });
  c.obligations++;
}
/** The other properties hold in the program without the debug sections, too. */
function batch(ids, strip) {
  return JSON.parse(execFileSync(process.execPath, [path.join(VERIF, 'lib', 'batch.mjs'), ids.join(',')], { env: { ...process.env, VERIF_STRIP: strip }, maxBuffer: 1 << 27, encoding: 'utf8' }));
}
function stripped(c) {
  const ids = fs.readdirSync(path.join(VERIF, 'rules')).filter((x) => /^C\d+\.mjs$/.test(x)).map((f) => f.slice(0, 3)).filter((id) => !['C24', 'C25', 'C28', 'C35'].includes(id)).sort();
  const found = batch(ids, 'all');
  for (const r of found) {
    if (r.error) { c.undecide(`${r.id} could not be decided without the debug sections: ${r.error}`); continue; }
    c.obligations += r.obligations; c.pathCount += r.paths;
  }
  // what a property lacks may be what a debug section does: put them back one by one
  const bad = found.filter((r) => r.violations?.length);
  if (!bad.length) return;
  const key = (v) => v.rule + '|' + v.msg;
  for (const s of sections(c)) {
    const again = batch(bad.map((r) => r.id), `keep=${path.relative(c.P.root, s.getSourceFile().fileName)}:${s.getStart()}`);
    for (const r of again) {
      const before = bad.find((x) => x.id === r.id);
      if (r.error || r.undecided.some((u) => !before.undecided.includes(u))) continue;
      const now = new Set(r.violations.map(key)), had = new Set(before.violations.map(key));
      if ([...now].some((k) => !had.has(k))) continue;
      for (const v of before.violations) if (!now.has(key(v))) c.fail(s, `${r.id} only holds with this debug section: [${v.rule}] ${v.msg}`);
    }
  }
}
export const rules = [
  { name: 'effects', text: 'a debug section, and what it calls, changes nothing it has not created, except for the text of an error message, the name of a function and the extensibility of the library’s own objects', run: effectsRule },
  { name: 'frozen', text: 'what debug sections freeze is never changed afterwards', run: frozen },
  { name: 'stripped', text: 'the rules of every other property hold in the program without its debug sections', run: stripped },
];
