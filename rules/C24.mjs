// C24: runtimes are isolated and importing has no side effects.
import { ts, AnchorError } from './_lib.mjs';
import { isFn, skip } from '../lib/flow.mjs';
import { region, effects, fresh, fits, via, nodes, bodyOf, assigns, targets, MUTATORS, FIRST } from './_effects.mjs';
import { flow } from './C06.mjs';

export const technique = 'effect analysis of everything that runs when a module is imported, and points-to analysis of what imports create against every assignment and mutating call in the library';
export const about = 'All code that runs on import is collected, with the functions it calls, and must only change what it creates. What lives as long as a module (module variables, static members, and what functions called on import create and capture) is followed through an inclusion-based points-to analysis to every assignment and mutating call in the library. Every use of a regular expression that keeps a position is examined.';
export const assumptions = ['The strings of a template are never changed (the language freezes those of tagged templates).', 'Builtins behave as specified and are not replaced.', 'Regular expressions passed in with the sticky flag are left to their owner.'];

const SK = ts.SyntaxKind;
const isStaticMember = (m) => ts.canHaveModifiers(m) && ts.getModifiers(m)?.some((x) => x.kind === SK.StaticKeyword);
function onImport(c) {
  if (c._c24) return c._c24;
  const f = flow(c);
  const roots = c.P.files.flatMap((x) => [...x.statements]);
  // what a class definition runs
  const R = region(c, [], new Set());
  const first = f.edges.filter((e) => e.kind === 'sync' && ts.isSourceFile(e.from)).map((e) => e.to);
  R.seen = f.reach(first);
  R.fns = [...R.seen.keys()].filter((x) => !ts.isSourceFile(x));
  const top = [];
  for (const n of nodes(roots)) {
    // instance fields run later
    let later = false;
    for (let p = n; p && !ts.isSourceFile(p); p = p.parent) if (ts.isPropertyDeclaration(p.parent ?? p) && p.parent.initializer === p && !isStaticMember(p.parent)) { later = true; break; }
    if (!later) top.push(n);
  }
  R.list = top.map((n) => [n, null]);
  for (const fn of R.fns) for (const n of nodes(bodyOf(fn))) R.list.push([n, fn]);
  const inFn = (n) => { for (let p = n.parent; p; p = p.parent) if (isFn(p)) return p; return null; };
  R.holds = (n) => { const o = inFn(n); return isFn(n) && !n.parent ? false : !o ? n.getSourceFile() && c.P.inRepo(n) : R.fns.some((fn) => n.getSourceFile() === fn.getSourceFile() && n.pos >= fn.pos && n.end <= fn.end); };
  R.top = new Set(top);
  return (c._c24 = R);
}
function importing(c) {
  const R = onImport(c);
  let n = 0;
  for (const e of effects(c, R)) {
    n++;
    const at = via(R, e.fn);
    if (e.kind === 'variable') continue;
    if (e.kind === 'freeze') { c.expect(fresh(c, R, e.base) || own(c, R, e.base), e.node, `importing a module fixes something it did not create${at}`); continue; }
    if (e.kind === 'write') { c.expect(fresh(c, R, e.base) || own(c, R, e.base), e.node, `importing a module changes ${e.base?.getText().slice(0, 40)}, which it did not create${at}`); continue; }
    c.fail(e.node, `importing a module ${e.what}${at}`);
  }
  c.obligations += R.list.length + n;
  if (R.list.length < 500) throw new AnchorError('no module defines anything');
}
/** Something of the module's own: all that it may be was made on import. */
function own(c, R, e) {
  e = skip(e);
  const f = R.f;
  if (e.kind === SK.ThisKeyword) { const fn = f.fnOf(e); return !fn || ts.isSourceFile(fn) || ts.isConstructorDeclaration(fn) || ts.isClassLike(fn); }
  const vs = [...f.E(e)].filter((v) => !(v.k === 'param' && f.called.has(v.n)) && v.k !== 'host' && fits(c, v, e));
  return vs.length > 0 && vs.every((v) => ['arr', 'obj', 'fresh', 'fn', 'cls', 'new'].includes(v.k));
}
/** Variables that live as long as their module, or as what an import created. */
function lasting(c, R, d) {
  if (!ts.isVariableDeclaration(d) && !ts.isParameter(d) && !ts.isBindingElement(d)) return false;
  let p = d.parent;
  for (; p; p = p.parent) { if (isFn(p)) return R.fns.includes(p) ? p : null; if (ts.isClassStaticBlockDeclaration(p)) return null; if (ts.isSourceFile(p)) return p; }
  return null;
}
/** A value computed from nothing but constants of the module and builtins. */
function closed(c, e) {
  let ok = true;
  const visit = (n) => {
    if (!ok) return;
    if (isFn(n)) return;
    if (n.kind === SK.ThisKeyword || ts.isAwaitExpression(n) || ts.isYieldExpression(n)) { ok = false; return; }
    if (ts.isIdentifier(n) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n)) for (const d of c.P.symbolOf(n)?.declarations ?? []) if (c.P.inRepo(d) && (ts.isParameter(d) || ts.isBindingElement(d) || (ts.isVariableDeclaration(d) && !ts.isSourceFile(d.parent.parent.parent)))) ok = false;
    if (ts.isCallExpression(n)) { const ds = c.P.symbolOf(skip(n.expression))?.declarations ?? []; if (ds.some((d) => c.P.inRepo(d)) || /random|now|getRandomValues/i.test(n.expression.getText())) ok = false; }
    n.forEachChild(visit);
  };
  visit(e);
  return ok;
}
function variables(c) {
  const R = onImport(c), f = R.f;
  let n = 0;
  for (const file of c.P.files) c.P.walk(file, (node) => {
    for (const t of assigns(node).flatMap(targets)) {
      if (!ts.isIdentifier(t)) continue;
      const s = ts.isShorthandPropertyAssignment(t.parent) ? c.P.checker.getShorthandAssignmentValueSymbol(t.parent) : c.P.symbolOf(t);
      for (const d of s?.declarations ?? []) {
        if (!c.P.inRepo(d)) continue;
        n++;
        const home = lasting(c, R, d);
        if (!home) continue;
        const fn = f.fnOf(node);
        if (fn === home || (ts.isSourceFile(home) && R.top.has(node))) continue;
        // filled in once with what does not depend on who asks
        const lazy = ts.isBinaryExpression(node) && closed(c, node.right) && (node.operatorToken.kind === SK.QuestionQuestionEqualsToken || guarded(c, node, d));
        c.expect(lazy && ts.isSourceFile(home), node, `'${t.text}' is shared by everything that uses ${ts.isSourceFile(home) ? 'the module' : f.name(home)}, and is assigned while it is used`);
      }
    }
  });
  c.obligations += n;
}
function guarded(c, node, d) {
  for (let p = node.parent; p && !isFn(p); p = p.parent) if (ts.isIfStatement(p) && p.thenStatement.pos <= node.pos && node.end <= p.thenStatement.end) { const t = p.expression.getText(); if (new RegExp(`^!?${d.name.getText()}\\s*(===?\\s*(undefined|null))?$|^typeof`).test(t)) return true; }
  return false;
}
/** Is a collection a cache of what follows from the strings of a template alone? */
function cache(c, decl) {
  const ck = c.P.checker;
  const t = ck.getTypeAtLocation(decl);
  if (t.symbol?.name !== 'WeakMap') return 'is not a WeakMap';
  const [k, v] = ck.getTypeArguments(t);
  const strings = (x) => (ck.isArrayType(x) && !!(ck.getTypeArguments(x)[0]?.flags & ts.TypeFlags.StringLike)) || x.symbol?.name === 'TemplateStringsArray';
  if (!k || !strings(k)) return 'is not keyed by the strings of a template';
  const seen = new Set();
  const plain = (x, n = 0) => {
    if (seen.has(x)) return true;
    seen.add(x);
    if (n > 8) return false;
    if (x.flags & (ts.TypeFlags.StringLike | ts.TypeFlags.NumberLike | ts.TypeFlags.BooleanLike | ts.TypeFlags.Undefined | ts.TypeFlags.Null)) return true;
    if (x.isUnionOrIntersection()) return x.types.every((y) => plain(y, n + 1));
    if (ck.isArrayType(x) || ck.isTupleType(x)) return ck.getTypeArguments(x).every((y) => plain(y, n + 1));
    if (/^(Readonly)?(Map|Set)$/.test(x.symbol?.name ?? '')) return ck.getTypeArguments(x).every((y) => plain(y, n + 1));
    const d = x.symbol?.declarations?.[0];
    if (!d || !c.P.inRepo(d) || ts.isClassDeclaration(d) || x.getCallSignatures().length) return false;
    return ck.getPropertiesOfType(x).every((p) => plain(ck.getTypeOfSymbol(p), n + 1));
  };
  return v && plain(v) ? null : 'keeps more than texts';
}
/** The variable or static member a lasting object was made for. */
function holder(n) {
  for (let p = n.parent, last = n; p; last = p, p = p.parent) {
    if ((ts.isVariableDeclaration(p) || ts.isPropertyDeclaration(p)) && p.initializer === last) return p;
    if (isFn(p) || ts.isStatement(p)) return null;
  }
  return null;
}
/** Objects an import creates, other than through functions that create them for their caller anew. */
function objects(c) {
  const R = onImport(c), f = R.f;
  const lastingObject = (v) => ['arr', 'obj', 'fresh', 'fn', 'cls'].includes(v.k) && c.P.inRepo(v.n) && !laterMade(v.n);
  const laterMade = (n) => {
    for (let p = n.parent, last = n; p; last = p, p = p.parent) {
      if (isFn(p)) return !R.fns.includes(p);
      if (ts.isPropertyDeclaration(p) && p.initializer === last && !isStaticMember(p)) return true;
    }
    return false;
  };
  let n = 0;
  const accepted = new Map();
  for (const file of c.P.files) c.P.walk(file, (node) => {
    let base = null, what = '';
    const bases = [];
    for (const t of assigns(node).flatMap(targets)) if ((ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) && t.expression.kind !== SK.SuperKeyword) bases.push([t.expression, 'assigned to']);
    if (ts.isCallExpression(node) && ts.isPropertyAccessExpression(skip(node.expression))) {
      const callee = skip(node.expression);
      if (MUTATORS.has(callee.name.text) && f.calleeIsHost(callee)) bases.push([callee.expression, `changed by '${callee.name.text}'`]);
      if (/^(Object|Reflect)$/.test(skip(callee.expression).getText()) && (FIRST.has(callee.name.text) || callee.name.text === 'set') && node.arguments[0]) bases.push([node.arguments[0], `changed by '${callee.name.text}'`]);
    }
    for ([base, what] of bases) {
      n++;
      base = skip(base);
      const fn = f.fnOf(node);
      const home = (x) => { for (let p = x.parent; p; p = p.parent) if (isFn(p)) return p; return null; };
      // globals and prototypes
      if (!c.P.inRepo(c.P.symbolOf(root(base))?.declarations?.[0]) && ts.isIdentifier(root(base)) && (c.P.symbolOf(root(base))?.declarations?.length || root(base).text === 'globalThis') && !f.isDom(c.P.checker.getTypeAtLocation(base))) { c.fail(node, `'${base.getText().slice(0, 40)}' belongs to everyone in the realm, and is ${what}`); continue; }
      if (/\.(constructor|prototype)$/.test(base.getText())) { c.fail(node, `'${base.getText().slice(0, 40)}' is shared by all instances, and is ${what}`); continue; }
      if (base.kind === SK.ThisKeyword && fn && !ts.isSourceFile(fn) && isStaticMember(fn.body ? fn : node)) { c.fail(node, `a static member of ${fn.parent.name?.text} is ${what} while it is used`); continue; }
      for (const v of f.E(base)) {
        if (!lastingObject(v) || !fits(c, v, base)) continue;
        const at = home(v.n);
        if (at && fn && (fn === at || within(fn, at) && R.fns.includes(fn))) continue;
        if (R.top.has(node) || (!fn || ts.isSourceFile(fn))) continue;
        if (['fn', 'cls'].includes(v.k)) { if (!callableBase(c, base)) continue; c.fail(node, `'${base.getText().slice(0, 40)}' lives as long as its module, and is ${what} while it is used`); continue; }
        const d = holder(v.n);
        if (v.k === 'fresh' && d) {
          if (!accepted.has(d)) accepted.set(d, cache(c, d));
          const why = accepted.get(d);
          if (why === null) { c.expect(true, node, ''); continue; }
          c.fail(node, `'${d.name.getText()}' lives as long as its module, ${why}, and is ${what} while it is used`);
          continue;
        }
        c.fail(node, `'${base.getText().slice(0, 40)}' may be an object that lives as long as its module, and is ${what} while it is used`);
      }
    }
  });
  // what is kept in such a cache stays as it is
  for (const [d, why] of accepted) if (why === null) {
    const t = c.P.checker.getTypeArguments(c.P.checker.getTypeAtLocation(d))[1];
    const rec = new Set();
    const visit = (x, k = 0) => { if (!x || k > 6 || rec.has(x)) return; rec.add(x); for (const y of c.P.checker.isArrayType(x) ? c.P.checker.getTypeArguments(x) : []) visit(y, k + 1); if (x.isUnion()) x.types.forEach((y) => visit(y, k + 1)); };
    visit(t);
    const props = new Set([...rec].flatMap((x) => (x.symbol?.declarations ?? []).filter((y) => c.P.inRepo(y)).flatMap((y) => [...(y.members ?? [])])));
    for (const file of c.P.files) c.P.walk(file, (node) => { for (const x of assigns(node).flatMap(targets)) if (ts.isPropertyAccessExpression(x)) c.expect(!(c.P.checker.getPropertyOfType(c.P.checker.getNonNullableType(c.P.checker.getTypeAtLocation(skip(x.expression))), x.name.text)?.declarations ?? []).some((y) => props.has(y)), node, `an entry of '${d.name.getText()}' is changed after it was made`); });
  }
  // instances of the library's own classes made on import
  const shared = new Map();
  for (const [node, fn] of R.list) if (ts.isNewExpression(node) && !fn) for (const v of f.E(node)) if (v.k === 'new') shared.set(v.n, node);
  for (const [k, at] of shared) for (const b of [k, ...(c.P.subclasses(k) ?? [])]) for (const m of b.members) if (isFn(m) && m.body && !ts.isConstructorDeclaration(m) && !isStaticMember(m)) c.P.walk(m, (node) => { for (const t of assigns(node).flatMap(targets)) if (t.expression?.kind === SK.ThisKeyword) c.fail(at, `an instance of ${k.name?.text} lives as long as its module, and changes while it is used`); });
  c.obligations += n;
  c.expect(n > 50, c.P.files[0], 'nothing is ever changed');
}
const within = (n, o) => n.getSourceFile() === o.getSourceFile() && n.pos >= o.pos && n.end <= o.end;
const callableBase = (c, e) => { const t = c.P.checker.getTypeAtLocation(e); return !!(t.flags & ts.TypeFlags.Any) || t.getCallSignatures().length > 0 || t.getConstructSignatures().length > 0 || !!c.P.checker.getPropertyOfType(t, 'prototype'); };
const root = (e) => { e = skip(e); while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) e = skip(e.expression); return e; };

function storage(c) {
  let n = 0;
  for (const file of c.P.files) c.P.walk(file, (node) => {
    if (!ts.isIdentifier(node)) return;
    n++;
    if (!/^(localStorage|sessionStorage|indexedDB|BroadcastChannel|SharedArrayBuffer|caches|cookieStore)$/.test(node.text)) return;
    const ds = c.P.symbolOf(node)?.declarations ?? [];
    if (ds.length && !ds.some((d) => c.P.inRepo(d))) c.fail(node, `'${node.text}' is shared by all runtimes`);
  });
  c.obligations += n;
}
const RESET = new Set(['replace', 'replaceAll', 'match', 'matchAll', 'split', 'search']);
/** Regular expressions that keep a position may only be used where it starts over. */
function patterns(c) {
  const ck = c.P.checker;
  let n = 0;
  const flagsOf = (e) => {
    e = skip(e);
    if (ts.isRegularExpressionLiteral(e)) return /\/([a-z]*)$/.exec(e.text)[1];
    if ((ts.isNewExpression(e) || ts.isCallExpression(e)) && skip(e.expression).getText() === 'RegExp') { const a = e.arguments?.[1]; if (!a) return e.arguments?.[0] ? flagsOf(e.arguments[0]) ?? '' : ''; const t = ck.getTypeAtLocation(a); return t.isStringLiteral?.() ? t.value : null; }
    return undefined;
  };
  /** Where a pattern comes from: [flags, made anew for this use]. */
  const origin = (e, at, seen = new Set()) => {
    e = skip(e);
    const own = flagsOf(e);
    if (own !== undefined) return [[own, !looped(e, at)]];
    let d = null;
    if (ts.isIdentifier(e)) d = c.P.symbolOf(e)?.declarations?.[0];
    else if (ts.isPropertyAccessExpression(e)) d = c.P.symbolOf(e.name)?.declarations?.[0];
    if (ts.isConditionalExpression(e)) return [...origin(e.whenTrue, at, seen), ...origin(e.whenFalse, at, seen)];
    if (d && c.P.inRepo(d) && (ts.isVariableDeclaration(d) || ts.isPropertyDeclaration(d)) && d.initializer && !seen.has(d)) {
      seen.add(d);
      const local = ts.isVariableDeclaration(d) && flow(c).fnOf(d) === flow(c).fnOf(at) && !ts.isSourceFile(flow(c).fnOf(d) ?? d.getSourceFile());
      return origin(d.initializer, at, seen).map(([fl, fr]) => [fl, local && fr]);
    }
    return [[null, false]];
  };
  const looped = (e, at) => { void at; return ts.isSourceFile(flow(c).fnOf(e) ?? e.getSourceFile()); };
  for (const file of c.P.files) c.P.walk(file, (node) => {
    if (!ts.isCallExpression(node)) { if (ts.isPropertyAccessExpression(node) && node.name.text === 'lastIndex' && /^RegExp$/.test(ck.getTypeAtLocation(node.expression).symbol?.name ?? '')) n++; return; }
    const callee = skip(node.expression);
    if (!ts.isPropertyAccessExpression(callee)) return;
    const isRe = (e) => { const t = ck.getTypeAtLocation(e); return (t.isUnion() ? t.types : [t]).some((x) => x.symbol?.name === 'RegExp'); };
    if (isRe(callee.expression) && /^(test|exec)$/.test(callee.name.text)) {
      n++;
      for (const [fl, anew] of origin(callee.expression, node)) c.expect(anew || (fl !== null && !/[gy]/.test(fl)), node, fl === null ? `'${callee.name.text}' depends on earlier matches when the pattern is a global one` : `'${callee.name.text}' of a pattern that keeps its position depends on earlier matches`);
    } else if (RESET.has(callee.name.text) && node.arguments[0] && isRe(node.arguments[0])) {
      n++;
      for (const [fl, anew] of origin(node.arguments[0], node)) c.expect(anew || fl === null || !/y/.test(fl), node, `'${callee.name.text}' with a sticky pattern depends on earlier matches`);
    }
  });
  c.expect(n > 0, c.P.files[0], 'no pattern is used');
}
export const rules = [
  { name: 'import', text: 'what runs on import changes, calls and consumes nothing but what it created', run: importing },
  { name: 'variables', text: 'no variable that outlives a call from outside is assigned while the module is used', run: variables },
  { name: 'objects', text: 'no object that lives as long as its module is changed while the module is used, except for caches keyed by the strings of a template', run: objects },
  { name: 'storage', text: 'nothing is kept in storage of the realm', run: storage },
  { name: 'patterns', text: 'no match depends on the position an earlier match has left in a pattern', run: patterns },
];
