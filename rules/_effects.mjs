// What a piece of code may do to things that existed before it ran.
import { ts } from './_lib.mjs';
import { isFn, skip } from '../lib/flow.mjs';
import { flow, CHANGES } from './C06.mjs';

const SK = ts.SyntaxKind;
export const MUTATORS = new Set(['push', 'pop', 'shift', 'unshift', 'splice', 'sort', 'reverse', 'fill', 'copyWithin', 'set', 'add', 'delete', 'clear', 'getOrInsert', 'getOrInsertComputed']);
/** Functions of Object and Reflect that change their first argument. */
export const FIRST = new Set(['assign', 'defineProperty', 'defineProperties', 'setPrototypeOf', 'deleteProperty']);
export const FREEZE = new Set(['freeze', 'seal', 'preventExtensions']);
const PURE_OWNERS = new Set(['String', 'StringConstructor', 'Number', 'NumberConstructor', 'Boolean', 'BooleanConstructor', 'Math', 'JSON', 'Symbol', 'SymbolConstructor', 'BigInt', 'BigIntConstructor', 'Array', 'ReadonlyArray', 'ArrayConstructor', 'Map', 'ReadonlyMap', 'Set', 'ReadonlySet', 'WeakMap', 'WeakSet', 'ObjectConstructor', 'Object', 'RegExp', 'RegExpConstructor', 'Function', 'CallableFunction', 'NewableFunction', 'Error', 'ErrorConstructor', 'Console', 'XMLSerializer', 'Date', 'Intl', 'IteratorObject', 'Iterator', 'ArrayIterator', 'MapConstructor', 'WeakMapConstructor', 'SetConstructor', 'WeakSetConstructor', 'TypedArray', 'Uint8Array', 'URL', 'URLSearchParams']);
const PURE_DOM = /^(get[A-Z]|has[A-Z]?|create|query|closest|matches|contains|compareDocumentPosition|isEqualNode|isSameNode|item$|cloneNode|importNode|lookup|toString|serialize|entries$|keys$|values$|forEach$|hasChildNodes|computedStyleMap|getHTML)/;
const PURE_GLOBAL = new Set(['parseInt', 'parseFloat', 'isNaN', 'isFinite', 'encodeURIComponent', 'decodeURIComponent', 'encodeURI', 'decodeURI', 'String', 'Number', 'Boolean', 'Symbol', 'BigInt', 'Array', 'Object', 'Error', 'structuredClone', 'RegExp']);
const PURE_NEW = /(Error|RegExp|WeakMap|Map|WeakSet|Set|Array|Object|String|XMLSerializer|DOMParser|TextEncoder|TextDecoder|URL|URLSearchParams|URLPattern|Date|WeakRef|DOMException|Uint8Array|Uint32Array|Proxy|AbortController)$/;

const isDebug = (n) => ts.isLabeledStatement(n) && n.label.text === 'DEBUG';
/** The nodes that run as part of `roots`, without the bodies of closures in them. */
export function* nodes(roots, { skipDebug = false } = {}) {
  const stack = [...roots];
  while (stack.length) {
    const n = stack.pop();
    if (!n || (skipDebug && isDebug(n)) || ts.isTypeNode(n) && !ts.isExpressionWithTypeArguments(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) continue;
    if (isFn(n)) { if (n.name && ts.isComputedPropertyName(n.name)) stack.push(n.name.expression); continue; }
    yield n;
    n.forEachChild((x) => { stack.push(x); });
  }
}
/** What runs when a function or the constructor of a class does. */
export function bodyOf(fn) {
  if (ts.isSourceFile(fn)) return [...fn.statements];
  if (ts.isClassLike(fn)) return fn.members.filter((m) => ts.isPropertyDeclaration(m) && m.initializer && !ts.getModifiers(m)?.some((x) => x.kind === SK.StaticKeyword)).map((m) => m.initializer);
  const out = fn.body ? [fn.body] : [];
  for (const q of fn.parameters) if (q.initializer) out.push(q.initializer);
  return out;
}
/** A region: code, the functions it calls before it is done, and all nodes in them. */
export function region(c, roots, from, { skipDebug = false } = {}) {
  const f = flow(c);
  const inside = (n) => roots.some((r) => n.pos >= r.pos && n.end <= r.end && n.getSourceFile() === r.getSourceFile());
  const first = f.edges.filter((e) => e.kind === 'sync' && from.has(e.from) && inside(e.node)).map((e) => e.to);
  const seen = f.reach(first);
  const all = [...nodes(roots, { skipDebug })];
  const fns = [...seen.keys()].filter((x) => !ts.isSourceFile(x));
  const own = [];
  for (const fn of fns) for (const n of nodes(bodyOf(fn), { skipDebug })) own.push([n, fn]);
  const holds = (n) => inside(n) || fns.some((fn) => n.getSourceFile() === fn.getSourceFile() && n.pos >= fn.pos && n.end <= fn.end);
  return { f, seen, fns, inside, holds, list: [...all.map((n) => [n, null]), ...own] };
}
const declsOf = (c, n) => c.P.symbolOf(n)?.declarations ?? [];
const ownerName = (d) => (d.parent && (ts.isInterfaceDeclaration(d.parent) || ts.isClassDeclaration(d.parent)) ? d.parent.name?.text : d.parent?.parent && ts.isVariableDeclaration(d.parent.parent) ? d.parent.parent.name.getText() : '');
/** Is what `e` evaluates to created in the region, as far as can be told? */
export function fresh(c, R, e, here = () => false) {
  e = skip(e);
  const f = R.f;
  if (e.kind === SK.ThisKeyword) {
    const fn = f.fnOf(e);
    return !!fn && (ts.isConstructorDeclaration(fn) || ts.isClassLike(fn)) && R.holds(fn);
  }
  const vs = [...f.E(e)].filter((v) => !(v.k === 'param' && f.called.has(v.n)) && v.k !== 'host' && fits(c, v, e));
  const made = vs.filter((v) => ['arr', 'obj', 'fresh', 'fn', 'cls'].includes(v.k) && (R.holds(v.n) || here(v.n)));
  const alien = vs.filter((v) => !made.includes(v) && ['arr', 'obj', 'fresh', 'param', 'res', 'ext', 'outer', 'this', 'fn', 'cls'].includes(v.k) && container(c, v));
  if (made.length && !alien.length) return true;
  if (vs.length && vs.every((v) => v.k === 'new') && ts.isIdentifier(e)) { const d = declsOf(c, e)[0]; return !!d && ts.isVariableDeclaration(d) && R.holds(d) && !!d.initializer && ts.isNewExpression(skip(d.initializer)); }
  // results of builtins that create what they return
  if (ts.isCallExpression(e) || ts.isTaggedTemplateExpression(e)) { const k = skip(e.expression ?? e.tag); if (ts.isPropertyAccessExpression(k) && /^(map|filter|slice|concat|flat|flatMap|toSorted|toReversed|toSpliced|with|split|from|of|keys|values|entries|match|matchAll|getOwnPropertyNames|ownKeys)$/.test(k.name.text) && f.calleeIsHost(k)) return true; }
  if (ts.isIdentifier(e)) {
    const d = declsOf(c, e)[0];
    if (d && ts.isVariableDeclaration(d) && R.holds(d) && d.initializer && writesTo(c, d).every((w) => fresh(c, R, w, here)) && !ts.isIdentifier(skip(d.initializer))) return fresh(c, R, d.initializer, here);
  }
  return false;
}
/** Can the value be what an expression of this type evaluates to? */
export function fits(c, v, e) {
  const ck = c.P.checker;
  try {
    const t = ck.getNonNullableType(ck.getTypeAtLocation(e));
    if (t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.TypeParameter) || !v.n || v.k === 'this' || v.k === 'res') return true;
    const u = v.k === 'new' ? ck.getDeclaredTypeOfSymbol(ck.getSymbolAtLocation(v.n.name ?? v.n) ?? v.n.symbol) : ck.getNonNullableType(ck.getTypeAtLocation(v.n));
    if (u.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.TypeParameter)) return true;
    if (v.k === 'cls' || v.k === 'fn') return t.getCallSignatures().length > 0 || t.getConstructSignatures().length > 0 || !!ck.getPropertyOfType(t, 'prototype') || /^Function$/.test(t.symbol?.name ?? '');
    const list = (x) => ck.isArrayType(x) || ck.isTupleType(x);
    if (list(t) && list(u)) return true;
    return ck.isTypeAssignableTo(u, t) || ck.isTypeAssignableTo(t, u);
  } catch { return true; }
}
const container = (c, v) => { if (v.k === 'ext' || v.k === 'host') return false; if (!['param'].includes(v.k)) return true; const t = c.P.checker.getTypeAtLocation(v.n); return !(t.flags & (ts.TypeFlags.StringLike | ts.TypeFlags.NumberLike | ts.TypeFlags.BooleanLike)); };
function writesTo(c, d) {
  const out = [];
  c.P.walk(d.getSourceFile(), (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === SK.EqualsToken && ts.isIdentifier(skip(n.left)) && declsOf(c, skip(n.left)).includes(d)) out.push(n.right); });
  return out;
}
export const assigns = (n) => (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment ? [skip(n.left)] : (ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken) ? [skip(n.operand)] : ts.isDeleteExpression(n) ? [skip(n.expression)] : ts.isForOfStatement(n) || ts.isForInStatement(n) ? (ts.isVariableDeclarationList(n.initializer) ? [] : [skip(n.initializer)]) : []);
export function targets(t) {
  t = skip(t);
  if (ts.isArrayLiteralExpression(t)) return t.elements.flatMap((x) => targets(ts.isSpreadElement(x) ? x.expression : x));
  if (ts.isObjectLiteralExpression(t)) return t.properties.flatMap((p) => (ts.isPropertyAssignment(p) ? targets(p.initializer) : ts.isShorthandPropertyAssignment(p) ? [p.name] : ts.isSpreadAssignment(p) ? targets(p.expression) : []));
  if (ts.isBinaryExpression(t) && t.operatorToken.kind === SK.EqualsToken) return targets(t.left);
  return [t];
}
/** The effects of the nodes of a region on what existed before: {node, fn, kind, base?, decl?, what}. */
export function* effects(c, R, { console: logs = false } = {}) {
  const f = R.f, ck = c.P.checker;
  for (const [node, fn] of R.list) {
    for (const t0 of assigns(node)) for (const t of targets(t0)) {
      if (ts.isIdentifier(t)) {
        const s = ts.isShorthandPropertyAssignment(t.parent) ? ck.getShorthandAssignmentValueSymbol(t.parent) : c.P.symbolOf(t);
        const d = s?.declarations?.[0];
        if (d && c.P.inRepo(d)) { if (!R.holds(d)) yield { node, fn, kind: 'variable', decl: d, name: t, what: `assigns ${t.text}` }; } else yield { node, fn, kind: 'global', what: `assigns ${t.text}` };
      } else if (t.expression && (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t))) yield { node, fn, kind: 'write', base: t.expression, key: ts.isPropertyAccessExpression(t) ? t.name.text : null, what: ts.isDeleteExpression(node) ? 'deletes a property of' : 'assigns a property of' };
    }
    if (ts.isCallExpression(node) || ts.isNewExpression(node) || ts.isTaggedTemplateExpression(node)) yield* callEffects(c, R, node, fn, logs);
    if ((ts.isForOfStatement(node) || ts.isSpreadElement(node)) && !isList(c, node.expression) && !fresh(c, R, node.expression)) yield { node, fn, kind: 'iterate', base: node.expression, what: 'consumes an iterator of' };
    if (ts.isAwaitExpression(node) || ts.isYieldExpression(node) || (ts.isForOfStatement(node) && node.awaitModifier)) { if (fn === null) yield { node, fn, kind: 'suspend', what: 'suspends' }; }
  }
  void f;
}
function isList(c, e) {
  const ck = c.P.checker;
  const list = (t, n = 0) => { t = ck.getApparentType(ck.getNonNullableType(t)); if (n > 6) return false; if (t.isUnion()) return t.types.every((x) => list(x, n + 1)); if (t.flags & ts.TypeFlags.StringLike) return true; if (ck.isArrayType(t) || ck.isTupleType(t)) return true; const s = t.symbol?.name ?? ''; return /^(String|Array|ReadonlyArray|Map|ReadonlyMap|Set|ReadonlySet|NodeList.*|HTMLCollection.*|NamedNodeMap|DOMTokenList|.*Array)$/.test(s); };
  try { return list(ck.getTypeAtLocation(e)); } catch { return false; }
}
function* callEffects(c, R, node, fn, logs) {
  const f = R.f;
  const callee = skip(ts.isTaggedTemplateExpression(node) ? node.tag : node.expression);
  if (callee.kind === SK.SuperKeyword) return;
  if (callee.kind === SK.ImportKeyword) { yield { node, fn, kind: 'host', what: 'loads a module' }; return; }
  const name = ts.isPropertyAccessExpression(callee) ? callee.name.text : ts.isIdentifier(callee) ? callee.text : '';
  const args = node.arguments ?? [];
  const ds = declsOf(c, ts.isPropertyAccessExpression(callee) ? callee.name : callee);
  const repo = ds.some((d) => c.P.inRepo(d));
  const recv = ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee) ? callee.expression : null;
  if (!repo && ds.length) {
    const owner = ownerName(ds[0]) ?? '';
    if (ts.isNewExpression(node)) { if (!PURE_NEW.test(name)) yield { node, fn, kind: 'host', what: `creates a ${name}` }; return; }
    if (recv && /^(Object|Reflect)(Constructor)?$/.test(skip(recv).getText())) {
      if (FIRST.has(name)) yield { node, fn, kind: 'write', base: args[0], key: name === 'defineProperty' && args[1] && ts.isStringLiteralLike(skip(args[1])) ? skip(args[1]).text : null, what: `'${name}' changes` };
      else if (name === 'set' || name === 'apply' || name === 'construct') yield { node, fn, kind: name === 'set' ? 'write' : 'user', base: args[0], what: `'${name}' changes` };
      else if (FREEZE.has(name)) yield { node, fn, kind: 'freeze', base: args[0], what: `'${name}' fixes` };
      return;
    }
    if (recv && MUTATORS.has(name) && !/^(URLSearchParams|CSSStyleDeclaration)$/.test(owner)) { yield { node, fn, kind: 'write', base: recv, key: null, mutator: name, what: `'${name}' changes` }; return; }
    const dom = recv && f.isDom(c.P.checker.getTypeAtLocation(recv));
    if (dom && CHANGES.has(name)) { yield { node, fn, kind: 'write', base: recv, key: null, dom: true, what: `'${name}' changes` }; return; }
    if (dom && PURE_DOM.test(name)) return;
    if (owner === 'Console') { if (!logs) yield { node, fn, kind: 'host', what: 'writes to the console' }; return; }
    if (recv && PURE_OWNERS.has(owner)) {
      if (/^(call|apply)$/.test(name) && ![...f.E(recv)].some((v) => v.k === 'fn')) yield { node, fn, kind: 'user', base: recv, what: 'calls' };
      if (/^next|return|throw$/.test(name) && /Iterator/.test(owner)) yield { node, fn, kind: 'iterate', base: recv, what: 'advances' };
      if (owner === 'ArrayConstructor' && name === 'from' && args[0] && !isList(c, args[0]) && c.P.checker.getPropertyOfType(c.P.checker.getTypeAtLocation(args[0]), '__@iterator') && !fresh(c, R, args[0])) yield { node, fn, kind: 'iterate', base: args[0], what: 'consumes an iterator of' };
      for (const a of args) yield* passed(c, R, a, node, fn, name);
      return;
    }
    if (!recv && PURE_GLOBAL.has(name)) return;
    yield { node, fn, kind: 'host', what: `calls '${owner ? owner + '.' : ''}${name}' of the host` };
    return;
  }
  // a function value: the functions it may stand for are part of the region
  const vs = [...f.E(callee)];
  const known = vs.filter((v) => v.k === 'fn' || v.k === 'cls');
  const given = ts.isIdentifier(callee) && ds.some((d) => !R.holds(d) && (ts.isParameter(d) || (ts.isBindingElement(d) && (() => { let p = d; while (ts.isBindingElement(p) || ts.isBindingPattern(p)) p = p.parent; return ts.isParameter(p); })())));
  if (given) { yield { node, fn, kind: 'user', base: callee, what: `calls ${callee.getText().slice(0, 40)}, which is not known to do nothing` }; return; }
  const unknown = vs.filter((v) => (v.k === 'param' && !(f.called.has(v.n) && known.length)) || v.k === 'res');
  if (unknown.length || !vs.length) { if (!repo || unknown.length || !ds.some((d) => (isFn(d) && d.body) || ts.isClassDeclaration(d))) yield { node, fn, kind: 'user', base: callee, what: `calls ${callee.getText().slice(0, 40)}, which is not known to do nothing` }; }
}
function* passed(c, R, a, node, fn, name) {
  const vs = [...R.f.E(ts.isSpreadElement(a) ? a.expression : a)];
  if (vs.some((v) => v.k === 'param' && !R.f.called.has(v.n)) && c.P.checker.getTypeAtLocation(a).getCallSignatures().length && /^(forEach|map|filter|reduce|reduceRight|some|every|find|findIndex|findLast|flatMap|sort|toSorted|replace|replaceAll|from)$/.test(name)) yield { node, fn, kind: 'user', base: a, what: `calls ${a.getText().slice(0, 40)}` };
}
export const via = (R, fn) => (fn ? ` (reached through ${R.f.trail(R.seen, fn).join(' → ')})` : '');
