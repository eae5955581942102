// C36: equality helpers decide element-wise SameValue; change detection uses SameValue.
import { ts, T, UNDEF, TRUE, FALSE, U, N, I, calls, covers, loopsOf, enclosingFn, AnchorError } from './_lib.mjs';

export const about = 'Every path of the equality helpers is checked against what it may conclude: equality only when both are the same or all lengths, keys and elements are known to be equal, inequality only when a difference is known. Every other strict comparison of two values of unrestricted type is followed to see whether numbers may reach it.';
export const assumptions = ['Sequences and objects that are compared do not change meanwhile.', 'Callers of the exported helpers give an equality that is a function of its arguments.'];

const same = (p, a, b) => p.st.canon(a ?? UNDEF) === p.st.canon(b ?? UNDEF);
/** The possible outcomes of a path that returns a truth value. */
function outcomes(c, p) {
  const v = p.value ?? UNDEF, d = p.st.decide(p.st.pTruthy(v));
  if (d !== undefined && !carriesResult(p)) return [[d, p.st]];
  // a result kept up to date by a loop: what it stands for afterwards is not followed
  if (carriesResult(p) || T.contains(p.st.canon(v), (t) => t.k === 'hv')) { c.undecide(`${c.P.where(p.fn)}: the result is carried through a loop`); return []; }
  return [true, false].flatMap((b) => { const s = p.st.clone(); return s.assume(s.pTruthy(v), b) && !s.infeasible() ? [[b, s]] : []; });
}
/** Some loop of the path carries a truth value along. */
function carriesResult(p) {
  return loopsOf(p).some(({ loop }) => [...(loop.carried?.values() ?? [])].some((x) => x.init && x.cell && (x.init === TRUE || x.init === FALSE || (x.init.k === 'op' && ['eq', 'not', 'is', 'le', 'mask'].includes(x.init.op)))));
}
/** Pairs of elements at one position of both that the path looked at. */
function positions(p, has) {
  const out = new Set();
  const look = (t) => t && T.contains(t, (x) => { if (has(x)) out.add(x); return false; });
  for (const e of p.events) { if (e.t === 'branch') look(e.pred); if (e.t === 'call') e.args.forEach(look); }
  look(p.value);
  return [...out];
}
/** What is known about the elements x and y: equal, different or neither. */
function verdict(c, p, st, x, y, equals) {
  if (!equals) return st.decide(st.pEq(x, y, 'is'));
  const e = calls(p, (e) => e.fn && same(p, e.fn, equals) && e.args.length >= 2 && st.canon(e.args[0]) === st.canon(x) && st.canon(e.args[1]) === st.canon(y));
  if (e.length !== 1) return undefined;
  return st.decide(st.pTruthy(e[0].res));
}
function sequence(c, fn, E, ps, xs, ys, equals, negated) {
  let n = 0, loops = 0;
  for (const p of ps) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    for (const [truth, st] of outcomes(c, p)) {
      n++;
      const eq = truth !== negated;
      const identical = st.decide(st.pEq(xs, ys)) ?? st.decide(st.pEq(xs, ys, 'is'));
      const len = st.decide(st.pEq(E.lengthTerm(xs, st), E.lengthTerm(ys, st)));
      const ls = loopsOf(p);
      const pairs = positions(p, (t) => t.k === 'idx' && (same(p, t.arr, xs) || same(p, t.arr, ys))).map((t) => t.i);
      const known = pairs.map((i) => verdict(c, p, st, T.idx(xs, i), T.idx(ys, i), equals));
      if (eq) {
        if (identical === true) { c.expect(true, fn, ''); continue; }
        c.expect(len === true, fn, 'sequences of different lengths may be called equal', p);
        const zero = p.events.some((e) => e.t === 'loopzero');
        if (zero && !ls.length) { c.expect(true, fn, ''); continue; }
        const L = ls.find(({ loop }) => covers(loop, xs, p) || covers(loop, ys, p));
        loops++;
        c.expect(L && L.end === 'full' && known.length && known.every((k) => k === true), L?.loop.node ?? fn, 'sequences may be called equal although an element differs', p);
      } else {
        c.expect(identical !== true && (len === false || known.some((k) => k === false)), fn, 'sequences may be called different although all elements are equal', p);
      }
    }
  }
  if (!ps.some(carriesResult)) c.expect(n > 0 && loops > 0, fn, 'the elements of sequences are not compared');
}
function sequential(c) {
  const fn = c.P.fn('sequentialEqual'), E = c.engine(), [xs, ys, equals] = E.paramSyms(fn);
  sequence(c, fn, E, c.paths(E, fn, { args: [xs, ys, UNDEF] }), xs, ys, null, false);
  const given = T.sym('equals'); given.m0 = T.F;
  sequence(c, fn, E, c.paths(E, fn, { args: [xs, ys, given] }), xs, ys, given, false);
}
function dependencies(c) {
  const fn = c.P.fn('areDependenciesChanged'), E = c.engine(), [xs, ys] = E.paramSyms(fn);
  const ps = c.paths(E, fn), rest = [];
  let nil = 0;
  for (const p of ps) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const missing = [xs, ys].some((t) => p.st.decide(p.st.pMask(t, U | N)) === true), present = [xs, ys].every((t) => p.st.decide(p.st.pMask(t, U | N)) === false);
    if (missing) { nil++; c.expect(p.st.decide(p.st.pTruthy(p.value ?? UNDEF)) === true, fn, 'missing dependencies may be called unchanged', p); continue; }
    if (c.expect(present, fn, 'missing dependencies are not told apart', p)) rest.push(p);
  }
  c.expect(nil > 0, fn, 'missing dependencies are not told apart');
  sequence(c, fn, E, rest, xs, ys, null, true);
}
function shallow(c) {
  const fn = c.P.fn('shallowEqual'), E = c.engine(), [xs, ys, equals] = E.paramSyms(fn);
  const given = T.sym('equals'); given.m0 = T.F;
  for (const g of [null, given]) {
    let n = 0, loops = 0;
    for (const p of c.paths(E, fn, { args: [xs, ys, g ?? UNDEF] })) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      const keysOf = (o) => p.events.filter((e) => e.t === 'call' && e.decl === 'Object.keys' && same(p, e.args[0], o)).map((e) => e.res);
      const kx = keysOf(xs)[0], ky = keysOf(ys)[0];
      for (const [eq, st] of outcomes(c, p)) {
        n++;
        const identical = st.decide(st.pEq(xs, ys)) ?? st.decide(st.pEq(xs, ys, 'is'));
        const len = kx && ky ? st.decide(st.pEq(E.lengthTerm(kx, st), E.lengthTerm(ky, st))) : undefined;
        const ls = loopsOf(p);
        const keyOf = (t) => t.keyTerm ?? null;
        const keys = new Set();
        const own = (o, k) => p.events.filter((e) => e.t === 'call' && (e.decl === 'Object.hasOwn' || /hasOwnProperty/.test(e.decl ?? e.name ?? '')) && e.args.some((a) => same(p, a, k)) && (e.args.some((a) => same(p, a, o)) || (e.recv && same(p, e.recv, o)))).map((e) => st.decide(st.pTruthy(e.res)))[0];
        for (const t of positions(p, (t) => t.k === 'idx' && ((kx && same(p, t.arr, kx)) || (ky && same(p, t.arr, ky))))) keys.add(t);
        const list = [...keys].map((k) => {
          const other = same(p, k.arr, kx ?? UNDEF) ? ys : xs;
          const at = (o) => positions(p, (t) => t.k === 'f' && t.keyTerm && same(p, t.keyTerm, k) && same(p, t.base, o))[0] ?? p.E.valueAtKey?.(o, k);
          const x = at(xs), y = at(ys);
          return { own: own(other, k), val: x && y ? verdict(c, p, st, x, y, g) : undefined };
        });
        if (eq) {
          if (identical === true) { c.expect(true, fn, ''); continue; }
          c.expect(len === true, fn, 'objects with different numbers of own keys may be called equal', p);
          if (p.events.some((e) => e.t === 'loopzero') && !ls.length) continue;
          const L = ls.find(({ loop }) => (kx && covers(loop, kx, p)) || (ky && covers(loop, ky, p)));
          loops++;
          c.expect(L && L.end === 'full' && list.length, L?.loop.node ?? fn, 'objects may be called equal although not every key was looked at', p);
          c.expect(list.every((k) => k.own === true), L?.loop.node ?? fn, 'objects with different own keys may be called equal', p);
          c.expect(list.every((k) => k.val === true), L?.loop.node ?? fn, 'objects may be called equal although a property differs', p);
        } else {
          c.expect(identical !== true && (len === false || list.some((k) => k.own === false || k.val === false)), fn, 'objects may be called different although all properties are equal', p);
        }
      }
    }
    if (loops || !c.undecided.length) c.expect(n > 0 && loops > 0, fn, 'the properties of objects are not compared');
  }
}

// ---- change detection --------------------------------------------------
const STRICT = new Set([ts.SyntaxKind.EqualsEqualsEqualsToken, ts.SyntaxKind.ExclamationEqualsEqualsToken, ts.SyntaxKind.EqualsEqualsToken, ts.SyntaxKind.ExclamationEqualsToken]);
function detection(c) {
  const P = c.P, ck = P.checker;
  const wide = (n) => { const go = (t) => !!(t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.TypeParameter | ts.TypeFlags.IndexedAccess)) || (t.isUnion() && t.types.some(go)); return go(ck.getTypeAtLocation(n)); };
  const helpers = new Set(['sequentialEqual', 'shallowEqual', 'areDependenciesChanged'].map((n) => P.fn(n)));
  const name = (n) => { while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n)) n = n.expression; return n; };
  let seen = 0;
  for (const sf of P.files) P.walk(sf, (n) => {
    if (ts.isCallExpression(n) && /(^|\.)(is|areDependenciesChanged|sequentialEqual|shallowEqual)$/.test(n.expression.getText())) { c.expect(true, n, ''); return; }
    if (!ts.isBinaryExpression(n) || !STRICT.has(n.operatorToken.kind) || !wide(n.left) || !wide(n.right)) return;
    const fn = enclosingFn(n);
    if (!fn || helpers.has(fn)) return;
    const l = name(n.left), r = name(n.right);
    // the whole props of two elements are always objects
    const prop = (x) => (ts.isPropertyAccessExpression(x) ? x.name.text : null);
    if (prop(l) === 'props' && prop(r) === 'props') return;
    // what a reference currently holds decides who owns it, not whether it changed
    if (prop(l) === 'current' || prop(r) === 'current') return;
    // what the host shows at present
    if ([l, r].some((x) => ts.isElementAccessExpression(x) && !P.inRepo(P.symbolOf(name(x.expression))?.valueDeclaration ?? x) )) return;
    if ([l, r].some((x) => ts.isElementAccessExpression(x) && hostValue(c, name(x.expression)))) return;
    seen++;
    if (rejectsNumbers(c, fn)) { c.expect(true, n, ''); return; }
    c.expect(!mayBeNumbers(c, fn, n), n, 'two values are compared with strict equality: NaN counts as a change or 0 and -0 do not');
  });
}
/** An expression whose type belongs to the host. */
function hostValue(c, x) {
  const inner = x;
  const t = c.P.checker.getTypeAtLocation(inner), d = t.symbol?.declarations?.[0];
  return !!d && !c.P.inRepo(d);
}
/** A binding that is mounted only with values that are no numbers. */
function rejectsNumbers(c, fn) {
  if (!ts.isMethodDeclaration(fn) || !ts.isClassLike(fn.parent)) return false;
  const m = c.P.member(fn.parent, 'commitMount')?.decl;
  if (!m?.body || m === fn) return false;
  const E = c.engine(), [v] = E.paramSyms(m);
  const ps = c.paths(E, m, { cls: fn.parent });
  return ps.length > 0 && ps.every((p) => p.kind !== 'return' || p.st.infeasible() || p.st.decide(p.st.pMask(v, I)) === false);
}
function mayBeNumbers(c, fn, n) {
  const outer = ts.isClassLike(fn.parent) ? fn.parent : null;
  const E = c.engine();
  let ps;
  try { ps = c.paths(E, fn, outer ? { cls: outer } : {}); } catch { return true; }
  for (const p of ps) {
    if (p.kind === 'cut' || p.st.infeasible()) continue;
    const ops = positions(p, (t) => t.k === 'op' && (t.op === 'eq' || t.op === 'looseeq') && t.args.every((a) => a.k !== 'c'));
    for (const o of ops) if (o.args.every((a) => p.st.decide(p.st.pMask(a, I)) !== false && p.st.decide(p.st.pMask(a, I)) !== true)) return true;
  }
  return false;
}
export const rules = [
  { name: 'sequences', text: 'sequentialEqual is true only for the same sequence or equal lengths with every element equal, and false only if a difference is known', run: sequential },
  { name: 'dependencies', text: 'areDependenciesChanged is true for missing dependencies and otherwise exactly if the sequences differ', run: dependencies },
  { name: 'objects', text: 'shallowEqual is true only for the same object or equal own keys with every property equal, and false only if a difference is known', run: shallow },
  { name: 'detection', text: 'no two values of unrestricted type that may be numbers are compared with strict equality', run: detection },
];
