// C31: identifiers, transition numbers and update numbers are unique and stable.
import { ts, T, cst, UNDEF, fld, idxOf, isStatic, memberName, contextClass, hookPaths, AnchorError } from './_lib.mjs';
import { State } from '../lib/state.mjs';

export const about = 'What a runtime hands out as identifier, transition number and update number is followed on every path back to a counter of its own that is advanced before anything else can run; every other write to these counters in the source is examined. The characters the host’s identifier can consist of are computed as sets over all random bytes. The slot that keeps a component’s identifier is followed on every path of the hook, and every write to it in the source is examined.';
export const assumptions = ['Counters stay below 2^53.', 'String.fromCharCode, Number.toString, Array.join and typed arrays behave as specified.'];

const can = (p, t) => p.st.canon(t ?? UNDEF);
const same = (p, a, b) => !!a && !!b && can(p, a) === can(p, b);

/** Fields of `this` a term depends on one to one. */
function injective(p, v, thisT) {
  v = can(p, v);
  if (v.k === 'r' && v.name === 'toString' && v.recv) return injective(p, v.recv, thisT);
  if (v.k === 'op' && v.op === 'concat') {
    const parts = v.args.filter((a) => can(p, a).k !== 'c');
    const hits = parts.map((a) => injective(p, a, thisT)).filter(Boolean);
    // the other parts are the same for every identifier of the runtime
    const fixed = parts.filter((a) => !injective(p, a, thisT)).every((a) => hostOwned(p, a, thisT));
    return hits.length === 1 && fixed ? hits[0] : null;
  }
  const own = (t) => t.k === 'f' && can(p, t.base) === thisT;
  if (own(v) && p.E.typeMask?.(v) !== 1) return v;
  let hit = null;
  T.contains(v, (t) => { if (!hit && own(t)) { const d = T.linSum(v, t, -1); if (d.k === 'c' && typeof d.v === 'number') hit = t; } return false; });
  return hit;
}
const hostOwned = (p, t, thisT) => { t = can(p, t); return (t.k === 'r' && t.name === 'getIdentifier') || (t.k === 'f' && t.name !== 'length' && (can(p, t.base) === thisT)); };

function counterField(c, k, name) { return c.P.member(k, name)?.decl ?? null; }
const steps = (p, thisT, name) => p.events.filter((e) => e.t === 'write' && can(p, e.base) === thisT && String(e.name) === name);
/** The value comes from a counter that has been advanced before anyone else could see it. */
function counted(c, k, fn, p, v, thisT, what, counters) {
  const t = injective(p, v, thisT);
  const val = can(p, v);
  if (!t) {
    const lossy = T.contains(val, (x) => x.k === 'r' && ['slice', 'substring', 'substr', 'charAt', 'at', 'trunc', 'floor', 'round', 'min', 'max', 'random'].includes(x.name));
    if (!lossy && T.contains(val, (x) => x.k === 'r' && !['getIdentifier', 'toString'].includes(x.name))) { c.undecide(`where ${what} come from was not recognised`); return; }
    c.fail(fn, `${what} may be handed out twice`, p); return;
  }
  const decl = counterField(c, k, t.name);
  if (!decl) { c.undecide(`where ${what} come from was not recognised`); return; }
  const ws = steps(p, thisT, String(t.name));
  const w = ws.find((e) => { const d = T.linSum(can(p, e.value), t, -1); return d.k === 'c' && d.v !== 0; });
  if (!c.expect(w && ws.length === 1, w?.node ?? fn, `${what} may be handed out twice: the counter is not advanced`, p)) return;
  const d = T.linSum(can(p, w.value), t, -1);
  if (!c.expect(w.ep === t.ver, w.node, `${what} may be handed out twice: something else may run before the counter is advanced`, p)) return;
  const key = decl, dir = Math.sign(d.v);
  const x = counters.get(key) ?? { k, name: String(t.name), decl, fns: new Set(), dir, what };
  c.expect(x.dir === dir, w.node, `${what} may be handed out twice: the counter goes up and down`, p);
  x.fns.add(fn); counters.set(key, x);
}
function runtime(c) { const k = c.P.implementors('Dispatcher').find((x) => c.P.member(x, 'schedule')?.decl?.body); if (!k) throw new AnchorError('no class implements Dispatcher'); return k; }
function unique(c) {
  const k = runtime(c), counters = new Map();
  for (const [m, what, pick] of [['nextIdentifier', 'identifiers', (p) => p.value], ['nextTransition', 'transition numbers', (p) => p.value], ['schedule', 'update numbers', (p) => c.get(p, p.value, 'id')]]) {
    const fn = c.P.method(k, m), E = c.engine({ havoc: () => true }), thisT = E.thisSym(k);
    let n = 0;
    for (const p of c.paths(E, fn, { cls: k })) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      n++;
      const v = pick(p);
      counted(c, k, fn, p, v, thisT, what, counters);
      if (m === 'schedule') {
        // the update that is queued carries the number that is returned
        const q = p.events.filter((e) => e.t === 'call' && e.args?.[0]?.k === 'o' && p.E.hkey && queued(c, p, e));
        for (const e of q) c.expect(same(p, c.get(p, e.args[0], 'id'), v), e.node, 'the number of an update differs from the one of its handle', p);
      }
    }
    c.expect(n > 0, fn, `no ${what} are handed out`);
  }
  c._c31 = counters;
}
/** A call that is given an update. */
function queued(c, p, e) { const o = can(p, e.args[0]); return c.get(p, o, 'transaction') && T.contains(c.get(p, o, 'transaction'), (t) => t.k === 's'); }

function onlyGrow(c) {
  if (!c._c31) unique(c);
  for (const x of c._c31.values()) {
    c.expect(!isStatic(x.decl), x.decl, `the counter of ${x.what} is shared by all runtimes`);
    if (ts.isPropertyDeclaration(x.decl)) { const i = x.decl.initializer && constNumber(c, x.decl.initializer); if (x.decl.initializer) c.expect(i === null ? !ts.isNumericLiteral(x.decl.initializer) : Number.isFinite(i), x.decl, `the counter of ${x.what} does not start at a number`); }
    for (const fn of c.engine().writers().get(x.decl) ?? []) {
      if (!fn || x.fns.has(fn)) continue;
      if (ts.isConstructorDeclaration(fn)) continue;
      const home = ts.isClassLike(fn.parent) ? fn.parent : null;
      if (!home) { inClosure(c, x, fn); continue; }
      const E = c.engine({ havoc: () => true }), thisT = E.thisSym(home);
      for (const p of c.paths(E, fn, { cls: home })) {
        if (p.st.infeasible()) continue;
        for (const w of p.events.filter((e) => e.t === 'write' && String(e.name) === x.name && c.P.symbolOf?.(nameNode(e.node))?.valueDeclaration === x.decl)) {
          const d = T.linSum(can(p, w.value), T.field(can(p, w.base), x.name, w.ep), -1);
          c.expect(d.k === 'c' && Math.sign(d.v) !== -x.dir, w.node, `the counter of ${x.what} is set back`, p);
        }
      }
    }
  }
}
/** Writes in a function that is not a method: judged one by one. */
function inClosure(c, x, fn) {
  const is = (e) => ts.isPropertyAccessExpression(e) && c.P.symbolOf(e.name)?.valueDeclaration === x.decl;
  c.P.walk(fn, (n) => {
    if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && is(n.operand)) { c.expect((n.operator === ts.SyntaxKind.PlusPlusToken) === (x.dir > 0), n, `the counter of ${x.what} is set back`); return; }
    if (!ts.isBinaryExpression(n) || !is(n.left)) return;
    const k = n.operatorToken.kind;
    if (k === ts.SyntaxKind.EqualsToken) { let self = false; c.P.walk(n.right, (y) => { if (is(y) || ts.isIdentifier(y)) self = true; }); if (self) c.undecide('a counter is written by a function of its own'); else c.fail(n, `the counter of ${x.what} is set back`); return; }
    if (k === ts.SyntaxKind.PlusEqualsToken || k === ts.SyntaxKind.MinusEqualsToken) { const v = constNumber(c, n.right); if (v === null) c.undecide('a counter is written by a function of its own'); else c.expect(Math.sign(k === ts.SyntaxKind.PlusEqualsToken ? v : -v) !== -x.dir, n, `the counter of ${x.what} is set back`); }
  });
}
const nameNode = (n) => { let r = null; const go = (x) => { if (!r && ts.isPropertyAccessExpression(x)) r = x.name; if (!r) ts.forEachChild(x, go); }; go(n); return r ?? n; };
function constNumber(c, node) { const outs = evalAll(c, node); return outs?.length === 1 && outs[0].v?.k === 'c' ? outs[0].v.v : null; }
function evalAll(c, node) {
  const E = c.engine();
  try { return E.ev(node, new State(), { thisV: UNDEF, env: { lookup: () => undefined, declare: () => { throw new AnchorError('declaration'); } }, fn: null, home: null, loops: [], stack: [], depth: 0, tries: 0 }); } catch (e) { if (process.env.DBG) console.error(e); return null; }
}

// ---- identifiers of the host: sets of the strings a term can be
const MAX = 5000;
function numbers(t, st) {
  t = st.canon(t);
  if (t.k === 'c') return typeof t.v === 'number' ? new Set([t.v]) : null;
  if (t.k === 'idx') return bytes(t.arr, st);
  if (t.k === 'lin') {
    let acc = new Set([t.c]);
    for (const [x, f] of t.parts) { const s = numbers(x, st); if (!s || s.size * acc.size > MAX * 50) return null; const n = new Set(); for (const a of acc) for (const b of s) n.add(a + f * b); if (n.size > MAX) return null; acc = n; }
    return acc;
  }
  if (t.k === 'op' && ['%', '*', '/', '&', '|', '>>', '>>>', '^', '**', '-'].includes(t.op) && t.args.length === 2) {
    const [a, b] = t.args.map((x) => numbers(x, st));
    if (!a || !b || a.size * b.size > MAX * 50) return null;
    const f = { '%': (x, y) => x % y, '*': (x, y) => x * y, '/': (x, y) => x / y, '&': (x, y) => x & y, '|': (x, y) => x | y, '>>': (x, y) => x >> y, '>>>': (x, y) => x >>> y, '^': (x, y) => x ^ y, '**': (x, y) => x ** y, '-': (x, y) => x - y }[t.op];
    const n = new Set(); for (const x of a) for (const y of b) n.add(f(x, y)); return n.size > MAX ? null : n;
  }
  if (t.k === 'r' && t.name === 'floor' && t.args?.length === 1) { const s = numbers(t.args[0], st); return s && new Set([...s].map(Math.floor)); }
  return null;
}
const RANGE = { Uint8Array: [0, 255], Uint8ClampedArray: [0, 255], Int8Array: [-128, 127] };
/** Elements of an array of random bytes. */
function bytes(arr, st) {
  arr = st.canon(arr);
  while (arr.k === 'r' && arr.name === 'getRandomValues' && arr.args?.[0]) arr = st.canon(arr.args[0]);
  if (arr.k === 'o' && arr.kind === 'copy') return bytes(arr.of, st);
  const R = RANGE[typedName(arr)];
  if (!R) return null;
  return new Set(Array.from({ length: R[1] - R[0] + 1 }, (_, i) => R[0] + i));
}
const typedName = (t) => (t.k === 'o' && t.kind === 'ext' ? t.label : null);
function strings(t, st) {
  t = st.canon(t);
  if (t.k === 'c') return new Set([String(t.v)]);
  const n = numbers(t, st);
  if (n) return new Set([...n].map(String));
  if (t.k === 'r' && t.name === 'fromCharCode') { const s = (t.args ?? []).length === 1 && numbers(t.args[0], st); return s ? new Set([...s].map((x) => String.fromCharCode(x))) : null; }
  if (t.k === 'r' && t.name === 'toString' && t.recv) { const s = numbers(t.recv, st), r = t.args?.length ? numbers(t.args[0], st) : new Set([10]); if (!s || r?.size !== 1) return null; const [x] = r; if (!(x >= 2 && x <= 36)) return null; return new Set([...s].map((y) => y.toString(x))); }
  if (t.k === 'r' && ['charAt', 'at'].includes(t.name) && t.recv) { const a = st.canon(t.recv), s = t.args?.length && numbers(t.args[0], st); return a.k === 'c' && s ? new Set([...s].map((y) => String(a.v)[t.name]?.(y) ?? 'undefined')) : null; }
  if (t.k === 'r' && ['toLowerCase', 'toUpperCase'].includes(t.name) && t.recv) { const s = strings(t.recv, st); return s && new Set([...s].map((y) => y[t.name]())); }
  if ((t.k === 'idx' || t.k === 'f') && st.canon(t.arr ?? t.base).k === 'c') { const a = String(st.canon(t.arr ?? t.base).v), i = t.i ?? t.keyTerm, s = i && numbers(i, st); return s ? new Set([...s].map((y) => String(a[y]))) : null; }
  if (t.k === 'op' && t.op === 'concat') { let acc = new Set(['']); for (const x of t.args) { const s = strings(x, st); if (!s || s.size * acc.size > MAX * 50) return null; const o = new Set(); for (const a of acc) for (const b of s) o.add(a + b); acc = o; } return acc.size > MAX ? null : acc; }
  return null;
}
function hostIdentifier(c) {
  const all = c.P.implementors('HostAdapter').filter((k) => c.P.member(k, 'getIdentifier')?.decl?.body);
  if (!all.length) throw new AnchorError('the library comes with no host adapter');
  for (const k of all) {
    const fn = c.P.method(k, 'getIdentifier'), E = c.engine({ havoc: () => true }), thisT = E.thisSym(k);
    for (const p of c.paths(E, fn, { cls: k })) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      const v = can(p, p.value);
      const decl = v.k === 'f' && can(p, v.base) === thisT && c.P.member(k, String(v.name))?.decl;
      if (!decl || !ts.isPropertyDeclaration(decl)) {
        if (T.contains(v, (t) => t.k === 'r') && !T.contains(v, (t) => t.k === 'f')) c.fail(fn, 'the host’s identifier is another one each time', p);
        else c.undecide('where the host’s identifier is kept was not recognised');
        continue;
      }
      const ws = [...(c.engine().writers().get(decl) ?? [])].filter((f) => f && !ts.isConstructorDeclaration(f));
      c.expect(!ws.length, ws[0] ?? decl, 'the host’s identifier changes', p);
      if (isStatic(decl)) { c.undecide('the host’s identifier is shared'); continue; }
      if (!decl.initializer) { c.undecide('how the host’s identifier is made was not recognised'); continue; }
      made(c, decl);
    }
  }
}
function made(c, decl) {
  const E = c.engine(), outs = evalAll(c, decl.initializer);
  if (!outs?.length) { c.undecide('how the host’s identifier is made was not recognised'); return; }
  const first = new Set(), rest = new Set();
  const put = (set, s) => s.forEach((x) => set.add(x));
  let known = 0;
  for (const o of outs) {
    if (o.thr || o.st.infeasible?.()) continue;
    const st = o.st, v = st.canon(o.v);
    if (v.k === 'c' || (v.k === 'op' && v.op === 'concat')) {
      const s = strings(v, st);
      if (s) { known++; s.forEach((x) => { first.add(x.slice(0, 1)); [...x.slice(1)].forEach((y) => rest.add(y)); }); continue; }
    }
    if (v.k === 'r' && v.name === 'join' && v.recv) {
      const sep = v.args?.length ? strings(v.args[0], st) : new Set([',']);
      const a = st.canon(v.recv);
      if (a.k === 'o' && a.kind === 'map' && sep) {
        const s = strings(a.value, st);
        if (!s) { c.undecide('how the host’s identifier is made was not recognised'); return; }
        known++;
        const z = st.decide(st.pEq(a.index, cst(0)));
        if (z !== false) put(first, s);
        if (z !== true) { put(rest, s); put(rest, sep); }
        const n = count(a.over, st);
        if (n !== null) c.expect(n >= 1, decl, 'the host’s identifier is empty');
        continue;
      }
      const it = a.k === 'o' && (st.heap.get(a.id + '#items')?.list ?? null);
      if (it && !it.length) continue; // no elements: its length is checked above
    }
    c.undecide('how the host’s identifier is made was not recognised');
    return;
  }
  if (!known) { c.undecide('how the host’s identifier is made was not recognised'); return; }
  const bad = [...first].find((s) => !/^[a-z][0-9a-z]*$/.test(s));
  c.expect(first.size && bad === undefined, decl, `the host’s identifier may start with ${JSON.stringify(bad ?? '')}, which is no lower-case letter`);
  const bad2 = [...rest].find((s) => !/^[0-9a-z]*$/.test(s));
  c.expect(bad2 === undefined, decl, `the host’s identifier may contain ${JSON.stringify(bad2 ?? '')}, which is no lower-case letter or digit`);
  c.expect(new Set([...rest, ...first]).size > 1, decl, 'the host’s identifier is not random');
}
function count(arr, st) {
  arr = st.canon(arr);
  while (arr.k === 'r' && arr.name === 'getRandomValues' && arr.args?.[0]) arr = st.canon(arr.args[0]);
  let made = null;
  for (let x = st.trace; x; x = x.prev) if (x.e.t === 'new' && x.e.obj === arr) made = x.e;
  const a = made?.args?.length ? st.canon(made.args[0]) : null;
  return a?.k === 'c' && typeof a.v === 'number' ? a.v : null;
}
/** Identifiers of components. */
function stable(c) {
  const h = hookPaths(c, 'useId', { havoc: () => true });
  const k = contextClass(c.P);
  let field = null;
  const slotTypes = new Set();
  for (const p of h.fresh) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const cs = p.events.filter((e) => e.t === 'call' && e.name === 'nextIdentifier');
    if (!c.expect(cs.length === 1, cs[1]?.node ?? h.fn, 'a component’s identifier is not one that the runtime handed out for it', p)) continue;
    c.expect(same(p, p.value, cs[0].res), h.fn, 'a component does not get the identifier that was handed out for it', p);
    const slot = can(p, p.push[0].args[0]);
    c.P.walk(h.fn, (x) => { if (ts.isObjectLiteralExpression(x)) for (const d of symbolsOf(c, x)) slotTypes.add(d); });
    const o = Object.entries(own(p, slot)).find(([, v]) => v === can(p, cs[0].res));
    if (c.expect(o, p.push[0].node, 'a component’s identifier is not kept', p)) field = o[0];
  }
  c.expect(field, h.fn, 'a component’s identifier is not kept');
  let n = 0;
  for (const p of h.reused) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    n++;
    const v = can(p, p.value);
    c.expect(!p.events.some((e) => e.t === 'call' && e.name === 'nextIdentifier'), h.fn, 'an identifier is handed out for a component that has one', p);
    c.expect(v.k === 'f' && v.name === field && (v.base.k === 'idx' || v.base.k === 'f') && !p.events.some((e) => e.t === 'write' && e.name === field), h.fn, 'a component’s identifier is another one than on its first render', p);
  }
  c.expect(n > 0, h.fn, 'a component’s identifier is not kept');
  // no one else writes to the slot
  if (field) for (const [d, fns] of c.engine().writers()) {
    if (!d.name || memberName(d.name, c.P) !== field || !ts.isPropertySignature(d)) continue;
    if (!slotTypes.has(d.parent)) continue;
    c.fail([...fns][0] ?? d, 'a component’s identifier is overwritten');
  }
}
/** Declarations of the type an object literal is made for. */
function symbolsOf(c, lit) {
  const t = c.P.checker.getContextualType(lit);
  if (!t) return [];
  const own = c.P.checker.getTypeAtLocation(lit), parts = t.isUnion?.() ? t.types : [t];
  return parts.filter((x) => c.P.checker.isTypeAssignableTo(own, x)).flatMap((x) => x.symbol?.declarations ?? []);
}
function own(p, obj) {
  const out = {};
  for (const [k, v] of p.st.heap) { const i = p.E.hinfo.get(k); if (i && !k.includes('#') && i.base === obj && i.key.k === 'c') out[i.key.v] = p.st.canon(v); }
  return out;
}
/** A transition is given a number of its own. */
function transitions(c) {
  const k = contextClass(c.P), fn = c.P.method(k, 'startTransition'), E = c.engine({ havoc: () => true });
  const [cb] = E.paramSyms(fn);
  let n = 0;
  for (const p of c.paths(E, fn, { cls: k })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    n++;
    const ns = p.events.filter((e) => e.t === 'call' && e.name === 'nextTransition'), us = p.events.filter((e) => e.t === 'call' && e.fn && same(p, e.fn, cb));
    if (!c.expect(us.length === 1 && !us[0].loops?.length, us[1]?.node ?? fn, 'the action of a transition is not called once', p)) continue;
    c.expect(ns.length >= 1 && us[0].args.length === 1 && ns.some((e) => same(p, e.res, us[0].args[0])), us[0].node, 'a transition is not given a number of its own', p);
    c.expect(same(p, p.value, us[0].res), fn, 'what the action of a transition returns is lost', p);
  }
  c.expect(n > 0, fn, 'transitions are not started');
}
export const rules = [
  { name: 'unique', text: 'what is handed out is one to one with a counter that is advanced before anything else runs', run: unique },
  { name: 'only-grow', text: 'the counters start at a number, belong to one runtime and never go back', run: onlyGrow },
  { name: 'host-identifier', text: 'the host’s identifier is fixed, starts with a lower-case letter and continues with lower-case letters and digits, for all random bytes', run: hostIdentifier },
  { name: 'stable', text: 'a component’s identifier is handed out once and kept in its slot', run: stable },
  { name: 'transitions', text: 'each transition is given a number of its own', run: transitions },
];
