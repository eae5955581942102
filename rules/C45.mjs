// C45: while derived state is edited, a draft reads as the edited object.
import { ts, T, cst, UNDEF, N, covers } from './_lib.mjs';
import { can, same, bit, zeroP, decideZero, derivable, flags0, reading, drafters, isRevocable, trapFns, targets, belongs, makers } from './C20.mjs';

export const about = 'From the functions that make, assign and delete properties of derived state, the states a property can be in are derived as sets of flags that are known to be set or clear: there from the beginning, missing, assigned, deleted, and assigned again. Every path of the traps that read a draft (get, has, ownKeys, getOwnPropertyDescriptor) is then judged for every one of these states that its branches allow.';
export const assumptions = ['Proxies call their traps, and Reflect functions behave, as specified.', 'Properties that are assigned although the original inherits them, and accessors, are only judged by `get`.'];

const WORDS = { there: 'a property', assigned: 'a property that has been assigned', deleted: 'a deleted property', missing: 'a property that does not exist', added: 'a property that has been added', removed: 'an added property that has been deleted', again: 'a deleted property that has been assigned again', readded: 'an added property that has been deleted and assigned again' };

/** What an operation does to each flag: sets it, clears it, keeps it. */
function transfer(c, fn, R) {
  const E = c.engine({}), thisT = E.thisSym(R.k), out = new Array(32).fill(null);
  let n = 0;
  for (const p of c.paths(E, fn, { cls: R.k })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    n++;
    const before = flags0(R, thisT), after = can(p, c.get(p, thisT, R.flagsF)), diff = T.bitop('^', after, before);
    for (let i = 0; i < 32; i++) {
      const d = decideZero(p, T.bitop('&', after, bit(i)));
      const x = decideZero(p, T.bitop('&', diff, bit(i))) === true ? 'k' : d === false ? '1' : d === true ? '0' : '?';
      // a flag that is kept may be known as well, from a branch
      out[i] = out[i] === null || out[i] === x ? x : out[i] === 'k' || x === 'k' ? (out[i] === 'k' ? x : out[i]) + 'k' : '?';
    }
  }
  return n ? out : null;
}
const apply = (s, t) => {
  let one = 0, zero = 0;
  t.forEach((x, i) => {
    const b = 1 << i, w = s.one & b ? 1 : s.zero & b ? 0 : null;
    if (x === '1' || (x === 'k' && w === 1) || (x === '1k' && w === 1)) one |= b;
    if (x === '0' || (x === 'k' && w === 0) || (x === '0k' && w === 0)) zero |= b;
  });
  return { one, zero };
};
/** The states of a property. */
function states(c) {
  if (c._c45) return c._c45;
  const R = derivable(c), r = reading(c);
  const set = transfer(c, R.set, R), del = transfer(c, R.del, R);
  if (!set || !del) return (c._c45 = null);
  const free = r.A | r.Pn;
  const made = { there: [], missing: [] };
  let enumerable = ~0, enumKnown = false; // the flag that tells enumerable properties
  for (const m of makers(c)) {
    const E = c.engine({ opaque: (f) => drafters(c).has(f) });
    for (const p of c.paths(E, m, ts.isClassLike(m.parent) ? { cls: m.parent } : {})) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      for (const e of p.events.filter((x) => x.t === 'new' && x.cls === R.k && same(p, x.obj, p.value))) {
        const F = can(p, c.get(p, e.obj, R.flagsF)), src = can(p, c.get(p, e.obj, R.sourceF));
        const mk = p.events.find((x) => x.t === 'new' && same(p, x.obj, src));
        const kind = mk && mk.args.length && can(p, mk.args[0]) === UNDEF && F.k === 'c' ? 'missing' : 'there';
        let one = 0, zero = 0;
        for (let i = 0; i < 32; i++) { const d = decideZero(p, T.bitop('&', F, bit(i))); if (d === false) one |= 1 << i; else if (d === true) zero |= 1 << i; }
        made[kind].push({ one, zero, node: e.node });
        const b = kind === 'there' && p.events.find((y) => y.t === 'branch' && T.contains(y.pred, (t) => t.k === 'f' && t.name === 'enumerable'));
        const d = b && [b.pred, ...(b.pred.args ?? [])].find((t) => t.k === 'f' && t.name === 'enumerable'), v = d ? p.st.decide(p.st.pTruthy(d)) : undefined;
        if (v === true) { enumerable &= one; enumKnown = true; } else if (v === false) enumerable &= zero;
      }
    }
  }
  const join = (l) => l.length ? { one: l.reduce((a, x) => a & x.one, ~0), zero: l.reduce((a, x) => a & x.zero, ~0) } : null;
  const S = { there: join(made.there), missing: join(made.missing) };
  if (!S.there || !S.missing) return (c._c45 = { S: null, made });
  S.assigned = apply(S.there, set); S.deleted = apply(S.there, del); S.again = apply(S.deleted, set);
  S.added = apply(S.missing, set); S.removed = apply(S.added, del); S.readded = apply(S.removed, set);
  const reDel = apply(S.assigned, del), mDel = apply(S.missing, del);
  S.deleted = join([S.deleted, reDel]); S.removed = join([S.removed, mDel]);
  for (const s of Object.values(S)) { s.one &= ~free; s.zero &= ~free; }
  return (c._c45 = { S, R, r, enumerable: enumKnown && enumerable !== 0 && (enumerable & (enumerable - 1)) === 0 ? enumerable : 0 });
}
/** The path for a property in a state, or null if its branches rule it out. */
function under(q, R, prop, s) {
  const st = q.st.clone(), F = T.field(prop, R.flagsF, 0);
  for (let i = 0; i < 32; i++) {
    const b = 1 << i;
    if (!((s.one | s.zero) & b)) continue;
    const pr = T.bitop('&', F, bit(i));
    if (pr.k === 'c') continue;
    const d = st.decide(zeroP(pr)), want = !!(s.zero & b);
    if (d === !want) return null;
    if (d === undefined || d === null) st.assume(zeroP(pr), want);
    if (st.infeasible()) return null;
  }
  return { ...q, st };
}
/** The property a trap looks up, on this path. */
function propsOf(c, R, q, key) {
  const out = new Map();
  for (const e of q.own) {
    if (e.t !== 'call' || !e.res) continue;
    const v = q.st.canon(e.res);
    if (v.k !== 'r' || q.st.decide(q.st.pMask(v, 1 | N)) === true) continue;
    const made = !!e.target && makers(c).has(e.target);
    const typed = made || (e.name === 'get' && e.recv && q.st.canon(e.recv).k === 'f' && q.st.canon(e.recv).name === R.propsF) || (e.args.length >= 3 && e.args.some((a) => q.st.canon(a) === q.st.canon(key)) && !e.builtin && !e.pure);
    if (typed && belongs(c, R, q, v, q.st.canon(key))) out.set(v, made);
  }
  return [...out];
}
/** Branches that say the key is a certain one, say that of the library itself. */
const special = (q, key) => q.st.canon(key) !== key || q.own.some((b) => b.t === 'branch' && b.val === true && b.pred.k === 'op' && (b.pred.args ?? []).length === 2 && b.pred.args.some((a) => a === key) && ['eq', 'is', '==='].includes(b.pred.op)) || q.own.some((b) => b.t === 'branch' && b.val === true && (b.pred.a === key || b.pred.b === key));

function drive(c, names, judge) {
  const R = derivable(c), x = states(c);
  if (!x?.S) { if (!c.undecided.length) { if (x && !x.made.missing.length) c.undecide('how missing properties are made was not recognised'); else c.undecide('the states of properties were not recognised'); } return; }
  x.cache ??= new Map();
  x.roles ??= [targets(c, R.set, R), targets(c, R.del, R), targets(c, R.get, R)];
  const [setter, deleter, reader] = x.roles;
  let seen = 0;
  for (const fn of drafters(c)) {
    const E = c.engine({ opaque: (f) => setter.has(f) || deleter.has(f) || reader.has(f) || drafters(c).has(f) || makers(c).has(f) });
    if (!x.cache.has(fn)) x.cache.set(fn, c.paths(E, fn, {}).filter((y) => y.kind === 'return' && !y.st.infeasible()));
    for (const p of x.cache.get(fn)) {
      const rv = p.events.find(isRevocable);
      if (!rv) continue;
      const handler = can(p, rv.args[1]), fs = trapFns(c, p, handler);
      for (const name of names) {
        const f = fs[name];
        if (!c.expect(f, rv.node, `a draft reads as the original: ${name}`, p)) continue;
        if (f.k !== 'fn') { c.undecide('a trap was not recognised'); continue; }
        const target = T.sym('target'), key = T.sym('key');
        for (const q of c.callPaths(p, f, name === 'ownKeys' ? [target] : name === 'get' ? [target, key, T.sym('draft')] : [target, key], handler)) {
          if (q.st.infeasible() || q.kind !== 'return') continue;
          seen++;
          judge({ c, R, S: x.S, enumerable: x.enumerable, p, q, f, target, key, reader, name });
        }
      }
    }
  }
  if (!c.undecided.length) c.expect(seen > 0, R.k, 'drafts cannot be read');
}
/** Every state of the property on this path. */
function each(j, then) {
  const { c, R, S, q, key } = j;
  for (const [prop, made] of propsOf(c, R, q, key)) for (const [name, s] of Object.entries(S)) {
    if (made && name !== 'there' && name !== 'missing') continue;
    const u = under(q, R, prop, s);
    if (u) then(prop, name, u);
  }
}
const isThere = (n) => n === 'there' || n === 'assigned' || n === 'again';
const isAdded = (n) => n === 'added' || n === 'readded';
/** The property is known not to have been looked at yet. */
function untouched(j) {
  const { q, R } = j, none = (t) => q.st.decide(q.st.pMask(t, 1 | N)) === true;
  let y = false;
  for (const e of q.own) {
    if (e.t === 'branch') T.contains(e.pred, (t) => { if (t.k === 'f' && t.name === R.propsF && none(t)) y = true; return false; });
    if (e.t === 'call' && e.res && ['get', 'has'].includes(e.name) && e.recv && q.st.canon(e.recv).k === 'f' && q.st.canon(e.recv).name === R.propsF && (none(q.st.canon(e.res)) || q.st.decide(q.st.pTruthy(q.st.canon(e.res))) === false)) y = true;
  }
  return y;
}
/** The present value of a property, read or as a draft of it. */
function present(j, u, prop, v) {
  v = u.st.canon(v ?? UNDEF);
  if (v.k === 'f' && v.name === 'value' && u.st.canon(v.base) === u.st.canon(prop)) return true;
  const from = j.q.own.find((e) => e.t === 'call' && e.res && u.st.canon(e.res) === v);
  if (from && (from.target ? j.reader.has(from.target) : from.name === 'value') && [from.args[0], from.recv].some((a) => a && u.st.canon(a) === u.st.canon(prop))) return true;
  // the proxy of a draft of the property itself, on what it holds
  if (v.k === 'f' && v.name === 'proxy') {
    const d = j.q.own.find((e) => e.t === 'call' && e.res && u.st.canon(e.res) === u.st.canon(v.base) && e.target && drafters(j.c).has(e.target));
    return !!d && d.args.some((a) => u.st.canon(a) === u.st.canon(prop)) && d.args.some((a) => { a = u.st.canon(a); return a === u.st.canon(T.field(T.field(prop, j.R.sourceF, 0), 'value', 0)) || (a !== u.st.canon(prop) && a !== j.target && present(j, u, prop, a)); });
  }
  return false;
}
const says = (j, n, what) => `${WORDS[n]} ${what}`;

function get(c) {
  drive(c, ['get'], (j) => {
    const { q } = j;
    if (special(q, j.key)) return;
    each(j, (prop, n, u) => {
      const v = u.st.canon(q.value ?? UNDEF), gone = v === UNDEF;
      if (isThere(n) || isAdded(n)) c.expect(present(j, u, prop, v), j.f.node, says(j, n, 'does not read as its present value'), q);
      // an object that can be edited is given as a draft: edits of the object itself go unnoticed
      if ((isThere(n) || isAdded(n)) && j.enumerable && !gone && !(v.k === 'f' && v.name === 'proxy')) {
        const F = T.field(prop, j.R.flagsF, 0), off = decideZero(u, T.bitop('&', F, cst(j.enumerable))) === true;
        const src = T.field(T.field(prop, j.R.sourceF, 0), 'value', 0), plain = [v, src].some((t) => u.st.decide(u.st.pMask(t, 128 | 256)) === false);
        c.expect(off || plain, j.f.node, says(j, n, 'may be given as the object itself rather than as a draft'), q);
      }
      if (n === 'missing') c.expect(gone || present(j, u, prop, v), j.f.node, says(j, n, 'reads as something'), q);
      else if (!isThere(n) && !isAdded(n)) c.expect(gone, j.f.node, says(j, n, 'is still read'), q);
    });
  });
}
function has(c) {
  drive(c, ['has'], (j) => {
    const { q, target, key } = j;
    if (special(q, key)) return;
    const asks = (t) => (t.k === 'r' && t.name === 'has' && t.args?.length === 2 && q.st.canon(t.args[0]) === target && q.st.canon(t.args[1]) === key) || (t.k === 'op' && ['in', 'hasprop'].includes(t.op) && t.args.some((a) => q.st.canon(a) === target) && t.args.some((a) => q.st.canon(a) === key));
    const ps = propsOf(c, j.R, q, key);
    const v0 = q.st.canon(q.value ?? UNDEF);
    if (!ps.length) {
      const wrong = v0.k === 'r' && ['hasOwn', 'hasOwnProperty'].includes(v0.name) && [v0.recv, ...(v0.args ?? [])].some((t) => t && q.st.canon(t) === target);
      if (v0.k === 'c' || wrong || asks(v0)) { c.expect(asks(v0), j.f.node, 'whether a draft has a property that was not touched is not what the original says', q); c.expect(!asks(v0) || untouched(j), j.f.node, 'whether a draft has a property does not depend on its changes', q); }
      return;
    }
    each(j, (prop, n, u) => {
      let v = u.st.canon(q.value ?? UNDEF);
      while (v.k === 'op' && ['not', '!'].includes(v.op) && v.args[0].k === 'op' && ['not', '!'].includes(v.args[0].op)) v = v.args[0].args[0];
      const orig = asks(v) , d = orig ? null : u.st.decide(u.st.pTruthy(v));
      const said = !orig && q.own.some((e) => e.t === 'branch' && T.contains(e.pred, (t) => asks(t)));
      if (!orig && d !== true && d !== false) { c.undecide('what `in` says was not recognised'); return; }
      if (said) { const w = q.own.find((e) => e.t === 'branch' && T.contains(e.pred, (t) => asks(t))); if (asks(w.pred) && w.val === d) { if (isThere(n) || n === 'missing' || n === 'removed') return; } if (n === 'missing' || isAdded(n) || n === 'removed') { if (asks(w.pred) && w.val === true) return; } else if (asks(w.pred) && w.val === false) return; }
      if (isAdded(n)) c.expect(!orig && d === true, j.f.node, says(j, n, 'is not found'), q);
      else if (isThere(n)) c.expect(orig || d === true, j.f.node, says(j, n, 'is not found'), q);
      else if (n === 'deleted') c.expect(!orig && d === false, j.f.node, says(j, n, 'is still found'), q);
      else c.expect(orig || d === false, j.f.node, says(j, n, 'is found'), q);
    });
  });
}
function accessorKnown(q, D) {
  const has = (n) => q.st.decide(T.op('hasprop', cst(n), D)), kept = (n) => q.st.decide(q.st.pMask(T.field(D, n, 0), 1));
  if (has('value') === false || has('writable') === false || has('get') === true || has('set') === true || kept('get') === false || kept('set') === false) return true;
  return q.own.some((b) => b.t === 'branch' && T.contains(b.pred, (t) => t.k === 'r' && ['hasOwn', 'hasOwnProperty'].includes(t.name) && (t.args ?? []).some((x) => x.k === 'c' && x.v === 'value')) && b.val === false)
    || ['get', 'set'].some((n) => q.st.decide(q.st.pTruthy(T.field(D, n, 0))) === true);
}
function describe(c) {
  drive(c, ['getOwnPropertyDescriptor'], (j) => {
    const { q, target, key } = j;
    if (special(q, key)) return;
    const asks = (t) => t.k === 'r' && t.name === 'getOwnPropertyDescriptor' && t.args?.length === 2 && q.st.canon(t.args[0]) === target && q.st.canon(t.args[1]) === key;
    const v = q.st.canon(q.value ?? UNDEF), D = q.own.map((e) => (e.t === 'call' && e.res ? e.res : null)).find((t) => t && asks(t));
    const none = (t, st) => t === UNDEF || st.decide(st.pMask(t, 1)) === true;
    // the original has an accessor: it has no value
    const aboutKind = !!D && accessorKnown(q, D);
    const exists = D ? q.st.decide(q.st.pMask(D, 1)) : undefined; // true: the original has none of its own
    if (!propsOf(c, j.R, q, key).length) { c.undecide('how a property is described was not recognised'); return; }
    each(j, (prop, n, u) => {
      // the original has no property of its own under the key if it is missing
      if (!isThere(n) && n !== 'deleted' && exists === false) return;
      const orig = !!D && u.st.canon(D) === v;
      if (n === 'deleted') { c.expect(none(v, u.st), j.f.node, says(j, n, 'is still described'), q); return; }
      if (n === 'missing' || n === 'removed') { c.expect(none(v, u.st) || orig, j.f.node, says(j, n, 'is described'), q); return; }
      const val = v.k === 'o' ? c.get(u, v, 'value') : null;
      if (isAdded(n)) {
        if (!c.expect(v.k === 'o' && present(j, u, prop, val), j.f.node, says(j, n, 'is not described with its present value'), q)) return;
        for (const a of ['writable', 'enumerable', 'configurable']) { const w = u.st.canon(c.get(u, v, a) ?? UNDEF); if (w.k === 'c') c.expect(w.v === true, j.f.node, says(j, n, `is not ${a}`), q); }
        return;
      }
      if (exists === true) { c.obligations++; return; } // inherited
      if (none(v, u.st)) { c.expect(exists === true, j.f.node, says(j, n, 'is not described'), q); return; }
      if (orig) { c.expect(aboutKind || present(j, u, prop, c.get(u, v, 'value')), j.f.node, says(j, n, 'is described with the value of the original'), q); return; }
      if (v.k !== 'o') { c.undecide('how a property is described was not recognised'); return; }
      if (aboutKind && !present(j, u, prop, val) && T.contains(u.st.canon(val ?? UNDEF), (t) => t.k === 'f' && D && t.base === D)) { c.obligations++; return; }
      c.expect(present(j, u, prop, val), j.f.node, says(j, n, 'is not described with its present value'), q);
      for (const a of ['writable', 'enumerable', 'configurable']) { const w = u.st.canon(c.get(u, v, a) ?? UNDEF); if (w.k === 'c') c.expect(false, j.f.node, says(j, n, `is said to be ${w.v ? '' : 'not '}${a} whatever the original says`), q); }
    });
  });
}
function list(c) {
  drive(c, ['ownKeys'], (j) => {
    const { R, S, q, target } = j;
    const base = q.own.filter((e) => e.t === 'call' && e.res && e.name === 'ownKeys' && q.st.canon(e.args[0]) === target).map((e) => q.st.canon(e.res));
    const of = (t) => { t = q.st.canon(t ?? UNDEF); while (t.k === 'o' && t.kind === 'copy') t = q.st.canon(t.of); return t; };
    const madeFrom = (o) => { const n = q.own.find((e) => e.t === 'new' && q.st.canon(e.obj) === o); return n && n.args[0] ? of(n.args[0]) : null; };
    let V = of(q.value);
    if (V.k === 'r' && V.name === 'from' && V.args?.[0]) V = of(V.args[0]);
    const isBase = base.includes(V), isSet = V.k === 'o' && base.includes(madeFrom(V));
    if (!isBase && !isSet) { c.undecide('which keys are listed was not recognised'); return; }
    const loops = q.own.filter((e) => e.t === 'loop').map((e) => e.loop), ended = (L) => q.own.some((e) => e.t === 'loopend' && e.loop === L && e.how === 'full');
    const ranOver = (M, ts, zero) => (M.over ? ts.includes(of(M.over)) : ts.some((t) => covers(M, t, q, { zero })));
    const zero = (ts) => q.own.some((e) => e.t === 'loopzero' && ranOver(e.loop, ts, true));
    for (const L of loops) {
      // the properties
      const map = mapOf(q, R, L.over);
      if (!map) continue;
      if (!c.expect(ended(L), L.node ?? j.f.node, 'not every property is looked at when keys are listed', q)) continue;
      const E = q.st.canon(L.over), isEntries = E.k === 'r' ? E.name : null;
      const props = new Set();
      for (const b of q.own) if (b.t === 'branch' || b.t === 'call') T.contains(b.t === 'branch' ? b.pred : T.sym('none'), (t) => { if (t.k === 'f' && t.name === R.flagsF && T.contains(t.base, (y) => y.k === 'idx' && q.st.canon(y.arr) === E)) props.add(t.base); return false; });
      if (!props.size) { c.undecide('how keys are listed was not recognised'); continue; }
      const isKey = (t, prop) => { t = q.st.canon(t); return (t.k === 'f' && t.name === R.keyF && t.base === prop) || (t.k === 'idx' && t.arr?.k === 'idx' && q.st.canon(t.arr.arr) === E && q.st.canon(t.i) === cst(0)) || (t.k === 'idx' && q.st.canon(t.arr) === E && isEntries === 'keys'); };
      for (const prop of props) {
        let bad = false, effect = 'none';
        const act = (e, kind) => { if (of(e.recv) === V) effect = kind; };
        for (const e of q.own.filter((y) => y.t === 'call' && y.loops?.includes(L) && y.args?.some((a) => isKey(a, prop)))) {
          if (e.name === 'delete' || e.name === 'add') act(e, e.name);
          else if (e.name === 'push') {
            const l = of(e.recv), l0 = q.st.canon(e.recv);
            const len = e.res && q.st.decide(q.st.pLe(q.st.canon(e.res), cst(0)));
            if (len === true || zero([l, l0])) { bad = true; break; } // it is not empty
            for (const M of loops) if (M !== L && ranOver(M, [l, l0], false) && ended(M)) for (const f of q.own.filter((y) => y.t === 'call' && y.loops?.includes(M) && ['add', 'delete'].includes(y.name) && y.args.some((a) => { a = q.st.canon(a); return a.k === 'idx' && [l, l0].includes(of(a.arr)); }))) act(f, f.name);
          }
        }
        if (bad) continue;
        for (const [n, s] of Object.entries(S)) {
          const u = under(q, R, prop, s);
          if (!u) continue;
          if (isAdded(n)) c.expect(effect === 'add', j.f.node, says(j, n, 'is not listed'), q);
          else if (isThere(n)) { c.expect(effect !== 'delete', j.f.node, says(j, n, 'is not listed'), q); if (n === 'there') c.expect(effect !== 'add', j.f.node, 'a property that was only read is listed', q); }
          else if (n === 'deleted') c.expect(effect === 'delete', j.f.node, says(j, n, 'is still listed'), q);
          else c.expect(effect !== 'add', j.f.node, says(j, n, 'is listed'), q);
        }
      }
    }
  });
}
/** Whether something is looped over that stands for the properties of a receiver. */
function mapOf(q, R, over) {
  over = q.st.canon(over ?? UNDEF);
  while (over.k === 'o' && over.kind === 'copy') over = q.st.canon(over.of);
  if (over.k === 'r' && ['entries', 'values', 'keys'].includes(over.name) && over.recv) over = q.st.canon(over.recv);
  return over.k === 'f' && over.name === R.propsF ? over : null;
}
export const rules = [
  { name: 'get', text: 'a property reads as its present value, and as undefined once it is deleted', run: get },
  { name: 'has', text: '`in` finds what is there or has been added, and nothing that is deleted or was only read', run: has },
  { name: 'listed', text: 'the keys are those of the original without the deleted and with the added ones', run: list },
  { name: 'described', text: 'the descriptor of a property gives its present value, and there is none for a deleted or missing one', run: describe },
];
