// C12: list reconciliation accounts for every old and new child.
import { ts, T, cst, UNDEF, fld, calls, writes, idxOf, AnchorError, U } from './_lib.mjs';
import { runtime } from './C11.mjs';

export const about = 'The loops of the reconciliation are cut into segments between points where the bounds of the old and the new range are known; in every segment the positions that leave a range are balanced against the children rendered or diffed, the changes recorded and the children stored.';
export const assumptions = ['Sibling keys are unique (duplicates are reconciled in an unspecified but complete way).'];

/** Numeric values of an enum of the repository. */
export function enumValues(c, name) {
  const out = {};
  for (const f of c.P.files ?? []) f.forEachChild((n) => { if (ts.isEnumDeclaration(n) && n.name.text === name) for (const m of n.members) out[m.name.getText()] = c.P.checker.getConstantValue(m); });
  if (!Object.keys(out).length) throw new AnchorError(`enum ${name} not found`);
  return out;
}
function info(c) {
  if (c._c12) return c._c12;
  const { cls, diff, render, lists } = runtime(c);
  const P = c.P;
  // the list function that diff calls with the elements of a fragment
  let fn = null;
  const dE = c.engine({ opaque: (f) => f === render || lists.includes(f) });
  const [, el] = dE.paramSyms(diff);
  let at = null;
  for (const p of c.paths(dE, diff, { cls })) for (const e of calls(p, (x) => lists.includes(x.target))) { fn ??= e.target; at ??= e.args.findIndex((a) => c.same(p, a, fld(el, 'children'))); var par = e.args.findIndex((a) => p.st.canon(a).k === 'o'); }
  if (!fn) return (c._c12 = null);
  const M = enumValues(c, 'MutationType');
  const E = c.engine({ opaque: (f) => f === diff || f === render, cuts: 'always' });
  const syms = E.paramSyms(fn);
  const elements = syms[at], parent = syms[par];
  const ps = c.paths(E, fn, { cls }).filter((p) => !p.st.infeasible());
  return (c._c12 = { fn, cls, diff, render, E, ps, elements, parent, syms, M });
}
const isMap = (e) => /^(Collection|Map)\./.test(e.decl ?? '');
const sub = (x, y) => T.linSum(x, y, -1);
const nameOf = (k) => String(k).split(':').at(-1);
/** The cells a loop or its end carries, by variable name. */
const named = (m) => new Map([...(m ?? [])].map(([k, x]) => [nameOf(k), x]));
/** Segments of a path: events between points where all bounds are known. */
function segments(p, keys) {
  const segs = [];
  let evs = [];
  // a variable no loop changes keeps its value
  const last = named(p.st.cells), val = new Map();
  const carriedAnywhere = new Set(p.events.flatMap((e) => (e.t === 'loop' ? [...(e.loop.carried ?? [])].filter(([, x]) => x.cell).map(([k]) => nameOf(k)) : [])));
  for (const k of keys) if (!carriedAnywhere.has(k) && last.has(k)) val.set(k, p.st.canon(last.get(k)));
  const close = (next, node, e) => { if (keys.every((k) => val.has(k) && next.has(k))) segs.push({ from: new Map(val), to: next, evs, node, end: e }); evs = []; };
  for (const e of p.events) {
    const car = e.t === 'loop' ? named(e.loop.carried) : null, nx = e.t === 'loopend' ? named(e.next) : null;
    if (car && keys.some((k) => car.get(k)?.cell)) {
      const next = new Map(val);
      for (const k of keys) { const x = car.get(k); if (x?.cell) next.set(k, p.st.canon(x.init)); }
      close(next, e.node, e);
      for (const [k, v] of next) val.set(k, v);
      for (const k of keys) { const x = car.get(k); if (x?.cell) val.set(k, x.hv); }
    } else if (nx && keys.some((k) => nx.has(k))) {
      const next = new Map(val);
      for (const k of keys) if (nx.has(k)) next.set(k, p.st.canon(nx.get(k)));
      close(next, e.node, e);
      for (const [k, v] of next) val.set(k, v);
    } else evs.push(e);
  }
  // bounds that no loop on this path changed
  for (const k of keys) if (!val.has(k) && last.has(k)) val.set(k, p.st.canon(last.get(k)));
  return { segs, val, rest: evs };
}
/** Bounds of the ranges of old and new children among the carried cells. */
function ranges(c, I) {
  if (I.R !== undefined) return I.R;
  const cells = new Map();
  for (const p of I.ps) for (const e of p.events) if (e.t === 'loop') for (const [k, x] of named(e.loop.carried)) if (x.cell) { if (!cells.has(k)) cells.set(k, { key: k, inits: [], hvs: new Set(), p }); const r = cells.get(k); r.hvs.add(x.hv); if (x.init && !r.inits.includes(x.init)) r.inits.push(x.init); }
  const oldList = fld(I.parent, 'right');
  const isIdx = new Map();
  const look = (t) => T.contains(t, (x) => { if (x.k === 'idx') { const arr = x.arr === I.elements ? 'new' : x.arr === oldList ? 'old' : null; if (arr) for (const r of cells.values()) for (const h of r.hvs) if (T.contains(x.i, (y) => y === h)) isIdx.set(r.key, arr); } return false; });
  for (const p of I.ps) for (const e of p.events) { if (e.t === 'branch' && e.pred) look(e.pred); if (e.t === 'call') e.args.forEach((a) => a && look(a)); }
  const out = { old: {}, new: {} };
  for (const r of cells.values()) {
    for (const [side, arr] of [['new', I.elements], ['old', oldList]]) {
      if (isIdx.get(r.key) !== side) continue;
      const len = fld(arr, 'length');
      for (const init of r.inits) {
        const d = sub(init, len);
        if (init === cst(0) && !out[side].head) { out[side].head = r; break; } else if (d === cst(-1) || d === cst(0)) { out[side].tail ??= r; out[side].excl ??= d === cst(-1) ? 0 : 1; break; }
      }
    }
  }
  const ok = out.old.head && out.old.tail && out.new.head && out.new.tail;
  I.R = ok ? out : null;
  if (!ok) c.undecide('the ranges of old and new children that are still to be reconciled were not recognised');
  return I.R;
}
/** Positions that left a range in a segment, or null when it moved irregularly. */
function consumed(seg, r) {
  const out = [];
  const h0 = seg.from.get(r.head.key), h1 = seg.to.get(r.head.key), t0 = seg.from.get(r.tail.key), t1 = seg.to.get(r.tail.key);
  const dh = sub(h1, h0), dt = sub(t0, t1);
  if (dh.k !== 'c' || dt.k !== 'c' || dh.v < 0 || dt.v < 0 || dh.v > 4 || dt.v > 4) return null;
  for (let i = 0; i < dh.v; i++) out.push({ i: T.linSum(h0, cst(i), 1), at: 'head' });
  for (let i = 0; i < dt.v; i++) out.push({ i: T.linSum(t0, cst(i + (r.excl ? 1 : 0)), -1), at: 'tail' });
  return out;
}
/** Could the two terms be equal, given the branches taken? */
function mayEqual(p, a, b) {
  if (a === b) return true;
  if (p.st.decide(p.st.pEq(a, b)) === false) return false;
  const s = p.st.clone();
  if (!s.assume(s.pEq(a, b), true)) return false;
  // replay with one written for the other
  const f = a.k === 'hv' ? [a, b] : b.k === 'hv' ? [b, a] : null;
  if (!f) return true;
  const facts = new Map();
  for (const e of p.events) if (e.t === 'branch' && e.pred) {
    const q = T.subst(e.pred, f[0], f[1]);
    if (q === T.op('true') || q === T.TRUE) continue;
    const had = facts.get(q.id);
    if (had !== undefined && had !== e.val) return false;
    facts.set(q.id, e.val);
    if (q.k === 'op' && q.op === 'is') { const rev = T.op('is', q.args[1], q.args[0]); const h2 = facts.get(rev.id); if (h2 !== undefined && h2 !== e.val) return false; facts.set(rev.id, e.val); }
  }
  return true;
}
/** What the keys of a map looked up on a path were taken from: 'old' | 'new' with the range, or null. */
function mapSource(c, I, p, m, depth = 0) {
  m = p.st.canon(m);
  if (m.k === 'hv') {
    const x = [...(m.loop.carried?.values() ?? [])].find((y) => y.hv === m);
    const srcs = [];
    for (const q of I.ps) for (const e of q.events) if (e.t === 'loopend' && e.loop === m.loop && e.next) for (const [k, v] of e.next) if (m.loop.carried.get(k) === x && v !== m && v !== UNDEF && v !== T.NULL && depth < 3) srcs.push(mapSource(c, I, q, v, depth + 1));
    if (x && x.init && x.init.k !== 'c') srcs.push(mapSource(c, I, p, x.init, depth + 1));
    if (!srcs.length || srcs.some((s) => !s || s.side !== srcs[0].side)) return null;
    return srcs[0];
  }
  const sets = p.events.filter((e) => e.t === 'call' && isMap(e) && e.name === 'set' && p.st.canon(e.recv) === m);
  if (!sets.length) { const z = p.events.find((e) => e.t === 'loopzero'); return m.k === 'o' && z ? { side: 'empty' } : null; }
  if (sets.length !== 1) return null;
  const [k, i] = sets[0].args.map((a) => p.st.canon(a));
  const loop = sets[0].loops.at(-1);
  if (k.k !== 'f' || k.name !== 'key' || k.base.k !== 'idx' || k.base.i !== i) return { side: 'wrong', node: sets[0].node };
  const side = k.base.arr === I.elements ? 'new' : k.base.arr === p.st.canon(fld(I.parent, 'right')) ? 'old' : null;
  return side ? { side, loop, i, node: sets[0].node, at: idxOf(p, sets[0]) } : null;
}
/** The segments of all paths with what happens in them. */
function accounts(c) {
  const I = info(c);
  if (!I) { c.undecide('the reconciliation of lists is not a function of its own'); return []; }
  const R = ranges(c, I);
  if (!R) return [];
  if (I.acc) return I.acc;
  const keys = [R.old.head.key, R.old.tail.key, R.new.head.key, R.new.tail.key];
  I.acc = [];
  for (const p of I.ps) {
    const { segs, val, rest } = segments(p, keys);
    const oldList = p.st.canon(fld(I.parent, 'right'));
    const isOld = (t) => { t = p.st.canon(t); return t.k === 'idx' && t.arr === oldList ? t.i : null; };
    segs.forEach((seg) => {
      const a = { p, seg, isOld };
      a.made = seg.evs.filter((e) => e.t === 'call' && (e.target === I.diff || e.target === I.render)).map((e) => {
        const args = e.args.map((x) => p.st.canon(x));
        const isDiff = e.target === I.diff;
        const [elm, , pos, par] = isDiff ? [args[1], args[2], args[3], args[4]] : [args[0], args[1], args[2], args[3]];
        return { e, isDiff, old: isDiff ? args[0] : null, elm, pos, par, scope: isDiff ? args[2] : args[1], part: isDiff ? null : args[4] };
      });
      a.recs = seg.evs.filter((e) => e.t === 'call' && e.builtin && e.name === 'push').flatMap((e) => e.args.map((x) => ({ e, o: p.st.canon(x) }))).filter((x) => x.o.k === 'o' && c.get(p, x.o, 'type').k === 'c').map((x) => ({ ...x, type: c.get(p, x.o, 'type').v, node: c.get(p, x.o, 'node'), oldNode: c.get(p, x.o, 'oldNode'), newNode: c.get(p, x.o, 'newNode'), index: c.get(p, x.o, 'index') }));
      a.stores = seg.evs.filter((e) => e.t === 'write' && e.key && c.same(p, e.base, fld(I.parent, 'left')));
      a.taken = seg.evs.filter((e) => e.t === 'write' && e.key && p.st.canon(e.value) === UNDEF && p.st.canon(e.base).k === 'o' && p.st.canon(p.st.canon(e.base).of ?? UNDEF) === oldList);
      a.newPos = consumed(seg, R.new);
      a.oldPos = consumed(seg, R.old);
      I.acc.push(a);
    });
    p._rest = rest; p._val = val; p._loose = p.events.filter((e) => e.t === 'call' && (e.target === I.diff || e.target === I.render)).length - segs.reduce((n, g) => n + g.evs.filter((e) => e.t === 'call' && (e.target === I.diff || e.target === I.render)).length, 0);
  }
  return I.acc;
}
/** Was it tested on the path that the entry is not a hole? (its declared type does not tell) */
function tested(p, t) {
  if (p.st.decide(p.st.pMask(t, U)) !== false) return false;
  return p.events.some((e) => {
    if (e.t !== 'branch' || !e.pred) return false;
    let q = e.pred;
    while (q.k === 'op' && q.op === 'not') q = q.args[0];
    return q === t || (q.k === 'op' && q.args.some((x) => p.st.canon(x) === t));
  });
}
const INS = 'INSERT', UPD = 'UPDATE', MOV = 'UPDATE_AND_MOVE', REM = 'REMOVE';

export const rules = [
  {
    name: 'new-children',
    text: 'each position that leaves the range of new children gets exactly one child, rendered or diffed for its element, position and parent, and stored there',
    run(c) {
      const A = accounts(c), I = info(c);
      if (!A.length) return void c.expect(true, I?.fn, '');
      for (const p of I.ps) c.expect(!p._loose, I.fn, 'a child is made outside of the reconciliation of the ranges', p);
      for (const a of A) {
        const { p, seg } = a;
        if (!c.expect(a.newPos && a.oldPos, seg.node, 'the range of children still to be reconciled grows or jumps', p)) continue;
        c.expect(a.made.length === a.newPos.length, a.made.at(-1)?.e.node ?? seg.node, 'not every new position gets exactly one child', p);
        for (const { i } of a.newPos) {
          const m = a.made.filter((x) => x.pos === p.st.canon(i));
          if (!c.expect(m.length === 1, m[1]?.e.node ?? a.made[0]?.e.node ?? seg.node, 'a new position gets no child of its own', p)) continue;
          c.expect(m[0].elm.k === 'idx' && m[0].elm.arr === I.elements && m[0].elm.i === p.st.canon(i) && c.same(p, m[0].par, I.parent) && I.syms.includes(m[0].scope), m[0].e.node, 'a child is made from another element or for another parent than its position', p);
          const s = a.stores.filter((w) => c.same(p, w.value, m[0].e.res));
          c.expect(s.length === 1 && p.st.canon(s[0].key) === p.st.canon(i), s[0]?.node ?? m[0].e.node, 'a child is not stored at its own position', p);
          if (!m[0].isDiff) { const sp = seg.evs.filter((e) => e.t === 'call' && e.name === 'splitPart'); c.expect(sp.some((e) => c.same(p, e.res, m[0].part) && c.same(p, e.recv, fld(I.parent, 'part'))) && a.made.filter((y) => y.part === m[0].part).length === 1, m[0].e.node, 'an inserted child shares its part with another one', p); }
        }
        c.expect(a.stores.length === a.newPos.length, a.stores.at(-1)?.node ?? seg.node, 'more is stored among the new children than was made', p);
      }
    },
  },
  {
    name: 'changes',
    text: 'each rendered child is recorded once as inserted, each diffed one once as updated from the child it was diffed with at its own position, and nothing else is recorded but removals',
    run(c) {
      const A = accounts(c), I = info(c);
      if (!A.length) return void c.expect(true, I?.fn, '');
      const M = I.M;
      for (const a of A) {
        const { p, seg } = a;
        const left = new Set(a.recs);
        for (const m of a.made) {
          const r = a.recs.filter((x) => c.same(p, m.isDiff ? x.newNode : x.node, m.e.res) && (m.isDiff ? [M[UPD], M[MOV]].includes(x.type) : x.type === M[INS]));
          if (!c.expect(r.length === 1, r[1]?.e.node ?? m.e.node, 'a child that was made is not recorded exactly once', p)) continue;
          left.delete(r[0]);
          if (m.isDiff) c.expect(c.same(p, r[0].oldNode, m.old) && c.same(p, r[0].index, m.pos), r[0].e.node, 'a change does not carry its old child or its position', p);
        }
        for (const x of left) c.expect(x.type === M[REM], x.e.node, 'a change is recorded that belongs to no child', p);
      }
      // what is recorded is what is returned, on every path that returns
      for (const p of I.ps) {
        if (p.kind !== 'return') continue;
        const v = p.st.canon(p.value);
        for (const e of p.events) if (e.t === 'call' && e.builtin && e.name === 'push' && e.args.some((x) => p.st.canon(x).k === 'o' && c.get(p, p.st.canon(x), 'type').k === 'c')) c.expect(c.same(p, e.recv, v), e.node, 'a change is recorded in a list that is not returned', p);
      }
    },
  },
  {
    name: 'old-children',
    text: 'each position that leaves the range of old children, or is taken out of it, is used by exactly one diff or one removal unless it was taken before, and nothing else is used',
    run(c) {
      const A = accounts(c), I = info(c), M = I?.M;
      if (!A.length) return void c.expect(true, I?.fn, '');
      for (const a of A) {
        const { p, seg } = a;
        if (!a.oldPos || !a.newPos) continue;
        const uses = [...a.made.filter((m) => m.isDiff).map((m) => ({ t: m.old, node: m.e.node })), ...a.recs.filter((r) => r.type === M[REM]).map((r) => ({ t: r.node, node: r.e.node }))];
        const pos = [...a.oldPos.map((x) => ({ i: p.st.canon(x.i), node: seg.node, range: true })), ...a.taken.map((e) => ({ i: p.st.canon(e.key), node: e.node }))];
        for (const u of uses) {
          const i = a.isOld(u.t);
          if (!c.expect(i !== null, u.node, 'something else than an old child is reused or removed', p)) continue;
          const hit = pos.filter((x) => x.i === p.st.canon(i));
          c.expect(hit.length === 1, u.node, 'an old child is used but can be used again', p);
          c.expect(tested(p, T.idx(p.st.canon(fld(I.parent, 'right')), p.st.canon(i))), u.node, 'an old child that may have been taken before is used again', p);
          // inside the range that is left
          const h0 = seg.from.get(I.R.old.head.key), t0 = seg.from.get(I.R.old.tail.key);
          const below = I.R.old.excl ? p.st.pLt(p.st.canon(i), t0) : p.st.pLeq(p.st.canon(i), t0);
          c.expect(p.st.decide(p.st.pLeq(h0, p.st.canon(i))) === true && p.st.decide(below) === true, u.node, 'an old child outside of the range that is left is used', p);
        }
        for (const x of pos) {
          const n = uses.filter((u) => a.isOld(u.t) !== null && p.st.canon(a.isOld(u.t)) === x.i).length;
          const gone = p.st.decide(p.st.pMask(T.idx(p.st.canon(fld(I.parent, 'right')), x.i), U)) === true;
          c.expect(gone ? n === 0 : n === 1, x.node, gone ? 'an old child that was taken before is used again' : 'an old child is neither reused nor removed, or both', p);
        }
        for (let i = 0; i < pos.length; i++) for (let j = i + 1; j < pos.length; j++) c.expect(!mayEqual(p, pos[i].i, pos[j].i), pos[j].node, 'the same old child may be used twice', p);
        for (let i = 0; i < a.newPos.length; i++) for (let j = i + 1; j < a.newPos.length; j++) c.expect(!mayEqual(p, p.st.canon(a.newPos[i].i), p.st.canon(a.newPos[j].i)), seg.node, 'two children may be made for the same position', p);
      }
    },
  },
  {
    name: 'keys-decide',
    text: 'an old child is diffed only with an element of the same key, is removed only when no element left has its key, and a child is rendered anew only when no old child left has its key',
    run(c) {
      const A = accounts(c), I = info(c), M = I?.M;
      if (!A.length) return void c.expect(true, I?.fn, '');
      const seen = { found: 0, absent: 0 };
      for (const a of A) {
        const { p, seg } = a;
        const oldKey = (i) => fld(T.idx(p.st.canon(fld(I.parent, 'right')), i), 'key'), newKey = (i) => fld(T.idx(I.elements, i), 'key');
        const looks = p.events.filter((e) => e.t === 'call' && isMap(e) && ['get', 'has'].includes(e.name)).map((e) => ({ e, key: p.st.canon(e.args[0]) }));
        const empty = (r, s) => { const h = s.get(r.head.key), t = s.get(r.tail.key); return p.st.decide(r.excl ? p.st.pLeq(t, h) : p.st.pLt(t, h)) === true; };
        for (const m of a.made) {
          const nk = p.st.canon(newKey(m.pos));
          if (m.isDiff) {
            const i = a.isOld(m.old);
            if (i === null) continue;
            if (p.st.decide(p.st.pEq(oldKey(i), nk, 'is')) === true) { seen.found++; c.expect(true, m.e.node, '', p); continue; }
            const l = looks.filter((x) => x.e.name === 'get' && p.st.canon(x.e.res) === p.st.canon(i));
            if (!c.expect(l.length > 0, m.e.node, 'an old child is diffed with an element that may have another key', p)) continue;
            const same = l.some((x) => x.key === nk || p.st.decide(p.st.pEq(x.key, nk, 'is')) === true);
            c.expect(same, m.e.node, 'an old child is looked up by the key of another element', p);
            const src = mapSource(c, I, p, l[0].e.recv);
            if (!src) { c.undecide('a table of keys was not recognised'); continue; }
            c.expect(src.side === 'old', src.node ?? l[0].e.node, 'the positions of the old children are looked up wrongly', p);
          } else {
            if (empty(I.R.old, seg.from)) { seen.absent++; c.expect(true, m.e.node, '', p); continue; }
            const l = looks.filter((x) => x.e.name === 'get' && (x.key === nk || p.st.decide(p.st.pEq(x.key, nk, 'is')) === true));
            const h = looks.filter((x) => x.e.name === 'has' && (x.key === nk || p.st.decide(p.st.pEq(x.key, nk, 'is')) === true) && p.st.decide(p.st.pTruthy(x.e.res)) === false);
            const ok = h.length > 0 || l.some((x) => {
              const s = p.st.clone(), at = s.canon(x.e.res), h0 = seg.from.get(I.R.old.head.key), t0 = seg.from.get(I.R.old.tail.key);
              if (!s.assume(s.pMask(at, U), false)) return true;
              if (!s.assume(s.pLeq(h0, at), true)) return true;
              if (!s.assume(I.R.old.excl ? s.pLt(at, t0) : s.pLeq(at, t0), true)) return true;
              return !s.assume(s.pMask(T.idx(s.canon(fld(I.parent, 'right')), at), U), false);
            });
            c.expect(ok, m.e.node, 'a child is rendered anew although an old one with its key may be left', p);
            const used = [...l, ...h][0];
            if (used) { const src = mapSource(c, I, p, used.e.recv); if (!src) c.undecide('a table of keys was not recognised'); else c.expect(src.side === 'old', src.node ?? used.e.node, 'the positions of the old children are looked up wrongly', p); }
          }
        }
        for (const r of a.recs.filter((x) => x.type === M[REM])) {
          const i = a.isOld(r.node);
          if (i === null) continue;
          if (empty(I.R.new, seg.from)) { c.expect(true, r.e.node, '', p); continue; }
          const ok_ = p.st.canon(oldKey(p.st.canon(i)));
          const l = looks.filter((x) => (x.key === ok_ || p.st.decide(p.st.pEq(x.key, ok_, 'is')) === true) && (x.e.name === 'has' ? p.st.decide(p.st.pTruthy(x.e.res)) === false : p.st.decide(p.st.pMask(x.e.res, U)) === true));
          if (!c.expect(l.length > 0, r.e.node, 'an old child is removed although an element with its key may be left', p)) continue;
          const src = mapSource(c, I, p, l[0].e.recv);
          if (!src) { c.undecide('a table of keys was not recognised'); continue; }
          c.expect(src.side === 'new', src.node ?? l[0].e.node, 'an old child is removed although an element with its key may be left', p);
        }
      }
      c.expect(seen.found > 0 && seen.absent > 0, I.fn, 'children are never matched by key');
    },
  },
  {
    name: 'key-tables',
    text: 'a table of keys covers the whole range that was left when it was built and maps each key to its position',
    run(c) {
      const A = accounts(c), I = info(c);
      if (!A.length) return void c.expect(true, I?.fn, '');
      const done = new Set();
      for (const a of A) {
        const { p, seg } = a;
        for (const e of seg.evs.filter((x) => x.t === 'call' && isMap(x) && x.name === 'set' && x.loops.length)) {
          const src = mapSource(c, I, p, e.recv);
          if (!src) { c.undecide('a table of keys was not recognised'); continue; }
          if (!c.expect(src.side !== 'wrong', e.node, 'a key is mapped to another position than its own', p)) continue;
          if (src.side === 'empty') continue;
          const r = I.R[src.side], h0 = seg.from.get(r.head.key), t0 = seg.from.get(r.tail.key);
          const x = [...(src.loop.carried?.values() ?? [])].find((y) => y.cell && y.hv === src.i);
          if (!x || !src.loop.cond) { if (!(src.loop.index === src.i)) c.undecide('a table of keys was not recognised'); else c.expect(true, e.node, '', p); continue; }
          const last = r.excl ? T.linSum(t0, cst(1), -1) : t0;
          const s = p.st.clone();
          // the first and the last position of the range are visited
          const up = (x.nexts ?? []).every((n) => sub(n, x.hv) === cst(1)), down = (x.nexts ?? []).every((n) => sub(n, x.hv) === cst(-1));
          const first = p.st.canon(x.init);
          const lim = (v) => T.subst(src.loop.cond, x.hv, v);
          const decideAt = (v) => { const q = lim(v); return q === T.TRUE || s.decide(q) === true || redo(s, q) === true; };
          const okUp = up && (s.decide(s.pLeq(first, h0)) === true) && decideAt(last);
          const okDown = down && (s.decide(s.pLeq(last, first)) === true) && decideAt(h0);
          c.expect(okUp || okDown, e.node, 'a table of keys does not cover the range it is looked up for', p);
          done.add(src.side);
        }
      }
      c.expect(true, I.fn, '');
    },
  },
  {
    name: 'in-place-in-order',
    text: 'a child is recorded as staying in place only if it is the first or the last on both sides',
    run(c) {
      const A = accounts(c), I = info(c), M = I?.M;
      if (!A.length) return void c.expect(true, I?.fn, '');
      let n = 0;
      for (const a of A) for (const r of a.recs.filter((x) => x.type === M[UPD])) {
        const { p, seg } = a;
        n++;
        const i = a.isOld(r.oldNode);
        const end = (side, which) => { const R = I.R[side]; const v = seg.from.get(R[which].key); return p.st.canon(which === 'tail' && R.excl ? T.linSum(v, cst(1), -1) : v); };
        const at = (which) => i !== null && p.st.canon(i) === end('old', which) && p.st.canon(r.index) === end('new', which);
        c.expect(at('head') || at('tail'), r.e.node, 'a child that may have changed its place among its siblings is recorded as staying in place', p);
      }
      c.expect(n > 0, I.fn, 'no child ever stays in place');
    },
  },
  {
    name: 'ends-exhausted',
    text: 'the reconciliation ends only when no old and no new child is left, and each round takes at least one of them',
    run(c) {
      const A = accounts(c), I = info(c);
      if (!A.length) return void c.expect(true, I?.fn, '');
      for (const p of I.ps) {
        if (p.kind !== 'return') continue;
        for (const side of ['old', 'new']) {
          const R = I.R[side], h = p._val.get(R.head.key), t = p._val.get(R.tail.key);
          if (!h || !t) { c.expect(false, I.fn, `the reconciliation ends without looking at the ${side} children`, p); continue; }
          c.expect(p.st.decide(R.excl ? p.st.pLeq(t, h) : p.st.pLt(t, h)) === true, I.fn, `the reconciliation may end before all ${side} children are accounted for`, p);
        }
      }
      for (const a of A) if (a.seg.end?.t === 'loopend' && a.seg.end.how === 'back' && !a.seg.end.loop.sub) c.expect((a.newPos?.length ?? 0) + (a.oldPos?.length ?? 0) > 0, a.seg.node, 'a round makes no progress', a.p);
      c.expect(I.ps.some((p) => p.kind === 'return'), I.fn, 'the reconciliation never ends');
    },
  },
];
/** Decides a predicate built by substitution by building it anew. */
function redo(s, q) {
  const go = (t) => {
    if (t.k !== 'op') return null;
    if (t.op === 'not') { const x = go(t.args[0]); return x === null ? null : s.pNot(x); }
    if (t.op === 'le') return s.pLeq(t.args[0], t.args[1]);
    if (t.op === 'eq') return s.pEq(t.args[0], t.args[1]);
    return null;
  };
  const x = go(q);
  return x ? s.decide(x) : undefined;
}
