// C27: the update queue always yields a most urgent update.
import { ts, T, cst, UNDEF, U, N, fld, calls, writes, idxOf, loopsOf, AnchorError } from './_lib.mjs';

export const about = 'The paths of inserting and taking are followed with everything inlined. In every round of the loops that move an element through the heap, what is known from the comparisons made decides whether the element may stay or where it must go.';
export const assumptions = ['The comparison is a consistent order that has no effects and yields whole numbers.', 'At the start of an operation no element precedes its parent in the heap.'];

const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
function ops(c) {
  if (c._c27) return c._c27;
  const k = c.P.cls('PriorityQueue'), E = c.engine({ havoc: () => false, cuts: 'always' }), thisT = E.thisSym(k);
  const get = (n) => { const fn = c.P.method(k, n); return { fn, ps: c.paths(E, fn, { cls: k }).filter((p) => p.kind !== 'throw' && !p.st.infeasible()), args: E.paramSyms(fn) }; };
  const deq = get('dequeue'), enq = get('enqueue'), peek = get('peek');
  // the elements: the list that taking removes from
  let heap = null;
  for (const p of [...deq.ps, ...enq.ps]) for (const e of p.events) if (e.t === 'call' && e.builtin && !e.pure && e.recv) { const r = p.st.canon(e.recv); if (r.k === 'f' && r.base === thisT) heap ??= r; }
  if (!heap) throw new AnchorError('the list of elements of the queue was not found');
  const isCompare = (e) => e.t === 'call' && !e.builtin && e.fn && !e.target && e.args.length === 2;
  const shaped = [...deq.ps, ...enq.ps].some((p) => p.events.some((e) => isCompare(e) && e.loops.length && e.args.some((a) => a.k === 'idx' && a.arr === heap)));
  const compared = [...deq.ps, ...enq.ps].some((p) => p.events.some(isCompare));
  return (c._c27 = { k, E, thisT, heap, deq, enq, peek, isCompare, shaped, compared });
}
/** Index of the parent of i, in any of the usual spellings. */
const isParent = (t, i) => {
  const im1 = T.linSum(i, cst(1), -1);
  if (t.k === 'op' && /^bit(shr|ushr|sar)$/.test(t.op)) return t.args[0] === im1 && t.args[1]?.v === 1;
  if (t.k === 'op' && t.op === 'Math.floor' && t.args[0]?.k === 'op' && t.args[0].op === '/') return t.args[0].args[0] === im1 && t.args[0].args[1]?.v === 2;
  const s = T.show(t);
  return s === `floor(((${T.show(i)}-1)/2))` || (t.k === 'r' && t.name === 'floor' && /div/.test(T.show(t.args?.[0] ?? UNDEF)) && T.contains(t, (x) => x === im1));
};
/** Facts from comparisons on a path between two events: pairs [x, y] with x not after y. */
function order(I, p, from, to) {
  const out = [];
  for (let i = from; i < to; i++) {
    const e = p.events[i];
    if (!I.isCompare(e)) continue;
    const [x, y] = e.args.map((t) => p.st.canon(t)), r = e.res;
    const lt = p.st.decide(p.st.pLt(r, cst(0))), le = p.st.decide(p.st.pLe(r, 0));
    if (lt === true || le === true) out.push([x, y, lt === true]);
    if (lt === false) out.push([y, x, le === false]);
  }
  return out;
}
function notAfter(facts, x, y, seen = new Set()) { if (x === y) return true; if (seen.has(x)) return false; seen.add(x); return facts.some(([a, b]) => a === x && notAfter(facts, b, y, seen)); }

/** Rounds of the loop that moves an element: {h, moved, stop, ...}. */
function rounds(c, I, p) {
  const out = [];
  p.events.forEach((e, i) => {
    if (e.t !== 'loop') return;
    const end = p.events.findIndex((x, j) => j > i && x.t === 'loopend' && x.loop === e.loop);
    const to = end < 0 ? p.events.length : end;
    const hvs = [...(e.loop.carried?.entries() ?? [])].filter(([, x]) => x.cell && x.hv && p.events.slice(i, to).some((y) => (I.isCompare(y) && y.args.some((a) => a.k === 'idx' && a.arr === I.heap && T.contains(a.i, (t) => t === x.hv))) || (y.t === 'write' && y.loops.includes(e.loop) && p.st.canon(y.base) === I.heap && typeof y.key === 'object' && T.contains(y.key, (t) => t === x.hv))));
    I.many ??= new Set();
    if (hvs.length > 1) I.many.add(e.loop.node);
    if (I.many.has(e.loop.node)) { out.push({ e, i, to, many: true }); return; }
    const hv = hvs[0];
    if (!hv) { out.push({ e, i, to, none: true }); return; }
    const [key, x] = hv;
    const w = p.events.slice(i, to).filter((y) => y.t === 'write' && p.st.canon(y.base) === I.heap);
    out.push({ e, i, to, h: x.hv, key, init: x.init, w, end: end < 0 ? null : p.events[end], next: end < 0 ? null : p.events[end].next?.get(key) ?? null });
  });
  return out;
}
const at = (I, i) => T.idx(I.heap, i);
const impossible = (p, h) => { const s = p.st.clone(); return !s.assume(s.pLt(h, cst(0)), false) || s.infeasible(); };
/** What a round moves: {c, whole} when the element at c takes the place of h. */
function moved(I, p, r) {
  const val = (y) => p.st.canon(y.value), key = (y) => { const t = y.keyTerm ?? y.key; return typeof t === 'object' ? p.st.canon(t) : cst(Number(t)); };
  if (!r.w.length) return { none: true };
  const toH = r.w.filter((y) => key(y) === r.h);
  if (toH.length !== 1) return null;
  const v = toH[0].value;
  if (v.k !== 'idx' || v.arr !== I.heap) return null;
  const other = r.w.filter((y) => y !== toH[0]);
  if (!other.length) return { c: v.i, hole: true, node: toH[0].node };
  if (other.length === 1 && key(other[0]) === p.st.canon(v.i) && (val(other[0]) === at(I, r.h) || other[0].value === at(I, r.h))) return { c: v.i, hole: false, node: toH[0].node };
  return null;
}
function sift(c, I, p, X, dir, fn, len) {
  const rs = rounds(c, I, p);
  for (const r of rs) {
    if (r.many) { c.undecide(`${c.P.where(r.e.node)}: more than one position is followed at a time`); continue; }
    if (r.none) {
      // nothing is compared in this round: nothing may be moved and the element must have no child or parent
      const w = p.events.slice(r.i, r.to).filter((y) => y.t === 'write' && p.st.canon(y.base) === I.heap);
      if (w.length) { c.fail(w[0].node, 'an element is moved without being compared', p); continue; }
      const hs = [...(r.e.loop.carried?.values() ?? [])].filter((x) => x.cell && x.hv).map((x) => x.hv);
      const leaf = hs.some((h) => impossible(p, h) || (dir === 'down' ? p.st.decide(p.st.pLt(T.linSum(T.linSum(h, h, 1), cst(1), 1), len(p))) === false : p.st.decide(p.st.pLt(cst(0), h)) === false));
      c.expect(leaf, r.e.node, `an element stops on its way without being compared to ${dir === 'down' ? 'its children' : 'its parent'}`, p);
      continue;
    }
    if (impossible(p, r.h)) continue;
    const facts = order(I, p, r.i, r.to), m = moved(I, p, r);
    if (!m && r.w.length === 2) {
      // two places are written: they must exchange their elements
      const pos = r.w.map((y) => { const t = y.keyTerm ?? y.key; return typeof t === 'object' ? p.st.canon(t) : cst(Number(t)); }), vs = r.w.map((y) => y.value);
      if (vs.every((v) => v.k === 'idx' && v.arr === I.heap && pos.includes(p.st.canon(v.i))) && pos[0] !== pos[1] && p.st.canon(vs[0].i) === p.st.canon(vs[1].i)) { c.fail(r.w[1].node, 'an element is lost when two are exchanged', p); continue; }
    }
    if (!m) { c.undecide(`${c.P.where(r.e.node)}: how elements are moved is not followed`); continue; }
    const given = [X, r.init ? at(I, p.st.canon(r.init)) : null].filter(Boolean), held = given.find((t) => facts.some((f) => f.includes(t)));
    const hole = m.hole || !!held;
    const me = facts.some((f) => f.includes(at(I, r.h))) || !held ? at(I, r.h) : held;
    const node = m.node ?? r.e.node;
    if (dir === 'up') {
      const par = (t) => isParent(p.st.canon(t), r.h);
      if (m.none) {
        const top = p.st.decide(p.st.pLt(cst(0), r.h)) === false;
        const ok = top || facts.some(([a]) => a.k === 'idx' && a.arr === I.heap && par(a.i) && notAfter(facts, a, me));
        c.expect(ok, node, 'an element stays below one that it precedes', p);
        if (ok && !top && r.end) c.expect(r.end.how === 'break', node, 'an element that may stay is looked at again', p);
        continue;
      }
      c.expect(par(m.c), node, 'an element is exchanged with another one than its parent', p);
      c.expect(notAfter(facts, me, at(I, m.c)), node, 'an element moves above one that precedes it', p);
      if (r.next) c.expect(p.st.canon(r.next) === p.st.canon(m.c), node, 'an element is lost from sight on its way', p);
      if (r.end?.how === 'full' && r.next) c.expect(p.st.decide(p.st.pLt(cst(0), r.next)) === false, r.e.node, 'an element stops on its way', p);
      if (r.end?.how === 'break') c.expect(r.next && p.st.decide(p.st.pLt(cst(0), r.next)) === false, r.e.node, 'an element stops on its way', p);
    } else {
      const L = T.linSum(T.linSum(r.h, r.h, 1), cst(1), 1), R = T.linSum(L, cst(1), 1);
      const inside = (k) => p.st.decide(p.st.pLt(k, len(p)));
      if (m.none) {
        for (const k of [L, R]) if (inside(k) !== false) c.expect(notAfter(facts, me, at(I, k)), node, 'an element stays above one that precedes it', p);
        continue;
      }
      const ci = p.st.canon(m.c), o = ci === L ? R : ci === R ? L : null;
      if (!c.expect(o, node, 'an element is exchanged with another one than a child', p)) continue;
      c.expect(inside(ci) === true, node, 'an element is exchanged with one beyond the end', p);
      c.expect(notAfter(facts, at(I, ci), me), node, 'an element moves below one that it precedes', p);
      if (inside(o) !== false) c.expect(notAfter(facts, at(I, ci), at(I, o)), node, 'an element moves above its sibling that precedes it', p);
      if (r.next) c.expect(p.st.canon(r.next) === ci, node, 'an element is lost from sight on its way', p);
      if (r.end) c.expect(r.end.how !== 'break' && (r.end.how !== 'full' || p.st.decide(p.st.pLt(T.linSum(T.linSum(ci, ci, 1), cst(1), 1), len(p))) === false), r.e.node, 'an element stops on its way', p);
    }
    if (hole && p.kind === 'return') {
      const put = p.events.slice(r.to).filter((y) => y.t === 'write' && p.st.canon(y.base) === I.heap);
      c.expect(put.length === 1 && given.includes(p.st.canon(put[0].value)), node, 'the element on its way is lost', p);
    }
  }
  return rs;
}
const removals = (I, p) => p.events.filter((e) => e.t === 'call' && e.builtin && !e.pure && e.recv && p.st.canon(e.recv) === I.heap);
function taking(c) {
  const I = ops(c);
  for (const p of I.deq.ps) rounds(c, I, p);
  if (!I.shaped) { if (!I.compared) c.fail(I.deq.fn, 'elements are never compared'); else c.undecide(`${c.P.where(I.k)}: the way elements are kept in order is not known`); return; }
  const odd = [...I.deq.ps.flatMap((p) => removals(I, p)).filter((e) => e.name !== 'pop'), ...I.enq.ps.flatMap((p) => removals(I, p)).filter((e) => e.name !== 'push')][0];
  I.odd = odd;
  if (odd) { c.undecide(`${c.P.where(odd.node)}: the way elements are kept in order is not known`); return; }
  let some = 0, none = 0;
  for (const p of I.deq.ps) {
    const ch = removals(I, p), w = writes(p, (e) => p.st.canon(e.base) === I.heap), all = fld(I.heap, 'length');
    const empty = p.st.decide(p.st.pEq(all, cst(0)));
    if (!ch.length) {
      none++;
      c.expect(empty === true && !w.length, I.deq.fn, 'an element is not removed when it is taken', p);
      if (p.kind === 'return') c.expect(p.value === undefined || p.st.canon(p.value) === UNDEF || same(p, p.value, at(I, cst(0))), I.deq.fn, 'something is taken from an empty queue', p);
      continue;
    }
    some++;
    if (ch.length !== 1 || ch[0].name !== 'pop') { c.undecide(`${c.P.where(ch[0].node)}: how elements are removed is not followed`); continue; }
    const pop = ch[0], rest = E_length(I, p, ch[0]);
    const first = w.find((e) => idxOf(p, e) > idxOf(p, pop) && !e.loops.length);
    const left = p.st.decide(p.st.pEq(rest, cst(0)));
    if (p.kind === 'return') c.expect(same(p, p.value, at(I, cst(0))) || (left === true && same(p, p.value, pop.res)), I.deq.fn, 'the element taken is not the first one', p);
    if (left === true) { c.expect(!w.length, w[0]?.node ?? I.deq.fn, 'an element taken is kept', p); continue; }
    const rs = sift(c, I, p, p.st.canon(pop.res), 'down', I.deq.fn, () => rest);
    const holes = rs.some((r) => !r.none && order(I, p, r.i, r.to).some((f) => f.includes(p.st.canon(pop.res)) && !r.init));
    void holes;
    if (rs.some((r) => r.many)) continue;
    if (left === undefined && !w.length) { c.fail(I.deq.fn, 'the last element may be lost', p); continue; }
    if (left === undefined) { c.fail(w[0].node, 'an element taken may be kept', p); continue; }
    const key = first && (typeof first.key === 'object' ? first.key : first.keyTerm ?? cst(Number(first.key)));
    const direct = first && first.value && same(p, first.value, pop.res);
    c.expect(direct && p.st.canon(key) === cst(0), first?.node ?? I.deq.fn, 'the last element does not take the place of the first one', p);
    c.expect(rs.length === 1 || (!rs.length && p.events.some((e) => e.t === 'loopzero') && p.st.decide(p.st.pLt(cst(1), rest)) === false), I.deq.fn, 'the element in the first place is not moved to where it belongs', p);
    for (const r of rs) if (!r.none && !r.many) c.expect(r.init && p.st.canon(r.init) === cst(0), r.e.node, 'another element than the first one is moved', p);
  }
  c.expect(some > 0 && none > 0, I.deq.fn, 'nothing can be taken');
}
const E_length = (I, p, e) => { const v = I.E.lengthTerm ? I.E.lengthTerm(I.heap, p.st) : fld(I.heap, 'length'); void e; return p.st.canon(v); };
function inserting(c) {
  const I = ops(c), [x] = I.enq.args;
  if (!I.shaped) return c.expect(I.compared, I.enq.fn, 'elements are never compared');
  for (const p of I.enq.ps) rounds(c, I, p);
  if (I.odd) { c.undecide(`${c.P.where(I.odd.node)}: the way elements are added in order is not known`); return; }
  for (const p of I.enq.ps) {
    const ch = removals(I, p), push = ch[0];
    if (ch.length === 1 && push.name !== 'push') { c.undecide(`${c.P.where(push.node)}: how elements are added is not followed`); continue; }
    if (!c.expect(ch.length === 1 && push.args.length === 1 && same(p, push.args[0], x), ch[1]?.node ?? I.enq.fn, 'an element is not added once', p)) continue;
    const rest = E_length(I, p), rs = sift(c, I, p, p.st.canon(x), 'up', I.enq.fn, () => rest);
    const only = p.events.some((e) => e.t === 'loopzero') || p.st.decide(p.st.pLt(cst(1), rest)) === false;
    if (!c.expect(rs.length === 1 || (only && !rs.length), I.enq.fn, 'an element added is not moved to where it belongs', p)) continue;
    if (!rs.length) { c.expect(p.st.decide(p.st.pLt(cst(1), rest)) === false, I.enq.fn, 'an element added is not moved to where it belongs', p); continue; }
    for (const r of rs) if (!r.none && !r.many) c.expect(r.init && T.linSum(p.st.canon(r.init), rest, -1) === cst(-1), r.e.node, 'another element than the added one is moved', p);
  }
  c.expect(I.enq.ps.length > 0, I.enq.fn, 'nothing can be added');
}
function peeking(c) {
  const I = ops(c);
  if (!I.shaped) { c.expect(I.compared, I.peek.fn, 'elements are never compared'); return; }
  for (const p of I.peek.ps) {
    c.expect(!removals(I, p).length && !writes(p).length, I.peek.fn, 'looking at the first element changes the queue', p);
    const empty = p.st.decide(p.st.pEq(fld(I.heap, 'length'), cst(0)));
    if (p.kind === 'return') c.expect(same(p, p.value, at(I, cst(0))) || (empty === true && p.st.canon(p.value ?? UNDEF) === UNDEF), I.peek.fn, 'the element looked at is not the first one', p);
  }
}
/** What is given to the queue of a runtime to compare updates with. */
function comparing(c) {
  const rt = c.P.cls('Runtime'), k = c.P.cls('PriorityQueue');
  let fn = null;
  c.P.walk(rt, (n) => {
    if (ts.isNewExpression(n) && c.P.symbolOf(n.expression)?.declarations?.includes(k) && n.arguments?.length) {
      const a = n.arguments[0];
      fn = ts.isArrowFunction(a) || ts.isFunctionExpression(a) ? a : c.P.symbolOf(a)?.declarations?.find((d) => ts.isFunctionDeclaration(d) || ts.isVariableDeclaration(d)) ?? null;
      if (fn && ts.isVariableDeclaration(fn)) fn = fn.initializer;
    }
  });
  if (!fn) throw new AnchorError('the comparison of updates was not found');
  const E = c.engine(), [a, b] = E.paramSyms(fn);
  let n = 0;
  for (const p of c.paths(E, fn)) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    n++;
    const v = p.st.canon(p.value);
    const lane = (u) => T.op ? lsb(fld(u, 'lanes')) : null, level = (u) => fld(fld(fld(u, 'transaction'), 'scope'), 'level');
    const A = p.st.canon(lane(a)), B = p.st.canon(lane(b)), la = p.st.canon(level(a)), lb = p.st.canon(level(b));
    const eq0 = p.st.decide(p.st.pEq(A, B)), dz = p.st.decide(p.st.pTruthy(T.linSum(A, B, -1))), eq = eq0 ?? (dz === undefined ? undefined : !dz);
    const agrees = (x, y) => {
      if (v === T.linSum(x, y, -1)) return true;
      if (v === T.linSum(y, x, -1)) return false;
      const lt = p.st.decide(p.st.pLt(x, y)), gt = p.st.decide(p.st.pLt(y, x)), neg = p.st.decide(p.st.pLt(v, cst(0))), pos = p.st.decide(p.st.pLt(cst(0), v));
      if (neg === true) return lt === true ? true : gt === true || p.st.decide(p.st.pEq(x, y)) === true ? false : undefined;
      if (pos === true) return gt === true ? true : lt === true || p.st.decide(p.st.pEq(x, y)) === true ? false : undefined;
      if (neg === false && pos === false) return lt === true || gt === true ? false : (lt === false && gt === false) || p.st.decide(p.st.pEq(x, y)) === true ? true : undefined;
      return undefined;
    };
    const uses = (ts1) => T.contains(v, (t) => ts1.includes(t));
    let ok;
    if (eq === true) ok = agrees(la, lb); else if (eq === false || p.st.decide(p.st.pLt(A, B)) === true || p.st.decide(p.st.pLt(B, A)) === true) ok = agrees(A, B);
    else ok = uses([la, lb]) && !uses([A, B]) ? false : undefined;
    if (ok === undefined && v.k !== 'c' && !uses([A, B, la, lb])) ok = false;
    // a result that depends on one of the two only, or on neither, is no order unless the path has compared them
    const open = (x, y) => [p.st.pLt(x, y), p.st.pLt(y, x), p.st.pEq(x, y)].every((q) => p.st.decide(q) === undefined);
    if (ok === undefined && v.k !== 'c' && uses([A, la]) !== uses([B, lb]) && (eq === true ? open(la, lb) : open(A, B) || eq === false)) ok = p.st.decide(p.st.pLt(A, B)) === undefined && p.st.decide(p.st.pLt(B, A)) === undefined ? false : undefined;
    if (ok === undefined && v.k === 'c' && eq === true && open(la, lb)) ok = false;
    if (ok === undefined) { if (v.k === 'lin') ok = false; else { c.undecide(`${c.P.where(fn)}: the order of updates is not followed`); continue; } }
    c.expect(ok, fn, 'updates are not ordered by their most urgent lane and then from outer to inner components', p);
  }
  c.expect(n > 0, fn, 'updates are not compared');
}
const lsb = (t) => T.bitop ? T.op('bitlsb', t) : null;
export const rules = [
  { name: 'taking', text: 'taking removes and returns the first element, puts the last one in its place and moves it down until neither child precedes it', run: taking },
  { name: 'inserting', text: 'an added element is moved up until its parent does not come after it', run: inserting },
  { name: 'peeking', text: 'looking returns the first element and changes nothing', run: peeking },
  { name: 'comparing', text: 'updates are ordered by their most urgent lane, then from outer to inner components', run: comparing },
];
