// C13: list changes are committed completely and next to placed siblings.
import { T, cst, UNDEF, NULL, FALSE, TRUE, U, N, fld, calls, writes, idxOf, covers } from './_lib.mjs';
import { treeRoles, kinds, argsOf, visits, hostCalls, unwrapCopy } from './_tree.mjs';
import { enumValues } from './C12.mjs';

export const about = 'The loops that commit the recorded changes of a list are analysed change type by change type (each handled once, removals before anything is placed, a child counted as in place only once it is), and the search for the node to place something before is analysed step by step.';
export const assumptions = ['Changes carry their positions (C12) and kept nodes are given theirs (C11).', 'Parts are shared exactly by nodes of the same container position (rule one-part-per-position).'];

function info(c) {
  if (c._c13) return c._c13;
  const r = treeRoles(c), fn = r.patcher;
  const E = c.engine({ opaque: r.opaque(fn), cuts: 'always' });
  const [old, nw, index, parent] = E.paramSyms(fn);
  const ps = c.paths(E, fn).filter((p) => !p.st.infeasible() && kinds(c, p, nw).join() === 'fragment' && p.st.decide(p.st.pEq(fld(old, 'type'), fld(nw, 'type'))) !== false && p.st.decide(p.st.pEq(fld(old, 'key'), fld(nw, 'key'), 'is')) !== false);
  const M = enumValues(c, 'MutationType');
  const list = fld(nw, 'state', 'mutations');
  return (c._c13 = { r, fn, E, ps, old, nw, M, list });
}
/** Handling of one generic change per loop and path. */
function handling(c) {
  const I = info(c);
  if (I.h) return I.h;
  const { r, M, nw } = I;
  const out = [];
  const isList = (p, t) => unwrapCopy(p, t) === p.st.canon(I.list) || p.st.canon(t) === p.st.canon(I.list) || (p.st.canon(t).k === 'r' && p.events.some((e) => e.t === 'call' && e.res === p.st.canon(t) && e.recv && p.st.canon(e.recv) === p.st.canon(I.list)));
  I.staging = new Set();
  for (const p of I.ps) {
    for (const e of p.events) {
      if (e.t !== 'loop' || (e.loops?.length && false)) continue;
      const loop = e.loop;
      const from = idxOf(p, e);
      let to = p.events.findIndex((x, i) => i > from && x.t === 'loopend' && x.loop === loop);
      const ended = to >= 0 ? p.events[to].how : null;
      if (to < 0) to = p.events.length;
      const evs = p.events.slice(from + 1, to);
      // the change at hand: an element of the recorded ones or of an array they were put aside in
      let el = null, src = null;
      const find = (t) => T.contains(t, (x) => { if (x.k === 'idx' && !el && T.contains(x.i, (y) => y.k === 'hv' && y.loop === loop)) { const a = p.st.canon(x.arr); if (isList(p, a)) { el = x; src = 'list'; } else if (I.staging.has(a.id) || (a.k === 'o' && ['arrn', 'array'].includes(a.kind) && p.events.some((w) => w.t === 'write' && w.key && p.st.canon(w.base) === a && p.st.canon(w.value).k === 'idx' && isList(p, p.st.canon(w.value).arr)))) { el = x; src = 'aside'; } } return false; });
      for (const x of evs) { if (x.t === 'branch' && x.pred) find(x.pred); if (x.args) x.args.forEach((a) => a && find(a)); if (x.t === 'write') find(x.value); }
      if (!el && loop.over) { const a = p.st.canon(loop.over); if (isList(p, a)) src = 'list'; else if (a.k === 'o') src = null; }
      // an array nothing was put in on this path still holds what other paths put in
      if (!el) for (const x of evs) { const all = []; if (x.t === 'branch' && x.pred) T.contains(x.pred, (y) => { if (y.k === 'idx') all.push(y); return false; }); for (const y of all) { const a = p.st.canon(y.arr); if (a.k === 'o' && loop.over && p.st.canon(loop.over) === a) { el = y; src = 'aside'; } } }
      out.push({ p, e, loop, el, src, evs, ended, at: from });
    }
  }
  // arrays that changes are put aside in
  return (I.h = out);
}
const TYPES = ['INSERT', 'UPDATE', 'UPDATE_AND_MOVE', 'REMOVE'];
const possible = (c, x) => { const { M } = info(c); const t = x.p.st.canon(fld(x.el, 'type')); return TYPES.filter((k) => { const s = x.p.st.clone(); return s.decide(s.pEq(t, cst(M[k]))) !== false && s.assume(s.pEq(t, cst(M[k])), true); }); };
const posOf = (p, el, type) => p.st.canon(type === 'INSERT' ? fld(el, 'node', 'index') : fld(el, 'index'));
const nodeOf = (el, type) => (type === 'INSERT' ? fld(el, 'node') : fld(el, 'newNode'));

export const rules = [
  {
    name: 'taken-once',
    text: 'the recorded changes are taken out of the node when they are committed, all of them are gone through once, and what is put aside is gone through once as well',
    run(c) {
      const I = info(c), H = handling(c);
      if (!I.ps.length) return void c.expect(false, I.fn, 'lists are not patched');
      const lists = H.filter((x) => x.src === 'list');
      c.expect(lists.length > 0, I.fn, 'the recorded changes are not committed');
      for (const x of lists) {
        c.expect(!x.loop.over || unwrapCopy(x.p, x.loop.over) === x.p.st.canon(I.list) || covers(x.loop, x.loop.over, x.p), x.e.node, 'not every recorded change is gone through', x.p);
        c.expect(x.ended !== 'break', x.e.node, 'the changes after one of them are not committed', x.p);
      }
      for (const p of I.ps) {
        if (p.kind !== 'return') continue;
        const gone = p.events.filter((e) => (e.t === 'call' && e.builtin && e.name === 'splice' && c.same(p, e.recv, I.list) && c.same(p, e.args[0] ?? cst(0), cst(0)) && e.args.length === 1) || (e.t === 'write' && c.same(p, e.base, fld(I.nw, 'state')) && p.st.canon(e.value).k === 'o') || (e.t === 'write' && c.same(p, e.base, I.list) && (e.name === 'length' || e.key === cst('length')) && c.same(p, e.value, cst(0))));
        c.expect(gone.length > 0, I.fn, 'committed changes stay recorded and may be committed again', p);
      }
      for (const x of H.filter((y) => y.src === 'aside')) { c.expect(x.ended !== 'break', x.e.node, 'the changes after one of them are not committed', x.p); if (!(x.loop.over || covers(x.loop, x.el.arr, x.p))) c.expect(false, x.e.node, 'not every change put aside is gone through', x.p); }
    },
  },
  {
    name: 'each-once',
    text: 'a removal unmounts its node, an insertion mounts its node, an update patches its pair at its position, a move patches its pair and then moves the new node, each exactly once and at once or put aside at its own position',
    run(c) {
      const I = info(c), H = handling(c), { r } = I;
      const staged = new Set(), done = new Set();
      for (const x of H.filter((y) => y.src)) {
        if (!x.el) continue;
        const { p, el } = x;
        const acts = x.evs.filter((e) => e.t === 'call' && [r.unmounter, r.mounter, r.patcher, r.mover].includes(e.target));
        const aside = x.evs.filter((e) => e.t === 'write' && e.key && p.st.canon(e.base).k === 'o' && p.st.canon(e.value) === el);
        for (const t of possible(c, x)) {
          if (x.src === 'aside' && !staged.has(t) && !asideTypes(c).has(t)) continue;
          const by = (f) => acts.filter((e) => e.target === f);
          const is = (f, ...args) => by(f).length === 1 && args.every((a, i) => a === null || c.same(p, argsOf(c, by(f)[0])[i], a));
          if (x.src === 'list' && aside.length) {
            c.expect(aside.length === 1 && !acts.length && t !== 'REMOVE', aside[0].node, 'a change is put aside and committed as well', p);
            c.expect(p.st.canon(aside[0].key) === posOf(p, el, t), aside[0].node, 'a change is put aside at another position than its own', p);
            staged.add(t);
            continue;
          }
          done.add(t);
          const n = acts.length, node = acts[0]?.node ?? x.e.node;
          if (t === 'REMOVE') c.expect(n === 1 && is(r.unmounter, fld(el, 'node'), FALSE), node, 'a removed child is not unmounted exactly once', p);
          else if (t === 'INSERT') c.expect(n === 1 && is(r.mounter, fld(el, 'node')), node, 'an inserted child is not mounted exactly once', p);
          else {
            c.expect(is(r.patcher, fld(el, 'oldNode'), fld(el, 'newNode'), fld(el, 'index'), I.nw), node, 'an updated child is not patched exactly once with its old node and at its position', p);
            const mv = by(r.mover);
            if (t === 'UPDATE_AND_MOVE') c.expect(n === 2 && mv.length === 1 && c.same(p, mv[0].args[0], fld(el, 'newNode')) && idxOf(p, mv[0]) > idxOf(p, by(r.patcher)[0] ?? mv[0]), node, 'a moved child is not patched and then moved exactly once', p);
            else c.expect(n === 1, acts[1]?.node ?? node, 'an updated child is committed more than once', p);
          }
        }
      }
      for (const t of TYPES) c.expect(done.has(t), I.fn, `changes of type ${t} are never committed`);
    },
  },
  {
    name: 'removals-first',
    text: 'no removal comes after anything is placed',
    run(c) {
      const I = info(c), H = handling(c), { r } = I;
      const placing = [r.mounter, r.patcher, r.mover];
      let n = 0;
      for (const x of H.filter((y) => y.src)) {
        const rem = x.evs.some((e) => e.t === 'call' && e.target === r.unmounter);
        if (!rem) continue;
        n++;
        const sameLoop = H.filter((y) => y.loop.node === x.loop.node).some((y) => y.evs.some((e) => e.t === 'call' && placing.includes(e.target)));
        c.expect(!sameLoop, x.e.node, 'a child is removed after others were placed', x.p);
        const before = x.p.events.slice(0, x.at).some((e) => e.t === 'call' && placing.includes(e.target));
        c.expect(!before, x.e.node, 'a child is removed after others were placed', x.p);
      }
      c.expect(n > 0, I.fn, 'no child is ever removed');
    },
  },
  {
    name: 'in-place-known',
    text: 'while changes are committed the children of the list are exactly those in place: those that stay from the beginning, the others only once they are placed',
    run(c) {
      const I = info(c), H = handling(c), { r } = I;
      let n = 0;
      for (const p of I.ps) {
        const acts = calls(p, (e) => [r.mounter, r.patcher, r.mover].includes(e.target));
        if (!acts.length) continue;
        const w = p.events.find((e) => e.t === 'write' && e.name === 'right' && c.same(p, e.base, I.nw));
        if (!c.expect(w && idxOf(p, w) < idxOf(p, acts[0]), acts[0].node, 'children are placed while the list still shows its former children', p)) continue;
        const A = p.st.canon(w.value);
        c.expect(A.k === 'o' && A.kind !== 'copy' && A.kind !== 'map', w.node, 'children that are not in place count as placed', p);
        c.expect(p.events.filter((e) => e.t === 'write' && e.name === 'right' && c.same(p, e.base, I.nw)).length === 1, w.node, 'the children in place are lost', p);
        n++;
      }
      c.expect(n > 0, I.fn, 'no child is ever placed');
      // entries of that array
      for (const x of H.filter((y) => y.src && y.el)) {
        const { p, el } = x;
        const w = p.events.find((e) => e.t === 'write' && e.name === 'right' && c.same(p, e.base, I.nw));
        const A = w && p.st.canon(w.value);
        if (!A) continue;
        const sets = x.evs.filter((e) => e.t === 'write' && e.key && p.st.canon(e.base) === A);
        const acts = x.evs.filter((e) => e.t === 'call' && [r.mounter, r.patcher, r.mover].includes(e.target));
        for (const t of possible(c, x)) {
          if (x.src === 'aside' && !asideTypes(c).has(t)) continue;
          if (t === 'REMOVE') { c.expect(!sets.length, sets[0]?.node ?? x.e.node, 'a removed child counts as placed', p); continue; }
          const pos = posOf(p, el, t);
          for (const s of sets) c.expect(p.st.canon(s.key) === pos, s.node, 'a child counts as placed at another position', p);
          if (!acts.length) {
            // put aside: only children that stay are in place
            if (t === 'UPDATE') c.expect(sets.length === 1 && c.same(p, sets[0].value, fld(el, 'oldNode')), sets[0]?.node ?? x.e.node, 'a child that stays in place does not count as such while its siblings are placed', p);
            else c.expect(!sets.length, sets[0]?.node ?? x.e.node, 'a child counts as placed before it is', p);
          } else {
            const last = sets.at(-1);
            c.expect(last && c.same(p, last.value, nodeOf(el, t)) && idxOf(p, last) > idxOf(p, acts.at(-1)), last?.node ?? acts[0].node, 'a placed child does not count as such afterwards', p);
            if (t !== 'UPDATE') for (const s of sets) c.expect(idxOf(p, s) > idxOf(p, acts.at(-1)), s.node, 'a child counts as placed before it is', p);
          }
        }
      }
    },
  },
  {
    name: 'anchors',
    text: 'whatever is inserted, replaced or moved by a patch is placed before the node that is looked up for it at that moment',
    run(c) {
      const I = info(c), { r } = I;
      if (!r.sibling) return void c.expect(false, I.fn, 'no node is looked up to place children before');
      const E = c.engine({ opaque: r.opaque(r.patcher) });
      let n = 0;
      for (const p of c.paths(E, r.patcher)) {
        const evs = p.events;
        for (const e of calls(p, (x) => x.target === r.mounter || x.target === r.mover)) {
          n++;
          const look = calls(p, (x) => x.target === r.sibling && c.same(p, x.res, e.args[1] ?? UNDEF)).at(-1);
          if (!c.expect(look && c.same(p, look.args[0], e.args[0]), e.node, 'a child is not placed next to its own siblings', p)) continue;
          const between = evs.slice(idxOf(p, look) + 1, idxOf(p, e)).some((x) => x.t === 'call' && [r.mounter, r.mover, r.patcher, r.unmounter].includes(x.target));
          c.expect(!between, e.node, 'the node to place a child before is looked up too early', p);
        }
      }
      c.expect(n > 0, I.fn, 'nothing is ever placed');
      // the children of a component are looked through while a patch is in progress
      for (const p of c.paths(E, r.patcher)) {
        const [old, nw] = E.paramSyms(r.patcher);
        if (p.kind !== 'return' || kinds(c, p, nw).join() !== 'component') continue;
        const rec = calls(p, (x) => x.target === r.patcher);
        if (!rec.length) continue;
        const right = c.get(p, nw, 'right');
        const cp = right.k === 'o' ? c.get(p, right, '0') : null;
        c.expect(cp && (c.same(p, cp, T.idx(p.st.canon(fld(nw, 'left')), cst(0))) || unwrapCopy(p, right) === p.st.canon(fld(nw, 'left'))), rec[0].node, 'a component still shows its former child after it was patched', p);
      }
    },
  },
  {
    name: 'sibling-lookup',
    text: 'the node to place something before is the first host node of the following siblings, nearest first, that are in place in the same part; where there is none the search goes on after the parent, up to the root',
    run(c) {
      const { r } = info(c);
      const fn = r.sibling;
      if (!fn) return void c.expect(false, r.patcher, 'no node is looked up to place children before');
      const E = c.engine({ opaque: r.opaque(fn), cuts: 'always' });
      E.opts.opaque = ((o) => (f) => o(f) || f === r.firstNode)(E.opts.opaque);
      const [node] = E.paramSyms(fn);
      const part = fld(node, 'part');
      const first = (e) => e.t === 'call' && e.target === r.firstNode;
      let found = 0, none = 0, steps = 0;
      for (const p of c.paths(E, fn)) {
        if (p.st.infeasible()) continue;
        const fs = p.events.filter(first);
        for (const e of fs) {
          const child = p.st.canon(e.args[0]);
          if (!c.expect(child.k === 'idx', e.node, 'something else than a sibling is looked into', p)) continue;
          const inner = e.loops.at(-1), arr = p.st.canon(child.arr);
          const cur = arr.k === 'f' && arr.name === 'right' && arr.base.k === 'f' && arr.base.name === 'parent' ? arr.base.base : null;
          if (!c.expect(cur, e.node, 'the siblings looked into are not those that are in place', p)) continue;
          c.expect(p.st.decide(p.st.pMask(child, U)) === false && p.events.some((x) => x.t === 'branch' && T.contains(x.pred, (y) => y === child)), e.node, 'a sibling that is not in place is looked into', p);
          c.expect(p.st.decide(p.st.pEq(part, fld(child, 'part'))) === true, e.node, 'a sibling of another part is looked into', p);
          const x = [...(inner?.carried?.values() ?? [])].find((y) => y.hv === child.i);
          if (!x) { c.undecide('the order in which siblings are looked into was not recognised'); continue; }
          c.expect(T.linSum(x.init, fld(cur, 'index'), -1) === cst(1) && (x.nexts ?? []).every((v) => T.linSum(v, x.hv, -1) === cst(1)), e.node, 'the following siblings are not looked into one by one, nearest first', p);
          const s = p.st;
          const lim = T.subst(inner.cond ?? T.TRUE, x.hv, T.linSum(fld(arr, 'length'), cst(1), -1));
          c.expect(lim === T.TRUE || redoLe(s, lim) === true, e.node, 'the last sibling is not looked into', p);
          // the walk up: from the node itself, parent by parent
          if (cur !== node) {
            const y = [...(e.loops[0]?.carried?.values() ?? [])].find((z) => z.hv === cur);
            c.expect(y && c.same(p, y.init, node), e.node, 'the search does not start at the node itself', p);
          }
        }
        // the inner search goes on only if nothing was found, and stops only at the end of the part
        for (const e of p.events.filter((x) => x.t === 'loopend')) {
          const evs = between(p, e);
          const f = evs.filter(first);
          const isInner = f.length > 0 || p.events.some((x) => x.t === 'loop' && x.loop === e.loop && x.loops?.length);
          if (isInner && e.loop.cond) {
            steps++;
            if (e.how === 'break') { const ch = anyChild(p, e.loop); c.expect(!f.length && ch && p.st.decide(p.st.pEq(part, fld(ch, 'part'))) === false, e.node, 'the search among the siblings ends although more of them are in the same part', p); } else if (f.length) c.expect(f.every((x) => p.st.decide(p.st.pMask(x.res, N)) === true), e.node, 'a node that was found is not used', p);
            else { const ch = anyChild(p, e.loop); c.expect(ch && (p.st.decide(p.st.pMask(ch, U)) === true || p.st.decide(p.st.pEq(part, fld(ch, 'part'))) === false), e.node, 'a sibling that is in place is passed over', p); }
          } else if (!isInner && e.next) for (const [k, v] of e.next) { const y = e.loop.carried.get(k); if (y?.init && p.st.canon(y.init) === node) c.expect(p.st.canon(v) === p.st.canon(fld(y.hv, 'parent')), e.node, 'the search does not go on after the parent', p); }
        }
        if (p.kind !== 'return') continue;
        const v = p.st.canon(p.value);
        if (p.st.decide(p.st.pMask(v, N)) === true || v === NULL) {
          none++;
          const root = p.events.findLast((x) => x.t === 'branch' && T.contains(x.pred, (y) => y.k === 'f' && y.name === 'type' && y.base.k === 'f' && y.base.name === 'parent'));
          const t = root && (() => { let q = null; T.contains(root.pred, (y) => { if (y.k === 'f' && y.name === 'type') q = y; return false; }); return q; })();
          c.expect(t && p.st.decide(p.st.pMask(t, U | N)) === true, fn, 'the search ends before the root', p);
        } else { found++; c.expect(fs.some((e) => e.res === v) && p.st.decide(p.st.pMask(v, N)) === false, fn, 'something else than the first node of a sibling is returned', p); }
      }
      c.expect(found > 0 && none > 0 && steps > 0, fn, 'siblings are never searched');
    },
  },
  {
    name: 'first-node',
    text: 'the first host node of a node is that of its block, else the first one of its committed children in order, else none',
    run(c) {
      const { r } = info(c);
      const fn = r.firstNode;
      if (!fn) { if (r.sibling) c.undecide('the search for the first node is not a function of its own'); return void c.expect(r.sibling, r.patcher, 'no node is looked up to place children before'); }
      const E = c.engine({ opaque: r.opaque(), cuts: 'always' });
      const [node] = E.paramSyms(fn);
      for (const p of c.paths(E, fn)) {
        const v = p.st.canon(p.value ?? UNDEF);
        const ks = kinds(c, p, node);
        const rec = calls(p, (e) => e.target === fn);
        for (const e of rec) {
          const a = p.st.canon(e.args[0]);
          c.expect(a.k === 'idx' && c.same(p, a.arr, fld(node, 'right')), e.node, 'other children than the committed ones are looked into', p);
          if (e.loops.length) c.expect(covers(e.loops.at(-1), fld(node, 'right'), p, { ordered: true }) || e.loops.at(-1).over, e.node, 'the committed children are not looked into in order', p);
        }
        for (const e of p.events.filter((x) => x.t === 'loopend')) { const f = between(p, e).filter((x) => x.t === 'call' && x.target === fn); c.expect(e.how === 'break' || f.every((x) => p.st.decide(p.st.pMask(x.res, N)) === true) && f.length, e.node, 'a child is passed over', p); }
        if (p.kind !== 'return') continue;
        if (ks.includes('block')) {
          c.expect(c.same(p, v, T.idx(p.st.canon(fld(node, 'state', 'block', 'staticNodes')), cst(0))), fn, 'the first node of a block is not its first static node', p);
        } else if (v === NULL) {
          c.expect(rec.every((e) => p.st.decide(p.st.pMask(e.res, N)) === true), fn, 'a node that was found is not returned', p);
          for (const e of rec) if (e.loops.length) c.expect(p.events.some((x) => x.t === 'loopend' && x.loop === e.loops.at(-1) && x.how !== 'break'), e.node, 'the search ends at a child without a node although more children follow', p);
        }
        else {
          c.expect(rec.some((e) => e.res === v), fn, 'something else than the first node of a child is returned', p);
          if (rec.some((e) => e.res === v && e.loops.length)) c.expect(p.st.decide(p.st.pMask(v, N)) === false, fn, 'the search ends at a child without a node although more children follow', p);
        }
      }
    },
  },
  {
    name: 'move',
    text: 'moving a node moves its block, or each of its children in order, to the place asked for',
    run(c) {
      const { r } = info(c), fn = r.mover;
      const E = c.engine({ opaque: r.opaque(fn) });
      const [node, after] = E.paramSyms(fn);
      for (const p of c.paths(E, fn)) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        const ks = kinds(c, p, node), host = hostCalls(p), rec = calls(p, (e) => e.target === fn);
        if (ks.includes('block')) {
          c.expect(host.length === 1 && !rec.length && host[0].name === 'moveBlock' && c.same(p, host[0].recv, fld(node, 'part')) && c.same(p, host[0].args[0], fld(node, 'state', 'block')) && c.same(p, host[0].args[1], after), host[0]?.node ?? fn, 'a block is not moved to the place asked for', p);
        } else {
          c.expect(!host.length, host[0]?.node ?? fn, 'a node without a block is moved as one', p);
          const v = visits(c, p, fn, fld(node, 'left'), { single: ks.length === 1 && ks[0] === 'component' });
          const w = v.ok ? v : visits(c, p, fn, fld(node, 'right'), {});
          c.expect(v.ok || w.ok, rec[0]?.node ?? fn, `moving does not reach every child exactly once in order: ${v.why}`, p);
          for (const e of rec) c.expect(c.same(p, argsOf(c, e)[1], after), e.node, 'a child is moved to another place than its parent', p);
        }
      }
    },
  },
];
function asideTypes(c) {
  const I = info(c);
  if (I.asideT) return I.asideT;
  const out = new Set();
  for (const x of handling(c).filter((y) => y.src === 'list' && y.el)) if (x.evs.some((e) => e.t === 'write' && e.key && x.p.st.canon(e.base).k === 'o' && x.p.st.canon(e.value) === x.el)) possible(c, x).forEach((t) => out.add(t));
  return (I.asideT = out);
}
const between = (p, end) => { const from = p.events.findLastIndex((x) => x.t === 'loop' && x.loop === end.loop && p.events.indexOf(x) < p.events.indexOf(end)); return p.events.slice(from + 1, p.events.indexOf(end)); };
/** The sibling a path tests in an iteration of the loop. */
function anyChild(p, loop) {
  let out = null;
  for (const e of p.events) if (e.t === 'branch' && e.pred) T.contains(e.pred, (y) => { if (y.k === 'idx' && !out && T.contains(y.i, (z) => z.k === 'hv' && z.loop === loop)) out = y; return false; });
  return out;
}
function redoLe(s, q) {
  const go = (t) => (t.k !== 'op' ? null : t.op === 'not' ? ((x) => (x === null ? null : s.pNot(x)))(go(t.args[0])) : t.op === 'le' ? s.pLeq(t.args[0], t.args[1]) : t.op === 'eq' ? s.pEq(t.args[0], t.args[1]) : null);
  const x = go(q);
  return x === null ? undefined : x === T.TRUE ? true : s.decide(x);
}
