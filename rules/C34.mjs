// C34: blocks move as a contiguous range including dynamic content.
import { ts, T, cst, NULL, U, N, fld, calls, writes, idxOf, loopsOf, covers, AnchorError } from './_lib.mjs';
import { fieldOfParam } from './C15.mjs';

export const about = 'The walk over the nodes of a block is followed on every path of moving and removing it (start, step, stop and what is done to each node), and the placement of blocks by every part that can hold one.';
export const assumptions = ['A block has at least one static node, and its static nodes stay siblings in their order.'];

function info(c) {
  if (c._c34) return c._c34;
  const P = c.P;
  const cls = P.implementors('Block')[0];
  if (!cls) throw new AnchorError('no class implements Block');
  const m = (name) => { const d = P.member(cls, name)?.decl; if (!d?.body) throw new AnchorError(`${name} of blocks not found`); return d; };
  const E = c.engine(), thisT = E.thisSym(cls);
  // the nodes and the fragment as the constructor keeps them
  const ctor = cls.members.find((x) => ts.isConstructorDeclaration(x) && x.body);
  if (!ctor) throw new AnchorError('blocks have no constructor');
  return (c._c34 = { cls, m, E, thisT, ctor });
}
/** Field names of the fragment and of its nodes. */
function fields(c) {
  const I = info(c);
  if (I.fields) return I.fields;
  const E = c.engine(), [frag] = E.paramSyms(I.ctor);
  let S = null, Fr = null, node = I.ctor;
  for (const p of c.paths(E, I.ctor, { cls: I.cls })) {
    if (p.kind !== 'return') continue;
    for (const w of writes(p, (e) => e.name)) {
      if (p.st.canon(w.base) !== E.thisSym(I.cls) && w.base?.cls !== I.cls) continue;
      const v = p.st.canon(w.value);
      if (v === frag) Fr ??= w.name;
      if (isChildren(p, v, frag)) { S ??= w.name; node = w.node; }
    }
  }
  if (!Fr) throw new AnchorError('a block does not keep its fragment');
  return (I.fields = { S, Fr, node });
}
function isChildren(p, v, frag) {
  if (v.k === 'o' && v.kind === 'copy') v = p.st.canon(v.of);
  else if (v.k === 'o' && v.kind === 'array') { const it = p.st.heap.get(v.id + '#items'); if (it?.list?.length === 1 && it.list[0].k === 'spread') v = p.st.canon(it.list[0].of); else return false; }
  else if (v.k === 'r' && v.name === 'from') v = p.st.canon(v.args[0]);
  else return false;
  return v.k === 'f' && v.name === 'childNodes' && p.st.canon(v.base) === frag;
}
const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
/** What an event does with a node: { node, before?, into? } */
function act(p, e, kind) {
  if (e.t !== 'call') return null;
  const nm = e.name ?? '';
  let a = e.args, r = e.recv;
  if (kind === 'remove') {
    if (nm === 'remove' && !a.length) return { node: r };
    if (nm === 'removeChild') return { node: a[0], into: r };
    return null;
  }
  if (nm === 'before') return a.length === 1 ? { node: a[0], before: r, into: 'parent' } : null;
  if (isMove(nm) || /\.(insertBefore|moveBefore)$/.test(e.decl ?? '')) {
    if (a.length === 3) return { node: a[1], before: a[2], into: a[0] };
    return { node: a[0], before: a[1], into: r };
  }
  return null;
}
const isMove = (nm) => !!nm && nm.split('|').every((x) => ['insertBefore', 'moveBefore'].includes(x));
const isParentOf = (p, t, x) => t === 'parent' || (t && p.st.canon(t).k === 'f' && ['parentNode', 'parentElement'].includes(p.st.canon(t).name) && same(p, p.st.canon(t).base, x));

/** Checks that each node of the block is acted on, in order, on every path. */
function ranged(c, name, kind, place) {
  const I = info(c), fn = I.m(name), E = c.engine({ havoc: (e) => ['remove', 'removeChild', 'before'].includes(e.name) || isMove(e.name) }), args = E.paramSyms(fn);
  const { S } = fields(c);
  const thisT = E.thisSym(I.cls), Sx = fld(thisT, S);
  let n = 0;
  for (const p of c.paths(E, fn, { cls: I.cls })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const first = T.idx(Sx, cst(0)), last = T.idx(Sx, T.linSum(E.lengthTerm(Sx, p.st), cst(1), -1));
    const nul = (t) => p.st.decide(p.st.pMask(t, U | N)) === true || p.st.canon(t) === NULL;
    if (nul(first) || nul(last)) continue; // a block is never empty
    const loops = loopsOf(p);
    const walk = loops.find(({ loop }) => [...(loop.carried?.values() ?? [])].some((x) => x.init && same(p, x.init, first)));
    const zero = p.events.find((e) => e.t === 'loopzero' && [...(e.loop.carried?.values() ?? [])].some((x) => x.init && same(p, x.init, first)));
    if (!walk && zero) {
      // the only node may be handled outside of the walk
      const of = (e) => same(p, e.t === 'call' && e.name === 'push' ? e.args[0] : act(p, e, kind)?.node, last);
      const done = p.events.filter((e) => act(p, e, kind) && of(e)).length, kept = p.events.filter((e) => e.t === 'call' && e.name === 'push' && of(e)).length;
      const only = p.st.decide(p.st.pEq(first, last)) === true && (done === 1 || (done === 0 && kept === 1));
      c.expect(only, fn, 'a block may not be walked at all', p);
      continue;
    }
    if (!c.expect(walk, fn, 'the nodes of a block are not visited from its first static node', p)) continue;
    n++;
    const L = walk.loop, cur = [...L.carried.values()].find((x) => x.init && same(p, x.init, first)).hv;
    const cell = [...L.carried].find(([, x]) => x.hv === cur)[0];
    const endEv = p.events.find((e) => e.t === 'loopend' && e.loop === L);
    const next = endEv?.next?.raw?.get(cell) ?? endEv?.next?.get(cell), how = endEv?.how ?? 'break';
    const endAt = endEv ? idxOf(p, endEv) : p.events.findIndex((e, i) => i > idxOf(p, walk.start) && e.t === 'leave' && !p.events.slice(idxOf(p, walk.start), i).some((x) => x.t === 'enter'));
    const isCur = (t) => same(p, t, cur);
    const at = (t) => p.st.decide(p.st.pEq(cur, t));
    const sib = (t) => t && t.k === 'f' && t.name === 'nextSibling' && (isCur(t.base) || p.st.canon(t.base) === p.st.canon(cur));
    // collected, or acted on in the walk
    const pushes = p.events.filter((e) => e.t === 'call' && e.name === 'push' && e.loops.includes(L) && e.args.length === 1 && isCur(e.args[0]));
    const direct = p.events.filter((e) => e.loops?.includes(L) && act(p, e, kind) && isCur(act(p, e, kind).node));
    const visit = pushes[0] ?? direct[0];
    if (!c.expect(visit && pushes.length + direct.length === 1, visit?.node ?? fn, 'a node of a block is not visited exactly once', p)) continue;
    // the last node ends the walk, after it was visited
    const raw = next && (next.k === 'f' ? next : null);
    if (how === 'break') c.expect(at(last) === true, fn, 'the walk over a block ends before its last static node', p);
    else {
      const nx = raw ?? next;
      const isNext = sib(nx) || (nx && nul(nx) && nx.k === 'c' && at(last) === true);
      c.expect(isNext || at(last) === true, fn, 'the walk over a block does not go on with the next sibling', p);
      if (at(last) !== true) c.expect(at(last) === false, fn, 'the walk over a block goes on behind its last static node', p);
      if (nx && !nul(nx) && at(last) === false && p.st.decide(p.st.pEq(nx, last)) === true) {
        const rest = p.events.some((e, i) => i > endAt && (e.name === 'push' ? same(p, e.args?.[0], last) : act(p, e, kind) && same(p, act(p, e, kind).node, last)));
        c.expect(rest, fn, 'the walk over a block ends before its last static node', p);
      }
    }
    let acts = [];
    if (direct.length) {
      acts = direct;
      // the sibling is looked up before the node is gone
      if (raw && sib(raw)) c.expect((raw.ver ?? 0) <= (direct[0].ep ?? 0), direct[0].node, 'the next node of a block is looked up after the node was moved or removed', p);
    } else {
      const A = p.st.canon(pushes[0].recv);
      for (const e of p.events) if (e.t === 'call' && e.recv && p.st.canon(e.recv) === A && ['reverse', 'sort', 'splice', 'pop', 'shift', 'unshift', 'fill', 'copyWithin'].includes(e.name)) c.fail(e.node, 'the collected nodes of a block are changed', p);
      const list = p.events.filter((e) => act(p, e, kind));
      for (const e of list) c.expect(idxOf(p, e) > endAt, e.node, 'a node of a block is moved or removed before all of them are collected', p);
      const over = loops.find(({ loop, end }) => loop !== L && end === 'full' && covers(loop, A, p, { ordered: kind !== 'remove' }));
      const zeroAct = p.events.find((e) => e.t === 'loopzero' && e.loop !== L && covers(e.loop, A, p, { zero: true }));
      if (!over && zeroAct) continue; // the list is not empty
      if (!c.expect(over, fn, `the nodes of a block are not all ${kind === 'remove' ? 'removed' : 'moved'} in order`, p)) continue;
      acts = list.filter((e) => e.loops.includes(over.loop) && (() => { const t = p.st.canon(act(p, e, kind).node); return t.k === 'idx' && p.st.canon(t.arr) === A; })());
    }
    if (!c.expect(acts.length === 1, acts[1]?.node ?? fn, `a node of a block is not ${kind === 'remove' ? 'removed' : 'moved'} exactly once`, p)) continue;
    const a = act(p, acts[0], kind);
    if (place) c.expect(place(p, a, args), acts[0].node, 'a node of a block is moved to another place', p);
    const others = calls(p, (e) => act(p, e, 'remove') || act(p, e, 'move')).filter((e) => e !== acts[0]);
    c.expect(!others.length, others[0]?.node ?? fn, 'other nodes are moved or removed', p);
  }
  c.expect(n > 0, fn, `${name} does nothing`);
}

export const rules = [
  {
    name: 'nodes',
    text: 'a block remembers its fragment and a copy of the nodes in it, in order',
    run(c) {
      const { S, node } = fields(c);
      if (!c.expect(S, node, 'a block does not keep a copy of the nodes of its fragment')) return;
      const I = info(c);
      // nothing else writes them
      for (const m of I.cls.members) if (m.body && !ts.isConstructorDeclaration(m)) for (const p of c.paths(c.engine(), m, { cls: I.cls })) {
        for (const w of writes(p, (e) => e.base === p.E.thisSym(I.cls))) c.expect(w.name !== S, w.node, 'the nodes of a block are replaced later', p);
        for (const e of p.events) if (e.t === 'call' && e.recv && p.st.canon(e.recv) === fld(p.E.thisSym(I.cls), S) && ['push', 'pop', 'shift', 'unshift', 'splice', 'sort', 'reverse'].includes(e.name)) c.fail(e.node, 'the nodes of a block are changed later', p);
        c.expect(true, m, '');
      }
    },
  },
  {
    name: 'mount',
    text: 'mounting inserts the fragment before the given node, or into the given container before the given node',
    run(c) {
      const I = info(c), { Fr } = fields(c);
      for (const [name, ok] of [
        ['mountBefore', (p, a, [after]) => same(p, a.before, after) && isParentOf(p, a.into, after)],
        ['mountInto', (p, a, [box, after]) => (same(p, a.before, after) && same(p, a.into, box))],
      ]) {
        const fn = I.m(name), E = c.engine(), args = E.paramSyms(fn);
        let n = 0;
        for (const p of c.paths(E, fn, { cls: I.cls })) {
          if (p.kind !== 'return' || p.st.infeasible()) continue;
          n++;
          const list = calls(p, (e) => act(p, e, 'move'));
          let a = list[0] && act(p, list[0], 'move');
          const app = calls(p, (e) => ['append', 'appendChild'].includes(e.name));
          if (!list.length && app.length === 1 && name === 'mountInto' && p.st.decide(p.st.pMask(args[1], U | N)) === true) { c.expect(same(p, app[0].recv, args[0]) && same(p, app[0].args[0], fld(E.thisSym(I.cls), Fr)), app[0].node, 'a block is mounted at another place', p); continue; }
          if (!c.expect(list.length === 1 && same(p, a.node, fld(E.thisSym(I.cls), Fr)), list[0]?.node ?? fn, 'a block does not insert its fragment exactly once', p)) continue;
          c.expect(ok(p, a, args), list[0].node, 'a block is mounted at another place', p);
        }
        c.expect(n > 0, fn, `${name} does nothing`);
      }
    },
  },
  {
    name: 'move',
    text: 'moving takes every node from the first to the last static node, collected before, in order to the given place',
    run(c) {
      ranged(c, 'moveBefore', 'move', (p, a, [after]) => same(p, a.before, after) && isParentOf(p, a.into, after));
      ranged(c, 'moveInto', 'move', (p, a, [box, after]) => same(p, a.before, after) && same(p, a.into, box));
    },
  },
  {
    name: 'unmount',
    text: 'unmounting removes every node from the first to the last static node, collected before',
    run(c) { ranged(c, 'unmount', 'remove', null); },
  },
  {
    name: 'parts',
    text: 'a child binding places blocks before the given node or its own node and removes them unless an enclosing one is removed; a container places them in its container and always removes them; other bindings place nothing',
    run(c) {
      const P = c.P;
      const base = P.implementors('Part').filter((k) => !k.modifiers?.some((m) => m.kind === ts.SyntaxKind.AbstractKeyword));
      let n = 0;
      for (const k of base) {
        const E0 = c.engine(), thisT = E0.thisSym(k);
        for (const name of ['mountBlock', 'moveBlock', 'unmountBlock']) {
          const d = P.member(k, name)?.decl;
          if (!d?.body) continue;
          const E = c.engine(), [block, arg] = E.paramSyms(d);
          for (const p of c.paths(E, d, { cls: k })) {
            if (p.kind !== 'return' || p.st.infeasible()) continue;
            const on = calls(p, (e) => e.recv && same(p, e.recv, block));
            const child = k.name.text === 'ChildNodePart', box = k.name.text === 'ContainerPart';
            n++;
            if (!child && !box) { c.expect(!on.length, on[0]?.node ?? d, `${k.name.text} places or removes a block`, p); continue; }
            if (name === 'unmountBlock') {
              const casc = p.st.decide(p.st.pTruthy(arg));
              if (child && casc === true) { c.expect(!on.length, on[0]?.node ?? d, 'a block is removed although an enclosing one is removed', p); continue; }
              c.expect(on.length === 1 && on[0].name === 'unmount' && (box || casc === false), on[0]?.node ?? d, `${k.name.text} does not remove a block`, p);
              continue;
            }
            const verb = name === 'mountBlock' ? 'mount' : 'move';
            if (!c.expect(on.length === 1, on[1]?.node ?? d, `${k.name.text} does not ${verb} a block exactly once`, p)) continue;
            const e = on[0], nul = p.st.decide(p.st.pMask(arg, U | N)), own = (t) => same(p, t, fld(thisT, fieldOfParam(c, k, 0)));
            const ok = child ? e.name === verb + 'Before' && (nul === true ? own(e.args[0]) : nul === false && same(p, e.args[0], arg)) : e.name === verb + 'Into' && own(e.args[0]) && same(p, e.args[1], arg);
            c.expect(ok, e.node, `${k.name.text} does not ${verb} a block to the given place`, p);
          }
        }
      }
      c.expect(n > 0, null, 'no part places blocks');
    },
  },
];
