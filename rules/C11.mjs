// C11: a node keeps its identity exactly when type and key match.
import { T, cst, UNDEF, NULL, FALSE, TRUE, fld, calls, writes, idxOf, isCall, covers, classImplementing, ownFields, F, O, opaqueNames, ts, memberName } from './_lib.mjs';
import { treeRoles, kinds, hostCalls, argsOf } from './_tree.mjs';
import { bits } from './_runtime.mjs';

export const about = 'Every path of diff, render and the commit walker is enumerated; on each it is decided whether type and key are known to match, and what the returned or committed node is made of.';
export const assumptions = ['Element and node fields are plain data properties.'];

export function runtime(c) {
  if (c._rt) return c._rt;
  const P = c.P, r = treeRoles(c);
  const cls = classImplementing(P, 'Renderer');
  const diff = P.method(cls, 'diff'), render = P.method(cls, 'render');
  // the reconciliation of lists: what a fragment's changes are computed with
  function writesMutations(fn) { let hit = 0; P.walk(fn, (n) => { if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'MutationType') hit++; }); return hit > 0; }
  const list = [...P.functions].filter((f) => f.body && f !== diff && f !== render && f.getSourceFile() === diff.getSourceFile() && writesMutations(f));
  return (c._rt = { cls, diff, render, lists: list, thisT: null, r });
}
/** The element stored at an index of the array a node field holds: the recorded write or the mapped value. */
export function storedIn(c, p, arr, e) {
  arr = p.st.canon(arr);
  if (arr.k === 'o' && arr.kind === 'map') return { ok: p.st.canon(arr.value) === p.st.canon(e.res), key: arr.index, over: arr.over };
  const items = arr.k === 'o' ? p.st.heap.get(arr.id + '#items') : null;
  if (items?.list) { const i = items.list.findIndex((x) => p.st.canon(x) === p.st.canon(e.res)); if (i >= 0) return { ok: true, key: cst(i) }; }
  const w = p.events.findLast((x) => x.t === 'write' && p.st.canon(x.base) === arr && p.st.canon(x.value) === p.st.canon(e.res) && x.key);
  if (w) return { ok: true, key: w.key };
  const w2 = p.events.findLast((x) => x.t === 'write' && p.st.canon(x.base) === arr && p.st.canon(x.value) === p.st.canon(e.res) && x.name !== undefined);
  if (w2) return { ok: true, key: cst(Number(w2.name)) };
  const push = p.events.find((x) => x.t === 'call' && x.builtin && x.name === 'push' && p.st.canon(x.recv) === arr && x.args.some((a) => p.st.canon(a) === p.st.canon(e.res)));
  if (push) return { ok: true, key: null, push: true };
  return { ok: false };
}
/** Fields a node object must have. */
function nodeFields(c, p, fn, v, want, what) {
  for (const [k, t] of Object.entries(want)) {
    const alt = Array.isArray(t) ? t : [t];
    c.expect(alt.some((x) => c.same(p, c.get(p, v, k), x)), fn, `${what} has another ${k} than it should`, p);
  }
}
/** Recursive calls per child: every child once, in any order, into its own place of `left`. */
function perChild(c, p, fn, list, rec, node, msg) {
  const left = c.get(p, node, 'left');
  if (!rec.length) {
    const len = p.E.lengthTerm(p.st.canon(list), p.st);
    c.expect(p.st.decide(p.st.pEq(len, cst(0))) === true || p.st.decide(p.st.pLt(cst(0), len)) === false || p.events.some((e) => e.t === 'loopzero'), fn, `${msg}: no child is handled`, p);
    return null;
  }
  if (!c.expect(rec.length === 1 && rec[0].loops.length, rec[1]?.node ?? rec[0].node, `${msg}: not every child is handled exactly once`, p)) return null;
  const e = rec[0], loop = e.loops.at(-1);
  c.expect(covers(loop, list, p), e.node, `${msg}: not every child is handled exactly once`, p);
  const s = storedIn(c, p, left, e);
  c.expect(s.ok, e.node, `${msg}: the result does not become a child of the node`, p);
  return { e, key: s.key, loop, push: s.push };
}

export const rules = [
  {
    name: 'reuse-iff-match',
    text: 'diff renders a new node at the same place of the same part exactly if type or key differ (key by SameValue), and otherwise keeps part, state and committed children of the old one',
    run(c) {
      const { cls, diff, render, lists } = runtime(c);
      const E = c.engine({ opaque: (f) => f === render || lists.includes(f) });
      const [old, el, scope, index, parent] = E.paramSyms(diff);
      const seen = { reuse: 0, fresh: 0, same: 0 };
      for (const p of c.paths(E, diff, { cls })) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        const type = p.st.decide(p.st.pEq(fld(old, 'type'), fld(el, 'type'))), key = p.st.decide(p.st.pEq(fld(old, 'key'), fld(el, 'key'), 'is'));
        const v = p.st.canon(p.value);
        const fresh = calls(p, (e) => e.target === render || e.sdecl === render || (e.name === 'render' && c.same(p, e.recv, E.thisSym(cls))));
        if (type === false || key === false) {
          seen.fresh++;
          c.expect(fresh.length === 1 && c.same(p, v, fresh[0].res), fresh[1]?.node ?? diff, 'a node of another type or key is not replaced by a new one', p);
          for (const e of fresh) {
            const want = [el, scope, index, parent, fld(old, 'part')];
            c.expect(want.every((w, i) => c.same(p, e.args[i], w)), e.node, 'a replacing node is rendered from another element or at another place', p);
          }
          c.expect(!calls(p, (e) => !fresh.includes(e) && !e.builtin).length, diff, 'something else happens when a node is replaced', p);
          continue;
        }
        c.expect(type === true && key === true, diff, 'a node is kept although its type or key may differ', p);
        c.expect(!fresh.length, fresh[0]?.node ?? diff, 'a new node is rendered although type and key match', p);
        if (c.same(p, v, old)) { seen.same++; continue; }
        seen.reuse++;
        if (!c.expect(v.k === 'o', diff, 'the node that takes over is neither new nor the old one', p)) continue;
        nodeFields(c, p, diff, v, { type: [fld(el, 'type'), fld(old, 'type')], props: fld(el, 'props'), key: [fld(el, 'key'), fld(old, 'key')], index, parent, part: fld(old, 'part'), right: fld(old, 'right') }, 'the node that takes over');
        c.expect(c.same(p, c.get(p, v, 'state'), fld(old, 'state')), diff, 'the node that takes over does not keep the block or component instance', p);
      }
      c.expect(seen.reuse >= 3 && seen.fresh > 0 && seen.same > 0, diff, 'not every case of keeping and replacing nodes exists');
    },
  },
  {
    name: 'unchanged-only-if-clean',
    text: 'diff returns the old node only if the props are identical or, for a component, if none of the lanes of this flush are pending on it and its own comparison says that the props are equal',
    run(c) {
      const { cls, diff, render, lists } = runtime(c);
      const E = c.engine({ opaque: (f) => f === render || lists.includes(f) });
      const [old, el] = E.paramSyms(diff);
      let n = 0;
      for (const p of c.paths(E, diff, { cls })) {
        if (p.kind !== 'return' || !c.same(p, p.value, old) || p.st.infeasible()) continue;
        n++;
        c.expect(!calls(p, (e) => e.name === 'render' || e.target === diff).length, diff, 'an unchanged node is rendered', p);
        if ([null, 'is'].some((k) => p.st.decide(p.st.pEq(fld(old, 'props'), fld(el, 'props'), ...(k ? [k] : []))) === true)) { c.expect(true, diff, ''); continue; }
        const eq = calls(p, (e) => e.name === 'arePropsEqual');
        const ok = eq.length === 1 && p.st.decide(p.st.pTruthy(eq[0].res)) === true && c.same(p, eq[0].args[0], fld(old, 'props')) && c.same(p, eq[0].args[1], fld(el, 'props')) && [fld(old, 'type'), fld(el, 'type')].some((t) => c.same(p, eq[0].recv, t));
        c.expect(ok, eq[0]?.node ?? diff, 'a node with other props is left unchanged without the comparison of its component', p);
        // the lanes of the flush: what a component is rendered with
        const lanes = laneArgs(c);
        const zero = lanes.some((l) => p.st.decide(p.st.pEq(bits('&', fld(old, 'state', 'instance', 'pendingLanes'), l), cst(0))) === true);
        c.expect(zero, diff, 'a component is left unchanged although an update of this flush may be pending on it', p);
      }
      c.expect(n > 0, diff, 'no node is ever left unchanged');
      // and a component that is compared equal and has nothing pending is not rendered again
      for (const p of c.paths(E, diff, { cls })) {
        if (p.kind !== 'return') continue;
        if (p.st.decide(p.st.pEq(fld(old, 'props'), fld(el, 'props'))) === true && p.st.decide(p.st.pEq(fld(old, 'key'), fld(el, 'key'), 'is')) === true && p.st.decide(p.st.pEq(fld(old, 'type'), fld(el, 'type'))) === true) c.expect(c.same(p, p.value, old), diff, 'a node with identical props is not left unchanged', p);
      }
    },
  },
  {
    name: 'children-of-kept-nodes',
    text: 'the children of a kept block are diffed pairwise, the child of a kept component is diffed with what the component renders now, the children of a kept fragment are reconciled; the results become the new children and the committed children stay untouched',
    run(c) {
      const { cls, diff, render, lists, r } = runtime(c);
      const E = c.engine({ opaque: (f) => f === render || lists.includes(f) });
      const [old, el, scope] = E.paramSyms(diff);
      const seen = new Set();
      for (const p of c.paths(E, diff, { cls })) {
        const v = p.st.canon(p.value ?? UNDEF);
        if (p.kind !== 'return' || v.k !== 'o' || p.st.infeasible()) continue;
        const ks = kinds(c, p, old);
        ks.forEach((k) => seen.add(k));
        const rec = calls(p, (e) => e.target === diff);
        for (const w of writes(p)) c.expect(!c.same(p, w.base, fld(old, 'right')), w.node, 'the committed children are changed before the commit', p);
        for (const w of writes(p)) c.expect(!c.same(p, w.base, old), w.node, 'the committed node is changed before the commit', p);
        const left = c.get(p, v, 'left');
        if (ks.includes('bind')) { c.expect(!rec.length, diff, 'a binding has children', p); continue; }
        c.expect(left.k === 'o', diff, 'the new children are kept in the list of the old ones', p);
        if (ks.includes('component')) {
          const rn = calls(p, (e) => e.name === 'render' && c.same(p, e.recv, fld(old, 'state', 'instance')));
          if (!c.expect(rn.length === 1 && rec.length === 1, rec[1]?.node ?? diff, 'a kept component is not rendered exactly once', p)) continue;
          c.expect(c.same(p, rn[0].args[0], fld(el, 'props')), rn[0].node, 'a kept component is rendered with other props than the new ones', p);
          const [a, b, , i, par] = rec[0].args;
          c.expect(c.same(p, a, T.idx(p.st.canon(fld(old, 'right')), cst(0))) && c.same(p, b, rn[0].res) && c.same(p, i, cst(0)) && c.same(p, par, v), rec[0].node, 'the committed child of a component is not diffed with what it renders', p);
          c.expect(c.same(p, c.get(p, v, 'left', '0'), rec[0].res) || storedIn(c, p, left, rec[0]).ok, rec[0].node, 'what a component renders does not become its child', p);
        } else if (ks.includes('fragment')) {
          const l = calls(p, (e) => lists.includes(e.target));
          if (!lists.length) { c.undecide('the reconciliation of lists is not a function of its own'); continue; }
          if (!c.expect(l.length === 1, diff, 'the children of a fragment are not reconciled exactly once', p)) continue;
          c.expect(c.same(p, l[0].args[0], v) && l[0].args.some((a) => c.same(p, a, fld(el, 'children'))), l[0].node, 'the children of a fragment are reconciled with other elements', p);
          c.expect(c.same(p, c.get(p, v, 'state', 'mutations'), l[0].res), l[0].node, 'the changes of a fragment are not recorded', p);
        } else {
          const x = perChild(c, p, diff, fld(el, 'children'), rec, v, 'diffing a block');
          if (!x) continue;
          const [a, b, s, i, par] = x.e.args.map((t) => p.st.canon(t));
          c.expect(b.k === 'idx' && c.same(p, b.arr, fld(el, 'children')) && a.k === 'idx' && c.same(p, a.arr, fld(old, 'right')) && a.i === b.i, x.e.node, 'children of a block are not diffed pairwise', p);
          c.expect(b.i === i && (x.push || x.key === i) && c.same(p, par, v) && c.same(p, s, scope), x.e.node, 'a child of a block gets another position, parent or scope', p);
        }
      }
      for (const k of ['bind', 'block', 'component', 'fragment']) c.expect(seen.has(k), diff, `no ${k} is ever kept`);
    },
  },
  {
    name: 'render-fresh',
    text: 'rendering creates a node with the type, props and key of the element at the place asked for, with a state of its own and each child rendered once at its own position and part',
    run(c) {
      const { cls, render } = runtime(c);
      const E = c.engine();
      const [el, scope, index, parent, part] = E.paramSyms(render);
      const seen = new Set();
      for (const p of c.paths(E, render, { cls })) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        const v = p.st.canon(p.value);
        if (!c.expect(v.k === 'o', render, 'rendering does not create a node', p)) continue;
        const ks = kinds(c, p, el);
        ks.forEach((k) => seen.add(k));
        nodeFields(c, p, render, v, { type: fld(el, 'type'), props: fld(el, 'props'), key: fld(el, 'key'), index, parent, part }, 'a rendered node');
        const left = c.get(p, v, 'left'), right = c.get(p, v, 'right'), state = c.get(p, v, 'state');
        c.expect(left.k === 'o' && right.k === 'o' && left !== right, render, 'a rendered node counts as committed or shares its children with another node', p);
        const rec = calls(p, (e) => e.target === render);
        if (ks.includes('bind')) { c.expect(!rec.length, render, 'a binding has children', p); continue; }
        c.expect(state.k === 'o', render, 'a rendered node shares its state with another node', p);
        if (ks.includes('component')) {
          const ci = calls(p, (e) => e.name === 'createInstance'), rn = calls(p, (e) => e.name === 'render' && e.target !== render);
          if (!c.expect(ci.length === 1 && rn.length === 1 && rec.length === 1, rec[1]?.node ?? render, 'a component is not instantiated and rendered exactly once', p)) continue;
          c.expect(c.same(p, ci[0].recv, fld(el, 'type')), ci[0].node, 'an instance of another component is created', p);
          c.expect(c.same(p, c.get(p, v, 'state', 'instance'), ci[0].res) && c.same(p, rn[0].recv, ci[0].res) && c.same(p, rn[0].args[0], fld(el, 'props')), rn[0].node, 'another instance is rendered or with other props', p);
          const [a, , i, par, pt] = rec[0].args;
          c.expect(c.same(p, a, rn[0].res) && c.same(p, i, cst(0)) && c.same(p, par, v) && c.same(p, pt, part), rec[0].node, 'what a component renders does not take the place of the component', p);
          c.expect(storedIn(c, p, left, rec[0]).ok, rec[0].node, 'what a component renders does not become its child', p);
        } else {
          const x = perChild(c, p, render, fld(el, 'children'), rec, v, 'rendering');
          if (ks.includes('block')) {
            const b = calls(p, (e) => ['renderTemplate', 'renderPortal'].includes(e.name));
            if (!c.expect(b.length === 1 && c.same(p, b[0].args[0], el) && c.same(p, c.get(p, v, 'state', 'block'), b[0].res), render, 'a block is not rendered exactly once from its element', p)) continue;
            if (x) { const pt = p.st.canon(x.e.args[4]); c.expect(pt.k === 'idx' && c.same(p, pt.arr, fld(b[0].res, 'parts')) && pt.i === p.st.canon(x.e.args[2]), x.e.node, 'a child of a block is rendered into another part than its own', p); }
          } else if (x) {
            const sp = calls(p, (e) => e.name === 'splitPart');
            c.expect(sp.length === 1 && c.same(p, sp[0].recv, part) && c.same(p, x.e.args[4], sp[0].res), x.e.node, 'a child of a list is rendered into a part that is not its own', p);
          }
          if (!x) continue;
          const [a, s, i, par] = x.e.args.map((t) => p.st.canon(t));
          c.expect(a.k === 'idx' && c.same(p, a.arr, fld(el, 'children')) && a.i === i && (x.push || x.key === i) && c.same(p, par, v) && c.same(p, s, scope), x.e.node, 'a child is rendered with another position, parent or scope', p);
        }
      }
      for (const k of ['bind', 'block', 'component', 'fragment']) c.expect(seen.has(k), render, `no ${k} is ever rendered`);
    },
  },
  {
    name: 'commit-agrees',
    text: 'committing a pair replaces the node exactly if type or key differ and else updates it in place, the very same test as in diff; a node that was left unchanged is given its new position and parent and is skipped only if it is committed',
    run(c) {
      const r = treeRoles(c), fn = r.patcher;
      const E = c.engine({ opaque: r.opaque(fn) });
      const [old, nw, index, parent] = E.paramSyms(fn);
      const seen = new Set();
      for (const p of c.paths(E, fn)) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        const sameNode = p.st.decide(p.st.pEq(old, nw));
        const did = calls(p, (e) => r.all.has(e.target)), host = hostCalls(p);
        if (sameNode === true) {
          seen.add('same');
          c.expect(c.same(p, c.get(p, nw, 'index'), index) && c.same(p, c.get(p, nw, 'parent'), parent), fn, 'a node that was left unchanged is not given its new position and parent', p);
          const done = p.st.decide(p.st.pEq(fld(nw, 'left'), fld(nw, 'right')));
          if (!did.length && !host.length && !p.events.some((e) => e.t === 'loopzero' || e.t === 'loop')) c.expect(done === true, fn, 'a node that is not committed yet is skipped', p);
          continue;
        }
        c.expect(sameNode === false, fn, 'the same node is not told apart from a replaced one', p);
        const type = p.st.decide(p.st.pEq(fld(old, 'type'), fld(nw, 'type'))), key = p.st.decide(p.st.pEq(fld(old, 'key'), fld(nw, 'key'), 'is'));
        const un = did.filter((e) => e.target === r.unmounter), mo = did.filter((e) => e.target === r.mounter);
        if (type === false || key === false) {
          seen.add('replace');
          c.expect(un.length === 1 && mo.length === 1 && c.same(p, un[0].args[0], old) && c.same(p, mo[0].args[0], nw), un[1]?.node ?? fn, 'a node of another type or key is not replaced', p);
          c.expect(did.every((e) => [r.unmounter, r.mounter, r.sibling].includes(e.target)) && !host.length, fn, 'a node of another type or key is updated in place', p);
          continue;
        }
        c.expect(type === true && key === true, fn, 'a node is updated in place although type or key may differ', p);
        const ks = kinds(c, p, nw);
        ks.forEach((k) => seen.add(k));
        c.expect(ks.length === 1, fn, 'kinds of nodes are not told apart', p);
        const rec = did.filter((e) => e.target === fn);
        if (ks[0] === 'bind') {
          if (!c.expect(host.length === 1 && !did.length, host[1]?.node ?? fn, 'a kept binding is not updated exactly once', p)) continue;
          const h = host[0];
          c.expect(h.name === 'commitUpdate' && [fld(nw, 'part'), fld(old, 'part')].some((t) => c.same(p, h.recv, t)) && c.same(p, h.args[0], fld(old, 'props', 'value')) && c.same(p, h.args[1], fld(nw, 'props', 'value')), h.node, 'a kept binding is not updated from the old value to the new one', p);
        } else if (ks[0] === 'component') {
          c.expect(!host.length && rec.length === 1 && did.length === 1 && c.same(p, rec[0].args[0], T.idx(p.st.canon(fld(nw, 'right')), cst(0))) && c.same(p, rec[0].args[1], T.idx(p.st.canon(fld(nw, 'left')), cst(0))) && c.same(p, rec[0].args[2], cst(0)) && c.same(p, rec[0].args[3], nw), rec[0]?.node ?? fn, 'the child of a kept component is not patched exactly once', p);
        } else if (ks[0] === 'block') {
          c.expect(!host.length && did.length === rec.length, fn, 'a kept block is mounted, moved or removed', p);
          if (!rec.length) { c.expect(p.events.some((e) => e.t === 'loopzero'), fn, 'the children of a kept block are not patched', p); continue; }
          const e = rec[0], loop = e.loops.at(-1);
          const [a, b, i, par] = e.args.map((t) => p.st.canon(t));
          c.expect(rec.length === 1 && loop && (covers(loop, fld(nw, 'left'), p) || covers(loop, fld(nw, 'right'), p)), e.node, 'not every child of a kept block is patched exactly once', p);
          c.expect(a.k === 'idx' && c.same(p, a.arr, fld(nw, 'right')) && b.k === 'idx' && c.same(p, b.arr, fld(nw, 'left')) && a.i === b.i && b.i === i && c.same(p, par, nw), e.node, 'children of a kept block are not patched pairwise', p);
        }
        for (const w of writes(p, (x) => c.same(p, x.base, nw) && x.name === 'right')) c.expect(!c.same(p, w.value, fld(nw, 'left')), w.node, 'a node counts as committed before its children do', p);
      }
      for (const k of ['same', 'replace', 'bind', 'block', 'component', 'fragment']) c.expect(seen.has(k), fn, `no case for ${k} when patching`);
      // the outermost pair keeps the place of the new node
      const E2 = c.engine({ opaque: r.opaque() });
      const [, n2] = E2.paramSyms(r.entry.patch);
      for (const p of c.paths(E2, r.entry.patch)) for (const e of calls(p, (x) => x.target === fn)) c.expect(c.same(p, e.args[2], fld(n2, 'index')) && c.same(p, e.args[3], fld(n2, 'parent')), e.node, 'the outermost node loses its place', p);
    },
  },
];
/** Terms passed as lanes to ComponentInstance.render. */
function laneArgs(c) {
  if (c._laneArgs) return c._laneArgs;
  const { cls, diff, render, lists } = runtime(c);
  const E = c.engine({ opaque: (f) => lists.includes(f) });
  const out = new Set();
  for (const fn of [diff, render]) for (const p of c.paths(E, fn, { cls })) for (const e of calls(p, (x) => x.name === 'render' && x.target !== render && x.args.length === 3)) out.add(p.st.canon(e.args[2]));
  return (c._laneArgs = [...out]);
}
