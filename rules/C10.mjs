// C10: mounting and unmounting reach every node exactly once.
import { T, cst, TRUE, FALSE, NULL, fld, idxOf, calls, isCall, B, counterOf } from './_lib.mjs';
import { treeRoles, kinds, argsOf, visits, hostCalls } from './_tree.mjs';

export const about = 'The recursive walkers over the node tree are analysed kind by kind as an induction over the tree: on every path the node itself is handled once and each of its children is handed to the walker exactly once.';
export const assumptions = ['a component node has exactly one child (checked by C11)', 'the node tree is acyclic'];

const one = (c, p, list, fn, msg, node = fn) => c.expect(list.length === 1, list[1]?.node ?? node, msg, p);

export const rules = [
  {
    name: 'mount-once',
    text: 'mounting a binding commits its value to its own part once; mounting a block mounts each child once before the block itself, at the place asked for; a component or fragment mounts each child once at the place asked for',
    run(c) {
      const r = treeRoles(c), fn = r.mounter;
      const E = c.engine({ opaque: r.opaque(fn) });
      const [node, after] = E.paramSyms(fn);
      const seen = new Set();
      for (const p of c.paths(E, fn)) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        const ks = kinds(c, p, node);
        ks.forEach((k) => seen.add(k));
        const host = hostCalls(p);
        const is = (k) => ks.includes(k);
        if (is('bind')) {
          if (!one(c, p, host, fn, 'a binding is not mounted exactly once')) continue;
          c.expect(host[0].name === 'commitMount' && c.same(p, host[0].recv, fld(node, 'part')) && c.same(p, host[0].args[0], fld(node, 'props', 'value')), host[0].node, 'a binding is mounted with another value or on another part', p);
          c.expect(!calls(p, (e) => e.target === fn).length, host[0].node, 'mounting a binding mounts something else', p);
          continue;
        }
        const v = visits(c, p, fn, fld(node, 'left'), { single: ks.length === 1 && is('component') });
        c.expect(v.ok, v.calls[0]?.node ?? fn, `mounting does not reach every child exactly once: ${v.why}`, p);
        if (is('block')) {
          if (!one(c, p, host, fn, 'a block is not mounted exactly once')) continue;
          c.expect(host[0].name === 'mountBlock' && c.same(p, host[0].recv, fld(node, 'part')) && c.same(p, host[0].args[0], fld(node, 'state', 'block')), host[0].node, 'another block is mounted or on another part', p);
          c.expect(c.same(p, host[0].args[1], after), host[0].node, 'a block is not mounted at the place asked for', p);
          for (const x of v.calls) {
            c.expect(idxOf(p, x) < idxOf(p, host[0]), host[0].node, 'a block is mounted before its children', p);
            c.expect(c.same(p, argsOf(c, x)[1], NULL), x.node, 'a child of a block is placed relative to a node outside the block', p);
          }
        } else {
          c.expect(!host.length, host[0]?.node ?? fn, 'a node without a block of its own is mounted as one', p);
          for (const x of v.calls) c.expect(c.same(p, argsOf(c, x)[1], after), x.node, 'a child of a component or fragment is not mounted at the place asked for', p);
        }
      }
      c.expect(['bind', 'block', 'component', 'fragment'].every((k) => seen.has(k)), fn, 'not every kind of node is mounted');
    },
  },
  {
    name: 'unmount-once',
    text: 'unmounting tells a binding and a block once to unmount, disconnects a component once and unmounts each committed child once; below a block that is unmounted the removal is cascading, elsewhere it is as for the node itself',
    run(c) {
      const r = treeRoles(c), fn = r.unmounter;
      const E = c.engine({ opaque: r.opaque(fn) });
      const ps = E.paramSyms(fn);
      const node = ps[0];
      const cascade = ps[1];
      if (!c.expect(cascade, fn, 'unmounting does not know whether the removal is cascading')) return;
      cascade.m0 = B; cascade.dom0 = undefined;
      const seen = new Set();
      for (const p of c.paths(E, fn, { args: [node, cascade] })) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        const ks = kinds(c, p, node);
        const is = (k) => ks.includes(k);
        ks.forEach((k) => seen.add(k));
        const host = hostCalls(p);
        if (is('bind')) {
          if (!one(c, p, host, fn, 'a binding is not unmounted exactly once')) continue;
          c.expect(host[0].name === 'commitUnmount' && c.same(p, host[0].recv, fld(node, 'part')) && c.same(p, host[0].args[0], fld(node, 'props', 'value')) && c.same(p, host[0].args[1], cascade), host[0].node, 'a binding is unmounted with another value, part or mode', p);
          continue;
        }
        // what is committed below a node is in `right`
        const v = visits(c, p, fn, fld(node, 'right'), { ordered: false, single: ks.length === 1 && is('component') });
        c.expect(v.ok, v.calls[0]?.node ?? fn, `unmounting does not reach every committed child exactly once: ${v.why}`, p);
        if (is('block')) {
          if (!one(c, p, host, fn, 'a block is not unmounted exactly once')) continue;
          c.expect(host[0].name === 'unmountBlock' && c.same(p, host[0].recv, fld(node, 'part')) && c.same(p, host[0].args[0], fld(node, 'state', 'block')) && c.same(p, host[0].args[1], cascade), host[0].node, 'another block, part or mode is used to unmount a block', p);
          for (const x of v.calls) c.expect(c.same(p, argsOf(c, x)[1], TRUE), x.node, 'a node below a removed block is not told that the removal is cascading', p);
        } else {
          for (const x of v.calls) c.expect(c.same(p, argsOf(c, x)[1], cascade), x.node, 'a node below a component or fragment is told another mode of removal than the one at hand', p);
          const comp = is('component'), frag = is('fragment');
          if (comp && frag) c.expect(false, fn, 'components are not told apart from fragments when they are unmounted', p);
          else if (comp) { if (one(c, p, host, fn, 'a component is not disconnected exactly once')) c.expect(host[0].name === 'disconnect' && c.same(p, host[0].recv, fld(node, 'state', 'instance')), host[0].node, 'another component is disconnected', p); } else c.expect(!host.length, host[0]?.node ?? fn, 'a fragment is unmounted as something else', p);
        }
      }
      c.expect(['bind', 'block', 'component', 'fragment'].every((k) => seen.has(k)), fn, 'not every kind of node is unmounted');
    },
  },
  {
    name: 'connect-once',
    text: 'after a mount or patch every node that is not committed yet is visited once, each component among them is connected once, and then counts as committed',
    run(c) {
      const r = treeRoles(c), fn = r.connecter;
      const E = c.engine({ opaque: r.opaque(fn) });
      const [node] = E.paramSyms(fn);
      let skipped = 0, went = 0;
      for (const p of c.paths(E, fn)) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        const rec = calls(p, (e) => e.target === fn);
        const list = fld(node, 'left');
        const ks = kinds(c, p, node);
        const loop = p.events.find((e) => e.t === 'loop');
        const zero = p.events.some((e) => e.t === 'loopzero');
        if (loop) {
          c.expect(covers(c, p, loop.loop, list), loop.node, 'not every child is looked at', p);
          const el = T.idx(p.st.canon(list), loop.loop.index ?? rec[0]?.args[0]?.i ?? counterOf(loop.loop) ?? cst(0));
          const done = p.st.decide(p.st.pEq(fld(el, 'left'), fld(el, 'right')));
          const end = p.events.find((x) => x.t === 'loopend' && x.loop === loop.loop);
          c.expect(!end || end.how === 'full' || end.how === 'back', loop.node, 'the children after one of them are not looked at', p);
          if (rec.length) {
            went++;
            c.expect(rec.length === 1 && c.same(p, rec[0].args[0], el), rec[0].node, 'something else than each child is visited', p);
            c.expect(done === false, rec[0].node, 'a child that is committed already is committed again', p);
          } else { skipped++; c.expect(done === true, loop.node, 'a child that is not committed yet is passed over', p); }
        } else if (!zero) {
          const v = visits(c, p, fn, list, { single: ks.length === 1 && ks[0] === 'component' });
          c.expect(v.ok, fn, 'the children of a node are not visited', p);
        }
        const host = hostCalls(p);
        if (ks.includes('component')) {
          if (ks.length > 1) { c.expect(false, fn, 'components are not told apart from other nodes', p); continue; }
          if (one(c, p, host, fn, 'a component is not connected exactly once')) c.expect(host[0].name === 'connect' && c.same(p, host[0].recv, fld(node, 'state', 'instance')) && c.same(p, host[0].args[0], node), host[0].node, 'another component or node is connected', p);
        } else c.expect(!host.length, host[0]?.node ?? fn, 'a node that is no component is connected', p);
        c.expect(c.same(p, c.get(p, node, 'right'), c.get(p, node, 'left')), fn, 'the node does not count as committed afterwards', p);
      }
      c.expect(went > 0 && skipped > 0, fn, 'committed children are not told apart from others');
    },
  },
  {
    name: 'entries',
    text: 'mount mounts the node and then connects it, patch patches the pair and then connects the new node, unmount unmounts the node as not cascading; each once',
    run(c) {
      const r = treeRoles(c);
      const E = c.engine({ opaque: r.opaque() });
      const run = (fn, f) => { const a = E.paramSyms(fn); for (const p of c.paths(E, fn)) if (p.kind === 'return') f(p, a, calls(p, (e) => r.all.has(e.target))); };
      run(r.entry.mount, (p, [node], cs) => {
        c.expect(cs.length === 2 && cs[0].target === r.mounter && cs[1].target === r.connecter && cs.every((e) => c.same(p, e.args[0], node)), r.entry.mount, 'mount does not mount and then connect the node once each', p);
        if (cs[0]) c.expect(c.same(p, argsOf(c, cs[0])[1], NULL), cs[0].node, 'the outermost node is mounted relative to another node', p);
      });
      run(r.entry.unmount, (p, [node], cs) => {
        c.expect(cs.length === 1 && cs[0].target === r.unmounter && c.same(p, cs[0].args[0], node) && c.same(p, argsOf(c, cs[0])[1], FALSE), r.entry.unmount, 'unmount does not unmount the node once as not cascading', p);
      });
      run(r.entry.patch, (p, [old, nw], cs) => {
        c.expect(cs.length === 2 && cs[0].target === r.patcher && cs[1].target === r.connecter && c.same(p, cs[0].args[0], old) && c.same(p, cs[0].args[1], nw) && c.same(p, cs[1].args[0], nw), r.entry.patch, 'patch does not patch the pair and then connect the new node once each', p);
      });
    },
  },
  {
    name: 'not-cascading-roots',
    text: 'when patching removes a node, that node is not told that the removal is cascading',
    run(c) {
      const r = treeRoles(c);
      const E = c.engine({ opaque: r.opaque(r.patcher) });
      let n = 0;
      for (const p of c.paths(E, r.patcher)) for (const e of calls(p, (x) => x.target === r.unmounter)) { n++; c.expect(c.same(p, argsOf(c, e)[1], FALSE), e.node, 'a replaced or removed node is told that the removal is cascading', p); }
      c.expect(n > 0, r.patcher, 'patching never removes a node');
    },
  },
  {
    name: 'released-first',
    text: 'where one node takes the place of another, which may share its part, the old node is released before the new one is mounted',
    run(c) {
      const r = treeRoles(c);
      const E = c.engine({ opaque: r.opaque(r.patcher) });
      const [old, nw] = E.paramSyms(r.patcher);
      let n = 0;
      for (const p of c.paths(E, r.patcher)) {
        const un = calls(p, (x) => x.target === r.unmounter && c.same(p, x.args[0], old)), mo = calls(p, (x) => x.target === r.mounter && c.same(p, x.args[0], nw));
        if (!un.length && !mo.length) continue;
        n++;
        c.expect(un.length === 1 && mo.length === 1 && idxOf(p, un[0]) < idxOf(p, mo[0]), mo[0]?.node ?? un[0].node, 'a node is mounted before the node whose place it takes is released', p);
      }
      c.expect(n > 0, r.patcher, 'patching never replaces a node');
    },
  },
  {
    name: 'part-unmounts-block',
    text: 'a part told to unmount a block removes exactly that block unless the removal is cascading and the block lies inside the enclosing one; a portal block lies outside and is removed always',
    run(c) {
      const parts = c.P.implementors('Part');
      let n = 0;
      for (const k of parts) {
        const m = c.P.member(k, 'unmountBlock');
        const mb = c.P.member(k, 'mountBlock');
        if (!m?.decl.body || !mb?.decl.body) continue;
        const E = c.engine();
        const [block, cascade] = [T.sym('block:' + k.name?.text, {}), T.sym('cascade', {})];
        block.m0 = 256; cascade.m0 = B;
        // where the block is put: into a container of its own or next to the node
        const mounts = c.paths(E, mb.decl, { cls: k, args: [block, T.sym('after', {})] }).flatMap((p) => calls(p, (e) => e.recv === block));
        const into = mounts.some((e) => e.name === 'mountInto'), before = mounts.some((e) => e.name === 'mountBefore');
        for (const p of c.paths(E, m.decl, { cls: k, args: [block, cascade] })) {
          if (p.kind !== 'return') continue;
          const un = calls(p, (e) => e.name === 'unmount');
          const all = calls(p).filter((e) => !e.builtin);
          if (!mounts.length) { c.expect(!un.length, m.decl, `${k.name.text} unmounts blocks that it does not mount`, p); continue; }
          n++;
          const cas = p.st.decide(p.st.pTruthy(cascade));
          c.expect(un.length <= 1 && all.length === un.length && un.every((e) => c.same(p, e.recv, block)), un[1]?.node ?? m.decl, `${k.name.text} does not unmount exactly the block it is told to`, p);
          if (into) c.expect(un.length === 1, m.decl, `${k.name.text} leaves a block behind in its container`, p);
          else if (before) {
            if (cas === true) c.expect(true, m.decl, '', p);
            else c.expect(un.length === 1, m.decl, `${k.name.text} does not remove its block although the removal is not cascading`, p);
          }
        }
      }
      c.expect(n > 0, null, 'no part unmounts blocks');
    },
  },
];
import { covers as cov } from './_lib.mjs';
function covers(c, p, loop, list) { return cov(loop, list, p); }
