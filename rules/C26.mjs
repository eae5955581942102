// C26: injection finds the nearest, latest provided instance.
import { T, cst, fld, calls, writes, isCall, opaqueNames, knows, refutes, contextClass, componentClass, idxOf, N, U } from './_lib.mjs';

export const about = 'The lookup is analysed as two nested loops: what each one starts with, how it advances and on what facts it ends; providing, freezing and entering scopes are checked on every path of the functions that render components.';
export const assumptions = ['instances are only provided through provide(); Scope objects are created by Scope.root and Scope.enter only'];

/** Field of RenderContext that holds the scope of the render at hand. */
function scopeField(c) {
  const cls = contextClass(c.P);
  const fn = c.P.method(cls, 'inject');
  const E = c.engine();
  const ps = c.paths(E, fn, { cls });
  const thisT = E.thisSym(cls);
  let name = null;
  for (const p of ps) for (const e of p.events) if (e.t === 'loop') for (const x of e.loop.carried?.values() ?? []) if (x.cell && x.init?.k === 'f' && x.init.base === thisT) name ??= x.init.name;
  if (!name) for (const p of ps) for (const e of p.events) if (e.t === 'branch') T.contains(e.pred, (t) => { if (t.k === 'f' && t.name === 'instances' && t.base.k === 'f' && t.base.base === thisT) name ??= t.base.name; return false; });
  return { cls, fn, E, ps, thisT, name };
}

export const rules = [
  {
    name: 'nearest-first',
    text: 'inject starts at the scope of the component itself and goes to the parent scope only after every instance of the current one has been rejected',
    run(c) {
      const s = scopeField(c);
      const scope0 = fld(s.thisT, s.name ?? '_scope');
      if (!c.expect(s.name, s.fn, 'inject does not start at the scope of its own component')) return;
      const [inj] = s.E.paramSyms(s.fn);
      let found = 0, dflt = 0, threw = 0;
      for (const p of s.ps) {
        // the scope at hand: the variable whose instances are looked at
        const outer = p.events.filter((e) => e.t === 'loop').map((e) => ({ e, x: [...(e.loop.carried?.values() ?? [])].find((x) => x.cell && c.same(p, x.init, scope0)) })).find((y) => y.x);
        if (!outer) {
          // nothing visited: only allowed when the chain is empty, which cannot be
          if (p.kind !== 'cut') c.expect(false, s.fn, 'inject ends without looking at the scope of the component', p);
          continue;
        }
        const hv = outer.x.hv;
        const back = p.events.findLast((e) => e.t === 'loopend' && e.loop === outer.e.loop);
        const inner = p.events.filter((e) => (e.t === 'loop' || e.t === 'loopzero') && e.loop !== outer.e.loop && idxOf(p, e) > idxOf(p, outer.e));
        for (const n of outer.x.nexts ?? []) c.expect(n === fld(hv, 'parent') || p.st.canon(n) === p.st.canon(fld(hv, 'parent')), outer.e.node, 'the search does not go on with the parent scope', p);
        const hit = p.kind === 'return' && !calls(p, (e) => e.name === 'getDefault').length;
        if (hit) {
          found++;
          const v = p.st.canon(p.value);
          const from = v.k === 'idx' ? p.st.canon(v.arr) : null;
          const okElem0 = from?.k === 'r' && from.name === 'toReversed' && c.same(p, from.recv, fld(hv, 'instances'));
          const okElem = v.k === 'idx' && c.same(p, v.arr, fld(hv, 'instances')) || (v.k === 'r' && ['findLast', 'at'].includes(v.name) && c.same(p, v.recv, fld(hv, 'instances')));
          c.expect(okElem || okElem0, s.fn, 'inject returns something that is not an instance provided in the scope at hand', p);
          if (v.k === 'idx') c.expect(knows(p, instanceOf(v, inj)), s.fn, 'inject returns an instance that is not known to be of the requested class', p);
          if (v.k === 'idx' && inner.length) c.expect(reverse(c, p, inner.at(-1).loop, v, fld(hv, 'instances')), inner.at(-1).node, 'the instances of a scope are not searched from the latest to the earliest, all of them', p);
          continue;
        }
        if (p.kind === 'cut') continue;
        // the chain is exhausted
        c.expect(knows(p, p.st.pMask(fld(hv, 'parent'), N)) || knows(p, p.st.pMask(fld(hv, 'parent'), N | U)), back?.node ?? s.fn, 'the search ends before the outermost scope', p);
        for (const i of inner) if (i.t === 'loop') {
          const end = p.events.find((e) => e.t === 'loopend' && e.loop === i.loop);
          c.expect(end?.how === 'full', i.node, 'the search leaves a scope before all its instances have been looked at', p);
          const el = elemIn(c, p, i.loop, fld(hv, 'instances'));
          c.expect(!el || !c_true(p, instanceOf(el, inj)), i.node, 'an instance of the requested class is passed over', p);
        }
        const gd = calls(p, (e) => e.name === 'getDefault');
        if (p.kind === 'return') {
          dflt++;
          c.expect(gd.length === 1 && gd[0].args.length === 0 && c.same(p, gd[0].recv, inj) && c.same(p, p.value, gd[0].res), s.fn, 'the default of the class is not what is returned when nothing was provided', p);
        } else if (p.kind === 'throw') {
          threw++;
          c.expect(gd.length === 0 && knows(p, p.st.pMask(fld(inj, 'getDefault'), U | N)), s.fn, 'inject throws although the class has a default', p);
        }
      }
      c.expect(found > 0, s.fn, 'inject never returns a provided instance');
      c.expect(dflt > 0, s.fn, 'the default of a class is never used');
      c.expect(threw > 0, s.fn, 'inject does not throw when nothing is provided and there is no default');
    },
  },
  {
    name: 'provide-own-scope',
    text: 'provide appends the instance once to the scope of its own component and to no other',
    run(c) {
      const s = scopeField(c);
      const fn = c.P.method(s.cls, 'provide');
      const E = c.engine();
      const [inst] = E.paramSyms(fn);
      for (const p of c.paths(E, fn, { cls: s.cls })) {
        if (p.kind === 'throw') continue;
        const list = fld(E.thisSym(s.cls), s.name ?? '_scope', 'instances');
        const pushes = p.events.filter((e) => e.t === 'call' && e.builtin && ['push', 'unshift', 'splice'].includes(e.name));
        c.expect(pushes.length === 1 && pushes[0].name === 'push' && pushes[0].args.length === 1 && c.same(p, pushes[0].recv, list) && c.same(p, pushes[0].args[0], inst), fn, 'an instance is not appended exactly once to the scope of its component', p);
        c.expect(!p.events.some((e) => e.t === 'write' && e.base !== list && !pushes.length), fn, 'providing changes something else', p);
      }
    },
  },
  {
    name: 'provide-closed',
    text: 'when a render ends normally, the instances of the scope it rendered in are frozen after the component function has run, so that a later provide throws',
    run(c) {
      const cls = componentClass(c.P);
      const fn = c.P.method(cls, 'render');
      const E = c.engine({ opaque: opaqueNames('finalizeContext', 'wrap') });
      const [, scope] = E.paramSyms(fn);
      for (const p of c.paths(E, fn, { cls })) {
        if (p.kind !== 'return') continue;
        const user = p.events.find((e) => e.t === 'call' && e.fn && e.fn.k === 'f');
        const fr = p.events.filter((e) => e.t === 'call' && e.name === 'freeze' && e.args[0] && c.same(p, e.args[0], fld(scope, 'instances')));
        c.expect(user, fn, 'the component function is not called', p);
        c.expect(fr.length >= 1, fn, 'the instances of the scope stay open after the component has rendered', p);
        if (fr.length && user) c.expect(idxOf(p, fr[0]) > idxOf(p, user), fr[0].node, 'the instances of the scope are frozen before the component function runs', p);
        // the context of this render refers to this scope
        const s = scopeField(c);
        if (user && s.name) {
          const at = user.recv;
          c.expect(at && c.same(p, c.get(p, at, s.name), scope), user.node, 'the component function runs with the scope of another render', p);
        }
      }
    },
  },
  {
    name: 'scope-chain',
    text: 'entering a scope creates a new one with no instances whose parent is the scope it was entered from and whose level is one more; a root scope has no parent and level 0',
    run(c) {
      const cls = c.P.cls('Scope');
      const E = c.engine();
      const thisT = E.thisSym(cls);
      const enter = c.P.method(cls, 'enter');
      const [owner] = E.paramSyms(enter);
      const check = (p, fn, parent, level, own) => {
        if (p.kind !== 'return') return;
        const v = p.st.canon(p.value);
        if (!c.expect(v.k === 'o' && v.cls === cls, fn, 'no new scope is created', p)) return;
        c.expect(c.same(p, c.get(p, v, 'parent'), parent), fn, 'the parent of the new scope is another one', p);
        c.expect(c.same(p, c.get(p, v, 'level'), level), fn, 'the level of the new scope is wrong', p);
        c.expect(c.same(p, c.get(p, v, 'owner'), own), fn, 'the owner of the new scope is wrong', p);
        const list = c.get(p, v, 'instances');
        c.expect(list.k === 'o' && list.kind === 'array' || (list.k === 'o' && c.same(p, c.get(p, list, 'length'), cst(0))), fn, 'the new scope does not start with a list of instances of its own', p);
        if (list.k === 'o') c.expect(c.same(p, c.get(p, list, 'length'), cst(0)), fn, 'the new scope starts with instances', p);
      };
      for (const p of c.paths(E, enter, { cls })) check(p, enter, thisT, T.linSum(fld(thisT, 'level'), cst(1)), owner);
      const root = c.P.staticMember(cls, 'root');
      if (!c.expect(root?.body, cls, 'Scope.root is gone')) return;
      const E2 = c.engine();
      const [o2] = E2.paramSyms(root);
      for (const p of c.paths(E2, root, {})) check(p, root, T.NULL, cst(0), o2);
    },
  },
  {
    name: 'one-scope-per-component',
    text: 'a component is rendered in a new scope entered from the scope it is rendered in, and everything it returns is rendered in that new scope and nothing else is; a block or fragment renders its children in the scope it is in',
    run(c) {
      const cls = c.P.cls('Runtime');
      for (const name of ['render', 'diff']) {
        const fn = c.P.method(cls, name);
        const E = c.engine({ opaque: opaqueNames('enter', '_diffChildren') });
        const ps = E.paramSyms(fn);
        const scope = ps[name === 'render' ? 1 : 2];
        const element = ps[name === 'render' ? 0 : 1];
        let comp = 0, other = 0;
        for (const p of c.paths(E, fn, { cls })) {
          if (p.kind !== 'return') continue;
          const enters = calls(p, isCall('Scope.enter'));
          const renders = calls(p, isCall('ComponentInstance.render'));
          const recs = calls(p, isCall('Runtime.render', 'Runtime.diff', 'Renderer.render', 'Renderer.diff'));
          const scopeArg = (e) => e.args[e.decl?.endsWith('.render') || e.name === 'render' ? 1 : 2];
          if (renders.length) {
            comp++;
            if (!c.expect(enters.length === 1 && c.same(p, enters[0].recv, scope), renders[0].node, 'a component is not rendered in one new scope entered from the scope around it', p)) continue;
            c.expect(c.same(p, enters[0].args[0], fld(element, 'type')), enters[0].node, 'the new scope is not owned by the component', p);
            c.expect(c.same(p, renders[0].args[1], enters[0].res), renders[0].node, 'the component is not rendered in its new scope', p);
            for (const r of recs) c.expect(c.same(p, scopeArg(r), enters[0].res), r.node, 'the result of a component is rendered outside its scope', p);
            const st = c.get(p, p.value, 'state');
            c.expect(c.same(p, c.get(p, st, 'scope'), scope), renders[0].node, 'the node does not keep the scope the component was rendered in', p);
          } else {
            for (const r of recs) { other++; c.expect(c.same(p, scopeArg(r), scope), r.node, 'a child that is not returned by a component is rendered in another scope', p); }
            for (const r of calls(p, (e) => e.target && !isCall('Runtime.render', 'Runtime.diff', 'Scope.enter')(e) && e.args.some((a) => c.same(p, a, scope) || enters.some((x) => c.same(p, a, x.res))))) c.expect(r.args.some((a) => c.same(p, a, scope)) && !r.args.some((a) => enters.some((x) => c.same(p, a, x.res))), r.node, 'the children of a list are rendered in another scope', p);
          }
        }
        c.expect(comp > 0, fn, 'no component is rendered');
        c.expect(other > 0, fn, 'no children are rendered');
      }
    },
  },
  {
    name: 'scope-of-lists',
    text: 'children of a list that is diffed are rendered and diffed in the scope of the list',
    run(c) {
      const cls = c.P.cls('Runtime');
      const diff = c.P.method(cls, 'diff');
      // the helper that diff hands a list to
      const helpers = new Set();
      for (let at = diff, next; at; at = next) {
        next = null;
        const E0 = c.engine({ opaque: (f) => f !== at && f.name?.getText() !== 'enter' && f.parent === cls });
        const args = E0.paramSyms(at);
        const paths = c.paths(E0, at, { cls });
        const cs = paths.flatMap((p) => calls(p, (x) => x.target?.parent === cls && ![at, diff].includes(x.target) && x.name !== 'render'));
        // a method that only hands everything on
        if (paths.length === 1 && cs.length === 1 && args.every((a, i) => cs[0].args[i] === a) && cs[0].args.length === args.length) next = cs[0].target;
        else for (const e of cs) helpers.add(e.target);
      }
      let n = 0;
      for (const fn of helpers) {
        const E = c.engine({ opaque: opaqueNames('render', 'diff'), maxPaths: 20000, maxSteps: 3000000 });
        const args = E.paramSyms(fn);
        const scope = args[fn.parameters.findIndex((x) => c.P.checker.getTypeAtLocation(x).symbol?.name === 'Scope')];
        if (!scope) continue;
        for (const p of c.paths(E, fn, { cls })) for (const e of calls(p, isCall('Runtime.render', 'Runtime.diff'))) { n++; c.expect(c.same(p, e.args[e.name === 'render' ? 1 : 2], scope), e.node, 'a child of a list is rendered in another scope', p); }
      }
      if (!helpers.size) { c.undecide('lists are not diffed in a helper of their own'); c.expect(true, diff, ''); } else c.expect(n > 0, diff, 'the children of a list are never rendered');
    },
  },
  {
    name: 'update-scope',
    text: 'an update of a component renders it in a new scope entered from the scope kept on its node, and diffs its result in that scope',
    run(c) {
      const all = c.P.implementors('Transaction').map((k) => [k, c.P.member(k, 'prepare')?.decl]).filter((x) => x[1]?.body);
      let n = 0;
      for (const [k, fn] of all) {
        const E = c.engine({ opaque: opaqueNames('enter') });
        for (const p of c.paths(E, fn, { cls: k })) {
          for (const r of calls(p, isCall('ComponentInstance.render', 'FunctionComponent.render'))) {
            n++;
            const en = calls(p, isCall('Scope.enter'));
            if (!c.expect(en.length === 1 && en[0].recv.k === 'f' && en[0].recv.name === 'scope' && en[0].recv.base.k === 'f' && en[0].recv.base.name === 'state', r.node, 'a component is updated in a scope that is not entered from the one of its node', p)) continue;
            const node = en[0].recv.base.base;
            c.expect(c.same(p, en[0].args[0], fld(node, 'type')), en[0].node, 'the new scope is not owned by the component', p);
            c.expect(c.same(p, r.args[1], en[0].res), r.node, 'the component is not rendered in its new scope', p);
            for (const d of calls(p, isCall('Renderer.diff', 'Renderer.render'))) c.expect(c.same(p, d.args[d.name === 'diff' ? 2 : 1], en[0].res), d.node, 'the result of the component is rendered outside its scope', p);
          }
        }
      }
      c.expect(n > 0, null, 'no transaction renders a component');
    },
  },
];
const instanceOf = (v, cls) => T.op('instanceof', v, cls);
const c_true = (p, pred) => p.st.decide(pred) === true;
/** The element of list that a loop looks at. */
function elemIn(c, p, loop, list) {
  for (const e of p.events) {
    let out = null;
    if (e.t === 'branch' && e.loops.includes(loop)) T.contains(e.pred, (t) => { if (t.k === 'idx' && c.same(p, t.arr, list)) out ??= t; return false; });
    if (out) return out;
  }
  return null;
}
/** Does the loop visit all of list from the last to the first element? */
function reverse(c, p, loop, v, list) {
  if (loop.backwards) return c.same(p, loop.over, list);
  if (loop.over) { const o = p.st.canon(loop.over); return o.k === 'r' && o.name === 'toReversed' && c.same(p, o.recv, list); }
  const len = T.field(p.st.canon(list), 'length', 0);
  for (const x of loop.carried?.values() ?? []) {
    if (!x.cell || !x.nexts?.length) continue;
    if (!x.nexts.every((n) => T.linSum(n, x.hv, -1) === cst(-1))) continue;
    const off = T.linSum(v.i, x.hv, -1); // index = counter + off
    const start = T.linSum(T.linSum(p.st.canon(x.init), off), p.st.canon(len), -1);
    const st = p.st;
    if (start !== cst(-1)) continue;
    // the loop stops below index 0
    if (loop.cond && off.k === 'c') {
      const lim = -1 - off.v;
      const accept = [st.pNot(st.pLe(x.hv, lim)), st.pNot(st.pEq(x.hv, cst(lim)))];
      if (accept.some((q) => q === loop.cond || T.show(q) === T.show(loop.cond))) return true;
    }
  }
  return false;
}
