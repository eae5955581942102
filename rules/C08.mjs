import { T, cst, UNDEF, U, fld, calls, writes, idxOf, isCall, knows, refutes, ts, AnchorError, opaqueNames, contextClass, componentClass, ownFields, enclosingFn, memberName } from './_lib.mjs';

export const about = 'Typestate of the slot list and slot index over every path of every hook method and of rendering a component, who-may-write on the slot list and index, and the hook call sequences of the add-on hooks on all their paths.';
export const assumptions = ['Component functions and custom hooks call hooks only through the render context.'];

const MUTATORS = new Set(['push', 'pop', 'shift', 'unshift', 'splice', 'sort', 'reverse', 'fill', 'copyWithin']);

function hookMethods(c) {
  const cls = contextClass(c.P);
  return cls.members.filter((m) => ts.isMethodDeclaration(m) && m.body && /^use[A-Z]/.test(memberName(m.name, c.P)));
}
function info(c) {
  if (c._hooks) return c._hooks;
  const cls = contextClass(c.P);
  const E = c.engine({ opaque: opaqueNames('areDependenciesChanged', 'sequentialEqual') });
  const out = { cls, E, methods: [], listF: null, indexF: null, types: new Map() };
  const thisT = out.thisT = E.thisSym(cls);
  for (const fn of hookMethods(c)) {
    const ps = c.paths(E, fn, { cls });
    out.methods.push({ fn, name: memberName(fn.name, c.P), ps });
    for (const p of ps) {
      p.push = p.events.filter((e) => e.t === 'call' && e.builtin && e.name === 'push' && e.recv.k === 'f' && e.recv.base === thisT && e.args[0]?.k === 'o');
      for (const e of p.push) out.listF ??= e.recv.name;
      for (const w of writes(p, (e) => e.base === thisT && e.name)) if (T.linSum(w.value, fld(thisT, w.name), -1) === cst(1)) out.indexF ??= w.name;
    }
  }
  if (!out.listF || !out.indexF) throw new AnchorError('slot list and slot index of the render context');
  out.list = fld(thisT, out.listF); out.index = fld(thisT, out.indexF);
  out.slot = T.idx(out.list, out.index);
  // the mark of a slot: the field with a constant of its own on every fresh slot
  for (const m of out.methods) for (const p of m.ps) for (const e of p.push) {
    const own = ownFields(p, e.args[0]);
    for (const [k, v] of Object.entries(own)) if (v.k === 'c' && v !== UNDEF && typeof v.v !== 'boolean') {
      if (!out.types.has(k)) out.types.set(k, new Map());
      if (!out.types.get(k).has(m.name)) out.types.get(k).set(m.name, v);
    }
  }
  // the one every slot has
  const fresh = out.methods.filter((m) => m.ps.some((p) => p.push.length));
  out.typeF = [...out.types].find(([, m]) => fresh.every((x) => m.has(x.name)))?.[0];
  if (!out.typeF) throw new AnchorError('the kind mark of a hook slot');
  out.kinds = out.types.get(out.typeF);
  return (c._hooks = out);
}
/** Which slot of the list a path looks at. */
function slotTerms(p, list) {
  const out = new Set();
  const look = (t) => T.contains(t, (x) => { if (x.k === 'idx' && p.st.canon(x.arr) === p.st.canon(list)) out.add(x); return false; });
  for (const e of p.events) {
    if (e.t === 'branch') look(e.pred);
    if (e.t === 'write') { look(e.base); look(e.value); }
    if (e.t === 'call') { if (e.recv) look(e.recv); if (e.fn) look(e.fn); e.args.forEach(look); }
  }
  if (p.value) look(p.value);
  return [...out];
}

export const rules = [
  {
    name: 'one-slot-per-call',
    text: 'each hook call moves the index on by one and touches the slot at the index it found and no other',
    run(c) {
      const h = info(c);
      for (const m of h.methods) {
        for (const p of m.ps) {
          const d = T.linSum(c.get(p, h.thisT, h.indexF), h.index, -1);
          c.expect(d === cst(1), m.fn, 'a hook call does not take exactly one slot', p);
          for (const t of slotTerms(p, h.list)) {
            const ver0 = p.st.canon(T.idx(h.list, t.i)) ;
            c.expect(p.st.canon(t.i) === h.index, m.fn, 'a hook call uses the slot of another call', p);
            void ver0;
          }
        }
      }
    },
  },
  {
    name: 'create-or-reuse',
    text: 'a slot is appended once if there is none at the index, and otherwise none is appended and the existing one has been checked to be of the same kind, else the call throws',
    run(c) {
      const h = info(c);
      for (const m of h.methods) {
        const kind = h.kinds.get(m.name);
        c.expect(!!kind, m.fn, 'a hook creates no slot of its own kind');
        for (const p of m.ps) {
          const none = p.st.decide(p.st.pMask(h.slot, U));
          if (p.push.length) {
            c.expect(none === true, p.push[0].node, 'a slot is appended although there is one', p);
            c.expect(p.push.length === 1, p.push[1]?.node ?? m.fn, 'two slots are appended', p);
            const k = ownFields(p, p.push[0].args[0])[h.typeF];
            c.expect(k === kind, p.push[0].node, 'slots of one hook are of different kinds', p);
          } else if (p.kind === 'return') {
            c.expect(none === false, m.fn, 'no slot is appended although there is none', p);
            c.expect(knows(p, p.st.pEq(fld(h.slot, h.typeF), kind)), m.fn, 'a slot of another kind is accepted', p);
          } else if (none === true) c.fail(m.fn, 'the first call of a hook throws', p);
          else c.expect(refutes(p, p.st.pEq(fld(h.slot, h.typeF), kind)), m.fn, 'a slot of the right kind is refused', p);
        }
      }
    },
  },
  {
    name: 'kinds-distinct',
    text: 'hooks with slots of their own use pairwise different kind marks; the end-of-render mark differs from all of them',
    run(c) {
      const h = info(c);
      const own = new Map();
      for (const m of h.methods) {
        // the function that appends
        for (const p of m.ps) for (const e of p.push) { const f = enclosingFn(e.node); if (!own.has(f)) own.set(f, new Set()); own.get(f).add(ownFields(p, e.args[0])[h.typeF]); }
      }
      const list = [...own];
      for (const [f, ks] of list) for (const [g, ls] of list) if (f !== g) c.expect(![...ks].some((k) => ls.has(k)), f, 'two hooks use the same kind mark');
      const fin = finalizer(c);
      for (const [f, ks] of list) for (const k of fin.kinds) c.expect(!ks.has(k), f, 'the mark of the end of the render is the kind of a hook');
    },
  },
  {
    name: 'finalize-every-render',
    text: 'every render starts at the first slot and ends with the end slot: appended and the list closed on the first render, found again on each later one, else the render throws',
    run(c) {
      const f = finalizer(c);
      for (const p of f.ps) {
        const call = p.componentCall;
        if (!call) continue;
        const ctx = p.ctx;
        const after = p.events.slice(idxOf(p, call) + 1), before = p.events.slice(0, idxOf(p, call));
        const reset = before.findLast((e) => e.t === 'write' && e.name === f.h.indexF && c.same(p, e.base, ctx));
        const isNew = p.st.canon(ctx).k === 'o';
        c.expect(isNew || (reset && reset.value === cst(0)), call.node, 'a render does not start at the first hook slot', p);
        if (isNew) c.expect(!reset || reset.value === cst(0), call.node, 'a render does not start at the first hook slot', p);
        c.expect(!after.some((e) => e.t === 'write' && e.name === f.h.indexF && T.linSum(e.value, cst(1), -1) !== cst(0)), call.node, 'the slot index is moved after the component function ran', p);
        if (p.kind !== 'return') continue;
        if (!c.expect(c.get(p, ctx, f.h.indexF) === cst(1), call.node, 'the end of a render does not look at the slot after the last hook', p)) continue;
        const list = c.get(p, ctx, f.h.listF);
        const slot = T.idx(list, cst(0));
        const pushes = p.fpush;
        if (pushes.length) {
          c.expect(pushes.length === 1 && idxOf(p, pushes[0]) > idxOf(p, call), pushes[0].node, 'the end slot is not appended once, after the hooks', p);
          if (!isNew) c.expect(knows(p, p.st.pMask(slot, U)), pushes[0].node, 'the end slot is appended although there is a slot', p);
          c.expect(p.events.some((e) => e.t === 'call' && e.name === 'freeze' && c.same(p, e.args[0], list)), pushes[0].node, 'the slot list is left open after the first render', p);
        } else {
          c.expect(refutes(p, p.st.pMask(slot, U)), call.node, 'a render without end slot is accepted', p);
          c.expect(f.kinds.some((k) => knows(p, p.st.pEq(fld(slot, f.h.typeF), k))), call.node, 'a render with more or fewer hooks than before is accepted', p);
        }
      }
      c.expect(f.ps.some((p) => p.componentCall && p.fpush.length === 0 && p.kind === 'return'), f.fn, 'no render reuses the end slot');
    },
  },
  {
    name: 'who-writes-slots',
    text: 'the slot list and the slot index are written only by the hooks and the rendering of the component',
    run(c) {
      const h = info(c); finalizer(c);
      const funcs = new Set(c.engines.flatMap((E) => [...E.funcs]));
      const decl = (n) => { for (const m of h.cls.members) if (m.name && memberName(m.name, c.P) === n) return m; return null; };
      const dl = decl(h.listF), di = decl(h.indexF);
      for (const file of c.P.files) c.P.walk(file, (n) => {
        if (!ts.isPropertyAccessExpression(n)) return;
        const d = c.P.symbolOf(n.name)?.valueDeclaration;
        if (d !== dl && d !== di) return;
        const par = n.parent;
        const write = (ts.isBinaryExpression(par) && par.left === n && par.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && par.operatorToken.kind <= ts.SyntaxKind.LastAssignment) || ts.isPostfixUnaryExpression(par) || (ts.isPrefixUnaryExpression(par) && (par.operator === ts.SyntaxKind.PlusPlusToken || par.operator === ts.SyntaxKind.MinusMinusToken))
          || (ts.isPropertyAccessExpression(par) && par.expression === n && MUTATORS.has(par.name.text) && ts.isCallExpression(par.parent));
        if (!write) return;
        const fn = enclosingFn(n);
        c.expect(funcs.has(fn), n, 'hook slots are changed outside hooks and rendering');
      });
      c.obligations++;
    },
  },
  {
    name: 'kept-values',
    text: 'a memoized value is recomputed on the first call and exactly when its dependencies changed since the previous call, with the new computation, and the call returns it; an identifier is never replaced',
    run(c) {
      const h = info(c);
      const memo = h.methods.find((m) => m.name === 'useMemo'), id = h.methods.find((m) => m.name === 'useId');
      if (!memo || !id) throw new AnchorError('useMemo and useId');
      const [comp, deps] = h.E.paramSyms(memo.fn);
      let depsF = null, resF = null;
      for (const p of memo.ps) for (const e of p.push) {
        const own = ownFields(p, e.args[0]);
        depsF ??= Object.keys(own).find((k) => own[k] === p.st.canon(deps));
        resF ??= Object.keys(own).find((k) => own[k].k === 'r' && own[k].label === 'computation' || calls(p, (x) => x.fn && c.same(p, x.fn, comp) && x.res === own[k]).length);
      }
      if (!c.expect(depsF && resF, memo.fn, 'a new memo slot does not hold the computed value and its dependencies')) return;
      for (const p of memo.ps) {
        if (p.kind !== 'return') continue;
        const run = calls(p, (x) => x.fn && c.same(p, x.fn, comp));
        c.expect(run.length <= 1, run[1]?.node ?? memo.fn, 'the computation runs twice', p);
        if (p.push.length) { c.expect(run.length === 1 && c.same(p, p.value, run[0].res), memo.fn, 'the first value is not the computed one', p); continue; }
        const changed = depsChanged(c, p, fld(h.slot, depsF), deps, h.slot);
        c.expect(c.same(p, c.get(p, h.slot, depsF), deps), memo.fn, 'the dependencies of the last call are not remembered', p);
        if (changed === undefined) c.fail(memo.fn, 'the dependencies are not compared with those of the previous call', p);
        else c.expect((run.length === 1) === changed, run[0]?.node ?? memo.fn, changed ? 'a value is kept although its dependencies changed' : 'a value is recomputed although its dependencies did not change', p);
        c.expect(c.same(p, p.value, run.length ? run[0].res : fld(h.slot, resF)), memo.fn, 'another value than the kept one is returned', p);
        c.expect(c.same(p, c.get(p, h.slot, resF), p.value), memo.fn, 'the returned value is not kept', p);
      }
      let idF = null;
      for (const p of id.ps) for (const e of p.push) {
        const own = ownFields(p, e.args[0]);
        const gen = calls(p, isCall('nextIdentifier', 'Dispatcher.nextIdentifier'));
        idF ??= Object.keys(own).find((k) => gen.some((g) => g.res === own[k]));
        c.expect(gen.length === 1 && idF && c.same(p, p.value, gen[0].res), id.fn, 'a new identifier is not kept and returned', p);
      }
      for (const p of id.ps) if (p.kind === 'return' && !p.push.length) {
        c.expect(c.same(p, p.value, fld(h.slot, idF ?? 'id')), id.fn, 'a later render gets another identifier', p);
        c.expect(!writes(p, (w) => c.same(p, w.base, h.slot)).length, id.fn, 'the kept identifier is replaced', p);
      }
    },
  },
  {
    name: 'derived-hooks',
    text: 'useCallback keeps the callback itself, useRef one reference with the initial value, and use() runs the given hook once on this context and returns its result',
    run(c) {
      const h = info(c);
      const by = (n) => { const m = h.methods.find((x) => x.name === n); if (!m) throw new AnchorError(n); return m; };
      const cb = by('useCallback'), [f] = h.E.paramSyms(cb.fn);
      for (const p of cb.ps) if (p.kind === 'return' && p.push.length) c.expect(c.same(p, p.value, f), cb.fn, 'the callback is not what is kept', p);
      for (const p of cb.ps) if (p.kind === 'return' && !p.push.length) c.expect(c.same(p, p.value, f) || T.contains(p.value, (t) => t === h.slot), cb.fn, 'another callback is returned', p);
      const rf = by('useRef'), [init] = h.E.paramSyms(rf.fn);
      let fresh = 0;
      for (const p of rf.ps) if (p.kind === 'return' && p.push.length) {
        fresh++;
        const v = p.st.canon(p.value);
        c.expect(v.k === 'o' && (c.same(p, c.get(p, v, 'current'), init)), rf.fn, 'a new reference does not hold the initial value', p);
      }
      c.expect(fresh > 0, rf.fn, 'no reference is created');
      // an empty list of dependencies: never changes
      for (const p of rf.ps) if (p.kind === 'return' && !p.push.length) for (const e of calls(p, isCall('areDependenciesChanged'))) c.expect(e.args.length === 2 && c.get(p, e.args[1], 'length') === cst(0), e.node, 'a reference depends on something', p);
      const use = c.P.method(h.cls, 'use');
      const [u] = h.E.paramSyms(use);
      for (const p of c.paths(h.E, use, { cls: h.cls })) {
        if (p.kind !== 'return') continue;
        const cs = calls(p, (e) => !e.builtin);
        c.expect(cs.length === 1 && (c.same(p, cs[0].fn ?? UNDEF, u) || c.same(p, cs[0].recv ?? UNDEF, u)) && c.same(p, cs[0].args[0] ?? UNDEF, h.thisT) && c.same(p, p.value, cs[0].res), use, 'the given hook is not run once with this context', p);
        if (cs[0]) { const obj = c.same(p, cs[0].recv ?? UNDEF, u); c.expect(p.events.some((e) => e.t === 'branch'), use, obj ? 'a function hook is used as an object' : 'an object hook is used as a function', p); }
      }
    },
  },
  {
    name: 'addon-hook-order',
    text: 'every add-on hook uses the same hooks in the same order on all of its paths, outside loops',
    run(c) {
      const cls = contextClass(c.P);
      const names = new Set(cls.members.filter((m) => ts.isMethodDeclaration(m)).map((m) => memberName(m.name, c.P)));
      const E = c.engine({ opaque: (fn) => ts.isMethodDeclaration(fn) && fn.parent === cls });
      let n = 0;
      for (const fn of c.P.functions) {
        if (fn.getSourceFile().fileName.endsWith('/component.ts')) continue;
        const ctxParam = fn.parameters.findIndex((p) => { const t = c.P.checker.getTypeAtLocation(p); return t.symbol?.valueDeclaration === cls; });
        if (ctxParam < 0 || !fn.body) continue;
        n++;
        const ps = c.paths(E, fn, { cls: ts.isClassLike(fn.parent) ? fn.parent : null });
        const ctx = E.paramSyms(fn)[ctxParam];
        let first = null;
        for (const p of ps) {
          if (p.kind !== 'return') continue;
          const seq = calls(p, (e) => e.recv && c.same(p, e.recv, ctx) && names.has(e.name) && /^use/.test(e.name));
          for (const e of seq) c.expect(e.loops.length === 0, e.node, 'a hook is used in a loop', p);
          const s = seq.map((e) => e.name).join(' ');
          if (first === null) first = s;
          c.expect(s === first, fn, `hooks are used conditionally (${first || 'none'} or ${s || 'none'})`, p);
        }
      }
      // and in component functions of the library
      c.expect(n > 0, null, 'no add-on hooks found');
    },
  },
];
/** true/false: whether the dependency lists differ; undefined: not compared. */
export function depsChanged(c, p, oldDeps, deps) {
  if ([oldDeps, deps].some((d) => knows(p, p.st.pMask(d, T.U | T.N)))) return true;
  const cmp = calls(p, isCall('areDependenciesChanged', 'sequentialEqual')).findLast((e) => e.args.length >= 2 && e.args.some((a) => c.same(p, a, oldDeps)) && e.args.some((a) => c.same(p, a, deps)));
  if (!cmp) return undefined;
  const d = p.st.decide(p.st.pTruthy(cmp.res));
  return d === undefined ? undefined : cmp.name === 'sequentialEqual' || cmp.decl === 'sequentialEqual' ? !d : d;
}
function finalizer(c) {
  if (c._fin) return c._fin;
  const h = info(c);
  const cls = componentClass(c.P);
  const fn = c.P.method(cls, 'render');
  const E = c.engine({ opaque: opaqueNames('wrap', 'withScope') });
  const ps = c.paths(E, fn, { cls });
  const kinds = [];
  for (const p of ps) {
    p.componentCall = calls(p, (e) => !e.builtin && e.fn && e.recv && (c.P.member(contextClass(c.P), 'useMemo') && (e.recv.cls === contextClass(c.P) || (e.recv.k === 'o' && e.recv.cls === contextClass(c.P)) || (e.fn.k === 'f' && e.recv.k === 'f' && e.recv.base === e.fn.base))))[0];
    p.ctx = p.componentCall?.recv;
    p.fpush = p.events.filter((e) => e.t === 'call' && e.builtin && e.name === 'push' && p.ctx && c.same(p, e.recv, c.get(p, p.ctx, h.listF)));
    for (const e of p.fpush) { const k = ownFields(p, e.args[0])[h.typeF]; if (k && !kinds.includes(k)) kinds.push(k); }
  }
  if (!ps.some((p) => p.componentCall)) throw new AnchorError('call of the component function');
  if (!kinds.length) throw new AnchorError('end-of-render slot');
  return (c._fin = { h, fn, ps, kinds });
}
