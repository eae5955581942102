import { T, cst, UNDEF, TRUE, FALSE, O, F, U, fld, calls, writes, idxOf, covers, loopsOf, isCall, knows, refutes, opaqueNames, contextClass, ownFields, AnchorError, ts } from './_lib.mjs';

export const about = 'Bit-exact accounting of one arbitrary action in a render (applied, deferred or reverting, and what becomes permanent) and of dispatching an action in an arbitrary state of the slot, over all paths of useReducer, of the dispatch function it creates and of the reducer of useState.';
export const assumptions = ['A reducer does not dispatch to its own state while it runs.', 'forceUpdate schedules the update (decided under C29).'];

function info(c) {
  if (c._red) return c._red;
  const cls = contextClass(c.P), fn = c.P.method(cls, 'useReducer');
  const E = c.engine({ opaque: opaqueNames('forceUpdate', 'areDependenciesChanged') });
  const ps = c.paths(E, fn, { cls });
  const thisT = E.thisSym(cls);
  const [reducer, initial, options] = E.paramSyms(fn);
  const fresh = [], reused = [];
  for (const p of ps) {
    p.push = p.events.filter((e) => e.t === 'call' && e.builtin && e.name === 'push' && e.recv.k === 'f' && e.recv.base === thisT && e.args[0]?.k === 'o' && e.args[0].kind === 'object');
    if (p.push.length) fresh.push(p); else if (p.kind === 'return') reused.push(p);
  }
  if (!fresh.length || !reused.length) throw new AnchorError('useReducer creates and reuses a slot');
  const r = { cls, fn, E, ps, thisT, reducer, initial, options, fresh, reused };
  // the slot and the objects it refers to, on a fresh path
  const p = fresh[0];
  r.obj = p.push[0].args[0];
  r.own = ownFields(p, r.obj);
  // dispatch, as returned
  r.dispatch = (q) => { const v = q.st.canon(q.value); return c.get(q, v, 1); };
  r.state = (q) => c.get(q, q.st.canon(q.value), 0);
  r.slot = null;
  for (const q of reused) for (const e of q.events) if (e.t === 'write' && e.base.k === 'f' && e.base.base?.k === 'idx') r.slot ??= e.base.base; else if (e.t === 'write' && e.base.k === 'idx' && e.base.arr.k === 'f' && e.base.arr.base === thisT) r.slot ??= e.base;
  if (!r.slot) throw new AnchorError('slot reused by useReducer');
  // mutable roles: by what the fresh slot holds
  r.holders = [[r.obj, [] ]];
  for (const [k, v] of Object.entries(r.own)) if (v.k === 'o' && v.kind === 'object') r.holders.push([v, [k]]);
  const find = (pred) => { for (const [o, path] of r.holders) for (const [k, v] of Object.entries(ownFields(p, o))) if (pred(v, k, o)) return [...path, k]; return null; };
  r.reducerPath = find((v) => v === p.st.canon(reducer));
  // written on reused paths: where, and with what
  const writesOn = new Map();
  for (const q of reused) for (const w of writes(q, (e) => e.name)) {
    const path = pathOf(w.base, r.slot);
    if (!path) continue;
    const key = [...path, w.name].join('.');
    if (!writesOn.has(key)) writesOn.set(key, []);
    writesOn.get(key).push({ q, w });
  }
  r.writesOn = writesOn;
  return (c._red = r);
}
function pathOf(t, base) {
  if (t === base) return [];
  if (t.k === 'f') { const p = pathOf(t.base, base); return p ? [...p, t.name] : null; }
  return null;
}
const at = (base, path) => fld(base, ...path);

/** What the fold of one path is: roles of lists, states and lanes. */
function foldInfo(c) {
  const r = info(c);
  if (r.fold) return r.fold;
  const f = { paths: [], listPath: null, pendPath: null, statePath: null, memoPath: null };
  const lanesF = (() => { for (const q of r.reused) for (const e of q.events) if (e.t === 'branch') { let n = null; T.contains(e.pred, (t) => { if (t.k === 'bv') for (const l of t.leaves) if (l.k === 'f' && l.base === r.thisT) n ??= l.name; return false; }); if (n) return n; } return null; })();
  if (!lanesF) throw new AnchorError('lanes of the render in useReducer');
  f.renderLanes = fld(r.thisT, lanesF);
  for (const q of r.reused) {
    const loop = loopsOf(q).find((x) => q.events.some((e) => e.t === 'branch' && T.contains(e.pred, (t) => t === f.renderLanes) && T.contains(e.pred, (t) => t.k === 'hv' && t.loop === x.loop || (t.k === 'idx' && T.contains(t.i, (y) => y.k === 'hv' && y.loop === x.loop)))));
    const zero = q.events.some((e) => e.t === 'loopzero');
    f.paths.push({ q, loop, zero });
    if (loop) { f.loopNode ??= loop.loop.node; f.loops ??= new Set(); f.loops.add(loop.loop); }
  }
  if (!f.loopNode) throw new AnchorError('walk over the actions in useReducer');
  for (const x of f.paths) {
    if (!x.loop) continue;
    // the action of this iteration
    for (const e of x.q.events) if (e.t === 'branch') T.contains(e.pred, (t) => { if (t.k === 'idx' && T.contains(t.i, (y) => y.k === 'hv' && y.loop === x.loop.loop)) x.action ??= t; return false; });
  }
  return (r.fold = f);
}

export const rules = [
  {
    name: 'first-render',
    text: 'a new slot starts with the initial state (computed once), no actions and the reducer, and returns that state',
    run(c) {
      const r = info(c);
      for (const p of r.fresh) {
        const isFn = p.st.decide(p.st.pMask(r.initial, F));
        const inits = calls(p, (e) => e.fn && c.same(p, e.fn, r.initial));
        if (isFn === true) c.expect(inits.length === 1 && c.same(p, r.state(p), inits[0].res), r.fn, 'the initial state is not computed once', p);
        else if (isFn === false) c.expect(inits.length === 0 && c.same(p, r.state(p), r.initial), r.fn, 'the state does not start with the initial state', p);
        else c.fail(r.fn, 'whether the initial state is a function is not checked', p);
        const all = r.holders.length ? holdersOf(c, p) : [];
        c.expect(all.some(([, k, v]) => c.same(p, v, r.reducer)), r.fn, 'the reducer is not kept', p);
        const lists = all.filter(([, , v]) => v.k === 'o' && v.kind === 'array');
        for (const [, , v] of lists) c.expect(c.get(p, v, 'length') === cst(0), r.fn, 'a new state has actions', p);
        c.expect(new Set(lists.map((x) => x[2])).size === lists.length, r.fn, 'two lists of actions are one', p);
        const states = all.filter(([, , v]) => c.same(p, v, r.state(p)));
        c.expect(states.length >= 1, r.fn, 'the initial state is not kept', p);
        const d = r.dispatch(p);
        c.expect(d.k === 'fn' || d.k === 'fd' || d.k === 'bm', r.fn, 'no dispatch function is returned', p);
      }
    },
  },
  {
    name: 'render-fold',
    text: 'in a render each action whose lanes all belong to it is applied to the state so far, the others are left; the result becomes permanent and the actions are dropped only if none was left or will be reverted',
    run(c) {
      const r = info(c), f = foldInfo(c);
      let applied = 0, skipped = 0, committed = 0;
      for (const x of f.paths) {
        const { q } = x;
        const used = r.state(q);
        const pass = q.st.canon(r.options) === UNDEF ? false : q.st.decide(q.st.pTruthy(fld(r.options, 'passthrough')));
        const memo = memoState(c, r, q);
        // the permanent state and lists
        const commit = memo.permanent.length > 0;
        for (const w of memo.permanent) c.expect(c.same(q, w.value, used), w.node, 'another state than that of the render becomes permanent', q);
        if (commit) {
          committed++;
          c.expect(memo.dropped, memo.permanent[0].node, 'actions are kept after their result has become permanent, so they are applied again', q);
        } else c.expect(!memo.dropped, memo.dropNode ?? r.fn, 'actions are dropped although their result is not permanent', q);
        if (!x.loop || x.loop.end === null) continue;
        if (!x.action) { c.fail(f.loopNode, 'an action is neither applied nor left', q); continue; }
        const A = x.action, L = fld(A, 'lanes'), Rv = fld(A, 'revertLanes'), RL = f.renderLanes;
        const lanes0 = { k: 'f' };
        void lanes0;
        const full = q.st.decide(T.op('zero', T.bitop('&', L, T.bitop('~', RL))));
        const acc = [...x.loop.loop.carried.values()].find((y) => y.next !== undefined && false) ?? null;
        void acc;
        const reds = calls(q, (e) => e.loops.includes(x.loop.loop) && e.fn && (c.same(q, e.fn, r.reducer)));
        const other = calls(q, (e) => e.loops.includes(x.loop.loop) && e.fn && !c.same(q, e.fn, r.reducer) && !e.builtin);
        for (const e of other) c.expect(false, e.node, 'something else than the current reducer is applied', q);
        const eager = fld(A, 'eagerState');
        const usesEager = c.same(q, used, eager) || (reds.length === 0 && !isCarried(used, x.loop.loop) && T.contains(used, (t) => t === eager));
        if (full === undefined) { c.fail(f.loopNode, 'whether the render covers all lanes of an action is not decided', q); continue; }
        if (full) {
          applied++;
          c.expect(reds.length === 1 || (reds.length === 0 && usesEager), f.loopNode, 'an action due in this render is not applied exactly once', q);
          if (reds.length) {
            const e = reds[0];
            c.expect(isCarried(e.args[0], x.loop.loop) && c.same(q, e.args[1], fld(A, 'payload')), e.node, 'an action is not applied to the state so far with its payload', q);
            c.expect(c.same(q, used, e.res), e.node, 'the result of an action is not used', q);
          } else {
            c.expect(pass === false, f.loopNode, 'the state computed at dispatch is used on another base', q);
            c.expect(knows(q, q.st.pNot(q.st.pMask(eager, U))), f.loopNode, 'the state computed at dispatch is used although there is none', q);
          }
          // what is left of the action is its reversal
          c.expect(c.same(q, c.get(q, A, 'lanes'), Rv), f.loopNode, 'an applied action does not wait for its reversal only', q);
        } else {
          skipped++;
          c.expect(reds.length === 0 && !usesEager, reds[0]?.node ?? f.loopNode, 'an action is applied in a render without its lanes', q);
          c.expect(isCarried(used, x.loop.loop), f.loopNode, 'a skipped action changes the state', q);
          c.expect(c.same(q, c.get(q, A, 'lanes'), L), f.loopNode, 'the lanes of a skipped action are changed', q);
          const rv = c.get(q, A, 'revertLanes');
          // a reversal is over only in a render that covers it
          c.expect(c.same(q, rv, Rv) || (c.same(q, rv, cst(0)) && knows(q, T.op('zero', T.bitop('&', Rv, T.bitop('~', RL))))), f.loopNode, 'the reversal of a skipped action is forgotten before its render', q);
          c.expect(!commit, f.loopNode, 'a state that lacks a skipped action becomes permanent', q);
        }
        if (commit) {
          // nothing was skipped before, and nothing will be reverted
          c.expect(knows(q, T.op('zero', T.bitop('&', Rv, RL))) || knows(q, q.st.pEq(Rv, cst(0))), f.loopNode, 'a state that will be reverted becomes permanent', q);
          const guard = [...x.loop.loop.carried.values()].some((y) => y.cell && y.init && isFalsy(y.init) && falsy(q, y.hv));
          c.expect(guard, f.loopNode, 'whether an earlier action was left does not matter for what becomes permanent', q);
        }
      }
      // the record of left actions is never forgotten
      for (const loop of f.loops) for (const y of loop.carried.values()) {
        if (!y.cell || !y.init || !isFalsy(y.init) || !(y.nexts?.length)) continue;
        for (const n of y.nexts) { if (n.k === 'bv') c.expect(T.decideZero(n, [], [y.hv], (t) => t) === false, f.loopNode, 'an action left earlier is forgotten'); }
      }
      c.expect(applied > 0 && skipped > 0 && committed > 0, f.loopNode, 'actions are not applied, left and made permanent');
    },
  },
  {
    name: 'render-base',
    text: 'a render folds over the permanent state (or, for passthrough state, the given initial state), over all actions kept and dispatched since, in order, and remembers its reducer and result for dispatching',
    run(c) {
      const r = info(c), f = foldInfo(c);
      for (const x of f.paths) {
        const { q } = x;
        const used = r.state(q);
        // base of the fold
        const base = x.loop ? [...x.loop.loop.carried.values()].find((y) => y.cell && calls(q, (e) => e.fn && c.same(q, e.fn, r.reducer)).some((e) => e.args[0] === y.hv))?.init ?? [...x.loop.loop.carried.values()].find((y) => y.hv === used)?.init : used;
        const pass = q.st.canon(r.options) === UNDEF ? false : q.st.decide(q.st.pTruthy(fld(r.options, 'passthrough')));
        if (base) {
          const inits = calls(q, (e) => e.fn && c.same(q, e.fn, r.initial));
          const initV = inits.length ? inits[0].res : r.initial;
          if (pass === true) c.expect(c.same(q, base, initV) && inits.length <= 1, r.fn, 'a passthrough state does not start from the given initial state', q);
          else c.expect(pathOf(base, r.slot) !== null && !inits.length && permanentPaths(c, r).has(pathOf(base, r.slot).join('.')), r.fn, 'the actions are not applied to the permanent state', q);
        }
        // every action
        const lists = listsOf(c, r);
        const adds = calls0(q).filter((e) => e.builtin && e.name === 'push' && lists.kept.has(keyOf(e.recv, r.slot)));
        const over = x.loop ? x.loop.loop.over : q.events.find((e) => e.t === 'loopzero')?.loop.over;
        if (over) {
          const keptThere = lists.kept.has(keyOf(q.st.canon(over), r.slot));
          if (keptThere) {
            const byLoop = loopsOf(q).filter((l) => l.loop !== x.loop?.loop && l.loop.over && lists.dispatched.has(keyOf(q.st.canon(l.loop.over), r.slot)));
            const zeroLoop = q.events.some((e) => e.t === 'loopzero' && e.loop.over && lists.dispatched.has(keyOf(q.st.canon(e.loop.over), r.slot)));
            const viaLoop = byLoop.length === 1 && byLoop[0].end === 'full' && adds.length === 1 && adds[0].args[0].k === 'idx' && lists.dispatched.has(keyOf(adds[0].args[0].arr, r.slot)) && adds[0].loops.includes(byLoop[0].loop) && covers(byLoop[0].loop, byLoop[0].loop.over, q, { ordered: true });
            c.expect(viaLoop || (zeroLoop && !adds.length) || adds.length === 1 && adds[0].args.length === 1 && adds[0].args[0].k === 'spread' && lists.dispatched.has(keyOf(adds[0].args[0].of, r.slot)), f.loopNode, 'the actions dispatched since the last render are not added once, in order', q);
            if (x.loop) c.expect(idxOf(q, adds[0] ?? q.events[0]) < q.events.findIndex((e) => e.t === 'loop' && e.loop === x.loop.loop), f.loopNode, 'the actions dispatched since the last render are left out', q);
          } else c.undecide('the actions are collected in another way');
        }
        if (x.loop) c.expect(x.loop.end === 'full' && covers(x.loop.loop, x.loop.loop.over ?? x.action?.arr ?? UNDEF, q, { ordered: true }), f.loopNode, 'not all actions are visited in order', q);
        // for dispatching
        const now = new Map([...r.writesOn].flatMap(([k, l]) => l.filter((y) => y.q === q).map((y) => [k, y.w])));
        c.expect([...now.values()].some((w) => c.same(q, w.value, r.reducer)), r.fn, 'a later dispatch uses the reducer of an earlier render', q);
        const st = [...now].filter(([k, w]) => c.same(q, w.value, used));
        c.expect(st.some(([k]) => !permanentPaths(c, r).has(k)), r.fn, 'a later dispatch uses the state of an earlier render', q);
        c.expect([...now].some(([k, w]) => lists.dispatched.has(k) && q.st.canon(w.value).k === 'o' && c.get(q, w.value, 'length') === cst(0)), r.fn, 'the dispatched actions are added again in the next render', q);
        c.expect(T.contains(r.dispatch(q), (t) => t === r.slot), r.fn, 'the dispatch function changes from render to render', q);
      }
    },
  },
  {
    name: 'dispatch',
    text: 'a dispatch is dropped only if no other action is outstanding and the reducer gives an equal state; otherwise it schedules one update with the given options and records one action with the lanes of that update',
    run(c) {
      const r = info(c);
      const lists = listsOf(c, r);
      let dropped = 0, recorded = 0, n = 0;
      for (const p of r.fresh) {
        if (n++ > 1) break;
        const d = r.dispatch(p);
        if (d.k !== 'fn' && d.k !== 'bm' && d.k !== 'fd') continue;
        const st = p.st.clone();
        const S = {};
        // an arbitrary state of the slot
        for (const [path, k, v, holder] of holdersOf(c, p)) {
          const key = [...path, k].join('.');
          const isList = lists.kept.has(key) || lists.dispatched.has(key);
          if (!isList && !r.writesOn.has(key)) continue;
          const s = T.sym('slot.' + key); s.m0 = isList ? O : undefined; if (isList) s.m0 = O; else if (c.same(p, v, r.reducer)) s.m0 = F;
          S[key] = s;
          c.paths && p.E.hset(st, holder, cst(k), s);
        }
        const outstanding = Object.entries(S).filter(([k]) => lists.kept.has(k) || lists.dispatched.has(k)).map(([, s]) => s);
        const redS = Object.entries(S).find(([k]) => c.same(p, holdersOf(c, p).find(([pp, kk]) => [...pp, kk].join('.') === k)[2], r.reducer))?.[1];
        const curS = Object.entries(S).filter(([k]) => !lists.kept.has(k) && !lists.dispatched.has(k)).map(([, s]) => s).filter((s) => s !== redS);
        const pay = T.sym('payload'), opt = T.sym('dispatchOptions'); opt.m0 = O;
        for (const given of [true, false]) for (const q of c.callPaths(p, d, given ? [pay, opt] : [pay], UNDEF, st)) {
          if (q.kind === 'throw') continue;
          const own = q.own.filter((e) => e.t === 'call' && !e.pure);
          const sched = own.filter((e) => e.name === 'forceUpdate' || e.decl === 'RenderContext.forceUpdate');
          const reds = own.filter((e) => redS && e.fn && c.same(q, e.fn, redS));
          const pushes = own.filter((e) => e.builtin && e.name === 'push' && outstanding.some((s) => c.same(q, s, e.recv)));
          const empty = outstanding.every((s) => knows(q, q.st.pEq(q.E.lengthTerm(s, st), cst(0))));
          for (const e of reds) c.expect(curS.some((s) => c.same(q, s, e.args[0])) && e.args[0] === currentOf(c, r, S) && c.same(q, e.args[1], pay), e.node, 'the state of an action is computed from another state or payload', q);
          for (const e of own.filter((e) => e.fn && !e.builtin && !reds.includes(e) && (T.contains(e.fn, (t) => t === r.reducer)))) c.fail(e.node, 'an outdated reducer is used', q);
          if (reds.length) c.expect(empty, reds[0].node, 'a state is computed at dispatch although other actions are outstanding', q);
          if (!sched.length) {
            dropped++;
            c.expect(empty, d.node, 'an action is dropped although others are outstanding', q);
            c.expect(pushes.length === 0, d.node, 'an action is recorded without an update', q);
            const e = reds[0];
            if (!c.expect(reds.length === 1, d.node, 'an action is dropped without applying it', q)) continue;
            const eqFn = given ? fld(opt, 'areStatesEqual') : null;
            const custom = eqFn && own.find((x) => x.fn && c.same(q, x.fn, eqFn));
            const equal = custom ? knows(q, q.st.pTruthy(custom.res)) && c.same(q, custom.args[0], e.res) && c.same(q, custom.args[1], e.args[0])
              : (eqFn ? knows(q, q.st.pMask(eqFn, T.U | T.N)) : true) && knows(q, q.st.pEq(e.res, e.args[0], 'is'));
            c.expect(equal, e.node, 'an action is dropped although its state is not known to be equal', q);
            c.expect(c.get(q, q.value, 'lanes') === cst(0), d.node, 'a dropped action claims lanes', q);
            const fin = c.get(q, q.value, 'finished');
            c.expect(own.some((x) => x.name === 'resolve' || x.decl === 'Promise.resolve') || fin.label === 'resolve' || fin.k === 'r' || fin.kind === 'promise', d.node, 'a dropped action never finishes', q);
          } else {
            recorded++;
            c.expect(sched.length === 1 && c.same(q, sched[0].recv, r.thisT), sched[1]?.node ?? d.node, 'a dispatch schedules more than one update', q);
            const o = sched[0].args[0];
            c.expect(given ? c.same(q, o, opt) : !o || o === UNDEF || (q.st.canon(o).k === 'o' && !Object.keys(ownFields(q, q.st.canon(o))).length), sched[0].node, 'the update does not get the options of the dispatch', q);
            c.expect(c.same(q, q.value, sched[0].res), d.node, 'the handle of the update is not returned', q);
            if (!c.expect(pushes.length === 1, d.node, 'an update is scheduled without recording exactly one action', q)) continue;
            const rec = pushes[0].args[0];
            const target = Object.entries(S).find(([, s]) => c.same(q, s, pushes[0].recv))[0];
            c.expect(lists.dispatched.has(target), pushes[0].node, 'an action is added to the actions of an earlier render', q);
            const H = sched[0].res, lanesOf = fld(H, 'lanes');
            c.expect(c.same(q, c.get(q, rec, 'payload'), pay), pushes[0].node, 'another payload is recorded', q);
            c.expect(c.same(q, c.get(q, rec, 'lanes'), lanesOf), pushes[0].node, 'the action does not wait for the lanes of its update', q);
            const tr = given ? q.st.decide(q.st.pTruthy(fld(opt, 'transient'))) : false;
            const rv = c.get(q, rec, 'revertLanes');
            c.expect(tr === true ? c.same(q, rv, lanesOf) : tr === false && rv === cst(0), pushes[0].node, 'the reversal of the action does not follow the transient option', q);
            const eager = c.get(q, rec, 'eagerState');
            if (reds.length) c.expect(eager === UNDEF || c.same(q, eager, reds[0].res), pushes[0].node, 'another state than the one computed is kept with the action', q);
            else c.expect(eager === UNDEF, pushes[0].node, 'a state is kept with an action that was not computed for it', q);
            // not scheduled for an equal state when nothing is outstanding
            if (reds.length) {
              const eqFn = given ? fld(opt, 'areStatesEqual') : null;
              const custom = eqFn && own.find((x) => x.fn && c.same(q, x.fn, eqFn));
              c.expect(custom ? refutes(q, q.st.pTruthy(custom.res)) : refutes(q, q.st.pEq(reds[0].res, reds[0].args[0], 'is')), d.node, 'an update is scheduled for an equal state', q);
            }
          }
        }
      }
      c.expect(dropped > 0 && recorded > 0, r.fn, 'dispatching does not drop and record actions');
    },
  },
  {
    name: 'state-reducer',
    text: 'the reducer of useState applies a function to the state so far and takes any other payload as the new state',
    run(c) {
      const cls = contextClass(c.P), fn = c.P.method(cls, 'useState');
      const E = c.engine({ opaque: opaqueNames('useReducer') });
      let n = 0;
      for (const p of c.paths(E, fn, { cls })) {
        const e = calls(p, isCall('useReducer', 'RenderContext.useReducer'));
        if (!c.expect(e.length === 1 && c.same(p, p.value, e[0].res), fn, 'a state is not one reducer hook', p)) continue;
        const [init, opts] = E.paramSyms(fn);
        c.expect(c.same(p, e[0].args[1], init) && c.same(p, e[0].args[2], opts), e[0].node, 'the initial state or the options are not passed on', p);
        const S0 = T.sym('state'), A0 = T.sym('nextState');
        for (const q of c.callPaths(p, e[0].args[0], [S0, A0])) {
          n++;
          const isFn = q.st.decide(q.st.pMask(A0, F));
          const cs = q.own.filter((x) => x.t === 'call' && x.fn && c.same(q, x.fn, A0));
          if (isFn === true) c.expect(cs.length === 1 && c.same(q, cs[0].args[0], S0) && c.same(q, q.value, cs[0].res), e[0].node, 'an updater function is not applied once to the state so far', q);
          else c.expect(isFn === false && !cs.length && c.same(q, q.value, A0), e[0].node, 'the new state is not the given one', q);
        }
      }
      c.expect(n > 1, fn, 'useState has no reducer');
    },
  },
];
const calls0 = (p) => p.events.filter((e) => e.t === 'call');
function keyOf(t, slot) { const p = t && pathOf(t, slot); return p ? p.join('.') : null; }
function holdersOf(c, p) {
  const obj = p.push[0].args[0];
  const out = [], seen = new Set();
  const visit = (o, path) => {
    if (seen.has(o)) return;
    seen.add(o);
    for (const [k, v] of Object.entries(ownFields(p, o))) {
      out.push([path, k, v, o]);
      if (v.k === 'o' && v.kind === 'object') visit(v, [...path, k]);
    }
  };
  visit(obj, []);
  return out;
}
function isFalsy(t) { return t.k === 'c' && !t.v; }
function falsy(q, t) { return knows(q, T.op('zero', t)) || refutes(q, q.st.pTruthy(t)) || knows(q, q.st.pEq(t, cst(0))); }
function isCarried(t, loop) { return t.k === 'hv' && t.loop === loop; }
/** Lists of actions of the slot: those dispatch adds to, and those kept between renders. */
function listsOf(c, r) {
  if (r.lists) return r.lists;
  const dispatched = new Set(), kept = new Set();
  const p = r.fresh[0];
  const all = holdersOf(c, p).filter(([, , v]) => v.k === 'o' && v.kind === 'array');
  const d = r.dispatch(p);
  for (const q of c.callPaths(p, d, [T.sym('payload'), T.sym('dispatchOptions')])) for (const e of q.own) if (e.t === 'call' && e.builtin && e.name === 'push') {
    const x = all.find(([, , v]) => v === e.recv);
    if (x) dispatched.add([...x[0], x[1]].join('.'));
  }
  for (const [path, k] of all) { const key = [...path, k].join('.'); if (!dispatched.has(key)) kept.add(key); }
  if (!dispatched.size) throw new AnchorError('list of dispatched actions');
  return (r.lists = { dispatched, kept });
}
/** Where the state that survives is kept: the states written together with dropping the kept actions, or read as base. */
function permanentPaths(c, r) {
  if (r.perm) return r.perm;
  const out = new Set();
  // states written on some paths only
  for (const [k, l] of r.writesOn) {
    if (listsOf(c, r).kept.has(k) || listsOf(c, r).dispatched.has(k)) continue;
    if (l.some(({ q, w }) => !c.same(q, w.value, r.state(q)))) continue;
    if (new Set(l.map((x) => x.q)).size < r.reused.length) out.add(k);
  }
  if (!out.size) for (const [k, l] of r.writesOn) if (l.every(({ q, w }) => c.same(q, w.value, r.state(q))) && !listsOf(c, r).kept.has(k)) out.add(k);
  return (r.perm = out);
}
function memoState(c, r, q) {
  const lists = listsOf(c, r), perm = permanentPaths(c, r);
  const permanent = [];
  let dropped = false, dropNode = null;
  for (const [k, l] of r.writesOn) for (const y of l) {
    if (y.q !== q) continue;
    if (perm.has(k)) permanent.push(y.w);
    if (lists.kept.has(k) && q.st.canon(y.w.value).k === 'o' && c.get(q, y.w.value, 'length') === cst(0)) { dropped = true; dropNode = y.w.node; }
  }
  for (const e of q.events) if (e.t === 'write' && e.name === 'length' && lists.kept.has(keyOf(e.base, r.slot))) { dropped = true; dropNode = e.node; }
  for (const e of calls0(q)) if (e.builtin && e.name === 'splice' && lists.kept.has(keyOf(e.recv, r.slot))) { dropped = true; dropNode = e.node; }
  return { permanent, dropped, dropNode };
}
/** The state the last render returned, among the arbitrary slot state. */
function currentOf(c, r, S) {
  const perm = permanentPaths(c, r);
  for (const [k, l] of r.writesOn) if (!perm.has(k) && l.length && l.every(({ q, w }) => c.same(q, w.value, r.state(q)))) return S[k];
  return null;
}
