import { T, cst, UNDEF, NULL, U, N, I, fld, calls, writes, idxOf, isCall, knows, refutes, opaqueNames, contextClass, componentClass, selfTransaction, callMember, typedSym, ownFields, AnchorError, ts, enclosingFn, memberName } from './_lib.mjs';
import { batches, bits } from './_runtime.mjs';

export const about = 'Bit-exact accounting of the pending lanes of a component (marked when scheduling, cleared when rendering, tested by the flush), the transaction a component schedules for itself and the commit it returns, and the order in which a flush takes the updates of a batch.';
export const assumptions = ['Commits run in the order they were prepared (decided under C03).'];

function info(c) {
  if (c._i29) return c._i29;
  const cls = componentClass(c.P);
  const fn = c.P.method(cls, 'render');
  const E = c.engine({ opaque: opaqueNames('wrap', 'withScope'), throws: (e) => e.t === 'call' && !e.builtin && !e.pure });
  const ps = c.paths(E, fn, { cls });
  const [props, scope, lanes] = E.paramSyms(fn);
  const thisT = E.thisSym(cls);
  let pendF = null;
  const gE = c.engine();
  const getter = c.P.member(cls, 'pendingLanes');
  if (getter && ts.isGetAccessor(getter.decl)) for (const p of c.paths(gE, getter.decl, { cls })) { c.obligations++; if (p.value.k === 'f' && p.value.base === gE.thisSym(cls)) pendF = p.value.name; }
  else pendF = getter ? 'pendingLanes' : null;
  if (!pendF) throw new AnchorError('pending lanes of a component');
  const cE = c.engine({ throws: (e) => e.t === 'call' && !e.pure && !e.builtin });
  const con = c.P.method(cls, 'connect'), dis = c.P.method(cls, 'disconnect');
  const cps = c.paths(cE, con, { cls }), dps = c.paths(cE, dis, { cls });
  const [node] = cE.paramSyms(con);
  let nodeF = null;
  for (const p of cps) for (const w of writes(p, (e) => e.base === thisT && e.name && c.same(p, e.value, node))) nodeF ??= w.name;
  if (!nodeF) throw new AnchorError('the node a component is connected to');
  return (c._i29 = { cls, fn, E, ps, props, scope, lanes, thisT, pendF, cps, dps, con, dis, node, nodeF });
}

export const rules = [
  {
    name: 'render-clears-covered',
    text: 'rendering a component clears exactly the lanes of the render from its pending lanes, before the component function runs and even if it throws',
    run(c) {
      const r = info(c);
      const P0 = fld(r.thisT, r.pendF), want = bits('&', P0, bits('~', r.lanes));
      let n = 0;
      for (const p of r.ps) {
        const body = calls(p, (e) => !e.builtin && e.fn && e.recv && e.args.some((a) => c.same(p, a, r.props)))[0];
        const ws = writes(p, (e) => e.base === r.thisT && e.name === r.pendF);
        if (!body) continue;
        n++;
        c.expect(ws.length && c.same(p, ws.at(-1).value, want), body.node, 'a render does not clear exactly its own lanes', p);
        for (const w of ws) c.expect(idxOf(p, w) < idxOf(p, body), w.node, 'lanes are cleared after the component function ran, so an update scheduled meanwhile is lost', p);
      }
      c.expect(n > 0, r.fn, 'the component function is not called');
      // rendered once per render, with the props, the scope and the lanes of the render
      for (const p of r.ps) {
        const bodies = calls(p, (e) => !e.builtin && e.fn && e.recv && e.args.some((a) => c.same(p, a, r.props)));
        c.expect(bodies.length <= 1, bodies[1]?.node ?? r.fn, 'a component function runs twice in one render', p);
        for (const b of bodies) {
          const own = p.events.filter((e) => e.t === 'write' && idxOf(p, e) < idxOf(p, b));
          const ctx = b.recv;
          const hasV = (v) => own.some((w) => c.same(p, w.base, ctx) && c.same(p, w.value, v));
          c.expect(hasV(r.scope), b.node, 'the component function runs in the scope of another render', p);
          c.expect(hasV(r.lanes), b.node, 'the component function runs with the lanes of another render', p);
        }
      }
    },
  },
  {
    name: 'pending-lanes-writers',
    text: 'the pending lanes are changed only by rendering and by scheduling an update of the component',
    run(c) {
      const r = info(c);
      const s = self(c);
      const funcs = new Set([...r.E.funcs, ...s.p.E.funcs]);
      const decl = r.cls.members.find((m) => m.name && memberName(m.name, c.P) === r.pendF);
      let n = 0;
      for (const file of c.P.files) c.P.walk(file, (x) => {
        if (!ts.isPropertyAccessExpression(x) || c.P.symbolOf(x.name)?.valueDeclaration !== decl) return;
        const par = x.parent;
        if (!(ts.isBinaryExpression(par) && par.left === x && par.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && par.operatorToken.kind <= ts.SyntaxKind.LastAssignment)) return;
        n++;
        c.expect(funcs.has(enclosingFn(x)), x, 'pending lanes are changed elsewhere');
      });
      c.expect(n >= 2, r.fn, 'pending lanes are not marked and cleared');
    },
  },
  {
    name: 'schedule-marks',
    text: 'an update of a component is scheduled once with the given options, marks the component with exactly the lanes of the update and returns its handle',
    run(c) {
      const r = info(c), s = self(c);
      const [options] = s.p.E.paramSyms(s.fn);
      for (const p of s.ps) {
        if (p.kind !== 'return') continue;
        const sc = calls(p, isCall('schedule', 'Dispatcher.schedule'));
        if (!c.expect(sc.length === 1, sc[1]?.node ?? s.fn, 'an update is not scheduled exactly once', p)) continue;
        const e = sc[0];
        c.expect(c.same(p, e.args[1], options), e.node, 'the options are not passed on', p);
        c.expect(c.same(p, p.value, e.res), s.fn, 'the handle of the update is not returned', p);
        const ws = writes(p, (w) => w.name === r.pendF);
        const inst = e.recv.k === 'f' ? e.recv.base : null;
        c.expect(ws.length === 1 && inst && c.same(p, ws[0].base, inst) && c.same(p, ws[0].value, bits('|', fld(inst, r.pendF), fld(e.res, 'lanes'))), ws[0]?.node ?? s.fn, 'the component is not marked with exactly the lanes of its update', p);
        const scope = c.get(p, e.args[0], 'scope');
        c.expect(scope.k === 'f' && scope.base === p.E.thisSym(contextClass(c.P)), e.node, 'the update does not belong to the scope of the component', p);
        const pl = c.get(p, e.args[0], 'pendingLanes');
        c.expect(inst && c.same(p, pl, ws[0]?.value), e.node, 'the update does not report the pending lanes of its component', p);
      }
    },
  },
  {
    name: 'connected-node',
    text: 'a component is connected to the node it was committed with and to none once disconnected, even if it is disconnected while an effect fails',
    run(c) {
      const r = info(c);
      for (const p of r.cps) if (p.kind === 'return') c.expect(c.same(p, c.get(p, r.thisT, r.nodeF), r.node), r.con, 'a committed component is not connected to its node', p);
      for (const p of r.dps) if (p.kind === 'return') c.expect(knows(p, p.st.pMask(c.get(p, r.thisT, r.nodeF), U | N)), r.dis, 'an unmounted component stays connected', p);
      const decl = r.cls.members.find((m) => m.name && memberName(m.name, c.P) === r.nodeF);
      for (const file of c.P.files) c.P.walk(file, (x) => {
        if (!ts.isPropertyAccessExpression(x) || c.P.symbolOf(x.name)?.valueDeclaration !== decl) return;
        const par = x.parent;
        if (!(ts.isBinaryExpression(par) && par.left === x && par.operatorToken.kind === ts.SyntaxKind.EqualsToken)) return;
        const fn = enclosingFn(x);
        c.expect([...c.engines].some((E) => E.funcs.has(fn)), x, 'a component is connected or disconnected elsewhere');
      });
    },
  },
  {
    name: 'update-prepare',
    text: 'the update of a component that is not connected renders nothing and commits nothing; else it renders the component once with the props of its node, the lanes of the flush and a scope below that of the node, and diffs the committed child with the result',
    run(c) {
      const r = info(c), s = self(c);
      const L = typedSym('flushLanes', I), R = typedSym('renderer');
      const inst = fld(s.p.E.thisSym(contextClass(c.P)), '_instance');
      void inst;
      let off = 0, on = 0;
      for (const q of callMember(c, s.p, s.tx, 'prepare', [L, R])) {
        if (q.kind === 'throw') continue;
        const cs = q.own.filter((e) => e.t === 'call' && !e.builtin && !e.pure);
        const nodeT = nodeOf(q, r.nodeF);
        if (!nodeT) { c.fail(s.fn, 'whether the component is connected is not checked', q); continue; }
        const isNull = q.st.decide(q.st.pMask(nodeT, N | U));
        const renders = cs.filter((e) => e.name === 'render'), diffs = cs.filter((e) => e.name === 'diff');
        if (isNull !== false) {
          off++;
          c.expect(isNull === true, s.fn, 'whether the component is connected is not checked', q);
          c.expect(!cs.length && !q.own.some((e) => e.t === 'write'), cs[0]?.node ?? s.fn, 'a component that is not mounted is rendered by its own update', q);
          for (const z of c.callPaths(q, q.value, [])) c.expect(z.kind === 'return' && !z.own.some((e) => e.t === 'write' || e.t === 'call'), q.value.node ?? s.fn, 'the commit of an update of an unmounted component does something', z);
          continue;
        }
        on++;
        const st = fld(nodeT, 'state');
        if (!c.expect(renders.length === 1 && diffs.length === 1, renders[1]?.node ?? s.fn, 'a component is not rendered and diffed once', q)) continue;
        const [rd, df] = [renders[0], diffs[0]];
        c.expect(q.st.canon(rd.recv) === q.st.canon(fld(st, 'instance')) || T.show(rd.recv).endsWith('_instance'), rd.node, 'another component is rendered', q);
        c.expect(c.same(q, rd.args[0], fld(nodeT, 'props')), rd.node, 'a component is rendered with other props than those of its node', q);
        c.expect(c.same(q, rd.args[2], L), rd.node, 'a component is not rendered with the lanes of the flush', q);
        const sc = q.st.canon(rd.args[1]);
        c.expect(sc.k === 'o' && c.same(q, c.get(q, sc, 'parent'), fld(st, 'scope')) && c.same(q, c.get(q, sc, 'owner'), fld(nodeT, 'type')), rd.node, 'a component is not rendered in a new scope below that of its node', q);
        c.expect(c.same(q, df.recv, R) && c.same(q, df.args[0], T.idx(fld(nodeT, 'right'), cst(0))) && c.same(q, df.args[1], rd.res) && c.same(q, df.args[2], sc) && df.args[3] === cst(0) && c.same(q, df.args[4], nodeT), df.node, 'the rendered result is not diffed with the committed child of the component', q);
        const left = c.get(q, nodeT, 'left');
        c.expect(left.k === 'o' && c.get(q, left, 'length') === cst(1) && c.same(q, c.get(q, left, 0), df.res), df.node, 'the child of the component is not the diffed one', q);
        c.expect(!q.own.some((w) => w.t === 'write' && w.name === 'right' && c.same(q, w.base, nodeT)), df.node, 'preparing an update changes what is committed', q);
        // the commit
        let dead = 0, live = 0;
        for (const z of c.callPaths(q, q.value, [])) {
          if (z.kind === 'throw') continue;
          const zc = z.own.filter((e) => e.t === 'call' && !e.builtin && !e.pure);
          const par = z.st.decide(z.st.pMask(fld(nodeT, 'parent'), N | U));
          if (par === true) { dead++; c.expect(!zc.length && !z.own.some((e) => e.t === 'write'), zc[0]?.node ?? q.value.node, 'the update of a component that was unmounted meanwhile is committed', z); continue; }
          if (par === undefined) { c.fail(q.value.node, 'whether the component was unmounted meanwhile is not checked', z); continue; }
          live++;
          const pa = zc.filter((e) => e.name === 'patch' || e.decl === 'patch'), co = zc.filter((e) => e.name === 'connect');
          if (!c.expect(pa.length === 1 && co.length === 1, pa[1]?.node ?? q.value.node, 'the commit does not patch the child and connect the component once', z)) continue;
          c.expect(c.same(z, pa[0].args[0], T.idx(fld(nodeT, 'right'), cst(0))) && c.same(z, pa[0].args[1], c.get(q, left, 0)), pa[0].node, 'something else than the committed and the prepared child is patched', z);
          c.expect(c.same(z, co[0].recv, fld(st, 'instance')) && c.same(z, co[0].args[0], nodeT), co[0].node, 'another component is connected', z);
          c.expect(idxOf(z, pa[0]) < idxOf(z, co[0]), co[0].node, 'the component is connected before its child is committed', z);
          const right = c.get(z, nodeT, 'right');
          c.expect(c.same(z, right, left) , q.value.node, 'the prepared child does not become the committed one', z);
          const w = z.own.findLast((e) => e.t === 'write' && e.name === 'right');
          c.expect(w && idxOf(z, w) > idxOf(z, pa[0]), q.value.node, 'the prepared child counts as committed before it is', z);
        }
        c.expect(dead > 0 && live > 0, q.value.node, 'the commit does not depend on whether the component is still mounted');
      }
      c.expect(off > 0 && on > 0, s.fn, 'the update does not depend on whether the component is connected');
    },
  },
  {
    name: 'flush-skips-covered',
    text: 'a flush prepares an update exactly when lanes of it are still pending on its transaction',
    run(c) {
      const f = batches(c);
      let n = 0, skipped = 0;
      for (const p of f.fps) {
        const prep = p.user.filter((e) => e.decl === 'Middleware.handle' || e.decl === 'Transaction.prepare');
        const seen = new Set();
        for (const e of p.events) {
          if (e.t !== 'branch') continue;
          let upd = null;
          T.contains(e.pred, (t) => { if (t.k === 'f' && t.name === 'pendingLanes' && t.base.k === 'f' && t.base.name === 'transaction') upd ??= t.base.base; return false; });
          if (!upd || seen.has(upd)) continue;
          seen.add(upd);
          const v = p.st.decide(p.st.pTruthy(bits('&', fld(fld(upd, 'transaction'), 'pendingLanes'), fld(upd, 'lanes'))));
          const mine = prep.filter((x) => (x.decl === 'Middleware.handle' ? c.same(p, x.args[0], upd) : c.same(p, x.recv, fld(upd, 'transaction'))));
          if (v === undefined) { c.fail(e.node, 'whether an update is still pending is not decided by its own lanes', p); continue; }
          if (v) { n++; c.expect(mine.length === 1, e.node, 'an update with pending lanes is not prepared exactly once', p); }
          else { skipped++; c.expect(mine.length === 0, e.node, 'an update whose lanes have been rendered is prepared again', p); }
        }
        for (const x of prep) {
          const upd = x.decl === 'Middleware.handle' ? x.args[0] : x.recv.k === 'f' ? x.recv.base : x.recv;
          c.expect(knows(p, p.st.pTruthy(bits('&', fld(fld(upd, 'transaction'), 'pendingLanes'), fld(upd, 'lanes')))), x.node, 'an update is prepared although its lanes may have been rendered already', p);
        }
      }
      c.expect(n > 0 && skipped > 0, f.flush, 'whether an update is still pending is not checked');
    },
  },
  {
    name: 'outermost-first',
    text: 'the updates of a batch are prepared from outer to inner components, so that a render covers the updates below it before they are looked at',
    run(c) {
      const f = batches(c);
      let n = 0;
      const done = new Set();
      for (const p of f.fps) {
        const prep = p.user.filter((e) => e.decl === 'Middleware.handle' || e.decl === 'Transaction.prepare')[0];
        if (!prep) continue;
        n++;
        const sorts = calls0(p).filter((e) => (e.name === 'sort' || e.name === 'toSorted') && idxOf(p, e) < idxOf(p, prep));
        const loop = prep.loops.at(-1);
        const over = loop?.over ? p.st.canon(loop.over) : null;
        const mine = sorts.filter((e) => (p.batchT && c.same(p, e.recv, p.batchT)) || (over && (c.same(p, e.recv, over) || c.same(p, e.res, over))));
        if (!c.expect(mine.length > 0, prep.node, 'the updates of a batch are not put in order from outer to inner components before they are prepared', p)) continue;
        const s = mine.at(-1);
        if (done.has(s.node)) continue;
        done.add(s.node);
        const x = typedSym('u1'), y = typedSym('u2');
        if (!c.expect(s.args[0], s.node, 'the updates of a batch are sorted without comparing them', p)) continue;
        const s0 = p.st.clone();
        s0.epoch = 0;
        const lx = fld(x, 'transaction', 'scope', 'level'), ly = fld(y, 'transaction', 'scope', 'level');
        for (const q of c.callPaths(p, s.args[0], [x, y], undefined, s0)) {
          const d = q.st.canon(q.value);
          const eq = q.st.decide(q.st.pEq(lx, ly));
          const lt = q.st.decide(q.st.pLt(lx, ly)), gt = q.st.decide(q.st.pLt(ly, lx));
          const ok = d === T.linSum(lx, ly, -1) || (d.k === 'c' && typeof d.v === 'number' && (d.v < 0 ? lt === true : d.v > 0 ? gt === true : eq === true || (lt === false && gt === false)));
          c.expect(ok || eq === true, s.node, 'the updates of a batch are not sorted by the depth of their components', q);
        }
      }
      c.expect(n > 0, f.flush, 'no update is prepared');
    },
  },
];
const calls0 = (p) => p.events.filter((e) => e.t === 'call');
const self = (c) => (c._self ??= selfTransaction(c, { opaque: opaqueNames('patch') }));
function nodeOf(q, nodeF) {
  let out = null;
  for (const e of q.own) {
    if (e.t === 'branch') T.contains(e.pred, (t) => { if (t.k === 'f' && t.name === nodeF) out ??= t; return false; });
    if (out) break;
  }
  if (!out) for (const e of q.own) if (e.t === 'call') for (const t of [e.recv, ...e.args]) if (t) T.contains(t, (x) => { if (x.k === 'f' && x.name === nodeF) out ??= x; return false; });
  return out;
}
