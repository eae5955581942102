import { T, cst, UNDEF, U, N, fld, calls, idxOf, covers, isCall, knows, refutes, ts, AnchorError, opaqueNames } from './_lib.mjs';
import { batches, scheduleInfo, reachesFn, enclosingFn, valueAt } from './_runtime.mjs';

export const about = 'Closure chain of the middleware pipeline: the call made for the first middleware, and, by running the continuation it is given abstractly, the call made for each next position and for the end; plus the effects of the function that removes a middleware.';
export const assumptions = ['The pipeline is the same at every position (positions 0 to 3 and the end are analysed).', 'Middlewares are not removed while an update is in the pipeline (documented as undefined).'];

export const rules = [
  {
    name: 'pipeline-chain',
    text: 'an update is given to the first middleware, each continuation passes its argument to the next one, and behind the last the update passed on is prepared with the lanes of the flush and the renderer; the result goes back unchanged',
    run(c) {
      const f = batches(c);
      let n = 0;
      const seen = new Set();
      const mws = [];
      for (const p of f.fps) for (const e of p.user.filter((x) => x.decl === 'Middleware.handle' || x.decl === 'Transaction.prepare')) {
        if (p.events.some((x) => x.t === 'throwback')) continue;
        const loop = e.loops.at(-1);
        const u0 = p.events.find((x) => x.t === 'loop' && x.loop === loop) && element(p, loop);
        const sig = e.node.pos + e.decl;
        if (seen.has(sig)) continue;
        seen.add(sig);
        p.lanesIn = f.flushLanes ? valueAt(p, f.thisT, f.flushLanes, e) : null;
        n++;
        if (e.decl === 'Middleware.handle') {
          const arr = e.recv.k === 'idx' ? e.recv.arr : null;
          if (!c.expect(arr && e.recv.i === cst(0), e.node, 'an update does not enter the pipeline at the first middleware', p)) continue;
          mws.push(arr);
          c.expect(isElement(p, e.args[0], loop, p.batchT), e.node, 'the first middleware does not get the update of the batch', p);
          step(c, p, e, arr, 1, f);
        } else {
          c.expect(isElement(p, e.recv.k === 'f' ? e.recv.base : e.recv, loop, p.batchT), e.node, 'without middlewares another update is prepared', p);
          checkPrepare(c, p, e, f, p);
          // only when there are no middlewares
          const known = mws.length ? knows(p, p.st.pEq(p.E.lengthTerm(mws[0], p.st), cst(0))) : lengthZero(p);
          c.expect(known, e.node, 'an update is prepared without the middlewares', p);
        }
      }
      c.expect(n > 0, f.flush, 'no update is prepared');
    },
  },
  {
    name: 'pipeline-everywhere',
    text: 'transactions are prepared only at the end of the pipeline',
    run(c) {
      const f = batches(c);
      const funcs = f.fE.funcs;
      // closures inside followed functions belong to them
      const inside = (fn) => { for (let x = fn; x; x = enclosingFn(x)) if (funcs.has(x)) return true; return false; };
      let n = 0;
      for (const file of c.P.files) c.P.walk(file, (x) => {
        if (!ts.isCallExpression(x) || !ts.isPropertyAccessExpression(x.expression) || x.expression.name.text !== 'prepare') return;
        const d = c.P.symbolOf(x.expression.name)?.valueDeclaration;
        if (!d || !/^(Transaction)$/.test(d.parent?.name?.text ?? '')) return;
        n++;
        c.expect(inside(enclosingFn(x)), x, 'a transaction is prepared outside the pipeline');
      });
      c.expect(n > 0, f.flush, 'no transaction is prepared');
    },
  },
  {
    name: 'middleware-removal',
    text: 'registering appends the middleware and returns a function that removes that middleware only',
    run(c) {
      const cls = c.P.cls('Runtime');
      const fn = c.P.method(cls, 'use');
      const E = c.engine();
      const [m] = E.paramSyms(fn);
      for (const p of c.paths(E, fn, { cls })) {
        const add = p.events.filter((e) => e.t === 'call' && e.builtin && e.name === 'push' && e.args.length === 1 && c.same(p, e.args[0], m));
        if (!c.expect(add.length === 1 && p.kind === 'return', fn, 'a middleware is not appended to the registered ones exactly once', p)) continue;
        const list = add[0].recv;
        if (!c.expect(p.value.k === 'fn', fn, 'registering a middleware returns no function to remove it', p)) continue;
        let removes = 0;
        for (const q of c.callPaths(p, p.value, [])) {
          const sp = q.own.filter((e) => e.t === 'call' && e.builtin && ['splice', 'pop', 'shift', 'fill', 'reverse', 'sort', 'push', 'unshift'].includes(e.name) && c.same(q, e.recv, list));
          const io = q.own.filter((e) => e.t === 'call' && ['indexOf', 'lastIndexOf'].includes(e.name) && c.same(q, e.args[0], m));
          const other = q.own.filter((e) => e.t === 'write' && (c.same(q, e.base, list) || e.value.k === 'o' || e.value.k === 'r'));
          if (other.length) { c.undecide('the removal of middlewares replaces the list'); continue; }
          const found = io.some((e) => knows(q, q.st.pLeq(cst(0), e.res)) || refutes(q, q.st.pEq(e.res, cst(-1))));
          for (const e of sp) {
            removes++;
            c.expect(e.name === 'splice' && e.args.length === 2 && c.same(q, e.args[1], cst(1)) && io.some((x) => c.same(q, x.res, e.args[0])) && found, e.node, 'removing a middleware removes something else', q);
          }
          if (found) c.expect(sp.length === 1, p.value.node, 'a registered middleware is not removed', q);
        }
        c.expect(removes > 0 || c.undecided.length > 0, p.value.node, 'the returned function does not remove the middleware', p);
      }
    },
  },
];
function lengthZero(p) {
  return p.events.some((e) => e.t === 'branch' && T.contains(e.pred, (t) => t.k === 'f' && t.name === 'length' && t.base.k === 'f' && p.st.canon(t) === cst(0)));
}
function element(p, loop) { return loop; }
function isElement(p, t, loop, arr) {
  t = p.st.canon(t);
  return t.k === 'idx' && T.contains(t.i, (x) => x.k === 'hv' && x.loop === loop) && (!arr || p.st.canon(t.arr) === p.st.canon(arr));
}
function step(c, p, e, arr, i, f) {
  const next = e.args[1];
  if (!c.expect(next && (next.k === 'fn' || next.k === 'bm'), e.node, 'a middleware gets no continuation', p)) return;
  const u = T.sym(`passed-on-${i}`); u.m0 = T.O; u.label = 'passed on';
  const st = p.st.clone();
  if (f.flushLanes && p.lanesIn) p.E.hset(st, f.thisT, cst(f.flushLanes), p.lanesIn);
  const qs = c.callPaths(p, next, [u], UNDEF, st);
  let handled = 0, prepared = 0;
  for (const q of qs) {
    const hs = q.own.filter((x) => x.t === 'call' && (x.decl === 'Middleware.handle' || x.decl === 'Transaction.prepare'));
    if (q.kind === 'throw') continue;
    if (!c.expect(hs.length === 1, hs[1]?.node ?? next.node ?? e.node, 'a continuation does not lead to the next step exactly once', q)) continue;
    const h = hs[0];
    c.expect(c.same(q, q.value, h.res), h.node, 'the result of a later step is not what the continuation returns', q);
    if (h.decl === 'Middleware.handle') {
      handled++;
      c.expect(h.recv.k === 'idx' && c.same(q, h.recv.arr, arr) && q.st.canon(h.recv.i) === cst(i), h.node, 'the middlewares are not run in registration order, each once', q);
      c.expect(c.same(q, h.args[0], u), h.node, 'the next middleware does not get the update that was passed on', q);
      c.expect(q.st.decide(q.st.pLt(cst(i), q.E.lengthTerm(arr, q.st))) === true, h.node, 'the end of the middlewares is not respected', q);
      q.lanesIn = p.lanesIn;
      if (i < 3) step(c, q, h, arr, i + 1, f);
    } else {
      prepared++;
      c.expect(c.same(q, h.recv, fld(u, 'transaction')), h.node, 'the update that is prepared is not the one passed on by the last middleware', q);
      checkPrepare(c, q, h, f, p);
      c.expect(q.st.decide(q.st.pLt(cst(i), q.E.lengthTerm(arr, q.st))) === false, h.node, 'a middleware is left out', q);
    }
  }
  c.expect(handled > 0 && prepared > 0 || qs.length === 0, e.node, 'the pipeline does not go on to the next middleware and to the end');
}
function checkPrepare(c, q, h, f, p) {
  c.expect(h.args.length >= 2 && c.same(q, h.args[1], f.thisT), h.node, 'the update is prepared with another renderer', q);
  const L = p.lanesIn ?? p.lanesNow;
  c.expect(L && (c.same(q, h.args[0], L) || knows(q, q.st.pEq(h.args[0], L))), h.node, 'the update is not prepared with the lanes of the flush', q);
}
