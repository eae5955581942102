// The scheduler of the repository: roles of its private state and its flush paths.
import { ts, T, cst, UNDEF, fld, calls, writes, idxOf, opaqueNames, knows, AnchorError, isCall } from './_lib.mjs';
import { enclosingFn } from '../lib/engine.mjs';

const LANES = ['getRenderLanes', 'getLaneFromPriority', 'getPriorityFromLanes'];
const QUEUE = ['enqueue', 'dequeue', 'peek'];

export function laneConst(c, name) {
  const E = c.engines[0] ?? c.engine();
  const v = E.moduleVar(c.P.variable(name));
  if (v.k !== 'c' || typeof v.v !== 'number') throw new AnchorError(`${name} is not a constant number`);
  return v.v;
}
export const bits = (op, a, b) => T.bitop(op, a, b);

/** Functions of the repository a function may call (directly or in closures). */
export function callees(P, fn) {
  const out = new Set();
  P.walk(fn, (n) => {
    if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
      const s = P.symbolOf(ts.isPropertyAccessExpression(n.expression) ? n.expression.name : n.expression);
      const d = s?.valueDeclaration;
      if (d && P.inRepo(d)) out.add(ts.isVariableDeclaration(d) && d.initializer && (ts.isArrowFunction(d.initializer) || ts.isFunctionExpression(d.initializer)) ? d.initializer : d);
    }
  });
  return out;
}
export function reachesFn(P, fn, pred, seen = new Set()) {
  if (seen.has(fn)) return false;
  seen.add(fn);
  for (const d of callees(P, fn)) if (pred(d) || reachesFn(P, d, pred, seen)) return true;
  return false;
}
export const isMethodOf = (d, cls, name) => ts.isMethodDeclaration(d) && d.parent.name?.text === cls && d.name.getText() === name;

/** Paths of Runtime.schedule with the roles found on them. */
export function scheduleInfo(c) {
  if (c._sched) return c._sched;
  const cls = c.P.cls('Runtime');
  const fn = c.P.method(cls, 'schedule');
  const dequeues = (d) => isMethodOf(d, 'PriorityQueue', 'dequeue');
  const flushLike = (f) => ts.isMethodDeclaration(f) && f.parent === cls && f.modifiers?.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword) && (callees(c.P, f).size && reachesFn(c.P, f, dequeues));
  const E = c.engine({ opaque: (f) => opaqueNames(...LANES, ...QUEUE)(f) || flushLike(f) });
  const ps = c.paths(E, fn, { cls });
  const thisT = E.thisSym(cls);
  const info = { cls, fn, E, ps, thisT, pending: null, staged: null, flushLanes: null, flush: null, queue: null, adapter: null, middlewares: null };
  for (const p of ps) {
    if (p.kind !== 'return') continue;
    p.enq = calls(p, isCall('PriorityQueue.enqueue'));
    p.update = p.enq[0]?.args[0];
    p.lanes = p.update ? c.get(p, p.update, 'lanes') : null;
    if (p.enq[0]?.recv?.k === 'f') info.queue = p.enq[0].recv.name;
    p.reqs = calls(p, (e) => !isCall('PriorityQueue.enqueue')(e) && e.args.some((a) => a.k === 'fn' || a.k === 'bm' || a.k === 'fd'));
    for (const r of p.reqs) {
      r.cb = r.args.find((a) => a.k === 'fn' || a.k === 'bm' || a.k === 'fd');
      if (r.name === 'requestCallback' && r.recv?.k === 'f') info.adapter = r.recv.name;
      r.cbPaths = c.callPaths(p, r.cb, []);
      for (const q of r.cbPaths) {
        q.flushes = q.own.filter((e) => e.t === 'call' && e.target && flushLike(e.target));
        for (const e of q.flushes) info.flush ??= e.target;
        const L = p.lanes;
        for (const w of q.own.filter((e) => e.t === 'write' && e.base === thisT && e.name)) {
          const x = fld(thisT, w.name);
          // requested lanes are taken away, delivered lanes are added
          if (L && w.value.k === 'bv' && w.value.leaves.length === 2) {
            const old = w.value.leaves.find((l) => l !== L);
            if (old && w.value === bits('&', old, bits('~', L))) info.pending ??= w.name;
            if (old && w.value === bits('|', old, L)) info.staged ??= w.name;
          }
        }
      }
    }
  }
  info.flush ??= c.P.functions.find(flushLike);
  if (!info.flush) throw new AnchorError('the flush method of Runtime (an asynchronous method that dequeues updates) was not found');
  // the busy flag: tested by the callback before it flushes
  for (const p of ps) for (const r of p.reqs ?? []) for (const q of r.cbPaths) {
    for (const e of q.own) if (e.t === 'branch') T.contains(e.pred, (t) => { if (t.k === 'f' && t.base === thisT && t.name !== info.pending && t.name !== info.staged) info.flushLanes ??= t.name; return false; });
  }
  return (c._sched = info);
}

/** Paths of the flush with failures of everything outside the scheduler. */
export function flushInfo(c) {
  if (c._flush) return c._flush;
  const s = scheduleInfo(c);
  const quiet = (e) => e.builtin || ['peek', 'dequeue', 'enqueue', 'resolve', 'reject', ...LANES].includes(e.name) || e.pure;
  const E = c.engine({ opaque: opaqueNames(...LANES, ...QUEUE), throws: (e) => (e.t === 'call' ? !quiet(e) : e.t === 'await'), maxPaths: 20000, maxSteps: 3000000 });
  const ps = c.paths(E, s.flush, { cls: s.cls });
  const thisT = s.thisT;
  const info = { ...s, fE: E, fps: ps, batch: null };
  // where dequeued updates go
  for (const p of ps) {
    for (const e of calls(p, (x) => x.builtin && x.name === 'push')) {
      if (e.args[0]?.k === 'r' && e.args[0].name === 'dequeue' || calls(p, isCall('PriorityQueue.dequeue')).some((d) => d.res === e.args[0])) {
        info.pushNode ??= e.node;
        const r = e.recv;
        if (r.k === 'hv' || r.k === 'f') info.batch ??= fieldOf(p, r, thisT);
        (p.pushes ??= []).push(e);
        p.batch ??= e.recv;
      }
    }
  }
  // the busy lanes: written with the lanes of a dequeued update
  if (!info.flushLanes) for (const p of ps) for (const w of writes(p, (e) => e.base === thisT && e.name)) { if (T.contains(w.value, (t) => t.k === 'f' && t.name === 'lanes')) info.flushLanes ??= w.name; }
  return (c._flush = info);
}
export function fieldOf(p, t, thisT) {
  if (t.k === 'f' && t.base === thisT) return t.name;
  for (const e of p.events) if (e.t === 'loop') for (const x of e.loop.carried?.values() ?? []) if (x.hv === t && x.base === thisT && x.key?.k === 'c') return x.key.v;
  return null;
}
/** The value of base.name just before an event. */
export function valueAt(p, base, name, ev) {
  let cur = p.st.canon(fld(base, name));
  let init = true;
  for (const e of p.events) {
    if (e === ev) break;
    if (e.t === 'write' && e.base === base && e.name === name) { cur = e.value; init = false; }
    if (e.t === 'loop') for (const x of e.loop.carried?.values() ?? []) if (x.base === base && x.key?.k === 'c' && x.key.v === name) { cur = x.hv; init = false; }
  }
  return init ? fld(base, name) : cur;
}
/** Calls into code outside the scheduler: rendering, middlewares, handlers, host, commits. */
export const userCalls = (p) => calls(p, (e) => !e.builtin && !['peek', 'dequeue', 'enqueue', 'resolve', 'reject', ...LANES].includes(e.name));
export const settles = (p) => calls(p, (e) => (e.name === 'resolve' || e.name === 'reject') && e.recv && (e.recv.k === 'f' && e.recv.name === 'controller'));
/** Segments of a flush path: one per batch that was taken. */
export const nonzero = (p, v) => knows(p, p.st.pTruthy(v)) || knows(p, p.st.pNot(p.st.pEq(v, cst(0))));
export { enclosingFn };

/** Batch, settlement and phase of every flush path. */
export function batches(c) {
  const f = flushInfo(c);
  if (f.annotated) return f;
  f.annotated = true;
  const { thisT } = f;
  f.settleNodes = new Set(f.fps.flatMap((p) => settles(p).map((e) => e.loops.at(-1)?.node).filter(Boolean)));
  const innerNodes = new Set(f.fps.flatMap((p) => (p.pushes ?? []).map((e) => e.loops.at(-1)?.node)));
  f.fps = f.fps.filter((p) => !p.st.infeasible() && !(p.kind === 'cut' && innerNodes.has(p.loop?.node)));
  for (const p of f.fps) {
    p.settles = settles(p);
    p.settleLoops = p.events.filter((e) => (e.t === 'loop' || e.t === 'loopzero') && f.settleNodes.has(e.loop.node));
    p.user = userCalls(p);
    p.awaits = p.events.filter((e) => e.t === 'await' && !e.inlined);
    p.taken = p.events.findLast((e) => e.t === 'loopend' && innerNodes.has(e.loop.node));
    const after = p.taken ? p.events[idxOf(p, p.taken) + 1] : null;
    p.lanesNow = f.flushLanes ? valueAt(p, thisT, f.flushLanes, after) : null;
    p.batchT = p.batch ?? (f.batch ? valueAt(p, thisT, f.batch, after) : p.settleLoops[0]?.loop.over ?? null);
    p.took = !!(p.pushes?.length || p.user.length || p.settleLoops.length || (p.taken && p.lanesNow && nonzero(p, p.lanesNow)));
  }
  return f;
}
