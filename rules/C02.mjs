import { T, cst, UNDEF, U, N, fld, calls, idxOf, isCall, knows, refutes, ts, writes, enclosingFn, evalConst } from './_lib.mjs';
import { scheduleInfo, batches, valueAt, bits, nonzero } from './_runtime.mjs';

export const about = 'Guards and bit effects of the request/delivery protocol: which lanes are marked requested and delivered on every path of scheduling, of the delivered callback and of the flush, with the busy lanes known non-zero at every suspension and every call out of the scheduler.';
export const assumptions = ['A host runs a requested callback once (decided for the DOM host under C33).', 'JavaScript runs to completion between suspensions.'];

export const rules = [
  {
    name: 'request-iff-not-covered',
    text: 'scheduling requests one callback exactly when some lane of the update is neither requested nor delivered, and marks its lanes as requested',
    run(c) {
      const s = scheduleInfo(c);
      c.expect(s.pending && s.staged, s.fn, 'the delivered callback does not move the lanes of its update from requested to delivered');
      if (!s.pending || !s.staged) return;
      const both = bits('|', fld(s.thisT, s.pending), fld(s.thisT, s.staged));
      for (const p of s.ps) {
        if (p.kind !== 'return' || !p.lanes) continue;
        const L = p.lanes;
        const covered = p.st.pEq(bits('&', both, L), L);
        const reqs = p.reqs.filter((r) => r.cbPaths.some((q) => q.flushes.length || q.own.some((e) => e.t === 'write')));
        const yes = p.st.decide(covered);
        if (reqs.length === 0) c.expect(yes === true, p.enq[0].node, 'an update is scheduled without a callback although its lanes are not all requested or delivered, so it can be lost', p);
        else {
          c.expect(reqs.length === 1, reqs[1]?.node ?? s.fn, 'more than one callback is requested for an update', p);
          c.expect(yes === false, reqs[0].node, 'a callback is requested again for lanes that are already requested or delivered', p);
          const now = c.get(p, s.thisT, s.pending);
          c.expect(now === p.st.canon(bits('|', fld(s.thisT, s.pending), L)) || p.st.decide(p.st.pEq(now, bits('|', fld(s.thisT, s.pending), L))) === true, reqs[0].node, 'the lanes of the update are not marked as requested', p);
        }
        const st = c.get(p, s.thisT, s.staged);
        c.expect(st === p.st.canon(fld(s.thisT, s.staged)), s.fn, 'scheduling changes the delivered lanes', p);
      }
    },
  },
  {
    name: 'callback-delivers',
    text: 'the callback moves exactly the lanes of its update from requested to delivered and then flushes unless a flush is in progress',
    run(c) {
      const s = scheduleInfo(c);
      if (!s.pending || !s.staged) { c.fail(s.fn, 'the delivered callback does not move the lanes of its update from requested to delivered'); return; }
      let n = 0;
      for (const p of s.ps) for (const r of p.reqs ?? []) for (const q of r.cbPaths) {
        n++;
        if (!c.expect(q.kind === 'return', r.cb.node, 'the callback throws', q)) continue;
        const L = p.lanes;
        const ev0 = q.own[0];
        const w = (name) => q.own.filter((e) => e.t === 'write' && e.base === s.thisT && e.name === name);
        const firstOld = (name) => { const x = w(name); return x.length ? x[0].value : null; };
        for (const [name, opn, what] of [[s.pending, '&', 'the callback leaves lanes requested or clears lanes of other updates'], [s.staged, '|', 'the callback does not mark exactly its lanes as delivered']]) {
          const ws = w(name);
          const v = firstOld(name);
          const old = v && (v.k === 'bv' ? v.leaves.find((l) => l !== L) : null);
          const want = old && bits(opn, old, opn === '&' ? bits('~', L) : L);
          const okOld = old && T.contains(old, (t) => (t.k === 'f' && t.name === name) || t.k === 'r' || t.k === 's' || t.k === 'hv');
          c.expect(ws.length === 1 && v === want && okOld, ws[0]?.node ?? r.cb.node, what, q);
        }
        // busy test
        if (!s.flushLanes) { c.fail(r.cb.node, 'the callback does not test whether a flush is in progress', q); continue; }
        const busyLeaf = [];
        for (const e of q.own) if (e.t === 'branch') T.contains(e.pred, (t) => { if (t.k === 'f' && t.name === s.flushLanes) busyLeaf.push(t); return false; });
        const idle = busyLeaf.length ? q.st.decide(q.st.pEq(busyLeaf[0], cst(0))) : undefined;
        c.expect(idle === undefined || q.flushes.length === (idle ? 1 : 0), r.cb.node, idle ? 'a delivered callback does not start a flush although none is in progress' : 'a second flush is started while one is in progress', q);
        if (idle === undefined) c.fail(r.cb.node, 'the callback does not test whether a flush is in progress', q);
        for (const fl of q.flushes) for (const name of [s.pending, s.staged]) for (const e of w(name)) c.expect(idxOf(q, e) < idxOf(q, fl), fl.node, 'the flush starts before the lanes are marked as delivered', q);
      }
      c.expect(n > 0, s.fn, 'no callback is requested');
    },
  },
  {
    name: 'busy-while-working',
    text: 'from taking a batch to settling it the busy lanes are non-zero at every suspension and every call out of the scheduler, and nothing is awaited outside',
    run(c) {
      const f = batches(c);
      if (!f.flushLanes) { c.fail(f.flush, 'no busy lanes'); return; }
      for (const p of f.fps) {
        for (const e of [...p.user, ...p.events.filter((x) => x.t === 'await')]) {
          const v = valueAt(p, f.thisT, f.flushLanes, e);
          c.expect(nonzero(p, v), e.node, 'the scheduler waits or calls out while it looks idle, so a second flush can start', p);
        }
      }
    },
  },
  {
    name: 'flush-takes-delivered',
    text: 'a flush ends only when the queue is empty or its first update has not been delivered, and takes a first update into an empty batch only if delivered',
    run(c) {
      const f = batches(c);
      for (const p of f.fps) {
        if (p.kind === 'return' && !p.events.some((e) => e.t === 'call' && e.target === f.flush)) {
          const from = Math.max(-1, ...p.settles.map((e) => idxOf(p, e)), ...p.awaits.map((e) => idxOf(p, e)), ...p.user.map((e) => idxOf(p, e)));
          const pk = calls(p, isCall('PriorityQueue.peek')).filter((e) => idxOf(p, e) > from);
          const ok = pk.some((e) => knows(p, p.st.pMask(e.res, U)) || (e.res.k === 'r' && undelivered(c, p, f, e.res)));
          c.expect(ok, f.flush, 'the flush ends although a delivered update is waiting', p);
        }
        // the first update of a batch must be delivered
        if (p.pushes?.length) {
          const u = p.pushes[0];
          const pk = calls(p, isCall('PriorityQueue.peek')).filter((e) => idxOf(p, e) < idxOf(p, u)).at(-1);
          const before = valueAt(p, f.thisT, f.flushLanes, firstBusy(p, f, pk));
          const empty = knows(p, p.st.pEq(before, cst(0)));
          if (pk && empty) c.expect(delivered(c, p, f, pk.res), u.node, 'an update is taken before its callback has been delivered', p);
        }
      }
    },
  },
  {
    name: 'delivered-cleared-when-empty',
    text: 'the delivered lanes are cleared exactly when the queue is known to be empty at the end of a flush, and touched nowhere else',
    run(c) {
      const f = batches(c);
      if (!f.staged) { c.fail(f.flush, 'no delivered lanes'); return; }
      for (const p of f.fps) {
        const ws = writes(p, (e) => e.base === f.thisT && e.name === f.staged);
        for (const w of ws) {
          const i = idxOf(p, w);
          const last = p.events.slice(0, i).findLast((e) => (e.t === 'call' && (isCall('PriorityQueue.peek')(e) || p.user.includes(e))) || e.t === 'await');
          const ok = last && isCall('PriorityQueue.peek')(last) && knows(p, p.st.pMask(last.res, U));
          c.expect(ok || c.same(p, w.value, valueAt(p, f.thisT, f.staged, w)), w.node, 'delivered lanes are forgotten while updates are waiting, so they are lost', p);
        }
        if (p.kind === 'return' && !p.events.some((e) => e.t === 'call' && e.target === f.flush)) {
          const last = calls(p, isCall('PriorityQueue.peek')).at(-1);
          if (last && knows(p, p.st.pMask(last.res, U))) c.expect(c.get(p, f.thisT, f.staged) === cst(0), f.flush, 'lanes stay delivered after the queue has been emptied, so the next update of these lanes is never flushed', p);
        }
        const pend = writes(p, (e) => e.base === f.thisT && e.name === f.pending);
        c.expect(pend.length === 0, pend[0]?.node ?? f.flush, 'the flush changes which lanes are requested', p);
      }
    },
  },
  {
    name: 'protocol-state-private',
    text: 'requested, delivered and busy lanes are written only by scheduling, the callback and the flush',
    run(c) {
      const f = batches(c);
      const funcs = new Set([...f.E.funcs, ...f.fE.funcs]);
      for (const name of [f.pending, f.staged, f.flushLanes].filter(Boolean)) {
        for (const file of c.P.files) c.P.walk(file, (n) => {
          if (!ts.isPropertyAccessExpression(n) || n.name.text !== name || !isWrite(n)) return;
          const d = c.P.symbolOf(n.name)?.valueDeclaration;
          if (!d || d.parent !== f.cls) return;
          const fn = enclosingFn(n);
          c.expect(funcs.has(fn) || ts.isConstructorDeclaration(fn), n, 'the state of the request protocol is changed by another function');
        });
        const decl = f.cls.members.find((m) => ts.isPropertyDeclaration(m) && m.name.getText() === name);
        if (decl?.initializer) c.expect(evalConst(c, decl.initializer) === cst(0), decl, 'a new runtime starts with lanes in effect');
      }
    },
  },
];
export function isWrite(n) {
  const p = n.parent;
  if (ts.isBinaryExpression(p) && p.left === n && p.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && p.operatorToken.kind <= ts.SyntaxKind.LastAssignment) return true;
  if ((ts.isPrefixUnaryExpression(p) || ts.isPostfixUnaryExpression(p)) && (p.operator === ts.SyntaxKind.PlusPlusToken || p.operator === ts.SyntaxKind.MinusMinusToken)) return true;
  return ts.isDeleteExpression(p);
}
function stagedTerms(p, f) {
  const out = [fld(f.thisT, f.staged)];
  for (const e of p.events) if (e.t === 'branch') T.contains(e.pred, (t) => { if ((t.k === 'f' && t.name === f.staged) || (t.k === 'hv' && String(t.name).includes(f.staged))) out.push(t); return false; });
  return out;
}
function delivered(c, p, f, u) { return stagedTerms(p, f).some((s) => { const L = fld(u, 'lanes'); return knows(p, p.st.pEq(bits('&', L, s), L)); }); }
function undelivered(c, p, f, u) { return stagedTerms(p, f).some((s) => { const L = fld(u, 'lanes'); return refutes(p, p.st.pEq(bits('&', L, s), L)); }); }
function firstBusy(p, f, pk) {
  const i = pk ? idxOf(p, pk) : 0;
  return p.events.slice(i).find((e) => e.t === 'write' && e.base === f.thisT && e.name === f.flushLanes) ?? p.events.at(-1);
}
