import { T, cst, UNDEF, U, N, fld, calls, idxOf, covers, isCall, knows, ts } from './_lib.mjs';
import { scheduleInfo, batches, valueAt } from './_runtime.mjs';

export const about = 'Settlement typestate of an update handle: every path of the flush of a batch (normal, and with a failure of every call out of the scheduler and of every await) is followed to the place where the handles of the batch are settled and to the end of the iteration.';
export const assumptions = ['Promise.withResolvers, await and the queue (C27) behave as specified.', 'Arrays are visited as their loops and indices say; a loop is represented by one arbitrary iteration.'];

export const rules = [
  {
    name: 'handle-belongs-to-update',
    text: 'scheduling enqueues exactly one update and returns the promise of the controller stored in that update',
    run(c) {
      const s = scheduleInfo(c);
      for (const p of s.ps) {
        if (!c.expect(p.kind === 'return', s.fn, 'scheduling throws', p)) continue;
        if (!c.expect(p.enq.length === 1, p.enq[1]?.node ?? s.fn, 'an update is not enqueued exactly once', p)) continue;
        const u = p.update;
        c.expect(c.same(p, c.get(p, p.value, 'finished'), c.get(p, u, 'controller', 'promise')), s.fn, 'the returned promise is not the one settled with the update', p);
        c.expect(c.same(p, c.get(p, p.value, 'lanes'), c.get(p, u, 'lanes')), s.fn, 'the handle and the update disagree about the lanes', p);
        const [tx, options] = s.E.paramSyms(s.fn);
        c.expect(c.same(p, c.get(p, u, 'transaction'), tx), p.enq[0].node, 'the update does not carry the given transaction', p);
        c.expect(T.contains(c.get(p, u, 'controller'), (t) => t.k === 'r' || t.k === 'o'), p.enq[0].node, 'the update has no controller of its own', p);
      }
    },
  },
  {
    name: 'dequeued-is-batched',
    text: 'every update taken from the queue is put into the batch exactly once',
    run(c) {
      const f = batches(c);
      let n = 0;
      for (const p of f.fps) for (const d of calls(p, isCall('PriorityQueue.dequeue'))) {
        n++;
        const uses = (p.pushes ?? []).filter((e) => e.args[0] === d.res);
        c.expect(uses.length === 1 || (uses.length === 0 && knows(p, p.st.pMask(d.res, U))), d.node, 'an update taken from the queue is not put into the batch exactly once, so it is never settled', p);
      }
      c.expect(n > 0, f.flush, 'no update is taken from the queue');
    },
  },
  {
    name: 'batch-settled-once',
    text: 'on every path each update of the batch has its controller resolved or rejected exactly once',
    run(c) {
      const f = batches(c);
      for (const p of f.fps) {
        if (!p.took) { c.expect(p.settles.length === 0, f.flush, 'updates are settled although no batch was taken', p); continue; }
        const node = p.settleLoops[0]?.loop.node ?? f.flush;
        if (!c.expect(p.settleLoops.length === 1, node, p.settleLoops.length ? 'the updates of a batch are settled more than once' : 'the updates of a batch are not settled', p)) continue;
        const { loop } = p.settleLoops[0];
        if (p.batchT) c.expect(covers(loop, p.batchT, p, { zero: p.settleLoops[0].t === 'loopzero' }), node, 'not every update of the batch is settled', p);
        if (p.settleLoops[0].t === 'loop') {
          const mine = p.settles.filter((e) => e.loops.includes(loop));
          const el = mine[0]?.recv.base;
          c.expect(mine.length === 1 && el && T.contains(el, (t) => t.k === 'hv' && t.loop === loop), mine[1]?.node ?? node, 'an update of the batch is not settled exactly once', p);
          const end = p.events.find((e) => e.t === 'loopend' && e.loop === loop);
          c.expect(end?.how !== 'break', node, 'settling stops before the end of the batch', p);
        }
      }
    },
  },
  {
    name: 'resolve-after-commit',
    text: 'handles are resolved only on paths without a failure and after everything else of the batch',
    run(c) {
      const f = batches(c);
      for (const p of f.fps) {
        const r = p.settles.filter((e) => e.name === 'resolve');
        if (!r.length) continue;
        c.obligations++;
        const bad = p.events.find((e) => e.t === 'throwback' || e.t === 'catch');
        if (bad) c.fail(r[0].node, 'an update is reported as finished although its batch failed', p);
        for (const e of p.user.filter((x) => x.name === 'handler' || x.name === 'requestCommit')) {
          c.expect(p.awaits.some((a) => c.same(p, a.value, e.res)), e.node, 'the commit handed over is not awaited before its updates are reported as finished', p);
        }
        for (const e of [...p.user, ...p.awaits]) if (idxOf(p, e) > idxOf(p, r[0])) c.fail(r[0].node, 'an update is reported as finished before its batch has been committed', p);
      }
      c.expect(f.fps.some((p) => p.settles.some((e) => e.name === 'resolve')), f.flush, 'handles are never resolved');
    },
  },
  {
    name: 'reject-with-cause',
    text: 'after a failure of rendering, a middleware, a commit, a handler or the host the handles of the batch are rejected with that very error',
    run(c) {
      const f = batches(c);
      const sources = new Set();
      for (const p of f.fps) {
        const thrown = p.events.find((e) => e.t === 'throwback');
        if (!thrown) continue;
        sources.add(thrown.from.name ?? thrown.from.t);
        const caught = p.events.find((e) => e.t === 'catch' && idxOf(p, e) > idxOf(p, thrown));
        if (!c.expect(caught && c.same(p, caught.value, thrown.value), thrown.node, 'a failure leaves the flush', p)) continue;
        for (const e of p.settles) c.expect(e.name === 'reject' && e.args.length >= 1 && c.same(p, e.args[0], thrown.value), e.node, 'after a failure the handles are not rejected with its error', p);
      }
      c.expect(sources.size > 0, f.flush, 'no failure of a batch is handled');
    },
  },
  {
    name: 'flush-continues-clean',
    text: 'after each batch, failed or not, the batch is empty, its lanes are no longer in effect and the flush goes on with the queue',
    run(c) {
      const f = batches(c);
      for (const p of f.fps) {
        if (!c.expect(p.kind !== 'throw', f.flush, 'a failing batch ends the flush', p)) continue;
        if (!p.took) continue;
        const again = p.kind === 'cut' || p.events.some((e) => e.t === 'call' && e.target === f.flush);
        c.expect(again, f.flush, 'the flush ends after a batch without looking at the queue again', p);
        if (f.flushLanes) c.expect(c.get(p, f.thisT, f.flushLanes) === cst(0), f.flush, 'the lanes of a settled batch stay in effect', p);
        if (f.batch) {
          const b = c.get(p, f.thisT, f.batch);
          const len = b.k === 'o' ? p.E.lengthTerm(b, p.st) : c.get(p, b, 'length');
          c.expect(p.st.canon(len) === cst(0), f.flush, 'the updates of a settled batch stay in the batch', p);
        }
      }
    },
  },
];
