import { T, cst, UNDEF, U, N, fld, calls, idxOf, covers, isCall, knows, refutes, ts } from './_lib.mjs';
import { batches, valueAt, bits, laneConst } from './_runtime.mjs';

export const about = 'Selection of the commit mode on every path of a flush, by the lane bits known on the path, and the effects of the closure that is handed over.';
export const assumptions = ['A handler or host that is given the commit callback calls it at most once before its promise settles.'];

const modeCalls = (p) => ({
  handler: p.user.filter((e) => e.name === 'handler'),
  host: p.user.filter((e) => e.name === 'requestCommit'),
  direct: p.user.filter((e) => isCommit(p, e)),
});
// a call of something stored in an array the flush filled
function isCommit(p, e) { return e.fn && e.fn.k === 'idx' && e.args.length === 0 && !e.name; }

export const rules = [
  {
    name: 'mode-by-lanes',
    text: 'with a synchronous update in the batch the commits run at once and nothing is awaited; else with a commit handler they are handed to the handler of the batch; else to the host; exactly one of the three',
    run(c) {
      const f = batches(c);
      const sync = laneConst(c, 'SyncLane'), hand = laneConst(c, 'UserHandlerLane');
      let seen = { sync: 0, handler: 0, host: 0 };
      for (const p of f.fps) {
        if (!p.took) continue;
        const m = modeCalls(p);
        // an update brought in between (a failed rendering) ends the batch before its commit
        const failedBefore = p.events.some((e) => e.t === 'throwback' && !['handler', 'requestCommit', null].includes(e.from?.name ?? null) && e.from?.t === 'call');
        const L = p.lanesNow;
        const isSync = p.st.decide(p.st.pTruthy(bits('&', L, cst(sync))));
        const isHand = p.st.decide(p.st.pTruthy(bits('&', L, cst(hand))));
        const any = m.handler.length + m.host.length + m.direct.length;
        if (!any) {
          // nothing was prepared, or preparing failed
          const prepared = commitArrays(p).length > 0;
          c.expect(!prepared || failedBefore || emptyCommits(p) || p.directLoopZero, f.flush, 'prepared commits are never run', p);
          continue;
        }
        const node = (m.direct[0] ?? m.handler[0] ?? m.host[0]).node;
        c.obligations++;
        if (m.direct.length) {
          if (isSync !== true) c.fail(node, 'commits run at once although the batch is not known to contain a synchronous update', p); else seen.sync++;
        }
        if (m.handler.length) {
          if (isSync !== false) c.fail(node, 'a batch that may contain a synchronous update waits for a commit handler', p);
          else if (isHand !== true) c.fail(node, 'a commit handler is called for a batch that is not known to carry one', p);
          else seen.handler++;
        }
        if (m.host.length) {
          if (isSync !== false || isHand !== false) c.fail(node, 'a batch with a synchronous update or a commit handler is handed to the host commit scheduler', p);
          else seen.host++;
        }
        const modes = (m.direct.length ? 1 : 0) + m.handler.length + m.host.length;
        if (modes > 1) c.fail(node, 'the commits of a batch are run in more than one way', p);
        if (isSync === true) for (const a of p.awaits) c.fail(a.node, 'a synchronous batch waits', p);
      }
      for (const k of Object.keys(seen)) c.expect(seen[k] > 0, f.flush, `no batch is committed in ${k} mode`);
    },
  },
  {
    name: 'commits-run-in-order',
    text: 'the callback handed over, and the synchronous commit, run every prepared commit exactly once, in order, without arguments, and let errors through',
    run(c) {
      const f = batches(c);
      let n = 0;
      const done = new Set();
      for (const p of f.fps) {
        const m = modeCalls(p);
        const arrays = commitArrays(p);
        const arr = arrays[0];
        for (const e of [...m.handler, ...m.host]) {
          const cb = e.args[0];
          if (!c.expect(cb && ['fn', 'bm', 'fd'].includes(cb.k) && e.args.length === 1, e.node, 'the commits are not handed over as one callback', p)) continue;
          const sig = (cb.node?.pos ?? 0) + e.node.pos + (arr ? 'a' : '');
          if (done.has(sig)) continue;
          if (arr) done.add(sig);
          const qs = c.callPaths(p, cb, []);
          for (const q of qs) { n++; checkRun(c, p, q, q.own, arr, cb.node ?? e.node, q.kind); }
        }
        if (m.direct.length) { n++; checkRun(c, p, p, p.events, arr, m.direct[0].node, p.kind); }
      }
      c.expect(n > 0, f.flush, 'prepared commits are never run');
    },
  },
  {
    name: 'commits-collected-in-order',
    text: 'what preparing an update yields is added to the end of the commits of the batch, once per prepared update, in batch order',
    run(c) {
      const f = batches(c);
      for (const p of f.fps) {
        const preps = p.user.filter((e) => e.decl === 'Transaction.prepare' || e.decl === 'Middleware.handle');
        for (const e of preps) {
          if (p.events.some((x) => x.t === 'throwback' && x.from === e)) continue;
          const uses = p.events.filter((x) => x.t === 'call' && x.builtin && x.name === 'push' && x.args.some((a) => c.same(p, a, e.res)));
          const unshift = p.events.some((x) => x.t === 'call' && x.builtin && x.name === 'unshift' && x.args.some((a) => c.same(p, a, e.res)));
          c.expect(!unshift && (uses.length === 1 || uses.length === 0 && p.events.some((x) => x.t === 'write' && c.same(p, x.value, e.res))), e.node, 'a prepared commit is not added to the commits of the batch exactly once', p);
          const loop = e.loops.findLast((l) => p.batchT && covers(l, p.batchT, p, { ordered: true }));
          c.expect(!!loop, e.node, 'the updates of the batch are not prepared one after another in order', p);
        }
      }
    },
  },
  {
    name: 'handler-batch-of-its-own',
    text: 'an update with a commit handler is taken only into an empty batch and is the last one taken, and the handler called is the one of an update of the batch',
    run(c) {
      const f = batches(c);
      const hand = laneConst(c, 'UserHandlerLane'), sync = laneConst(c, 'SyncLane');
      let n = 0;
      for (const p of f.fps) {
        for (const e of p.pushes ?? []) {
          const pk = calls(p, isCall('PriorityQueue.peek')).filter((x) => idxOf(p, x) < idxOf(p, e)).at(-1);
          const u = pk?.res ?? e.args[0];
          const L = fld(u, 'lanes');
          const has = p.st.decide(p.st.pTruthy(bits('&', L, cst(hand))));
          const start = p.events.slice(0, idxOf(p, e)).findLast((x) => x.t === 'write' && x.base === f.thisT && x.name === f.flushLanes) ?? e;
          const before = valueAt(p, f.thisT, f.flushLanes, start);
          const empty = p.st.decide(p.st.pEq(before, cst(0)));
          n++;
          if (has !== false) c.expect(empty === true, e.node, 'an update with a commit handler joins a batch that has other updates', p);
          // after a handler update nothing more is taken
          const now = valueAt(p, f.thisT, f.flushLanes, p.events[idxOf(p, e) + 1]);
          const end = p.events.find((x) => x.t === 'loopend' && idxOf(p, x) > idxOf(p, e) && x.loop === e.loops.at(-1));
          if (p.st.decide(p.st.pTruthy(bits('&', now, cst(hand)))) !== false) c.expect(end && end.how !== 'back', e.node, 'further updates are taken into the batch of an update with a commit handler', p);
        }
        for (const e of p.user.filter((x) => x.name === 'handler')) {
          const base = e.fn?.k === 'f' ? p.st.canon(e.fn.base) : null;
          c.expect(base && p.batchT && T.contains(base, (t) => t === p.st.canon(p.batchT)), e.node, 'the commit handler called does not belong to the batch', p);
        }
      }
      c.expect(n > 0, f.flush, 'no update is taken');
    },
  },
];
/** Arrays that prepared commits are pushed to on this path. */
function commitArrays(p) {
  const out = [];
  for (const e of p.events) if (e.t === 'call' && e.builtin && e.name === 'push' && e.args[0]?.k === 'r' && ['prepare', 'handle'].includes(e.args[0].name)) if (!out.includes(e.recv)) out.push(e.recv);
  return out;
}
function emptyCommits(p) {
  return p.events.some((e) => e.t === 'branch' && T.contains(e.pred, (t) => t.k === 'f' && t.name === 'length'));
}
function checkRun(c, p, q, evs, arr, node, kind) {
  const cs = evs.filter((e) => e.t === 'call' && isCommit(q, e));
  const loops = evs.filter((e) => (e.t === 'loop' || e.t === 'loopzero'));
  if (!cs.length) {
    const zero = evs.some((e) => e.t === 'loopzero' && (!arr || covers(e.loop, arr, q, { zero: true })));
    c.expect(zero || evs === p.events, node, 'a path of the commit callback runs no commit', q);
    return;
  }
  const loop = cs[0].loops.at(-1);
  if (!c.expect(cs.length === 1 && loop, cs[1]?.node ?? node, 'a commit is run more than once', q)) return;
  const a = cs[0].fn.arr;
  c.expect(covers(loop, a, q, { ordered: true }) && T.contains(cs[0].fn.i, (t) => t.k === 'hv' && t.loop === loop), node, 'the commits are not run one after another in order', q);
  if (arr) c.expect(c.same(q, a, arr), node, 'the callback does not run the commits of this batch', q);
  const end = evs.find((e) => e.t === 'loopend' && e.loop === loop);
  c.expect(end?.how !== 'break', node, 'running the commits stops early', q);
  const thrown = evs.find((e) => e.t === 'throwback' && e.from === cs[0]);
  if (thrown && evs !== p.events) c.expect(kind === 'throw', node, 'an error of a commit is swallowed', q);
}
