// C33: host callbacks run once, with the requested priority.
import { ts, T, cst, UNDEF, U, N, fld, calls, writes, idxOf, classImplementing, isCall, AnchorError } from './_lib.mjs';
import { scheduleInfo, laneConst, bits } from './_runtime.mjs';

export const about = 'On every path of requesting a callback or a commit (with and without each optional host feature) the trigger that is armed, what it runs and what the returned promise stands for are followed through the promise reactions.';
export const assumptions = ['The host runs what setTimeout, requestAnimationFrame, requestIdleCallback, message ports and postTask are given at most once, later, and honours their delays.'];

function adapter(c) {
  const P = c.P;
  const cls = P.implementors('HostAdapter').find((k) => { let hit = false; P.walk(k, (n) => { if (ts.isIdentifier(n) && n.text === 'requestAnimationFrame') hit = true; }); return hit; }) ?? P.cls('DOMAdapter');
  const m = (name) => { const d = P.member(cls, name)?.decl; if (!d?.body) throw new AnchorError(`${name} of the host adapter not found`); return d; };
  return { cls, m };
}
const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
const nullish = (p, t) => p.st.decide(p.st.pMask(t, U | N));

/** Does running fn call `target` exactly once with its result returned (or not)? 'direct' when it is the target. */
function runsOnce(c, p, fn, target, opts = {}) {
  fn = p.st.canon(fn);
  if (fn === p.st.canon(target)) return { own: [], p };
  if (fn.k !== 'fn' && fn.k !== 'fd') return null;
  let last = null;
  for (const q of c.callPaths(p, fn, [], UNDEF)) {
    if (q.kind !== 'return') return null;
    const cs = q.own.filter((e) => e.t === 'call' && e.fn && same(q, e.fn, target));
    if (cs.length !== 1) return null;
    if (opts.returned && !(q.value && (same(q, q.value, cs[0].res) || awaited(q, q.value, cs[0].res)))) return null;
    last = { own: q.own, p: q };
  }
  return last;
}
const awaited = (q, v, r) => { v = q.st.canon(v); return q.own.some((e) => e.t === 'await' && same(q, e.value, r)) && v !== UNDEF; };

/** The promise behind a returned value that runs callback when it resolves. */
function chained(c, p, callback, fn) {
  const v = p.st.canon(p.value ?? UNDEF);
  const wait = p.events.findIndex((e) => e.t === 'await');
  if (wait >= 0) {
    // async functions: the callback is run after the promise was awaited
    const cs = calls(p, (e) => e.fn && same(p, e.fn, callback)), ev = p.events.findIndex((e) => e.t === 'new' && e.name === 'Promise' && same(p, e.obj, p.events[wait].value));
    if (cs.length !== 1 || ev < 0 || idxOf(p, cs[0]) < wait) return null;
    const enter = p.events.find((e, j) => j > ev && e.t === 'enter' && e.args?.length >= 1);
    return enter ? { resolve: enter.args[0], from: ev } : null;
  }
  if (v.k === 'r' && v.fn?.k === 'fn') {
    let r = null;
    for (const q of c.callPaths(p, v.fn, v.args ?? [], UNDEF)) {
      if (q.kind !== 'return') return null;
      const w = q.own.find((e) => e.t === 'await'), cs = q.own.filter((e) => e.t === 'call' && e.fn && same(q, e.fn, callback));
      const ev = w ? p.events.findIndex((e) => e.t === 'new' && e.name === 'Promise' && same(q, e.obj, w.value)) : -1;
      if (ev < 0 || cs.length !== 1 || q.own.indexOf(cs[0]) < q.own.indexOf(w)) return null;
      const enter = p.events.find((e, j) => j > ev && e.t === 'enter' && e.args?.length >= 1);
      r = enter ? { resolve: enter.args[0], from: ev } : null;
    }
    return r;
  }
  if (v.k !== 'r' || v.name !== 'then') return null;
  if (!v.args.length || !runsOnce(c, p, v.args[0], callback, { returned: true })) return null;
  const pr = p.st.canon(v.recv);
  const ev = p.events.find((e) => e.t === 'new' && e.obj === pr && e.name === 'Promise');
  if (!ev) return null;
  // resolve: first parameter the executor ran with
  const i = idxOf(p, ev);
  const enter = p.events.find((e, j) => j > i && e.t === 'enter' && e.args?.length >= 1);
  return enter ? { resolve: enter.args[0], from: i } : null;
}
const early = (p, callback) => { const w = p.events.findIndex((e) => e.t === 'await'); return calls(p, (e) => e.fn && same(p, e.fn, callback) && (w < 0 || idxOf(p, e) < w)).length > 0; };
const again = (list, callback) => list.find((a) => a.run?.own.some((e) => e.t === 'call' && e.fn && same(a.run.p, e.fn, callback)));
/** Everything on the path that will resolve the promise. */
function arms(c, p, resolve) {
  const out = [];
  for (const e of p.events) {
    if (e.t === 'call' && !e.pure && !e.builtin) {
      const f = e.args?.[0];
      if (e.fn && same(p, e.fn, resolve)) { out.push({ kind: 'now', e, rank: 0 }); continue; }
      if (!f) continue;
      const run = runsOnce(c, p, f, resolve);
      if (!run) continue;
      const d = e.args[1] ? p.st.canon(e.args[1]) : null;
      if (e.name === 'setTimeout') out.push({ kind: 'timer', e, delay: d, rank: !d || (d.k === 'c' && !d.v) ? 1 : 2, run });
      else if (e.name === 'requestIdleCallback') out.push({ kind: 'idle', e, rank: 2, run });
      else if (e.name === 'requestAnimationFrame') out.push({ kind: 'frame', e, rank: 2, run });
      else if (e.name === 'queueMicrotask') out.push({ kind: 'microtask', e, rank: 0, run });
      else if (e.name === 'addEventListener') continue;
      else out.push({ kind: e.name, e, rank: null, run });
    }
    if (e.t === 'write' && e.name === 'onmessage' && runsOnce(c, p, e.value, resolve)) {
      const base = p.st.canon(e.base), other = base.k === 'f' && base.name === 'port1' ? 'port2' : base.k === 'f' && base.name === 'port2' ? 'port1' : null;
      const posted = other && p.events.some((x) => x.t === 'call' && x.name === 'postMessage' && same(p, x.recv, fld(base.base, other)) || (x.t === 'call' && x.name === 'postMessage' && p.st.canon(x.recv).k === 'f' && p.st.canon(x.recv).name === other && same(p, p.st.canon(x.recv).base, base.base)));
      if (posted) out.push({ kind: 'message', e, rank: 0 });
    }
  }
  return out;
}

export const rules = [
  {
    name: 'callback',
    text: 'a requested callback is handed once to the host task scheduler with its options, or is run once by the returned promise when the single armed trigger fires: after the delay if there is a positive one, else according to priority',
    run(c) {
      const A = adapter(c), fn = A.m('requestCallback'), E = c.engine(), [callback, options] = E.paramSyms(fn);
      let native = 0, fallback = 0;
      const ranks = new Map();
      for (const p of c.paths(E, fn, { cls: A.cls })) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        c.expect(!early(p, callback), fn, 'a requested callback is run before the call returns', p);
        const post = calls(p, (e) => e.name === 'postTask');
        if (post.length) {
          native++;
          const [e] = post;
          const opts = e.args[1] ? p.st.canon(e.args[1]) : UNDEF;
          const passed = same(p, opts, options) || (opts.k === 'o' && ['priority', 'delay', 'signal'].every((k) => same(p, c.get(p, opts, k), fld(options, k))));
          c.expect(post.length === 1 && runsOnce(c, p, e.args[0], callback, { returned: true }) && passed, e.node, 'the host scheduler does not get the callback and its options', p);
          c.expect(same(p, p.value, e.res), e.node, 'the promise of the host scheduler is not returned', p);
          continue;
        }
        fallback++;
        const ch = chained(c, p, callback, fn);
        if (!c.expect(ch, fn, 'the returned promise does not stand for the requested callback', p)) continue;
        const list = arms(c, p, ch.resolve);
        c.expect(!again(list, callback), fn, 'a requested callback is run more than once', p);
        if (!c.expect(list.length === 1, list[1]?.e.node ?? fn, 'a requested callback is not triggered by exactly one host task', p)) continue;
        const [a] = list;
        const delay = fld(options, 'delay'), none = nullish(p, options) === true || nullish(p, delay) === true || p.st.decide(p.st.pLeq(delay, cst(0))) === true;
        const delayed = a.kind === 'timer' && a.delay && same(p, a.delay, delay);
        if (!none || delayed) {
          if (c.expect(delayed, a.e.node, 'the delay of a requested callback may be ignored', p)) c.expect(p.st.decide(p.st.pLeq(delay, cst(0))) === false || p.st.decide(p.st.pTruthy(delay)) === true, a.e.node, 'a callback that is not delayed may be triggered without regard to its priority', p);
          continue;
        }
        if (!c.expect(a.rank !== null, a.e.node, 'a requested callback is not triggered by a host task', p)) continue;
        for (const pr of ['user-blocking', 'user-visible', 'background']) {
          const d = nullish(p, options) === true ? undefined : p.st.decide(p.st.pEq(fld(options, 'priority'), cst(pr)));
          // a path belongs to a priority unless it is known to be another one
          const mine = nullish(p, options) === true ? pr === 'user-visible' : d !== false;
          if (mine) { if (!ranks.has(pr)) ranks.set(pr, []); ranks.get(pr).push({ rank: a.rank, node: a.e.node, p }); }
        }
      }
      c.expect(fallback > 0, fn, 'there is no fallback without a host scheduler');
      const max = (k) => Math.max(...(ranks.get(k) ?? []).map((x) => x.rank)), min = (k) => Math.min(...(ranks.get(k) ?? []).map((x) => x.rank));
      if (fallback) for (const [a, b] of [['user-blocking', 'user-visible'], ['user-visible', 'background'], ['user-blocking', 'background']]) {
        const bad = (ranks.get(a) ?? []).find((x) => x.rank >= min(b) && x.rank > 0) ;
        c.expect(max(a) < min(b), bad?.node ?? fn, `a ${a} callback is not triggered before a ${b} one`, bad?.p);
      }
    },
  },
  {
    name: 'handed-over',
    text: 'only synchronous updates do without the host, which is asked for the priority and the delay of the update: the given priority, or else the one of its lanes, and the given delay',
    run(c) {
      const s = scheduleInfo(c), options = s.E.paramSyms(s.fn)[1], syncLane = laneConst(c, 'SyncLane');
      let n = 0;
      for (const p of s.ps) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        for (const e of p.reqs ?? []) {
          const flag = options && nullish(p, options) !== true ? p.st.decide(p.st.pTruthy(fld(options, 'flushSync'))) ?? p.st.decide(p.st.pEq(fld(options, 'flushSync'), cst(true))) : options ? false : undefined;
          const sync = (p.lanes ? p.st.decide(p.st.pTruthy(bits('&', p.lanes, cst(syncLane)))) : undefined) ?? flag;
          if (e.name === 'requestCallback') c.expect(sync === false, e.node, 'an update that may be synchronous waits for the host', p);
          else c.expect(sync === true, e.node, 'an update that is not known to be synchronous is not handed to the host', p);
          if (e.name !== 'requestCallback') continue;
          n++;
          const none = !options || nullish(p, options) === true;
          const given = none ? UNDEF : fld(options, 'priority');
          const o = e.args[1] ? p.st.canon(e.args[1]) : UNDEF;
          const pr = o === UNDEF ? UNDEF : c.get(p, o, 'priority');
          const derived = calls(p, isCall('getPriorityFromLanes')).some((x) => same(p, x.res, pr) && same(p, x.args[0], p.lanes));
          if (derived) c.expect(none || nullish(p, given) === true, e.node, 'the priority asked for is not handed to the host', p);
          else c.expect(same(p, pr, given) && !none && (nullish(p, given) === false), e.node, 'the host is asked for another priority than that of the update', p);
          if (!none) c.expect(o !== UNDEF && same(p, c.get(p, o, 'delay'), fld(options, 'delay')), e.node, 'the delay asked for is not handed to the host', p);
        }
      }
      c.expect(n > 0, s.fn, 'an update never asks the host for a callback');
    },
  },
  {
    name: 'commit',
    text: 'a requested commit is run once by the returned promise, which the next frame or a constant timeout resolves, each cancelling the other',
    run(c) {
      const A = adapter(c), fn = A.m('requestCommit'), E = c.engine(), [callback] = E.paramSyms(fn);
      let n = 0;
      for (const p of c.paths(E, fn, { cls: A.cls })) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        n++;
        c.expect(!early(p, callback), fn, 'a commit is run before the call returns', p);
        const ch = chained(c, p, callback, fn);
        if (!c.expect(ch, fn, 'the returned promise does not stand for the requested commit', p)) continue;
        const list = arms(c, p, ch.resolve);
        c.expect(!again(list, callback), fn, 'a commit is run more than once', p);
        const frames = list.filter((x) => x.kind === 'frame'), timers = list.filter((x) => x.kind === 'timer');
        c.expect(frames.length === 1 && list.length === frames.length + timers.length, list.find((x) => x.kind !== 'frame' && x.kind !== 'timer')?.e.node ?? fn, 'a commit is not requested for the next frame', p);
        if (!c.expect(timers.length === 1, fn, 'a commit may wait for a frame for ever', p) || frames.length !== 1) continue;
        const [f] = frames, [t] = timers;
        c.expect(t.delay?.k === 'c' && typeof t.delay.v === 'number' && t.delay.v > 0 && t.delay.v <= 10000, t.e.node, 'the fallback of a commit does not have a fixed timeout', p);
        const cancels = (run, name, id) => run.own.some((e) => e.t === 'call' && e.name === name && same(run.p, e.args[0], id));
        c.expect(cancels(f.run, 'clearTimeout', t.e.res), f.e.node, 'the frame does not cancel the fallback timer', p);
        c.expect(cancels(t.run, 'cancelAnimationFrame', f.e.res), t.e.node, 'the fallback timer does not cancel the frame', p);
      }
      c.expect(n > 0, fn, 'commits are never requested');
    },
  },
];
