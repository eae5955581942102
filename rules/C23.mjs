// C23: add-on hooks leave no subscription or pending state behind.
import { ts, T, cst, UNDEF, NULL, TRUE, FALSE, U, N, F, fld, idxOf, knows, refutes, contextClass, opaqueNames, AnchorError } from './_lib.mjs';

export const about = 'What each hook does while rendering is followed on every path, with the hooks it is made of left as they are; then the set-up and clean-up of every effect, and every function handed to a source, a timer or the user, are followed from the state rendering leaves behind, with everything that may have changed in between forgotten.';
export const assumptions = ['Effects run after a commit exactly when their dependencies have changed and are cleaned up before they run again and on unmount (C07); states, memos and refs behave as C08–C10 say.', 'Sources call the functions given to them when they change, until told otherwise (C18).'];

const BASE = ['useEffect', 'useMemo', 'useCallback', 'useRef', 'useState', 'useReducer', 'useId', 'forceUpdate', 'startTransition', 'provide', 'inject', 'use'];
const can = (p, t) => p.st.canon(t ?? UNDEF);
const same = (p, a, b) => !!a && !!b && can(p, a) === can(p, b);
const own = (p) => p.own ?? p.events;
const callsOf = (p, f) => own(p).filter((e) => e.t === 'call' && f(e));
const hookCall = (p, name) => callsOf(p, (e) => e.name === name && e.recv && same(p, e.recv, p.ctx));
/** Rendering paths of a hook: of the method or of the function it returns. */
function rendering(c, name, cls = null, opts = {}) {
  c._c23 ??= {};
  if (c._c23[name]) return c._c23[name];
  const k = contextClass(c.P), hooks = new Set(BASE.map((n) => c.P.method(k, n)).filter(Boolean));
  const E = c.engine({ opaque: (f) => hooks.has(f), havoc: () => false, ...opts });
  const out = [];
  let fn, params;
  if (cls) {
    fn = c.P.method(c.P.cls(cls), name); params = E.paramSyms(fn);
    for (const p of c.paths(E, fn, { cls: c.P.cls(cls) })) { p.ctx = params[0]; p.own = p.events; p.thisT = E.thisSym(c.P.cls(cls)); if (p.kind === 'return' && !p.st.infeasible()) out.push(p); }
  } else {
    fn = c.P.fn(name); params = E.paramSyms(fn);
    for (const p of c.paths(E, fn)) {
      if (p.kind !== 'return') continue;
      const ctx = T.sym('context', {});
      ctx.cls = null;
      for (const q of c.callPaths(p, p.value, [ctx], UNDEF)) { q.ctx = ctx; q.since = 0; q.own = q.events; if (q.kind === 'return' && !q.st.infeasible()) out.push(q); }
    }
  }
  return (c._c23[name] = { fn, params, ps: out, E });
}
const items = (p, t) => p.E.exactItems(can(p, t), p.st);
/** Whether an effect runs again when a term changes. */
function follows(p, e, t) {
  const d = can(p, e.args[1] ?? UNDEF);
  if (d === UNDEF || d === NULL) return true;
  const l = items(p, d);
  return l ? l.some((x) => same(p, x, t)) : undefined;
}
/** Runs a function after time has passed. */
function later(c, p, fnV, args = [], st = null, thisV = UNDEF) {
  const s = (st ?? p.st).clone();
  p.E.havoc(s, {}, p.fn);
  return c.callPaths(p, fnV, args, thisV, s).filter((q) => !q.st.infeasible()).map((q) => { q.ctx = p.ctx; return q; });
}
const isFn = (t) => ['fn', 'fd', 'bm'].includes(t?.k);
/** A function that leads to the same call as another, for cleanups. */
function releases(c, q, v, res) {
  v = can(q, v);
  if (same(q, v, res)) return true;
  if (v.k !== 'fn') return false;
  let all = true, n = 0;
  for (const r of later(c, q, v)) {
    if (r.kind !== 'return') continue;
    const hits = r.own.filter((e) => e.t === 'call' && e.fn && same(r, e.fn, res));
    const nothing = r.st.decide(r.st.pMask(res, U | N)) === true || r.st.decide(r.st.pTruthy(res)) === false;
    n++;
    if (hits.length > 1 || (!hits.length && !nothing)) all = false;
  }
  return all && n > 0;
}
const HOOKS = [
  { name: 'onUse', cls: 'Signal', label: 'a signal', source: (p) => p.thisT, sub: (q, e, p) => e.name === 'subscribe' && same(q, e.recv, p.thisT) },
  { name: 'SyncExternalStore', label: 'an external store', source: (p, R) => R.params[0], sub: (q, e, p, R) => e.fn && same(q, e.fn, R.params[0]) },
  { name: 'SyncNavigation', label: 'a navigation', source: (p, R) => R.params[0], sub: (q, e, p, R) => e.name === 'listen' && same(q, e.recv, R.params[0]) },
];
/** The effects of a rendering path that subscribe, with their set-up paths. */
function subscribing(c, H, R, p) {
  const out = [];
  for (const e of hookCall(p, 'useEffect')) {
    const f = can(p, e.args[0]);
    if (!isFn(f)) continue;
    const qs = later(c, p, f), hits = qs.map((q) => q.own.filter((x) => x.t === 'call' && H.sub(q, x, p, R)));
    if (hits.some((h) => h.length)) out.push({ e, qs, hits });
  }
  return out;
}
function subscriptions(c) {
  for (const H of HOOKS) {
    const R = rendering(c, H.name, H.cls);
    if (!R.ps.length) { c.undecide(`${c.P.where(R.fn)}: the hook is not followed`); continue; }
    for (const p of R.ps) {
      const early = callsOf(p, (e) => H.sub(p, e, p, R));
      c.expect(!early.length, early[0]?.node, `rendering subscribes to ${H.label}`, p);
      const subs = subscribing(c, H, R, p);
      if (!c.expect(subs.length === 1, subs[1]?.e.node ?? R.fn, subs.length ? `a component subscribes more than once to ${H.label}` : `a component does not subscribe to ${H.label}`, p)) continue;
      const { e, qs, hits } = subs[0];
      const f = follows(p, e, H.source(p, R));
      if (f === undefined) c.undecide(`${c.P.where(e.node)}: the dependencies are not followed`); else c.expect(f, e.node, `a component keeps its subscription to ${H.label} although another one is used`, p);
      qs.forEach((q, i) => {
        if (q.kind !== 'return') return;
        if (!c.expect(hits[i].length === 1, hits[i][1]?.node ?? e.node, hits[i].length ? `a component subscribes more than once to ${H.label}` : `a component does not subscribe to ${H.label}`, q)) return;
        c.expect(!hits[i][0].loops?.length, hits[i][0].node, `a component subscribes more than once to ${H.label}`, q);
        c.expect(releases(c, q, q.value, hits[i][0].res), hits[i][0].node, `the subscription to ${H.label} is not released`, q);
        c.expect(isFn(can(q, hits[i][0].args[0])), hits[i][0].node, `nothing is done when ${H.label} changes`, q);
      });
    }
  }
}
/** Reads of the source now, as opposed to what was rendered or recorded. */
function current(q, t, p, H, R, record = [], late = false) {
  if (H.cls) return t.k === 'f' && t.name === 'value' && t !== p.value && same(q, t.base, p.thisT);
  return q.events.some((e) => e.t === 'call' && e.res === t && t !== p.value && e.fn && same(q, e.fn, R.params[1]) && !late) || q.events.some((e) => e.t === 'call' && e.res === t && t !== p.value && record.some((r) => r.get && ((e.fn && can(q, e.fn).k === 'f' && same(q, can(q, e.fn).base, r.base) && can(q, e.fn).name === r.get) || (!e.fn && e.name === r.get && same(q, e.recv, r.base)))));
}
/** On this path the current value is known to be what was rendered. */
/** `late`: in a function that outlives the rendering it was made in. */
function unchanged(q, p, H, R, record, late = false) {
  for (const e of q.own) {
    if (e.t !== 'branch') continue;
    let hit = false;
    T.contains(e.pred, (t) => {
      if (t.k === 'op' && (t.op === 'is' || t.op === 'eq') && t.args.length === 2) {
        const [a, b] = t.args;
        const known = (x) => (!late && x === p.value) || record.some((r) => x.k === 'f' && same(q, x.base, r.base) && x.name === r.value);
        if (((current(q, a, p, H, R, record, late) && known(b)) || (current(q, b, p, H, R, record, late) && known(a))) && q.st.decide(t) === true && t.op === 'is') hit = true;
        // identical values are the same
        if (t.op === 'eq' && q.st.decide(t) === true && ((current(q, a, p, H, R, record, late) && known(b)) || (current(q, b, p, H, R, record, late) && known(a)))) hit = true;
      }
      return false;
    });
    if (hit) return true;
  }
  if (!H.cls) return false;
  const is = (t) => { return t.k === 'f' && t.name === 'version' && same(q, t.base, p.thisT); };
  // no newer version
  for (const e of q.own) {
    if (e.t !== 'branch') continue;
    const fs = [];
    T.contains(e.pred, (t) => { if (t.k === 'f' && (t.name === 'version' || record.some((r) => t.name === r.version && same(q, t.base, r.base)))) fs.push(t); return false; });
    for (const a of fs) for (const b of fs) {
      if (a === b || !is(b)) continue;
      const old = (!late && p.versions.includes(a)) || record.some((r) => same(q, a.base, r.base) && a.name === r.version);
      if (old && !p.versions.includes(b) && (q.st.decide(q.st.pLt(a, b)) === false || q.st.decide(q.st.pEq(a, b)) === true)) return true;
    }
  }
  return false;
}
const updates = (q) => q.own.filter((e) => e.t === 'call' && e.name === 'forceUpdate' && same(q, e.recv, q.ctx));
function changes(c) {
  for (const H of HOOKS.slice(0, 2)) {
    const R = rendering(c, H.name, H.cls);
    let recorded = 0, checked = 0;
    for (const p of R.ps) {
      const subs = subscribing(c, H, R, p);
      if (subs.length !== 1) continue;
      const V = can(p, p.value);
      if (!c.expect(H.cls ? V.k === 'f' && V.name === 'value' && same(p, V.base, p.thisT) : callsOf(p, (e) => e.fn && same(p, e.fn, R.params[1]) && same(p, e.res, V)).length === 1, R.fn, `what is rendered is not the value of ${H.label}`, p)) continue;
      p.versions = H.cls ? [fld(p.thisT, 'version')] : [];
      for (const e of own(p)) if (e.t === 'call') e.args.forEach((a) => { const l = a && a.k === 'o' ? items(p, a) : null; l?.forEach((x) => { const t = can(p, x); if (H.cls && t.k === 'f' && t.name === 'version' && same(p, t.base, p.thisT)) p.versions.push(t); }); });
      // where the rendered value is recorded
      const record = [];
      const memos = [...hookCall(p, 'useMemo'), ...hookCall(p, 'useRef')];
      for (const m of memos) {
        if (m.name === 'useRef') continue;
        for (const q of c.callPaths(p, can(p, m.args[0]), [], UNDEF)) {
          if (q.kind !== 'return') continue;
          const o = can(q, q.value);
          if (o.k !== 'o') continue;
          const r = { base: can(p, m.res), memo: m };
          for (const [k, v] of q.st.heap) { const i = q.E.hinfo.get(k); if (i?.base !== o || i.key?.k !== 'c' || k.includes('#')) continue; const x = q.st.canon(v); if (x === V) r.value ??= String(i.key.v); else if (!H.cls && x === can(p, R.params[1])) r.get ??= String(i.key.v); else if (p.versions.some((y) => same(q, y, x))) r.version ??= String(i.key.v); }
          if (r.value) record.push(r);
        }
      }
      if (!record.length) { c.undecide(`${c.P.where(R.fn)}: where the rendered value is kept is not followed`); continue; }
      // kept up to date, and compared with the source, whenever another value has been rendered
      let fresh = 0;
      for (const e of hookCall(p, 'useEffect')) {
        const f = can(p, e.args[0]);
        if (!isFn(f)) continue;
        const qs = later(c, p, f).filter((q) => q.kind === 'return');
        const puts = (q) => q.own.filter((x) => x.t === 'write' && record.some((r) => same(q, x.base, r.base)));
        if (!qs.some((q) => puts(q).length)) continue;
        for (const q of qs) {
          const ws = puts(q);
          for (const r of record) {
            const w = ws.filter((x) => same(q, x.base, r.base) && String(x.name) === r.value);
            c.expect(w.length > 0 && same(q, w.at(-1).value, V), w[0]?.node ?? e.node, 'what is compared with later is not the value rendered last', q);
            if (r.get) { const x = ws.filter((y) => same(q, y.base, r.base) && String(y.name) === r.get); c.expect(x.length > 0 && same(q, x.at(-1).value, R.params[1]), x[0]?.node ?? e.node, 'the source looked at later is not the one rendered last', q); }
            if (r.version) { const x = ws.filter((y) => same(q, y.base, r.base) && String(y.name) === r.version); c.expect(x.length > 0 && p.versions.some((y) => same(q, y, x.at(-1).value)), x[0]?.node ?? e.node, 'the version compared with later is not the one rendered last', q); }
          }
          // depends on all that it records
          for (const w of ws) {
            const v = can(q, w.value);
            if (v.k === 'c') continue;
            const f1 = follows(p, e, v), f2 = v === V && p.versions.some((y) => follows(p, e, y));
            if (f1 === undefined) c.undecide(`${c.P.where(e.node)}: the dependencies are not followed`); else c.expect(f1 || f2, w.node, 'what is recorded of a rendering is not replaced when it changes', q);
          }
          fresh++;
          const up = updates(q);
          c.expect(up.length > 0 || unchanged(q, p, H, R, record), e.node, `a change of ${H.label} between rendering and committing is missed`, q);
        }
        const src = H.source(p, R);
        const again = record.some((r) => { const l = items(p, can(p, r.memo.args[1] ?? UNDEF)); return l?.some((x) => same(p, x, src)); }) || follows(p, e, src) || follows(p, e, V);
        c.expect(again, e.node, `what is recorded of ${H.label} is compared with another one`, p);
      }
      recorded += fresh;
      c.expect(fresh > 0, R.fn, 'what is compared with later is not the value rendered last', p);
      // what the source calls
      const { e, qs, hits } = subs[0];
      const late = !(follows(p, e, V) && (H.cls || follows(p, e, R.params[1])));
      qs.forEach((q, i) => {
        if (q.kind !== 'return' || hits[i].length !== 1) return;
        const S = can(q, hits[i][0].args[0]);
        if (!isFn(S)) return;
        const queued = (r) => r.own.filter((x) => x.t === 'call' && ['queueMicrotask', 'setTimeout', 'requestAnimationFrame', 'requestIdleCallback', 'then', 'postTask'].includes(x.name) && x.args.some((a) => isFn(can(r, a)))).map((x) => ({ x, f: x.args.map((a) => can(r, a)).find(isFn) }));
        const flags = cells(c, q, S);
        if (flags.length > 1) { c.undecide(`${c.P.where(e.node)}: how changes are batched is not followed`); return; }
        const flag = flags[0] ?? null;
        const isCheck = (r, f, seen = 0) => {
          // checks the source on every path and clears the flag first
          let okAll = true, n = 0;
          for (const z of later(c, { ...r, E: q.E, ctx: q.ctx, fn: q.fn }, f)) {
            if (z.kind !== 'return') continue;
            n++;
            const up = updates(z), inner = queued(z);
            if (!up.length && !unchanged(z, p, H, R, record, late)) okAll = !!inner.length && seen < 2 && inner.every((y) => isCheck(z, y.f, seen + 1)) && okAll;
            if (flag) {
              const sets = z.own.filter((x) => x.t === 'set' && x.cell === flag.cell);
              const cleared = sets.length && sets.at(-1).value.k === 'c' && sets.at(-1).value.v === flag.idle;
              if (!c.expect(cleared, f.node ?? e.node, 'after a change was looked at, later ones are ignored', z)) continue;
              const look = z.own.findIndex((x) => x.t === 'branch' && T.contains(x.pred, (t) => current(z, t, p, H, R, record)));
              let fin = false;
              for (let y = sets.at(-1).node; y; y = y.parent) if (ts.isBlock(y) && ts.isTryStatement(y.parent) && y.parent.finallyBlock === y) fin = true;
              c.expect(fin || look < 0 || z.own.indexOf(sets.at(-1)) < look, sets.at(-1).node, 'after reading the source has thrown, later changes are ignored', z);
            }
          }
          return okAll && n > 0;
        };
        // once on subscribing: now, or soon after
        const now = updates(q).length > 0 || unchanged(q, p, H, R, record), soon = queued(q);
        const soonOk = soon.length > 0 && soon.some((y) => isCheck(q, y.f));
        checked++;
        c.expect(now || soonOk, e.node, `a change of ${H.label} between rendering and subscribing is missed`, q);
        const sts = flag ? [flag.idle, !flag.idle].map((v) => { const s = q.st.clone(); s.cells.set(flag.cell, cst(v)); return [v, s]; }) : [[null, q.st]];
        for (const [v, s] of sts) for (const r of later(c, q, S, [T.sym('event', {})], s)) {
          if (r.kind !== 'return') continue;
          const up = updates(r).length > 0 || unchanged(r, p, H, R, record, late), qd = queued(r), qOk = qd.length > 0 && qd.some((y) => isCheck(r, y.f));
          const busy = flag && v === !flag.idle;
          checked++;
          c.expect(up || qOk || busy, S.node ?? e.node, `a change of ${H.label} does not make the component render again`, r);
          if (flag && v === flag.idle && !qOk) { const after = r.st.cells.get(flag.cell); c.expect(!after || r.st.canon(after) === cst(flag.idle), S.node ?? e.node, 'a change is taken for one that is looked at later', r); }
        }
        if (flag && flag.init === !flag.idle) c.expect(soonOk, e.node, 'a change is taken for one that is looked at later', q);
      });
    }
    if (!c.undecided.length) c.expect(recorded > 0 && checked > 0, R.fn, `changes of ${H.label} are not looked at`);
  }
}
/** Boolean variables that decide whether a subscriber does anything. */
function cells(c, q, S) {
  if (!S.node || !S.env) return [];
  const out = [], seen = new Set();
  const visit = (n) => {
    if (ts.isIdentifier(n)) {
      const s = c.P.checker.getSymbolAtLocation(n), cell = s && S.env.lookup(s), v = cell && q.st.cells.get(cell);
      if (v?.k === 'c' && typeof v.v === 'boolean' && !seen.has(cell) && !(s.valueDeclaration?.parent?.flags & ts.NodeFlags.Const)) {
        seen.add(cell);
        // which value means idle: the one in which it does something
        const does = (b) => { const st = q.st.clone(); st.cells.set(cell, cst(b)); return later(c, q, S, [T.sym('event', {})], st).some((r) => r.own.some((x) => x.t === 'call')); };
        const f = does(false), t = does(true);
        if (f !== t) out.push({ cell, idle: !f, init: v.v });
      }
    }
    ts.forEachChild(n, visit);
  };
  visit(S.node);
  return out;
}
function navigation(c) {
  const R = rendering(c, 'SyncNavigation'), [adapter, intercept] = R.params;
  const H = HOOKS[2];
  let n = 0;
  for (const p of R.ps) {
    const st = hookCall(p, 'useState');
    if (!c.expect(st.length === 1, R.fn, 'the scene is not kept', p)) continue;
    const scene = T.idx(can(p, st[0].res), cst(0)), set = T.idx(can(p, st[0].res), cst(1));
    const init = can(p, st[0].args[0]);
    const first = isFn(init) ? c.callPaths(p, init, [], UNDEF) : [Object.assign(p, {})];
    for (const q of first) {
      if (q.kind !== 'return') continue;
      const o = isFn(init) ? can(q, q.value) : init, evs = isFn(init) ? q.own : own(p);
      const from = (name) => evs.find((e) => e.t === 'call' && e.name === name && same(q, e.recv, adapter))?.res;
      c.expect(same(q, c.get(q, o, 'url'), from('getCurrentURL')) && same(q, c.get(q, o, 'state'), from('getCurrentState')), st[0].node, 'the first scene is not the current one', q);
    }
    const o = can(p, p.value);
    c.expect(same(p, c.get(p, o, 'adapter'), adapter) && same(p, c.get(p, o, 'scene'), scene), R.fn, 'what is returned is not the current scene', p);
    const pr = hookCall(p, 'provide');
    c.expect(pr.length === 1 && same(p, pr[0].args[0], o), pr[0]?.node ?? R.fn, 'the current scene is not provided', p);
    const subs = subscribing(c, H, R, p);
    if (subs.length !== 1) continue;
    subs[0].qs.forEach((q, i) => {
      if (q.kind !== 'return' || subs[0].hits[i].length !== 1) return;
      const S = can(q, subs[0].hits[i][0].args[0]), sc = T.sym('scene', {}), it = T.sym('interceptor', {});
      if (!isFn(S)) return;
      for (const r of later(c, q, S, [sc, it])) {
        if (r.kind !== 'return') continue;
        n++;
        const ic = r.own.filter((e) => e.t === 'call' && e.name === 'intercept' && same(r, e.recv, it));
        if (!c.expect(ic.length === 1, ic[1]?.node ?? S.node ?? R.fn, 'a navigation is not intercepted once', r)) continue;
        const own1 = r.own.filter((e) => e.t === 'call' && e.fn && same(r, e.fn, intercept));
        const none = r.st.decide(r.st.pMask(intercept, U));
        if (none !== true) { c.expect(own1.length === 1 && same(r, own1[0].args[0], sc) && same(r, own1[0].args[1], set), own1[0]?.node ?? ic[0].node, 'the interception of the user is not asked for', r);
          if (own1.length === 1) {
            // what the user gives comes before what would be done otherwise
            const given = can(r, own1[0].res), arg = can(r, ic[0].args[0]);
            const spread = arg.k === 'o' ? (r.st.heap.get(arg.id + '#spread') ?? []).find((x) => can(r, x.of) === given) : null;
            const late = spread && arg.k === 'o' && isFn(can(r, c.get(r, arg, 'handler') ?? UNDEF)) && !spread.after.some((k) => k.v === 'handler');
            const used = arg.k !== 'o' || r.own.some((e) => e.t === 'call' && e.name === 'assign' && (e.args ?? []).some((a) => can(r, a) === given)) || spread || arg.kind !== 'object' || ['handler', 'scroll', 'focusReset'].some((k) => { const w = c.get(r, arg, k); return w && (isFn(can(r, w)) ? r.st.heap.get(arg.id + '#spread') : T.contains(can(r, w), (t) => t === given)); }) || r.st.decide(r.st.pMask(given, U)) === true;
            c.expect(used, ic[0].node, 'what the user gives for an interception is dropped', r);
            c.expect(!late, ic[0].node, 'the handler of the user is replaced by that of the hook', r);
          }
          continue; }
        const h = c.get(r, can(r, ic[0].args[0]), 'handler');
        if (!isFn(h)) { c.expect(false, ic[0].node, 'a navigation does not change the scene', r); continue; }
        for (const z of later(c, r, h)) {
          if (z.kind !== 'return') continue;
          const up = z.own.filter((e) => e.t === 'call' && e.fn && same(z, e.fn, set));
          const v = can(z, z.value);
          const val = up[0] && can(z, up[0].args[0]);
          const okVal = val && (same(z, val, sc) || (isFn(val) && c.callPaths(z, val, [T.sym('old', {})], UNDEF).every((y) => y.kind !== 'return' || same(y, y.value, sc))));
          if (!c.expect(up.length === 1 && okVal, up[0]?.node ?? ic[0].node, 'a navigation does not change the scene', z)) continue;
          const done = (t) => { t = can(z, t); return t.k === 'f' && t.name === 'finished' && same(z, t.base, up[0].res); };
          c.expect(done(v) || z.own.some((e) => e.t === 'await' && done(e.value)), up[0].node, 'a navigation finishes before its scene is shown', z);
        }
      }
    });
  }
  if (!c.undecided.length) c.expect(n > 0, R.fn, 'navigations do not change the scene');
}
/** Calls of a state's dispatcher with a constant. */
const sets = (q, set, v) => q.own.filter((e) => e.t === 'call' && e.fn && same(q, e.fn, set) && same(q, e.args[0], v));
function transition(c) {
  const R = rendering(c, 'Transition', null, { throws: (e) => e.t === 'call' && e.fn && can({ st: { canon: (x) => x } }, e.fn).name?.startsWith?.('action') });
  let n = 0, threw = 0, async1 = 0, sync = 0;
  for (const p of R.ps) {
    const st = hookCall(p, 'useState');
    if (!c.expect(st.length === 1, R.fn, 'whether a transition is pending is not kept', p)) continue;
    const pending = T.idx(can(p, st[0].res), cst(0)), set = T.idx(can(p, st[0].res), cst(1));
    c.expect(can(p, st[0].args[0]) === FALSE || (isFn(can(p, st[0].args[0])) && c.callPaths(p, can(p, st[0].args[0]), [], UNDEF).every((q) => can(q, q.value) === FALSE)), st[0].node, 'a transition is pending from the start', p);
    const l = items(p, can(p, p.value));
    if (!l || l.length < 2) { c.undecide(`${c.P.where(R.fn)}: what is returned is not followed`); continue; }
    c.expect(same(p, l[0], pending), R.fn, 'what is returned does not tell whether a transition is pending', p);
    let start = can(p, l[1]);
    const cb = hookCall(p, 'useCallback').find((e) => same(p, e.res, start));
    if (cb) start = can(p, cb.args[0]);
    if (!isFn(start)) { c.undecide(`${c.P.where(R.fn)}: how a transition starts is not followed`); continue; }
    const action = T.sym('action', {}), number = T.sym('transition', {});
    action.m0 = F;
    for (const q of later(c, p, start, [action])) {
      const tr = q.own.filter((e) => e.t === 'call' && e.name === 'startTransition' && same(q, e.recv, p.ctx));
      const body = tr[0] && can(q, tr[0].args[0]);
      if (!c.expect(tr.length === 1 && isFn(body), start.node ?? R.fn, 'an action does not run in a transition of its own', q)) continue;
      c.expect(q.kind !== 'return' || same(q, q.value, tr[0].res), start.node ?? R.fn, 'the result of an action is lost', q);
      // an action may throw, or return a promise
      const z0 = c.callPaths(q, body, [number], UNDEF);
      for (const z of z0) {
        if (z.st.infeasible()) continue;
        n++;
        const acts = z.own.filter((e) => e.t === 'call' && e.fn && same(z, e.fn, action));
        if (!c.expect(acts.length === 1 && same(z, acts[0].args[0], number), acts[1]?.node ?? body.node ?? R.fn, 'an action is not run once with its transition', z)) continue;
        const opt = (e, name) => c.get(z, can(z, e.args[1]), name);
        const on = sets(z, set, TRUE), off = sets(z, set, FALSE);
        c.expect(on.length === 1 && idxOf(z, on[0]) < idxOf(z, acts[0]), on[0]?.node ?? body.node ?? R.fn, 'a transition is not pending before its action runs', z);
        if (on[0]) c.expect(can(z, on[0].args[1]) === UNDEF || opt(on[0], 'transition') === UNDEF, on[0].node, 'a transition only becomes pending when it is over', z);
        const inTransition = (e, y = z) => same(y, c.get(y, can(y, e.args[1]), 'transition'), number);
        off.forEach((e) => c.expect(inTransition(e), e.node, 'a transition ends before its updates are shown', z));
        const failed = z.own.some((e) => e.t === 'throwback' && e.from === acts[0]);
        if (failed) {
          threw++;
          c.expect(off.length === 1, off[1]?.node ?? acts[0].node, 'a transition whose action throws does not end exactly once', z);
          c.expect(z.kind === 'throw' && same(z, z.value, z.own.find((e) => e.t === 'throwback').value), acts[0].node, 'an error thrown by an action is lost', z);
          continue;
        }
        if (z.kind !== 'return') continue;
        const isPromise = promiseOf(z, acts[0].res);
        const chained = z.own.filter((e) => e.t === 'call' && ['then', 'finally', 'catch'].includes(e.name));
        if (isPromise === true || (isPromise === undefined && chained.length)) {
          async1++;
          // each outcome ends it once
          let ok = 0, err = 0, odd = false;
          const ends = (f) => { f = can(z, f ?? UNDEF); if (!isFn(f)) return 0; const rs = later(c, z, f, [T.sym('settled', {})]); const ks = new Set(rs.map((y) => { const o = sets(y, set, FALSE); o.forEach((e) => c.expect(inTransition(e, y), e.node, 'a transition ends before its updates are shown', y)); return o.length; })); return ks.size === 1 ? [...ks][0] : NaN; };
          // how each outcome arrives at what a promise is chained to
          const via = new Map();
          for (const e of chained) {
            const prev = same(z, e.recv, acts[0].res) ? { ok: 'ok', err: 'err' } : via.get(can(z, e.recv));
            if (!prev) { odd = true; continue; }
            const has = (i) => isFn(can(z, e.args[i] ?? UNDEF));
            const on = { ok: e.name === 'catch' ? null : e.args[0], err: e.name === 'then' ? e.args[1] : e.args[0] };
            const n1 = { ok: on.ok ? ends(on.ok) : 0, err: on.err ? ends(on.err) : 0 };
            ok += n1[prev.ok]; err += n1[prev.err];
            const out = (x) => (e.name === 'finally' ? x : x === 'ok' ? 'ok' : has(e.name === 'then' ? 1 : 0) ? 'ok' : 'err');
            via.set(can(z, e.res), { ok: out(prev.ok), err: out(prev.err) });
          }
          if (odd) { c.undecide(`${c.P.where(acts[0].node)}: how the end of an action is awaited is not followed`); continue; }
          c.expect(!off.length && ok === 1, chained[0]?.node ?? acts[0].node, 'a transition does not end exactly once when its action finishes', z);
          c.expect(!off.length && err === 1, chained[0]?.node ?? acts[0].node, 'a transition does not end exactly once when its action fails', z);
        } else {
          sync++;
          c.expect(off.length === 1 && idxOf(z, off[0]) > idxOf(z, acts[0]), off[1]?.node ?? acts[0].node, 'a transition does not end exactly once after its action', z);
        }
        c.expect(same(z, z.value, acts[0].res) || chained.some((e) => same(z, e.res, z.value)), body.node ?? R.fn, 'the result of an action is lost', z);
      }
    }
  }
  if (!c.undecided.length) c.expect(n > 0 && sync > 0 && async1 > 0 && threw > 0, R.fn, 'a transition does not end for every outcome of its action');
}
function promiseOf(z, t) {
  for (const e of z.own) if (e.t === 'branch') {
    let v;
    T.contains(e.pred, (x) => { if (x.k === 'op' && x.op === 'instanceof' && same(z, x.args[0], t)) v = z.st.decide(x); return false; });
    if (v !== undefined) return v;
  }
  return undefined;
}
function deferred(c) {
  const R = rendering(c, 'DeferredValue'), [value] = R.params;
  let n = 0;
  for (const p of R.ps) {
    const st = hookCall(p, 'useState');
    if (!c.expect(st.length === 1, R.fn, 'a deferred value is not kept', p)) continue;
    const cur = T.idx(can(p, st[0].res), cst(0)), set = T.idx(can(p, st[0].res), cst(1));
    c.expect(same(p, p.value, cur), R.fn, 'a deferred value is not the one that was deferred', p);
    let hit = 0;
    for (const e of hookCall(p, 'useEffect')) {
      const f = can(p, e.args[0]);
      if (!isFn(f)) continue;
      for (const q of later(c, p, f)) {
        if (q.kind !== 'return') continue;
        const tr = q.own.filter((x) => x.t === 'call' && x.name === 'startTransition');
        const runs = tr.length ? tr.flatMap((x) => (isFn(can(q, x.args[0])) ? c.callPaths(q, can(q, x.args[0]), [T.sym('transition', {})], UNDEF) : [])) : [q];
        for (const z of runs) {
          if (z.kind !== 'return') continue;
          const up = z.own.filter((x) => x.t === 'call' && x.fn && same(z, x.fn, set));
          if (!up.length && !tr.length) continue;
          hit++; n++;
          if (!c.expect(up.length === 1, up[1]?.node ?? e.node, 'a deferred value is left behind', z)) continue;
          const v = can(z, up[0].args[0]);
          const ok = isFn(v) ? c.callPaths(z, v, [T.sym('old', {})], UNDEF).every((y) => y.kind !== 'return' || same(y, y.value, value)) : false;
          c.expect(ok, up[0].node, 'a deferred value becomes another one than the latest', z);
          c.expect(tr.length === 1 && same(z, c.get(z, can(z, up[0].args[1]), 'transition'), T.sym('transition', {})) || !tr.length, up[0].node, 'a deferred value is not deferred', z);
        }
      }
      if (hit) c.expect(follows(p, e, value) !== false, e.node, 'a deferred value is left behind', p);
    }
    c.expect(hit > 0, R.fn, 'a deferred value is left behind', p);
  }
  if (!c.undecided.length) c.expect(n > 0, R.fn, 'deferred values are not followed');
}
function eventCallbacks(c) {
  const R = rendering(c, 'EffectEvent'), [callback] = R.params;
  let n = 0;
  for (const p of R.ps) {
    const out = can(p, p.value);
    if (!isFn(out)) { c.undecide(`${c.P.where(R.fn)}: what is returned is not followed`); continue; }
    const refs = [...hookCall(p, 'useRef'), ...hookCall(p, 'useMemo')];
    let put = null;
    for (const e of hookCall(p, 'useEffect')) for (const q of later(c, p, can(p, e.args[0]))) {
      const ws = q.own.filter((x) => x.t === 'write' && refs.some((r) => same(q, x.base, r.res)));
      if (q.kind !== 'return' || !ws.length) continue;
      put ??= { e, w: ws.at(-1) };
      c.expect(same(q, ws.at(-1).value, callback), ws.at(-1).node, 'an event callback does not follow the latest one', q);
      c.expect(follows(p, e, callback) !== false, e.node, 'an event callback does not follow the latest one', p);
    }
    const direct = own(p).filter((x) => x.t === 'write' && refs.some((r) => same(p, x.base, r.res)));
    c.expect(!direct.length, direct[0]?.node, 'an event callback is replaced before the rendering is committed', p);
    if (!c.expect(put, R.fn, 'an event callback does not follow the latest one', p)) continue;
    const args = [T.sym('a', {}), T.sym('b', {})], self = T.sym('self', {});
    for (const q of later(c, p, out, args, null, self)) {
      if (q.kind !== 'return') continue;
      n++;
      const hit = q.own.filter((e) => e.t === 'call' && e.fn && can(q, e.fn).k === 'f' && same(q, can(q, e.fn).base, put.w.base) && can(q, e.fn).name === String(put.w.name));
      if (!c.expect(hit.length === 1, hit[1]?.node ?? out.node ?? R.fn, 'an event callback does not call the latest one', q)) continue;
      c.expect(args.every((a, i) => same(q, hit[0].args[i], a)), hit[0].node, 'the arguments of an event callback are lost', q);
      c.expect(same(q, q.value, hit[0].res), hit[0].node, 'the result of an event callback is lost', q);
    }
  }
  if (!c.undecided.length) c.expect(n > 0, R.fn, 'event callbacks are not followed');
}
function handles(c) {
  const R = rendering(c, 'ImperativeHandle'), [ref, create, deps] = R.params;
  let n = 0, fns = 0, objs = 0;
  for (const p of R.ps) {
    const es = hookCall(p, 'useEffect');
    if (!c.expect(es.length === 1, R.fn, 'a handle is not set in an effect', p)) continue;
    const e = es[0], d = can(p, e.args[1] ?? UNDEF);
    const given = p.st.decide(p.st.pMask(deps, U | N));
    const has = (t) => { t = can(p, t); const l = t.k === 'o' ? p.st.heap.get(t.id + '#items')?.list : null; if (l) return l.some((x) => same(p, x, ref)); if (same(p, t, deps)) return false; if (t.k === 'r' && t.name === 'concat') return t.args.some((x) => same(p, x, ref)) && same(p, t.recv, deps); if (t.k === 'o' && t.init) return t.init.some((x) => same(p, x, ref)); return undefined; };
    if (d !== UNDEF && d !== NULL) { const k = has(d); if (k === undefined && given !== true) c.undecide(`${c.P.where(e.node)}: the dependencies are not followed`); else c.expect(k, e.node, 'a handle stays with a ref that is no longer given', p); }
    for (const q of later(c, p, can(p, e.args[0]))) {
      if (q.kind !== 'return') continue;
      n++;
      const made = q.own.filter((x) => x.t === 'call' && x.fn && same(q, x.fn, create));
      const isF = q.st.decide(q.st.pMask(ref, F)), none = q.st.decide(q.st.pMask(ref, U | N));
      if (none === true) { c.expect(can(q, q.value) === UNDEF, e.node, 'a handle is made for nothing', q); continue; }
      if (isF === true) {
        fns++;
        const got = q.own.filter((x) => x.t === 'call' && x.fn && same(q, x.fn, ref));
        if (!c.expect(made.length === 1 && got.length === 1 && same(q, got[0].args[0], made[0].res), got[0]?.node ?? e.node, 'a function is not given its handle once', q)) continue;
        c.expect(releases(c, q, q.value, got[0].res), got[0].node, 'the cleanup of a handle is lost', q);
        continue;
      }
      objs++;
      const ws = q.own.filter((x) => x.t === 'write' && same(q, x.base, ref) && String(x.name) === 'current');
      if (!c.expect(made.length === 1 && ws.length === 1 && same(q, ws[0].value, made[0].res), ws[0]?.node ?? e.node, 'a ref is not given its handle once', q)) continue;
      const v = can(q, q.value);
      if (!c.expect(isFn(v), ws[0].node, 'a ref keeps a handle after the component is gone', q)) continue;
      for (const z of later(c, q, v)) {
        const off = z.own.filter((x) => x.t === 'write' && same(z, x.base, ref) && String(x.name) === 'current');
        c.expect(off.length > 0 && can(z, off.at(-1).value) === NULL, ws[0].node, 'a ref keeps a handle after the component is gone', z);
      }
    }
  }
  if (!c.undecided.length) c.expect(n > 0 && fns > 0 && objs > 0, R.fn, 'handles are not set');
}
/** Signals that belong to a component are kept for as long as they stand for the same things. */
function held(c) {
  for (const [name, cls, follows] of [['LocalAtom', 'Atom', false], ['LocalComputed', 'Computed', true]]) {
    const R = rendering(c, name), made = c.P.cls(cls);
    for (const p of R.ps) {
      const m = hookCall(p, 'useMemo');
      const v = can(p, p.value);
      const fresh = own(p).find((e) => e.t === 'new' && can(p, e.obj) === v);
      if (fresh && !m.length) { c.fail(fresh.node, 'a signal of a component is made anew in every render', p); continue; }
      if (m.length !== 1 || can(p, m[0].res) !== v || !isFn(can(p, m[0].args[0]))) { c.undecide(`${c.P.where(R.fn)}: how a signal of a component is kept was not recognised`); continue; }
      const deps = can(p, m[0].args[1] ?? UNDEF), items = p.st.heap.get(deps.id + '#items');
      let src = deps;
      while (src.k === 'o' && src.kind === 'copy') src = can(p, src.of);
      const given = R.params[R.params.length - 1];
      if (!follows) {
        if (deps.k === 'o' && items?.exact) c.expect(!items.list.length, m[0].node, 'a signal of a component is replaced when something else changes', p);
        else c.expect(!T.contains(src, (t) => R.params.includes(t)), m[0].node, 'a signal of a component is replaced when something else changes', p);
      } else if (src !== given) {
        const all = items && !items.exact && items.list.some((x) => x.k === 'spread' && can(p, x.of) === given);
        if (items?.exact || deps === UNDEF || deps.k === 'c') c.fail(m[0].node, 'a computed signal of a component is not replaced exactly when one of its dependencies is another signal', p);
        else if (items && !all) { const part = items.list.some((x) => x.k === 'spread' && can(p, x.of).k === 'r' && ['slice', 'filter'].includes(can(p, x.of).name) && same(p, can(p, x.of).recv, given)); if (part) c.fail(m[0].node, 'a computed signal of a component does not follow all of its dependencies', p); else c.undecide(`${c.P.where(R.fn)}: what a computed signal depends on was not recognised`); }
        else if (!all) c.undecide(`${c.P.where(R.fn)}: what a computed signal depends on was not recognised`);
      } else c.obligations++;
      for (const q of c.callPaths(p, can(p, m[0].args[0]), [], UNDEF)) {
        if (q.kind !== 'return') continue;
        const o = can(q, q.value), n = q.own.find((e) => e.t === 'new' && can(q, e.obj) === o);
        if (!n || !made) { c.undecide(`${c.P.where(R.fn)}: how a signal of a component is made was not recognised`); continue; }
        const uses = (a, b) => { a = can(q, a ?? UNDEF); while (a.k === 'o' && a.kind === 'copy') a = can(q, a.of); return a === can(q, b); };
        c.expect(R.params.every((x, i) => uses(n.args[i], x)), n.node, follows ? 'a computed signal of a component is not made of what was given' : 'a signal of a component does not start with what was given', q);
      }
    }
  }
}
export const rules = [
  { name: 'subscriptions', text: 'a hook subscribes in one effect that follows its source and returns what unsubscribes', run: subscriptions },
  { name: 'changes', text: 'every change since a value was rendered makes the component render again', run: changes },
  { name: 'navigation', text: 'the scene starts as the current one and follows every navigation', run: navigation },
  { name: 'transition', text: 'a transition is pending before its action and ends exactly once after each of its outcomes', run: transition },
  { name: 'deferred', text: 'a deferred value is set to the latest one in a transition whenever that changes', run: deferred },
  { name: 'callbacks', text: 'an event callback calls the latest committed callback', run: eventCallbacks },
  { name: 'held', text: 'a signal of a component is kept, and replaced exactly when a dependency is another signal', run: held },
  { name: 'handles', text: 'a handle is given to its ref once and taken back', run: handles },
];
