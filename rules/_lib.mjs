// Roles of the repository's parts, found through its public names and by dataflow.
import { ts, AnchorError, isStatic, memberName } from '../lib/project.mjs';
import { enclosingFn } from '../lib/engine.mjs';
import * as T from '../lib/terms.mjs';
import { State } from '../lib/state.mjs';
const { UNDEF, NULL, TRUE, FALSE, cst, op, U, N, B, S, Y, I, F, O } = T;
export { memberName, isStatic };
export { ts, T, cst, op, UNDEF, NULL, TRUE, FALSE, U, N, B, S, Y, I, F, O, AnchorError, enclosingFn };

export const fld = (base, ...names) => names.reduce((b, n) => T.field(b, n, 0), base);
export const calls = (p, f = () => true) => p.events.filter((e) => e.t === 'call' && !e.pure && f(e));
export const isCall = (...names) => (e) => e.t === 'call' && (names.includes(e.name) || names.includes(e.decl));
export const writes = (p, f = () => true) => p.events.filter((e) => e.t === 'write' && f(e));
export const idxOf = (p, e) => p.events.indexOf(e);
export const opaqueNames = (...names) => (fn) => names.includes(fn.name?.getText?.());

/** The state facts of p decide `pred`. */
export const knows = (p, pred) => p.st.decide(pred) === true;
export const refutes = (p, pred) => p.st.decide(pred) === false;

/** Does the loop visit every element of arr (in order)? */
export function covers(loop, arr, p, { zero = false, ordered = false } = {}) {
  const st = p.st;
  arr = st.canon(arr);
  const unwrap = (t) => { t = st.canon(t); while (t.k === 'o' && t.kind === 'copy') t = st.canon(t.of); return t; };
  if (loop.over) {
    if (unwrap(loop.over) === unwrap(arr)) return true;
    return loop.over.k === 'r' && (loop.over.name === 'values' || (!ordered && loop.over.name === 'toReversed')) && unwrap(loop.over.recv) === unwrap(arr);
  }
  const s0 = new State();
  // the length the condition compares with
  let len = p.E.lengthTerm(arr, st);
  if (zero && st.canon(len) === cst(0)) return true;
  if (loop.cond) T.contains(loop.cond, (t) => { if (t.k === 'f' && t.name === 'length' && unwrap(t.base) === unwrap(arr)) len = t; return false; });
  for (const x of loop.carried?.values() ?? []) {
    if (!x.cell || (!x.nexts?.length && !zero)) continue;
    const steps = (x.nexts ?? []).map((n) => T.linSum(n, x.hv, -1));
    if (!steps.every((s) => s === steps[0] && s.k === 'c' && Math.abs(s.v) === 1)) continue;
    const step = steps[0]?.v;
    if (step !== -1 && st.canon(x.init) === cst(0) && loop.cond) {
      const ok = [s0.pLt(x.hv, len), s0.pNot(s0.pEq(x.hv, len)), st.pLt(x.hv, len)].some((q) => q === loop.cond || T.show(q) === T.show(loop.cond));
      if (ok) return true;
    }
    if (step !== 1 && !ordered && loop.cond) {
      const init = T.linSum(st.canon(x.init), len, -1), min = init === cst(-1) ? 0 : init === cst(0) ? 1 : null;
      if (min !== null) { const q = s0.pNot(s0.pLe(x.hv, min - 1)); if (loop.cond === q || T.show(loop.cond) === T.show(q) || loop.cond === s0.pNot(s0.pEq(x.hv, cst(min - 1)))) return true; }
    }
  }
  return false;
}
/** The position of a loop that counts in steps of one. */
export function counterOf(loop) {
  for (const x of loop.carried?.values() ?? []) if (x.cell && x.nexts?.length && x.nexts.every((n) => { const d = T.linSum(n, x.hv, -1); return d.k === 'c' && Math.abs(d.v) === 1; })) return x.hv;
  return null;
}
/** The element visited by a loop over arr, for value comparisons. */
export const elemOf = (p, e) => e;

/** Loops of a path with how their (generic) iteration ended. */
export function loopsOf(p) {
  const out = [];
  for (const e of p.events) {
    if (e.t === 'loop') out.push({ loop: e.loop, end: null, start: e });
    else if (e.t === 'loopend') { const x = out.findLast((y) => y.loop === e.loop); if (x) x.end = e.how; }
  }
  return out;
}
/** Innermost loop of an event that visits `arr`. */
export function loopOver(p, e, arr) {
  for (let i = e.loops.length - 1; i >= 0; i--) if (covers(e.loops[i], arr, p)) return e.loops[i];
  return null;
}
export function classImplementing(P, iface, prefer) {
  const list = P.implementors(iface);
  const c = list.find((x) => x.name?.text === prefer) ?? list[0];
  if (!c) throw new AnchorError(`no class implements ${iface}`);
  return c;
}
export const componentClass = (P) => classImplementing(P, 'ComponentInstance', 'FunctionComponent');
export const contextClass = (P) => P.cls('RenderContext');

/** Paths of RenderContext.<hook>, split by whether the slot is new. */
export function hookPaths(c, name, opts = {}) {
  const E = c.engine({ opaque: opaqueNames('areDependenciesChanged'), ...opts });
  const fn = c.P.method(contextClass(c.P), name);
  const ps = c.paths(E, fn, { cls: contextClass(c.P) });
  const out = { fn, fresh: [], reused: [], all: ps, E };
  for (const p of ps) {
    p.push = p.events.filter((e) => e.t === 'call' && e.name === 'push' && e.builtin && e.args[0]?.k === 'o' && e.args[0].kind === 'object');
    (p.push.length ? out.fresh : out.reused).push(p);
  }
  return out;
}
/** Field names of an object literal by the value they hold. */
export function fieldHolding(p, obj, value) {
  for (const [k, v] of p.st.heap) {
    const info = p.E.hinfo.get(k);
    if (!info || k.includes('#') || info.base !== obj || info.key.k !== 'c') continue;
    if (p.st.canon(v) === p.st.canon(value)) return String(info.key.v);
  }
  return null;
}
export function ownFields(p, obj) {
  const out = {};
  for (const [k, v] of p.st.heap) {
    const info = p.E.hinfo.get(k);
    if (!info || k.includes('#') || info.base !== obj || info.key.k !== 'c') continue;
    out[info.key.v] = p.st.canon(v);
  }
  return out;
}
/** Roles of the fields of an effect slot and of the slot list. */
export function effectRoles(c) {
  const h = hookPaths(c, 'useEffect');
  if (!h.fresh.length) throw new AnchorError('useEffect creates no slot');
  const p = h.fresh[0], obj = p.push[0].args[0];
  const [setup, deps] = p.E.paramSyms(h.fn);
  const own = ownFields(p, obj);
  const setupF = fieldHolding(p, obj, setup);
  const cleanupF = Object.keys(own).find((k) => own[k] === UNDEF && k !== fieldHolding(p, obj, deps)) ?? 'cleanup';
  const dirtyF = Object.keys(own).find((k) => own[k] === TRUE);
  const depsF = Object.keys(own).find((k) => own[k] === p.st.canon(deps) && k !== setupF);
  const typeF = Object.keys(own).find((k) => own[k].k === 'c' && (typeof own[k].v === 'number' || typeof own[k].v === 'string'));
  const listF = p.push[0].recv.k === 'f' ? p.push[0].recv.name : null;
  if (!setupF || !dirtyF || !depsF) throw new AnchorError('effect slot fields (setup, dependencies, dirty mark) not found');
  return { h, obj, own, setupF, depsF, dirtyF, cleanupF, typeF, typeV: own[typeF], listF, setup, deps };
}
/** The transaction object a RenderContext schedules for its own component. */
export function selfTransaction(c, opts = {}) {
  const cls = contextClass(c.P);
  const E = c.engine(opts);
  const fn = c.P.method(cls, 'forceUpdate');
  const ps = c.paths(E, fn, { cls });
  for (const p of ps) {
    const s = calls(p, isCall('Dispatcher.schedule'))[0] ?? calls(p, isCall('schedule'))[0];
    if (s && s.args[0]?.k === 'o') return { fn, ps, p, sched: s, tx: s.args[0] };
  }
  throw new AnchorError('forceUpdate schedules no transaction object');
}
/** Runs the method/closure `name` of an object created on path p. */
export function callMember(c, p, obj, name, args, opts) {
  if (obj.cls) {
    const m = c.P.member(obj.cls, name);
    if (!m || m.abstract) throw new AnchorError(`${name} of the transaction not found`);
    return c.callPaths(p, T.bound(m.decl, obj, m.decl.pos + m.decl.getSourceFile().fileName), args, obj);
  }
  const v = c.get(p, obj, name);
  if (v.k !== 'fn' && v.k !== 'fd') throw new AnchorError(`${name} of the transaction not found`);
  return c.callPaths(p, v, args, obj);
}
export const typedSym = (name, m0 = O) => { const t = T.sym(name); t.m0 = m0; t.label = name; return t; };

/** Value of an expression outside any function. */
export function evalConst(c, node) {
  const E = c.engines[0] ?? c.engine();
  const outs = E.ev(node, new State(), { thisV: UNDEF, env: { lookup: () => undefined }, fn: null, home: null, loops: [], stack: [], depth: 0, tries: 0 });
  return outs.length === 1 && !outs[0].thr ? outs[0].v : null;
}
