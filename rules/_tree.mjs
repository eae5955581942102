// The committed tree: the recursive functions that mount, connect, patch, move
// and unmount nodes, found from the public entry points and by what they reach.
import { ts, T, cst, op, UNDEF, FALSE, TRUE, fld, calls, covers, AnchorError, F, O, Y, evalConst } from './_lib.mjs';
import { callees } from './_runtime.mjs';

/** Does fn call a method of that name on something declared in `iface`? */
const callsMember = (P, fn, names) => {
  let hit = false;
  P.walk(fn, (n) => {
    if (hit) return false;
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && names.includes(n.expression.name.text)) hit = true;
  });
  return hit;
};
function closure(P, fn, memo) {
  if (memo.has(fn)) return memo.get(fn);
  const seen = new Set();
  const go = (f) => { for (const d of callees(P, f)) if (!seen.has(d)) { seen.add(d); if (d.body) go(d); } };
  go(fn);
  memo.set(fn, seen);
  return seen;
}
/** Functions from `entry` in call order, breadth first. */
function reach(P, entry) {
  const out = [entry], seen = new Set(out);
  for (let i = 0; i < out.length; i++) for (const d of callees(P, out[i])) if (d.body && !seen.has(d)) { seen.add(d); out.push(d); }
  return out;
}
export function treeRoles(c) {
  if (c._tree) return c._tree;
  const P = c.P, memo = new Map();
  const entry = { mount: P.fn('mount'), unmount: P.fn('unmount'), patch: P.fn('patch') };
  const recursive = (f) => closure(P, f, memo).has(f);
  const reaches = (f, names) => callsMember(P, f, names) || [...closure(P, f, memo)].some((g) => g.body && callsMember(P, g, names));
  const first = (e, names, not = []) => reach(P, e).find((f) => recursive(f) && reaches(f, names) && !reaches(f, not));
  const r = { entry };
  r.patcher = first(entry.patch, ['commitUpdate']);
  r.mounter = first(entry.mount, ['commitMount'], ['commitUpdate']);
  r.connecter = first(entry.mount, ['connect'], ['commitMount']);
  r.unmounter = first(entry.unmount, ['commitUnmount'], ['commitUpdate']);
  r.mover = first(entry.patch, ['moveBlock'], ['commitUpdate']);
  for (const k of ['patcher', 'mounter', 'connecter', 'unmounter', 'mover']) if (!r[k]) throw new AnchorError(`the function that acts as ${k} of the committed tree was not found`);
  // who looks up the node to place something before: called for the anchor of the mover or mounter
  r.all = new Set([r.patcher, r.mounter, r.connecter, r.unmounter, r.mover]);
  // first static node of a node and of its following siblings
  const anchors = reach(P, entry.patch).filter((f) => !r.all.has(f) && callsNothingOf(P, f, memo) && reads(P, f, memo, 'staticNodes'));
  r.sibling = anchors.find((f) => reads(P, f, memo, 'parent')) ?? null;
  r.firstNode = anchors.find((f) => f !== r.sibling && recursive(f)) ?? null;
  if (r.sibling) r.all.add(r.sibling);
  r.opaque = (...but) => (f) => r.all.has(f) && !but.includes(f);
  r.bind = evalConst(c, null_ident(P, 'Bind'));
  r.fragment = evalConst(c, null_ident(P, 'Fragment'));
  return (c._tree = r);
}
function null_ident(P, name) { return P.variable(name).name; }
const mutating = ['mountBlock', 'moveBlock', 'unmountBlock', 'commitMount', 'commitUpdate', 'commitUnmount', 'connect', 'disconnect'];
function callsNothingOf(P, f, memo) { return !callsMember(P, f, mutating) && ![...closure(P, f, memo)].some((g) => g.body && callsMember(P, g, mutating)); }
function reads(P, f, memo, name) {
  const own = (g) => { let hit = false; P.walk(g, (n) => { if (ts.isPropertyAccessExpression(n) && n.name.text === name) hit = true; if (ts.isBindingElement(n) && (n.propertyName ?? n.name).getText() === name) hit = true; }); return hit; };
  return own(f) || [...closure(P, f, memo)].some((g) => g.body && own(g));
}
/** Kinds a node may have on a path. */
export function kinds(c, p, node) {
  const r = treeRoles(c);
  const type = p.st.canon(fld(node, 'type'));
  const out = [];
  const can = (pred) => { if (p.st.decide(pred) === false) return false; const s = p.st.clone(); return s.assume(pred, true); };
  if (can(p.st.pEq(type, r.bind))) out.push('bind');
  if (can(p.st.pEq(type, r.fragment))) out.push('fragment');
  if (can(p.st.pMask(type, F))) out.push('component');
  if (can(p.st.pMask(type, O))) out.push('block');
  return out;
}
/** Arguments of a call with the defaults of its target filled in. */
export function argsOf(c, e) {
  const fn = e.target ?? e.sdecl;
  if (!fn?.parameters) return e.args;
  return fn.parameters.map((q, i) => {
    const a = e.args[i];
    if ((a === undefined || a === UNDEF) && q.initializer) { const v = evalConst(c, q.initializer); if (v) return v; }
    return a ?? UNDEF;
  });
}
/**
 * Recursive calls of `fn` on the children in `list` of a path: {ok, calls, args}.
 * Every child must be visited once (in order, if asked for).
 */
export function visits(c, p, fn, list, { ordered = true, single = false, events = p.events } = {}) {
  const rec = events.filter((e) => e.t === 'call' && e.target === fn);
  const len = p.E.lengthTerm(p.st.canon(list), p.st);
  if (!rec.length) {
    const zero = p.st.decide(p.st.pEq(len, cst(0))) === true || p.st.decide(p.st.pLt(cst(0), len)) === false;
    return { ok: zero, calls: rec, why: 'no child is visited' };
  }
  // one call per child of a node that has a single child
  if (single && rec.length === 1 && c.same(p, rec[0].args[0], T.idx(p.st.canon(list), cst(0))) && !rec[0].loops.length) return { ok: true, calls: rec };
  if (rec.length !== 1) return { ok: false, calls: rec, why: 'a child is visited more than once' };
  const e = rec[0];
  const loop = e.loops.at(-1);
  const el = p.st.canon(e.args[0]);
  if (!loop) return { ok: false, calls: rec, why: 'not all children are visited' };
  const ofList = el.k === 'idx' && (c.same(p, el.arr, list) || unwrapCopy(p, el.arr) === unwrapCopy(p, list));
  if (!ofList) return { ok: false, calls: rec, why: 'something else than a child is visited' };
  const at = loop.index ?? [...(loop.carried?.values() ?? [])].find((x) => x.hv === el.i)?.hv;
  if (!at || el.i !== at) return { ok: false, calls: rec, why: 'another child is visited' };
  if (!covers(loop, list, p, { ordered })) return { ok: false, calls: rec, why: 'not all children are visited' };
  const end = p.events.find((x) => x.t === 'loopend' && x.loop === loop);
  if (end && end.how !== 'full' && end.how !== 'back') return { ok: false, calls: rec, why: 'the children after one of them are not visited' };
  return { ok: true, calls: rec, el };
}
export function unwrapCopy(p, t) { t = p.st.canon(t); while (t.k === 'o' && t.kind === 'copy') t = p.st.canon(t.of); return t; }
/** Calls on host interfaces made on a path. */
export const hostCalls = (p, ...names) => calls(p, (e) => !e.builtin && (names.length ? names : mutating).includes(e.name));
export { mutating, TRUE, FALSE };
