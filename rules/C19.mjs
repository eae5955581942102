// C19: computed signals are never stale and recompute only on change.
import { ts, T, cst, UNDEF, NULL, U, N, fld, calls, writes, idxOf, covers, loopsOf, AnchorError } from './_lib.mjs';
import { accessor, ctorFields, concrete } from './_signal.mjs';

export const about = 'The version, the value and the subscription of computed signals are followed on every path: when the computation is called, with what, what is remembered afterwards, and which dependencies are subscribed to and released.';
export const assumptions = ['Versions of dependencies never decrease (C18).', 'Computations depend on nothing but the values they are given.'];

const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
function roles(c) {
  if (c._c19) return c._c19;
  const k = c.P.cls('Computed'), ctor = k.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
  const [fnF, depsF, resF, verF] = ctorFields(c, k);
  if (!fnF || !depsF) throw new AnchorError('the computation and the dependencies of a computed signal are not kept');
  const E = c.engine(), thisT = E.thisSym(k);
  return (c._c19 = { k, ctor, fnF, depsF, resF, verF, thisT, deps: fld(thisT, depsF) });
}
/** An array holding, for each dependency in order, what pick makes of it. */
export function mapped(p, a, deps, pick) {
  a = p.st.canon(a);
  if (a.k === 'o' && a.kind === 'copy') return mapped(p, a.of, deps, pick);
  if (a.k === 'o' && a.kind === 'map') {
    let over = p.st.canon(a.over);
    while (over.k === 'o' && over.kind === 'copy') over = p.st.canon(over.of);
    return same(p, over, deps) && pick(T.idx(over, a.index), a.value);
  }
  if (a.k !== 'o' || a.kind !== 'array') return false;
  const put = p.events.filter((e) => e.t === 'call' && e.name === 'push' && e.builtin && p.st.canon(e.recv) === a);
  if (!put.length) { const it = p.st.heap.get(a.id + '#items'); return !!it?.exact && !it.list.length && p.events.some((e) => e.t === 'loopzero'); }
  if (put.length !== 1 || put[0].args.length !== 1) return false;
  const L = put[0].loops.at(-1);
  if (!L || !covers(L, deps, p, { ordered: true })) return false;
  let ok = false;
  T.contains(put[0].args[0], (t) => { if (t.k === 'idx' && same(p, t.arr, deps) && pick(t, put[0].args[0])) ok = true; return false; });
  return ok;
}

function version(c) {
  const R = roles(c), fn = accessor(c, R.k, 'version'), E = c.engine();
  let n = 0;
  for (const p of c.paths(E, fn, { cls: R.k })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const ls = loopsOf(p), v = p.st.canon(p.value ?? UNDEF);
    if (!ls.length) { c.expect(v.k === 'c' && p.events.some((e) => e.t === 'loopzero'), fn, 'the version of a computed signal does not depend on those of its dependencies', p); continue; }
    n++;
    const L = ls.find(({ loop }) => covers(loop, R.deps, p));
    if (!c.expect(L && L.end === 'full', fn, 'the version does not take every dependency into account', p)) continue;
    const acc = [...(L.loop.carried?.values() ?? [])].find((x) => x.hv && T.contains(v, (t) => t === x.hv)) ?? null;
    if (!c.expect(acc && acc.init && p.st.canon(acc.init).k === 'c', fn, 'the versions of the dependencies are not summed up', p)) continue;
    const d = T.linSum(v, acc.hv, -1);
    c.expect(d.k === 'f' && d.name === 'version' && d.base.k === 'idx' && same(p, d.base.arr, R.deps), L.loop.node, 'a change of one dependency may leave the version as it is', p);
  }
  c.expect(n > 0, fn, 'the version of a computed signal does not depend on those of its dependencies');
}
function value(c) {
  const R = roles(c), fn = accessor(c, R.k, 'value'), ver = accessor(c, R.k, 'version');
  // what the computation does may change the version: a version read later is another one
  const E = c.engine({ opaque: (f) => f === ver, havoc: (e) => e.fn?.k === 'f' && e.fn.name === R.fnF });
  const cur = fld(R.thisT, 'version');
  let re = 0, hit = 0;
  const ps = c.paths(E, fn, { cls: R.k }).filter((p) => p.kind === 'return' && !p.st.infeasible());
  // the fields remembered
  const comp = (p) => calls(p, (e) => e.fn && same(p, e.fn, fld(R.thisT, R.fnF)));
  let verF = null, resF = null;
  for (const p of ps) for (const e of writes(p)) if (p.st.canon(e.base) === R.thisT) {
    const made = comp(p)[0];
    if (made && same(p, e.value, made.res)) resF ??= e.name;
    else { const v = p.st.canon(e.value); if (v.k === 'f' && v.name === 'version' && v.base === R.thisT) verF ??= e.name; }
  }
  if (!c.expect(resF, fn, 'the computed value is not remembered') || !c.expect(verF, fn, 'the version of the computed value is not remembered')) return;
  const memo = fld(R.thisT, verF);
  for (const p of ps) {
    const cs = comp(p), ws = writes(p, (e) => p.st.canon(e.base) === R.thisT);
    const less = p.st.decide(p.st.pLt(memo, cur)), eq = p.st.decide(p.st.pEq(memo, cur));
    const stale = less === true || eq === false ? true : less === false || eq === true ? false : undefined;
    if (!cs.length) {
      hit++;
      c.expect(stale === false, fn, 'a value may be returned although a dependency has changed since', p);
      c.expect(same(p, p.value, fld(R.thisT, resF)), fn, 'the value remembered is not returned', p);
      c.expect(!ws.length, ws[0]?.node ?? fn, 'what is remembered changes without a computation', p);
      continue;
    }
    re++;
    const e = cs[0];
    c.expect(cs.length === 1 && !e.loops.length, e.node, 'the computation is called more than once', p);
    c.expect(stale === true, e.node, 'a value is computed again although no dependency has changed', p);
    const pick = (el, v) => { const x = p.st.canon(v); return x.k === 'f' && x.name === 'value' && same(p, x.base, el); };
    const okArgs = e.args.length === 1 && e.args[0].k === 'spread' ? mapped(p, e.args[0].of, R.deps, pick) : !e.args.length && p.events.some((x) => x.t === 'loopzero');
    c.expect(okArgs, e.node, 'the computation is not given the value of each dependency in order', p);
    c.expect(same(p, p.value, e.res), fn, 'the value computed is not returned', p);
    const wr = ws.filter((x) => x.name === resF), wv = ws.filter((x) => x.name === verF);
    c.expect(wr.length === 1 && same(p, wr[0].value, e.res), wr[0]?.node ?? e.node, 'the value computed is not remembered', p);
    c.expect(wv.length === 1 && wv[0].value === cur && idxOf(p, wv[0]) > idxOf(p, e), wv[0]?.node ?? e.node, 'the version remembered is not the one the value was computed for, once it has been computed', p);
  }
  c.expect(re > 0 && hit > 0, fn, 'a value is computed always or never');
  // at first nothing has been computed
  const E2 = c.engine(), params = E2.paramSyms(R.ctor);
  let init = 0;
  for (const p of c.paths(E2, R.ctor, { cls: R.k, args: params.map((x, i) => (i < 2 ? x : UNDEF)) })) {
    if (p.kind !== 'return') continue;
    init++;
    const w = writes(p, (e) => p.st.canon(e.base) === E2.thisSym(R.k) && e.name === verF).at(-1), v = w ? p.st.canon(w.value) : UNDEF;
    c.expect(v.k === 'c' && typeof v.v === 'number' && v.v < 0, w?.node ?? R.ctor, 'a new computed signal pretends to have a value already', p);
  }
  c.expect(init > 0, R.ctor, 'a computed signal cannot be made');
}
function subscribe(c) {
  const R = roles(c), fn = c.P.method(R.k, 'subscribe'), E = c.engine(), [sub] = E.paramSyms(fn);
  let n = 0;
  for (const p of c.paths(E, fn, { cls: R.k })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const subs = calls(p, (e) => e.name === 'subscribe');
    const v = p.st.canon(p.value ?? UNDEF);
    if (!subs.length) { c.expect(p.events.some((e) => e.t === 'loopzero'), fn, 'no dependency is subscribed to', p); continue; }
    n++;
    const e = subs[0], L = e.loops.at(-1), r = p.st.canon(e.recv);
    c.expect(subs.length === 1 && L && covers(L, R.deps, p) && r.k === 'idx' && same(p, r.arr, R.deps), e.node, 'not every dependency is subscribed to once', p);
    c.expect(e.args.length === 1 && passes(c, p, e.args[0], sub), e.node, 'a subscriber is not told about every change of a dependency', p);
    if (!c.expect(v.k === 'fn' || v.k === 'fd', fn, 'subscribing yields no function to unsubscribe', p)) continue;
    let undone = 0;
    for (const q of c.callPaths(p, v, [], UNDEF)) {
      if (q.kind === 'throw') continue;
      const own = q.own.filter((x) => x.t === 'call' && !x.pure && x.fn);
      if (!own.length) { c.expect(q.own.some((x) => x.t === 'loopzero'), fn, 'a subscription to a dependency is not undone', q); continue; }
      undone++;
      const u = own[0], M = u.loops.at(-1), f = q.st.canon(u.fn);
      // each element of a list that holds one result per dependency
      const list = f.k === 'idx' ? q.st.canon(f.arr) : M?.over ? q.st.canon(M.over) : null;
      const ok = own.length === 1 && M && list && covers(M, list, q) && mapped(p, list, R.deps, (el, x) => p.st.canon(x) === p.st.canon(e.res)) && (f.k === 'idx' || f === q.st.canon(e.res));
      c.expect(ok, u.node, 'unsubscribing does not undo the subscription to each dependency', q);
      for (const x of q.own.filter((y) => y.t === 'loopend' && y.loop === M)) c.expect(x.how === 'full', M.node, 'unsubscribing ends before every subscription is undone', q);
    }
    c.expect(undone > 0, fn, 'a subscription to a dependency is not undone', p);
  }
  c.expect(n > 0, fn, 'no dependency is subscribed to');
}
/** f is the subscriber, or always calls it. */
function passes(c, p, f, sub) {
  if (same(p, f, sub)) return true;
  f = p.st.canon(f);
  if (f.k !== 'fn') return false;
  const ev = T.sym('event');
  const qs = c.callPaths(p, f, [ev], UNDEF);
  return qs.length > 0 && qs.every((q) => { const cs = q.own.filter((e) => e.t === 'call' && e.fn && same(q, e.fn, sub)); return cs.length === 1 && same(q, cs[0].args[0], ev); });
}
export const rules = [
  { name: 'version', text: 'the version of a computed signal is the sum of the versions of all its dependencies', run: version },
  { name: 'value', text: 'reading computes the value once from the values of the dependencies in order exactly if the version changed, and remembers the version afterwards', run: value },
  { name: 'subscribe', text: 'subscribing subscribes to each dependency, and unsubscribing undoes each of these', run: subscribe },
];
