// C21: a matched route receives exactly its own captures.
import { ts, T, cst, UNDEF, NULL, U, N, S, fld, calls, writes, idxOf, covers, loopsOf, knows, refutes, AnchorError } from './_lib.mjs';
import { patternOf } from './C15.mjs';

export const about = 'One round of the search over the route table is followed for every way a route may match or not, with the position, the list of routes and the captures collected so far held symbolic; likewise one round of matching a pattern against a component. The matchers that are provided are followed on every path.';
export const assumptions = ['Matchers, selectors and resolvers do not change the route table or the captures.'];

const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
const isRes = (t, name) => t?.k === 'r' && t.name === name;
function roles(c) {
  if (c._c21) return c._c21;
  const k = c.P.cls('Router'), fn = c.P.method(k, 'match');
  // the function that calls patterns
  const isPat = (d) => ts.isFunctionDeclaration(d) || ts.isMethodDeclaration(d) || ts.isArrowFunction(d) || ts.isFunctionExpression(d);
  const probe = c.engine({ havoc: () => false }), opaque = new Set();
  const patternCall = (p, e) => e.t === 'call' && e.fn && !e.target && (() => { let f = p.st.canon(e.fn); return f.k === 'idx' && f.arr.k === 'f' && f.arr.name === 'patterns'; })();
  let inline = false, takes = null;
  for (const p of c.paths(probe, fn, { cls: k })) {
    let depth = [];
    for (const e of p.events) {
      if (e.t === 'enter') depth.push(e);
      else if (e.t === 'leave') depth.pop();
      else if (patternCall(p, e)) { const t = depth.at(-1); if (t?.fn && isPat(t.fn)) takes ??= t.fn; else inline = true; }
    }
  }
  void opaque;
  return (c._c21 = { k, fn, takes, inline });
}
/** The list of components a URL is split into on a path. */
function components(c, p, url) {
  const e = p.events.find((x) => (x.t === 'call' || x.t === 'pure') && x.name === 'split' && x.args?.[0]?.v === '/');
  return e ?? null;
}
function url(c) {
  const R = roles(c), E = c.engine({ opaque: (f) => f === R.takes, havoc: () => false }), [u] = E.paramSyms(R.fn);
  let n = 0;
  for (const p of c.paths(E, R.fn, { cls: R.k })) {
    if (p.st.infeasible()) continue;
    const e = components(c, p, u);
    if (!e) { c.undecide(`${c.P.where(R.fn)}: how the URL is split is not followed`); continue; }
    n++;
    const r = p.st.canon(e.recv), first = T.idx(u, cst(0));
    const slash = p.st.decide(p.st.pEq(first, cst('/'))), sw = p.events.find((x) => x.name === 'startsWith' && x.args?.[0]?.v === '/' && same(p, x.recv, u)), at = p.events.find((x) => (x.name === 'at' || x.name === 'charAt') && x.args?.[0]?.v === 0 && same(p, x.recv, u));
    const lead = slash ?? (sw ? p.st.decide(p.st.pTruthy(sw.res)) : undefined) ?? (at ? p.st.decide(p.st.pEq(at.res, cst('/'))) : undefined);
    const cut = isRes(r, 'slice') || isRes(r, 'substring') || isRes(r, 'substr');
    // a pattern that takes what it replaces from the start
    const re = isRes(r, 'replace') && same(p, r.recv, u) && (r.args ?? [])[1]?.v === '' ? patternOf(c, r.args[0]) : null;
    if (re) { c.expect(['/a', 'a', '//a', '/', '', '/a/b/', 'a/', ' /a'].every((x) => x.replace(re, '') === (x[0] === '/' ? x.slice(1) : x)), e.node, 'something other than one leading slash is dropped', p); continue; }
    let b = r;
    while (isRes(b, 'slice') || isRes(b, 'substring') || isRes(b, 'substr')) b = p.st.canon(b.recv);
    if (b !== u && ((b.k === 'idx' && isRes(p.st.canon(b.arr), 'split') && same(p, p.st.canon(b.arr).recv, u) && p.st.canon(b.arr).args?.[0]?.v !== '/') || ['trim', 'trimStart', 'trimEnd', 'toLowerCase', 'toUpperCase', 'normalize'].some((m) => isRes(b, m)) || /^(decode|encode)URI/.test(b.name ?? ''))) { c.fail(e.node, 'more than a leading slash is taken off a URL', p); continue; }
    if (lead === undefined && (r === u || ((isRes(r, 'slice') || isRes(r, 'substring')) && same(p, r.recv, u) && (r.args ?? []).every((a) => a.k === 'c')))) { c.fail(e.node, 'a URL is cut without looking at its first character', p); continue; }
    if (lead === undefined) { c.undecide(`${c.P.where(e.node)}: how a leading slash is dropped is not followed`); continue; }
    c.expect(lead ? cut && same(p, r.recv, u) && (r.args ?? [])[0]?.v === 1 && (r.args ?? []).length === 1 : r === u, e.node, lead ? 'exactly one leading slash is not dropped' : 'something is dropped from a URL without a leading slash', p);
  }
  if (!c.undecided.length) c.expect(n > 0, R.fn, 'URLs are not split');
}
/** Cells carried by the search: the list of routes, the place in it, the position. */
function search(c) {
  const R = roles(c);
  if (!R.takes) { if (R.inline) c.undecide(`${c.P.where(R.fn)}: patterns are matched in the search itself`); else c.undecide(`${c.P.where(R.fn)}: where patterns are matched is not known`); return; }
  const E = c.engine({ opaque: (f) => f === R.takes, havoc: () => false, cuts: 'always' }), [u] = E.paramSyms(R.fn), thisT = E.thisSym(R.k);
  const ps = c.paths(E, R.fn, { cls: R.k }).filter((p) => !p.st.infeasible() && p.kind !== 'throw');
  let found = 0, descended = 0, skipped = 0, none = 0;
  for (const p of ps) {
    const call = calls(p, (e) => e.target === R.takes), resolved = calls(p, (e) => e.fn && p.st.canon(e.fn).k === 'f' && p.st.canon(e.fn).name === 'resolver');
    if (!call.length) {
      none++;
      if (p.kind === 'return') c.expect(p.st.canon(p.value ?? UNDEF) === UNDEF && !resolved.length, R.fn, 'a URL that no route matches has a result', p);
      continue;
    }
    if (!c.expect(call.length === 1, call[1]?.node ?? R.fn, 'the patterns of a route are matched more than once', p)) continue;
    const e = call[0], split = components(c, p, u);
    const pat = e.args.map((a) => p.st.canon(a)).find((a) => a.k === 'f' && a.name === 'patterns');
    if (!pat) { c.undecide(`${c.P.where(e.node)}: the patterns matched are not followed`); continue; }
    const route = p.st.canon(pat.base), L = e.loops.at(-1);
    if (!L || route.k !== 'idx' || route.arr.k !== 'hv' || route.i.k !== 'hv') { c.undecide(`${c.P.where(e.node)}: how routes are searched is not followed`); continue; }
    const cell = (h) => [...L.carried.entries()].find(([, x]) => x.hv === h);
    const rk = cell(route.arr), ik = cell(route.i);
    const pos = e.args.map((a) => p.st.canon(a)).find((a) => (a.k === 'hv' || a.v === 0) && a !== route.arr && a !== route.i), pk = pos && (pos.k === 'c' ? [null, { init: pos }] : cell(pos));
    if (!rk || !ik || !pk) { c.undecide(`${c.P.where(e.node)}: how routes are searched is not followed`); continue; }
    c.expect(split && e.args.some((a) => same(p, a, split.res)), e.node, 'patterns are not matched against the components of the URL', p);
    c.expect(e.args.some((a) => same(p, a, u)), e.node, 'matchers are not given the URL', p);
    // where the search starts
    const init = (x) => p.st.canon(x[1].init);
    const given = init(rk);
    c.expect(given.k === 'f' && given.base === thisT, L.node, 'the search does not start with the routes given', p);
    c.expect(init(ik) === cst(0) && init(pk) === cst(0), L.node, 'the search does not start at the first route and the first component', p);
    const parts = fld(route, 'patterns', 'length'), total = fld(split ? p.st.canon(split.res) : UNDEF, 'length');
    const failed = [NULL, UNDEF].map((v) => p.st.decide(p.st.pEq(e.res, v))).includes(true), ok = p.st.decide(p.st.pMask(e.res, U | N)) === false || p.st.decide(p.st.pEq(e.res, NULL)) === false || (p.st.mask(p.st.canon(e.res)) & N) === 0;
    const end = T.linSum(pos, parts, 1), exact = p.st.decide(p.st.pEq(T.linSum(total, end, -1), cst(0)));
    const kids = p.st.canon(fld(route, 'childRoutes')), more = p.st.decide(p.st.pEq(fld(kids, 'length'), cst(0)));
    // what is collected in this round
    const stop = p.events.find((x) => x.t === 'loopend' && x.loop === L);
    const adds = p.events.filter((x) => x.t === 'call' && x.builtin && !x.pure && x.recv && p.st.canon(x.recv).k === 'o' && idxOf(p, x) > idxOf(p, e));
    // one by one, or all at once
    const each = p.events.find((x) => (x.t === 'loop' || x.t === 'loopzero') && idxOf(p, x) > idxOf(p, e) && covers(x.loop, e.res, p, { ordered: true }) && (x.t === 'loopzero' || p.events.some((y) => y.t === 'loopend' && y.loop === x.loop && y.how === 'full')));
    const mine = each ? (each.t === 'loopzero' ? [each] : adds.filter((x) => x.name === 'push' && x.loops.at(-1) === each.loop && x.args.length === 1 && (() => { const a = p.st.canon(x.args[0]); return a.k === 'idx' && same(p, a.arr, e.res) && (a.i === each.loop.index || [...(each.loop.carried?.values() ?? [])].some((y) => y.hv === a.i)); })())) : adds.filter((x) => x.name === 'push' && (x.rawArgs ?? x.args).length === 1 && (x.rawArgs ?? x.args)[0].k === 'spread' && same(p, (x.rawArgs ?? x.args)[0].of, e.res));
    const odd = adds.find((x) => !mine.includes(x) && /^(push|pop|shift|unshift|splice|reverse|sort|fill|concat)$/.test(x.name));
    const list = mine[0]?.recv ? p.st.canon(mine[0].recv) : null, nothing = each?.t === 'loopzero';
    const next = (x) => (x[0] === null ? pos : stop?.next?.get(x[0]) ? p.st.canon(stop.next.get(x[0])) : null);
    const stays = () => {
      skipped++;
      c.expect(!mine.length && !odd, (mine[0] ?? odd)?.node ?? e.node, 'captures of a rejected route are kept', p);
      c.expect(!resolved.length, resolved[0]?.node ?? e.node, 'the resolver of a rejected route is called', p);
      if (p.kind === 'return') {
        // the search is over: there is no further route
        const ni = stop && next(ik);
        c.expect(stop && ni && p.st.decide(p.st.pLt(ni, fld(route.arr, 'length'))) === false && p.st.canon(p.value ?? UNDEF) === UNDEF, e.node, 'the search ends although routes are left', p);
      }
      if (!stop) { c.expect(p.kind !== 'cut' || !mine.length, e.node, 'the search does not go on', p); return; }
      c.expect(stop.how !== 'break', e.node, 'the search ends at a route that does not match', p);
      const nr = next(rk), ni = next(ik), np = next(pk);
      c.expect((!nr || nr === route.arr) && ni && T.linSum(ni, route.i, -1) === cst(1) && (!np || np === pos), e.node, 'the search does not go on with the next route at the same position', p);
    };
    if (failed) { stays(); continue; }
    if (!ok) { c.expect(false, e.node, 'a route is taken without knowing whether it matches', p); continue; }
    if (exact === undefined) { c.expect(false, e.node, 'a route is taken without comparing the number of components', p); continue; }
    if (exact) {
      found++;
      const none1 = p.st.decide(p.st.pMask(fld(route, 'resolver'), U | N));
      if (!c.expect(p.kind === 'return', e.node, 'the search goes on although a route matches', p)) continue;
      if (none1 === true) { c.expect(!resolved.length && p.st.canon(p.value ?? UNDEF) === UNDEF, e.node, 'a route without a resolver has a result', p); continue; }
      if (!c.expect(resolved.length === 1 && same(p, p.st.canon(resolved[0].fn).base, route), resolved[1]?.node ?? resolved[0]?.node ?? e.node, 'the resolver of the matched route is not called', p)) continue;
      const r = resolved[0];
      c.expect(same(p, p.value, r.res), r.node, 'the result of the resolver is not returned', p);
      c.expect(same(p, r.args[1], u), r.node, 'the resolver is not given the URL', p);
      const got = p.st.canon(r.args[0] ?? UNDEF);
      const joined = got.k === 'o' && got.init?.length === 2 && got.init.every((x) => x.k === 'spread') && same(p, got.init[1].of, e.res) && got.init[0].of;
      if (nothing) c.expect(got.k === 'o' && !odd && (!R.lists || R.lists.has(got)), r.node, 'the resolver is not given the captures on its path, in order', p);
      else if (list) {
        c.expect(mine.length === 1 && got === list && idxOf(p, mine[0]) < idxOf(p, r) && !odd, r.node, 'the resolver is not given the captures on its path, in order', p);
        c.expect(list.init !== undefined ? list.init.length === 0 : true, list.node ?? r.node, 'captures that belong to no route are collected', p);
        (R.lists ??= new Set()).add(list);
      } else if (!joined) c.expect(false, r.node, 'the resolver is not given the captures on its path, in order', p);
      else c.undecide(`${c.P.where(r.node)}: how captures are collected is not followed`);
      continue;
    }
    if (more === true) { stays(); continue; }
    if (more === undefined) {
      // going into no routes at all ends the search
      c.expect(false, e.node, 'it is not known whether a route that matches a prefix has child routes', p);
      continue;
    }
    descended++;
    c.expect(!resolved.length, resolved[0]?.node ?? e.node, 'the resolver of a route that matches only a prefix is called', p);
    if (!stop) { c.expect(p.kind !== 'return', e.node, 'the search ends at a route that matches a prefix', p); continue; }
    c.expect(stop.how !== 'break', e.node, 'the search ends at a route that matches a prefix', p);
    const nr = next(rk), ni = next(ik), np = next(pk);
    c.expect(nr === kids && ni === cst(0), e.node, 'the search does not go on with the first of the child routes', p);
    c.expect(np && T.linSum(np, end, -1) === cst(0), e.node, 'the components that were matched are not left behind', p);
    if (list) { c.expect(mine.length === 1 && !odd, mine[1]?.node ?? odd?.node, 'captures are not collected exactly once, in order', p); (R.lists ??= new Set()).add(list); } else if (!nothing) c.expect(adds.length === 0 && [...L.carried.values()].some((x) => (x.nexts ?? []).some((t) => t.k === 'o' && t.init?.some((y) => y.k === 'spread' && y.of === e.res))), e.node, 'the captures of a matched prefix are lost', p);
  }
  if (c.undecided.length) return;
  c.expect(found > 0 && descended > 0 && skipped > 0 && none > 0, R.fn, 'routes are not searched depth first');
}
/** One route: its patterns against the components from a position on. */
function patterns(c) {
  const R = roles(c);
  if (!R.takes) { c.undecide(`${c.P.where(R.fn)}: where patterns are matched is not known`); return; }
  // which parameter is what
  const E0 = c.engine({ opaque: (f) => f === R.takes, havoc: () => false }), [u0] = E0.paramSyms(R.fn);
  const role = {};
  for (const p of c.paths(E0, R.fn, { cls: R.k })) for (const e of calls(p, (x) => x.target === R.takes)) e.args.forEach((a, i) => { a = p.st.canon(a); if (a.k === 'f' && a.name === 'patterns') role.patterns = i; else if (same(p, a, u0)) role.url = i; else if (components(c, p, u0) && same(p, a, components(c, p, u0).res)) role.components = i; else if (a.k === 'hv' || a.k === 'c') role.start = i; });
  if (role.patterns === undefined || role.components === undefined || role.start === undefined) { c.undecide(`${c.P.where(R.takes)}: how a route is matched is not followed`); return; }
  const E = c.engine({ havoc: () => false }), ps = E.paramSyms(R.takes), pats = ps[role.patterns], comps = ps[role.components], start = ps[role.start], u = role.url === undefined ? null : ps[role.url];
  let yes = 0, no = 0, strs = 0, fns = 0;
  const np = fld(pats, 'length'), nc = fld(comps, 'length');
  for (const p of c.paths(E, R.takes)) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const v = p.st.canon(p.value ?? UNDEF), failed = v === NULL || v === UNDEF;
    const few = p.st.decide(p.st.pLt(T.linSum(nc, start, -1), np));
    // the pattern looked at in the generic round
    let pat = null;
    const see = (t) => T.contains(t, (x) => { if (x.k === 'idx' && same(p, x.arr, pats)) pat ??= x; return false; });
    for (const e of p.events) { if (e.t === 'branch') see(e.pred); if (e.t === 'call') { if (e.fn) see(e.fn); e.args.forEach((a) => a && see(a)); } }
    const tried = calls(p, (e) => e.fn && pat && same(p, e.fn, pat));
    if (failed) {
      no++;
      if (few === true) { c.expect(!tried.length, tried[0]?.node, 'a pattern is tried without a component', p); continue; }
      if (!c.expect(pat, R.takes, 'a route is rejected without looking at its patterns', p)) continue;
      const comp = T.idx(comps, T.linSum(pat.i, start, 1));
      const differs = p.st.decide(p.st.pEq(pat, comp)) === false && knows(p, p.st.pMask(pat, S));
      const noValue = tried.length === 1 && knows(p, p.st.pMask(tried[0].res, U));
      c.expect(differs || noValue, R.takes, 'a route is rejected although its pattern matches', p);
      continue;
    }
    yes++;
    if (v.k !== 'o') { c.undecide(`${c.P.where(R.takes)}: the captures of a route are not followed`); continue; }
    const puts = p.events.filter((e) => e.t === 'call' && e.builtin && !e.pure && e.recv && same(p, e.recv, v));
    c.expect(!v.init || v.init.length === 0, v.node ?? R.takes, 'captures that belong to no pattern are collected', p);
    c.expect(puts.every((e) => e.name === 'push'), puts.find((e) => e.name !== 'push')?.node, 'captures are not collected in order', p);
    if (!pat) { c.expect(p.events.some((e) => e.t === 'loopzero') || p.st.decide(p.st.pEq(np, cst(0))) === true, R.takes, 'a route is taken without looking at its patterns', p); c.expect(!puts.length, puts[0]?.node, 'captures that belong to no pattern are collected', p); continue; }
    const loopE = p.events.find((e) => e.t === 'loop' && T.contains(pat.i, (t) => t.k === 'hv' && t.loop === e.loop)), L = loopE?.loop;
    if (!L) { c.undecide(`${c.P.where(R.takes)}: how patterns are gone through is not followed`); continue; }
    // all patterns, in order
    const x = [...L.carried.values()].find((y) => y.hv && T.contains(pat.i, (t) => t === y.hv));
    const endE = p.events.find((e) => e.t === 'loopend' && e.loop === L);
    let whole = covers(L, pats, p, { ordered: true });
    if (!whole && x) {
      const off = T.linSum(pat.i, x.hv, -1), first = T.linSum(p.st.canon(x.init), off, 1);
      const nextT = endE?.next && [...endE.next.entries()].find(([k]) => L.carried.get(k) === x)?.[1];
      const last = nextT && T.linSum(p.st.canon(nextT), off, 1);
      whole = first === cst(0) && last && T.linSum(last, pat.i, -1) === cst(1) && p.st.decide(p.st.pLt(last, np)) === false && endE.how === 'full';
    }
    c.expect(whole && endE?.how === 'full', L.node, 'not every pattern of a route is matched, in order', p);
    const ci = T.linSum(pat.i, start, 1), comp = T.idx(comps, ci);
    c.expect(few === false || p.st.decide(p.st.pLt(ci, nc)) === true, L.node, 'a pattern may be matched without a component', p);
    const str = p.st.decide(p.st.pMask(pat, S));
    if (str === true) {
      strs++;
      c.expect(p.st.decide(p.st.pEq(pat, comp)) === true, L.node, 'a string pattern matches another component', p);
      c.expect(!puts.length, puts[0]?.node, 'a string pattern yields a capture', p);
    } else if (str === false) {
      fns++;
      if (!c.expect(tried.length === 1, tried[1]?.node ?? L.node, 'a matcher is not called once', p)) continue;
      c.expect(same(p, tried[0].args[0], comp) && (!u || same(p, tried[0].args[1], u)), tried[0].node, 'a matcher is not given its component and the URL', p);
      c.expect(refutes(p, p.st.pMask(tried[0].res, U)), tried[0].node, 'a matcher that returns nothing matches', p);
      c.expect(puts.length === 1 && puts[0].args.length === 1 && same(p, puts[0].args[0], tried[0].res), puts[0]?.node ?? tried[0].node, 'what a matcher returns is not captured once', p);
    } else c.expect(false, L.node, 'string patterns and matchers are not told apart', p);
  }
  if (!c.undecided.length) c.expect(yes > 0 && no > 0 && strs > 0 && fns > 0, R.takes, 'routes are never matched');
}
function constructing(c) {
  const R = roles(c), ctor = R.k.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
  if (!ctor) throw new AnchorError('Router has no constructor');
  const E = c.engine(), [routes] = E.paramSyms(ctor), thisT = E.thisSym(R.k);
  for (const p of c.paths(E, ctor, { cls: R.k })) {
    if (p.kind === 'throw') continue;
    c.expect(writes(p, (e) => same(p, e.base, thisT)).some((e) => same(p, e.value, routes) || (p.st.canon(e.value).k === 'o' && p.st.canon(e.value).kind === 'copy' && same(p, p.st.canon(e.value).of, routes))), ctor, 'the routes given are not kept', p);
  }
  const fn = c.P.fn('route'), E2 = c.engine(), [pats, resolver, kids] = E2.paramSyms(fn);
  for (const p of c.paths(E2, fn)) {
    if (p.kind !== 'return') continue;
    const o = p.st.canon(p.value), k = p.st.canon(c.get(p, o, 'childRoutes') ?? UNDEF);
    c.expect(same(p, c.get(p, o, 'patterns'), pats) && same(p, c.get(p, o, 'resolver'), resolver) && (k === p.st.canon(kids) || (k.k === 'o' && k.kind === 'array' && (k.init ?? []).length === 0 && knows(p, p.st.pMask(kids, U)))), fn, 'a route is not made of what is given', p);
  }
}
/** Paths of the matcher that a function makes. */
function made(c, name) {
  const fn = c.P.fn(name), E = c.engine({ havoc: () => false }), out = [], ps = E.paramSyms(fn);
  for (const p of c.paths(E, fn)) {
    if (p.kind !== 'return') continue;
    const comp = T.sym('component', {}), u = T.sym('url', {});
    for (const q of c.callPaths(p, p.value, [comp, u], UNDEF)) out.push({ q, comp, u });
  }
  return { fn, ps, out };
}
function matchers(c) {
  // identity and decoding
  for (const [name, ok] of [['encoded', (p, v, x) => v === x], ['decoded', (p, v, x) => isRes(v, 'decodeURIComponent') && same(p, v.args[0], x)]]) {
    const fn = c.P.fn(name), E = c.engine(), [x] = E.paramSyms(fn);
    for (const p of c.paths(E, fn)) if (p.kind === 'return') c.expect(ok(p, p.st.canon(p.value ?? UNDEF), p.st.canon(x)), fn, `'${name}' does not return its component`, p);
  }
  {
    const fn = c.P.fn('integer'), E = c.engine(), [x] = E.paramSyms(fn);
    let some = 0, none = 0;
    for (const p of c.paths(E, fn)) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      const v = p.st.canon(p.value ?? UNDEF);
      const test = p.events.some((e) => ['test', 'match', 'exec'].includes(e.name) && (same(p, e.args?.[0], x) || same(p, e.recv, x)));
      if (v === UNDEF) { none++; continue; }
      some++;
      if (test) { c.undecide(`${c.P.where(fn)}: how integers are recognised is not followed`); continue; }
      const whole = p.events.some((e) => (e.name === 'isInteger' || e.name === 'isSafeInteger') && same(p, e.args?.[0], v) && knows(p, p.st.pTruthy(e.res))) || p.events.some((e) => e.name === 'isNaN' && same(p, e.args?.[0], v) && refutes(p, p.st.pTruthy(e.res)) && isRes(v, 'parseInt'));
      const exact = p.events.some((e) => ((e.name === 'toString' && same(p, e.recv, v)) || (e.name === 'String' && same(p, e.args?.[0], v))) && knows(p, p.st.pEq(e.res, x))) || knows(p, p.st.pEq(T.op('concat', v), x));
      c.expect(whole, fn, 'something that is no integer is captured as one', p);
      c.expect(exact, fn, 'a component is captured as an integer that reads differently', p);
      c.expect((isRes(v, 'parseInt') || isRes(v, 'Number') || isRes(v, 'parseFloat') || v.k === 'op') && T.contains(v, (t) => t === p.st.canon(x)), fn, 'another number is captured', p);
    }
    c.expect(some > 0 && none > 0, fn, 'integers are not told from other components');
  }
  {
    const { fn, ps: [s], out } = made(c, 'keyword');
    c.expect(out.length > 0, fn, 'a keyword matches nothing');
    for (const { q, comp } of out) { if (q.kind !== 'return') continue; const eq = q.st.decide(q.st.pEq(comp, s)), v = q.st.canon(q.value ?? UNDEF); c.expect(eq === true ? v === q.st.canon(s) || v === q.st.canon(comp) : eq === false && v === UNDEF, fn, 'a keyword does not match exactly itself', q); }
  }
  {
    const { fn, ps: [re], out } = made(c, 'regexp');
    c.expect(out.length > 0, fn, 'a pattern matches nothing');
    for (const { q, comp } of out) {
      if (q.kind !== 'return') continue;
      const e = q.own.find((x) => ['match', 'exec'].includes(x.name)), v = q.st.canon(q.value ?? UNDEF);
      if (!c.expect(e && ((e.name === 'match' && same(q, e.recv, comp) && same(q, e.args[0], re)) || (e.name === 'exec' && same(q, e.recv, re) && same(q, e.args[0], comp))), fn, 'the component is not matched against the pattern', q)) continue;
      const no = q.st.decide(q.st.pMask(e.res, N | U));
      c.expect(no === true ? v === UNDEF : no === false && v === q.st.canon(e.res), fn, 'the match is not what is captured', q);
    }
  }
  {
    const { fn, ps: [m, sel], out } = made(c, 'select');
    let some = 0, none = 0;
    for (const { q, comp, u } of out) {
      if (q.kind !== 'return') continue;
      const a = q.own.filter((e) => e.t === 'call' && same(q, e.fn ?? UNDEF, m)), b = q.own.filter((e) => e.t === 'call' && same(q, e.fn ?? UNDEF, sel));
      if (!c.expect(a.length === 1 && same(q, a[0].args[0], comp) && same(q, a[0].args[1], u), fn, 'the matcher is not given the component and the URL', q)) continue;
      const no = q.st.decide(q.st.pMask(a[0].res, U)), v = q.st.canon(q.value ?? UNDEF);
      if (no === true) { none++; c.expect(!b.length && v === UNDEF, fn, 'a selector is called although nothing matched', q); } else if (no === false) { some++; c.expect(b.length === 1 && same(q, b[0].args[0], a[0].res) && v === q.st.canon(b[0].res), fn, 'what is selected of the match is not captured', q); } else c.expect(false, fn, 'a match is not told from none', q);
    }
    c.expect(some > 0 && none > 0, fn, 'a selection does not depend on its matcher');
  }
  {
    const { fn, ps: [rest], out } = made(c, 'choice');
    const list = rest.k === 'spread' ? rest.of : rest;
    let some = 0, none = 0;
    for (const { q, comp, u } of out) {
      if (q.kind !== 'return' || q.st.infeasible()) continue;
      const a = q.own.filter((e) => e.t === 'call' && e.fn && q.st.canon(e.fn).k === 'idx' && same(q, q.st.canon(e.fn).arr, list)), v = q.st.canon(q.value ?? UNDEF);
      if (!a.length) { c.expect(v === UNDEF && q.own.some((e) => e.t === 'loopzero'), fn, 'a choice of nothing matches', q); continue; }
      if (!c.expect(a.length === 1 && same(q, a[0].args[0], comp) && same(q, a[0].args[1], u), a[0].node, 'a matcher is not given the component and the URL', q)) continue;
      const L = a[0].loops.at(-1);
      c.expect(L && covers(L, list, q, { ordered: true }), a[0].node, 'the matchers are not tried in order', q);
      const no = q.st.decide(q.st.pMask(a[0].res, U)), over = q.own.some((e) => e.t === 'loopend' && e.loop === L && e.how === 'full');
      if (over) { none++; c.expect(no === true && v === UNDEF, a[0].node, 'the next matcher is tried although one matched', q); } else { some++; c.expect(no === false && v === q.st.canon(a[0].res), a[0].node, 'a matcher that does not match is chosen', q); }
    }
    if (!out.length || (!some && !none)) c.undecide(`${c.P.where(fn)}: how matchers are chosen is not followed`); else c.expect(some > 0 && none > 0, fn, 'a choice does not try its matchers');
  }
}
export const rules = [
  { name: 'url', text: 'exactly one leading slash is dropped before a URL is split at the slashes', run: url },
  { name: 'search', text: 'routes are tried in order; a matched prefix is entered, an exact match resolved with the captures on its path, anything else leaves no trace', run: search },
  { name: 'patterns', text: 'the patterns of a route are matched in order against the components at its position; matchers yield one capture each, string patterns none', run: patterns },
  { name: 'constructing', text: 'a router keeps the routes and a route the parts it is given', run: constructing },
  { name: 'matchers', text: 'the matchers provided capture exactly what they recognise', run: matchers },
];
