// C22: navigation adapters intercept only their own navigations and unlisten.
import { ts, T, cst, UNDEF, NULL, U, N, S, F, fld, calls, writes, idxOf, covers, loopsOf, knows, refutes, AnchorError } from './_lib.mjs';
import { patternOf } from './C15.mjs';

export const about = 'The listener that each adapter registers is followed on every path for an arbitrary navigation, which tells under which conditions the user’s listener is called and with what; registering, unregistering and navigating are followed on every path as well, the in-memory navigation also for handlers that throw or reject.';
export const assumptions = ['The host delivers navigations as the Navigation API describes; a download is never a navigation within the document’s fragment.'];

const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
const isRes = (t, name) => t?.k === 'r' && t.name === name;
const IFACE = 'NavigationAdapter';
function roles(c) {
  if (c._c22) return c._c22;
  const all = c.P.implementors(IFACE);
  if (!all.length) throw new AnchorError('no class implements NavigationAdapter');
  const out = [];
  for (const k of all) {
    const listen = c.P.method(k, 'listen'), E = c.engine({ havoc: () => false }), [listener] = E.paramSyms(listen);
    const ps = c.paths(E, listen, { cls: k }).filter((p) => p.kind === 'return' && !p.st.infeasible());
    const kind = ps.some((p) => p.events.some((e) => e.t === 'call' && e.name === 'addEventListener')) ? 'host' : 'memory';
    const name = k.name.text;
    out.push({ k, name, listen, listener, ps, E, kind, hash: /hash/i.test(name), thisT: E.thisSym(k) });
  }
  return (c._c22 = out);
}
/** What a constructor keeps of what it is given: field by name of the option. */
function kept(c, R) {
  if (R.kept) return R.kept;
  const ctor = R.k.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
  R.kept = {};
  if (!ctor) return R.kept;
  const E = c.engine({ havoc: () => false }), ps = E.paramSyms(ctor), thisT = E.thisSym(R.k);
  for (const p of c.paths(E, ctor, { cls: R.k })) {
    if (p.kind === 'throw' || p.st.infeasible()) continue;
    for (const e of writes(p)) {
      if (!same(p, e.base, thisT)) continue;
      const v = p.st.canon(e.value);
      const from = v.k === 'f' && ps.some((x) => same(p, v.base, x)) ? v.name : v.k === 'ext' ? v.name.split('.').at(-1) : ps.some((x) => same(p, v, x)) ? 'param' + ps.findIndex((x) => same(p, v, x)) : null;
      if (from) (R.kept[from] ??= new Set()).add(String(e.name));
      else if (v.k === 'f' || v.k === 'ext') (R.kept.other ??= new Set()).add(String(e.name));
    }
  }
  return R.kept;
}
const holds = (c, R, what, t) => { t = t && t.k ? t : UNDEF; const K = kept(c, R)[what]; return t.k === 'f' && t.base === R.thisT && K?.has(t.name); };
/** pathname + search + hash of a location or URL. */
function relative(p, t, base) {
  t = p.st.canon(t);
  if (t.k !== 'op' || t.op !== 'concat' || t.args.length !== 3) return false;
  return ['pathname', 'search', 'hash'].every((n, i) => { const a = p.st.canon(t.args[i]); return a.k === 'f' && a.name === n && base(p.st.canon(a.base)); });
}
/** A fragment without its mark. */
function fragment(c, p, t, base) {
  t = p.st.canon(t);
  const isHash = (x) => { x = p.st.canon(x); return x.k === 'f' && x.name === 'hash' && base(p.st.canon(x.base)); };
  const marked = (h) => { const e = p.events.find((x) => x.name === 'startsWith' && x.args?.[0]?.v === '#' && same(p, x.recv, h)); return e ? p.st.decide(p.st.pTruthy(e.res)) : p.st.decide(p.st.pEq(T.idx(h, cst(0)), cst('#'))) ?? (() => { const k = p.events.find((x) => (x.name === 'charAt' || x.name === 'at') && x.args?.[0]?.v === 0 && same(p, x.recv, h)); return k ? p.st.decide(p.st.pEq(k.res, cst('#'))) : undefined; })() ?? (p.st.decide(p.st.pEq(h, cst(''))) === true || p.st.decide(p.st.pTruthy(h)) === false ? false : undefined); };
  if (isHash(t)) return marked(t) === false;
  if (t.k === 'c' && t.v === '') return true; // only where the fragment is known to be empty
  if ((isRes(t, 'slice') || isRes(t, 'substring')) && isHash(t.recv)) return (t.args ?? []).length === 1 && t.args[0].v === 1 && marked(p.st.canon(t.recv)) !== false;
  if (isRes(t, 'replace') && isHash(t.recv) && t.args?.[1]?.v === '') {
    if (t.args[0].v === '#') return true;
    const re = patternOf(c, t.args[0]);
    return !!re && ['', '#', '#a', '##', '#a#b', '#/a/b'].every((x) => x.replace(re, '') === x.slice(1));
  }
  return false;
}
const urlOf = (p, dest) => (b) => { const e = p.events.find((x) => (x.t === 'new' && x.obj === b && /(^|\.)URL$/.test(x.name ?? '')) || (x.t === 'call' && x.name === 'parse' && same(p, x.res, b))); return !!e && e.args.length === 1 && same(p, e.args[0], fld(dest, 'url')); };
const option = (p, o) => { if (!o || o === UNDEF) return false; const t = p.st.canon(o); if (t.k === 'c') return !!t.v; const v = t.k === 'o' ? p.st.heap.get(p.E.hkey(p.st, t, cst('capture'))) : undefined; return v ? p.st.canon(v) : false; };

function listening(c) {
  for (const R of roles(c)) {
    if (!R.ps.length) { c.undecide(`${c.P.where(R.listen)}: listening is not followed`); continue; }
    for (const p of R.ps) {
      const v = p.st.canon(p.value ?? UNDEF);
      if (!c.expect(v.k === 'fn' || v.k === 'bm', R.listen, 'listening returns no function to stop it', p)) continue;
      const put = calls(p, (e) => e.name === 'addEventListener' || (/^(Set|Map|Array)?\.?(add|push|set)$/.test(e.decl ?? e.name) || ['add', 'push', 'append'].includes(e.name)) && e.recv && p.st.canon(e.recv).k === 'f');
      if (!c.expect(put.length === 1, put[1]?.node ?? R.listen, 'a listener is not registered exactly once', p)) continue;
      const e = put[0];
      if (R.kind === 'host') {
        c.expect(holds(c, R, 'navigation', p.st.canon(e.recv)) && e.args[0]?.v === 'navigate', e.node, 'it is not navigations of the given host that are listened to', p);
        for (const q of c.callPaths(p, v, [], UNDEF)) {
          if (q.kind === 'throw') continue;
          const off = q.own.filter((x) => x.t === 'call' && !x.pure);
          c.expect(off.length === 1 && off[0].name === 'removeEventListener' && same(q, off[0].recv, e.recv) && same(q, off[0].args[0], e.args[0]) && same(q, off[0].args[1], e.args[1]) && option(q, off[0].args[2]) === option(p, e.args[2]), off[0]?.node ?? R.listen, 'stopping to listen does not remove exactly the listener that was added', q);
        }
      } else {
        const item = p.st.canon(e.args[0] ?? UNDEF);
        if (!same(p, item, R.listener) && e.name !== 'set') { c.undecide(`${c.P.where(e.node)}: what is kept of a listener is not followed`); if (item.k !== 'fn') continue; }
        c.expect(same(p, p.st.canon(e.recv).base, R.thisT), e.node, 'the listener is not added to those of the adapter', p);
        for (const q of c.callPaths(p, v, [], UNDEF)) {
          if (q.kind === 'throw') continue;
          const off = q.own.filter((x) => x.t === 'call' && !x.pure);
          if (off.some((x) => ['splice', 'indexOf', 'filter'].includes(x.name)) || q.own.some((x) => x.t === 'write')) { c.undecide(`${c.P.where(R.listen)}: how a listener is removed is not followed`); continue; }
          c.expect(off.length === 1 && off[0].name === 'delete' && same(q, off[0].recv, e.recv) && same(q, off[0].args[0], e.args[0]), off[0]?.node ?? R.listen, 'stopping to listen does not remove exactly the listener that was added', q);
        }
      }
    }
  }
}
function filtering(c) {
  for (const R of roles(c)) {
    if (R.kind !== 'host') continue;
    let called = 0, not = 0;
    for (const p of R.ps) {
      const e = calls(p, (x) => x.name === 'addEventListener')[0];
      const h = e && p.st.canon(e.args[1] ?? UNDEF);
      if (!h || (h.k !== 'fn' && h.k !== 'bm')) { c.undecide(`${c.P.where(R.listen)}: the listener is not followed`); continue; }
      const ev = T.sym('event', {}), dest = fld(ev, 'destination');
      const type = (n, m, d) => { const t = fld(ev, n); t.m0 ??= m; return t; };
      void type;
      for (const q of c.callPaths(p, h, [ev], UNDEF)) {
        if (q.kind === 'throw' || q.st.infeasible()) continue;
        const hits = q.own.filter((x) => x.t === 'call' && x.fn && same(q, x.fn, R.listener));
        const truth = (t) => q.st.decide(q.st.pTruthy(t)) ?? q.st.decide(q.st.pEq(t, cst(true)));
        const can = truth(fld(ev, 'canIntercept')), sd = truth(fld(dest, 'sameDocument')), hash = truth(fld(ev, 'hashChange'));
        const dl = fld(ev, 'downloadRequest'), noDl = q.st.decide(q.st.pEq(dl, NULL)) ?? q.st.decide(q.st.pMask(dl, N | U)) ?? (q.st.decide(q.st.pTruthy(dl)) === true ? false : undefined);
        const isDownload = noDl === false;
        if (hits.length) {
          called++;
          c.expect(hits.length === 1, hits[1]?.node, 'a listener is called more than once for a navigation', q);
          const n = hits[0].node;
          c.expect(can === true, n, 'a listener is called for a navigation that cannot be intercepted', q);
          c.expect(sd === true, n, 'a listener is called for a navigation to another document', q);
          c.expect(hash === R.hash, n, R.hash ? 'the hash adapter takes a navigation that does not change the fragment' : 'the browser adapter takes a navigation that only changes the fragment', q);
          if (!R.hash) c.expect(noDl === true, n, 'a listener is called for a download', q);
          const scene = q.st.canon(hits[0].args[0] ?? UNDEF), url = c.get(q, scene, 'url');
          c.expect(R.hash ? fragment(c, q, url, urlOf(q, dest)) : relative(q, url, urlOf(q, dest)), n, 'the scene does not have the URL of the destination', q);
          const state = c.get(q, scene, 'state'), sEv = q.own.find((x) => x.t === 'call' && x.name === 'getState' && same(q, x.recv, dest));
          c.expect(sEv && same(q, state, sEv.res), n, 'the scene does not have the state of the destination', q);
          const ty = c.get(q, scene, 'navigationType');
          c.expect(ty.k === 'f' && ty.name === 'navigationType' && same(q, ty.base, ev), n, 'the scene does not have the type of the navigation', q);
          const it = q.st.canon(hits[0].args[1] ?? UNDEF);
          if (it !== ev) { if (it.k === 'o') c.undecide(`${c.P.where(n)}: the interceptor is not the navigation itself`); else c.expect(false, n, 'the listener is not given the navigation to intercept', q); }
        } else {
          not++;
          c.expect(can === false || sd === false || hash === !R.hash || isDownload, h.node ?? R.listen, 'a navigation within the document is not passed to the listener', q);
        }
        const other = q.own.find((x) => x.t === 'call' && x.recv && same(q, x.recv, ev) && !x.pure);
        c.expect(!other, other?.node, 'the adapter itself acts on the navigation', q);
      }
    }
    if (!c.undecided.length) c.expect(called > 0 && not > 0, R.listen, 'navigations are not told apart');
  }
}
function current(c) {
  for (const R of roles(c)) {
    const urlFn = c.P.method(R.k, 'getCurrentURL'), stFn = c.P.method(R.k, 'getCurrentState');
    const E = c.engine({ havoc: () => false });
    for (const p of c.paths(E, urlFn, { cls: R.k })) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      const v = p.st.canon(p.value ?? UNDEF), loc = (b) => holds(c, R, 'location', b);
      if (R.kind === 'memory') { c.expect(v.k === 'f' && v.base === R.thisT, urlFn, 'the current URL is not the one navigated to', p); R.urlF = v.name; } else c.expect(R.hash ? fragment(c, p, v, loc) : relative(p, v, loc), urlFn, 'the current URL is not that of the location', p);
    }
    for (const p of c.paths(E, stFn, { cls: R.k })) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      const v = p.st.canon(p.value ?? UNDEF);
      if (R.kind === 'memory') { c.expect(v.k === 'f' && v.base === R.thisT, stFn, 'the current state is not the one navigated to', p); R.stateF = v.name; continue; }
      const entry = (b) => { b = p.st.canon(b); return b.k === 'f' && b.name === 'currentEntry' && holds(c, R, 'navigation', p.st.canon(b.base)); };
      const g = calls(p, (x) => x.name === 'getState');
      const none = p.events.some((x) => x.t === 'branch' && T.contains(x.pred, (t) => t.k === 'f' && t.name === 'currentEntry'));
      c.expect(g.length ? g.length === 1 && entry(g[0].recv) && same(p, v, g[0].res) : v.k === 'c' && (v.v === undefined || v.v === null) && none, stFn, 'the current state is not that of the current entry', p);
    }
  }
  for (const R of roles(c)) {
    if (R.kind !== 'memory') continue;
    const ctor = R.k.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
    if (!ctor) continue;
    const K = kept(c, R);
    c.expect(K.param0?.has(R.urlF) && K.param1?.has(R.stateF), ctor, 'an in-memory location does not start where it is told to');
  }
}
function navigating(c) {
  for (const R of roles(c)) {
    const fn = c.P.method(R.k, 'navigate');
    if (R.kind === 'memory') { memory(c, R, fn); continue; }
    const E = c.engine({ havoc: () => false }), [url, opts] = E.paramSyms(fn);
    for (const p of c.paths(E, fn, { cls: R.k })) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      const e = calls(p, (x) => x.name === 'navigate');
      if (!c.expect(e.length === 1 && holds(c, R, 'navigation', p.st.canon(e[0].recv)), e[1]?.node ?? fn, 'a navigation is not passed to the host once', p)) continue;
      const t = p.st.canon(e[0].args[0] ?? UNDEF);
      c.expect(R.hash ? t.k === 'op' && t.op === 'concat' && t.args.length === 2 && t.args[0].v === '#' && same(p, t.args[1], url) : same(p, t, url), e[0].node, 'the host is not told to navigate to the given URL', p);
      const o = e[0].args[1];
      c.expect(same(p, o ?? UNDEF, opts) || (o && p.st.canon(o).k === 'o' && p.st.canon(o).kind === 'copy' && same(p, p.st.canon(o).of, opts)), e[0].node, 'the options of a navigation are lost', p);
      const done = (t) => { t = p.st.canon(t ?? UNDEF); return t.k === 'f' && t.name === 'finished' && same(p, t.base, e[0].res); };
      const aw = p.events.find((x) => x.t === 'await' && done(x.value) && idxOf(p, x) > idxOf(p, e[0]));
      const then = p.events.find((x) => x.t === 'call' && x.name === 'then' && done(x.recv));
      c.expect(aw || done(p.value) || (then && same(p, p.value, then.res)), e[0].node, 'navigating does not wait until the navigation has finished', p);
    }
  }
}
function memory(c, R, fn) {
  const K = kept(c, R);
  const urlF = R.urlF, stateF = R.stateF;
  if (!urlF || !stateF) { c.undecide(`${c.P.where(fn)}: where the location is kept is not followed`); return; }
  void K;
  const putRecv = R.ps[0]?.events.find((e) => e.t === 'call' && ['add', 'push', 'append', 'set'].includes(e.name))?.recv;
  const E = c.engine({ havoc: () => false, escape: true, throws: (e) => e.t === 'await' }), [url, opts] = E.paramSyms(fn);
  let n = 0, waits = 0, failed = 0;
  for (const p of c.paths(E, fn, { cls: R.k })) {
    if (p.st.infeasible()) continue;
    const own = writes(p).filter((e) => same(p, e.base, R.thisT) && [urlF, stateF].includes(String(e.name)));
    const set = p.st.canon(putRecv ?? UNDEF);
    const L = p.events.find((e) => (e.t === 'loop' || e.t === 'loopzero') && (covers(e.loop, set, p) || (set.k === 'f' && e.loop.over && p.st.canon(e.loop.over).k === 'f' && p.st.canon(e.loop.over).name === set.name)));
    if (p.kind === 'throw') { failed++; c.expect(!own.length, own[0]?.node ?? fn, 'the location has changed although the navigation failed', p); continue; }
    if (p.kind !== 'return') continue;
    n++;
    if (!L) { if (p.events.some((e) => e.name === 'forEach' || e.name === 'map')) c.undecide(`${c.P.where(fn)}: how listeners are called is not followed`); else c.fail(fn, 'a navigation is not passed to every listener', p); continue; }
    const w = (f) => own.filter((e) => String(e.name) === f);
    c.expect(w(urlF).length === 1 && same(p, w(urlF)[0].value, url), w(urlF)[0]?.node ?? fn, 'the URL is not that of the last navigation', p);
    const given = c.get(p, opts, 'state');
    const sv = w(stateF)[0] && p.st.canon(w(stateF)[0].value);
    c.expect(w(stateF).length === 1 && (sv === UNDEF ? p.st.decide(p.st.pMask(opts, U)) !== false || p.st.decide(p.st.pMask(given, U)) === true : sv === given || (sv.k === 'f' && sv.name === 'state' && same(p, sv.base, opts))), w(stateF)[0]?.node ?? fn, 'the state is not that of the last navigation', p);
    const hits = calls(p, (e) => e.fn && p.st.canon(e.fn).k === 'idx' && e.loops.at(-1) === L.loop);
    const awaits = p.events.filter((e) => e.t === 'await');
    const first = own.length ? Math.min(...own.map((e) => idxOf(p, e))) : Infinity;
    if (L.t === 'loopzero') { c.expect(awaits.every((e) => idxOf(p, e) < first), own[0]?.node ?? fn, 'the location changes before the navigation has finished', p); continue; }
    if (!c.expect(hits.length === 1, hits[1]?.node ?? fn, 'a listener is not called once for a navigation', p)) continue;
    c.expect(p.events.some((e) => e.t === 'loopend' && e.loop === L.loop && e.how === 'full'), L.loop.node, 'a navigation is not passed to every listener', p);
    const scene = p.st.canon(hits[0].args[0] ?? UNDEF), inter = p.st.canon(hits[0].args[1] ?? UNDEF);
    c.expect(same(p, c.get(p, scene, 'url'), url), hits[0].node, 'the scene does not have the URL of the navigation', p);
    c.expect(same(p, c.get(p, scene, 'state'), sv ?? UNDEF), hits[0].node, 'the scene does not have the state of the navigation', p);
    // the kind of navigation: as asked for, else by whether the URL stays the same
    const ty = c.get(p, scene, 'navigationType');
    const hist = p.st.decide(p.st.pMask(opts, U)) === true ? UNDEF : fld(opts, 'history');
    const is = (v) => (hist === UNDEF ? false : p.st.decide(p.st.pEq(hist, cst(v))));
    const stay = p.st.decide(p.st.pEq(url, fld(R.thisT, urlF)));
    const want = is('push') === true ? 'push' : is('replace') === true ? 'replace' : is('push') === false && is('replace') === false && stay !== undefined ? (stay ? 'replace' : 'push') : null;
    c.expect(want ? ty.v === want || (ty === p.st.canon(hist) && hist !== UNDEF && is(want) === true) : ty.k === 'f' && ty.name === 'history', hits[0].node, 'the scene does not have the type of the navigation', p);
    // handlers
    if (inter.k !== 'o') { c.undecide(`${c.P.where(hits[0].node)}: the interceptor is not followed`); continue; }
    const icpt = c.get(p, inter, 'intercept'), handler = T.sym('handler', {});
    handler.m0 = F;
    const o = T.alloc('object', {}), st = p.st.clone();
    st.heap.set(E.hkey(st, o, cst('handler')), handler);
    E.hinfo.set(E.hkey(st, o, cst('handler')), { base: o, key: cst('handler') });
    const m = inter.cls ? c.P.member(inter.cls, 'intercept') : null, fv = m ? T.bound(m.decl, inter, m.decl.pos + m.decl.getSourceFile().fileName) : icpt;
    if (!['fn', 'fd', 'bm'].includes(fv.k)) { c.undecide(`${c.P.where(hits[0].node)}: the interceptor is not followed`); continue; }
    const isAsync = (f) => !!(f.node ?? f.decl)?.modifiers?.some((x) => x.kind === ts.SyntaxKind.AsyncKeyword);
    for (const q of c.callPaths(p, fv, [o], inter, st)) {
      if (q.kind === 'throw') continue;
      const calledNow = q.own.filter((x) => x.t === 'call' && x.fn && same(q, x.fn, handler));
      const put = q.own.filter((x) => x.t === 'call' && x.builtin && x.name === 'push');
      const quiet = calledNow.length === 1 && !put.length && p.st.decide && q.st.decide(q.st.pMask(calledNow[0].res, U)) === true;
      if (quiet) { c.expect(!isAsync(fv), fv.node ?? fn, 'an error thrown by a handler is lost', q); continue; }
      if (!c.expect(put.length === 1 && put[0].args.length === 1, put[1]?.node ?? fv.node ?? fn, 'the navigation does not wait for a handler', q)) continue;
      const list = q.st.canon(put[0].recv), a = q.st.canon(put[0].args[0]);
      if (calledNow.length) {
        c.expect(calledNow.length === 1 && (same(q, a, calledNow[0].res) || T.contains(a, (t) => t === q.st.canon(calledNow[0].res))), put[0].node, 'what a handler returns is not waited for', q);
        c.expect(!isAsync(fv), calledNow[0].node, 'an error thrown by a handler is lost', q);
      } else {
        const via = q.own.find((x) => x.t === 'call' && same(q, x.res, a));
        const clo = via && (via.fn ? q.st.canon(via.fn) : null);
        if (via?.name === 'try' && same(q, via.args[0], handler)) { /* Promise.try */ } else if (clo?.k === 'fn') {
          let k = 0;
          for (const z of c.callPaths(q, clo, via.args, UNDEF)) {
            if (z.kind !== 'return') continue;
            k++;
            const hc = z.own.filter((x) => x.t === 'call' && x.fn && same(z, x.fn, handler)), v = z.st.canon(z.value ?? UNDEF);
            c.expect(hc.length === 1 && (same(z, v, hc[0].res) || z.own.some((x) => x.t === 'await' && same(z, x.value, hc[0].res))), via.node, 'what a handler returns is not waited for', z);
          }
          if (!k) c.undecide(`${c.P.where(via.node)}: how a handler is called is not followed`);
        } else { c.undecide(`${c.P.where(put[0].node)}: how a handler is called is not followed`); continue; }
      }
      // everything that is collected succeeds before the location changes
      const all = p.events.find((x) => x.t === 'call' && x.name === 'all' && same(p, x.args[0], list)), aw = all && awaits.find((x) => same(p, x.value, all.res));
      const one = p.events.find((x) => (x.t === 'loopzero' || (x.t === 'loopend' && x.how === 'full')) && idxOf(p, x) < first && covers(x.loop, list, p, { ordered: true }) && (x.t === 'loopzero' || awaits.some((y) => y.loops?.at(-1) === x.loop)));
      c.expect((aw && idxOf(p, aw) < first && idxOf(p, aw) > idxOf(p, p.events.find((x) => x.t === 'loopend' && x.loop === L.loop))) || one, own[0]?.node ?? fn, 'the location changes before every handler has succeeded', p);
      waits++;
    }
  }
  if (!c.undecided.length) c.expect(n > 0 && waits > 0 && failed > 0, fn, 'the in-memory adapter does not wait for handlers');
}
export const rules = [
  { name: 'listening', text: 'listening registers one listener and returns what removes exactly that', run: listening },
  { name: 'filtering', text: 'a listener is called exactly for interceptable same-document navigations of its kind, with the scene of the destination', run: filtering },
  { name: 'current', text: 'the current URL and state are those of the location', run: current },
  { name: 'navigating', text: 'navigating passes on URL and options and waits; the in-memory location changes only after every handler has succeeded', run: navigating },
];
