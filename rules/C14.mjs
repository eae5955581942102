// C14: event listeners are attached and detached in pairs.
import { ts, T, cst, UNDEF, NULL, U, N, F, fld, calls, writes, idxOf, AnchorError, opaqueNames } from './_lib.mjs';

export const about = 'The listener a binding is attached for is tracked as a typestate (its stored listener, attached or not) through every path of mounting, updating, unmounting and dispatching.';
export const assumptions = ['Listeners do not change their own options while they are attached.', 'A part is updated from the value it was last given.'];
const OPTS = ['capture', 'once', 'passive', 'signal'];

function info(c) {
  if (c._c14) return c._c14;
  const P = c.P;
  const cls = P.implementors('Part').find((k) => { let hit = false; P.walk(k, (n) => { if (ts.isPropertyAccessExpression(n) && n.name.text === 'addEventListener') hit = true; }); return hit; });
  if (!cls) throw new AnchorError('no part attaches event listeners');
  const m = (name) => { const d = P.member(cls, name)?.decl; if (!d?.body) throw new AnchorError(`${name} of event bindings not found`); return d; };
  const mk = () => c.engine({ opaque: (f) => ['sequentialEqual', 'shallowEqual'].includes(f.name?.getText?.()), throws: null });
  const E = mk();
  const thisT = E.thisSym(cls);
  const mount = m('commitMount');
  const [value] = E.paramSyms(mount);
  // the field that keeps the listener: holds the value after a mount
  const ps = c.paths(E, mount, { cls });
  let L = null;
  for (const p of ps) for (const w of writes(p, (e) => e.base === thisT && e.name && c.same(p, e.value, value))) L ??= w.name;
  if (!L) throw new AnchorError('an event binding does not store its listener');
  return (c._c14 = { cls, E, thisT, mount, value, ps, L, m, mk });
}
const nul = (p, t) => p.st.decide(p.st.pMask(t, U | N));
const dom = (p, name) => p.events.filter((e) => e.t === 'call' && e.name === name);
function optionsOf(c, p, arg, l) {
  const a = p.st.canon(arg ?? UNDEF);
  if (a === p.st.canon(l)) return true;
  if (a.k === 'o') return OPTS.every((k) => c.same(p, c.get(p, a, k), fld(l, k)));
  return false;
}
/** On this path the options of both listeners are known to be the same. */
function sameOptions(c, p, a, b) {
  if (OPTS.every((k) => p.st.decide(p.st.pEq(fld(a, k), fld(b, k), 'is')) === true || p.st.decide(p.st.pEq(fld(a, k), fld(b, k))) === true)) return true;
  if (p.st.decide(p.st.pEq(a, b)) === true) return true;
  return p.events.some((e) => {
    if (e.t !== 'call' || e.args.length < 2 || !e.target || p.st.decide(p.st.pTruthy(e.res)) !== true) return false;
    const [x, y] = e.args.map((t) => p.st.canon(t));
    const items = (t) => (t.k === 'o' ? p.st.heap.get(t.id + '#items')?.list?.map((i) => p.st.canon(i)) ?? Object.keys(Object.fromEntries(OPTS.map((k) => [k, 1]))).map((k) => c.get(p, t, k)) : null);
    const xs = items(x), ys = items(y);
    if (!xs || !ys || xs.length !== ys.length) return false;
    const has = (list, l) => OPTS.every((k) => list.some((t) => c.same(p, t, fld(l, k))));
    const paired = xs.every((t, i) => t.k === 'f' && ys[i].k === 'f' && t.name === ys[i].name);
    return paired && ((has(xs, a) && has(ys, b)) || (has(xs, b) && has(ys, a)));
  });
}
/** Checks one path that commits `value` over the stored listener `cur`. */
function transition(c, p, I, fn, cur, value, who) {
  const add = dom(p, 'addEventListener'), rem = dom(p, 'removeEventListener');
  const node = [...add, ...rem][0]?.node ?? fn;
  for (const e of [...add, ...rem]) {
    const recv = p.st.canon(e.recv);
    c.expect(recv.k === 'f' && recv.base === I.thisT, e.node, 'a listener is attached to or detached from another node than that of the binding', p);
    c.expect(e.args[0] && p.st.canon(e.args[0]).k === 'f' && p.st.canon(e.args[0]).base === I.thisT && c.same(p, e.args[1], I.thisT), e.node, 'another event or listener is attached or detached', p);
  }
  for (const [a, b] of [[add, rem]]) for (const x of a) for (const y of b) c.expect(c.same(p, x.recv, y.recv) && c.same(p, x.args[0], y.args[0]), x.node, 'a listener is detached from another event than it is attached to', p);
  for (const e of rem) c.expect(optionsOf(c, p, e.args[2], cur), e.node, 'a listener is detached with other options than it was attached with', p);
  for (const e of add) c.expect(optionsOf(c, p, e.args[2], value), e.node, 'a listener is attached with other options than its own', p);
  const cn = nul(p, cur), vn = nul(p, value);
  // what is not known on a path must make no difference
  const curs = cn === undefined ? [true, false] : [cn], vals = vn === undefined ? [true, false] : [vn];
  for (const c0 of curs) for (const v0 of vals) {
    const attached = !c0, want = !v0;
    if (attached && want) {
      const none = !add.length && !rem.length;
      c.expect(none ? sameOptions(c, p, cur, value) : add.length === 1 && rem.length === 1 && idxOf(p, rem[0]) < idxOf(p, add[0]), node, none ? `${who} does not attach a listener anew although its options may have changed` : `${who} does not detach the old listener before it attaches the new one`, p);
    } else if (attached) c.expect(rem.length === 1 && !add.length, node, `${who} does not detach a listener that became nullish exactly once`, p);
    else if (want) c.expect(add.length === 1 && !rem.length, node, `${who} does not attach a listener exactly once`, p);
    else c.expect(!add.length && !rem.length, node, `${who} attaches or detaches a nullish listener`, p);
  }
  c.expect(c.same(p, c.get(p, I.thisT, I.L), value), fn, `${who} does not remember the listener that is current`, p);
}

export const rules = [
  {
    name: 'mount',
    text: 'mounting a listener detaches the one attached before and attaches the new one unless the options are the same, with the options of each, and remembers the new one',
    run(c) {
      const I = info(c);
      let n = 0;
      for (const p of I.ps) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        n++;
        transition(c, p, I, I.mount, fld(I.thisT, I.L), I.value, 'mounting');
      }
      c.expect(n >= 4, I.mount, 'mounting does not tell listeners from nullish values');
    },
  },
  {
    name: 'reject-first',
    text: 'a value that is neither nullish nor a listener is rejected before anything changes, and nothing else is',
    run(c) {
      const I = info(c);
      let n = 0;
      const valid = (p, v) => nul(p, v) === true || p.st.decide(p.st.pMask(v, F)) === true || p.st.decide(p.st.pMask(fld(v, 'handleEvent'), F)) === true;
      for (const p of I.ps) {
        if (p.st.infeasible()) continue;
        if (p.kind === 'throw') {
          n++;
          c.expect(!dom(p, 'addEventListener').length && !dom(p, 'removeEventListener').length && !writes(p, (e) => e.base === I.thisT).length, I.mount, 'a value is rejected after something was changed', p);
          c.expect(!valid(p, I.value) && nul(p, I.value) === false && p.st.decide(p.st.pMask(I.value, F)) === false && p.st.decide(p.st.pMask(fld(I.value, 'handleEvent'), F)) === false, I.mount, 'a valid listener is rejected', p);
        } else if (p.kind === 'return') c.expect(valid(p, I.value), I.mount, 'a value that is no listener is accepted', p);
      }
      c.expect(n > 0, I.mount, 'no value is ever rejected');
    },
  },
  {
    name: 'update',
    text: 'updating does what mounting does with the new value, or nothing if the value is unchanged',
    run(c) {
      const I = info(c), E = I.mk(), fn = I.m('commitUpdate');
      const [oldV, newV] = E.paramSyms(fn);
      let n = 0;
      for (const p of c.paths(E, fn, { cls: I.cls })) {
        if (p.st.infeasible()) continue;
        const same = p.st.decide(p.st.pEq(oldV, newV, 'is')) === true || p.st.decide(p.st.pEq(oldV, newV)) === true;
        const acts = [...dom(p, 'addEventListener'), ...dom(p, 'removeEventListener')];
        if (p.kind === 'throw') { c.expect(!acts.length && !writes(p, (e) => e.base === I.thisT).length, fn, 'a value is rejected after something was changed', p); continue; }
        if (p.kind !== 'return') continue;
        if (same && !acts.length && !writes(p, (e) => e.base === I.thisT).length) { c.expect(true, fn, '', p); continue; }
        n++;
        transition(c, p, I, fn, fld(I.thisT, I.L), newV, 'updating');
      }
      c.expect(n > 0, fn, 'updating never changes the listener');
    },
  },
  {
    name: 'unmount',
    text: 'unmounting, cascading or not, detaches the listener that is attached with its options once and forgets it',
    run(c) {
      const I = info(c), E = I.mk(), fn = I.m('commitUnmount');
      let n = 0;
      for (const p of c.paths(E, fn, { cls: I.cls })) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        const cur = fld(I.thisT, I.L), cn = nul(p, cur);
        const add = dom(p, 'addEventListener'), rem = dom(p, 'removeEventListener');
        c.expect(!add.length, add[0]?.node ?? fn, 'unmounting attaches a listener', p);
        c.expect(cn === true ? !rem.length : rem.length === 1, rem[1]?.node ?? fn, 'unmounting does not detach the listener exactly once', p);
        for (const e of rem) { n++; c.expect(optionsOf(c, p, e.args[2], cur) && c.same(p, e.args[1], I.thisT) && p.st.canon(e.recv).base === I.thisT && p.st.canon(e.args[0]).base === I.thisT, e.node, 'a listener is detached with other options than it was attached with', p); }
        if (cn !== true) c.expect(nul(p, c.get(p, I.thisT, I.L)) === true, fn, 'a detached listener still counts as attached', p);
      }
      c.expect(n > 0, fn, 'unmounting never detaches the listener');
    },
  },
  {
    name: 'dispatch',
    text: 'an event is handed to the current listener exactly once',
    run(c) {
      const I = info(c), E = I.mk(), fn = I.m('handleEvent');
      const [event] = E.paramSyms(fn);
      const cur = fld(I.thisT, I.L);
      let n = 0;
      for (const p of c.paths(E, fn, { cls: I.cls })) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        const cs = calls(p, (e) => !e.builtin);
        if (nul(p, cur) === true) { c.expect(!cs.length, cs[0]?.node ?? fn, 'something else than the current listener is called', p); continue; }
        n++;
        if (!c.expect(cs.length === 1, cs[1]?.node ?? fn, 'the current listener is not called exactly once', p)) continue;
        const e = cs[0], direct = e.fn ? c.same(p, e.fn, cur) : false;
        const isFn = p.st.decide(p.st.pMask(cur, F));
        const ok = c.same(p, e.args[0], event) && (isFn === true ? direct || (e.name === 'call' && c.same(p, e.recv, cur)) : e.name === 'handleEvent' && c.same(p, e.recv, cur));
        c.expect(ok || (e.name === 'call' && c.same(p, e.recv, cur) && c.same(p, e.args[1], event)), e.node, 'something else than the current listener is called', p);
      }
      c.expect(n >= 2, fn, 'functions and listener objects are not told apart');
    },
  },
  {
    name: 'own-state',
    text: 'a part that keeps state of its own is never shared between list items: splitting it creates a new part for the same place',
    run(c) {
      const P = c.P;
      let n = 0;
      for (const k of P.implementors('Part')) {
        if (k.modifiers?.some((m) => m.kind === ts.SyntaxKind.AbstractKeyword)) continue;
        const state = ownState(c, k);
        const split = P.member(k, 'splitPart')?.decl;
        if (!split?.body) continue;
        const E = c.engine();
        const thisT = E.thisSym(k);
        for (const p of c.paths(E, split, { cls: k })) {
          if (p.kind !== 'return') continue;
          const v = p.st.canon(p.value);
          n++;
          if (v === thisT) { c.expect(!state.length, split, `${k.name.text} keeps ${state.join(', ')} and is shared between list items`, p); continue; }
          const made = p.events.find((e) => e.t === 'new' && e.obj === v);
          c.expect(made && v.cls === k, split, `splitting ${k.name.text} creates another kind of part`, p);
          // same place: every constructor-given field is copied
          for (const f of ctorFields(c, k)) c.expect(c.same(p, c.get(p, v, f), fld(thisT, f)), split, `a split ${k.name.text} belongs to another place`, p);
          for (const f of state) c.expect(!c.same(p, c.get(p, v, f), fld(thisT, f)), split, `a split ${k.name.text} shares its state`, p);
        }
      }
      c.expect(n > 0, null, 'no part can be split');
    },
  },
];
/** Fields of a class written outside of its constructor. */
export function ownState(c, k) {
  const out = new Set();
  for (let cur = k; cur; cur = c.P.baseClass(cur)) for (const m of cur.members) if ((ts.isMethodDeclaration(m) || ts.isSetAccessor(m)) && m.body) c.P.walk(m, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment && ts.isPropertyAccessExpression(n.left) && n.left.expression.kind === ts.SyntaxKind.ThisKeyword) out.add(n.left.name.text); });
  return [...out];
}
function ctorFields(c, k) {
  const out = new Set();
  for (let cur = k; cur; cur = c.P.baseClass(cur)) for (const m of cur.members) if (ts.isConstructorDeclaration(m) && m.body) c.P.walk(m, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.expression.kind === ts.SyntaxKind.ThisKeyword) out.add(n.left.name.text); });
  return [...out];
}
