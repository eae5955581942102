// C18: a signal write changes the version and notifies every subscriber.
import { ts, T, cst, UNDEF, NULL, TRUE, FALSE, U, N, fld, calls, writes, idxOf, covers, loopsOf, AnchorError } from './_lib.mjs';
import { accessor, writable, ctorFields } from './_signal.mjs';

export const about = 'Writing, invalidating and subscribing are followed on every path for each concrete signal, and the list of subscribers for every shape of its neighbours.';
export const assumptions = ['The getter and setter of an accessor signal do not write to the signal themselves.', 'Subscribers do not throw.'];

const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
/** What the iteration of a path over subscribers calls. */
function notified(c, p, thisT) {
  return calls(p, (e) => {
    if (!e.fn) return false;
    let f = p.st.canon(e.fn);
    while (f.k === 'f') { if (f.base === thisT) return false; f = p.st.canon(f.base); }
    return f.k === 'idx' || f.k === 'r' || f.k === 'hv';
  });
}
const baseOf = (c, k, p, thisT) => {
  // the version before: what the getter reads at first
  const E = c.engine(), v = c.paths(E, accessor(c, k, 'version'), { cls: k }).map((q) => q.st.canon(q.value ?? UNDEF));
  if (v.length !== 1) return null;
  return v[0];
};
function versionRule(c, k, p, thisT, notes, fn) {
  const before = baseOf(c, k, p, thisT);
  if (!before) { c.undecide('the version of a signal was not recognised'); return null; }
  const after = c.get(p, thisT, 'version');
  const d = T.linSum(after, before, -1);
  c.expect(d === cst(1), fn, 'the version does not increase by one', p);
  const w = before.k === 'f' ? writes(p, (e) => same(p, e.base, before.base) && e.name === before.name) : [];
  c.expect(w.length === 1, w[1]?.node ?? fn, 'the version is not increased exactly once', p);
  if (w[0]) for (const n of notes) c.expect(idxOf(p, w[0]) < idxOf(p, n), n.node, 'a subscriber is told before the version has increased', p);
  return w[0];
}
/** Every subscriber is called once, by an iteration over the collection it was added to. */
function notifyRule(c, k, p, thisT, notes, fn, S) {
  const zero = p.events.some((e) => e.t === 'loopzero');
  if (!notes.length) { c.expect(zero, fn, 'subscribers are not notified', p); return; }
  c.expect(notes.length === 1, notes[1]?.node ?? fn, 'a subscriber is notified more than once', p);
  const L = notes[0].loops.at(-1);
  if (!c.expect(L, notes[0].node, 'not every subscriber is notified', p)) return;
  const over = L.over && p.st.canon(L.over);
  const coll = fld(thisT, S.list);
  const copied = over && (over.k === 'o' && over.kind === 'copy' && same(p, over.of, coll));
  c.expect(over && (same(p, over, coll) || copied || covers(L, coll, p)), notes[0].node, 'not every subscriber is notified', p);
  const ends = p.events.filter((e) => e.t === 'loopend' && e.loop === L);
  c.expect(ends.every((e) => e.how === 'full'), L.node, 'the notification ends before every subscriber was told', p);
  c.expect(!copied || S.checked, notes[0].node, 'a subscriber removed during a notification is still notified', p);
}
function subscription(c) {
  if (c._c18) return c._c18;
  const k = c.P.cls('WritableSignal'), fn = c.P.method(k, 'subscribe');
  const E = c.engine({ opaque: (f) => ts.isMethodDeclaration(f) && f.parent.name?.text === 'LinkedList' });
  const thisT = E.thisSym(k), [sub] = E.paramSyms(fn);
  const out = { k, fn, E, thisT, sub, list: null, cls: null, ps: c.paths(E, fn, { cls: k }) };
  for (const p of out.ps) {
    p.adds = calls(p, (e) => e.recv && p.st.canon(e.recv).k === 'f' && same(p, p.st.canon(e.recv).base, thisT) && e.args.some((a) => same(p, a, sub) || (a.k === 'o' && [...p.st.heap].some(([key, v]) => { const i = p.E.hinfo.get(key); return i && i.base === a && same(p, v, sub); }))));
    const e = p.adds[0];
    if (!e) continue;
    out.list ??= p.st.canon(e.recv).name;
    if (e.target) out.cls ??= e.target.parent;
  }
  if (!out.list) { throw new AnchorError('subscribing adds to no collection of the signal'); }
  return (c._c18 = out);
}

// ---- the list ---------------------------------------------------------------
function listRoles(c) {
  const S = subscription(c);
  if (!S.cls) return null;
  if (S.roles) return S.roles;
  const k = S.cls, it = k.members.find((m) => ts.isMethodDeclaration(m) && m.name && /Symbol\.iterator/.test(m.name.getText()));
  const target = (name) => S.ps.flatMap((p) => p.adds).find((e) => e.target)?.target;
  if (!it) throw new AnchorError('the subscribers cannot be iterated');
  const E = c.engine(), thisT = E.thisSym(k), ps = c.paths(E, it, { cls: k });
  let head, next, value;
  for (const p of ps) for (const { loop } of loopsOf(p)) for (const x of loop.carried?.values() ?? []) {
    if (!x.init || !(x.nexts ?? []).length) continue;
    const i = p.st.canon(x.init);
    if (i.k === 'f' && i.base === thisT) { head ??= i.name; const n = x.nexts.find((t) => t.k === 'f' && t.base === x.hv); if (n) next ??= n.name; const y = p.events.find((e) => e.t === 'yield'); const yv = y && p.st.canon(y.value); if (yv?.k === 'f' && yv.base === x.hv) value ??= yv.name; }
  }
  return (S.roles = { k, it, E, ps, thisT, head, next, value, append: target(), ok: head && next && value });
}
function iteration(c) {
  const R = listRoles(c);
  if (!R) { c.obligations++; return; }
  if (!R.ok) { c.undecide('the iteration of the subscribers was not recognised'); c.obligations++; return; }
  const app = appended(c, R), del = deleted(c, R);
  let yields = 0;
  for (const p of R.ps) {
    if (p.st.infeasible() || p.kind === 'throw') continue;
    const l = loopsOf(p).find(({ loop }) => [...loop.carried.values()].some((x) => x.init && same(p, x.init, fld(R.thisT, R.head))));
    if (!l) { c.expect(p.st.decide(p.st.pMask(fld(R.thisT, R.head), N | U)) === true, R.it, 'the iteration ends although there are subscribers', p); continue; }
    const x = [...l.loop.carried.values()].find((y) => y.init && same(p, y.init, fld(R.thisT, R.head)));
    const ys = p.events.filter((e) => e.t === 'yield');
    for (const n of x.nexts ?? []) c.expect(n.k === 'f' && n.name === R.next && n.base === x.hv, l.loop.node, 'the iteration does not go on with the following subscriber', p);
    c.expect(l.end !== 'break' , l.loop.node, 'the iteration ends before the last subscriber', p);
    // what is known about the node at hand
    const facts = p.events.filter((e) => e.t === 'branch' && e.loops?.includes(l.loop) && T.contains(e.pred, (t) => t.k === 'f' && t.base === x.hv && t.name !== R.next));
    const holds = (q, node) => facts.map((e) => { // verdict of the facts for another node
      let pred = e.pred; const names = new Set();
      T.contains(pred, (t) => { if (t.k === 'f' && t.base === x.hv) names.add(t); return false; });
      for (const t of names) pred = T.subst(pred, t, c.get(q, node, t.name));
      pred = T.subst(pred, R.thisT, q.thisL);
      const d = q.st.decide(pred);
      return d === undefined ? undefined : d === e.val;
    });
    if (ys.length) {
      yields++;
      c.expect(ys.length === 1 && same(p, ys[0].value, fld(x.hv, R.value)), ys[0].node, 'the iteration does not yield each subscriber once', p);
      for (const { q, node } of del) c.expect(holds(q, node).some((b) => b === false), ys[0].node, 'a removed subscriber is still notified', p);
      for (const { q, node } of app) c.expect(!holds(q, node).some((b) => b === false), ys[0].node, 'a new subscriber is passed over', p);
    } else if (l.end !== null || x.nexts?.length) {
      for (const { q, node } of app) c.expect(holds(q, node).some((b) => b === false), l.loop.node, 'a subscriber is passed over', p);
    }
  }
  c.expect(yields > 0, R.it, 'the iteration yields nothing');
}
function appended(c, R) {
  if (R.app) return R.app;
  const E = c.engine(), fn = R.append, thisL = E.thisSym(R.k), [v] = E.paramSyms(fn), out = [];
  for (const p of c.paths(E, fn, { cls: R.k })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    p.thisL = thisL;
    out.push({ q: p, node: p.st.canon(p.value), v });
  }
  return (R.app = out);
}
function deleted(c, R) {
  if (R.del) return R.del;
  const S = subscription(c);
  const name = unsubs(c).map((x) => x.e?.target).find(Boolean) ?? c.P.method(R.k, 'delete');
  const E = c.engine(), thisL = E.thisSym(R.k), [node] = E.paramSyms(name), out = [];
  R.remove = name;
  for (const p of c.paths(E, name, { cls: R.k })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    p.thisL = thisL;
    p.removes = writes(p).length > 0;
    out.push({ q: p, node });
  }
  R.delAll = out;
  return (R.del = out);
}
function links(c) {
  const R = listRoles(c);
  if (!R) { c.obligations++; return; }
  if (!R.ok) { c.undecide('the list of the subscribers was not recognised'); c.obligations++; return; }
  // appending: behind the last one, or as the first
  const app = appended(c, R);
  c.expect(app.length > 0, R.append, 'no subscriber can be added');
  let tail = null;
  for (const { q, node } of app) for (const e of writes(q)) if (q.st.canon(e.base) === q.thisL && same(q, e.value, node) && e.name !== R.head) tail ??= e.name;
  let prev = null;
  for (const { q, node, v } of app) {
    if (!c.expect(node.k === 'o', R.append, 'adding a subscriber does not yield a node of its own', q)) continue;
    c.expect(same(q, c.get(q, node, R.value), v), R.append, 'a node does not hold the subscriber added', q);
    c.expect(c.get(q, node, R.next) === NULL || c.get(q, node, R.next) === UNDEF, R.append, 'a new node is followed by another one', q);
    if (!tail) continue;
    const t0 = fld(q.thisL, tail), h0 = fld(q.thisL, R.head);
    const empty = [q.st.decide(q.st.pMask(t0, N | U)), q.st.decide(q.st.pMask(h0, N | U))].find((b) => b !== undefined);
    c.expect(same(q, c.get(q, q.thisL, tail), node), R.append, 'the new node does not become the last one', q);
    if (empty === undefined) { c.fail(R.append, 'a node is added without knowing whether the list is empty', q); continue; }
    const w = writes(q);
    if (empty) c.expect(w.some((e) => q.st.canon(e.base) === q.thisL && e.name === R.head && same(q, e.value, node)), R.append, 'the first node does not become the head of the list', q);
    else {
      c.expect(w.some((e) => same(q, e.base, t0) && e.name === R.next && same(q, e.value, node)), R.append, 'the new node does not follow the last one', q);
      c.expect(!w.some((e) => q.st.canon(e.base) === q.thisL && e.name === R.head), R.append, 'the new node replaces the head of the list', q);
    }
    if (!prev) for (const [key, v2] of q.st.heap) { const i = q.E.hinfo.get(key); if (i && i.base === node && i.key.k === 'c' && same(q, v2, t0) && i.key.v !== R.next) prev = i.key.v; }
  }
  if (!tail) { c.undecide('the last subscriber was not recognised'); return; }
  if (prev) for (const { q, node } of app) { const e = q.st.decide(q.st.pMask(fld(q.thisL, tail), N | U)); if (e === false) c.expect(same(q, c.get(q, node, prev), fld(q.thisL, tail)), R.append, 'a new node does not know the one before it', q); }
  // removing
  const del = deleted(c, R);
  let removed = 0, kept = 0;
  for (const { q, node } of R.delAll) {
    const w = writes(q);
    if (!w.length) { kept++; continue; }
    removed++;
    const nx = fld(node, R.next), last = q.st.decide(q.st.pMask(nx, N | U));
    c.expect(same(q, c.get(q, node, R.next), nx) , w.at(-1).node, 'a notification that stands on a removed subscriber loses the following ones', q);
    if (!prev) { c.undecide('the node before another one was not recognised'); continue; }
    const pv = fld(node, prev), first = q.st.decide(q.st.pMask(pv, N | U));
    if (first === undefined || last === undefined) { c.fail(R.remove, 'a node is removed without knowing its neighbours', q); continue; }
    const put = (base, name, value, msg) => c.expect(w.some((e) => same(q, e.base, base) && e.name === name && (same(q, e.value, value) || (q.st.canon(value) === NULL && e.value === NULL))), R.remove, msg, q);
    if (first) put(q.thisL, R.head, nx, 'the list does not start with the node behind a removed first one');
    else put(pv, R.next, nx, 'the node before a removed one is not followed by the one behind it');
    if (last) put(q.thisL, tail, pv, 'the list does not end with the node before a removed last one');
    else put(nx, prev, pv, 'the node behind a removed one does not know the one before it');
    for (const e of w) {
      const ok = (same(q, e.base, q.thisL) && ((e.name === R.head && first) || (e.name === tail && last))) || (!first && same(q, e.base, pv) && e.name === R.next) || (!last && same(q, e.base, nx) && e.name === prev) || same(q, e.base, node);
      c.expect(ok, e.node, 'removing a node changes another one', q);
    }
  }
  c.expect(removed > 0, R.remove, 'no subscriber is ever removed');
  c.expect(kept > 0, R.remove, 'a node that is not in the list is removed again');
  // removing again does nothing
  for (const { q, node } of R.delAll) if (!writes(q).length) {
    for (const { q: r, node: n2 } of R.delAll) if (writes(r).length) {
      const facts = q.events.filter((e) => e.t === 'branch');
      const hit = facts.every((e) => { let pred = e.pred; const fs = new Set(); T.contains(pred, (t) => { if (t.k === 'f' && t.base === node) fs.add(t); return false; }); for (const t of fs) pred = T.subst(pred, t, c.get(r, n2, t.name)); const d = r.st.decide(pred); return d === e.val; });
      c.expect(hit, R.remove, 'a node can be removed twice', r);
    }
  }
}
function unsubs(c) {
  const S = subscription(c);
  if (S.un) return S.un;
  S.un = [];
  for (const p of S.ps) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const v = p.st.canon(p.value ?? UNDEF);
    const add = p.adds[0];
    if (v.k !== 'fn' && v.k !== 'fd' && v.k !== 'bm') { S.un.push({ p, add, bad: true }); continue; }
    for (const q of c.callPaths(p, v, [], UNDEF)) {
      const es = q.own.filter((e) => (e.t === 'call' && !e.pure) || e.t === 'write' || e.t === 'delete');
      S.un.push({ p, q, add, es, e: es.find((x) => x.t === 'call') });
    }
  }
  return S.un;
}

export const rules = [
  {
    name: 'write', text: 'writing an equal value does nothing; writing another one stores it, increases the version once and then notifies every subscriber once',
    run(c) {
      const S = subscription(c);
      for (const k of writable(c)) {
        const fn = accessor(c, k, 'value', 'set'), E = c.engine(), [nv] = E.paramSyms(fn), thisT = E.thisSym(k);
        const fields = ctorFields(c, k);
        let eq = 0, ne = 0;
        for (const p of c.paths(E, fn, { cls: k })) {
          if (p.kind !== 'return' || p.st.infeasible()) continue;
          const notes = notified(c, p, thisT), ws = writes(p, (e) => { let b = p.st.canon(e.base); while (b.k === 'f') b = b.base; return b === thisT; });
          const setters = calls(p, (e) => e.fn && p.st.canon(e.fn).k === 'f' && p.st.canon(e.fn).base === thisT && e.args.length);
          // the value before
          const old = oldValue(c, k, p, thisT);
          const is = old && p.st.decide(p.st.pEq(old, nv, 'is'));
          if (is === true) {
            eq++;
            c.expect(!notes.length && !ws.length && !setters.length, (ws[0] ?? setters[0] ?? notes[0])?.node ?? fn, 'writing an equal value has an effect', p);
            continue;
          }
          if (!ws.length && !notes.length && !setters.length) { c.fail(fn, 'a value that may differ is not written', p); continue; }
          c.expect(is === false, (ws[0] ?? setters[0] ?? notes[0]).node, 'a value is written although it may be equal', p);
          ne++;
          const store = [...ws.filter((e) => same(p, e.value, nv)), ...setters.filter((e) => e.args.some((a) => same(p, a, nv)))];
          const kept = ws.some((e) => same(p, e.value, nv)) ? same(p, c.get(p, thisT, 'value'), nv) : setters.some((e) => e.args.length === 1 && same(p, e.args[0], nv) && fields[1] === p.st.canon(e.fn).name);
          if (!c.expect(kept && store.length === 1, store[1]?.node ?? fn, 'the value written is not stored once', p)) continue;
          const v = versionRule(c, k, p, thisT, notes, fn);
          if (v) c.expect(idxOf(p, store[0]) < idxOf(p, v), v.node, 'the version increases before the value is stored', p);
          notifyRule(c, k, p, thisT, notes, fn, S);
        }
        c.expect(eq > 0 && ne > 0, fn, `writing to ${k.name.text} does not depend on the value`);
      }
    },
  },
  {
    name: 'invalidate', text: 'invalidating a signal increases its version once and then notifies every subscriber once',
    run(c) {
      const S = subscription(c);
      for (const k of writable(c)) {
        const fn = c.P.method(k, 'invalidate'), E = c.engine(), thisT = E.thisSym(k), [ev] = E.paramSyms(fn);
        for (const p of c.paths(E, fn, { cls: k })) {
          if (p.kind !== 'return' || p.st.infeasible()) continue;
          const notes = notified(c, p, thisT);
          versionRule(c, k, p, thisT, notes, fn);
          notifyRule(c, k, p, thisT, notes, fn, S);
          for (const n of notes) c.expect(n.args.length === 1 && same(p, n.args[0], ev), n.node, 'a subscriber is not told about the event at hand', p);
        }
      }
    },
  },
  {
    name: 'subscribe', text: 'subscribing adds the subscriber once, and unsubscribing removes exactly that subscription',
    run(c) {
      const S = subscription(c);
      for (const p of S.ps) {
        if (p.kind !== 'return' || p.st.infeasible()) continue;
        c.expect(p.adds.length === 1, p.adds[1]?.node ?? S.fn, 'a subscriber is not added once', p);
      }
      for (const x of unsubs(c)) {
        if (!c.expect(!x.bad && x.add, S.fn, 'subscribing yields no function to unsubscribe', x.p)) continue;
        const own = (a) => { a = x.q.st.canon(a); return (a.k === 'r' && same(x.q, a, x.add.res)) || (a.k === 'o' && x.add.args.includes(a)); };
        const del = x.es.filter((e) => e.t === 'call' && same(x.q, e.recv, x.add.recv) && e.args.some(own));
        c.expect(del.length === 1 && x.es.length === 1, x.es[0]?.node ?? S.fn, 'unsubscribing does not remove exactly the subscription it was made for', x.q);
      }
      // a concrete signal does not replace this
      for (const k of writable(c)) c.expect(c.P.member(k, 'subscribe')?.decl === S.fn && c.P.member(k, 'invalidate')?.decl === c.P.member(S.k, 'invalidate')?.decl, k, 'a signal replaces how subscribers are kept');
    },
  },
  { name: 'list', text: 'adding puts a node behind the last one; removing links its neighbours, keeps its way on and is possible once', run: links },
  { name: 'iteration', text: 'iterating yields each node that is in the list when it is reached, up to the last one', run: iteration },
];
function oldValue(c, k, p, thisT) {
  const get = accessor(c, k, 'value');
  const E = c.engine();
  for (const q of c.paths(E, get, { cls: k })) {
    const v = q.st.canon(q.value ?? UNDEF);
    if (v.k === 'f') return v;
    if (v.k === 'r') { const e = p.events.find((x) => x.t === 'call' && x.fn && p.st.canon(x.fn) === q.st.canon(v.fn ?? q.events.find((y) => y.res === v)?.fn)); return e?.res ?? null; }
  }
  return null;
}
