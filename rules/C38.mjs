// C38: operations finish: no loop repeats without getting nearer to its end, no function calls itself with what it was given.
import { ts, T, UNDEF, enclosingFn } from './_lib.mjs';
import { isFunctionLike } from '../lib/project.mjs';

export const about = 'Every loop of the sources that is not bound to the elements of a collection, and every recursive call, is located; each repetition found on the paths of its function must bring the loop nearer to its end: a counter moves towards its bound, a link is followed to another node, or something is taken from a list, queue or iterator. A repetition that leaves everything as it was never ends.';
export const assumptions = ['Chains of nodes, owners and scopes are finite, and so are the lists given by the user.', 'Positions in lists are not negative.', 'Callbacks of the user finish.'];

const TAKES = new Set(['dequeue', 'pop', 'shift', 'splice', 'nextNode', 'next', 'exec', 'delete', 'clear']);
const can = (p, t) => p.st.canon(t ?? UNDEF);
const isLoop = (n) => ts.isWhileStatement(n) || ts.isDoStatement(n) || ts.isForStatement(n);
const outermost = (n) => { let f = null; for (let x = n; x; x = x.parent) if (isFunctionLike(x) && x.body) f = x; return f; };
const label = (c, n) => c.P.where(n);

/** Repetitions of each loop. */
function repetitions(c) {
  if (c._c38) return c._c38;
  const sites = new Map();
  for (const f of c.P.files) c.P.walk(f, (n) => { if (isLoop(n)) sites.set(n, []); });
  const lost = new Map();
  const byFn = new Map();
  for (const n of sites.keys()) { const f = enclosingFn(n); if (!f) continue; (byFn.get(f) ?? byFn.set(f, []).get(f)).push(n); }
  for (const [f, ns] of byFn) {
    const root = f;
    let ps = null;
    for (const opaque of [() => false, (g) => g !== root && !inside(g, root)]) {
      const E = c.engine({ cuts: 'always', opaque, maxPaths: 4000, maxSteps: 600000 });
      try { const cls = ts.isClassLike(root.parent) ? root.parent : null; ps = E.run(root, { cls }); } catch (e) { ps = null; continue; }
      if (ps) break;
    }
    if (!ps) { for (const n of ns) lost.set(n, 'not followed'); continue; }
    for (const p of ps) {
      if (p.kind !== 'cut' || p.st.infeasible()) continue;
      const n = p.loop?.node;
      if (!sites.has(n)) continue;
      const k = p.events.findLastIndex((e) => e.t === 'loopend' && e.loop === p.loop && e.how === 'back'), s = p.events.findLastIndex((e) => e.t === 'loop' && e.loop === p.loop);
      sites.get(n).push({ c, p, loop: p.loop, evs: p.events.slice(s + 1, k), within: p.events[s]?.loops, pre: p.events.slice(0, k), next: p.events[k]?.next ?? new Map() });
    }
  }
  return (c._c38 = { sites, lost });
}
const inside = (g, root) => { for (let x = g; x; x = x.parent) if (x === root) return true; return false; };


/** Variables that change in a repetition. */
function changes(r) {
  const out = [];
  for (const [k, x] of r.loop.carried ?? []) {
    const kept = x.cell ? r.next.get(k) : r.p.st.heap.get(k), now = kept && kept.k ? can(r.p, kept) : null;
    if (now && now !== can(r.p, x.hv) && now !== x.hv) out.push({ k, x, now });
  }
  return out;
}
/** What a repetition does to anything but variables and objects of its own. */
const effects = (r) => r.evs.filter((e) => !kept(r, e) && !compares(r, e) && (e.t === 'await' || e.t === 'yield' || e.t === 'delete' || (e.t === 'write' && !(e.base?.k === 'o')) || (e.t === 'call' && !e.pure && !(e.builtin && can(r.p, e.recv ?? UNDEF).k === 'o' && ['push', 'unshift', 'add', 'set', 'reverse', 'sort', 'slice'].includes(e.name)))));
/** Writing what a place holds already. */
const kept = (r, e) => e.t === 'write' && e.base && (() => { const v = can(r.p, e.value); return (v.k === 'idx' || v.k === 'f') && can(r.p, v.base ?? v.arr) === can(r.p, e.base) && (v.k === 'idx' ? e.key && can(r.p, v.i) === can(r.p, e.key) : v.name === e.name); })();
/** A call of a comparison given by the user. */
const compares = (r, e) => e.t === 'call' && !e.target && e.args?.length === 2 && ts.isCallExpression(e.node) && r.c.P.checker.getTypeAtLocation(e.node).flags === ts.TypeFlags.Number;
/** The names of variables do not depend on the path. */
const nameOf = (k) => String(k).split(':').at(-1);
const link = (t) => ['f', 'idx', 'r'].includes(t.k);
const has = (t, x) => T.contains(t, (y) => y === x);
/** Variables of loops inside this one stand for what they began with. */
function reaches(r, t, x, depth = 0) {
  if (has(t, x)) return true;
  if (depth > 4) return false;
  const inner = new Map();
  for (const e of r.evs) if (e.t === 'loop' || e.t === 'loopzero') for (const y of e.loop.carried?.values() ?? []) if (y.hv) inner.set(y.hv, y.init);
  let ok = false;
  T.contains(t, (y) => { const i = inner.get(y); if (i && !ok) ok = reaches(r, r.p.st.canon(i), x, depth + 1) || reaches(r, i, x, depth + 1); return false; });
  return ok;
}
/** How a variable gets on: up or down by a step, or along a link. */
function step(r, { x, now }) {
  const hv = x.hv, d = T.linSum(now, hv, -1);
  if (d.k === 'c' && typeof d.v === 'number') return d.v > 0 ? 'up' : d.v < 0 ? 'down' : null;
  if (d.k === 'lin') {
    // a position further on: lengths and positions are not negative
    if (d.c >= 0 && d.parts.every(([t, n]) => n > 0 && (t.k === 'hv' || (t.k === 'f' && t.name === 'length')))) return 'up';
    if (r.p.st.decide(r.p.st.pLt(hv, now)) === true) return 'up';
    if (r.p.st.decide(r.p.st.pLt(now, hv)) === true) return 'down';
  }
  if (now.k === 'op' && /shr|floor|trunc|div/.test(now.op) && reaches(r, now, hv)) return 'link';
  if (now.k === 'o' && now.kind === 'copy') return null;
  if (link(now) && reaches(r, now, hv)) return 'link';
  if ((now === T.NULL || now === UNDEF) && r.p.st.decide(r.p.st.pEq(hv, now)) === false) return 'link';
  return null;
}
/** Comparisons of a repetition that bound a variable from above or below. */
function bounds(r, hv) {
  const out = { up: false, down: false, other: false };
  for (const e of r.evs) {
    if (e.t !== 'branch' || !has(e.pred, hv)) continue;
    let q = e.pred, val = e.val;
    while (q.k === 'op' && q.op === 'not') { q = q.args[0]; val = !val; }
    if (q.k === 'op' && q.op === 'le') {
      const s = coefficient(q.args[0], hv);
      if (s) { out[(s > 0) === val ? 'up' : 'down'] = true; continue; }
    }
    if (q.k === 'op' && (q.op === 'eq' || q.op === 'is') && val === false) { out.up = out.down = true; continue; }
    out.other = true;
  }
  return out;
}
const coefficient = (t, hv) => (t === hv ? 1 : t.k === 'lin' ? t.parts.find(([x]) => x === hv)?.[1] ?? 0 : 0);
const takes = (r) => r.evs.some((e) => (e.t === 'call' && TAKES.has(e.name)) || (e.t === 'enter' && TAKES.has(String(e.decl ?? e.name).split('.').at(-1)))) || r.evs.some((e) => (e.t === 'write' || e.t === 'set') && e.name === 'length');

/** An order in which every repetition gets on: what earlier steps count is left alone by later ones. */
function ranked(rs, inner) {
  let open = rs.filter((r) => !takes(r) && !inner(r));
  const names = new Set(rs.flatMap((r) => r.ch.map((x) => nameOf(x.k))));
  const used = rs.length > open.length ? ['taking'] : [];
  for (let round = 0; open.length && round < 8; round++) {
    let found = null;
    for (const n of names) for (const dir of ['link', 'up', 'down']) {
      if (found) break;
      const on = (r) => r.ch.find((x) => nameOf(x.k) === n);
      if (!open.every((r) => { const x = on(r); return !x || x.dir === dir; })) continue;
      const go = open.filter((r) => { const x = on(r); return x && (dir === 'link' || bounds(r, x.x.hv)[dir] || r.bound?.(x, dir)); });
      if (go.length) found = { n, dir, go };
    }
    if (!found) break;
    used.push(`${found.n} ${found.dir}`);
    open = open.filter((r) => !found.go.includes(r));
    names.delete(found.n);
  }
  return { open, used };
}

/** A repetition that certainly leads to the same repetition again: what its own decisions depend on is as it was. */
function spins(r) {
  if ([...(r.loop.carried?.values() ?? [])].some((x) => { const v = can(r.p, x.hv); return v.k === 'c' && v.v < 0; })) return false;
  const fx = effects(r), changed = new Set(r.ch.map((x) => x.x.hv));
  if (fx.some((e) => e.t === 'await' || e.t === 'yield')) return false;
  let preds = r.evs.filter((e) => e.t === 'branch');
  const own = preds.filter((e) => belongs(e.node, r.loop.node));
  if (own.every((e) => !holds(e.node, ts.isCallExpression))) preds = own;
  const local = r.evs.some((e) => (e.t === 'write' || e.t === 'delete' || (e.t === 'call' && !e.pure)) && !fx.includes(e));
  const results = new Set(r.evs.filter((e) => compares(r, e)).map((e) => e.res));
  const moving = (t) => T.contains(t, (y) => changed.has(y));
  const unsure = (t) => T.contains(t, (y) => (y.k === 'r' && !y.pure && !results.has(y)) || (fx.length && (y.k === 'f' || y.k === 'idx' || (y.k === 'r' && !results.has(y)))) || (local && (y.k === 'f' || y.k === 'idx') && y.base?.k === 'o') || (y.k === 'hv' && y.loop !== r.loop && !(r.within ?? []).includes(y.loop)));
  return preds.every((e) => !moving(e.pred) && !unsure(e.pred));
}
/** Part of the loop itself, not of a function called by it. */
function belongs(n, loop) { for (let x = n; x; x = x.parent) { if (x === loop) return true; if (isFunctionLike(x)) return false; } return false; }
function holds(n, test) { let y = test(n); ts.forEachChild(n, (x) => { y = y || holds(x, test); }); return y; }
/** Decides whether the loop goes on: its condition, or that of a statement that may leave it. */
function decides(n, loop) {
  const cond = loop.condition ?? loop.expression;
  for (let x = n; x && x !== loop.parent; x = x.parent) {
    if (x === cond) return true;
    if (isFunctionLike(x)) return false;
    const p = x.parent;
    if (p && ts.isIfStatement(p) && x === p.expression) return [p.thenStatement, p.elseStatement].some((b) => b && holds(b, (y) => ts.isBreakStatement(y) || ts.isReturnStatement(y)));
  }
  return false;
}
/** The only variable that changes leaves the range the loop goes on in by the other end. */
function away(r) {
  if (!r.ch.length || !r.ch.every((x) => ['up', 'down'].includes(x.dir))) return false;
  return r.ch.every((x) => {
    const b = { up: false, down: false };
    for (const e of r.evs) {
      if (e.t !== 'branch' || !has(e.pred, x.x.hv) || !decides(e.node, r.loop.node)) continue;
      let q = e.pred, val = e.val;
      while (q.k === 'op' && q.op === 'not') { q = q.args[0]; val = !val; }
      const s = q.k === 'op' && q.op === 'le' ? coefficient(q.args[0], x.x.hv) : 0;
      if (s) b[(s > 0) === val ? 'up' : 'down'] = true; else if (q.k === 'op' && ['eq', 'is'].includes(q.op) && q.args.some((t) => t === x.x.hv || t.k === 'lin')) b.up = b.down = true;
    }
    return !b[x.dir] && b[x.dir === 'up' ? 'down' : 'up'];
  });
}

function loops(c) {
  const { sites, lost } = repetitions(c);
  c.proven = [];
  for (const [n, all] of sites) {
    c.obligations++;
    if (!enclosingFn(n)) continue;
    if (lost.has(n)) { c.undecide(`${label(c, n)}: the loop was not followed`); continue; }
    for (const r of all) { r.ch = changes(r); for (const x of r.ch) x.dir = step(r, x); }
    const innerTakes = (r) => { const ls = new Set(r.evs.filter((e) => e.t === 'loop').map((e) => e.loop.node)); return [...ls].some((m) => (sites.get(m) ?? []).some(takes)); };
    const { open, used } = ranked(all, innerTakes);
    const bad = open.find(spins);
    if (bad) { c.fail(n, 'a repetition of the loop leaves everything as it was, so it never ends', bad.p); continue; }
    const wrong = open.find(away);
    if (wrong) { c.fail(n, 'the loop counts away from its bound', wrong.p); continue; }
    if (open.length) c.undecide(`${label(c, n)}: ${open.length} of ${all.length} repetitions are not known to come nearer to the end`);
    else c.proven.push(`${label(c, n)}: ${all.length} repetitions, by ${used.join(', ') || 'ending at once'}`);
  }
}
/** Functions that may reach themselves by calls. */
function cycles(c) {
  const fns = c.P.functions.filter((f) => f.body), next = new Map();
  for (const f of fns) {
    const out = new Set();
    const look = (n) => {
      if (n !== f && isFunctionLike(n) && n.body && !ts.isArrowFunction(n) && !ts.isFunctionExpression(n)) return;
      let d = null;
      if (ts.isCallExpression(n) || ts.isNewExpression(n)) d = c.P.checker.getResolvedSignature(n)?.declaration;
      else if (ts.isPropertyAccessExpression(n)) { const ds = c.P.symbolOf(n.name)?.declarations ?? []; for (const x of ds) if (ts.isAccessor(x)) out.add(x); }
      if (d && c.P.inRepo(d)) out.add(d);
      ts.forEachChild(n, look);
    };
    look(f);
    next.set(f, out);
  }
  const reach = (f) => { const seen = new Set(), todo = [...(next.get(f) ?? [])]; for (let g; (g = todo.pop()); ) if (!seen.has(g)) { seen.add(g); todo.push(...(next.get(g) ?? [])); } return seen; };
  return fns.map((f) => [f, reach(f)]).filter(([f, r]) => r.has(f)).map(([f, r]) => [f, new Set([...r].filter((g) => g === f || (next.has(g) && reach(g).has(f))))]);
}
function recursion(c) {
  let n = 0;
  c.recursive = [];
  for (const [f, group] of cycles(c)) {
    // each call of the function around it makes another one of these
    let around = enclosingFn(f);
    while (around && !group.has(around)) around = enclosingFn(around);
    if (around) continue;
    const cls = ts.isClassLike(f.parent) ? f.parent : null;
    const E = c.engine({ opaque: (g) => g === f || (!group.has(g) && !inside(g, f)), maxPaths: 3000, maxSteps: 400000 });
    const self = cls ? E.thisSym(cls) : null, params = E.paramSyms(f);
    let own = 0;
    for (const p of c.paths(E, f, cls ? { cls } : {})) {
      if (p.st.infeasible()) continue;
      for (const e of p.events.filter((x) => x.t === 'call' && x.target === f)) {
        own++; n++; c.obligations++;
        const as = params.map((q, i) => can(p, e.args[i] ?? UNDEF) === can(p, q));
        if (!as.every(Boolean) || (self && e.recv && can(p, e.recv) !== can(p, self))) continue;
        if (f.parameters.some((q) => q.dotDotDotToken)) continue;
        const before = p.events.slice(0, p.events.indexOf(e));
        if (before.some((x) => x.t === 'await' || x.t === 'yield' || x.t === 'write' || x.t === 'delete' || (x.t === 'call' && !x.pure))) continue;
        c.fail(e.node, 'a function calls itself with what it was given, so it never returns', p);
      }
    }
    c.recursive.push(`${label(c, f)} ${f.name?.getText?.() ?? 'function'}: ${own} calls of itself`);
  }
  void n;
}

export const rules = [{ name: 'loops', text: 'every repetition of a loop brings it nearer to its end', run: loops },
  { name: 'recursion', text: 'no function calls itself with exactly what it was given before anything has changed', run: recursion },
];
export const extra = (c) => ({ loops: c.proven, recursion: c.recursive });
