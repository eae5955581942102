// C17: template composition is cached only under its full key.
import { ts, T, cst, UNDEF, U, N, fld, calls, writes, idxOf, covers, loopsOf, ownFields, opaqueNames, isCall, AnchorError } from './_lib.mjs';

export const about = 'Every path of composing partial templates is followed: what the returned strings are made of, piece by piece, or which comparisons allow strings made earlier to be returned; how the lists compared are built; and what is stored.';
export const assumptions = ['A partial template has one string more than values.', 'Template strings are not changed after they were used.'];

const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
const loopVar = (t) => { let h = null; T.contains(t, (x) => { if (x.k === 'hv') h ??= x; return false; }); return h; };
const isPush = (e) => e.t === 'call' && e.name === 'push' && e.builtin;
function parse(c) {
  if (c._c17) return c._c17;
  const k = c.P.cls('Partial');
  const fn = k.members.find((m) => ts.isMethodDeclaration(m) && m.name.getText() === 'parse' && m.body);
  if (!fn) throw new AnchorError('Partial.parse not found');
  const E = c.engine({ opaque: opaqueNames('sequentialEqual') }), [strings, rest] = E.paramSyms(fn), values = rest.k === 'spread' ? rest.of : rest;
  const ps = c.paths(E, fn).filter((p) => p.kind === 'return' && !p.st.infeasible());
  for (const p of ps) {
    const v = p.st.canon(p.value);
    if (v.k === 'o' && v.cls === k) { p.S = c.get(p, v, 'strings'); p.V = c.get(p, v, 'values'); }
    // in the generic iteration over the values: which kind of value was met
    p.kinds = p.events.filter((e) => e.t === 'branch' && e.pred.k === 'op' && e.pred.op === 'instanceof' && e.pred.args[0].k === 'idx' && same(p, e.pred.args[0].arr, values)).map((e) => ({ e, x: e.pred.args[0], partial: e.val, at: loopVar(e.pred.args[0].i)?.loop.node }));
  }
  return (c._c17 = { k, fn, E, strings, values, ps });
}
const isPartial = (p, x) => { const k = p.kinds.find((y) => y.x === x || p.st.canon(y.x) === p.st.canon(x)); return k ? k.partial : undefined; };
/** Loop over the values the event is in, if any. */
const valuesLoop = (I, p, e) => e.loops.find((l) => covers(l, I.values, p, { ordered: true }));

function filled(p, V) {
  const puts = p.events.filter((e) => isPush(e) && p.st.canon(e.recv) === V);
  return { puts, others: p.events.filter((e) => !puts.includes(e) && ((e.t === 'call' && e.recv && p.st.canon(e.recv) === V && !e.pure) || (e.t === 'write' && p.st.canon(e.base) === V))) };
}
function values(c) {
  const I = parse(c);
  let flat = 0, plain = 0;
  // the loops that fill the values of the result
  const fillers = new Set();
  for (const p of I.ps) if (p.V) for (const e of filled(p, p.st.canon(p.V)).puts) for (const l of e.loops) fillers.add(l.node);
  for (const p of I.ps) {
    if (!c.expect(p.S && p.V, I.fn, 'composing does not yield a partial template', p)) continue;
    let V = p.st.canon(p.V);
    while (V.k === 'o' && V.kind === 'copy') V = p.st.canon(V.of);
    if (same(p, V, I.values)) {
      // partial templates always bring at least one string along
      const embedded = p.kinds.some((k) => k.partial && p.events.some((e) => e.t === 'loop' && T.contains(e.loop.over ?? e.loop.cond ?? UNDEF, (t) => t.k === 'f' && t.name === 'strings' && same(p, t.base, k.x)))) || p.kinds.some((k) => k.partial && !p.events.some((e) => (e.t === 'loop' || e.t === 'loopzero')));
      plain++;
      c.expect(!embedded, I.fn, 'embedded partial templates remain among the values', p);
      continue;
    }
    if (V.k !== 'o' || V.kind !== 'array') { c.undecide(`${c.P.where(I.fn)}: the values of the result are not followed`); continue; }
    const { puts, others } = filled(p, V);
    const turned = others.find((e) => e.t === 'call' && ['unshift', 'reverse', 'sort'].includes(e.name));
    if (turned) { c.fail(turned.node, 'the values are not kept in their order', p); continue; }
    if (others.length) { c.undecide(`${c.P.where(others[0].node)}: the values of the result are not followed`); continue; }
    flat += puts.length;
    for (const e of puts) {
      const L = valuesLoop(I, p, e);
      if (!c.expect(L, e.node, 'the values are not taken in their order', p)) continue;
      const a = e.args.length === 1 ? e.rawArgs?.[0] ?? e.args[0] : UNDEF, raw = a.k === 'spread' ? p.st.canon(a.of) : a;
      const own = (t) => t.k === 'idx' && same(p, t.arr, I.values);
      const inner = (t) => t.k === 'f' && t.name === 'values' && own(t.base);
      const x = own(raw) ? raw : inner(raw) ? raw.base : raw.k === 'idx' && inner(p.st.canon(raw.arr)) ? p.st.canon(raw.arr).base : null;
      if (!c.expect(x, e.node, 'something else than the values becomes a value of the result', p)) continue;
      const kind = isPartial(p, x);
      if (own(raw)) { c.expect(kind === false && a.k !== 'spread' && e.loops.at(-1) === L, e.node, 'an embedded partial template may remain among the values', p); continue; }
      c.expect(kind === true, e.node, 'a value that is no partial template is taken for one', p);
      if (inner(raw)) c.expect(a.k === 'spread' && e.loops.at(-1) === L, e.node, 'the values of an embedded partial template do not take its place', p);
      else c.expect(covers(e.loops.at(-1), raw.arr, p, { ordered: true }), e.node, 'not all values of an embedded partial template take its place, in order', p);
    }
    for (const k of p.kinds) {
      if (!fillers.has(k.at) || p.kinds.find((y) => y.x === k.x) !== k) continue;
      const mine = puts.filter((e) => T.contains(e.rawArgs?.[0] ?? e.args[0], (t) => t === k.x));
      const none = k.partial && p.events.some((e) => e.t === 'loopzero' && idxOf(p, e) > idxOf(p, k.e));
      c.expect(mine.length === 1 || (none && !mine.length), k.e.node, 'a value is not taken into the result exactly once', p);
    }
  }
  c.expect(flat > 0 && plain > 0, I.fn, 'composing does not put the values of partial templates in place');
}

// ---- strings -----------------------------------------------------------
/** Pushes and changes of the last item of a list on p, in order. */
function steps(c, p, out) {
  const ops = [];
  let carried = null;
  for (const e of p.events) {
    if (isPush(e) && p.st.canon(e.recv) === out) { for (const a of e.args) ops.push({ kind: 'push', parts: [a], e }); continue; }
    if (e.t === 'write' && p.st.canon(e.base) === out) {
      const key = e.keyTerm ?? (typeof e.key === 'object' ? e.key : null);
      const v = p.st.canon(e.value);
      if (v.k === 'op' && v.op === 'concat' && v.args[0].k === 'idx' && v.args[0].arr === out && key && p.st.canon(v.args[0].i) === p.st.canon(key)) {
        const prev = ops.at(-1);
        // the engine may have merged this with what was appended before
        let parts = v.args.slice(1);
        if (prev?.kind === 'append' && prev.key === p.st.canon(key) && prev.all.every((x, i) => x === parts[i])) { const all = parts; parts = parts.slice(prev.all.length); ops.push({ kind: 'append', parts, all, key: p.st.canon(key), e }); continue; }
        ops.push({ kind: 'append', parts, all: parts, key: p.st.canon(key), e });
        continue;
      }
      return null;
    }
    if (e.t === 'call' && e.recv && p.st.canon(e.recv) === out && !e.pure) return null;
  }
  return ops;
}
/** Is term the index of the last item of out when event at (an index) happens? */
function inStep(p, out, ops, term, at) {
  term = p.st.canon(term);
  const pushed = (from) => ops.filter((o) => o.kind === 'push' && idxOf(p, o.e) > from && idxOf(p, o.e) < at).length;
  const hvs = [];
  T.contains(term, (t) => { if (t.k === 'hv') hvs.push(t); return false; });
  if (!hvs.length) {
    if (term.k === 'c') return pushed(-1) + out.init.length - 1 === term.v && !ops.some((o) => idxOf(p, o.e) < at && o.e.loops.length && o.kind === 'push');
    if (T.contains(term, (t) => t.k === 'f' && t.name === 'length' && t.base === out)) return T.linSum(term, cst(0), 1) && /-1/.test(T.show(term)) ? true : undefined;
    return undefined;
  }
  const h = hvs.find((x) => T.linSum(term, x, -1).k === 'c');
  if (!h) return undefined;
  const d = T.linSum(term, h, -1);
  const start = p.events.findIndex((e) => e.t === 'loop' && e.loop === h.loop);
  if (start < 0) return undefined;
  // items pushed by an inner loop that is over: as many as it had rounds
  const here = p.events[at]?.loops ?? [];
  const over = (l) => { const s = p.events.findIndex((e) => e.t === 'loop' && e.loop === l); return s > start && p.events.slice(s, at).some((e) => e.t === 'loopend' && e.loop === l) && !here.includes(l); };
  if (ops.some((o) => o.kind === 'push' && idxOf(p, o.e) > start && idxOf(p, o.e) < at && o.e.loops.some((l) => l !== h.loop && over(l)))) return false;
  return d.v === pushed(start);
}
/** Every counter used as an index into out keeps step with the pushes. */
function countersKept(p, out, ops) {
  let ok = true;
  const need = new Set();
  for (const o of ops) if (o.kind === 'append') { const r = inStep(p, out, ops, o.key, idxOf(p, o.e)); if (r === undefined) return undefined; if (!r) ok = false; T.contains(o.key, (t) => { if (t.k === 'hv') need.add(t.name); return false; }); }
  if (!ok) return false;
  for (let i = 0; i < p.events.length; i++) {
    const e = p.events[i];
    if (e.t !== 'loop' && e.t !== 'loopend') continue;
    const cell = [...(e.loop.carried?.entries() ?? [])].filter(([, x]) => x.hv && need.has(x.hv.name));
    for (const [key, x] of cell) {
      const t = e.t === 'loop' ? x.init : e.how === 'full' || e.how === 'back' ? (e.next?.get(key) ?? null) : null;
      if (!t) continue;
      const r = inStep(p, out, ops, t, i);
      if (r === undefined) return undefined;
      if (!r) return false;
    }
  }
  return true;
}
function strings(c) {
  const I = parse(c);
  let made = 0, taken = 0, bare = 0;
  const seen = new Set();
  for (const p of I.ps) {
    if (!p.S) continue;
    const S = p.st.canon(p.S);
    if (same(p, S, I.strings)) {
      bare++;
      c.expect(!p.kinds.some((k) => k.partial && p.events.some((e) => e.t === 'loop' && T.contains(e.loop.over ?? e.loop.cond ?? UNDEF, (t) => t.k === 'f' && t.name === 'strings' && same(p, t.base, k.x)))), I.fn, 'the strings of embedded partial templates are left out', p);
      continue;
    }
    if (S.k === 'o' && (S.kind === 'array' || S.kind === 'arrn')) { made++; pieces(c, I, p, S); continue; }
    if (S.k === 'f') { taken++; hit(c, I, p, S); continue; }
    c.undecide(`${c.P.where(I.fn)}: the strings of the result are not followed`);
  }
  if (!c.undecided.length) c.expect(made > 0 && bare > 0, I.fn, 'composing makes no strings');
  if (!c.undecided.length) c.expect(taken > 0, I.fn, 'composed strings are never used again');
}
/** The strings computed: one per hole, in textual order. */
function pieces(c, I, p, out) {
  const ops = steps(c, p, out);
  if (!ops || !out.init) { c.undecide(`${c.P.where(I.fn)}: the composed strings are not followed`); return; }
  const at = (t, arr, i) => t.k === 'idx' && same(p, t.arr, arr) && p.st.canon(t.i) === p.st.canon(i);
  const kept = countersKept(p, out, ops);
  if (kept === undefined) { c.undecide(`${c.P.where(I.fn)}: the position in the composed strings is not followed`); return; }
  const node = ops[0]?.e.node ?? out.node ?? I.fn;
  c.expect(kept, node, 'text is added to another string than the last one', p);
  c.expect(out.init.length === 1 && at(p.st.canon(out.init[0]), I.strings, cst(0)), out.node ?? I.fn, 'the composed strings do not start with the first string', p);
  // the iteration over the values that makes them
  const L = ops[0] ? valuesLoop(I, p, ops[0].e) : null;
  if (!ops.length) { const lz = p.events.filter((e) => e.t === 'loopzero' && idxOf(p, e) > 0); c.expect(lz.length > 0, I.fn, 'a value adds nothing to the composed strings', p); return; }
  if (!c.expect(L && ops.every((o) => o.e.loops.includes(L)), node, 'the strings are not composed value by value, in order', p)) return;
  const hv = [...L.carried.values()].find((x) => x.hv && p.kinds.some((k) => k.x.i === x.hv))?.hv ?? null;
  const k = p.kinds.find((y) => T.contains(y.x.i, (t) => t.k === 'hv' && t.loop === L)) ?? p.kinds.find((y) => ops.some((o) => o.parts.some((t) => T.contains(t, (u) => u === y.x))));
  if (!k) { c.expect(false, node, 'partial templates are not told apart', p); return; }
  const i = k.x.i, next = T.linSum(i, cst(1), 1);
  const flat = ops.flatMap((o) => o.parts.map((t, j) => ({ kind: o.kind === 'push' ? 'push' : 'append', t: p.st.canon(t), e: o.e })));
  if (!k.partial) {
    c.expect(flat.length === 1 && flat[0].kind === 'push' && at(flat[0].t, I.strings, next), node, 'a value is not followed by the string after it', p);
    return;
  }
  const xs = fld(k.x, 'strings'), xv = fld(k.x, 'values');
  const isS = (t, j) => t.k === 'idx' && t.arr.k === 'f' && t.arr.name === 'strings' && p.st.canon(t.arr.base) === k.x && (j === undefined || p.st.canon(t.i) === p.st.canon(j));
  const head = flat[0], tail = flat.at(-1), mid = flat.slice(1, -1);
  c.expect(flat.length >= 2 && head.kind === 'append' && isS(head.t, cst(0)), node, 'the first string of an embedded partial template is not joined to the text before it', p);
  c.expect(flat.length >= 2 && tail.kind === 'append' && at(tail.t, I.strings, next), node, 'the text after an embedded partial template is not joined to its last string', p);
  for (const o of mid) {
    if (!c.expect(o.kind === 'push' && isS(o.t), o.e.node, 'the inner strings of an embedded partial template are not kept apart', p)) continue;
    const M = o.e.loops.at(-1);
    const j = M === L ? null : [...(M.carried?.values() ?? [])].map((x) => x.hv).find((h) => h && T.contains(o.t.i, (t) => t === h));
    if (!j) { c.undecide(`${c.P.where(o.e.node)}: the inner strings of a partial template are not followed`); continue; }
    const d = T.linSum(o.t.i, j, -1), init = [...M.carried.values()].find((x) => x.hv === j)?.init;
    const bound = M.cond || M.over ? ['values', 'strings'].find((f) => covers(M, T.field(k.x, f, 0), p, { ordered: true }) || (M.cond && T.contains(M.cond, (t) => t.k === 'f' && t.name === 'length' && t.base.k === 'f' && t.base.name === f && p.st.canon(t.base.base) === k.x))) : null;
    if (d.k !== 'c' || (M.cond && init?.k !== 'c') || !bound) { c.undecide(`${c.P.where(o.e.node)}: the inner strings of a partial template are not followed`); continue; }
    c.expect((init?.v ?? 0) + d.v === 1 && d.v === (bound === 'values' ? 1 : 0), o.e.node, 'an inner string of an embedded partial template is left out or taken twice', p);
  }
  c.expect(mid.length === 1 || (mid.length === 0 && p.events.some((e) => e.t === 'loopzero' && idxOf(p, e) > idxOf(p, ops[0].e))), node, 'the inner strings of an embedded partial template are left out or taken twice', p);
}
/** What the lists compared on a hit tell about the embedded partial templates. */
function keyParts(c, I, p, list) {
  const out = { lit: false, pos: false, outer: false, count: false, unknown: false, any: false };
  const puts = p.events.filter((e) => isPush(e) && p.st.canon(e.recv) === list);
  for (const e of puts) for (const a0 of e.args) {
    out.any = true;
    const a = p.st.canon(a0.k === 'spread' ? a0.of : a0), L = valuesLoop(I, p, e), M = e.loops.at(-1);
    const xsOf = (t) => t.k === 'f' && t.name === 'strings' && p.st.canon(t.base).k === 'idx' && same(p, p.st.canon(t.base).arr, I.values);
    const inner = L && M !== L && ((M.over && xsOf(p.st.canon(M.over))) || p.kinds.some((k) => covers(M, fld(k.x, 'strings'), p)));
    if (!L) { out.unknown = true; continue; }
    if ((a.k === 'idx' && xsOf(p.st.canon(a.arr)) && inner) || (a0.k === 'spread' && xsOf(a))) { out.lit = true; continue; }
    if (T.contains(a, (t) => p.kinds.some((k) => k.x.i === t)) && !T.contains(a, (t) => p.kinds.some((k) => k.x === t))) out.where = true;
    if (p.kinds.some((k) => k.x.i === a || (a.k === 'lin' && T.linSum(a, k.x.i, -1).k === 'c'))) { if (inner) out.pos = true; else out.outer = true; continue; }
    if (a.k === 'f' && a.name === 'length' && xsOf(p.st.canon(a.base))) { out.count = true; continue; }
    if (a.k === 'f' && a.name === 'length' && a.base.k === 'f' && a.base.name === 'values') { out.count = true; continue; }
    out.unknown = true;
  }
  return out;
}
function hit(c, I, p, S) {
  const entry = p.st.canon(S.base);
  const eqs = calls(p, isCall('sequentialEqual')).filter((e) => p.st.decide(p.st.pTruthy(e.res)) === true);
  const lists = [];
  for (const e of eqs) {
    const [a, b] = e.args.map((t) => p.st.canon(t));
    const mine = [a, b].find((t) => t.k === 'f' && p.st.canon(t.base) === entry), other = mine === a ? b : a;
    if (mine && e.args.length === 2) lists.push({ field: mine.name, list: other });
  }
  const entryList = entry.k === 'idx' ? p.st.canon(entry.arr) : null;
  const got = p.events.find((e) => e.t === 'call' && e.name === 'get' && entryList && same(p, e.res, entryList));
  if (!entryList || !got) { c.undecide(`${c.P.where(I.fn)}: where strings composed earlier are kept is not followed`); return; }
  c.expect(got.args.length === 1 && same(p, got.args[0], I.strings), got.node, 'strings composed for other outer strings may be used', p);
  if (!c.expect(lists.length > 0, I.fn, 'strings composed earlier are used for any partial templates', p)) return;
  // a path on which a partial template with strings was met shows how the lists are filled
  if (!p.kinds.some((k) => k.partial) || p.events.some((e) => e.t === 'loopzero')) return;
  const ks = lists.map((l) => keyParts(c, I, p, l.list)), any = (f) => ks.some((k) => k[f]);
  if (any('unknown') && !any('pos') && !any('outer') && !any('where')) c.fail(eqs[0].node, 'strings composed for partial templates at other places may be used', p);
  if (any('unknown')) { c.undecide(`${c.P.where(I.fn)}: what strings composed earlier are looked up by is not followed`); return; }
  c.expect(any('lit'), eqs[0].node, 'strings composed for partial templates with other strings may be used', p);
  c.expect(any('pos') || (any('outer') && any('count')), eqs[0].node, 'strings composed for partial templates that are placed or split in another way may be used', p);
  I.hits ??= [];
  I.hits.push({ p, S: S.name, lists });
}
function storing(c) {
  const I = parse(c);
  let n = 0;
  for (const p of I.ps) {
    const S = p.st.canon(p.S ?? UNDEF);
    if (S.k !== 'o') { const w = p.events.find((e) => isPush(e) && p.st.canon(e.args[0] ?? UNDEF).k === 'o' && p.st.canon(e.args[0]).kind === 'object'); c.expect(!w, w?.node ?? I.fn, 'strings are stored although none were composed', p); continue; }
    const stores = p.events.filter((e) => isPush(e) && (() => { const o = p.st.canon(e.args[0] ?? UNDEF); return o.k === 'o' && o.kind === 'object' && Object.values(ownFields(p, o)).includes(S); })());
    const sets = calls(p, (e) => e.name === 'set' && /Map/.test(e.decl ?? ''));
    for (const s of sets) c.expect(same(p, s.args[0], I.strings), s.node, 'composed strings are stored under other outer strings', p);
    if (stores.length !== 1) { c.expect(!stores.length, stores[1]?.node ?? I.fn, 'composed strings are stored twice', p); continue; }
    n++;
    const e = stores[0], o = ownFields(p, p.st.canon(e.args[0])), list = p.st.canon(e.recv);
    const kept = p.events.some((x) => x.t === 'call' && x.name === 'get' && same(p, x.res, list) && same(p, x.args[0], I.strings)) || sets.some((s) => same(p, s.args[1], list));
    c.expect(kept, e.node, 'composed strings are not stored under their outer strings', p);
    for (const h of I.hits ?? []) {
      c.expect(o[h.S] === S, e.node, 'other strings are stored than were composed', p);
      for (const l of h.lists) c.expect(o[l.field] === p.st.canon(l.list), e.node, 'composed strings are stored under a key they were not composed for', p);
    }
    // nothing the key is made of changes afterwards
    for (const v of Object.values(o)) { const w = p.events.slice(idxOf(p, e) + 1).find((x) => (x.t === 'call' && !x.pure && x.recv && same(p, x.recv, v)) || (x.t === 'write' && same(p, x.base, v))); c.expect(!w, w?.node ?? e.node, 'stored strings or their key change afterwards', p); }
  }
  if (!c.undecided.length) c.expect(n > 0, I.fn, 'composed strings are never stored');
}
function entrances(c) {
  const k = c.P.cls('Partial');
  for (const [name, mode] of [['html', 'html'], ['svg', 'svg'], ['math', 'math']]) {
    const fn = k.members.find((m) => ts.isMethodDeclaration(m) && m.name.getText() === name && m.body);
    if (!fn) throw new AnchorError(`Partial.${name} not found`);
    const create = c.P.fn('createTemplate'), pf = k.members.find((m) => ts.isMethodDeclaration(m) && m.name.getText() === 'parse');
    const E = c.engine({ opaque: (f) => f === create || f === pf }), [s, rest] = E.paramSyms(fn), list = rest.k === 'spread' ? rest.of : rest;
    let n = 0;
    for (const p of c.paths(E, fn)) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      n++;
      const a = calls(p, (e) => e.target === pf || e.name === 'parse'), b = calls(p, (e) => e.target === create || e.name === 'createTemplate');
      if (!c.expect(a.length === 1 && b.length === 1, fn, 'a template is not composed once', p)) continue;
      const given = a[0].args[1]?.k === 'spread' ? a[0].args[1].of : UNDEF;
      c.expect(same(p, a[0].args[0], s) && same(p, given, list) && a[0].args.length === 2, a[0].node, 'a template is composed of something else than what is given', p);
      const r = p.st.canon(a[0].res), part = (t, f) => { t = p.st.canon(t); return t.k === 'f' && t.name === f && p.st.canon(t.base) === r; };
      c.expect(b[0].args[0] === cst(mode) && part(b[0].args[1], 'strings') && part(b[0].args[2], 'values') && same(p, p.value, b[0].res), b[0].node, 'the template is not made of the composed strings and values in the mode asked for', p);
    }
    c.expect(n > 0, fn, 'a template cannot be composed');
  }
  const lit = k.members.find((m) => ts.isMethodDeclaration(m) && m.name.getText() === 'literal' && m.body), E = c.engine(), [v] = E.paramSyms(lit);
  for (const p of c.paths(E, lit)) {
    if (p.kind !== 'return') continue;
    const o = p.st.canon(p.value), items = (t) => p.st.heap.get(p.st.canon(t).id + '#items');
    const S = items(c.get(p, o, 'strings')), V = items(c.get(p, o, 'values'));
    c.expect(S?.exact && S.list.length === 1 && same(p, S.list[0], v) && V?.exact && !V.list.length, lit, 'a literal is not exactly its text', p);
  }
}
export const rules = [
  { name: 'values', text: 'the values of the result are the values given in order, each embedded partial template replaced by its own values', run: values },
  { name: 'strings', text: 'the strings of the result are composed piece by piece in textual order, or were composed for the same outer strings and the same strings of partial templates at the same places', run: strings },
  { name: 'storing', text: 'composed strings are stored under their outer strings with the lists they are looked up by', run: storing },
  { name: 'entrances', text: 'templates are made of the strings and values composed from exactly what was given', run: entrances },
];
