// C16: template expressions bind to their own holes.
import { ts, T, cst, NULL, UNDEF, U, N, fld, calls, writes, idxOf, covers, loopsOf, AnchorError, knows, evalConst } from './_lib.mjs';
import { callees, reachesFn } from './_runtime.mjs';
import { patternOf } from './C15.mjs';
import { enclosingFn } from '../lib/engine.mjs';

export const about = 'The parser of templates and the code that instantiates them are followed on every path: which attribute, comment or text becomes a hole of which kind and name, the cursor that numbers positions, the walk that finds a position again, and the part made for each hole.';
export const assumptions = ['The host parser keeps the order of the markers in the source text (no foster parenting).', 'The marker does not occur in the static text of a template.'];

const has = (fn, ...names) => { const s = new Set(); const v = (n) => { if (n !== fn && (ts.isClassLike(n))) return; if (ts.isPropertyAccessExpression(n)) s.add(n.name.text); ts.forEachChild(n, v); }; v(fn); return names.every((x) => s.has(x)); };
/** Innermost functions of the template module that do something, helpers included. */
function smallest(c, fns, ...names) {
  const all = (fn, seen = new Set()) => { if (seen.has(fn)) return seen; seen.add(fn); for (const d of callees(c.P, fn)) if (fns.includes(d)) all(d, seen); return seen; };
  const used = (fn) => { const s = [...all(fn)]; return names.every((x) => s.some((f) => has(f, x))); };
  const cand = fns.filter(used);
  return cand.filter((f) => ![...callees(c.P, f)].some((d) => d !== f && cand.includes(d)));
}
export function roles(c) {
  if (c._c16) return c._c16;
  const P = c.P, cls = P.cls('DOMTemplate');
  const parse = P.staticMember(cls, 'parse')?.decl ?? P.staticMember(cls, 'parse'), render = P.method(cls, 'render');
  if (!parse?.body) throw new AnchorError('DOMTemplate.parse not found');
  const sf = cls.getSourceFile(), fns = [];
  P.walk(sf, (n) => { if ((ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n)) && n.body) fns.push(n); });
  // the walks: the cursor moves in document order, the navigation between two positions
  const walks = smallest(c, fns, 'firstChild', 'nextSibling', 'parentNode').filter((f) => f !== parse && f !== render);
  const under = (a, b) => a === b || reachesFn(P, a, (d) => d === b);
  const navigate = walks.find((f) => under(render, f)) ?? null, advance = walks.find((f) => f !== navigate && under(parse, f)) ?? null;
  const attrs = smallest(c, fns, 'getAttribute').find((f) => under(parse, f)) ?? smallest(c, fns, 'attributes').find((f) => under(parse, f)) ?? null;
  const news = (f) => { const s = new Set(); const v = (n) => { if (ts.isNewExpression(n)) s.add(n.expression.getText()); ts.forEachChild(n, v); }; v(f); return s; };
  const makes = fns.filter((f) => news(f).has('ChildNodePart') && f !== render);
  const resolve = makes.find((f) => under(render, f)) ?? null;
  const tree = fns.find((f) => f !== parse && under(parse, f) && has(f, 'nodeType')) ?? null;
  return (c._c16 = { cls, parse, render, navigate, advance, attrs, resolve, tree, fns, sf });
}
const fnTerm = (fn) => T.fndecl(fn, fn.pos + fn.getSourceFile().fileName);
const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
const isNull = (p, t) => p.st.canon(t) === NULL || p.st.decide(p.st.pMask(t, U | N)) === true;

/** Fields of holes: which holds the position, by how rendering uses them. */
function renderInfo(c) {
  const R = roles(c);
  if (R.rinfo) return R.rinfo;
  if (!R.resolve) { c.undecide('the function that makes the part of a hole was not recognised'); return null; }
  const E = c.engine({ opaque: (f) => f === R.navigate || f === R.resolve });
  const ps = c.paths(E, R.render, { cls: R.cls });
  return (R.rinfo = { E, ps, thisT: E.thisSym(R.cls) });
}
const isResolve = (R) => (e) => e.t === 'call' && e.target === R.resolve;
const isNav = (R) => (e) => e.t === 'call' && e.target === R.navigate;

// ---- rendering --------------------------------------------------------------
function rendering(c) {
  const R = roles(c), I = renderInfo(c);
  if (!I) return;
  let n = 0;
  for (const p of I.ps) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const block = p.events.findLast((e) => e.t === 'new' && e.obj === p.st.canon(p.ret ?? p.value));
    const made = p.events.filter(isResolve(R));
    for (const e of made) {
      n++;
      // which argument is the hole, which the node
      const hole = e.args.find((a) => a.k === 'idx'), node = e.args.find((a) => a !== hole);
      if (!c.expect(hole && node, e.node, 'a part is not made from a hole and its node', p)) continue;
      const L = e.loops.at(-1);
      if (!c.expect(L && covers(L, hole.arr, p, { ordered: true }), e.node, 'not every hole of a template gets its part, in order', p)) continue;
      R.holesF ??= hole.arr.k === 'f' ? hole.arr.name : null;
      const w = p.events.find((x) => idxOf(p, x) > idxOf(p, e) && x.loops?.at(-1) === L && ((x.t === 'write' && same(p, x.value, e.res)) || (x.t === 'call' && x.name === 'push' && x.args.length === 1 && same(p, x.args[0], e.res))));
      if (!c.expect(w, e.node, 'the part of a hole is not kept', p)) continue;
      if (w.t === 'write') { const k = w.keyTerm ?? w.key; c.expect(k && p.st.decide(p.st.pEq(k, hole.i)) === true, w.node, 'a part is not kept at the index of its hole', p); }
      const list = w.t === 'write' ? w.base : w.recv;
      c.expect(block && block.args.some((a) => same(p, a, list)), block?.node ?? R.render, 'a block does not get the parts of its holes', p);
      if (!R.navigate) continue;
      const nav = p.events.findLast((x) => isNav(R)(x) && idxOf(p, x) < idxOf(p, e));
      if (!c.expect(nav && same(p, nav.res, node), e.node, 'a part is not made for the node at the position of its hole', p)) continue;
      const pos = nav.args.find((a) => p.st.canon(a).k === 'f' && same(p, p.st.canon(a).base, hole));
      if (!c.expect(pos, nav.node, 'the position looked for is not that of the hole', p)) continue;
      R.pathF ??= p.st.canon(pos).name;
      // the walk starts where the previous one ended
      const carried = [...(L.carried?.values() ?? [])];
      const from = nav.args.filter((a) => a !== pos).map((a) => carried.find((x) => x.hv === a));
      if (!from.every(Boolean) || from.length !== 2) {
        const start = nav.args.filter((a) => a !== pos);
        c.expect(start.length === 2 && start.some((a) => isEmptyArray(p, a)) && start.some((a) => isCopyOf(p, a)), nav.node, 'the walk to a hole starts at a node that is not at the position it is told', p);
        continue;
      }
      const end = p.events.find((x) => x.t === 'loopend' && x.loop === L && x.how !== 'break');
      const nx = (x) => { const k = [...L.carried].find(([, y]) => y === x)[0]; return end?.next?.raw?.get(k) ?? end?.next?.get(k); };
      const init = from.map((x) => x.init);
      c.expect(init.some((a) => isEmptyArray(p, a)) && init.some((a) => isCopyOf(p, a)), nav.node, 'the first walk does not start at the root of the copied template', p);
      if (end) {
        const nodeX = from.find((x) => isCopyOf(p, x.init)), pathX = from.find((x) => x !== nodeX);
        c.expect(nodeX && pathX && same(p, nx(nodeX), nav.res) && same(p, nx(pathX), pos), nav.node, 'the next walk does not start at the node and the position reached last', p);
      }
    }
    // the block is made from a copy of the template
    if (block) c.expect(block.args.some((a) => isCopyOf(p, a)), block.node, 'a block is not made from a deep copy of the content of its template', p);
    if (!made.length) { n++; const H = R.holesF && fld(I.thisT, R.holesF); if (H) c.expect(p.st.decide(p.st.pLe(E0(p, H), 0)) === true || p.st.decide(p.st.pEq(E0(p, H), cst(0))) === true || p.events.some((e) => e.t === 'loopzero'), R.render, 'the parts of the holes are not made', p); }
  }
  c.expect(n > 0, R.render, 'rendering a template makes no parts');
}
const E0 = (p, H) => p.E.lengthTerm(H, p.st);
const isEmptyArray = (p, t) => { t = p.st.canon(t); return t.k === 'o' && t.kind === 'array'; };
function isCopyOf(p, t) {
  t = p.st.canon(t);
  const e = p.events.find((x) => x.t === 'call' && x.res && p.st.canon(x.res) === t);
  if (!e) return false;
  const content = (a) => { a = a && p.st.canon(a); return a?.k === 'f' && a.name === 'content'; };
  const deep = (a) => a && p.st.decide(p.st.pTruthy(a)) === true;
  if (e.name === 'importNode') return content(e.args[0]) && deep(e.args[1]);
  if (e.name === 'cloneNode') return content(e.recv) && deep(e.args[0]);
  return false;
}
// ---- the anchor -------------------------------------------------------------
function anchor(c) {
  const R = roles(c), I = renderInfo(c);
  if (!I) return;
  if (!R.pathF || !R.holesF) rendering(Object.assign(Object.create(c), { expect: (x) => !!x, fail() {} }));
  const kinds = holeKinds(c);
  const H = fld(I.thisT, R.holesF ?? '?'), h0 = T.idx(H, cst(0));
  for (const p of I.ps) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const frag = p.events.find((e) => e.t === 'call' && ['importNode', 'cloneNode'].includes(e.name))?.res;
    if (!frag) { c.undecide('the copy of a template was not recognised'); return; }
    const first = (e) => e.t === 'call' && same(p, e.recv, frag) && (e.name === 'prepend' || (e.name === 'insertBefore' && e.args[1] && p.st.canon(e.args[1]).name === 'firstChild'));
    const put = p.events.filter(first);
    const kidsLen = fld(frag, 'childNodes', 'length');
    const no = (q) => p.st.decide(q);
    const empty = [no(p.st.pEq(kidsLen, cst(0))), neg(no(p.st.pLt(cst(0), kidsLen))), isNullKnown(p, fld(frag, 'firstChild')), neg(callTrue(p, 'hasChildNodes', frag))].find((x) => x !== undefined);
    const len = p.E.lengthTerm(H, p.st);
    const conds = [no(p.st.pLt(cst(0), len)), no(p.st.pEq(fld(h0, kinds.typeF), cst(kinds.child))), no(p.st.pEq(fld(h0, R.pathF, 'length'), cst(1))), no(p.st.pEq(T.idx(fld(h0, R.pathF), cst(0)), cst(0)))];
    const need = empty === true || conds.every((x) => x === true);
    const not = empty === false && conds.some((x) => x === false);
    if (put.length) {
      c.expect(need, put[0].node, 'a static anchor is added to a block that has a static node first', p);
      c.expect(put.length === 1, put[0].node, 'more than one static anchor is added', p);
      const a = put[0].args[0], made = p.events.find((e) => e.t === 'call' && same(p, e.res, a));
      c.expect(made && /^create(Comment|TextNode)$/.test(made.name), put[0].node, 'the static anchor is not a node of its own', p);
      const after = p.events.filter((e) => (isNav(R)(e) || isResolve(R)(e)) && idxOf(p, e) > idxOf(p, put[0]));
      c.expect(!after.length, put[0].node, 'positions are looked up after the static anchor has shifted them', p);
      const block = p.events.find((e) => e.t === 'new' && idxOf(p, e) > idxOf(p, put[0]) && e.args.some((x) => same(p, x, frag)));
      c.expect(block, put[0].node, 'the static anchor is added after the block has collected its nodes', p);
    } else c.expect(not, R.render, 'a block without static nodes before its first hole gets no static anchor', p);
  }
}
const neg = (x) => (x === undefined ? undefined : !x);
const isNullKnown = (p, t) => p.st.decide(p.st.pMask(t, U | N));
const callTrue = (p, name, recv) => { const e = p.events.find((x) => x.t === 'call' && x.name === name && same(p, x.recv, recv)); return e ? p.st.decide(p.st.pTruthy(e.res)) : undefined; };

// ---- from holes to parts ----------------------------------------------------
/** The parts made for a hole object of a parsing path. */
function partsOf(c, p, hole, node) {
  const R = roles(c);
  const i = R.resolve.parameters.findIndex((x) => x.type && /Node|Element/.test(x.type.getText()));
  const args = i === 0 ? [node, hole] : [hole, node];
  const out = [];
  for (const q of c.callPaths(p, fnTerm(R.resolve), args, UNDEF)) {
    if (q.kind === 'throw' || q.st.infeasible()) continue;
    const e = q.own.findLast((x) => x.t === 'new' && /Part$/.test(x.cls?.name?.text ?? x.name ?? ''));
    out.push({ q, cls: e?.cls?.name?.text ?? e?.name ?? null, args: e?.args ?? [], node: e?.node });
  }
  return out;
}
/** Kind field and the value of it for child nodes. */
function holeKinds(c) {
  const R = roles(c);
  if (R.kinds) return R.kinds;
  const E = c.engine(), fn = R.resolve, args = E.paramSyms(fn);
  let typeF = null, child;
  for (const p of c.paths(E, fn, { args })) {
    const e = p.events.findLast((x) => x.t === 'new' && (x.cls?.name?.text ?? x.name) === 'ChildNodePart');
    if (!e) continue;
    for (const b of p.events.filter((x) => x.t === 'branch' && x.val)) if (b.pred.k === 'op' && (b.pred.op === 'eq' || b.pred.op === 'is')) {
      const [x, y] = b.pred.args, f = [x, y].find((t) => t.k === 'f' && args.includes(t.base)), k = [x, y].find((t) => t.k === 'c');
      if (f && k) { typeF = f.name; child = k.v; }
    }
  }
  if (!typeF) { // the last kind: the one left over
    c.undecide('the kind of a hole was not recognised');
    throw new AnchorError('the kind of a child node hole not found');
  }
  return (R.kinds = { typeF, child });
}

// ---- attributes -------------------------------------------------------------
function attributes(c) {
  const R = roles(c);
  if (!R.attrs || !R.resolve) { c.undecide('the collection of attribute holes was not recognised'); c.obligations++; return; }
  const fn = R.attrs, E = c.engine({ opaque: (f) => f === R.advance }), args = E.paramSyms(fn);
  const elementT = args[fn.parameters.findIndex((x) => /Element/.test(x.type?.getText() ?? ''))];
  let n = 0, seen = new Set();
  for (const p of c.paths(E, fn, { args })) {
    if (p.kind === 'throw' || p.st.infeasible()) continue;
    const names = p.events.find((e) => e.t === 'call' && e.name === 'getAttributeNames');
    const get = p.events.find((e) => e.t === 'call' && e.name === 'getAttribute');
    const L = get?.loops.at(-1);
    if (!names || !L) { if (p.kind === 'return' && !p.events.some((e) => e.t === 'loopzero' || e.t === 'loop')) c.undecide('the walk over the attributes was not recognised'); continue; }
    const name = get.args[0], value = get.res;
    n++;
    c.expect(covers(L, names.res, p, { ordered: true }) && same(p, get.recv, elementT) && same(p, names.recv, elementT), get.node, 'not every attribute of an element is looked at, in order', p);
    const marker = markerOf(c, p, fn, args);
    const whole = p.st.decide(p.st.pEq(value, marker)), tag = p.st.decide(p.st.pEq(name, marker)), blank = p.st.decide(p.st.pEq(value, cst('')));
    const isElement = tag === true && blank === true, isValue = whole === true;
    const out = !isValue && !isElement;
    const push = p.events.filter((e) => e.t === 'call' && e.name === 'push' && e.loops.includes(L) && p.st.canon(e.recv).k !== 'o' && args.includes(p.st.canon(e.recv)));
    const rem = p.events.filter((e) => e.t === 'call' && e.name === 'removeAttribute' && e.loops.includes(L));
    if (out) {
      c.expect(whole === false && (tag === false || blank === false), get.node, 'an attribute is passed over before it is known not to be an expression', p);
      c.expect(!push.length && !rem.length, push[0]?.node ?? rem[0]?.node ?? fn, 'an attribute without an expression becomes a hole or is removed', p);
      continue;
    }
    if (!c.expect(push.length === 1, push[1]?.node ?? fn, 'an expression in an attribute does not become exactly one hole', p)) continue;
    c.expect(rem.length === 1 && p.st.decide(p.st.pEq(rem[0].args[0], name)) === true && same(p, rem[0].recv, elementT), rem[0]?.node ?? fn, 'the marker of an expression is not removed', p);
    const hole = push[0].args[0], H = push[0].recv;
    freshPath(c, p, hole, args, L);
    const node = T.sym('host node');
    for (const { q, cls, args: pa, node: at } of partsOf(c, p, hole, node)) {
      if (!c.expect(cls && pa[0] === node, at ?? R.resolve, 'a hole gets no part for its node', q)) continue;
      seen.add(cls);
      if (isElement && !isValue) { c.expect(cls === 'ElementPart', at, 'an expression in the place of an attribute is not bound to the element', q); continue; }
      const nm = pa[1] && q.st.canon(pa[1]);
      const written = nm && (nm.k === 'r' && ['slice', 'substring'].includes(nm.name) ? q.st.canon(nm.recv) : nm);
      const W = writtenName(q, written, H);
      if (!c.expect(nm && W, at, 'the name of a binding is not the one written before its own expression', q)) continue;
      const cut = nm !== written;
      if (cut && !(nm.args.length === 1 && nm.args[0] === cst(1))) { c.fail(at, 'the name of a binding loses other characters than its sigil', q); continue; }
      const first = (ch) => firstIs(q, written, ch);
      const sig = { EventPart: '@', LivePart: '$', PropertyPart: '.' };
      if (sig[cls]) c.expect(first(sig[cls]) === true && cut, at, `a ${cls} is made for an attribute that does not start with ${sig[cls]}, or keeps the sigil in its name`, q);
      else if (['AttributePart', 'ClassPart', 'StylePart'].includes(cls)) {
        c.expect(!cut && ['@', '$', '.'].every((ch) => first(ch) === false || q.st.canon(written) === UNDEF), at, 'an attribute with a sigil gets a plain binding, or a plain attribute loses its first character', q);
        const lower = (s) => lowerIs(q, written, s);
        const k = lower('class'), s = lower('style');
        c.expect(cls === 'ClassPart' ? k === true : cls === 'StylePart' ? s === true : k === false && s === false, at, `a ${cls} is made for an attribute of another name`, q);
      } else c.fail(at, `an attribute gets a ${cls}`, q);
    }
  }
  c.expect(n > 0, fn, 'no attribute is looked at');
  for (const k of ['ElementPart', 'EventPart', 'LivePart', 'PropertyPart', 'AttributePart', 'ClassPart', 'StylePart']) c.expect(seen.has(k), fn, `no attribute gets a ${k}`);
}
function markerOf(c, p, fn, args) {
  const i = fn.parameters.findIndex((x) => x.name.getText() === 'marker');
  if (i >= 0) return args[i];
  const j = fn.parameters.findIndex((x) => x.type?.getText() === 'string');
  return args[j];
}
/** The text before the hole at hand, read with the attribute pattern. */
function writtenName(p, t, H) {
  if (!t) return false;
  if (t === UNDEF) return true;
  return T.contains(t, (x) => {
    if (x.k !== 'idx') return false;
    const i = p.st.canon(x.i), ok = i.k === 'f' ? i.name === 'length' && same(p, i.base, H) : T.contains(i, (y) => y.k === 'f' && y.name === 'length' && same(p, y.base, H)) && i.k !== 'lin';
    return ok && x.arr.k === 's' && !same(p, x.arr, H);
  });
}
function firstIs(p, w, ch) {
  w = p.st.canon(w);
  const opts = [T.idx(w, cst(0))];
  let r;
  const see = (t) => {
    if (t.k === 'idx' && same(p, t.arr, w) && p.st.canon(t.i) === cst(0)) r ??= p.st.decide(p.st.pEq(t, cst(ch)));
    if (t.k === 'r' && t.recv && same(p, t.recv, w)) {
      if (['charAt', 'at'].includes(t.name) && t.args[0] === cst(0)) r ??= p.st.decide(p.st.pEq(t, cst(ch)));
      if (t.name === 'startsWith' && t.args[0] === cst(ch)) r ??= p.st.decide(p.st.pTruthy(t));
    }
    return false;
  };
  for (const t of opts) see(t);
  for (const e of p.events) if (e.t === 'call' && e.res && r === undefined) see(e.res);
  return r;
}
function lowerIs(p, w, s) {
  let r;
  for (const e of p.events) if (e.t === 'call' && ['toLowerCase', 'toLocaleLowerCase'].includes(e.name) && same(p, e.recv, w)) r ??= p.st.decide(p.st.pEq(e.res, cst(s)));
  return r;
}
/** The position kept in a hole is a copy of the cursor's taken now. */
function freshPath(c, p, hole, sources, L) {
  const R = roles(c);
  if (!R.pathF) renderInfoSilently(c);
  const v = c.get(p, hole, R.pathF ?? 'path');
  const raw = v;
  const ok = raw.k === 'o' && raw.kind === 'copy';
  const lit = raw.k === 'o' && raw.kind === 'array' && (() => { const it = p.st.heap.get(raw.id + '#items'); return it?.list?.length === 1 && it.list[0].k === 'spread'; })();
  c.expect(ok || lit, p.events.find((e) => e.t === 'call' && e.name === 'push' && e.args[0] === hole)?.node ?? p.fn, 'a hole does not keep a copy of its position', p);
  return ok ? p.st.canon(raw.of) : lit ? p.st.canon(p.st.heap.get(raw.id + '#items').list[0].of) : null;
}
function renderInfoSilently(c) { rendering(Object.assign(Object.create(c), { expect: (x) => !!x, fail() {}, _c16: c._c16 })); }

// ---- the cursor -------------------------------------------------------------
function cursor(c) {
  const R = roles(c);
  if (!R.advance) { c.undecide('the cursor over a template was not recognised'); c.obligations++; return; }
  const fn = R.advance, E = c.engine(), args = E.paramSyms(fn);
  for (const p of c.paths(E, fn, { args })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const ret = p.st.canon(p.ret ?? p.value ?? UNDEF);
    const push = p.events.filter((e) => e.t === 'call' && e.name === 'push'), pops = p.events.filter((e) => e.t === 'call' && (e.name === 'pop' || (e.name === 'splice' && e.args[0] === cst(-1))));
    const ups = loopsOf(p).filter((x) => [...(x.loop.carried?.values() ?? [])].some((y) => (y.nexts ?? []).some((t) => t.k === 'f' && t.name === 'parentNode')));
    const inc = p.events.filter((e) => e.t === 'write' && e.keyTerm !== undefined || (e.t === 'write' && typeof e.name !== 'string')).filter((e) => isLast(p, e));
    if (ret === NULL) {
      c.expect(p.events.some((e) => e.t === 'branch' && isNullBranch(e, 'parentNode')), fn, 'the end of a template is reached before its root', p);
      continue;
    }
    const cells = p.events.filter((e) => e.t === 'write' && same(p, e.value, ret));
    c.expect(cells.some((e) => args.includes(p.st.canon(e.base))), fn, 'the cursor does not move to the node it returns', p);
    if (ret.k === 'f' && ret.name === 'firstChild') {
      c.expect(push.length === 1 && push[0].args.length === 1 && push[0].args[0] === cst(0) && !pops.length && !inc.length, push[0]?.node ?? fn, 'the position of a first child does not end with 0', p);
    } else if (ret.k === 'f' && ret.name === 'nextSibling') {
      c.expect(p.events.some((e) => e.t === 'branch' && isNullBranch(e, 'firstChild')), fn, 'the children of a node are passed over', p);
      c.expect(!push.length && inc.length === 1, inc[0]?.node ?? fn, 'the position is not increased by one for the next sibling', p);
      if (inc[0]) {
        const d = T.linSum(p.st.canon(inc[0].value), T.idx(inc[0].base, inc[0].keyTerm ?? inc[0].key), -1);
        const delta = d.k === 'c' ? d.v : incBy(inc[0]);
        c.expect(delta === 1, inc[0].node, 'the position is not increased by one for the next sibling', p);
      }
      for (const u of ups) {
        const inL = pops.filter((e) => e.loops.at(-1) === u.loop);
        c.expect(inL.length === 1, inL[0]?.node ?? fn, 'the position does not lose one level for each parent', p);
      }
      if (!ups.length) c.expect(!pops.length, pops[0]?.node ?? fn, 'the position loses a level for a sibling', p);
      if (inc[0] && pops.length) c.expect(idxOf(p, inc[0]) > idxOf(p, pops.at(-1)), inc[0].node, 'the position is increased before its lower levels are dropped', p);
      const climbs = ups.some((u) => [...u.loop.carried.values()].some((x) => T.contains(ret, (t) => t === x.hv)));
      if (ups.length) c.expect(climbs, fn, 'the next node is not the next sibling of the nearest ancestor that has one', p);
    } else c.undecide('the next node of the cursor was not recognised');
  }
}
const isNullBranch = (e, name) => {
  let q = e.pred, v = e.val;
  while (q.k === 'op' && q.op === 'not') { q = q.args[0]; v = !v; }
  return T.contains(q, (t) => t.k === 'f' && t.name === name) && (q.op === 'truthy' || (q.op === 'mask' && !(+(q.args[1]?.v ?? q.args[1]) & (U | N))) ? !v : v);
};
function isLast(p, e) {
  const k = e.keyTerm ?? e.key ?? (typeof e.name === 'object' ? e.name : null);
  if (!k || typeof k !== 'object') return false;
  return T.contains(k, (t) => t.k === 'f' && t.name === 'length');
}
/** value - old for writes to the last element, from the written expression. */
function incBy(e) {
  const l = T.toLin?.(e.value);
  return l && typeof l.c === 'number' ? l.c : NaN;
}

// ---- the tree ---------------------------------------------------------------
function treePaths(c) {
  const R = roles(c);
  if (R.tp) return R.tp;
  if (!R.advance || !R.tree) { c.undecide('the walk over a template was not recognised'); return (R.tp = { ps: [] }); }
  const E = c.engine({ opaque: (f) => f === R.advance || f === R.attrs });
  return (R.tp = { E, ps: c.paths(E, R.tree, {}), args: E.paramSyms(R.tree) });
}
const isAdv = (R) => (e) => e.t === 'call' && e.target === R.advance;
function holesOf(p, c) {
  const R = roles(c);
  const e = p.events.findLast((x) => x.t === 'new' && (x.cls === R.cls || x.name === 'DOMTemplate'));
  return e;
}
function count(c) {
  const R = roles(c), { ps, E, args } = treePaths(c);
  if (!ps.length) { c.obligations++; return; }
  const vi = R.tree.parameters.findIndex((x) => x.name.getText() === 'values' || /unknown\[\]/.test(x.type?.getText() ?? ''));
  let n = 0;
  for (const p of ps) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const e = holesOf(p, c);
    if (!c.expect(e && same(p, e.obj, p.ret ?? p.value), R.tree, 'parsing does not yield a template', p)) continue;
    const H = e.args.find((a) => a.k === 'o' && a.kind === 'array');
    if (!c.expect(H, e.node, 'a template does not get its holes', p)) continue;
    n++;
    c.expect(vi >= 0 && p.st.decide(p.st.pEq(E.lengthTerm(H, p.st), E.lengthTerm(args[vi], p.st))) === true, e.node, 'a template is made although its holes are not as many as its expressions', p);
    for (const x of p.events) if (x.t === 'call' && x.name === 'push' && x.args[0]?.k === 'o' && x.args[0].kind === 'object') c.expect(same(p, x.recv, H), x.node, 'a hole is not added to the holes of its template', p);
    for (const x of p.events) if (x.t === 'call' && x.target === R.attrs) c.expect(x.args.some((a) => same(p, a, H)), x.node, 'the holes of attributes are not added to the holes of their template', p);
  }
  c.expect(n > 0, R.tree, 'parsing never yields a template');
}
function tree(c) {
  const R = roles(c), { ps } = treePaths(c);
  if (!ps.length) { c.obligations++; return; }
  const kinds = holeKinds(c), seen = { text: 0, comment: 0, element: 0, suffix: 0, keep: 0 };
  for (const p of ps) {
    if (p.st.infeasible() || p.kind === 'throw') continue;
    const advs = p.events.filter(isAdv(R));
    const cursorT = advs[0]?.args[0];
    const outer = loopsOf(p).find((x) => [...(x.loop.carried?.values() ?? [])].some((y) => y.init && advs.length && same(p, y.init, advs[0].res)));
    if (!outer) continue;
    const L = outer.loop, cur = [...L.carried.values()].find((y) => y.init && same(p, y.init, advs[0].res)), cell = [...L.carried].find(([, y]) => y === cur)[0];
    const end = p.events.find((e) => e.t === 'loopend' && e.loop === L);
    if (!end || !p.events.some((e) => e.loops?.includes(L))) continue;
    const body = p.events.filter((e) => e.loops?.includes(L));
    const top = body.filter((e) => e.loops.at(-1) === L || e.loops[e.loops.indexOf(L) + 1] === undefined);
    const push = body.filter((e) => e.t === 'call' && e.name === 'push' && e.args[0]?.k === 'o' && e.args[0].kind === 'object');
    const split = body.find((e) => e.t === 'call' && e.name === 'split');
    const next = end.next?.raw?.get(cell) ?? end.next?.get(cell);
    const topAdv = top.filter(isAdv(R));
    if (end.how === 'break' && isNullKnown(p, cur.hv) === true) continue;
    c.expect(next && topAdv.length === 1 && same(p, next, topAdv[0].res), topAdv[1]?.node ?? topAdv[0]?.node ?? L.node, 'the walk over a template does not go on with the next node', p);
    for (const e of push) {
      const src = freshPath(c, p, e.args[0]);
      if (src) c.expect(src.k === 'o' || (src.k === 'f' && same(p, src.base, cursorT)) || src.k === 'hv', e.node, 'a hole does not keep the position of the cursor', p);
    }
    const kindOf = (e) => partsOf(c, p, e.args[0], T.sym('host node')).map((x) => x.cls);
    const nt = fld(cur.hv, 'nodeType');
    const is = (name, v) => [p.st.decide(p.st.pEq(nt, T.ext('Node.' + name))), p.st.decide(p.st.pEq(nt, cst(v)))].find((x) => x !== undefined);
    const attrs = body.filter((e) => e.t === 'call' && e.target === R.attrs);
    if (is('ELEMENT_NODE', 1) === true) {
      seen.element++;
      const hasAttrs = body.find((e) => e.t === 'call' && e.name === 'hasAttributes' && same(p, e.recv, cur.hv));
      const none = hasAttrs && p.st.decide(p.st.pTruthy(hasAttrs.res)) === false;
      if (!none) c.expect(attrs.length === 1 && same(p, attrs[0].args[0], cur.hv), attrs[0]?.node ?? L.node, 'the attributes of an element are not looked at once', p);
      if (attrs[0]) c.expect(attrs[0].args.some((a) => isCursorPath(p, a, cursorT)), attrs[0].node, 'the attributes of an element are not given its position', p);
      c.expect(!push.length, push[0]?.node ?? L.node, 'an element becomes a hole of its own', p);
    } else if (split) {
      const parts = split.res, last = T.idx(parts, T.linSum(p.E.lengthTerm(parts, p.st), cst(1), -1));
      const derived = filled(c, p, parts, treePaths(c).ps);
      if (derived === null) { c.undecide('the list of the pieces of a text was not recognised'); continue; }
      if (!c.expect(same(p, split.recv, fld(cur.hv, 'data')) || T.contains(split.recv, (t) => t === cur.hv), split.node, 'a text is not split at the markers in it', p)) continue;
      textNode(c, p, { L, cur, body, push, split, parts: derived ?? parts, last, topAdv, next, seen, kindOf, cursorT });
    } else if (is('COMMENT_NODE', 8) === true) {
      // a comment is a hole exactly if it is the marker
      const facts = p.events.filter((e) => e.t === 'branch' && e.loops.includes(L) && T.contains(e.pred, (t) => t.k === 'f' && t.name === 'data' && t.base === cur.hv) && isEq(e.pred) && !eqConst(e.pred));
      const yes = facts.some((e) => truth(e));
      seen.comment++;
      // what is compared is what was written, without white space and one slash at its end
      for (const e of body) if (e.t === 'call' && ['slice', 'substring', 'substr'].includes(e.name) && T.contains(e.recv, (t) => fromData(p, t, cur.hv))) {
        const [a, b] = e.args.map((t) => p.st.canon(t)), len = p.E.lengthTerm(e.recv, p.st);
        const whole = a === cst(0) && (!b || b === UNDEF);
        const last = a === cst(0) && b && ((e.name === 'slice' && b === cst(-1)) || (e.name !== 'substr' && same(p, b, T.linSum(len, cst(1), -1))) || (b.k === 'lin' && T.contains(b, (t) => t === len)));
        if (!b || (b.k !== 'c' && !last)) { c.obligations++; continue; }
        c.expect(whole || last, e.node, 'an expression that is followed by a slash is not recognised in the place of a node', p);
      }
      if (push.length) {
        c.expect(push.length === 1 && yes, push[0].node, 'a comment becomes a hole although it is not an expression', p);
        c.expect(kindOf(push[0]).every((k) => k === 'ChildNodePart'), push[0].node, 'an expression in the place of a node is not bound to its children', p);
        c.expect(p.events.findLast((e) => isAdv(R)(e) && idxOf(p, e) < idxOf(p, push[0])) === advs[0], push[0].node, 'a hole keeps the position of the next node', p);
      } else c.expect(facts.length && !yes, L.node, 'an expression in the place of a node does not become a hole', p);
    } else c.expect(!push.length, push[0]?.node ?? L.node, 'a node that holds no expression becomes a hole', p);
  }
  c.expect(seen.comment && seen.element && seen.text && seen.suffix && seen.keep, R.tree, 'elements, texts and comments are not all looked at');
}
const fromData = (p, t, node) => (t.k === 'f' && t.name === 'data' && t.base === node) || (t.k === 'r' && t.recv && ['trim', 'trimStart', 'trimEnd'].includes(t.name) && T.contains(t.recv, (x) => fromData(p, x, node)));
const isEq = (q) => (q.k === 'op' && q.op === 'not' ? isEq(q.args[0]) : q.k === 'op' && (q.op === 'eq' || q.op === 'is'));
const eqConst = (q) => (q.op === 'not' ? eqConst(q.args[0]) : q.args.some((a) => a.k === 'c'));
const truth = (e) => (e.pred.op === 'not' ? !e.val : e.val);
function isCursorPath(p, a, cursorT) {
  a = p.st.canon(a);
  if (a.k === 'f') return same(p, a.base, cursorT);
  for (const [k, v] of p.st.heap) { const i = p.E.hinfo.get(k); if (i && i.base === cursorT && p.st.canon(v) === a) return true; }
  return a.k === 'o' && a.kind === 'array' && a !== cursorT;
}
/** A list that was filled with one element for each element of another; null if it is filled otherwise. */
function filled(c, p, parts, all) {
  for (const { loop } of loopsOf(p)) {
    if (!loop.over || !same(p, loop.over, parts)) continue;
    const put = (q, L) => q.events.filter((e) => e.t === 'call' && e.name === 'push' && e.loops?.at(-1) === L && q.st.canon(e.recv).k === 'o');
    const mine = put(p, loop);
    if (!mine.length) continue;
    if (mine.length > 1 || !covers(loop, parts, p, { ordered: true })) return null;
    const every = all.every((q) => q.st.infeasible() || loopsOf(q).every((y) => y.loop.node !== loop.node || put(q, y.loop).length === 1));
    const a = p.st.canon(mine[0].recv), others = p.events.filter((e) => e !== mine[0] && e.t === 'call' && e.recv && p.st.canon(e.recv) === a && ['push', 'pop', 'shift', 'unshift', 'splice'].includes(e.name));
    if (!every || others.length || !T.contains(mine[0].args[0], (t) => t.k === 'idx' && same(p, t.arr, parts) && t.i === loop.index)) return null;
    return a;
  }
  return undefined;
}
function textNode(c, p, x) {
  if (p.st.decide(p.st.pEq(p.E.lengthTerm(x.split.res, p.st), cst(0))) === true) return; // a text is split into one piece at least
  const { L, cur, body, push, parts, last, topAdv, next, seen, kindOf } = x, R = roles(c);
  const inner = loopsOf(p).filter(({ loop, start }) => start.loops?.includes(L) || body.includes(start)).map((y) => y.loop).find((l) => l !== L && body.some((e) => e.loops.includes(l) && (isAdv(R)(e) || e.name === 'splitText')));
  const zero = body.find((e) => e.t === 'loopzero') ?? p.events.find((e) => e.t === 'loopzero');
  let here = cur.hv; // the text node that holds the rest
  if (inner) {
    seen.text++;
    const K = T.linSum(p.E.lengthTerm(parts, p.st), cst(1), -1);
    const v = stepVar(p, inner, K);
    if (!c.expect(v, inner.node, 'not every expression in a text becomes a hole', p)) return;
    const isComp = (t) => isPiece(p, t, parts, v.hv);
    const ev = body.filter((e) => e.loops.includes(inner) && ((e.t === 'call' && (e.name === 'splitText' || isAdv(R)(e))) || (e.t === 'write' && e.name === 'data') || push.includes(e)));
    const nodeX = [...inner.carried.values()].find((y) => y.init && same(p, y.init, cur.hv));
    const cellX = nodeX && [...inner.carried].find(([, y]) => y === nodeX)[0];
    const endI = p.events.find((e) => e.t === 'loopend' && e.loop === inner);
    if (!nodeX || !endI) { c.undecide('the splitting of a text was not recognised'); return; }
    const blank = isBlank(p, parts, v.hv);
    const splits = ev.filter((e) => e.name === 'splitText'), advs = ev.filter(isAdv(R)), data = ev.filter((e) => e.t === 'write'), ps = ev.filter((e) => push.includes(e));
    if (!c.expect(ps.length === 1, ps[1]?.node ?? inner.node, 'an expression in a text does not become exactly one hole', p)) return;
    c.expect(kindOf(ps[0]).every((k) => k === 'CharacterDataPart'), ps[0].node, 'an expression in a text is not bound to a text', p);
    c.expect(splits.length === advs.length, inner.node, 'the cursor does not follow the nodes a text is split into', p);
    // chain of nodes
    let at = nodeX.hv;
    for (const s of splits) { c.expect(same(p, s.recv, at) && s.args[0] === cst(0), s.node, 'a text is not split at its start', p); at = s.res; }
    const nx = endI.next?.raw?.get(cellX) ?? endI.next?.get(cellX);
    c.expect(nx && same(p, nx, at), inner.node, 'the rest of a text is not the node split off last', p);
    for (let i = 0; i < Math.min(splits.length, advs.length); i++) c.expect(idxOf(p, splits[i]) < idxOf(p, advs[i]) && (i === 0 || idxOf(p, advs[i - 1]) < idxOf(p, splits[i]) || true), advs[i].node, 'the cursor moves before the text is split', p);
    const before = advs.filter((a) => idxOf(p, a) < idxOf(p, ps[0])).length;
    c.expect(before === splits.length - 1, ps[0].node, 'a hole in a text keeps the position of another node', p);
    if (blank !== true) {
      c.expect(splits.length === 2, inner.node, 'the text before an expression is dropped', p);
      c.expect(data.length === 1 && same(p, data[0].base, nodeX.hv) && isComp(data[0].value), data[0]?.node ?? inner.node, 'the text before an expression is not kept', p);
    } else c.expect(splits.length === 1 && !data.length, inner.node, 'an empty text is put before an expression', p);
    here = at;
  } else c.expect(!push.length && (zero || p.st.decide(p.st.pLe(p.E.lengthTerm(parts, p.st), 1)) === true), push[0]?.node ?? L.node, 'an expression in a text does not become a hole', p);
  // what remains after the last expression
  const tail = body.filter((e) => (!inner || !e.loops.includes(inner)) && e.loops.includes(L));
  const lastI = T.linSum(p.E.lengthTerm(parts, p.st), cst(1), -1), blank = isBlank(p, parts, lastI);
  const rem = tail.filter((e) => e.t === 'call' && (e.name === 'remove' || e.name === 'removeChild'));
  const data = tail.filter((e) => e.t === 'write' && e.name === 'data');
  const dec = tail.filter((e) => e.t === 'write' && isLast(p, e));
  if (blank === true) {
    seen.suffix++;
    const ok = rem.length === 1 && same(p, rem[0].name === 'remove' ? rem[0].recv : rem[0].args[0], here);
    c.expect(ok, rem[0]?.node ?? L.node, 'an empty text is kept behind an expression', p);
    if (ok && topAdv[0]) {
      c.expect(idxOf(p, topAdv[0]) < idxOf(p, rem[0]), rem[0].node, 'the cursor stands on a node that has been removed', p);
      c.expect(dec.length === 1 && idxOf(p, dec[0]) < idxOf(p, topAdv[0]) && incBy2(p, dec[0]) === -1, dec[0]?.node ?? topAdv[0].node, 'the node removed is counted in the positions behind it', p);
    }
  } else {
    seen.keep++;
    c.expect(!rem.length && !dec.length, rem[0]?.node ?? dec[0]?.node ?? L.node, 'a text with contents is removed', p);
    c.expect(data.length === 1 && same(p, data[0].base, here) && isPiece(p, data[0].value, parts, lastI), data[0]?.node ?? L.node, 'the text behind the last expression is not kept', p);
  }
}
const incBy2 = (p, e) => { const d = T.linSum(e.value, T.idx(e.base, e.keyTerm ?? e.key), -1); return d.k === 'c' ? d.v : incBy(e); };
/** Whether a term is the i-th piece of a split text, as it is or stripped. */
function isPiece(p, t, parts, i) {
  const over = (a, n = 0) => n < 5 && (same(p, a, parts) || (a.k === 'o' && (a.kind === 'map' || a.kind === 'copy') && over(a.over ?? a.of, n + 1)));
  const hit = (x) => x.k === 'idx' && over(x.arr) && p.st.decide(p.st.pEq(x.i, i)) === true;
  return T.contains(t, hit) || T.contains(p.st.canon(t), hit);
}
/** Whether the i-th piece is known to be empty or not. */
function isBlank(p, parts, i) {
  for (const e of p.events) {
    if (e.t !== 'branch') continue;
    const see = (q) => {
      if (q.k !== 'op') return undefined;
      if (q.op === 'not') return neg(see(q.args[0]));
      if ((q.op === 'eq' || q.op === 'is') && q.args.some((a) => a === cst('')) && q.args.some((a) => isPiece(p, a, parts, i))) return true;
      if (q.op === 'truthy' && !(q.args[0].k === 'r' && !/^(trim|replace)/.test(q.args[0].name)) && isPiece(p, q.args[0], parts, i)) return false;
      if (q.op === 'eq' && q.args.some((a) => a === cst(0)) && q.args.some((a) => a.k === 'f' && a.name === 'length' && isPiece(p, a.base, parts, i))) return true;
      if (q.op === 'le' && q.args[1] === cst(0) && q.args[0].k === 'f' && q.args[0].name === 'length' && isPiece(p, q.args[0].base, parts, i)) return true;
      return undefined;
    };
    const b = see(e.pred);
    if (b !== undefined) return b === e.val;
  }
  return undefined;
}
/** The counter of a loop that runs exactly K times from its initial value. */
export function stepVar(p, loop, K) {
  const st = p.st, show = T.show;
  if (!loop.cond) return null;
  for (const x of loop.carried?.values() ?? []) {
    if (!x.init || !x.nexts?.length) continue;
    const d = x.nexts.map((n) => T.linSum(n, x.hv, -1));
    if (!d.every((s) => s === d[0] && s.k === 'c' && Math.abs(s.v) === 1)) continue;
    const s = d[0].v, init = st.canon(x.init), endV = T.linSum(init, K, s);
    const { State } = p.st.constructor ? { State: p.st.constructor } : {};
    const s0 = State ? new State() : st;
    const qs = s === 1 ? [s0.pLt(x.hv, endV), s0.pNot(s0.pEq(x.hv, endV))] : [s0.pLt(endV, x.hv), s0.pNot(s0.pEq(x.hv, endV))];
    const cs = st.pLt(s === 1 ? x.hv : endV, s === 1 ? endV : x.hv);
    if ([...qs, cs].some((q) => q === loop.cond || show(q) === show(loop.cond))) return x;
  }
  return null;
}

// ---- finding a position again -----------------------------------------------
function navigation(c) {
  const R = roles(c);
  if (!R.navigate) { c.undecide('the walk to a position was not recognised'); c.obligations++; return; }
  const fn = R.navigate, E = c.engine(), args = E.paramSyms(fn);
  const pi = fn.parameters.map((x, i) => (/number\[\]/.test(x.type?.getText() ?? '') ? i : -1)).filter((i) => i >= 0);
  const ni = fn.parameters.findIndex((x) => /Node/.test(x.type?.getText() ?? ''));
  if (pi.length !== 2 || ni < 0) { c.undecide('the parameters of the walk to a position were not recognised'); c.obligations++; return; }
  // rendering tells which path is the one looked for
  const I = renderInfo(c);
  let newI = pi[1];
  for (const p of I?.ps ?? []) for (const e of p.events.filter(isNav(R))) { const k = e.args.findIndex((a) => { const t = p.st.canon(a); return t.k === 'f' && t.base.k === 'idx'; }); if (k >= 0) newI = k; }
  const node = args[ni], NEW = args[newI], OLD = args[pi.find((i) => i !== newI)];
  let n = 0;
  for (const p of c.paths(E, fn, { args })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const ret = p.st.canon(p.ret ?? p.value ?? UNDEF);
    if (ret === NULL) { c.expect(p.events.some((e) => e.t === 'branch' && (isNullBranch(e, 'nextSibling') || isNullBranch(e, 'firstChild') || isNullBranch(e, 'parentNode') || isNullBranch(e, 'childNodes'))), fn, 'a position is given up although its node may exist', p); continue; }
    walkTo(c, p, { node, NEW, OLD, ret, fn });
    n++;
  }
  c.expect(n > 0, fn, 'no position is ever found');
}
function walkTo(c, p, { node, NEW, OLD, ret, fn }) {
  const st = p.st, E = p.E, nl = E.lengthTerm(NEW, st), ol = E.lengthTerm(OLD, st);
  const eq = (a, b) => a && b && st.decide(st.pEq(a, b)) === true;
  const nextOf = (L, name) => [...L.carried.values()].find((x) => x.init && x.nexts?.length && x.nexts.every((t) => t.k === 'f' && t.name === name && t.base === x.hv));
  const order = loopsOf(p).map((x) => x.loop);
  const zeros = p.events.filter((e) => e.t === 'loopzero').map((e) => e.loop);
  // 1. the common prefix
  const pre = order.find((L) => [...L.carried.values()].some((x) => x.init === cst(0) && x.nexts?.length && x.nexts.every((t) => T.linSum(t, x.hv, -1) === cst(1))) && ![...L.carried.values()].some((x) => x.nexts?.some((t) => t.k === 'f')) && p.events.some((e) => e.t === 'branch' && T.contains(e.pred, (t) => t.k === 'idx' && t.arr === OLD)));
  let prefix = cst(0);
  if (pre && [...pre.carried.values()].length && p.events.some((e) => e.t === 'branch' && e.val && isEq(e.pred) && T.contains(e.pred, (t) => t.k === 'idx' && t.arr === OLD && [...pre.carried.values()].some((x) => x.hv === t.i)))) {
    const x = [...pre.carried.values()].find((y) => y.init === cst(0));
    const end = p.events.find((e) => e.t === 'loopend' && e.loop === pre);
    const cell = [...pre.carried].find(([, y]) => y === x)[0];
    prefix = end?.how === 'break' ? x.hv : (end?.next?.raw?.get(cell) ?? end?.next?.get(cell) ?? T.linSum(x.hv, cst(1)));
    prefix = st.canon(prefix);
  }
  // the prefix is really common and inside both positions: known from the branches
  const inBoth = prefix === cst(0) || (st.decide(st.pLt(T.linSum(prefix, cst(1), -1), ol)) === true && st.decide(st.pLt(T.linSum(prefix, cst(1), -1), nl)) === true && eq(T.idx(OLD, T.linSum(prefix, cst(1), -1)), T.idx(NEW, T.linSum(prefix, cst(1), -1))));
  c.expect(inBoth, pre?.node ?? fn, 'the common part of two positions is not common to both', p);
  // 2. up to the common ancestor
  const up = order.find((L) => nextOf(L, 'parentNode'));
  let cur = node, pivot = null, pivotAt = null;
  const climb = T.linSum(ol, prefix, -1);
  if (up) {
    const v = stepVar(p, up, climb), nx = nextOf(up, 'parentNode');
    c.expect(v && same(p, nx.init, node), up.node, 'the walk does not go up to the common ancestor', p);
    cur = nx ? fld(nx.hv, 'parentNode') : cur;
    pivot = nx?.hv;
    pivotAt = v?.hv;
  } else if (!c.expect(st.decide(st.pLe(climb, 0)) === true || st.decide(st.pEq(ol, prefix)) === true || zeros.length, fn, 'the walk does not go up to the common ancestor', p)) return;
  // 3. sideways
  const sides = order.filter((L) => nextOf(L, 'nextSibling') && (!L.parent || true) && !nested(p, L, order));
  const side = sides.find((L) => pivot && same(p, nextOf(L, 'nextSibling').init, pivot));
  let start = prefix, base = cur;
  if (side) {
    const nx = nextOf(side, 'nextSibling');
    const from = T.idx(OLD, prefix);
    const target = T.idx(NEW, prefix);
    const froms = new Set([from]);
    const see = (t) => { if (t.k === 'idx' && t.arr === OLD && eq(t.i, prefix)) froms.add(t); return false; };
    for (const x of side.carried.values()) if (x.init) T.contains(st.canon(x.init), see);
    if (side.cond) T.contains(side.cond, see);
    const okTo = [...froms].some((f) => stepVar(p, side, T.linSum(target, f, -1)));
    c.expect(okTo, side.node, 'the walk to a later sibling does not take as many steps as the positions differ', p);
    c.expect(st.decide(st.pLt(prefix, nl)) === true, side.node, 'the walk goes sideways although the position ends at the common ancestor', p);
    base = fld(nx.hv, 'nextSibling');
    start = T.linSum(prefix, cst(1));
  }
  // 4. down
  const down = order.find((L) => [...L.carried.values()].some((x) => x.nexts?.length && x.nexts.some((t) => T.contains(t, (y) => y.k === 'f' && y.name === 'firstChild' && y.base === x.hv) || t.k === 'hv')) && p.events.some((e) => e.t === 'branch' && e.loops.includes(L) && T.contains(e.pred, (t) => t.k === 'f' && t.name === 'firstChild')));
  const K = T.linSum(nl, start, -1);
  if (!down) { c.expect(st.decide(st.pLe(K, 0)) === true && same(p, ret, base), fn, 'the walk ends before it has gone down to the node', p); return; }
  const v = stepVar(p, down, K);
  const nodeX = [...down.carried.values()].find((x) => x.init && same(p, x.init, base));
  c.expect(v && nodeX, down.node, 'the walk does not go down once for each level that is left', p);
  if (!v || !nodeX) return;
  const first = fld(nodeX.hv, 'firstChild');
  const inner = order.find((L) => L !== down && L !== side && nextOf(L, 'nextSibling') && same(p, nextOf(L, 'nextSibling').init, first));
  const lvl = T.idx(NEW, v.hv);
  const lvlOk = eq(v.init, start);
  if (inner) {
    c.expect(lvlOk && stepVar(p, inner, lvl), inner.node, 'the walk does not take as many steps to the child as its position says', p);
    c.expect(same(p, ret, fld(nextOf(inner, 'nextSibling').hv, 'nextSibling')), fn, 'the node found is not the one walked to', p);
  } else c.expect(lvlOk && st.decide(st.pLe(lvl, 0)) === true && same(p, ret, first), fn, 'the walk does not take as many steps to the child as its position says', p);
}
const nested = (p, L, order) => order.some((M) => M !== L && p.events.some((e) => e.t === 'loop' && e.loop === L && e.loops?.includes(M)));

// ---- the source -------------------------------------------------------------
function source(c) {
  const R = roles(c);
  const E = c.engine({ opaque: (f) => f === R.tree || f === R.advance || f === R.attrs }), fn = R.parse, args = E.paramSyms(fn);
  const at = (name) => args[fn.parameters.findIndex((x) => x.name.getText() === name)] ?? null;
  const strings = at('strings') ?? args[0], values = at('values') ?? args[1], mode = at('mode') ?? args[2], token = at('token') ?? args[3];
  let n = 0;
  for (const p of c.paths(E, fn, { cls: R.cls, args })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const parsed = p.events.find((e) => e.t === 'call' && e.target === R.tree);
    const join = p.events.find((e) => e.t === 'call' && e.name === 'join' && same(p, e.recv, strings));
    if (!c.expect(join, fn, 'the source of a template is not its strings joined by markers', p)) continue;
    n++;
    const marker = join.args[0];
    c.expect(marker && T.contains(p.st.canon(marker), (t) => t === token), join.node, 'the marker does not depend on the token', p);
    const set = p.events.filter((e) => (e.t === 'call' && /setHTML|insertAdjacentHTML/.test(e.name)) || (e.t === 'write' && e.name === 'innerHTML'));
    if (!c.expect(set.length === 1, set[1]?.node ?? fn, 'the source of a template is not parsed once', p)) continue;
    const html = set[0].t === 'call' ? set[0].args.at(-1) : set[0].value;
    c.expect(T.contains(p.st.canon(html), (t) => t === join.res || same(p, t, join.res)), set[0].node, 'what is parsed is not the source of the template', p);
    const isHtml = p.st.decide(p.st.pEq(mode, cst('html')));
    const unwrap = p.events.filter((e) => e.t === 'call' && e.name === 'replaceChildren');
    const wraps = T.contains(p.st.canon(html), (t) => t === mode);
    c.expect(isHtml === true ? !wraps && !unwrap.length : wraps && unwrap.length === 1, set[0].node, 'a template is not parsed in the namespace of its mode', p);
    if (unwrap[0]) c.expect(unwrap[0].args.length === 1 && idxOf(p, unwrap[0]) > idxOf(p, set[0]), unwrap[0].node, 'the contents of the wrapper are not taken out of it', p);
    if (parsed) {
      c.expect(parsed.args.some((a) => same(p, a, strings)) && parsed.args.some((a) => same(p, a, values)), parsed.node, 'the strings and expressions of a template are not the ones parsed', p);
      c.expect(parsed.args.some((a) => same(p, a, marker)), parsed.node, 'another marker is looked for than the one put in', p);
      if (unwrap[0]) c.expect(idxOf(p, parsed) > idxOf(p, unwrap[0]), parsed.node, 'positions are counted inside the wrapper', p);
      c.expect(idxOf(p, parsed) > idxOf(p, set[0]), parsed.node, 'a template is walked before it is parsed', p);
    }
  }
  c.expect(n > 0, fn, 'no template is ever parsed');
}

/** The regular expression a term stands for. */
function pattern(c, e) {
  let x = e.node && ts.isCallExpression(e.node) && ts.isPropertyAccessExpression(e.node.expression) ? e.node.expression.expression : null;
  for (let i = 0; x && i < 4; i++) {
    while (ts.isParenthesizedExpression(x) || ts.isAsExpression(x)) x = x.expression;
    if (x.kind === ts.SyntaxKind.RegularExpressionLiteral) return x.text;
    if (!ts.isIdentifier(x)) return null;
    x = c.P.symbolOf(x)?.valueDeclaration?.initializer;
  }
  return null;
}
/** White space of the static text goes only from an end, with a line break that is found there. */
function text(c) {
  const R = roles(c), file = R.tree.getSourceFile(), fns = new Set();
  c.P.walk(file, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ['trim', 'trimStart', 'trimEnd'].includes(n.expression.name.text)) { const f = enclosingFn(n); if (f && f.parameters.length === 1 && !ts.isClassLike(f.parent)) fns.add(f); } });
  for (const fn of fns) {
    const E = c.engine(), [s] = E.paramSyms(fn);
    if (!/^string$/.test(c.P.checker.typeToString(c.P.checker.getTypeAtLocation(fn.parameters[0])))) continue;
    const ps = c.paths(E, fn, {}).filter((p) => p.kind === 'return' && !p.st.infeasible());
    // a function from a text to a text
    if (!ps.length || !ps.some((p) => p.st.canon(p.value) !== s) || !ps.every((p) => { const v = p.st.canon(p.value); return v === s || (v.k === 'r' && ['trim', 'trimStart', 'trimEnd'].includes(v.name)); })) continue;
    for (const p of ps) for (const e of p.events.filter((x) => x.t === 'call' && ['trim', 'trimStart', 'trimEnd'].includes(x.name) && x.recv)) {
      for (const [side, mark, what] of [['trimStart', '^', 'front'], ['trimEnd', '$', 'end']]) {
        if (e.name !== side && e.name !== 'trim') continue;
        const tests = p.events.filter((x) => x.t === 'call' && x.name === 'test' && x.args.length === 1 && p.st.decide(p.st.pTruthy(x.res)) === true && (same(p, x.args[0], e.recv) || p.st.canon(x.args[0]) === s)).map((x) => pattern(c, x));
        if (tests.some((t) => t === null)) { c.undecide('a pattern was not recognised'); continue; }
        const said = tests.some((t) => { const src = t.slice(1, t.lastIndexOf('/')), flags = t.slice(t.lastIndexOf('/') + 1); return src.includes('\\n') && !flags.includes('m') && (mark === '^' ? src.startsWith('^') : src.endsWith('$') && !src.endsWith('\\$')); });
        const other = p.events.some((b) => b.t === 'branch' && !T.contains(b.pred, (t) => t.k === 'r' && t.name === 'test') && T.contains(b.pred, (t) => t === s));
        if (!said && other) { c.undecide('when white space is removed was not recognised'); continue; }
        c.expect(said, e.node, `white space at the ${what} of a text is removed although no line break is part of it`, p);
      }
    }
  }
}
export const rules = [
  { name: 'source', text: 'the source parsed is the strings joined by the very marker looked for, in the namespace of the mode', run: source },
  { name: 'hole-count', text: 'a template is made only with as many holes as expressions', run: count },
  { name: 'attribute-holes', text: 'each attribute that is an expression becomes one hole of the kind and the name written before it, and is removed', run: attributes },
  { name: 'tree-holes', text: 'each expression in a text or in the place of a node becomes one hole at the position of its own node', run: tree },
  { name: 'static-text', text: 'white space of the static text is removed only at an end, where it contains a line break', run: text, optional: true },
  { name: 'cursor', text: 'the cursor visits the nodes in document order and numbers each by the children before it', run: cursor },
  { name: 'navigation', text: 'the walk from one position to another takes exactly the steps by which they differ', run: navigation },
  { name: 'render', text: 'the i-th part is made for the i-th hole and the node at its position', run: rendering },
  { name: 'anchor', text: 'a static anchor is put first exactly when the block has no static node before its first hole', run: anchor },
];
