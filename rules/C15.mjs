// C15: each binding writes its value, and only when it changed.
import { ts, T, cst, UNDEF, TRUE, FALSE, U, N, B, F, O, fld, calls, writes, idxOf, loopsOf, covers, ownFields, AnchorError } from './_lib.mjs';

export const about = 'Every path of mounting, updating and unmounting each kind of binding is compared with what the host must show: the effects on the host node are matched with the value, key by key for class and style maps.';
export const assumptions = ['A binding is updated from the value it was last given.', 'Calling toString on a bound value does not change the host.', 'The host parses css text, token lists and style declarations as specified.'];

const cls = (c, name) => c.P.cls(name);
const meth = (c, k, name) => { const d = c.P.member(k, name)?.decl; if (!d?.body) throw new AnchorError(`${k.name.text}.${name} not found`); return d; };
const nullish = (p, t) => p.st.decide(p.st.pMask(t, U | N));
const isObj = (p, t) => (p.st.decide(p.st.pMask(t, O | N)) === true && p.st.decide(p.st.pMask(t, N)) === false) || p.st.decide(p.st.pMask(t, O)) === true;
const notObj = (p, t) => p.st.decide(p.st.pMask(t, O)) === false || p.st.decide(p.st.pMask(t, O | N)) === false || p.st.decide(p.st.pMask(t, N)) === true;
/** t is the text of v ('' if it has none). */
export function isText(c, p, t, v) {
  t = p.st.canon(t); v = p.st.canon(v);
  const tos = (e) => e.t === 'call' && e.name === 'toString' && p.st.canon(e.recv) === v;
  const made = p.events.find((e) => tos(e) && p.st.canon(e.res) === t);
  if (made) return true;
  if (t === cst('')) return nullish(p, v) === true || p.events.some((e) => tos(e) && nullish(p, e.res) === true) || nullish(p, fld(v, 'toString')) === true || c.same(p, v, t);
  if (t.k === 'op' && (t.name === 'str' || t.name === 'String') && t.args.length === 1 && p.st.canon(t.args[0]) === v) return nullish(p, v) === false;
  return t === v && p.st.decide(p.st.pMask(v, T.S)) === true;
}
/** Effects on the host node of the binding. */
function host(p, node) {
  const on = (t) => { for (t = p.st.canon(t); t; t = t.k === 'f' ? p.st.canon(t.base) : null) if (t === node) return true; return false; };
  return p.events.filter((e) => (e.t === 'call' && !e.pure && e.recv && on(e.recv)) || (e.t === 'write' && on(e.base)) || (e.t === 'delete' && on(e.base)));
}
const sameVal = (p, a, b) => p.st.decide(p.st.pEq(a, b, 'is'));

/** Runs mount, update and unmount of a part with a checker for the value shown. */
function binding(c, name, { shows, always = false, mask = null }) {
  const k = cls(c, name);
  const E0 = c.engine({ opaque: () => false });
  const thisT = E0.thisSym(k), node = fld(thisT, '_node');
  const out = { k, thisT };
  {
    const fn = meth(c, k, 'commitMount'), E = c.engine(), [v] = E.paramSyms(fn);
    let n = 0;
    for (const p of c.paths(E, fn, { cls: k })) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      n++;
      shows(p, null, v, fn, k);
    }
    c.expect(n > 0, fn, `mounting ${name} has no complete path`);
  }
  {
    const fn = meth(c, k, 'commitUpdate'), E = c.engine(), [o, v] = E.paramSyms(fn);
    let n = 0;
    for (const p of c.paths(E, fn, { cls: k })) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      if (always) { n++; shows(p, null, v, fn, k); continue; }
      const eff = host(p, nodeOf(c, k, E));
      const same = sameVal(p, o, v);
      if (same === true) { c.expect(!eff.length, eff[0]?.node ?? fn, 'an unchanged value is written to the host again', p); continue; }
      if (same === undefined && !eff.length) { c.fail(fn, 'a value that may have changed is not written to the host', p); continue; }
      c.expect(same === false, eff[0]?.node ?? fn, 'a value is written to the host although it may be unchanged', p);
      n++;
      shows(p, o, v, fn, k);
    }
    c.expect(n > 0, fn, `updating ${name} never changes the host`);
  }
  return out;
}
/** The field a part keeps its node in: given to its constructor first. */
function nodeOf(c, k, E) {
  const t = E.thisSym(k);
  return fld(t, nodeField(c, k));
}
export function fieldOfParam(c, k, i) {
  for (let cur = k; cur; cur = c.P.baseClass(cur)) {
    const ctor = cur.members.find(ts.isConstructorDeclaration);
    if (!ctor?.body) continue;
    const par = ctor.parameters[i];
    if (!par) break;
    if (par.modifiers?.length) return par.name.text;
    let hit = null;
    c.P.walk(ctor, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.expression.kind === ts.SyntaxKind.ThisKeyword && ts.isIdentifier(n.right) && n.right.text === par.name.text) hit ??= n.left.name.text; });
    if (hit) return hit;
  }
  throw new AnchorError(`${k.name.text} does not store its constructor parameter ${i}`);
}
const nodeField = (c, k) => fieldOfParam(c, k, 0);
const nameOf = (c, k, E) => fld(E.thisSym(k), fieldOfParam(c, k, 1));

// ---- maps (class, style) ---------------------------------------------------
const emptyMap = (p, t) => t.k === 'o' && t.kind === 'object' && !p.st.heap.get(t.id + '#spread') && !Object.keys(ownFields(p, t)).length && ![...p.st.heap.keys()].some((k) => k.startsWith(t.id + '.'));
/** Full visits of the keys of a map on a path: { map, key, value?, from, to }. */
function keyVisits(p) {
  const out = [];
  for (const { loop, start, end } of loopsOf(p).concat(zeroLoops(p))) {
    const over = loop.over ? p.st.canon(loop.over) : null;
    let src = over, map = null, entries = false;
    if (src?.k === 'r' && (src.name === 'keys' || src.name === 'entries') && src.args?.length) { map = p.st.canon(src.args[0]); entries = src.name === 'entries'; }
    else if (src?.k === 'r' && src.name === 'getOwnPropertyNames') map = p.st.canon(src.args[0]);
    if (!map && loop.kind === 'in' && src) map = src;
    const from = idxOf(p, start);
    if (!map && !over) for (const e of p.events.slice(0, from)) {
      if (e.t !== 'call' || !['keys', 'entries', 'getOwnPropertyNames'].includes(e.name) || !e.args.length || !covers(loop, e.res, p, { zero: start.t === 'loopzero' })) continue;
      // the collection indexed inside, if it can be told
      src = p.st.canon(e.res); map = p.st.canon(e.args[0]); entries = e.name === 'entries';
    }
    if (!map) continue;
    let to = p.events.findIndex((e, i) => i > from && e.t === 'loopend' && e.loop === loop);
    const zero = start.t === 'loopzero';
    if (zero) to = from; else if (to < 0) to = p.events.length;
    out.push({ loop, map, entries, src, from, to, zero, end });
  }
  return out.sort((a, b) => a.from - b.from);
}
const zeroLoops = (p) => p.events.filter((e) => e.t === 'loopzero').map((e) => ({ loop: e.loop, start: e, end: 'zero' }));
const isKey = (p, v, t) => {
  t = p.st.canon(t);
  if (v.loop.kind === 'in') return t === v.key || t === p.st.canon(v.loop.elem ?? UNDEF);
  if (v.entries) return t.k === 'idx' && t.i === cst(0) && t.arr.k === 'idx' && p.st.canon(t.arr.arr) === v.src || (t.k === 'f' && t.name === '0' && t.base.k === 'idx' && p.st.canon(t.base.arr) === v.src);
  return t.k === 'idx' && p.st.canon(t.arr) === v.src;
};
const isValueOf = (p, v, t, map = v.map) => {
  if (!t.keyTerm) t = p.st.canon(t);
  if (v.entries && map === v.map) { if (t.k === 'idx' && t.i === cst(1) && t.arr.k === 'idx' && p.st.canon(t.arr.arr) === v.src) return true; }
  return (t.k === 'f' || t.k === 'idx') && t.keyTerm && p.st.canon(t.baseTerm) === map && isKey(p, v, t.keyTerm);
};
const predTerms = (p, from, to) => {
  const out = new Set();
  for (const e of p.events.slice(from, to + 1)) if (e.t === 'branch') T.contains(e.pred, (t) => { if (t.k === 'f' || t.k === 'idx') out.add(t); return false; });
  return out;
};
/** Is the map value known nullish (true), known not (false) or unknown, inside a visit. */
function valueNullish(p, v, map) {
  let r;
  for (const t of predTerms(p, v.from, v.to)) if (isValueOf(p, v, t, map)) r = nullish(p, t) ?? r;
  return r;
}
function hasOwnKnown(p, v, map) {
  for (const e of p.events.slice(v.from, v.to + 1)) {
    if (e.t === 'call' && ['hasOwn', 'hasOwnProperty', 'has'].includes(e.name)) {
      const [m, k] = e.name === 'hasOwn' || (e.name === 'has' && e.args.length === 2) ? e.args : [e.recv, e.args[0]];
      if (m && k && p.st.canon(m) === map && isKey(p, v, k)) { const d = p.st.decide(p.st.pTruthy(e.res)); if (d !== undefined) return d; }
    }
    if (e.t === 'branch') {
      let hit;
      T.contains(e.pred, (t) => { if (t.k === 'op' && t.name === 'in' && isKey(p, v, t.args[0]) && p.st.canon(t.args[1]) === map) hit = p.st.decide(p.st.pTruthy(t)); return false; });
      if (hit !== undefined) return hit;
    }
  }
  return undefined;
}
/** The map a class or style value stands for, or null if `t` is something else. */
function isMapOf(c, p, t, v, kind) {
  t = p.st.canon(t); v = p.st.canon(v);
  if (t === v) return isObj(p, v);
  if (t.k !== 'o' || t.kind !== 'object' || !notObj(p, v)) return false;
  if (kind === 'class') {
    const keys = [...p.st.heap.keys()].filter((k) => k.startsWith(t.id + '.') && !k.includes('#'));
    return keys.length === 1 && p.st.canon(p.st.heap.get(keys[0])) === TRUE && isText(c, p, p.E.hinfo.get(keys[0]).key, v);
  }
  // css text parsed by the host
  const texts = writes(p, (e) => e.name === 'cssText' && isText(c, p, e.value, v)).filter((w) => !p.events.some((e) => e.t === 'write' && e.name === 'cssText' && e !== w && e.base === w.base && idxOf(p, e) > idxOf(p, w)));
  const ok = texts.some((w) => {
    const style = p.st.canon(w.base);
    const loops = loopsOf(p).concat(zeroLoops(p)).filter(({ loop, start }) => loop.over && p.st.canon(loop.over) === style && idxOf(p, start) > idxOf(p, w));
    if (!loops.length) return false;
    return loops.some(({ loop, start, end }) => {
      if (end === 'zero') return emptyMap(p, t);
      if (end !== 'full') return false;
      return writes(p, (e) => e.base === t && e.loops.includes(loop)).some((e) => {
        const key = e.key ? p.st.canon(e.key) : null, val = p.st.canon(e.value);
        return key?.k === 'idx' && p.st.canon(key.arr) === style && p.events.some((x) => x.t === 'call' && x.name === 'getPropertyValue' && p.st.canon(x.res) === val && p.st.canon(x.recv) === style && p.st.canon(x.args[0]) === key);
      });
    });
  });
  return ok;
}
/** Non-empty tokens of a class key visited in a loop: returns the loops. */
function tokenLoops(p, v, c) {
  const out = [];
  for (const { loop, start, end } of loopsOf(p).concat(zeroLoops(p))) {
    const i = idxOf(p, start);
    if (i < v.from || i > v.to) continue;
    if (!loop.over) {
      // counted: over the pieces whose length is its bound
      const arrs = new Set();
      for (const e of p.events) if (e.t === 'call' && e.name === 'split' && e.res) arrs.add(p.st.canon(e.res));
      for (const base of arrs) if (isSplit(p, v, base, c) && covers(loop, base, p, { zero: end === 'zero' })) out.push({ loop, start, end, over: base, base });
      continue;
    }
    const over = p.st.canon(loop.over), base = over.k === 'o' && over.filtered ? p.st.canon(over.filtered) : over;
    if (isSplit(p, v, base, c)) out.push({ loop, start, end, over, base });
  }
  return out;
}
function isSplit(p, v, t, c) {
  if (t.k === 'o' && t.kind === 'copy') return isSplit(p, v, p.st.canon(t.of), c);
  if (t.k !== 'r' || t.name !== 'split') return false;
  let s = p.st.canon(t.recv);
  while (s.k === 'r' && ['trim', 'trimStart', 'trimEnd'].includes(s.name)) s = p.st.canon(s.recv);
  return isKey(p, v, s) && whitespace(c, p.st.canon(t.args[0]));
}
/** The literal behind a pattern term. */
export function patternOf(c, t) {
  let text = t.regex;
  if (!text && t.k === 's' && /^mod:/.test(t.name)) {
    for (const f of c.P.files) for (const s of f.statements) if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) if (ts.isIdentifier(d.name) && t.name.replace(/@.*/, '') === 'mod:' + d.name.text && d.initializer && ts.isRegularExpressionLiteral(d.initializer)) text ??= d.initializer.text;
  }
  if (!text) return null;
  const m = /^\/(.*)\/([a-z]*)$/s.exec(text);
  try { return new RegExp(m[1], m[2]); } catch { return null; }
}
const ALPHABET = Array.from({ length: 256 }, (_, i) => String.fromCharCode(i));
/** Splits at every run of HTML white space and at nothing else. */
function whitespace(c, t) {
  const re = t.k === 'c' ? null : patternOf(c, t);
  if (!re) return false;
  const ws = [' ', '\t', '\n', '\f', '\r'];
  return ALPHABET.every((ch) => ('a' + ch + 'b').split(re).filter(Boolean).length === (ws.includes(ch) || /\s/.test(ch) ? 2 : 1)) && ws.every((x) => ws.every((y) => ('a' + x + y + 'b').split(re).filter(Boolean).length === 2));
}
const boolArg = (p, t) => p.st.decide(p.st.pTruthy(t));
/** 'on' | 'off' | 'value' (follows map[key]) for an event on a token. */
function tokenAction(p, v, e) {
  if (e.name === 'add') return 'on';
  if (e.name === 'remove') return 'off';
  if (e.name !== 'toggle' || e.args.length < 2) return null;
  let t = p.st.canon(e.args[1]);
  while (t.k === 'op' && (t.name === 'Boolean' || t.name === 'truthy') && t.args.length === 1) t = p.st.canon(t.args[0]);
  if (t === TRUE) return 'on';
  if (t === FALSE) return 'off';
  if (isValueOf(p, v, t)) return 'value';
  // the value of the single key of a literal map
  return null;
}
function valueTruthy(p, v) {
  let r;
  for (const t of predTerms(p, v.from, v.to)) if (isValueOf(p, v, t)) r = boolArg(p, t) ?? r;
  return r;
}
/** In one key visit, every token is switched as `want` ('off' or 'value'). Returns null or a message. */
function tokensSwitched(c, p, v, list, want) {
  const tl = tokenLoops(p, v, c).filter((t) => t.end === 'zero' || t.end === 'full');
  if (!tl.length) return v.zero ? null : 'tokens are not switched';
  for (const t of tl) {
    if (t.end === 'zero') return null;
    const evs = list.filter((e) => e.loops.includes(t.loop));
    const elem = (x) => { x = p.st.canon(x); return x.k === 'idx' && [t.over, t.base].includes(p.st.canon(x.arr)); };
    let empty;
    for (const e of p.events.slice(v.from, v.to + 1)) if (e.t === 'branch') T.contains(e.pred, (x) => {
      if (x.k !== 'idx' || ![t.over, t.base].includes(p.st.canon(x.arr))) return false;
      const d = p.st.decide(p.st.pEq(x, cst(''))) ?? (p.st.decide(p.st.pTruthy(x)) === undefined ? p.st.decide(p.st.pEq(fld(x, 'length'), cst(0))) ?? (p.st.decide(p.st.pLe(fld(x, 'length'), 0)) ) : !p.st.decide(p.st.pTruthy(x)));
      if (d !== undefined) empty = d;
      return false;
    });
    if (empty) return evs.length ? 'an empty token is switched' : null;
    if (empty === undefined && evs.length) return 'an empty token is switched';
    if (evs.length !== 1 || !elem(evs[0].args[0])) continue;
    const a = tokenAction(p, v, evs[0]);
    if (a === want) return null;
    if (want === 'value' && ((a === 'on' && valueTruthy(p, v) === true) || (a === 'off' && valueTruthy(p, v) === false))) return null;
  }
  return 'a token is not switched as its value says';
}

/** old tokens off, then new tokens as they say. `o`/`v` null: no old/new value. */
function classShown(c, p, o, v, fn, k) {
  const node = nodeOf(c, k, p.E), list = host(p, node);
  for (const e of list) c.expect(e.t === 'call' && ['toggle', 'add', 'remove'].includes(e.name) && p.st.canon(e.recv) === p.st.canon(fld(node, 'classList')), e.node, 'a class binding changes something else than the class list', p);
  mapShown(c, p, o, v, fn, 'class', list, {
    removed: (x) => tokensSwitched(c, p, x, list, 'off') === null,
    mayKeep: (x, nm) => hasOwnKnown(p, x, nm) === true,
    set: (x) => tokensSwitched(c, p, x, list, 'value'),
  });
}
function styleShown(c, p, o, v, fn, k) {
  const node = nodeOf(c, k, p.E), style = p.st.canon(fld(node, 'style')), list = host(p, node);
  for (const e of list) c.expect(e.t === 'call' && ['setProperty', 'removeProperty'].includes(e.name) && p.st.canon(e.recv) === style, e.node, 'a style binding changes something else than its own properties', p);
  const ins = (x) => list.filter((e) => idxOf(p, e) > x.from && idxOf(p, e) < x.to);
  mapShown(c, p, o, v, fn, 'style', list, {
    removed: (x) => ins(x).some((e) => e.name === 'removeProperty' && cssName(c, p, x, e.args[0])),
    mayKeep: (x, nm) => valueNullish(p, x, x.map) === true || valueNullish(p, x, nm) === false,
    set: (x) => {
      const n = valueNullish(p, x, x.map), evs = ins(x);
      if (x.zero) return null;
      if (n === true) return evs.length ? 'a nullish style property is written' : null;
      if (n === undefined) return 'a style property is written although its value may be nullish';
      return evs.length === 1 && evs[0].name === 'setProperty' && cssName(c, p, x, evs[0].args[0]) && isValueOf(p, x, evs[0].args[1]) ? null : 'a style property does not get its value under its name';
    },
  });
}
function mapShown(c, p, o, v, fn, kind, list, { removed, mayKeep, set }) {
  const visits = keyVisits(p);
  const isNew = (x) => (v ? isMapOf(c, p, x.map, v, kind) : emptyMap(p, x.map));
  const isOld = (x) => (o ? isMapOf(c, p, x.map, o, kind) : emptyMap(p, x.map));
  const claims = new Set();
  const note = (x) => { for (const e of list) if (idxOf(p, e) >= x.from && idxOf(p, e) <= x.to) claims.add(e); };
  // a map without keys has nothing to visit
  const impossible = visits.some((x) => !x.zero && emptyMap(p, x.map)) || visits.some((x) => emptyMapsOf(p, x).some((m) => hasOwnKnown(p, x, m) === true));
  if (impossible) return;
  let oldAt = -1, newAt = p.events.length, rem = null, add = null;
  for (const x of visits) {
    if (o && isOld(x) && (!rem)) { rem = x; continue; }
    if (v && isNew(x)) add = x;
  }
  if (o) {
    if (c.expect(rem && (rem.zero || rem.end === 'full'), fn, `the ${kind === 'class' ? 'tokens' : 'properties'} of the old value are not all visited`, p)) {
      note(rem); oldAt = rem.to;
      const nm = v ? add?.map : null;
      if (!rem.zero) c.expect(removed(rem) || (nm && mayKeep(rem, nm)) || (!nm && kind === 'style' && valueNullish(p, rem, rem.map) === true), fn, `a ${kind === 'class' ? 'token' : 'property'} of the old value may be left behind`, p);
    }
  }
  if (v) {
    if (c.expect(add && (add.zero || add.end === 'full'), fn, `the ${kind === 'class' ? 'tokens' : 'properties'} of the new value are not all visited`, p)) {
      note(add); newAt = add.from;
      const msg = add.zero ? null : set(add);
      c.expect(!msg, fn, msg ?? '', p);
    }
  }
  if (o && v) c.expect(oldAt <= newAt, fn, 'old values are removed after the new ones have been written', p);
  for (const e of list) c.expect(claims.has(e), e.node, `a ${kind} binding changes more than its own ${kind === 'class' ? 'tokens' : 'properties'}`, p);
}
const emptyMapsOf = (p, x) => p.events.slice(x.from, x.to + 1).filter((e) => e.t === 'call' && e.name === 'hasOwn').map((e) => p.st.canon(e.args[0])).filter((m) => emptyMap(p, m));

/** t is the css name of the key: hyphens before upper case letters and vendor prefixes. */
function cssName(c, p, v, t) {
  t = p.st.canon(t);
  const chain = [];
  while (t.k === 'r' && ['replace', 'replaceAll', 'toLowerCase'].includes(t.name)) { chain.unshift(t); t = p.st.canon(t.recv); }
  if (!isKey(p, v, t)) return false;
  if (!chain.length) return false;
  // fold the chain over all short names: decided on the literal patterns
  const steps = chain.map((r) => foldStep(c, p, r));
  if (steps.some((s) => !s)) { c.undecide('the computation of css property names cannot be folded'); return true; }
  const run = (s) => steps.reduce((x, f) => f(x), s);
  return NAMES.every(([a, b]) => run(a) === b);
}
const NAMES = (() => {
  const ref = (k) => k.replace(/^(webkit|moz|ms|o)(?=[A-Z])/, '-$1').replace(/[A-Z]/g, (x) => '-' + x.toLowerCase());
  const names = new Set();
  for (const ch of ALPHABET.slice(32, 127)) for (const s of ['', 'a', 'webkit', 'moz', 'ms', 'o', 'x-', '--']) { names.add(s + ch); names.add(s + ch + 'b'); names.add(s + ch + 'bC'); names.add('a' + s + ch); }
  return [...names].map((x) => [x, ref(x)]);
})();
function foldStep(c, p, r) {
  if (r.name === 'toLowerCase') return (s) => s.toLowerCase();
  const a0 = p.st.canon(r.args[0]), a1 = p.st.canon(r.args[1] ?? UNDEF);
  const re = a0.k === 'c' ? a0.v : patternOf(c, a0);
  if (!re) return null;
  if (a1.k === 'c') return (s) => s[r.name](re, a1.v);
  const node = a1.node;
  if (node && (ts.isArrowFunction(node) || ts.isFunctionExpression(node) || ts.isFunctionDeclaration(node))) {
    // only '-' + c.toLowerCase() and its template form are folded
    const body = ts.isBlock(node.body) ? node.body.statements.length === 1 && ts.isReturnStatement(node.body.statements[0]) ? node.body.statements[0].expression : null : node.body;
    const par = node.parameters[0]?.name.getText();
    const f = body && fold(body, par);
    return f ? (s) => s.replace(re, (x) => f(x)) : null;
  }
  return null;
}
function fold(n, par) {
  if (ts.isParenthesizedExpression(n)) return fold(n.expression, par);
  if (ts.isStringLiteralLike(n)) return () => n.text;
  if (ts.isIdentifier(n)) return n.text === par ? (x) => x : null;
  if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.PlusToken) { const a = fold(n.left, par), b = fold(n.right, par); return a && b ? (x) => a(x) + b(x) : null; }
  if (ts.isTemplateExpression(n)) { const parts = n.templateSpans.map((s) => [fold(s.expression, par), s.literal.text]); return parts.every(([f]) => f) ? (x) => n.head.text + parts.map(([f, t]) => f(x) + t).join('') : null; }
  if (ts.isCallExpression(n) && !n.arguments.length && ts.isPropertyAccessExpression(n.expression) && ['toLowerCase', 'toUpperCase'].includes(n.expression.name.text)) { const a = fold(n.expression.expression, par), m = n.expression.name.text; return a ? (x) => a(x)[m]() : null; }
  return null;
}

// ---- rules -----------------------------------------------------------------
export const rules = [
  {
    name: 'attribute',
    text: 'an attribute is removed for nullish values, toggled for booleans and set to the text of any other value, when it changed',
    run(c) {
      binding(c, 'AttributePart', {
        shows(p, o, v, fn, k) {
          const node = nodeOf(c, k, p.E), name = nameOf(c, k, p.E), list = host(p, node);
          if (!c.expect(list.length === 1 && list[0].t === 'call' && c.same(p, list[0].recv, node) && c.same(p, list[0].args[0], name), list[1]?.node ?? fn, 'an attribute binding does not change exactly its attribute once', p)) return;
          const [e] = list;
          const bool = p.st.decide(p.st.pMask(v, B)), nul = nullish(p, v), truth = boolArg(p, v);
          const off = e.name === 'removeAttribute' || (e.name === 'toggleAttribute' && e.args[1] && p.st.canon(e.args[1]) === FALSE);
          const on = (e.name === 'toggleAttribute' && e.args[1] && p.st.canon(e.args[1]) === TRUE) || (e.name === 'setAttribute' && p.st.canon(e.args[1]) === cst(''));
          const by = e.name === 'toggleAttribute' && e.args[1] && c.same(p, e.args[1], v);
          const ok = nul === true ? off : bool === true ? by || (truth === true && on) || (truth === false && off) : nul === false && bool === false ? e.name === 'setAttribute' && isText(c, p, e.args[1], v) : false;
          c.expect(ok, e.node, nul === true ? 'a nullish value does not remove the attribute' : bool === true ? 'a boolean value does not toggle the attribute' : 'the attribute is not set to the text of its value', p);
        },
      });
    },
  },
  {
    name: 'text',
    text: 'text bindings show the text of the value, when it changed',
    run(c) {
      for (const name of ['CharacterDataPart', 'ChildNodePart']) binding(c, name, {
        shows(p, o, v, fn, k) {
          const node = nodeOf(c, k, p.E), list = host(p, node);
          c.expect(list.length === 1 && list[0].t === 'write' && c.same(p, list[0].base, node) && ['data', 'nodeValue', 'textContent'].includes(list[0].name) && isText(c, p, list[0].value, v), list[0]?.node ?? fn, 'a text binding does not show the text of its value', p);
        },
      });
    },
  },
  {
    name: 'property',
    text: 'property bindings assign the value itself, when it changed',
    run(c) {
      binding(c, 'PropertyPart', {
        shows(p, o, v, fn, k) {
          const node = nodeOf(c, k, p.E), list = host(p, node);
          c.expect(list.length === 1 && list[0].t === 'write' && c.same(p, list[0].base, node) && list[0].key && c.same(p, list[0].key, nameOf(c, k, p.E)) && c.same(p, list[0].value, v), list[0]?.node ?? fn, 'a property binding does not assign its value to its property', p);
        },
      });
    },
  },
  {
    name: 'live',
    text: 'live bindings assign the new value on every commit unless the host already has it',
    run(c) {
      binding(c, 'LivePart', {
        always: true,
        shows(p, o, v, fn, k) {
          const node = nodeOf(c, k, p.E), list = host(p, node), name = nameOf(c, k, p.E);
          if (!list.length) {
            let known = false;
            for (const e of p.events) if (e.t === 'branch') T.contains(e.pred, (t) => { if ((t.k === 'f' || t.k === 'idx') && t.keyTerm && c.same(p, t.baseTerm, node) && c.same(p, t.keyTerm, name) && (p.st.decide(p.st.pEq(t, v)) === true || p.st.decide(p.st.pEq(t, v, 'is')) === true)) known = true; return false; });
            c.expect(known, fn, 'a live binding is not assigned although the host may have another value', p);
            return;
          }
          c.expect(list.length === 1 && list[0].t === 'write' && c.same(p, list[0].base, node) && list[0].key && c.same(p, list[0].key, name) && c.same(p, list[0].value, v), list[0].node, 'a live binding does not assign its value to its property', p);
          let differs = false;
          for (const e of p.events) if (e.t === 'branch') T.contains(e.pred, (t) => { if ((t.k === 'f' || t.k === 'idx') && t.keyTerm && c.same(p, t.baseTerm, node) && (p.st.decide(p.st.pEq(t, v)) === false || p.st.decide(p.st.pEq(t, v, 'is')) === false)) differs = true; return false; });
          c.expect(differs, list[0].node, 'a live binding is assigned although the host already has the value', p);
        },
      });
    },
  },
  {
    name: 'class',
    text: 'class bindings switch off every token of the old value that the new one does not have, then set each token of the new value as it says; a non-cascading unmount switches off all of its tokens',
    run(c) {
      const { k } = binding(c, 'ClassPart', { shows: (p, o, v, fn, k) => classShown(c, p, o, v, fn, k) });
      unmountUndone(c, k, (p, v, fn) => classShown(c, p, v, null, fn, k));
    },
  },
  {
    name: 'style',
    text: 'style bindings remove every property of the old value that the new one does not set, then set each non-nullish property of the new value under its css name; a non-cascading unmount removes all of its properties',
    run(c) {
      const { k } = binding(c, 'StylePart', { shows: (p, o, v, fn, k) => styleShown(c, p, o, v, fn, k) });
      unmountUndone(c, k, (p, v, fn) => styleShown(c, p, v, null, fn, k));
    },
  },
  {
    name: 'element',
    text: 'an element reference is called once with the node, its cleanup is kept and is run once, and forgotten first, before it is replaced or unmounted; anything else than a function or nullish is rejected before it is used',
    run(c) {
      const k = cls(c, 'ElementPart');
      const mount = meth(c, k, 'commitMount'), update = meth(c, k, 'commitUpdate'), unmount = meth(c, k, 'commitUnmount');
      const E = c.engine(), thisT = E.thisSym(k), node = fld(thisT, nodeField(c, k));
      const [v] = E.paramSyms(mount);
      const ps = c.paths(E, mount, { cls: k }).filter((p) => !p.st.infeasible());
      const refCalls = (p, v) => calls(p, (e) => (e.fn && c.same(p, e.fn, v)) || (e.recv && ['call', 'apply'].includes(e.name) && c.same(p, e.recv, v)));
      let C = null, n = 0;
      for (const p of ps) for (const e of refCalls(p, v)) for (const w of writes(p, (x) => x.base === thisT && x.name && c.same(p, x.value, e.res))) C ??= w.name;
      if (!C) throw new AnchorError('the cleanup of an element reference is not kept');
      const mounted = (p, v, fn, since = 0) => {
        const r = refCalls(p, v), nul = nullish(p, v), isFn = p.st.decide(p.st.pMask(v, F));
        if (p.kind === 'throw') { c.expect(!r.length && nul === false && isFn === false, fn, 'a valid element reference is rejected', p); return; }
        if (p.kind !== 'return') return;
        n++;
        if (nul === true) { c.expect(!r.length, fn, 'a nullish element reference is called', p); return; }
        c.expect(isFn === true, fn, 'an element reference that is no function is accepted', p);
        if (!c.expect(r.length === 1 && c.same(p, r[0].args[r[0].name === 'call' ? 1 : 0], node), r[1]?.node ?? fn, 'an element reference is not called exactly once with its node', p)) return;
        c.expect(c.same(p, c.get(p, thisT, C), r[0].res), r[0].node, 'the cleanup of an element reference is not kept', p);
      };
      for (const p of ps) mounted(p, v, mount);
      c.expect(n >= 2, mount, 'functions and nullish references are not told apart');
      const cleaned = (p, fn, before) => {
        const cur = fld(thisT, C), cs = calls(p, (e) => (e.fn && c.same(p, e.fn, cur)) || (e.recv && ['call', 'apply'].includes(e.name) && c.same(p, e.recv, cur)));
        if (nullish(p, cur) === true) { c.expect(!cs.length, fn, '', p); return; }
        if (!c.expect(cs.length === 1, cs[1]?.node ?? fn, 'the cleanup of an element reference is not run exactly once', p)) return;
        c.expect(writes(p, (w) => w.base === thisT && w.name === C && nullish(p, w.value) === true && idxOf(p, w) < idxOf(p, cs[0])).length > 0, cs[0].node, 'a cleanup of an element reference is run before it is forgotten', p);
        for (const e of before ?? []) c.expect(idxOf(p, cs[0]) < idxOf(p, e), e.node, 'a new element reference is called before the old one is cleaned up', p);
      };
      const Eu = c.engine(), [o, nv] = Eu.paramSyms(update);
      let m = 0;
      for (const p of c.paths(Eu, update, { cls: k })) {
        if (p.st.infeasible()) continue;
        const acts = calls(p, (e) => !e.builtin && (e.fn || e.recv)).filter((e) => (e.fn && (c.same(p, e.fn, nv) || c.same(p, e.fn, fld(thisT, C)))));
        const same = p.st.decide(p.st.pEq(o, nv)) ?? p.st.decide(p.st.pEq(o, nv, 'is'));
        if (same === true) { c.expect(!acts.length && !writes(p, (w) => w.base === thisT).length, update, 'an unchanged element reference is called or cleaned up again', p); continue; }
        c.expect(same === false, update, 'an element reference is replaced although it may be unchanged', p);
        m++;
        cleaned(p, update, refCalls(p, nv));
        mounted(p, nv, update);
        if (p.kind === 'return' && nullish(p, nv) === true && nullish(p, fld(thisT, C)) !== true) c.expect(nullish(p, c.get(p, thisT, C)) === true, update, 'a cleanup that has been run is kept', p);
      }
      c.expect(m > 0, update, 'an element reference is never replaced');
      for (const p of c.paths(c.engine(), unmount, { cls: k })) if (p.kind === 'return' && !p.st.infeasible()) cleaned(p, unmount, []);
    },
  },
];
function unmountUndone(c, k, check) {
  const fn = meth(c, k, 'commitUnmount'), E = c.engine(), [v, cascade] = E.paramSyms(fn);
  let n = 0;
  for (const p of c.paths(E, fn, { cls: k })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    if (boolArg(p, cascade) === true) continue;
    n++;
    check(p, v, fn);
  }
  c.expect(n > 0, fn, `${k.name.text} keeps its values on unmount`);
}
