// C37: any value can be rendered and maps to one element kind.
import { ts, T, cst, UNDEF, NULL, U, N, F, O, fld, calls, writes, ownFields, opaqueNames, isCall, componentClass, AnchorError, evalConst } from './_lib.mjs';
import { mapped } from './C19.mjs';

export const about = 'Every path of the function that makes an element of a value is checked against the kind of value known on it, and every constructor of elements against the type, the properties and the children it must give.';
export const assumptions = ['Values do not change while they are wrapped.'];

const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
/** The parts of an element made on p. */
function element(c, p, v) {
  v = p.st.canon(v ?? UNDEF);
  if (v.k !== 'o' || v.cls !== c.P.cls('VNode')) return null;
  return { v, type: c.get(p, v, 'type'), props: c.get(p, v, 'props'), children: c.get(p, v, 'children'), key: c.get(p, v, 'key') };
}
const wrapFn = (c) => c.P.fn('wrap');
const wrapped = (c, p) => (el, v) => { const fn = wrapFn(c); v = p.st.canon(v); return calls(p, (e) => e.target === fn || e.name === 'wrap').some((e) => same(p, e.res, v) && same(p, e.args[0], el)); };
/** The children of an element are those of list, each wrapped once, in order. */
function wrapsAll(c, p, children, list) { return mapped(p, children, list, wrapped(c, p)) || emptyOf(p, children, list); }
function emptyOf(p, a, list) { a = p.st.canon(a); const it = a.k === 'o' && p.st.heap.get(a.id + '#items'); return !!it?.exact && !it.list.length && p.events.some((e) => e.t === 'loopzero' && (!e.loop.over || same(p, e.loop.over, list))); }
function items(p, a) { a = p.st.canon(a); const it = a.k === 'o' ? p.st.heap.get(a.id + '#items') : null; return it?.exact ? it.list : null; }
const constant = (c, name) => { const E = c.engines[0] ?? c.engine(); return E.moduleVar(c.P.variable(name)); };

function wrapping(c) {
  const fn = wrapFn(c), E = c.engine({ opaque: (f) => f === fn }), [value] = E.paramSyms(fn);
  const bind = constant(c, 'Bind'), frag = constant(c, 'Fragment');
  const ps = c.paths(E, fn).filter((p) => p.kind !== 'cut' && !p.st.infeasible());
  const seen = { node: 0, own: 0, list: 0, bind: 0 };
  for (const p of ps) {
    if (p.kind !== 'return') { c.expect(calls(p).some((e) => p.value && e.thrown === p.value), fn, 'some value cannot be wrapped', p); continue; }
    const st = p.st;
    const isNode = st.decide(st.pMask(value, U | N)) === true ? false : st.decide(T.op('instanceof', st.canon(value), clsTerm(p, 'VNode'))) ?? (p.events.find((e) => e.t === 'branch' && e.pred.k === 'op' && e.pred.op === 'instanceof' && same(p, e.pred.args[0], value) && /VNode/.test(T.show(e.pred.args[1]))) ?? {}).val;
    const v = st.canon(p.value ?? UNDEF);
    const nullish = st.decide(st.pMask(value, U | N));
    const method = protocol(c, p, value, 'toElement');
    const bindable = nullish === true ? false : method.fn;
    const iter = nullish === true ? false : protocol(c, p, value, 'iterator').fn;
    const obj = nullish === true ? false : st.decide(st.pMask(value, O));
    const el = element(c, p, v);
    if (same(p, v, value)) { seen.node++; c.expect(isNode === true, fn, 'a value that is no element is used as one', p); continue; }
    if (!c.expect(isNode === false, fn, 'an element may be wrapped again', p)) continue;
    if (!el) {
      seen.own++;
      const e = calls(p, (e) => same(p, e.res, v))[0];
      c.expect(e && same(p, e.recv, value) && !e.args.length && e.fn && isProtocol(e.fn, 'toElement'), e?.node ?? fn, 'the result is not an element made for the value', p);
      c.expect(bindable === true, e?.node ?? fn, 'a value may be asked for an element it cannot give', p);
      continue;
    }
    c.expect(bindable === false, fn, 'a value that knows how to render itself is not asked to', p);
    c.expect(el.key === UNDEF, fn, 'a wrapped value is given a key', p);
    if (el.type === frag) {
      seen.list++;
      c.expect(iter === true && obj === true && nullish !== true, fn, 'a value that is not an iterable object becomes a list', p);
      c.expect(wrapsAll(c, p, el.children, value), fn, 'the items of a list are not wrapped once each, in order', p);
    } else {
      seen.bind++;
      c.expect(el.type === bind, fn, 'a value becomes neither a list nor a binding', p);
      c.expect(iter === false || obj === false, fn, 'an iterable object does not become a list', p);
      c.expect(same(p, c.get(p, el.props, 'value'), value) || (nullish === true && p.st.decide(p.st.pEq(c.get(p, el.props, 'value'), value)) === true), fn, 'a binding does not show the value', p);
      c.expect(items(p, el.children)?.length === 0, fn, 'a binding has children', p);
    }
  }
  c.expect(seen.node && seen.own && seen.list && seen.bind, fn, 'some kind of value is not told apart');
}
function clsTerm(p, name) { for (const e of p.events) if (e.t === 'branch') { let t = null; T.contains(e.pred, (x) => { if (x.k === 'cls' && x.node.name?.text === name) t = x; return false; }); if (t) return t; } return UNDEF; }
/** A member named by a symbol: value[toElement], value[Symbol.iterator]. */
function isProtocol(t, name) { return t.k === 'f' && t.keyTerm && (T.show(t.keyTerm).includes(name) || String(t.keyTerm.name ?? '').includes(name)); }
function protocol(c, p, value, name) {
  let hit = null;
  for (const e of p.events) if (e.t === 'branch') T.contains(e.pred, (t) => { if (t.k === 'f' && same(p, t.base, value) && isProtocol(t, name)) hit ??= t; return false; });
  if (!hit) for (const e of calls(p)) if (e.fn && e.fn.k === 'f' && same(p, e.fn.base, value) && isProtocol(e.fn, name)) hit ??= e.fn;
  return { term: hit, fn: hit ? p.st.decide(p.st.pMask(hit, F)) : undefined };
}

function constructors(c) {
  const bind = constant(c, 'Bind'), frag = constant(c, 'Fragment'), wrap = wrapFn(c);
  const spec = (name, check) => {
    const fn = c.P.fn(name), E = c.engine({ opaque: (f) => f === wrap }), params = E.paramSyms(fn);
    let n = 0;
    for (const p of c.paths(E, fn)) {
      if (p.kind === 'cut' || p.st.infeasible() || p.kind === 'throw') continue;
      n++;
      const el = element(c, p, p.value);
      if (!c.expect(el, fn, `${name} does not make a new element`, p)) continue;
      c.expect(el.key === UNDEF, fn, `${name} gives the element a key`, p);
      check(p, el, params, fn);
    }
    c.expect(n > 0, fn, `${name} makes no element`);
  };
  const noProps = (p, el, fn, name) => c.expect(el.props.k === 'o' && !Object.keys(ownFields(p, el.props)).length, fn, `${name} gives the element properties`, p);
  spec('createBind', (p, el, [v], fn) => {
    c.expect(el.type === bind && same(p, c.get(p, el.props, 'value'), v) && items(p, el.children)?.length === 0, fn, 'createBind does not make a binding of its value', p);
  });
  spec('createFragment', (p, el, [list], fn) => {
    c.expect(el.type === frag, fn, 'createFragment makes no list', p);
    c.expect(wrapsAll(c, p, el.children, list), fn, 'a list does not hold each item once, wrapped, in order', p);
    noProps(p, el, fn, 'createFragment');
  });
  spec('createPortal', (p, el, [child, container], fn) => {
    const ch = items(p, el.children);
    c.expect(same(p, el.type, container), fn, 'a portal does not render into its container', p);
    c.expect(ch?.length === 1 && wrapped(c, p)(child, ch[0]), fn, 'a portal does not hold its child, wrapped once', p);
    noProps(p, el, fn, 'createPortal');
  });
  const template = (name, mode) => spec(name, (p, el, params, fn) => {
    const [strings, rest] = mode ? [params[0], params[1]] : [params[1], params[2]], list = rest.k === 'spread' ? rest.of : rest;
    c.expect(same(p, el.type, strings), fn, `${name} does not use the strings given`, p);
    const m = c.get(p, el.props, 'mode');
    c.expect(mode ? m === cst(mode) : same(p, m, params[0]), fn, `${name} makes a template of another mode`, p);
    c.expect(wrapsAll(c, p, el.children, list), fn, 'a template does not hold each value once, wrapped, in order', p);
  });
  template('createTemplate', null);
  template('html', 'html'); template('svg', 'svg'); template('math', 'math'); template('text', 'textarea');
}
function components(c) {
  const fn = c.P.fn('createComponent'), E = c.engine();
  let n = 0;
  for (const p of c.paths(E, fn)) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const f = p.st.canon(p.value), props = T.sym('props'), key = p.st.canon(p.value);
    if (!c.expect(f.k === 'fn' || f.k === 'fd', fn, 'createComponent makes no component', p)) continue;
    for (const q of c.callPaths(p, f, [props], UNDEF)) {
      if (q.kind !== 'return') continue;
      n++;
      const el = element(c, q, q.value);
      if (!c.expect(el, fn, 'calling a component makes no new element', q)) continue;
      c.expect(same(q, el.type, f) && same(q, el.props, props) && items(q, el.children)?.length === 0 && el.key === UNDEF, f.node ?? fn, 'the element of a component has another type or other properties', q);
    }
  }
  c.expect(n > 0, fn, 'createComponent makes no component');
  // what a component returns may be any value
  const k = componentClass(c.P), render = c.P.method(k, 'render'), wrap = wrapFn(c), E2 = c.engine({ opaque: (f) => f === wrap });
  let r = 0;
  for (const p of c.paths(E2, render, { cls: k })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    r++;
    const w = calls(p, (e) => e.target === wrap || e.name === 'wrap');
    const user = w.length === 1 ? calls(p, (e) => same(p, e.res, w[0].args[0])) : [];
    c.expect(w.length === 1 && same(p, p.value, w[0].res), w[0]?.node ?? render, 'the result of a component is not wrapped once', p);
    c.expect(user.length === 1 && user[0].fn, w[0]?.node ?? render, 'what is wrapped is not the result of the component', p);
  }
  c.expect(r > 0, render, 'rendering a component has no complete path');
}
function keys(c) {
  const k = c.P.cls('VNode'), fn = c.P.method(k, 'withKey'), E = c.engine(), [key] = E.paramSyms(fn), thisT = E.thisSym(k);
  let n = 0;
  for (const p of c.paths(E, fn, { cls: k })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    n++;
    const el = element(c, p, p.value);
    if (!c.expect(el, fn, 'changing the key makes no new element', p)) continue;
    c.expect(same(p, el.key, key), fn, 'the element does not get the key', p);
    for (const f of ['type', 'props', 'children']) c.expect(same(p, el[f], fld(thisT, f)), fn, `changing the key changes the ${f} of the element`, p);
    c.expect(!writes(p, (e) => same(p, e.base, thisT)).length, fn, 'changing the key changes the original element', p);
  }
  c.expect(n > 0, fn, 'an element cannot be given a key');
}
export const rules = [
  { name: 'wrapping', text: 'an element is itself, a value that renders itself is asked, an iterable object becomes a list of its wrapped items, anything else a binding of the value', run: wrapping },
  { name: 'constructors', text: 'each constructor makes a new element of its type with each child wrapped once, in order', run: constructors },
  { name: 'components', text: 'calling a component makes an element of it with the given props, and what it returns is wrapped once', run: components },
  { name: 'keys', text: 'changing the key makes a new element that differs in nothing else', run: keys },
];
