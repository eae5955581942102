// C35: the template minifier only rewrites the listed templates.
import path from 'node:path';
import { Project, REPO } from '../lib/project.mjs';
import { ts, T, cst, UNDEF, NULL, O, fld, calls, writes, covers, loopsOf, isCall, AnchorError } from './_lib.mjs';
import { isFn } from '../lib/flow.mjs';

export const technique = 'path analysis of the transformation and of its walk over the syntax tree, and language inclusion of its regular expressions';
export const about = 'The program under tools/esbuild-plugin-minify-templates/src is analysed. Every write into the syntax tree is traced to a text of a collected template and to the replacements that compute it; the condition under which a template is collected, the completeness of the walk, and what the plugin returns are decided on every path. The regular expressions are compared, as automata, with line breaks followed by white space.';
export const extra = 'tools/esbuild-plugin-minify-templates/src';
export const assumptions = ['The parser and printer of swc keep the meaning of a program; printing a tree changes nothing but its layout.', 'Syntax trees have no cycles and keep nodes in enumerable properties.'];

const ROOT = path.join(REPO, 'tools/esbuild-plugin-minify-templates/src');
let P2;
function setup(c) {
  if (c._c35) return c._c35;
  if (!P2) { P2 = new Project(ROOT); P2.rel = (node) => path.relative(REPO, node.getSourceFile().fileName); }
  c.P = P2;
  const top = P2.functions.find((f) => ts.isFunctionDeclaration(f) && f.name?.text === 'transformTemplates');
  const plugin = P2.functions.find((f) => ts.isFunctionDeclaration(f) && f.name?.text === 'minifyTemplates');
  if (!plugin) throw new AnchorError('minifyTemplates was not found');
  // functions that can reach themselves walk the tree
  const callees = new Map();
  for (const f of P2.functions) {
    const s = new Set();
    const visit = (n) => {
      if (ts.isIdentifier(n)) for (const d of P2.symbolOf(n)?.declarations ?? []) { const t = ts.isVariableDeclaration(d) ? d.initializer : d; if (t && isFn(t) && t.body && P2.functions.includes(t) && d.name !== n) s.add(t); }
      n.forEachChild(visit);
    };
    visit(f.body);
    callees.set(f, s);
  }
  const reach = (f) => { const s = new Set(), go = (x) => { for (const y of callees.get(x) ?? []) if (!s.has(y)) { s.add(y); go(y); } }; go(f); return s; };
  const recursive = P2.functions.filter((f) => reach(f).has(f));
  const within = (f) => { for (let n = f.parent; n; n = n.parent) if (recursive.includes(n)) return true; return false; };
  const walkers = recursive.filter((f) => !within(f));
  return (c._c35 = { top: top ?? null, plugin, walkers, reach, callees });
}
const opaqueWalk = (R) => (fn) => R.walkers.includes(fn);
const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
const isCallTo = (e, name) => e.name === name || e.name === name + 'Sync';
/** Paths of the transformation and of the walks. */
function paths(c) {
  const R = setup(c);
  if (R.paths) return R.paths;
  if (!R.top) throw new AnchorError('transformTemplates was not found');
  const E = c.engine({ escape: true, havoc: () => false, inlineAsync: true, opaque: opaqueWalk(R) });
  const [input, loader, names] = E.paramSyms(R.top);
  const tops = c.paths(E, R.top).filter((p) => !p.st.infeasible());
  const walks = R.walkers.map((fn) => {
    const W = c.engine({ escape: true, havoc: () => false, opaque: opaqueWalk(R) });
    return { fn, params: W.paramSyms(fn), ps: c.paths(W, fn).filter((p) => !p.st.infeasible()) };
  });
  if (tops.some((p) => p.kind === 'cut') || walks.some((w) => w.ps.some((p) => p.kind === 'cut'))) c.undecide('a path of the transformation was not followed to its end');
  return (R.paths = { R, E, input, loader, names, tops, walks });
}
/** Is the base of this term the list of collected templates, and which variable is it? */
const MUT = new Set(['push', 'pop', 'shift', 'unshift', 'splice', 'sort', 'reverse', 'fill', 'copyWithin']);

// ---- regular expressions ------------------------------------------------
function parse(src) {
  let i = 0;
  const fail = (m) => { throw new Error(m); };
  const CL = ['\r', '\n', ' ', '<', '>', 'x'];
  const setOf = (f) => new Set(CL.filter(f));
  const esc = () => {
    const ch = src[i++];
    switch (ch) {
      case 'n': return new Set(['\n']);
      case 'r': return new Set(['\r']);
      case 's': return setOf((x) => x === '\r' || x === '\n' || x === ' ');
      case 'S': return setOf((x) => !(x === '\r' || x === '\n' || x === ' '));
      case 't': case 'f': case 'v': return new Set([' ']);
      case 'd': case 'w': return new Set(['x']);
      case 'D': case 'W': return new Set(CL);
      case 'b': case 'B': return 'zero';
      default: if (/[a-z0-9]/i.test(ch)) fail('escape ' + ch); return one(ch);
    }
  };
  const one = (ch) => (CL.includes(ch) && ch !== 'x' ? new Set([ch]) : /\s/.test(ch) ? new Set([' ']) : new Set(['x']));
  function alt() {
    const parts = [seq()];
    while (src[i] === '|') { i++; parts.push(seq()); }
    return parts.length === 1 ? parts[0] : { t: 'alt', parts };
  }
  function seq() {
    const items = [];
    while (i < src.length && src[i] !== '|' && src[i] !== ')') {
      let a = atom();
      for (;;) {
        let lo, hi;
        if (src[i] === '*') { lo = 0; hi = Infinity; i++; } else if (src[i] === '+') { lo = 1; hi = Infinity; i++; } else if (src[i] === '?') { lo = 0; hi = 1; i++; } else {
          const m = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(i));
          if (!m) break;
          lo = +m[1]; hi = m[2] ? (m[3] ? +m[3] : Infinity) : lo; i += m[0].length;
        }
        if (src[i] === '?') i++;
        a = { t: 'rep', a, lo, hi };
      }
      items.push(a);
    }
    return { t: 'seq', items };
  }
  function atom() {
    const ch = src[i++];
    if (ch === '(') {
      let m, t = 'group';
      if ((m = /^\?(<?[=!])/.exec(src.slice(i)))) { t = m[1]; i += m[0].length; } else if ((m = /^\?(:|<\w+>)/.exec(src.slice(i)))) i += m[0].length; else if (src[i] === '?') fail('group');
      const a = alt();
      if (src[i++] !== ')') fail('unbalanced');
      return t === 'group' ? a : { t: 'look', how: t, a };
    }
    if (ch === '[') {
      const neg = src[i] === '^';
      if (neg) i++;
      const s = new Set(), singles = [];
      while (src[i] !== ']') {
        if (i >= src.length) fail('class');
        const c0 = src[i++];
        const x = c0 === '\\' ? esc() : one(c0);
        if (x === 'zero') fail('class');
        if (src[i] === '-' && src[i + 1] !== ']') { i++; const c1 = src[i++]; if (c0 === '\\' || c1 === '\\') fail('range'); for (const k of CL) if (k !== 'x' && k >= c0 && k <= c1) s.add(k); s.add('x'); continue; }
        for (const k of x) s.add(k);
        singles.push(c0);
      }
      i++;
      if (!neg) return { t: 'set', s };
      // an excluded class leaves out only whole classes
      const out = new Set(CL.filter((k) => !s.has(k)));
      out.add('x');
      return { t: 'set', s: out };
    }
    if (ch === '.') return { t: 'set', s: setOf((x) => x !== '\r' && x !== '\n') };
    if (ch === '^' || ch === '$') return { t: 'seq', items: [] };
    if (ch === '\\') { const x = esc(); return x === 'zero' ? { t: 'seq', items: [] } : { t: 'set', s: x }; }
    return { t: 'set', s: one(ch) };
  }
  const a = alt();
  if (i < src.length) fail('rest');
  return a;
}
/** The states that the matcher of `(\r\n?|\n)\s*` (-1: failed) may be in after a text of `a`, from state q. Zero-width conditions are ignored, which only adds texts. */
function step(a, qs) {
  switch (a.t) {
    case 'set': { const out = new Set(); for (const q of qs) for (const k of a.s) out.add(next(q, k)); return out; }
    case 'seq': { for (const x of a.items) qs = step(x, qs); return qs; }
    case 'alt': { const out = new Set(); for (const x of a.parts) for (const q of step(x, qs)) out.add(q); return out; }
    case 'rep': {
      const out = new Set();
      let cur = qs;
      for (let n = 0; ; n++) {
        if (n >= a.lo) { const before = out.size; for (const q of cur) out.add(q); if (n > a.lo && out.size === before) break; }
        if (n >= a.hi) break;
        cur = step(a.a, cur);
      }
      return out;
    }
    default: return qs;
  }
}
function next(q, k) {
  if (q === -1) return -1;
  if (q === 0) return k === '\r' || k === '\n' ? 1 : -1;
  return k === '\r' || k === '\n' || k === ' ' ? 1 : -1;
}
/** Does every match touch a bracket that a lookaround asks for, or contain one? */
function bracket(a) {
  const only = (x) => { const f = firsts(x); return f && f.every((k) => k === '<' || k === '>'); };
  const firsts = (x) => { switch (x.t) { case 'set': return [...x.s]; case 'alt': { const r = x.parts.map(firsts); return r.some((y) => !y) ? null : r.flat(); } case 'seq': return x.items.length === 1 ? firsts(x.items[0]) : null; default: return null; } };
  if (a.t === 'alt') return a.parts.every(bracket);
  if (a.t !== 'seq') return false;
  const it = a.items, f = it[0], l = it.at(-1);
  if (it.length === 1 && f.t !== 'look') return f.t === 'alt' || f.t === 'seq' ? bracket(f) : false;
  return (f?.t === 'look' && f.how === '<=' && only(f.a)) || (l?.t === 'look' && l.how === '=' && only(l.a)) || it.some((x) => (x.t === 'alt' && bracket2(x)));
  function bracket2(x) { return x.parts.every((y) => y.t === 'seq' && y.items.length === 1 && y.items[0].t === 'look' && ((x === f && y.items[0].how === '<=') || (x === l && y.items[0].how === '=')) && only(y.items[0].a)); }
}
function regexOf(c, t) {
  if (t.regex) return t.regex;
  if (t.k === 's' && /^mod:/.test(t.name)) {
    const name = t.name.replace(/@.*/, '').slice(4);
    for (const f of c.P.files) for (const s of f.statements) if (ts.isVariableStatement(s) && s.declarationList.flags & ts.NodeFlags.Const) for (const d of s.declarationList.declarations) if (ts.isIdentifier(d.name) && d.name.text === name && d.initializer && ts.isRegularExpressionLiteral(d.initializer)) return d.initializer.text;
  }
  return null;
}

// ---- rules --------------------------------------------------------------
/** The replacements that lead from `from` to v: [pattern, text] in order, or null. */
function chain(p, v, isFrom) {
  const out = [];
  v = p.st.canon(v);
  for (let n = 0; n < 20; n++) {
    if (isFrom(v)) return out.reverse();
    if (v.k !== 'r' || !['replace', 'replaceAll'].includes(v.name) || (v.args ?? []).length !== 2) return null;
    out.push([p.st.canon(v.args[0]), p.st.canon(v.args[1])]);
    v = p.st.canon(v.recv);
  }
  return null;
}
/** Template whose quasi t is: t must be X.template.quasis[i]. */
function templateOf(p, t) {
  t = p.st.canon(t);
  if (t.k !== 'idx') return null;
  const q = p.st.canon(t.arr);
  if (q.k !== 'f' || q.name !== 'quasis') return null;
  const m = p.st.canon(q.base);
  return m.k === 'f' && m.name === 'template' ? p.st.canon(m.base) : null;
}
/** Is node known, on this path, to be a template with a listed tag? */
function listed(c, p, node, names) {
  const eq = (t, v) => p.st.decide(p.st.pEq(t, cst(v))) === true;
  if (!eq(c.get(p, node, 'type'), 'TaggedTemplateExpression')) return 'it need not be a tagged template';
  const tag = c.get(p, node, 'tag');
  for (const e of p.events) {
    let arg = null;
    if (e.t === 'call' && (e.name === 'includes' || e.name === 'has') && same(p, e.recv, names) && p.st.decide(p.st.pTruthy(e.res)) === true) arg = e.args[0];
    else if (e.t === 'call' && e.name === 'indexOf' && same(p, e.recv, names) && (p.st.decide(p.st.pLe(e.res, -1)) === false || p.st.decide(p.st.pEq(e.res, cst(-1))) === false)) arg = e.args[0];
    if (!arg) continue;
    arg = p.st.canon(arg);
    if (arg.k === 'c' && arg.v === '') return null; // no tag is named so
    if (arg.k !== 'f' || arg.name !== 'value') continue;
    const id = p.st.canon(arg.base);
    if (id === p.st.canon(tag) && eq(c.get(p, id, 'type'), 'Identifier')) return null;
    if (id.k === 'f' && id.name === 'property' && p.st.canon(id.base) === p.st.canon(tag) && eq(c.get(p, tag, 'type'), 'MemberExpression') && eq(c.get(p, id, 'type'), 'Identifier')) return null;
  }
  return 'its tag need not be among the configured names';
}
/** Parameters that always receive the list of names, and those that receive the list of templates. */
function roles(c) {
  const { R, names, tops, walks } = paths(c);
  if (R.roles) return R.roles;
  const nameParams = new Set([names]), lists = new Set();
  const got = new Map();
  const note = (p, e) => { const w = walks.find((x) => x.fn === e.target); if (w) e.args.forEach((a, i) => { if (w.params[i]) { const s = got.get(w.params[i]) ?? []; s.push([p, p.st.canon(a)]); got.set(w.params[i], s); } }); };
  for (const p of tops) for (const e of p.events) if (e.t === 'call') note(p, e);
  for (const w of walks) for (const p of w.ps) for (const e of p.events) if (e.t === 'call') note(p, e);
  for (let again = true; again;) {
    again = false;
    for (const [s, vs] of got) {
      if (!nameParams.has(s) && vs.some(([p, v]) => nameParams.has(v)) && vs.every(([p, v]) => nameParams.has(v) || v === s)) { nameParams.add(s); again = true; }
      if (!lists.has(s) && vs.some(([, v]) => (v.k === 'o' && v.kind === 'array') || lists.has(v)) && vs.every(([, v]) => (v.k === 'o' && v.kind === 'array') || lists.has(v) || v === s)) { lists.add(s); again = true; }
    }
  }
  return (R.roles = { nameParams, lists });
}
function allPaths(c) { const { tops, walks, R } = paths(c); return [...tops.map((p) => ({ p, fn: R.top, walk: null })), ...walks.flatMap((w) => w.ps.map((p) => ({ p, fn: w.fn, walk: w })))]; }
const isFresh = (v) => v.k === 'o';
function collecting(c) {
  const { nameParams, lists } = roles(c);
  let n = 0;
  for (const { p } of allPaths(c)) {
    for (const e of calls(p, (x) => x.name === 'push' || x.name === 'unshift')) {
      const list = p.st.canon(e.recv);
      if (!lists.has(list) && !isFresh(list)) continue;
      for (const a of e.args) {
        const v = p.st.canon(a);
        const why = [...nameParams].map((nm) => listed(c, p, v, nm));
        if (lists.has(list) || templatesOnly(c, p, list)) { n++; c.expect(why.some((w) => w === null), e.node, `a template is collected though ${why[0]}`, p); }
      }
    }
  }
  if (!n && !direct(c)) c.undecide('how templates are collected was not recognised');
}
/** Is this fresh list one whose elements get rewritten? */
function templatesOnly(c, p, list) { return p.events.some((e) => { if (e.t !== 'write') return false; const t = templateOf(p, e.base); return t?.k === 'idx' && p.st.canon(t.arr) === list; }); }
/** Templates rewritten where they are found. */
function direct(c) { return allPaths(c).some(({ p, walk }) => walk && p.events.some((e) => e.t === 'write' && templateOf(p, e.base))); }
function writing(c) {
  const { nameParams, lists } = roles(c);
  let n = 0;
  for (const { p, walk } of allPaths(c)) for (const e of p.events) {
    if (e.t === 'call' && MUT.has(e.name) && !e.pure && e.decl?.startsWith('Array.')) {
      const b = p.st.canon(e.recv);
      if (!isFresh(b) && !lists.has(b)) c.fail(e.node, 'a list of the syntax tree is changed', p);
      continue;
    }
    if (e.t === 'delete' && !isFresh(p.st.canon(e.base))) { c.fail(e.node, 'a property of the syntax tree is deleted', p); continue; }
    if (e.t !== 'write') continue;
    const b = p.st.canon(e.base);
    if (isFresh(b)) continue;
    n++;
    if (!c.expect(e.name === 'raw', e.node, `a property other than the text of a template is changed (${String(e.name ?? 'computed')})`, p)) continue;
    const t = templateOf(p, b);
    if (!t && T.contains(b, (x) => x.k === 'r' && x.name !== 'keys' && x.label !== 'awaited' || (x.k === 'o' && (x.kind !== 'array' || p.st.canon(b.arr ?? UNDEF) === x)))) { c.undecide('which text is changed was not recognised'); continue; }
    if (!c.expect(!!t, e.node, 'the text that is changed does not belong to a template', p)) continue;
    const list = t.k === 'idx' ? p.st.canon(t.arr) : null;
    const ok = list && (isFresh(list) || lists.has(list)) ? true : [...nameParams].some((nm) => listed(c, p, t, nm) === null);
    c.expect(ok, e.node, 'the template that is changed was not collected', p);
    const steps = chain(p, e.value, (v) => v.k === 'f' && v.name === 'raw' && p.st.canon(v.base) === b);
    if (!steps) {
      const from = T.contains(p.st.canon(e.value), (v) => v.k === 'f' && v.name === 'raw' && p.st.canon(v.base) === b);
      const v = p.st.canon(e.value);
      if (!from) c.fail(e.node, 'the text of a template is replaced by one not computed from it', p);
      else if (v.k === 'r' && ['trim', 'trimStart', 'trimEnd', 'toLowerCase', 'toUpperCase', 'slice', 'substring', 'normalize'].includes(v.name)) c.fail(e.node, `the text of a template is changed by ${v.name}`, p);
      else c.undecide('how the text of a template is computed was not recognised');
      continue;
    }
    c._c35.replaced = (c._c35.replaced ?? 0) + 1;
    let between = false;
    for (const [pat, text] of steps) {
      const re = regexOf(c, pat);
      if (text.k !== 'c' || typeof text.v !== 'string') { c.undecide('a replacement is not a constant text'); continue; }
      let tree = null;
      if (re) { const m = /^\/(.*)\/([a-z]*)$/s.exec(re); try { tree = /[uv]/.test(m[2]) ? null : parse(m[1]); } catch { tree = null; } } else if (pat.k === 'c' && typeof pat.v === 'string') tree = { t: 'seq', items: [...pat.v].map((ch) => ({ t: 'set', s: new Set([['\r', '\n', '<', '>'].includes(ch) ? ch : /\s/.test(ch) ? ' ' : 'x']) })) };
      if (!tree) { c.undecide('a pattern was not recognised'); continue; }
      const end = step(tree, new Set([0]));
      c.expect(!end.has(-1), e.node, `${re ?? JSON.stringify(pat.v)} matches more than a line break with its indentation`, p);
      c.expect(!end.has(0), e.node, `${re ?? JSON.stringify(pat.v)} matches where there is no line break`, p);
      c.expect(text.v === ' ' || text.v === '' || /^\r?\n$/.test(text.v), e.node, `line breaks are replaced by ${JSON.stringify(text.v)}`, p);
      if (text.v === '') c.expect(bracket(tree), e.node, `${re ?? JSON.stringify(pat.v)} drops line breaks that separate words`, p);
    }
  }
  if (!n) c.fail(setup(c).top, 'no template is ever minified');
}
/** Keys of tree nodes that hold no nodes with expressions. */
const PLAIN = new Set(['span', 'type', 'ctxt', 'raw', 'cooked', 'start', 'end', 'kind', 'operator', 'loc', 'range']);
function walking(c) {
  const { walks, tops } = paths(c);
  if (!walks.length) { c.undecide('the walk over the syntax tree is not recursive'); return; }
  const rec = (e) => walks.some((w) => w.fn === e.target || w.fn === e.fn?.node);
  for (const w of walks) {
    const nodeParam = w.params[0];
    for (const p of w.ps) {
      if (p.kind !== 'return') continue;
      const isArr = p.st.decide(p.st.pTruthy(T.op('isArray', nodeParam)));
      const s = p.st.clone();
      if (!s.assume(s.pMask(nodeParam, O), true)) { c.expect(true, w.fn, '', p); continue; }
      const ls = loopsOf(p), zero = p.events.filter((e) => e.t === 'loopzero').map((e) => e.loop);
      const keysOf = (a) => { a = p.st.canon(a); return a.k === 'r' && ((['keys', 'ownKeys', 'getOwnPropertyNames', 'values', 'entries'].includes(a.name) && p.st.canon(a.args?.[0] ?? UNDEF) === p.st.canon(nodeParam)) || (a.name === 'forin' && p.st.canon(a.recv) === p.st.canon(nodeParam))) ? a : null; };
      const lists = p.events.filter((e) => e.t === 'call' && e.res && keysOf(e.res)).map((e) => e.res);
      // what a loop runs over: the node itself, or a list of its properties
      const ranOver = (l, zero) => (l.over ? (keysOf(l.over) || p.st.canon(l.over) === p.st.canon(nodeParam) ? p.st.canon(l.over) : null) : [...lists, nodeParam].find((a) => covers(l, a, p, { zero })) ?? null);
      const outer = ls.find((x) => ranOver(x.loop, false));
      if (!outer) {
        const z = zero.find((l) => ranOver(l, true));
        if (z) { c.expect(true, w.fn, '', p); continue; }
        // no loop at all over this object
        const any = ls.length || zero.length;
        const part = [...ls.map((x) => x.loop), ...zero].find((l) => !l.over && lists.some((a) => startsLate(p, l, a)));
        if (part) c.fail(part.node, 'not every property of a node is searched for templates', p);
        else if (any) c.undecide('how the properties of a node are visited was not recognised');
        else if (!p.events.some((e) => e.t === 'call' && !e.pure && rec(e))) c.expect(false, w.fn, 'a node is not searched for templates', p);
        continue;
      }
      if (!c.expect(outer.end === 'full', outer.loop.node, 'the walk over a node ends early', p)) continue;
      const src = keysOf(ranOver(outer.loop, false));
      const child = (t) => child0(t) || child0(p.st.canon(t)), child0 = (t) => {
        if (!src) return t.k === 'idx' && p.st.canon(t.arr) === p.st.canon(nodeParam);
        if (src.name === 'values') return t.k === 'idx' && p.st.canon(t.arr) === src;
        if (src.name === 'entries') { const e = t.k === 'idx' ? p.st.canon(t.arr) : null; return !!e && e.k === 'idx' && p.st.canon(e.arr) === src && p.st.canon(t.i) === cst(1); }
        return (t.k === 'f' || t.k === 'idx') && p.st.canon(t.k === 'f' ? t.base : t.arr) === p.st.canon(nodeParam) && !!(t.k === 'f' ? t.keyTerm : t.i) && T.contains(p.st.canon(t.k === 'f' ? t.keyTerm : t.i), (x) => x.k === 'idx' && p.st.canon(x.arr) === src);
      };
      const childOf = (t) => { t = p.st.canon(t); if (child(t)) return 'self'; return t.k === 'idx' && child(t.arr) ? 'item' : null; };
      // keys that are left out by name
      const keyName = [...PLAIN].find((k) => p.events.some((e) => e.t === 'branch' && e.loops?.length !== 0 && p.st.decide(p.st.pEq(T.idx(src ?? UNDEF, outer.loop.index ?? UNDEF), cst(k))) === true)) ?? plainKey(p, src, outer, child);
      if (keyName) { c.expect(true, outer.loop.node, '', p); continue; }
      const val = valueTerm(p, child);
      const inner = ls.filter((x) => x !== outer && (x.loop.over ? child(x.loop.over) : val && covers(x.loop, val, p))), innerZero = zero.find((l) => (l.over ? child(l.over) : val && covers(l, val, p, { zero: true })));
      const visits = p.events.filter((e) => e.t === 'call' && rec(e)).map((e) => ({ e, how: e.args.map(childOf).find(Boolean) }));
      if (visits.some((v) => v.how === 'self')) { c.expect(true, outer.loop.node, '', p); continue; }
      if (innerZero) { c.expect(true, outer.loop.node, '', p); continue; }
      const it = visits.find((v) => v.how === 'item');
      if (it && !inner.length && it.e.args.some((a) => { a = p.st.canon(a); return a.k === 'idx' && child(a.arr) && p.st.canon(a.i).k === 'c'; })) { c.fail(it.e.node, 'not every item of a list is searched for templates', p); continue; }
      if (it && inner.length) { c.expect(inner.every((x) => x.end === 'full'), it.e.node, 'the walk over a list ends early', p); continue; }
      // values that hold no node
      if (val) { const s2 = p.st.clone(); if (!s2.assume(s2.pMask(s2.canon(val), O), true) || p.st.decide(p.st.pMask(p.st.canon(val), O)) === false) { c.expect(true, outer.loop.node, '', p); continue; } }
      if (visits.length) { c.undecide('which value of a node is visited was not recognised'); continue; }
      c.expect(false, outer.loop.node, 'a property of a node is not searched for templates', p);
    }
  }
  // the walk starts at everything the parser gives
  for (const p of tops) {
    const parsed = parsedOf(p);
    if (!parsed) continue;
    const started = p.events.filter((e) => e.t === 'call' && rec(e));
    const ok = started.length ? started.every((e) => startsAt(p, e, parsed)) : p.events.some((e) => e.t === 'loopzero' && (e.loop.over ? bodyOf(p, e.loop.over, parsed) : bodiesIn(p, e.loop.cond, parsed).some((b) => covers(e.loop, b, p, { zero: true }))));
    c.expect(ok, started[0]?.node ?? p.fn, 'the walk does not start at the whole module', p);
  }
}
function plainKey(p, src, outer) {
  for (const e of p.events) if (e.t === 'branch' && e.val === true) {
    let hit = null;
    T.contains(e.pred, (x) => { if (x.k === 'c' && PLAIN.has(x.v)) hit = x; return false; });
    if (hit && src && T.contains(e.pred, (x) => x === src || (x.k === 'idx' && p.st.canon(x.arr) === src))) return hit.v;
  }
  // a set or list of names
  for (const e of p.events) if (e.t === 'call' && ['has', 'includes'].includes(e.name) && e.args[0] && src && T.contains(e.args[0], (x) => x.k === 'idx' && p.st.canon(x.arr) === src) && p.st.decide(p.st.pTruthy(e.res)) === true) return 'listed';
  return null;
}
function valueTerm(p, child) { for (const e of p.events) { let hit = null; const look = (t) => t && T.contains(t, (x) => { if (child(x)) hit = x; return false; }); if (e.t === 'branch') look(e.pred); if (e.t === 'call') (e.args ?? []).forEach(look); if (hit) return hit; } return null; }
/** What awaiting the parser gave on this path. */
function parsedOf(p) {
  const e = p.events.find((x) => x.t === 'call' && isCallTo(x, 'parse'));
  if (!e) return null;
  return { e, is: (t) => { t = p.st.canon(t); if (t === p.st.canon(e.res)) return true; return t.k === 'r' && t.label === 'awaited' && p.st.canon(t.of) === p.st.canon(e.res); } };
}
/** Does this loop count upwards through a list from a place after its start? */
function startsLate(p, loop, arr) {
  const len = p.E.lengthTerm(arr, p.st);
  return !!loop.cond && [...(loop.carried?.values() ?? [])].some((x) => { const i = x.cell && p.st.canon(x.init); return i && i.k === 'c' && i.v > 0 && x.nexts?.length > 0 && x.nexts.every((n) => T.linSum(n, x.hv, -1) === cst(1)) && T.show(p.st.pLt(x.hv, len)) === T.show(loop.cond); });
}
/** The bodies of the parsed module a condition speaks of. */
function bodiesIn(p, cond, parsed) { const out = []; if (cond) T.contains(cond, (x) => { if (bodyOf(p, x, parsed)) out.push(x); return false; }); return out; }
const bodyOf = (p, t, parsed) => { t = t && p.st.canon(t); return !!t && t.k === 'f' && t.name === 'body' && parsed.is(t.base); };
function startsAt(p, e, parsed) {
  const a = p.st.canon(e.args[0] ?? UNDEF);
  if (parsed.is(a) || bodyOf(p, a, parsed)) return true;
  if (a.k === 'idx' && bodyOf(p, a.arr, parsed)) { const l = loopsOf(p).find((x) => e.loops?.includes(x.loop)); return !!l && l.end === 'full' && covers(l.loop, a.arr, p); }
  return false;
}
function result(c) {
  const { tops, input, R } = paths(c);
  let plain = 0, printed = 0;
  for (const p of tops) {
    if (p.kind !== 'return') continue;
    let v = p.st.canon(p.value);
    while (v.k === 'r' && v.inner !== undefined) v = p.st.canon(v.inner);
    const touched = writes(p, (e) => !isFresh(p.st.canon(e.base))).length > 0;
    if (v === p.st.canon(input)) { plain++; c.expect(!touched, p.ret?.node ?? R.top, 'a module is minified, but what is returned is its original text', p); continue; }
    const print = p.events.findLast((e) => e.t === 'call' && isCallTo(e, 'print'));
    const parsed = parsedOf(p);
    const isOut = (t) => { t = p.st.canon(t); return !!print && (t === p.st.canon(print.res) || (t.k === 'r' && t.label === 'awaited' && p.st.canon(t.of) === p.st.canon(print.res))); };
    if (!print || v.k !== 'f' || v.name !== 'code' || !isOut(v.base)) {
      if (print || p.events.some((e) => e.t === 'call' && ['transform', 'minify'].includes(e.name))) c.fail(R.top, 'what is returned is not the printed module', p);
      else if (v.k === 'c') c.fail(R.top, 'what is returned is neither the input nor the printed module', p);
      else c.undecide('what the transformation returns was not recognised');
      continue;
    }
    printed++;
    c.expect(parsed && parsed.is(print.args[0] ?? UNDEF) && same(p, parsed.e.args[0], input), print.node, 'what is printed is not the syntax tree of the input', p);
    const opts = print.args[1];
    if (opts) { const mini = c.get(p, opts, 'minify'); c.expect(mini.k === 'c' && !mini.v, print.node, 'printing minifies the whole module', p); }
    // only if something was collected
    const found = new Set();
    for (const e of p.events) if (e.t === 'call' && R.walkers.includes(e.target)) { found.add(p.st.canon(e.res)); for (const a of e.args) if (p.st.canon(a).k === 'o') found.add(p.st.canon(a)); }
    for (let again = true; again;) { again = false; for (const e of p.events) if (e.t === 'call' && e.pure && !found.has(e.res) && [e.recv, ...(e.args ?? [])].some((a) => a && T.contains(p.st.canon(a), (x) => found.has(x)))) { found.add(e.res); again = true; } }
    const asked = (q) => T.contains(q, (x) => found.has(x) || (x.k === 'f' && found.has(p.st.canon(x.base))));
    const empty = touched || !found.size || p.events.some((e) => e.t === 'branch' && e.pred && asked(e.pred)) || [...found].some((a) => a.k === 'o' && p.st.decide(p.st.pEq(p.E.lengthTerm(a, p.st), cst(0))) === false);
    c.expect(empty, print.node, 'a module without any listed template is printed anew', p);
  }
  c.expect(plain > 0, R.top, 'a module without any listed template is not returned as it is');
  c.expect(printed > 0, R.top, 'no module is ever minified');
}
function plugin(c) {
  const R = setup(c);
  const E = c.engine({ escape: true, havoc: () => false, inlineAsync: true, throws: (e) => e.t === 'await' || (e.t === 'call' && e.target === R.top), opaque: (fn) => fn === R.top });
  const [options] = E.paramSyms(R.plugin);
  let seen = 0;
  for (const p of c.paths(E, R.plugin)) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const setupV = c.get(p, p.value, 'setup'), build = T.sym('build');
    for (const q of c.callPaths(p, setupV, [build], p.value)) for (const e of q.own ?? []) {
      if (e.t !== 'call' || e.name !== 'onLoad' || !same(q, e.recv, build)) continue;
      const filter = c.get(q, e.args[0], 'filter'), re = regexOf(c, filter);
      if (re) { const m = /^\/(.*)\/([a-z]*)$/s.exec(re), r = new RegExp(m[1], m[2].replace(/[gy]/g, '')); const bad = ['js', 'jsx', 'ts', 'tsx', 'mjs', 'cjs', 'mts', 'cts', 'json', 'css', 'html', 'txt', 'jsxx', 'vue', 'map'].filter((x) => r.test('dir.js/a.' + x) && !['js', 'jsx', 'ts', 'tsx'].includes(x)); c.expect(!bad.length, e.node, `files of type ${bad.join(', ')} are loaded as if they were scripts`, q); } else c.undecide('the filter of the plugin was not recognised');
      const args = T.sym('args'), isPath = (t) => t.k === 'f' && t.name === 'path' && t.base === args;
      for (const s of c.callPaths(q, e.args[1], [args], UNDEF)) {
        if (s.st.infeasible()) continue;
        seen++;
        const call = (s.own ?? []).find((x) => x.t === 'call' && x.target === R.top);
        const read = (s.own ?? []).find((x) => x.t === 'call' && /^readFile/.test(x.name ?? ''));
        const awaited = (t, of) => { t = s.st.canon(t ?? UNDEF); return !!of && (t === s.st.canon(of) || (t.k === 'r' && t.label === 'awaited' && s.st.canon(t.of) === s.st.canon(of))); };
        if (call) {
          c.expect(read && awaited(call.args[0], read.res) && isPath(read.args[0]), call.node, 'what is transformed is not the content of the file', s);
          const given = p.st.canon(call.args[2] ?? UNDEF), opt = c.get(p, options, 'tagNames');
          c.expect(same(s, given, opt) || (given.k === 'f' && given.name === 'tagNames' && given.base === options) || (given.k === 'o' && [opt, options, fld(options, 'tagNames')].some((x) => p.st.decide(p.st.pEq(x, UNDEF)) === true)) || T.contains(given, (x) => x === opt), call.node, 'the names that are minified are not those that were configured', s);
        }
        if (s.kind === 'throw') {
          // reading may fail; a file that was read is passed through
          c.expect(!call, call?.node ?? e.node, 'a source that cannot be transformed breaks the build', s);
          continue;
        }
        if (s.kind !== 'return') continue;
        let v = s.st.canon(s.value);
        if (v.k === 'r' && v.inner !== undefined) v = s.st.canon(v.inner);
        const threw = (s.own ?? []).some((x) => x.t === 'throwback' || x.t === 'catch');
        if (v === UNDEF || v === NULL) { c.expect(threw || !call, e.node, 'the minified text is dropped', s); continue; }
        const contents = c.get(s, v, 'contents');
        if (read && awaited(contents, read.res)) { c.expect(threw || !call, e.node, 'the minified text is dropped', s); continue; }
        c.expect(!threw && call && awaited(contents, call.res), e.node, 'what the plugin gives is neither the source nor the minified text', s);
        // the loader is the file's own
        const loader = c.get(s, v, 'loader'), ext = (s.own ?? []).find((x) => x.t === 'call' && x.name === 'extname');
        if (ext) c.expect(isPath(ext.args[0]) && T.contains(loader, (x) => x === s.st.canon(ext.res)), e.node, 'the file is not loaded as what its name says', s);
        else if (loader === UNDEF || loader.k === 'c') c.fail(e.node, 'the file is not loaded as what its name says', s);
        if (ext && call) c.expect(T.contains(s.st.canon(call.args[1] ?? UNDEF), (x) => x === s.st.canon(ext.res)), call.node, 'the file is not parsed as what its name says', s);
      }
    }
  }
  if (!seen) c.undecide('the plugin’s callback was not followed');
}
export const rules = [
  { name: 'collected', text: 'a template is collected only if its tag, or the last name of it, is configured', run: collecting },
  { name: 'written', text: 'only texts of collected templates are written, with line breaks and their indentation replaced', run: writing },
  { name: 'walk', text: 'every property of every node is searched', run: walking },
  { name: 'result', text: 'the result is the printed module, or the input if no template was collected', run: result },
  { name: 'plugin', text: 'the plugin gives the transformed content, or nothing if it cannot be parsed', run: plugin },
];
