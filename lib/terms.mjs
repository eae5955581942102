// Hash-consed value terms of the abstract interpreter.
export const U = 1, N = 2, B = 4, M = 8, S = 16, Y = 32, I = 64, F = 128, O = 256;
export const ALL = 511;

const table = new Map();
let nextId = 1;
function intern(key, make) {
  let t = table.get(key);
  if (t === undefined) {
    t = make();
    t.id = nextId++;
    t.key = key;
    table.set(key, t);
  }
  return t;
}
let uniq = 1;
export const fresh = () => uniq++;

export function cst(v) {
  const key = 'c:' + typeof v + ':' + (Object.is(v, -0) ? '-0' : String(v));
  return intern(key, () => ({ k: 'c', v }));
}
export const UNDEF = cst(undefined), NULL = cst(null), TRUE = cst(true), FALSE = cst(false);

export const sym = (name, props = {}) => intern('s:' + name, () => ({ k: 's', name, ...props }));
export const usym = (name) => intern('us:' + name, () => ({ k: 'us', name }));
export const ext = (name) => intern('x:' + name, () => ({ k: 'ext', name }));
export const field = (base, name, ver = 0) => intern(`f:${base.id}.${name}@${ver}`, () => ({ k: 'f', base, name, ver }));
export const idx = (arr, i, ver = 0) => intern(`i:${arr.id}[${i.id}]@${ver}`, () => ({ k: 'idx', arr, i, ver }));
export const alloc = (kind, props = {}) => { const n = fresh(); return intern('o:' + n, () => ({ k: 'o', kind, n, ...props })); };
export const closure = (node, env, thisV, props = {}) => { const n = fresh(); return intern('fn:' + n, () => ({ k: 'fn', node, env, thisV, n, ...props })); };
export const res = (key, props) => intern('r:' + key, () => ({ k: 'r', ...props }));
export const hv = (loop, name, init) => intern(`hv:${loop.n}:${name}:${init ? init.id : ''}`, () => ({ k: 'hv', loop, name, init }));
export const spread = (of) => intern('sp:' + of.id, () => ({ k: 'spread', of }));
export const clsv = (node, uid) => intern('cls:' + uid, () => ({ k: 'cls', node }));
export const fndecl = (node, uid) => intern('fd:' + uid, () => ({ k: 'fd', node }));
export const bound = (decl, recv, uid) => intern(`bm:${uid}:${recv.id}`, () => ({ k: 'bm', decl, recv }));

const COMM = new Set(['eq', 'is', 'looseeq', '*', '&&', '||']);
export function op(name, ...args) {
  if (COMM.has(name) && args.length === 2 && args[0].id > args[1].id) args = [args[1], args[0]];
  return intern(`p:${name}(${args.map((a) => a.id).join(',')})`, () => ({ k: 'op', op: name, args }));
}
export const isConst = (t) => t.k === 'c';
export const boolT = (b) => (b ? TRUE : FALSE);

// ---- linear arithmetic -------------------------------------------------
export function lin(parts, c) {
  const m = new Map();
  for (const [t, k] of parts) {
    const e = m.get(t.id);
    if (e) e[1] += k; else m.set(t.id, [t, k]);
  }
  const list = [...m.values()].filter(([, k]) => k !== 0).sort((a, b) => a[0].id - b[0].id);
  if (list.length === 0) return cst(c);
  if (list.length === 1 && list[0][1] === 1 && c === 0) return list[0][0];
  return intern(`l:${list.map(([t, k]) => k + '*' + t.id).join('+')}+${c}`, () => ({ k: 'lin', parts: list, c }));
}
export function toLin(t) {
  if (t.k === 'c' && typeof t.v === 'number') return { parts: [], c: t.v };
  if (t.k === 'lin') return { parts: t.parts, c: t.c };
  return { parts: [[t, 1]], c: 0 };
}
export function linSum(a, b, sign = 1) {
  const x = toLin(a), y = toLin(b);
  return lin([...x.parts, ...y.parts.map(([t, k]) => [t, k * sign])], x.c + sign * y.c);
}

// ---- bit vectors (per-bit truth tables over <=5 leaves) -----------------
const MAXLEAVES = 5;
function tableOf(leaves, bitsFn) { return { leaves, bits: bitsFn }; }
function varMask(i) { // truth table of leaf i over 5 vars (32 rows)
  let m = 0;
  for (let row = 0; row < 32; row++) if (row & (1 << i)) m |= 1 << row;
  return m;
}
const VM = [0, 1, 2, 3, 4].map(varMask);
export function toBV(t, resolve = (x) => x) {
  t = resolve(t);
  if (t.k === 'c' && typeof t.v === 'number') {
    const v = t.v | 0;
    return { leaves: [], tabs: Array.from({ length: 32 }, (_, b) => ((v >>> b) & 1 ? -1 : 0)) };
  }
  if (t.k === 'c' && typeof t.v === 'boolean') return toBV(cst(t.v ? 1 : 0));
  if (t.k === 'bv') {
    // re-resolve leaves
    const rs = t.leaves.map(resolve);
    if (rs.every((r, i) => r === t.leaves[i])) return { leaves: t.leaves, tabs: t.tabs };
    return substBV(t, rs.map((r, i) => (r === t.leaves[i] ? { leaves: [r], tabs: new Array(32).fill(VM[0]) } : toBV(r, resolve))));
  }
  return { leaves: [t], tabs: new Array(32).fill(VM[0]) };
}
function align(list) {
  const leaves = [];
  for (const x of list) for (const l of x.leaves) if (!leaves.includes(l)) leaves.push(l);
  leaves.sort((a, b) => a.id - b.id);
  if (leaves.length > MAXLEAVES) return null;
  const out = list.map((x) => x.tabs.map((tab) => remap(tab, x.leaves, leaves)));
  return { leaves, tabs: out };
}
function remap(tab, from, to) {
  let r = 0;
  for (let row = 0; row < 32; row++) {
    let src = 0;
    for (let i = 0; i < from.length; i++) if (row & (1 << to.indexOf(from[i]))) src |= 1 << i;
    if ((tab >>> src) & 1) r |= 1 << row;
  }
  return r;
}
function substBV(t, args) {
  // evaluate the function t over argument functions
  const al = align(args);
  if (!al) return { leaves: [t], tabs: new Array(32).fill(VM[0]) };
  const tabs = t.tabs.map((tab, b) => {
    let r = 0;
    for (let row = 0; row < 32; row++) {
      let src = 0;
      for (let i = 0; i < args.length; i++) if ((al.tabs[i][b] >>> row) & 1) src |= 1 << i;
      if ((tab >>> src) & 1) r |= 1 << row;
    }
    return r;
  });
  return { leaves: al.leaves, tabs };
}
export function bitop(name, a, b) {
  const x = toBV(a), y = b ? toBV(b) : null;
  const al = align(y ? [x, y] : [x]);
  if (!al) return op('bit' + name, a, ...(b ? [b] : []));
  const f = { '&': (p, q) => p & q, '|': (p, q) => p | q, '^': (p, q) => p ^ q, '~': (p) => ~p }[name];
  const tabs = al.tabs[0].map((p, i) => f(p, y ? al.tabs[1][i] : 0) | 0);
  return mkBV(al.leaves, tabs);
}
export function mkBV(leaves, tabs) {
  // drop irrelevant leaves
  const keep = leaves.filter((_, i) => tabs.some((t) => ((t & VM[i]) >>> (1 << i)) !== ((t & ~VM[i]) & (VM[i] >>> (1 << i))) || dependsOn(t, i)));
  let L = leaves, T = tabs;
  const dep = leaves.map((_, i) => tabs.some((t) => dependsOn(t, i)));
  if (dep.some((d) => !d)) {
    const nl = leaves.filter((_, i) => dep[i]);
    T = tabs.map((tab) => {
      let r = 0;
      for (let row = 0; row < 32; row++) {
        let src = 0;
        for (let i = 0; i < nl.length; i++) if (row & (1 << i)) src |= 1 << leaves.indexOf(nl[i]);
        if ((tab >>> src) & 1) r |= 1 << row;
      }
      return r;
    });
    L = nl;
  }
  if (L.length === 0) {
    let v = 0;
    for (let b = 0; b < 32; b++) if (T[b] & 1) v |= 1 << b;
    return cst(v);
  }
  if (L.length === 1 && T.every((t) => t === VM[0])) return L[0];
  return intern(`bv:${L.map((l) => l.id).join(',')}:${T.join(',')}`, () => ({ k: 'bv', leaves: L, tabs: T }));
}
function dependsOn(tab, i) {
  for (let row = 0; row < 32; row++) {
    if (!(row & (1 << i))) {
      if (((tab >>> row) & 1) !== ((tab >>> (row | (1 << i))) & 1)) return true;
    }
  }
  return false;
}
/** Is (facts: zero functions, nonzero functions) deciding "t has all bits zero"? */
export function decideZero(t, zeros, nonzeros, resolve) {
  const x = toBV(t, resolve);
  const zs = zeros.map((z) => toBV(z, resolve)), ns = nonzeros.map((z) => toBV(z, resolve));
  const relevant = (y) => y.leaves.every((l) => x.leaves.includes(l)) || true;
  // keep only those that fit in the leaf budget
  let pool = [x];
  const zl = [];
  for (const z of zs.filter(relevant)) { if (align([...pool, z])) { pool.push(z); zl.push(z); } }
  let al = align([x, ...zl]);
  const zero = (b) => al.tabs.slice(1).reduce((acc, t) => acc | t[b], 0);
  const full = (1 << (1 << al.leaves.length)) - 1;
  const rows = al.leaves.length === 5 ? -1 : full;
  let all0 = true;
  for (let b = 0; b < 32; b++) {
    if ((al.tabs[0][b] & ~zero(b)) & rows) all0 = false;
    // some bit identically one under the zero facts
    const ok = ~zero(b) & rows;
    if (ok !== 0 && ((~al.tabs[0][b]) & ok) === 0) return false;
  }
  if (all0) return true;
  for (const n of ns) {
    const a2 = align([x, n, ...zl]);
    if (!a2) continue;
    const rows2 = a2.leaves.length === 5 ? -1 : (1 << (1 << a2.leaves.length)) - 1;
    let implied = true;
    for (let b = 0; b < 32 && implied; b++) {
      const z = a2.tabs.slice(2).reduce((acc, t) => acc | t[b], 0);
      if ((a2.tabs[1][b] & ~z & ~a2.tabs[0][b]) & rows2) implied = false;
    }
    if (implied) return false;
  }
  return undefined;
}

// ---- printing ------------------------------------------------------------
export function show(t, d = 0) {
  if (!t) return '<none>';
  if (d > 7) return '…';
  const s = (x) => show(x, d + 1);
  switch (t.k) {
    case 'c': return typeof t.v === 'string' ? JSON.stringify(t.v) : String(t.v);
    case 's': return t.name;
    case 'us': return t.name;
    case 'ext': return t.name;
    case 'f': return `${s(t.base)}.${t.name}${t.ver ? '′' + t.ver : ''}`;
    case 'idx': return `${s(t.arr)}[${s(t.i)}]${t.ver ? '′' + t.ver : ''}`;
    case 'o': return `new#${t.n}:${t.label ?? t.kind}`;
    case 'fn': return `fn#${t.n}`;
    case 'fd': return `fn:${t.node.name?.text ?? 'anonymous'}`;
    case 'bm': return `bound:${t.decl.name?.getText?.() ?? ''}`;
    case 'cls': return `class ${t.node.name?.text}`;
    case 'r': return `${t.label}()#${t.n}`;
    case 'hv': return `${t.name}~${t.loop.n}`;
    case 'spread': return '...' + s(t.of);
    case 'lin': return '(' + t.parts.map(([x, k]) => (k === 1 ? '' : k + '*') + s(x)).join('+') + (t.c ? (t.c > 0 ? '+' : '') + t.c : '') + ')';
    case 'bv': return `bits{${t.leaves.map(s).join(',')}:${bvName(t)}}`;
    case 'op': return `${t.op}(${t.args.map(s).join(', ')})`;
  }
  return '?' + t.k;
}
function bvName(t) {
  return t.tabs.map((x) => (x >>> 0).toString(16)).filter((x, i, a) => a.indexOf(x) === i).join('|');
}
/** Replaces sub-terms. */
export function subst(t, from, to, memo = new Map()) {
  if (t === from) return to;
  if (memo.has(t)) return memo.get(t);
  let r = t;
  const s = (x) => subst(x, from, to, memo);
  switch (t.k) {
    case 'f': { const b = s(t.base); if (b !== t.base) r = field(b, t.name, t.ver); break; }
    case 'idx': { const a = s(t.arr), i = s(t.i); if (a !== t.arr || i !== t.i) r = idx(a, i, t.ver); break; }
    case 'op': { const as = t.args.map(s); if (as.some((a, i) => a !== t.args[i])) r = op(t.op, ...as); break; }
    case 'lin': { const ps = t.parts.map(([x, k]) => [s(x), k]); if (ps.some((p, i) => p[0] !== t.parts[i][0])) { let acc = cst(t.c); for (const [x, k] of ps) { for (let q = 0; q < Math.abs(k); q++) acc = linSum(acc, x, Math.sign(k)); } r = acc; } break; }
    case 'spread': { const o = s(t.of); if (o !== t.of) r = spread(o); break; }
  }
  memo.set(t, r);
  return r;
}
/** Does t contain a sub-term satisfying p? */
export function contains(t, p, seen = new Set()) {
  if (!t || seen.has(t)) return false;
  seen.add(t);
  if (p(t)) return true;
  switch (t.k) {
    case 'f': return contains(t.base, p, seen);
    case 'idx': return contains(t.arr, p, seen) || contains(t.i, p, seen);
    case 'op': return t.args.some((a) => contains(a, p, seen));
    case 'lin': return t.parts.some(([x]) => contains(x, p, seen));
    case 'bv': return t.leaves.some((x) => contains(x, p, seen));
    case 'spread': return contains(t.of, p, seen);
    case 'hv': return t.init ? contains(t.init, p, seen) : false;
    case 'r': return !!(t.recv && contains(t.recv, p, seen)) || (t.args ?? []).some((a) => contains(a, p, seen));
  }
  return false;
}
