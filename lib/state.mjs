// Abstract states: value-number facts (type masks, equalities, intervals over
// linear forms, known bits), an access-path heap, and the trace of effects.
import * as T from './terms.mjs';
const { U, N, B, M, S, Y, I, F, O, ALL, UNDEF, NULL, TRUE, FALSE, cst, op } = T;

export const TYPEOF = { undefined: U, boolean: B, string: S, symbol: Y, bigint: M, number: I, function: F, object: N | O };

export function constMask(v) {
  if (v === undefined) return U;
  if (v === null) return N;
  switch (typeof v) {
    case 'boolean': return B;
    case 'string': return S;
    case 'number': return I;
    case 'bigint': return M;
  }
  return ALL;
}
const BOOLOPS = new Set(['eq', 'is', 'mask', 'le', 'zero', 'instanceof', 'hasprop', 'isArray', 'truthy', 'not', 'looseeq', 'and', 'or']);
export function baseMask(t) {
  switch (t.k) {
    case 'c': return constMask(t.v);
    case 'usym': case 'us': return Y;
    case 'o': return t.kind === 'class' && t.callable ? F : O;
    case 'fn': case 'fd': case 'bm': case 'cls': return F;
    case 'lin': case 'bv': return I;
    case 'ext': return t.m0 ?? ALL & ~U;
    case 'op':
      if (BOOLOPS.has(t.op)) return B;
      if (t.op === 'typeof' || t.op === 'concat' || t.op === 'tpl') return S;
      if (t.op.startsWith('bit') || t.op === '*' || t.op === '/' || t.op === '%' || t.op === '-') return I;
      return t.m0 ?? ALL;
  }
  return t.m0 ?? ALL;
}

let stateCount = 0;
export class State {
  constructor() {
    this.cells = new Map(); this.heap = new Map(); this.rep = new Map(); this.masks = new Map();
    this.facts = new Map(); this.lin = new Map(); this.zeros = []; this.nonzeros = [];
    this.trace = null; this.epoch = 0; this.frozen = new Map(); this.arrVer = new Map();
    stateCount++;
  }
  clone() {
    const s = Object.create(State.prototype);
    s.cells = new Map(this.cells); s.heap = new Map(this.heap); s.rep = new Map(this.rep); s.masks = new Map(this.masks);
    s.facts = new Map(this.facts); s.lin = new Map(this.lin); s.zeros = this.zeros.slice(); s.nonzeros = this.nonzeros.slice();
    s.trace = this.trace; s.epoch = this.epoch; s.frozen = this.frozen; s.arrVer = new Map(this.arrVer);
    return s;
  }
  emit(e) { e.ep ??= this.epoch; this.trace = { prev: this.trace, e, n: (this.trace?.n ?? 0) + 1 }; return e; }
  get events() {
    const out = [];
    for (let p = this.trace; p; p = p.prev) out.push(p.e);
    return out.reverse();
  }
  find(t) {
    let x = t;
    for (let i = 0; i < 20; i++) { const r = this.rep.get(x.id); if (!r) break; x = r; }
    return x;
  }
  /** Canonical form: representative, with bases of access paths canonicalised. */
  canon(t, d = 0) {
    t = this.find(t);
    if (d > 6) return t;
    switch (t.k) {
      case 'f': { const b = this.canon(t.base, d + 1); if (b !== t.base) { const r = T.field(b, t.name, t.ver); if (r.m0 === undefined && t.m0 !== undefined) { r.m0 = t.m0; r.dom0 = t.dom0; } return this.find(r); } return t; }
      case 'idx': { const a = this.canon(t.arr, d + 1), i = this.canon(t.i, d + 1); if (a !== t.arr || i !== t.i) { const r = T.idx(a, i, t.ver); if (r.m0 === undefined && t.m0 !== undefined) r.m0 = t.m0; return this.find(r); } return t; }
      case 'lin': { let acc = cst(t.c), ch = false; for (const [x, k] of t.parts) { const y = this.canon(x, d + 1); if (y !== x) ch = true; for (let q = 0; q < Math.abs(k); q++) acc = T.linSum(acc, y, Math.sign(k)); } return ch ? acc : t; }
      case 'op': { if (d > 3) return t; const as = t.args.map((a) => this.canon(a, d + 1)); if (t.op === 'bitlsb' && as[0].k === 'c' && typeof as[0].v === 'number') return cst(as[0].v & -as[0].v); return as.some((a, i) => a !== t.args[i]) ? op(t.op, ...as) : t; }
    }
    return t;
  }
  mask(t) {
    t = this.find(t);
    const m = this.masks.get(t.id);
    const b = baseMask(t);
    return m === undefined ? b : m & b;
  }
  // ---- predicate constructors ------------------------------------------
  pMask(v, bits) {
    v = this.canon(v);
    const m = this.mask(v);
    if ((m & bits) === m && m) return TRUE;
    if ((m & bits) === 0) return FALSE;
    // Normalise against the type so that equivalent tests get one name.
    return op('mask', v, cst(bits & baseMask(v)));
  }
  pEq(a, b, kind = 'eq') {
    a = this.canon(a); b = this.canon(b);
    if (a === b) return TRUE;
    if (a.k === 'c' && b.k === 'c') return T.boolT(kind === 'is' ? Object.is(a.v, b.v) : kind === 'looseeq' ? a.v == b.v : a.v === b.v);
    const ma = this.mask(a), mb = this.mask(b);
    if (kind !== 'looseeq' && (ma & mb) === 0) return FALSE;
    for (const [x, y] of [[a, b], [b, a]]) {
      if (x === UNDEF) return this.pMask(y, U);
      if (x === NULL) return this.pMask(y, N);
      if (x === TRUE || x === FALSE) { if (this.mask(y) === B) return x === TRUE ? y : this.pNot(y); }
      if (y.k === 'op' && y.op === 'typeof' && x.k === 'c' && TYPEOF[x.v] !== undefined) return this.pMask(y.args[0], TYPEOF[x.v]);
    }
    const fresh = (t) => t.k === 'o' || t.k === 'fn' || t.k === 'fd' || t.k === 'cls' || t.k === 'us';
    if (fresh(a) && fresh(b)) return FALSE;
    if (a.k === 'o' && (b.k === 's' || b.k === 'c') || b.k === 'o' && (a.k === 's' || a.k === 'c')) return FALSE;
    const isInt = ma === I && mb === I;
    if (isInt && (a.k === 'bv' || b.k === 'bv')) {
      const x = T.bitop('^', a, b);
      if (x.k === 'c') return T.boolT(x.v === 0);
      return op('zero', x);
    }
    if (isInt && (a.k === 'lin' || b.k === 'lin')) {
      const d = T.linSum(a, b, -1);
      if (d.k === 'c') return T.boolT(d.v === 0);
      if (kind === 'is') kind = 'eq';
      const { body, c } = normBody(d);
      return op('eq', body, cst(c));
    }
    if (kind === 'looseeq') { if (ma === mb && (ma & (ma - 1)) === 0) kind = 'eq'; else if (ma & (U | N) && mb & (U | N)) kind = 'looseeq'; else if ((ma & (U | N) && !(ma & ~(U | N))) || (mb & (U | N) && !(mb & ~(U | N)))) return FALSE; }
    // Object.is and === differ on numbers only.
    if (kind === 'is' && (!(ma & I) || !(mb & I) || (a.k === 'c' && a.v !== 0 && !Number.isNaN(a.v)) || (b.k === 'c' && b.v !== 0 && !Number.isNaN(b.v)))) kind = 'eq';
    return op(kind, a, b);
  }
  pLt(a, b) { // a < b
    return this.pLe(T.linSum(this.canon(a), this.canon(b), -1), -1);
  }
  pLeq(a, b) { return this.pLe(T.linSum(this.canon(a), this.canon(b), -1), 0); }
  pLe(d, c0) { // d <= c0 (integers)
    if (d.k === 'c') return T.boolT(d.v <= c0);
    const { body, c, sign } = normBody(d); // d = sign*body - sign*c ... body == c means d == 0
    // d = sign * (body - c)
    // sign>0: body <= c0 + c ; sign<0: body >= c - c0
    return sign > 0 ? op('le', body, cst(c0 + c)) : this.pNot(op('le', body, cst(c - c0 - 1)));
  }
  pNot(p) {
    if (p === TRUE) return FALSE;
    if (p === FALSE) return TRUE;
    if (p.k === 'op' && p.op === 'not') return p.args[0];
    return op('not', p);
  }
  pTruthy(v) {
    v = this.canon(v);
    if (v.k === 'c') return T.boolT(!!v.v);
    if (v.k === 'op' && BOOLOPS.has(v.op)) return v;
    const m = this.mask(v);
    if (!(m & ~(O | F | Y))) return TRUE;
    if (!(m & ~(U | N))) return FALSE;
    if (m === I) {
      if (v.k === 'bv') return this.pNot(op('zero', v));
      return this.pNot(this.pEq(v, cst(0)));
    }
    if (!(m & ~(O | F | Y | U | N))) return this.pMask(v, O | F | Y);
    return op('truthy', v);
  }
  // ---- decision and refinement -----------------------------------------
  /** true / false / undefined */
  decide(p) {
    if (p === TRUE) return true;
    if (p === FALSE) return false;
    if (p.k === 'c') return !!p.v;
    const f0 = this.facts.get(p.id);
    if (f0 !== undefined) return f0;
    if (p.k !== 'op') { const q = this.pTruthy(p); return q === p || (q.k === 'op' && q.op === 'truthy') ? this.facts.get(q.id) : this.decide(q); }
    switch (p.op) {
      case 'not': { const d = this.decide(p.args[0]); return d === undefined ? undefined : !d; }
      case 'mask': { const m = this.mask(p.args[0]); const b = p.args[1].v; if ((m & b) === 0) return false; if ((m & ~b) === 0) return true; return undefined; }
      case 'and': { let all = true; for (const a of p.args) { const d = this.decide(a); if (d === false) return false; if (d !== true) all = false; } return all ? true : undefined; }
      case 'or': { let none = true; for (const a of p.args) { const d = this.decide(a); if (d === true) return true; if (d !== false) none = false; } return none ? false : undefined; }
      case 'le': {
        const q = this.relin(p);
        if (q !== p) return this.decide(q);
        const iv = this.interval(p.args[0]); const c = p.args[1].v;
        if (iv.hi <= c) return true;
        if (iv.lo > c) return false;
        return undefined;
      }
      case 'zero': return T.decideZero(p.args[0], this.zeros, this.nonzeros, (x) => this.find(x));
      case 'eq': case 'is': case 'truthy': {
        const [a, b] = p.args;
        const q = p.op === 'truthy' ? this.pTruthy(a) : this.pEq(a, b, p.op);
        if (q !== p) return this.decide(q);
        if (p.op === 'is') { const e = this.facts.get(op('eq', a, b).id); if (e === true && (!(this.mask(a) & I) || !(this.mask(b) & I) || (a.k === 'c' && a.v !== 0) || (b.k === 'c' && b.v !== 0))) return true; }
        if (p.op === 'eq') {
          const i2 = this.facts.get(op('is', a, b).id);
          if (i2 === true) return true;
          if (i2 === false && (!(this.mask(a) & I) || !(this.mask(b) & I))) return false;
          const [x, y] = b.k === 'c' ? [a, b] : [b, a];
          if (y.k === 'c' && typeof y.v === 'number') {
            const iv = this.interval(x);
            if (iv.lo > y.v || iv.hi < y.v || iv.ne?.has(y.v)) return false;
            if (iv.lo === y.v && iv.hi === y.v) return true;
            if (y.v === 0 && this.mask(x) === I && x.k !== 'lin') { const z = T.decideZero(x, this.zeros, this.nonzeros, (t) => this.find(t)); if (z !== undefined) return z; }
          }
          if (y.k === 'c' && x.dom0 && !x.dom0.includes(y) && !(baseMask(y) & (x.dom0.gen ?? 0))) return false;
          if ((y.k === 'c' || y.k === 'us') && x.dom0) {
            const left = x.dom0.filter((v) => v === y || this.facts.get(op('eq', x, v).id) !== false);
            if (left.length === 1 && left[0] === y && this.maskInDom(x)) return true;
          }
        }
        return undefined;
      }
    }
    const c = this.canon(p);
    if (c !== p) { const f = this.facts.get(c.id); if (f !== undefined) return f; if (c.k === 'c') return !!c.v; }
    return undefined;
  }
  maskInDom(x) { // all type bits of x are covered by its finite domain
    const dm = x.dom0.reduce((m, v) => m | baseMask(v), 0) & ~(x.dom0.gen ?? 0);
    return (this.mask(x) & ~dm) === 0;
  }
  /** Do the recorded branches contradict what is known at the end? */
  infeasible() {
    for (let x = this.trace; x; x = x.prev) {
      const e = x.e;
      if (e.t !== 'branch' || e.pred.k !== 'op') continue;
      let p = e.pred, v = e.val;
      while (p.k === 'op' && p.op === 'not') { p = p.args[0]; v = !v; }
      if (p.op === 'eq' || p.op === 'is') {
        const q = this.pEq(p.args[0], p.args[1], p.op);
        if (q.k === 'c' && !!q.v !== v) return true;
        continue;
      }
      if (p.op !== 'le') continue;
      const q = this.pLe(this.canon(p.args[0]), p.args[1].v);
      const d = q.k === 'c' ? q.v : q === p ? undefined : this.decide(q);
      if (d !== undefined && d !== v) return true;
    }
    return false;
  }
  /** Re-evaluates recorded comparisons with a term that became a constant. */
  recheck(t) {
    for (let x = this.trace; x; x = x.prev) {
      const e = x.e;
      if (e.t !== 'branch' || e.pred.k !== 'op') continue;
      let p = e.pred, v = e.val;
      while (p.k === 'op' && p.op === 'not') { p = p.args[0]; v = !v; }
      if ((p.op !== 'eq' && p.op !== 'is') || (p.args[0] !== t && p.args[1] !== t)) continue;
      const q = this.pEq(p.args[0], p.args[1], p.op);
      if (q !== p && !this.assume(q, v)) return false;
    }
    return true;
  }
  relin(p) {
    const b = this.canon(p.args[0]);
    if (b === p.args[0]) return p;
    return this.pLe(b, p.args[1].v);
  }
  interval(body) {
    if (body.k === 'c') return { lo: body.v, hi: body.v };
    const r = { lo: -Infinity, hi: Infinity, ne: undefined };
    const d = this.lin.get(body.id);
    if (d) { r.lo = d.lo; r.hi = d.hi; r.ne = d.ne; }
    const parts = T.toLin(body);
    const lsb = (t) => t.k === 'op' && t.op === 'bitlsb'; // lanes never use the sign bit (C04)
    const nonneg = (t) => t.nonneg || lsb(t);
    const low = (t) => (nonneg(t) ? (lsb(t) && this.decide(this.pTruthy(t.args[0])) === true ? 1 : 0) : -Infinity);
    if (body.k !== 'lin') { const l = low(body); if (r.lo < l) r.lo = l; } else {
      let lo = parts.c, hi = parts.c;
      for (const [t, k] of parts.parts) {
        const e = this.lin.get(t.id);
        const l = Math.max(e?.lo ?? -Infinity, low(t)), h = e?.hi ?? Infinity;
        if (k > 0) { lo += k * l; hi += k * h; } else { lo += k * h; hi += k * l; }
      }
      if (lo > r.lo) r.lo = lo;
      if (hi < r.hi) r.hi = hi;
    }
    if (r.ne) { while (r.ne.has(r.lo)) r.lo++; while (r.ne.has(r.hi)) r.hi--; }
    return r;
  }
  setMask(t, m) {
    t = this.find(t);
    if (!m) return false;
    this.masks.set(t.id, m);
    if (t.k === 'c') return true;
    if (m === U || m === N) { this.rep.set(t.id, m === U ? UNDEF : NULL); return this.recheck(t); }
    if (t.dom0 && this.maskInDom(t)) {
      const left = t.dom0.filter((v) => this.facts.get(op('eq', t, v).id) !== false && (baseMask(v) & m));
      if (left.length === 0) return false;
      if (left.length === 1 && t !== left[0]) this.rep.set(t.id, left[0]);
    }
    return true;
  }
  /** Refines the state by p === val; false when contradictory. */
  assume(p, val) {
    const d = this.decide(p);
    if (d !== undefined) { if (d === val && p.k === 'op') this.facts.set(p.id, val); return d === val; }
    if (p.k !== 'op' || !BOOLOPS.has(p.op)) {
      const q = this.pTruthy(p);
      if (q !== p && !(q.k === 'op' && q.op === 'truthy')) return this.assume(q, val);
      const t = this.find(p);
      const m = this.mask(t);
      this.facts.set(op('truthy', t).id, val);
      const nm = val ? m & ~(U | N) : m & ~(O | F | Y);
      if (!this.setMask(t, nm)) return false;
      if (nm === B) this.rep.set(t.id, T.boolT(val));
      return true;
    }
    this.facts.set(p.id, val);
    switch (p.op) {
      case 'not': return this.assume(p.args[0], !val);
      case 'truthy': return this.assume(p.args[0], val);
      case 'instanceof': case 'isArray': return val ? this.setMask(p.args[0], this.mask(p.args[0]) & (p.op === 'isArray' ? O : O | F)) : true;
      case 'and': if (val) return p.args.every((a) => this.assume(a, true)); return true;
      case 'or': if (!val) return p.args.every((a) => this.assume(a, false)); return true;
      case 'mask': {
        const m = this.mask(p.args[0]);
        return this.setMask(p.args[0], val ? m & p.args[1].v : m & ~p.args[1].v);
      }
      case 'le': {
        const q = this.relin(p);
        if (q !== p) return this.assume(q, val);
        const [body, c] = p.args;
        const cur = { ...(this.lin.get(body.id) ?? { lo: -Infinity, hi: Infinity }) };
        const iv = this.interval(body);
        cur.lo = Math.max(cur.lo, iv.lo); cur.hi = Math.min(cur.hi, iv.hi);
        if (val) cur.hi = Math.min(cur.hi, c.v); else cur.lo = Math.max(cur.lo, c.v + 1);
        if (cur.ne) { while (cur.ne.has(cur.lo)) cur.lo++; while (cur.ne.has(cur.hi)) cur.hi--; }
        if (cur.lo > cur.hi) return false;
        this.lin.set(body.id, cur);
        if (cur.lo === cur.hi && body.k !== 'lin') this.rep.set(body.id, cst(cur.lo));
        return true;
      }
      case 'zero': {
        (val ? this.zeros : this.nonzeros).push(p.args[0]);
        return true;
      }
      case 'eq': case 'is': {
        const [a, b] = p.args;
        if (val) return this.union(a, b, p.op);
        const [x, y] = b.k === 'c' || b.k === 'us' ? [a, b] : [b, a];
        if (y.k === 'c' && typeof y.v === 'number') {
          const cur = { ...(this.lin.get(x.id) ?? { lo: -Infinity, hi: Infinity }) };
          cur.ne = new Set(cur.ne ?? []); cur.ne.add(y.v);
          const iv = this.interval(x);
          cur.lo = Math.max(cur.lo, iv.lo); cur.hi = Math.min(cur.hi, iv.hi);
          while (cur.ne.has(cur.lo)) cur.lo++;
          while (cur.ne.has(cur.hi)) cur.hi--;
          if (cur.lo > cur.hi) return false;
          this.lin.set(x.id, cur);
          if (y.v === 0 && this.mask(x) === I && x.k !== 'lin') this.nonzeros.push(x);
        }
        if (x.dom0 && (y.k === 'c' || y.k === 'us') && this.maskInDom(x)) {
          const left = x.dom0.filter((v) => v !== y && this.facts.get(op('eq', x, v).id) !== false && (baseMask(v) & this.mask(x)));
          if (left.length === 0) return false;
          if (left.length === 1) this.rep.set(x.id, left[0]);
        }
        return true;
      }
    }
    return true;
  }
  union(a, b, kind) {
    a = this.find(a); b = this.find(b);
    if (a === b) return true;
    const m = this.mask(a) & this.mask(b);
    if (!m) return false;
    let x = a, y = b; // x -> y
    if (x.k === 'c' || x.k === 'us' || (x.k === 'o' && y.k !== 'c' && y.k !== 'us')) [x, y] = [y, x];
    else if (y.k !== 'c' && y.k !== 'us' && y.k !== 'o' && x.id < y.id) [x, y] = [y, x];
    if (x.k === 'lin' && y.k === 'c') {
      this.lin.set(x.id, { lo: y.v, hi: y.v });
      const p = x.parts.find(([, k]) => Math.abs(k) === 1);
      if (p && p[0].k !== 'o') {
        const rest = T.lin(x.parts.filter((q) => q !== p).map(([t, k]) => [t, -k * p[1]]), (y.v - x.c) * p[1]);
        if (!T.contains(rest, (z) => z === p[0])) this.rep.set(p[0].id, rest);
      }
      return true;
    }
    if (x.k === 'c' || x.k === 'o') return true;
    const iv = this.lin.get(x.id);
    if (iv && y.k === 'c' && (iv.lo > y.v || iv.hi < y.v || iv.ne?.has(y.v))) return false;
    if (T.contains(y, (z) => z === x)) return true;
    this.rep.set(x.id, y);
    if (y.k !== 'c') { this.masks.set(y.id, m); }
    return true;
  }
}
function normBody(d) {
  const { parts, c } = T.toLin(d);
  const sign = parts[0][1] > 0 ? 1 : -1;
  const body = T.lin(parts.map(([t, k]) => [t, k * sign]), 0);
  return { body, c: -c * sign || 0, sign };
}
export const NUMBERISH = I;
