// Path-sensitive, interprocedural effect analysis (abstract interpretation with
// trace partitioning) over the type-checked syntax tree.
//
// Every path of the analysed function yields the ordered list of its effects
// (calls out of the analysed code, writes, deletions, throws, suspensions)
// together with what its branches imply. Calls that resolve to repository code
// are followed; loops are summarised by one generic iteration.
import { ts, isFunctionLike, memberName, isStatic, AnchorError } from './project.mjs';
import * as T from './terms.mjs';
import { State, baseMask, TYPEOF } from './state.mjs';
const { U, N, B, M, S, Y, I, F, O, ALL, UNDEF, NULL, TRUE, FALSE, cst, op } = T;
const SK = ts.SyntaxKind;

export class Limit extends Error {}

let envId = 1;
class Env {
  constructor(parent) { this.parent = parent; this.vars = new Map(); this.id = envId++; }
  declare(sym) { const id = `${this.id}:${sym.name}`; this.vars.set(sym, id); return id; }
  lookup(sym) { for (let e = this; e; e = e.parent) { const c = e.vars.get(sym); if (c !== undefined) return c; } return undefined; }
}

const PURE_METHODS = new Set(['has', 'get', 'at', 'indexOf', 'lastIndexOf', 'includes', 'charCodeAt', 'codePointAt', 'charAt', 'startsWith', 'endsWith', 'trim', 'toLowerCase', 'toUpperCase', 'toString', 'keys', 'entries', 'values', 'join', 'split', 'substring', 'substr', 'getTime', 'hasAttribute', 'getAttribute', 'padStart', 'repeat', 'toReversed', 'reverse', 'valueOf', 'match', 'test', 'exec', 'getPropertyValue', 'hasChildNodes', 'getAttributeNames', 'localeCompare', 'replace', 'replaceAll', 'concat', 'flat']);
const PURE_EXT = new Set(['Object.keys', 'Object.hasOwn', 'Object.entries', 'Object.values', 'Object.getPrototypeOf', 'Object.getOwnPropertyDescriptor', 'Object.getOwnPropertyDescriptors', 'Reflect.ownKeys', 'Reflect.has', 'Reflect.getOwnPropertyDescriptor', 'String', 'Number', 'Boolean', 'parseInt', 'parseFloat', 'isNaN', 'Number.isNaN', 'Number.isInteger', 'decodeURIComponent', 'encodeURIComponent', 'String.fromCharCode', 'Symbol.for']);

export class Engine {
  constructor(project, opts = {}) {
    this.P = project;
    this.checker = project.checker;
    this.opts = { maxPaths: 6000, maxSteps: 400000, depth: 14, ...opts };
    this.moduleVals = new Map();
    this.funcs = new Set();
    this.steps = 0;
    this.callSites = new Set();
    this.branches = new Set();
  }

  // ================= entry points =====================================
  /** All paths of a function. */
  run(fn, { thisV = null, args = null, st = null, env = null, cls = null } = {}) {
    st ??= new State();
    this.steps = 0; this.outCount = 0;
    const home = cls ?? (ts.isClassLike(fn.parent) ? fn.parent : null);
    if (!thisV && home && !isStatic(fn)) thisV = this.thisSym(home);
    const argv = args ?? this.paramSyms(fn);
    const ctx = { thisV, env: env ?? new Env(null), fn, home: ts.isClassLike(fn.parent) ? fn.parent : home, loops: [], stack: [], depth: 0, tries: 0 };
    const outs = this.invoke(fn, argv, st, ctx, { thisV, env: env ?? null, top: true });
    return outs.map((o) => this.path(o));
  }
  path(o) {
    return { st: o.st, kind: o.cut ? 'cut' : o.thr ? 'throw' : 'return', value: o.cut ? UNDEF : o.thr ?? o.v, events: o.st.events, loop: o.cut };
  }
  /** Calls a function value on top of a path's state. */
  call(fnV, args, st, { thisV = UNDEF } = {}) {
    this.steps = 0; this.outCount = 0;
    const ctx = { thisV: UNDEF, env: new Env(null), fn: null, home: null, loops: [], stack: [], depth: 0, tries: 0, entry: true };
    return this.callValue(fnV, thisV, args, st, ctx, null).map((o) => this.path(o));
  }
  thisSym(cls, name = 'this') { const t = T.sym(name + ':' + (cls.name?.text ?? ''), {}); t.m0 = O; t.cls = cls; return t; }
  paramSyms(fn) {
    return fn.parameters.map((p, i) => {
      const nm = ts.isIdentifier(p.name) ? p.name.text : 'arg' + i;
      let t = T.sym(`${nm}@${fn.pos}:${fn.getSourceFile().fileName}`, {});
      t.label = nm;
      this.typed(t, this.declType(p.name ?? p));
      if (p.dotDotDotToken) return T.spread(t);
      if (p.questionToken || p.initializer) t.m0 = (t.m0 ?? ALL) | U;
      return t;
    });
  }

  // ================= types ============================================
  declType(node) {
    try { return this.checker.getTypeAtLocation(node); } catch { return undefined; }
  }
  typeMask(type, d = 0) {
    if (!type || d > 6) return ALL;
    const f = type.flags, TF = ts.TypeFlags;
    if (f & (TF.Any | TF.Unknown)) return ALL;
    if (f & TF.Never) return ALL;
    if (f & (TF.Undefined | TF.Void)) return U;
    if (f & TF.Null) return N;
    if (f & TF.BooleanLike) return B;
    if (f & TF.StringLike) return S;
    if (f & TF.NumberLike) return I;
    if (f & TF.BigIntLike) return M;
    if (f & TF.ESSymbolLike) return Y;
    if (f & TF.NonPrimitive) return O | F;
    if (f & TF.TypeParameter) { const c = this.checker.getBaseConstraintOfType(type); return c && c !== type ? this.typeMask(c, d + 1) : ALL; }
    if (f & TF.Index) return S | I | Y;
    if (f & (TF.IndexedAccess | TF.Conditional | TF.Substitution)) { const c = this.checker.getBaseConstraintOfType(type); return c && c !== type ? this.typeMask(c, d + 1) : ALL; }
    if (f & TF.Union) return type.types.reduce((m, t) => m | this.typeMask(t, d + 1), 0);
    if (f & TF.Intersection) return type.types.reduce((m, t) => m & this.typeMask(t, d + 1), ALL) || O;
    if (f & TF.Object) {
      if (type.getCallSignatures().length || type.getConstructSignatures().length) return F;
      const n = type.symbol?.name;
      if (n === 'Function') return F;
      const props = type.getProperties();
      if (props.length === 0 && !type.getStringIndexType?.()) return ALL & ~(U | N);
      if (['String', 'Number', 'Object'].includes(n)) return ALL & ~(U | N);
      return O;
    }
    return ALL;
  }
  dom(type) {
    if (!type) return undefined;
    const list = type.flags & ts.TypeFlags.Union ? type.types : [type];
    const out = [];
    for (const t of list) {
      const TF = ts.TypeFlags;
      if (t.flags & TF.UniqueESSymbol) { const v = this.uniqueSym(t); if (!v) return undefined; out.push(v); } else if (t.flags & TF.BooleanLiteral) out.push(T.boolT(t.intrinsicName === 'true'));
      else if (t.flags & (TF.StringLiteral | TF.NumberLiteral) || (t.flags & TF.EnumLiteral && t.value !== undefined)) out.push(cst(t.value));
      else if (t.flags & TF.Undefined) out.push(UNDEF);
      else if (t.flags & TF.Null) out.push(NULL);
      else out.gen = (out.gen ?? 0) | this.typeMask(t); // any value of this type
    }
    return out.length ? out : undefined;
  }
  uniqueSym(t) {
    const d = t.symbol?.valueDeclaration;
    if (!d || !ts.isVariableDeclaration(d)) return undefined;
    const v = this.moduleVar(d);
    return v.k === 'us' ? v : undefined;
  }
  typed(t, type) {
    if (!type || t.k === 'c' || t.k === 'o' || t.k === 'fn') return t;
    // features the library tests for are not always there
    const m = this.typeMask(type) | (t.k === 'ext' && /(^|\.)(scheduler|postTask|requestIdleCallback|moveBefore)$/.test(t.name) ? U : 0);
    const isNew = t.m0 === undefined;
    t.m0 = isNew ? m : t.m0 | m;
    if (isNew) t.dom0 = this.dom(type);
    else if (t.dom0 && t.typ !== type) { const d2 = this.dom(type); const gen = (t.dom0.gen ?? 0) | (d2 ? d2.gen ?? 0 : m); t.dom0 = [...new Set([...t.dom0, ...(d2 ?? [])])]; t.dom0.gen = gen; }
    t.typ ??= type;
    return t;
  }
  propType(node) {
    const s = this.P.symbolOf(node);
    if (!s) return undefined;
    try { return this.checker.getTypeOfSymbol(s); } catch { return undefined; }
  }

  // ================= modules ==========================================
  moduleVar(decl) {
    let v = this.moduleVals.get(decl);
    if (v) return v;
    const name = decl.name.text;
    const place = T.sym('mod:' + name, {});
    place.module = true; place.decl = decl;
    this.moduleVals.set(decl, place);
    const isConst = decl.parent.flags & ts.NodeFlags.Const;
    if (decl.initializer && isConst) {
      const init = decl.initializer;
      const type = this.checker.getTypeAtLocation(decl.name);
      if (type.flags & ts.TypeFlags.UniqueESSymbol) {
        v = T.usym(name);
      } else {
        const saved = [this.steps, this.outCount];
        try {
          const outs = this.ev(init, new State(), { thisV: UNDEF, env: new Env(null), fn: null, home: null, loops: [], stack: [], depth: 0, tries: 0 });
          const vals = [...new Set(outs.filter((o) => !o.thr).map((o) => o.v))];
          if (vals.length === 1 && ['c', 'us', 'ext', 'fn', 'fd', 'cls', 'bv', 'lin'].includes(vals[0].k)) v = vals[0];
          else place.alts = vals;
        } catch (e) { if (!(e instanceof Limit)) throw e; }
        [this.steps, this.outCount] = saved;
      }
      if (!v) this.typed(place, type);
    }
    v ??= place;
    this.moduleVals.set(decl, v);
    return v;
  }

  // ================= plumbing =========================================
  tick(n = 1) { this.steps += n; if (this.steps > this.opts.maxSteps) throw new Limit('steps'); }
  bind(outs, f) {
    if (outs.length === 1) { const o = outs[0]; return o.thr || o.cut ? outs : f(o.v, o.st); }
    const r = [];
    for (const o of outs) { if (o.thr || o.cut) r.push(o); else for (const x of f(o.v, o.st)) r.push(x); }
    if (r.length > this.opts.maxPaths) throw new Limit('paths');
    return r;
  }
  seq(nodes, st, ctx, f, acc = []) { // evaluates expressions left to right
    if (acc.length === nodes.length) return f(acc, st);
    const n = nodes[acc.length];
    return this.bind(typeof n === 'function' ? n(st) : this.ev(n, st, ctx), (v, s) => this.seq(nodes, s, ctx, f, [...acc, v]));
  }
  args(list, st, ctx, f) {
    return this.seq((list ?? []).map((a) => (ts.isSpreadElement(a) ? (s) => this.bind(this.ev(a.expression, s, ctx), (v, s2) => [{ st: s2, v: T.spread(v) }]) : a)), st, ctx, (vs, s) => {
      const out = [];
      for (const v of vs) {
        if (v.k === 'spread') { const items = this.exactItems(v.of, s); if (items) { out.push(...items); continue; } }
        out.push(v);
      }
      return f(out, s);
    });
  }
  ok(st, v) { return [{ st, v }]; }
  /** Forks on a predicate. */
  fork(p, st, node, f, ctx) {
    const d = st.decide(p);
    if (d !== undefined) { if (node) this.note(st, node, d, p, ctx); return f(d, st); }
    const s2 = st.clone();
    const out = [];
    if (st.assume(p, true)) { if (node) this.note(st, node, true, p, ctx); out.push(...f(true, st)); }
    if (s2.assume(p, false)) { if (node) this.note(s2, node, false, p, ctx); out.push(...f(false, s2)); }
    if (out.length > this.opts.maxPaths) throw new Limit('paths');
    return out;
  }
  note(st, node, val, p, ctx) {
    this.branches.add(node);
    st.emit({ t: 'branch', node, val, pred: p, loops: ctx?.loops ?? [] });
  }
  /** Evaluates a condition, forking on its truth. */
  cond(node, st, ctx, f) {
    node = unparen(node);
    if (ts.isPrefixUnaryExpression(node) && node.operator === SK.ExclamationToken) return this.cond(node.operand, st, ctx, (b, s) => f(!b, s));
    if (ts.isBinaryExpression(node)) {
      const k = node.operatorToken.kind;
      if (k === SK.AmpersandAmpersandToken) return this.cond(node.left, st, ctx, (b, s) => (b ? this.cond(node.right, s, ctx, f) : f(false, s)));
      if (k === SK.BarBarToken) return this.cond(node.left, st, ctx, (b, s) => (b ? f(true, s) : this.cond(node.right, s, ctx, f)));
    }
    return this.bind(this.ev(node, st, ctx), (v, s) => this.fork(s.pTruthy(v), s, node, f, ctx));
  }
  condC(node, st, ctx, f) { // like cond but f returns completions and throws are completions
    const outs = this.cond(node, st, ctx, (b, s) => [{ st: s, v: cst(b) }]);
    const r = [];
    for (const o of outs) { if (o.thr) r.push({ st: o.st, c: 't', v: o.thr }); else if (o.cut) r.push({ st: o.st, c: 'x', loop: o.cut }); else r.push(...f(o.v.v, o.st)); }
    return r;
  }

  // ================= expressions ======================================
  ev(node, st, ctx) {
    this.tick();
    switch (node.kind) {
      case SK.ParenthesizedExpression: case SK.AsExpression: case SK.SatisfiesExpression: case SK.TypeAssertionExpression:
      case SK.ExpressionWithTypeArguments:
        return this.ev(node.expression, st, ctx);
      case SK.NonNullExpression:
        return this.bind(this.ev(node.expression, st, ctx), (v, s) => {
          const c = s.find(v);
          // the assertion may only drop the `undefined` of an unchecked index
          const own = this.P.checker.getTypeAtLocation(node.expression).flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown);
          if (c.k !== 'c' && !own) { const m = s.mask(c) & ~(U | N); if (m) s.setMask(c, m); }
          return this.ok(s, s.find(v));
        });
      case SK.NumericLiteral: return this.ok(st, cst(Number(node.text)));
      case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return this.ok(st, cst(node.text));
      case SK.BigIntLiteral: return this.ok(st, op('bigint', cst(node.text)));
      case SK.TrueKeyword: return this.ok(st, TRUE);
      case SK.FalseKeyword: return this.ok(st, FALSE);
      case SK.NullKeyword: return this.ok(st, NULL);
      case SK.ThisKeyword: return this.ok(st, ctx.thisV ?? UNDEF);
      case SK.RegularExpressionLiteral: { const t = T.sym('re:' + node.text, {}); t.m0 = O; t.regex = node.text; return this.ok(st, t); }
      case SK.Identifier: return this.ok(st, this.ident(node, st, ctx));
      case SK.FunctionExpression: case SK.ArrowFunction:
        return this.ok(st, T.closure(node, ctx.env, ts.isArrowFunction(node) ? ctx.thisV : null, { ctx: { fn: ctx.fn, home: ctx.home } }));
      case SK.ClassExpression: return this.ok(st, T.clsv(node, node.pos + node.getSourceFile().fileName));
      case SK.TemplateExpression: {
        const parts = node.templateSpans.map((s) => s.expression);
        return this.seq(parts, st, ctx, (vs, s) => {
          const a = [cst(node.head.text)];
          node.templateSpans.forEach((sp, i) => a.push(vs[i], cst(sp.literal.text)));
          return this.ok(s, this.concat(a.filter((x) => !(x.k === 'c' && x.v === ''))));
        });
      }
      case SK.TaggedTemplateExpression: {
        const spans = ts.isTemplateExpression(node.template) ? node.template.templateSpans.map((s) => s.expression) : [];
        return this.seq([node.tag, ...spans], st, ctx, ([fn, ...vs], s) => this.callValue(fn, UNDEF, [T.sym('strings:' + node.pos), ...vs], s, ctx, node));
      }
      case SK.ArrayLiteralExpression: return this.arrayLit(node, st, ctx);
      case SK.ObjectLiteralExpression: return this.objectLit(node, st, ctx);
      case SK.PropertyAccessExpression: case SK.ElementAccessExpression: return this.access(node, st, ctx);
      case SK.CallExpression: return this.callExpr(node, st, ctx);
      case SK.NewExpression: return this.newExpr(node, st, ctx);
      case SK.PrefixUnaryExpression: return this.prefix(node, st, ctx);
      case SK.PostfixUnaryExpression: return this.incdec(node, st, ctx, false);
      case SK.BinaryExpression: return this.binary(node, st, ctx);
      case SK.ConditionalExpression:
        return this.cond(node.condition, st, ctx, (b, s) => this.ev(b ? node.whenTrue : node.whenFalse, s, ctx));
      case SK.TypeOfExpression:
        return this.bind(this.ev(node.expression, st, ctx), (v, s) => {
          const m = s.mask(v);
          for (const [n, bits] of Object.entries(TYPEOF)) if (m && (m & ~bits) === 0) return this.ok(s, cst(n));
          return this.ok(s, op('typeof', s.canon(v)));
        });
      case SK.VoidExpression: return this.bind(this.ev(node.expression, st, ctx), (v, s) => this.ok(s, UNDEF));
      case SK.DeleteExpression: {
        const e = unparen(node.expression);
        const keyF = ts.isElementAccessExpression(e) ? e.argumentExpression : (s) => this.ok(s, cst(e.name.text));
        return this.seq([e.expression, keyF], st, ctx, ([b, k], s) => {
          s.heap.set(this.hkey(s, b, k), UNDEF);
          s.emit({ t: 'delete', base: s.canon(b), name: s.canon(k), node, loops: ctx.loops });
          return this.ok(s, TRUE);
        });
      }
      case SK.AwaitExpression:
        return this.bind(this.ev(node.expression, st, ctx), (v, s) => this.doAwait(v, s, ctx, node));
      case SK.YieldExpression:
        return this.bind(node.expression ? this.ev(node.expression, st, ctx) : this.ok(st, UNDEF), (v, s) => {
          s.emit({ t: 'yield', value: s.canon(v), star: !!node.asteriskToken, node, loops: ctx.loops });
          this.havoc(s, ctx, node);
          return this.ok(s, this.opaque('yield', node));
        });
      case SK.SpreadElement: return this.bind(this.ev(node.expression, st, ctx), (v, s) => this.ok(s, T.spread(v)));
      case SK.SuperKeyword: return this.ok(st, ctx.thisV);
      case SK.MetaProperty: return this.ok(st, T.ext(node.getText()));
      case SK.OmittedExpression: return this.ok(st, UNDEF);
    }
    return this.ok(st, this.opaque(node.getText().slice(0, 40), node));
  }
  opaque(label, node) { const n = T.fresh(); const t = T.res('q' + n, { label, n, node }); if (node && !ts.isCallExpression(node)) this.typed(t, this.declType(node)); return t; }
  concat(parts) {
    const out = [];
    for (const p of parts.flatMap((p) => (p.k === 'op' && p.op === 'concat' ? p.args : [p]))) {
      const last = out.at(-1);
      if (last && last.k === 'c' && p.k === 'c') out[out.length - 1] = cst(String(last.v) + String(p.v)); else out.push(p);
    }
    if (out.length === 0) return cst('');
    if (out.length === 1 && out[0].k === 'c') return cst(String(out[0].v));
    return op('concat', ...out);
  }
  doAwait(v, st, ctx, node) {
    const outs = [];
    const ev = st.emit({ t: 'await', value: st.canon(v), node, loops: ctx.loops, inlined: v.k === 'r' && v.inner !== undefined });
    this.havoc(st, ctx, node);
    if (!(v.k === 'r' && v.inner !== undefined) && this.opts.throws?.(ev, ctx)) {
      const s2 = st.clone();
      const err = T.sym('rejected:' + node.pos);
      s2.emit({ t: 'throwback', from: ev, value: err, node });
      outs.push({ st: s2, thr: err });
    }
    const r = v.k === 'r' && v.inner !== undefined ? v.inner : T.res('aw' + v.id, { label: 'awaited', n: v.id, of: v });
    outs.push({ st, v: r });
    return outs;
  }
  /** Lists that closures given away can reach may be filled by whoever has them. */
  escaped(args, st) {
    const seen = new Set(), go = (v) => {
      if (!v || seen.has(v)) return;
      seen.add(v);
      if (v.k === 'o' && v.kind === 'array') { st.heap.delete(v.id + '#items'); st.arrVer.set(v.id, T.fresh()); }
      if (v.k === 'o') { for (const [k, x] of st.heap) { const i = this.hinfo.get(k); if (i?.base === v && x?.k) go(st.canon(x)); } return; }
      if (v.k !== 'fn' || !v.env) return;
      const visit = (n) => {
        if (ts.isIdentifier(n)) {
          const s = this.checker.getSymbolAtLocation(n), cell = s && v.env.lookup(s), x = cell && st.cells.get(cell);
          if (x?.k === 'o' && x.kind === 'array') { st.heap.delete(x.id + '#items'); st.arrVer.set(x.id, T.fresh()); }
        }
        ts.forEachChild(n, visit);
      };
      visit(v.node);
    };
    args.forEach((a) => go(st.canon(a)));
  }
  havoc(st, ctx, node) {
    st.epoch++;
    const stable = this.stableFields(ctx);
    for (const k of [...st.heap.keys()]) {
      const e = this.hinfo.get(k);
      if (!e || e.base.k === 'o' && (e.base.kind !== 'class')) continue; // fresh local objects keep their contents
      if (stable && e.sym && stable.has(e.sym)) continue;
      if (e.sym && !ts.isAccessor(e.sym) && !this.isMutable(e.sym)) continue;
      st.heap.delete(k);
    }
  }
  // Which property symbols are assigned anywhere, and by which functions.
  writers() {
    if (this._writers) return this._writers;
    const w = new Map();
    const add = (nameNode, fn) => {
      let s = this.P.symbolOf(nameNode);
      if (!s) return;
      const d = s.valueDeclaration ?? s;
      if (!w.has(d)) w.set(d, new Set());
      w.get(d).add(fn);
    };
    const target = (t, fn) => {
      t = unparen(t);
      if (ts.isPropertyAccessExpression(t)) add(t.name, fn);
      else if (ts.isElementAccessExpression(t)) target(t.expression, fn);
      else if (ts.isArrayLiteralExpression(t)) t.elements.forEach((e) => target(e, fn));
    };
    for (const f of this.P.files) {
      const visit = (n, fn) => {
        if (isFunctionLike(n)) fn = n;
        if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment) target(n.left, fn);
        if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken)) target(n.operand, fn);
        if (ts.isDeleteExpression(n)) target(n.expression, fn);
        ts.forEachChild(n, (c) => visit(c, fn));
      };
      visit(f, null);
    }
    return (this._writers = w);
  }
  isMutable(decl) { return this.writers().has(decl) || !(decl.modifiers?.some((m) => m.kind === SK.ReadonlyKeyword)); }
  /** Fields assigned only by functions used by the outermost async function alone. */
  stableFields(ctx) {
    const root = ctx.asyncRoot;
    if (!root) return null;
    root.__stable ??= new Map();
    if (root.__stable.has(this.P)) return root.__stable.get(this.P);
    const tree = new Set([root]);
    // closures inside the root belong to it only when they run inside it: keep
    // plain helpers, drop closures.
    for (let changed = true; changed;) {
      changed = false;
      for (const fn of this.P.functions) {
        if (tree.has(fn) || !fn.name || !(ts.isFunctionDeclaration(fn) || ts.isMethodDeclaration(fn))) continue;
        const refs = this.refs(fn);
        if (refs.length && refs.every((r) => tree.has(enclosingFn(r)))) { tree.add(fn); changed = true; }
      }
    }
    const out = new Set();
    for (const [d, fns] of this.writers()) if ([...fns].every((f) => tree.has(f) || (f && ts.isConstructorDeclaration(f)))) out.add(d);
    root.__stable.set(this.P, out);
    return out;
  }
  refs(fn) {
    if (!this._refs) {
      this._refs = new Map();
      for (const f of this.P.files) this.P.walk(f, (n) => {
        if (!ts.isIdentifier(n) && !ts.isPrivateIdentifier(n)) return;
        const d = this.P.symbolOf(n)?.valueDeclaration;
        if (!d || d.name === n) return;
        if (!this._refs.has(d)) this._refs.set(d, []);
        this._refs.get(d).push(n);
      });
    }
    return this._refs.get(fn) ?? [];
  }

  ident(node, st, ctx) {
    const name = node.text;
    if (name === 'undefined') return UNDEF;
    if (name === 'NaN') return cst(NaN);
    if (name === 'Infinity') return cst(Infinity);
    let s = this.checker.getSymbolAtLocation(node);
    if (s && ts.isShorthandPropertyAssignment(node.parent)) s = this.checker.getShorthandAssignmentValueSymbol(node.parent) ?? s;
    if (s && s.flags & ts.SymbolFlags.Alias) s = this.checker.getAliasedSymbol(s);
    if (!s) return T.ext(name);
    if (name === 'arguments' && !s.valueDeclaration) return T.sym('arguments');
    const cell = ctx.env.lookup(s);
    if (cell !== undefined) {
      const v = st.cells.get(cell);
      return v === undefined ? UNDEF : st.find(v);
    }
    const d = s.valueDeclaration ?? s.declarations?.[0];
    if (!d || !this.P.inRepo(d)) return T.ext(name);
    if (ts.isFunctionDeclaration(d)) return T.fndecl(d.body ? d : (s.declarations.find((x) => x.body) ?? d), d.pos + d.getSourceFile().fileName);
    if (ts.isClassLike(d)) return T.clsv(d, d.pos + d.getSourceFile().fileName);
    if (ts.isEnumDeclaration(d)) return T.ext('enum:' + d.name.text);
    if (ts.isVariableDeclaration(d)) {
      const isTop = ts.isVariableStatement(d.parent.parent) && ts.isSourceFile(d.parent.parent.parent);
      if (isTop) {
        const isConst = d.parent.flags & ts.NodeFlags.Const;
        if (isConst) return this.moduleVar(d);
        const key = 'modlet:' + d.pos + d.getSourceFile().fileName;
        const v = st.cells.get(key);
        if (v) return v;
        return this.typed(T.sym('mod:' + name + '@' + st.epoch, {}), this.declType(d.name));
      }
    }
    const t = T.sym(`free:${name}:${d.pos}`, {});
    t.label = name; t.decl = d;
    return this.typed(t, this.declType(d.name ?? d));
  }

  arrayLit(node, st, ctx) {
    return this.args(node.elements, st, ctx, (vs, s) => {
      if (vs.length === 1 && vs[0].k === 'spread') return this.ok(s, this.copyOf(vs[0].of, s));
      const o = T.alloc('array', { node, init: vs });
      s.heap.set(o.id + '#items', { list: vs, exact: !vs.some((v) => v.k === 'spread') });
      return this.ok(s, o);
    });
  }
  exactItems(v, st) {
    v = st.find(v);
    const it = v.k === 'o' ? st.heap.get(v.id + '#items') : null;
    return it?.exact ? it.list : null;
  }
  objectLit(node, st, ctx) {
    const o = T.alloc('object', { node });
    const props = node.properties;
    const step = (i, s) => {
      if (i === props.length) return this.ok(s, o);
      const p = props[i];
      const put = (k, v, s2) => { this.hset(s2, o, k, v); return step(i + 1, s2); };
      const keyOf = (s2, f) => (ts.isComputedPropertyName(p.name) ? this.bind(this.ev(p.name.expression, s2, ctx), f) : f(cst(memberName(p.name, this.P)), s2));
      if (ts.isSpreadAssignment(p)) return this.bind(this.ev(p.expression, s, ctx), (v, s2) => {
        const sp = s2.heap.get(o.id + '#spread') ?? [];
        // properties set so far may be overridden by the spread object
        const own = v.k === 'o' && !s2.heap.get(v.id + '#spread') ? [...s2.heap.keys()].filter((k) => k.startsWith(v.id + '.')) : null;
        if (own) { for (const k of own) this.hset(s2, o, this.hinfo.get(k).key, s2.heap.get(k)); } else s2.heap.set(o.id + '#spread', [...sp, { of: v, after: this.ownKeys(s2, o) }]);
        return step(i + 1, s2);
      });
      if (ts.isShorthandPropertyAssignment(p)) return put(cst(p.name.text), this.ident(p.name, s, ctx), s);
      if (ts.isPropertyAssignment(p)) return keyOf(s, (k, s2) => this.bind(this.ev(p.initializer, s2, ctx), (v, s3) => put(k, v, s3)));
      if (ts.isMethodDeclaration(p)) return keyOf(s, (k, s2) => put(k, T.closure(p, ctx.env, o, { ctx: { fn: ctx.fn, home: ctx.home } }), s2));
      if (ts.isGetAccessor(p) || ts.isSetAccessor(p)) return keyOf(s, (k, s2) => {
        const c = T.closure(p, ctx.env, o, { ctx: { fn: ctx.fn, home: ctx.home } });
        s2.heap.set(this.hkey(s2, o, k) + (ts.isGetAccessor(p) ? '#get' : '#set'), c);
        return step(i + 1, s2);
      });
      return step(i + 1, s);
    };
    return step(0, st);
  }
  ownKeys(st, o) { return [...st.heap.keys()].filter((k) => k.startsWith(o.id + '.') && !k.includes('#')).map((k) => this.hinfo.get(k).key); }

  // ---- heap ----------------------------------------------------------
  hinfo = new Map();
  hkey(st, base, k) {
    base = st.canon(base); k = st.canon(k);
    const key = `${base.id}.${k.k === 'c' ? 'k:' + typeof k.v + ':' + k.v : k.id}`;
    if (!this.hinfo.has(key)) this.hinfo.set(key, { base, key: k });
    return key;
  }
  hset(st, base, k, v, sym) {
    const key = this.hkey(st, base, k);
    if (sym) this.hinfo.get(key).sym = sym;
    st.heap.set(key, v);
  }
  /** Property read on a value; `nameNode` gives static type information. */
  read(base, k, st, ctx, node, f) {
    base = st.canon(base); k = st.canon(k);
    const symNode = node && (ts.isPropertyAccessExpression(node) ? node.name : ts.isBindingElement(node) ? node : null);
    let sdecl = null;
    if (symNode && k.k === 'c') {
      const s = ts.isBindingElement(symNode) ? this.bindingProp(symNode, String(k.v)) : this.P.symbolOf(symNode);
      sdecl = s?.valueDeclaration ?? s?.declarations?.[0] ?? null;
    }
    // enum members and statics
    if (node && ts.isPropertyAccessExpression(node) && sdecl && ts.isEnumMember(sdecl)) return f(cst(this.checker.getConstantValue(sdecl)), st);
    if (node && (ts.isPropertyAccessExpression(node) || ts.isElementAccessExpression(node))) {
      const cv = this.checker.getConstantValue(node);
      if (cv !== undefined) return f(cst(cv), st);
    }
    if (base.k === 'ext') {
      const key = this.hkey(st, base, k);
      if (st.heap.has(key)) return f(st.find(st.heap.get(key)), st);
      if (k.k === 'c') {
        const t = T.ext(base.name + '.' + k.v);
        if (node) { const ty = this.propType(symNode ?? node); if (ty) this.typed(t, ty); }
        return f(t, st);
      }
    }
    if (base.k === 'cls' && k.k === 'c') {
      const m = this.P.staticMember(base.node, String(k.v));
      if (m && isFunctionLike(m) && m.body) return f(T.closure(m, new Env(null), base, { static: true }), st);
    }
    const key = this.hkey(st, base, k);
    if (st.heap.has(key)) return f(st.find(st.heap.get(key)), st);
    if (base.k === 'o' && st.heap.has(key + '#get')) return this.bind(this.callValue(st.heap.get(key + '#get'), base, [], st, ctx, node), f);
    // arrays
    if (base.k === 'o' && (base.kind === 'array' || base.kind === 'map' || base.kind === 'copy' || base.kind === 'arrn')) {
      const it = st.heap.get(base.id + '#items');
      if (k.k === 'c' && k.v === 'length') {
        if (it?.exact) return f(cst(it.list.length), st);
        if (base.kind === 'map') return this.read(base.over, k, st, ctx, null, f);
        if (base.kind === 'copy' && !st.arrVer.get(base.id)) return this.read(base.of, k, st, ctx, null, f);
        if (base.kind === 'arrn' && base.len && !st.arrVer.get(base.id)) return f(base.len, st);
      } else if (this.isIndex(k, st)) {
        if (it?.exact && k.k === 'c') return f(it.list[k.v] ?? UNDEF, st);
        if (base.kind === 'map' && base.index) return f(base.varies ? this.typed(T.idx(base, k), base.elemTyp) : T.subst(base.value, base.index, k), st);
        if (base.kind === 'copy' && !st.arrVer.get(base.id)) return this.read(base.of, k, st, ctx, null, (v, s) => { if (node) this.typed(v, this.elemType(node)); return f(v, s); });
      }
    }
    if (base.k === 'o' && base.kind === 'rest' && k.k === 'c') return this.read(base.of, k, st, ctx, node, f);
    if (base.k === 'o' && st.heap.get(base.id + '#spread')) {
      const sp = st.heap.get(base.id + '#spread').at(-1);
      return this.read(sp.of, k, st, ctx, node && ts.isPropertyAccessExpression(node) ? node : null, f);
    }
    if (base.k === 'o' && base.kind === 'object' && k.k === 'c' && !base.node?.properties?.some?.(ts.isSpreadAssignment) && typeof k.v === 'string' && !this.isBuiltinProp(k.v)) return f(UNDEF, st);
    // accessors and methods of repository classes
    const cls = base.cls ?? null;
    if (k.k === 'c') {
      let m = null;
      if (cls) m = this.P.member(cls, String(k.v));
      else if (sdecl && this.P.inRepo(sdecl) && ts.isClassLike(sdecl.parent) && !isStatic(sdecl)) {
        if (!this.P.isOverridden(sdecl.parent, String(k.v))) m = { decl: sdecl, abstract: !sdecl.body && !ts.isPropertyDeclaration(sdecl) };
      }
      if (m && ts.isGetAccessor(m.decl) && m.decl.body && !this.opts.opaque?.(m.decl, node) && !ctx.stack.includes(m.decl)) {
        return this.bind(this.invoke(m.decl, [], st, ctx, { thisV: base, node }), f);
      }
      if (m && ts.isSetAccessor(m.decl)) {
        const g = m.decl.parent.members.find((x) => ts.isGetAccessor(x) && x.name.getText() === m.decl.name.getText());
        if (g?.body && !ctx.stack.includes(g)) return this.bind(this.invoke(g, [], st, ctx, { thisV: base, node }), f);
      }
      if (m && ts.isMethodDeclaration(m.decl) && m.decl.body) return f(T.bound(m.decl, base, m.decl.pos + m.decl.getSourceFile().fileName), st);
      if (cls && m && ts.isPropertyDeclaration(m.decl)) sdecl = m.decl;
    }
    // symbolic read
    let ver = 0;
    const computed = sdecl && (ts.isAccessor(sdecl) || sdecl.modifiers?.some((m) => m.kind === SK.AbstractKeyword));
    if (sdecl && !computed ? (this.isMutable(sdecl) && !(this.P.inRepo(sdecl) && !this.writers().has(sdecl))) : true) ver = st.epoch;
    if (k.k === 'c' && k.v === 'length') ver = st.arrVer.get(base.id) ?? 0;
    let t;
    if (this.isIndex(k, st) && !(base.k === 's' && base.regex)) t = T.idx(base, k, 0);
    else t = T.field(base, k.k === 'c' ? String(k.v) : '[' + k.id + ']', ver);
    t.keyTerm = k; t.baseTerm = base;
    if (t.k === 'f' && k.k === 'c' && k.v === 'length') { t.nonneg = true; t.m0 = I; }
    let ty = node ? (symNode && !ts.isBindingElement(symNode) ? this.propType(symNode) : ts.isBindingElement(symNode ?? node) ? this.bindingType(symNode ?? node, String(k.v)) : this.elemType(node)) : undefined;
    if (ty) this.typed(t, ty);
    t.sdecl ??= sdecl;
    this.hinfo.get(key).sym ??= sdecl;
    return f(st.find(t), st);
  }
  isBuiltinProp(n) { return ['toString', 'constructor', 'hasOwnProperty', 'valueOf'].includes(n); }
  elemType(node) {
    if (!node || ts.isBindingElement(node)) return undefined;
    if (ts.isElementAccessExpression(node)) {
      const bt = this.declType(node.expression);
      // may be out of range
      try { const t = this.checker.getTypeAtLocation(node); if (bt && this.checker.isArrayLikeType?.(bt)) { const e = bt.getNumberIndexType?.(); return e ? { union: true, flags: ts.TypeFlags.Union, types: [e, this.checker.getUndefinedType()] } : t; } return t; } catch { return undefined; }
    }
    return undefined;
  }
  bindingProp(be, name) {
    try { const t = this.checker.getTypeAtLocation(be.parent); return t.getProperty(name) ?? this.checker.getApparentType(t).getProperty(name); } catch { return undefined; }
  }
  bindingType(be, name) {
    const s = this.bindingProp(be, name);
    try { return s ? this.checker.getTypeOfSymbol(s) : undefined; } catch { return undefined; }
  }
  isIndex(k, st) {
    if (k.k === 'c') return typeof k.v === 'number';
    return st.mask(k) === I;
  }
  access(node, st, ctx) {
    return this.chain(node, st, ctx, (v, s) => this.ok(s, v));
  }
  /** Evaluates an optional chain link; `f` receives the value. */
  chain(node, st, ctx, f) {
    const isProp = ts.isPropertyAccessExpression(node);
    if (isProp && node.expression.kind === SK.SuperKeyword) {
      const base = this.P.baseClass(ctx.home);
      const m = base && this.P.member(base, node.name.text);
      if (m && !m.abstract) return f(T.bound(m.decl, ctx.thisV, m.decl.pos + m.decl.getSourceFile().fileName), st);
    }
    return this.bind(this.chainBase(node, st, ctx), (b, s) => {
      if (b === SHORT) return this.ok(s, UNDEF);
      const k = isProp ? (s2, g) => g(cst(node.name.text), s2) : (s2, g) => this.bind(this.ev(node.argumentExpression, s2, ctx), g);
      return k(s, (kv, s2) => this.read(b, kv, s2, ctx, node, f));
    });
  }
  chainBase(node, st, ctx) { // evaluates node.expression, handling ?.
    const inner = node.expression;
    const evalInner = isChainPart(inner) ? this.chainRaw(inner, st, ctx) : this.ev(inner, st, ctx);
    if (!node.questionDotToken) return evalInner;
    return this.bind(evalInner, (v, s) => {
      if (v === SHORT) return this.ok(s, SHORT);
      return this.fork(s.pMask(v, U | N), s, node, (nullish, s2) => this.ok(s2, nullish ? SHORT : s2.find(v)), ctx);
    });
  }
  chainRaw(node, st, ctx) { // link of an optional chain: may short-circuit
    if (ts.isNonNullExpression(node)) return this.chainRaw(node.expression, st, ctx);
    if (ts.isCallExpression(node)) return this.callExpr(node, st, ctx, true);
    const isProp = ts.isPropertyAccessExpression(node);
    return this.bind(this.chainBase(node, st, ctx), (b, s) => {
      if (b === SHORT) return this.ok(s, SHORT);
      const k = isProp ? (s2, g) => g(cst(node.name.text), s2) : (s2, g) => this.bind(this.ev(node.argumentExpression, s2, ctx), g);
      return k(s, (kv, s2) => this.read(b, kv, s2, ctx, node, (v, s3) => this.ok(s3, v)));
    });
  }

  // ---- operators -----------------------------------------------------
  prefix(node, st, ctx) {
    switch (node.operator) {
      case SK.ExclamationToken:
        if (isLogical(node.operand)) return this.cond(node.operand, st, ctx, (b, s) => this.ok(s, cst(!b)));
        return this.bind(this.ev(node.operand, st, ctx), (v, s) => this.ok(s, s.pNot(s.pTruthy(v))));
      case SK.MinusToken: return this.bind(this.ev(node.operand, st, ctx), (v, s) => this.ok(s, v.k === 'c' ? cst(-v.v) : op('neg', s.canon(v))));
      case SK.PlusToken: return this.bind(this.ev(node.operand, st, ctx), (v, s) => this.ok(s, v.k === 'c' ? cst(+v.v) : s.mask(v) === I ? v : op('num', s.canon(v))));
      case SK.TildeToken: return this.bind(this.ev(node.operand, st, ctx), (v, s) => this.ok(s, T.bitop('~', s.canon(v))));
      case SK.PlusPlusToken: case SK.MinusMinusToken: return this.incdec(node, st, ctx, true);
    }
    throw new Error('prefix');
  }
  incdec(node, st, ctx, pre) {
    const d = node.operator === SK.PlusPlusToken ? 1 : -1;
    return this.lval(node.operand, st, ctx, (get, set, s) => this.bind(get(s), (v, s2) => {
      const nv = T.linSum(s2.canon(v), cst(d));
      return this.bind(set(nv, s2, node), (_, s3) => this.ok(s3, pre ? nv : v));
    }));
  }
  binary(node, st, ctx) {
    const k = node.operatorToken.kind;
    if (k >= SK.FirstAssignment && k <= SK.LastAssignment) return this.assign(node, st, ctx);
    switch (k) {
      case SK.CommaToken: return this.bind(this.ev(node.left, st, ctx), (_, s) => this.ev(node.right, s, ctx));
      case SK.AmpersandAmpersandToken: case SK.BarBarToken:
        return this.bind(this.ev(node.left, st, ctx), (v, s) => this.fork(s.pTruthy(v), s, node.left, (b, s2) => (b === (k === SK.AmpersandAmpersandToken) ? this.ev(node.right, s2, ctx) : this.ok(s2, s2.find(v))), ctx));
      case SK.QuestionQuestionToken:
        return this.bind(this.ev(node.left, st, ctx), (v, s) => this.fork(s.pMask(v, U | N), s, node, (b, s2) => (b ? this.ev(node.right, s2, ctx) : this.ok(s2, s2.find(v))), ctx));
      case SK.InKeyword: if (ts.isPrivateIdentifier(node.left)) return this.bind(this.ev(node.right, st, ctx), (v, s) => this.ok(s, op('hasprop', cst(node.left.text), v)));
    }
    return this.seq([node.left, node.right], st, ctx, ([a, b], s) => this.ok(s, this.binop(k, s.canon(a), s.canon(b), s, node)));
  }
  binop(k, a, b, s, node) {
    switch (k) {
      case SK.EqualsEqualsEqualsToken: return s.pEq(a, b);
      case SK.ExclamationEqualsEqualsToken: return s.pNot(s.pEq(a, b));
      case SK.EqualsEqualsToken: case SK.ExclamationEqualsToken: {
        const p = isNullish(b) ? s.pMask(a, U | N) : isNullish(a) ? s.pMask(b, U | N) : s.pEq(a, b, 'looseeq');
        return k === SK.EqualsEqualsToken ? p : s.pNot(p);
      }
      case SK.LessThanToken: return this.numeric(a, b, s) ? s.pLt(a, b) : s.pLt(a, b);
      case SK.GreaterThanToken: return s.pLt(b, a);
      case SK.LessThanEqualsToken: return s.pLeq(a, b);
      case SK.GreaterThanEqualsToken: return s.pLeq(b, a);
      case SK.PlusToken: {
        const ma = s.mask(a), mb = s.mask(b);
        if (a.k === 'c' && b.k === 'c') return cst(a.v + b.v);
        if (ma === S || mb === S) return this.concat([a, b]);
        if (ma === I && mb === I) return T.linSum(a, b);
        if (ma & S || mb & S) return op('+', a, b);
        return T.linSum(a, b);
      }
      case SK.MinusToken: if (a.k === 'c' && b.k === 'c') return cst(a.v - b.v); return T.linSum(a, b, -1);
      case SK.AsteriskToken: {
        if (a.k === 'c' && b.k === 'c') return cst(a.v * b.v);
        if (b.k === 'c' && Number.isInteger(b.v) && Math.abs(b.v) <= 8) { let r = cst(0); for (let i = 0; i < Math.abs(b.v); i++) r = T.linSum(r, a, Math.sign(b.v)); return r; }
        if (a.k === 'c' && Number.isInteger(a.v) && Math.abs(a.v) <= 8) { let r = cst(0); for (let i = 0; i < Math.abs(a.v); i++) r = T.linSum(r, b, Math.sign(a.v)); return r; }
        return op('*', a, b);
      }
      case SK.SlashToken: return a.k === 'c' && b.k === 'c' ? cst(a.v / b.v) : op('/', a, b);
      case SK.PercentToken: return a.k === 'c' && b.k === 'c' ? cst(a.v % b.v) : op('%', a, b);
      case SK.AsteriskAsteriskToken: return a.k === 'c' && b.k === 'c' ? cst(a.v ** b.v) : op('**', a, b);
      case SK.AmpersandToken: {
        const lsb = (x, y) => y.k === 'op' && y.op === 'neg' && y.args[0] === x;
        if (lsb(a, b)) return op('bitlsb', a);
        if (lsb(b, a)) return op('bitlsb', b);
        return T.bitop('&', a, b);
      }
      case SK.BarToken: return T.bitop('|', a, b);
      case SK.CaretToken: return T.bitop('^', a, b);
      case SK.LessThanLessThanToken:
        if (a.k === 'c' && b.k === 'c') return cst(a.v << b.v);
        if (b.k === 'c' && b.v === 1) return T.linSum(a, a);
        return op('bitshl', a, b);
      case SK.GreaterThanGreaterThanToken: case SK.GreaterThanGreaterThanGreaterThanToken:
        if (a.k === 'c' && b.k === 'c') return cst(k === SK.GreaterThanGreaterThanToken ? a.v >> b.v : a.v >>> b.v);
        return op('bitshr', a, b);
      case SK.InstanceOfKeyword: {
        if (a.k === 'o' && a.cls && b.k === 'cls') { for (let c = a.cls; c; c = this.P.baseClass(c)) if (c === b.node) return TRUE; return FALSE; }
        if (!(s.mask(a) & (O | F))) return FALSE;
        return op('instanceof', a, b);
      }
      case SK.InKeyword: return op('hasprop', a, b);
    }
    return op(ts.tokenToString(k) ?? 'op' + k, a, b);
  }
  numeric() { return true; }
  assign(node, st, ctx) {
    const k = node.operatorToken.kind;
    let left = unparen(node.left);
    while (ts.isNonNullExpression(left)) left = unparen(left.expression);
    if (k === SK.EqualsToken) {
      if (ts.isArrayLiteralExpression(left) || ts.isObjectLiteralExpression(left)) {
        return this.bind(this.ev(node.right, st, ctx), (v, s) => this.destructAssign(left, v, s, ctx, (s2) => this.ok(s2, v)));
      }
      return this.lval(left, st, ctx, (get, set, s) => this.bind(this.ev(node.right, s, ctx), (v, s2) => this.bind(set(v, s2, node), (_, s3) => this.ok(s3, v))));
    }
    return this.lval(left, st, ctx, (get, set, s) => this.bind(get(s), (old, s2) => {
      if (k === SK.QuestionQuestionEqualsToken) return this.fork(s2.pMask(old, U | N), s2, node, (b, s3) => (b ? this.bind(this.ev(node.right, s3, ctx), (v, s4) => this.bind(set(v, s4, node), (_, s5) => this.ok(s5, v))) : this.ok(s3, s3.find(old))), ctx);
      if (k === SK.BarBarEqualsToken || k === SK.AmpersandAmpersandEqualsToken) return this.fork(s2.pTruthy(old), s2, node, (b, s3) => (b === (k === SK.AmpersandAmpersandEqualsToken) ? this.bind(this.ev(node.right, s3, ctx), (v, s4) => this.bind(set(v, s4, node), (_, s5) => this.ok(s5, v))) : this.ok(s3, s3.find(old))), ctx);
      return this.bind(this.ev(node.right, s2, ctx), (v, s3) => {
        const nv = this.binop(COMPOUND[k], s3.canon(old), s3.canon(v), s3, node);
        return this.bind(set(nv, s3, node), (_, s4) => this.ok(s4, nv));
      });
    }));
  }
  destructAssign(pat, v, st, ctx, f) {
    const els = ts.isArrayLiteralExpression(pat) ? pat.elements : pat.properties;
    const step = (i, s) => {
      if (i === els.length) return f(s);
      const e = els[i];
      if (ts.isArrayLiteralExpression(pat)) {
        if (ts.isOmittedExpression(e)) return step(i + 1, s);
        return this.read(v, cst(i), s, ctx, null, (x, s2) => this.lval(e, s2, ctx, (g, set, s3) => this.bind(set(x, s3, e), (_, s4) => step(i + 1, s4))));
      }
      const key = cst(memberName(e.name, this.P));
      const target = ts.isPropertyAssignment(e) ? e.initializer : e.name;
      return this.read(v, key, s, ctx, null, (x, s2) => this.lval(target, s2, ctx, (g, set, s3) => this.bind(set(x, s3, e), (_, s4) => step(i + 1, s4))));
    };
    return step(0, st);
  }
  /** f(get, set, st) */
  lval(node, st, ctx, f) {
    node = unparen(node);
    while (ts.isNonNullExpression(node)) node = unparen(node.expression);
    if (ts.isIdentifier(node)) {
      let s = this.checker.getSymbolAtLocation(node);
      if (s && s.flags & ts.SymbolFlags.Alias) s = this.checker.getAliasedSymbol(s);
      const cell = s && ctx.env.lookup(s);
      return f(
        (s1) => this.ok(s1, this.ident(node, s1, ctx)),
        (v, s1, at) => {
          const d = s?.valueDeclaration;
          if (cell !== undefined) {
            s1.cells.set(cell, v);
            const captured = enclosingFn(d) !== enclosingFn(node);
            if (captured) s1.emit({ t: 'set', cell, name: node.text, value: s1.canon(v), node: at, loops: ctx.loops, decl: d });
          } else {
            s1.cells.set('modlet:' + d?.pos + d?.getSourceFile().fileName, v);
            s1.emit({ t: 'set', cell: null, name: node.text, value: s1.canon(v), node: at, loops: ctx.loops, decl: d });
          }
          return this.ok(s1, v);
        }, st);
    }
    if (ts.isPropertyAccessExpression(node) || ts.isElementAccessExpression(node)) {
      return this.seq([node.expression, ts.isPropertyAccessExpression(node) ? (s) => this.ok(s, cst(node.name.text)) : node.argumentExpression], st, ctx, ([b, k], s) => f(
        (s1) => this.read(b, k, s1, ctx, node, (v, s2) => this.ok(s2, v)),
        (v, s1, at) => this.write(b, k, v, s1, ctx, node, at), s));
    }
    throw new Error('lval ' + SK[node.kind]);
  }
  write(b, k, v, st, ctx, node, at) {
    b = st.canon(b); k = st.canon(k);
    let sdecl = null;
    if (node && ts.isPropertyAccessExpression(node)) {
      const s = this.P.symbolOf(node.name);
      const decls = s?.declarations ?? [];
      sdecl = s?.valueDeclaration ?? decls[0] ?? null;
      let setter = decls.find((d) => ts.isSetAccessor(d) && d.body);
      if (b.cls) { for (let c = b.cls; c; c = this.P.baseClass(c)) { const m = c.members.find((x) => ts.isSetAccessor(x) && x.name.getText() === node.name.text); if (m) { setter = m; break; } if (c.members.some((x) => ts.isPropertyDeclaration(x) && x.name.getText() === node.name.text)) { setter = null; break; } } }
      if (setter && this.P.inRepo(setter) && (b.cls || !this.P.subclasses(setter.parent).some((c) => c.members.some((x) => ts.isSetAccessor(x) && x.name.getText() === node.name.text))) && !ctx.stack.includes(setter) && !this.opts.opaque?.(setter, node)) {
        return this.bind(this.invoke(setter, [v], st, ctx, { thisV: b, node }), (_, s) => this.ok(s, v));
      }
    }
    const key = this.hkey(st, b, k);
    if (b.k === 'o' && st.heap.has(key + '#set')) return this.bind(this.callValue(st.heap.get(key + '#set'), b, [v], st, ctx, at), (_, s) => this.ok(s, v));
    const old = st.heap.get(key);
    const it = b.k === 'o' ? st.heap.get(b.id + '#items') : null;
    if (it && this.isIndex(k, st)) {
      if (it.exact && k.k === 'c' && k.v <= it.list.length) { const l = it.list.slice(); l[k.v] = v; st.heap.set(b.id + '#items', { list: l, exact: true }); } else { st.heap.set(b.id + '#items', { list: it.list, exact: false }); }
    }
    if (k.k === 'c' && k.v === 'length') st.arrVer.set(b.id, (st.arrVer.get(b.id) ?? 0) + 1);
    this.hset(st, b, k, v, sdecl);
    // a write through a symbolic alias invalidates same-named fields we cannot separate: only same-base facts are kept
    st.emit({ t: 'write', base: b, name: k.k === 'c' ? String(k.v) : null, key: k, value: st.canon(v), old, node: at ?? node, loops: ctx.loops, sdecl });
    return this.ok(st, v);
  }

  // ---- calls ---------------------------------------------------------
  callExpr(node, st, ctx, raw = false) {
    const callee = unparen(node.expression);
    const done = (outs) => (raw ? outs : outs.map((o) => (o.v === SHORT ? { st: o.st, v: UNDEF } : o)));
    this.callSites.add(node);
    if (callee.kind === SK.SuperKeyword) {
      return this.args(node.arguments, st, ctx, (av, s) => this.superCall(av, s, ctx, node));
    }
    if (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) {
      if (callee.expression.kind === SK.SuperKeyword) {
        const base = this.P.baseClass(ctx.home);
        const m = base && this.P.member(base, callee.name.text);
        return this.args(node.arguments, st, ctx, (av, s) => (m && !m.abstract ? this.invoke(m.decl, av, s, ctx, { thisV: ctx.thisV, node }) : this.external(callee.name.text, 'super.' + callee.name.text, ctx.thisV, null, av, s, ctx, node)));
      }
      return done(this.bind(this.chainBase(callee, st, ctx), (recv, s) => {
        if (recv === SHORT) return this.ok(s, SHORT);
        const key = ts.isPropertyAccessExpression(callee) ? (s1) => this.ok(s1, cst(callee.name.text)) : callee.argumentExpression;
        return this.seq([key], s, ctx, ([k], s1) => {
          const go = (s2, fnV) => this.args(node.arguments, s2, ctx, (av, s3) => this.methodCall(recv, k, av, s3, ctx, node, callee, fnV));
          if (node.questionDotToken) {
            return this.read(recv, k, s1, ctx, callee, (fv, s2) => this.fork(s2.pMask(fv, U | N), s2, node, (nul, s3) => (nul ? this.ok(s3, SHORT) : go(s3, s3.find(fv))), ctx));
          }
          return go(s1, null);
        });
      }));
    }
    return done(this.bind(isChainPart(callee) ? this.chainRaw(callee, st, ctx) : this.ev(callee, st, ctx), (fn, s) => {
      if (fn === SHORT) return this.ok(s, SHORT);
      const go = (s2) => this.args(node.arguments, s2, ctx, (av, s3) => this.callValue(s3.find(fn), UNDEF, av, s3, ctx, node));
      if (node.questionDotToken) return this.fork(s.pMask(fn, U | N), s, node, (nul, s2) => (nul ? this.ok(s2, SHORT) : go(s2)), ctx);
      return go(s);
    }));
  }
  methodCall(recv, k, av, st, ctx, node, callee, fnV) {
    recv = st.canon(recv);
    const name = k.k === 'c' ? String(k.v) : k.k === 'us' ? '[' + k.name + ']' : null;
    // function-valued receivers
    if (name === 'call' || name === 'apply' || name === 'bind') {
      const isFn = ['fn', 'fd', 'bm', 'ext'].includes(recv.k) || st.mask(recv) === F || recv.module || recv.alts || (callee && this.typeMask(this.declType(callee.expression)) === F);
      if (isFn) {
        if (name === 'call') return this.callValue(recv, av[0] ?? UNDEF, av.slice(1), st, ctx, node);
        if (name === 'apply') {
          const items = av[1] && this.exactItems(av[1], st);
          return this.callValue(recv, av[0] ?? UNDEF, items ?? (av[1] ? [T.spread(av[1])] : []), st, ctx, node);
        }
        if (recv.k === 'fn') return this.ok(st, T.closure(recv.node, recv.env, av[0] ?? UNDEF, { ctx: recv.ctx, bound: av.slice(1) }));
        return this.ok(st, op('bound', recv, ...(av.length ? av : [UNDEF])));
      }
    }
    if (name !== null && recv.k === 'ext') return this.extCall(recv.name + '.' + name, recv, av, st, ctx, node);
    if (recv.k === 'cls' && name !== null) {
      const m = this.P.staticMember(recv.node, name);
      if (m && isFunctionLike(m) && m.body) return this.invoke(m, av, st, ctx, { thisV: recv, node });
    }
    const r = this.builtinMethod(recv, name, av, st, ctx, node, callee);
    if (r) return r;
    // own property holding a function
    if (!fnV) {
      const key = this.hkey(st, recv, k);
      if (st.heap.has(key)) fnV = st.find(st.heap.get(key));
    }
    if (fnV && fnV.k !== 'f' && fnV.k !== 'idx' && fnV.k !== 'bm') return this.callValue(fnV, recv, av, st, ctx, node);
    let m = null;
    let sdecl = null;
    const sym = callee && (ts.isPropertyAccessExpression(callee) ? this.P.symbolOf(callee.name) : ts.isElementAccessExpression(callee) ? this.elemSymbol(callee) : null);
    sdecl = sym?.valueDeclaration ?? sym?.declarations?.[0] ?? null;
    const cls = recv.cls ?? null;
    const pname = sdecl?.name && ts.isMethodDeclaration(sdecl) ? memberName(sdecl.name, this.P) : name;
    if (cls && pname !== null) m = this.P.member(cls, pname);
    else if (sdecl && this.P.inRepo(sdecl) && ts.isMethodDeclaration(sdecl) && ts.isClassLike(sdecl.parent) && sdecl.body && !this.P.isOverridden(sdecl.parent, pname)) m = { decl: sdecl };
    if (m && !m.abstract && ts.isMethodDeclaration(m.decl) && m.decl.body) return this.invoke(m.decl, av, st, ctx, { thisV: recv, node });
    if (m && ts.isPropertyDeclaration(m.decl)) { /* function in a field: opaque value */ }
    const owner = sdecl ? ownerName(sdecl) : null;
    let declName = owner && name ? owner + '.' + name : name;
    let fn = null;
    if (sdecl && (ts.isPropertyDeclaration(sdecl) || ts.isPropertySignature(sdecl)) || !sdecl) {
      return this.read(recv, k, st, ctx, callee, (fv, s) => (['fn', 'fd'].includes(fv.k) ? this.callValue(fv, recv, av, s, ctx, node) : this.external(name, declName, recv, fv, av, s, ctx, node, sdecl)));
    }
    return this.external(name, declName, recv, fn, av, st, ctx, node, sdecl);
  }
  elemSymbol(callee) {
    try {
      const t = this.checker.getApparentType(this.checker.getTypeAtLocation(callee.expression));
      const a = callee.argumentExpression;
      const kt = this.checker.getTypeAtLocation(a);
      const nm = kt.flags & ts.TypeFlags.UniqueESSymbol ? kt.escapedName : ts.isStringLiteral(a) ? a.text : undefined;
      return nm ? (t.getProperty(nm) ?? this.checker.getPropertyOfType(t, nm)) : undefined;
    } catch { return undefined; }
  }
  superCall(av, st, ctx, node) {
    const base = this.P.baseClass(ctx.home);
    if (!base) return this.external('super', 'super', ctx.thisV, null, av, st, ctx, node);
    return this.bind(this.construct(base, av, st, ctx, ctx.thisV, node), (_, s) => this.initFields(ctx.home, s, ctx, ctx.thisV));
  }
  /** Runs constructor code of `cls` on object `self`. */
  construct(cls, av, st, ctx, self, node) {
    const ctor = cls.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
    const base = this.P.baseClass(cls);
    if (ctor) {
      const run = (s) => this.invoke(ctor, av, s, ctx, { thisV: self, node, home: cls, noThisReturn: true });
      if (cls.heritageClauses?.some((h) => h.token === SK.ExtendsKeyword)) return run(st); // fields initialised at super()
      return this.bind(this.initFields(cls, st, ctx, self), (_, s) => run(s));
    }
    if (base) return this.bind(this.construct(base, av, st, ctx, self, node), (_, s) => this.initFields(cls, s, ctx, self));
    return this.initFields(cls, st, ctx, self);
  }
  initFields(cls, st, ctx, self) {
    const props = cls.members.filter((m) => ts.isPropertyDeclaration(m) && !isStatic(m) && m.initializer);
    const step = (i, s) => {
      if (i === props.length) return this.ok(s, UNDEF);
      const p = props[i];
      return this.bind(this.ev(p.initializer, s, { ...ctx, thisV: self, home: cls, env: new Env(null), fn: null }), (v, s2) => { this.hset(s2, self, cst(memberName(p.name, this.P)), v, p); return step(i + 1, s2); });
    };
    return step(0, st);
  }
  newExpr(node, st, ctx) {
    this.callSites.add(node);
    return this.seq([node.expression], st, ctx, ([c], s) => this.args(node.arguments ?? [], s, ctx, (av, s2) => this.instantiate(c, av, s2, ctx, node)));
  }
  instantiate(c, av, st, ctx, node) {
    if (c.k === 'cls') {
      const cls = c.node;
      const self = T.alloc('class', { label: cls.name?.text });
      self.cls = cls;
      const ext = this.externalBase(cls);
      if (this.opts.opaqueNew?.(cls, node) || ctx.stack.filter((x) => x === cls).length > 1) {
        st.emit({ t: 'new', cls, obj: self, args: av.map((a) => st.canon(a)), node, loops: ctx.loops, name: cls.name?.text });
        return this.ok(st, self);
      }
      st.emit({ t: 'new', cls, obj: self, args: av.map((a) => st.canon(a)), node, loops: ctx.loops, name: cls.name?.text });
      if (ext) { this.hset(st, self, cst('message'), av[0] ?? UNDEF); }
      return this.bind(this.construct(cls, av, st, { ...ctx, stack: [...ctx.stack, cls] }, self, node), (_, s) => this.ok(s, self));
    }
    const name = c.k === 'ext' ? c.name : null;
    if (name === 'Array') {
      const o = T.alloc('arrn', { len: av.length === 1 ? av[0] : null });
      if (av.length === 0) st.heap.set(o.id + '#items', { list: [], exact: true });
      return this.ok(st, o);
    }
    const o = T.alloc('ext', { label: name ?? 'new', ctor: c });
    st.emit({ t: 'new', cls: null, name, fn: c, obj: o, args: av.map((a) => st.canon(a)), node, loops: ctx.loops });
    if (name === 'Promise' && av[0]?.k === 'fn') {
      const res = T.sym('resolve#' + o.n, {}), rej = T.sym('reject#' + o.n, {});
      res.m0 = F; rej.m0 = F; res.promise = o; rej.promise = o;
      return this.bind(this.callValue(av[0], UNDEF, [res, rej], st, ctx, node), (_, s) => this.ok(s, o));
    }
    if (c.k === 's' || c.k === 'f' || c.k === 'r') return this.maybeThrow(st, ctx, node, { t: 'call', name: 'new', fn: c, recv: null, args: av, res: o, node, loops: ctx.loops }, o);
    return this.ok(st, o);
  }
  externalBase(cls) {
    for (let c = cls; c; c = this.P.baseClass(c)) {
      const h = c.heritageClauses?.find((x) => x.token === SK.ExtendsKeyword);
      if (!h) return null;
      if (!this.P.baseClass(c)) return h.types[0].expression.getText();
    }
    return null;
  }
  maybeThrow(st, ctx, node, ev, v) {
    if (this.opts.throws?.(ev, ctx)) {
      const s2 = st.clone();
      const err = T.sym('thrown:' + (node?.pos ?? 0) + ':' + T.fresh());
      err.from = ev;
      s2.emit({ t: 'throwback', from: ev, value: err, node });
      return [{ st: s2, thr: err }, { st, v }];
    }
    return this.ok(st, v);
  }
  /** Call of a function value. */
  callValue(fn, thisV, av, st, ctx, node) {
    fn = st.canon(fn);
    this.tick();
    switch (fn.k) {
      case 'fn': {
        const all = fn.bound ? [...fn.bound, ...av] : av;
        const tv = ts.isArrowFunction(fn.node) || fn.bound ? fn.thisV : (thisV && thisV !== UNDEF ? thisV : fn.thisV ?? UNDEF);
        return this.invoke(fn.node, all, st, ctx, { thisV: fn.static ? fn.thisV : tv, env: fn.env, node, closure: fn, home: fn.ctx?.home });
      }
      case 'fd': return this.invoke(fn.node, av, st, ctx, { thisV: thisV ?? UNDEF, node });
      case 'bm': return this.invoke(fn.decl, av, st, ctx, { thisV: thisV && thisV !== UNDEF ? thisV : fn.recv, node });
      case 'ext': {
        const last = fn.name.split('.').at(-1);
        if (fn.name.includes('.prototype.')) {
          const r = this.builtinMethod(thisV, last, av, st, ctx, node, null);
          if (r) return r;
          return this.external(last, fn.name, thisV, fn, av, st, ctx, node);
        }
        return this.extCall(fn.name, thisV, av, st, ctx, node);
      }
      case 'op': if (fn.op === 'bound') return this.callValue(fn.args[0], fn.args[1], [...fn.args.slice(2), ...av], st, ctx, node);
    }
    let name = null;
    if (fn.k === 'f') name = fn.name;
    if (fn.alts?.length) { const ns = [...new Set(fn.alts.map((a) => a.k === 'ext' ? a.name.split('.').at(-1) : a.k === 'f' ? a.name : '?'))]; name = ns.join('|'); }
    return this.external(name ?? fn.label ?? null, null, thisV, fn, av, st, ctx, node);
  }
  /** Enters a function of the repository. */
  invoke(fn, av, st, ctx, { thisV = UNDEF, env = null, node = null, top = false, home = null, closure = null } = {}) {
    this.tick();
    if (!fn.body) return this.external(fn.name?.getText?.() ?? null, ownerName(fn) ? ownerName(fn) + '.' + fn.name.getText() : null, thisV, null, av, st, ctx, node, fn);
    const rec = ctx.stack.includes(fn);
    const isAsync = fn.modifiers?.some((m) => m.kind === SK.AsyncKeyword);
    const isGen = !!fn.asteriskToken;
    const dname = this.declName(fn);
    const awaited = node && (ts.isAwaitExpression(skipParens(node.parent)) || (ts.isReturnStatement(skipParens(node.parent)) && enclosingFn(node)?.modifiers?.some((m) => m.kind === SK.AsyncKeyword)));
    if (!top && (rec || this.opts.opaque?.(fn, node, thisV) || ctx.depth >= this.opts.depth || isGen || (isAsync && !awaited && !this.opts.inlineAsync && !ctx.entry))) {
      return this.external(fn.name?.getText?.() ?? null, dname, thisV, closure, av, st, ctx, node, fn, { rec, target: fn });
    }
    this.funcs.add(fn);
    const env2 = new Env(env);
    const ctx2 = {
      thisV, env: env2, fn, home: home ?? (ts.isClassLike(fn.parent) ? fn.parent : closure?.ctx?.home ?? ctx.home), loops: ctx.loops,
      stack: [...ctx.stack, fn], depth: ctx.depth + 1, tries: ctx.tries,
      asyncRoot: ctx.asyncRoot ?? (isAsync ? fn : null),
    };
    const enter = { t: 'enter', fn, decl: dname, name: fn.name?.getText?.() ?? null, recv: thisV, args: av.map((a) => st.canon(a)), node, loops: ctx.loops, closure };
    if (!top) st.emit(enter);
    let outs = this.params(fn, av, st, ctx2, (s) => {
      if (!ts.isBlock(fn.body)) return this.ev(fn.body, s, ctx2);
      return this.block(fn.body.statements, s, ctx2).map((c) => {
        switch (c.c) {
          case 'n': return { st: c.st, v: UNDEF };
          case 'r': return { st: c.st, v: c.v };
          case 't': return { st: c.st, thr: c.v };
          case 'x': return { st: c.st, cut: c.loop };
        }
        return { st: c.st, v: UNDEF };
      });
    });
    if (outs.length > this.opts.maxPaths) throw new Limit('paths');
    if (!top) for (const o of outs) o.st.emit({ t: 'leave', fn, value: o.thr ?? o.v ?? UNDEF, thr: !!o.thr, enter });
    if (isAsync && !top && awaited) {
      // value of the promise, forwarded to the await
      outs = outs.map((o) => (o.thr || o.cut ? o : { st: o.st, v: T.res('ap' + o.v.id, { label: 'async', n: o.v.id, inner: o.v }) }));
    }
    return outs;
  }
  declName(fn) {
    const n = fn.name?.getText?.();
    if (!n) { if (ts.isVariableDeclaration(fn.parent) || ts.isPropertyAssignment(fn.parent)) return fn.parent.name.getText(); if (ts.isConstructorDeclaration(fn)) return (fn.parent.name?.text ?? '') + '.constructor'; return null; }
    return ts.isClassLike(fn.parent) ? (fn.parent.name?.text ?? '') + '.' + n : n;
  }
  params(fn, av, st, ctx, f) {
    // hoist var/function scopes lazily: block() declares functions
    const ps = fn.parameters.filter((p) => !(ts.isIdentifier(p.name) && p.name.text === 'this'));
    const step = (i, s) => {
      if (i === ps.length) return f(s);
      const p = ps[i];
      let v;
      const spreadAt = av.findIndex((a) => a.k === 'spread');
      if (p.dotDotDotToken) {
        if (av[i]?.k === 'spread' && av.length === i + 1) {
          v = av[i].of; // the array as given
        } else {
          v = T.alloc('array', {});
          const l = av.slice(i);
          s.heap.set(v.id + '#items', { list: l, exact: !l.some((x) => x.k === 'spread') });
        }
      } else if (spreadAt >= 0 && i >= spreadAt) v = T.idx(av[spreadAt].of, cst(i - spreadAt));
      else v = av[i] ?? UNDEF;
      return this.declarePattern(p.name, v, s, ctx, p.initializer, (s2) => step(i + 1, s2));
    };
    return step(0, st);
  }
  /** Binds a pattern; f(st) continues with outcomes. */
  declarePattern(name, v, st, ctx, init, f) {
    if (init) {
      return this.fork(st.pMask(v, U), st, null, (undef, s) => {
        if (!undef) return this.declarePattern(name, s.find(v), s, ctx, null, f);
        return this.bind(this.ev(init, s, ctx), (v2, s2) => this.declarePattern(name, v2, s2, ctx, null, f));
      }, ctx);
    }
    if (ts.isIdentifier(name)) {
      const s = this.checker.getSymbolAtLocation(name);
      if (s) { const cell = ctx.env.declare(s); st.cells.set(cell, v); }
      if (v.k !== 'c' && v.k !== 'o' && v.k !== 'fn' && v.m0 === undefined && name.parent.type) this.typed(v, this.declType(name));
      return f(st);
    }
    const els = name.elements;
    const step = (i, s) => {
      if (i === els.length) return f(s);
      const e = els[i];
      if (ts.isOmittedExpression(e)) return step(i + 1, s);
      if (e.dotDotDotToken) {
        const o = T.alloc(ts.isArrayBindingPattern(name) ? 'array' : 'rest', { of: v });
        if (ts.isArrayBindingPattern(name)) { const it = this.exactItems(v, s); if (it) s.heap.set(o.id + '#items', { list: it.slice(i), exact: true }); }
        return this.declarePattern(e.name, o, s, ctx, null, (s2) => step(i + 1, s2));
      }
      const key = ts.isArrayBindingPattern(name) ? cst(i) : e.propertyName ? (ts.isComputedPropertyName(e.propertyName) ? null : cst(memberName(e.propertyName, this.P))) : cst(e.name.getText());
      const go = (k, s1) => this.read(v, k, s1, ctx, ts.isArrayBindingPattern(name) ? null : e, (x, s2) => this.declarePattern(e.name, x, s2, ctx, e.initializer, (s3) => step(i + 1, s3)));
      return key ? go(key, s) : this.bind(this.ev(e.propertyName.expression, s, ctx), go);
    };
    return step(0, st);
  }
  external(name, decl, recv, fn, av, st, ctx, node, sdecl = null, extra = {}) {
    const n = T.fresh();
    let r;
    const cr = st.canon(recv ?? UNDEF);
    const args = av.map((a) => st.canon(a));
    if (extra.pure) {
      r = T.res(`pure:${name}:${cr.id}:${st.arrVer.get(cr.id) ?? 0}:${args.map((a) => a.id).join(',')}:${extra.ver ?? ''}`, { label: name, n: 0, recv: cr, args, name, pure: true });
    } else r = T.res('call' + n, { label: name ?? (fn ? T.show(fn) : 'call'), n, recv: cr, args, name, fn });
    if (node && ts.isCallExpression(node)) { let ty; try { ty = this.checker.getTypeAtLocation(node); } catch { ty = undefined; } if (ty) this.typed(r, ty); }
    const e = { t: 'call', name, decl, recv: cr, fn: fn ? st.canon(fn) : null, args, rawArgs: av, res: r, node, loops: ctx.loops, sdecl, ...extra };
    r.ev ??= e;
    if (extra.pure && !this.opts.pureEvents) { /* still recorded, cheaply */ e.pure = true; }
    st.emit(e);
    if (this.opts.escape && !extra.pure) this.escaped(args, st);
    if (this.opts.havoc?.(e)) this.havoc(st, ctx, node);
    if (extra.pure) return this.ok(st, st.find(r));
    // arrays passed on may be filled
    return this.maybeThrow(st, ctx, node, e, r);
  }
  /** Calls on global/built-in functions. */
  extCall(name, recv, av, st, ctx, node) {
    switch (name) {
      case 'Object.is': return this.ok(st, st.pEq(av[0] ?? UNDEF, av[1] ?? UNDEF, 'is'));
      case 'Array.isArray': {
        const v = st.canon(av[0] ?? UNDEF);
        if (v.k === 'o' && ['array', 'arrn', 'map', 'copy'].includes(v.kind)) return this.ok(st, TRUE);
        if (!(st.mask(v) & O)) return this.ok(st, FALSE);
        return this.ok(st, op('isArray', v));
      }
      case 'Object.freeze': case 'Object.seal': case 'Object.preventExtensions':
        st.emit({ t: 'call', name: name.split('.')[1], decl: name, recv: T.ext('Object'), args: av.map((a) => st.canon(a)), res: av[0], node, loops: ctx.loops });
        return this.ok(st, av[0] ?? UNDEF);
      case 'Array.from': {
        if (av.length === 1) return this.ok(st, this.copyOf(av[0], st));
        return this.eachCall(av[0], av[1], UNDEF, 'map', st, ctx, node);
      }
      case 'Array.of': { const o = T.alloc('array', {}); st.heap.set(o.id + '#items', { list: av, exact: true }); return this.ok(st, o); }
      case 'Math.min': case 'Math.max': case 'Math.clz32': case 'Math.abs': case 'Math.floor':
        if (av.every((a) => a.k === 'c')) return this.ok(st, cst(Math[name.slice(5)](...av.map((a) => a.v))));
        { const t = op(name, ...av.map((a) => st.canon(a))); t.m0 = I; return this.ok(st, t); }
      case 'Boolean': if (av[0]) return this.ok(st, st.pTruthy(av[0])); break;
      case 'String': if (av[0] && st.mask(av[0]) === S) return this.ok(st, av[0]); break;
      case 'Object.assign': {
        const o = st.canon(av[0]);
        for (const src of av.slice(1)) {
          if (src.k === 'o') { for (const k of this.ownKeys(st, src)) this.bind(this.write(o, k, st.heap.get(this.hkey(st, src, k)), st, ctx, null, node), () => []); } else st.emit({ t: 'call', name: 'assign', decl: name, recv: T.ext('Object'), args: av, res: o, node, loops: ctx.loops });
        }
        return this.ok(st, o);
      }
    }
    const last = name.split('.').at(-1);
    const r = recv && recv.k === 'ext' ? recv : T.ext(name.includes('.') ? name.slice(0, name.lastIndexOf('.')) : 'globalThis');
    if (PURE_EXT.has(name)) return this.external(last, name, r, null, av, st, ctx, node, null, { pure: true, ver: name });
    return this.external(last, name, r, T.ext(name), av, st, ctx, node);
  }
  copyOf(v, st) {
    v = st.canon(v);
    const items = this.exactItems(v, st);
    if (items) { const o = T.alloc('array', {}); st.heap.set(o.id + '#items', { list: items.slice(), exact: true }); return o; }
    const o = T.alloc('copy', { of: v });
    return o;
  }
  /** Array, Map, Set and function built-ins. */
  builtinMethod(recv, name, av, st, ctx, node, callee) {
    if (name === null) return null;
    const it = recv.k === 'o' ? st.heap.get(recv.id + '#items') : null;
    const isArr = it || (recv.k === 'o' && ['array', 'arrn', 'map', 'copy'].includes(recv.kind)) || (callee && this.isArrayType(this.declType(callee.expression)));
    if (isArr) {
      const touch = () => st.arrVer.set(recv.id, (st.arrVer.get(recv.id) ?? 0) + 1);
      const ev = (res = UNDEF) => st.emit({ t: 'call', name, decl: 'Array.' + name, recv, args: av.map((a) => st.canon(a)), res, node, loops: ctx.loops, builtin: true });
      switch (name) {
        case 'push': {
          if (it) {
            // a push inside a generic iteration stands for any number of pushes
            const inLoop = ctx.loops.length > (recv.loopDepth ?? 0) && ctx.loops.some((l) => l.n > recv.n);
            st.heap.set(recv.id + '#items', { list: [...it.list, ...av], exact: it.exact && !inLoop && !av.some((a) => a.k === 'spread') });
          }
          touch();
          const r = T.field(recv, 'length', st.arrVer.get(recv.id)); r.m0 = I; r.nonneg = true;
          ev(r);
          if (av.some((a) => a.k !== 'spread')) { st.assume(st.pNot(st.pEq(r, cst(0))), true); st.assume(st.pLe(r, 0), false); }
          return this.ok(st, r);
        }
        case 'pop': case 'shift': {
          let r;
          if (it?.exact && !ctx.loops.some((l) => l.n > recv.n)) {
            const l = it.list.slice(); r = (name === 'pop' ? l.pop() : l.shift()) ?? UNDEF;
            st.heap.set(recv.id + '#items', { list: l, exact: true });
          } else { r = T.res(name + T.fresh(), { label: name, n: T.fresh(), recv, args: [], name }); if (node) this.typed(r, this.declType(node)); if (it) st.heap.set(recv.id + '#items', { list: it.list, exact: false }); }
          touch(); ev(r);
          return this.ok(st, r);
        }
        case 'unshift': case 'splice': case 'sort': case 'fill': case 'reverse': case 'copyWithin': {
          if (name === 'splice' && av.length === 1 && av[0] === cst(0)) {
            const c = this.copyOf(recv, st); ev(c);
            if (it) st.heap.set(recv.id + '#items', { list: [], exact: true }); else { touch(); }
            return this.ok(st, c);
          }
          if (name === 'unshift' && it?.exact && !ctx.loops.some((l) => l.n > recv.n)) { st.heap.set(recv.id + '#items', { list: [...av, ...it.list], exact: true }); ev(); return this.ok(st, cst(it.list.length + av.length)); }
          if (name === 'reverse' && it?.exact) { st.heap.set(recv.id + '#items', { list: it.list.slice().reverse(), exact: true }); ev(recv); return this.ok(st, recv); }
          if (it && name !== 'sort') st.heap.set(recv.id + '#items', { list: it.list, exact: false });
          if (name !== 'sort' && name !== 'fill') touch();
          const r = name === 'sort' || name === 'fill' || name === 'reverse' ? recv : T.res(name + T.fresh(), { label: name, n: T.fresh(), recv, args: av, name });
          ev(r);
          return this.ok(st, r);
        }
        case 'slice': if (av.length === 0 || (av.length === 1 && av[0] === cst(0))) return this.ok(st, this.copyOf(recv, st)); break;
        case 'at':
          if (it?.exact && av[0]?.k === 'c') return this.ok(st, it.list.at(av[0].v) ?? UNDEF);
          if (av[0]?.k === 'c' && av[0].v < 0) return this.read(recv, cst('length'), st, ctx, null, (l, s) => this.read(recv, T.linSum(l, av[0]), s, ctx, null, (v, s2) => this.ok(s2, v)));
          return this.read(recv, av[0] ?? cst(0), st, ctx, null, (v, s) => this.ok(s, v));
        case 'concat': {
          const items = it?.exact ? it.list : null;
          const more = av.map((a) => this.exactItems(a, st) ?? (st.canon(a).k === 'o' || this.isArrayTerm(a) ? null : [a]));
          if (items && more.every(Boolean)) { const o = T.alloc('array', {}); st.heap.set(o.id + '#items', { list: [...items, ...more.flat()], exact: true }); return this.ok(st, o); }
          const o = T.alloc('array', { concat: true });
          st.heap.set(o.id + '#items', { list: [T.spread(recv), ...av.map((a) => (this.isArrayTerm(a) ? T.spread(a) : a))], exact: false });
          return this.ok(st, o);
        }
        case 'forEach': case 'map': case 'some': case 'every': case 'filter': case 'find': case 'findIndex': case 'findLast': case 'findLastIndex': case 'flatMap': case 'reduce':
          return this.eachCall(recv, av[0], av[1], name, st, ctx, node);
      }
      if (PURE_METHODS.has(name) && name !== 'reverse') return this.external(name, 'Array.' + name, recv, null, av, st, ctx, node, null, { pure: true });
      return null;
    }
    if (['set', 'add', 'delete', 'clear'].includes(name) && this.collType(recv, callee)) {
      st.arrVer.set(recv.id, (st.arrVer.get(recv.id) ?? 0) + 1);
      return null;
    }
    if (name === 'forEach' && av[0] && ['fn', 'fd'].includes(av[0].k)) return this.eachCall(recv, av[0], UNDEF, 'forEach', st, ctx, node);
    if (PURE_METHODS.has(name) && (this.collType(recv, callee) || (st.mask(recv) & ~(S | I | B)) === 0 || recv.regex)) {
      return this.external(name, (st.mask(recv) === S ? 'String.' : 'Collection.') + name, recv, null, av, st, ctx, node, null, { pure: true });
    }
    return null;
  }
  isArrayTerm(a) { return (a.k === 'o' && ['array', 'arrn', 'map', 'copy'].includes(a.kind)) || (a.typ && this.isArrayType(a.typ)); }
  isArrayType(t) {
    if (!t || t.union) return false;
    if (t.flags & ts.TypeFlags.Union) return t.types.some((x) => this.isArrayType(x)) && t.types.every((x) => this.isArrayType(x) || x.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null));
    if (t.flags & ts.TypeFlags.TypeParameter) { const c = this.checker.getBaseConstraintOfType(t); return c && c !== t ? this.isArrayType(c) : false; }
    const n = t.symbol?.name;
    return this.checker.isArrayLikeType?.(t) || n === 'Array' || n === 'ReadonlyArray';
  }
  collType(recv, callee) {
    if (recv.k === 'o' && recv.kind === 'ext') return ['Map', 'Set', 'WeakMap', 'WeakSet'].includes(recv.label);
    const t = callee ? this.declType(callee.expression) : recv.typ;
    const n = t?.symbol?.name ?? (t?.types?.map((x) => x.symbol?.name).find(Boolean));
    return ['Map', 'Set', 'WeakMap', 'WeakSet', 'ReadonlyMap', 'ReadonlySet', 'URLSearchParams'].includes(n);
  }

  // ================= loops ============================================
  newLoop(kind, node, ctx, props = {}) { return { n: T.fresh(), kind, node, parent: ctx.loops.at(-1) ?? null, ...props }; }
  /** Higher-order array methods as loops. */
  eachCall(arr, fnV, extra, name, st, ctx, node) {
    arr = st.canon(arr);
    fnV = st.canon(fnV);
    const items = this.exactItems(arr, st);
    if (items && items.length <= 6) return this.eachExact(items, arr, fnV, extra, name, st, ctx, node);
    const loop = this.newLoop('each', node, ctx, { over: arr, method: name, backwards: name === 'findLast' || name === 'findLastIndex' });
    const i = T.hv(loop, 'i', null); i.m0 = I; i.nonneg = true;
    loop.index = i;
    const ctx2 = { ...ctx, loops: [...ctx.loops, loop] };
    const out = [];
    // zero iterations
    const s0 = st.clone();
    const lenZero = (s) => this.read(arr, cst('length'), s, ctx, null, (l, s2) => (s2.assume(s2.pEq(l, cst(0)), true) ? this.ok(s2, UNDEF) : []));
    const empty = name === 'map' || name === 'filter' || name === 'flatMap' ? (s) => { const o = T.alloc('array', {}); s.heap.set(o.id + '#items', { list: [], exact: true }); return o; } : name === 'some' ? () => FALSE : name === 'every' ? () => TRUE : name === 'reduce' ? () => extra ?? UNDEF : name === 'findIndex' || name === 'findLastIndex' ? () => cst(-1) : () => UNDEF;
    for (const o of lenZero(s0)) { o.st.emit({ t: 'loopzero', loop, node }); out.push({ st: o.st, v: empty(o.st) }); }
    const one = (s, acc) => {
      s.emit({ t: 'loop', loop, node, loops: ctx.loops });
      return this.read(arr, i, s, ctx2, null, (el, s2) => {
        const el2 = el;
        const a = name === 'reduce' ? [acc, el2, i, arr] : [el2, i, arr];
        return this.callValue(fnV, UNDEF, a, s2, ctx2, node);
      });
    };
    let accHv = UNDEF;
    if (name === 'reduce') { accHv = T.hv(loop, 'acc', extra ?? UNDEF); if (extra) accHv.m0 = baseMask(extra); loop.carried = new Map([['acc', { init: extra ?? UNDEF, hv: accHv }]]); }
    const s1 = this.prepareLoop(st, loop, ctx2, (s) => one(s, accHv));
    s1.assume(s1.pLt(i, T.typedLength?.(arr) ?? this.lengthTerm(arr, s1)), true);
    for (const o of one(s1, accHv)) {
      if (o.thr || o.cut) { out.push(o); continue; }
      const s = o.st;
      const whole = (s2, how = 'full') => s2.emit({ t: 'loopend', loop, how, node });
      if (!STOPS.has(name)) whole(s);
      switch (name) {
        case 'forEach': out.push({ st: s, v: UNDEF }); break;
        case 'map': {
          // what one element became says nothing about the others if it was decided or made per element
          const value = s.canon(o.v), made = new Set(), inside = s.events.filter((e) => e.loops?.includes(loop));
          for (const e of inside) { if (e.res) made.add(s.canon(e.res)); if (e.obj) made.add(e.obj); }
          const varies = inside.some((e) => e.t === 'branch') || T.contains(value, (x) => made.has(x));
          const m = T.alloc('map', { over: arr, index: i, value, loop, varies, elemTyp: o.v.typ });
          out.push({ st: s, v: m }); break; }
        case 'flatMap': { const m = T.alloc('array', { flatOf: arr }); s.heap.set(m.id + '#items', { list: [T.spread(o.v)], exact: false }); out.push({ st: s, v: m }); break; }
        case 'reduce': loop.carried.get('acc').next = o.v; out.push({ st: s, v: s.canon(o.v) }); break;
        case 'some': case 'every': case 'find': case 'findIndex': case 'filter': case 'findLast': case 'findLastIndex':
          out.push(...this.fork(s.pTruthy(o.v), s, node, (b, s2) => {
            if (STOPS.has(name)) whole(s2, b !== (name === 'every') ? 'break' : 'full');
            if (name === 'some') return this.ok(s2, cst(b));
            if (name === 'every') return this.ok(s2, cst(b));
            if (name === 'find' || name === 'findLast') return b ? this.read(arr, i, s2, ctx, null, (v, s3) => this.ok(s3, v)) : this.ok(s2, UNDEF);
            if (name === 'findIndex' || name === 'findLastIndex') return this.ok(s2, b ? i : cst(-1));
            const o2 = T.alloc('array', { filtered: arr, kept: b });
            s2.heap.set(o2.id + '#items', { list: b ? [T.idx(arr, i)] : [], exact: false });
            return this.ok(s2, o2);
          }, ctx2));
      }
    }
    return out;
  }
  lengthTerm(arr, st) {
    let r = null;
    const it = this.exactItems(arr, st);
    if (it) return cst(it.length);
    if (arr.k === 'o' && arr.kind === 'map') return this.lengthTerm(arr.over, st);
    if (arr.k === 'o' && arr.kind === 'copy' && !st.arrVer.get(arr.id)) return this.lengthTerm(arr.of, st);
    if (arr.k === 'o' && arr.kind === 'arrn' && arr.len && !st.arrVer.get(arr.id)) return arr.len;
    r = T.field(arr, 'length', st.arrVer.get(arr.id) ?? 0); r.m0 = I; r.nonneg = true;
    return r;
  }
  eachExact(items, arr, fnV, extra, name, st, ctx, node) {
    const step = (i, s, acc) => {
      if (i === items.length) {
        if (name === 'map' || name === 'filter' || name === 'flatMap') { const o = T.alloc('array', {}); s.heap.set(o.id + '#items', { list: acc, exact: true }); return this.ok(s, o); }
        return this.ok(s, name === 'some' ? FALSE : name === 'every' ? TRUE : name === 'reduce' ? acc : name === 'findIndex' || name === 'findLastIndex' ? cst(-1) : UNDEF);
      }
      const at = name.startsWith('findLast') ? items.length - 1 - i : i;
      const a = name === 'reduce' ? [acc, items[at], cst(at), arr] : [items[at], cst(at), arr];
      return this.bind(this.callValue(fnV, UNDEF, a, s, ctx, node), (v, s2) => {
        switch (name) {
          case 'forEach': return step(i + 1, s2, acc);
          case 'map': case 'flatMap': return step(i + 1, s2, [...acc, v]);
          case 'reduce': return step(i + 1, s2, v);
          default: return this.fork(s2.pTruthy(v), s2, node, (b, s3) => {
            if (name === 'some') return b ? this.ok(s3, TRUE) : step(i + 1, s3, acc);
            if (name === 'every') return b ? step(i + 1, s3, acc) : this.ok(s3, FALSE);
            if (name === 'find') return b ? this.ok(s3, items[i]) : step(i + 1, s3, acc);
            if (name === 'findIndex' || name === 'findLastIndex') return b ? this.ok(s3, cst(at)) : step(i + 1, s3, acc);
            return step(i + 1, s3, b ? [...acc, items[i]] : acc);
          }, ctx);
        }
      });
    };
    return step(0, st, name === 'reduce' ? extra ?? UNDEF : []);
  }
  /**
   * Finds what an iteration changes and returns a state where those cells and
   * heap entries have an unknown (loop-carried) value.
   */
  prepareLoop(st, loop, ctx, body) {
    const before = st.clone();
    const probe = st.clone();
    let outs;
    this.probing = (this.probing ?? 0) + 1;
    try { outs = body(probe); } finally { this.probing--; }
    const cells = new Map(), heap = new Map();
    for (const o of outs) {
      const s = o.st;
      for (const [k, v] of s.cells) if (before.cells.has(k) && before.cells.get(k) !== v) { if (!cells.has(k)) cells.set(k, []); cells.get(k).push([v, s]); }
      for (const [k, v] of s.heap) {
        if (before.heap.get(k) === v) continue;
        const info = this.hinfo.get(k);
        if (k.endsWith('#items')) { if (before.heap.has(k)) heap.set(k, { items: true }); continue; }
        if (k.includes('#')) continue;
        if (!info) continue;
        if (this.dependsOnLoop(info.base, loop) || this.dependsOnLoop(info.key, loop)) continue;
        if (info.base.k === 'o' && info.base.n > loop.n) continue; // created inside
        if (!heap.has(k)) heap.set(k, { vals: [] });
        heap.get(k).vals?.push([v, s]);
      }
      for (const [id, ver] of s.arrVer) if (before.arrVer.get(id) !== ver) heap.set('ver:' + id, { ver: id });
    }
    loop.carried ??= new Map();
    const monot = (init, vals) => {
      let up = true, down = true;
      for (const [v, s] of vals) {
        const d = T.linSum(s.canon(v), s.canon(init), -1);
        if (d.k !== 'c' || typeof d.v !== 'number' || Number.isNaN(d.v)) return 0;
        if (d.v < 0) up = false;
        if (d.v > 0) down = false;
      }
      return up ? 1 : down ? -1 : 0;
    };
    for (const [k, vals] of cells) {
      const init = before.cells.get(k);
      const h = T.hv(loop, k.split(':').at(-1), init);
      h.m0 = vals.reduce((m, [v, s]) => m | s.mask(v), before.mask(init));
      h.typ ??= init.typ ?? vals[0]?.[0]?.typ;
      st.cells.set(k, h);
      loop.carried.set(k, { init, hv: h, cell: true });
      if (h.m0 === I) { const m = monot(init, vals); if (m > 0) st.assume(st.pLeq(init, h), true); else if (m < 0) st.assume(st.pLeq(h, init), true); h.mono = m; }
    }
    for (const [k, x] of heap) {
      if (x.ver !== undefined) { st.arrVer.set(x.ver, (st.arrVer.get(x.ver) ?? 0) + 1000 * loop.n); continue; }
      if (x.items) { const cur = st.heap.get(k); st.heap.set(k, { list: cur.list ?? [], exact: false, carried: loop }); continue; }
      const info = this.hinfo.get(k);
      const init = before.heap.get(k) ?? null;
      const h = T.hv(loop, 'h' + k, init);
      h.m0 = x.vals.reduce((m, [v, s]) => m | s.mask(v), init ? before.mask(init) : ALL);
      if (!init) { const any = x.vals.find(([v]) => v.typ); h.m0 = ALL; if (info.sym) { try { h.m0 = undefined; this.typed(h, this.checker.getTypeOfSymbol(info.sym.symbol)); } catch { h.m0 = ALL; } } }
      h.heapKey = k; h.baseTerm = info.base; h.keyTerm = info.key;
      st.heap.set(k, h);
      loop.carried.set(k, { init, hv: h, base: info.base, key: info.key });
    }
    return st;
  }
  dependsOnLoop(t, loop) { return T.contains(t, (x) => (x.k === 'hv' && x.loop === loop) || (x.k === 'r' && x.n > loop.n && !x.pure)); }

  // ================= statements =======================================
  block(stmts, st, ctx) {
    const env = new Env(ctx.env);
    const ctx2 = { ...ctx, env };
    for (const s of stmts) {
      if (ts.isFunctionDeclaration(s) && s.body && s.name) {
        const sym = this.checker.getSymbolAtLocation(s.name);
        const cell = env.declare(sym);
        st.cells.set(cell, T.closure(s, env, null, { ctx: { fn: ctx.fn, home: ctx.home } }));
      }
    }
    let cur = [st];
    const done = [];
    for (const s of stmts) {
      const next = [];
      for (const x of cur) for (const o of this.stmt(s, x, ctx2)) { if (o.c === 'n') next.push(o.st); else done.push(o); }
      cur = next;
      if (cur.length + done.length > this.opts.maxPaths) throw new Limit('paths');
      if (!cur.length) break;
    }
    return [...cur.map((x) => ({ st: x, c: 'n' })), ...done];
  }
  toC(outs, f) { // outcomes of expressions -> completions
    const r = [];
    for (const o of outs) { if (o.thr) r.push({ st: o.st, c: 't', v: o.thr }); else if (o.cut) r.push({ st: o.st, c: 'x', loop: o.cut }); else r.push(...f(o.v, o.st)); }
    return r;
  }
  stmt(node, st, ctx) {
    this.tick();
    switch (node.kind) {
      case SK.Block: return this.block(node.statements, st, ctx);
      case SK.EmptyStatement: case SK.FunctionDeclaration: case SK.InterfaceDeclaration: case SK.TypeAliasDeclaration:
        return [{ st, c: 'n' }];
      case SK.ClassDeclaration: { const sym = this.checker.getSymbolAtLocation(node.name); st.cells.set(ctx.env.declare(sym), T.clsv(node, node.pos + node.getSourceFile().fileName)); return [{ st, c: 'n' }]; }
      case SK.ExpressionStatement: return this.toC(this.ev(node.expression, st, ctx), (v, s) => [{ st: s, c: 'n' }]);
      case SK.VariableStatement: return this.varDecls(node.declarationList, st, ctx);
      case SK.ReturnStatement: return node.expression ? this.toC(this.ev(node.expression, st, ctx), (v, s) => { s.emit({ t: 'ret', value: v, node, loops: ctx.loops, fn: ctx.fn }); return [{ st: s, c: 'r', v }]; }) : [{ st, c: 'r', v: UNDEF }];
      case SK.IfStatement:
        return this.condC(node.expression, st, ctx, (b, s) => (b ? this.stmt(node.thenStatement, s, { ...ctx }) : node.elseStatement ? this.stmt(node.elseStatement, s, { ...ctx }) : [{ st: s, c: 'n' }]));
      case SK.ThrowStatement: return this.toC(this.ev(node.expression, st, ctx), (v, s) => { s.emit({ t: 'throw', value: s.canon(v), node, loops: ctx.loops }); return [{ st: s, c: 't', v }]; });
      case SK.LabeledStatement: {
        if (node.label.text === 'DEBUG' && !this.opts.debugBlocks) return [{ st, c: 'n' }];
        return this.stmt(node.statement, st, { ...ctx, label: node.label.text }).map((o) => ((o.c === 'b') && o.label === node.label.text ? { st: o.st, c: 'n' } : o));
      }
      case SK.BreakStatement: return [{ st, c: 'b', label: node.label?.text }];
      case SK.ContinueStatement: return [{ st, c: 'k', label: node.label?.text }];
      case SK.SwitchStatement: return this.switchStmt(node, st, ctx);
      case SK.TryStatement: return this.tryStmt(node, st, ctx);
      case SK.ForOfStatement: return this.forOf(node, st, ctx);
      case SK.ForInStatement: return this.forOf(node, st, ctx, true);
      case SK.ForStatement: case SK.WhileStatement: case SK.DoStatement: return this.whileLoop(node, st, ctx);
    }
    throw new Error('stmt ' + SK[node.kind]);
  }
  varDecls(list, st, ctx) {
    let cur = [{ st, c: 'n' }];
    for (const d of list.declarations) {
      const next = [];
      for (const o of cur) {
        if (o.c !== 'n') { next.push(o); continue; }
        if (!d.initializer) { const s = this.checker.getSymbolAtLocation(d.name); if (s) o.st.cells.set(ctx.env.declare(s), UNDEF); next.push(o); continue; }
        next.push(...this.toC(this.bind(this.ev(d.initializer, o.st, ctx), (v, s) => this.declarePattern(d.name, v, s, ctx, null, (s2) => this.ok(s2, UNDEF))), (v, s) => [{ st: s, c: 'n' }]));
      }
      cur = next;
    }
    return cur;
  }
  switchStmt(node, st, ctx) {
    return this.toC(this.ev(node.expression, st, ctx), (v, s0) => {
      const clauses = node.caseBlock.clauses;
      const env = new Env(ctx.env);
      const ctx2 = { ...ctx, env };
      const runFrom = (i, s) => {
        let cur = [s]; const done = [];
        for (let j = i; j < clauses.length; j++) {
          for (const stm of clauses[j].statements) {
            const next = [];
            for (const x of cur) for (const o of this.stmt(stm, x, ctx2)) { if (o.c === 'n') next.push(o.st); else done.push(o); }
            cur = next;
          }
          if (!cur.length) break;
        }
        return [...cur.map((x) => ({ st: x, c: 'n' })), ...done].map((o) => (o.c === 'b' && !o.label ? { st: o.st, c: 'n' } : o));
      };
      const dflt = clauses.findIndex((c) => ts.isDefaultClause(c));
      const test = (i, s) => {
        if (i === clauses.length) return dflt >= 0 ? runFrom(dflt, s) : [{ st: s, c: 'n' }];
        if (ts.isDefaultClause(clauses[i])) return test(i + 1, s);
        return this.toC(this.ev(clauses[i].expression, s, ctx2), (cv, s1) => {
          const r = [];
          const p = s1.pEq(v, cv);
          const d = s1.decide(p);
          const sT = d === undefined ? s1.clone() : s1;
          if (d !== false && sT.assume(p, true)) { this.note(sT, clauses[i], true, p, ctx); r.push(...runFrom(i, sT)); }
          if (d !== true && s1.assume(p, false)) r.push(...test(i + 1, s1));
          return r;
        });
      };
      return test(0, s0);
    });
  }
  tryStmt(node, st, ctx) {
    let outs = this.block(node.tryBlock.statements, st, { ...ctx, tries: ctx.tries + 1 });
    if (node.catchClause) {
      outs = outs.flatMap((o) => {
        if (o.c !== 't') return [o];
        const env = new Env(ctx.env);
        const ctx2 = { ...ctx, env };
        const cc = node.catchClause;
        o.st.emit({ t: 'catch', value: o.v, node: cc, loops: ctx.loops });
        if (!cc.variableDeclaration) return this.block(cc.block.statements, o.st, ctx2);
        return this.toC(this.declarePattern(cc.variableDeclaration.name, o.v, o.st, ctx2, null, (s) => this.ok(s, UNDEF)), (_, s) => this.block(cc.block.statements, s, ctx2));
      });
    }
    if (node.finallyBlock) {
      outs = outs.flatMap((o) => {
        if (o.c === 'x') return [o];
        return this.block(node.finallyBlock.statements, o.st, ctx).map((f) => (f.c === 'n' ? { ...o, st: f.st } : f));
      });
    }
    return outs;
  }
  loopExit(o, label) { // break/continue addressed to this loop?
    return !o.label || o.label === label;
  }
  forOf(node, st, ctx, isIn = false) {
    const label = ctx.label; ctx = { ...ctx, label: undefined };
    // for (… of list.entries()) goes over the list itself
    let source = node.expression, view = null;
    while (ts.isParenthesizedExpression(source)) source = source.expression;
    if (!isIn && ts.isCallExpression(source) && !source.arguments.length && ts.isPropertyAccessExpression(source.expression) && ['entries', 'keys', 'values'].includes(source.expression.name.text) && this.isArrayType(this.declType(source.expression.expression))) { view = source.expression.name.text; source = source.expression.expression; }
    const seen = (el, i, s) => { if (view === 'keys') return i; if (view !== 'entries') return el; const second = ts.isVariableDeclarationList(node.initializer) && ts.isArrayBindingPattern(node.initializer.declarations[0].name) && node.initializer.declarations[0].name.elements[1]; if (second && ts.isBindingElement(second) && el.k !== 'c' && el.k !== 'o') this.typed(el, this.declType(second.name)); const o = T.alloc('array', {}); s.heap.set(o.id + '#items', { list: [i, el], exact: true }); return o; };
    return this.toC(this.ev(view ? source : node.expression, st, ctx), (arr, s0) => {
      arr = s0.canon(arr);
      if (isIn) { const k = T.res('forin:' + arr.id, { label: 'keysIn', n: 0, recv: arr, args: [], name: 'forin', pure: true }); arr = k; }
      const items = isIn ? null : this.exactItems(arr, s0);
      const bindEl = (v, s, c) => {
        if (ts.isVariableDeclarationList(node.initializer)) {
          const d = node.initializer.declarations[0];
          if (!this.P) throw 0;
          if (v.k !== 'c' && v.k !== 'o') this.typed(v, this.declType(d.name));
          return this.toC(this.declarePattern(d.name, v, s, c, null, (s2) => this.ok(s2, UNDEF)), (_, s2) => [{ st: s2, c: 'n' }]);
        }
        return this.toC(this.lval(node.initializer, s, c, (g, set, s2) => set(v, s2, node)), (_, s2) => [{ st: s2, c: 'n' }]);
      };
      if (items && items.length <= 6 && !items.some((x) => x.k === 'spread')) {
        let cur = [{ st: s0, c: 'n' }]; const done = [];
        for (const [n, it0] of items.entries()) {
          const next = [];
          for (const o of cur) {
            const c = { ...ctx, env: new Env(ctx.env) };
            for (const b of bindEl(seen(it0, cst(n), o.st), o.st, c)) {
              if (b.c !== 'n') { done.push(b); continue; }
              for (const r of this.stmt(node.statement, b.st, c)) {
                if (r.c === 'n' || (r.c === 'k' && this.loopExit(r, label))) next.push({ st: r.st, c: 'n' });
                else if (r.c === 'b' && this.loopExit(r, label)) done.push({ st: r.st, c: 'n' });
                else done.push(r);
              }
            }
          }
          cur = next;
        }
        return [...cur, ...done];
      }
      const loop = this.newLoop(isIn ? 'in' : 'of', node, ctx, { over: arr });
      const i = T.hv(loop, 'i', null); i.m0 = I; i.nonneg = true;
      loop.index = i;
      const out = [];
      const sz = s0.clone();
      sz.emit({ t: 'loopzero', loop, node });
      const len = this.lengthTerm(arr, sz);
      if (sz.assume(sz.pEq(len, cst(0)), true)) out.push({ st: sz, c: 'n' });
      const body = (s) => {
        const c = { ...ctx, env: new Env(ctx.env), loops: [...ctx.loops, loop] };
        s.emit({ t: 'loop', loop, node, loops: ctx.loops });
        return this.toC(this.read(arr, i, s, c, null, (el, s1) => this.ok(s1, el)), (el, s1) => bindEl(seen(el, i, s1), s1, c).flatMap((b) => (b.c === 'n' ? this.stmt(node.statement, b.st, c) : [b])));
      };
      const s1 = this.prepareLoop(s0, loop, ctx, (s) => body(s));
      s1.assume(s1.pLt(i, this.lengthTerm(arr, s1)), true);
      for (const r of body(s1)) {
        if (r.c === 'n' || (r.c === 'k' && this.loopExit(r, label))) { r.st.emit({ t: 'loopend', loop, how: 'full', node, next: this.iterated(loop, r.st) }); out.push({ st: r.st, c: 'n' }); } else if (r.c === 'b' && this.loopExit(r, label)) { r.st.emit({ t: 'loopend', loop, how: 'break', node, next: this.iterated(loop, r.st) }); out.push({ st: r.st, c: 'n' }); } else out.push(r);
      }
      return out;
    });
  }
  whileLoop(node, st, ctx) {
    const label = ctx.label; ctx = { ...ctx, label: undefined };
    const isFor = ts.isForStatement(node), isDo = ts.isDoStatement(node);
    const env = new Env(ctx.env);
    const c0 = { ...ctx, env };
    let inits = [{ st, c: 'n' }];
    if (isFor && node.initializer) {
      inits = ts.isVariableDeclarationList(node.initializer) ? this.varDecls(node.initializer, st, c0) : this.toC(this.ev(node.initializer, st, c0), (_, s) => [{ st: s, c: 'n' }]);
    }
    const condNode = isFor ? node.condition : node.expression;
    const out = [];
    for (const init of inits) {
      if (init.c !== 'n') { out.push(init); continue; }
      const s0 = init.st;
      const loop = this.newLoop(isFor ? 'for' : isDo ? 'do' : 'while', node, ctx, {});
      const c1 = { ...c0, loops: [...ctx.loops, loop] };
      const test = (s, f) => (condNode ? this.condC(condNode, s, c1, f) : f(true, s));
      if (!isDo) {
        // no iteration
        for (const o of test(s0.clone(), (b, s) => (b ? [] : [{ st: s, c: 'n' }]))) { o.st.emit({ t: 'loopzero', loop, node }); out.push(o); }
      }
      const iterate = (s) => {
        s.emit({ t: 'loop', loop, node, loops: ctx.loops });
        return this.stmt(node.statement, s, { ...c1, env: new Env(c1.env) }).flatMap((o) => {
          if (o.c === 'n' || (o.c === 'k' && this.loopExit(o, label))) {
            if (isFor && node.incrementor) return this.toC(this.ev(node.incrementor, o.st, c1), (_, s2) => [{ st: s2, c: 'n' }]);
            return [{ st: o.st, c: 'n' }];
          }
          return [o];
        });
      };
      const s1 = this.prepareLoop(s0, loop, c1, (s) => (isDo ? iterate(s) : test(s, (b, s2) => (b ? iterate(s2) : [{ st: s2, c: 'n' }]))));
      this.describe(loop, s1, c1, condNode);
      const enter = isDo ? [{ st: s1, c: 'n' }] : test(s1, (b, s) => (b ? [{ st: s, c: 'n' }] : []));
      for (const e of enter) {
        if (e.c !== 'n') { out.push(e); continue; }
        for (const r of iterate(e.st)) {
          if (r.c === 'b' && this.loopExit(r, label)) { r.st.emit({ t: 'loopend', loop, how: 'break', node, next: this.iterated(loop, r.st) }); out.push({ st: r.st, c: 'n' }); continue; }
          if (r.c !== 'n') { out.push(r); continue; }
          for (const [k, x] of loop.carried) { if (x.cell) { (x.nexts ??= []).push(r.st.canon(r.st.cells.get(k))); } }
          const next = this.iterated(loop, r.st);
          const back = r.st.clone();
          const exits = test(r.st, (b, s) => (b ? [] : [{ st: s, c: 'n' }]));
          const backs = test(back, (b, s) => (b ? [{ st: s, c: 'n' }] : [])).filter((o) => o.c === 'n');
          for (const x of exits) { if (x.c === 'n') x.st.emit({ t: 'loopend', loop, how: 'full', node, next }); out.push(x); }
          if (this.opts.cuts === 'always' ? backs.length : backs.length && !exits.some((x) => x.c === 'n')) {
            const b = backs[0];
            b.st.emit({ t: 'loopend', loop, how: 'back', node, next });
            out.push({ st: b.st, c: 'x', loop });
          }
        }
      }
    }
    return out;
  }
  /** Values of the carried cells at the end of an iteration. */
  iterated(loop, st) {
    const m = new Map();
    m.raw = new Map();
    for (const [k, x] of loop.carried ?? []) if (x.cell) { m.set(k, st.canon(st.cells.get(k))); m.raw.set(k, st.cells.get(k)); }
    return m;
  }
  describe(loop, st, ctx, condNode) {
    // `i < n` style conditions
    if (!condNode) return;
    try {
      const s = st.clone();
      const outs = this.ev(condNode, s, ctx);
      if (outs.length === 1 && !outs[0].thr) loop.cond = s.pTruthy(outs[0].v);
    } catch (e) { if (!(e instanceof Limit)) throw e; }
  }
}

const SHORT = T.ext('<short>');
const STOPS = new Set(['some', 'every', 'find', 'findIndex', 'findLast', 'findLastIndex']);
const COMPOUND = {
  [SK.PlusEqualsToken]: SK.PlusToken, [SK.MinusEqualsToken]: SK.MinusToken, [SK.AsteriskEqualsToken]: SK.AsteriskToken, [SK.SlashEqualsToken]: SK.SlashToken, [SK.PercentEqualsToken]: SK.PercentToken,
  [SK.AmpersandEqualsToken]: SK.AmpersandToken, [SK.BarEqualsToken]: SK.BarToken, [SK.CaretEqualsToken]: SK.CaretToken,
  [SK.LessThanLessThanEqualsToken]: SK.LessThanLessThanToken, [SK.GreaterThanGreaterThanEqualsToken]: SK.GreaterThanGreaterThanToken, [SK.GreaterThanGreaterThanGreaterThanEqualsToken]: SK.GreaterThanGreaterThanGreaterThanToken,
};
function isNullish(t) { return t === UNDEF || t === NULL; }
export function unparen(n) { while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isSatisfiesExpression(n)) n = n.expression; return n; }
function skipParens(n) { while (n && (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n))) n = n.parent; return n; }
function isChainPart(n) { return (n.flags & ts.NodeFlags.OptionalChain) !== 0; }
function isLogical(n) { n = unparen(n); return ts.isBinaryExpression(n) && (n.operatorToken.kind === SK.AmpersandAmpersandToken || n.operatorToken.kind === SK.BarBarToken); }
export function enclosingFn(n) { for (let p = n?.parent; p; p = p.parent) if (isFunctionLike(p)) return p; return null; }
export function ownerName(d) {
  const p = d.parent;
  if (!p) return null;
  if (ts.isClassLike(p) || ts.isInterfaceDeclaration(p)) return p.name?.text ?? null;
  if (ts.isTypeLiteralNode(p) && ts.isTypeAliasDeclaration(p.parent)) return p.parent.name.text;
  return null;
}
