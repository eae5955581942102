// Which functions may a call reach, and where may a value come from: an
// inclusion-based analysis over the type-checked program that keeps one set of
// values per declaration and ignores order and calling context.
import { ts } from './project.mjs';

const SK = ts.SyntaxKind;
export const isFn = (n) => n && (ts.isFunctionDeclaration(n) || ts.isFunctionExpression(n) || ts.isArrowFunction(n) || ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isGetAccessor(n) || ts.isSetAccessor(n));
/** Builtin functions that call a function they are given before they return. */
const SYNC = new Set(['forEach', 'map', 'filter', 'reduce', 'reduceRight', 'some', 'every', 'find', 'findIndex', 'findLast', 'findLastIndex', 'flatMap', 'sort', 'toSorted', 'from', 'replace', 'replaceAll', 'getOrInsertComputed', 'groupBy', 'call', 'apply', 'Promise', 'parse', 'stringify']);
/** Builtin functions whose result may be a container they were given. */
const SAME = new Set(['sort', 'reverse', 'fill', 'copyWithin', 'freeze', 'seal', 'preventExtensions', 'assign', 'get', 'at', 'pop', 'shift', 'find', 'findLast', 'defineProperty', 'defineProperties', 'setPrototypeOf', 'getOrInsert', 'getOrInsertComputed', 'set', 'add', 'valueOf', 'call', 'apply', 'reduce', 'reduceRight', 'next', 'splice', 'resolve', 'then', 'Object']);
/** Host functions whose result is a node nobody else has seen. */
const CREATES = new Set(['createElement', 'createElementNS', 'createComment', 'createTextNode', 'createDocumentFragment', 'importNode', 'cloneNode', 'createAttribute', 'createRange', 'parseFromString', 'createContextualFragment', 'createHTMLDocument']);
/** Properties of a node that lead to nodes others have made. */
const OUTER = new Set(['ownerDocument', 'defaultView', 'documentElement', 'body', 'head', 'activeElement', 'host', 'document', 'target', 'currentTarget', 'ownerElement', 'scrollingElement']);
const skip = (n) => { while (n && (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isSatisfiesExpression(n) || ts.isTypeAssertionExpression(n))) n = n.expression; return n; };

export class Flow {
  constructor(P) {
    this.P = P; this.ck = P.checker;
    this.pts = new Map(); this.vals = new Map();
    this.edges = []; this.edgeKeys = new Set(); this.userCalls = []; this.out = new Map();
    this.called = new Set(); // parameters with a call site in the repository
    this.implCache = new Map(); this.ctxCache = new Map();
    this.nodes = P.files.filter((f) => !/\.d\.ts$/.test(f.fileName));
    this.allCls = P.allClasses();
    let rounds = 0;
    do { this.changed = false; for (const f of this.nodes) this.stmt(f); } while (this.changed && ++rounds < 40);
    for (const e of this.edges) { if (!this.out.has(e.from)) this.out.set(e.from, []); this.out.get(e.from).push(e); }
  }
  // ---- values ----
  v(kind, node) { let m = this.vals.get(node); if (!m) this.vals.set(node, (m = {})); return (m[kind] ??= { k: kind, n: node }); }
  set(key) { let s = this.pts.get(key); if (!s) this.pts.set(key, (s = new Set())); return s; }
  add(key, values) { if (!key) return; const s = this.set(key); for (const x of values) if (!s.has(x)) { s.add(x); this.changed = true; } }
  ret(fn) { return this.retKey(fn); }
  retKey(fn) { let k = (this._rk ??= new Map()).get(fn); if (!k) this._rk.set(fn, (k = { ret: fn })); return k; }
  inRepo(d) { return d && this.P.inRepo(d); }

  /** Declarations a member access may stand for, implementations included. */
  membersOf(sym) {
    const out = new Set();
    for (const d of sym?.declarations ?? []) { out.add(d); for (const x of this.implementations(d)) out.add(x); }
    return out;
  }
  implementations(d) {
    if (this.implCache.has(d)) return this.implCache.get(d);
    const out = new Set();
    this.implCache.set(d, out);
    const owner = d.parent;
    if (!this.inRepo(d) || !owner || !d.name) return out;
    if (!ts.isInterfaceDeclaration(owner) && !ts.isClassDeclaration(owner) && !ts.isTypeLiteralNode(owner)) return out;
    if (ts.isClassDeclaration(owner) && ts.canHaveModifiers(d) && ts.getModifiers(d)?.some((m) => m.kind === SK.StaticKeyword)) return out;
    const name = this.ck.getSymbolAtLocation(d.name)?.escapedName;
    if (name === undefined) return out;
    for (const c of this.allCls) {
      if (c === owner) continue;
      const isSub = ts.isClassDeclaration(owner) ? this.extends(c, owner) : this.implementsIt(c, owner);
      if (!isSub) continue;
      const s = this.ck.getTypeAtLocation(c).getProperty ? this.ck.getPropertyOfType(this.ck.getTypeAtLocation(c), ts.unescapeLeadingUnderscores(name)) ?? this.ck.getTypeAtLocation(c).symbol?.members?.get(name) : null;
      for (const m of s?.declarations ?? []) out.add(m);
    }
    return out;
  }
  extends(c, base) { for (let k = c, n = 0; k && n < 10; n++) { const h = k.heritageClauses?.find((x) => x.token === SK.ExtendsKeyword)?.types[0]; if (!h) return false; const s = this.sym(h.expression); k = s?.declarations?.find((d) => ts.isClassDeclaration(d)); if (k === base) return true; } return false; }
  implementsIt(c, owner) {
    const key = owner; let m = this.ctxCache.get(key); if (!m) this.ctxCache.set(key, (m = new Map()));
    if (m.has(c)) return m.get(c);
    let r = false;
    for (let k = c, n = 0; k && n < 10 && !r; n++) {
      for (const h of k.heritageClauses ?? []) for (const t of h.types) { const s = this.sym(t.expression); const visit = (sy, i = 0) => { if (!sy || i > 8) return false; for (const d of sy.declarations ?? []) { if (d === owner) return true; if (ts.isInterfaceDeclaration(d)) for (const hh of d.heritageClauses ?? []) for (const tt of hh.types) if (visit(this.sym(tt.expression), i + 1)) return true; } return false; }; if (visit(s)) r = true; }
      const ext = k.heritageClauses?.find((x) => x.token === SK.ExtendsKeyword)?.types[0];
      k = ext ? this.sym(ext.expression)?.declarations?.find((d) => ts.isClassDeclaration(d)) : null;
    }
    if (!r && ts.isInterfaceDeclaration(owner) && owner.members.some((x) => ts.isMethodSignature(x) || ts.isPropertySignature(x)) && !owner.typeParameters?.length) {
      try { r = this.ck.isTypeAssignableTo(this.ck.getTypeAtLocation(c), this.ck.getTypeAtLocation(owner)); } catch { /* older checker */ }
    }
    m.set(c, r);
    return r;
  }
  sym(n) { let s = this.ck.getSymbolAtLocation(n); if (s && s.flags & ts.SymbolFlags.Alias) s = this.ck.getAliasedSymbol(s); return s; }

  /** Values of a declaration as seen by a reader. */
  read(d, out) {
    if (!d) return out;
    if (isFn(d) && !ts.isGetAccessor(d) && !ts.isSetAccessor(d) && !ts.isConstructorDeclaration(d)) { if (d.body) out.add(this.v('fn', d)); }
    if (ts.isGetAccessor(d)) for (const x of this.set(this.retKey(d))) out.add(x);
    if (ts.isClassDeclaration(d) || ts.isClassExpression(d)) out.add(this.v('cls', d));
    if (ts.isParameter(d) && this.inRepo(d)) out.add(this.v('param', d));
    if (ts.isFunctionDeclaration(d) && !d.body) { const s = this.ck.getSymbolAtLocation(d.name); for (const x of s?.declarations ?? []) if (isFn(x) && x.body) out.add(this.v('fn', x)); }
    for (const x of this.set(d)) out.add(x);
    if (!this.inRepo(d) && (ts.isVariableDeclaration(d) || ts.isFunctionDeclaration(d))) out.add(this.v('ext', d));
    return out;
  }
  readSym(s, out) { for (const d of this.membersOf(s)) this.read(d, out); return out; }

  E(e) {
    const out = new Set();
    this.ev(e, out);
    return out;
  }
  ev(e, out) {
    e = skip(e);
    if (!e) return;
    switch (e.kind) {
      case SK.Identifier: { if (e.text === 'undefined') return; const s = this.ck.getSymbolAtLocation(e); const t = s && s.flags & ts.SymbolFlags.Alias ? this.ck.getAliasedSymbol(s) : s; for (const d of t?.declarations ?? []) this.read(d, out); return; }
      case SK.ArrowFunction: case SK.FunctionExpression: out.add(this.v('fn', e)); return;
      case SK.ClassExpression: out.add(this.v('cls', e)); return;
      case SK.ConditionalExpression: this.ev(e.whenTrue, out); this.ev(e.whenFalse, out); return;
      case SK.BinaryExpression: {
        const k = e.operatorToken.kind;
        if (k === SK.BarBarToken || k === SK.QuestionQuestionToken || k === SK.AmpersandAmpersandToken) { this.ev(e.left, out); this.ev(e.right, out); }
        else if (k === SK.CommaToken || k === SK.EqualsToken) this.ev(e.right, out);
        else if (k === SK.QuestionQuestionEqualsToken || k === SK.BarBarEqualsToken || k === SK.AmpersandAmpersandEqualsToken) { this.ev(e.left, out); this.ev(e.right, out); }
        return;
      }
      case SK.AwaitExpression: case SK.SpreadElement: case SK.YieldExpression: this.ev(e.expression, out); return;
      case SK.ArrayLiteralExpression: out.add(this.v('arr', e)); for (const x of e.elements) { if (ts.isSpreadElement(x)) { for (const y of this.E(x.expression)) if (y.k !== 'arr') out.add(y); } else this.ev(x, out); } return;
      case SK.ObjectLiteralExpression: out.add(this.v('obj', e)); return;
      case SK.ThisKeyword: { out.add(this.v('this', e)); return; }
      case SK.ElementAccessExpression: {
        const s = this.ck.getSymbolAtLocation(e.argumentExpression && ts.isStringLiteralLike(e.argumentExpression) ? e.argumentExpression : e);
        const p = this.propSym(e);
        if (p && (p.declarations ?? []).some((d) => this.inRepo(d))) this.readSym(p, out);
        this.ev(e.expression, out);
        void s;
        return;
      }
      case SK.PropertyAccessExpression: {
        const s = this.sym(e.name);
        const own = (s?.declarations ?? []).some((d) => this.inRepo(d));
        if (own) this.readSym(s, out);
        else if (s) { for (const d of s.declarations ?? []) out.add(this.v('host', d)); if (OUTER.has(e.name.text)) out.add(this.v('outer', e)); else this.ev(e.expression, out); }
        else this.ev(e.expression, out);
        return;
      }
      case SK.NewExpression: case SK.CallExpression: case SK.TaggedTemplateExpression: this.call(e, out); return;
    }
  }
  propSym(e) {
    const a = skip(e.argumentExpression);
    try {
      const t = this.ck.getTypeAtLocation(e.expression);
      const at = a && this.ck.getTypeAtLocation(a);
      if (at && at.isStringLiteral && at.isStringLiteral()) return this.ck.getPropertyOfType(t, at.value);
      if (at && at.flags & ts.TypeFlags.UniqueESSymbol) return this.ck.getPropertyOfType(t, ts.unescapeLeadingUnderscores(at.escapedName));
    } catch { /* unknown */ }
    return null;
  }
  fnOf(n) { for (let p = n.parent; p; p = p.parent) { if (isFn(p) && !(ts.isParameter(n) && false)) return p; if (ts.isPropertyDeclaration(p) && p.initializer) { for (let q = n; q && q !== p; q = q.parent) if (q === p.initializer) return ts.getModifiers(p)?.some((m) => m.kind === SK.StaticKeyword) ? p.getSourceFile() : p.parent; } if (ts.isSourceFile(p)) return p; } return null; }
  edge(from, to, node, kind, given = false) {
    const k = `${this.id(from)}>${this.id(to)}@${this.id(node)}${kind}`;
    if (this.edgeKeys.has(k)) return;
    this.edgeKeys.add(k); this.changed = true;
    this.edges.push({ from, to, node, kind, given });
  }
  id(n) { return ((this._ids ??= new Map()).get(n) ?? (this._ids.set(n, this._ids.size + 1), this._ids.size)); }
  pass(fn, args, node) {
    // arguments into the parameters of fn
    const ps = fn.parameters.filter((q) => q.name.getText() !== 'this');
    let spread = false;
    args.forEach((a, i) => {
      if (ts.isSpreadElement(a)) spread = true;
      const vs = this.E(ts.isSpreadElement(a) ? a.expression : a);
      ps.forEach((q, j) => { if (q.dotDotDotToken ? j <= i || spread : j === i || (spread && j >= i)) { this.called.add(q); this.intoParam(q, vs, a); } });
    });
    ps.forEach((q, i) => { if (i >= args.length) this.called.add(q); });
  }
  intoParam(q, vs) { if (ts.isIdentifier(q.name)) this.add(q, vs); else this.bindPattern(q.name, vs); }
  construct(cls, e, out, args) {
    let k = cls;
    for (let n = 0; k && n < 10; n++) {
      const ctor = k.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
      this.edge(this.fnOf(e), k, e, 'sync');
      if (ctor) { this.edge(this.fnOf(e), ctor, e, 'sync'); this.pass(ctor, args, e); break; }
      const h = k.heritageClauses?.find((x) => x.token === SK.ExtendsKeyword)?.types[0];
      k = h ? this.sym(h.expression)?.declarations?.find((d) => ts.isClassDeclaration(d)) : null;
    }
    out.add(this.v('new', cls));
  }
  call(e, out) {
    const from = this.fnOf(e);
    let args = ts.isTaggedTemplateExpression(e) ? (ts.isTemplateExpression(e.template) ? [e.template, ...e.template.templateSpans.map((s) => s.expression)] : [e.template]) : [...(e.arguments ?? [])];
    const callee = skip(ts.isTaggedTemplateExpression(e) ? e.tag : e.expression);
    if (callee.kind === SK.SuperKeyword) {
      const c = this.ck.getTypeAtLocation(callee).symbol?.declarations?.find((d) => ts.isClassDeclaration(d));
      if (c && this.inRepo(c)) this.construct(c, e, new Set(), args);
      return;
    }
    let targets, viaCall = false, recv = null;
    const memberName = ts.isPropertyAccessExpression(callee) ? callee.name.text : null;
    if (memberName && ['call', 'apply', 'bind'].includes(memberName) && this.hostSym(this.sym(callee.name))) { targets = this.E(callee.expression); viaCall = memberName; args = memberName === 'apply' ? [] : args.slice(1); }
    else { targets = this.E(callee); if (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) recv = callee.expression; }
    if (viaCall === 'bind') { for (const t of targets) out.add(t); for (const t of targets) if (t.k === 'fn') this.pass(t.n, args, e); return; }
    let host = false, any = false;
    for (const t of targets) {
      if (t.k === 'fn') {
        // an instance method reached through a function value of the receiver is not what is called
        if (recv && memberName && !viaCall && this.calleeIsHost(callee)) continue;
        any = true;
        if (ts.isNewExpression(e)) continue;
        this.edge(from, t.n, e, 'sync', [...targets].some((x) => x.k === 'param' || x.k === 'res'));
        this.pass(t.n, args, e);
        for (const x of this.set(this.retKey(t.n))) out.add(x);
      } else if (t.k === 'cls') {
        if (ts.isNewExpression(e)) { any = true; this.construct(t.n, e, out, args); }
      } else if (t.k === 'param' || t.k === 'res') {
        if (recv && memberName && !viaCall && this.calleeIsHost(callee)) continue;
        if (ts.isNewExpression(e)) continue;
        const key = 'u' + this.id(e) + ':' + t.k + this.id(t.n);
        if (!this.edgeKeys.has(key)) { this.edgeKeys.add(key); this.changed = true; this.userCalls.push({ from, param: t.n, res: t.k === 'res', node: e }); }
        out.add(this.v('res', t.n));
        for (const a of args) for (const x of this.E(ts.isSpreadElement(a) ? a.expression : a)) if (x.k === 'fn') this.edge(from, x.n, e, 'user');
      } else if (t.k === 'ext' || t.k === 'host') host = true;
    }
    const name = memberName ?? (ts.isIdentifier(callee) ? callee.text : '');
    if (host || (!any && this.calleeIsHost(callee))) {
      const given = new Set();
      for (const a of args) this.ev(ts.isSpreadElement(a) ? a.expression : a, given);
      for (const x of given) if (x.k === 'fn') {
        this.edge(from, x.n, e, SYNC.has(name) ? 'sync' : 'later');
        if (SYNC.has(name) && recv) { const rv = this.E(recv); x.n.parameters.forEach((q) => { this.called.add(q); this.intoParam(q, [...rv].filter((y) => y.k !== 'host')); }); }
        else if (SYNC.has(name)) x.n.parameters.forEach((q) => this.called.add(q));
        for (const y of this.set(this.retKey(x.n))) out.add(y);
      } else if (x.k === 'param') {
        const key = 'h' + this.id(e) + this.id(x.n);
        if (SYNC.has(name) && name !== 'call' && !this.edgeKeys.has(key)) { this.edgeKeys.add(key); this.userCalls.push({ from, param: x.n, res: false, node: e }); }
      }
      if (CREATES.has(name) || ts.isNewExpression(e)) out.add(this.v('fresh', e));
      else {
        const same = SAME.has(name);
        for (const x of given) if (same || x.k !== 'arr') out.add(x);
        if (recv) {
          if (same) this.ev(recv, out); else for (const x of this.E(recv)) if (x.k !== 'arr') out.add(x);
          // what is put into a collection
          const r = skip(recv);
          const put = [...given].filter((x) => x.k !== 'ext' && x.k !== 'host');
          if (put.length && ['push', 'unshift', 'set', 'add', 'splice', 'fill', 'append', 'prepend'].includes(name) && !this.isNode(r)) this.store(r, put);
        }
      }
    }
  }
  isNode(e) { try { return this.isDom(this.ck.getTypeAtLocation(e)); } catch { return false; } }
  hostSym(s) { return s && s.declarations?.length && s.declarations.every((d) => !this.inRepo(d)); }
  calleeIsHost(c) {
    c = skip(c);
    if (ts.isPropertyAccessExpression(c)) return !!this.hostSym(this.sym(c.name));
    if (ts.isIdentifier(c)) return !!this.hostSym(this.sym(c));
    return false;
  }
  store(target, vs) {
    target = skip(target);
    if (ts.isIdentifier(target)) { const s = this.sym(target); for (const d of s?.declarations ?? []) this.add(d, vs); }
    else if (ts.isPropertyAccessExpression(target)) { const s = this.sym(target.name); for (const d of s?.declarations ?? []) { if (ts.isSetAccessor(d)) { this.pass1(d, vs); } else this.add(d, vs); } }
    else if (ts.isElementAccessExpression(target)) { const p = this.propSym(target); if (p) for (const d of p.declarations ?? []) this.add(d, vs); else this.store(target.expression, vs); }
    else if (ts.isObjectLiteralExpression(target) || ts.isArrayLiteralExpression(target)) this.bindAssign(target, vs);
  }
  pass1(setter, vs) { const q = setter.parameters[0]; if (q) { this.called.add(q); this.intoParam(q, vs); } }
  bindAssign(t, vs) { if (ts.isArrayLiteralExpression(t)) for (const x of t.elements) this.store(ts.isSpreadElement(x) ? x.expression : x, vs); }
  bindPattern(pat, vs) {
    for (const b of pat.elements) {
      if (ts.isOmittedExpression(b)) continue;
      let mine = vs;
      if (ts.isObjectBindingPattern(pat) && !b.dotDotDotToken) {
        const key = b.propertyName ?? b.name;
        let s = null;
        try { const t = this.ck.getTypeAtLocation(pat); const n = ts.isComputedPropertyName(key) ? null : key.text ?? key.getText(); s = n !== null ? this.ck.getPropertyOfType(this.ck.getNonNullableType(t), n) : null; } catch { /* unknown */ }
        mine = s && (s.declarations ?? []).some((d) => this.inRepo(d)) ? this.readSym(s, new Set()) : vs;
      }
      if (b.initializer) { mine = new Set(mine); this.ev(b.initializer, mine); }
      if (ts.isIdentifier(b.name)) this.add(b, mine); else this.bindPattern(b.name, mine);
    }
  }
  stmt(n) {
    switch (n.kind) {
      case SK.VariableDeclaration: if (n.initializer) { const vs = this.E(n.initializer); if (ts.isIdentifier(n.name)) this.add(n, vs); else this.bindPattern(n.name, vs); } break;
      case SK.PropertyDeclaration: if (n.initializer) this.add(n, this.E(n.initializer)); break;
      case SK.Parameter: if (n.initializer) this.intoParam(n, this.E(n.initializer)); if (!ts.isIdentifier(n.name)) this.bindPattern(n.name, this.set(n)); if (ts.isParameterPropertyDeclaration(n, n.parent)) this.add(n, new Set([this.v('param', n)])); break;
      case SK.ForOfStatement: { const vs = this.E(n.expression); if (ts.isVariableDeclarationList(n.initializer)) { const d = n.initializer.declarations[0]; if (ts.isIdentifier(d.name)) this.add(d, vs); else this.bindPattern(d.name, vs); } this.iterated(n.expression, n); break; }
      case SK.ReturnStatement: { const fn = this.fnOf(n); if (fn && n.expression) this.add(this.retKey(fn), this.E(n.expression)); break; }
      case SK.YieldExpression: { const fn = this.fnOf(n); if (fn && n.expression) this.add(this.retKey(fn), this.E(n.expression)); break; }
      case SK.ArrowFunction: if (!ts.isBlock(n.body)) this.add(this.retKey(n), this.E(n.body)); break;
      case SK.BinaryExpression:
        if (n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment) { const vs = this.E(n.right); if (vs.size) this.store(n.left, vs); const l = skip(n.left); if (ts.isPropertyAccessExpression(l)) for (const d of this.membersOf(this.sym(l.name))) if (ts.isSetAccessor(d) && d.body) { this.edge(this.fnOf(n), d, n, 'sync'); this.pass1(d, vs); } }
        break;
      case SK.PropertyAccessExpression: {
        const p = n.parent; if (ts.isBinaryExpression(p) && p.left === n && p.operatorToken.kind === SK.EqualsToken) break;
        const s = this.sym(n.name); if (s && s.flags & ts.SymbolFlags.Accessor || (s?.declarations ?? []).some((d) => ts.isPropertySignature(d) || ts.isPropertyDeclaration(d) || ts.isGetAccessor(d))) for (const d of this.membersOf(s)) if (ts.isGetAccessor(d) && d.body) this.edge(this.fnOf(n), d, n, 'sync');
        break;
      }
      case SK.ObjectLiteralExpression: {
        const ctx = this.ck.getContextualType(n);
        for (const p of n.properties) {
          if (ts.isSpreadAssignment(p)) continue;
          let vs;
          if (ts.isPropertyAssignment(p)) vs = this.E(p.initializer);
          else if (ts.isShorthandPropertyAssignment(p)) { vs = new Set(); const s = this.ck.getShorthandAssignmentValueSymbol(p); const t = s && s.flags & ts.SymbolFlags.Alias ? this.ck.getAliasedSymbol(s) : s; for (const d of t?.declarations ?? []) this.read(d, vs); }
          else if (ts.isMethodDeclaration(p)) vs = new Set([this.v('fn', p)]);
          else continue;
          this.add(p, vs);
          if (ctx && p.name) {
            const ps = this.ck.getSymbolAtLocation(p.name);
            const seen = new Set();
            const parts = ctx.isUnion() ? ctx.types : [ctx];
            for (const t of parts) { const s = ps && this.ck.getPropertyOfType(t, ts.unescapeLeadingUnderscores(ps.escapedName)); for (const d of s?.declarations ?? []) if (!seen.has(d)) { seen.add(d); this.add(d, vs); } }
          }
        }
        break;
      }
      case SK.CallExpression: case SK.NewExpression: case SK.TaggedTemplateExpression: this.call(n, new Set()); break;
      case SK.SpreadElement: this.iterated(n.expression, n); break;
    }
    n.forEachChild((x) => { if (!ts.isTypeNode(x) || ts.isExpressionWithTypeArguments(x)) this.stmt(x); });
  }
  iterated(e, node) {
    try {
      const t = this.ck.getTypeAtLocation(e);
      const c = t.symbol?.declarations?.find((d) => ts.isClassDeclaration(d) && this.inRepo(d));
      for (const m of c?.members ?? []) if (ts.isMethodDeclaration(m) && m.body && m.name && /Symbol\.iterator/.test(m.name.getText())) this.edge(this.fnOf(node), m, node, 'sync');
    } catch { /* unknown */ }
  }
  // ---- queries ----
  /** Functions that may run before one of `roots` returns. Maps each to the edge it was reached by. */
  reach(roots, { kinds = ['sync'], stop = () => false, own = false } = {}) {
    const seen = new Map(), todo = [];
    for (const r of roots) if (r && !seen.has(r)) { seen.set(r, null); todo.push(r); }
    while (todo.length) {
      const f = todo.pop();
      if (stop(f)) continue;
      for (const e of this.out.get(f) ?? []) if (kinds.includes(e.kind) && !(own && e.given) && !seen.has(e.to)) { seen.set(e.to, e); todo.push(e.to); }
    }
    return seen;
  }
  /** How f was reached, outermost first. */
  trail(seen, f) { const out = []; for (let n = 0; f && n < 30; n++) { out.unshift(this.name(f)); f = seen.get(f)?.from; } return out; }
  name(f) { if (ts.isSourceFile(f)) return this.P.rel(f); const own = f.name?.getText?.() ?? (ts.isConstructorDeclaration(f) ? 'constructor' : ts.isVariableDeclaration(f.parent) ? f.parent.name.getText() : ts.isPropertyAssignment(f.parent) ? f.parent.name.getText() : '(closure)'); const cls = ts.isClassLike(f.parent) ? (f.parent.name?.text ?? '') + '.' : ''; return cls + own; }
  impl(iface, member) {
    const out = new Set();
    for (const d of this.P.exported(iface)) if (ts.isInterfaceDeclaration(d)) {
      const m = d.members.find((x) => x.name && x.name.getText().replace(/[[\]'"]/g, '') === member);
      if (!m) continue;
      for (const x of [m, ...this.implementations(m)]) { for (const v of this.read(x, new Set())) if (v.k === 'fn') out.add(v.n); if (isFn(x) && x.body) out.add(x); }
      for (const v of this.set(m)) if (v.k === 'fn') out.add(v.n);
    }
    return [...out];
  }
  isDom(t, depth = 0) {
    if (!t || depth > 6) return false;
    t = this.ck.getNonNullableType(t);
    if (t.isUnion()) return t.types.some((x) => this.isDom(x, depth + 1));
    const s = t.symbol ?? t.aliasSymbol;
    const is = (sym, n = 0) => !!sym && n < 12 && !(sym.declarations ?? []).some((d) => this.inRepo(d)) && (['Node', 'Attr', 'DOMTokenList', 'CSSStyleDeclaration', 'NamedNodeMap', 'Range', 'EventTarget', 'Window'].includes(sym.name) || (sym.declarations ?? []).some((d) => ts.isInterfaceDeclaration(d) && (d.heritageClauses ?? []).some((h) => h.types.some((x) => is(this.sym(x.expression), n + 1)))));
    if (t.isIntersection()) return t.types.some((x) => this.isDom(x, depth + 1));
    if (t.flags & ts.TypeFlags.TypeParameter) { const c = this.ck.getBaseConstraintOfType(t); return !!c && c !== t && this.isDom(c, depth + 1); }
    return is(s);
  }
}
export { skip };
