// C20: deriving state never mutates values it does not own.
import { ts, T, cst, op, UNDEF, NULL, TRUE, FALSE, N, fld, calls, writes, idxOf, loopsOf, covers, isStatic, AnchorError } from './_lib.mjs';
import { accessor, ctorFields } from './_signal.mjs';
import { enclosingFn } from '../lib/engine.mjs';
import { isFunctionLike } from '../lib/project.mjs';

export const about = 'Every write, deletion and mutating call on a value of unknown origin in the modules of derived state is located; each must hit a copy made on the same path, or replace an element of a value being assigned by its finalization. Reading, assigning and deleting derived state are followed on every path with the flags as bit sets; the traps of drafts are followed with arbitrary keys and values; and every use of a draft is followed to its revocation, also when user code throws.';
export const assumptions = ['Proxies, Object.create, Array.prototype.slice and Reflect.ownKeys behave as specified.', 'Getters, setters and callbacks of the user do not write to values they have captured themselves.'];

const can = (p, t) => p.st.canon(t ?? UNDEF);
const same = (p, a, b) => !!a && !!b && can(p, a) === can(p, b);
const bit = (i) => cst((1 << i) | 0);
const zeroP = (t) => (t.k === 'c' ? (t.v === 0 ? TRUE : FALSE) : op('zero', t));
const decideZero = (p, t) => (t.k === 'c' ? t.v === 0 : p.st.decide(op('zero', t)));
/** Bits that are known to be set and known to be clear. */
function bitsOf(p, t) {
  let one = 0, zero = 0;
  for (let i = 0; i < 32; i++) { const d = decideZero(p, T.bitop('&', t, bit(i))); if (d === false) one |= 1 << i; else if (d === true) zero |= 1 << i; }
  return { one, zero };
}
function derivable(c) {
  if (c._c20) return c._c20;
  const k = c.P.cls('Derivable');
  const [sourceF, ownerF, keyF, flagsF] = ctorFields(c, k);
  if (!sourceF || !ownerF || !keyF || !flagsF) throw new AnchorError('the source, owner, key and flags of derived state are not kept');
  const get = accessor(c, k, 'value', 'get'), set = accessor(c, k, 'value', 'set'), del = c.P.method(k, 'delete');
  const R = (c._c20 = { k, sourceF, ownerF, keyF, flagsF, get, set, del, files: null });
  R.file = k.getSourceFile();
  // the map of properties: the field whose value is a map
  R.propsF = k.members.find((m) => ts.isPropertyDeclaration(m) && !isStatic(m) && /\bMap</.test(c.P.checker.typeToString(c.P.checker.getTypeAtLocation(m.name))))?.name.getText();
  if (!R.propsF) throw new AnchorError('the properties of derived state are not kept in a map');
  return R;
}
const flags0 = (R, base) => T.field(base, R.flagsF, 0);
const srcValue = (R, base) => T.field(T.field(base, R.sourceF, 0), 'value', 0);
const writeTo = (e) => e.t === 'write' || e.t === 'delete';

/** A fresh copy of the value of a source, and of what. */
function copyOf(p, t) {
  t = can(p, t);
  if (t.k === 'o' && t.kind === 'copy') return { of: can(p, t.of), proto: true };
  if (t.k === 'r' && t.name === 'create' && t.args?.length === 2) {
    const [a, b] = t.args.map((x) => can(p, x));
    if (a.k === 'r' && a.name === 'getPrototypeOf' && b.k === 'r' && b.name === 'getOwnPropertyDescriptors' && same(p, a.args[0], b.args[0])) return { of: can(p, a.args[0]), proto: true };
    return { of: null };
  }
  if (t.k === 'o' || (t.k === 'r' && ['structuredClone', 'create', 'assign', 'from'].includes(t.name))) return { of: null, fresh: true };
  return null;
}
/** The property visited in an iteration and its key. */
function entry(p, R, map, key, prop) {
  key = can(p, key); prop = can(p, prop);
  if (prop.k === 'r' && prop.name === 'get' && same(p, prop.recv, map) && same(p, prop.args[0], key)) return true;
  if (key.k === 'f' && key.name === R.keyF && same(p, key.base, prop)) return true;
  return key.k === 'idx' && prop.k === 'idx' && can(p, key.i) === cst(0) && can(p, prop.i) === cst(1) && same(p, key.arr, prop.arr) && isVisited(p, key.arr, map);
}
const isVisited = (p, t, map) => { t = can(p, t); return t.k === 'idx' && overMap(p, t.arr, map); };
function overMap(p, over, map) {
  over = can(p, over);
  while (over.k === 'o' && over.kind === 'copy') over = can(p, over.of);
  return same(p, over, map) || (over.k === 'r' && ['entries', 'values', 'keys'].includes(over.name) && same(p, over.recv, map));
}
/** Paths of reading. */
function reading(c) {
  const R = derivable(c);
  if (R.reading) return R.reading;
  const E = c.engine({}), thisT = E.thisSym(R.k);
  const ps = c.paths(E, R.get, { cls: R.k }).filter((p) => !p.st.infeasible());
  const out = [];
  for (const p of ps) {
    if (p.kind !== 'return') continue;
    const committed = calls(p, (e) => e.name === 'write' && same(p, e.recv, T.field(thisT, R.sourceF, 0)));
    out.push({ p, committed });
  }
  let A = ~0, anyW = 0;
  for (const x of out) { const b = bitsOf(x.p, flags0(R, thisT)); if (x.committed.length) { anyW++; A &= b.one; } else A &= b.zero; }
  // what tells deleted and changed properties
  let D = ~0, Pn = ~0, ds = 0, ws = 0;
  for (const x of out) {
    x.edits = x.p.events.filter((e) => writeTo(e) && copyOf(x.p, e.base) && e.loops.length);
    for (const e of x.edits) {
      const prop = propOf(x.p, R, thisT, e);
      if (!prop) continue;
      const b = bitsOf(x.p, T.field(prop, R.flagsF, 0));
      if (e.t === 'delete') { ds++; D &= b.one; } else { ws++; Pn &= b.one; D &= b.zero; }
    }
  }
  return (R.reading = { E, thisT, out, A: anyW ? A : 0, D: ds && ws ? D : 0, Pn: ws ? Pn : 0, map: T.field(thisT, R.propsF, 0) });
}
function propOf(p, R, thisT, e) {
  const map = T.field(thisT, R.propsF, 0);
  const key = can(p, e.t === 'delete' ? e.name : e.key);
  const cands = new Set();
  const look = (t) => T.contains(t, (x) => { if (x.k === 'f' && x.name === R.flagsF && x.base !== thisT) cands.add(can(p, x.base)); return false; });
  for (const b of p.events) if (b.t === 'branch') look(b.pred);
  for (const x of cands) if (entry(p, R, map, key, x)) return x;
  return null;
}
const single = (m) => m !== 0 && (m & (m - 1)) === 0;

function read(c) {
  const R = derivable(c), r = reading(c);
  if (!r.out.length && c.undecided.length) return;
  if (!c.expect(r.A !== 0, R.get, 'whether changes have to be applied is not kept in the flags')) return;
  let applied = 0, kept = 0, del = 0, put = 0;
  const editing = new Set(r.out.flatMap((x) => x.edits.flatMap((e) => e.loops.map((l) => l.node))));
  for (const { p, committed, edits } of r.out) {
    if (!committed.length) {
      kept++;
      c.expect(same(p, p.value, srcValue(R, r.thisT)), R.get, 'a value without changes is another one when it is read', p);
      c.expect(!edits.length && !writes(p, (e) => same(p, e.base, r.thisT)).length, R.get, 'reading a value without changes changes something', p);
      continue;
    }
    applied++;
    const w = committed[0];
    c.expect(committed.length === 1 && !w.loops.length, committed[1]?.node ?? w.node, 'changes are not applied once', p);
    const copy = copyOf(p, w.args[0]);
    if (!c.expect(copy, w.node, 'changes are applied to the value itself rather than to a copy', p)) continue;
    if (!copy.of && copy.fresh) { c.undecide('how the copy is made was not recognised'); continue; }
    c.expect(copy.of && same(p, copy.of, srcValue(R, r.thisT)), w.node, 'the copy is not one of the current value', p);
    c.expect(same(p, p.value, w.args[0]), R.get, 'what is read is not what is stored', p);
    for (const e of edits) { c.expect(same(p, e.base, w.args[0]), e.node, 'a change is applied to another value than the one stored', p); c.expect(idxOf(p, e) < idxOf(p, w), e.node, 'a change is applied after the copy has been stored', p); }
    // flags of the receiver
    const after = can(p, c.get(p, r.thisT, R.flagsF)), diff = T.bitop('^', after, flags0(R, r.thisT));
    c.expect((bitsOf(p, after).zero & r.A) === r.A, R.get, 'changes that were applied are applied again', p);
    c.expect(onlyBits(p, diff, r.A), R.get, 'reading changes other flags', p);
    // every property is looked at
    const ls = [...loopsOf(p), ...p.events.filter((e) => e.t === 'loopzero').map((e) => ({ loop: e.loop, end: 'zero', start: e }))].filter((x) => overMap(p, x.loop.over ?? UNDEF, r.map));
    if (!ls.length) { c.undecide('how changes are applied was not recognised'); continue; }
    c.expect(ls.every((x) => x.end === 'full' || x.end === 'zero'), ls[0].loop.node, 'not every property is looked at', p);
    for (const x of ls) {
      const own = p.events.filter((e) => e.loops?.includes?.(x.loop) && e !== x.start);
      const es = edits.filter((e) => e.loops.includes(x.loop));
      const rec = own.filter((e) => e.t === 'call' && (e.rec || (e.name === 'value')));
      if (x.end === 'zero') continue;
      const fw = own.filter((e) => e.t === 'write' && e.name === R.flagsF);
      if (!es.length) {
        // nothing is applied: the property has no change, or its accessor passes it on
        const isAcc = p.events.some((b) => b.t === 'branch' && b.val === true && b.pred.k === 'op' && b.pred.op === 'instanceof' && b.pred.args.some((t) => t.k === 'f' && t.name === R.sourceF && t.base !== r.thisT) && inLoop(b, x.loop));
        if (fw.length) { c.expect(isAcc && rec.length === 1, fw[0].node, 'a change is dropped', p); if (rec.length && fw[0]) c.expect(idxOf(p, rec[0]) < idxOf(p, fw[0]), fw[0].node, 'a change is dropped', p); continue; }
        continue;
      }
      c.expect(es.length === 1, es[1]?.node ?? R.get, 'a property is changed twice', p);
      const e = es[0], prop = propOf(p, R, r.thisT, e);
      if (!prop) { c.undecide('which property is changed was not recognised'); continue; }
      if (e.t === 'delete') { del++; c.expect(single(r.D), e.node, 'a property that was not deleted may be deleted', p); continue; }
      put++;
      c.expect(single(r.Pn), e.node, 'a property that was not changed may be written', p);
      const v = can(p, e.value), from = p.events.find((y) => y.t === 'call' && y.rec && same(p, y.res, v));
      c.expect((from && same(p, from.args[0] ?? from.recv, prop)) || (v.k === 'f' && v.name === 'value' && same(p, v.base, prop)), e.node, 'a property is given another value than its own', p);
      const fa = fw.at(-1);
      if (c.expect(fa && same(p, fa.base, prop), e.node, 'a change that was applied is applied again', p)) { const d = T.bitop('^', can(p, fa.value), T.field(prop, R.flagsF, 0)); c.expect((bitsOf(p, can(p, fa.value)).zero & r.Pn) === r.Pn && onlyBits(p, d, r.Pn), fa.node, 'a change that was applied is applied again', p); }
    }
    // a property that is neither deleted nor changed stays; one that is changed does not stay
    for (const x of ls.filter((y) => y.end === 'full' && !edits.some((e) => e.loops.includes(y.loop)))) {
      const F = flagBase(p, R, r.thisT, x.loop);
      if (!F || !editing.has(x.loop.node)) continue;
      const b = bitsOf(p, T.field(F, R.flagsF, 0));
      c.expect((b.zero & r.Pn) === r.Pn && (b.zero & r.D) === r.D, x.loop.node, 'a change is not applied', p);
    }
  }
  if (c.undecided.length) return;
  c.expect(applied && kept && del && put, R.get, 'changes are not applied when the value is read');
}
const inLoop = (b, loop) => !b.loops || b.loops.includes(loop);
function flagBase(p, R, thisT, loop) { let out = null; for (const b of p.events) if (b.t === 'branch') T.contains(b.pred, (t) => { if (t.k === 'f' && t.name === R.flagsF && t.base !== thisT && T.contains(t.base, (y) => y.k === 'idx' && same(p, y.arr, loop.over))) out = t.base; return false; }); return out; }
/** The bits of diff lie within mask. */
function onlyBits(p, diff, mask) { return decideZero(p, T.bitop('&', diff, cst(~mask))) === true; }

/** Setters must not run on the copy: it shares nested objects with the original. */
function setters(c) {
  const R = derivable(c), r = reading(c);
  let n = 0;
  const accs = c.P.subclasses(c.P.cls('WritableSignal')).filter((k) => usedAsSource(c, R, k) && c.P.member(k, 'write') && callsOwnField(c, k));
  if (!accs.length) { c.obligations++; return; }
  for (const { p, edits, committed } of r.out) {
    for (const e of edits.filter((x) => x.t === 'write')) {
      n++;
      const prop = propOf(p, R, r.thisT, e);
      if (!prop) continue;
      // this property has no accessor …
      const src = T.field(prop, R.sourceF, 0);
      const isNo = p.events.some((b) => b.t === 'branch' && b.val === false && b.pred.k === 'op' && b.pred.op === 'instanceof' && same(p, b.pred.args[0], src));
      if (isNo) { c.obligations++; continue; }
      // … or changes of accessors have been passed on before
      const before = [...loopsOf(p), ...p.events.filter((y) => y.t === 'loopzero').map((y) => ({ loop: y.loop, end: 'zero', start: y }))].filter((x) => overMap(p, x.loop.over ?? UNDEF, r.map) && !e.loops.includes(x.loop) && idxOf(p, x.start) < idxOf(p, e));
      c.expect(before.some((x) => passesOn(c, R, r, x.loop.node)), e.node, 'the setter of a property runs on the copy, which shares nested objects with the original', p);
    }
    void committed;
  }
  if (!c.undecided.length) c.expect(n > 0, R.get, 'changes are not applied when the value is read');
}
/** A loop over the properties that leaves no change at any accessor. */
function passesOn(c, R, r, node) {
  let seen = 0;
  for (const { p } of r.out) for (const x of loopsOf(p)) {
    if (x.loop.node !== node) continue;
    const evs = p.events.slice(idxOf(p, x.start)), end = evs.findIndex((e) => e.t === 'loopend' && e.loop === x.loop), own = evs.slice(0, end < 0 ? undefined : end);
    const inst = own.find((b) => b.t === 'branch' && b.pred.k === 'op' && b.pred.op === 'instanceof' && b.pred.args[0].k === 'f' && b.pred.args[0].name === R.sourceF);
    if (inst && inst.val === false) continue;
    const prop = inst ? can(p, inst.pred.args[0].base) : flagBase(p, R, r.thisT, x.loop);
    if (!prop) return false;
    const b = bitsOf(p, T.field(prop, R.flagsF, 0));
    if ((b.zero & r.Pn) === r.Pn) continue;
    const fw = own.find((e) => e.t === 'write' && e.name === R.flagsF && same(p, e.base, prop)), rec = own.find((e) => e.t === 'call' && e.rec && same(p, e.args[0] ?? e.recv, prop));
    if (!fw || !rec || (bitsOf(p, can(p, fw.value)).zero & r.Pn) !== r.Pn) return false;
    seen++;
  }
  return seen > 0;
}
const usedAsSource = (c, R, k) => { let y = false; c.P.walk(R.file, (n) => { if (ts.isNewExpression(n) && c.P.symbolOf(n.expression)?.valueDeclaration === k) y = true; if (ts.isNewExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === k.name?.text) y = true; }); return y; };
/** Writing calls a function it was given. */
function callsOwnField(c, k) { const fn = c.P.member(k, 'write').decl, E = c.engine(), thisT = E.thisSym(k); return fn.body ? c.paths(E, fn, { cls: k }).some((p) => p.events.some((e) => e.t === 'call' && e.fn && can(p, e.fn).k === 'f' && can(p, e.fn).base === thisT)) : false; }

/** Assigning and deleting. */
function mark(c) {
  const R = derivable(c), r = reading(c);
  if (!single(r.D) || !single(r.Pn) || r.A === 0) { if (!c.undecided.length) c.expect(false, R.get, 'the flags of changed and deleted properties are not told apart'); return; }
  const ws = c.P.member(c.P.cls('WritableSignal'), 'value', 'set')?.decl, inv0 = c.P.member(c.P.cls('WritableSignal'), 'invalidate')?.decl;
  for (const [fn, what] of [[R.set, 'set'], [R.del, 'delete']]) {
    const E = c.engine({ opaque: (f) => f === ws || f === inv0 }), thisT = E.thisSym(R.k), [nv] = E.paramSyms(fn);
    let n = 0, chain = 0, told = 0;
    for (const p of c.paths(E, fn, { cls: R.k })) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      n++;
      const src = T.field(thisT, R.sourceF, 0);
      if (what === 'set') {
        const as = p.events.filter((e) => (e.t === 'write' && e.name === 'value' && same(p, e.base, src)) || (e.t === 'call' && (e.name === 'value' || e.name === 'write') && same(p, e.recv, src)));
        c.expect(as.length === 1 && same(p, as[0].value ?? as[0].args?.[0], nv), as[1]?.node ?? fn, 'a value is not assigned to its source', p);
      }
      const after = can(p, c.get(p, thisT, R.flagsF)), b = bitsOf(p, after), d = T.bitop('^', after, flags0(R, thisT));
      if (what === 'set') {
        c.expect((b.one & r.Pn) === r.Pn, fn, 'an assignment is not noted at the property', p);
        c.expect((b.zero & r.A) === r.A, fn, 'changes of the replaced value are applied to the new one', p);
        c.expect((b.zero & r.D) === r.D, fn, 'a property stays deleted although it has been assigned', p);
        c.expect(onlyBits(p, d, r.Pn | r.A | r.D), fn, 'an assignment changes other flags', p);
        // properties of the replaced value are let go
        const map = T.field(thisT, R.propsF, 0), was = p.st.decide(p.st.pMask(map, 1 | N));
        const now = can(p, c.get(p, thisT, R.propsF));
        if (was !== true) {
          const gone = now === NULL || now === UNDEF || p.events.some((e) => e.t === 'call' && e.name === 'clear' && same(p, e.recv, map));
          c.expect(gone, fn, 'properties of the replaced value are taken for properties of the new one', p);
          const ls = loopsOf(p).filter((x) => overMap(p, x.loop.over ?? UNDEF, map)), z = p.events.some((e) => e.t === 'loopzero' && overMap(p, e.loop.over ?? UNDEF, map));
          c.expect(z || ls.some((x) => x.end === 'full' && p.events.some((e) => e.t === 'write' && e.name === R.ownerF && e.loops.includes(x.loop) && can(p, e.value) === NULL)), fn, 'changes of the replaced value reach the new one', p);
        }
      } else {
        c.expect((b.one & r.D) === r.D, fn, 'a deletion is not noted at the property', p);
        c.expect(onlyBits(p, d, r.D), fn, 'a deletion changes other flags', p);
      }
      // every owner up to the root
      const own0 = T.field(thisT, R.ownerF, 0);
      const fws = p.events.filter((e) => e.t === 'write' && e.name === R.flagsF && e.loops.length);
      const L = loopsOf(p).find((x) => [...(x.loop.carried?.values() ?? [])].some((y) => y.hv && same(p, y.init ?? UNDEF, own0)));
      if (!L) { c.expect(p.st.decide(p.st.pMask(own0, N)) === true || p.events.some((e) => e.t === 'loopzero' && [...(e.loop.carried?.values() ?? [])].some((y) => same(p, y.init ?? UNDEF, own0))), fn, 'the owner is not told about a change', p); continue; }
      chain++;
      const cv = [...L.loop.carried.values()].find((y) => y.hv && same(p, y.init ?? UNDEF, own0));
      c.expect(L.end === 'full', L.loop.node, 'not every owner is told about a change', p);
      const nx = cv.nexts ?? [];
      c.expect(nx.length && nx.every((t) => t.k === 'f' && t.name === R.ownerF && t.base === cv.hv), L.loop.node, 'an owner is skipped', p);
      const fw = fws.filter((e) => e.loops.includes(L.loop)).at(-1);
      if (c.expect(fw && can(p, fw.base) === can(p, cv.hv), L.loop.node, 'an owner is not told about a change', p)) {
        const fb = bitsOf(p, can(p, fw.value));
        c.expect((fb.one & (r.A | r.Pn)) === (r.A | r.Pn), fw.node, 'an owner does not take over a change of its property', p);
        c.expect(onlyBits(p, T.bitop('^', can(p, fw.value), T.field(cv.hv, R.flagsF, 0)), r.A | r.Pn), fw.node, 'a change sets other flags of the owner', p);
      }
      const inst = p.events.find((b2) => b2.t === 'branch' && b2.pred.k === 'op' && b2.pred.op === 'instanceof' && can(p, b2.pred.args[0]) === can(p, T.field(cv.hv, R.sourceF, 0)));
      const inv = p.events.filter((e) => e.t === 'call' && e.name === 'invalidate' && e.loops.includes(L.loop));
      if (!inst || inst.val) { told++; c.expect(inv.length === 1 && same(p, inv[0].recv, T.field(cv.hv, R.sourceF, 0)), inv[1]?.node ?? L.loop.node, 'subscribers of an owner are not told once about a change', p); }
    }
    if (!c.undecided.length) c.expect(n > 0 && chain > 0 && told > 0, fn, 'owners are not told about changes');
  }
}

// ---- writes to values of unknown origin ---------------------------------
const MUT = { Object: ['assign', 'defineProperty', 'defineProperties', 'setPrototypeOf', 'freeze', 'seal', 'preventExtensions'], Reflect: ['set', 'defineProperty', 'deleteProperty', 'setPrototypeOf', 'preventExtensions'] };
const MUTM = new Set(['push', 'pop', 'shift', 'unshift', 'splice', 'sort', 'reverse', 'fill', 'copyWithin', 'set', 'add', 'delete', 'clear', 'append']);
/** Objects of the library: instances of its classes, and what they keep; literals of the same function. */
function owned(c, e, fn, depth = 0) {
  while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e)) e = e.expression;
  if (e.kind === ts.SyntaxKind.ThisKeyword || e.kind === ts.SyntaxKind.SuperKeyword) return true;
  const t = c.P.checker.getTypeAtLocation(e), parts = t.isUnion?.() ? t.types : [t];
  const ofRepo = parts.filter((x) => !(x.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null))).every((x) => (x.symbol?.declarations ?? []).some((d) => (ts.isClassLike(d) || ts.isObjectLiteralExpression(d)) && c.P.inRepo(d)) && !(x.flags & ts.TypeFlags.TypeParameter));
  if (parts.length && ofRepo) return true;
  if (ts.isPropertyAccessExpression(e) && !isValue(c, e)) return owned(c, e.expression, fn, depth) && !!c.P.symbolOf(e.name)?.valueDeclaration && c.P.inRepo(c.P.symbolOf(e.name).valueDeclaration) && !unknownType(t);
  if (ts.isIdentifier(e)) {
    const d = c.P.symbolOf(e)?.valueDeclaration;
    if (d && ts.isVariableDeclaration(d)) {
      const inits = [d.initializer];
      c.P.walk(d.getSourceFile(), (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isIdentifier(n.left) && c.P.symbolOf(n.left) === c.P.symbolOf(e)) inits.push(n.right); });
      return depth < 4 && inits.every((i) => i && (fresh(i) || owned(c, i, fn, depth + 1)));
    }
  }
  if (ts.isBinaryExpression(e) && [ts.SyntaxKind.QuestionQuestionToken, ts.SyntaxKind.QuestionQuestionEqualsToken, ts.SyntaxKind.BarBarToken, ts.SyntaxKind.EqualsToken].includes(e.operatorToken.kind)) return [e.left, e.right].every((x) => fresh(x) || owned(c, x, fn, depth + 1));
  return fresh(e);
}
const isValue = (c, e) => e.name.text === 'value';
const unknownType = (t) => !!(t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.TypeParameter | ts.TypeFlags.NonPrimitive));
function fresh(e) {
  while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e)) e = e.expression;
  return ts.isArrayLiteralExpression(e) || ts.isObjectLiteralExpression(e) || ts.isFunctionLike(e) || (ts.isNewExpression(e) && ts.isIdentifier(e.expression) && ['Map', 'Set', 'WeakMap', 'WeakSet', 'Array', 'LinkedList'].includes(e.expression.text)) || (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && ['slice', 'toReversed', 'toSorted', 'map', 'filter', 'concat', 'flat', 'flatMap'].includes(e.expression.name.text));
}
/** Constructs that change an object. */
function mutations(c, file) {
  const out = [], SK = ts.SyntaxKind;
  const target = (t, node) => {
    while (ts.isParenthesizedExpression(t) || ts.isAsExpression(t) || ts.isNonNullExpression(t)) t = t.expression;
    if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) out.push({ node, base: t.expression });
    else if (ts.isArrayLiteralExpression(t)) t.elements.forEach((x) => target(x, node));
    else if (ts.isObjectLiteralExpression(t)) t.properties.forEach((x) => target(x.initializer ?? x.name, node));
  };
  c.P.walk(file, (n) => {
    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment) target(n.left, n);
    if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken)) target(n.operand, n);
    if (ts.isDeleteExpression(n)) target(n.expression, n);
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) {
      const o = n.expression.expression, m = n.expression.name.text;
      if (ts.isIdentifier(o) && MUT[o.text]?.includes(m) && n.arguments[0]) out.push({ node: n, base: n.arguments[0] });
      else if (MUTM.has(m) && !(ts.isIdentifier(o) && MUT[o.text])) { const d = c.P.checker.getResolvedSignature(n)?.declaration; if (!d || !c.P.inRepo(d)) out.push({ node: n, base: o }); }
    }
  });
  return out;
}
function foreign(c) {
  const R = derivable(c);
  let n = 0;
  const files = [...new Set([R.file, c.P.cls('Atom').getSourceFile(), c.P.cls('Accessor').getSourceFile(), c.P.cls('Computed').getSourceFile()])];
  R.finals = new Set();
  for (const file of files) for (const m of mutations(c, file)) {
    n++; c.obligations++;
    const fn = enclosingFn(m.node);
    if (owned(c, m.base, fn)) continue;
    if (!fn) { c.fail(m.node, 'a value of unknown origin is changed'); continue; }
    // what the paths of the function, or of one that calls it, say about the base
    const evs = pathsThrough(c, R, fn, m.node);
    if (!evs) { c.fail(m.node, 'a value that is not known to be a copy is changed'); continue; }
    for (const { p, e, fn: root } of evs) {
      if (copyOf(p, e.base ?? e.recv ?? UNDEF) && (can(p, e.base ?? e.recv).k === 'o' || copyOf(p, e.base).of)) continue;
      if (e.t === 'write' && finalizing(c, R, p, e, fn)) { R.finals.add(root ?? fn); continue; }
      c.fail(e.node, 'a value that may belong to the user is changed', p);
    }
  }
  c.expect(n > 0, R.k, 'nothing is ever changed');
}
/** Paths on which a construct changes something: from reading derived state if it is reached from there. */
function pathsThrough(c, R, fn, node) {
  const hit = (ps) => ps.flatMap((p) => p.events.filter((e) => (e.t === 'write' || e.t === 'delete' || e.t === 'call') && (e.node === node || within(e.node, node))).map((e) => ({ p, e })));
  const r = reading(c);
  const a = hit(r.out.map((x) => x.p));
  if (a.length) return a;
  // from the outermost function that contains it, so that closures are seen where they are called
  const chain = [];
  for (let x = node; x; x = x.parent) if (isFunctionLike(x) && x.body) chain.unshift(x);
  for (const f of chain) {
    const E = c.engine();
    let b = [];
    try { b = hit(c.paths(E, f, ts.isClassLike(f.parent) ? { cls: f.parent } : {}).filter((p) => !p.st.infeasible())); } catch { continue; }
    if (b.length) return b.map((x) => ({ ...x, fn: f }));
  }
  return null;
}
const within = (x, node) => { for (; x; x = x.parent) { if (x === node) return true; if (isFunctionLike(x)) return false; } return false; };
/** base[key] = f(base[key]) where f is this very function and the result differs. */
function finalizing(c, R, p, e, fn) {
  const v = can(p, e.value);
  const call = p.events.find((x) => x.t === 'call' && same(p, x.res ?? UNDEF, v) && x.rec);
  if (!call || call.args.length < 1) return false;
  const a = call.rawArgs?.[0] ?? call.args[0];
  const cur = [a, can(p, call.args[0])].find((t) => (t.k === 'f' || t.k === 'idx') && same(p, t.base ?? t.arr, e.base) && same(p, t.keyTerm ?? t.i, e.key));
  if (!cur) return false;
  // only when it differs
  return p.st.decide(p.st.pEq(can(p, cur), v, 'is')) === false || p.st.decide(p.st.pEq(can(p, cur), v)) === false;
}

/** Finalization: drafts are replaced by their targets, at any depth. */
function finalize(c) {
  const R = derivable(c);
  if (!R.finals) foreign(c);
  if (!R.finals.size) { c.undecide('how drafts inside assigned values are replaced was not recognised'); return; }
  for (const fn of R.finals) {
    const E = c.engine(), [t] = E.paramSyms(fn);
    let deep = 0, unwrapped = 0, prim = 0;
    for (const p of c.paths(E, fn, {})) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      const v = can(p, p.value);
      const has = p.events.find((b) => b.t === 'branch' && b.pred.k === 'op' && b.pred.op === 'hasprop' && b.pred.args.some((x) => same(p, x, t)));
      const obj = p.st.decide(p.st.pMask(t, 256 | 128));
      if (obj === false || p.st.decide(p.st.pMask(t, N)) === true || p.st.decide(p.st.pMask(t, 1)) === true) { prim++; c.expect(v === can(p, t), fn, 'a primitive value is replaced', p); continue; }
      if (has?.val) { unwrapped++; c.expect(v !== can(p, t) && T.contains(v, (x) => x === t), fn, 'a draft is not replaced by its target', p); } else c.expect(v === can(p, t), fn, 'a value that is no draft is replaced', p);
      const L = loopsOf(p).find((x) => over(p, x.loop, v)), z = p.events.some((e) => e.t === 'loopzero' && over(p, e.loop, v, true));
      c.expect(L ? L.end === 'full' : z, fn, 'drafts inside a value are not looked for', p);
      if (!L) continue;
      deep++;
      const rec = p.events.filter((e) => e.t === 'call' && e.rec && e.loops.includes(L.loop));
      if (!c.expect(rec.length === 1, rec[1]?.node ?? L.loop.node, 'drafts inside a value are not looked for at any depth', p)) continue;
      const w = p.events.filter((e) => writeTo(e) && e.loops.includes(L.loop));
      const el = rec[0].args[0], is = p.st.decide(p.st.pEq(can(p, el), can(p, rec[0].res), 'is'));
      if (is === false) c.expect(w.length === 1 && same(p, w[0].base, v) && same(p, w[0].value, rec[0].res), rec[0].node, 'a draft inside a value is not replaced', p);
      else c.expect(is === true && !w.length || w.length === 0 && is === true, w[0]?.node ?? rec[0].node, 'a value is written to although nothing has to be replaced', p);
    }
    if (!c.undecided.length) c.expect(deep > 0 && unwrapped > 0 && prim > 0, fn, 'drafts inside a value are not replaced');
  }
}
/** The lists a loop goes over, by its elements or by their positions. */
function listsOf(p, loop, zero) {
  if (loop.over) return [can(p, loop.over)];
  const out = [];
  if (loop.cond) T.contains(loop.cond, (t) => { if (t.k === 'f' && t.name === 'length') out.push(can(p, t.base)); return false; });
  for (const x of loop.carried?.values() ?? []) { const i = can(p, x.init ?? UNDEF); if (i.k === 'lin') T.contains(i, (t) => { if (t.k === 'f' && t.name === 'length') out.push(can(p, t.base)); return false; }); }
  return out.filter((a) => covers(loop, a, p, { zero }));
}
const over = (p, loop, v, zero) => listsOf(p, loop, zero).some((o) => o.k === 'r' && o.name === 'ownKeys' && same(p, o.args[0], v));

// ---- drafts -------------------------------------------------------------
/** Functions that make a proxy. */
function drafters(c) {
  const R = derivable(c);
  if (R.drafters) return R.drafters;
  const out = new Set();
  for (const f of c.P.files) c.P.walk(f, (n) => {
    const isProxy = (x) => ts.isIdentifier(x) && x.text === 'Proxy';
    if (ts.isNewExpression(n) && isProxy(n.expression)) c.fail(n, 'a draft is made that cannot be revoked');
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && isProxy(n.expression.expression) && n.expression.name.text === 'revocable') out.add(enclosingFn(n));
  });
  c.obligations++;
  if (!out.size) throw new AnchorError('no revocable proxy is made');
  return (R.drafters = out);
}
const isRevocable = (e) => e.t === 'call' && e.name === 'revocable';
/** Making a draft: what it returns revokes the proxy and every nested one. */
function revoked(c) {
  const R = derivable(c);
  for (const fn of drafters(c)) {
    const E = c.engine({ escape: true, opaque: (f) => drafters(c).has(f) || makers(c).has(f) });
    const ps = c.paths(E, fn, {}).filter((p) => p.kind === 'return' && !p.st.infeasible());
    for (const p of ps) {
      const rv = p.events.filter(isRevocable);
      if (!c.expect(rv.length === 1, rv[1]?.node ?? fn, 'a draft consists of several proxies', p)) continue;
      const res = rv[0].res, proxy = T.field(res, 'proxy', 0);
      const isP = (t) => { t = can(p, t); return t.k === 'f' && t.name === 'proxy' && same(p, t.base, res); }, isR = (t) => { t = can(p, t); return t.k === 'f' && t.name === 'revoke' && same(p, t.base, res); };
      void proxy;
      const out = can(p, p.value);
      const px = c.get(p, out, 'proxy'), rk = c.get(p, out, 'revoke');
      if (!isP(px) || !rk || !(rk.k === 'fn' || isR(rk))) { c.undecide('what a draft consists of was not recognised'); continue; }
      // nested drafts made by the traps
      const handler = can(p, rv[0].args[1]);
      const list = nestedLists(c, p, handler);
      if (isR(rk)) { c.expect(!list.length, fn, 'nested drafts are not revoked', p); continue; }
      let lst = null;
      const st = p.st.clone(); // traps may have added to the lists
      for (const x of list) if (x.list?.k === 'o') { st.heap.delete(x.list.id + '#items'); st.arrVer.set(x.list.id, T.fresh()); }
      for (const q of c.callPaths(p, rk, [], UNDEF, st)) {
        if (q.st.infeasible()) continue;
        const z = q.own.find((e) => e.t === 'loopzero'), L = q.own.find((e) => e.t === 'loop');
        const cs = q.own.filter((e) => e.t === 'call' && !e.pure);
        if (L) { lst = listsOf(q, L.loop)[0] ?? UNDEF; const end = q.own.find((e) => e.t === 'loopend' && e.loop === L.loop); c.expect(end?.how === 'full', L.node ?? fn, 'not every draft is revoked', q); c.expect(cs.some((e) => e.fn && T.contains(q.st.canon(e.fn), (t) => t.k === 'idx' && q.st.canon(t.arr) === lst)) || cs.some((e) => e.fn && isR(e.fn)), L.node ?? fn, 'nested drafts are not revoked', q); } else if (!z) c.expect(cs.some((e) => e.fn && isR(e.fn)), fn, 'a draft is not revoked', q);
      }
      // the list starts with the proxy’s own revocation and is given the nested ones
      const init = lst && firstItems(p, lst);
      const direct = c.callPaths(p, rk, [], UNDEF).every((q) => q.own.some((e) => e.t === 'call' && e.fn && isR(e.fn)));
      if (lst) c.expect(direct || (init && init.some((t) => isR(t))) || p.events.some((e) => e.t === 'call' && ['push', 'unshift'].includes(e.name) && same(p, e.recv, lst) && e.args.some(isR)), fn, 'a draft is not revoked', p);
      for (const x of list) c.expect(x.list && lst && x.list === lst, x.node, 'a nested draft is not revoked', p);
    }
  }
}
function firstItems(p, lst) {
  // the items of the list when it was made
  if (lst.items) return lst.items.map((t) => can(p, t));
  const h = p.st.heap.get(lst.id + '#items');
  if (h?.list) return h.list;
  for (const e of p.events) if (e.t === 'alloc' && e.obj === lst) return e.items;
  return null;
}
function trapFns(c, p, handler) {
  const out = {};
  for (const name of ['get', 'set', 'deleteProperty', 'defineProperty', 'setPrototypeOf', 'preventExtensions', 'has', 'ownKeys', 'getOwnPropertyDescriptor', 'getPrototypeOf', 'isExtensible', 'apply', 'construct']) {
    const f = c.get(p, handler, name);
    if (f && f.k === 'fn') out[name] = f; else if (f && f !== UNDEF && !(f.k === 'f')) out[name] = f;
  }
  return out;
}
/** Where traps put the revocations of drafts they hand out. */
function nestedLists(c, p, handler) {
  const out = [];
  for (const f of Object.values(trapFns(c, p, handler))) {
    if (f.k !== 'fn') continue;
    for (const q of c.callPaths(p, f, f.node.parameters.map((_, i) => T.sym('trap' + i)), handler)) {
      if (q.kind !== 'return' || q.st.infeasible()) continue;
      const v = q.st.canon(q.value ?? UNDEF);
      for (const m of q.own.filter((e) => e.t === 'call' && ((e.target && drafters(c).has(e.target)) || isRevocable(e)) && T.contains(v, (t) => t === q.st.canon(e.res)))) {
        const gives = (a) => { a = q.st.canon(a); return (a.k === 'f' && a.name === 'revoke' && q.st.canon(a.base) === q.st.canon(m.res)) || a === q.st.canon(m.res); };
        const push = q.own.find((e) => e.t === 'call' && ['push', 'unshift', 'add'].includes(e.name) && e.args.some(gives));
        out.push({ node: m.node, list: push ? q.st.canon(push.recv) : null });
      }
    }
  }
  return out;
}
/** Every use of a draft ends with its revocation. */
function used(c) {
  const R = derivable(c), D = drafters(c);
  const sites = [];
  for (const f of c.P.files) c.P.walk(f, (n) => { if (ts.isCallExpression(n)) { const d = c.P.checker.getResolvedSignature(n)?.declaration; if (d && D.has(d)) sites.push(n); } });
  const seen = new Set();
  const isUser = (e) => e.t === 'call' && !e.pure && !e.builtin && !(e.target && D.has(e.target));
  const judge = (p, evs, kind) => {
    for (const m of evs.filter((e) => e.t === 'call' && e.target && D.has(e.target))) {
      seen.add(m.node);
      const i = evs.indexOf(m), px = (t) => T.contains(can(p, t), (x) => x.k === 'f' && x.name === 'proxy' && same(p, x.base, m.res));
      const uses = evs.filter((e, j) => j > i && e.t === 'call' && ((e.recv && px(e.recv)) || e.args.some(px) || (e.thisV && px(e.thisV))));
      const rs = evs.filter((e, j) => j > i && e.t === 'call' && ((e.fn && isRk(p, e.fn, m)) || (e.name === 'revoke' && e.recv && same(p, e.recv, m.res))));
      if (!c.expect(rs.length === 1, rs[1]?.node ?? m.node, 'a draft is not revoked when its use ends', p)) continue;
      c.expect(uses.every((u) => evs.indexOf(u) < evs.indexOf(rs[0])), rs[0].node, 'a draft is revoked before it is used', p);
      void kind;
    }
    // accessors of the original run on a draft
    for (const e of evs.filter((x) => x.t === 'call' && x.fn && !x.pure)) {
      const f = can(p, e.fn);
      if (f.k !== 'f' || !['get', 'set'].includes(f.name) || !['r', 's'].includes(can(p, f.base).k) || f.base === e.recv) continue;
      const on = e.recv ?? e.thisV;
      c.expect(on && T.contains(can(p, on), (x) => x.k === 'f' && x.name === 'proxy'), e.node, 'an accessor runs on the original value', p);
    }
  };
  const isRk = (p, f, m) => { f = can(p, f); return f.k === 'f' && f.name === 'revoke' && same(p, f.base, m.res); };
  const opts = { opaque: (f) => D.has(f), throws: isUser };
  for (const s of sites) {
    let fn = enclosingFn(s);
    if (D.has(rootIn(fn, D))) continue; // nested drafts: see `revoked`
    const outer = named(fn);
    if (outer.__c20) continue; outer.__c20 = true;
    const E = c.engine({ ...opts });
    for (const p of c.paths(E, outer, ts.isClassLike(outer.parent) ? { cls: outer.parent } : {})) {
      if (p.st.infeasible()) continue;
      judge(p, p.events, p.kind);
      if (p.kind !== 'return') continue;
      for (const e of p.events.filter((x) => x.t === 'new')) for (const a of e.args) {
        const v = can(p, a);
        if (v.k !== 'fn' || !contains(v.node, sites)) continue;
        const params = (v.node.parameters ?? []).map((_, j) => T.sym('new' + j));
        for (const q of c.callPaths(p, v, params, UNDEF)) if (!q.st.infeasible()) judge(q, q.own, q.kind);
      }
    }
  }
  for (const s of sites) { delete named(enclosingFn(s)).__c20; if (!D.has(rootIn(enclosingFn(s), D)) && !seen.has(s)) c.undecide('a use of a draft was not followed'); }
  if (!c.undecided.length) c.expect(seen.size > 0, R.k, 'no draft is made');
}
const contains = (fn, sites) => sites.some((s) => { for (let x = s; x; x = x.parent) if (x === fn) return true; return false; });
const named = (fn) => { let r = fn; for (let x = fn; x; x = x.parent) if (isFunctionLike(x) && (ts.isFunctionDeclaration(x) || ts.isMethodDeclaration(x) || ts.isAccessor(x) || ts.isConstructorDeclaration(x))) { r = x; if (!ts.isObjectLiteralExpression(x.parent)) break; } return r; };
const rootIn = (fn, D) => { for (let x = fn; x; x = x.parent) if (isFunctionLike(x) && D.has(x)) return x; return null; };

/** Traps keep every change aside. */
function traps(c) {
  const R = derivable(c), r = reading(c);
  for (const fn of drafters(c)) {
    const setter = targets(c, R.set, R), deleter = targets(c, R.del, R), reader = targets(c, R.get, R), finals = R.finals ?? new Set();
    const E = c.engine({ opaque: (f) => f !== fn && (setter.has(f) || deleter.has(f) || finals.has(f) || reader.has(f) || drafters(c).has(f) || makers(c).has(f)) });
    const ps = c.paths(E, fn, {}).filter((p) => p.kind === 'return' && !p.st.infeasible());
    for (const p of ps) {
      const rv = p.events.find(isRevocable);
      if (!rv) continue;
      const handler = can(p, rv.args[1]), fs = trapFns(c, p, handler);
      for (const name of ['set', 'deleteProperty', 'defineProperty', 'setPrototypeOf', 'preventExtensions']) c.expect(fs[name], rv.node, `an operation on a draft changes the original: ${name}`, p);
      for (const name of ['defineProperty', 'setPrototypeOf', 'preventExtensions']) {
        const f = fs[name];
        if (f?.k !== 'fn') continue;
        for (const q of c.callPaths(p, f, f.node.parameters.map((_, i) => T.sym(name + i)), handler)) {
          if (q.st.infeasible() || q.kind === 'throw') continue;
          const done = q.own.some((e) => e.t === 'call' && e.target && setter.has(e.target));
          c.expect(done || refuses(q), f.node, `an operation on a draft is said to have been done although it has not: ${name}`, q);
        }
      }
      for (const [name, does, what] of [['set', setter, 'assignment'], ['deleteProperty', deleter, 'deletion']]) {
        const f = fs[name];
        if (f?.k !== 'fn') continue;
        const target = T.sym('target'), key = T.sym('key'), value = T.sym('value');
        let yes = 0, no = 0;
        for (const q of c.callPaths(p, f, [target, key, value, T.sym('draft')].slice(0, name === 'set' ? 4 : 2), handler)) {
          if (q.st.infeasible() || q.kind !== 'return') continue;
          const cs = q.own.filter((e) => e.t === 'call' && e.target && does.has(e.target));
          const ok = q.st.decide(q.st.pTruthy(q.st.canon(q.value ?? UNDEF)));
          c.expect(cs.length <= 1, cs[1]?.node ?? f.node, `${what === 'deletion' ? 'a' : 'an'} ${what} is done twice`, q);
          if (cs.length) {
            yes++;
            c.expect(ok === true, cs[0].node, `${what === 'deletion' ? 'a' : 'an'} ${what} that has been kept aside is said to have failed`, q);
            const prop = q.st.canon(cs[0].args[0] ?? cs[0].recv ?? UNDEF);
            c.expect(belongs(c, R, q, prop, key), cs[0].node, `${what === 'deletion' ? 'a' : 'an'} ${what} is kept aside at another property`, q);
            if (name === 'set') {
              const v = q.st.canon(cs[0].args[1] ?? cs[0].value ?? UNDEF), fc = q.own.find((e) => e.t === 'call' && q.st.canon(e.res ?? UNDEF) === v && e.target && finals.has(e.target));
              if (finals.size) c.expect(fc && q.st.canon(fc.args[0]) === value, cs[0].node, 'drafts inside an assigned value are kept after they have been revoked', q);
            }
          } else { no++; c.expect(ok === false, f.node, `${what === 'deletion' ? 'a' : 'an'} ${what} that was ignored is said to have been done`, q); }
        }
        if (!c.undecided.length) c.expect(yes > 0, f.node, `${what === 'deletion' ? 'a' : 'an'} ${what} is not kept aside`);
        void no;
      }
    }
  }
  void r;
}
const refuses = (q) => q.st.decide(q.st.pTruthy(q.st.canon(q.value ?? UNDEF))) === false;
/** The functions an accessor delegates to with itself. */
function targets(c, fn, R) {
  const out = new Set([fn]);
  for (const f of out) {
    if (!f.body) continue;
    const E = c.engine({ opaque: (g) => g !== f && g.getSourceFile() === R.file }), own = ts.isClassLike(f.parent) && !isStatic(f);
    const self = own ? E.thisSym(R.k) : E.paramSyms(f)[0];
    // a function that does nothing else but hand it on stands for its target
    for (const p of c.paths(E, f, own ? { cls: R.k } : {})) for (const e of calls(p)) if (e.target && self && (same(p, e.args[0] ?? UNDEF, self) || same(p, e.recv ?? UNDEF, self)) && (f === fn || delegates(f))) out.add(e.target);
  }
  return out;
}
const delegates = (f) => !ts.isBlock(f.body) || (f.body.statements.length === 1 && (ts.isReturnStatement(f.body.statements[0]) || ts.isExpressionStatement(f.body.statements[0])));
/** A property of the receiver under this key. */
function belongs(c, R, q, prop, key) {
  if (prop.k === 'r') {
    if (prop.name === 'get' && prop.args?.[0] && q.st.canon(prop.args[0]) === key) return true;
    return (prop.args ?? []).some((a) => q.st.canon(a) === key);
  }
  if (prop.k === 'o') { const kf = q.st.heap.get(q.E.hkey(q.st, prop, cst(R.keyF))); return !!kf && q.st.canon(kf) === key; }
  return T.contains(prop, (t) => t === key);
}
/** Functions that make a property. */
function makers(c) {
  const R = derivable(c), makes = new Set();
  c.P.walk(R.file, (n) => { if (ts.isNewExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === R.k.name.text) { const f = enclosingFn(n); if (f && !isStatic(f)) makes.add(named(f)); } });
  return makes;
}
/** One property for each key. */
function cells(c) {
  const R = derivable(c), fn = c.P.method(R.k, 'get'), makes = makers(c);
  // making a property: it belongs to the receiver
  for (const m of makes) {
    const E = c.engine({ opaque: (f) => drafters(c).has(f) }), ps = E.paramSyms(m);
    for (const p of c.paths(E, m, ts.isClassLike(m.parent) ? { cls: m.parent } : {})) {
      if (p.kind !== 'return' || p.st.infeasible()) continue;
      for (const e of p.events.filter((x) => x.t === 'new' && x.cls === R.k)) {
        const ow = can(p, c.get(p, e.obj, R.ownerF)), ky = can(p, c.get(p, e.obj, R.keyF));
        if (ow === NULL) { c.expect(false, e.node, 'changes of a property do not reach its owner', p); continue; }
        c.expect(ps.some((s) => can(p, s) === ow) || ow === E.thisSym(R.k), e.node, 'a property belongs to another owner', p);
        c.expect(ps.some((s) => T.contains(ky, (t) => t === s)), e.node, 'a property has another key', p);
      }
    }
  }
  const E = c.engine({ opaque: (f) => makes.has(f) || drafters(c).has(f) }), thisT = E.thisSym(R.k), map = T.field(thisT, R.propsF, 0);
  let hit = 0, made = 0;
  for (const p of c.paths(E, fn, { cls: R.k })) {
    if (p.kind !== 'return' || p.st.infeasible()) continue;
    const v = can(p, p.value);
    if (v === UNDEF || v.k === 'c') continue;
    if (v.k === 'r' && v.name === 'get' && same(p, v.recv, map)) { hit++; continue; }
    made++;
    const put = calls(p, (e) => e.name === 'set' && e.args.length === 2 && same(p, e.args[1], v));
    if (!c.expect(put.length === 1, put[1]?.node ?? fn, 'a property that is made is not kept: its changes get lost', p)) continue;
    const m = can(p, c.get(p, thisT, R.propsF));
    if (p.st.decide(p.st.pMask(map, 1 | N)) === false) c.expect(same(p, m, map), put[0].node, 'properties that were made before are dropped: their changes get lost', p);
    c.expect(same(p, put[0].recv, m), put[0].node, 'a property that is made is not kept: its changes get lost', p);
    const mk = p.events.find((e) => e.t === 'call' && same(p, e.res ?? UNDEF, v) && e.target && makes.has(e.target));
    if (mk) { c.expect(mk.args.some((a) => same(p, a, put[0].args[0])), put[0].node, 'a property is kept under another key', p); c.expect(mk.args.some((a) => same(p, a, thisT)), mk.node, 'a property belongs to another owner', p); }
    const looked = p.st.decide(p.st.pMask(map, 1 | N)) === true || p.events.some((e) => e.t === 'call' && e.name === 'get' && same(p, e.recv, map) && same(p, e.args[0], put[0].args[0]));
    c.expect(looked, put[0].node, 'a property is made although there is one', p);
  }
  if (!c.undecided.length) c.expect(hit > 0 && made > 0, fn, 'properties are not kept');
}
export const rules = [
  { name: 'read', text: 'reading applies the changes of properties, each once, to a copy that replaces the stored value, and changes nothing without need', run: read },
  { name: 'setters', text: 'no setter runs on the copy', run: setters },
  { name: 'mark', text: 'assigning and deleting note the change at the property and at every owner, and let go what belonged to the replaced value', run: mark },
  { name: 'foreign', text: 'what is written to is a copy, an object of the library, or an element replaced by its finalization', run: foreign },
  { name: 'finalize', text: 'finalization replaces drafts by their targets at any depth and writes only where something is replaced', run: finalize },
  { name: 'traps', text: 'traps keep every change aside and refuse what they cannot keep aside', run: traps },
  { name: 'revoked', text: 'revoking a draft revokes every nested one', run: revoked },
  { name: 'used', text: 'every draft is revoked when its use ends, also on error', run: used },
  { name: 'cells', text: 'there is one property for each key, which knows its owner', run: cells },
];
export { can, same, bit, zeroP, decideZero, bitsOf, derivable, flags0, srcValue, entry, overMap, reading, drafters, isRevocable, trapFns, targets, belongs, makers };
