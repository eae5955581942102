import { T, cst, UNDEF, TRUE, FALSE, U, N, fld, calls, writes, idxOf, covers, loopsOf, effectRoles, componentClass, hookPaths, ts, AnchorError, knows, refutes } from './_lib.mjs';

export const about = 'Typestate of an effect slot (dirty mark, stored cleanup) over every path of the hook call, of connecting and of disconnecting a component, including the paths on which a setup or cleanup throws.';
export const assumptions = ['A component instance is connected only by commits (decided under C06 and C10).', 'The dependency comparison itself is decided under C36.'];

export const rules = [
  {
    name: 'effect-slot-new',
    text: 'a new effect slot is dirty, stores the setup and the dependencies and has no cleanup',
    run(c) {
      const r = effectRoles(c);
      for (const p of r.h.fresh) {
        const obj = p.push[0].args[0];
        c.expect(c.get(p, obj, r.dirtyF) === TRUE, p.push[0].node, 'a new effect is not marked to run', p);
        c.expect(c.same(p, c.get(p, obj, r.setupF), r.setup), p.push[0].node, 'a new effect does not store its setup', p);
        c.expect(c.same(p, c.get(p, obj, r.depsF), r.deps), p.push[0].node, 'a new effect does not store its dependencies', p);
        c.expect(c.get(p, obj, r.cleanupF) === UNDEF, p.push[0].node, 'a new effect has a cleanup before its setup ran', p);
      }
    },
  },
  {
    name: 'effect-slot-reused',
    text: 'a reused effect slot stays dirty once dirty, becomes dirty exactly when the dependencies changed since the previous render, and takes the new setup and dependencies',
    run(c) {
      const r = effectRoles(c);
      for (const p of r.h.reused) {
        if (p.kind !== 'return') continue;
        const ws = writes(p, (e) => [r.setupF, r.depsF].includes(e.name));
        const slot = ws[0]?.base;
        if (!c.expect(!!slot, r.h.fn, 'a reused effect slot takes neither the new setup nor the new dependencies', p)) continue;
        c.expect(c.same(p, c.get(p, slot, r.setupF), r.setup), r.h.fn, 'a reused effect slot does not take the new setup', p);
        c.expect(c.same(p, c.get(p, slot, r.depsF), r.deps), r.h.fn, 'a reused effect slot does not take the new dependencies', p);
        const was = fld(slot, r.dirtyF);
        const wasDirty = p.st.decide(p.st.pTruthy(was));
        const now = c.get(p, slot, r.dirtyF);
        const nowV = p.st.decide(p.st.pTruthy(now));
        const oldDeps = fld(slot, r.depsF);
        const cmp = calls(p, (e) => e.decl === 'areDependenciesChanged');
        for (const e of cmp) c.expect(e.args.length >= 2 && e.args.some((a) => c.same(p, a, oldDeps)) && e.args.some((a) => c.same(p, a, r.deps)), e.node, 'the dependency comparison is not between the stored and the new dependencies', p);
        if (wasDirty === true) c.expect(nowV === true, r.h.fn, 'an effect still waiting to run loses its mark in a later render', p);
        else if (cmp.length) {
          const e = cmp.at(-1);
          const changed = p.st.decide(p.st.pTruthy(e.res));
          const ok = nowV === changed && (nowV !== undefined || p.st.canon(now) === p.st.canon(e.res) || p.st.pTruthy(now) === p.st.pTruthy(e.res));
          c.expect(ok && (wasDirty === false || changed === true), e.node, 'an effect is not marked to run exactly when its dependencies changed', p);
        } else {
          // inline comparison: a missing list always counts as changed
          const nul = [oldDeps, r.deps].some((d) => knows(p, p.st.pMask(d, U | N)));
          if (nul) c.expect(nowV === true, r.h.fn, 'an effect without dependencies is not marked to run', p);
          else if (p.st.canon(now) === p.st.canon(was) || nowV !== undefined) c.expect(p.events.some((e) => e.t === 'branch' || e.pure) && p.st.canon(now) !== was, r.h.fn, 'an effect is never marked to run again', p);
        }
      }
    },
  },
  {
    name: 'connect-runs-dirty',
    text: 'connecting visits every slot; a dirty effect has its stored cleanup taken out and run once, then its setup once, whose result is stored, and is clean afterwards; other slots are left alone',
    run(c) { connectRule(c, 'connect'); },
  },
  {
    name: 'disconnect-cleans',
    text: 'disconnecting visits every slot and runs the stored cleanup of each effect once, taking it out first',
    run(c) { connectRule(c, 'disconnect'); },
  },
  {
    name: 'effects-only-in-lifecycle',
    text: 'the setup and cleanup stored in a slot are called nowhere but under connect and disconnect',
    run(c) {
      const r = effectRoles(c);
      const cls = componentClass(c.P);
      const allowed = new Set(['connect', 'disconnect'].map((n) => c.P.method(cls, n)));
      // functions used by the allowed ones only
      const E = c.engines[0];
      for (let ch = true; ch;) {
        ch = false;
        for (const fn of c.P.functions) {
          if (allowed.has(fn)) continue;
          const refs = fn.name ? E.refs(fn) : null;
          const encl = enclosing(fn);
          if ((refs?.length && refs.every((x) => allowed.has(enclosing(x)))) || (!fn.name && encl && allowed.has(encl))) { allowed.add(fn); ch = true; }
        }
      }
      let sites = 0;
      for (const f of c.P.files) c.P.walk(f, (n) => {
        if (!ts.isPropertyAccessExpression(n) || (n.name.text !== r.setupF && n.name.text !== r.cleanupF)) return;
        const d = c.P.symbolOf(n.name)?.valueDeclaration;
        if (!d || !c.P.inRepo(d) || !ts.isPropertySignature(d)) return;
        if (!['EffectHook'].includes(d.parent.name?.text) && d.parent.name?.text !== undefined && !/effect/i.test(d.parent.name.text)) return;
        const call = ts.isCallExpression(n.parent) && n.parent.expression === n;
        if (!call) return;
        sites++;
        c.expect(allowed.has(enclosing(n)), n, 'an effect is run or cleaned up outside connecting and disconnecting');
      });
      c.obligations++;
    },
  },
];
function enclosing(n) { for (let p = n.parent; p; p = p.parent) if ((ts.isFunctionLike(p)) && p.body) return p; return null; }

function connectRule(c, name) {
  const r = effectRoles(c);
  const cls = componentClass(c.P);
  const fn = c.P.method(cls, name);
  const E = c.engine({ throws: (e) => e.t === 'call' && !e.pure && !e.builtin });
  const ps = c.paths(E, fn, { cls });
  const isSetup = (e) => e.fn?.k === 'f' && e.fn.name === r.setupF;
  let iterations = 0;
  for (const p of ps) {
    const cs = calls(p, (e) => !e.builtin);
    const cleanups = cs.filter((e) => e.fn && isCleanup(p, e.fn, r));
    const setups = cs.filter(isSetup);
    for (const x of loopsOf(p)) {
      if (x.end === 'break') c.fail(x.loop.node, 'the slots after this one are skipped', p);
      if (x.end === null && p.kind === 'return') c.fail(x.loop.node, 'the slots after this one are skipped', p);
    }
    // the slot of this iteration
    const slot = slotOf(p, r);
    if (!slot) {
      if (setups.length || cleanups.length) c.fail(fn, 'effects are run outside a walk over the slots', p);
      continue;
    }
    iterations++;
    const loop = loopsOf(p).find((x) => T.contains(slot, (t) => t.k === 'hv' && t.loop === x.loop))?.loop;
    if (loop) c.expect(slot.k === 'idx' && covers(loop, slot.arr, p), loop.node, 'not every slot is visited', p);
    const isEff = p.st.decide(p.st.pEq(fld(slot, r.typeF), r.typeV));
    const dirty = p.st.decide(p.st.pTruthy(fld(slot, r.dirtyF)));
    const had = p.st.decide(p.st.pMask(fld(slot, r.cleanupF), U | N));
    const wantRun = name === 'connect' ? isEff === true && dirty === true : isEff === true;
    const threw = p.kind === 'throw';
    for (const e of [...setups, ...cleanups]) c.expect(c.same(p, e.fn.base, slot) && e.args.length === 0, e.node, 'an effect function of another slot is called, or with arguments', p);
    if (!wantRun) {
      c.expect(setups.length === 0 && cleanups.length === 0, (setups[0] ?? cleanups[0])?.node ?? fn, name === 'connect' ? 'an effect that is not due is run or cleaned up' : 'a cleanup is run for a slot that is not known to be an effect', p);
      if (!threw && isEff !== false && dirty !== false && name === 'connect' && (isEff === true && dirty === undefined)) c.fail(fn, 'whether the effect is due is not checked', p);
      continue;
    }
    // cleanup: exactly once iff stored
    c.expect(cleanups.length <= 1, cleanups[1]?.node ?? fn, 'a cleanup runs twice', p);
    if (had === false && (!threw || setups.length)) c.expect(cleanups.length === 1, fn, 'a stored cleanup is not run', p);
    for (const e of cleanups) {
      // taken out of the slot before it runs
      const clr = p.events.slice(0, idxOf(p, e)).findLast((w) => w.t === 'write' && w.name === r.cleanupF && c.same(p, w.base, slot));
      c.expect(clr && knows(p, p.st.pMask(clr.value, U | N)), e.node, 'the cleanup is still stored while it runs, so it can run again after an error', p);
    }
    if (name === 'connect') {
      c.expect(setups.length <= 1, setups[1]?.node ?? fn, 'a setup runs twice', p);
      if (!threw) {
        if (!c.expect(setups.length === 1, fn, 'a due effect is not set up', p)) continue;
        const s = setups[0];
        if (cleanups.length) c.expect(idxOf(p, cleanups[0]) < idxOf(p, s), s.node, 'the setup runs before the previous cleanup', p);
        c.expect(c.same(p, c.get(p, slot, r.cleanupF), s.res), s.node, 'the cleanup returned by the setup is not stored', p);
        c.expect(p.st.decide(p.st.pTruthy(c.get(p, slot, r.dirtyF))) === false, s.node, 'an effect that ran is still marked to run', p);
      } else {
        c.expect(knows(p, p.st.pMask(c.get(p, slot, r.cleanupF), U | N)), fn, 'after an error the old cleanup is still stored and can run again', p);
      }
    } else {
      c.expect(setups.length === 0, setups[0]?.node ?? fn, 'disconnecting sets an effect up', p);
      c.expect(knows(p, p.st.pMask(c.get(p, slot, r.cleanupF), U | N)), fn, 'the cleanup is still stored after disconnecting and can run again', p);
    }
  }
  c.expect(iterations > 0, fn, 'the slots are not visited');
}
function isCleanup(p, fn, r) { return fn.k === 'f' && fn.name === r.cleanupF; }
function slotOf(p, r) {
  for (const e of p.events) {
    if (e.t === 'branch') { let s = null; T.contains(e.pred, (t) => { if (t.k === 'f' && [r.typeF, r.dirtyF, r.cleanupF].includes(t.name) && t.base.k === 'idx') s ??= t.base; return false; }); if (s) return s; }
    if (e.t === 'call' && e.fn?.k === 'f' && e.fn.base.k === 'idx' && [r.setupF, r.cleanupF].includes(e.fn.name)) return e.fn.base;
  }
  return null;
}
