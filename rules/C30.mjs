// C30: tracing middlewares are transparent.
import { ts, T, cst, UNDEF, fld, idxOf, AnchorError } from './_lib.mjs';

export const about = 'The handling of an update by every middleware the library comes with, and the commit it returns, are followed on every path, for rendering and committing that succeed and that throw.';
export const assumptions = ['The console and the user timing interface given to a middleware do not throw.'];

const can = (p, t) => p.st.canon(t ?? UNDEF);
const same = (p, a, b) => !!a && !!b && can(p, a) === can(p, b);
const isFn = (t) => ['fn', 'fd', 'bm'].includes(t?.k);
function handled(c) {
  if (c._c30) return c._c30;
  const all = c.P.implementors('Middleware').filter((k) => c.P.member(k, 'handle')?.decl?.body);
  if (!all.length) throw new AnchorError('the library comes with no middleware');
  const out = [];
  for (const k of all) {
    const fn = c.P.member(k, 'handle').decl;
    let render, commits = [];
    const E = c.engine({ havoc: () => false, throws: (e) => e.t === 'call' && (e.fn === render || commits.includes(e.fn)) });
    const [update, r] = E.paramSyms(fn);
    render = r;
    const R = { k, fn, E, update, render, thisT: E.thisSym(k), paths: [] };
    for (const p of c.paths(E, fn, { cls: k })) {
      if (p.st.infeasible()) continue;
      const rs = p.events.filter((e) => e.t === 'call' && e.fn && same(p, e.fn, render));
      const x = { p, rs, failed: p.events.some((e) => e.t === 'throwback' && e.from === rs[0]), commits: null };
      if (p.kind === 'return' && rs.length === 1) {
        const v = can(p, p.value), commit = can(p, rs[0].res);
        x.commit = commit;
        if (isFn(v)) {
          commits = [commit];
          const st = p.st.clone();
          E.havoc(st, {}, fn); // other updates may come in between
          x.commits = c.callPaths(p, v, [], UNDEF, st).filter((q) => !q.st.infeasible());
        } else x.direct = v === commit;
      }
      R.paths.push(x);
    }
    out.push(R);
  }
  return (c._c30 = out);
}
function once(c) {
  for (const R of handled(c)) {
    let fine = 0, bad = 0, committed = 0, uncommitted = 0;
    for (const { p, rs, failed, commits, commit, direct } of R.paths) {
      if (!c.expect(rs.length === 1 && !rs[0].loops?.length, rs[1]?.node ?? R.fn, 'an update is not rendered exactly once', p)) continue;
      c.expect(same(p, rs[0].args[0], R.update), rs[0].node, 'another update is rendered', p);
      if (failed) { bad++; c.expect(p.kind === 'throw' && same(p, p.value, p.events.find((e) => e.t === 'throwback').value), rs[0].node, 'an error of rendering is lost', p); continue; }
      if (!c.expect(p.kind === 'return', rs[0].node, 'an update that was rendered fails', p)) continue;
      fine++;
      if (direct) { committed++; uncommitted++; continue; }
      if (!c.expect(commits, R.fn, 'the commit of an update is lost', p)) continue;
      for (const q of commits) {
        const cs = q.own.filter((e) => e.t === 'call' && e.fn && same(q, e.fn, commit));
        if (!c.expect(cs.length === 1 && !cs[0].loops?.length, cs[1]?.node ?? R.fn, 'an update is not committed exactly once', q)) continue;
        const tb = q.own.find((e) => e.t === 'throwback' && e.from === cs[0]);
        if (tb) { uncommitted++; c.expect(q.kind === 'throw' && same(q, q.value, tb.value), cs[0].node, 'an error of committing is lost', q); } else { committed++; c.expect(q.kind === 'return', cs[0].node, 'an update that was committed fails', q); }
      }
    }
    if (!c.undecided.length) c.expect(fine > 0 && bad > 0 && committed > 0 && uncommitted > 0, R.fn, 'updates are not passed on');
  }
}
/** Nothing but its own fields is written. */
function untouched(c) {
  for (const R of handled(c)) for (const { p, commits } of R.paths) for (const q of [p, ...(commits ?? [])]) {
    const evs = q === p ? p.events : q.own;
    for (const e of evs) {
      if (e.t === 'write' || e.t === 'delete') { const b = can(q, e.base); c.expect(b === R.thisT || b.k === 'o' || (b.k === 'f' && can(q, b.base) === R.thisT), e.node, 'tracing changes what it traces', q); } else if (e.t === 'call' && e.builtin && !e.pure && e.recv) { const b = can(q, e.recv); const mut = ['push', 'pop', 'shift', 'unshift', 'splice', 'sort', 'reverse', 'set', 'add', 'delete', 'clear', 'fill', 'copyWithin'].includes(e.name); c.expect(!mut || b.k === 'o' || (b.k === 'f' && can(q, b.base) === R.thisT), e.node, 'tracing changes what it traces', q); }
      if (e.t === 'call' && e.recv && /^(Update|UpdateController|Transaction|PromiseWithResolvers|RenderScheduler|Runtime|Renderer|Dispatcher)\./.test(e.decl ?? '')) c.fail(e.node, 'tracing acts on what it traces', q);
      if (e.t === 'call' && e.recv && !e.pure && T.contains(can(q, e.recv), (t) => t === R.update) && !e.builtin) c.expect(!['abort', 'resolve', 'reject', 'prepare', 'handler'].includes(e.name), e.node, 'tracing acts on what it traces', q);
    }
  }
}
function groups(c) {
  for (const R of handled(c)) for (const { p, commits } of R.paths) for (const q of [p, ...(commits ?? [])]) {
    const evs = q === p ? p.events : q.own;
    let depth = 0;
    for (const e of evs) {
      if (e.t !== 'call') continue;
      if (['group', 'groupCollapsed'].includes(e.name)) depth++;
      else if (e.name === 'groupEnd') { depth--; c.expect(depth >= 0, e.node, 'a console group is closed that was not opened', q); }
    }
    if (commits && q === p) { c.expect(depth === 0, R.fn, 'a console group stays open until the commit', q); continue; }
    c.expect(depth === 0, R.fn, 'a console group is not closed', q);
  }
}
function marks(c) {
  for (const R of handled(c)) {
    let measured = 0, timing = false;
    for (const { p, rs, commits, commit, direct } of R.paths) {
      const m0 = p.events.filter((e) => e.t === 'call' && e.name === 'mark');
      if (m0.length) timing = true;
      if (m0.length) c.expect(!direct, m0[0].node, 'the committing of an update that was marked is not measured', p);
      if (!commits || rs.length !== 1) continue;
      for (const q of commits) {
        const m1 = q.own.filter((e) => e.t === 'call' && e.name === 'mark'), ms = q.own.filter((e) => e.t === 'call' && e.name === 'measure');
        const cs = q.own.find((e) => e.t === 'call' && e.fn && same(q, e.fn, commit)), failed = q.own.some((e) => e.t === 'throwback' && e.from === cs);
        const r0 = idxOf(p, rs[0]), c0 = q.own.indexOf(cs);
        // 0 before rendering, 1 rendered, 2 before committing, 3 committed
        const phase = (e) => (m0.includes(e) ? (idxOf(p, e) < r0 ? 0 : 1) : q.own.indexOf(e) < c0 ? 2 : 3);
        const all = [...m0, ...m1];
        const find = (t, at) => all.filter((e) => same(q, e.args[0], t) && (m0.includes(e) || q.own.indexOf(e) < at));
        all.forEach((e) => c.expect(T.contains(can(q, e.args[0]), (t) => t.k === 'f' && t.name === 'id' && same(q, t.base, R.update)), e.node, 'the marks of different updates are the same', q));
        const twice = all.find((e, i) => all.some((x, j) => j > i && same(q, x.args[0], e.args[0])));
        c.expect(!twice, twice?.node, 'a mark is recorded twice', q);
        for (const e of ms) {
          measured++;
          const at = q.own.indexOf(e), a = find(e.args[1], at), b = find(e.args[2], at);
          if (!c.expect(a.length && b.length, e.node, 'a measure refers to a mark that was not recorded', q)) continue;
          c.expect(phase(a[0]) < phase(b[0]), e.node, 'a measure does not span what it is named after', q);
        }
        if (failed || !all.length) continue;
        // begin and end of both phases
        const has = (n) => all.filter((e) => phase(e) === n).length;
        c.expect(has(0) === has(1) && has(2) === has(3), all[0].node, 'the begin of a phase is marked without its end', q);
        const spans = ms.map((e) => [find(e.args[1], q.own.indexOf(e))[0], find(e.args[2], q.own.indexOf(e))[0]]).filter(([a, b]) => a && b).map(([a, b]) => `${phase(a)}${phase(b)}`);
        for (const s of ['01', '23', '03']) c.expect(spans.includes(s), ms[0]?.node ?? all[0].node, { '01': 'how long rendering took', '23': 'how long committing took', '03': 'how long an update took' }[s] + ' is not measured', q);
      }
    }
    if (timing && !c.undecided.length) c.expect(measured > 0, R.fn, 'nothing is measured');
  }
}
/** Every outcome of an update is reported. */
function reported(c) {
  let n = 0;
  for (const R of handled(c)) {
    const groupsOf = (evs) => evs.filter((e) => e.t === 'call' && ['group', 'groupCollapsed'].includes(e.name)).length;
    const any = R.paths.some(({ p, commits }) => groupsOf(p.events) || (commits ?? []).some((q) => groupsOf(q.own)));
    if (!any) continue;
    for (const { p, failed, commits } of R.paths) {
      if (failed) { n++; c.expect(groupsOf(p.events) === 1, R.fn, 'an update that fails is not reported once', p); continue; }
      for (const q of commits ?? []) { n++; c.expect(groupsOf(p.events) + groupsOf(q.own) === 1, R.fn, 'an update is not reported once', q); }
    }
  }
  if (!n) c.obligations++;
}
export const rules = [
  { name: 'once', text: 'an update is rendered once and its commit is run once; errors are passed on', run: once },
  { name: 'untouched', text: 'tracing writes to nothing but its own fields', run: untouched },
  { name: 'groups', text: 'console groups are balanced on every path', run: groups },
  { name: 'marks', text: 'measures span marks of the same update that were recorded around the phase', run: marks },
  { name: 'reported', text: 'every update is reported once, whatever comes of it', run: reported },
];
