// C32: a root shows the latest rendered value and unmounts it once.
import { ts, T, cst, UNDEF, NULL, U, N, fld, calls, writes, idxOf, isCall, opaqueNames, callMember, AnchorError } from './_lib.mjs';
import { laneConst } from './_runtime.mjs';

export const about = 'The transactions a root schedules are followed from scheduling through preparation to commit; what the root holds at commit time is unknown, so every order of updates within a batch is covered.';
export const assumptions = ['Transactions are prepared in order and their commits run in the same order (C01, C03, C29).'];

const same = (p, a, b) => !!a && !!b && p.st.canon(a) === p.st.canon(b);
const isNull = (st, t) => st.decide(st.pMask(t, U | N));

function info(c) {
  if (c._c32) return c._c32;
  const k = c.P.cls('DOMRoot'), out = { k, render: [], unmount: [] };
  for (const m of ['render', 'unmount']) {
    const fn = c.P.method(k, m), E = c.engine({ opaque: opaqueNames('mount', 'patch', 'unmount', 'wrap') });
    for (const p of c.paths(E, fn, { cls: k })) {
      if (p.st.infeasible()) continue;
      const scheds = p.kind === 'return' ? calls(p, isCall('Dispatcher.schedule', 'schedule')) : [];
      out[m].push({ fn, E, p, scheds, e: scheds[0], tx: scheds[0]?.args[0], params: E.paramSyms(fn), thisT: E.thisSym(k) });
    }
  }
  // preparations and commits
  for (const m of ['render', 'unmount']) for (const x of out[m]) {
    x.prep = [];
    if (!x.tx) continue;
    const lanes = T.sym('lanes'), renderer = T.sym('renderer');
    x.renderer = renderer;
    for (const q of callMember(c, x.p, x.tx, 'prepare', [lanes, renderer])) {
      if (q.kind !== 'return' || q.st.infeasible()) { if (q.kind !== 'throw') x.prep.push({ q, commits: [] }); continue; }
      const y = { q, diff: calls(q, isCall('Renderer.diff')).filter((e) => q.own.includes(e)), render: calls(q, isCall('Renderer.render')).filter((e) => q.own.includes(e)), commits: [] };
      y.made = y.diff[0] ?? y.render[0];
      const v = q.st.canon(q.value ?? UNDEF);
      if (v.k === 'fn' || v.k === 'fd' || v.k === 'bm') {
        // anything may have happened to the root in between
        const st = q.st.clone();
        x.E.havoc(st, {}, x.fn);
        y.commits = c.callPaths(q, v, [], UNDEF, st).filter((r) => !r.st.infeasible());
        y.after = st;
      }
      x.prep.push(y);
    }
  }
  const made = out.render.flatMap((x) => x.prep).find((y) => y.made)?.made;
  if (!made) throw new AnchorError('rendering into a root renders nothing');
  const at = made.decl?.endsWith('diff') || made.name === 'diff' ? 4 : 3;
  out.root = made.args[at];
  if (!out.root) throw new AnchorError('the root is not the parent of what is rendered');
  return (c._c32 = out);
}

function scheduling(c) {
  const I = info(c), all = laneConst(c, 'AllLanes');
  for (const m of ['render', 'unmount']) for (const x of I[m]) {
    const { p, fn, e } = x;
    if (p.kind !== 'return') { c.expect(p.kind === 'throw', fn, 'an update of a root does not return', p); continue; }
    if (!c.expect(x.scheds.length === 1, fn, 'an update of a root is not scheduled exactly once', p)) continue;
    c.expect(e.args.length === 2 && same(p, e.args[1], x.params.at(-1)), e.node, 'an update of a root is not scheduled with the options of the caller', p);
    c.expect(same(p, p.value, e.res), fn, 'the handle of the update is not returned', p);
    const lanes = c.get(p, x.tx, 'pendingLanes');
    c.expect(lanes.k === 'c' && (lanes.v & all) === all, e.node, 'an update of a root is left out in some lanes', p);
    c.expect(!calls(p, isCall('mount', 'patch', 'unmount', 'Renderer.render', 'Renderer.diff')).length && !writes(p, (w) => same(p, w.base, I.root)).length, e.node, 'a root changes before its update is prepared', p);
  }
  for (const m of ['render', 'unmount']) c.expect(I[m].some((x) => x.prep.some((y) => y.commits.length)), c.P.method(I.k, m), 'an update of a root has no commit');
}
function preparing(c) {
  const I = info(c), R = I.root;
  let first = 0, later = 0;
  for (const x of I.render) for (const y of x.prep) {
    const { q } = y;
    if (!c.expect(q.kind === 'return' && y.commits.length, x.fn, 'preparing an update of a root yields no commit', q)) continue;
    if (!c.expect(y.diff.length + y.render.length === 1, x.fn, 'the value is not rendered exactly once', q)) continue;
    const e = y.made, diffed = !!y.diff.length, a = diffed ? e.args.slice(1) : e.args;
    const wraps = calls(q, isCall('wrap')).filter((w) => same(q, w.args[0], x.params[0]));
    c.expect(wraps.some((w) => same(q, w.res, a[0])), e.node, 'what is rendered is not the value given', q);
    c.expect(same(q, a[1], c.get(q, x.tx, 'scope')), e.node, 'the value is rendered in another scope than its update', q);
    c.expect(same(q, a[3], R) && a[2] === cst(0), e.node, 'what is rendered does not become the child of the root', q);
    const left = fld(R, 'left'), right = fld(R, 'right'), ln = isNull(q.st, left), rn = isNull(q.st, right);
    if (diffed) {
      later++;
      c.expect(same(q, e.args[0], right) && rn === false, e.node, 'the value is not compared with the mounted one', q);
      c.expect(ln === false, e.node, 'the value is compared with a tree that is about to be unmounted', q);
    } else {
      first++;
      c.expect(rn === true || ln === true, e.node, 'a tree that is mounted is rendered anew instead of being updated', q);
      const part = q.st.canon(a[4] ?? UNDEF);
      c.expect(part.k === 'o' && part.cls?.name?.text === 'ContainerPart' && containerOf(c, x, q, part), e.node, 'the value is not rendered into the container of the root', q);
    }
    const ws = writes(q, (w) => q.own.includes(w) && same(q, w.base, R));
    c.expect(ws.length === 1 && ws[0].name === 'left' && same(q, ws[0].value, e.res), ws[0]?.node ?? e.node, 'the root does not remember what was rendered last, or more than that changes before the commit', q);
    noHost(c, q);
  }
  c.expect(first > 0 && later > 0, c.P.method(I.k, 'render'), 'a root never renders anew or never updates');
  for (const x of I.unmount) for (const y of x.prep) {
    const { q } = y;
    c.expect(q.kind === 'return' && y.commits.length && !y.diff.length && !y.render.length, x.fn, 'preparing an unmount renders', q);
    const ws = writes(q, (w) => q.own.includes(w) && same(q, w.base, R));
    c.expect(ws.length === 1 && ws[0].name === 'left' && same(q, ws[0].value, NULL), ws[0]?.node ?? x.fn, 'an unmount does not supersede what was rendered before', q);
    noHost(c, q);
  }
}
function noHost(c, q) { const h = q.own.find((e) => e.t === 'call' && isCall('mount', 'patch', 'unmount')(e)); c.expect(!h, h?.node ?? q.fn, 'a tree is changed before the commit', q); }
function containerOf(c, x, q, part) {
  const n = q.events.find((e) => e.t === 'new' && e.obj === part), v = q.st.canon(n?.args[0] ?? UNDEF);
  return v.k === 'f' && v.base === x.thisT && n.args.length === 1 && ctorField(c) === v.name;
}
function ctorField(c) {
  const k = c.P.cls('DOMRoot'), ctor = k.members.find((m) => ts.isConstructorDeclaration(m) && m.body), E = c.engine(), [container] = E.paramSyms(ctor);
  for (const p of c.paths(E, ctor, { cls: k })) { const w = writes(p, (e) => p.st.canon(e.base) === E.thisSym(k) && same(p, e.value, container)); if (w.length) return w[0].name; }
  return ctor.parameters[0]?.modifiers?.length ? ctor.parameters[0].name.text : null;
}
function committing(c) {
  const I = info(c), R = I.root;
  let done = 0, skipped = 0;
  for (const x of I.render) for (const y of x.prep) for (const r of y.commits) {
    if (r.kind === 'throw') continue;
    const before = y.after, left = T.field(R, 'left', before.epoch), right = T.field(R, 'right', before.epoch), made = y.made.res;
    const own = r.own, hs = own.filter((e) => e.t === 'call' && isCall('mount', 'patch', 'unmount')(e)), ws = writes(r, (w) => own.includes(w) && same(r, w.base, R));
    const latest = r.st.decide(r.st.pEq(left, made));
    if (latest !== true) {
      if (latest === false) { skipped++; c.expect(!hs.length && !ws.length, hs[0]?.node ?? ws[0]?.node ?? x.fn, 'an update that was superseded is still committed', r); } else c.fail(hs[0]?.node ?? x.fn, 'an update may be committed although it was superseded by another one of its batch', r);
      continue;
    }
    done++;
    const by = (n) => hs.filter(isCall(n));
    c.expect(ws.length === 1 && ws[0].name === 'right' && same(r, ws[0].value, made), ws[0]?.node ?? x.fn, 'the root does not record what is mounted', r);
    if (y.diff.length) {
      const e = by('patch')[0], old = y.diff[0].args[0];
      c.expect(hs.length === 1 && e && (same(r, e.args[0], old) || same(r, e.args[0], right)) && same(r, e.args[1], made), hs[0]?.node ?? x.fn, 'the mounted tree is not updated with what was rendered', r);
    } else {
      const e = by('mount'), u = by('unmount'), rn = isNull(r.st, right);
      c.expect(e.length === 1 && same(r, e[0].args[0], made) && !by('patch').length, hs[0]?.node ?? x.fn, 'what was rendered first is not mounted', r);
      c.expect(rn !== undefined ? (rn ? !u.length : u.length === 1 && same(r, u[0].args[0], right) && idxOf(r, u[0]) < idxOf(r, e[0])) : false, u[0]?.node ?? e[0]?.node ?? x.fn, 'a tree is mounted over another one', r);
    }
  }
  c.expect(done > 0, c.P.method(I.k, 'render'), 'an update of a root is never committed');
  let un = 0;
  for (const x of I.unmount) for (const y of x.prep) for (const r of y.commits) {
    if (r.kind === 'throw') continue;
    const right = T.field(R, 'right', y.after.epoch), own = r.own, hs = own.filter((e) => e.t === 'call' && isCall('mount', 'patch', 'unmount')(e)), ws = writes(r, (w) => own.includes(w) && same(r, w.base, R));
    const rn = isNull(r.st, right);
    if (rn === true) { c.expect(!hs.length, hs[0]?.node ?? x.fn, 'nothing is mounted and yet something is unmounted', r); c.expect(ws.every((w) => w.name === 'right' && same(r, w.value, NULL)), ws[0]?.node ?? x.fn, 'an unmount that has nothing to do changes the root', r); continue; }
    un++;
    c.expect(rn === false && hs.length === 1 && isCall('unmount')(hs[0]) && same(r, hs[0].args[0], right), hs[0]?.node ?? x.fn, 'unmounting does not remove exactly the mounted tree', r);
    c.expect(ws.length === 1 && ws[0].name === 'right' && same(r, ws[0].value, NULL), ws[0]?.node ?? x.fn, 'the mounted tree can be unmounted again', r);
  }
  c.expect(un > 0, c.P.method(I.k, 'unmount'), 'unmounting removes nothing');
}
export const rules = [
  { name: 'scheduling', text: 'rendering into and unmounting a root schedules exactly one transaction for all lanes with the options of the caller and changes nothing else', run: scheduling },
  { name: 'preparing', text: 'preparing renders the value once, against what is mounted unless an unmount is prepared, and only records it as the latest', run: preparing },
  { name: 'committing', text: 'a commit mounts or updates only what was prepared last, and unmounting removes what is mounted once', run: committing },
];
