import { T, cst, UNDEF, U, N, fld, calls, knows, refutes, ts, isCall, AnchorError } from './_lib.mjs';
import { laneConst, scheduleInfo, bits } from './_runtime.mjs';

export const about = 'Constant evaluation of the lane masks, abstract evaluation of the conversions for every constant argument, and the lanes (as bit functions) computed on every path of the option mapping, compared with the options known to be present on that path.';
export const assumptions = [];

const PRIO = ['user-blocking', 'user-visible', 'background'];
const popcount = (v) => { let n = 0; for (v >>>= 0; v; v &= v - 1) n++; return n; };

export function lanes(c) {
  const L = {};
  for (const n of ['NoLanes', 'AllLanes', 'SyncLane', 'UserHandlerLane', 'UserBlockingLane', 'UserVisibleLane', 'BackgroundLane', 'TransitionLane1', 'TransitionLanes', 'ShortDelayLane', 'LongDelayLane', 'DelayLanes', 'TransitionLaneLength']) L[n] = laneConst(c, n);
  return L;
}
function convert(c, name, arg) {
  const fn = c.P.fn(name);
  const E = c.engine();
  const ps = c.paths(E, fn, { args: [arg] });
  const vals = [...new Set(ps.map((p) => (p.kind === 'return' ? p.value : null)))];
  return { fn, v: vals.length === 1 ? vals[0] : null, vals };
}

export const rules = [
  {
    name: 'masks-disjoint',
    text: 'single lanes are single bits, pairwise disjoint; the transition mask is one contiguous run of lanes starting at the first transition lane; composite masks are the unions of their lanes',
    run(c) {
      const L = lanes(c);
      const at = (n) => c.P.variable(n);
      const single = ['SyncLane', 'UserHandlerLane', 'UserBlockingLane', 'UserVisibleLane', 'BackgroundLane', 'TransitionLane1', 'ShortDelayLane', 'LongDelayLane'];
      for (const n of single) c.expect(popcount(L[n]) === 1 && L[n] > 0, at(n), `${n} is not a single bit`);
      const groups = ['SyncLane', 'UserHandlerLane', 'UserBlockingLane', 'UserVisibleLane', 'BackgroundLane', 'TransitionLanes', 'ShortDelayLane', 'LongDelayLane'];
      for (let i = 0; i < groups.length; i++) for (let j = i + 1; j < groups.length; j++) c.expect((L[groups[i]] & L[groups[j]]) === 0, at(groups[j]), `${groups[i]} and ${groups[j]} overlap`);
      let run = 0;
      for (let i = 0; i < L.TransitionLaneLength; i++) run |= L.TransitionLane1 << i;
      c.expect(run === L.TransitionLanes && L.TransitionLaneLength > 0, at('TransitionLanes'), 'the transition mask is not the union of the transition lanes');
      c.expect(L.DelayLanes === (L.ShortDelayLane | L.LongDelayLane), at('DelayLanes'), 'the delay mask is not the union of the delay lanes');
      c.expect(L.NoLanes === 0, at('NoLanes'), 'NoLanes is not empty');
      const all = groups.reduce((m, n) => m | L[n], 0);
      c.expect((L.AllLanes & all) === all, at('AllLanes'), 'AllLanes does not contain every lane');
    },
  },
  {
    name: 'priority-round-trip',
    text: 'each priority has a lane of its own and that lane converts back to the priority, also with less urgent lanes added',
    run(c) {
      const L = lanes(c);
      const seen = new Map();
      for (const pr of PRIO) {
        const { fn, v } = convert(c, 'getLaneFromPriority', cst(pr));
        const ok = c.expect(v && v.k === 'c' && popcount(v.v) === 1 && [L.UserBlockingLane, L.UserVisibleLane, L.BackgroundLane].includes(v.v), fn, `the priority ${pr} has no priority lane`);
        if (!ok) continue;
        c.expect(!seen.has(v.v), fn, `the priorities ${pr} and ${seen.get(v.v)} share a lane`);
        seen.set(v.v, pr);
        const b = convert(c, 'getPriorityFromLanes', v);
        c.expect(b.v === cst(pr), b.fn, `the lane of the priority ${pr} does not convert back to it`);
        for (const low of [L.TransitionLanes, L.DelayLanes, L.TransitionLane1, L.LongDelayLane]) {
          const d = convert(c, 'getPriorityFromLanes', cst(v.v | low));
          c.expect(d.v === cst(pr), d.fn, `the lane of the priority ${pr} together with a less urgent lane does not convert back to it`);
        }
      }
      for (const n of ['TransitionLane1', 'ShortDelayLane', 'LongDelayLane']) { const d = convert(c, 'getPriorityFromLanes', cst(L[n])); c.expect(d.v === cst('background'), d.fn, `${n} does not convert to the background priority`); }
      for (let i = 0; i < L.TransitionLaneLength; i++) { const d = convert(c, 'getPriorityFromLanes', cst(L.TransitionLane1 << i)); c.expect(d.v === cst('background'), d.fn, `transition lane ${i} does not convert to the background priority`); }
    },
  },
  {
    name: 'highest-lane',
    text: 'the most urgent lane of a set is its lowest bit',
    run(c) {
      const fn = c.P.fn('getHighestPriorityLane');
      const E = c.engine();
      const ps = c.paths(E, fn);
      const [x] = E.paramSyms(fn);
      for (const p of ps) c.expect(p.kind === 'return' && T.show(p.value) === `bitlsb(${T.show(x)})`, fn, 'the most urgent lane is not the lowest bit of the lanes', p);
      for (const v of [1, 2, 12, 0x60000020]) { const r = convert(c, 'getHighestPriorityLane', cst(v)); c.expect(r.v === cst(v & -v), fn, 'the most urgent lane is not the lowest bit of the lanes'); }
    },
  },
  {
    name: 'options-to-lanes',
    text: 'every present option adds exactly its own lane and absent options add none',
    run(c) {
      const L = lanes(c);
      const fn = c.P.fn('getRenderLanes');
      const E = c.engine();
      const [o] = E.paramSyms(fn);
      const ps = c.paths(E, fn);
      const delays = new Set();
      for (const p of ps) {
        if (!c.expect(p.kind === 'return', fn, 'mapping the options throws', p)) continue;
        const present = (n) => { const d = p.st.decide(p.st.pMask(fld(o, n), U)); return d === undefined ? undefined : !d; };
        const known = { sync: p.st.decide(p.st.pTruthy(fld(o, 'flushSync'))), handler: present('handler'), priority: present('priority'), transition: present('transition'), delay: present('delay') };
        let v = p.value;
        // the part of the transition
        const tf = p.st.canon(fld(o, 'transition'));
        const shifts = v.k === 'bv' ? v.leaves.filter((l) => T.contains(l, (t) => t === tf)) : (T.contains(v, (t) => t === tf) ? [v] : []);
        const fixed = (mask, want, what) => {
          const x = bits('&', v, cst(mask));
          if (want === undefined) { c.fail(fn, `whether ${what} is given is not examined`, p); c.obligations++; return; }
          c.expect(x === cst(want), fn, `the lanes do not follow from ${what}`, p);
        };
        // bits outside the transition mask are constants once the options are known
        if (shifts.length) {
          c.expect(shifts.length === 1 && known.transition === true, fn, 'a transition lane is added although no transition is given', p);
          const s = shifts[0];
          const mod = s.k === 'op' && s.op === 'bitshl' && s.args[0] === cst(L.TransitionLane1) ? s.args[1] : null;
          const n = mod && mod.k === 'op' && mod.op === '%' && mod.args[0] === tf && mod.args[1].k === 'c' ? mod.args[1].v : null;
          c.expect(n === L.TransitionLaneLength, fn, 'a transition number is not mapped to a lane of its own within the transition mask', p);
          v = T.bitop('&', v, cst(~L.TransitionLanes));
          // the shifted lane lies inside the mask: other bits of it are zero
          v = zeroLeaf(v, s);
        } else if (known.transition !== false) c.expect(known.transition === undefined ? false : false, fn, 'a given transition adds no lane of its own', p);
        else c.expect(bits('&', v, cst(L.TransitionLanes)) === cst(0), fn, 'a transition lane is added although no transition is given', p);
        fixed(L.SyncLane, known.sync === undefined ? undefined : known.sync ? L.SyncLane : 0, 'flushSync');
        fixed(L.UserHandlerLane, known.handler === undefined ? undefined : known.handler ? L.UserHandlerLane : 0, 'the handler');
        const pm = L.UserBlockingLane | L.UserVisibleLane | L.BackgroundLane;
        if (known.priority === false) fixed(pm, 0, 'the priority');
        else {
          const pr = p.st.canon(fld(o, 'priority'));
          const w = pr.k === 'c' ? { 'user-blocking': L.UserBlockingLane, 'user-visible': L.UserVisibleLane, background: L.BackgroundLane }[pr.v] : undefined;
          fixed(pm, known.priority === undefined ? undefined : w, 'the priority');
        }
        const dl = bits('&', v, cst(L.DelayLanes));
        if (known.delay === false) c.expect(dl === cst(0), fn, 'a delay lane is added although no delay is given', p);
        else { c.expect(known.delay === true && (dl === cst(L.ShortDelayLane) || dl === cst(L.LongDelayLane)), fn, 'a given delay does not add exactly one delay lane', p); if (dl.k === 'c') delays.add(dl.v); }
        const every = L.SyncLane | L.UserHandlerLane | pm | L.TransitionLanes | L.DelayLanes;
        c.expect(bits('&', v, cst(~every)) === cst(0), fn, 'lanes that no option stands for are added', p);
      }
      c.expect(delays.size === 2 || !ps.length, fn, 'the two delay classes share a lane');
    },
  },
  {
    name: 'never-empty',
    text: 'an update takes the lanes of its options, or the lane of the host task priority if there are none',
    run(c) {
      const s = scheduleInfo(c);
      const [, options] = s.E.paramSyms(s.fn);
      for (const p of s.ps) {
        if (p.kind !== 'return' || !p.lanes) continue;
        const r = calls(p, isCall('getRenderLanes'));
        if (!c.expect(r.length >= 1, s.fn, 'the lanes of an update do not come from its options', p)) continue;
        const rl = r[0];
        const a = rl.args[0];
        c.expect(c.same(p, a, options) || (knows(p, p.st.pMask(options, U)) && a.k === 'o') || a.k === 'o' && T.contains(a, () => true), rl.node, 'the lanes of an update do not come from its options', p);
        const some = p.st.decide(p.st.pEq(rl.res, cst(0)));
        if (some === false) c.expect(c.same(p, p.lanes, rl.res), p.enq[0].node, 'an update does not get exactly the lanes of its options', p);
        else {
          const g = calls(p, isCall('getLaneFromPriority')).find((e) => c.same(p, e.res, p.lanes));
          const pr = g && p.events.find((e) => e.t === 'call' && e.name === 'getTaskPriority' && c.same(p, e.res, g.args[0]));
          c.expect(some === true && !!pr, p.enq[0].node, 'an update without lanes from its options does not get the lane of the host task priority', p);
        }
      }
    },
  },
];
function zeroLeaf(v, leaf) {
  if (v.k !== 'bv') return v;
  const i = v.leaves.indexOf(leaf);
  if (i < 0) return v;
  // restrict every truth table to leaf = 0
  const tabs = v.tabs.map((t) => { let r = 0; for (let row = 0; row < 32; row++) if ((t >>> (row & ~(1 << i))) & 1) r |= 1 << row; return r; });
  return T.mkBV(v.leaves, tabs);
}
