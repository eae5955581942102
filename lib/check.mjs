// Runs the rules of one property and writes its evidence and verdict.
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { Project, ts, AnchorError, REPO, isFunctionLike } from './project.mjs';
import { Engine, Limit, enclosingFn } from './engine.mjs';
import { State } from './state.mjs';
import * as T from './terms.mjs';
const { UNDEF, cst } = T;

export const VERIF = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
const CTX0 = { thisV: UNDEF, loops: [], stack: [], depth: 0, tries: 0, fn: null, home: null };

let shared;
export const project = () => (shared ??= new Project());

export class Check {
  constructor(id, tier = 'quick', P = project()) {
    this.id = id; this.tier = tier;
    this.P = P;
    this.violations = []; this.undecided = []; this.rules = [];
    this.engines = []; this.obligations = 0; this.pathCount = 0; this.astNodes = 0;
    this.instances = [];
  }
  engine(opts = {}) {
    const E = new Engine(this.P, opts);
    this.engines.push(E);
    return E;
  }
  /** Paths of a function, or [] (and a note) when they cannot be enumerated. */
  paths(E, fn, args = {}) {
    if (typeof E === 'object' && !(E instanceof Engine)) E = this.engine(E);
    try {
      const ps = E.run(fn, args);
      this.pathCount += ps.length;
      for (const p of ps) { p.E = E; p.fn = fn; }
      this.instances.push(`${this.P.where(fn)} ${fn.name?.getText?.() ?? 'function'} (${ps.length} paths)`);
      return ps;
    } catch (e) {
      if (e instanceof Limit) { this.undecide(`${this.P.where(fn)}: too many paths (${e.message})`); return []; }
      throw e;
    }
  }
  callPaths(p, fnV, args, thisV, st = null) {
    const E = p.E;
    try {
      const s = (st ?? p.st).clone();
      const mark = s.trace?.n ?? 0;
      const ps = E.call(fnV, args, s, { thisV });
      this.pathCount += ps.length;
      for (const q of ps) { q.E = E; q.fn = fnV.node ?? p.fn; q.since = mark; q.own = q.events.slice(mark); q.outer = p; }
      return ps;
    } catch (e) {
      if (e instanceof Limit) { this.undecide(`closure in ${this.P.where(p.fn)}: too many paths`); return []; }
      throw e;
    }
  }
  undecide(msg) { if (!this.undecided.includes(msg)) this.undecided.push(msg); }
  /** One obligation: records a violation unless it holds. */
  expect(cond, node, msg, p = null) {
    this.obligations++;
    if (cond) return true;
    this.fail(node, msg, p);
    return false;
  }
  fail(node, msg, p = null) {
    const where = node && node.kind !== undefined ? this.P.where(node) : String(node ?? '?');
    const fn = node && node.kind !== undefined ? fnName(isFunctionLike(node) ? node : enclosingFn(node)) : '';
    const key = this.rule + '|' + where + '|' + msg;
    const seen = this.violations.find((v) => v.key === key);
    if (seen) { seen.count++; return; }
    this.violations.push({ key, rule: this.rule, where, fn, msg, count: 1, trail: p ? this.trail(p) : [] });
  }
  trail(p) {
    return p.events.filter((e) => e.t === 'branch' || e.t === 'loop' || e.t === 'loopzero').map((e) => (e.t === 'branch' ? `${this.P.where(e.node)} ${T.show(e.pred)} = ${e.val}` : e.t === 'loop' ? `${this.P.where(e.loop.node)} in an iteration` : `${this.P.where(e.loop.node)} no iteration`)).slice(0, 40);
  }
  // ---- term helpers ----------------------------------------------------
  same(p, a, b) { return p.st.canon(a ?? UNDEF) === p.st.canon(b ?? UNDEF); }
  /** Current value of base.name at the end of a path. */
  get(p, base, ...names) {
    let v = base;
    for (const n of names) {
      const k = typeof n === 'object' ? n : cst(n);
      let out = UNDEF;
      const r = p.E.read(v, k, p.st, CTX0, null, (x, s) => [{ st: s, v: x }]);
      if (r.length) out = r[0].v;
      v = out;
    }
    return p.st.canon(v);
  }
  /** True/false/undefined verdict of a predicate at the end of the path. */
  holds(p, pred) { return p.st.decide(pred); }
  runRules(rules) {
    for (const r of rules) {
      this.rule = r.name;
      const before = this.obligations, vb = this.violations.length, ub = this.undecided.length;
      let note = 'decided';
      try {
        r.run(this);
        if (this.obligations === before && this.violations.length === vb) {
          if (r.optional) note = 'no instance';
          else if (this.undecided.length > ub) note = 'undecided';
          else this.fail(null, `no instance of the rule was found (${r.text})`);
        }
      } catch (e) {
        if (e instanceof AnchorError) { this.fail(null, `anchor missing: ${e.message}`); note = 'anchor missing'; } else if (e instanceof Limit) { this.undecide(`${r.name}: ${e.message}`); note = 'undecided'; } else { this.undecide(`${r.name}: analysis error ${e.stack?.split('\n').slice(0, 3).join(' | ')}`); note = 'error'; }
      }
      this.rules.push({ name: r.name, rule: r.text, obligations: this.obligations - before, violations: this.violations.length - vb, status: note });
    }
  }
}

export function fnName(fn) {
  if (!fn) return '<module>';
  const n = fn.name?.getText?.();
  const own = fn.parent && ts.isClassLike(fn.parent) ? (fn.parent.name?.text ?? '') + '.' : '';
  if (n) return own + n;
  if (ts.isConstructorDeclaration(fn)) return own + 'constructor';
  if (fn.parent && (ts.isPropertyAssignment(fn.parent) || ts.isVariableDeclaration(fn.parent))) return fn.parent.name.getText();
  return `closure in ${fnName(enclosingFn(fn))}`;
}

export async function main(id, tier = process.env.VERIF_TIER ?? 'quick', { quiet = false } = {}) {
  const t0 = Date.now();
  const mod = await import(path.join(VERIF, 'rules', id + '.mjs'));
  const c = new Check(id, tier);
  c.runRules(mod.rules);
  const wall = (Date.now() - t0) / 1000;
  const ev = {
    property: id, tier, seed: Number(process.env.VERIF_SEED ?? 1), level: 'other',
    coverage: {
      explanation: `Static analysis of the type-checked sources under ${path.join(REPO, 'src')}${mod.extra ? ' and ' + mod.extra : ''}. ${mod.about ?? ''} Each obligation is one instance of a rule at a construct or on a path; all were decided on the current source.`,
      rules: c.rules,
      obligations_checked: c.obligations,
      paths_analysed: c.pathCount,
      functions_followed: new Set(c.engines.flatMap((e) => [...e.funcs])).size,
      call_sites_resolved: new Set(c.engines.flatMap((e) => [...e.callSites])).size,
      branch_points: new Set(c.engines.flatMap((e) => [...e.branches])).size,
      source_files: c.P.files.length,
      instances: c.instances.slice(0, 60),
      undecided: c.undecided,
    },
    assumptions: mod.assumptions ?? [],
    wall_s: wall, violations: c.violations.length,
  };
  fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
  if (!process.env.VERIF_NO_EVIDENCE) fs.writeFileSync(path.join(VERIF, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n');
  if (!quiet) for (const u of c.undecided) console.log(`NOTE property=${id} undecided: ${u}`);
  if (c.violations.length) {
    const rdir = path.join(VERIF, 'evidence', 'replay');
    fs.mkdirSync(rdir, { recursive: true });
    const rp = path.join(rdir, id + '.txt');
    const lines = [];
    for (const v of c.violations) {
      lines.push(`${v.where} ${v.fn}: [${v.rule}] ${v.msg}${v.count > 1 ? ` (${v.count} paths)` : ''}`);
      for (const t of v.trail) lines.push('    ' + t);
    }
    fs.writeFileSync(rp, lines.join('\n') + '\n');
    console.log(lines.filter((l) => !l.startsWith('    ')).slice(0, 20).join('\n'));
    console.log(`VIOLATION property=${id} replay=${rp}`);
    return 1;
  }
  console.log(`OK property=${id} obligations=${c.obligations} paths=${c.pathCount} rules=${c.rules.length} ${wall.toFixed(1)}s`);
  return 0;
}
