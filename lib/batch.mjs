// Runs the rules of several properties in worker processes; prints what they found as JSON.
// usage: batch.mjs C01,C02,... [--worker]   (VERIF_STRIP=1: on the program without debug sections)
import path from 'node:path';
import { execFile } from 'node:child_process';
import { fileURLToPath } from 'node:url';
const ids = process.argv[2].split(',');
if (process.argv.includes('--worker')) {
  const { Check, VERIF } = await import('./check.mjs');
  const out = [];
  for (const id of ids) {
    const c = new Check(id, 'quick');
    try {
      c.runRules((await import(path.join(VERIF, 'rules', id + '.mjs'))).rules);
      out.push({ id, obligations: c.obligations, paths: c.pathCount, violations: c.violations.map(({ rule, msg, where, fn }) => ({ rule, msg, where, fn })), undecided: c.undecided });
    } catch (e) { out.push({ id, error: String(e?.message ?? e) }); }
  }
  process.stdout.write(JSON.stringify(out));
} else {
  const n = 6, parts = Array.from({ length: n }, () => []);
  // the slow ones first, each with a worker of its own
  const slow = ['C20', 'C15', 'C01', 'C06'];
  [...ids].sort((a, b) => (slow.includes(b) - slow.includes(a))).forEach((id, i) => parts[slow.includes(id) ? i % n : 2 + (i % (n - 2))].push(id));
  const one = (list) => new Promise((done) => execFile(process.execPath, [fileURLToPath(import.meta.url), list.join(','), '--worker'], { maxBuffer: 1 << 26 }, (err, out, e2) => {
    try { done(JSON.parse(out)); } catch { done(list.map((id) => ({ id, error: String(e2).slice(0, 300) }))); }
  }));
  process.stdout.write(JSON.stringify((await Promise.all(parts.filter((p) => p.length).map(one))).flat()));
}
