// Development aid: applies each listed edit to a copy of the sources and runs checks on it.
// usage: mut.mjs [filter] [--ids=C01,C02] [--all]    lists in tools/mutants/*.mjs
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import { execFile } from 'node:child_process';
import { fileURLToPath } from 'node:url';
const here = path.dirname(fileURLToPath(import.meta.url));
const filter = process.argv.slice(2).find((a) => !a.startsWith('--'));
const idsOpt = process.argv.find((a) => a.startsWith('--ids='))?.slice(6).split(',');
const all = process.argv.includes('--all');
const list = [];
for (const f of fs.readdirSync(path.join(here, 'mutants')).filter((x) => x.endsWith('.mjs')).sort()) for (const m of (await import(path.join(here, 'mutants', f))).default) list.push({ ...m, group: f.replace('.mjs', '') });
const todo = list.filter((m) => !filter || m.name.includes(filter) || m.group === filter);
const allIds = fs.readdirSync(path.join(here, '..', 'rules')).filter((f) => /^C\d+\.mjs$/.test(f)).map((f) => f.slice(0, 3));
const src = '/repo';
const run = (m) => new Promise((done) => {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'mut-'));
  fs.cpSync(src + '/src', dir + '/src', { recursive: true });
  if (fs.existsSync(src + '/tools')) fs.cpSync(src + '/tools', dir + '/tools', { recursive: true, filter: (p) => !p.includes('node_modules') });
  fs.copyFileSync(src + '/tsconfig.base.json', dir + '/tsconfig.base.json');
  for (const e of m.edits ?? [m]) {
    const f = path.join(dir, e.file);
    const t = fs.readFileSync(f, 'utf8');
    const n = t.split(e.from).length - 1;
    if (n !== 1 && !e.every) { console.log(`BAD ${m.name}: pattern occurs ${n} times in ${e.file}`); fs.rmSync(dir, { recursive: true }); return done(); }
    fs.writeFileSync(f, e.every ? t.split(e.from).join(e.to) : t.replace(e.from, () => e.to));
  }
  const want = m.expect ?? [];
  const ids = idsOpt ?? (all || !want.length ? allIds : want.filter((i) => allIds.includes(i)));
  execFile('node', [path.join(here, '..', 'run.mjs'), ...ids], { env: { ...process.env, VERIF_REPO: dir, VERIF_NO_EVIDENCE: '1' }, maxBuffer: 1 << 24 }, (err, out, e2) => {
    const hit = [...out.matchAll(/VIOLATION property=(\w+)/g)].map((x) => x[1]);
    const notes = out.split('\n').filter((l) => l.startsWith('NOTE'));
    const okay = want.length ? want.filter((i) => ids.includes(i)).every((i) => hit.includes(i)) : hit.length === 0;
    console.log(`${okay ? 'ok  ' : want.length ? 'MISS' : 'FALSE'} ${m.group}/${m.name}: ${hit.join(' ') || '-'}${want.length ? ' want ' + want.join(' ') : ''}${okay && !process.argv.includes('-v') ? '' : '\n' + out.slice(0, 1500) + e2.slice(0, 500)}${okay && notes.length ? '  (' + notes.length + ' notes)' : ''}`);
    fs.rmSync(dir, { recursive: true });
    done();
  });
});
let i = 0;
await Promise.all(Array.from({ length: 8 }, async () => { while (i < todo.length) await run(todo[i++]); }));
