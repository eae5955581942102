// apply.mjs <mutant name> <dir>: copies the sources with the edit applied (development aid)
import fs from 'node:fs'; import path from 'node:path';
const [,, name, dir] = process.argv;
for (const f of fs.readdirSync('/verif/tools/mutants')) for (const m of (await import('/verif/tools/mutants/' + f)).default) if (m.name === name || f.replace('.mjs', '') + '/' + m.name === name) {
  fs.rmSync(dir, { recursive: true, force: true }); fs.cpSync('/repo/src', dir + '/src', { recursive: true }); fs.cpSync('/repo/tools', dir + '/tools', { recursive: true, filter: (p) => !p.includes('node_modules') }); fs.copyFileSync('/repo/tsconfig.base.json', dir + '/tsconfig.base.json');
  for (const e of m.edits ?? [m]) { const p = path.join(dir, e.file); const t = fs.readFileSync(p, 'utf8'); fs.writeFileSync(p, e.every ? t.split(e.from).join(e.to) : t.replace(e.from, () => e.to)); }
}
