// Regenerates MANIFEST.json from the rule modules (run after adding one).
import fs from 'node:fs';
import path from 'node:path';
const V = path.dirname(path.dirname(new URL(import.meta.url).pathname));
const props = fs.readFileSync(V + '/properties.jsonl', 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const reasons = JSON.parse(fs.readFileSync(V + '/tools/not-applicable.json', 'utf8'));
const checks = [], na = [];
for (const p of props) {
  const f = `${V}/rules/${p.id}.mjs`;
  if (!fs.existsSync(f)) { na.push({ property: p.id, reason: reasons[p.id] ?? 'No check has been built for it yet.' }); continue; }
  const m = await import(f);
  checks.push({
    property: p.id, quick_cmd: `node run.mjs ${p.id}`, thorough_cmd: `node run.mjs ${p.id} --thorough`, evidence_file: `evidence/${p.id}.json`,
    technique: m.technique ?? 'static analysis: path-sensitive abstract interpretation of the typed syntax tree, path obligations',
    level: 'other',
    level_note: `${m.about} Every obligation is decided from the current source; nothing is executed. Loops are abstracted to no iteration and one arbitrary iteration. Assumes: ${(m.assumptions ?? []).join(' ') || 'nothing further.'}`,
  });
}
fs.writeFileSync(V + '/MANIFEST.json', JSON.stringify({ version: 1, setup_cmd: 'node tools/selfcheck.mjs', checks, not_applicable: na, notes: 'No hooks: the checks read /repo/src as it is. Known and repaired findings: known-findings.txt.' }, null, 1) + '\n');
console.log(checks.length, 'claimed,', na.length, 'not');
