// Regenerates DESIGN.md from the rule modules, the properties and the planted bugs.
import fs from 'node:fs';
import path from 'node:path';
const V = path.dirname(path.dirname(new URL(import.meta.url).pathname));
const read = (f) => fs.readFileSync(path.join(V, f), 'utf8');
const props = read('properties.jsonl').trim().split('\n').map((l) => JSON.parse(l));
const reasons = JSON.parse(read('tools/not-applicable.json'));
let out = read('tools/design.head.md') + '\n## Property by property\n\nFor each property: what is analysed, the rules (each an obligation on every path, site or write concerned), and what is assumed.\nThe tests sample a few inputs and schedules of each; the rules quantify over all paths of the code concerned, for arbitrary values.\n';
for (const p of props) {
  const f = `${V}/rules/${p.id}.mjs`;
  if (!fs.existsSync(f)) continue;
  const m = await import(f);
  out += `\n### ${p.id} ${p.title}\n\n${m.about}\n\n${m.technique ? `Technique: ${m.technique}.\n\n` : ''}${m.rules.map((r) => `* *${r.name}*: ${r.text}`).join('\n')}\n${m.assumptions?.length ? `\nAssumes: ${m.assumptions.join(' ')}\n` : ''}`;
}
const na = props.filter((p) => !fs.existsSync(`${V}/rules/${p.id}.mjs`)).map((p) => `* **${p.id}** ${p.title}: ${reasons[p.id]}`).join('\n');
const fixed = read('known-findings.txt').split('\n').filter((l) => l.startsWith('fixed:')).map((l) => { const m = /property=(\S+) (\S+) (.*)/.exec(l); return `* ${m[1]}, \`${m[2]}\`: ${m[3]}`; }).join('\n');
const seeds = fs.existsSync(V + '/seeded') ? fs.readdirSync(V + '/seeded').sort().map((d) => { const m = JSON.parse(read(`seeded/${d}/meta.json`)); const c = JSON.parse(read('tools/caught.json'))[d]; return `| ${d} | ${m.property} | ${m.what_it_breaks} | ${m.needs} | ${c ?? ''} |`; }) : [];
let nm = 0, nr = 0; const groups = [];
for (const f of fs.readdirSync(V + '/tools/mutants').sort()) { const l = (await import(`${V}/tools/mutants/${f}`)).default; groups.push(f.replace('.mjs', '')); for (const x of l) if (x.expect?.length) nm++; else nr++; }
out += '\n' + read('tools/design.tail.md').replace('{{NA}}', na).replace('{{FIXED}}', fixed).replace('{{SEEDS}}', '| bug | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n' + seeds.join('\n')).replace('{{NM}}', nm).replace('{{NR}}', nr).replace('{{GROUPS}}', groups.join(', '));
fs.writeFileSync(V + '/DESIGN.md', out);
