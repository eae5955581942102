// usage: node run.mjs <property id>... [--thorough]
import fs from 'node:fs';
import { main, VERIF } from './lib/check.mjs';
const args = process.argv.slice(2).filter((a) => !a.startsWith('--'));
const tier = process.argv.includes('--thorough') ? 'thorough' : process.env.VERIF_TIER ?? 'quick';
const ids = args[0] === 'all' ? fs.readdirSync(VERIF + '/rules').filter((f) => /^C\d+\.mjs$/.test(f)).map((f) => f.slice(0, 3)).sort() : args;
let code = 0;
for (const id of ids) code = Math.max(code, await main(id, tier));
process.exitCode = code;
