// Debug aid: prints the paths of a function. usage: dump.mjs Class.method|function [opaque,names] [cls]
import { Project, ts } from '../lib/project.mjs';
import { Engine } from '../lib/engine.mjs';
import * as T from '../lib/terms.mjs';
const P = process.env.DUMP_ROOT ? new Project(process.env.DUMP_ROOT) : new Project();
const [,, name, opq = '', cls, max = '12'] = process.argv;
const names = new Set(opq.split(',').filter(Boolean));
const E = new Engine(P, { escape: names.has('+escape'), opaque: (fn) => names.has(fn.name?.getText?.()), throws: names.has('+throws') ? () => true : null });
let fn, paths = [];
if (name) { if (name.includes('.')) { const [c, m, kind] = name.split('.'); fn = P.method(P.cls(c), m, kind ?? 'any'); } else fn = P.functions.find((f) => f.name?.getText() === name) ?? P.fn(name);
paths = E.run(fn, { cls: cls ? P.cls(cls) : null });
console.log(paths.length, 'paths', E.steps, 'steps'); }
export function fmt(e, P) {
  const s = T.show;
  const L = e.loops?.length ? ' {' + e.loops.map((l) => 'L' + l.n).join(',') + '}' : '';
  switch (e.t) {
    case 'branch': return `if ${s(e.pred)} -> ${e.val}`;
    case 'call': return `${e.pure ? 'pure' : 'CALL'} ${e.decl ?? e.name ?? ''} recv=${s(e.recv)} fn=${e.fn ? s(e.fn) : ''} (${e.args.map((a) => s(a)).join(', ')}) -> ${s(e.res)}${e.rec ? ' REC' : ''}${L}`;
    case 'write': return `WRITE ${s(e.base)}.${e.name ?? '[' + s(e.key) + ']'} = ${s(e.value)}${L}`;
    case 'set': return `SET ${e.name} = ${s(e.value)}`;
    case 'new': return `NEW ${e.name} (${e.args.map((a) => s(a)).join(', ')})${L}`;
    case 'enter': return `> ${e.decl ?? 'closure'}(${e.args.map((a) => s(a)).join(', ')})`;
    case 'leave': return `< ${s(e.value)}`;
    case 'loop': return `LOOP L${e.loop.n} ${e.loop.kind} over=${e.loop.over ? s(e.loop.over) : ''} cond=${e.loop.cond ? s(e.loop.cond) : ''} carried=${[...(e.loop.carried ?? [])].map(([k, c]) => k.split(':').at(-1) + ':' + (c.init ? s(c.init) : '?')).join(' ')}`;
    case 'loopzero': return `LOOP0 L${e.loop.n}`;
    case 'loopend': return `LOOPEND L${e.loop.n} ${e.how}`;
    default: return `${e.t} ${e.value ? s(e.value) : ''} ${e.base ? s(e.base) + '.' + s(e.name) : ''}`;
  }
}
if (process.argv[2]) for (const p of paths.slice(0, +max)) {
  console.log('---', p.kind, T.show(p.value));
  for (const e of p.events) console.log('   ', fmt(e, P));
}
