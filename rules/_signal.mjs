// Signals: concrete classes and their accessors.
import { ts, T, cst, UNDEF, fld, calls, writes, idxOf, AnchorError } from './_lib.mjs';

export const accessor = (c, k, name, kind = 'get') => { const d = c.P.member(k, name, kind)?.decl; if (!d?.body) throw new AnchorError(`${k.name.text}.${name} (${kind}) not found`); return d; };
export const abstractClass = (k) => !!k.modifiers?.some((m) => m.kind === ts.SyntaxKind.AbstractKeyword);
/** Concrete classes of a base class, itself included. */
export function concrete(c, base) {
  const k = c.P.cls(base);
  return [k, ...c.P.subclasses(k)].filter((x) => !abstractClass(x));
}
/** Classes that are written to: they notify. */
export const writable = (c) => concrete(c, 'WritableSignal');
/** Fields a constructor fills with its parameters. */
export function ctorFields(c, k) {
  const ctor = k.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
  const out = [];
  if (!ctor) return out;
  const E = c.engine(), params = E.paramSyms(ctor), thisT = E.thisSym(k);
  for (const p of c.paths(E, ctor, { cls: k })) for (const e of writes(p)) if (p.st.canon(e.base) === thisT) { const i = params.findIndex((x) => p.st.canon(x) === p.st.canon(e.value)); if (i >= 0) out[i] ??= String(e.name); }
  return out;
}
