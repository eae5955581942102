// C06: rendering has no side effects on the host tree.
import { ts, AnchorError } from './_lib.mjs';
import { Flow, isFn, skip } from '../lib/flow.mjs';

export const technique = 'inclusion-based call graph and value-origin analysis of the type-checked program: reachability of host effects from rendering and of rendering from commits, and ownership of the nodes that are changed while rendering';
export const about = 'A call graph that follows function values (callbacks, stored closures, interface implementations) is built; everything that may run before a render or diff returns is searched for host operations, effects and changes to nodes not created there, and everything a commit runs for rendering.';
export const assumptions = ['Component functions and other functions passed in by users have no side effects of their own.', 'Functions handed to timers, promises, schedulers and event listeners run later.'];

export const flow = (c) => (c.P._flow ??= new Flow(c.P));
const PART = ['mountBlock', 'moveBlock', 'unmountBlock', 'commitUpdate', 'commitMount', 'commitUnmount'];
const BLOCK = ['mountBefore', 'mountInto', 'moveBefore', 'moveInto', 'unmount'];
const all = (f, iface, names) => new Set(names.flatMap((n) => f.impl(iface, n)));
function ifaceMembers(c, name) {
  return c.P.exported(name).filter((d) => ts.isInterfaceDeclaration(d)).flatMap((d) => d.members.filter((m) => m.name && (ts.isMethodSignature(m) || (ts.isPropertySignature(m) && m.type && ts.isFunctionTypeNode(m.type)))).map((m) => m.name.getText()));
}
export function regions(c) {
  if (c._c06) return c._c06;
  const f = flow(c);
  const render = new Set([...f.impl('Renderer', 'render'), ...f.impl('Renderer', 'diff'), ...f.impl('Transaction', 'prepare'), ...f.impl('ComponentInstance', 'render'), ...f.impl('HostAdapter', 'renderTemplate'), ...f.impl('HostAdapter', 'renderPortal'), ...f.impl('Middleware', 'handle'), ...f.impl('Part', 'splitPart')]);
  for (const [i, n] of [['Renderer', 'render'], ['Renderer', 'diff'], ['Transaction', 'prepare'], ['ComponentInstance', 'render'], ['HostAdapter', 'renderTemplate']]) if (!f.impl(i, n).length) throw new AnchorError(`nothing implements ${i}.${n}`);
  // hooks: functions that are given the context of a rendering component
  const ctx = c.P.cls('RenderContext');
  const hooks = new Set();
  for (const m of ctx.members) if (isFn(m) && m.body && !ts.isConstructorDeclaration(m)) hooks.add(m);
  const isCtx = (t) => { const d = t?.symbol?.declarations?.[0]; return d === ctx; };
  for (const file of f.nodes) c.P.walk(file, (n) => { if (isFn(n) && n.body && n.parameters?.some((q) => isCtx(c.P.checker.getTypeAtLocation(q)))) hooks.add(n); });
  for (const h of hooks) render.add(h);
  // what components are compared and made with
  for (const n of ['arePropsEqual', 'createInstance']) for (const x of f.impl('Component', n)) render.add(x);
  const effects = new Set([...all(f, 'Part', ifaceMembers(c, 'Part').filter((n) => n !== 'splitPart')), ...all(f, 'Block', ifaceMembers(c, 'Block')), ...all(f, 'ComponentInstance', ['connect', 'disconnect'])]);
  for (const n of PART) if (!f.impl('Part', n).length) throw new AnchorError(`no part implements ${n}`);
  for (const n of BLOCK) if (!f.impl('Block', n).length) throw new AnchorError(`no block implements ${n}`);
  // what a transaction yields, to be run as its commit
  const commits = new Set();
  for (const t of f.impl('Transaction', 'prepare')) for (const v of f.set(f.ret(t))) if (v.k === 'fn') commits.add(v.n);
  return (c._c06 = { f, render, effects, commits, hooks, ctx, reached: f.reach([...render]), done: f.reach([...commits, ...effects]) });
}
/** Interface members of the host called directly (no implementation need exist). */
function hostMember(c, call) {
  const e = skip(call.expression);
  if (!ts.isPropertyAccessExpression(e)) return null;
  let s = c.P.checker.getSymbolAtLocation(e.name);
  for (const d of s?.declarations ?? []) { const o = d.parent; if (o && (ts.isInterfaceDeclaration(o) || ts.isClassDeclaration(o)) && o.name) return { owner: o.name.text, name: e.name.text, decl: d }; }
  return null;
}
/** Nodes of the bodies of the functions in a region, each once. */
function* bodies(f, seen) {
  for (const fn of seen.keys()) {
    const stack = [];
    if (ts.isSourceFile(fn)) continue;
    if (ts.isClassLike(fn)) { for (const m of fn.members) if (ts.isPropertyDeclaration(m) && m.initializer) stack.push(m.initializer); }
    else { stack.push(fn.body); for (const q of fn.parameters) if (q.initializer) stack.push(q.initializer); }
    while (stack.length) {
      const n = stack.pop();
      if (isFn(n) || ts.isClassLike(n)) continue;
      yield [n, fn];
      n.forEachChild((x) => { stack.push(x); });
    }
  }
}
const path = (f, seen, fn) => f.trail(seen, fn).join(' → ');

function rendering(c) {
  const R = regions(c), { f, reached, effects } = R;
  let n = 0;
  for (const [node, fn] of bodies(f, reached)) {
    if (!ts.isCallExpression(node)) continue;
    n++;
    const m = hostMember(c, node);
    const named = m && ((m.owner === 'Part' && m.name !== 'splitPart') || m.owner === 'Block' || (m.owner === 'ComponentInstance' && /^(dis)?connect$/.test(m.name)));
    c.expect(!named, node, `${m?.owner}.${m?.name} may be called while rendering (${path(f, reached, fn)})`);
  }
  for (const e of f.edges) if (e.kind === 'sync' && reached.has(e.from)) c.expect(!effects.has(e.to), e.node, `${f.name(e.to)} may run while rendering (${path(f, reached, e.from)})`);
  c.expect(n > 50, c.P.files[0], 'rendering calls nothing');
}
function effectParams(c) {
  const { f } = regions(c);
  const from = f.reach([...f.impl('ComponentInstance', 'connect'), ...f.impl('ComponentInstance', 'disconnect')], { own: true });
  const ctx = c.P.cls('RenderContext');
  const out = new Set();
  for (const u of f.userCalls) if (from.has(u.from) && ts.isMethodDeclaration(u.param.parent) && u.param.parent.parent === ctx) out.add(u.param);
  if (!out.size) throw new AnchorError('no effect given to a hook is run when a component is connected');
  return out;
}
function effectsRule(c) {
  const { f, reached } = regions(c), params = effectParams(c);
  let later = 0;
  for (const u of f.userCalls) {
    if (!params.has(u.param) || u.param.parent.parent !== c.P.cls('RenderContext')) continue;
    if (!ts.isCallExpression(u.node)) continue;
    later++;
    c.expect(!reached.has(u.from), u.node, `${u.res ? 'the cleanup of an effect' : 'an effect'} may run while rendering (${path(f, reached, u.from)})`);
  }
  // the functions the library itself passes as effects
  const own = new Set();
  for (const q of params) for (const v of f.set(q)) if (v.k === 'fn') own.add(v.n);
  for (const e of f.edges) if (own.has(e.to) && e.kind === 'sync') c.expect(!reached.has(e.from), e.node, `an effect may run while rendering (${path(f, reached, e.from)})`);
  // references to elements: functions that parts call with their element
  const parts = f.reach(f.impl('Part', 'commitMount').concat(f.impl('Part', 'commitUnmount'), f.impl('Part', 'commitUpdate')));
  const refs = new Set();
  for (const u of f.userCalls) if (parts.has(u.from) && ts.isClassLike(u.param.parent.parent) && f.impl('Part', 'commitMount').some((m) => m.parent === u.param.parent.parent)) refs.add(u.param);
  for (const u of f.userCalls) if (refs.has(u.param)) { later++; c.expect(!reached.has(u.from) || parts.has(u.from), u.node, `an element reference may be called while rendering (${path(f, reached, u.from)})`); }
  c.expect(later > 1, c.P.cls('RenderContext'), 'no effect is ever run');
}
export const CHANGES = new Set(['append', 'appendChild', 'prepend', 'before', 'after', 'replaceWith', 'replaceChild', 'replaceChildren', 'insertBefore', 'remove', 'removeChild', 'moveBefore', 'insertAdjacentElement', 'insertAdjacentHTML', 'insertAdjacentText', 'setAttribute', 'setAttributeNS', 'setAttributeNode', 'removeAttribute', 'removeAttributeNS', 'removeAttributeNode', 'toggleAttribute', 'setHTMLUnsafe', 'setHTML', 'normalize', 'splitText', 'appendData', 'insertData', 'deleteData', 'replaceData', 'addEventListener', 'removeEventListener', 'dispatchEvent', 'attachShadow', 'add', 'toggle', 'replace', 'setProperty', 'removeProperty', 'setNamedItem', 'removeNamedItem', 'deleteContents', 'extractContents', 'insertNode', 'surroundContents', 'focus', 'blur', 'click', 'showPopover', 'hidePopover', 'togglePopover', 'setSelectionRange', 'scrollTo', 'scrollIntoView', 'adoptNode', 'write', 'writeln', 'open', 'close']);
function nodes(c) {
  const { f, reached } = regions(c);
  let n = 0;
  const check = (base, node, fn, what) => {
    base = skip(base);
    let t; try { t = c.P.checker.getTypeAtLocation(base); } catch { return; }
    if (!f.isDom(t)) return;
    n++;
    const from = [...f.E(base)].filter((v) => ['fresh', 'param', 'ext', 'this', 'res', 'new', 'outer'].includes(v.k) && !(v.k === 'param' && f.called.has(v.n)) && !(v.k === 'this'));
    // values that cannot be nodes take no part
    const alien = from.filter((v) => v.k !== 'fresh' && v.k !== 'new' && (v.k === 'param' || v.k === 'res' || v.k === 'outer' || (v.k === 'ext' && ts.isVariableDeclaration(v.n))) && couldBeNode(c, f, v));
    const fresh = from.some((v) => v.k === 'fresh');
    c.expect(!alien.length && fresh, node, `${what} a node that was not created there while rendering (${path(f, reached, fn)})`);
  };
  for (const [node, fn] of bodies(f, reached)) {
    if (ts.isCallExpression(node)) {
      const e = skip(node.expression);
      if ((ts.isPropertyAccessExpression(e)) && CHANGES.has(e.name.text) && (f.hostSym(f.sym(e.name)) || !f.sym(e.name))) check(e.expression, node, fn, `'${e.name.text}' is called on`);
      else if (ts.isElementAccessExpression(e)) check(e.expression, node, fn, 'a computed method is called on');
    } else if (ts.isBinaryExpression(node) && node.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && node.operatorToken.kind <= ts.SyntaxKind.LastAssignment) {
      const l = skip(node.left);
      if (ts.isPropertyAccessExpression(l) || ts.isElementAccessExpression(l)) check(l.expression, node, fn, `a property is assigned on`);
    } else if (ts.isDeleteExpression(node)) { const l = skip(node.expression); if (l.expression) check(l.expression, node, fn, 'a property is deleted from'); }
  }
  c.expect(n > 0, c.P.files[0], 'no template is ever built');
}
function couldBeNode(c, f, v) {
  if (v.k === 'res') return true;
  let t; try { t = c.P.checker.getTypeAtLocation(v.n); } catch { return true; }
  if (t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown)) return true;
  return f.isDom(t) && !/^(Document|Window)$/.test(t.symbol?.name ?? '');
}
function committing(c) {
  const R = regions(c), { f, done } = R;
  const renders = new Set([...f.impl('Renderer', 'render'), ...f.impl('Renderer', 'diff'), ...f.impl('Transaction', 'prepare'), ...f.impl('ComponentInstance', 'render'), ...f.impl('HostAdapter', 'renderTemplate'), ...f.impl('HostAdapter', 'renderPortal'), ...f.impl('Component', 'createInstance')]);
  c.expect(R.commits.size > 0, c.P.files[0], 'no transaction yields a commit');
  let n = 0;
  for (const e of f.edges) if (e.kind === 'sync' && done.has(e.from)) { n++; c.expect(!renders.has(e.to), e.node, `${f.name(e.to)} may run while committing (${path(f, done, e.from)})`); }
  for (const [node, fn] of bodies(f, done)) {
    if (!ts.isCallExpression(node)) continue;
    const m = hostMember(c, node);
    const named = m && ((m.owner === 'Renderer') || (m.owner === 'Transaction' && m.name === 'prepare') || (m.owner === 'ComponentInstance' && m.name === 'render') || (m.owner === 'HostAdapter' && /^render/.test(m.name)) || (m.owner === 'Component' && m.name === 'createInstance'));
    c.expect(!named, node, `${m?.owner}.${m?.name} may be called while committing (${path(f, done, fn)})`);
  }
  // the component functions themselves
  const comps = new Set();
  for (const k of new Set(f.impl('ComponentInstance', 'render').map((m) => m.parent))) for (const u of f.userCalls) if (ts.isConstructorDeclaration(u.param.parent) && u.param.parent.parent === k) comps.add(u.param);
  for (const u of f.userCalls) if (comps.has(u.param) && !u.res && done.has(u.from)) c.fail(u.node, `a component function may be called while committing (${path(f, done, u.from)})`);
  c.expect(n > 20, c.P.files[0], 'commits do nothing');
}
export const rules = [
  { name: 'rendering', text: 'nothing that runs before a render or diff returns calls a part, a block, or connects or disconnects a component', run: rendering },
  { name: 'effects', text: 'no effect, cleanup or element reference runs before a render or diff returns', run: effectsRule },
  { name: 'nodes', text: 'nodes changed while rendering were created there', run: nodes },
  { name: 'committing', text: 'nothing a commit runs renders a component, a template or a portal', run: committing },
];
