// Loads /repo/src as a type-checked TypeScript program and offers symbol queries.
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { createRequire } from 'node:module';

const require = createRequire(import.meta.url);
const TS_PATHS = [
  '/opt/veriftools/node/node_modules/typescript/lib/typescript.js',
];
export const ts = require(TS_PATHS.find((p) => fs.existsSync(p)) ?? 'typescript');

const AMBIENT = path.join(path.dirname(fileURLToPath(import.meta.url)), 'ambient.d.ts');
export const REPO = process.env.VERIF_REPO ?? '/repo';
const SK = ts.SyntaxKind;

function listFiles(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) {
      if (e.name !== 'node_modules') listFiles(p, out);
    } else if (/\.(ts|tsx|mts)$/.test(e.name) && !/\.d\.ts$/.test(e.name)) {
      out.push(p);
    }
  }
  return out;
}

/** The text without its debug-labelled statements, everything else in place. The one at position `keep` only loses its label. */
export function stripDebug(text, name = 'x.ts', keep = -1) {
  const sf = ts.createSourceFile(name, text, ts.ScriptTarget.ESNext, true);
  let out = text;
  const visit = (n) => {
    if (ts.isLabeledStatement(n) && n.label.text === 'DEBUG') { const from = n.getStart(sf); if (from === keep) { out = out.slice(0, from) + ' '.repeat(n.statement.getStart(sf) - from) + out.slice(n.statement.getStart(sf)); return; } out = out.slice(0, from) + ';' + out.slice(from + 1, n.end).replace(/[^\r\n]/g, ' ') + out.slice(n.end); return; }
    ts.forEachChild(n, visit);
  };
  visit(sf);
  return out;
}

export class AnchorError extends Error {}

export class Project {
  constructor(root = path.join(REPO, 'src'), { tsconfig = path.join(root, 'tsconfig.json'), strip = process.env.VERIF_STRIP } = {}) {
    this.root = root;
    let options = {};
    if (fs.existsSync(tsconfig)) {
      const cfg = ts.readConfigFile(tsconfig, ts.sys.readFile);
      options = ts.parseJsonConfigFileContent(cfg.config ?? {}, ts.sys, path.dirname(tsconfig)).options;
    }
    options = {
      ...options,
      noEmit: true,
      composite: false,
      incremental: false,
      declaration: false,
      skipLibCheck: true,
      types: [],
      lib: ['lib.esnext.d.ts', 'lib.dom.d.ts', 'lib.dom.iterable.d.ts'],
      target: ts.ScriptTarget.ESNext,
      moduleResolution: ts.ModuleResolutionKind.NodeNext,
      module: ts.ModuleKind.NodeNext,
      strict: true,
    };
    delete options.tsBuildInfoFile;
    this.fileNames = listFiles(root).sort();
    const host = ts.createCompilerHost(options, true);
    if (strip) {
      const read = host.getSourceFile.bind(host);
      host.getSourceFile = (name, opts, ...rest) => (name.startsWith(root + path.sep) && /\.(ts|tsx|mts)$/.test(name) ? ts.createSourceFile(name, stripDebug(fs.readFileSync(name, 'utf8'), name, /^keep=/.test(strip) && strip.slice(5).split(':')[0] === path.relative(root, name) ? Number(strip.split(':')[1]) : -1), opts, true) : read(name, opts, ...rest));
    }
    this.program = ts.createProgram([...this.fileNames, AMBIENT], options, host);
    this.checker = this.program.getTypeChecker();
    this.files = this.fileNames.map((f) => this.program.getSourceFile(f));
    this.functions = [];
    for (const f of this.files) this.walk(f, (n) => { if (isFunctionLike(n) && n.body) this.functions.push(n); });
  }

  rel(node) {
    return path.relative(path.dirname(this.root), node.getSourceFile().fileName);
  }
  where(node) {
    if (!node) return '?';
    const sf = node.getSourceFile();
    const { line } = sf.getLineAndCharacterOfPosition(node.getStart(sf));
    return `${this.rel(node)}:${line + 1}`;
  }
  walk(node, cb) {
    const visit = (n) => { if (cb(n) !== false) ts.forEachChild(n, visit); };
    visit(node);
  }
  symbolOf(node) {
    let s = this.checker.getSymbolAtLocation(node);
    if (s && s.flags & ts.SymbolFlags.Alias) s = this.checker.getAliasedSymbol(s);
    return s;
  }
  inRepo(decl) {
    return !!decl && decl.getSourceFile().fileName.startsWith(this.root + path.sep);
  }
  /** Every exported declaration with the given name, whatever file it lives in. */
  exported(name) {
    const out = new Set();
    for (const f of this.files) {
      const sym = this.checker.getSymbolAtLocation(f);
      if (!sym) continue;
      for (let e of this.checker.getExportsOfModule(sym)) {
        if (e.name !== name) continue;
        if (e.flags & ts.SymbolFlags.Alias) e = this.checker.getAliasedSymbol(e);
        for (const d of e.declarations ?? []) out.add(d);
      }
    }
    return [...out];
  }
  cls(name) {
    const d = this.exported(name).find((x) => ts.isClassDeclaration(x)) ?? this.allClasses().find((c) => c.name?.text === name);
    if (!d) throw new AnchorError(`class ${name} not found`);
    return d;
  }
  fn(name) {
    const d = this.exported(name).find((x) => ts.isFunctionDeclaration(x) && x.body);
    if (d) return d;
    const v = this.exported(name).find((x) => ts.isVariableDeclaration(x));
    if (v?.initializer && isFunctionLike(v.initializer)) return v.initializer;
    throw new AnchorError(`function ${name} not found`);
  }
  variable(name) {
    const v = this.exported(name).find((x) => ts.isVariableDeclaration(x));
    if (!v) throw new AnchorError(`constant ${name} not found`);
    return v;
  }
  allClasses() {
    if (!this._classes) {
      this._classes = [];
      for (const f of this.files) this.walk(f, (n) => { if (ts.isClassLike(n)) this._classes.push(n); });
    }
    return this._classes;
  }
  baseClass(cls) {
    const h = cls.heritageClauses?.find((c) => c.token === SK.ExtendsKeyword);
    if (!h) return null;
    const s = this.symbolOf(h.types[0].expression);
    const d = s?.valueDeclaration;
    return d && ts.isClassLike(d) && this.inRepo(d) ? d : null;
  }
  /** Member declared in cls itself or the nearest base class in the repository. */
  member(cls, name, kind = 'any') {
    for (let c = cls; c; c = this.baseClass(c)) {
      for (const m of c.members) {
        if (!m.name || memberName(m.name, this) !== name) continue;
        if (isStatic(m)) continue;
        if (kind === 'get' && !ts.isGetAccessor(m)) continue;
        if (kind === 'set' && !ts.isSetAccessor(m)) continue;
        if (kind === 'method' && !ts.isMethodDeclaration(m)) continue;
        if (ts.isMethodDeclaration(m) && !m.body) {
          if (c.members.some((x) => ts.isMethodDeclaration(x) && x.body && memberName(x.name, this) === name && !isStatic(x))) continue; // an overload
          return { abstract: true, decl: m, cls: c };
        }
        if ((ts.isGetAccessor(m) || ts.isSetAccessor(m)) && !m.body) return { abstract: true, decl: m, cls: c };
        return { decl: m, cls: c };
      }
    }
    return null;
  }
  staticMember(cls, name) {
    for (let c = cls; c; c = this.baseClass(c)) {
      for (const m of c.members) {
        if (m.name && isStatic(m) && memberName(m.name, this) === name) return m;
      }
    }
    return null;
  }
  method(clsName, name, kind = 'any') {
    const c = typeof clsName === 'string' ? this.cls(clsName) : clsName;
    const m = this.member(c, name, kind);
    if (!m || m.abstract) throw new AnchorError(`${c.name?.text}.${name} not found`);
    return m.decl;
  }
  subclasses(cls) {
    if (!this._subs) {
      this._subs = new Map();
      for (const c of this.allClasses()) {
        for (let b = this.baseClass(c); b; b = this.baseClass(b)) {
          if (!this._subs.has(b)) this._subs.set(b, []);
          this._subs.get(b).push(c);
        }
      }
    }
    return this._subs.get(cls) ?? [];
  }
  isOverridden(cls, name) {
    return this.subclasses(cls).some((s) => s.members.some((m) => m.name && memberName(m.name, this) === name && !isStatic(m)));
  }
  /** Classes of the repository that declare `implements name` or inherit from such. */
  implementors(name) {
    const direct = this.allClasses().filter((c) => c.heritageClauses?.some((h) => h.token === SK.ImplementsKeyword && h.types.some((t) => t.expression.getText() === name)));
    return [...new Set(direct.flatMap((c) => [c, ...this.subclasses(c)]))];
  }
}

export function isStatic(m) {
  return !!m.modifiers?.some((x) => x.kind === SK.StaticKeyword);
}
export function isFunctionLike(n) {
  return ts.isFunctionDeclaration(n) || ts.isFunctionExpression(n) || ts.isArrowFunction(n) || ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isGetAccessor(n) || ts.isSetAccessor(n);
}
export function memberName(nameNode, project) {
  if (ts.isIdentifier(nameNode) || ts.isStringLiteral(nameNode) || ts.isNumericLiteral(nameNode) || ts.isPrivateIdentifier(nameNode)) return nameNode.text;
  if (ts.isComputedPropertyName(nameNode)) {
    const e = nameNode.expression;
    if (ts.isStringLiteral(e)) return e.text;
    return '[' + (project ? symKeyOf(e, project) : e.getText()) + ']';
  }
  return nameNode.getText();
}
export function symKeyOf(e, project) {
  const s = project.symbolOf(e);
  const d = s?.valueDeclaration;
  if (d && ts.isVariableDeclaration(d) && d.initializer && ts.isCallExpression(d.initializer)) {
    const a = d.initializer.arguments[0];
    if (d.initializer.expression.getText() === 'Symbol.for' && a && ts.isStringLiteral(a)) return 'Symbol.for:' + a.text;
    return 'Symbol:' + (s.name ?? e.getText());
  }
  return e.getText();
}
