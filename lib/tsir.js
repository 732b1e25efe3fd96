// Reads instantiated generator templates (JSON list of {name, text} on stdin), parses them with the TypeScript
// compiler and reports declarations, scoping diagnostics and the flow of values through read() and write().
'use strict';
const path = require('path');
const fs = require('fs');
const roots = [process.env.TS_MODULE, '/opt/veriftools/node/node_modules/typescript', 'typescript'].filter(Boolean);
let ts = null;
for (const r of roots) { try { ts = require(r); break; } catch (e) { } }
if (!ts) { console.error('no typescript'); process.exit(4); }

const K = ts.SyntaxKind;
const PRIMS = ['uint8', 'uint16', 'uint32', 'int8', 'int16', 'int32', 'float', 'string'];
const STUB = 'declare module "packet" {\n' +
  'export class Reader { constructor(data: ArrayBuffer); failed: boolean;\n' +
  PRIMS.map(p => p === 'string' ? 'read_string(len: number): string;' : `read_${p}(): number;`).join('\n') + '}\n' +
  'export class Writer { constructor(buffer?: ArrayBuffer); finish(): ArrayBuffer;\n' +
  PRIMS.map(p => `write_${p}(v: ${p === 'string' ? 'string' : 'number'}): void;`).join('\n') + '}\n}\n';

class Unk extends Error { }

function diagnose(items) {
  const files = new Map();
  files.set('/stub.d.ts', STUB);
  for (let i = 0; i < items.length; i++) files.set(`/m${i}.ts`, items[i].text);
  const libdir = path.dirname(require.resolve(roots.find(r => { try { require.resolve(r); return true; } catch (e) { return false; } })));
  const opts = { target: ts.ScriptTarget.ES2019, module: ts.ModuleKind.CommonJS, noResolve: false, types: [], lib: ['lib.es2019.d.ts'], strict: false, skipLibCheck: true };
  const cache = new Map();
  const host = {
    getSourceFile(n, v) {
      if (cache.has(n)) return cache.get(n);
      let t = files.get(n);
      if (t === undefined) { try { t = fs.readFileSync(n, 'utf8'); } catch (e) { return undefined; } }
      const f = ts.createSourceFile(n, t, v, true);
      cache.set(n, f);
      return f;
    },
    getDefaultLibFileName: () => path.join(libdir, 'lib.es2019.d.ts'),
    getDefaultLibLocation: () => libdir,
    writeFile() { }, getCurrentDirectory: () => '/', getCanonicalFileName: f => f, useCaseSensitiveFileNames: () => true,
    getNewLine: () => '\n', fileExists: f => files.has(f) || fs.existsSync(f), readFile: f => files.get(f) || fs.readFileSync(f, 'utf8'),
    getDirectories: () => [], directoryExists: () => false,
  };
  const prog = ts.createProgram([...files.keys()], opts, host);
  const out = [];
  for (let i = 0; i < items.length; i++) {
    const sf = prog.getSourceFile(`/m${i}.ts`);
    const fmt = d => ({
      code: d.code, msg: ts.flattenDiagnosticMessageText(d.messageText, ' '),
      line: d.start === undefined ? 0 : sf.getLineAndCharacterOfPosition(d.start).line,
      at: d.start === undefined ? '' : sf.text.substr(d.start, d.length),
    });
    const syn = prog.getSyntacticDiagnostics(sf).map(fmt);
    out.push({ sf, syntax: syn, sem: syn.length ? [] : prog.getSemanticDiagnostics(sf).map(fmt) });
  }
  return out;
}

function evalConst(n) {
  if (ts.isNumericLiteral(n)) return Number(n.text);
  if (ts.isParenthesizedExpression(n)) return evalConst(n.expression);
  if (ts.isAsExpression(n)) return evalConst(n.expression);
  if (ts.isPrefixUnaryExpression(n)) {
    const v = evalConst(n.operand);
    if (v === null) return null;
    if (n.operator === K.MinusToken) return -v;
    if (n.operator === K.PlusToken) return v;
    if (n.operator === K.TildeToken) return ~v;
    return null;
  }
  if (ts.isBinaryExpression(n)) {
    const a = evalConst(n.left), b = evalConst(n.right);
    if (a === null || b === null) return null;
    switch (n.operatorToken.kind) {
      case K.LessThanLessThanToken: return a << b;
      case K.GreaterThanGreaterThanToken: return a >> b;
      case K.GreaterThanGreaterThanGreaterThanToken: return a >>> b;
      case K.PlusToken: return a + b;
      case K.MinusToken: return a - b;
      case K.AsteriskToken: return a * b;
      case K.SlashToken: return a / b;
      case K.AsteriskAsteriskToken: return a ** b;
      case K.BarToken: return a | b;
      case K.AmpersandToken: return a & b;
      case K.CaretToken: return a ^ b;
      case K.PercentToken: return a % b;
    }
  }
  return null;
}

function typeDesc(n) {
  if (!n) return { k: 'none' };
  switch (n.kind) {
    case K.NumberKeyword: return { k: 'kw', n: 'number' };
    case K.StringKeyword: return { k: 'kw', n: 'string' };
    case K.UndefinedKeyword: return { k: 'kw', n: 'undefined' };
    case K.AnyKeyword: return { k: 'kw', n: 'any' };
    case K.BooleanKeyword: return { k: 'kw', n: 'boolean' };
    case K.ParenthesizedType: return typeDesc(n.type);
    case K.ArrayType: return { k: 'array', of: typeDesc(n.elementType) };
    case K.LiteralType: return { k: 'kw', n: n.getText() };
    case K.UnionType: return { k: 'union', ts: n.types.map(typeDesc) };
    case K.TypeReference: {
      const name = n.typeName.getText().replace(/\s/g, '');
      if (name === 'Array' && n.typeArguments && n.typeArguments.length === 1) return { k: 'array', of: typeDesc(n.typeArguments[0]) };
      if (n.typeArguments && n.typeArguments.length) return { k: 'other', n: n.getText() };
      return { k: 'ref', n: name };
    }
  }
  return { k: 'other', n: n.getText() };
}

function decls(sf) {
  const r = { imports: [], top: [], namespaces: [], classes: [], other: [] };
  const items = (body) => {
    const out = [];
    for (const s of body.statements) {
      const exported = !!(s.modifiers && s.modifiers.some(m => m.kind === K.ExportKeyword));
      if (ts.isInterfaceDeclaration(s)) {
        out.push({
          kind: 'interface', name: s.name.text, exported,
          members: s.members.map(m => ts.isPropertySignature(m) ? { name: m.name.getText(), opt: !!m.questionToken, type: typeDesc(m.type) } : { name: '?', bad: m.getText() }),
        });
      } else if (ts.isEnumDeclaration(s)) {
        out.push({
          kind: 'enum', name: s.name.text, exported, isconst: !!(s.modifiers && s.modifiers.some(m => m.kind === K.ConstKeyword)),
          members: s.members.map((m, i) => ({ name: m.name.getText(), value: m.initializer ? evalConst(m.initializer) : null, text: m.getText() })),
        });
      } else if (ts.isTypeAliasDeclaration(s)) {
        out.push({ kind: 'alias', name: s.name.text, exported });
      } else {
        out.push({ kind: 'other', text: s.getText().slice(0, 80) });
      }
    }
    return out;
  };
  for (const s of sf.statements) {
    const exported = !!(s.modifiers && s.modifiers.some(m => m.kind === K.ExportKeyword));
    if (ts.isImportDeclaration(s)) {
      const nb = s.importClause && s.importClause.namedBindings;
      r.imports.push({ from: s.moduleSpecifier.text, names: nb && nb.elements ? nb.elements.map(e => [e.propertyName ? e.propertyName.text : e.name.text, e.name.text]) : [] });
    } else if (ts.isModuleDeclaration(s) && s.body && ts.isModuleBlock(s.body)) {
      r.namespaces.push({ name: s.name.text, exported, items: items(s.body) });
    } else if (ts.isClassDeclaration(s)) {
      const c = { name: s.name && s.name.text, exported, ctor: null, methods: {}, other: [] };
      for (const m of s.members) {
        if (ts.isConstructorDeclaration(m)) {
          c.ctor = m.parameters.map(p => ({
            name: p.name.getText(), opt: !!p.questionToken, type: typeDesc(p.type),
            prop: !!(p.modifiers && p.modifiers.some(x => [K.PublicKeyword, K.ReadonlyKeyword].includes(x.kind))),
            priv: !!(p.modifiers && p.modifiers.some(x => [K.PrivateKeyword, K.ProtectedKeyword].includes(x.kind))),
          }));
          c.ctorBody = m.body ? m.body.statements.length : 0;
        } else if (ts.isMethodDeclaration(m)) {
          c.methods[m.name.getText()] = { node: m, isstatic: !!(m.modifiers && m.modifiers.some(x => x.kind === K.StaticKeyword)), params: m.parameters.map(p => ({ name: p.name.getText(), opt: !!p.questionToken || !!p.initializer, type: typeDesc(p.type) })), ret: typeDesc(m.type) };
        } else c.other.push(m.getText().slice(0, 80));
      }
      r.classes.push(c);
    } else r.other.push(s.getText().slice(0, 120));
  }
  return r;
}

// ------------------------------------------------------------------ value flow
class Flow {
  constructor(sf, cls) { this.sf = sf; this.cls = cls; this.n = 0; }
  line(n) { return this.sf.getLineAndCharacterOfPosition(n.getStart()).line; }
  fresh() { return ++this.n; }

  run(m) {
    const env = new Map();
    for (const p of m.parameters) env.set(p.name.getText(), { k: 'param', n: p.name.getText() });
    this.scopes = [env];
    const ops = [];
    this.block(m.body.statements, ops);
    return ops;
  }
  look(n) {
    for (let i = this.scopes.length - 1; i >= 0; i--) if (this.scopes[i].has(n)) return this.scopes[i];
    return null;
  }
  block(stmts, ops) {
    this.scopes.push(new Map());
    for (const s of stmts) this.stmt(s, ops);
    this.scopes.pop();
  }
  stmt(s, ops) {
    const line = this.line(s);
    if (ts.isBlock(s)) return this.block(s.statements, ops);
    if (ts.isEmptyStatement(s)) return;
    if (ts.isVariableStatement(s)) {
      for (const d of s.declarationList.declarations) {
        if (!ts.isIdentifier(d.name)) throw new Unk(d.getText());
        const v = d.initializer ? this.expr(d.initializer, ops) : { k: 'undef' };
        this.scopes[this.scopes.length - 1].set(d.name.text, v);
      }
      return;
    }
    if (ts.isExpressionStatement(s)) { this.expr(s.expression, ops, true); return; }
    if (ts.isReturnStatement(s)) { ops.push({ op: 'ret', v: s.expression ? this.expr(s.expression, ops) : { k: 'undef' }, line }); return; }
    if (ts.isThrowStatement(s)) { ops.push({ op: 'throw', line }); return; }
    if (ts.isIfStatement(s)) {
      const t = this.test(s.expression, ops);
      return this.cond(t, o => this.stmt(s.thenStatement, o), o => s.elseStatement && this.stmt(s.elseStatement, o), ops, line);
    }
    if (ts.isSwitchStatement(s)) return this.switch(s, ops, line);
    if (ts.isForStatement(s)) return this.for(s, ops, line);
    if (ts.isForOfStatement(s)) {
      const o = this.expr(s.expression, ops);
      const id = this.fresh();
      const op = { op: 'loop', id, bound: { k: 'len', o }, start: 0, body: [], line };
      this.loopbody(() => {
        this.scopes.push(new Map());
        this.scopes[this.scopes.length - 1].set(s.initializer.declarations[0].name.getText(), { k: 'elem', o, i: { k: 'idx', id } });
        this.stmt(s.statement, op.body);
        this.scopes.pop();
      });
      ops.push(op);
      return;
    }
    throw new Unk(s.getText().slice(0, 100));
  }
  snapshot() { return this.scopes.map(m => new Map(m)); }
  loopbody(f) {
    const before = this.snapshot();
    f();
    for (let i = 0; i < before.length; i++) for (const [k, v] of before[i]) {
      if (this.scopes[i].get(k) !== v) this.scopes[i].set(k, { k: 'loopvar', n: k });
    }
  }
  cond(t, a, b, ops, line) {
    const before = this.snapshot();
    const A = [], B = [];
    a(A);
    const sa = this.scopes;
    this.scopes = before;
    b(B);
    const sb = this.scopes;
    for (let i = 0; i < sa.length; i++) for (const [k, v] of sa[i]) {
      const w = sb[i] && sb[i].get(k);
      if (w !== undefined && w !== v) sa[i].set(k, JSON.stringify(v) === JSON.stringify(w) ? v : { k: 'phi', t, a: v, b: w });
    }
    this.scopes = sa;
    ops.push({ op: 'cond', t, a: A, b: B, line });
  }
  switch(s, ops, line) {
    const v = this.expr(s.expression, ops);
    // cases by label, with fall through
    const cl = s.caseBlock.clauses;
    const groups = [];
    let labels = [], def = false;
    for (let i = 0; i < cl.length; i++) {
      const c = cl[i];
      if (ts.isDefaultClause(c)) def = true; else labels.push(this.expr(c.expression, ops));
      if (c.statements.length === 0 && i + 1 < cl.length) continue;
      // statements up to break; falling through pulls in the next clause
      const body = [];
      let j = i, done = false;
      while (j < cl.length && !done) {
        for (const st of cl[j].statements) {
          if (ts.isBreakStatement(st)) { done = true; break; }
          body.push(st);
          if (ts.isReturnStatement(st)) { done = true; break; }
        }
        j++;
      }
      groups.push({ labels, def, body });
      labels = []; def = false;
    }
    const g = groups.filter(x => !x.def), d = groups.find(x => x.def);
    const nil = x => x.k === 'undef' || x.k === 'null';
    const run = x => o => { if (x) this.block(x.body, o); };
    if (g.length === 0) return d ? this.block(d.body, ops) : undefined;
    if (d && d.labels.some(nil)) throw new Unk('case next to default');
    const test = x => {
      const ks = x.labels.map(l => l.k);
      if (x.labels.every(nil)) return { k: ks.includes('undef') && ks.includes('null') ? 'isnil' : ks.includes('undef') ? 'isundef' : 'isnull', v };
      if (x.labels.length === 1) return { k: 'cmp', o: '===', a: v, b: x.labels[0] };
      return { k: 'anyof', v, of: x.labels };
    };
    const chain = i => o => i < g.length ? this.cond(test(g[i]), run(g[i]), chain(i + 1), o, line) : run(d)(o);
    return chain(0)(ops);
  }
  for(s, ops, line) {
    // for (let i = A; i < B; ++i)
    const ini = s.initializer;
    if (!ini || !ts.isVariableDeclarationList(ini)) throw new Unk('for');
    const id = this.fresh();
    this.scopes.push(new Map());
    const sc = this.scopes[this.scopes.length - 1];
    let start = null, name = null;
    ini.declarations.forEach((d, k) => {
      const v = this.expr(d.initializer, ops);
      if (k === 0) { start = v; name = d.name.getText(); sc.set(name, { k: 'idx', id }); } else sc.set(d.name.getText(), v);
    });
    const op = { op: 'loop', id, line, body: [] };
    const c = s.condition;
    const isI = n => ts.isIdentifier(n) && n.text === name;
    if (!c || !ts.isBinaryExpression(c)) throw new Unk('for condition');
    let bound, strict;
    const ck = c.operatorToken.kind;
    if (isI(c.left) && [K.LessThanToken, K.LessThanEqualsToken, K.ExclamationEqualsEqualsToken, K.ExclamationEqualsToken].includes(ck)) {
      bound = this.expr(c.right, ops); strict = ck !== K.LessThanEqualsToken;
    } else if (isI(c.right) && [K.GreaterThanToken, K.GreaterThanEqualsToken].includes(ck)) {
      bound = this.expr(c.left, ops); strict = ck === K.GreaterThanToken;
    } else throw new Unk('for condition');
    const inc = s.incrementor;
    let step = null;
    if (inc && (ts.isPrefixUnaryExpression(inc) || ts.isPostfixUnaryExpression(inc)) && isI(inc.operand)) step = inc.operator === K.PlusPlusToken ? 1 : -1;
    else if (inc && ts.isBinaryExpression(inc) && isI(inc.left) && inc.operatorToken.kind === K.PlusEqualsToken) step = evalConst(inc.right);
    if (step === null) throw new Unk('for increment');
    op.start = start.k === 'num' ? start.v : start;
    op.bound = bound;
    op.strict = strict;
    op.step = step;
    this.loopbody(() => this.stmt(s.statement, op.body));
    this.scopes.pop();
    ops.push(op);
  }
  test(n, ops) {
    if (ts.isParenthesizedExpression(n)) return this.test(n.expression, ops);
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) return { k: 'not', t: this.test(n.operand, ops) };
    if (ts.isBinaryExpression(n)) {
      const o = n.operatorToken.kind;
      if (o === K.AmpersandAmpersandToken) return { k: 'and', a: this.test(n.left, ops), b: this.test(n.right, ops) };
      if (o === K.BarBarToken) return this.nils({ k: 'or', a: this.test(n.left, ops), b: this.test(n.right, ops) });
      const rel = { [K.LessThanToken]: '<', [K.LessThanEqualsToken]: '<=', [K.GreaterThanToken]: '>', [K.GreaterThanEqualsToken]: '>=', [K.EqualsEqualsEqualsToken]: '===', [K.EqualsEqualsToken]: '==', [K.ExclamationEqualsEqualsToken]: '!==', [K.ExclamationEqualsToken]: '!=' }[o];
      if (rel) {
        const a = this.expr(n.left, ops), b = this.expr(n.right, ops);
        const nil = x => x.k === 'undef' || x.k === 'null';
        const x = nil(b) ? a : nil(a) ? b : null, z = nil(b) ? b : a;
        if (x) {
          if (rel === '==') return { k: 'isnil', v: x };
          if (rel === '!=') return { k: 'not', t: { k: 'isnil', v: x } };
          const t = { k: z.k === 'undef' ? 'isundef' : 'isnull', v: x };
          if (rel === '===') return t;
          if (rel === '!==') return { k: 'not', t };
        }
        return { k: 'cmp', o: rel === '==' ? '===' : rel === '!=' ? '!==' : rel, a, b };
      }
    }
    return { k: 'truthy', v: this.expr(n, ops) };
  }
  nils(t) {
    const ks = [t.a.k, t.b.k].sort().join();
    if (ks === 'isnull,isundef' && JSON.stringify(t.a.v) === JSON.stringify(t.b.v)) return { k: 'isnil', v: t.a.v };
    return t;
  }
  expr(n, ops, stmt) {
    const line = this.line(n);
    if (ts.isParenthesizedExpression(n)) return this.expr(n.expression, ops);
    if (ts.isAsExpression(n) || ts.isNonNullExpression(n) || (ts.isTypeAssertionExpression && ts.isTypeAssertionExpression(n))) return this.expr(n.expression, ops);
    if (n.kind === K.ThisKeyword) return { k: 'this' };
    if (n.kind === K.NullKeyword) return { k: 'null' };
    if (n.kind === K.TrueKeyword) return { k: 'bool', v: true };
    if (n.kind === K.FalseKeyword) return { k: 'bool', v: false };
    const c = evalConst(n);
    if (c !== null) return { k: 'num', v: c };
    if (ts.isStringLiteral(n)) return { k: 'str', v: n.text };
    if (ts.isIdentifier(n)) {
      if (n.text === 'undefined') return { k: 'undef' };
      const sc = this.look(n.text);
      if (sc) return sc.get(n.text);
      return { k: 'global', n: n.text };
    }
    if (ts.isPropertyAccessExpression(n)) {
      const o = this.expr(n.expression, ops);
      if (n.name.text === 'length' && !this.named(o)) return { k: 'len', o };
      return { k: 'field', o, n: n.name.text };
    }
    if (ts.isElementAccessExpression(n)) {
      const i = this.expr(n.argumentExpression, ops), o = this.expr(n.expression, ops);
      if (i.k === 'str') return { k: 'field', o, n: i.v };
      return { k: 'elem', o, i };
    }
    if (ts.isObjectLiteralExpression(n)) {
      if (n.properties.length) throw new Unk('object literal');
      return { k: 'obj', id: this.fresh() };
    }
    if (ts.isArrayLiteralExpression(n)) {
      if (n.elements.length) throw new Unk('array literal');
      return { k: 'newarr', id: this.fresh(), n: null };
    }
    if (ts.isNewExpression(n)) {
      const nm = n.expression.getText(), args = (n.arguments || []).map(a => this.expr(a, ops));
      if (nm === 'Array') return { k: 'newarr', id: this.fresh(), n: args.length === 1 ? args[0] : null };
      if (nm === 'Reader' || nm === 'Writer') return { k: nm.toLowerCase(), args };
      return { k: 'new', n: nm, args, id: this.fresh() };
    }
    if (ts.isConditionalExpression(n)) {
      const t = this.test(n.condition, ops);
      const o1 = [], o2 = [];
      const a = this.expr(n.whenTrue, o1), b = this.expr(n.whenFalse, o2);
      if (o1.length || o2.length) ops.push({ op: 'cond', t, a: o1, b: o2, line });
      if (a.k === b.k && (a.k === 'writer' || a.k === 'reader')) return { k: a.k, args: [] , alt: [a.args, b.args], t };
      return { k: 'phi', t, a, b };
    }
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken) {
      const v = this.expr(n.right, ops);
      this.assign(n.left, v, ops, line);
      return v;
    }
    if (ts.isCallExpression(n)) {
      const f = n.expression;
      if (ts.isPropertyAccessExpression(f)) {
        const o = this.expr(f.expression, ops);
        const nm = f.name.text;
        const args = n.arguments.map(a => this.expr(a, ops));
        if (o.k === 'writer' && nm.startsWith('write_')) { ops.push({ op: 'w', p: nm.slice(6), args, line }); return { k: 'undef' }; }
        if (o.k === 'reader' && nm.startsWith('read_')) {
          const id = this.fresh();
          ops.push({ op: 'r', p: nm.slice(5), args, id, line });
          return { k: 'read', id, p: nm.slice(5) };
        }
        if (o.k === 'writer' && nm === 'finish') return { k: 'finish' };
        if (o.k === 'global' && o.n === 'Object' && nm === 'create') return { k: 'obj', id: this.fresh(), proto: args[0] };
        if (nm === 'push' && args.length === 1) { ops.push({ op: 'push', o, v: args[0], line }); return { k: 'num', v: 0 }; }
      }
      throw new Unk('call ' + n.getText().slice(0, 80));
    }
    throw new Unk(n.getText().slice(0, 100));
  }
  named() { return false; }
  assign(l, v, ops, line) {
    if (ts.isParenthesizedExpression(l)) return this.assign(l.expression, v, ops, line);
    if (ts.isIdentifier(l)) {
      const sc = this.look(l.text);
      if (!sc) throw new Unk('assignment to ' + l.text);
      sc.set(l.text, v);
      return;
    }
    const t = this.expr(l, ops);
    ops.push({ op: 'set', t, v, line });
  }
}

function main() {
  const items = JSON.parse(fs.readFileSync(0, 'utf8'));
  const ds = diagnose(items);
  const out = [];
  for (let i = 0; i < items.length; i++) {
    const { sf, syntax, sem } = ds[i];
    const r = { name: items[i].name, syntax, sem };
    if (!syntax.length) {
      const d = decls(sf);
      for (const c of d.classes) for (const k of Object.keys(c.methods)) {
        const m = c.methods[k];
        try { m.ir = new Flow(sf, c.name).run(m.node); } catch (e) {
          if (!(e instanceof Unk)) throw e;
          m.unk = String(e.message);
        }
        delete m.node;
      }
      r.decls = d;
    }
    out.push(r);
  }
  process.stdout.write(JSON.stringify(out));
}
main();
