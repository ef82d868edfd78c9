// Abstract interpretation of the block editor's scripts (no browser, no Blockly, nothing of the repository is executed):
// the syntax trees of the scripts are evaluated over constants, objects, lists and symbolic block fields. Reports which
// blocks exist with which fields, which the toolbox offers, and the shape of every job object a generator can produce.
// usage: node jobs.js <web directory>        prints JSON
const fs = require('fs'), path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const dir = process.argv[2];
const out = { blocks: [], toolbox: [], offered: false, gens: [], seq: null, fetches: [], pages: [], undecided: [] };
const K = ts.SyntaxKind;

class Stop extends Error { }            // construct outside the supported language
class Ret { constructor(v) { this.v = v; } }
class Brk { } class Cont { }
class Throw { }
const UNK = { t: 'unk' }, UNDEF = { t: 'c', v: undefined }, NULL = { t: 'c', v: null };
const c = v => ({ t: 'c', v });
let steps = 0, choices = [], used = 0, fuel = 400000;
function choose(n = 2) {                // fork on a condition that is not known
  if (used >= choices.length) choices.push(0);
  if (used > 24) throw new Stop('too many conditions');
  return choices[used++] % n;
}
function allPaths(f) {                  // every combination of outcomes of unknown conditions
  const res = []; choices = [];
  for (let k = 0; k < 300; k++) {
    used = 0; fuel = 400000;
    try { res.push(f()); } catch (e) {
      if (e instanceof Throw) ; else if (e instanceof Stop) { res.push({ t: 'stop', why: e.message }); if (e.message == 'too many conditions') res.pop(); } else throw e;
    }
    choices = choices.slice(0, used);
    while (choices.length && choices[choices.length - 1] == 1) choices.pop();
    if (!choices.length) return res;
    choices[choices.length - 1] = 1;
  }
  return res;
}
class Env {
  constructor(up) { this.up = up; this.m = new Map(); }
  find(n) { for (let e = this; e; e = e.up) if (e.m.has(n)) return e; return null; }
  get(n) { const e = this.find(n); return e ? e.m.get(n) : null; }
  set(n, v) { (this.find(n) || global).m.set(n, v); }
  def(n, v) { this.m.set(n, v); }
}
const obj = (kv = {}, pos) => ({ t: 'obj', p: new Map(Object.entries(kv)), pos });
const arr = (e, pos) => ({ t: 'arr', e, pos });
const nat = f => ({ t: 'nat', f });
const global = new Env(null);
const Json = obj(); Json.isGen = true;
const isK = v => v.t == 'c';
const str = v => isK(v) ? String(v.v) : null;
function truth(v) {
  if (isK(v)) return !!v.v;
  if (['obj', 'arr', 'fn', 'nat', 'json', 'block', 'stmtobj'].includes(v.t)) return true;
  return choose() == 0;
}
let cur = null, reads = null; // source file
function pos(n) { const { line } = cur.sf.getLineAndCharacterOfPosition(n.getStart(cur.sf)); return cur.name + ':' + (line + 1); }

function member(o, n, node) {
  if (o.t == 'obj') {
    if (o.p.has(n)) return o.p.get(n);
    if (o.get) return o.get(n);
    if (n == 'hasOwnProperty') return nat(a => isK(a[0]) ? c(o.p.has(str(a[0]))) : UNK);
    return UNDEF;
  }
  if (o.t == 'arr') {
    const e = o.e;
    if (/^\d+$/.test(n)) return e[+n] || UNDEF;
    switch (n) {
      case 'length': return c(e.length);
      case 'forEach': return nat(a => { e.forEach((x, i) => call(a[0], [x, c(i), o])); return UNDEF; });
      case 'map': return nat(a => arr(e.map((x, i) => call(a[0], [x, c(i), o]))));
      case 'filter': return nat(a => arr(e.filter((x, i) => truth(call(a[0], [x, c(i), o])))));
      case 'reduce': return nat(a => { let i = 0, r = a.length > 1 ? a[1] : e[i++]; for (; i < e.length; i++) r = call(a[0], [r, e[i], c(i), o]); return r; });
      case 'push': return nat(a => { e.push(...a); return c(e.length); });
      case 'unshift': return nat(a => { e.unshift(...a); return c(e.length); });
      case 'concat': return nat(a => arr(e.concat(...a.map(x => x.t == 'arr' ? x.e : [x]))));
      case 'slice': return nat(a => arr(e.slice(...a.map(x => x.v))));
      case 'flat': return nat(() => arr(e.flatMap(x => x.t == 'arr' ? x.e : [x])));
      case 'reverse': return nat(() => { e.reverse(); return o; });
      case 'includes': return nat(a => isK(a[0]) && e.every(isK) ? c(e.some(x => x.v === a[0].v)) : UNK);
      case 'indexOf': return nat(a => isK(a[0]) && e.every(isK) ? c(e.findIndex(x => x.v === a[0].v)) : UNK);
      case 'join': return nat(a => e.every(isK) ? c(e.map(x => x.v).join(a.length ? a[0].v : ',')) : UNK);
      case 'entries': return nat(() => arr(e.map((x, i) => arr([c(i), x]))));
      case Symbol.iterator: return UNK;
    }
    throw new Stop('method ' + n + ' of a list');
  }
  if (o.t == 'block') {
    switch (n) {
      case 'getFieldValue': case 'getField': return nat(a => (reads && (isK(a[0]) ? reads.add(str(a[0])) : reads.add('?')), n == 'getField') ? obj({ getValue: nat(() => ({ t: 'field', name: str(a[0]), conv: '' })) }) : isK(a[0]) ? { t: 'field', name: str(a[0]), conv: '' } : UNK);
      case 'type': return o.type ? c(o.type) : UNK;
      case 'getInputTargetBlock': return nat(a => (reads && reads.add(isK(a[0]) ? str(a[0]) : '?'), isK(a[0])) ? { t: 'inputblock', name: str(a[0]) } : UNK);
      case 'nextConnection': return choose() == 0 ? { t: 'conn' } : NULL;
    }
    return { t: 'unk' };
  }
  if (o.t == 'conn') {
    if (n == 'targetBlock') return nat(() => choose() == 0 ? { t: 'block' } : NULL);
    return UNK;
  }
  if (o.t == 'c' && typeof o.v == 'string') {
    if (n == 'length') return c(o.v.length);
    const f = String.prototype[n];
    if (typeof f == 'function') return nat(a => {
      if (!a.every(isK)) return UNK;
      const r = f.apply(o.v, a.map(x => x.v));
      return Array.isArray(r) ? arr(r.map(c)) : (typeof r == 'object' && r) ? UNK : c(r);
    });
    return /^\d+$/.test(n) ? c(o.v[+n]) : UNDEF;
  }
  if (o.t == 'field' && n == 'toString') return nat(() => conv(o, 'string'));
  if (o.t == 'field' && (n == 'trim' || n == 'toLowerCase' || n == 'toUpperCase')) return nat(() => ({ t: 'field', name: o.name, conv: 'string', changed: n }));
  if (o.t == 'stmt' && n == 'length') return UNK;
  if (o.t == 'stmt' && n == 'trim') return nat(() => o);
  if ((o.t == 'fn' || o.t == 'nat') && (n == 'call' || n == 'bind' || n == 'apply')) {
    if (n == 'call') return nat(a => call(o, a.slice(1)));
    if (n == 'apply') return nat(a => call(o, a[1] && a[1].t == 'arr' ? a[1].e : []));
    return nat(a => nat(b => call(o, a.slice(1).concat(b))));
  }
  if (o.t == 'nat') return o.props && o.props.p.get(n) || UNK;
  if (o.t == 'fn') return (o.props = o.props || obj()).p.get(n) || UNDEF;
  if (isK(o) && o.v == null) throw new Throw();
  return UNK;
}
function conv(v, k) {
  if (isK(v)) return c(k == 'int' ? parseInt(v.v) : k == 'float' ? Number(v.v) : String(v.v));
  if (v.t == 'field') return { t: 'field', name: v.name, conv: k, changed: v.changed };
  return UNK;
}
function fromJS(v) {
  if (Array.isArray(v)) return arr(v.map(fromJS));
  if (v && typeof v == 'object') return obj(Object.fromEntries(Object.entries(v).map(([k, x]) => [k, fromJS(x)])));
  return c(v);
}
function toJS(v) {
  switch (v.t) {
    case 'c': return v.v; case 'arr': return v.e.map(toJS);
    case 'obj': return Object.fromEntries([...v.p].map(([k, x]) => [k, toJS(x)]));
  }
  throw new Stop('not constant');
}
function call(f, args, node) {
  if (--fuel < 0) throw new Stop('does not end');
  if (!f) return UNK;
  if (f.t == 'nat') return f.f(args, node);
  if (f.t == 'fn') {
    const env = new Env(f.env), save = cur; cur = f.file;
    f.node.parameters.forEach((p, i) => {
      let v = p.dotDotDotToken ? arr(args.slice(i)) : args[i] || UNDEF;
      if (isK(v) && v.v === undefined && p.initializer) v = ev(p.initializer, env);
      bind(p.name, v, env);
    });
    env.def('arguments', arr(args));
    if (!ts.isArrowFunction(f.node)) env.def('this', f.self || UNK);
    try {
      if (!ts.isBlock(f.node.body)) return ev(f.node.body, env);
      hoist(f.node.body.statements, env);
      for (const s of f.node.body.statements) { const r = st(s, env); if (r instanceof Ret) return r.v; }
      return UNDEF;
    } finally { cur = save; }
  }
  return UNK;
}
function bind(n, v, env, assign) {
  const set = (k, x) => assign ? env.set(k, x) : env.def(k, x);
  if (ts.isIdentifier(n)) return set(n.text, v);
  if (ts.isArrayBindingPattern(n) || ts.isObjectBindingPattern(n)) {
    n.elements.forEach((e, i) => {
      if (!e.name) return;
      let x;
      if (ts.isArrayBindingPattern(n)) x = e.dotDotDotToken ? arr(v.t == 'arr' ? v.e.slice(i) : []) : v.t == 'unk' ? UNK : member(v, String(i));
      else x = v.t == 'unk' ? UNK : member(v, (e.propertyName || e.name).text);
      if (isK(x) && x.v === undefined && e.initializer) x = ev(e.initializer, env);
      bind(e.name, x, env, assign);
    });
    return;
  }
  throw new Stop('binding');
}
function assignTo(t, v, env) {
  if (ts.isIdentifier(t)) return env.set(t.text, v);
  if (ts.isParenthesizedExpression(t)) return assignTo(t.expression, v, env);
  if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) {
    const o = ev(t.expression, env);
    let k;
    if (ts.isPropertyAccessExpression(t)) k = t.name.text; else { const kv = ev(t.argumentExpression, env); if (!isK(kv)) { if (o.t == 'obj') o.open = true; return; } k = str(kv); }
    if (o.t == 'obj') { o.p.set(k, v); if (o.isGen) { v.genPos = v.genPos || pos(t); } }
    else if (o.t == 'arr') { if (/^\d+$/.test(k)) o.e[+k] = v; else if (k == 'length') o.e.length = v.v; }
    else if (o.t == 'fn') { o.props = o.props || obj(); o.props.p.set(k, v); }
    return;
  }
  throw new Stop('assignment');
}
function hoist(ss, env) { for (const s of ss) if (ts.isFunctionDeclaration(s) && s.name) env.def(s.name.text, { t: 'fn', node: s, env, file: cur }); }
function block(ss, env) { const e = new Env(env); hoist(ss, e); for (const s of ss) { const r = st(s, e); if (r) return r; } }
function st(s, env) {
  if (--fuel < 0) throw new Stop('does not end');
  switch (s.kind) {
    case K.ExpressionStatement: ev(s.expression, env); return;
    case K.VariableStatement: for (const d of s.declarationList.declarations) bind(d.name, d.initializer ? ev(d.initializer, env) : UNDEF, env); return;
    case K.FunctionDeclaration: case K.EmptyStatement: case K.ClassDeclaration: return;
    case K.ReturnStatement: return new Ret(s.expression ? ev(s.expression, env) : UNDEF);
    case K.IfStatement: if (truth(ev(s.expression, env))) return st(s.thenStatement, env); return s.elseStatement && st(s.elseStatement, env);
    case K.Block: return block(s.statements, env);
    case K.ThrowStatement: throw new Throw();
    case K.BreakStatement: return new Brk();
    case K.ContinueStatement: return new Cont();
    case K.WhileStatement: case K.DoStatement: {
      let first = s.kind == K.DoStatement;
      for (; ;) {
        if (!first && !truth(ev(s.expression, env))) return; first = false;
        const r = st(s.statement, env); if (r instanceof Brk) return; if (r instanceof Ret) return r;
      }
    }
    case K.ForStatement: {
      const e = new Env(env);
      if (s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) for (const d of s.initializer.declarations) bind(d.name, d.initializer ? ev(d.initializer, e) : UNDEF, e); else ev(s.initializer, e); }
      for (; ;) {
        if (s.condition && !truth(ev(s.condition, e))) return;
        const r = st(s.statement, e); if (r instanceof Brk) return; if (r instanceof Ret) return r;
        if (s.incrementor) ev(s.incrementor, e);
      }
    }
    case K.ForOfStatement: case K.ForInStatement: {
      let v = ev(s.expression, env), list;
      if (s.kind == K.ForInStatement) { if (v.t == 'obj' && !v.open) list = [...v.p.keys()].map(c); else if (v.t == 'arr') list = v.e.map((x, i) => c(String(i))); }
      else if (v.t == 'arr') list = v.e.slice();
      if (isK(v) && v.v == null && s.kind == K.ForInStatement) list = [];
      if (!list) throw new Stop('loop over something unknown');
      for (const x of list) {
        const e = new Env(env);
        if (ts.isVariableDeclarationList(s.initializer)) bind(s.initializer.declarations[0].name, x, e); else assignTo(s.initializer, x, e);
        const r = st(s.statement, e); if (r instanceof Brk) return; if (r instanceof Ret) return r;
      }
      return;
    }
    case K.SwitchStatement: {
      const v = ev(s.expression, env); let on = false;
      for (let round = 0; round < 2 && !on; round++)
        for (const cl of s.caseBlock.clauses) {
          if (!on) {
            if (cl.kind == K.DefaultClause) { if (round == 0) continue; on = true; }
            else if (round == 0) { const w = ev(cl.expression, env); on = isK(v) && isK(w) ? v.v === w.v : choose() == 0; }
          }
          if (on) for (const x of cl.statements) { const r = st(x, env); if (r instanceof Brk) return; if (r) return r; }
        }
      return;
    }
    case K.TryStatement: try { const r = st(s.tryBlock, env); if (r) return r; } catch (e) { if (!(e instanceof Throw)) throw e; if (s.catchClause) { const r = st(s.catchClause.block, env); if (r) return r; } }
      return s.finallyBlock && st(s.finallyBlock, env);
  }
  throw new Stop(K[s.kind]);
}
function ev(n, env) {
  if (--fuel < 0) throw new Stop('does not end');
  switch (n.kind) {
    case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return c(n.text);
    case K.NumericLiteral: return c(Number(n.text));
    case K.TrueKeyword: return c(true);
    case K.FalseKeyword: return c(false);
    case K.NullKeyword: return NULL;
    case K.RegularExpressionLiteral: return UNK;
    case K.ThisKeyword: return env.get('this') || UNK;
    case K.Identifier: { if (n.text == 'undefined') return UNDEF; const v = env.get(n.text); return v || UNK; }
    case K.ParenthesizedExpression: case K.AwaitExpression: case K.VoidExpression: return ev(n.expression, env);
    case K.TypeOfExpression: { const v = ev(n.expression, env); return isK(v) ? c(typeof v.v) : ['fn', 'nat'].includes(v.t) ? c('function') : ['obj', 'arr', 'block'].includes(v.t) ? c('object') : ['json', 'stmt'].includes(v.t) ? c('string') : UNK; }
    case K.DeleteExpression: { const t = n.expression, o = ev(t.expression, env), k = ts.isPropertyAccessExpression(t) ? c(t.name.text) : ev(t.argumentExpression, env); if (o.t == 'obj' && isK(k)) o.p.delete(str(k)); return c(true); }
    case K.TemplateExpression: {
      let s = n.head.text;
      for (const x of n.templateSpans) { const v = ev(x.expression, env); if (v.t == 'field' && s == '' && n.templateSpans.length == 1 && x.literal.text == '') return conv(v, 'string'); if (!isK(v)) return { t: 'unk', str: true }; s += v.v + x.literal.text; }
      return c(s);
    }
    case K.ArrayLiteralExpression: {
      const e = []; for (const x of n.elements) { if (ts.isSpreadElement(x)) { const v = ev(x.expression, env); if (v.t != 'arr') throw new Stop('spread'); e.push(...v.e); } else e.push(ev(x, env)); }
      return arr(e, pos(n));
    }
    case K.ObjectLiteralExpression: {
      const o = obj({}, pos(n));
      for (const p of n.properties) {
        if (ts.isSpreadAssignment(p)) { const v = ev(p.expression, env); if (v.t == 'obj') for (const [k, x] of v.p) o.p.set(k, x); else if (!(isK(v) && v.v == null)) o.open = true; continue; }
        let k; if (ts.isComputedPropertyName(p.name)) { const kv = ev(p.name.expression, env); if (!isK(kv)) { o.open = true; continue; } k = str(kv); } else k = p.name.text;
        if (ts.isPropertyAssignment(p)) o.p.set(k, ev(p.initializer, env));
        else if (ts.isShorthandPropertyAssignment(p)) o.p.set(k, env.get(k) || UNK);
        else if (ts.isMethodDeclaration(p)) o.p.set(k, { t: 'fn', node: p, env, self: o, file: cur });
        else o.p.set(k, UNK);
      }
      return o;
    }
    case K.FunctionExpression: case K.ArrowFunction: return { t: 'fn', node: n, env, file: cur, pos: pos(n), self: ts.isFunctionExpression(n) ? undefined : env.get('this') };
    case K.ConditionalExpression: return truth(ev(n.condition, env)) ? ev(n.whenTrue, env) : ev(n.whenFalse, env);
    case K.PropertyAccessExpression: { const o = ev(n.expression, env); if (n.questionDotToken && isK(o) && o.v == null) return UNDEF; return member(o, n.name.text, n); }
    case K.ElementAccessExpression: { const o = ev(n.expression, env), k = ev(n.argumentExpression, env); if (!isK(k)) return UNK; return member(o, str(k), n); }
    case K.NewExpression: {
      const f = ev(n.expression, env), a = (n.arguments || []).map(x => ev(x, env));
      if (f.t == 'nat' && f.isGenerator) return Json;
      if (f.t == 'nat' && f.ctor) return f.f(a);
      return UNK;
    }
    case K.CallExpression: {
      const a = []; for (const x of n.arguments) { if (ts.isSpreadElement(x)) { const v = ev(x.expression, env); if (v.t != 'arr') throw new Stop('spread'); a.push(...v.e); } else a.push(ev(x, env)); }
      let f, self;
      if (ts.isPropertyAccessExpression(n.expression) || ts.isElementAccessExpression(n.expression)) {
        self = ev(n.expression.expression, env);
        if (n.expression.questionDotToken && isK(self) && self.v == null) return UNDEF;
        const k = ts.isPropertyAccessExpression(n.expression) ? c(n.expression.name.text) : ev(n.expression.argumentExpression, env);
        f = isK(k) ? member(self, str(k), n) : UNK;
        if (f.t == 'fn' && f.node.kind != K.ArrowFunction) f = { ...f, self };
      } else f = ev(n.expression, env);
      return call(f, a, n);
    }
    case K.PrefixUnaryExpression: {
      if (n.operator == K.PlusPlusToken || n.operator == K.MinusMinusToken) { const v = ev(n.operand, env); const r = isK(v) ? c(v.v + (n.operator == K.PlusPlusToken ? 1 : -1)) : UNK; assignTo(n.operand, r, env); return r; }
      const v = ev(n.operand, env);
      if (n.operator == K.ExclamationToken) return c(!truth(v));
      if (n.operator == K.PlusToken) return conv(v, 'float');
      return isK(v) ? c(n.operator == K.MinusToken ? -v.v : ~v.v) : UNK;
    }
    case K.PostfixUnaryExpression: { const v = ev(n.operand, env); assignTo(n.operand, isK(v) ? c(v.v + (n.operator == K.PlusPlusToken ? 1 : -1)) : UNK, env); return v; }
    case K.BinaryExpression: return binary(n, env);
  }
  throw new Stop(K[n.kind]);
}
function binary(n, env) {
  const op = n.operatorToken.kind;
  if (op == K.EqualsToken) {
    const v = ev(n.right, env);
    if (ts.isArrayLiteralExpression(n.left) || ts.isObjectLiteralExpression(n.left)) throw new Stop('destructuring');
    assignTo(n.left, v, env); return v;
  }
  if (op == K.PlusEqualsToken) { const a = ev(n.left, env), b = ev(n.right, env), r = isK(a) && isK(b) ? c(a.v + b.v) : UNK; assignTo(n.left, r, env); return r; }
  if (op == K.AmpersandAmpersandToken) { const a = ev(n.left, env); return truth(a) ? ev(n.right, env) : isK(a) ? a : NULL; }
  if (op == K.BarBarToken) { const a = ev(n.left, env); if (a.t == 'unk' && !env) return a; return truth(a) ? a : ev(n.right, env); }
  if (op == K.QuestionQuestionToken) { const a = ev(n.left, env); return isK(a) ? (a.v == null ? ev(n.right, env) : a) : a; }
  if (op == K.CommaToken) { ev(n.left, env); return ev(n.right, env); }
  const a = ev(n.left, env), b = ev(n.right, env);
  const eq = [K.EqualsEqualsToken, K.EqualsEqualsEqualsToken].includes(op), ne = [K.ExclamationEqualsToken, K.ExclamationEqualsEqualsToken].includes(op);
  if (eq || ne) {
    let r;
    if (isK(a) && isK(b)) r = op == K.EqualsEqualsToken || op == K.ExclamationEqualsToken ? a.v == b.v : a.v === b.v;
    else { const [x, k] = isK(a) ? [b, a] : [a, b]; if (isK(k) && k.v == null && x.t != 'unk') r = false; else if (isK(k) && k.v === '' && ['obj', 'arr', 'json', 'fn', 'nat', 'block'].includes(x.t)) r = false; else return { t: 'c', v: choose() == 0 }; }
    return c(eq ? r : !r);
  }
  if (isK(a) && isK(b)) {
    const x = a.v, y = b.v;
    switch (op) {
      case K.PlusToken: return c(x + y); case K.MinusToken: return c(x - y); case K.AsteriskToken: return c(x * y); case K.SlashToken: return c(x / y); case K.PercentToken: return c(x % y);
      case K.LessThanToken: return c(x < y); case K.LessThanEqualsToken: return c(x <= y); case K.GreaterThanToken: return c(x > y); case K.GreaterThanEqualsToken: return c(x >= y);
      case K.BarToken: return c(x | y);
    }
  }
  if (op == K.InKeyword && isK(a) && b.t == 'obj' && !b.open) return c(b.p.has(str(a)));
  if (a.t == 'field' && isK(b)) {
    if (op == K.BarToken && b.v === 0) return conv(a, 'int');
    if (op == K.PlusToken && b.v === '') return conv(a, 'string');
    if ((op == K.AsteriskToken || op == K.SlashToken) && b.v === 1 || op == K.MinusToken && b.v === 0) return conv(a, 'float');
  }
  if (b.t == 'field' && isK(a) && op == K.PlusToken && a.v === '') return conv(b, 'string');
  if ([K.LessThanToken, K.LessThanEqualsToken, K.GreaterThanToken, K.GreaterThanEqualsToken].includes(op)) return c(choose() == 0);
  return UNK;
}

// what the scripts find around them
const stringify = nat(a => isK(a[0]) && a[0].v === undefined ? UNDEF : ({ t: 'json', v: a[0] }));
const parse = nat(a => {
  const v = a[0]; if (!v) return UNK;
  if (v.t == 'json') return v.v;
  if (v.t == 'stmt') return { t: 'stmtobj', name: v.name };
  if (isK(v) && typeof v.v == 'string') try { return fromJS(JSON.parse(v.v)); } catch (e) { throw new Throw(); }
  return { t: 'unkobj' };
});
global.def('JSON', obj({ stringify, parse }));
for (const [k, f] of Object.entries({ parseInt: 'int', parseFloat: 'float', Number: 'float', String: 'string' })) global.def(k, nat(a => conv(a[0] || UNDEF, f)));
global.get('Number').props = obj({ parseInt: global.get('parseInt'), parseFloat: global.get('parseFloat') });
global.def('Math', obj(Object.fromEntries(['round', 'floor', 'ceil', 'trunc'].map(k => [k, nat(a => isK(a[0]) ? c(Math[k](a[0].v)) : conv(a[0], 'int'))]))));
const keysOf = v => { if (v.t == 'arr') return v.e.map((x, i) => String(i)); if (v.t != 'obj' || v.open) throw new Stop('keys'); return [...v.p.keys()]; };
global.def('Object', obj({
  keys: nat(a => arr(keysOf(a[0]).map(c))), values: nat(a => arr(keysOf(a[0]).map(k => member(a[0], k)))),
  entries: nat(a => arr(keysOf(a[0]).map(k => arr([c(k), member(a[0], k)])))),
  assign: nat(a => { for (const x of a.slice(1)) if (x.t == 'obj') for (const [k, v] of x.p) a[0].p.set(k, v); return a[0]; }),
  fromEntries: nat(a => { const o = obj(); for (const e of a[0].e) o.p.set(str(member(e, '0')), member(e, '1')); return o; }),
  freeze: nat(a => a[0]),
}));
global.def('Array', obj({ isArray: nat(a => a[0].t == 'unk' ? UNK : c(a[0].t == 'arr')), from: nat(a => a[0].t == 'arr' ? arr(a[0].e.map((x, i) => a[1] ? call(a[1], [x, c(i)]) : x)) : UNK) }));
for (const k of ['console', 'alert', 'window', 'document']) global.def(k, UNK);
const defined = [];
const genctor = nat(() => Json); genctor.isGenerator = true;
const forBlock = obj(); forBlock.isGen = true; Json.p.set('forBlock', forBlock);
Json.p.set('statementToCode', nat(a => (reads && reads.add(a[1] && isK(a[1]) ? str(a[1]) : '?'), a[1] && isK(a[1])) ? { t: 'stmt', name: str(a[1]) } : UNK));
Json.p.set('blockToCode', nat(a => a[0] && a[0].t == 'inputblock' ? { t: 'stmt', name: a[0].name } : { t: 'stmt', name: '' }));
Json.p.set('workspaceToCode', nat(() => ({ t: 'code' })));
Json.p.set('valueToCode', nat(() => UNK));
const builtin = new Set([...Json.p.keys(), 'scrub_', 'scrubNakedValue', 'init', 'finish', 'PRECEDENCE', 'ORDER_ATOMIC']);
const define = nat((a, node) => { if (a[0] && a[0].t == 'arr') defined.push(...a[0].e); else out.undecided.push('blocks defined in a way that is not understood'); return UNK; });
global.def('Blockly', obj({
  Generator: genctor, CodeGenerator: genctor, defineBlocksWithJsonArray: define,
  common: obj({ defineBlocksWithJsonArray: define, defineBlocks: nat(a => { out.undecided.push('blocks defined in a way that is not understood'); return UNK; }), createBlockDefinitionsFromJsonArray: nat(a => { define.f(a); return UNK; }) }),
  inject: nat(a => { inject(a[1]); return UNK; }), Blocks: obj(), FieldAngle: obj(),
}));
function inject(o) {
  if (!o || o.t != 'obj' || !o.p.has('toolbox')) { out.undecided.push('the toolbox handed to the editor is not understood'); return; }
  out.offered = true; walkTool(o.p.get('toolbox'));
}
function walkTool(v) {
  if (v.t == 'arr') return v.e.forEach(walkTool);
  if (v.t != 'obj') { if (!isK(v)) out.undecided.push('a toolbox entry is not understood'); return; }
  const kind = v.p.get('kind');
  if (kind && isK(kind) && String(kind.v).toLowerCase() == 'block') {
    const t = v.p.get('type'); if (t && isK(t)) out.toolbox.push({ type: t.v, pos: v.pos }); else out.undecided.push('a toolbox block without constant type');
    const f = v.p.get('fields');
    return;
  }
  if (v.p.has('contents')) walkTool(v.p.get('contents'));
}
global.def('fetch', nat((a, node) => {
  const o = a[1] && a[1].t == 'obj' ? a[1].p : new Map();
  const m = o.get('method'), b = o.get('body');
  out.fetches.push({ url: a[0] && isK(a[0]) ? str(a[0]) : null, method: m ? (isK(m) ? m.v : null) : 'GET', body: b ? b.t : '', pos: pos(node) });
  return UNK;
}));
global.def('Headers', UNK);

function run(name, text) {
  const sf = ts.createSourceFile(name, text, ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
  if (sf.parseDiagnostics.length) out.undecided.push(name + ': ' + ts.flattenDiagnosticMessageText(sf.parseDiagnostics[0].messageText, ' ')), out.syntax = (out.syntax || []).concat([{ pos: name + ':' + (sf.getLineAndCharacterOfPosition(sf.parseDiagnostics[0].start).line + 1), msg: ts.flattenDiagnosticMessageText(sf.parseDiagnostics[0].messageText, ' ') }]);
  const save = cur; cur = { sf, name };
  used = 0; choices = []; fuel = 4000000;
  hoist(sf.statements, global);
  for (const s of sf.statements) {
    try { const r = st(s, global); } catch (e) { if (e instanceof Stop) out.undecided.push(pos(s) + ': ' + e.message); else if (!(e instanceof Throw)) throw e; }
  }
  cur = save;
}
function shape(v) {
  switch (v.t) {
    case 'c': return { k: 'const', v: v.v === undefined ? null : v.v, undef: v.v === undefined };
    case 'field': return { k: 'field', name: v.name, conv: v.conv, changed: v.changed || '' };
    case 'stmtobj': return { k: 'stmt', name: v.name };
    case 'stmt': return { k: 'stmtstr', name: v.name };
    case 'json': return { k: 'jsonstr', of: shape(v.v) };
    case 'arr': return { k: 'arr', e: v.e.map(shape) };
    case 'obj': return { k: 'obj', open: !!v.open, pos: v.pos, p: Object.fromEntries([...v.p].filter(([, x]) => !(isK(x) && x.v === undefined)).map(([k, x]) => [k, shape(x)])) };
    case 'stop': return { k: 'stop', why: v.why };
    case 'unkobj': return { k: 'unkobj' };
  }
  return { k: 'unk' };
}

const html = path.join(dir, 'index.html');
const text = fs.readFileSync(html, 'utf8').replace(/<!--[\s\S]*?-->/g, m => m.replace(/[^\n]/g, ' '));
const re = /<script([^>]*)>([\s\S]*?)<\/script>/g; let m;
while ((m = re.exec(text))) {
  const src = /src\s*=\s*["']([^"']*)["']/.exec(m[1]);
  if (!src) { run('web/index.html', text.slice(0, m.index + m[0].indexOf('>') + 1).replace(/[^\n]/g, ' ') + m[2]); continue; }
  const f = path.join(dir, src[1]);
  out.pages.push(src[1]);
  if (/blockly|field-slider/.test(src[1])) continue; // third party
  if (!fs.existsSync(f)) { out.missing = (out.missing || []).concat([src[1]]); continue; }
  run('web/' + src[1], fs.readFileSync(f, 'utf8'));
}
// handlers of the page
const handlers = [...text.matchAll(/\son\w+\s*=\s*"([^"]*)"/g)].map(x => x[1]);
for (const h of handlers) allPaths(() => { run('web/index.html', h); return UNDEF; });
out.refs = [...text.matchAll(/\s(?:src|href)\s*=\s*["']([^"']*)["']/g)].map(x => x[1]);

for (const b of defined) {
  if (b.t != 'obj' || !b.p.get('type') || !isK(b.p.get('type'))) { out.undecided.push('a block definition is not understood'); continue; }
  const r = { type: b.p.get('type').v, pos: b.pos, fields: {}, inputs: {} };
  for (const [k, v] of b.p) {
    if (!/^args\d+$/.test(k)) continue;
    if (v.t != 'arr') { out.undecided.push(r.type + ': ' + k); r.open = true; continue; }
    for (const a of v.e) {
      try {
        const x = toJS(a);
        if (/^input_/.test(x.type)) r.inputs[x.name] = x.type; else if (/^field_/.test(x.type) && x.name) r.fields[x.name] = x;
      } catch (e) { r.open = true; out.undecided.push(r.type + ': a field is not constant'); }
    }
  }
  out.blocks.push(r);
}
for (const tab of [Json, forBlock]) for (const [k, v] of tab.p) {
  if (builtin.has(k) || v.t == 'obj' || isK(v)) continue;
  reads = new Set();
  const res = allPaths(() => { let r = call(v, [{ t: 'block', type: k }, Json]); if (r.t == 'arr') r = r.e[0]; return r; });
  const seen = new Set(), list = [];
  for (const x of res) { const s = shape(x), j = JSON.stringify(s); if (!seen.has(j)) { seen.add(j); list.push(s); } }
  out.gens.push({ reads: [...reads], type: k, pos: v.genPos || v.pos || '', results: list });
}
const scrub = Json.p.get('scrub_');
if (scrub) {
  const CODE = { t: 'stmt', name: '' };
  const res = allPaths(() => call({ ...scrub, self: Json }, [{ t: 'block' }, CODE]));
  const seen = new Set(); out.seq = [];
  for (const x of res) { const s = shape(x), j = JSON.stringify(s); if (!seen.has(j)) { seen.add(j); out.seq.push(s); } }
}
console.log(JSON.stringify(out, null, 1));
