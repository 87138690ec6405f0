// Solidity lexer and recursive-descent parser (the 0.8 language, without function types).
export class SolError extends Error {}
const PUNCT = ['>>>=', '<<=', '>>=', '>>>', '**=', '=>', '->', ':=', '==', '!=', '<=', '>=', '&&', '||', '++', '--', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<', '>>', '**',
  '(', ')', '{', '}', '[', ']', ';', ',', '.', '?', ':', '=', '<', '>', '+', '-', '*', '/', '%', '|', '&', '^', '~', '!'];
const isIdS = c => /[A-Za-z_$]/.test(c), isId = c => /[A-Za-z0-9_$]/.test(c);

export function lex(src, file) {
  const out = []; let i = 0, line = 1; const n = src.length;
  const err = m => { throw new SolError(`${file}:${line}: ${m}`); };
  while (i < n) {
    const c = src[i];
    if (c === '\n') { line++; i++; continue; }
    if (c === ' ' || c === '\t' || c === '\r') { i++; continue; }
    if (c === '/' && src[i + 1] === '/') { while (i < n && src[i] !== '\n') i++; continue; }
    if (c === '/' && src[i + 1] === '*') { i += 2; while (i < n && !(src[i] === '*' && src[i + 1] === '/')) { if (src[i] === '\n') line++; i++; } i += 2; continue; }
    if (isIdS(c)) {
      let j = i; while (j < n && isId(src[j])) j++;
      const w = src.slice(i, j);
      if ((w === 'hex' || w === 'unicode') && (src[j] === '"' || src[j] === "'")) {
        const q = src[j]; let k = j + 1; while (k < n && src[k] !== q) k++;
        const body = src.slice(j + 1, k); i = k + 1;
        out.push({ t: 'str', v: w === 'hex' ? Uint8Array.from(Buffer.from(body.replace(/_/g, ''), 'hex')) : Uint8Array.from(Buffer.from(body, 'utf8')), hex: w === 'hex', line }); continue;
      }
      out.push({ t: 'id', v: w, line }); i = j; continue;
    }
    if (/[0-9]/.test(c) || (c === '.' && /[0-9]/.test(src[i + 1] || ''))) {
      let j = i;
      if (c === '0' && /[xX]/.test(src[i + 1])) { j += 2; while (j < n && /[0-9a-fA-F_]/.test(src[j])) j++; }
      else { while (j < n && /[0-9_.]/.test(src[j])) j++; if (/[eE]/.test(src[j] || '') && /[0-9-]/.test(src[j + 1] || '')) { j += 2; while (j < n && /[0-9_]/.test(src[j])) j++; } }
      out.push({ t: 'num', v: src.slice(i, j).replace(/_/g, ''), line }); i = j; continue;
    }
    if (c === '"' || c === "'") {
      let j = i + 1; const bytes = [];
      while (j < n && src[j] !== c) {
        if (src[j] === '\\') {
          const e = src[j + 1];
          if (e === 'n') bytes.push(10); else if (e === 't') bytes.push(9); else if (e === 'r') bytes.push(13);
          else if (e === 'x') { bytes.push(parseInt(src.slice(j + 2, j + 4), 16)); j += 2; }
          else if (e === 'u') { bytes.push(...Buffer.from(String.fromCharCode(parseInt(src.slice(j + 2, j + 6), 16)))); j += 4; }
          else if (e === '\n') line++; else bytes.push(...Buffer.from(e));
          j += 2;
        } else { bytes.push(...Buffer.from(src[j])); j++; }
      }
      i = j + 1;
      out.push({ t: 'str', v: Uint8Array.from(bytes), line }); continue;
    }
    const p = PUNCT.find(p => src.startsWith(p, i));
    if (!p) err(`unexpected character ${c}`);
    out.push({ t: 'p', v: p, line }); i += p.length;
  }
  out.push({ t: 'eof', v: '<eof>', line });
  return out;
}

const ELEM = /^(u?int(8|16|24|32|40|48|56|64|72|80|88|96|104|112|120|128|136|144|152|160|168|176|184|192|200|208|216|224|232|240|248|256)?|bytes([1-9]|[12][0-9]|3[0-2])?|bool|address|string|byte)$/;
export const isElem = v => ELEM.test(v);
const LOC = new Set(['memory', 'storage', 'calldata']);
const UNITS = { wei: 1n, gwei: 10n ** 9n, ether: 10n ** 18n, seconds: 1n, minutes: 60n, hours: 3600n, days: 86400n, weeks: 604800n };
const ASSIGN = new Set(['=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>=']);
const BIN = [['||'], ['&&'], ['==', '!='], ['<', '>', '<=', '>='], ['|'], ['^'], ['&'], ['<<', '>>'], ['+', '-'], ['*', '/', '%']];

export class Parser {
  constructor(src, file) { this.toks = lex(src, file); this.i = 0; this.file = file; }
  get tk() { return this.toks[this.i]; }
  err(m) { throw new SolError(`${this.file}:${this.tk.line}: ${m} (at '${this.tk.v}')`); }
  is(v) { const t = this.tk; return t.v === v && (t.t === 'p' || t.t === 'id'); }
  peek(k, v) { const t = this.toks[this.i + k]; return t && t.v === v && t.t !== 'str'; }
  eat(v) { if (this.is(v)) { this.i++; return true; } return false; }
  need(v) { if (!this.eat(v)) this.err(`expected '${v}'`); }
  ident() { if (this.tk.t !== 'id') this.err('expected identifier'); return this.toks[this.i++].v; }
  node(type, o) { return { type, line: this.tk.line, file: this.file, ...o }; }

  unit() {
    const items = [];
    while (this.tk.t !== 'eof') {
      const line = this.tk.line;
      if (this.eat('pragma')) { while (!this.eat(';')) this.i++; continue; }
      if (this.is('import')) { items.push(this.importDir()); continue; }
      if (this.is('abstract') || this.is('contract') || this.is('interface') || this.is('library')) { items.push(this.contract()); continue; }
      if (this.is('struct')) { items.push(this.struct()); continue; }
      if (this.is('enum')) { items.push(this.enum_()); continue; }
      if (this.is('function')) { items.push(this.func(null)); continue; }
      if (this.is('using')) { items.push(this.using()); continue; }
      if (this.is('error') && this.toks[this.i + 1].t === 'id') { items.push(this.errorDef()); continue; }
      if (this.is('event')) { items.push(this.event()); continue; }
      if (this.is('type') && this.toks[this.i + 1].t === 'id') { items.push(this.udvt()); continue; }
      const v = this.stateVar(); v.line = line; items.push(v);
    }
    return items;
  }
  importDir() {
    this.need('import');
    const n = this.node('Import', { names: null, star: null, alias: null });
    if (this.tk.t === 'str') { n.path = Buffer.from(this.toks[this.i++].v).toString(); if (this.eat('as')) n.alias = this.ident(); }
    else if (this.eat('*')) { this.need('as'); n.alias = this.ident(); this.need('from'); n.path = Buffer.from(this.toks[this.i++].v).toString(); }
    else {
      this.need('{'); n.names = [];
      while (!this.eat('}')) { const a = this.ident(); let b = a; if (this.eat('as')) b = this.ident(); n.names.push([a, b]); this.eat(','); }
      this.need('from'); n.path = Buffer.from(this.toks[this.i++].v).toString();
    }
    this.need(';'); return n;
  }
  contract() {
    const n = this.node('Contract', { abstract: false, bases: [], parts: [] });
    if (this.eat('abstract')) n.abstract = true;
    n.kind = this.ident(); n.name = this.ident();
    if (this.eat('is')) do { const b = { path: this.path(), args: null, line: this.tk.line }; if (this.is('(')) b.args = this.callArgs().args; n.bases.push(b); } while (this.eat(','));
    this.need('{');
    while (!this.eat('}')) {
      if (this.is('function') || this.is('constructor') || this.is('modifier')) n.parts.push(this.func(n));
      else if ((this.is('receive') || this.is('fallback')) && this.peek(1, '(')) n.parts.push(this.func(n));
      else if (this.is('struct')) n.parts.push(this.struct());
      else if (this.is('enum')) n.parts.push(this.enum_());
      else if (this.is('using')) n.parts.push(this.using());
      else if (this.is('event')) n.parts.push(this.event());
      else if (this.is('error') && this.toks[this.i + 1].t === 'id') n.parts.push(this.errorDef());
      else if (this.is('type') && this.toks[this.i + 1].t === 'id') n.parts.push(this.udvt());
      else n.parts.push(this.stateVar());
    }
    return n;
  }
  path() { const p = [this.ident()]; while (this.is('.')) { this.i++; p.push(this.ident()); } return p; }
  struct() { const n = this.node('Struct'); this.need('struct'); n.name = this.ident(); n.fields = []; this.need('{'); while (!this.eat('}')) { const t = this.typeName(); n.fields.push({ t, name: this.ident() }); this.need(';'); } return n; }
  enum_() { const n = this.node('Enum'); this.need('enum'); n.name = this.ident(); n.values = []; this.need('{'); while (!this.eat('}')) { n.values.push(this.ident()); this.eat(','); } return n; }
  udvt() { const n = this.node('Udvt'); this.need('type'); n.name = this.ident(); this.need('is'); n.base = this.typeName(); this.need(';'); return n; }
  event() { const n = this.node('Event'); this.need('event'); n.name = this.ident(); n.params = this.params(); n.anonymous = this.eat('anonymous'); this.need(';'); return n; }
  errorDef() { const n = this.node('ErrorDef'); this.need('error'); n.name = this.ident(); n.params = this.params(); this.need(';'); return n; }
  using() {
    const n = this.node('Using', { fns: null, lib: null, global: false }); this.need('using');
    if (this.eat('{')) { n.fns = []; while (!this.eat('}')) { const p = this.path(); let op = null; if (this.eat('as')) op = this.toks[this.i++].v; n.fns.push({ path: p, op }); this.eat(','); } }
    else n.lib = this.path();
    this.need('for'); n.t = this.eat('*') ? null : this.typeName();
    if (this.eat('global')) n.global = true;
    this.need(';'); return n;
  }
  params() {
    this.need('('); const ps = [];
    while (!this.eat(')')) {
      const t = this.typeName(); const p = { t, loc: null, name: null, indexed: false, line: this.tk.line };
      for (;;) { if (LOC.has(this.tk.v)) p.loc = this.ident(); else if (this.eat('indexed')) p.indexed = true; else if (this.eat('payable')) continue; else break; }
      if (this.tk.t === 'id') p.name = this.ident();
      ps.push(p); this.eat(',');
    }
    return ps;
  }
  func(owner) {
    const n = this.node('Function', { vis: null, mut: null, virtual: false, override: false, mods: [], params: [], rets: [], body: null, owner });
    const kw = this.ident(); n.kind = kw;
    if (kw === 'function') { n.name = this.ident(); } else if (kw === 'modifier') n.name = this.ident(); else n.name = kw;
    if (kw !== 'modifier' || this.is('(')) n.params = this.params();
    for (;;) {
      const v = this.tk.v;
      if (['public', 'private', 'internal', 'external'].includes(v)) { n.vis = v; this.i++; }
      else if (['pure', 'view', 'payable'].includes(v)) { n.mut = v; this.i++; }
      else if (v === 'virtual') { n.virtual = true; this.i++; }
      else if (v === 'override') { n.override = true; this.i++; if (this.eat('(')) { while (!this.eat(')')) this.i++; } }
      else if (v === 'returns') { this.i++; n.rets = this.params(); }
      else if (this.tk.t === 'id') { const p = this.path(); const m = { path: p, args: null, line: this.tk.line }; if (this.is('(')) m.args = this.callArgs().args; n.mods.push(m); }
      else break;
    }
    if (!this.eat(';')) n.body = this.block();
    return n;
  }
  stateVar() {
    const n = this.node('StateVar', { vis: 'internal', constant: false, immutable: false, init: null });
    n.t = this.typeName();
    for (;;) {
      if (this.is('public') || this.is('private') || this.is('internal')) n.vis = this.ident();
      else if (this.eat('constant')) n.constant = true; else if (this.eat('immutable')) n.immutable = true; else if (this.eat('transient')) this.err('transient storage');
      else if (this.eat('override')) { if (this.eat('(')) { while (!this.eat(')')) this.i++; } } else break;
    }
    n.name = this.ident(); if (this.eat('=')) n.init = this.expr(); this.need(';'); return n;
  }
  typeName() {
    let t; const line = this.tk.line;
    if (this.eat('mapping')) {
      this.need('('); const k = this.typeName(); if (this.tk.t === 'id') this.ident(); this.need('=>'); const v = this.typeName(); if (this.tk.t === 'id') this.ident(); this.need(')');
      t = { k: 'mapping', key: k, val: v };
    } else if (this.is('function')) this.err('function types are not supported');
    else if (this.tk.t === 'id' && isElem(this.tk.v)) { t = { k: 'elem', name: this.ident() }; if (t.name === 'address') this.eat('payable'); }
    else t = { k: 'user', path: this.path() };
    t.line = line;
    while (this.is('[')) { this.i++; let len = null; if (!this.is(']')) len = this.expr(); this.need(']'); t = { k: 'array', base: t, len, line }; }
    return t;
  }
  block() { this.need('{'); const n = this.node('Block', { body: [] }); while (!this.eat('}')) n.body.push(this.stmt()); return n; }
  tryDecl() {
    // attempts `T [loc] name`; returns null (position restored) when the tokens are not a declaration
    const s = this.i;
    try {
      if (this.tk.t !== 'id' || this.tk.v === 'delete' || this.tk.v === 'new') return null;
      const t = this.typeName(); let loc = null; if (LOC.has(this.tk.v)) loc = this.ident();
      if (this.tk.t !== 'id') { this.i = s; return null; }
      const name = this.ident();
      if (!(this.is('=') || this.is(';') || this.is(',') || this.is(')'))) { this.i = s; return null; }
      return { t, loc, name, line: this.tk.line };
    } catch (e) { if (!(e instanceof SolError)) throw e; this.i = s; return null; }
  }
  stmt() {
    const line = this.tk.line; const r = this.stmt_(); r.line = line; return r;
  }
  stmt_() {
    if (this.is('{')) return this.block();
    if (this.eat(';')) return this.node('Block', { body: [] });
    if (this.is('unchecked') && this.peek(1, '{')) { this.i++; const b = this.block(); return this.node('Unchecked', { body: b }); }
    if (this.eat('if')) { this.need('('); const c = this.expr(); this.need(')'); const a = this.stmt(); const b = this.eat('else') ? this.stmt() : null; return this.node('If', { c, a, b }); }
    if (this.eat('for')) {
      this.need('('); let init = null, c = null, post = null;
      if (!this.eat(';')) init = this.simpleStmt(); if (!this.is(';')) c = this.expr(); this.need(';'); if (!this.is(')')) post = this.expr(); this.need(')');
      return this.node('For', { init, c, post, body: this.stmt() });
    }
    if (this.eat('while')) { this.need('('); const c = this.expr(); this.need(')'); return this.node('While', { c, body: this.stmt() }); }
    if (this.eat('do')) { const body = this.stmt(); this.need('while'); this.need('('); const c = this.expr(); this.need(')'); this.need(';'); return this.node('DoWhile', { c, body }); }
    if (this.eat('continue')) { this.need(';'); return this.node('Continue'); }
    if (this.eat('break')) { this.need(';'); return this.node('Break'); }
    if (this.eat('return')) { let e = null; if (!this.is(';')) e = this.expr(); this.need(';'); return this.node('Return', { e }); }
    if (this.eat('emit')) { const e = this.expr(); this.need(';'); return this.node('Emit', { e }); }
    if (this.is('revert') && this.toks[this.i + 1].t === 'id') { this.i++; const e = this.expr(); this.need(';'); return this.node('Revert', { e }); }
    if (this.eat('try')) {
      const e = this.expr(); let rets = []; if (this.eat('returns')) rets = this.params(); const body = this.block(); const catches = [];
      while (this.eat('catch')) { let name = null, params = []; if (this.tk.t === 'id') name = this.ident(); if (this.is('(')) params = this.params(); catches.push({ name, params, body: this.block() }); }
      return this.node('Try', { e, rets, body, catches });
    }
    if (this.is('assembly')) { this.i++; if (this.tk.t === 'str') this.i++; if (this.eat('(')) while (!this.eat(')')) this.i++; return this.node('Asm', { body: this.yulBlock() }); }
    if (this.is('_') && this.peek(1, ';')) { this.i += 2; return this.node('Placeholder'); }
    return this.simpleStmt();
  }
  simpleStmt() {
    if (this.is('(')) {
      // tuple declaration?
      const s = this.i; this.i++; const vars = []; let ok = true, any = false;
      for (;;) {
        if (this.is(',')) { vars.push(null); this.i++; if (this.is(')')) { vars.push(null); this.i++; break; } continue; }
        if (this.is(')')) { this.i++; break; }
        const d = this.tryDecl(); if (!d) { ok = false; break; } any = true; vars.push(d);
        if (this.eat(')')) break; if (!this.eat(',')) { ok = false; break; }
        if (this.is(')')) { vars.push(null); this.i++; break; }
      }
      if (ok && any && this.is('=')) { this.i++; const e = this.expr(); this.need(';'); return this.node('VarTuple', { vars, e }); }
      this.i = s;
    } else {
      const d = this.tryDecl();
      if (d) { let e = null; if (this.eat('=')) e = this.expr(); this.need(';'); return this.node('Var', { d, e }); }
    }
    const e = this.expr(); this.need(';'); return this.node('Expr', { e });
  }
  expr() {
    const line = this.tk.line; const a = this.ternary();
    if (this.tk.t === 'p' && ASSIGN.has(this.tk.v)) { const op = this.toks[this.i++].v; const b = this.expr(); return { type: 'Assign', op, a, b, line, file: this.file }; }
    return a;
  }
  ternary() {
    const line = this.tk.line; const c = this.bin(0);
    if (this.eat('?')) { const a = this.expr(); this.need(':'); const b = this.expr(); return { type: 'Cond', c, a, b, line, file: this.file }; }
    return c;
  }
  bin(l) {
    if (l === BIN.length) return this.pow();
    let a = this.bin(l + 1);
    while (this.tk.t === 'p' && BIN[l].includes(this.tk.v)) { const line = this.tk.line; const op = this.toks[this.i++].v; const b = this.bin(l + 1); a = { type: 'Bin', op, a, b, line, file: this.file }; }
    return a;
  }
  pow() { const line = this.tk.line; const a = this.unary(); if (this.eat('**')) return { type: 'Bin', op: '**', a, b: this.pow(), line, file: this.file }; return a; }
  unary() {
    const line = this.tk.line;
    for (const op of ['!', '~', '-', '++', '--']) if (this.tk.t === 'p' && this.tk.v === op) { this.i++; return { type: 'Un', op, a: this.unary(), line, file: this.file }; }
    if (this.is('delete')) { this.i++; return { type: 'Delete', a: this.unary(), line, file: this.file }; }
    return this.postfix();
  }
  callArgs() {
    this.need('(');
    if (this.is('{')) { this.i++; const names = [], args = []; while (!this.eat('}')) { names.push(this.ident()); this.need(':'); args.push(this.expr()); this.eat(','); } this.need(')'); return { args, names }; }
    const args = []; while (!this.eat(')')) { args.push(this.expr()); this.eat(','); } return { args, names: null };
  }
  postfix() {
    let a = this.primary();
    for (;;) {
      const line = this.tk.line, f = { line, file: this.file };
      if (this.eat('.')) a = { type: 'Member', a, name: this.ident(), ...f };
      else if (this.is('[')) {
        this.i++; let lo = null, hi = null, slice = false;
        if (!this.is(':') && !this.is(']')) lo = this.expr(); if (this.eat(':')) { slice = true; if (!this.is(']')) hi = this.expr(); } this.need(']');
        a = slice ? { type: 'Slice', a, lo, hi, ...f } : { type: 'Index', a, i: lo, ...f };
      } else if (this.is('(')) { const { args, names } = this.callArgs(); a = { type: 'Call', fn: a, args, names, ...f }; }
      else if (this.is('{') && this.toks[this.i + 1].t === 'id' && this.peek(2, ':') && (a.type === 'Member' || a.type === 'New')) {
        this.i++; const opts = {}; while (!this.eat('}')) { const k = this.ident(); this.need(':'); opts[k] = this.expr(); this.eat(','); } a = { type: 'Opts', a, opts, ...f };
      } else if (this.tk.t === 'p' && (this.is('++') || this.is('--'))) a = { type: 'Post', op: this.toks[this.i++].v, a, ...f };
      else return a;
    }
  }
  primary() {
    const t = this.tk, f = { line: t.line, file: this.file };
    if (t.t === 'num') {
      this.i++; let unit = 1n; if (this.tk.t === 'id' && UNITS[this.tk.v]) unit = UNITS[this.ident()];
      if (/^0[xX]/.test(t.v)) return { type: 'Num', v: BigInt(t.v) * unit, hexlen: t.v.length - 2, isAddr: t.v.length === 42, ...f };
      const m = /^(\d*)(?:\.(\d*))?(?:[eE](-?\d+))?$/.exec(t.v); if (!m) this.err('bad number');
      let e = BigInt(m[3] || 0) - BigInt((m[2] || '').length), v = BigInt((m[1] || '') + (m[2] || '') || 0) * unit;
      if (e >= 0n) v *= 10n ** e; else { const d = 10n ** -e; if (v % d) this.err('fractional literal'); v /= d; }
      return { type: 'Num', v, ...f };
    }
    if (t.t === 'str') { this.i++; let v = t.v; while (this.tk.t === 'str') { v = Uint8Array.from([...v, ...this.tk.v]); this.i++; } return { type: 'Str', v, ...f }; }
    if (this.eat('(')) {
      const items = []; let commas = 0;
      while (!this.is(')')) { if (this.is(',')) { this.i++; commas++; if (items.length < commas) items.push(null); continue; } items.push(this.expr()); if (!this.is(')') && !this.is(',')) this.err('tuple'); }
      this.need(')'); while (items.length < commas + 1) items.push(null);
      if (!commas) return items[0] ?? { type: 'Tuple', items: [], ...f };
      return { type: 'Tuple', items, ...f };
    }
    if (this.eat('[')) { const items = []; while (!this.eat(']')) { items.push(this.expr()); this.eat(','); } return { type: 'ArrLit', items, ...f }; }
    if (t.t !== 'id') this.err('expected expression');
    if (t.v === 'new') { this.i++; return { type: 'New', t: this.typeName(), ...f }; }
    if (t.v === 'true' || t.v === 'false') { this.i++; return { type: 'Bool', v: t.v === 'true', ...f }; }
    if (t.v === 'type' && this.peek(1, '(')) { this.i += 2; const ty = this.typeName(); this.need(')'); return { type: 'TypeOf', t: ty, ...f }; }
    if (t.v === 'payable' && this.peek(1, '(')) { this.i++; return { type: 'ElemType', t: { k: 'elem', name: 'address' }, ...f }; }
    if (isElem(t.v)) {
      let ty = { k: 'elem', name: this.ident(), line: t.line }; if (ty.name === 'address') this.eat('payable');
      while (this.is('[') && this.peek(1, ']')) { this.i += 2; ty = { k: 'array', base: ty, len: null, line: t.line }; }
      return { type: 'ElemType', t: ty, ...f };
    }
    if (this.toks[this.i + 1] && this.peek(1, '[') && this.peek(2, ']')) return { type: 'ElemType', t: this.typeName(), ...f }; // User[] inside abi.decode
    this.i++; return { type: 'Id', name: t.v, ...f };
  }
  // ---- Yul
  yulBlock() { this.need('{'); const b = []; while (!this.eat('}')) b.push(this.yulStmt()); return b; }
  yulPath() { let s = this.ident(); while (this.eat('.')) s += '.' + this.ident(); return s; }
  yulStmt() {
    const f = { line: this.tk.line, file: this.file };
    if (this.is('{')) return { y: 'block', body: this.yulBlock(), ...f };
    if (this.eat('let')) { const names = [this.ident()]; while (this.eat(',')) names.push(this.ident()); let e = null; if (this.eat(':=')) e = this.yulExpr(); return { y: 'let', names, e, ...f }; }
    if (this.eat('if')) { const c = this.yulExpr(); return { y: 'if', c, body: this.yulBlock(), ...f }; }
    if (this.eat('for')) { const init = this.yulBlock(), c = this.yulExpr(), post = this.yulBlock(); return { y: 'for', init, c, post, body: this.yulBlock(), ...f }; }
    if (this.eat('switch')) { const e = this.yulExpr(); const cases = []; let def = null; for (;;) { if (this.eat('case')) { const v = this.yulExpr(); cases.push({ v, body: this.yulBlock() }); } else if (this.eat('default')) def = this.yulBlock(); else break; } return { y: 'switch', e, cases, def, ...f }; }
    if (this.eat('break')) return { y: 'break' }; if (this.eat('continue')) return { y: 'continue' }; if (this.eat('leave')) return { y: 'leave' };
    const p = this.yulPath();
    if (this.is('(')) { return { y: 'expr', e: this.yulCall(p, f), ...f }; }
    const names = [p]; while (this.eat(',')) names.push(this.yulPath()); this.need(':='); return { y: 'set', names, e: this.yulExpr(), ...f };
  }
  yulCall(name, f) { this.need('('); const args = []; while (!this.eat(')')) { args.push(this.yulExpr()); this.eat(','); } return { y: 'call', name, args, ...f }; }
  yulExpr() {
    const f = { line: this.tk.line, file: this.file };
    if (this.tk.t === 'num') return { y: 'num', v: BigInt(this.toks[this.i++].v), ...f };
    if (this.tk.t === 'str') { const b = this.toks[this.i++].v; return { y: 'num', v: BigInt('0x' + Buffer.from(b).toString('hex').padEnd(64, '0')), ...f }; }
    if (this.eat('true')) return { y: 'num', v: 1n }; if (this.eat('false')) return { y: 'num', v: 0n };
    const p = this.yulPath(); if (this.is('(')) return this.yulCall(p, f); return { y: 'var', name: p, ...f };
  }
}
