// Compiles Solidity (AST from parse.mjs) to JavaScript functions over the runtime in rt.mjs.
// Every concrete contract is compiled separately: virtual calls are resolved against its linearization.
import fs from 'fs';
import path from 'path';
import { Parser, SolError } from './parse.mjs';
import * as R from './rt.mjs';

const U256 = { k: 'uint', bits: 256 }, U8 = { k: 'uint', bits: 8 }, BOOL = { k: 'bool' }, ADDR = { k: 'address' }, B32 = { k: 'fbytes', n: 32 }, B4 = { k: 'fbytes', n: 4 }, BYTES = { k: 'bytes' }, STRING = { k: 'string' }, U64 = { k: 'uint', bits: 64 };
const isRef = t => ['bytes', 'string', 'array', 'struct', 'mapping'].includes(t.k);
const isInt = t => t.k === 'uint' || t.k === 'int';
const big = v => (v < 0n ? `(${v}n)` : `${v}n`);
// bodies of stand-in library functions that work on raw memory
const NATIVES = {
  'BytesParsing.sliceUnchecked': (c, b, o, n) => { if (n > 0xffffffn || o > 0xffffffn) throw new R.Revert(new Uint8Array(0), 'out of gas'); const r = new Uint8Array(Number(n)); r.set(b.subarray(Math.min(b.length, Number(o)), Math.min(b.length, Number(o + n)))); return [r, o + n]; },
  'BytesParsing._word': (c, b, o, n) => { let v = 0n; for (let i = 0; i < Number(n); i++) v = (v << 8n) | BigInt(b[Number(o) + i] ?? 0); return v; },
};
export class CompileError extends R.Unsupported {}

export function same(a, b) {
  if (a === b) return true; if (a.k !== b.k) return false;
  switch (a.k) {
    case 'uint': case 'int': return a.bits === b.bits; case 'fbytes': return a.n === b.n; case 'struct': case 'enum': case 'udvt': case 'contract': return a.def === b.def;
    case 'array': return a.len === b.len && same(a.base, b.base); case 'mapping': return same(a.key, b.key) && same(a.val, b.val); case 'tuple': return a.ts.length === b.ts.length && a.ts.every((t, i) => same(t, b.ts[i]));
  }
  return true;
}
const tname = t => { switch (t.k) { case 'uint': case 'int': return t.k + t.bits; case 'fbytes': return 'bytes' + t.n; case 'array': return tname(t.base) + '[]'; case 'struct': case 'enum': case 'udvt': case 'contract': return t.def.name; case 'tuple': return '(' + t.ts.map(tname) + ')'; } return t.k; };

// ------------------------------------------------------------------ project: files, scopes
export class Project {
  constructor(remap) { this.remap = remap; this.files = new Map(); this.cons = new Map(); this.cov = []; this.covSites = new Map(); this.nid = 0; this.T = []; this.Tm = new Map(); this.K = []; this.nerr = []; this.ops = []; this.globalUsing = []; }
  resolvePath(p, from) {
    if (p.startsWith('.')) return path.resolve(path.dirname(from), p);
    for (const [a, b] of this.remap) if (p.startsWith(a)) return path.resolve(b, p.slice(a.length));
    throw new CompileError(`${from}: import ${p} cannot be resolved`);
  }
  load(file) {
    file = path.resolve(file);
    let f = this.files.get(file); if (f) return f;
    let src; try { src = fs.readFileSync(file, 'utf8'); } catch { throw new CompileError(`cannot read ${file}`); }
    const items = new Parser(src, file).unit();
    f = { file, items, own: new Map(), using: [], imports: [] }; this.files.set(file, f);
    const add = (n, it) => { if (!f.own.has(n)) f.own.set(n, []); f.own.get(n).push(it); };
    for (const it of items) {
      it.id = ++this.nid; it.fileObj = f;
      if (it.type === 'Import') f.imports.push({ ...it, target: this.load(this.resolvePath(it.path, file)) });
      else if (it.type === 'Using') { it.scopeFile = f; (it.global ? this.globalUsing : f.using).push(it); }
      else { add(it.name, it); if (it.type === 'Contract') for (const p of it.parts) { p.id = ++this.nid; p.fileObj = f; p.contract = it; } }
    }
    return f;
  }
  fileLookup(f, name, seen = new Set()) { // all declarations visible under `name`
    if (seen.has(f)) return []; seen.add(f);
    let out = [...(f.own.get(name) || [])];
    for (const im of f.imports) {
      if (im.alias) { if (im.alias === name) out.push({ type: 'Module', file: im.target }); continue; }
      if (im.names) { for (const [a, b] of im.names) if (b === name) out.push(...this.fileLookup(im.target, a, new Set())); continue; }
      out.push(...this.fileLookup(im.target, name, seen));
    }
    return [...new Set(out)];
  }
  find(name, file) { const f = this.load(file); const d = this.fileLookup(f, name).find(x => x.type === 'Contract'); if (!d) throw new CompileError(`no contract ${name} in ${file}`); return d; }
  ty(t) { let i = this.Tm.get(t); if (i === undefined) { i = this.T.length; this.T.push(t); this.Tm.set(t, i); } return `T[${i}]`; }
  konst(v) { this.K.push(v); return `K[${this.K.length - 1}]`; }
  contract(name, file) { const d = this.find(name, file); return this.con(d); }
  con(d) { let c = this.cons.get(d); if (!c) { c = new Con(this, d); this.cons.set(d, c); } return c; }
  site(file, line) { const k = file + ':' + line; let i = this.covSites.get(k); if (i === undefined) { i = this.cov.length; this.cov.push(0); this.covSites.set(k, i); } return i; }

  // ---- types
  linear(d) {
    if (d._lin) return d._lin;
    const bases = d.bases.map(b => this.baseDef(d, b)); const rev = [...bases].reverse();
    let seqs = [...rev.map(b => [...this.linear(b)]), [...rev]]; const out = [d];
    for (;;) { seqs = seqs.filter(s => s.length); if (!seqs.length) break; const h = seqs.map(s => s[0]).find(x => !seqs.some(s => s.indexOf(x) > 0)); if (!h) throw new CompileError(`linearization of ${d.name}`); out.push(h); for (const s of seqs) if (s[0] === h) s.shift(); }
    return d._lin = out;
  }
  baseDef(d, b) { const r = this.lookupPath({ D: null, file: d.fileObj }, b.path); if (!r || r.type !== 'Contract') throw new CompileError(`${d.file}:${d.line}: base ${b.path.join('.')}`); return r; }
  lookupPath(cx, p) {
    let cur = null;
    if (cx.D) for (const d of this.linear(cx.D)) { const m = d.parts.find(x => ['Struct', 'Enum', 'Udvt'].includes(x.type) && x.name === p[0]); if (m) { cur = m; break; } }
    if (!cur) cur = this.fileLookup(cx.file, p[0]).find(x => ['Struct', 'Enum', 'Udvt', 'Contract', 'Module'].includes(x.type));
    for (const n of p.slice(1)) {
      if (!cur) return null;
      if (cur.type === 'Module') cur = this.fileLookup(cur.file, n).find(x => ['Struct', 'Enum', 'Udvt', 'Contract'].includes(x.type));
      else if (cur.type === 'Contract') { let m = null; for (const d of this.linear(cur)) { m = d.parts.find(x => ['Struct', 'Enum', 'Udvt'].includes(x.type) && x.name === n); if (m) break; } cur = m; } else return null;
    }
    return cur || null;
  }
  declType(d) {
    if (d._t) return d._t;
    if (d.type === 'Contract') return d._t = { k: 'contract', def: d };
    if (d.type === 'Enum') return d._t = { k: 'enum', def: d, n: d.values.length };
    const cx = { D: d.contract || null, file: d.fileObj };
    if (d.type === 'Udvt') return d._t = { k: 'udvt', def: d, base: this.type(d.base, cx) };
    if (d.type === 'Struct') { const t = d._t = { k: 'struct', def: d, name: d.name, fields: [] }; for (const f of d.fields) t.fields.push({ name: f.name, t: this.type(f.t, cx) }); return t; }
    throw new CompileError('type of ' + d.type);
  }
  type(t, cx) {
    switch (t.k) {
      case 'elem': {
        const n = t.name; let m;
        if ((m = /^(u?int)(\d*)$/.exec(n))) return this.intern({ k: m[1], bits: +(m[2] || 256) }); if (n === 'bool') return BOOL; if (n === 'address') return ADDR; if (n === 'string') return STRING; if (n === 'bytes') return BYTES;
        if (n === 'byte') return this.intern({ k: 'fbytes', n: 1 }); return this.intern({ k: 'fbytes', n: +n.slice(5) });
      }
      case 'user': { const d = this.lookupPath(cx, t.path); if (!d || d.type === 'Module') throw new CompileError(`${cx.file.file}:${t.line}: unknown type ${t.path.join('.')}`); return this.declType(d); }
      case 'mapping': return { k: 'mapping', key: this.type(t.key, cx), val: this.type(t.val, cx) };
      case 'array': { let len = null; if (t.len) { len = Number(new Fn(this, null, cx).constInt(t.len)); } return { k: 'array', base: this.type(t.base, cx), len }; }
    }
    throw new CompileError('type ' + t.k);
  }
  intern(t) { const k = t.k + (t.bits || t.n); this._i = this._i || new Map([['uint256', U256], ['uint8', U8], ['uint64', U64], ['fbytes32', B32], ['fbytes4', B4]]); if (!this._i.has(k)) this._i.set(k, t); return this._i.get(k); }
  sig(f) { // parameter types of a function-like declaration
    if (f._p) return f._p; const cx = { D: f.contract || null, file: f.fileObj };
    f._p = f.params.map(p => ({ t: this.type(p.t, cx), loc: p.loc === 'storage' ? 'sto' : 'mem', name: p.name })); f._r = (f.rets || []).map(p => ({ t: this.type(p.t, cx), loc: p.loc === 'storage' ? 'sto' : 'mem', name: p.name })); return f._p;
  }
  canonSig(f) { if (f._cs) return f._cs; return f._cs = f.name + '(' + this.sig(f).map(p => p.loc === 'sto' ? 'storage ' + tname(p.t) : R.canon(p.t)).join(',') + ')'; }
  extSig(f) { return f._es || (f._es = f.name + '(' + this.sig(f).map(p => R.canon(p.t)).join(',') + ')'); }
  selectorOf(f) { return f._sel ?? (f._sel = R.selector(f.type === 'StateVar' ? this.getter(f).sig : this.extSig(f))); }
  getter(v) {
    if (v._g) return v._g; let t = this.type(v.t, { D: v.contract, file: v.fileObj }); const keys = [], full = t;
    for (;;) { if (t.k === 'mapping') { keys.push(t.key); t = t.val; } else if (t.k === 'array') { keys.push(U256); t = t.base; } else break; }
    const rets = t.k === 'struct' ? t.fields.filter(f => !['mapping', 'array'].includes(f.t.k)).map(f => f.t) : [t];
    return v._g = { keys, t, full, rets, sig: v.name + '(' + keys.map(R.canon).join(',') + ')' };
  }
}

// ------------------------------------------------------------------ a concrete contract
export class Con {
  constructor(P, def) {
    this.P = P; this.def = def; this.name = def.name; this.lin = P.linear(def); this.F = Object.create(null); this.pending = []; this.done = new Set(); this.constCache = new Map();
    this.stateVars(); this.table();
  }
  stateVars() {
    this.slots = new Map(); const vars = [];
    for (const d of [...this.lin].reverse()) for (const v of d.parts) if (v.type === 'StateVar' && !v.constant && !v.immutable) vars.push(v);
    const L = R.layout(vars.map(v => ({ t: this.P.type(v.t, { D: v.contract, file: v.fileObj }) }))); vars.forEach((v, i) => this.slots.set(v, L.pos[i]));
  }
  table() {
    this.ext = new Map(); const P = this.P;
    for (const d of this.lin) for (const f of d.parts) {
      try {
        if (f.type === 'Function' && f.kind === 'function' && (f.vis === 'public' || f.vis === 'external') && (f.body || f.contract.kind === 'interface' || true)) {
          const s = P.selectorOf(f); if (!this.ext.has(s) || (!this.ext.get(s).f.body && f.body && this.ext.get(s).f.type !== 'StateVar')) this.ext.set(s, { f, p: P.sig(f).map(x => x.t), r: f._r.map(x => x.t) });
        } else if (f.type === 'StateVar' && f.vis === 'public') { const g = P.getter(f); const s = P.selectorOf(f); if (!this.ext.has(s) || !this.ext.get(s).f.body) this.ext.set(s, { f, p: g.keys, r: g.rets }); }
      } catch (e) { if (!(e instanceof R.Unsupported)) throw e; }
    }
    this.byName = new Map(); for (const e of this.ext.values()) { const l = this.byName.get(e.f.name) || []; l.push(e); this.byName.set(e.f.name, l); }
  }
  resolve(sig) { for (const d of this.lin) { const f = d.parts.find(x => x.type === 'Function' && x.kind === 'function' && this.P.canonSig(x) === sig && x.body); if (f) return f; } return null; }
  fn(def) { // JS accessor for a compiled function
    const k = 'f' + def.id; if (!this.done.has(k)) { this.done.add(k); this.pending.push(def); } return `F.${k}`;
  }
  flush() { while (this.pending.length) { const d = this.pending.pop(); this.F['f' + d.id] = this.compile(d); } }
  compile(def) {
    const nat = def.contract && NATIVES[def.contract.name + '.' + def.name]; if (nat) return nat;
    try { const src = new Fn(this.P, this, { D: def.contract || null, file: def.fileObj }).func(def); return this.make(src, `${this.name}.${def.name}`); }
    catch (e) { if (!(e instanceof R.Unsupported || e instanceof SolError)) throw e; this.P.nerr.push(`${this.name}.${def.name}: ${e.message}`); return () => { throw new R.Unsupported(`${this.name}.${def.name}: ${e.message}`); }; }
  }
  make(src, name) { try { return new Function('R', 'T', 'F', 'K', 'V', 'CON', `return (${src})`)(R, this.P.T, this.F, this.P.K, this.P.cov, this); } catch (e) { throw new Error(`codegen ${name}: ${e.message}\n${src}`); } }
  entry(e) {
    if (e.js) return e.js; const P = this.P; let src;
    const dec = e.p.length ? `R.decTuple(${P.ty({ k: 'tuple', ts: e.p })}.ts,c.data,4)` : '[]';
    if (e.f.type === 'StateVar') {
      const fx = new Fn(P, this, { D: e.f.contract, file: e.f.fileObj }); const g = P.getter(e.f);
      let x = fx.stateVar(e.f); g.keys.forEach((kt, i) => { x = fx.index(x, { k: 'v', t: kt, js: `a[${i}]` }, e.f); });
      let val; if (g.t.k === 'struct') { const js = fx.rv(x); const vs = g.t.fields.filter(f => !['mapping', 'array'].includes(f.t.k)).map(f => `s.${f.name}`); val = `((s)=>[${vs}])(${js})`; } else val = `[${fx.rv(x)}]`;
      src = `(c)=>{const a=R_dec(c);${fx.decl()}return R.encTuple(${P.ty({ k: 'tuple', ts: g.rets })}.ts,${val})}`.replace('R_dec(c)', g.keys.length ? `R.decTuple(${P.ty({ k: 'tuple', ts: g.keys })}.ts,c.data,4)` : '[]');
    } else {
      const f = this.resolve(P.canonSig(e.f)) || e.f; if (!f.body) { e.js = () => { throw new R.Unsupported(`${this.name}.${f.name} has no body`); }; return e.js; }
      const ref = this.fn(f); const n = f._r.length; P.sig(f);
      const pay = f.mut === 'payable' ? '' : `if(c.value)throw new R.Revert(new Uint8Array(0),'not payable');`;
      const stat = f.mut === 'view' || f.mut === 'pure' ? '' : '';
      src = `(c)=>{${pay}${stat}const a=${dec};const r=${ref}(c,...a);return R.encTuple(${P.ty({ k: 'tuple', ts: f._r.map(x => x.t) })}.ts,${n === 1 ? '[r]' : n === 0 ? '[]' : 'r'})}`;
    }
    e.js = this.make(src, e.f.name); this.flush(); return e.js;
  }
  dispatch(c) {
    if (c.data.length >= 4) { const s = R.b2n(c.data.subarray(0, 4)); const e = this.ext.get(s); if (e) return (e.js || this.entry(e))(c); }
    const special = (k) => { for (const d of this.lin) { const f = d.parts.find(x => x.type === 'Function' && x.kind === k); if (f) return f; } return null; };
    let f = c.data.length === 0 ? special('receive') : null; f = f || special('fallback');
    if (!f) throw new R.Revert(new Uint8Array(0), 'no matching function');
    if (c.value && f.mut !== 'payable') throw new R.Revert(new Uint8Array(0), 'not payable');
    this.fn(f); this.flush(); const r = this.F['f' + f.id](c, ...(f.params.length ? [c.data] : [])); return f.rets.length ? r : new Uint8Array(0);
  }
  // deploys a new instance; args are runtime values for the constructor
  deploy(W, from, args, value = 0n, addr = null) {
    if (this.def.abstract || this.def.kind !== 'contract') throw new R.Unsupported(`${this.name} is not deployable`);
    const m = W.mark(); addr = addr ?? W.fresh(); const a = W.account(addr); W.set(a, 'name', this.name); const imm = Object.create(null); const code = { con: this, imm };
    W.depth++;
    try {
      W.move(from, addr, value);
      const c = { W, a, self: addr, code, sender: from, value, data: new Uint8Array(0), stat: false, imm };
      if (!this.ctor) { const fx = new Fn(this.P, this, { D: this.def, file: this.def.fileObj }); this.ctor = this.make(fx.ctor(), this.name + '.constructor'); this.flush(); }
      this.ctor(c, ...args); W.set(a, 'code', code); return addr;
    } catch (e) { W.undo(m); throw e; } finally { W.depth--; }
  }
  entryOf(name, n) { const l = (this.byName.get(name) || []).filter(e => n === undefined || e.p.length === n); if (!l.length) throw new R.Unsupported(`${this.name} has no external function ${name}`); return l[0]; }
}

const COPS = { '+': (a, b) => a + b, '-': (a, b) => a - b, '*': (a, b) => a * b, '/': (a, b) => a / b, '%': (a, b) => a % b, '**': (a, b) => a ** b, '<<': (a, b) => a << b, '>>': (a, b) => a >> b, '&': (a, b) => a & b, '|': (a, b) => a | b, '^': (a, b) => a ^ b };

// ------------------------------------------------------------------ function compiler
class Fn {
  constructor(P, con, cx) { this.P = P; this.con = con; this.cx = cx; this.scopes = [new Map()]; this.tmps = []; this.nt = 0; this.unch = false; this.rets = []; this.closure = false; this.vn = 0; }
  err(n, m) { throw new CompileError(`${n && n.file ? path.basename(n.file) : ''}:${n ? n.line : ''}: ${m}`); }
  tmp() { const t = `$${++this.nt}`; this.tmps.push(t); return t; }
  decl() { return this.tmps.length ? `let ${this.tmps.join(',')};` : ''; }
  constInt(e) { const x = this.expr(e); if (x.k === 'lit') return x.v; this.err(e, 'array length'); }
  bind(name, t, loc) { const js = `v_${name}_${++this.vn}`.replace(/[^A-Za-z0-9_$]/g, '_'); this.scopes[this.scopes.length - 1].set(name, { t, loc, js }); return js; }
  local(name) { for (let i = this.scopes.length - 1; i >= 0; i--) { const v = this.scopes[i].get(name); if (v) return v; } return null; }
  zeroJs(t) { if (isRef(t)) { if (t.k === 'mapping') return '0n'; return `R.zero(${this.P.ty(t)})`; } return t.k === 'bool' || (t.k === 'udvt' && R.under(t).k === 'bool') ? 'false' : '0n'; }
  typ(t) { return this.P.type(t, this.cx); }

  // -------- functions
  func(def) {
    const P = this.P; const ps = P.sig(def); this.def = def;
    const params = ps.map((p, i) => p.name ? this.bind(p.name, p.t, p.loc) : `u_${i}`);
    let pre = ''; this.retVars = [];
    for (const r of def._r) { if (r.name) { const js = this.bind(r.name, r.t, r.loc); this.retVars.push(js); pre += `let ${js}=${r.loc === 'sto' && isRef(r.t) ? '0n' : this.zeroJs(r.t)};`; } else this.retVars.push(null); }
    this.rets = def._r; const named = def._r.length && this.retVars.every(x => x);
    const dflt = named ? this.retPack(this.retVars) : def._r.length ? this.retPack(def._r.map(r => r.loc === 'sto' && isRef(r.t) ? '0n' : this.zeroJs(r.t))) : 'undefined';
    this.dflt = dflt;
    const mods = def.mods.filter(m => def.kind !== 'constructor' || this.isModifier(m));
    if (!mods.length) { const b = this.block(def.body); return `function(c${params.map(p => ',' + p).join('')}){${this.decl()}${pre}${b}${def._r.length ? `return ${dflt};` : ''}}`; }
    this.closure = true;
    let body = this.block(def.body); body = `const $b=()=>{${body}${def._r.length ? `$r=${dflt};` : ''}};`; this.closure = false;
    let code = '', next = '$b';
    for (let i = mods.length - 1; i >= 0; i--) { const s = this.modifier(mods[i], next, i); code += s; next = `$m${i}`; }
    return `function(c${params.map(p => ',' + p).join('')}){${this.decl()}${pre}let $r=${dflt};${body}${code}${next}();return $r;}`;
  }
  retPack(vs) { return vs.length === 1 ? vs[0] : `[${vs.join(',')}]`; }
  isModifier(m) { return !!this.findModifier(m); }
  findModifier(m) {
    const name = m.path[m.path.length - 1]; const C = this.con.lin, D = this.cx.D;
    if (m.path.length > 1) { const b = this.P.lookupPath(this.cx, m.path.slice(0, -1)); if (b && b.type === 'Contract') { const f = b.parts.find(x => x.type === 'Function' && x.kind === 'modifier' && x.name === name); if (f) return f; } }
    if (!D) return null; if (D.kind === 'library') return D.parts.find(x => x.type === 'Function' && x.kind === 'modifier' && x.name === name) || null;
    for (const d of C) { const f = d.parts.find(x => x.type === 'Function' && x.kind === 'modifier' && x.name === name && x.body); if (f) return f; } return null;
  }
  modifier(m, next, i) {
    const def = this.findModifier(m); if (!def) this.err(this.def, `modifier ${m.path.join('.')}`);
    const ps = this.P.sig(def); const args = (m.args || []).map((a, k) => this.conv(this.expr(a), ps[k].t, ps[k].loc, this.def));
    const sub = new Fn(this.P, this.con, { D: def.contract, file: def.fileObj }); sub.def = def; sub.next = next; sub.vn = 1000 * (i + 1); sub.nt = 1000 * (i + 1);
    const names = ps.map(p => sub.bind(p.name || 'u', p.t, p.loc)); const body = sub.block(def.body);
    return `const $m${i}=()=>{${sub.decl()}${names.map((n, k) => `let ${n}=${args[k]};`).join('')}${body}};`;
  }
  ctor() {
    const C = this.con, P = this.P; const order = [...C.lin].reverse(); const ctors = new Map(); for (const d of C.lin) ctors.set(d, d.parts.find(x => x.type === 'Function' && x.kind === 'constructor') || null);
    // argument expressions for each base, evaluated in the scope of the constructor that names it
    const out = []; const main = ctors.get(C.def); const mainN = main ? P.sig(main).length : 0; const names = new Map();
    names.set(C.def, Array.from({ length: mainN }, (_, i) => `p${i}`)); let code = ''; let n = 0;
    for (const d of C.lin) {
      const ct = ctors.get(d); const my = names.get(d) || []; const fx = new Fn(P, C, { D: d, file: d.fileObj }); fx.def = ct || d; fx.nt = 100000 + 1000 * out.length; fx.vn = 100000 + 1000 * out.length; let pre = '';
      if (ct) P.sig(ct).forEach((p, i) => { if (p.name) { const js = fx.bind(p.name, p.t, p.loc); pre += `let ${js}=${my[i] ?? 'undefined'};`; } });
      const give = (base, args) => { const bc = ctors.get(base); if (!bc) return; const ps = P.sig(bc); const js = args.map((a, i) => { const v = `q${++n}`; pre += `const ${v}=${fx.conv(fx.expr(a), ps[i].t, ps[i].loc, d)};`; return v; }); names.set(base, js); };
      for (const b of d.bases) if (b.args) give(P.baseDef(d, b), b.args);
      if (ct) for (const m of ct.mods) if (!fx.isModifier(m)) { const b = P.lookupPath({ D: null, file: d.fileObj }, m.path); if (!b || b.type !== 'Contract') this.err(ct, `constructor modifier ${m.path.join('.')}`); give(b, m.args || []); }
      out.push({ d, ct, fx, pre });
    }
    // arguments first (derived to base), then bodies (base to derived)
    let args = '', bodies = '';
    for (const o of out) args += o.pre;
    const tm = [];
    for (const d of order) {
      const o = out.find(x => x.d === d); const fx = o.fx; let b = '';
      for (const v of d.parts) if (v.type === 'StateVar' && !v.constant && v.init) { const lv = fx.stateVar(v, true); b += fx.assignTo(lv, fx.conv(fx.expr(v.init), lv.t, 'mem', v)) + ';'; }
      if (o.ct) {
        const mods = o.ct.mods.filter(m => fx.isModifier(m)); const s = `(()=>{${fx.block(o.ct.body)}})();`;
        if (mods.length) { let cc = `const $b=()=>{${s}};`, next = '$b'; for (let i = mods.length - 1; i >= 0; i--) { cc += fx.modifier(mods[i], next, i); next = `$m${i}`; } b += `{${cc}${next}();}`; } else b += s;
      }
      bodies += b;
    }
    for (const o of out) tm.push(...o.fx.tmps);
    return `function(c${Array.from({ length: mainN }, (_, i) => `,p${i}`).join('')}){${tm.length ? `let ${tm.join(',')};` : ''}${args}${bodies}}`;
  }

  // -------- statements
  block(b) { this.scopes.push(new Map()); let s = ''; for (const x of b.body) s += this.stmt(x); this.scopes.pop(); return `{${s}}`; }
  stmt(s) {
    const v = s.type === 'Block' || s.type === 'Unchecked' ? '' : `V[${this.P.site(s.file, s.line)}]++;`;
    return v + this.stmt_(s);
  }
  stmt_(s) {
    switch (s.type) {
      case 'Block': return this.block(s);
      case 'Unchecked': { const o = this.unch; this.unch = true; const r = this.block(s.body); this.unch = o; return r; }
      case 'If': return `if(${this.bool(s.c)}){${this.nested(s.a)}}` + (s.b ? `else{${this.nested(s.b)}}` : '');
      case 'While': return `while(${this.bool(s.c)}){c.W.step();${this.nested(s.body)}}`;
      case 'DoWhile': return `do{c.W.step();${this.nested(s.body)}}while(${this.bool(s.c)});`;
      case 'For': {
        this.scopes.push(new Map()); const init = s.init ? this.stmt_(s.init) : ''; const c = s.c ? this.bool(s.c) : 'true'; const post = s.post ? this.expr(s.post).js : ''; const body = this.nested(s.body); this.scopes.pop();
        return `{${init}for(;${c};${post}){c.W.step();${body}}}`;
      }
      case 'Continue': return 'continue;'; case 'Break': return 'break;';
      case 'Placeholder': return `${this.next}();`;
      case 'Return': {
        let v; const set = x => this.closure ? `{$r=${x};return;}` : `return ${x};`;
        if (!s.e) v = this.rets.length ? this.dflt : null;
        else if (this.rets.length === 1) v = this.conv(this.expr(s.e), this.rets[0].t, this.rets[0].loc, s);
        else {
          const x = this.expr(s.e);
          if (x.k === 'tuple') v = `[${x.items.map((it, i) => this.conv(it, this.rets[i].t, this.rets[i].loc, s)).join(',')}]`;
          else if (x.t && x.t.k === 'tuple') { const t = this.tmp(); v = `(${t}=${x.js},[${this.rets.map((r, i) => this.conv({ k: 'v', t: x.t.ts[i], loc: x.t.locs[i], js: `${t}[${i}]` }, r.t, r.loc, s)).join(',')}])`; }
          else if (!this.rets.length) return `${x.js};` + (this.closure ? 'return;' : 'return;');
          else this.err(s, 'return');
        }
        return v === null ? 'return;' : set(v);
      }
      case 'Var': {
        const t = this.typ(s.d.t), loc = s.d.loc === 'storage' ? 'sto' : 'mem';
        let init = s.e ? this.conv(this.expr(s.e), t, loc, s) : (loc === 'sto' && isRef(t) ? '0n' : this.zeroJs(t)); const js = this.bind(s.d.name, t, loc); return `let ${js}=${init};`;
      }
      case 'VarTuple': {
        const x = this.expr(s.e); const decl = (d, src) => { const t = this.typ(d.t), loc = d.loc === 'storage' ? 'sto' : 'mem'; const v = this.conv(src, t, loc, s); return [d, t, loc, v]; };
        let pre = '', ds;
        if (x.k === 'tuple') ds = s.vars.map((d, i) => d && decl(d, x.items[i]));
        else if (x.t && x.t.k === 'tuple') { const t = this.tmp(); pre = `${t}=${x.js};`; ds = s.vars.map((d, i) => d && decl(d, { k: 'v', t: x.t.ts[i], loc: x.t.locs[i], js: `${t}[${i}]` })); }
        else this.err(s, 'tuple declaration');
        return pre + ds.filter(Boolean).map(([d, t, loc, v]) => `let ${this.bind(d.name, t, loc)}=${v};`).join('');
      }
      case 'Expr': { const x = this.expr(s.e); if (x.js === undefined) { if (x.k === 'tuple') return x.items.filter(Boolean).map(i => i.js + ';').join(''); return ''; } return x.js + ';'; }
      case 'Emit': return this.emit(s);
      case 'Revert': { const x = s.e; if (x.type !== 'Call') this.err(s, 'revert'); return this.revertWith(x, s) + ';'; }
      case 'Try': return this.tryStmt(s);
      case 'Asm': return this.asm(s);
    }
    this.err(s, 'statement ' + s.type);
  }
  nested(s) { this.scopes.push(new Map()); const r = this.stmt(s); this.scopes.pop(); return r; }
  bool(e) { return this.conv(this.expr(e), BOOL, 'mem', e); }
  pickDecl(cands, args, names, n) {
    if (names) { for (const d of cands) { const ps = this.P.sig(d); if (ps.length === names.length && ps.every(p => names.includes(p.name))) return { d, args: ps.map(p => args[names.indexOf(p.name)]) }; } this.err(n, 'named arguments'); }
    let best = null;
    for (const d of cands) { const ps = this.P.sig(d); if (ps.length !== args.length) continue; let score = 0, ok = true; for (let i = 0; i < ps.length; i++) { const r = this.rank(args[i], ps[i].t, ps[i].loc); if (r === null) { ok = false; break; } score += r; } if (ok && (!best || score < best.score)) best = { d, args, score }; }
    if (!best) this.err(n, `no overload of ${cands[0] && cands[0].name} for (${args.map(a => a.t ? tname(a.t) : a.k)})`); return best;
  }
  emit(s) {
    const call = s.e; const f = this.expr(call.fn); if (f.k !== 'event') this.err(s, 'emit'); const args = call.args.map(a => this.expr(a));
    const { d, args: as } = this.pickDecl(f.defs, args, call.names, s); const ps = this.P.sig(d); const es = this.P.extSig(d);
    return `if(c.stat)throw new R.Revert(new Uint8Array(0),'event in static call');c.W.log({a:c.self,n:${JSON.stringify(d.name)},s:${JSON.stringify(es)},x:${JSON.stringify(d.params.map(p => p.indexed ? 1 : 0))},t:${this.P.ty({ k: 'tuple', ts: ps.map(p => p.t) })}.ts,v:[${as.map((a, i) => this.conv(a, ps[i].t, ps[i].loc, s)).join(',')}]});`;
  }
  revertWith(call, s) {
    const f = this.expr(call.fn); if (f.k !== 'err') this.err(s, 'revert with a non-error'); const args = call.args.map(a => this.expr(a)); const { d, args: as } = this.pickDecl(f.defs, args, call.names, s); const ps = this.P.sig(d);
    return `(()=>{throw new R.Revert(R.cat(R.n2b(${big(this.P.selectorOf(d))},4),R.encTuple(${this.P.ty({ k: 'tuple', ts: ps.map(p => p.t) })}.ts,[${as.map((a, i) => this.conv(a, ps[i].t, ps[i].loc, s)).join(',')}])),${JSON.stringify(d.name)})})()`;
  }
  tryStmt(s) {
    const x = this.expr(s.e, { tryCall: true }); const ts = x.t ? (x.t.k === 'tuple' ? x.t.ts : [x.t]) : []; const r = `$t${++this.vn}`, e = `$e${this.vn}`;
    this.scopes.push(new Map()); const rp = s.rets.map((p, i) => { if (!p.name) return ''; const js = this.bind(p.name, this.typ(p.t), 'mem'); return `let ${js}=${ts.length === 1 ? r : `${r}[${i}]`};`; }).join(''); const body = this.block(s.body); this.scopes.pop();
    let cat = '';
    for (const k of s.catches) {
      this.scopes.push(new Map()); let cond, bind = '';
      if (k.name === 'Error') { cond = `${e}.data.length>=68&&R.b2n(${e}.data.subarray(0,4))===0x08c379a0n`; if (k.params[0] && k.params[0].name) bind = `let ${this.bind(k.params[0].name, STRING, 'mem')}=R.decTuple([{k:'string'}],${e}.data,4)[0];`; }
      else if (k.name === 'Panic') { cond = `${e}.data.length>=36&&R.b2n(${e}.data.subarray(0,4))===0x4e487b71n`; if (k.params[0] && k.params[0].name) bind = `let ${this.bind(k.params[0].name, U256, 'mem')}=R.b2n(${e}.data.subarray(4,36));`; }
      else { cond = 'true'; if (k.params[0] && k.params[0].name) bind = `let ${this.bind(k.params[0].name, BYTES, 'mem')}=${e}.data;`; }
      cat += `if(${cond}){${bind}${this.block(k.body)}}else `; this.scopes.pop();
    }
    return `{let ${r},${e}=null;try{${r}=${x.js};}catch($x){if(!($x instanceof R.Revert))throw $x;${e}=$x;}if(${e}){${cat}throw ${e};}else{${rp}${body}}}`;
  }
  // -------- assembly (no memory access)
  asm(s) { this.scopes.push(new Map()); const r = this.yblock(s.body, s); this.scopes.pop(); return r; }
  yblock(b, s) { this.scopes.push(new Map()); let r = ''; for (const x of b) r += this.ystmt(x, s); this.scopes.pop(); return `{${r}}`; }
  yvar(name, s) {
    const m = /^(.*)\.(slot|offset|length)$/.exec(name);
    if (m) { const v = this.local(m[1]); if (v && v.loc === 'sto' && m[2] === 'slot') return { get: v.js, set: x => `${v.js}=${x}` }; const sv = this.findState(m[1]); if (sv && m[2] === 'slot') return { get: big(BigInt(this.con.slots.get(sv).slot)) }; this.err(s, 'assembly ' + name); }
    const v = this.local(name);
    if (v) { if (v.yul) return { get: v.js, set: x => `${v.js}=${x}` }; const u = R.under(v.t); if (u.k === 'bool') return { get: `(${v.js}?1n:0n)`, set: x => `${v.js}=(${x})!==0n` }; if (u.k === 'uint' || u.k === 'address' || u.k === 'contract' || u.k === 'enum') return { get: v.js, set: x => `${v.js}=(${x})&R.MASK[${u.bits || 160}]` }; if (u.k === 'fbytes') { const sh = big(BigInt(8 * (32 - u.n))); return { get: `(${v.js}<<${sh})`, set: x => `${v.js}=(${x})>>${sh}` }; } this.err(s, 'assembly variable ' + name); }
    const sv = this.findState(name); if (sv && sv.constant) { const x = this.stateVar(sv); const u = R.under(x.t); return { get: u.k === 'fbytes' ? `(${x.js}<<${8 * (32 - u.n)}n)` : x.js }; }
    this.err(s, 'assembly variable ' + name);
  }
  ystmt(x, s) {
    switch (x.y) {
      case 'block': return this.yblock(x.body, s);
      case 'let': { const e = x.e ? this.yexpr(x.e, s) : '0n'; if (x.names.length !== 1) this.err(s, 'yul multi let'); const js = this.bind(x.names[0], U256, 'mem'); this.scopes[this.scopes.length - 1].get(x.names[0]).yul = true; return `let ${js}=${e};`; }
      case 'set': { if (x.names.length !== 1) this.err(s, 'yul multi set'); return this.yvar(x.names[0], s).set(this.yexpr(x.e, s)) + ';'; }
      case 'if': return `if((${this.yexpr(x.c, s)})!==0n)${this.yblock(x.body, s)}`;
      case 'for': { this.scopes.push(new Map()); const i = x.init.map(q => this.ystmt(q, s)).join(''); const c = this.yexpr(x.c, s), b = this.yblock(x.body, s), p = x.post.map(q => this.ystmt(q, s)).join(''); this.scopes.pop(); if (/continue;/.test(b)) this.err(s, 'yul continue'); return `{${i}while((${c})!==0n){c.W.step();${b}${p}}}`; }
      case 'switch': { const t = this.tmp(); return `${t}=${this.yexpr(x.e, s)};` + x.cases.map(k => `if(${t}===${this.yexpr(k.v, s)})${this.yblock(k.body, s)}`).join('else ') + (x.def ? (x.cases.length ? 'else ' : '') + this.yblock(x.def, s) : ''); }
      case 'break': return 'break;'; case 'expr': return this.yexpr(x.e, s) + ';';
    }
    this.err(s, 'yul ' + x.y);
  }
  yexpr(x, s) {
    if (x.y === 'num') return big(x.v); if (x.y === 'var') return this.yvar(x.name, s).get; const a = x.args.map(q => this.yexpr(q, s)); const B = q => `(${q}?1n:0n)`, W = q => `((${q})&R.M256)`;
    switch (x.name) {
      case 'add': return W(`${a[0]}+${a[1]}`); case 'sub': return W(`${a[0]}-${a[1]}`); case 'mul': return W(`${a[0]}*${a[1]}`); case 'div': return `((y,z)=>z===0n?0n:y/z)(${a})`; case 'mod': return `((y,z)=>z===0n?0n:y%z)(${a})`;
      case 'and': return `(${a[0]}&${a[1]})`; case 'or': return `(${a[0]}|${a[1]})`; case 'xor': return `(${a[0]}^${a[1]})`; case 'not': return `(R.M256^${a[0]})`; case 'shl': return `R.shl(${a[1]},${a[0]},256,false)`; case 'shr': return `R.shr(${a[1]},${a[0]},256)`;
      case 'eq': return B(`${a[0]}===${a[1]}`); case 'lt': return B(`${a[0]}<${a[1]}`); case 'gt': return B(`${a[0]}>${a[1]}`); case 'iszero': return B(`${a[0]}===0n`); case 'sload': return `R.rawGet(c,${a[0]})`; case 'sstore': return `R.rawPut(c,${a[0]},${a[1]})`;
      case 'caller': return 'c.sender'; case 'callvalue': return 'c.value'; case 'address': return 'c.self'; case 'timestamp': return 'c.W.time'; case 'chainid': return 'c.W.chainid'; case 'gas': return '30000000n';
    }
    this.err(s, 'assembly instruction ' + x.name);
  }

  // -------- expressions
  rank(x, t, loc) {
    if (!x) return null;
    if (x.k === 'lit') { if (t.k === 'uint') return x.v >= 0n && x.v <= R.MASK[t.bits] ? 1 + (256 - t.bits) / 1000 : null; if (t.k === 'int') { const h = 1n << BigInt(t.bits - 1); return x.v < h && x.v >= -h ? 2 : null; } if (t.k === 'fbytes') return x.v === 0n && !x.dec || (x.hexlen === t.n * 2) ? 1 : null; if (t.k === 'address') return x.isAddr ? 1 : null; return null; }
    if (x.k === 'str') { if (t.k === 'string' || t.k === 'bytes') return t.k === 'string' ? 0 : 1; if (t.k === 'fbytes') return x.v.length <= t.n ? 1 : null; return null; }
    if (x.k === 'arrlit') { return t.k === 'array' ? 1 : null; }
    if (x.k === 'tuple' || x.k !== 'v') return null;
    const a = x.t; if (isRef(a) && loc === 'sto' && x.loc !== 'sto') return null;
    if (same(a, t)) return isRef(a) && x.loc === 'sto' && loc !== 'sto' ? 0.5 : 0;
    if (a.k === 'uint' && t.k === 'uint') return a.bits <= t.bits ? 1 : null; if (a.k === 'int' && t.k === 'int') return a.bits <= t.bits ? 1 : null; if (a.k === 'uint' && t.k === 'int') return a.bits < t.bits ? 2 : null;
    if (a.k === 'fbytes' && t.k === 'fbytes') return a.n <= t.n ? 1 : null;
    if (a.k === 'contract' && t.k === 'contract') return this.P.linear(a.def).includes(t.def) ? 1 : null;
    if (a.k === 'contract' && t.k === 'address') return null;
    return null;
  }
  rv(x) { // JS value of an expression in its own type (storage references are loaded)
    if (x.k === 'v') { if (x.loc === 'sto' && isRef(x.t)) { if (x.t.k === 'mapping') return x.js; return `R.sload(c,${this.P.ty(x.t)},${x.js},0)`; } return x.js; }
    if (x.k === 'lit') return big(x.v); if (x.k === 'str') return `${this.P.konst(x.v)}.slice()`; if (x.k === 'arrlit') return `[${x.items.map(i => this.rv(i))}]`; throw new CompileError('value of ' + x.k);
  }
  conv(x, t, loc, n) {
    if (!x) this.err(n, 'missing expression');
    if (x.k === 'arrlit') { if (t.k !== 'array') this.err(n, 'array literal'); return `[${x.items.map(i => this.conv(i, t.base, 'mem', n)).join(',')}]`; }
    const r = this.rank(x, t, loc); if (r === null) this.err(n, `cannot convert ${x.t ? tname(x.t) : x.k} to ${tname(t)}${loc === 'sto' ? ' storage' : ''}`);
    if (x.k === 'lit') return big(x.v);
    if (x.k === 'str') { if (t.k === 'fbytes') { const b = new Uint8Array(t.n); b.set(x.v); return big(R.b2n(b)); } return `${this.P.konst(x.v)}.slice()`; }
    if (isRef(t)) { if (loc === 'sto') return x.js; return this.rv(x); }
    if (x.t.k === 'fbytes' && t.k === 'fbytes' && x.t.n < t.n) return `(${x.js}<<${8 * (t.n - x.t.n)}n)`;
    return x.js;
  }
  val(t, js, loc = 'mem') { return { k: 'v', t, js, loc }; }
  mobile(x, n) { // literal -> smallest type
    if (x.k !== 'lit') return x; let b = 8; if (x.v >= 0n) { while (x.v > R.MASK[b]) b += 8; return this.val(this.P.intern({ k: 'uint', bits: b }), big(x.v)); } while (x.v < -(1n << BigInt(b - 1))) b += 8; return this.val(this.P.intern({ k: 'int', bits: b }), big(x.v));
  }
  lvLocal(v) { return { k: 'v', t: v.t, loc: v.loc, js: v.js, lv: { kind: 'local', js: v.js } }; }
  findState(name) { const D = this.cx.D; if (!D) { return null; } for (const d of D.kind === 'library' ? [D] : this.P.linear(D)) { const v = d.parts.find(x => x.type === 'StateVar' && x.name === name && (x.vis !== 'private' || d === D)); if (v) return v; } return null; }
  stateVar(v, init) {
    const t = this.P.type(v.t, { D: v.contract || null, file: v.fileObj });
    if (v.constant) {
      const key = 'k' + v.id; const F = this.con ? this.con.F : null; const fx = new Fn(this.P, this.con, { D: v.contract || null, file: v.fileObj });
      if (!v._lit) { const x = fx.expr(v.init); v._lit = x; }
      if (v._lit.k === 'lit' && isInt(t)) return { k: 'v', t, js: big(v._lit.v), loc: 'mem' };
      if (F && !F[key]) { const js = fx.conv(fx.expr(v.init), t, 'mem', v); let cache; const f = this.con.make(`(c)=>{${fx.decl()}return ${js}}`, v.name); const pure = !/c\.(?!W\b)/.test(js); F[key] = c => { if (cache === undefined) { this.con.flush(); cache = f(c); } return isRef(t) ? R.copy(t, cache) : cache; }; }
      return { k: 'v', t, js: `F.${key}(c)`, loc: 'mem' };
    }
    if (v.immutable) { const js = `c.imm.i${v.id}`; const rd = init ? js : `(${js}??${this.zeroJs(t)})`; return { k: 'v', t, js: rd, loc: 'mem', lv: { kind: 'local', js } }; }
    const p = this.con.slots.get(v); if (!p) this.err(v, 'state variable outside its contract'); return this.sto(t, big(BigInt(p.slot)), String(p.off));
  }
  sto(t, slot, off) { if (isRef(t)) return { k: 'v', t, loc: 'sto', js: slot, lv: { kind: 'sto', slot, off: '0' } }; return { k: 'v', t, loc: 'mem', js: `R.sload(c,${this.P.ty(t)},${slot},${off})`, lv: { kind: 'sto', slot, off } }; }
  index(x, i, n) {
    if (x.k === 'type') this.err(n, 'type index');
    const t = x.t;
    if (t.k === 'mapping') { const k = this.conv(i, t.key, 'mem', n); return this.sto(t.val, `R.mapSlot(${this.P.ty(t.key)},${k},${x.js})`, '0'); }
    const ix = this.conv(i, U256, 'mem', n);
    if (t.k === 'array') {
      if (x.loc === 'sto') { const p = this.tmp(); const pj = `(${p}=R.selem(c,${this.P.ty(t)},${x.js},${ix}))`; if (isRef(t.base)) return this.sto(t.base, `${pj}[0]`, '0'); return { k: 'v', t: t.base, loc: 'mem', js: `R.sload(c,${this.P.ty(t.base)},...R.selem(c,${this.P.ty(t)},${x.js},${ix}))`, lv: { kind: 'stopair', pair: `R.selem(c,${this.P.ty(t)},${x.js},${ix})` } }; }
      return { k: 'v', t: t.base, loc: 'mem', js: `R.idx(${x.js},${ix})`, lv: { kind: 'idx', a: x.js, i: ix } };
    }
    const B1 = this.P.intern({ k: 'fbytes', n: 1 });
    if (t.k === 'bytes') return { k: 'v', t: B1, loc: 'mem', js: `R.bidx(${this.rv(x)},${ix})`, lv: x.loc === 'sto' ? null : { kind: 'bidx', a: x.js, i: ix } };
    if (t.k === 'fbytes') return this.val(B1, `R.fbidx(${x.js},${t.n},${ix})`);
    this.err(n, 'index of ' + tname(t));
  }
  // writes JS value `v` (already converted) to an lvalue; yields the value
  assignTo(x, v) {
    const l = x.lv; if (!l) throw new CompileError('not an lvalue');
    switch (l.kind) {
      case 'local': return `(${l.js}=${v})`;
      case 'field': return `(${l.o}.${l.f}=${v})`;
      case 'idx': return `R.idxSet(${l.a},${l.i},${v})`; case 'bidx': return `R.bidxSet(${l.a},${l.i},${v})`;
      case 'sto': { const t = this.tmp(); return `(${t}=${v},R.sstore(c,${this.P.ty(x.t)},${l.slot},${l.off},${t}),${t})`; }
      case 'stopair': { const t = this.tmp(); return `(${t}=${v},R.sstore(c,${this.P.ty(x.t)},...${l.pair},${t}),${t})`; }
    }
    throw new CompileError('assign ' + l.kind);
  }
  assign(x, y, n) {
    if (x.k === 'tuple') {
      const t = this.tmp(); let out;
      if (y.k === 'tuple') { const ts = y.items.map(() => this.tmp()); out = y.items.map((it, i) => x.items[i] ? `${ts[i]}=${this.conv(it, x.items[i].t, x.items[i].loc, n)}` : (it.js ? it.js : '0')); x.items.forEach((it, i) => { if (it) out.push(this.assign1(it, ts[i])); }); }
      else { out = [`${t}=${y.js}`]; const ts = y.t.ts; x.items.forEach((it, i) => { if (it) out.push(this.assign(it, { k: 'v', t: ts[i], loc: y.t.locs[i], js: `${t}[${i}]` }, n).js); }); }
      return { k: 'v', t: { k: 'tuple', ts: [], locs: [] }, js: `(${out.join(',')})` };
    }
    if (!x.lv) this.err(n, 'assignment to a non-lvalue');
    // storage reference variables take pointers, storage locations take copies
    if (isRef(x.t) && x.loc === 'sto' && x.lv.kind === 'local') return { ...x, js: `(${x.lv.js}=${this.conv(y, x.t, 'sto', n)})` };
    let v = this.conv(y, x.t, 'mem', n); return { k: 'v', t: x.t, loc: isRef(x.t) ? (x.loc === 'sto' ? 'mem' : x.loc) : 'mem', js: this.assignTo(x, v) };
  }
  assign1(x, js) { if (isRef(x.t) && x.loc === 'sto' && x.lv.kind === 'local') return `(${x.lv.js}=${js})`; return this.assignTo(x, js); }
  stable(x) { // make an lvalue safe to evaluate twice; returns [prefix js, lvalue expr]
    const l = x.lv; if (!l) throw new CompileError('not an lvalue');
    switch (l.kind) {
      case 'local': return ['', x];
      case 'field': { const t = this.tmp(); return [`${t}=${l.o},`, { ...x, js: `${t}.${l.f}`, lv: { kind: 'field', o: t, f: l.f } }]; }
      case 'idx': { const a = this.tmp(), i = this.tmp(); return [`${a}=${l.a},${i}=${l.i},`, { ...x, js: `R.idx(${a},${i})`, lv: { kind: 'idx', a, i } }]; }
      case 'bidx': { const a = this.tmp(), i = this.tmp(); return [`${a}=${l.a},${i}=${l.i},`, { ...x, js: `R.bidx(${a},${i})`, lv: { kind: 'bidx', a, i } }]; }
      case 'sto': { const s = this.tmp(); return [`${s}=${l.slot},`, this.sto(x.t, s, l.off)]; }
      case 'stopair': { const s = this.tmp(); return [`${s}=${l.pair},`, { ...x, js: `R.sload(c,${this.P.ty(x.t)},...${s})`, lv: { kind: 'stopair', pair: s } }]; }
    }
  }
  opFn(t, op) { // user-defined operators
    if (t.k !== 'udvt') return null;
    for (const u of this.P.globalUsing) { if (!u.fns || !u.t) continue; const ut = this.P.type(u.t, { D: null, file: u.scopeFile }); if (!same(ut, t)) continue; for (const f of u.fns) if (f.op === op) { const d = this.fnByPath(f.path, u.scopeFile).find(d => { const p = this.P.sig(d); return p.length === 2 && same(p[0].t, t); }); if (d) return d; } }
    return null;
  }
  fnByPath(p, file) { if (p.length === 1) return this.P.fileLookup(file, p[0]).filter(x => x.type === 'Function'); const d = this.P.lookupPath({ D: null, file }, p.slice(0, -1)); return d ? d.parts.filter(x => x.type === 'Function' && x.name === p[p.length - 1]) : []; }
  bin(op, x, y, n) {
    if (op === '&&' || op === '||') return this.val(BOOL, `(${this.conv(x, BOOL, 'mem', n)}${op}${this.conv(y, BOOL, 'mem', n)})`);
    const cmp = ['==', '!=', '<', '>', '<=', '>='].includes(op);
    if (x.k === 'lit' && y.k === 'lit') {
      if (cmp) { const r = { '==': x.v === y.v, '!=': x.v !== y.v, '<': x.v < y.v, '>': x.v > y.v, '<=': x.v <= y.v, '>=': x.v >= y.v }[op]; return this.val(BOOL, String(r)); }
      if (op === '/' && y.v && x.v % y.v) this.err(n, 'rational literal'); return { k: 'lit', v: COPS[op](x.v, y.v), dec: true };
    }
    for (const z of [x, y]) if (z.t && z.t.k === 'udvt') {
      const d = this.opFn(z.t, op);
      if (d) { const ps = this.P.sig(d); return this.val(d._r[0].t, `${this.con.fn(d)}(c,${this.conv(x, ps[0].t, 'mem', n)},${this.conv(y, ps[1].t, 'mem', n)})`); }
      if (op === '!=') { const e = this.opFn(z.t, '=='); if (e) this.err(n, `operator != on ${tname(z.t)}`); }
      this.err(n, `operator ${op} on ${tname(z.t)}`);
    }
    if (op === '<<' || op === '>>' || op === '**') {
      let l = x.k === 'lit' ? this.val(x.v < 0n ? this.P.intern({ k: 'int', bits: 256 }) : U256, big(x.v)) : x; const lt = l.t; const r = this.mobile(y, n);
      if (r.t.k !== 'uint') this.err(n, 'shift amount'); const rj = this.rv(r);
      if (op === '**') { if (!isInt(lt)) this.err(n, '**'); return this.val(lt, `R.pow(${l.js},${rj},${lt.bits},${lt.k === 'int'},${this.unch})`); }
      const bits = lt.k === 'fbytes' ? lt.n * 8 : lt.bits; if (!bits) this.err(n, 'shift'); return this.val(lt, op === '<<' ? `R.shl(${l.js},${rj},${bits},${lt.k === 'int'})` : `R.shr(${l.js},${rj},${bits})`);
    }
    // common type
    let t;
    if (x.k === 'lit' || x.k === 'str') { t = y.t; if (!t) this.err(n, 'operands'); if (this.rank(x, t, 'mem') === null) { const m = x.k === 'lit' ? this.mobile(x, n) : null; if (m && this.rank(y, m.t, 'mem') !== null) t = m.t; else this.err(n, 'operands'); } }
    else if (y.k === 'lit' || y.k === 'str') { t = x.t; if (!t) this.err(n, 'operands'); if (this.rank(y, t, 'mem') === null) { const m = y.k === 'lit' ? this.mobile(y, n) : null; if (m && this.rank(x, m.t, 'mem') !== null) t = m.t; else this.err(n, `operands of ${op}`); } }
    else if (x.k !== 'v' || y.k !== 'v') this.err(n, `operands of ${op}`);
    else if (this.rank(y, x.t, 'mem') !== null) t = x.t; else if (this.rank(x, y.t, 'mem') !== null) t = y.t; else if (x.t.k === 'contract' && y.t.k === 'address' || y.t.k === 'contract' && x.t.k === 'address') t = ADDR; else this.err(n, `operands ${tname(x.t)} ${op} ${tname(y.t)}`);
    const a = t === ADDR && x.t && x.t.k === 'contract' ? x.js : this.conv(x, t, 'mem', n), b = t === ADDR && y.t && y.t.k === 'contract' ? y.js : this.conv(y, t, 'mem', n);
    if (cmp) { if (isRef(t)) this.err(n, 'comparison of reference types'); return this.val(BOOL, `(${a}${op === '==' ? '===' : op === '!=' ? '!==' : op}${b})`); }
    if (op === '&' || op === '|' || op === '^') { if (!isInt(t) && t.k !== 'fbytes') this.err(n, op); return this.val(t, `(${a}${op}${b})`); }
    if (!isInt(t)) this.err(n, `${op} on ${tname(t)}`); const s = t.k === 'int';
    switch (op) { case '+': case '-': case '*': return this.val(t, `R.fit(${a}${op}${b},${t.bits},${s},${this.unch})`); case '/': return this.val(t, s ? `R.fit(R.div(${a},${b}),${t.bits},true,${this.unch})` : `R.div(${a},${b})`); case '%': return this.val(t, `R.mod(${a},${b})`); }
    this.err(n, 'operator ' + op);
  }
  cast(t, x, n) {
    if (x.k === 'lit') {
      if (isInt(t)) { if (t.k === 'uint' && (x.v < 0n || x.v > R.MASK[t.bits])) this.err(n, 'literal out of range'); return this.val(t, big(x.v)); }
      if (t.k === 'fbytes') return this.val(t, big(x.v)); if (t.k === 'address' || t.k === 'contract') return this.val(t, big(x.v & R.MASK[160])); if (t.k === 'enum') { if (x.v >= BigInt(t.n)) this.err(n, 'enum'); return this.val(t, big(x.v)); } this.err(n, 'literal cast');
    }
    if (x.k === 'str') { if (t.k === 'fbytes' || t.k === 'bytes' || t.k === 'string') return this.val(t, this.conv(x, t, 'mem', n)); this.err(n, 'string cast'); }
    if (x.k !== 'v') this.err(n, 'cast of ' + x.k);
    const a = x.t, j = x.js;
    if (same(a, t)) return isRef(t) ? x : this.val(t, j);
    if (isInt(a) && isInt(t)) { if (a.k === t.k && a.bits <= t.bits) return this.val(t, j); return this.val(t, `R.wrap(${j},${t.bits},${t.k === 'int'})`); }
    if (a.k === 'fbytes' && t.k === 'fbytes') { const d = 8 * (t.n - a.n); return this.val(t, d > 0 ? `(${j}<<${d}n)` : `(${j}>>${-d}n)`); }
    if (a.k === 'uint' && t.k === 'fbytes' && a.bits === 8 * t.n) return this.val(t, j); if (a.k === 'fbytes' && t.k === 'uint' && t.bits === 8 * a.n) return this.val(t, j);
    if (a.k === 'uint' && a.bits === 160 && (t.k === 'address' || t.k === 'contract')) return this.val(t, j); if ((a.k === 'address' || a.k === 'contract') && t.k === 'uint' && t.bits === 160) return this.val(t, j);
    if (a.k === 'fbytes' && a.n === 20 && t.k === 'address') return this.val(t, j); if (a.k === 'address' && t.k === 'fbytes' && t.n === 20) return this.val(t, j);
    if ((a.k === 'address' || a.k === 'contract') && (t.k === 'address' || t.k === 'contract')) return this.val(t, j);
    if (a.k === 'enum' && isInt(t)) return this.val(t, j); if (isInt(a) && t.k === 'enum') return this.val(t, `((e)=>{if(e>=${t.n}n)R.panic(0x21);return e})(${j})`);
    if ((a.k === 'bytes' || a.k === 'string') && (t.k === 'bytes' || t.k === 'string')) return { ...x, t, lv: null };
    if (a.k === 'bytes' && t.k === 'fbytes') return this.val(t, `((b)=>{const r=new Uint8Array(${t.n});r.set(b.subarray(0,${t.n}));return R.b2n(r)})(${this.rv(x)})`);
    this.err(n, `cast ${tname(a)} to ${tname(t)}`);
  }
  expr(e, opt = {}) {
    switch (e.type) {
      case 'Num': return { k: 'lit', v: e.v, hexlen: e.hexlen, isAddr: e.isAddr, dec: e.hexlen === undefined && e.v !== 0n };
      case 'Str': return { k: 'str', v: e.v }; case 'Bool': return this.val(BOOL, String(e.v));
      case 'ElemType': return { k: 'type', t: this.typ(e.t) }; case 'TypeOf': return { k: 'typeof', t: this.typ(e.t) };
      case 'Tuple': return { k: 'tuple', items: e.items.map(i => i && this.expr(i)) };
      case 'ArrLit': return { k: 'arrlit', items: e.items.map(i => this.expr(i)) };
      case 'Id': return this.ident(e);
      case 'Member': return this.member(this.expr(e.a), e.name, e);
      case 'Index': { const a = this.expr(e.a); if (a.k === 'type') { return { k: 'type', t: { k: 'array', base: a.t, len: e.i ? Number(this.constInt(e.i)) : null } }; } return this.index(a, this.expr(e.i), e); }
      case 'Slice': { const a = this.expr(e.a); const lo = e.lo ? this.conv(this.expr(e.lo), U256, 'mem', e) : '0n', hi = e.hi ? this.conv(this.expr(e.hi), U256, 'mem', e) : 'null'; return this.val(a.t, `R.slice(${this.rv(a)},${lo},${hi})`); }
      case 'Opts': return { k: 'opts', f: this.expr(e.a), opts: e.opts };
      case 'New': return { k: 'new', t: this.typ(e.t) };
      case 'Cond': {
        const c = this.bool(e.c), a = this.expr(e.a), b = this.expr(e.b);
        if (a.k === 'tuple' || b.k === 'tuple') { const ts = a.items.map((x, i) => this.common(x, b.items[i], e)); return { k: 'v', t: { k: 'tuple', ts, locs: ts.map(() => 'mem') }, js: `(${c}?[${a.items.map((x, i) => this.conv(x, ts[i], 'mem', e))}]:[${b.items.map((x, i) => this.conv(x, ts[i], 'mem', e))}])` }; }
        const t = this.common(a, b, e); const loc = isRef(t) && a.loc === 'sto' && b.loc === 'sto' ? 'sto' : 'mem'; return this.val(t, `(${c}?${this.conv(a, t, loc, e)}:${this.conv(b, t, loc, e)})`, loc);
      }
      case 'Bin': return this.bin(e.op, this.expr(e.a), this.expr(e.b), e);
      case 'Un': {
        const x = this.expr(e.a);
        if (e.op === '!') return this.val(BOOL, `(!${this.conv(x, BOOL, 'mem', e)})`);
        if (e.op === '++' || e.op === '--') { const [p, l] = this.stable(x); const r = this.bin(e.op[0], l, { k: 'lit', v: 1n }, e); return this.val(x.t, `(${p}${this.assignTo(l, this.conv(r, x.t, 'mem', e))})`); }
        if (x.k === 'lit') { if (e.op === '-') return { k: 'lit', v: -x.v, dec: true }; return { k: 'lit', v: ~x.v, dec: true }; }
        if (e.op === '-') { if (x.t.k !== 'int') this.err(e, 'unary minus'); return this.val(x.t, `R.fit(-${x.js},${x.t.bits},true,${this.unch})`); }
        if (e.op === '~') { const t = x.t; const d = t.k === 'udvt' ? this.opFn(t, '~') : null; if (d) return this.val(t, `${this.con.fn(d)}(c,${x.js})`); if (t.k === 'uint') return this.val(t, `(R.MASK[${t.bits}]^${x.js})`); if (t.k === 'fbytes') return this.val(t, `(R.MASK[${t.n * 8}]^${x.js})`); if (t.k === 'int') return this.val(t, `(~${x.js})`); }
        this.err(e, 'unary ' + e.op);
      }
      case 'Post': { const x = this.expr(e.a); const [p, l] = this.stable(x); const o = this.tmp(); const r = this.bin(e.op[0], { ...l, js: o, lv: null }, { k: 'lit', v: 1n }, e); return this.val(x.t, `(${p}${o}=${l.js},${this.assignTo(l, this.conv(r, x.t, 'mem', e))},${o})`); }
      case 'Delete': {
        const x = this.expr(e.a); if (!x.lv) this.err(e, 'delete');
        if (x.lv.kind === 'sto') return this.val(BOOL, `R.sclear(c,${this.P.ty(x.t)},${x.lv.slot},${x.lv.off})`); if (x.lv.kind === 'stopair') return this.val(BOOL, `R.sclear(c,${this.P.ty(x.t)},...${x.lv.pair})`); return this.val(BOOL, this.assignTo(x, this.zeroJs(x.t)));
      }
      case 'Assign': {
        const x = this.expr(e.a), y = this.expr(e.b); if (e.op === '=') return this.assign(x, y, e);
        const [p, l] = this.stable(x); const r = this.bin(e.op.slice(0, -1), l, y, e); return this.val(x.t, `(${p}${this.assignTo(l, this.conv(r, x.t, 'mem', e))})`);
      }
      case 'Call': return this.call(e, opt);
    }
    this.err(e, 'expression ' + e.type);
  }
  common(a, b, n) {
    if (a.k === 'v' && b.k === 'v') { if (this.rank(b, a.t, 'mem') !== null) return a.t; if (this.rank(a, b.t, 'mem') !== null) return b.t; this.err(n, 'no common type'); }
    if (a.k === 'v') { if (this.rank(b, a.t, 'mem') !== null) return a.t; if (b.k === 'lit') { const m = this.mobile(b, n); if (this.rank(a, m.t, 'mem') !== null) return m.t; } this.err(n, 'no common type'); } if (b.k === 'v') return this.common(b, a, n);
    if (a.k === 'lit' && b.k === 'lit') { const x = this.mobile(a), y = this.mobile(b); return this.common(x, y, n); } if (a.k === 'str' && b.k === 'str') return STRING; this.err(n, 'no common type');
  }
  ident(e) {
    const name = e.name; const v = this.local(name); if (v) return this.lvLocal(v);
    const D = this.cx.D;
    if (D) {
      const lin = D.kind === 'library' ? [D] : this.P.linear(D);
      const sv = this.findState(name); if (sv) return this.stateVar(sv, this.def && this.def.kind === 'constructor' && sv.immutable);
      const fns = [], sigs = new Set();
      for (const d of lin) for (const f of d.parts) if (f.type === 'Function' && f.kind === 'function' && f.name === name && (f.vis !== 'private' || d === D)) { const s = this.P.canonSig(f); if (sigs.has(s)) continue; sigs.add(s); fns.push(D.kind === 'library' || f.vis === 'private' ? f : (this.con.resolve(s) || f)); }
      if (fns.length) return { k: 'fn', cands: fns, mode: 'int' };
      for (const d of lin) { const m = d.parts.find(x => ['Struct', 'Enum', 'Udvt'].includes(x.type) && x.name === name); if (m) return { k: 'type', t: this.P.declType(m) }; }
      const ev = [], er = []; for (const d of lin) for (const x of d.parts) if (x.name === name) { if (x.type === 'Event') ev.push(x); if (x.type === 'ErrorDef') er.push(x); } if (ev.length) return { k: 'event', defs: ev }; if (er.length) return { k: 'err', defs: er };
    }
    const r = this.fromDecls(this.P.fileLookup(this.cx.file, name)); if (r) return r;
    switch (name) {
      case 'this': return { k: 'v', t: this.P.declType(this.con.def), js: 'c.self', loc: 'mem', isThis: true };
      case 'super': return { k: 'super' };
      case 'msg': case 'block': case 'tx': case 'abi': return { k: 'magic', name };
      case 'now': return this.val(U256, 'c.W.time');
    }
    return { k: 'builtin', name };
  }
  fromDecls(ds) {
    if (!ds.length) return null; const d = ds[0];
    if (d.type === 'Module') return { k: 'module', file: d.file }; if (['Struct', 'Enum', 'Udvt', 'Contract'].includes(d.type)) return { k: 'type', t: this.P.declType(d) };
    if (d.type === 'Function') return { k: 'fn', cands: ds.filter(x => x.type === 'Function'), mode: 'int' }; if (d.type === 'Event') return { k: 'event', defs: ds.filter(x => x.type === 'Event') }; if (d.type === 'ErrorDef') return { k: 'err', defs: ds.filter(x => x.type === 'ErrorDef') }; if (d.type === 'StateVar') return this.stateVar(d); return null;
  }
  member(x, m, n) {
    switch (x.k) {
      case 'magic':
        if (x.name === 'msg') switch (m) { case 'sender': return this.val(ADDR, 'c.sender'); case 'value': return this.val(U256, 'c.value'); case 'data': return this.val(BYTES, 'c.data'); case 'sig': return this.val(B4, 'R.b2n(c.data.subarray(0,4))'); }
        if (x.name === 'block') switch (m) { case 'timestamp': return this.val(U256, 'c.W.time'); case 'chainid': return this.val(U256, 'c.W.chainid'); case 'number': return this.val(U256, 'c.W.number'); }
        if (x.name === 'tx' && m === 'origin') return this.val(ADDR, '(c.W.origin??0n)'); if (x.name === 'tx' && m === 'gasprice') return this.val(U256, '1n');
        if (x.name === 'abi') return { k: 'abi', m }; break;
      case 'module': { const r = this.fromDecls(this.P.fileLookup(x.file, m)); if (r) return r; break; }
      case 'super': { const D = this.cx.D; const lin = this.con.lin; const i = lin.indexOf(D); const cands = [], sigs = new Set(); for (const d of lin.slice(i + 1)) for (const f of d.parts) if (f.type === 'Function' && f.name === m && f.body) { const s = this.P.canonSig(f); if (!sigs.has(s)) { sigs.add(s); cands.push(f); } } if (cands.length) return { k: 'fn', cands, mode: 'int' }; break; }
      case 'typeof': {
        const t = x.t; if (isInt(t)) { const s = t.k === 'int'; if (m === 'max') return this.val(t, big(s ? (1n << BigInt(t.bits - 1)) - 1n : R.MASK[t.bits])); if (m === 'min') return this.val(t, big(s ? -(1n << BigInt(t.bits - 1)) : 0n)); }
        if (t.k === 'enum') { if (m === 'max') return this.val(t, big(BigInt(t.n - 1))); if (m === 'min') return this.val(t, '0n'); } if (t.k === 'contract' && m === 'name') return { k: 'str', v: R.str(t.def.name) };
        if (t.k === 'contract' && m === 'interfaceId') { let v = 0n; for (const f of t.def.parts) if (f.type === 'Function') v ^= this.P.selectorOf(f); return this.val(B4, big(v)); } break;
      }
      case 'type': {
        const t = x.t;
        if (t.k === 'enum') { const i = t.def.values.indexOf(m); if (i >= 0) return this.val(t, `${i}n`); }
        if (t.k === 'udvt' && (m === 'wrap' || m === 'unwrap')) return { k: 'wrapfn', m, t };
        if ((t.k === 'bytes' || t.k === 'string') && m === 'concat') return { k: 'concat', t };
        if (t.k === 'contract') {
          const d = t.def; for (const b of this.P.linear(d)) { const p = b.parts.find(p => ['Struct', 'Enum', 'Udvt'].includes(p.type) && p.name === m); if (p) return { k: 'type', t: this.P.declType(p) }; }
          const lin = this.P.linear(d); const fns = []; for (const b of lin) for (const f of b.parts) if (f.type === 'Function' && f.kind === 'function' && f.name === m && !fns.some(g => this.P.canonSig(g) === this.P.canonSig(f))) fns.push(f);
          if (fns.length) return { k: 'fn', cands: fns, mode: 'int', base: d };
          for (const b of lin) { const v = b.parts.find(p => p.type === 'StateVar' && p.name === m); if (v) return this.stateVar(v); }
          const er = lin.flatMap(b => b.parts.filter(p => p.type === 'ErrorDef' && p.name === m)); if (er.length) return { k: 'err', defs: er }; const ev = lin.flatMap(b => b.parts.filter(p => p.type === 'Event' && p.name === m)); if (ev.length) return { k: 'event', defs: ev };
        }
        break;
      }
      case 'fn': if (m === 'selector') return this.val(B4, big(this.P.selectorOf(x.cands[0]))); if (m === 'address') return this.val(ADDR, x.addr); break;
      case 'err': case 'event': if (m === 'selector') return this.val(x.k === 'err' ? B4 : B32, big(x.k === 'err' ? this.P.selectorOf(x.defs[0]) : R.keccak(R.str(this.P.extSig(x.defs[0]))))); break;
      case 'lit': case 'str': { const at = this.attached(x.k === 'lit' ? this.mobile(x, n) : this.val(STRING, this.rv(x)), m); if (at.length) return { k: 'fn', cands: at, mode: 'int', bound: x.k === 'lit' ? this.mobile(x, n) : this.val(STRING, this.rv(x)) }; break; }
      case 'v': {
        const t = x.t;
        if (t.k === 'struct') { const i = t.fields.findIndex(f => f.name === m); if (i >= 0) { const f = t.fields[i]; if (x.loc === 'sto') { const p = R.structLayout(t).pos[i]; return this.sto(f.t, p.slot ? `(${x.js}+${p.slot}n)` : x.js, String(p.off)); } return { k: 'v', t: f.t, loc: 'mem', js: `${x.js}.${m}`, lv: { kind: 'field', o: x.js, f: m } }; } }
        if (t.k === 'bytes' && x.loc === 'sto' && m === 'push') return { k: 'arrfn', m, x };
        if (t.k === 'array') { if (m === 'length') return this.val(U256, t.len !== null ? big(BigInt(t.len)) : x.loc === 'sto' ? `R.slen(c,${this.P.ty(t)},${x.js})` : `BigInt(${x.js}.length)`); if (x.loc === 'sto' && (m === 'push' || m === 'pop')) return { k: 'arrfn', m, x }; }
        if (t.k === 'bytes' && m === 'length') return this.val(U256, x.loc === 'sto' ? `R.slen(c,${this.P.ty(t)},${x.js})` : `BigInt(${x.js}.length)`); if (t.k === 'fbytes' && m === 'length') return this.val(U8, `${t.n}n`);
        if (t.k === 'address') switch (m) { case 'balance': return this.val(U256, `(c.W.acc.get(${x.js})?.bal??0n)`); case 'code': return { k: 'code', a: x.js }; case 'codehash': return this.val(B32, `(c.W.has(${x.js})?${x.js}+1n:0n)`); case 'call': case 'staticcall': case 'delegatecall': case 'send': case 'transfer': { const at = this.attached(x, m); if (at.length) break; return { k: 'low', m, a: x.js }; } }
        if (t.k === 'contract') {
          const cands = [], sigs = new Set(); for (const d of this.P.linear(t.def)) for (const f of d.parts) if (f.name === m && (f.type === 'Function' && (f.vis === 'public' || f.vis === 'external' || t.def.kind === 'interface') || f.type === 'StateVar' && f.vis === 'public')) { const s = f.type === 'StateVar' ? this.P.getter(f).sig : this.P.extSig(f); if (!sigs.has(s)) { sigs.add(s); cands.push(f); } }
          if (cands.length) return { k: 'fn', cands, mode: 'ext', addr: x.js };
        }
        const at = this.attached(x, m); if (at.length) return { k: 'fn', cands: at, mode: 'int', bound: x }; break;
      }
      case 'code': if (m === 'length') return this.val(U256, `(c.W.has(${x.a})?1n:0n)`); break;
      case 'arrlit': case 'tuple': break;
    }
    this.err(n, `member ${m} of ${x.k === 'v' ? tname(x.t) : x.k}`);
  }
  attached(x, m) {
    const out = []; const us = [...this.P.globalUsing, ...this.cx.file.using]; if (this.cx.D) us.push(...this.cx.D.parts.filter(p => p.type === 'Using'));
    for (const u of us) {
      const file = u.fileObj; const cx = { D: u.contract || null, file };
      if (u.t) { const t = this.P.type(u.t, cx); if (!same(t, x.t) && this.rank(x, t, x.loc) === null && !(isRef(t) && same(t, x.t))) continue; }
      if (u.lib) { const d = this.P.lookupPath(cx, u.lib); if (d && d.type === 'Contract') for (const f of d.parts) if (f.type === 'Function' && f.name === m && this.P.sig(f).length && this.rank(x, f._p[0].t, f._p[0].loc) !== null) out.push(f); }
      else for (const f of u.fns) if (!f.op && f.path[f.path.length - 1] === m) for (const d of this.fnByPath(f.path, file)) if (this.P.sig(d).length && this.rank(x, d._p[0].t, d._p[0].loc) !== null) out.push(d);
    }
    return [...new Set(out)];
  }
  rtype(rs) { return rs.length === 1 ? { t: rs[0].t, loc: rs[0].loc } : { t: { k: 'tuple', ts: rs.map(r => r.t), locs: rs.map(r => r.loc) }, loc: 'mem' }; }
  call(e, opt) {
    let f = this.expr(e.fn), opts = {}; if (f.k === 'opts') { opts = f.opts; f = f.f; }
    const A = () => e.args.map(a => this.expr(a));
    switch (f.k) {
      case 'type': {
        const t = f.t;
        if (t.k === 'struct') { const args = A(); let as = args; if (e.names) as = t.fields.map(q => args[e.names.indexOf(q.name)]); if (as.length !== t.fields.length) this.err(e, 'struct arity'); return this.val(t, `{${t.fields.map((q, i) => `${q.name}:${this.conv(as[i], q.t, 'mem', e)}`).join(',')}}`.replace(/^/, '(').replace(/$/, ')')); }
        if (e.args.length !== 1) this.err(e, 'cast'); return this.cast(t, A()[0], e);
      }
      case 'wrapfn': { const x = A()[0]; if (f.m === 'wrap') return this.val(f.t, this.conv(x, f.t.base, 'mem', e)); if (!x.t || !same(x.t, f.t)) this.err(e, 'unwrap'); return this.val(f.t.base, x.js); }
      case 'concat': return this.val(f.t, `R.cat(${A().map(x => x.k === 'str' ? this.rv(x) : x.t.k === 'fbytes' ? `R.n2b(${x.js},${x.t.n})` : this.rv(x)).join(',')})`);
      case 'fn': return this.callFn(f, e, opts, opt);
      case 'arrfn': { const t = f.x.t; if (f.m === 'pop') return this.val(BOOL, `R.spop(c,${this.P.ty(t)},${f.x.js})`); const a = A(); if (t.k === 'bytes') return this.val(BOOL, `R.bpush(c,${f.x.js},${a.length ? this.conv(a[0], this.P.intern({ k: 'fbytes', n: 1 }), 'mem', e) : '0n'})`); if (!a.length) { const p = `R.sgrow(c,${this.P.ty(t)},${f.x.js})`; return isRef(t.base) ? this.sto(t.base, `${p}[0]`, '0') : { k: 'v', t: t.base, loc: 'mem', js: `R.sload(c,${this.P.ty(t.base)},...${p})`, lv: { kind: 'stopair', pair: p } }; } return this.val(BOOL, `R.spush(c,${this.P.ty(t)},${f.x.js},${a.length ? this.conv(a[0], t.base, 'mem', e) : this.zeroJs(t.base)})`); }
      case 'low': return this.low(f, A(), opts, e);
      case 'abi': return this.abi(f.m, e);
      case 'new': {
        const t = f.t, a = A(); if (t.k === 'bytes' || t.k === 'string') return this.val(t, `R.newBytes(${this.conv(a[0], U256, 'mem', e)})`); if (t.k === 'array') return this.val(t, `R.newArr(${this.conv(a[0], U256, 'mem', e)},${this.P.ty(t.base)})`);
        if (t.k === 'contract') { const cn = this.P.con(t.def); const ct = t.def.parts.find(x => x.kind === 'constructor'); const ps = ct ? this.P.sig(ct) : []; const value = opts.value ? this.conv(this.expr(opts.value), U256, 'mem', e) : '0n'; return this.val(t, `${this.P.konst(cn)}.deploy(c.W,c.self,[${a.map((x, i) => this.conv(x, ps[i].t, ps[i].loc, e)).join(',')}],${value})`); }
        break;
      }
      case 'builtin': {
        const a = f.name === 'require' && e.args[1] && e.args[1].type === 'Call' ? [this.expr(e.args[0])] : A();
        switch (f.name) {
          case 'require': { const c = this.conv(a[0], BOOL, 'mem', e); if (!e.args[1]) return this.val(BOOL, `(${c}||(()=>{throw new R.Revert(new Uint8Array(0),'require')})())`); if (!a[1]) { const fe = this.expr(e.args[1].fn); if (fe.k === 'err') return this.val(BOOL, `(${c}||${this.revertWith(e.args[1], e)})`); a[1] = this.expr(e.args[1]); } return this.val(BOOL, `(${c}||(()=>{const m=${this.conv(a[1], STRING, 'mem', e)};throw new R.Revert(R.cat(R.n2b(0x08c379a0n,4),R.encTuple([{k:'string'}],[m])),Buffer.from(m).toString())})())`); }
          case 'assert': return this.val(BOOL, `(${this.conv(a[0], BOOL, 'mem', e)}||R.panic(1))`);
          case 'revert': return this.val(BOOL, a.length ? `(()=>{const m=${this.conv(a[0], STRING, 'mem', e)};throw new R.Revert(R.cat(R.n2b(0x08c379a0n,4),R.encTuple([{k:'string'}],[m])),Buffer.from(m).toString())})()` : `(()=>{throw new R.Revert(new Uint8Array(0),'revert')})()`);
          case 'keccak256': return this.val(B32, `R.keccak(${this.conv(a[0], BYTES, 'mem', e)})`);
          case 'gasleft': return this.val(U256, '30000000n'); case 'blockhash': return this.val(B32, '0n');
          case 'addmod': return this.val(U256, `R.mod(${this.conv(a[0], U256)}+${this.conv(a[1], U256)},${this.conv(a[2], U256)})`); case 'mulmod': return this.val(U256, `R.mod(${this.conv(a[0], U256)}*${this.conv(a[1], U256)},${this.conv(a[2], U256)})`);
        }
        this.err(e, `unknown function ${f.name}`);
      }
      case 'err': this.err(e, 'error used as a value');
    }
    this.err(e, 'call of ' + f.k);
  }
  callFn(f, e, opts, opt) {
    const args = e.args.map(a => this.expr(a)); const all = f.bound ? [f.bound, ...args] : args;
    if (f.mode === 'ext') {
      const fn = f.cands.filter(c => c.type === 'Function'), sv = f.cands.find(c => c.type === 'StateVar'); let d, as = args, pts, rts, view;
      const pick = fn.length && !(sv && !args.length) ? this.pickDecl(fn, args, e.names, e) : null;
      if (pick) { d = pick.d; as = pick.args; pts = this.P.sig(d).map(p => p.t); rts = d._r.map(r => ({ t: r.t, loc: 'mem' })); view = d.mut === 'view' || d.mut === 'pure'; } else { d = sv; const g = this.P.getter(sv); pts = g.keys; rts = g.rets.map(t => ({ t, loc: 'mem' })); view = true; }
      const value = opts.value ? this.conv(this.expr(opts.value), U256, 'mem', e) : '0n'; const data = `R.cat(R.n2b(${big(this.P.selectorOf(d))},4),R.encTuple(${this.P.ty({ k: 'tuple', ts: pts })}.ts,[${as.map((a, i) => this.conv(a, pts[i], 'mem', e)).join(',')}]))`;
      const r = this.rtype(rts); const to = this.tmp(); const extra = `{stat:${view},parentStatic:c.stat}`;
      const dec = rts.length === 0 ? `X.ext(c,${to},${value},${data},${extra})` : rts.length === 1 ? `R.decTuple(${this.P.ty({ k: 'tuple', ts: rts.map(x => x.t) })}.ts,X.ext(c,${to},${value},${data},${extra}))[0]` : `R.decTuple(${this.P.ty({ k: 'tuple', ts: rts.map(x => x.t) })}.ts,X.ext(c,${to},${value},${data},${extra}))`;
      return { k: 'v', t: r.t, loc: 'mem', js: `(${to}=${f.addr},${dec})`.replace(/X\.ext/g, 'R.extCall') };
    }
    const { d, args: as } = this.pickDecl(f.cands, all, e.names, e); const ps = this.P.sig(d); let target = d;
    if (!d.body) { const r = this.con && !f.base ? this.con.resolve(this.P.canonSig(d)) : null; if (r) target = r; else this.err(e, `${d.name} has no body`); this.P.sig(target); }
    const r = this.rtype(target._r); return { k: 'v', t: r.t, loc: r.loc, js: `${this.con.fn(target)}(c${as.map((a, i) => ',' + this.conv(a, ps[i].t, ps[i].loc, e)).join('')})` };
  }
  low(f, args, opts, n) {
    const value = opts.value ? this.conv(this.expr(opts.value), U256, 'mem', n) : '0n';
    if (f.m === 'transfer' || f.m === 'send') { const v = this.conv(args[0], U256, 'mem', n); const js = `R.lowCall(c,${f.a},${v},new Uint8Array(0),'call')`; return f.m === 'send' ? this.val(BOOL, `${js}[0]`) : this.val(BOOL, `(${js}[0]||(()=>{throw new R.Revert(new Uint8Array(0),'transfer')})())`); }
    return { k: 'v', t: { k: 'tuple', ts: [BOOL, BYTES], locs: ['mem', 'mem'] }, js: `R.lowCall(c,${f.a},${value},${this.conv(args[0], BYTES, 'mem', n)},'${f.m}')` };
  }
  abi(m, e) {
    const tv = a => { const x = this.expr(a); if (x.k === 'lit') return this.mobile(x, e); if (x.k === 'str') return this.val(STRING, this.rv(x)); return x; };
    const encs = as => { const xs = as.map(tv); return [this.P.ty({ k: 'tuple', ts: xs.map(x => x.t) }) + '.ts', `[${xs.map(x => this.rv(x)).join(',')}]`]; };
    switch (m) {
      case 'encode': { const [t, v] = encs(e.args); return this.val(BYTES, `R.encTuple(${t},${v})`); }
      case 'encodePacked': { const xs = e.args.map(tv); return this.val(BYTES, `R.cat(${xs.map(x => `R.packed(${this.P.ty(x.t)},${this.rv(x)})`).join(',')})`); }
      case 'encodeWithSelector': { const s = this.conv(this.expr(e.args[0]), B4, 'mem', e); const [t, v] = encs(e.args.slice(1)); return this.val(BYTES, `R.cat(R.n2b(${s},4),R.encTuple(${t},${v}))`); }
      case 'encodeWithSignature': { const s = this.conv(this.expr(e.args[0]), STRING, 'mem', e); const [t, v] = encs(e.args.slice(1)); return this.val(BYTES, `R.cat(R.n2b(R.keccak(${s})>>224n,4),R.encTuple(${t},${v}))`); }
      case 'encodeCall': { const f = this.expr(e.args[0]); const d = f.cands[0]; const ps = this.P.sig(d); const tup = e.args[1].type === 'Tuple' ? e.args[1].items : [e.args[1]]; return this.val(BYTES, `R.cat(R.n2b(${big(this.P.selectorOf(d))},4),R.encTuple(${this.P.ty({ k: 'tuple', ts: ps.map(p => p.t) })}.ts,[${tup.map((a, i) => this.conv(this.expr(a), ps[i].t, 'mem', e)).join(',')}]))`); }
      case 'decode': { const d = this.conv(this.expr(e.args[0]), BYTES, 'mem', e); const te = e.args[1]; const ts = (te.type === 'Tuple' ? te.items : [te]).map(x => { const y = this.expr(x); if (y.k !== 'type') this.err(e, 'abi.decode types'); return y.t; }); const js = `R.decTuple(${this.P.ty({ k: 'tuple', ts })}.ts,${d})`; return ts.length === 1 ? this.val(ts[0], js + '[0]') : { k: 'v', t: { k: 'tuple', ts, locs: ts.map(() => 'mem') }, js }; }
    }
    this.err(e, 'abi.' + m);
  }
}
