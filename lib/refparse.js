"use strict";
// Reference reader of the schema language, written from format.md and the grammar's description,
// not derived from the implementation's parser generator.
//
//   schema  = WSN line* EOF
//   line    = WS (comment | decl | export) WSN
//   comment = '#' to end of line
//   decl    = ident WS ':' WS ('enum' WS '{' WSN variant* WSN '}' | 'struct' WS '{' WSN field* WSN '}')
//   variant = ident WSN ','? WSN
//   field   = comment | ident WS '?'? ':' WS word '[]'? WSN ','? WSN
//   export  = 'export' WS word
//   ident   = [A-Za-z_][A-Za-z0-9_]* but not a reserved word;  word = [A-Za-z0-9_]*
//   WS = blanks and tabs, WSN = blanks, tabs and line ends
//
// On failure gives the interval [lo, hi] (UTF-16 offsets) in which the first offence lies: lo is the start of the
// offending token, hi the first character in it that cannot be right.

const BUILTINS = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string"];
const RESERVED = new Set([...BUILTINS, "enum", "struct"]);

function isStart(c) { return (c >= 65 && c <= 90) || (c >= 97 && c <= 122) || c === 95; }
function isWord(c) { return isStart(c) || (c >= 48 && c <= 57); }

class P {
  constructor(s) { this.s = s; this.i = 0; this.lo = 0; this.hi = 0; }
  mark(token, ch = token) {
    if (token > this.lo) this.lo = token;
    if (ch > this.hi) this.hi = ch;
  }
  code() { return this.i < this.s.length ? this.s.charCodeAt(this.i) : -1; }
  ws() { while (this.code() === 32 || this.code() === 9) ++this.i; this.mark(this.i); }
  nl() { while (this.code() === 10 || this.code() === 13) ++this.i; this.mark(this.i); }
  wsn() { for (let c; (c = this.code()) === 32 || c === 9 || c === 10 || c === 13;) ++this.i; this.mark(this.i); }
  lit(t) {
    let k = 0;
    while (k < t.length && this.s[this.i + k] === t[k]) ++k;
    if (k === t.length) { this.i += k; return true; }
    this.mark(this.i, this.i + k);
    return false;
  }
  word() {
    const at = this.i;
    while (isWord(this.code())) ++this.i;
    this.mark(this.i);
    return this.s.slice(at, this.i);
  }
  ident() {
    const at = this.i;
    if (!isStart(this.code())) return null;
    while (isWord(this.code())) ++this.i;
    const w = this.s.slice(at, this.i);
    if (RESERVED.has(w)) { if (this.i > this.hi) this.hi = this.i; this.i = at; return null; }
    return w;
  }
  comment() {
    if (!this.lit("#")) return false;
    while (this.i < this.s.length && this.code() !== 10) ++this.i;
    this.mark(this.i);
    this.nl();
    return true;
  }
  /** tries f, restoring the position if it gives null */
  attempt(f) {
    const at = this.i;
    const r = f();
    if (r === null) this.i = at;
    return r;
  }
  variant() {
    const name = this.ident();
    if (name === null) return null;
    this.wsn(); this.lit(","); this.wsn();
    return name;
  }
  field() {
    if (this.comment()) { this.wsn(); return { comment: true }; }
    const name = this.ident();
    if (name === null) return null;
    this.ws();
    const optional = this.lit("?");
    if (!this.lit(":")) return null;
    this.ws();
    const type = this.word();
    const array = this.lit("[]");
    this.wsn(); this.lit(","); this.wsn();
    return { name, type, array, optional };
  }
  body(item) {
    this.ws();
    if (!this.lit("{")) return null;
    this.wsn();
    const items = [];
    for (let it; (it = this.attempt(item)) !== null;) items.push(it);
    this.wsn();
    return this.lit("}") ? items : null;
  }
  decl() {
    this.ws();
    const name = this.ident();
    if (name === null) return null;
    this.ws();
    if (!this.lit(":")) return null;
    this.ws();
    const at = this.i;
    if (this.lit("enum")) {
      const variants = this.body(() => this.variant());
      if (variants !== null) return { kind: "enum", name, variants };
    }
    this.i = at;
    if (this.lit("struct")) {
      const fields = this.body(() => this.field());
      if (fields !== null) return { kind: "struct", name, fields: fields.filter((f) => !f.comment) };
    }
    return null;
  }
  export_() {
    if (!this.lit("export")) return null;
    this.ws();
    return { kind: "export", name: this.word() };
  }
  line() {
    this.ws();
    let node;
    if (this.comment()) node = { kind: "comment" };
    else if ((node = this.attempt(() => this.decl())) !== null) this.wsn();
    else node = this.attempt(() => this.export_());
    if (node === null) return null;
    this.wsn();
    return node;
  }
  schema() {
    this.wsn();
    const nodes = [];
    for (let n; (n = this.attempt(() => this.line())) !== null;) if (n.kind !== "comment") nodes.push(n);
    if (this.i < this.s.length) { this.mark(this.i); return { ok: false, lo: this.lo, hi: Math.max(this.lo, this.hi) }; }
    return { ok: true, nodes };
  }
}

function parse(text) { return new P(text).schema(); }

module.exports = { parse, BUILTINS, RESERVED };
