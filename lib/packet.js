"use strict";
// Instrumented stand-in for the `packet` runtime library the generated code imports (packet-ts is not
// available offline). It implements the interface the generated code is written against and
// records every call, so that monitors see the trace of primitive reads and writes.
//
// Contract assumed of packet-ts: little-endian fixed-width numbers; reading past the end sets `failed`
// (sticky) and returns 0 or ""; read_string(n) reads back what write_string(s) wrote when n == s.length.

const state = {
  utf16: false,      // strings as two bytes per code unit (any text), or one (Latin-1)
  trace: null,       // array collecting [op, ...args], or null
  readers: [],       // readers constructed since reset()
  writers: [],
  ops: 0,
  maxOps: Infinity,  // guard against runaway loops
  faults: [],        // misuse of the runtime's interface by the generated code
};

class OpLimit extends Error {}

function reset(opts = {}) {
  state.trace = opts.trace ? [] : null;
  state.readers = [];
  state.writers = [];
  state.ops = 0;
  state.maxOps = opts.maxOps === undefined ? 50e6 : opts.maxOps;
  state.faults = [];
  if (opts.utf16 !== undefined) state.utf16 = opts.utf16;
}
function op(...ev) {
  if (++state.ops > state.maxOps) throw new OpLimit("more than " + state.maxOps + " primitive operations");
  if (state.trace) state.trace.push(ev);
}
function fault(msg) { if (state.faults.length < 5) state.faults.push(msg); }

const NUM = {
  uint8: [1, "Uint8", 0, 0xff], uint16: [2, "Uint16", 0, 0xffff], uint32: [4, "Uint32", 0, 0xffffffff],
  int8: [1, "Int8", -0x80, 0x7f], int16: [2, "Int16", -0x8000, 0x7fff], int32: [4, "Int32", -0x80000000, 0x7fffffff],
  float: [4, "Float32", -Infinity, Infinity],
};

class Reader {
  constructor(data) {
    if (!(data instanceof ArrayBuffer)) fault("Reader constructed with something that is not an ArrayBuffer");
    this._view = new DataView(data);
    this._pos = 0;
    this._failed = false;
    this._underflow = false;
    state.readers.push(this);
    op("new Reader");
  }
  get failed() { return this._failed; }
  set failed(v) { this._failed = v; op("failed", v); }
  _take(n) {
    // an underflow fails the reader for good
    if (this._underflow || this._pos + n > this._view.byteLength) {
      this._failed = this._underflow = true;
      return -1;
    }
    const at = this._pos;
    this._pos += n;
    return at;
  }
  read_string(n) {
    op("read_string", n);
    if (typeof n !== "number") fault("read_string(" + typeof n + ")");
    const w = state.utf16 ? 2 : 1;
    const at = this._take(n * w);
    if (at < 0) return "";
    const parts = [];
    for (let i = 0; i < n; ++i) {
      parts.push(w === 2 ? this._view.getUint16(at + 2 * i, true) : this._view.getUint8(at + i));
    }
    let s = "";
    for (let i = 0; i < parts.length; i += 4096) s += String.fromCharCode(...parts.slice(i, i + 4096));
    return s;
  }
}
class Writer {
  constructor(...args) {
    this._given = args.length > 0 ? args[0] : undefined;
    if (this._given !== undefined && !(this._given instanceof ArrayBuffer)) fault("Writer constructed with something that is not an ArrayBuffer");
    this._buf = this._given || new ArrayBuffer(1024);
    this._view = new DataView(this._buf);
    this._pos = 0;
    this._finished = 0;
    state.writers.push(this);
    op("new Writer");
  }
  _room(n) {
    if (this._finished) fault("write after finish");
    if (this._pos + n > this._buf.byteLength) {
      const bigger = new ArrayBuffer(Math.max(64, this._buf.byteLength * 2, this._pos + n));
      new Uint8Array(bigger).set(new Uint8Array(this._buf));
      this._buf = bigger;
      this._view = new DataView(bigger);
    }
    const at = this._pos;
    this._pos += n;
    return at;
  }
  write_string(s) {
    op("write_string", s);
    if (typeof s !== "string") fault("write_string(" + typeof s + ")");
    s = String(s);
    const w = state.utf16 ? 2 : 1;
    const at = this._room(s.length * w);
    for (let i = 0; i < s.length; ++i) {
      if (w === 2) this._view.setUint16(at + 2 * i, s.charCodeAt(i), true);
      else this._view.setUint8(at + i, s.charCodeAt(i));
    }
  }
  finish() {
    op("finish");
    ++this._finished;
    return this._buf.slice(0, this._pos);
  }
}
for (const [name, [size, dv, lo, hi]] of Object.entries(NUM)) {
  const get = "get" + dv, set = "set" + dv;
  Reader.prototype["read_" + name] = function () {
    op("read_" + name);
    const at = this._take(size);
    return at < 0 ? 0 : this._view[get](at, true);
  };
  Writer.prototype["write_" + name] = function (v) {
    op("write_" + name, v);
    if (typeof v !== "number") fault("write_" + name + "(" + typeof v + ")");
    else if (name !== "float" && !(Number.isInteger(v) && lo <= v && v <= hi)) fault("write_" + name + "(" + v + ")");
    const at = this._room(size);
    // which of the many NaNs a number is does not survive being one in JavaScript
    if (name === "float" && v !== v) this._view.setUint32(at, 0x7fc00000, true);
    else this._view[set](at, v, true);
  };
}

// What a TypeScript user of the library sees.
const DTS = `
export class Reader {
    constructor(data: ArrayBuffer);
    failed: boolean;
    read_uint8(): number; read_uint16(): number; read_uint32(): number;
    read_int8(): number; read_int16(): number; read_int32(): number;
    read_float(): number; read_string(length: number): string;
}
export class Writer {
    constructor(buffer?: ArrayBuffer);
    write_uint8(value: number): void; write_uint16(value: number): void; write_uint32(value: number): void;
    write_int8(value: number): void; write_int16(value: number): void; write_int32(value: number): void;
    write_float(value: number): void; write_string(value: string): void;
    finish(): ArrayBuffer;
}
`;

module.exports = { Reader, Writer, reset, state, OpLimit, DTS, NUM };
