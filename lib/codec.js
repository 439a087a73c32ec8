"use strict";
// Reference codec: what the bytes and values of a model have to be.
const { NUM } = require("./packet");
const { BUILTIN } = require("./refcheck");

function enumWidth(d) { return d.variants.length <= 8 ? "uint8" : d.variants.length <= 16 ? "uint16" : "uint32"; }
function enumValue(i) { return Math.pow(2, i); }

/** Trace of primitive writes for a value. */
function encodeTrace(m, value) {
  const out = [];
  const scalar = (type, v) => {
    if (type === "string") { out.push(["uint32", v.length], ["string", v]); return; }
    if (BUILTIN.has(type)) { out.push([type, v]); return; }
    const d = m.types.get(type);
    if (d.kind === "enum") out.push([enumWidth(d), v]);
    else struct(d, v);
  };
  const struct = (d, v) => {
    for (const f of d.fields) {
      const x = v[f.name];
      if (f.array) {
        out.push(["uint32", x.length]);
        for (let i = 0; i < x.length; ++i) scalar(f.type, x[i]);
      } else if (f.optional) {
        if (x === undefined || x === null) out.push(["uint8", 0]);
        else { out.push(["uint8", 1]); scalar(f.type, x); }
      } else scalar(f.type, x);
    }
  };
  struct(m.types.get(m.export), value);
  return out;
}

function traceBytes(trace, utf16) {
  let size = 0;
  for (const [op, v] of trace) size += op === "string" ? v.length * (utf16 ? 2 : 1) : NUM[op][0];
  const buf = new ArrayBuffer(size), view = new DataView(buf);
  let at = 0;
  for (const [op, v] of trace) {
    if (op === "string") {
      for (let i = 0; i < v.length; ++i) {
        if (utf16) { view.setUint16(at, v.charCodeAt(i), true); at += 2; } else view.setUint8(at++, v.charCodeAt(i));
      }
    } else {
      // which NaN a store gives is not fixed by the language; the stand-in runtime uses this one too
      if (v !== v) view.setUint32(at, 0x7fc00000, true); else view["set" + NUM[op][1]](at, v, true);
      at += NUM[op][0];
    }
  }
  return buf;
}
function encode(m, value, utf16 = false) { return traceBytes(encodeTrace(m, value), utf16); }

class Bad extends Error {}
class TooMuch extends Error {}

/**
 * Decodes: {ok, value} or {ok: false, why}. Throws TooMuch if claimed array lengths ask for more than `maxItems`
 * elements (counted the way a decoder without early exit would loop).
 */
function decode(m, buf, { utf16 = false, maxItems = 1e6 } = {}) {
  const view = new DataView(buf);
  let at = 0, items = 0;
  let why = null, odd = false;
  const fail = (w) => { if (why === null) why = w; };
  const num = (op) => {
    if (why === "truncated" || at + NUM[op][0] > view.byteLength) {
      if (why !== "truncated") why = "truncated";
      return 0;
    }
    const v = view["get" + NUM[op][1]](at, true);
    at += NUM[op][0];
    return v;
  };
  const scalar = (type) => {
    if (++items > maxItems) throw new TooMuch();
    if (type === "string") {
      const n = num("uint32"), w = utf16 ? 2 : 1;
      if (why === "truncated" || at + n * w > view.byteLength) { why = "truncated"; return ""; }
      const codes = [];
      for (let i = 0; i < n; ++i, at += w) codes.push(utf16 ? view.getUint16(at, true) : view.getUint8(at));
      let s = "";
      for (let i = 0; i < codes.length; i += 4096) s += String.fromCharCode(...codes.slice(i, i + 4096));
      return s;
    }
    if (BUILTIN.has(type)) return num(type);
    const d = m.types.get(type);
    if (d.kind === "enum") {
      const v = num(enumWidth(d));
      const l = Math.log2(v);
      if (!(Number.isInteger(l) && l >= 0 && l < d.variants.length)) { fail("enum"); return undefined; }
      return v;
    }
    return struct(d);
  };
  const struct = (d) => {
    const v = {};
    for (const f of d.fields) {
      let x;
      if (f.array) {
        const n = num("uint32");
        if (items + n > maxItems) throw new TooMuch();
        x = [];
        for (let i = 0; i < n; ++i) x.push(scalar(f.type));
      } else if (f.optional) { const p = num("uint8"); if (p > 1) odd = true; x = p > 0 ? scalar(f.type) : undefined; }
      else x = scalar(f.type);
      Object.defineProperty(v, f.name, { value: x, enumerable: true, writable: true, configurable: true });
    }
    return v;
  };
  const value = struct(m.types.get(m.export));
  return why === null ? { ok: true, value, used: at, items, odd } : { ok: false, why, items, odd };
}

/** null if `got` is the value `want` of struct type `d`; otherwise a description of the first difference. */
function differs(m, type, want, got, path = "value") {
  const show = (v) => { try { return typeof v === "string" ? JSON.stringify(v.slice(0, 40)) : String(v); } catch (e) { return typeof v; } };
  const scalar = (type, want, got, path) => {
    if (BUILTIN.has(type)) {
      if (type === "float" && typeof got === "number") return Object.is(Math.fround(want), got) ? null : `${path}: expected ${Math.fround(want)}, got ${Object.is(got, -0) ? "-0" : got}`;
      return Object.is(want, got) ? null : `${path}: expected ${show(want)}, got ${show(got)}`;
    }
    const d = m.types.get(type);
    if (d.kind === "enum") return Object.is(want, got) ? null : `${path}: expected enum ${show(want)}, got ${show(got)}`;
    return struct(d, want, got, path);
  };
  const struct = (d, want, got, path) => {
    if (typeof got !== "object" || got === null || Array.isArray(got)) return `${path}: expected a struct, got ${show(got)}`;
    const names = new Set(d.fields.map((f) => f.name));
    for (const k of Object.keys(got)) if (!names.has(k)) return `${path}: unexpected field ${k}`;
    for (const f of d.fields) {
      const own = Object.prototype.hasOwnProperty.call(got, f.name);
      const w = want[f.name], g = own ? got[f.name] : undefined;
      const p = path + "." + f.name;
      if (f.array) {
        if (!Array.isArray(g)) return `${p}: expected an array, got ${show(g)}`;
        if (g.length !== w.length) return `${p}: expected ${w.length} elements, got ${g.length}`;
        for (let i = 0; i < w.length; ++i) {
          if (!(i in g)) return `${p}[${i}]: missing`;
          const e = scalar(f.type, w[i], g[i], `${p}[${i}]`);
          if (e) return e;
        }
      } else if (f.optional && (w === undefined || w === null)) {
        if (g !== undefined) return `${p}: expected absent, got ${show(g)}`;
      } else {
        if (!own) return `${p}: missing`;
        const e = scalar(f.type, w, g, p);
        if (e) return e;
      }
    }
    return null;
  };
  return scalar(type, want, got, path);
}

/** null if `v` is some value of the export, otherwise what is wrong with it. */
function malformed(m, v) {
  const scalar = (type, v, path) => {
    if (type === "string") return typeof v === "string" ? null : `${path}: ${typeof v} instead of a string`;
    if (BUILTIN.has(type)) {
      if (typeof v !== "number") return `${path}: ${typeof v} instead of a number`;
      const [, , lo, hi] = NUM[type];
      if (type !== "float" && !(Number.isInteger(v) && lo <= v && v <= hi)) return `${path}: ${v} is no ${type}`;
      return null;
    }
    const d = m.types.get(type);
    if (d.kind === "enum") {
      const l = Math.log2(v);
      return typeof v === "number" && Number.isInteger(l) && l >= 0 && l < d.variants.length ? null : `${path}: ${String(v)} is no variant of ${d.name}`;
    }
    return struct(d, v, path);
  };
  const struct = (d, v, path) => {
    if (typeof v !== "object" || v === null || Array.isArray(v)) return `${path}: ${v === null ? "null" : typeof v} instead of a struct`;
    for (const f of d.fields) {
      const own = Object.prototype.hasOwnProperty.call(v, f.name), x = own ? v[f.name] : undefined, p = path + "." + f.name;
      let e = null;
      if (f.array) {
        if (!Array.isArray(x)) return `${p}: ${typeof x} instead of an array`;
        for (let i = 0; i < x.length && !e; ++i) e = scalar(f.type, x[i], `${p}[${i}]`);
      } else if (!(f.optional && x === undefined)) e = own ? scalar(f.type, x, p) : `${p}: missing`;
      if (e) return e;
    }
    return null;
  };
  return struct(m.types.get(m.export), v, "value");
}

module.exports = { malformed, encodeTrace, traceBytes, encode, decode, differs, enumWidth, enumValue, TooMuch };
