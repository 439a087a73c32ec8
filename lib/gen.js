"use strict";
// Random schemas, layouts, values and packets.
const { BUILTINS, RESERVED } = require("./refparse");
const { BUILTIN } = require("./refcheck");
const { enumValue } = require("./codec");
const names = require("./names");

const LETTERS = "abcdefghijklmnopqrstuvwxyz";
const WORD = LETTERS + LETTERS.toUpperCase() + "0123456789_";

// Field names chosen so that joining them with '_' and the suffixes of generated locals gives the same text in many ways.
const COLLIDE = ["a", "b", "a_b", "b_a", "a_", "_b", "_", "__", "len", "item", "index", "temp", "a_len", "a_item", "a_index", "a_temp",
  "b_len", "a_item_b", "item_a", "a_b_len", "a_b_item", "len_", "item_len", "a__b", "b_", "_a", "a_a", "a_a_b", "item_item", "b_temp", "b_index", "output", "output_a",
  "this_a", "reader", "writer", "data", "buffer", "value", "i", "n"];
const KEYWORDISH = ["strings", "string_", "string1", "structs", "struct_", "structure", "enums", "enum_", "enumeration", "int8_", "int8x", "int16s", "int32_t", "uint8s",
  "uint16_", "uint32x", "uint", "int", "floats", "floating", "float_", "float32", "exporter", "exports", "export_", "exported", "stringstring", "_string", "_enum",
  "uint88", "uint161", "int321", "Struct", "Enum", "STRING", "Uint8", "Float", "String_"];
const PLAIN = ["x", "y", "z", "id", "pos", "flag", "names", "values", "uid", "entities", "hp", "speed", "kind", "state", "target", "owner", "count", "text", "title", "color",
  "Position", "Entity", "State", "Flag", "Value", "Kind", "Color", "Item", "Player", "World", "Chunk", "Tile", "Message", "Vec", "A", "B", "C", "D", "E", "F", "T0", "T1", "T2"];

function randomIdent(rng, lo = 1, hi = 12) {
  const n = rng.int(lo, hi);
  let s = rng.pick(LETTERS + LETTERS.toUpperCase() + "_");
  while (s.length < n) s += rng.pick(WORD);
  return s;
}
function ident(rng, ok, style) {
  for (let k = 0; ; ++k) {
    const s = k > 40 ? randomIdent(rng, 3, 16) : rng.weighted([
      [style === "collide" ? 8 : 0.7, () => rng.pick(COLLIDE)],
      [1, () => rng.pick(KEYWORDISH)],
      [0.6, () => rng.pick(names.PROBES)],
      [4, () => rng.pick(PLAIN)],
      [2, () => randomIdent(rng)],
      [1, () => rng.pick(PLAIN) + "_" + rng.pick(COLLIDE)],
      [style === "long" ? 2 : 0.1, () => randomIdent(rng, 30, 300)],
    ])();
    if (!RESERVED.has(s) && ok(s)) return s;
  }
}

const ENUM_SIZES = [1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 18, 30, 31, 32];

/**
 * A random well-formed schema: { decls, export }, decls in an order in which types come before their users.
 * opts: types, fields, maxLeaves, depthBias, style
 */
function schema(rng, opts = {}) {
  const profile = opts.profile || rng.weighted([[6, "mixed"], [2, "deep"], [2, "wide"], [2, "enums"], [3, "collide"], [1, "tiny"], [0.6, "long"], [1, "diamond"]]);
  const style = profile === "collide" ? "collide" : profile === "long" ? "long" : "mixed";
  const maxLeaves = opts.maxLeaves || rng.weighted([[6, 40], [3, 90], [1, 250]]);
  const used = new Set();
  const leaves = new Map(BUILTINS.map((b) => [b, 1]));
  const depth = new Map(BUILTINS.map((b) => [b, 0]));
  const decls = [];
  const nTypes = profile === "tiny" ? rng.int(0, 1) : profile === "deep" ? rng.int(4, 14) : profile === "wide" ? rng.int(1, 5) : rng.int(1, 9);
  // types are only ever declared in the export's namespace, the export itself is a class
  const tname = (role) => { const s = ident(rng, (s) => !used.has(s) && names.ok(role, s), style); used.add(s); return s; };
  const makeEnum = () => {
    const n = rng.bool(0.75) ? rng.pick(ENUM_SIZES) : rng.int(1, 32);
    const vs = new Set();
    while (vs.size < n) vs.add(ident(rng, (s) => !vs.has(s) && names.ok("variant", s), style));
    return { kind: "enum", name: tname("type"), variants: [...vs] };
  };
  const makeStruct = (isExport) => {
    const name = tname(isExport ? "export" : "type");
    const role = isExport ? "export-field" : "field";
    const user = decls.map((d) => d.name);
    let n = profile === "wide" ? rng.int(5, opts.wide || rng.pick([12, 20, 45])) : rng.weighted([[1, 0], [3, 1], [5, rng.int(2, 4)], [4, rng.int(3, 8)], [1, rng.int(8, 16)]]);
    if (isExport && n === 0 && rng.bool(0.8)) n = rng.int(1, 4);
    const fields = [], fnames = new Set();
    let total = 0;
    for (let i = 0; i < n; ++i) {
      let type;
      if (user.length && rng.bool(profile === "deep" || profile === "diamond" ? 0.75 : 0.5)) {
        // favour recent types, so that nesting happens
        type = rng.bool(profile === "deep" ? 0.7 : 0.4) ? user[user.length - 1 - Math.floor(rng.float() * rng.float() * Math.min(user.length, 3))] : rng.pick(user);
      } else type = rng.weighted([[3, "string"], [7, rng.pick(BUILTINS)]]);
      if (total + leaves.get(type) > maxLeaves) type = rng.pick(BUILTINS);
      total += leaves.get(type);
      const fname = ident(rng, (s) => !fnames.has(s) && names.ok(role, s), style);
      fnames.add(fname);
      const mod = rng.weighted([[5, 0], [3, 1], [3, 2]]);
      fields.push({ name: fname, type, array: mod === 1, optional: mod === 2 });
    }
    if (isExport && user.length) {
      // make sure most types are reachable
      for (const t of user) {
        if (total + leaves.get(t) > maxLeaves || rng.bool(0.4) || fields.some((f) => f.type === t)) continue;
        total += leaves.get(t);
        const fname = ident(rng, (s) => !fnames.has(s) && names.ok(role, s), style);
        fnames.add(fname);
        const mod = rng.int(0, 2);
        fields.splice(rng.int(0, fields.length), 0, { name: fname, type: t, array: mod === 1, optional: mod === 2 });
      }
    }
    leaves.set(name, Math.max(1, total));
    return { kind: "struct", name, fields };
  };
  for (let i = 0; i < nTypes; ++i) {
    const d = rng.bool(profile === "enums" ? 0.7 : 0.35) ? makeEnum() : makeStruct(false);
    if (d.kind === "enum") leaves.set(d.name, 1);
    decls.push(d);
  }
  const ex = makeStruct(true);
  decls.push(ex);
  return { decls, export: ex.name, profile };
}

/** The model used by oracles, straight from the generator's own data (no parsing involved). */
function modelOf(s) {
  const { model } = require("./refcheck");
  return model([...s.decls, { kind: "export", name: s.export }]);
}

// ---- text -----------------------------------------------------------------------------------------

const COMMENT = ["", " hello", "#", " a: uint8", " export X", " }", " { ] [ , ? :", "\ttabs\t", " emoji \u{1F600} café 中文", " struct { x: float }", "!\"$%&/()=", " 'quoted' \"text\" \\n", "-----", " \u0000\u0001\u007f", "   \u0085  ", " a\rb: uint8", "long ".repeat(30), "x".repeat(700), "\u4e2d".repeat(2100)];

/** A layout gives the white space at each kind of place. */
function layout(rng, kind) {
  if (kind === "plain" || !rng) {
    return { ws: () => "", one: () => " ", wsn: () => "", sep: (last) => (last ? "" : ", "), open: () => " ", close: () => " ", afterDecl: () => "\n", comment: () => "", nl: "\n", lead: () => "", end: () => "\n" };
  }
  const nl = rng.weighted([[4, "\n"], [2, "\r\n"], [0.3, "\r"]]);
  const dense = rng.bool(0.2);
  const blank = () => (dense ? "" : rng.weighted([[4, ""], [3, " "], [1, "  "], [1, "\t"], [0.3, " \t  "]]));
  const some = () => (dense ? "" : rng.weighted([[4, ""], [2, " "], [2, nl], [1, nl + "    "], [0.5, " " + nl + nl], [0.4, "\t" + nl + "\t"], [0.2, nl + " " + nl + "  "], [0.02, " ".repeat(1200)], [0.02, nl.repeat(600)]]));
  const comments = nl !== "\r" && rng.bool(0.6);
  const comment = (p) => (comments && rng.bool(p) ? "#" + rng.pick(COMMENT) + nl + (rng.bool(0.3) ? "  #" + rng.pick(COMMENT) + nl : "") : "");
  const commas = rng.weighted([[5, 1], [1, 0], [2, 0.5]]);
  return {
    ws: blank, one: () => blank(), wsn: some, nl, comment,
    sep: (last) => {
      if (last) return rng.bool(0.4) ? "," + some() : "";
      return rng.bool(commas) ? some() + "," + some() : " " + some();
    },
    open: some, close: some,
    lead: () => some() + comment(0.4),
    afterDecl: () => (dense && rng.bool(0.5) ? "" : some() + (rng.bool(0.9) ? nl : "") + some() + comment(0.25)),
    end: () => some() + comment(0.3) + some() + (comments && rng.bool(0.2) ? "#" + rng.pick(COMMENT) : ""),
  };
}
/** Text of nodes, in the given order. */
function nodesText(nodes, rng = null, kind = null) {
  const L = layout(rng, kind || (rng ? "random" : "plain"));
  let out = L.lead();
  const body = (d) => {
    let t = L.ws() + d.name + L.ws() + ":" + L.one() + d.kind + L.one() + "{" + L.open();
    if (d.kind === "enum") {
      d.variants.forEach((v, i) => { t += v + L.sep(i === d.variants.length - 1); });
    } else {
      d.fields.forEach((f, i) => {
        t += L.comment(0.15);
        t += f.name + L.ws() + (f.optional ? "?" : "") + ":" + L.one() + f.type + (f.array ? "[]" : "");
        t += f.type === "" ? "," : L.sep(i === d.fields.length - 1);
        t += L.comment(0.1);
      });
    }
    return t + L.close() + "}";
  };
  nodes.forEach((n, i) => {
    if (n.kind !== "export") { out += body(n) + L.afterDecl(); return; }
    out += L.ws() + "export" + (L.ws() || " ") + n.name;
    if (i === nodes.length - 1) return;
    // the name has to end somewhere
    out += L.afterDecl();
    if (!/[ \t\r\n]$/.test(out)) out += " ";
  });
  return out + L.end();
}
function text(s, rng = null, kind = null) {
  const nodes = s.decls.slice(), ex = { kind: "export", name: s.export };
  nodes.splice(rng && kind !== "plain" ? rng.weighted([[4, nodes.length], [1, rng.int(0, nodes.length)]]) : nodes.length, 0, ex);
  return nodesText(nodes, rng, kind);
}

// ---- values ---------------------------------------------------------------------------------------

const F32 = new Float32Array(1), U32 = new Uint32Array(F32.buffer);
const INTS = { uint8: [0, 255], uint16: [0, 65535], uint32: [0, 4294967295], int8: [-128, 127], int16: [-32768, 32767], int32: [-2147483648, 2147483647] };
const STRINGS = ["", "a", "hello", "0", "null", "undefined", " ", "\n", "\0", "x".repeat(255), "y".repeat(256), "ÿ\u0080", "__proto__"];
const USTRINGS = ["中文", "\u{1F600}", "\ud800", "café", "￿\u0000 ", "\u{10ffff}".repeat(3)];

function scalarValue(rng, m, type, budget, utf16) {
  if (Object.hasOwn(INTS, type)) {
    const [lo, hi] = INTS[type];
    return rng.weighted([[1, lo], [1, hi], [1, 0], [1, 1], [1, lo + 1], [1, hi - 1], [1, Math.floor((lo + hi) / 2) + 1], [4, rng.int(lo, hi)], [1, rng.int(Math.max(lo, -300), Math.min(hi, 300))]]);
  }
  if (type === "float") {
    return rng.weighted([[3, Math.fround(rng.int(-1000, 1000) / 8)], [1, 0], [1, -0], [1, Infinity], [1, -Infinity], [1, NaN], [1, 1.401298464324817e-45], [1, 3.4028234663852886e38], [1, 0.1],
      [3, (() => { U32[0] = rng.u32(); return F32[0]; })()]]);
  }
  if (type === "string") {
    if (utf16 && rng.bool(0.5)) return rng.pick(USTRINGS);
    if (rng.bool(0.5)) return rng.pick(STRINGS);
    let s = "";
    const n = rng.int(0, 20);
    for (let i = 0; i < n; ++i) s += String.fromCharCode(rng.int(0, utf16 ? 0xffff : 0xff));
    return s;
  }
  const d = m.types.get(type);
  if (d.kind === "enum") return enumValue(rng.weighted([[1, 0], [1, d.variants.length - 1], [3, rng.int(0, d.variants.length - 1)]]));
  return structValue(rng, m, d, budget, utf16);
}
function structValue(rng, m, d, budget, utf16) {
  const v = {};
  for (const f of d.fields) {
    let x;
    budget.n -= 1;
    if (f.array) {
      let n = budget.n <= 0 ? 0 : rng.weighted([[3, 0], [3, 1], [3, 2], [3, rng.int(2, 6)], [0.3, budget.big && BUILTIN.has(f.type) ? rng.int(200, 400) : 3]]);
      x = [];
      for (let i = 0; i < n; ++i) { budget.n -= 1; x.push(scalarValue(rng, m, f.type, budget, utf16)); }
    } else if (f.optional) {
      x = rng.weighted([[3, 0], [0.7, 1], [6, 2]]);
      x = x === 0 || budget.n < -2000 ? undefined : x === 1 ? null : scalarValue(rng, m, f.type, budget, utf16);
    } else x = scalarValue(rng, m, f.type, budget, utf16);
    v[f.name] = x;
  }
  return v;
}
function value(rng, m, opts = {}) {
  return structValue(rng, m, m.types.get(m.export), { n: opts.budget || rng.pick([20, 60, 300]), big: opts.big }, opts.utf16);
}

/** Value of the export with every array given the same length and every optional the same presence. */
function uniformValue(rng, m, len, present, utf16) {
  const struct = (d) => {
    const v = {};
    for (const f of d.fields) {
      const one = () => (BUILTIN.has(f.type) || m.types.get(f.type).kind === "enum" ? scalarValue(rng, m, f.type, { n: 0 }, utf16) : struct(m.types.get(f.type)));
      v[f.name] = f.array ? Array.from({ length: len }, one) : f.optional && !present ? undefined : one();
    }
    return v;
  };
  return struct(m.types.get(m.export));
}

// ---- coverage -------------------------------------------------------------------------------------

/** Distinct shapes met in a model: chains of containers (at most the last four) down to each leaf. */
function shapes(m, cap = 400) {
  const out = new Set();
  const kind = (t) => (BUILTIN.has(t) ? t : m.types.get(t).kind === "enum" ? "enum" + (m.types.get(t).variants.length <= 8 ? 8 : m.types.get(t).variants.length <= 16 ? 16 : 32) : "struct");
  const walk = (d, chain) => {
    for (const f of d.fields) {
      if (out.size > cap) return;
      const step = kind(f.type) + (f.array ? "[]" : f.optional ? "?" : "");
      const c = [...chain, step].slice(-4);
      out.add(c.join("."));
      const sub = m.types.get(f.type);
      if (sub && sub.kind === "struct") walk(sub, c);
    }
  };
  walk(m.types.get(m.export), []);
  return out;
}

module.exports = { schema, modelOf, text, nodesText, value, uniformValue, scalarValue, shapes, ident, randomIdent, COLLIDE, KEYWORDISH, PLAIN, COMMENT, ENUM_SIZES };
