"use strict";
// Schemas for the checks that run generated code: a systematic part (every chain of containers down to every kind of leaf),
// directed shapes, then random ones.
const gen = require("./gen"), { BUILTINS } = require("./refparse");
const subject = require("./subject"), names = require("./names");

const f = (name, type, mod = "") => ({ name, type, array: mod === "[]", optional: mod === "?" });
const en = (name, n, prefix = "V") => ({ kind: "enum", name, variants: Array.from({ length: n }, (_, i) => prefix + i) });
const st = (name, fields) => ({ kind: "struct", name, fields });

function leafFields() {
  const out = [];
  for (const t of [...BUILTINS, "E1", "E8", "E9", "E16", "E17", "E32", "Leaf", "Empty"]) for (const mod of ["", "[]", "?"]) out.push(f(`l_${t}_${mod === "" ? "p" : mod === "?" ? "o" : "a"}`, t, mod));
  return out;
}
const BASE = [en("E1", 1), en("E8", 8), en("E9", 9), en("E16", 16), en("E17", 17), en("E32", 32), st("Leaf", [f("u", "uint16"), f("s", "string"), f("e", "E9")]), st("Empty", [])];
/** One schema for each chain of at most `depth` containers, with every kind of leaf at its end. */
function* chains(depth) {
  const mods = ["", "[]", "?"];
  function* rec(k, chain) {
    yield chain;
    if (k > 0) for (const m of mods) yield* rec(k - 1, [...chain, m]);
  }
  for (const chain of rec(depth, [])) {
    const decls = [...BASE, st("T" + chain.length, leafFields())];
    for (let i = chain.length - 1; i >= 0; --i) decls.push(st("T" + i, [f("before", "uint8"), f("n", "T" + (i + 1), chain[i]), f("after", "uint16")]));
    yield { decls, export: "T0", profile: "chain" };
  }
}
/** Shapes that random schemas rarely have. */
function directed(rng) {
  const out = [];
  const deep = (n, mods) => {
    const decls = [st("D" + n, [f("v", "int16"), f("s", "string")])];
    for (let i = n - 1; i >= 0; --i) decls.push(st("D" + i, [f("d", "D" + (i + 1), mods[i % mods.length]), f("x", "uint8")]));
    return { decls, export: "D0", profile: "deep" };
  };
  out.push(deep(12, ["", "[]", "?"]), deep(40, [""]), deep(30, ["?"]), deep(14, ["[]"]), deep(60, ["?", ""]));
  out.push({ decls: [st("W", Array.from({ length: 300 }, (_, i) => f("f" + i, BUILTINS[i % 8], ["", "[]", "?"][i % 3])))], export: "W", profile: "very wide" });
  out.push({ decls: [en("E", 9), st("S", [f("e", "E"), f("s", "string")]), st("W", Array.from({ length: 530 }, (_, i) => f("f" + i, ["E", "uint8", "S", "float", "string"][i % 5], ["", "[]", "?"][i % 3])))], export: "W", profile: "very wide" });
  out.push({ decls: [st("N", Array.from({ length: 270 }, (_, i) => f("f" + i, BUILTINS[i % 8], ["", "?", "[]"][i % 3]))), st("X", [f("a", "N"), f("b", "N", "[]"), f("c", "N", "?")])], export: "X", profile: "very wide" });
  out.push({ decls: [...Array.from({ length: 140 }, (_, i) => (i % 2 ? en("T" + i, 1 + (i % 32)) : st("T" + i, [f("v", BUILTINS[i % 8])]))), st("X", Array.from({ length: 140 }, (_, i) => f("t" + i, "T" + i, ["", "?", "[]"][i % 3])))], export: "X", profile: "very wide" });
  out.push({ decls: [...Array.from({ length: 120 }, (_, i) => en("E" + i, 1 + (i % 32))), st("M", Array.from({ length: 120 }, (_, i) => f("e" + i, "E" + i, ["", "[]", "?"][i % 3])))], export: "M", profile: "many enums" });
  out.push({ decls: [...Array.from({ length: 150 }, (_, i) => st("S" + i, [f("a" + (i % 5), "uint8"), f("b", "string", "?")])), st("M", Array.from({ length: 150 }, (_, i) => f("s" + i, "S" + i, ["", "[]", "?"][i % 3])))], export: "M", profile: "many structs" });
  // one type reached along many paths
  out.push({ decls: [st("A", [f("x", "uint8"), f("e", "E")]), en("E", 10), st("B", [f("p", "A"), f("q", "A", "[]"), f("r", "A", "?")]), st("C", [f("p", "B"), f("q", "B", "[]"), f("r", "A"), f("s", "B", "?")]), st("X", [f("c", "C"), f("b", "B"), f("a", "A", "[]"), f("d", "C", "[]")])], export: "X", profile: "diamond" });
  // a struct with nothing in it, alone and as elements
  out.push({ decls: [st("N", [])], export: "N", profile: "empty" }, { decls: [st("N", []), st("X", [f("n", "N"), f("m", "N", "[]"), f("o", "N", "?")])], export: "X", profile: "empty elements" });
  // every pair of colliding names, nested both ways
  const C = ["a", "b", "a_b", "a_", "_b", "_", "len", "item", "index", "temp", "a_len", "a_item", "a_temp", "item_len", "a_item_b"];
  for (const m1 of ["", "[]", "?"]) for (const m2 of ["", "[]", "?"]) {
    const i1 = rng.shuffle(C).slice(0, 7), i2 = rng.shuffle(C).slice(0, 7), names = rng.shuffle(C).slice(0, 8);
    out.push({ decls: [en("K", 3), st("I", i1.map((n, i) => f(n, ["string", "K", "uint8"][i % 3], [m1, m2, ""][i % 3]))), st("J", i2.map((n, i) => f(n, ["I", "string", "K", "float"][i % 4], [m2, m1][i % 2]))),
      st("X", names.map((n, i) => f(n, ["J", "I", "string", "K"][i % 4], [m1, m2, "", "[]"][(i + 1) % 4])))], export: "X", profile: "names" });
  }
  // structs all of whose fields are of one kind, exported and inside another one
  for (const type of [...BUILTINS, "K1", "K32", "I", "N"]) for (const mod of ["", "[]", "?"]) for (const n of [1, 3]) {
    const decls = [en("K1", 1), en("K32", 32), st("I", [f("v", "uint16")]), st("N", []), st("H", Array.from({ length: n }, (_, i) => f("f" + i, type, mod)))].filter((d) => d.name === "H" || d.name === type);
    out.push({ decls, export: "H", profile: "uniform" }, { decls: [...decls, st("X", [f("h", "H", rng.pick(["", "[]", "?"]))])], export: "X", profile: "uniform inside" });
  }
  // exports named like variables of the generated code, with fields named like members of what these hold
  for (const name of ["reader", "data", "writer", "buffer", "output", "output_", "this_a"]) out.push({ decls: [en("K", 3), st(name, ["failed", "byteLength", "slice", "finish", "data", "reader", "output", "read"].map((n, i) => f(n, ["uint8", "string", "K"][i % 3], ["", "?", "[]"][i % 2])))], export: name, profile: "variables" });
  // names that differ in case only, or begin alike
  for (const N of [["Point", "point", "POINT", "pOINT"], ["A", "AA", "AAA", "a"], ["Item", "Items", "item", "Item_"], ["x", "X", "x1", "x_1"]]) {
    for (let k = 0; k < 4; ++k) {
      const [a, b, c, d] = [...N.slice(k), ...N.slice(0, k)];
      out.push({ decls: [{ kind: "enum", name: a, variants: N.slice() }, st(b, [f(a, a), f(b, "uint8", "?")]), st(c, [f(c, b, "[]"), f(a, a, "?")]), st(d, [f(a, a), f(b, b, "?"), f(c, c), f(d, "string")])], export: d, profile: "case" });
    }
  }
  return out;
}
/** The schema with more types the export does not use: enums, structs, structs using each other and used ones. */
function addUnused(rng, s) {
  const used = new Set(s.decls.map((d) => d.name)), decls = s.decls.slice();
  const n = rng.int(1, 5);
  for (let i = 0; i < n; ++i) {
    const name = gen.ident(rng, (x) => !used.has(x) && names.ok("type", x));
    used.add(name);
    if (rng.bool(0.3)) decls.push(en(name, rng.pick(gen.ENUM_SIZES)));
    else {
      const others = decls.filter((d) => d.name !== name).map((d) => d.name);
      decls.push(st(name, Array.from({ length: rng.int(0, 5) }, (_, k) => f("f" + k, rng.bool(0.6) ? rng.pick(others) : rng.pick(BUILTINS), rng.pick(["", "[]", "?"])))));
    }
  }
  return { ...s, decls };
}
const LENGTHS = [127, 128, 255, 256, 257, 1025, 4097, 32768, 65535, 65536, 65537, 100000, 131073];
const ELEMENTS = {
  u: (i) => i & 255, fl: (i) => Math.fround(i / 3), i3: (i) => -i | 0, k: (i) => 2 ** (i % 9), e: (i) => 2 ** (i % 32), p: (i) => ({ a: i & 255, k: i % 3 ? undefined : 256 }), n: (i) => "s" + (i % 10), z: () => ({}),
};
/**
 * Long strings and arrays at every kind of place: {item, values} with values a list of functions giving a value. Each
 * kind of collection has `count` of the lengths, in every nesting.
 */
function* large(ctx, count) {
  const rng = ctx.rng;
  let i = 0;
  for (const chain of [[], [""], ["?"], ["[]"], ["", ""], ["", "[]"], ["[]", "?"], ["[]", "[]"], ["?", "", "[]", ""]]) {
    const fields = [f("u", "uint8", "[]"), f("s", "string"), f("o", "string", "?"), f("p", "P", "[]"), f("n", "string", "[]"), f("k", "K", "[]"), f("e", "L", "[]"), f("fl", "float", "[]"), f("i3", "int32", "[]"), f("z", "Z", "[]"), f("end", "uint32")];
    const decls = [en("K", 9), en("L", 32), st("Z", []), st("P", [f("a", "uint8"), f("k", "K", "?")]), st("X" + chain.length, fields)];
    for (let d = chain.length - 1; d >= 0; --d) decls.push(st("X" + d, [f("before", "uint8"), f("x", "X" + (d + 1), chain[d]), f("after", "uint16", "[]")]));
    const s = { decls, export: "X0", profile: "large" }, item = { schema: s, text: gen.text(s), model: gen.modelOf(s) };
    const jobs = [];
    for (const name of ["u", "s", "o", "p", "n", "n1", "k", "e", "fl", "i3", "z"]) for (const n of rng.shuffle(LENGTHS).slice(0, count)) if (ctx.mine(i++)) jobs.push([name, n]);
    if (!jobs.length) continue;
    yield { item, values: jobs.map(([name, n]) => () => {
      const v = gen.uniformValue(rng, item.model, 1, true, false);
      let at = v;
      for (const m of chain) at = m === "[]" ? at.x[0] : at.x;
      if (name === "s" || name === "o") at[name] = "ab\u00ff".repeat(n).slice(0, n);
      else if (name === "n1") at.n = ["x", "\u00fe".repeat(n), "y"];
      else at[name] = Array.from({ length: n }, (_, k) => ELEMENTS[name](k));
      return v;
    }) };
  }
}
/** Batches of items; the amount of random ones is by tier. */
function* batches(ctx, { random, size = 24, depth = 2, opts = {} }) {
  let batch = [];
  const flush = () => { const b = batch; batch = []; return b; };
  let i = 0;
  const sys = [...chains(depth), ...directed(ctx.rng)];
  for (const s of sys) {
    if (!ctx.mine(i++)) continue;
    batch.push(subject.make(ctx.rng, { schema: s }));
    if (batch.length >= size / 2) yield flush();
  }
  if (batch.length) yield flush();
  for (let k = 0; k < random; ++k) {
    if (ctx.late()) return;
    batch.push(subject.make(ctx.rng, opts));
    if (batch.length >= size) yield flush();
  }
  if (batch.length) yield flush();
}
module.exports = { batches, large, chains, directed, addUnused, f, en, st };
