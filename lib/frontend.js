"use strict";
// Texts for the checks of the front end, common to several of them.
const gen = require("./gen"), { FLAWS, flawed, nodesOf } = require("./flaws"), { BUILTINS } = require("./refparse");

const f = (name, type, mod = "") => ({ name, type, array: mod === "[]", optional: mod === "?" });
const MODS = ["", "[]", "?"];

/** Every "has a field of" relation over n structs (bit i*n+j: struct i has a field of struct j), as nodes. */
function digraph(rng, n, bits) {
  const nodes = [];
  for (let i = 0; i < n; ++i) {
    const fields = [];
    for (let j = 0; j < n; ++j) if (Math.floor(bits / 2 ** (i * n + j)) % 2) fields.push(f("f" + j, "S" + j, rng.pick(MODS)));
    if (rng.bool(0.5)) fields.splice(rng.int(0, fields.length), 0, f("b", rng.pick(BUILTINS)));
    nodes.push({ kind: "struct", name: "S" + i, fields });
  }
  const order = rng.shuffle(nodes);
  order.splice(rng.int(0, n), 0, { kind: "export", name: "S" + rng.int(0, n - 1) });
  return order;
}
/** All pairs of positions and kinds for a repeated field name, in the exported struct and in one it does not use. */
function* duplicateFields(rng) {
  const types = ["uint8", "string", "E", "Before", "After"];
  for (const inExport of [true, false]) for (let i = 0; i < 4; ++i) for (let j = i + 1; j < 4; ++j) for (const t1 of types) for (const t2 of types) {
    const fields = [0, 1, 2, 3].map((k) => f("f" + k, rng.pick(types), rng.pick(MODS)));
    fields[i] = f("dup", t1, rng.pick(MODS));
    fields[j] = f("dup", t2, rng.pick(MODS));
    const bad = { kind: "struct", name: "Bad", fields };
    yield [{ kind: "enum", name: "E", variants: ["A", "B"] }, { kind: "struct", name: "Before", fields: [f("x", "uint8")] }, bad, { kind: "struct", name: "After", fields: [f("y", "E")] },
      ...(inExport ? [{ kind: "export", name: "Bad" }] : [{ kind: "struct", name: "X", fields: [f("a", "After")] }, { kind: "export", name: "X" }])];
  }
}
/** Enums of every size from 0 to 70, used and unused. */
function* enumSizes() {
  for (let n = 0; n <= 70; ++n) for (const mod of ["none", ...MODS]) {
    yield [{ kind: "struct", name: "X", fields: [f("a", "uint8"), ...(mod === "none" ? [] : [f("e", "E", mod)])] }, { kind: "enum", name: "E", variants: Array.from({ length: n }, (_, i) => "V" + i) }, { kind: "export", name: "X" }];
  }
}
/** Every pair of positions of a repeated variant, for some sizes. */
function* duplicateVariants() {
  for (const n of [2, 3, 8, 9, 16, 17, 32]) for (let i = 0; i < n; ++i) for (let j = i + 1; j < n; ++j) {
    if (n > 9 && i > 1 && j < n - 2 && (i + j) % 5) continue;
    const variants = Array.from({ length: n }, (_, k) => "V" + k);
    variants[j] = variants[i];
    yield [{ kind: "enum", name: "E", variants }, { kind: "struct", name: "X", fields: [f("e", "E")] }, { kind: "export", name: "X" }];
  }
}
/** Large schemas with one problem, its parts far from each other or deep inside. */
function* largeFlawed(rng) {
  const st = (name, fields) => ({ kind: "struct", name, fields }), en = (name, n) => ({ kind: "enum", name, variants: Array.from({ length: n }, (_, i) => "V" + i) }), ex = (name) => ({ kind: "export", name });
  const wide = (n, types) => Array.from({ length: n }, (_, i) => f("f" + i, types[i % types.length], rng.pick(MODS)));
  const kinds = [["uint8"], ["string", "E", "B", "float"]], base = () => [en("E", 3), st("B", [f("x", "uint8")])];
  for (const n of [20, 40, 70, 140, 270, 600, 1100]) {
    for (const types of kinds) for (const inExport of [true, false]) {
      const around = (fields) => [...base(), st("Wide", fields), ...(inExport ? [ex("Wide")] : [st("X", [f("a", "B")]), ex("X")])];
      const spoil = (change) => { const fields = wide(n, types); change(fields); return around(fields); };
      for (const [i, j] of [[0, n - 1], [0, n >> 1], [n >> 1, n - 1], [n - 2, n - 1], [rng.int(0, n - 2), n - 1]]) yield spoil((fs) => { fs[j].name = fs[i].name; });
      for (const i of [0, n >> 1, n - 1]) { yield spoil((fs) => { fs[i].array = fs[i].optional = true; }); yield spoil((fs) => { fs[i].type = "Nope"; }); yield spoil((fs) => { fs[i].type = "Wide"; }); }
    }
    const many = () => [...base(), ...Array.from({ length: n }, (_, i) => (i % 3 ? st("T" + i, wide(1 + (i % 4), ["uint8", "E", "T" + (i - i % 3)])) : en("T" + i, 1 + (i % 32))))];
    const among = (change) => { const ds = many(); change(ds); return [...ds, st("X", [f("a", "T0"), f("b", "T" + (n - 1))]), ex("X")]; };
    yield among((ds) => ds.push({ ...ds[2] }));
    yield among((ds) => ds.push(st(ds[3].name, [])));
    yield among((ds) => ds.push(st("B", [])));
    yield among((ds) => ds.unshift(ex("X")));
    yield among((ds) => ds.splice(rng.int(0, n), 0, ex("B")));
    for (const size of [0, 33]) for (const at of [0, n >> 1, n]) yield among((ds) => ds.splice(at, 0, en("Odd", size)));
    for (const at of [0, n >> 1, n]) yield among((ds) => ds.splice(at, 0, { kind: "enum", name: "Odd", variants: ["A", "B", "A"] }));
    // chains that end badly, or where they began
    for (const [end, mods] of [["C0", [""]], ["C0", MODS], ["Nope", ["", "?"]], ["C" + (n - 1), [""]], ["C" + (n >> 1), ["[]", "?"]]]) for (const used of [true, false]) {
      const chain = Array.from({ length: n }, (_, i) => st("C" + i, [f("k", "uint8"), f("n", i + 1 < n ? "C" + (i + 1) : end, mods[i % mods.length])]));
      const all = [...chain, st("X", [f("a", used ? "C0" : "uint8")]), ex("X")];
      yield all;
      yield rng.shuffle(all);
    }
    const deep = (inner) => [...Array.from({ length: n }, (_, i) => st("C" + i, [f("n", "C" + (i + 1))])), ...inner, ex("C0")];
    yield deep([st("C" + n, [f("a", "uint8"), f("a", "uint8")])]);
    yield deep([st("C" + n, [{ name: "a", type: "uint8", array: true, optional: true }])]);
    yield deep([en("C" + n, 0)]);
    yield deep([en("C" + n, 33)]);
    yield deep([]);
  }
}
/** Random schema with 1 to 3 kinds of problems. */
function randomFlawed(rng) {
  const kinds = Object.keys(FLAWS), n = rng.weighted([[6, 1], [2, 2], [1, 3]]);
  const picked = Array.from({ length: n }, () => rng.pick(kinds));
  const s = gen.schema(rng, { maxLeaves: rng.pick([20, 40, 90]) });
  return { kinds: picked, nodes: flawed(rng, s, picked) };
}
module.exports = { digraph, duplicateFields, enumSizes, duplicateVariants, largeFlawed, randomFlawed, nodesOf };
