"use strict";
// Puts problems the type checker has to find into well-formed schemas. Works on nodes ({kind: enum|struct|export}).
const gen = require("./gen"), { BUILTINS } = require("./refparse");

const MODS = ["", "[]", "?"];
const field = (name, type, mod = "") => ({ name, type, array: mod === "[]", optional: mod === "?" });
const structs = (nodes) => nodes.filter((n) => n.kind === "struct");
const enums = (nodes) => nodes.filter((n) => n.kind === "enum");
const names = (nodes) => new Set(nodes.map((n) => n.name));
function fresh(rng, nodes, extra = []) { const used = new Set([...names(nodes), ...extra]); return gen.ident(rng, (s) => !used.has(s)); }
function insertAt(rng, xs, x) { xs.splice(rng.weighted([[1, 0], [1, xs.length], [2, rng.int(0, xs.length)]]), 0, x); }
const anyType = (rng, nodes) => rng.pick([...BUILTINS, ...nodes.filter((n) => n.kind !== "export").map((n) => n.name)]);
function someStruct(rng, nodes) {
  const s = structs(nodes);
  if (s.length) return rng.pick(s);
  const d = { kind: "struct", name: fresh(rng, nodes), fields: [] };
  insertAt(rng, nodes, d);
  return d;
}
function someEnum(rng, nodes) {
  const s = enums(nodes);
  if (s.length && rng.bool(0.7)) return rng.pick(s);
  const d = { kind: "enum", name: fresh(rng, nodes), variants: ["A", "B"] };
  insertAt(rng, nodes, d);
  if (rng.bool(0.5)) { const t = someStruct(rng, nodes); insertAt(rng, t.fields, field(fresh(rng, [], t.fields.map((f) => f.name)), d.name, rng.pick(MODS))); }
  return d;
}
const addField = (rng, s, type, mod) => insertAt(rng, s.fields, field(gen.ident(rng, (x) => !s.fields.some((f) => f.name === x)), type, mod));

const FLAWS = {
  "no-export": (rng, nodes) => { for (let i = nodes.length - 1; i >= 0; --i) if (nodes[i].kind === "export") nodes.splice(i, 1); },
  "many-exports": (rng, nodes) => {
    const e = nodes.find((n) => n.kind === "export") || { kind: "export", name: someStruct(rng, nodes).name };
    insertAt(rng, nodes, { kind: "export", name: rng.bool() ? e.name : someStruct(rng, nodes).name });
    if (rng.bool(0.2)) insertAt(rng, nodes, { kind: "export", name: e.name });
  },
  "export-enum": (rng, nodes) => { const d = someEnum(rng, nodes); const e = nodes.find((n) => n.kind === "export"); if (e) e.name = d.name; else insertAt(rng, nodes, { kind: "export", name: d.name }); },
  "export-builtin": (rng, nodes) => { const e = nodes.find((n) => n.kind === "export"); const b = rng.pick(BUILTINS); if (e) e.name = b; else insertAt(rng, nodes, { kind: "export", name: b }); },
  "export-unknown": (rng, nodes) => {
    const e = nodes.find((n) => n.kind === "export");
    const used = names(nodes.filter((n) => n.kind !== "export"));
    const name = rng.weighted([[3, () => fresh(rng, nodes)], [2, () => (e ? e.name + "x" : "Nope")], [1, () => (e && e.name.length > 1 ? e.name.slice(0, -1) : "Nope")], [1, () => { const s = someStruct(rng, nodes); return s.fields.length ? s.fields[0].name : "nope"; }], [1, () => (e ? e.name.toUpperCase() : "NOPE")]])();
    const real = used.has(name) || BUILTINS.includes(name) || !/^[A-Za-z_]/.test(name) ? fresh(rng, nodes) : name;
    if (e) e.name = real; else insertAt(rng, nodes, { kind: "export", name: real });
  },
  "dup-decl": (rng, nodes) => {
    const decls = nodes.filter((n) => n.kind !== "export");
    const d = decls.length ? rng.pick(decls) : someStruct(rng, nodes);
    const copy = rng.weighted([[1, () => JSON.parse(JSON.stringify(d))], [1, () => ({ kind: "enum", name: d.name, variants: ["A"] })], [1, () => ({ kind: "struct", name: d.name, fields: [] })], [1, () => ({ kind: "struct", name: d.name, fields: [field("x", "uint8")] })]])();
    insertAt(rng, nodes, copy);
  },
  "dup-field": (rng, nodes) => {
    const s = someStruct(rng, nodes);
    if (!s.fields.length) addField(rng, s, anyAcyclic(rng, nodes), rng.pick(MODS));
    const f = rng.pick(s.fields);
    insertAt(rng, s.fields, rng.bool(0.3) ? { ...f } : field(f.name, rng.pick([...BUILTINS, ...enums(nodes).map((e) => e.name)]), rng.pick(MODS)));
  },
  "dup-variant": (rng, nodes) => { const e = someEnum(rng, nodes); if (e.variants.length > 31) e.variants.length = 31; insertAt(rng, e.variants, rng.pick(e.variants)); },
  "empty-enum": (rng, nodes) => { someEnum(rng, nodes).variants = []; },
  "big-enum": (rng, nodes) => { const e = someEnum(rng, nodes); e.variants = Array.from({ length: rng.pick([33, 33, 33, 34, 40, 63, 64, 65, 100, 128, 255, 256, 257, 288, 300, 65537]) }, (_, i) => "W" + i); },
  "unknown-type": (rng, nodes) => {
    const s = someStruct(rng, nodes), used = names(nodes.filter((n) => n.kind !== "export"));
    const near = rng.weighted([[3, () => fresh(rng, nodes)], [2, () => rng.pick(["Uint8", "uint64", "int64", "double", "bool", "String", "STRING", "int", "uint", "float32", "char", "number", "any", "enum", "struct", "export", "uint8_t"])],
      [1, () => rng.pick([...used]) + "_"], [1, () => rng.pick([...used]).slice(0, -1)], [1, () => { const t = rng.pick(structs(nodes)); return t.fields.length ? t.fields[0].name : "nope"; }], [1, () => { const e = enums(nodes); return e.length ? e[0].variants[0] || "nope" : "nope"; }], [0.5, () => ""], [0.5, () => "1" + rng.int(0, 99)]])();
    addField(rng, s, used.has(near) || BUILTINS.includes(near) ? fresh(rng, nodes) : near, rng.pick(MODS));
  },
  cycle: (rng, nodes) => {
    const n = rng.weighted([[3, 1], [3, 2], [2, 3], [1, rng.int(4, 12)]]);
    const ring = [];
    for (let i = 0; i < n; ++i) {
      if (structs(nodes).length > ring.length && rng.bool(0.5)) { const c = rng.pick(structs(nodes)); if (!ring.includes(c)) { ring.push(c); continue; } }
      const d = { kind: "struct", name: fresh(rng, nodes), fields: [] };
      for (let k = rng.int(0, 3); k > 0; --k) addField(rng, d, rng.pick(BUILTINS), rng.pick(MODS));
      insertAt(rng, nodes, d);
      ring.push(d);
    }
    ring.forEach((d, i) => addField(rng, d, ring[(i + 1) % n].name, rng.pick(MODS)));
    // reached from elsewhere, over a tail, or not at all
    if (rng.bool(0.6)) {
      let at = ring[0].name;
      for (let k = rng.int(0, 3); k > 0; --k) { const t = { kind: "struct", name: fresh(rng, nodes), fields: [] }; addField(rng, t, at, rng.pick(MODS)); insertAt(rng, nodes, t); at = t.name; }
      addField(rng, someStruct(rng, nodes), at, rng.pick(MODS));
    }
  },
  "opt-array": (rng, nodes) => {
    const s = someStruct(rng, nodes);
    if (!s.fields.length || rng.bool()) addField(rng, s, anyAcyclic(rng, nodes), "");
    const f = rng.pick(s.fields);
    f.array = f.optional = true;
  },
};
/** a type which makes no cycle anywhere */
function anyAcyclic(rng, nodes) { return rng.pick([...BUILTINS, ...enums(nodes).map((e) => e.name)]); }

function nodesOf(s) { return JSON.parse(JSON.stringify([...s.decls, { kind: "export", name: s.export }])); }
/** A schema with the given kinds of problems put in (in this order). */
function flawed(rng, s, kinds) {
  const nodes = nodesOf(s);
  for (const k of kinds) FLAWS[k](rng, nodes);
  return rng.bool(0.5) ? rng.shuffle(nodes) : nodes;
}
module.exports = { FLAWS, flawed, nodesOf };
