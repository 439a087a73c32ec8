"use strict";
// What a TypeScript consumer of a generated module sees of its declarations, as plain data:
//   { exports: [names], fields: [{name, type, array, optional}], params: [same], types: {name: {kind, fields | variants: [[name, value]], declarations}} }
// type is "number", "string" or the name of a type in the namespace. Throws Odd if something has no such description.
const { ts } = require("./tsrun");
class Odd extends Error {}

function describe(g) {
  const { checker } = g.ts.program, sf = g.ts.file;
  const mod = checker.getSymbolAtLocation(sf);
  if (!mod) throw new Odd("not a module");
  const exps = checker.getExportsOfModule(mod);
  const main = exps.find((s) => s.name === g.model.export);
  if (!main) throw new Odd(`${g.model.export} is not exported`);
  if (!(main.flags & ts.SymbolFlags.Class)) throw new Odd(`${g.model.export} is not a class`);
  const inner = new Map();
  main.exports.forEach((s, name) => { if (s.flags & (ts.SymbolFlags.Interface | ts.SymbolFlags.Enum | ts.SymbolFlags.TypeAlias | ts.SymbolFlags.Class)) inner.set(ts.unescapeLeadingUnderscores(name), s); });
  const nameOf = new Map([...inner].map(([n, s]) => [s, n]));

  const scalar = (t) => {
    if (t.flags & ts.TypeFlags.Any) throw new Odd("any");
    if (t.flags & ts.TypeFlags.Number) return "number";
    if (t.flags & ts.TypeFlags.String) return "string";
    if (t.symbol && nameOf.has(t.symbol)) return nameOf.get(t.symbol);
    // enums are unions of their members, or with a single one, that member
    const parts = t.isUnion() ? t.types : [t];
    const parents = new Set(parts.map((p) => p.symbol && p.symbol.parent));
    if (parents.size === 1 && nameOf.has([...parents][0])) {
      const s = [...parents][0];
      if (s.exports.size === parts.length) return nameOf.get(s);
    }
    throw new Odd("type " + checker.typeToString(t));
  };
  const field = (name, t, questionMark) => {
    let optional = questionMark;
    if (t.isUnion() && t.types.some((x) => x.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null))) { optional = true; t = checker.getNonNullableType(t); }
    const array = checker.isArrayType(t);
    return { name, type: scalar(array ? checker.getTypeArguments(t)[0] : t), array, optional };
  };
  const props = (t) => checker.getPropertiesOfType(t).filter((p) => !(p.flags & ts.SymbolFlags.Method)).map((p) => {
    const decl = p.valueDeclaration;
    if (ts.getCombinedModifierFlags(decl) & (ts.ModifierFlags.Private | ts.ModifierFlags.Protected)) throw new Odd(`field ${p.name} is not public`);
    return field(p.name, checker.getTypeOfSymbolAtLocation(p, decl), !!(p.flags & ts.SymbolFlags.Optional));
  });
  const out = { exports: exps.map((s) => s.name), types: {} };
  out.fields = props(checker.getDeclaredTypeOfSymbol(main));
  const ctors = checker.getTypeOfSymbolAtLocation(main, sf).getConstructSignatures();
  if (ctors.length !== 1) throw new Odd(`${ctors.length} constructors`);
  out.params = ctors[0].getParameters().map((p) => field(p.name, checker.getTypeOfSymbolAtLocation(p, p.valueDeclaration), !!p.valueDeclaration.questionToken));
  for (const [name, s] of inner) {
    const kinds = s.declarations;
    const d = { declarations: kinds.length };
    if (s.flags & ts.SymbolFlags.Enum) {
      d.kind = "enum";
      d.variants = [];
      for (const decl of kinds) for (const m of decl.members) d.variants.push([m.name.text, checker.getConstantValue(m)]);
    } else {
      d.kind = "struct";
      d.fields = props(checker.getDeclaredTypeOfSymbol(s));
    }
    Object.defineProperty(out.types, name, { value: d, enumerable: true });
  }
  return out;
}
/** The same for a model, as it should be. */
function expected(m) {
  const field = (f) => ({ name: f.name, type: m.types.has(f.type) ? f.type : f.type === "string" ? "string" : "number", array: f.array, optional: f.optional });
  const fields = m.types.get(m.export).fields.map(field);
  const out = { exports: [m.export], fields, params: fields, types: {} };
  for (const n of m.reach) {
    if (n === m.export) continue;
    const d = m.types.get(n);
    Object.defineProperty(out.types, n, { enumerable: true, value: d.kind === "enum" ? { declarations: 1, kind: "enum", variants: d.variants.map((v, i) => [v, Math.pow(2, i)]) } : { declarations: 1, kind: "struct", fields: d.fields.map(field) } });
  }
  return out;
}
const byName = (a, b) => (a.name < b.name ? -1 : a.name > b.name ? 1 : 0);
/** null, or the first difference between two descriptions; interface members have no order. */
function compare(want, got) {
  const list = (w, g, what, ordered) => {
    if (!ordered) { w = w.slice().sort(byName); g = g.slice().sort(byName); }
    const show = (f) => `${f.name}${f.optional ? "?" : ""}: ${f.type}${f.array ? "[]" : ""}`;
    for (let i = 0; i < Math.max(w.length, g.length); ++i) {
      if (!w[i]) return `${what}: unexpected ${show(g[i])}`;
      if (!g[i]) return `${what}: missing ${show(w[i])}`;
      if (show(w[i]) !== show(g[i])) return `${what}: ${show(g[i])} instead of ${show(w[i])}`;
    }
    return null;
  };
  const odd = got.exports.filter((n) => !want.exports.includes(n));
  if (odd.length) return `unexpected export ${odd[0]}`;
  let d = list(want.fields, got.fields, "field", false) || list(want.params, got.params, "constructor parameter", true);
  if (d) return d;
  for (const n of Object.keys(want.types)) if (!Object.hasOwn(got.types, n)) return `type ${n} is not declared`;
  for (const n of Object.keys(got.types)) {
    if (!Object.hasOwn(want.types, n)) return `type ${n} is declared but not used by the export`;
    const w = want.types[n], g = got.types[n];
    if (w.kind !== g.kind) return `${n} is declared as ${g.kind}`;
    if (g.declarations !== 1) return `${n} is declared ${g.declarations} times`;
    if (w.kind === "enum") {
      for (let i = 0; i < Math.max(w.variants.length, g.variants.length); ++i) {
        const a = w.variants[i], b = g.variants[i];
        if (!a || !b || a[0] !== b[0] || a[1] !== b[1]) return `variant ${i} of ${n}: ${b ? b.join(" = ") : "nothing"} instead of ${a ? a.join(" = ") : "nothing"}`;
      }
    } else if ((d = list(w.fields, g.fields, n + ": field", false))) return d;
  }
  return null;
}
module.exports = { describe, expected, compare, Odd };
