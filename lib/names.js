"use strict";
// Names that TypeScript, JavaScript or the generated code itself give a meaning, to be tried in every role. Those that do
// not work are known findings, by role and name; no workload other than the probes uses them.
const fs = require("fs"), path = require("path");

const PROBES = [...new Set((
  // words of the languages
  "break case catch class const continue debugger default delete do else export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with "
  + "implements interface let package private protected public static yield await async as from of get set type namespace module declare abstract is keyof infer readonly require global unique "
  + "symbol bigint number boolean any unknown never object undefined override accessor satisfies asserts out using defer intrinsic assert "
  // predefined things
  + "NaN Infinity eval arguments constructor prototype name length caller callee __proto__ toString valueOf hasOwnProperty isPrototypeOf toLocaleString propertyIsEnumerable apply call bind then toJSON "
  + "__defineGetter__ __defineSetter__ __lookupGetter__ __lookupSetter__ Object Array ArrayBuffer Number String Boolean Symbol Function Date Map Set Promise JSON Math Error Record Partial Proxy Reflect globalThis window self document process console "
  // what generated code uses
  + "read write Reader Writer packet exports output reader writer data buffer failed finish read_uint8 write_uint8 this_ output_ output_f_len this_f index item len temp").split(" "))];

// role -> schema with the name in it, and the name's struct for values
const ROLES = {
  export: (n) => `X: struct { a: uint8 }\n${n}: struct { x: X, y: X[], z?: X, f: string, g: uint8[], h?: uint8 }\nexport ${n}`,
  struct: (n) => `${n}: struct { a: uint8, s?: string }\nQ: struct { t: ${n}, u: ${n}[], v?: ${n} }\nP: struct { t: ${n}, u: ${n}[], v?: ${n}, q: Q }\nexport P`,
  enum: (n) => `${n}: enum { A, B, C }\nQ: struct { t: ${n}, u: ${n}[], v?: ${n} }\nP: struct { t: ${n}, u: ${n}[], v?: ${n}, q: Q }\nexport P`,
  "export-field": (n) => `X: struct { a: uint8 }\nP: struct { ${n}: uint8 }\nexport P`,
  "export-array-field": (n) => `X: struct { a: uint8 }\nP: struct { ${n}: X[] }\nexport P`,
  "export-optional-field": (n) => `X: struct { a: uint8 }\nP: struct { ${n}?: string }\nexport P`,
  field: (n) => `X: struct { ${n}: uint8 }\nP: struct { x: X, y: X[], z?: X }\nexport P`,
  "struct-field": (n) => `Y: struct { q: uint8 }\nX: struct { ${n}: Y }\nP: struct { x: X }\nexport P`,
  "array-field": (n) => `X: struct { ${n}: string[] }\nP: struct { x: X, y: X[] }\nexport P`,
  "optional-field": (n) => `Y: struct { q: uint8 }\nX: struct { ${n}?: Y }\nP: struct { x?: X }\nexport P`,
  variant: (n) => `E: enum { A, ${n}, C }\nP: struct { e: E, f: E[], g?: E }\nexport P`,
};
const GROUP = { struct: "type", enum: "type", "export-array-field": "export-field", "export-optional-field": "export-field", "struct-field": "field", "array-field": "field", "optional-field": "field" };

let bad = null;
function known() {
  if (bad) return bad;
  bad = new Set();
  for (const k of JSON.parse(fs.readFileSync(path.join(__dirname, "..", "known-findings.json"), "utf8")).findings) {
    if (k.names) for (const n of k.names) bad.add((GROUP[k.role] || k.role) + ":" + n);
  }
  return bad;
}
// clashes with the CommonJS wrapper the checks run modules in, which says nothing about the generated code
const WRAPPER = new Set(["module", "require", "exports"]);
function artefact(role, name) { return role === "export" && WRAPPER.has(name); }
/** Whether workloads may use the name; role is export, type, export-field, field or variant. */
function ok(role, name) { return !artefact(role, name) && !known().has(role + ":" + name); }

module.exports = { PROBES, ROLES, ok, artefact };
