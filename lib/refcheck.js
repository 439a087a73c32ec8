"use strict";
// Reference type checker: lists every problem of a parsed schema, and builds the model of a good one.
const { BUILTINS } = require("./refparse");
const BUILTIN = new Set(BUILTINS);

function dups(xs) {
  const seen = new Set(), out = new Set();
  for (const x of xs) { if (seen.has(x)) out.add(x); seen.add(x); }
  return [...out];
}

/** All types that lie on a cycle of the "has a field of type" relation. */
function cyclic(structs) {
  const out = new Set();
  // Tarjan, iterative
  const index = new Map(), low = new Map(), on = new Set(), stack = [];
  let n = 0;
  for (const root of structs.keys()) {
    if (index.has(root)) continue;
    const work = [[root, 0]];
    index.set(root, n); low.set(root, n++); stack.push(root); on.add(root);
    while (work.length) {
      const top = work[work.length - 1];
      const [v] = top;
      const fs = structs.get(v).fields;
      if (top[1] < fs.length) {
        const w = fs[top[1]++].type;
        if (!structs.has(w)) continue;
        if (w === v) out.add(v);
        if (!index.has(w)) {
          index.set(w, n); low.set(w, n++); stack.push(w); on.add(w);
          work.push([w, 0]);
        } else if (on.has(w)) low.set(v, Math.min(low.get(v), index.get(w)));
      } else {
        work.pop();
        if (work.length) { const u = work[work.length - 1][0]; low.set(u, Math.min(low.get(u), low.get(v))); }
        if (low.get(v) === index.get(v)) {
          const scc = [];
          let w;
          do { w = stack.pop(); on.delete(w); scc.push(w); } while (w !== v);
          if (scc.length > 1) scc.forEach((x) => out.add(x));
        }
      }
    }
  }
  return out;
}

/** Every problem as {kind, message}; the message is what the compiler documents for it. */
function problems(nodes) {
  const out = [];
  const add = (kind, message) => out.push({ kind, message });
  const exports_ = nodes.filter((n) => n.kind === "export");
  const decls = nodes.filter((n) => n.kind !== "export");
  if (exports_.length === 0) add("no-export", "Schema has no export");
  if (exports_.length > 1) add("many-exports", "Schema has more than one export");
  for (const d of dups(decls.map((d) => d.name))) add("dup-decl", `Schema has duplicate declaration: ${d}`);
  const byName = new Map(decls.map((d) => [d.name, d]));
  for (const d of decls) {
    if (d.kind === "enum") {
      if (d.variants.length === 0) add("empty-enum", `Enum '${d.name}' must have at least one variant`);
      if (d.variants.length > 32) add("big-enum", `Enum '${d.name}' has too many variants (${d.variants.length}/32)`);
      for (const v of dups(d.variants)) add("dup-variant", `Duplicate variant '${v}' on enum '${d.name}'`);
    } else {
      for (const f of dups(d.fields.map((f) => f.name))) add("dup-field", `Duplicate field '${f}' on struct '${d.name}'`);
      for (const f of d.fields) {
        if (f.array && f.optional) add("opt-array", `Field '${f.name}' in struct '${d.name}' cannot be optional and array at once`);
        if (!BUILTIN.has(f.type) && !byName.has(f.type)) add("unknown-type", `Declaration for type '${f.type}' does not exist`);
      }
    }
  }
  const structs = new Map(decls.filter((d) => d.kind === "struct").map((d) => [d.name, d]));
  for (const t of cyclic(structs)) add("cycle", `Found a cycle between two or more top level definitions in type '${t}'`);
  for (const e of exports_) {
    const d = byName.get(e.name);
    if (BUILTIN.has(e.name) || (d && d.kind !== "struct")) add("export-kind", `Attempted to export '${e.name}', which is not a struct`);
    else if (!d) add("export-unknown", `Export '${e.name}' could not be resolved`);
  }
  return out;
}

/** Model of a well-formed schema: export name, types by name, reachable type names. */
function model(nodes) {
  const types = new Map();
  let exp = null;
  for (const n of nodes) {
    if (n.kind === "export") exp = n.name;
    else types.set(n.name, n);
  }
  const reach = new Set();
  const work = [exp];
  while (work.length) {
    const t = work.pop();
    if (reach.has(t) || !types.has(t)) continue;
    reach.add(t);
    const d = types.get(t);
    if (d.kind === "struct") for (const f of d.fields) work.push(f.type);
  }
  return { export: exp, types, reach };
}

module.exports = { problems, model, BUILTIN };
