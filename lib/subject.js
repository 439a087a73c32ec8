"use strict";
// Schemas compiled by the real compiler, and their generated modules made runnable.
const tsrun = require("./tsrun"), gen = require("./gen"), packet = require("./packet");

/** A generated schema together with its text and model. */
function make(rng, opts = {}) {
  const s = opts.schema || gen.schema(rng, opts);
  const t = gen.text({ ...s, decls: rng.bool(0.5) ? rng.shuffle(s.decls) : s.decls }, rng.bool(0.7) ? rng : null);
  return { schema: s, text: t, model: gen.modelOf(s) };
}
function consumerText(m) {
  // reads every enum constant the way another module would
  let t = `import { ${m.export} as M } from "./m";\nexport const consts: any = {};\n`;
  for (const n of m.reach) {
    const d = m.types.get(n);
    if (d.kind === "enum") t += `consts[${JSON.stringify(n)}] = [${d.variants.map((v) => `M.${n}.${v}`).join(", ")}];\n`;
  }
  return t;
}
/**
 * Compiles items ({text, model}) and loads their modules. Gives for each accepted one
 * {item, code, type (the class), consts, diagnostics, error (if it does not load)}.
 */
async function load(ctx, items, { consumer = false, compiler = null } = {}) {
  const good = await compile(ctx, items, compiler);
  loadCode(good, consumer);
  return good;
}
/** Compiles items and gives the accepted ones. */
async function compile(ctx, items, compiler = null) {
  const c = compiler || ctx.compiler();
  const results = await Promise.all(items.map((it) => c.compile(it.text)));
  const good = [];
  items.forEach((item, i) => {
    ctx.count("schemas_compiled");
    if (results[i].kind === "code") good.push({ item, model: item.model, code: results[i].text });
    else { ctx.count("schemas_not_accepted"); item.rejected = results[i]; }
  });
  return good;
}
/** Loads modules {model, code}. */
function loadCode(good, consumer = false) {
  const mods = tsrun.batch(good.map((g) => ({ code: g.code, consumer: consumer ? consumerText(g.model) : null })));
  good.forEach((g, i) => {
    g.ts = mods[i];
    try {
      const ex = mods[i].load();
      g.type = ex[g.model.export];
      if (typeof g.type !== "function" || typeof g.type.read !== "function" || typeof g.type.prototype.write !== "function") throw new Error(`no class ${g.model.export} with read and write is exported`);
      if (consumer) g.consts = mods[i].loadConsumer(ex).consts;
    } catch (e) { g.error = String(e && e.message || e); }
  });
  return good;
}
/** Ends a check that could observe nothing because (almost) no schema was accepted. */
function requireAccepted(ctx) {
  const n = ctx.counters.schemas_compiled || 0, bad = ctx.counters.schemas_not_accepted || 0;
  if (n > 20 && bad > 0.9 * n) throw new Error(`nothing to observe: ${bad} of ${n} well-formed schemas were not accepted`);
}
/** An instance of the generated class with the given fields. */
function instance(g, value, viaConstructor = true) {
  const fields = g.model.types.get(g.model.export).fields;
  if (viaConstructor) return new g.type(...fields.map((f) => value[f.name]));
  const o = Object.create(g.type.prototype);
  for (const f of fields) Object.defineProperty(o, f.name, { value: value[f.name], writable: true, enumerable: true, configurable: true });
  return o;
}
function hex(buf) { return Buffer.from(buf).toString("hex"); }
function unhex(s) { const b = Buffer.from(s, "hex"); return b.buffer.slice(b.byteOffset, b.byteOffset + b.length); }
/** Values in replay files: JSON with the numbers and undefined that JSON has not. */
function freeze(v) {
  return JSON.parse(JSON.stringify(v, (k, x) => (x === undefined ? { $: "undefined" } : typeof x === "number" && (!Number.isFinite(x) || Object.is(x, -0)) ? { $: Object.is(x, -0) ? "-0" : String(x) } : x)));
}
function thaw(v) {
  if (Array.isArray(v)) return v.map(thaw);
  if (v && typeof v === "object") {
    if (typeof v.$ === "string") return v.$ === "undefined" ? undefined : Number(v.$);
    const o = {};
    for (const k of Object.keys(v)) Object.defineProperty(o, k, { value: thaw(v[k]), writable: true, enumerable: true, configurable: true });
    return o;
  }
  return v;
}
module.exports = { make, load, compile, loadCode, requireAccepted, instance, consumerText, hex, unhex, freeze, thaw, packet };
