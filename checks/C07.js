"use strict";
// Well-formed schemas in many declaration orders, layouts, sizes and processes: every one has to be accepted.
const gen = require("../lib/gen"), fe = require("../lib/frontend"), workload = require("../lib/workload"), { parse, BUILTINS } = require("../lib/refparse"), { problems } = require("../lib/refcheck");

async function examine(ctx, texts) {
  const c = ctx.compiler();
  const jobs = texts.filter((t) => {
    const p = parse(t);
    if (!p.ok) throw new Error("generated text is not in the language: " + JSON.stringify(t.slice(0, 2000)));
    return problems(p.nodes).length === 0;
  });
  const results = await Promise.all(jobs.map((t) => c.compile(t)));
  jobs.forEach((t, i) => {
    const r = results[i];
    ctx.eval();
    ctx.saw(t);
    if (r.kind !== "code") ctx.violation(`a well-formed schema is not compiled: ${r.kind} ${r.text.slice(0, 300).trim()}`, { schema: t.length > 200000 ? t.slice(0, 200000) : t });
  });
}
const { f, en, st } = workload;
/** Schemas that are large in one way. */
function large(rng, thorough) {
  const out = [];
  const chain = (n, mods) => ({ decls: [st("D" + n, [f("v", "int16")]), ...Array.from({ length: n }, (_, i) => st("D" + i, [f("d", "D" + (i + 1), mods[i % mods.length])]))], export: "D0" });
  for (const n of thorough ? [100, 300, 600, 1000] : [100, 400]) out.push(chain(n, [""]));
  out.push(chain(60, ["[]", "", "?"]), chain(200, ["", "?"]));
  // types that are not used may nest as well
  out.push({ decls: [...chain(1000, ["", "[]", "?"]).decls, st("X", [f("a", "uint8")])], export: "X" });
  for (const n of thorough ? [1000, 3000] : [1000]) {
    out.push({ decls: [st("W", Array.from({ length: n }, (_, i) => f("f" + i, BUILTINS[i % 8], ["", "[]", "?"][i % 3])))], export: "W" });
    out.push({ decls: [...Array.from({ length: n }, (_, i) => (i % 2 ? en("T" + i, 1 + (i % 32)) : st("T" + i, [f("a", "uint8")]))), st("X", Array.from({ length: n }, (_, i) => f("f" + i, "T" + i, ["", "[]", "?"][i % 3])))], export: "X" });
    out.push({ decls: [...Array.from({ length: n }, (_, i) => st("U" + i, i ? [f("a", "U" + (i - 1), "?")] : [])), st("X", [f("a", "U0")])], export: "X" });
  }
  // the same type through 2^n paths
  const diamond = (n, k) => ({ decls: [st("D" + n, [f("v", "uint8")]), ...Array.from({ length: n }, (_, i) => st("D" + i, Array.from({ length: k }, (_, j) => f("p" + j, "D" + (i + 1), ["", "[]", "?"][j % 3]))))], export: "D0" });
  out.push(diamond(10, 2), diamond(6, 3), diamond(3, 9), diamond(1, 300));
  // wide structs of declared types, each using some of the others
  for (const [n, k] of [[5, 60], [8, 40], [4, 150], [3, 260], [20, 12]]) {
    const name = (i) => "S" + "zmaqfy"[i % 6] + i, leaf = [en("K", 5), st("L", [f("v", "uint8")])];
    out.push({ decls: [...leaf, ...Array.from({ length: n }, (_, i) => st(name(i), [...Array.from({ length: k }, (_, j) => f("f" + j, ["K", "L", "uint8", "string"][(i + j) % 4], ["", "[]", "?"][j % 3])), ...(i ? [f("last", name(i - 1), ["", "[]", "?"][i % 3])] : [])]))], export: name(n - 1) });
  }
  // the same enum and struct used over and over
  out.push({ decls: [en("E", 32), st("S", [f("e", "E")]), st("X", Array.from({ length: 400 }, (_, i) => f("f" + i, i % 2 ? "E" : "S", ["", "[]", "?"][i % 3])))], export: "X" });
  out.push({ decls: [st("X", [f("x".repeat(5000), "uint8"), f("y".repeat(20000), "string", "[]")])], export: "X" });
  const long = "L" + "o".repeat(10000) + "ng";
  out.push({ decls: [st(long, [f("a", "uint8")]), st("X", [f("a", long), f("b", long, "[]")])], export: "X" });
  return out.map((s) => ({ ...s, decls: rng.shuffle(s.decls) }));
}
async function run(ctx) {
  const rng = ctx.rng;
  let batch = [], i = 0;
  const flush = async () => { const b = batch; batch = []; await examine(ctx, b); };
  const add = async (t) => { batch.push(t); if (batch.length >= 100) await flush(); };
  for (const s of large(rng, ctx.thorough)) {
    if (!ctx.mine(i++)) continue;
    ctx.count("large_schemas");
    for (const t of [gen.text(s), gen.text({ ...s, decls: rng.shuffle(s.decls) }), gen.text({ ...s, decls: s.decls.slice().reverse() }, rng)]) await examine(ctx, [t]);
  }
  for (const n of [1, 2, 3]) for (let b = 0; b < 2 ** (n * n); ++b) if (ctx.mine(i++)) await add(gen.nodesText(fe.digraph(rng, n, b)));
  for (let b = 0; b < 65536; ++b) if (ctx.mine(b) && (ctx.thorough || rng.bool(0.4))) await add(gen.nodesText(fe.digraph(rng, 4, b)));
  for (const nodes of fe.enumSizes()) if (ctx.mine(i++)) await add(gen.nodesText(nodes, rng));
  await flush();
  for (let k = 0; k < ctx.n(6000, 60000) && !ctx.late(); ++k) {
    const s0 = gen.schema(rng), s = rng.bool(0.3) ? workload.addUnused(rng, s0) : s0;
    for (let p = 0; p < 3; ++p) await add(gen.text({ ...s, decls: rng.shuffle(s.decls) }, rng.bool(0.5) ? rng : null));
    if (k % 150 === 149) { await flush(); ctx.compiler().restart(); ctx.count("processes"); }
    if (k % 100 === 0) ctx.sample({ schema: gen.text(s) });
  }
  await flush();
}
async function replay(ctx, kase) { for (let i = 0; i < 20; ++i) await examine(ctx, [kase.schema]); }
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one compilation of a schema text in which the reference parser and checker find nothing wrong; the outcome has to be code. Schemas: random ones in several declaration orders and layouts; all acyclic 'has a field of' relations over 1 to 3 structs and (thorough: all, quick: some) over 4; all enum sizes; chains of up to 1000 structs, thousands of types or fields, one type through thousands of paths, names of up to 20000 characters. Distinct non-trivial: distinct texts.",
};
