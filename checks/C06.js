"use strict";
// Schemas with problems the checker has to find: each must give a type error and no code, on every compilation.
const gen = require("../lib/gen"), fe = require("../lib/frontend"), { parse } = require("../lib/refparse"), { problems } = require("../lib/refcheck");

async function examine(ctx, texts) {
  const jobs = [];
  for (const t of texts) {
    const p = parse(t);
    if (!p.ok) throw new Error("generated text is not in the language: " + JSON.stringify(t));
    const ps = problems(p.nodes);
    if (ps.length === 0) continue; // such as an acyclic one of the enumerated relations
    jobs.push({ t, ps });
  }
  const c = ctx.compiler();
  // twice, as hash maps order their contents differently every time
  const results = await Promise.all([...jobs, ...jobs].map((j) => c.compile(j.t)));
  [...jobs, ...jobs].forEach((j, i) => {
    const r = results[i];
    ctx.eval();
    for (const k of new Set(j.ps.map((p) => p.kind))) ctx.count("with_" + k);
    ctx.saw(j.t);
    if (r.kind === "type") return;
    ctx.violation(`${r.kind === "code" ? "compiled" : r.kind + " (" + r.text.slice(0, 200).trim() + ")"} instead of a type error; the schema has: ${j.ps.slice(0, 3).map((p) => p.message).join("; ")}`, { schema: j.t });
  });
  return jobs;
}
async function run(ctx) {
  const rng = ctx.rng;
  let batch = [];
  const flush = async () => { const b = batch; batch = []; const jobs = await examine(ctx, b); if (jobs.length) ctx.sample({ schema: jobs[0].t, problems: jobs[0].ps.map((p) => p.message) }); };
  const add = async (nodes) => { batch.push(gen.nodesText(nodes, rng.bool(0.5) ? rng : null)); if (batch.length >= 200) await flush(); };
  let i = 0;
  for (const g of [fe.duplicateFields(rng), fe.enumSizes(), fe.duplicateVariants(), fe.largeFlawed(rng)]) for (const nodes of g) if (ctx.mine(i++)) await add(nodes);
  for (const n of [1, 2, 3]) for (let b = 0; b < 2 ** (n * n); ++b) if (ctx.mine(i++)) await add(fe.digraph(rng, n, b));
  for (let b = 0; b < 65536; ++b) if (ctx.mine(b) && (ctx.thorough || rng.bool(0.25))) await add(fe.digraph(rng, 4, b));
  await flush();
  for (let k = 0; k < ctx.n(14000, 250000) && !ctx.late(); ++k) await add(fe.randomFlawed(rng).nodes);
  await flush();
}
async function replay(ctx, kase) { for (let i = 0; i < 20; ++i) await examine(ctx, [kase.schema]); }
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one compilation of a schema that the reference checker finds at least one problem in; the outcome has to be a type error. Schemas: all positions and kinds of a repeated field, all enum sizes 0..70, positions of repeated variants, long structs, many types, chains and cycles of up to 1100 with one problem in it, all 'has a field of' relations over 1 to 3 structs and (thorough: all, quick: a quarter) over 4, and random schemas with 1 to 3 problems put in anywhere. Distinct non-trivial: distinct texts.",
};
