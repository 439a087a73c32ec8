"use strict";
// The declarations of generated modules, as the TypeScript checker sees them, compared with the schema; enum constants as another
// module sees them.
const subject = require("../lib/subject"), workload = require("../lib/workload"), { describe, expected, compare, Odd } = require("../lib/describe");
const gen = require("../lib/gen");

function observe(ctx, g) {
  let got;
  try { got = describe(g); } catch (e) { if (e instanceof Odd) return `declarations: ${e.message}`; throw e; }
  const d = compare(expected(g.model), got);
  if (d) return d;
  ctx.count("declarations_compared", 1 + Object.keys(got.types).length);
  if (g.error) return `a consumer cannot load the module: ${g.error}`;
  for (const n of g.model.reach) {
    const t = g.model.types.get(n);
    if (t.kind !== "enum") continue;
    for (let i = 0; i < t.variants.length; ++i) {
      ctx.count("constants_compared");
      if (g.consts[n][i] !== Math.pow(2, i)) return `${n}.${t.variants[i]} is ${g.consts[n][i]} for a consumer instead of ${Math.pow(2, i)}`;
    }
  }
  return null;
}
async function examine(ctx, items) {
  const mods = await subject.load(ctx, items, { consumer: true });
  for (const g of mods) {
    ctx.eval();
    const bad = observe(ctx, g);
    if (bad) ctx.violation(bad, { schema: g.item.text });
    for (const s of gen.shapes(g.model)) ctx.saw(s);
    ctx.count("unreachable_types_in_schemas", g.model.types.size - g.model.reach.size);
  }
  subject.requireAccepted(ctx);
  return mods;
}
async function run(ctx) {
  for (const items of workload.batches(ctx, { random: ctx.n(400, 5000), depth: ctx.n(1, 2), size: 32 })) {
    // unused types, also ones using each other or used ones
    for (const it of items) {
      if (!it.schema.profile.startsWith("chain") && ctx.rng.bool(0.4)) {
        const s = workload.addUnused(ctx.rng, it.schema);
        Object.assign(it, subject.make(ctx.rng, { schema: s }));
      }
    }
    const mods = await examine(ctx, items);
    if (mods.length && !observe(ctx, mods[0])) ctx.sample({ schema: mods[0].item.text, declared: Object.keys(describe(mods[0]).types) });
  }
}
async function replay(ctx, kase) {
  const { parse } = require("../lib/refparse"), { model } = require("../lib/refcheck");
  await examine(ctx, [{ text: kase.schema, model: model(parse(kase.schema).nodes) }]);
}
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one accepted schema whose generated module's class, constructor, namespace, interfaces and enums, as seen by the TypeScript checker, and enum constants, as evaluated by another module, are compared with the schema. Distinct non-trivial: distinct shapes as in C01.",
  assumptions: ["TypeScript 5.9's checker reports declarations faithfully"],
};
