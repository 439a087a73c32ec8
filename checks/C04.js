"use strict";
// Every accepted schema's module, and a consumer reading all its enum constants, has to pass the strict TypeScript compiler.
const gen = require("../lib/gen"), subject = require("../lib/subject"), workload = require("../lib/workload"), nameProbe = require("../lib/nameprobe");

async function examine(ctx, items) {
  const mods = await subject.load(ctx, items, { consumer: true });
  for (const g of mods) {
    ctx.eval();
    const ds = g.ts.diagnostics;
    if (ds.length) ctx.violation(`tsc --strict: ${ds.slice(0, 3).map((d) => `TS${d.code} ${d.message}`).join("; ")}`, { schema: g.item.text });
    else {
      const cs = g.ts.consumerDiagnostics;
      if (cs.length) ctx.violation(`a module using the enum constants does not compile: ${cs[0].message}`, { schema: g.item.text });
      else if (g.error) ctx.violation(`the module compiles but does not load: ${g.error}`, { schema: g.item.text });
    }
    ctx.count("lines_type_checked", g.code.split("\n").length);
    ctx.saw(g.item.text);
  }
  const global = mods.length ? mods[0].ts.program.globalDiagnostics() : [];
  if (global.length) throw new Error("the TypeScript set-up is broken: " + global[0]);
  subject.requireAccepted(ctx);
  return mods;
}
async function run(ctx) {
  await nameProbe.probe(ctx, "tsc");
  for (const items of workload.batches(ctx, { random: ctx.n(420, 5200), depth: ctx.n(2, 3), size: 32, opts: {} })) {
    // names that collide get half of the random ones
    items.forEach((it, i) => { if (i % 2 && it.schema.profile !== "chain") items[i] = subject.make(ctx.rng, { profile: "collide" }); });
    const mods = await examine(ctx, items);
    if (mods.length) ctx.sample({ schema: mods[0].item.text, lines: mods[0].code.split("\n").length, diagnostics: mods[0].ts.diagnostics.length });
  }
}
async function replay(ctx, kase) {
  const { parse } = require("../lib/refparse"), { model } = require("../lib/refcheck");
  await examine(ctx, [{ text: kase.schema, model: model(parse(kase.schema).nodes) }]);
}
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one accepted schema whose generated module (and a consumer of its enum constants) is type-checked by the TypeScript compiler with --strict against the packet runtime's declarations. Schemas as in C01, half of the random ones with names made to collide when joined by '_', plus every probe name in every role. Distinct non-trivial: distinct schema texts and distinct role:name probes.",
  assumptions: ["TypeScript 5.9 with strict, ES2020, CommonJS; declarations of the packet runtime as used by the generated code"],
};
