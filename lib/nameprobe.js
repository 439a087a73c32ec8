"use strict";
// Tries names that TypeScript, JavaScript or the generated code give a meaning in every role a schema has for a name. How a
// listed (known) name fails is not judged; every other name has to work.
const names = require("./names"), gen = require("./gen"), codec = require("./codec"), subject = require("./subject");
const { parse } = require("./refparse"), refcheck = require("./refcheck");
const { packet } = subject;

/** kind "tsc": names must type-check; "run": modules that type-check must round-trip. */
async function probe(ctx, kind) {
  const roles = Object.keys(names.ROLES);
  for (let r = 0; r < roles.length; ++r) {
    if (!ctx.mine(r)) continue;
    const role = roles[r];
    const finding = ctx.findings.find((k) => k.names && k.role === role);
    const listed = new Set(finding ? finding.names : []);
    const items = [];
    for (const name of names.PROBES) {
      if (names.artefact(role, name)) continue;
      const text = names.ROLES[role](name), p = parse(text);
      if (!p.ok || refcheck.problems(p.nodes).length) continue; // clashes with another name of the template
      items.push({ name, text, model: refcheck.model(p.nodes) });
    }
    const met = [];
    for (const g of await subject.load(ctx, items, { consumer: kind === "tsc" })) {
      const name = g.item.name;
      const ds = g.ts.diagnostics;
      let bad = null;
      ctx.eval();
      ctx.count("names_probed");
      if (kind === "tsc") bad = ds.length ? ds[0].message : g.ts.consumerDiagnostics.length ? "for a consumer: " + g.ts.consumerDiagnostics[0].message : null;
      else if (ds.length) continue;
      else if (g.error) bad = "does not run: " + g.error;
      else {
        try {
          for (const [len, present] of [[0, false], [1, true], [2, true]]) {
            const v = gen.uniformValue(ctx.rng, g.model, len, present);
            packet.reset();
            const out = g.type.read(g.type.prototype.write.call(subject.instance(g, v)));
            bad = bad || (out === null ? "a proper packet is rejected" : codec.differs(g.model, g.model.export, v, out));
          }
        } catch (e) { bad = "throws " + e; }
      }
      ctx.saw(role + ":" + name);
      if (bad === null) continue;
      if (listed.has(name)) met.push(name);
      else ctx.violation(`the name '${name}' as ${role}: ${bad}`, { schema: g.item.text });
    }
    if (met.length) ctx.hit(`${finding.id}: ${finding.what}: ${met.join(" ")}`);
  }
}
module.exports = { probe };
