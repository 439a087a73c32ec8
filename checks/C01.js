"use strict";
// Round trip: values are encoded by the generated code and the bytes decoded by it again, also by a
// separate compilation of the same schema in another process.
const { Compiler, body } = require("../lib/compiler");
const gen = require("../lib/gen"), codec = require("../lib/codec"), subject = require("../lib/subject"), workload = require("../lib/workload"), nameProbe = require("../lib/nameprobe");
const { packet, hex } = subject;

const MAX_OPS = 5e6;

/** null, or what went wrong when `value` went from g through its packet to `into`. */
function roundTrip(g, into, value, { utf16 = false, viaConstructor = true } = {}) {
  packet.reset({ utf16, maxOps: MAX_OPS });
  let bytes;
  try { bytes = subject.instance(g, value, viaConstructor).write(); } catch (e) { return `encoding throws ${e}`; }
  if (!(bytes instanceof ArrayBuffer)) return `write() gives ${typeof bytes}`;
  let out;
  try { out = into.type.read(bytes); } catch (e) { return `decoding ${hex(bytes).slice(0, 200)} throws ${e}`; }
  if (out === null || out === undefined) return `the packet ${hex(bytes).slice(0, 200)} of a proper value is rejected`;
  const d = codec.differs(g.model, g.model.export, value, out);
  if (d) return `decoded value differs at ${d} (packet ${hex(bytes).slice(0, 200)})`;
  // what was decoded can be sent on
  let again;
  try { again = g.type.prototype.write.call(out); } catch (e) { return `encoding the decoded value throws ${e}`; }
  if (hex(again) !== hex(bytes)) return `the decoded value encodes to ${hex(again).slice(0, 200)}, not to ${hex(bytes).slice(0, 200)}`;
  return null;
}

async function examine(ctx, items, values, other) {
  const mods = await subject.load(ctx, items);
  // the same again in another process; modules that come out the same need no second look
  const again = await Promise.all(mods.map((g) => other.compile(g.item.text)));
  const mods2 = [];
  mods.forEach((g, i) => {
    if (again[i].kind === "code" && body(again[i].text) === body(g.code)) ctx.count("schemas_compiled_twice_alike");
    else if (again[i].kind === "code") mods2.push({ item: g.item, model: g.model, code: again[i].text });
    else ctx.violation(`compiled once, but a second compilation gives ${again[i].kind}: ${again[i].text}`, { schema: g.item.text });
  });
  subject.loadCode(mods2);
  const second = new Map(mods2.map((g) => [g.item, g]));
  for (const g of mods) {
    const kase = { schema: g.item.text };
    if (g.error) { ctx.violation(`the generated module does not run: ${g.error}`, kase); continue; }
    const g2 = second.get(g.item);
    if (g2) ctx.count("schemas_with_two_different_compilations");
    const sh = gen.shapes(g.model);
    values(g, (value, o) => {
      ctx.eval();
      let bad = roundTrip(g, g, value, o);
      if (!bad && g2) {
        bad = g2.error ? `a second compilation does not run: ${g2.error}` : roundTrip(g, g2, value, o) || roundTrip(g2, g, value, o);
        if (bad) bad = "across two compilations of the same schema: " + bad;
      }
      if (bad) ctx.violation(bad, { ...kase, value: subject.freeze(value), utf16: o.utf16 });
      return !bad;
    });
    for (const s of sh) ctx.saw(s);
  }
  subject.requireAccepted(ctx);
  return mods;
}

function valuesFor(ctx, rng, n) {
  return (g, use) => {
    const m = g.model;
    // all arrays empty / one / several elements, optionals absent / present; then random values
    for (const [len, present] of [[0, false], [1, true], [3, true], [2, false]]) {
      if (g.item.schema && g.item.schema.profile === "deep" && len > 1) continue;
      const v = gen.uniformValue(rng, m, len, present, len === 3);
      if (!use(v, { utf16: len === 3, viaConstructor: rng.bool() })) return;
    }
    for (let i = 0; i < n; ++i) {
      const utf16 = rng.bool(0.4);
      if (!use(gen.value(rng, m, { utf16, big: rng.bool(0.1) }), { utf16, viaConstructor: rng.bool() })) return;
    }
  };
}

async function big(ctx) {
  const other = new Compiler(process.env.VERIF_HARNESS);
  for (const { item, values } of workload.large(ctx, ctx.n(2, 13))) {
    await examine(ctx, [item], (g, use) => { for (const v of values) { ctx.count("large_collections"); if (!use(v(), { utf16: false })) return; } }, other);
  }
  other.stop();
}

async function run(ctx) {
  let k = 0;
  let other = new Compiler(process.env.VERIF_HARNESS);
  await nameProbe.probe(ctx, "run");
  await big(ctx);
  for (const items of workload.batches(ctx, { random: ctx.n(360, 4200), depth: ctx.n(2, 3) })) {
    if (++k % 4 === 0) { other.stop(); other = new Compiler(process.env.VERIF_HARNESS); }
    const mods = await examine(ctx, items, valuesFor(ctx, ctx.rng, ctx.n(10, 14)), other);
    if (mods.length) { const g = mods[0]; if (!g.error) { const v = gen.value(ctx.rng, g.model); packet.reset(); ctx.sample({ schema: g.item.text, value: subject.freeze(v), packet: hex(codec.encode(g.model, v)).slice(0, 400) }); } }
  }
  other.stop();
}
async function replay(ctx, kase) {
  const { parse } = require("../lib/refparse"), { model } = require("../lib/refcheck");
  const other = new Compiler(process.env.VERIF_HARNESS);
  const value = kase.value === undefined ? undefined : subject.thaw(kase.value);
  await examine(ctx, [{ text: kase.schema, model: model(parse(kase.schema).nodes) }], (g, use) => { if (value) use(value, { utf16: kase.utf16 }); }, other);
  other.stop();
}
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one value of a generated schema's exported type encoded by the generated TypeScript (emitted by tsc, run in node) and decoded again, compared with the original and re-encoded. Schemas: every chain of containers up to the depth bound ending in every kind of leaf, directed shapes, random ones, and strings and arrays of up to 131073 elements in several nestings. Distinct non-trivial: distinct shapes, i.e. sequences of at most four field kinds (type class and array/optional marker) from container to leaf, that occurred in a schema whose values made the trip.",
  assumptions: ["packet runtime replaced by an instrumented stand-in: little-endian numbers, string length counted as s.length"],
};
