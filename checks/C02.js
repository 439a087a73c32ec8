"use strict";
// Wire layout: the calls the generated encoder and decoder make on the packet runtime, and the bytes, are compared with
// what a reference codec derives from the schema alone.
const gen = require("../lib/gen"), codec = require("../lib/codec"), subject = require("../lib/subject"), workload = require("../lib/workload");
const { packet, hex } = subject;

const WRITE = (t) => t.filter((e) => /^write_/.test(e[0])).map((e) => [e[0].slice(6), e[1]]);
const READ = (t) => t.filter((e) => /^read_/.test(e[0])).map((e) => (e[0] === "read_string" ? ["string", e[1]] : [e[0].slice(5)]));
const show = (e) => (e === undefined ? "nothing" : e[0] + (e.length > 1 ? "(" + (typeof e[1] === "string" ? JSON.stringify(e[1].slice(0, 20)) : Object.is(e[1], -0) ? "-0" : e[1]) + ")" : ""));

function firstDifference(want, got) {
  const n = Math.max(want.length, got.length);
  for (let i = 0; i < n; ++i) {
    const a = want[i], b = got[i];
    if (!a || !b || a[0] !== b[0] || !Object.is(a[1], b[1])) return `operation ${i} is ${show(b)} instead of ${show(a)}`;
  }
  return null;
}
function observe(g, value, utf16) {
  const m = g.model;
  const want = codec.encodeTrace(m, value);
  const bytes = codec.traceBytes(want, utf16);
  packet.reset({ trace: true, utf16, maxOps: 10 * want.length + 1000 });
  let out;
  try { out = subject.instance(g, value, false).write(); } catch (e) { return `encoding throws ${e}`; }
  const faults = packet.state.faults.slice();
  let d = firstDifference(want, WRITE(packet.state.trace));
  if (d) return `encoder: ${d}`;
  if (hex(out) !== hex(bytes)) return `packet is ${hex(out).slice(0, 200)} instead of ${hex(bytes).slice(0, 200)}`;
  if (faults.length) return `encoder misuses the runtime: ${faults[0]}`;
  // the decoder has to consume the reference's bytes the same way
  packet.reset({ trace: true, utf16, maxOps: 10 * want.length + 1000 });
  let got;
  try { got = g.type.read(bytes); } catch (e) { return `decoding throws ${e}`; }
  const reads = want.map(([op, v]) => (op === "string" ? [op, v.length] : [op]));
  d = firstDifference(reads, READ(packet.state.trace));
  if (d) return `decoder: ${d}`;
  if (packet.state.readers.length !== 1 || packet.state.readers[0]._pos !== bytes.byteLength) return `decoder consumes ${packet.state.readers.map((r) => r._pos).join("+")} of ${bytes.byteLength} bytes`;
  if (got === null) return "decoder rejects the packet of a proper value";
  return null;
}
async function examine(ctx, items, values) {
  const mods = await subject.load(ctx, items);
  for (const g of mods) {
    const kase = { schema: g.item.text };
    if (g.error) { ctx.violation(`the generated module does not run: ${g.error}`, kase); continue; }
    values(g, (value, utf16) => {
      ctx.eval();
      const bad = observe(g, value, utf16);
      ctx.count("runtime_calls_compared", packet.state.ops);
      if (bad) ctx.violation(bad, { ...kase, value: subject.freeze(value), utf16 });
      return !bad;
    });
    for (const s of gen.shapes(g.model)) ctx.saw(s);
  }
  subject.requireAccepted(ctx);
  return mods;
}
async function run(ctx) {
  const rng = ctx.rng;
  for (const { item, values } of workload.large(ctx, ctx.n(1, 13))) {
    await examine(ctx, [item], (g, use) => { for (const v of values) { ctx.count("large_collections"); if (!use(v(), false)) return; } });
  }
  for (const items of workload.batches(ctx, { random: ctx.n(400, 5200), depth: ctx.n(2, 3) })) {
    const mods = await examine(ctx, items, (g, use) => {
      for (const [len, present] of [[0, false], [1, true], [2, true]]) if (!use(gen.uniformValue(rng, g.model, g.item.schema.profile === "deep" ? Math.min(len, 1) : len, present, false), false)) return;
      for (let i = 0; i < ctx.n(6, 9); ++i) { const utf16 = rng.bool(0.3); if (!use(gen.value(rng, g.model, { utf16, big: rng.bool(0.05) }), utf16)) return; }
    });
    if (mods.length && !mods[0].error) { const v = gen.value(rng, mods[0].model, { budget: 20 }); ctx.sample({ schema: mods[0].item.text, value: subject.freeze(v), operations: codec.encodeTrace(mods[0].model, v).slice(0, 30).map(show).join(" ") }); }
  }
}
async function replay(ctx, kase) {
  const { parse } = require("../lib/refparse"), { model } = require("../lib/refcheck");
  await examine(ctx, [{ text: kase.schema, model: model(parse(kase.schema).nodes) }], (g, use) => { if (kase.value) use(subject.thaw(kase.value), kase.utf16); });
}
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one value whose encoding (sequence of primitive writes and bytes) and decoding (sequence of primitive reads and bytes consumed) by the generated code is compared call by call with the reference codec's. Schemas and distinct non-trivial shapes as in C01.",
  assumptions: ["packet runtime replaced by an instrumented stand-in: little-endian numbers, string length counted as s.length"],
};
