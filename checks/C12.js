"use strict";
// Enums: for every size and position, every declared variant makes the trip and equals its exported constant, and every other wire
// value is rejected (all of them for 8 and 16 bits).
const gen = require("../lib/gen"), codec = require("../lib/codec"), subject = require("../lib/subject"), { f, en, st } = require("../lib/workload"), { BUILTINS } = require("../lib/refparse");
const names = require("../lib/names");
const { packet, hex } = subject;

function schemaFor(rng, n, plain) {
  const uniq = (k, role) => { const s = new Set(); while (s.size < k) s.add(gen.ident(rng, (x) => !s.has(x) && names.ok(role, x), "collide")); return [...s]; };
  const [E, F, S, X] = plain ? ["E", "F", "S", "X"] : (() => { for (;;) { const u = uniq(4, "type"); if (names.ok("export", u[3])) return u; } })();
  const e = { kind: "enum", name: E, variants: plain ? Array.from({ length: n }, (_, i) => "V" + i) : uniq(n, "variant") };
  const o = en(F, 1 + rng.int(0, 31));
  const s = st(S, [f("k", E), f("o", E, "?"), f("l", E, "[]"), f("w", F)]);
  const x = st(X, [f("p", E), f("o", E, "?"), f("a", E, "[]"), f("s", S), f("t", S, "[]"), f("u", S, "?"), f("g", E), f("other", F), f("h", rng.pick(BUILTINS)), f("last", E)]);
  return { decls: rng.shuffle([e, o, s, x]), export: X, profile: "enum", e };
}
/** Trace of a value and, for each place in it where the enum `name` is, its index and path in the value. */
function places(m, name, value) {
  const out = [], at = [];
  const scalar = (type, v, path) => {
    if (type === "string") out.push(["uint32", v.length], ["string", v]);
    else if (!m.types.has(type)) out.push([type, v]);
    else if (m.types.get(type).kind === "enum") { if (type === name) at.push({ index: out.length, path }); out.push([codec.enumWidth(m.types.get(type)), v]); } else struct(m.types.get(type), v, path);
  };
  const struct = (d, v, path) => {
    for (const fl of d.fields) {
      const x = v[fl.name], p = [...path, fl.name];
      if (fl.array) { out.push(["uint32", x.length]); x.forEach((y, i) => scalar(fl.type, y, [...p, i])); } else if (fl.optional) {
        if (x === undefined) out.push(["uint8", 0]); else { out.push(["uint8", 1]); scalar(fl.type, x, p); }
      } else scalar(fl.type, x, p);
    }
  };
  struct(m.types.get(m.export), value, []);
  return { trace: out, at };
}
const WIDTH = { uint8: 1, uint16: 2, uint32: 4 };
function wireValues(ctx, n, exhaustive) {
  const rng = ctx.rng;
  if (n <= 8) return Array.from({ length: 256 }, (_, i) => i);
  if (n <= 16 && exhaustive) return Array.from({ length: 65536 }, (_, i) => i);
  const bits = n <= 16 ? 16 : 32, out = new Set([0, 2 ** bits - 1, 2 ** n - 1]);
  for (let i = 0; i < bits; ++i) {
    for (const d of [-1, 0, 1]) out.add((2 ** i + d + 2 ** bits) % 2 ** bits);
    for (let j = 0; j < i; ++j) out.add(2 ** i + 2 ** j);
    out.add(2 ** bits - 1 - 2 ** i);
  }
  for (let k = 0; k < (exhaustive ? 3000 : 60); ++k) out.add(rng.int(0, 2 ** bits - 1));
  return [...out];
}
function check(ctx, g, n, exhaustive) {
  const m = g.model, E = g.item.schema.e, width = codec.enumWidth(E);
  const consts = g.consts[E.name];
  for (let i = 0; i < n; ++i) {
    if (typeof consts[i] !== "number") return { bad: `constant ${E.variants[i]} is ${consts[i]}` };
    if (consts.indexOf(consts[i]) !== i) return { bad: `${E.variants[i]} and ${E.variants[consts.indexOf(consts[i])]} are both ${consts[i]}` };
  }
  const base = gen.uniformValue(ctx.rng, m, 2, true);
  const { trace, at } = places(m, E.name, base);
  const offsets = [];
  let off = 0;
  for (const [op, v] of trace) { offsets.push(off); off += op === "string" ? v.length : packet.NUM[op][0]; }
  const bytes = codec.traceBytes(trace, false);
  const view = new DataView(bytes);
  const values = wireValues(ctx, n, exhaustive);
  const declared = new Map(consts.map((c, i) => [c, i]));
  const set = { 1: (o, v) => view.setUint8(o, v), 2: (o, v) => view.setUint16(o, v, true), 4: (o, v) => view.setUint32(o, v, true) }[WIDTH[width]];
  for (const { index, path } of at) {
    const o = offsets[index], old = trace[index][1];
    for (const v of values) {
      set(o, v);
      packet.reset({ utf16: false });
      ctx.eval();
      let got;
      try { got = g.type.read(bytes); } catch (e) { return { bad: `wire value ${v} at ${path.join(".")}: decoding throws ${e}`, packet: hex(bytes) }; }
      const isDeclared = Number.isInteger(Math.log2(v)) && Math.log2(v) < n;
      if (!isDeclared) {
        if (got !== null) return { bad: `${v} at ${path.join(".")} is no variant of an enum of ${n}, but the packet is accepted`, packet: hex(bytes) };
        continue;
      }
      if (got === null) return { bad: `variant ${Math.log2(v)} of ${n} at ${path.join(".")} (wire value ${v}) is rejected`, packet: hex(bytes) };
      const seen = path.reduce((x, k) => x[k], got);
      if (declared.get(seen) !== Math.log2(v)) return { bad: `wire value ${v} at ${path.join(".")} decodes to ${seen}, the constant is ${consts[Math.log2(v)]}`, packet: hex(bytes) };
    }
    set(o, old);
    // encoding the constants, as a consumer would
    for (let i = 0; i < n; ++i) {
      const value = structuredClone(base);
      let x = value;
      for (const k of path.slice(0, -1)) x = x[k];
      x[path[path.length - 1]] = consts[i];
      packet.reset({ utf16: false });
      ctx.eval();
      let out, got;
      try { out = subject.instance(g, value).write(); got = g.type.read(out); } catch (e) { return { bad: `variant ${E.variants[i]} at ${path.join(".")}: ${e}` }; }
      if (out.byteLength !== bytes.byteLength) return { bad: `variant ${E.variants[i]} at ${path.join(".")}: packet of ${out.byteLength} bytes instead of ${bytes.byteLength} (${WIDTH[width]} for an enum of ${n})` };
      if (got === null) return { bad: `variant ${E.variants[i]} of ${n} at ${path.join(".")} is rejected by the decoder`, packet: hex(out) };
      const seen = path.reduce((y, k) => y[k], got);
      if (seen !== consts[i]) return { bad: `variant ${E.variants[i]} of ${n} at ${path.join(".")} comes back as ${seen} instead of ${consts[i]}`, packet: hex(out) };
    }
    ctx.saw(n + "@" + path.join("."));
  }
  ctx.count("positions", at.length);
  return null;
}
async function examine(ctx, jobs) {
  const mods = await subject.load(ctx, jobs.map((j) => j.item), { consumer: true });
  for (const g of mods) {
    const n = g.item.schema.e.variants.length;
    if (g.error) { ctx.violation(`the generated module does not run: ${g.error}`, { schema: g.item.text, e: g.item.schema.e.name }); continue; }
    const r = check(ctx, g, n, g.item.exhaustive);
    if (r) ctx.violation(r.bad, { schema: g.item.text, e: g.item.schema.e.name, packet: r.packet });
    ctx.count("enums");
    ctx.sample({ schema: g.item.text, variants: n, wire_values_tried_per_position: wireValues(ctx, n, g.item.exhaustive).length });
  }
  subject.requireAccepted(ctx);
  return mods.length;
}
async function run(ctx) {
  const make = (n, plain, exhaustive) => { const s = schemaFor(ctx.rng, n, plain); return { item: { schema: s, text: gen.text(s, plain ? null : ctx.rng), model: gen.modelOf(s), exhaustive } }; };
  const jobs = [];
  for (let n = 1; n <= 32; ++n) if (ctx.mine(n)) jobs.push(make(n, true, true));
  const got = await examine(ctx, jobs);
  // every size has to be there to be looked at
  if (got < jobs.length) for (const j of jobs) if (j.item.rejected) ctx.violation(`an enum of ${j.item.schema.e.variants.length} variants is not accepted: ${j.item.rejected.kind} ${j.item.rejected.text}`, { schema: j.item.text, e: j.item.schema.e.name });
  for (let k = 0; k < ctx.n(4, 40) && !ctx.late(); ++k) {
    const batch = [];
    for (let i = 0; i < 12; ++i) batch.push(make(ctx.rng.bool(0.5) ? ctx.rng.pick(gen.ENUM_SIZES) : ctx.rng.int(1, 32), false, ctx.thorough && i === 0));
    await examine(ctx, batch);
  }
}
async function replay(ctx, kase) {
  const { parse } = require("../lib/refparse"), { model } = require("../lib/refcheck");
  const m = model(parse(kase.schema).nodes);
  await examine(ctx, [{ item: { text: kase.schema, model: m, schema: { e: m.types.get(kase.e) }, exhaustive: true } }]);
}
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one packet decoded with one wire value at one enum position, or one variant encoded and decoded at one position. For each size 1..32: all 256 or 65536 wire values where the enum takes 8 or 16 bits, and for 32 bits all single bits and their neighbours, all pairs of bits, all complements of one bit and random values, at every position of the schema (22:  (plain, optional, array element, in plain/array/optional structs, first and last). Distinct non-trivial: distinct pairs of enum size and position.",
  assumptions: ["packet runtime replaced by an instrumented stand-in"],
};
