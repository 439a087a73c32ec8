"use strict";
// Hostile packets: valid packets cut, changed and extended, and random bytes, are decoded by the generated code; a reference
// decoder says what has to come out.
const gen = require("../lib/gen"), codec = require("../lib/codec"), subject = require("../lib/subject"), workload = require("../lib/workload");
const { packet, hex, unhex } = subject;

const MAX_ITEMS = 20000;

/** null, or what is wrong with how g decodes the bytes; counts in ctx what kind of packet it was */
function observe(ctx, g, bytes, utf16, maxItems = MAX_ITEMS) {
  let want;
  try { want = codec.decode(g.model, bytes, { utf16, maxItems }); } catch (e) {
    if (!(e instanceof codec.TooMuch)) throw e;
    ctx.count("skipped_huge_claimed_length");
    return null;
  }
  ctx.eval();
  const before = hex(bytes);
  packet.reset({ utf16, maxOps: 40 * (want.items + 10) + 40 * g.size });
  let got;
  try { got = g.type.read(bytes); } catch (e) {
    return e instanceof packet.OpLimit ? `decoding ${before.slice(0, 200)} does not come to an end` : `decoding ${before.slice(0, 200)} throws ${e}`;
  }
  if (got !== null) {
    const bad = got === undefined ? "undefined is returned" : codec.malformed(g.model, got);
    if (bad) return `decoding ${before.slice(0, 200)} gives something that is no value of the type: ${bad}`;
  }
  if (!want.ok) {
    ctx.count("packets_" + want.why);
    // a presence byte other than 0 and 1 has no defined meaning
    return got === null || want.odd ? null : `${want.why === "enum" ? "a packet with an undeclared enum value" : "a packet that ends too early"} is accepted: ${before.slice(0, 200)}`;
  }
  ctx.count("packets_proper");
  // with presence bytes of 2 or more, or something after the last field, rejecting would be fine as well
  if (want.odd || want.used < bytes.byteLength) {
    if (want.odd || got === null) return null;
  } else if (got === null) return `the proper packet ${before.slice(0, 200)} is rejected`;
  const d = codec.differs(g.model, g.model.export, want.value, got);
  return d ? `decoding ${before.slice(0, 200)}: ${d}` : null;
}

const WEIRD32 = [0, 1, 2, 3, 5, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff];
function mutate(rng, buf) {
  let b = Buffer.from(buf);
  const times = rng.weighted([[6, 1], [2, 2], [1, 5]]);
  for (let k = 0; k < times; ++k) {
    const at = b.length ? rng.int(0, b.length - 1) : 0;
    switch (rng.int(0, 7)) {
      case 0: b = b.subarray(0, rng.int(0, b.length)); break;
      case 1: if (b.length) { b = Buffer.from(b); b[at] ^= 1 << rng.int(0, 7); } break;
      case 2: if (b.length) { b = Buffer.from(b); b[at] = rng.pick([0, 1, 2, 3, 127, 128, 254, 255, rng.int(0, 255)]); } break;
      case 3: b = Buffer.concat([b.subarray(0, at), Buffer.from([rng.int(0, 255)]), b.subarray(at)]); break;
      case 4: b = Buffer.concat([b.subarray(0, at), b.subarray(Math.min(b.length, at + rng.int(1, 4)))]); break;
      case 5: if (b.length >= 4) { b = Buffer.from(b); b.writeUInt32LE(rng.pick(WEIRD32), rng.int(0, b.length - 4)); } break;
      case 6: b = Buffer.concat([b, Buffer.from(Array.from({ length: rng.int(1, 8) }, () => rng.int(0, 255)))]); break;
      case 7: if (b.length >= 2) { b = Buffer.from(b); b.writeUInt16LE(rng.pick([0, 3, 256, 511, 512, 65535, rng.int(0, 65535)]), rng.int(0, b.length - 2)); } break;
    }
  }
  return b.buffer.slice(b.byteOffset, b.byteOffset + b.length);
}
/** Changes one enum value in the packet of a proper value to something that is not a variant. */
function spoilEnum(rng, m, value, utf16) {
  const enums = [];
  const out = [];
  // same walk as the reference encoder, remembering where enums are
  const scalar = (type, v) => {
    if (type === "string") out.push(["uint32", v.length], ["string", v]);
    else if (!m.types.has(type)) out.push([type, v]);
    else if (m.types.get(type).kind === "enum") { enums.push([out.length, m.types.get(type)]); out.push([codec.enumWidth(m.types.get(type)), v]); } else struct(m.types.get(type), v);
  };
  const struct = (d, v) => {
    for (const f of d.fields) {
      const x = v[f.name];
      if (f.array) { out.push(["uint32", x.length]); for (const y of x) scalar(f.type, y); } else if (f.optional) {
        if (x === undefined || x === null) out.push(["uint8", 0]); else { out.push(["uint8", 1]); scalar(f.type, x); }
      } else scalar(f.type, x);
    }
  };
  struct(m.types.get(m.export), value);
  if (!enums.length) return null;
  const [at, d] = rng.pick(enums);
  const n = d.variants.length, width = codec.enumWidth(d), max = { uint8: 255, uint16: 65535, uint32: 4294967295 }[width];
  const cands = [0, 3, max, 2 ** n, 2 ** n + 1, 2 ** n - 1, 2 ** (n - 1) + 1, 5, 6, 2 ** (n - 1) + 2 ** Math.floor(n / 2), rng.int(0, max)].filter((v) => v <= max && !(Number.isInteger(Math.log2(v)) && Math.log2(v) < n));
  out[at] = [width, rng.pick(cands)];
  return codec.traceBytes(out, utf16);
}
async function examine(ctx, items, packets) {
  const mods = await subject.load(ctx, items);
  for (const g of mods) {
    g.size = g.code.length;
    if (g.error) { ctx.violation(`the generated module does not run: ${g.error}`, { schema: g.item.text }); continue; }
    packets(g, (bytes, utf16, maxItems) => {
      const bad = observe(ctx, g, bytes, utf16, maxItems);
      if (bad) ctx.violation(bad, { schema: g.item.text, packet: hex(bytes), utf16 });
      return !bad;
    });
    for (const s of gen.shapes(g.model)) ctx.saw(s);
  }
  subject.requireAccepted(ctx);
  return mods;
}
function hostile(ctx, n) {
  const rng = ctx.rng;
  return (g, use) => {
    for (let k = 0; k < n; ++k) {
      const utf16 = rng.bool(0.2);
      const v = k < 2 ? gen.uniformValue(rng, g.model, 1, true, utf16) : gen.value(rng, g.model, { budget: rng.pick([10, 40]), utf16 });
      const b = codec.encode(g.model, v, utf16);
      if (!use(b, utf16)) return;
      // every prefix of a short packet, some of a long one
      const cuts = b.byteLength <= 60 ? Array.from({ length: b.byteLength }, (_, i) => i) : [0, 1, b.byteLength - 1, b.byteLength - 2, ...Array.from({ length: 10 }, () => rng.int(0, b.byteLength - 1))];
      if (k < 3) for (const c of cuts) if (!use(b.slice(0, c), utf16)) return;
      for (let i = 0; i < 12; ++i) if (!use(mutate(rng, b), utf16)) return;
      for (let i = 0; i < 3; ++i) { const e = spoilEnum(rng, g.model, v, utf16); if (e && !use(e, utf16)) return; }
    }
    for (let k = 0; k < 6; ++k) {
      const small = rng.bool();
      const r = Buffer.from(Array.from({ length: rng.pick([0, 1, 3, 8, 20, 64]) }, () => (small ? rng.pick([0, 0, 0, 1, 1, 2, 4]) : rng.int(0, 255))));
      if (!use(r.buffer.slice(r.byteOffset, r.byteOffset + r.length), false)) return;
    }
  };
}
/** long strings and arrays: the whole packet, and without its last byte */
function long(ctx, values) {
  return (g, use) => {
    for (const v of values) {
      const b = codec.encode(g.model, v(), false);
      ctx.count("long_packets");
      if (!use(b, false, 200000) || !use(b.slice(0, b.byteLength - 1), false, 200000)) return;
    }
  };
}
async function knownFinding(ctx) {
  for (const k of ctx.findings) {
    if (!k.packet) continue;
    const { parse } = require("../lib/refparse"), { model } = require("../lib/refcheck");
    const [g] = await subject.load(ctx, [{ text: k.schema, model: model(parse(k.schema).nodes) }]);
    if (!g || g.error) continue;
    packet.reset({ maxOps: 1e5 });
    let got;
    try { got = g.type.read(unhex(k.packet)); } catch (e) { if (e instanceof packet.OpLimit || e instanceof RangeError) ctx.hit(`${k.id}: ${k.what}`); else ctx.violation(`decoding ${k.packet} throws ${e}`, { schema: k.schema, packet: k.packet }); continue; }
    if (got !== null) ctx.violation(`a packet that ends too early is accepted: ${k.packet}`, { schema: k.schema, packet: k.packet });
  }
}
async function run(ctx) {
  if (ctx.shard === 0) await knownFinding(ctx);
  for (const { item, values } of workload.large(ctx, ctx.n(2, 13))) await examine(ctx, [item], long(ctx, values));
  for (const items of workload.batches(ctx, { random: ctx.n(400, 4800), depth: ctx.n(2, 3) })) {
    const mods = await examine(ctx, items, hostile(ctx, ctx.n(8, 12)));
    if (mods.length && !mods[0].error) {
      const g = mods[0], v = gen.value(ctx.rng, g.model, { budget: 20 }), b = mutate(ctx.rng, codec.encode(g.model, v));
      let want = "claims a huge array";
      try { const d = codec.decode(g.model, b, { maxItems: MAX_ITEMS }); want = d.ok ? "value" : "null (" + d.why + ")"; } catch (e) { /* too much */ }
      ctx.sample({ schema: g.item.text, packet: hex(b).slice(0, 300), expected: want });
    }
  }
}
async function replay(ctx, kase) {
  const { parse } = require("../lib/refparse"), { model } = require("../lib/refcheck");
  await examine(ctx, [{ text: kase.schema, model: model(parse(kase.schema).nodes) }], (g, use) => { if (kase.packet !== undefined) use(unhex(kase.packet), kase.utf16, 200000); });
}
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one byte string decoded by generated code and judged by the reference decoder (null required, value required and compared, or either allowed); byte strings are packets of random values, all or some of their prefixes, mutations, packets with one enum value spoiled, random bytes, and packets with strings and arrays of up to 131073 elements. Other packets that claim more than 20000 array elements are skipped and not counted. Distinct non-trivial: distinct schema shapes (as in C01) whose decoder was exercised.",
  assumptions: ["reading past the end of a packet sets `failed` on the runtime's reader for good and gives 0 or an empty string"],
};
