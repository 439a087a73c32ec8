"use strict";
// Histories of encode and decode calls over several modules and values: nothing an operation is given may change, results
// may not depend on what happened before, and decoded objects may not be shared.
const gen = require("../lib/gen"), codec = require("../lib/codec"), subject = require("../lib/subject"), workload = require("../lib/workload");
const { packet, hex } = subject;

/** Text of a value, telling apart everything that can be told apart (-0, holes, undefined, missing). */
function canon(v) {
  const seen = new Set();
  const go = (x) => {
    if (typeof x === "number") return Object.is(x, -0) ? "-0" : String(x);
    if (typeof x === "string") return JSON.stringify(x);
    if (typeof x !== "object" || x === null) return String(x);
    if (seen.has(x)) return "<loop>";
    seen.add(x);
    let s;
    if (Array.isArray(x)) { s = "["; for (let i = 0; i < x.length; ++i) s += (i in x ? go(x[i]) : "<hole>") + ","; s += "]"; } else s = "{" + Object.keys(x).map((k) => k + ":" + go(x[k])).join(",") + "}";
    seen.delete(x);
    return s;
  };
  return go(v);
}
function deepFreeze(v) { if (v && typeof v === "object") { Object.values(v).forEach(deepFreeze); Object.freeze(v); } return v; }
/** every object inside a decoded value; a repeated one is put in `twice` */
function objects(v, out = new Set(), twice = []) {
  if (v && typeof v === "object") {
    if (out.has(v)) { twice.push(v); return { out, twice }; }
    out.add(v);
    for (const k of Object.keys(v)) objects(v[k], out, twice);
  }
  return { out, twice };
}
/** Changes everything in a decoded value, as its owner may. */
function scribble(v) {
  if (Array.isArray(v)) { v.forEach(scribble); v.push("scribbled"); v[0] = 99; } else if (v && typeof v === "object") {
    for (const k of Object.keys(v)) { scribble(v[k]); try { v[k] = "scribbled"; } catch (e) { /* not writable */ } }
    v.scribbled = true;
  }
}
const surface = (g) => [g.type, g.type.prototype].map((o) => Object.getOwnPropertyNames(o).map((n) => { const d = Object.getOwnPropertyDescriptor(o, n); return n + typeof d.value; }).join()).join("|");

class History {
  constructor(ctx, mods, rng, log) {
    this.ctx = ctx; this.mods = mods; this.rng = rng; this.log = log; // log: list of operations, for replay
    this.seen = new WeakSet();
    for (const g of mods) { g.surface = surface(g); g.slots = []; }
    this.globals = Object.getOwnPropertyNames(globalThis).length;
  }
  /** the value, or null and this.bad set */
  encode(g, slot, how) {
    const o = subject.instance(g, slot.value, how !== "plain");
    const target = how === "frozen" ? Object.freeze(o) : o;
    const args = [];
    if (typeof how === "number") { const b = new ArrayBuffer(how); new Uint8Array(b).fill(0xaa); args.push(b); }
    const before = canon(slot.value), outer = canon(o);
    const mark = packet.state.writers.length;
    let bytes;
    try { bytes = g.type.prototype.write.apply(target, args); } catch (e) { return `encoding${how === "frozen" ? " a frozen value" : ""} throws ${e}`; }
    if (canon(slot.value) !== before || canon(o) !== outer) return "encoding changed the value";
    const w = packet.state.writers.slice(mark);
    if (args.length && !w.some((x) => x._given === args[0])) return "the buffer given to write() is not used";
    const h = hex(bytes);
    if (slot.bytes === undefined) { slot.bytes = h; slot.first = typeof how === "number" ? "with a buffer" : how; } else if (slot.bytes !== h) return `encoding the same value again (${typeof how === "number" ? "into a buffer of " + how + " bytes" : how}) gives ${h.slice(0, 200)}, the first time (${slot.first}) it was ${slot.bytes.slice(0, 200)}`;
    return null;
  }
  decode(g, key, buf, keep) {
    const before = hex(buf);
    let got;
    try { got = g.type.read(buf); } catch (e) { return `decoding ${before.slice(0, 200)} throws ${e}`; }
    if (hex(buf) !== before) return "decoding changed the packet";
    const c = canon(got);
    g.results = g.results || new Map();
    if (!g.results.has(key)) g.results.set(key, c);
    else if (g.results.get(key) !== c) return `decoding ${before.slice(0, 200)} again gives ${c.slice(0, 300)} instead of ${g.results.get(key).slice(0, 300)}`;
    if (got !== null && typeof got === "object") {
      const { out, twice } = objects(got);
      if (twice.length) return "two parts of a decoded value are the same object";
      for (const o of out) { if (this.seen.has(o)) return "a decoded value shares an object with an earlier result"; this.seen.add(o); this.ctx.count("decoded_objects_tracked"); }
      if (keep === "scribble") scribble(got);
      else if (keep) { g.kept = g.kept || []; g.kept.push({ got, c }); }
    }
    return null;
  }
  /** one step; gives null or what is wrong */
  step() {
    const rng = this.rng, gi = rng.int(0, this.mods.length - 1), g = this.mods[gi];
    const op = rng.weighted([[3, "new"], [6, "encode"], [5, "decode"], [4, "hostile"], [2, "scribble"], [1.5, "keep"], [1, "nested"]]);
    this.ctx.eval();
    this.ctx.count("op_" + op);
    let bad = null;
    packet.reset({ maxOps: 5e6, utf16: false });
    const slot = g.slots.length && op !== "new" ? rng.pick(g.slots) : this.fresh(g);
    const ref = () => codec.encode(g.model, slot.value, false);
    if (op === "new" || op === "encode") {
      const n = slot.size;
      const how = rng.weighted([[3, "plain"], [2, "constructed"], [2, "frozen"], [1, n], [1, n + 1], [1, n + 100], [1, Math.floor(n / 2)], [0.5, 0], [0.5, 8192]]);
      this.log.push([gi, op, typeof how === "number" ? "buffer " + how : how]);
      bad = this.encode(g, slot, how);
    } else if (op === "decode" || op === "scribble" || op === "keep") {
      this.log.push([gi, op, g.slots.indexOf(slot)]);
      const b = ref();
      bad = this.decode(g, hex(b), b, op === "decode" ? null : op);
    } else if (op === "hostile") {
      const b = Buffer.from(ref());
      for (let i = 0; i < 2 && b.length; ++i) b[rng.int(0, b.length - 1)] = rng.pick([0, 1, 2, 3, 7]);
      const cut = rng.bool() ? b.subarray(0, rng.int(0, b.length)) : b;
      const buf = cut.buffer.slice(cut.byteOffset, cut.byteOffset + cut.length);
      this.log.push([gi, op, hex(buf)]);
      // only what does not claim huge arrays
      let fine = true;
      try { codec.decode(g.model, buf, { maxItems: 20000 }); } catch (e) { fine = false; }
      if (fine) bad = this.decode(g, hex(buf), buf, null);
    } else bad = this.nested(g, gi, slot);
    if (bad) return bad;
    for (const m of this.mods) {
      if (surface(m) !== m.surface) return "a call left something behind on the class";
      for (const k of m.kept || []) if (canon(k.got) !== k.c) return "a decoded value changed after it was returned";
      if (m.kept && m.kept.length > 6) m.kept.shift();
    }
    if (Object.getOwnPropertyNames(globalThis).length !== this.globals) return "a call left a global variable behind";
    return null;
  }
  /** encodes a value whose first array or string runs other encodes and decodes when it is read */
  nested(g, gi, slot) {
    const inner = this.rng.pick(this.mods), other = inner.slots.length ? this.rng.pick(inner.slots) : this.fresh(inner);
    this.log.push([gi, "nested", this.mods.indexOf(inner)]);
    let bad = null, times = 0;
    const o = subject.instance(g, slot.value, false);
    const proxy = new Proxy(o, {
      get: (t, k) => {
        if (typeof k === "string" && k !== "write" && times++ < 3) {
          const b = codec.encode(inner.model, other.value, false);
          bad = bad || this.encode(inner, other, "plain") || this.decode(inner, hex(b), b, null);
        }
        return t[k];
      },
    });
    let bytes;
    try { bytes = g.type.prototype.write.call(proxy); } catch (e) { return `encoding with another encode in between throws ${e}`; }
    if (bad) return "during another encode: " + bad;
    const h = hex(bytes);
    if (slot.bytes === undefined) { slot.bytes = h; slot.first = "nested"; } else if (slot.bytes !== h) return `encoding with other calls in between gives ${h.slice(0, 200)} instead of ${slot.bytes.slice(0, 200)}`;
    return null;
  }
  fresh(g) {
    const value = deepFreezeInner(gen.value(this.rng, g.model, { budget: this.rng.pick([10, 40]) }), this.rng.bool(0.5));
    const slot = { value, size: codec.encode(g.model, value).byteLength };
    g.slots.push(slot);
    if (g.slots.length > 5) g.slots.shift();
    return slot;
  }
}
function deepFreezeInner(v, on) { if (on) for (const k of Object.keys(v)) deepFreeze(v[k]); return v; }

async function examine(ctx, items, seed, steps) {
  const mods = (await subject.load(ctx, items)).filter((g) => {
    if (g.error) ctx.violation(`the generated module does not run: ${g.error}`, { schemas: [g.item.text], seed, steps: 0 });
    return !g.error;
  });
  if (!mods.length) return;
  const { Rng } = require("../lib/rng");
  const log = [];
  const h = new History(ctx, mods, new Rng(seed), log);
  for (let i = 0; i < steps; ++i) {
    const bad = h.step();
    if (bad) { ctx.violation(bad + ` (step ${i + 1})`, { schemas: items.map((it) => it.text), seed, steps, last_operations: log.slice(-12) }); break; }
  }
  for (const g of mods) for (const s of gen.shapes(g.model)) ctx.saw(s);
  ctx.count("histories");
  ctx.sample({ schemas: items.map((it) => it.text).slice(0, 2), operations: log.slice(0, 25) });
  subject.requireAccepted(ctx);
}
async function run(ctx) {
  let k = 0;
  for (const items of workload.batches(ctx, { random: ctx.n(240, 2800), depth: ctx.n(1, 2), size: 24 })) {
    for (let i = 0; i < items.length; i += 4) await examine(ctx, items.slice(i, i + 4), [ctx.seed, ctx.shard, ++k].join("/"), ctx.n(120, 200));
  }
}
async function replay(ctx, kase) {
  const { parse } = require("../lib/refparse"), { model } = require("../lib/refcheck");
  await examine(ctx, kase.schemas.map((text) => ({ text, model: model(parse(text).nodes) })), kase.seed, kase.steps);
}
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one step of a random history over up to four modules: encode (plain, constructed, frozen, into a given buffer of various sizes), decode, decode hostile bytes, decode and change the result, decode and keep the result, encode with other calls in between (re-entrantly). After each step: inputs unchanged, result equal to the first one for the same input, no object shared with an earlier result or within it, kept results unchanged, class and global object unchanged. Distinct non-trivial: distinct shapes (as in C01) of the schemas in histories.",
  assumptions: ["packet runtime replaced by an instrumented stand-in whose readers and writers share nothing"],
};
