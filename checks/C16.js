"use strict";
// Pairs of schemas that differ in what should not matter are compiled, and the two modules compared with each other: declarations, packets,
// and what they make of hostile packets.
const gen = require("../lib/gen"), codec = require("../lib/codec"), subject = require("../lib/subject"), workload = require("../lib/workload"), names = require("../lib/names");
const { describe, compare, Odd } = require("../lib/describe"), { body } = require("../lib/compiler"), { BUILTIN } = require("../lib/refcheck");
const { packet, hex } = subject;

// ---- edits: schema -> { schema, text, names? } ------------------------------------------------------

const own = (o, k) => (Object.hasOwn(o, k) ? o[k] : k);
function rename(rng, s) {
  const style = rng.pick(["collide", "mixed", "long"]), map = { types: {}, fields: {}, variants: {} };
  const set = (o, k, v) => Object.defineProperty(o, k, { value: v, enumerable: true });
  const used = new Set();
  for (const d of s.decls) { const n = gen.ident(rng, (x) => !used.has(x) && names.ok(d.name === s.export ? "export" : "type", x), style); used.add(n); set(map.types, d.name, n); }
  const decls = s.decls.map((d) => {
    const seen = new Set(), inner = {};
    const fresh = (role) => { const n = gen.ident(rng, (x) => !seen.has(x) && names.ok(role, x), style); seen.add(n); return n; };
    if (d.kind === "enum") { d.variants.forEach((v) => set(inner, v, fresh("variant"))); set(map.variants, d.name, inner); return { ...d, name: own(map.types, d.name), variants: d.variants.map((v) => inner[v]) }; }
    d.fields.forEach((f) => set(inner, f.name, fresh(d.name === s.export ? "export-field" : "field")));
    set(map.fields, d.name, inner);
    return { ...d, name: own(map.types, d.name), fields: d.fields.map((f) => ({ ...f, name: inner[f.name], type: own(map.types, f.type) })) };
  });
  const out = { decls, export: own(map.types, s.export), profile: s.profile };
  return { schema: out, text: gen.text(out, rng.bool() ? rng : null), names: map };
}
const EDITS = {
  layout: (rng, s) => ({ schema: s, text: gen.text(s, rng) }),
  plain: (rng, s) => ({ schema: s, text: gen.text(s) }),
  order: (rng, s) => { const t = { ...s, decls: rng.shuffle(s.decls) }; return { schema: t, text: gen.text(t, rng.bool() ? rng : null) }; },
  reversed: (rng, s) => { const t = { ...s, decls: s.decls.slice().reverse() }; return { schema: t, text: gen.text(t) }; },
  unused: (rng, s) => { const t = workload.addUnused(rng, s); return { schema: t, text: gen.text({ ...t, decls: rng.shuffle(t.decls) }, rng.bool() ? rng : null) }; },
  removed: (rng, s) => { const reach = gen.modelOf(s).reach; const t = { ...s, decls: s.decls.filter((d) => reach.has(d.name)) }; return { schema: t, text: gen.text(t, rng.bool() ? rng : null) }; },
  rename: rename,
};
function renamedValue(m, map, v) {
  const struct = (d, v) => {
    const o = {};
    for (const f of d.fields) {
      const one = (x) => (BUILTIN.has(f.type) || m.types.get(f.type).kind === "enum" || x === undefined || x === null ? x : struct(m.types.get(f.type), x));
      Object.defineProperty(o, map ? map.fields[d.name][f.name] : f.name, { value: f.array ? v[f.name].map(one) : one(v[f.name]), enumerable: true, writable: true, configurable: true });
    }
    return o;
  };
  return struct(m.types.get(m.export), v);
}
function renamedDescription(m, map, d) {
  if (!map) return d;
  const field = (t) => (f) => ({ ...f, name: own(map.fields[t], f.name), type: own(map.types, f.type) });
  const out = { exports: d.exports.map((n) => own(map.types, n)), fields: d.fields.map(field(m.export)), params: d.params.map(field(m.export)), types: {} };
  for (const n of Object.keys(d.types)) {
    const t = d.types[n];
    Object.defineProperty(out.types, own(map.types, n), { enumerable: true, value: t.kind === "enum" ? { ...t, variants: t.variants.map(([v, x]) => [own(map.variants[n], v), x]) } : { ...t, fields: t.fields.map(field(n)) } });
  }
  return out;
}

// ---- comparison ---------------------------------------------------------------------------------------

const ops = () => packet.state.trace.filter((e) => /^(read|write)_/.test(e[0]));
function sameOps(a, b) {
  if (a.length !== b.length) return `${b.length} primitive operations instead of ${a.length}`;
  for (let i = 0; i < a.length; ++i) if (a[i][0] !== b[i][0] || !Object.is(a[i][1], b[i][1])) return `operation ${i} is ${b[i].join(" ")} instead of ${a[i].join(" ")}`;
  return null;
}
/** runs f, recording operations */
function recorded(f) {
  packet.reset({ trace: true, utf16: false, maxOps: 2e6 });
  try { return { result: f(), ops: ops() }; } catch (e) { return { thrown: String(e), ops: [] }; }
}
function wire(ctx, a, b, map, rng, n) {
  for (let i = 0; i < n; ++i) {
    const v = i === 0 ? gen.uniformValue(rng, a.model, a.item.schema.profile === "deep" ? 1 : 2, true) : gen.value(rng, a.model, { budget: 30 });
    const w = renamedValue(a.model, map, v);
    const x = recorded(() => subject.instance(a, v, false).write()), y = recorded(() => subject.instance(b, w, false).write());
    ctx.eval();
    if (x.thrown !== y.thrown && (x.thrown === undefined || y.thrown === undefined)) return `encoding: ${y.thrown || "no exception"} instead of ${x.thrown || "none"}`;
    if (x.thrown) continue;
    const d = sameOps(x.ops, y.ops);
    if (d) return `encoding: ${d}`;
    if (hex(x.result) !== hex(y.result)) return `packet ${hex(y.result).slice(0, 200)} instead of ${hex(x.result).slice(0, 200)}`;
    const packets = [x.result];
    for (let k = 0; k < 3; ++k) {
      const c = Buffer.from(x.result);
      if (c.length) c[rng.int(0, c.length - 1)] = rng.pick([0, 1, 2, 3, 255]);
      const cut = rng.bool(0.4) ? c.subarray(0, rng.int(0, c.length)) : c;
      packets.push(cut.buffer.slice(cut.byteOffset, cut.byteOffset + cut.length));
    }
    for (const p of packets) {
      try { codec.decode(a.model, p, { maxItems: 5000 }); } catch (e) { continue; }
      const r = recorded(() => a.type.read(p)), q = recorded(() => b.type.read(p));
      ctx.eval();
      const show = (z) => (z.thrown ? "an exception" : z.result === null ? "null" : "a value");
      if (show(r) !== show(q)) return `decoding ${hex(p).slice(0, 200)} gives ${show(q)} instead of ${show(r)}`;
      const e = sameOps(r.ops, q.ops);
      if (e) return `decoding ${hex(p).slice(0, 200)}: ${e}`;
      if (r.result) {
        let diff;
        try { diff = codec.differs(b.model, b.model.export, renamedValue(a.model, map, r.result), q.result); } catch (er) { diff = null; /* a malformed result, the same in both */ }
        if (diff && !codec.malformed(a.model, r.result)) return `decoding ${hex(p).slice(0, 200)}: ${diff}`;
      }
    }
  }
  return null;
}
async function examine(ctx, pairs, rng, n) {
  const items = new Set();
  for (const p of pairs) items.add(p.a).add(p.b);
  const mods = new Map((await subject.compile(ctx, [...items])).map((g) => [g.item, g]));
  // modules that are the same text need not be run
  const toRun = new Set();
  for (const p of pairs) {
    const a = mods.get(p.a), b = mods.get(p.b);
    if (a && b && (p.b.names || body(a.code) !== body(b.code))) toRun.add(a).add(b);
  }
  subject.loadCode([...toRun]);
  for (const p of pairs) {
    const a = mods.get(p.a), b = mods.get(p.b), kase = { edit: p.edit, schema: p.a.text, edited: p.b.text, names: p.b.names };
    ctx.eval();
    ctx.count("pairs_" + p.edit);
    const fail = (what) => ctx.violation(`after the edit '${p.edit}': ${what}`, kase);
    if (!a && !b) continue;
    if (!a || !b) { const r = (a ? p.b : p.a).rejected; fail(`${a ? "the edited schema" : "the original"} is not accepted (${r.kind} ${r.text}), the other is`); continue; }
    for (const s of gen.shapes(a.model)) ctx.saw(p.edit + s);
    if (!p.b.names && body(a.code) === body(b.code)) { ctx.count("pairs_with_identical_code"); continue; }
    let da, db;
    try { da = describe(a); db = describe(b); } catch (e) { if (!(e instanceof Odd)) throw e; fail(`declarations: ${e.message}`); continue; }
    const d = compare(renamedDescription(a.model, p.b.names, da), db);
    if (d) { fail(`declarations differ: ${d}`); continue; }
    if (a.error || b.error) { if (!!a.error !== !!b.error) fail(`only one of the modules runs: ${a.error || b.error}`); continue; }
    const w = wire(ctx, a, b, p.b.names, rng, n);
    if (w) fail(w);
  }
  subject.requireAccepted(ctx);
}
async function run(ctx) {
  const rng = ctx.rng, kinds = Object.keys(EDITS);
  for (const items of workload.batches(ctx, { random: ctx.n(260, 3200), depth: ctx.n(1, 2), size: 16 })) {
    const pairs = [];
    for (const a of items) {
      for (const edit of new Set(["rename", rng.pick(kinds), rng.pick(kinds), rng.pick(kinds)])) {
        const b = EDITS[edit](rng, a.schema);
        pairs.push({ a, edit, b: { ...b, model: gen.modelOf(b.schema) } });
      }
    }
    await examine(ctx, pairs, rng, ctx.n(5, 6));
    ctx.sample({ edit: pairs[0].edit, schema: pairs[0].a.text, edited: pairs[0].b.text });
  }
}
async function replay(ctx, kase) {
  const { parse } = require("../lib/refparse"), { model } = require("../lib/refcheck");
  const item = (text) => ({ text, model: model(parse(text).nodes), schema: { profile: "replay" } });
  await examine(ctx, [{ edit: kase.edit, a: item(kase.schema), b: { ...item(kase.edited), names: kase.names } }], ctx.rng, 40);
}
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "Pairs of a schema and an edited one: other layout, comments, commas and line ends; other declaration order; types added that the export does not use, or all such types removed; everything renamed. One evaluation is one pair compiled and compared (outcome and declarations), or one value encoded or packet decoded by both modules and compared (primitive operations, bytes, result). Pairs whose generated code is the same text need no runs. Distinct non-trivial: distinct combinations of edit and schema shape (as in C01).",
  assumptions: ["packet runtime replaced by an instrumented stand-in"],
};
