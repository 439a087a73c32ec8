"use strict";
// The compiler's reading of texts compared with a reference parser's: which texts are in the language, and what types they
// declare (read back from the declarations and the packets of the generated module).
const gen = require("../lib/gen"), codec = require("../lib/codec"), subject = require("../lib/subject"), { parse } = require("../lib/refparse"), { problems, model } = require("../lib/refcheck"), { mutate, soup, perturbed, perturb, clean } = require("../lib/mutate");
const { describe, expected, compare, Odd } = require("../lib/describe"), names = require("../lib/names"), fe = require("../lib/frontend"), workload = require("../lib/workload");
const { packet } = subject;

/** whether the names are ones generated TypeScript can use, so that the module can be read back */
function usable(m) {
  for (const n of m.reach) {
    const d = m.types.get(n), ex = n === m.export;
    if (!names.ok(ex ? "export" : "type", n)) return false;
    if (d.kind === "enum" ? d.variants.some((v) => !names.ok("variant", v)) : d.fields.some((f) => !names.ok(ex ? "export-field" : "field", f.name))) return false;
  }
  return true;
}
function readBack(ctx, g) {
  let got;
  try { got = describe(g); } catch (e) { if (e instanceof Odd) return `declarations: ${e.message}`; throw e; }
  const d = compare(expected(g.model), got);
  if (d) return d;
  if (g.error) return `the module does not run: ${g.error}`;
  // builtin types and order show in the packets only
  for (const present of [true, false]) {
    const v = gen.uniformValue(ctx.rng, g.model, present ? 1 : 0, present);
    const want = codec.encodeTrace(g.model, v);
    packet.reset({ trace: true, utf16: false, maxOps: want.length * 4 + 100 });
    try { subject.instance(g, v, false).write(); } catch (e) { return `encoding throws ${e}`; }
    const ops = packet.state.trace.filter((e) => /^write_/.test(e[0]));
    for (let i = 0; i < Math.max(ops.length, want.length); ++i) if (!ops[i] || !want[i] || ops[i][0] !== "write_" + want[i][0] || !Object.is(ops[i][1], want[i][1])) return `the packet has ${ops[i] ? ops[i][0].slice(6) : "nothing"} where the schema says ${want[i] ? want[i][0] : "nothing"} (operation ${i})`;
  }
  return null;
}
async function examine(ctx, texts, back) {
  const c = ctx.compiler();
  const results = await Promise.all(texts.map((t) => c.compile(t)));
  const mods = [];
  texts.forEach((t, i) => {
    const r = results[i], p = parse(t);
    ctx.eval();
    if (!p.ok) {
      ctx.count("not_in_language");
      if (r.kind !== "parse") ctx.violation(`a text that is not in the language (it goes wrong at offset ${p.lo}) gives ${r.kind}: ${r.text.slice(0, 100)}`, { schema: t });
      return;
    }
    ctx.count("in_language");
    ctx.saw(t);
    if (r.kind === "parse") return ctx.violation(`a text of the language is a parse error: ${r.text.trim()}`, { schema: t });
    const ps = problems(p.nodes);
    if (r.kind === "code" && ps.length) return ctx.violation(`read as something else: it has the problem '${ps[0].message}' but is compiled`, { schema: t });
    if (r.kind !== "code" && !ps.length) return ctx.violation(`read as something else: nothing is wrong with it but it gives ${r.kind} ${r.text.slice(0, 200)}`, { schema: t });
    if (r.kind === "code" && t.length < 20000 && back(t)) {
      const m = model(p.nodes);
      if (usable(m)) mods.push({ item: { text: t }, model: m, code: r.text });
    }
  });
  for (let i = 0; i < mods.length; i += 32) {
    const part = mods.slice(i, i + 32);
    subject.loadCode(part);
    for (const g of part) {
      ctx.count("modules_read_back");
      const bad = readBack(ctx, g);
      if (bad) ctx.violation(bad, { schema: g.item.text });
    }
  }
}
// token sequences tried exhaustively, in contexts where most sequences of few tokens say something
const ALPHABET = ["a", "strings", "uint8", "struct", "enum", "export", ":", "{", "}", ",", "?", "[]", " ", "\n", "#", "_9"];
const CONTEXTS = [
  (s) => `A: struct { ${s} }\nexport A`,
  (s) => `A: struct { x: uint8${s}y: uint8 }\nexport A`,
  (s) => `E: enum { A${s}B }\nA: struct { e: E }\nexport A`,
  (s) => `A: struct { x: uint8 }${s}\nexport A`,
  (s) => `${s}A: struct { x: uint8 }\nexport A`,
  (s) => `A: struct { x: uint8 }\nexport A${s}`,
  (s) => `A${s}struct { x: uint8 }\nexport A`,
  (s) => `A: struct { x${s}uint8 }\nexport A`,
];
function* sequences(n) {
  if (n === 0) { yield ""; return; }
  for (const s of sequences(n - 1)) for (const t of ALPHABET) yield s + t;
}
async function run(ctx) {
  const rng = ctx.rng;
  let batch = [], i = 0;
  const flush = async (back) => { const b = batch.map(clean); batch = []; await examine(ctx, b, back); };
  const add = async (t, back) => { batch.push(t); if (batch.length >= 300) await flush(back); };
  // exhaustive short sequences; the accepted ones are read back too
  for (let n = 0; n <= ctx.n(3, 4); ++n) for (const s of sequences(n)) for (const c of CONTEXTS) if (ctx.mine(i++)) { ctx.count("short_sequences"); await add(c(s), () => n < 4 || rng.bool(0.05)); }
  await flush(() => true);
  // every identifier-like word in every role
  for (const w of [...gen.KEYWORDISH, ...gen.COLLIDE, "A9_", "_", "__", "a0", "Z", "string", "uint8", "struct", "enum", "export", "9a", "a-b", "a.b", "é", "aé", "A:", "uint8[]", "e", "ex", "exp", "export1", "exportX", "enu", "struc"]) {
    if (!ctx.mine(i++)) continue;
    for (const t of [`${w}: struct { a: uint8 }\nexport ${w}`, `A: struct { ${w}: uint8 }\nexport A`, `A: struct { ${w}?: uint8 }\nexport A`, `E: enum { ${w} }\nA: struct { e: E }\nexport A`, `E: enum { A, ${w} B }\nA: struct { e: E }\nexport A`, `${w}: struct {}\nA: struct { a: ${w} }\nexport A`, `${w}: enum { Q }\nA: struct { a: ${w}[] b: ${w} c?: ${w} }\nexport A`,
      `A: struct { x: ${w} }\nexport A`, `export${w}\nA: struct {}`, `A: struct { } export ${w}`, `${w}`, `A: ${w} { a: uint8 }\nexport A`]) await add(t, () => true);
  }
  await flush(() => true);
  // every character at the start, inside and at the end of a name in every role
  for (const cp of [...Array.from({ length: 127 }, (_, k) => k + 1), 0x80, 0xa0, 0xad, 0xb5, 0xc0, 0x130, 0x131, 0x17f, 0x212a, 0x200b, 0x2028, 0x3000, 0xfeff, 0xff21, 0xff3f, 0x1d400]) {
    if (!ctx.mine(i++)) continue;
    const ch = String.fromCodePoint(cp);
    for (const w of [ch + "a", "a" + ch + "b", "a" + ch]) for (const t of [`${w}: struct { a: uint8 }\nexport ${w}`, `A: struct { ${w}: uint8 }\nexport A`, `A: struct { ${w}?: uint8[] }\nexport A`, `E: enum { ${w} }\nA: struct { e: E }\nexport A`, `a: struct {}\nA: struct { a: ${w} }\nexport A`, `a: struct {} export ${w}`]) { ctx.count("characters_in_names"); await add(t, () => true); }
  }
  await flush(() => true);
  // every small change of a small schema, and several at once
  for (const t of perturbed()) if (ctx.mine(i++)) { ctx.count("single_changes"); await add(t, () => rng.bool(0.25)); }
  await flush(() => rng.bool(0.25));
  for (let k = 0; k < ctx.n(8000, 100000) && !ctx.late(); ++k) await add(perturb(rng), () => rng.bool(0.01));
  await flush(() => false);
  for (let k = 0; k < ctx.n(6000, 80000) && !ctx.late(); ++k) {
    const what = rng.weighted([[4, "mutated"], [1, "soup"], [3, "valid"]]);
    if (what === "soup") { await add(soup(rng, rng.int(1, 25)), () => true); continue; }
    const base = gen.text(gen.schema(rng, { maxLeaves: 25, profile: rng.pick(["mixed", "tiny", "enums", "collide"]) }), rng.bool(0.85) ? rng : null);
    const t = what === "valid" ? base : mutate(rng, base);
    await add(t, () => rng.bool(ctx.n(0.12, 0.12)));
    if (k % 50 === 0) ctx.sample({ text: t, in_language: parse(clean(t)).ok });
  }
  await flush(() => rng.bool(0.12));
  // what white space, commas and comments may be where
  for (let k = 0; k < ctx.n(150, 1500) && !ctx.late(); ++k) {
    const s = workload.directed(rng)[rng.int(0, 10)];
    if (s.decls.length > 60 || s.decls.some((d) => d.kind === "struct" && d.fields.length > 60)) continue;
    await add(gen.text(s, rng), () => rng.bool(0.2));
  }
  await flush(() => true);
}
async function replay(ctx, kase) { await examine(ctx, [kase.schema], () => true); }
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one text compiled and compared with the reference parser and checker (in the language or not; compiled or not); a share of the compiled ones is read back: declarations through the TypeScript checker, builtin types and order through the packets. Texts: all sequences of up to 3 (thorough: 4) of 16 tokens in 8 contexts, identifiers of all sorts in every role, every single change (out of about 35 pieces put in or instead of, at every place, and long runs) of a schema that has all constructs and random multiple changes, schemas in random layouts, mutated ones, token soup. Distinct non-trivial: distinct texts that are in the language.",
};
