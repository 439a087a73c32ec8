"use strict";
// Diagnostics: every rejection is compared with what a reference parser and checker know about the text.
const gen = require("../lib/gen"), fe = require("../lib/frontend"), { parse } = require("../lib/refparse"), { problems } = require("../lib/refcheck"), { mutate, soup, perturbed, perturb, clean } = require("../lib/mutate");

/** null, or what is wrong with the report of a parse error */
function parseReport(text, msg) {
  const m = /^\nUnexpected token '([\s\S]*?)' at line (\d+), column (\d+)\n\|\n\|  ([\s\S]*)\n\|~~(~*)\^\n$/u.exec(msg);
  if (!m) return `not the documented form: ${JSON.stringify(msg.slice(0, 300))}`;
  const [, ch, line, col, src, tildes] = m;
  const lines = text.split("\n");
  if (!(line >= 1 && line <= lines.length)) return `line ${line} of ${lines.length}`;
  const l = lines[line - 1], points = [...l];
  if (!(col >= 1 && col <= points.length + 1)) return `column ${col} in a line of ${points.length} characters`;
  if (src !== l) return `shows ${JSON.stringify(src.slice(0, 100))} as line ${line}, which is ${JSON.stringify(l.slice(0, 100))}`;
  if (tildes.length !== col - 1) return `the caret is under column ${tildes.length + 1}, the error at column ${col}`;
  let offset = 0;
  for (let i = 0; i < line - 1; ++i) offset += lines[i].length + 1;
  offset += points.slice(0, col - 1).join("").length;
  const real = offset < text.length ? String.fromCodePoint(text.codePointAt(offset)) : "\0";
  if (ch !== real) return `names ${JSON.stringify(ch)}, but line ${line}, column ${col} is ${JSON.stringify(real)}`;
  const p = parse(text);
  if (p.ok) return "the text is in the language";
  // from the start of the token that cannot be right to the character in it that cannot
  if (offset < p.lo || offset > p.hi) {
    const where = (o) => { const b = text.slice(0, o).split("\n"); return `line ${b.length}, column ${[...b[b.length - 1]].length + 1}`; };
    return `points at line ${line}, column ${col}, the text goes wrong at ${where(p.lo)}${p.hi > p.lo ? " to " + where(p.hi) : ""}`;
  }
  return null;
}
async function examine(ctx, texts) {
  const c = ctx.compiler();
  const results = await Promise.all(texts.map((t) => c.compile(t)));
  texts.forEach((t, i) => {
    const r = results[i];
    let bad = null;
    if (r.kind === "parse") {
      ctx.eval();
      ctx.count("parse_errors_judged");
      if (/[^\x00-\x7f]/.test(t)) ctx.count("parse_errors_in_non_ascii_text");
      ctx.saw(t);
      bad = parseReport(t, r.text);
      if (bad) bad = "parse error: " + bad;
    } else if (r.kind === "type") {
      ctx.eval();
      ctx.count("type_errors_judged");
      ctx.saw(t);
      const p = parse(t);
      if (!p.ok) bad = "type error for a text that is not in the language: " + r.text;
      else {
        const ps = problems(p.nodes);
        if (!ps.some((x) => x.message === r.text)) bad = `reports ${JSON.stringify(r.text.slice(0, 200))}, but the schema ${ps.length ? "has: " + ps.slice(0, 4).map((x) => x.message).join("; ") : "has no problem"}`;
        else ctx.count("reported_" + ps.find((x) => x.message === r.text).kind);
      }
    } else if (r.kind === "code") ctx.count("accepted");
    else bad = `no diagnostic but a ${r.kind}: ${r.text.slice(0, 200)}`;
    if (bad) ctx.violation(bad, { schema: t });
  });
  return results;
}
const UNI = ["é", "中文", "\u{1F600}", "ñandú", "\u{10ffff}", "á", " ", "‮"];
/** A comment or junk with characters of 2 to 4 bytes before the error. */
function unicodeBefore(rng, text) {
  const lines = text.split("\n");
  const n = rng.int(1, 3);
  for (let i = 0; i < n; ++i) lines.splice(rng.int(0, lines.length), 0, "# " + rng.pick(UNI) + rng.pick(UNI));
  let t = lines.join("\n");
  if (rng.bool(0.3)) t = t.slice(0, rng.int(0, t.length)) + rng.pick(UNI) + t.slice(rng.int(0, t.length));
  return t;
}
async function run(ctx) {
  const rng = ctx.rng;
  let batch = [], i = 0;
  const flush = async () => { const b = batch.map(clean); batch = []; const r = await examine(ctx, b); const k = r.findIndex((x) => x.kind !== "code"); if (k >= 0) ctx.sample({ schema: b[k].slice(0, 600), reported: r[k].text }); };
  const add = async (t) => { batch.push(t); if (batch.length >= 200) await flush(); };
  for (const g of [fe.duplicateFields(rng), fe.enumSizes(), fe.duplicateVariants(), fe.largeFlawed(rng)]) for (const nodes of g) if (ctx.mine(i++)) await add(gen.nodesText(nodes, rng.bool(0.3) ? rng : null));
  for (const n of [1, 2, 3]) for (let b = 0; b < 2 ** (n * n); ++b) if (ctx.mine(i++)) await add(gen.nodesText(fe.digraph(rng, n, b)));
  for (let b = 0; b < 65536; ++b) if (ctx.mine(b) && (ctx.thorough || rng.bool(0.2))) await add(gen.nodesText(fe.digraph(rng, 4, b)));
  for (const t of ["", "\n", " ", "#", "# x", "\n\n#", "export", "export ", "export X", "A", "A:", "A: ", "A: struct", "A: struct {", "A: struct {}", "A: enum {", "\u{1F600}", "#\u{1F600}\n\u{1F600}", "\r", "\r\n", "A: struct { a", "A: struct { a:", "A: struct { a: uint8", "﻿A: struct {}", "é: struct {}"]) await add(t);
  for (const t of perturbed()) if (ctx.mine(i++)) await add(t);
  await flush();
  for (let k = 0; k < ctx.n(8000, 100000) && !ctx.late(); ++k) await add(perturb(rng));
  await flush();
  for (let k = 0; k < ctx.n(30000, 500000) && !ctx.late(); ++k) {
    const what = rng.weighted([[5, "mutated"], [2, "flawed"], [1, "mutated flawed"], [1, "soup"], [2, "unicode"]]);
    if (what === "soup") { await add(soup(rng, rng.int(1, 25))); continue; }
    const base = what.includes("flawed") ? gen.nodesText(fe.randomFlawed(rng).nodes, rng.bool(0.5) ? rng : null) : gen.text(gen.schema(rng, { maxLeaves: 30, profile: rng.pick(["mixed", "tiny", "enums", "collide"]) }), rng.bool(0.7) ? rng : null);
    await add(what === "flawed" ? base : what === "unicode" ? mutate(rng, unicodeBefore(rng, base)) : mutate(rng, base));
  }
  await flush();
}
async function replay(ctx, kase) { for (let i = 0; i < 20; ++i) await examine(ctx, [kase.schema]); }
module.exports = {
  run, replay, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one rejected text whose report is judged: a type error's message must be one of those the reference checker derives for the schema; a parse error's line, column, source line, caret and character must agree with each other and lie within the token where the reference parser says the text goes wrong. Texts: mutated schemas (characters and tokens removed, inserted, repeated, moved, cut), with characters of up to 4 bytes, token soup, schemas with problems put in, large ones with one problem, enumerated small ones, every small change of a schema with all constructs. Distinct non-trivial: distinct rejected texts.",
  assumptions: ["a parse error may point anywhere from the start of the first token that cannot be right to the first character in it that cannot be right"],
};
