"use strict";
// Arbitrary texts through compile() (built with overflow checks and debug assertions) and arbitrary files and trees through
// the tool: each must end with code or an error, never with a panic, a crash or no end at all.
const gen = require("../lib/gen"), { Compiler } = require("../lib/compiler"), { mutate, soup, clean, TOKENS } = require("../lib/mutate"), { flawed, FLAWS } = require("../lib/flaws"), fe = require("../lib/frontend"), cli = require("../lib/clirun"), trees = require("../lib/trees");

const BAD = { panic: "panics", crash: "crashes", hang: "does not end" };

function randomText(rng) {
  const n = rng.weighted([[4, rng.int(0, 12)], [3, rng.int(0, 80)], [1, rng.int(0, 1500)]]);
  const source = rng.pick([
    () => String.fromCodePoint(rng.int(0, 127)), () => String.fromCodePoint(rng.int(0, 0x10ffff)), () => String.fromCodePoint(rng.int(0x80, 0x7ff)), () => String.fromCodePoint(rng.int(0x1f300, 0x1f6ff)),
    () => rng.pick(["\n", "\r", "\r\n", " ", "\t", "a", ":", "é", "#"]), () => rng.pick(["̀", "‍", "‮", "﻿", "\0", " ", "\u0085", "a"]), () => rng.pick(TOKENS), () => rng.pick([...TOKENS, String.fromCodePoint(rng.int(0, 0x10ffff))]),
  ]);
  let s = "";
  for (let i = 0; i < n; ++i) s += source();
  return clean(s);
}
/** a valid schema cut or with a strange character put in somewhere */
function spoiled(rng) {
  const t = gen.text(gen.schema(rng, { maxLeaves: 20 }), rng), cs = [...t], i = rng.int(0, cs.length);
  return rng.pick([() => cs.slice(0, i).join(""), () => cs.slice(i).join(""), () => cs.slice(0, i).join("") + rng.pick(["é", "中", "\u{1F600}", "\0", "́", "�", "\u{10FFFF}"]) + cs.slice(i).join(""), () => "é\u{1F600}\n".repeat(rng.int(1, 5)) + t, () => t + "\n#" + "é".repeat(rng.int(0, 50)) + rng.pick(["", "\n", "\n\n", "\n}", "\r"])])();
}
const rep = (s, n) => s.repeat(n);
/** big and deep inputs, by name */
function big(scale) {
  const K = 1000 * scale, out = {};
  const add = (n, f) => { out[n] = f; };
  for (const c of [" ", "\n", "\r", "#", ":", "{", "}", "a", "[", "[]", ",", "?", "é", "\u{1F600}", "\0", "A:", "A: struct {", "struct ", "a b ", "# x\n", "export A\n"]) {
    add("repeated " + JSON.stringify(c), () => rep(c, 400 * K));
    add("a field, then repeated " + JSON.stringify(c), () => "A: struct { a: uint8 " + rep(c, 400 * K));
    add("a declaration, then repeated " + JSON.stringify(c), () => "A: struct { a: uint8 }\n" + rep(c, 400 * K) + "\nexport A");
  }
  add("long names", () => { const n = rep("n", 20 * K), m = rep("m", 20 * K); return `${n}: struct { ${m}: uint8 ${m}2: ${m}e }\n${m}e: enum { ${rep("v", 20 * K)} }\nexport ${n}`; });
  add("one line, error at the end", () => "A: struct { " + Array.from({ length: 20 * K }, (_, i) => `f${i}: uint8`).join(", ") + " } é");
  add("many fields", () => "A: struct {" + Array.from({ length: 5 * K }, (_, i) => ` f${i}: ${["uint8", "string[]", "float"][i % 3]}`).join("") + " }\nexport A");
  add("many fields of a struct type", () => "B: struct { b: uint8[] }\nA: struct {" + Array.from({ length: 3 * K }, (_, i) => ` f${i}: B`).join("") + " }\nexport A");
  add("many unused types", () => Array.from({ length: 3 * K }, (_, i) => `T${i}: struct { a: uint8 }\n`).join("") + "A: struct {}\nexport A");
  add("many used types", () => Array.from({ length: 2 * K }, (_, i) => `T${i}: struct { a: uint8 }\n`).join("") + "A: struct {" + Array.from({ length: 2 * K }, (_, i) => ` f${i}: T${i}`).join("") + " }\nexport A");
  add("many exports", () => "A: struct {}\n" + rep("export A\n", 20 * K));
  add("many variants", () => "E: enum {" + Array.from({ length: 20 * K }, (_, i) => ` V${i}`).join("") + " }\nA: struct { e: E }\nexport A");
  add("a type declared many times", () => rep("A: struct { a: uint8 }\n", 5 * K) + "export A");
  add("a field many times", () => "A: struct {" + rep(" a: uint8", 20 * K) + " }\nexport A");
  add("many comments", () => rep("# é\n", 300 * K) + "A: struct {}\nexport A\n" + rep("#\n", 50 * K));
  add("many comments in a struct", () => "A: struct {\n" + rep("# x\n", 300 * K) + "a: uint8\n" + rep("  # x\r\n", 300 * K) + "}\nexport A");
  add("error after many lines", () => rep("# é\n", 50 * K) + "A: struct é");
  for (const [n, close] of [["cycle", true], ["chain", false]]) for (const depth of [10, 100, 500, 1000]) for (const suffix of ["", "[]"]) for (const rev of [false, true])
    if (!(suffix && depth > 500)) add(`${n} of ${depth} structs${suffix}${rev ? " backwards" : ""}`, () => {
      const ds = Array.from({ length: depth }, (_, i) => `S${i}: struct { ${i + 1 < depth ? `n: S${i + 1}${suffix}` : close ? "n: S0" : "n: uint8"} }\n`);
      return (rev ? ds.reverse() : ds).join("") + "export S0";
    });
  add("self reference", () => "A: struct { a: A }\nexport A");
  add("self reference unused", () => "B: struct { a: B[] }\nA: struct {}\nexport A");
  return out;
}
function* cliFiles(rng, n) {
  for (let i = 0; i < n; ++i) {
    const what = rng.int(0, 6);
    let b;
    if (what === 0) b = Buffer.from(Array.from({ length: rng.int(0, 300) }, () => rng.int(0, 255)));
    else if (what === 1) { b = Buffer.from(gen.text(gen.schema(rng, { maxLeaves: 10 }), rng)); b = Buffer.from(b); for (let k = rng.int(1, 4); k > 0 && b.length; --k) b[rng.int(0, b.length - 1)] = rng.int(0, 255); }
    else if (what === 2) b = Buffer.from(randomText(rng));
    else if (what === 3) b = Buffer.from(spoiled(rng));
    else if (what === 4) b = Buffer.from(gen.nodesText(flawed(rng, gen.schema(rng, { maxLeaves: 10 }), [rng.pick(Object.keys(FLAWS))]), rng));
    else if (what === 5) b = Buffer.from(gen.text(gen.schema(rng, { maxLeaves: 40 }), rng));
    else b = Buffer.from(rng.pick(["﻿", "﻿A: struct {}\nexport A", "\0", ""]));
    yield b;
  }
}
const ODD = ["x.pkt", "x\xff.pkt", "\xc3.pkt", cli.name("é.pkt"), "..pkt", ".pkt", "...pkt", "a\nb.pkt", " .pkt", "-.pkt", "x.pkt.pkt", "x.\xffpkt", "\xff", "pkt", "a", "%s.pkt", "\x01.pkt", "a".repeat(250) + ".pkt", "b".repeat(252) + "pkt"];
const DIRS = ["", "d/", "\xff/", "d.pkt/", cli.name("é/e/"), "\xc3\x28/x/", ". /", "a\nb/", ".../"];

function runTool(ctx, sb, k) {
  sb.reset();
  sb.mkdir("in");
  // (a name that is taken already is left out)
  const attempt = (f) => { try { f(); } catch (e) { if (!["EISDIR", "ENOTDIR", "EEXIST"].includes(e.code)) throw e; } };
  for (const [p, content] of k.files) attempt(() => sb.write("in/" + p, Buffer.from(content, "latin1")));
  for (const d of k.dirs) attempt(() => sb.mkdir("in/" + d));
  for (const [p, to] of k.links) attempt(() => sb.symlink("in/" + p, to));
  const r = sb.run(["ts", k.arg, "out"]);
  ctx.eval();
  ctx.count("tool_runs");
  ctx.count(r.status === 0 ? "tool_succeeded" : "tool_failed");
  ctx.saw("tool " + JSON.stringify(k));
  if (r.hang || r.signal || cli.panicked(r)) ctx.violation(`packetc ts ${k.arg} out: ${cli.ended(r)} ${r.stderr.slice(0, 300)}`, k);
}
/** a big input through the tool, which has another build and stack */
function runBig(ctx, sb, n, scale) {
  sb.reset();
  sb.write("in/x.pkt", big(scale)[n]());
  const r = sb.run(["ts", "in", "out"]);
  ctx.eval();
  ctx.count("tool_runs_on_big_inputs");
  if (r.hang || r.signal || cli.panicked(r)) ctx.violation(`packetc ts in out, with ${n} as schema: ${cli.ended(r)} ${r.stderr.slice(0, 300)}`, { bigFile: n, scale });
}
async function texts(ctx, list, names) {
  const rs = await Promise.all(list.map((t) => ctx.compiler().compile(t)));
  rs.forEach((r, i) => {
    ctx.eval();
    ctx.count("gives_" + r.kind);
    ctx.saw(list[i]);
    if (BAD[r.kind]) ctx.violation(`compile() ${BAD[r.kind]}${names ? " on " + names[i] : ""}: ${r.text.slice(0, 400)}`, names ? { big: names[i], scale: ctx.n(1, 4) } : { text: list[i] });
  });
}
async function run(ctx) {
  const rng = ctx.rng;
  // listed: nesting so deep that the stack does not suffice, and code that doubles with every level
  if (ctx.mine(0)) for (const f of ctx.findings.filter((x) => x.levels)) {
    const r = await ctx.compiler().compile(Array.from({ length: f.levels }, (_, i) => `S${i}: struct { n: ${i + 1 < f.levels ? "S" + (i + 1) : "uint8"} }\n`).join("") + "export S0");
    if (r.kind === "crash") ctx.hit(f.what);
  }
  if (ctx.mine(1)) for (const f of ctx.findings.filter((x) => x.doublings)) {
    const c = new Compiler(process.env.VERIF_HARNESS, { memory: 1000000 });
    const r = await c.compile(Array.from({ length: f.doublings }, (_, i) => { const t = i + 1 < f.doublings ? "S" + (i + 1) : "uint8"; return `S${i}: struct { a: ${t} b: ${t} }\n`; }).join("") + "export S0");
    c.stop();
    if (r.kind === "crash") ctx.hit(f.what);
  }
  let i = 0;
  for (const [n, f] of Object.entries(big(ctx.n(1, 4)))) if (ctx.mine(i++)) { await texts(ctx, [f()], [n]); ctx.count("big_inputs"); }
  for (let c = 0; c < 0x3000; c += 1) if (ctx.mine(c) && !(c >= 0xd800 && c < 0xe000)) { const s = String.fromCodePoint(c); await texts(ctx, [s, s + "A: struct {}\nexport A", "A: struct { a: uint8 " + s + "}\nexport A", "# " + s + "\nA: struct {}\nexport A" + s]); }
  for (let k = 0; k < ctx.n(400, 6000) && !ctx.late(); ++k) {
    const batch = [];
    for (let j = 0; j < 100; ++j) batch.push(rng.weighted([
      [3, randomText], [3, spoiled], [2, () => clean(mutate(rng, gen.text(gen.schema(rng, { maxLeaves: 20 }), rng)))], [2, () => soup(rng, rng.int(1, 30))],
      [2, () => gen.nodesText(flawed(rng, gen.schema(rng, { maxLeaves: 15 }), [rng.pick(Object.keys(FLAWS)), rng.pick(Object.keys(FLAWS))].slice(0, rng.int(1, 2))), rng)], [1, () => gen.text(gen.schema(rng, {}), rng)],
    ])(rng));
    await texts(ctx, batch);
    if (k % 50 === 0) ctx.sample({ text: batch[0].slice(0, 300) });
  }
  ctx.compiler().stop();
  const sb = new cli.Sandbox();
  // (how deep the stack of the tool's unoptimised build reaches is nobody's concern)
  Object.keys(big(ctx.n(1, 4))).filter((n) => !/of (500|1000) structs/.test(n)).forEach((n, j) => { if (ctx.mine(j)) runBig(ctx, sb, n, ctx.n(1, 4)); });
  const contents = [...cliFiles(rng, 200)];
  for (let k = 0; k < ctx.n(500, 6000) && !ctx.late(); ++k) {
    const files = new Map(), dirs = [], links = [];
    for (let j = rng.int(0, 4); j > 0; --j) files.set(rng.pick(DIRS) + rng.pick(ODD), rng.pick(contents).toString("latin1"));
    if (rng.bool(0.3)) dirs.push(rng.pick(["empty", "empty.pkt", "\xfe", "q/w/e/r/t/y", "x.ts"]));
    if (rng.bool(0.2)) links.push([rng.pick(["l", "l.pkt", "\xfd"]), rng.pick(["nothing", ".", "..", "l.pkt", "/dev/null", "x.pkt", "d"])]);
    const ok = [...files].filter(([p]) => !dirs.includes(p));
    const args = ["in", "in", "in", "in/", ".", "in/x.pkt", "in/d", "in/é.pkt", "in/...pkt", "in/..pkt", "in/.", "in/..", "in/pkt", "in/l", "/dev/null", "", "in/" + "a".repeat(250) + ".pkt", "in/" + "z".repeat(300)];
    runTool(ctx, sb, { files: ok, dirs, links, arg: rng.pick(args) });
  }
}
async function replay(ctx, k) {
  if (k.bigFile) return runBig(ctx, new cli.Sandbox(), k.bigFile, k.scale);
  if (k.files) return runTool(ctx, new cli.Sandbox(), k);
  await texts(ctx, [k.big ? big(k.scale)[k.big]() : k.text]);
}
module.exports = {
  run, replay, prepare: cli.prepare, needs: ["harness", "cli"], level: "exploration",
  rule: "One evaluation is one text given to compile() (with overflow checks and debug assertions, 60 s of processor time and 6 GB of memory at most), or one run of the tool on a directory tree with arbitrary names and contents. Texts: random Unicode, every character up to U+2FFF in four places, spoiled, mutated and ill-formed schemas, token soup, inputs of about 400 kB and more of one repeated piece (these through the tool as well), nesting up to 1000 levels. Distinct non-trivial: distinct texts and trees.",
  assumptions: ["more than 1000 levels of nesting and exponentially growing code are outside (known findings)", "command-line arguments are UTF-8"],
};
