"use strict";
// The tool run on inputs in which something is bad: it has to say so and leave everything as it was.
const cli = require("../lib/clirun"), trees = require("../lib/trees"), gen = require("../lib/gen"), { flawed, FLAWS } = require("../lib/flaws"), { mutate, clean } = require("../lib/mutate");

// kinds of badness that are not in the text
const WAYS = ["not UTF-8", "unreadable", "unreadable directory", "dangling link", "link to itself"];

async function badTexts(ctx, n) {
  const rng = ctx.rng, texts = ["", "#", "\n", "X: struct {", "export X", "X: struct {}", "\u{FEFF}X: struct {}\nexport X", "X: struct {}\nexport X\nexport X", "X: struct { a: Y }\nexport X", "E: enum {}\nexport E", "é"];
  while (texts.length < n) {
    const s = gen.schema(rng, { maxLeaves: 20 });
    if (rng.bool()) texts.push(gen.nodesText(flawed(rng, s, [rng.pick(Object.keys(FLAWS))]), rng)); else texts.push(clean(mutate(rng, gen.text(s, rng))));
  }
  const rs = await Promise.all(texts.map((t) => ctx.compiler().compile(t)));
  return texts.map((text, i) => ({ text, kind: rs[i].kind, message: rs[i].text })).filter((t) => t.kind === "parse" || t.kind === "type");
}
function makeCase(ctx, sb, schemas, bads) {
  const rng = ctx.rng;
  const ways = sb.unprivileged ? WAYS : WAYS.filter((w) => !/unreadable/.test(w));
  const bad = [];
  for (let i = rng.weighted([[8, 1], [2, 2], [1, 3]]); i > 0; --i) bad.push(rng.bool(0.7) ? { way: "text", ...rng.pick(bads), at: rng.int(0, 5) } : { way: rng.pick(ways), at: rng.int(0, 5) });
  const single = rng.bool(0.25);
  const t = trees.tree(rng, schemas, { max: rng.weighted([[6, 6], [1, 40]]) });
  return { single, bad: single ? bad.slice(0, 1) : bad, tree: { dirs: t.dirs, files: [...t.files].map(([p, s]) => [p, s && s.text]) }, prior: rng.pick(["none", "none", "earlier run", "other"]), output: rng.pick(["out", "out", "in", "in/gen", "new/out"]), order: rng.int(0, 1e9) };
}
/** many files or many levels, one of them bad */
function wideCase(ctx, sb, schemas, bads, n) {
  const rng = ctx.rng, c = makeCase(ctx, sb, schemas, bads), small = schemas.slice().sort((a, b) => a.code.length - b.code.length).slice(0, 10);
  const file = (i) => (i % 3 ? `d${i % 7}/` : "") + `f${i}.pkt`, level = (i) => Array.from({ length: i }, (_, k) => "d" + k).join("/") + (i ? "/" : "") + "f.pkt";
  const files = Array.from({ length: n }, (_, i) => [n > 100 ? file(i) : level(i), rng.pick(small).text]);
  const dirs = [...new Set(files.map(([p]) => p.slice(0, Math.max(0, p.lastIndexOf("/")))))].filter((d) => d);
  return { ...c, single: false, bad: [{ ...c.bad[0], at: rng.int(0, dirs.length) }], tree: { dirs, files } };
}
function examine(ctx, sb, c) {
  const rng = new (require("../lib/rng").Rng)("C14", c.order);
  sb.reset();
  sb.mkdir("in");
  const base = "in", dirs = ["", ...c.tree.dirs.map((d) => d + "/")];
  for (const d of c.tree.dirs) sb.mkdir(base + "/" + d);
  const todo = c.tree.files.map(([p, t]) => () => sb.write(base + "/" + p, t === null ? "noise" : t));
  const taken = new Set(c.tree.files.map(([p]) => p).concat(c.tree.dirs)), badPaths = [], later = [];
  c.bad.forEach((b, i) => {
    let p;
    // names that sort and hash to all sorts of places among the others
    do p = dirs[b.at % dirs.length] + rng.pick(["", "", "a", "m", "z", "_", "0"]) + "bad" + rng.int(0, 999) + (b.way === "unreadable directory" ? "" : ".pkt"); while (taken.has(p));
    taken.add(p);
    const full = base + "/" + p;
    badPaths.push(full);
    const valid = "X: struct { a: uint8 }\nexport X\n";
    if (b.way === "text") todo.push(() => sb.write(full, b.text));
    else if (b.way === "not UTF-8") todo.push(() => sb.write(full, Buffer.from(rng.pick(["X: struct {}\nexport X # \xe9\n", "\xff", "# \xc0\x80\nX: struct {}\nexport X", valid + "#\xed\xa0\x80", "\xff\xfeX\0:\0"]), "latin1")));
    else if (b.way === "unreadable") { todo.push(() => sb.write(full, valid)); later.push(() => sb.chmod(full, 0)); }
    else if (b.way === "unreadable directory") { todo.push(() => { sb.mkdir(full); sb.write(full + "/x.pkt", valid); }); later.push(() => sb.chmod(full, 0o0)); }
    else if (b.way === "dangling link") todo.push(() => sb.symlink(full, "nothing-there"));
    else todo.push(() => sb.symlink(full, full.slice(full.lastIndexOf("/") + 1)));
  });
  const early = rng.bool(0.3) ? todo : rng.shuffle(todo);
  for (const f of early) f();
  const valid = c.tree.files.filter(([p, t]) => t !== null);
  if (c.prior !== "none") {
    for (const [p] of valid) { try { sb.write(c.output + "/" + p.replace(/[^/]*$/, (n) => cli.tsName(n)), c.prior === "other" ? "" : "// an earlier run\n"); } catch (e) { if (!["EISDIR", "ENOTDIR", "EEXIST"].includes(e.code)) throw e; } }
    for (const p of badPaths) try { sb.write(c.output + p.slice(2).replace(/\.pkt$/, "") + ".ts", "// from when it was good\n"); } catch (e) { if (!["EISDIR", "ENOTDIR", "EEXIST"].includes(e.code)) throw e; }
  }
  for (const f of later) f();
  let input = "in";
  if (c.single) input = cli.text(badPaths[0]);
  // the tool must not be able to write into what is unreadable, and the snapshots are taken by root
  const before = sb.snapshot();
  const r = sb.run(["ts", input, c.output]);
  const after = sb.snapshot();
  const what = c.bad.map((b) => (b.way === "text" ? "a schema that does not compile" : b.way)).join(" and ");
  ctx.eval();
  for (const b of c.bad) ctx.count("bad_" + b.way.replace(/\W/g, "_"));
  ctx.count(c.single ? "file_runs" : "directory_runs");
  ctx.count("valid_schemas_beside", c.single ? 0 : valid.length);
  // something good before something bad is where a tool that writes as it goes would be seen
  const order = r.calls.filter(([k]) => k === "open").map(([, p]) => p);
  if (order.length > 1) ctx.count("good_read_before_bad");
  ctx.saw(JSON.stringify(c));
  const tell = (m) => ctx.violation(`packetc ts ${input} ${c.output}, with ${what} (${badPaths.join(", ")}): ${m}`, c);
  if (r.refused.length) tell(`it tries to change ${r.refused[0][1]}`);
  const d = cli.differences(before, after);
  if (d.length) tell(`afterwards ${d[0][1]} is ${d[0][0]} (${cli.ended(r)})`);
  if (r.hang || r.signal) tell(cli.ended(r));
  else if (r.status === 0) tell("exit status 0");
  else if (!r.stderr.trim()) tell(`exit status ${r.status} but no message`);
  else if (c.bad.every((b) => b.way === "text")) {
    // the compiler's message for one of them, whatever is around it
    const said = new Set(Buffer.from(r.stderr, "latin1").toString("utf8").split("\n").map((l) => l.trim()));
    const told = (b) => b.message.split("\n").map((l) => l.trim()).every((l) => !l || said.has(l) || [...said].some((x) => x.includes(l)));
    ctx.count("messages_compared");
    if (!c.bad.some(told)) tell(`the message is not the compiler's (${c.bad[0].message.trim().slice(0, 200)}): ${r.stderr.slice(0, 300)}`);
  }
  ctx.sample({ bad: what, at: badPaths, valid_beside: valid.length, status: r.status, stderr: r.stderr.slice(0, 200) });
  // give the directories back to the cleanup
  for (const p of badPaths) try { if (before.get(p) && before.get(p).startsWith("directory")) sb.chmod(p, 0o755); } catch (e) { /* gone */ }
}
async function run(ctx) {
  const sb = new cli.Sandbox();
  const schemas = await trees.pool(ctx, ctx.n(40, 200)), bads = await badTexts(ctx, ctx.n(150, 800));
  ctx.compiler().stop();
  for (const n of [60, 130, 300, 60, 1200].slice(0, ctx.thorough ? 5 : 4)) for (let i = 0; i < ctx.n(2, 12); ++i) { examine(ctx, sb, wideCase(ctx, sb, schemas, bads, n)); ctx.count("large_trees"); }
  for (let i = 0; i < ctx.n(1200, 25000) && !ctx.late(); ++i) examine(ctx, sb, makeCase(ctx, sb, schemas, bads));
}
async function replay(ctx, c) { examine(ctx, new cli.Sandbox(), c); }
module.exports = {
  run, replay, prepare: cli.prepare, needs: ["harness", "cli"], level: "exploration",
  rule: "One evaluation is one run of the tool on a tree (or single file) with one to three bad schemas: texts that do not compile, files that are not UTF-8, unreadable files and directories, links to nothing; at random places among valid ones (up to 300, thorough 1200; up to 60 levels) and with all sorts of earlier output. Observed: exit status, standard error (has the compiler's message if texts are what is bad), and the complete file system before and after. Distinct non-trivial: distinct cases.",
};
