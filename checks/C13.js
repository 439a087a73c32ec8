"use strict";
// The tool run on directory trees and single files; the file system afterwards compared with what it should be.
const cli = require("../lib/clirun"), trees = require("../lib/trees");

const last = (p) => p.slice(p.lastIndexOf("/") + 1);

/** the case as plain data: what to make, how to run, what to expect */
function directoryCase(ctx, sb, schemas) {
  const rng = ctx.rng;
  const input = rng.pick(["in", "in", "in", "x/in", "a b", "in.pkt", "é", "deep/er/in", ".in"]);
  const output = rng.weighted([[5, "out"], [2, "out/sub"], [2, "new/deeper/out"], [2, input], [1, input + "/gen"], [1, "out.pkt"], [1, "x/out"], [1, "é out"]]);
  const t = trees.tree(rng, schemas, { max: rng.weighted([[8, 10], [1, 60]]) });
  const cwd = rng.weighted([[5, ""], [1, "cwd"], [1, "x/cwd"], [2, input], [t.dirs.length ? 1 : 0, t.dirs.length && /^[\w./-]+$/.test(t.dirs[0]) ? input + "/" + t.dirs[0] : ""]]);
  t.links = new Map();
  for (const [p, s] of t.files) if (s && rng.bool(0.05)) t.links.set(p, rng.pick(["plain", "other.pkt", "x.txt"]) + t.links.size);
  return { kind: "directory", lang: rng.weighted([[6, "ts"], [1, "TS"], [1, "Ts"]]), input, output, cwd, tree: t, linked: output !== input && rng.bool(0.1) ? rng.pick(schemas) : undefined };
}
function fileCase(ctx, sb, schemas) {
  const rng = ctx.rng;
  const dir = rng.pick(["", "in", "x/in", "a b", "d.pkt"]);
  const n = cliSafe(rng.weighted([[6, rng.pick(trees.STEMS) + ".pkt"], [1, rng.pick(trees.STEMS)], [1, rng.pick(trees.OTHERS)], [1, "schema.v2"], [1, "a.txt"]]));
  const output = rng.weighted([[5, "out"], [2, dir || "out"], [2, "new/deeper/out"], [1, "out.pkt"], [1, "x.y/out.z"]]);
  const cwd = rng.pick(["", "", "cwd", dir, output === "out" ? "" : dir]);
  return { kind: "file", lang: rng.weighted([[6, "ts"], [1, "TS"], [1, "tS"]]), dir, name: n, output, cwd, schema: rng.pick(schemas), others: rng.bool(0.5) ? [rng.pick(schemas), rng.pick(schemas)] : [] };
}
// the path of the file itself has to pass the command line
function cliSafe(n) { return n === "." || n === ".." ? n + ".pkt" : n; }

function examine(ctx, sb, c, fresh) {
  const rng = ctx.rng, made = [];
  const write = (p, content, latin1) => { sb.write(p, typeof content === "string" ? Buffer.from(content, latin1 ? "latin1" : "utf8") : content); };
  sb.reset();
  let want = new Map(), arg, base;
  if (c.cwd) sb.mkdir(cli.name(c.cwd));
  if (c.kind === "directory") {
    base = cli.name(c.input);
    sb.mkdir(base);
    for (const d of c.tree.dirs) sb.mkdir(base + "/" + d);
    for (const [p, s] of rng.shuffle([...c.tree.files])) {
      const to = c.tree.links && c.tree.links.get(p);
      if (to) { write("far/" + to, s.text); sb.symlink(base + "/" + p, sb.world + "/far/" + to); }
      else write(base + "/" + p, s ? s.text : rng.pick(trees.NOISE), !s);
      if (s) want.set(cli.name(c.output) + "/" + (p.includes("/") ? p.slice(0, p.lastIndexOf("/") + 1) : "") + cli.tsName(last(p)), s.code);
    }
    if (c.linked) {
      // a directory reached through a link, and one that leads nowhere and is not a schema
      write("far/tree/x.pkt", c.linked.text);
      write("far/tree/deeper/y.pkt", c.linked.text);
      sb.symlink(base + "/a-link", sb.world + "/far/tree");
      sb.symlink(base + "/b-link", "../".repeat(base.split("/").length) + "far/tree");
      sb.symlink(base + "/nowhere", "not-there");
      for (const l of ["a-link", "b-link"]) for (const n of ["x.ts", "deeper/y.ts"]) want.set(cli.name(c.output) + "/" + l + "/" + n, c.linked.code);
      // the same file under two names
      sb.link(base + "/hard.pkt", "far/tree/x.pkt");
      want.set(cli.name(c.output) + "/hard.ts", c.linked.code);
    }
    arg = c.arg || trees.spelling(rng, sb.world, c.input, c.cwd);
  } else {
    const p = (c.dir && c.dir + "/") + c.name;
    write(cli.name(p), c.schema.text);
    c.others.forEach((s, i) => write(cli.name((c.dir && c.dir + "/") + "other" + i + ".pkt"), s.text));
    want.set(cli.name(c.output) + "/" + cli.tsName(cli.name(c.name)), c.schema.code);
    const up = c.cwd ? c.cwd.split("/").map(() => "..").join("/") + "/" : "";
    arg = c.arg || rng.pick([up + p, "./" + up + p, sb.world + "/" + p, ...(c.cwd === c.dir ? ["./" + c.name] : [])]);
    if (arg.startsWith("-")) arg = "./" + arg;
  }
  // what may be there already: other files in the output directory, older and longer output
  if (!c.prior) {
    c.prior = [];
    if (rng.bool(0.5)) {
      for (const p of want.keys()) if (rng.bool(0.6)) c.prior.push([p, "// older\n" + "x".repeat(rng.pick([0, 100, 100000]))]);
      for (const n of ["keep.txt", "z.ts", "sub/keep.ts"]) if (rng.bool(0.5)) c.prior.push([cli.name(c.output) + "/" + n, "keep"]);
    }
  }
  for (const [p, v] of c.prior) {
    const parts = p.split("/");
    try { if (want.has(p) || !parts.some((_, k) => want.has(parts.slice(0, k + 1).join("/")))) write(p, v); } catch (e) { if (!["EISDIR", "ENOTDIR", "EEXIST"].includes(e.code)) throw e; }
  }
  // outputs that cannot be: a directory of the input has the name, or the output is one of the input files
  const before = sb.snapshot();
  for (const p of want.keys()) {
    const parts = p.split("/");
    const there = before.get(p);
    if (there && (!there.startsWith("file") )) return "impossible";
    if (parts.some((_, k) => k < parts.length - 1 && (want.has(parts.slice(0, k + 1).join("/")) || (before.get(parts.slice(0, k + 1).join("/")) || "directory").startsWith("file")))) return "impossible";
    if (c.kind === "file" && p === cli.name((c.dir && c.dir + "/") + c.name)) return "impossible";
    if (last(p).length > 250) return "impossible";
  }
  let outArg = c.outArg || trees.spelling(rng, sb.world, c.output, c.cwd);
  // spellings with ".." only work for directories that are there
  if (/\.\./.test(outArg.replace(/^(\.\/+)*(\.\.\/)+/, "")) && !before.has(cli.name(c.output))) outArg = sb.world + "/" + c.output;
  if (outArg.startsWith("-")) outArg = "./" + outArg;
  const kase = { ...c, tree: c.tree && { dirs: c.tree.dirs, files: [...c.tree.files].map(([p, s]) => [p, s && s.text]), links: [...(c.tree.links || [])] }, linked: c.linked && c.linked.text, schema: c.schema && c.schema.text, others: c.others && c.others.map((s) => s.text), arg: arg.startsWith(sb.world) ? undefined : arg, outArg: outArg.startsWith(sb.world) ? undefined : outArg };
  if (c.env) ctx.count("other_environments");
  const r = sb.run([c.lang || "ts", arg, outArg], { cwd: c.cwd, more: c.env });
  const after = sb.snapshot();
  const tell = (what) => ctx.violation(`packetc ts '${arg}' '${outArg}' in '${c.cwd}': ${what}`, kase);
  ctx.eval();
  ctx.count(c.kind === "directory" ? "directory_runs" : "file_runs");
  ctx.count("outputs_compared", want.size);
  ctx.count("calls_watched", r.calls.length);
  if (want.size) ctx.saw(JSON.stringify([c.kind, arg.replace(sb.world, "W"), outArg.replace(sb.world, "W"), c.cwd, [...want.keys()], [...before.keys()]]));
  if (r.refused.length) tell(`it tries to change '${r.refused[0][1]}' (${r.refused[0][0]}), which is nowhere near its output`);
  if (r.status !== 0) return tell(`${cli.ended(r)}: ${r.stderr.slice(0, 300)}`);
  for (const [p, code] of want) {
    const got = after.get(p);
    if (got === undefined) tell(`'${p}' is not there (${cli.differences(before, after).map((d) => d.join(" ")).slice(0, 4).join(", ") || "nothing was written"})`);
    else if (!got.startsWith("file")) tell(`'${p}' is a ${got.split(" ")[0]}`);
    else if (!cli.sameCode(code, Buffer.from(got.slice(got.indexOf("\n") + 1), "latin1").toString("utf8"))) tell(`'${p}' does not have what compiling its schema gives`);
  }
  const parents = new Set();
  for (const p of [...want.keys(), cli.name(c.output) + "/x"]) { const parts = p.split("/"); for (let k = 1; k < parts.length; ++k) parents.add(parts.slice(0, k).join("/")); }
  for (const [what, p] of cli.differences(before, after)) {
    if (want.has(p) && what !== "removed") continue;
    if (what === "created" && parents.has(p) && after.get(p).startsWith("directory")) continue;
    tell(`'${p}' was ${what}`);
  }
  ctx.sample({ run: `packetc ts '${arg.replace(sb.world, "<scratch>")}' '${outArg.replace(sb.world, "<scratch>")}'`, cwd: c.cwd, outputs: [...want.keys()].slice(0, 5), calls: r.calls.length });
}
async function run(ctx) {
  const sb = new cli.Sandbox();
  const schemas = await trees.pool(ctx, ctx.n(60, 300));
  ctx.compiler().stop();
  for (let i = 0; i < ctx.n(1200, 25000) && !ctx.late(); ++i) {
    const c = ctx.rng.bool(0.65) ? directoryCase(ctx, sb, schemas) : fileCase(ctx, sb, schemas);
    if (ctx.rng.bool(0.3)) c.env = cli.environment(ctx.rng);
    if (examine(ctx, sb, c) === "impossible") ctx.count("cases_dropped");
  }
  // wide and deep
  if (ctx.mine(1)) {
    const files = new Map();
    for (let i = 0; i < 1500; ++i) files.set((i % 3 ? "d" + (i % 7) + "/" : "") + "f" + i + ".pkt", ctx.rng.pick(schemas));
    examine(ctx, sb, { kind: "directory", input: "in", output: "out", cwd: "", tree: { dirs: [], files } });
  }
  if (ctx.mine(2)) {
    const files = new Map();
    for (let i = 0; i < 60; ++i) files.set(Array.from({ length: i }, (_, k) => "d" + k).join("/") + (i ? "/" : "") + "f.pkt", ctx.rng.pick(schemas));
    examine(ctx, sb, { kind: "directory", input: "in", output: "out", cwd: "", tree: { dirs: [], files } });
  }
  // the listed name that is mapped to no file at all
  for (const f of ctx.findings) if (ctx.mine(3)) {
    sb.reset();
    sb.write("in/" + f.name, schemas[0].text);
    const r = sb.run(["ts", "in", "out"]), got = sb.snapshot().get("out/" + cli.tsName(f.name));
    if (r.status !== 0 || !got || !cli.sameCode(schemas[0].code, got.slice(got.indexOf("\n") + 1))) ctx.hit(f.what);
  }
  ctx.count("max_unprivileged", sb.unprivileged ? 1 : 0);
}
async function replay(ctx, k) {
  const sb = new cli.Sandbox();
  const code = async (t) => (t === null ? null : { text: t, code: (await ctx.compiler().compile(t)).text });
  const c = { ...k };
  if (k.linked) c.linked = await code(k.linked);
  if (k.tree) { c.tree = { dirs: k.tree.dirs, files: new Map(), links: new Map(k.tree.links) }; for (const [p, t] of k.tree.files) c.tree.files.set(p, await code(t)); }
  if (k.schema) { c.schema = await code(k.schema); c.others = await Promise.all(k.others.map(code)); }
  examine(ctx, sb, c);
}
module.exports = {
  run, replay, prepare: cli.prepare, needs: ["harness", "cli"], level: "exploration",
  rule: "One evaluation is one run of the tool on a directory tree or a file in a scratch directory, with the complete file system there compared before and after: every owed file with the owed content, nothing else created, changed or removed (and, from the recorded system calls, no attempt to change anything elsewhere). Distinct non-trivial: distinct combinations of invocation, tree and prior state that owe at least one output.",
  assumptions: ["names of schema files and directories are UTF-8 (others are refused by the tool)", "no schema file is called '..pkt' (known finding)", "symbolic links are followed"],
};
