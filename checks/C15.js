"use strict";
// Fault injection: every file system call of a run is made to fail, is interrupted or cut short in turn; a run that then
// claims success must have done all of its work.
const cli = require("../lib/clirun"), trees = require("../lib/trees"), os = require("os");

const E = os.constants.errno;
const ERRNOS = {
  stat: ["EACCES", "EIO", "ENOMEM", "ELOOP", "EINTR"], fstat: ["EIO", "ENOMEM"],
  open: ["EACCES", "EMFILE", "EIO", "ENOENT", "EINTR"], opendir: ["EACCES", "EMFILE", "EIO", "ENOENT", "ENOTDIR"],
  readdir: ["EIO", "EBADF", "EOVERFLOW"], read: ["EIO", "EISDIR", "EAGAIN", "EINTR", "ESTALE"],
  mkdir: ["EACCES", "ENOSPC", "EROFS", "EEXIST", "ENOENT", "EIO", "EDQUOT"], create: ["EACCES", "EROFS", "ENOSPC", "EMFILE", "EISDIR", "EIO", "EINTR", "EDQUOT"],
  write: ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR", "EAGAIN", "EPIPE"], print: ["EIO", "ENOSPC", "EPIPE", "EINTR", "EAGAIN"],
  rename: ["EACCES", "ENOSPC", "EXDEV", "EIO"], unlink: ["EACCES", "EIO"], truncate: ["EIO", "EACCES"], sync: ["EIO", "ENOSPC"], chmod: ["EPERM"], link: ["EPERM", "ENOSPC"],
};
const TRANSFERS = ["read", "write", "print"];

/** all disturbances of a call of this kind */
function faults(kind) {
  const out = [];
  for (const e of ERRNOS[kind] || ["EIO"]) {
    out.push({ mode: "err", errno: E[e], name: e });
    if (e !== "EINTR") out.push({ mode: "sticky", errno: E[e], name: e + " from then on" });
  }
  if (["open", "create", ...TRANSFERS].includes(kind)) out.push({ mode: "storm", errno: 25, name: "EINTR 25 times" });
  if (TRANSFERS.includes(kind)) {
    out.push({ mode: "short", errno: 0, name: "one byte only" });
    for (const e of kind === "read" ? ["EIO"] : ["ENOSPC", "EIO"]) out.push({ mode: "half", errno: E[e], name: "half, then " + e });
  }
  if (kind === "write") out.push({ mode: "zero", errno: 0, name: "nothing written" });
  return out;
}
// schemas with a beginning that is a schema too, but one that means something else; and where the beginning ends
const DOUBLE = [
  ["A: struct { a: uint8 }\nAB: struct { b: string }\nexport A", "B"],
  ["B: struct { p: uint16 }\nBox: struct { p: B[] n: uint8 }\n\nexport B", "ox # and nothing else\n"],
  ["P: struct { a?: string }\nP2: struct { p: P[] q: P }\n# which one\nexport P", "2\n\n# the end\n"],
];
const cutOf = (t) => DOUBLE.filter((d) => d.join("") === t).map((d) => d[0].length);
/** all disturbances of a call */
function faultsOf(c, [kind, p]) {
  const out = faults(kind), f = kind === "read" && c.files.find((x) => "in/" + x[0] === p && x[1] !== null);
  if (f) for (const n of new Set([...cutOf(f[1]), Math.ceil(f[1].length / 2), f[1].length - 1])) if (n > 1) out.push({ mode: "short", errno: n, name: `${n} bytes only` });
  return out;
}
/** c: {files: [[path, text]], dirs, single, output, prior} */
function setUp(sb, c) {
  sb.reset();
  sb.mkdir("in");
  for (const d of c.dirs) sb.mkdir("in/" + d);
  for (const [p, t] of c.files) sb.write("in/" + p, t === null ? "noise" : t);
  for (const p of c.prior) sb.write(p, "// an earlier run\n" + "x".repeat(300));
}
const owed = (c, p) => c.output + "/" + (c.single || !p.includes("/") ? "" : p.slice(0, p.lastIndexOf("/") + 1)) + cli.tsName(p.slice(p.lastIndexOf("/") + 1));
function verdict(sb, c, codes, r) {
  if (r.hang || r.signal) return cli.ended(r);
  if (r.status !== 0) return r.stderr.trim() ? null : `exit status ${r.status} without a message on standard error`;
  for (const [p, t] of c.files) {
    if (t === null || (c.single && p !== c.single)) continue;
    let got;
    try { got = sb.read(owed(c, p)).toString("utf8"); } catch (e) { return `exit status 0, but ${owed(c, p)} is not there`; }
    if (!cli.sameCode(codes.get(t), got)) return `exit status 0, but ${owed(c, p)} does not have the generated code (${got.length} characters of ${codes.get(t).length})`;
  }
  return null;
}
function once(ctx, sb, c, codes, fault) {
  setUp(sb, c);
  const r = sb.run(["ts", c.single ? "in/" + c.single : "in", c.output], { fault });
  if (fault) {
    if (!r.disturbed) { ctx.count("faults_not_reached"); return r; }
    ctx.eval();
    ctx.count("fault_" + r.disturbed[0]);
    if (/bytes only$/.test(fault.name)) ctx.count("reads_cut_at_a_chosen_place");
    if (r.status === 0) ctx.count("completed_despite_the_fault"); else ctx.count("failed_with_message");
    ctx.saw([r.disturbed[0], r.disturbed[1].replace(/.*\//, ""), fault.name, c.single ? "file" : "directory", r.status].join(" "));
    const bad = verdict(sb, c, codes, r);
    if (bad) ctx.violation(`call ${fault.at} (${r.disturbed.join(" ")}) disturbed (${fault.name}): ${bad}`, { ...c, fault });
  }
  return r;
}
async function makeCodes(ctx, texts) {
  const codes = new Map();
  for (const t of texts) if (t !== null && !codes.has(t)) codes.set(t, (await ctx.compiler().compile(t)).text);
  return codes;
}
function makeCase(rng, schemas, i) {
  const small = schemas.filter((s) => s.text.length < 400), some = schemas.filter((s) => s.code.length < 60000), pick = () => (rng.bool(0.3) ? rng.pick(DOUBLE).join("") : rng.pick(rng.bool(0.2) ? some : small).text);
  // the largest one takes long
  if (i === "large") return { single: "a.pkt", files: [["a.pkt", schemas.slice().sort((a, b) => b.code.length - a.code.length)[0].text]], dirs: [], output: "out", prior: [] };
  if (i % 3 === 2) { const n = rng.pick(["a.pkt", "b.c.pkt", "schema"]); return { single: n, files: [[n, pick()], ["other.pkt", pick()]], dirs: [], output: rng.pick(["out", "new/deep/out"]), prior: rng.bool() ? [] : ["out/" + cli.tsName(n)] }; }
  const files = [["a.pkt", pick()], ["sub/b.pkt", pick()], ["note.txt", null]], dirs = ["sub"];
  for (let k = rng.int(0, 4); k > 0; --k) files.push([rng.pick(["", "sub/", "d.x/", "deep/er/"]) + "f" + k + ".pkt", pick()]);
  if (rng.bool(0.3)) dirs.push("empty");
  const c = { single: null, files, dirs, output: rng.pick(["out", "new/out", "in"]), prior: [] };
  if (rng.bool()) for (const [p, t] of files) if (t !== null && rng.bool(0.7)) c.prior.push(owed(c, p));
  return c;
}
// real obstacles, without any injection
function obstacles(ctx, sb, schemas) {
  const t = schemas[0].text, codes = new Map([[t, schemas[0].code]]);
  const cases = [
    ["the output directory is a file", (s) => s.write("out", "x")],
    ["an output file is a directory", (s) => s.mkdir("out/a.ts")],
    ["an output file is a full directory", (s) => s.write("out/a.ts/x", "x")],
    ["a directory of the output is a file", (s) => s.write("out/sub", "x")],
    ["the output directory is a link to nothing", (s) => s.symlink("out", "nowhere/at/all")],
    ["the output directory is a link to a file", (s) => { s.write("f", "x"); s.symlink("out", "f"); }],
    ["an output file is a link to nothing", (s) => { s.mkdir("out"); s.symlink("out/a.ts", "nowhere/at/all"); }],
    ["an output file is a full device", (s) => { s.mkdir("out"); s.symlink("out/a.ts", "/dev/full"); }],
  ];
  if (sb.unprivileged) cases.push(
    ["the output directory cannot be written", (s) => { s.mkdir("out"); s.chmod("out", 0o555); }],
    ["an output file cannot be written", (s) => { s.write("out/a.ts", "old"); s.chmod("out/a.ts", 0o444); }],
    ["the place of the output directory cannot be written", (s) => { s.mkdir("ro"); s.chmod("ro", 0o555); }, "ro/out"],
    ["a schema cannot be read", (s) => s.chmod("in/a.pkt", 0)], ["a directory cannot be listed", (s) => s.chmod("in/sub", 0o311)], ["a directory cannot be entered", (s) => s.chmod("in/sub", 0o444)], ["the input cannot be listed", (s) => s.chmod("in", 0)]);
  for (const [what, f, output = "out"] of cases) for (const single of [null, "a.pkt"]) {
    if (single && /sub|directory of|listed|entered/.test(what)) continue;
    const c = { single, files: [["a.pkt", t], ["sub/b.pkt", t]], dirs: [], output, prior: [], obstacle: what };
    setUp(sb, c);
    f(sb);
    const r = sb.run(["ts", single ? "in/a.pkt" : "in", output], { watch: what !== "an output file is a full device" });
    for (const p of ["in/a.pkt", "in", "in/sub"]) sb.chmod(p, 0o755);
    ctx.eval();
    ctx.count("real_obstacles");
    ctx.saw("obstacle " + what + single + r.status);
    const bad = verdict(sb, c, codes, r);
    if (bad) ctx.violation(`${what}: ${bad}`, { obstacle: what });
    ctx.sample({ obstacle: what, status: r.status, stderr: r.stderr.slice(0, 120) }, 2);
  }
}
const INVOCATIONS = [
  [], ["ts"], ["ts", "in"], ["rust", "in", "out"], ["typescript", "in", "out"], ["", "in", "out"], ["t", "in", "out"], ["tss", "in", "out"], ["in", "ts", "out"], ["js", "in/a.pkt", "out"], ["ts ", "in", "out"], ["rs", "in", "out"],
  ["tsx", "in", "out"], ["TSX", "in", "out"], ["ts2", "in/a.pkt", "out"], ["ts.", "in", "out"], ["ts/", "in", "out"], ["xts", "in", "out"], [".ts", "in", "out"], ["ts,rust", "in", "out"], [" ts", "in", "out"], ["t\u017f", "in", "out"], ["TypeScript", "in", "out"], ["TS\n", "in", "out"], ["st", "in", "out"], ["s", "in", "out"], ["*", "in", "out"], ["all", "in", "out"],
  ["ts", "missing", "out"], ["ts", "in/missing.pkt", "out"], ["ts", "", "out"], ["ts", "in/a.pkt/x", "out"], ["ts", "in/a.pkt/", "out"], ["ts", "in\n", "out"], ["ts", "nowhere", "out"], ["ts", "missing/dir/", "out"], ["ts", "in/a", "out"],
  ["ts", "in", "out", "more"], ["ts", "in", "out", "--what"], ["--what", "ts", "in", "out"], ["-x", "ts", "in", "out"], ["ts", "in", "out", "-v1"],
];
function invocations(ctx, sb, schemas) {
  for (const args of INVOCATIONS) {
    setUp(sb, { files: [["a.pkt", schemas[0].text]], dirs: [], prior: [] });
    sb.symlink("nowhere", "missing/target");
    const before = sb.snapshot(), r = sb.run(args);
    ctx.eval();
    ctx.count("invalid_invocations");
    ctx.saw("args " + args.join(" "));
    const bad = r.hang || r.signal ? cli.ended(r) : r.status === 0 ? "exit status 0" : !r.stderr.trim() ? "no message on standard error" : cli.differences(before, sb.snapshot()).length ? "something was written" : null;
    if (bad) ctx.violation(`packetc ${args.map((a) => JSON.stringify(a)).join(" ")}: ${bad}`, { args });
    ctx.sample({ args, status: r.status, stderr: r.stderr.slice(0, 120) }, 1);
  }
}
async function run(ctx) {
  const sb = new cli.Sandbox(), rng = ctx.rng;
  const schemas = await trees.pool(ctx, ctx.n(10, 40));
  if (ctx.mine(0)) obstacles(ctx, sb, schemas);
  if (ctx.mine(1)) invocations(ctx, sb, schemas);
  for (let i = 0; i < ctx.n(6, 60) && !ctx.late(); ++i) {
    const c = makeCase(rng, schemas, ctx.mine(2) && i === 0 ? "large" : i + ctx.shard), codes = await makeCodes(ctx, c.files.map(([, t]) => t));
    const plain = once(ctx, sb, c, codes, null), bad = verdict(sb, c, codes, plain);
    ctx.count("undisturbed_runs");
    if (bad || plain.status !== 0) { ctx.violation(`without any fault: ${bad || cli.ended(plain) + " " + plain.stderr.slice(0, 200)}`, c); continue; }
    ctx.count("max_calls_in_a_run", 0);
    ctx.counters.max_calls_in_a_run = Math.max(ctx.counters.max_calls_in_a_run, plain.calls.length);
    for (const at of cli.positions(plain.calls)) if (!ctx.late()) for (const f of faultsOf(c, plain.calls[at])) once(ctx, sb, c, codes, { ...f, at });
    ctx.sample({ input: c.single || c.files.map(([p]) => p), calls: plain.calls.slice(0, 12).map((x) => x.join(" ")), calls_total: plain.calls.length }, 3);
  }
}
async function replay(ctx, c) {
  const sb = new cli.Sandbox();
  if (c.args || c.obstacle) { const s = await trees.pool(ctx, 0); obstacles(ctx, sb, s); invocations(ctx, sb, s); return; }
  const codes = await makeCodes(ctx, c.files.map(([, t]) => t));
  const r = once(ctx, sb, c, codes, c.fault), bad = c.fault ? null : verdict(sb, c, codes, r);
  if (bad || (!c.fault && r.status !== 0)) ctx.violation(bad || cli.ended(r), c);
}
module.exports = {
  run, replay, prepare: cli.prepare, needs: ["harness", "cli"], level: "fault_enumeration",
  rule: "One evaluation is one run of the tool in which one file system call (every call of an undisturbed run in turn, except in the middle of more than 20 like ones in a row: stat, open, read, opendir, readdir, mkdir, create, write, standard output) fails with one of the usual errors, once or from then on, or is interrupted, cut short or transfers nothing; or a run against a real obstacle, or an invalid invocation. A run that exits 0 must have left every owed file complete, any other must have put a message on standard error. Distinct non-trivial: distinct (call, file, fault, outcome).",
  assumptions: ["errors reported by close() are not looked at (std does not report them)", "one fault position per run", "symbolic links to directories are not in these trees"],
};
