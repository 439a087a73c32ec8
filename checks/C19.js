"use strict";
// Runs of the tool after one another, with all sorts of changes in between, and at the same time, with the file system calls
// of the processes put in a chosen order.
const fs = require("fs"), cli = require("../lib/clirun"), trees = require("../lib/trees"), { twin } = require("../lib/mutate");

const last = (p) => p.slice(p.lastIndexOf("/") + 1), dir = (p) => (p.includes("/") ? p.slice(0, p.lastIndexOf("/") + 1) : "");
const BAD = ["A: struct { a: uint8 }", "A: struct {", "A: struct { a: B }\nexport A", "", "E: enum {}\nA: struct { e: E }\nexport A"];

/** groups of schemas of equal length and similar text: [[{text, code}]] */
async function groups(ctx, n) {
  const out = [];
  for (const s of await trees.pool(ctx, n)) {
    const g = [s];
    if (s.text.length < 2000) for (let k = 0; k < 6 && g.length < 3; ++k) {
      const text = twin(ctx.rng, s.text), r = await ctx.compiler().compile(text);
      if (r.kind === "code" && !g.some((x) => x.text === text)) g.push({ text, code: r.text });
    }
    out.push(g);
  }
  return out;
}
/** what a file of the run owes: [path of the output, text] */
const owed = (files, input, output) => (input.endsWith(".pkt") ? [[output + "/" + cli.tsName(last(input)), files.get(input)]]
  : [...files].filter(([p]) => p.startsWith(input + "/") && cli.isSchema(last(p))).map(([p, t]) => [output + "/" + dir(p.slice(input.length + 1)) + cli.tsName(last(p)), t]));
/** null, or what is wrong with the state after runs that owed these: want: Map of path -> [acceptable code] */
function compare(before, after, want) {
  for (const [p, codes] of want) {
    const got = after.get(p);
    if (got === undefined || !got.startsWith("file")) return `'${p}' is not there`;
    if (!codes.some((c) => cli.sameCode(c, Buffer.from(got.slice(got.indexOf("\n") + 1), "latin1").toString("utf8")))) return `'${p}' does not have what compiling its schema gives`;
  }
  for (const [what, p] of cli.differences(before, after)) {
    if (want.has(p) && what !== "removed") continue;
    if (what === "created" && after.get(p).startsWith("directory") && [...want.keys()].some((w) => w.startsWith(p + "/"))) continue;
    return `'${p}' was ${what}`;
  }
  return null;
}

// --- one after another ---------------------------------------------------------------------------------------------------
const NAMES = ["a", "b", "c", "sub/a", "sub/b", "sub/deep/a", "x.y", "other/a"];
const TIMES = [0, 1, 86400, 946684800, 1700000000, 2000000000, 4000000000];
/** changes made between runs; plain data, so that a history can be run again */
function change(rng, all, files, outputs) {
  const there = [...files.keys()], free = NAMES.map((n) => "in/" + n + ".pkt").filter((p) => !files.has(p)), any = () => rng.pick(rng.pick(all));
  const similar = (p) => { const g = all.find((x) => x.some((s) => s.text === files.get(p))); return g && g.length > 1 ? rng.pick(g.filter((s) => s.text !== files.get(p))) : any(); };
  const p = there.length ? rng.pick(there) : null, o = outputs.length ? rng.pick(outputs) : null;
  return rng.weighted([
    [p ? 6 : 0, p && { op: "write", path: p, text: similar(p).text, keep: rng.bool() }], [p ? 2 : 0, p && { op: "write", path: p, text: any().text }],
    [free.length ? 3 : 0, free.length && { op: "write", path: rng.pick(free), text: any().text }], [p && there.length > 1 ? 2 : 0, p && { op: "remove", path: p }],
    [p && free.length ? 2 : 0, p && free.length && { op: "rename", path: p, to: rng.pick(free) }], [p ? 2 : 0, p && { op: "write", path: p, text: rng.pick(BAD) }],
    [p && there.length > 1 ? 2 : 0, p && { op: "exchange", path: p, with: rng.pick(there) }],
    [p ? 3 : 0, p && { op: "time", path: p, time: rng.pick(TIMES) }], [o ? 3 : 0, o && { op: "time", path: o, time: rng.pick(TIMES) }],
    [o ? 3 : 0, o && { op: "tamper", path: o, how: rng.pick(["empty", "cut", "end", "body", "other", "header"]) }], [o ? 1 : 0, o && { op: "remove", path: o }],
  ]);
}
function apply(sb, files, c) {
  const stat = (p) => fs.statSync(sb.at(p)), there = (p) => fs.existsSync(sb.at(p));
  if (!there(c.path) && c.op !== "write") return;
  if (c.op === "write") {
    const old = there(c.path) ? stat(c.path) : null;
    sb.write(c.path, c.text);
    files.set(c.path, c.text);
    // some editors and tools keep the time
    if (c.keep && old) fs.utimesSync(sb.at(c.path), old.atime, old.mtime);
  } else if (c.op === "remove") { fs.unlinkSync(sb.at(c.path)); files.delete(c.path); }
  else if (c.op === "rename") { sb.mkdir(dir(c.to)); fs.renameSync(sb.at(c.path), sb.at(c.to)); files.set(c.to, files.get(c.path)); files.delete(c.path); }
  else if (c.op === "exchange" && c.with !== c.path) {
    const x = files.get(c.path), y = files.get(c.with);
    fs.renameSync(sb.at(c.path), sb.at("aside")); fs.renameSync(sb.at(c.with), sb.at(c.path)); fs.renameSync(sb.at("aside"), sb.at(c.with));
    files.set(c.path, y); files.set(c.with, x);
  } else if (c.op === "time") fs.utimesSync(sb.at(c.path), c.time, c.time);
  else if (c.op === "tamper") {
    const t = sb.read(c.path).toString("utf8");
    sb.write(c.path, { empty: "", cut: t.slice(0, t.length >> 1), end: t + "\n// more\n", body: t.slice(0, -3) + "!" + t.slice(-2), other: "x".repeat(t.length), header: t.replace(/^.*/, "// mine") }[c.how]);
  }
}
/** h: {start: [[path, text]], rounds: [{changes, input, output}]} */
function history(ctx, sb, h, codes) {
  sb.reset();
  const files = new Map();
  sb.mkdir("in");
  for (const [p, t] of h.start) apply(sb, files, { op: "write", path: p, text: t });
  for (let k = 0; k < h.rounds.length; ++k) {
    const r = typeof h.rounds[k] === "function" ? (h.rounds[k] = h.rounds[k](files, sb)) : h.rounds[k];
    for (const c of r.changes) { apply(sb, files, c); ctx.count("change_" + c.op); }
    if (r.input !== "in" && !files.has(r.input)) continue;
    const own = owed(files, r.input, r.output), bad = own.some(([, t]) => !codes.has(t));
    const before = sb.snapshot(), done = sb.run(["ts", r.input, r.output]), after = sb.snapshot();
    ctx.eval();
    ctx.count(bad ? "runs_that_must_fail" : "runs_that_must_succeed");
    if (k && !r.changes.length) ctx.count("runs_again_without_a_change");
    ctx.saw(JSON.stringify([[...files], r.changes, r.input, r.output, k]));
    const tell = (m) => ctx.violation(`run ${k + 1} (packetc ts ${r.input} ${r.output}) after ${r.changes.map((c) => c.op + " " + c.path).join(", ") || "no change"}: ${m}`, { ...h, rounds: h.rounds.slice(0, k + 1) });
    if (bad ? done.status === 0 : done.status !== 0) { tell(`${cli.ended(done)}: ${done.stderr.slice(0, 300)}`); return; }
    const wrong = compare(before, after, new Map(bad ? [] : own.map(([p, t]) => [p, [codes.get(t)]])));
    if (wrong) { tell(wrong); return; }
  }
  ctx.sample({ runs: h.rounds.map((r) => r.changes.map((c) => c.op + " " + c.path).concat(`packetc ts ${r.input} ${r.output}`)) }, 1);
}
function histories(ctx, sb, all, codes, n) {
  const rng = ctx.rng;
  for (let i = 0; i < n && !ctx.late(); ++i) {
    const start = rng.shuffle(NAMES).slice(0, rng.int(1, 4)).map((p) => ["in/" + p + ".pkt", rng.pick(rng.pick(all)).text]);
    const output = rng.pick(["out", "in", "new/out"]);
    const rounds = Array.from({ length: rng.int(2, 6) }, (_, k) => (files, s) => {
      const changes = [], now = new Map(files), outputs = () => [...new Set(owed(now, "in", output).map(([p]) => p))].filter((p) => fs.existsSync(s.at(p)));
      for (let c = k ? rng.weighted([[1, 0], [4, 1], [2, 2], [1, 4]]) : 0; c > 0; --c) {
        // on a copy, since the changes are made later
        const x = change(rng, all, now, outputs());
        if (!x || changes.some((y) => [y.path, y.to, y.with].some((q) => q && [x.path, x.to, x.with].includes(q)))) continue;
        changes.push(x);
        if (x.op === "write") now.set(x.path, x.text); else if (x.op === "remove") now.delete(x.path); else if (x.op === "rename") { now.set(x.to, now.get(x.path)); now.delete(x.path); } else if (x.op === "exchange") { const a = now.get(x.path); now.set(x.path, now.get(x.with)); now.set(x.with, a); }
      }
      // bad schemas are put right again after a while
      for (const [p, t] of now) if (!codes.has(t) && !changes.some((c) => [c.path, c.to, c.with].includes(p)) && rng.bool(0.6)) changes.push({ op: "write", path: p, text: rng.pick(rng.pick(all)).text });
      return { changes, input: rng.bool(0.8) || !now.size ? "in" : rng.pick([...now.keys()]), output };
    });
    history(ctx, sb, { start, rounds }, codes);
  }
}

// --- killed --------------------------------------------------------------------------------------------------------------
/** c: {files, prior, first, then: {input, output}, change}: the first run is killed before its call number k, then comes another one */
async function killed(ctx, sb, c, k, codes) {
  sb.reset();
  const files = new Map();
  for (const [p, t] of c.files) { sb.write(p, t); files.set(p, t); }
  for (const [p, t] of c.prior) sb.write(p, t);
  const before = sb.snapshot(), p = sb.start(["ts", c.first.input, c.first.output]), mine = new Set(owed(files, c.first.input, c.first.output).map(([o]) => o));
  for (let i = 0; i < k && (await p.ready(30000)) && !p.ended; ++i) p.go();
  const where = (await p.ready(30000)) && !p.ended ? p.calls[p.calls.length - 1] : null;
  p.stop();
  await p.end;
  ctx.eval();
  ctx.count("runs_killed");
  const kase = { ...c, kill: k };
  const tell = (m) => ctx.violation(`packetc ts ${c.first.input} ${c.first.output}, killed before ${where ? where.join(" ") : "nothing"}, then packetc ts ${c.then.input} ${c.then.output}: ${m}`, kase);
  // files of its own that it had no time to remove are its business, and that of later runs
  const left = new Set();
  for (const [what, q] of cli.differences(before, sb.snapshot())) {
    if (mine.has(q)) continue;
    if (what !== "created") return tell(`'${q}' was ${what} by the killed run`);
    if (!sb.snapshot().get(q).startsWith("directory")) { left.add(q); ctx.count("files_left_behind"); }
  }
  if (c.change) apply(sb, files, c.change);
  const own = owed(files, c.then.input, c.then.output), middle = sb.snapshot(), done = sb.run(["ts", c.then.input, c.then.output]), after = sb.snapshot();
  for (const q of left) { middle.delete(q); after.delete(q); }
  ctx.eval();
  ctx.saw(JSON.stringify([c, k]));
  if (done.status !== 0) return tell(`${cli.ended(done)}: ${done.stderr.slice(0, 300)}`);
  const wrong = compare(middle, after, new Map(own.map(([q, t]) => [q, [codes.get(t)]])));
  if (wrong) tell(wrong);
  ctx.sample({ killed_before: where && where.join(" "), runs: [c.first, c.then] }, 2);
  return p.calls;
}
async function kills(ctx, sb, all, codes, n) {
  const rng = ctx.rng;
  for (let i = 0; i < n && !ctx.late(); ++i) {
    const files = rng.shuffle(NAMES).slice(0, rng.int(1, 3)).map((p) => ["in/" + p + ".pkt", rng.pick(rng.pick(all)).text]), output = rng.pick(["out", "in", "new/deep/out"]);
    const first = { input: rng.bool(0.8) ? "in" : files[0][0], output }, then = rng.bool(0.8) ? first : { input: "in", output };
    const c = { files, first, then, prior: rng.bool() ? owed(new Map(files), "in", output).map(([p]) => [p, "// an earlier run\n" + "x".repeat(rng.pick([0, 500, 60000]))]) : [] };
    if (rng.bool(0.3)) c.change = { op: "write", path: files[0][0], text: rng.pick(rng.pick(all)).text, keep: rng.bool() };
    const calls = await killed(ctx, sb, c, 1e9, codes);
    if (calls) for (const k of cli.positions(calls)) if (!ctx.late()) await killed(ctx, sb, c, k, codes);
  }
}

// --- at the same time ----------------------------------------------------------------------------------------------------
/**
 * c: {files: [[path, text]], runs: [{input, output}], replace: {path, text, how}, prior}; schedule: indices of runs (and "replace")
 * in the order in which they may make a call; whoever is left when it ends goes on in turn
 */
async function together(ctx, sb, c, schedule, codes) {
  sb.reset();
  const files = new Map();
  for (const [p, t] of c.files) { sb.write(p, t); files.set(p, t); }
  for (const [p, t] of c.prior || []) sb.write(p, t);
  const before = sb.snapshot(), ps = c.runs.map((r) => sb.start(["ts", r.input, r.output]));
  const made = [], stuck = () => ps.every((p) => p.ended || !p.waiting);
  let switches = 0, before_ = -1, at = 0, replaced = false, hang = false;
  const step = async (i) => {
    const p = ps[i];
    if (!(await p.ready(1000)) || p.ended) return false; // it may wait for another one
    made.push(i);
    if (before_ !== -1 && before_ !== i) ++switches;
    before_ = i;
    p.go();
    await p.ready(1000);
    return true;
  };
  const replace = () => {
    if (!c.replace || replaced) return;
    replaced = true;
    made.push("replace");
    if (c.replace.how === "remove") fs.unlinkSync(sb.at(c.replace.path));
    else { sb.write("aside", c.replace.text); fs.renameSync(sb.at("aside"), sb.at(c.replace.path)); }
  };
  while (!ps.every((p) => p.ended)) {
    const i = at < schedule.length ? schedule[at++] : undefined;
    if (i === "replace") { replace(); continue; }
    if (i !== undefined) { if (!ps[i].ended) await step(i); continue; }
    let some = false;
    for (let k = 0; k < ps.length; ++k) if (!ps[k].ended && (await step(k))) some = true;
    if (!some && !ps.every((p) => p.ended)) {
      await Promise.race(ps.filter((p) => !p.ended).map((p) => p.ready(30000)));
      if (stuck() && !ps.every((p) => p.ended)) { hang = true; break; }
    }
  }
  const untouched = !replaced;
  if (c.replace && untouched) replace();
  for (const p of ps) p.stop();
  ctx.eval();
  ctx.count("calls_ordered", made.length);
  ctx.count(c.replace ? "runs_with_a_schema_replaced" : "runs_at_the_same_time", c.runs.length);
  ctx.count("switches", switches);
  ctx.saw(JSON.stringify([c, made]));
  const tell = (m) => ctx.violation(`${c.runs.map((r) => `packetc ts ${r.input} ${r.output}`).join(" and ")}${c.replace ? `, ${c.replace.path} ${c.replace.how}d` : ""} (${switches} switches): ${m}`, { ...c, schedule: made });
  if (hang) return tell("no end");
  const want = new Map();
  let failed = 0;
  for (let k = 0; k < ps.length; ++k) {
    const r = c.runs[k], own = owed(files, r.input, r.output), e = ps[k].ended;
    // a replaced schema may be seen in either version
    const versions = (p, t) => (c.replace && p === r.output + "/" + dir(c.replace.path.slice(r.input.length + 1)) + cli.tsName(last(c.replace.path)) ? [t, c.replace.how === "remove" ? null : c.replace.text] : [t]);
    const may = own.every(([p, t]) => versions(p, t).some((v) => codes.has(v))), must = own.every(([p, t]) => versions(p, t).every((v) => codes.has(v)));
    if (e.signal) return tell(`run ${k + 1} is ended by ${e.signal}`);
    if (e.status === 0 && !may) return tell(`run ${k + 1} has exit status 0, with a schema that does not compile`);
    if (e.status !== 0 && must) return tell(`run ${k + 1} has exit status ${e.status}: ${e.stderr.slice(0, 200)}`);
    if (e.status !== 0) { ++failed; continue; }
    for (const [p, t] of own) want.set(p, versions(p, t).filter((v) => codes.has(v)).map((v) => codes.get(v)));
  }
  // a removed schema may be missed by a listing
  if (c.replace && c.replace.how === "remove") for (const [p] of want) if (p.endsWith("/" + cli.tsName(last(c.replace.path))) && !sb.snapshot().has(p)) want.delete(p);
  ctx.count("runs_that_failed_as_they_must", failed);
  const base = new Map(before);
  if (c.replace) { const now = sb.snapshot().get(c.replace.path); if (now === undefined) base.delete(c.replace.path); else base.set(c.replace.path, now); }
  const wrong = compare(base, sb.snapshot(), want);
  if (wrong) tell(wrong);
  ctx.sample({ runs: c.runs, replace: c.replace && c.replace.path, order: made.slice(0, 40).join(""), switches, statuses: ps.map((p) => p.ended.status) }, 3);
  return ps.map((p) => p.calls);
}
function simultaneous(rng, all, i) {
  const s = () => { const g = rng.pick(all.filter((x) => x[0].text.length < 400)); return rng.pick(g).text; };
  const output = rng.pick(["out", "new/deep/out", "out/a.b"]);
  const some = (d, names) => names.map((n) => [d + "/" + n + ".pkt", s()]);
  const c = [
    () => ({ files: some("in", ["a", "sub/b"]), runs: [{ input: "in", output }, { input: "in", output }] }),
    () => ({ files: some("in", ["a", "sub/b"]), runs: [{ input: "in", output }, { input: "in", output: "out2" }] }),
    () => ({ files: [...some("one", ["a", "sub/b"]), ...some("two", ["c", "sub/d"])], runs: [{ input: "one", output }, { input: "two", output }] }),
    () => ({ files: some("in", ["a", "b"]), runs: [{ input: "in/a.pkt", output }, { input: "in/b.pkt", output }] }),
    () => ({ files: [...some("one", ["a"]), ...some("two", ["a"])], runs: [{ input: "one", output }, { input: "two", output: "out2" }] }),
    () => ({ files: some("in", ["a", "b"]), runs: [{ input: "in", output: "in" }, { input: "in", output: "in" }] }),
    () => ({ files: [...some("one", ["a", "sub/b"]), ["two/sub/c.pkt", rng.pick(BAD)]], runs: [{ input: "one", output }, { input: "two", output }] }),
    () => ({ files: some("in", ["a", "sub/b"]), runs: [{ input: "in", output }, { input: "in/a.pkt", output }, { input: "in/sub/b.pkt", output }] }),
    () => ({ files: [...some("one", ["d/a"]), ...some("two", ["d/b"]), ...some("three", ["d/c"])], runs: ["one", "two", "three"].map((input) => ({ input, output })) }),
  ][i % 9]();
  if (rng.bool(0.4)) c.prior = c.runs.flatMap((r) => owed(new Map(c.files), r.input, r.output).map(([p]) => [p, "// an earlier run\n" + "x".repeat(rng.pick([0, 100, 60000]))]));
  return c;
}
function replacing(rng, all) {
  const small = all.filter((x) => x[0].text.length < 3000), g = rng.pick(small), file = rng.bool(0.3);
  const files = [["in/a.pkt", rng.pick(g).text], ["in/b.pkt", rng.pick(rng.pick(small)).text], ["in/sub/c.pkt", rng.pick(rng.pick(small)).text]];
  const path = file ? "in/a.pkt" : rng.pick(files)[0], old = files.find(([p]) => p === path)[1];
  const to = rng.weighted([[3, rng.pick(g)], [3, rng.pick(rng.pick(small))]]).text;
  const replace = rng.weighted([[6, { path, how: "replace", text: to === old ? "# another\n" + old : to }], [1, { path, how: "replace", text: rng.pick(BAD) }], [1, { path, how: "remove" }]]);
  return { files: file ? files.slice(0, 1) : files, runs: [{ input: file ? path : "in", output: rng.pick(["out", "in"]) }], replace };
}
async function schedules(ctx, sb, all, codes, n, from) {
  const rng = ctx.rng;
  for (let i = 0; i < n && !ctx.late(); ++i) {
    if ((i + from) % 3 === 2) {
      // a schema replaced before each call in turn
      const c = replacing(rng, all);
      if (c.replace.text) { const r = await ctx.compiler().compile(c.replace.text); if (r.kind === "code") codes.set(c.replace.text, r.text); }
      const calls = await together(ctx, sb, c, [], codes);
      for (const k of calls ? cli.positions(calls[0]) : []) if (!ctx.late()) await together(ctx, sb, c, [...Array(k).fill(0), "replace"], codes);
      continue;
    }
    const c = simultaneous(rng, all, i + from * 5), made = await together(ctx, sb, c, [], codes);
    if (!made) continue;
    const calls = made.map((x) => x.length);
    // each stopped before each of its calls while the others run to their end
    for (let a = 0; a < calls.length; ++a) for (const k of cli.positions(made[a])) if (k && !ctx.late()) await together(ctx, sb, c, [...Array(k).fill(a), ...calls.flatMap((m, b) => (b === a ? [] : Array(m).fill(b)))], codes);
    // at random, in turns of all sorts of lengths
    for (let k = 0; k < ctx.n(20, 60) && !ctx.late(); ++k) {
      const order = [], turn = rng.pick([1, 2, 5, 10]);
      while (order.length < calls.reduce((x, y) => x + y, 0)) order.push(...Array(rng.int(1, turn)).fill(rng.int(0, calls.length - 1)));
      await together(ctx, sb, c, order, codes);
    }
  }
}
async function run(ctx) {
  const sb = new cli.Sandbox(), all = await groups(ctx, ctx.n(30, 100)), codes = new Map(all.flat().map((s) => [s.text, s.code]));
  histories(ctx, sb, all, codes, ctx.n(120, 2500));
  await kills(ctx, sb, all, codes, ctx.n(6, 100));
  await schedules(ctx, sb, all, codes, ctx.n(11, 120), ctx.shard);
  ctx.count("max_unprivileged", sb.unprivileged ? 1 : 0);
}
async function replay(ctx, k) {
  const sb = new cli.Sandbox(), codes = new Map();
  const texts = k.first ? [...k.files.map(([, t]) => t), k.change && k.change.text] : k.rounds ? [...k.start.map(([, t]) => t), ...k.rounds.flatMap((r) => r.changes.map((c) => c.text))] : [...k.files.map(([, t]) => t), k.replace && k.replace.text];
  for (const t of texts) if (typeof t === "string") { const r = await ctx.compiler().compile(t); if (r.kind === "code") codes.set(t, r.text); }
  if (k.first) await killed(ctx, sb, k, k.kill, codes); else if (k.rounds) history(ctx, sb, k, codes); else await together(ctx, sb, k, k.schedule, codes);
}
module.exports = {
  run, replay, prepare: cli.prepare, needs: ["harness", "cli"], level: "exploration",
  rule: "One evaluation is one run of the tool in a history of runs with changes in between (schemas edited with equal length and time, exchanged, renamed, broken and repaired, outputs tampered with, modification times set), one run killed before one of its file system calls (each in turn, except in the middle of more than 20 like ones in a row) or the one after it, or one set of up to three runs at the same time whose file system calls are made one by one in a chosen order (every point of one with the others run to their end there, and random orders), or one run during which a schema is replaced before a chosen call. Observed: exit status, and the complete file system before and after. Distinct non-trivial: distinct (state, changes, run) or distinct (case, order of calls).",
  assumptions: ["the order of calls is chosen at the calls the library in faults/ stands in for", "runs at the same time do not owe different contents for one file"],
};
