#!/usr/bin/env node
"use strict";
// node run.js <property> [--replay <file>]
//
// Runs the check of one property over several worker processes, writes evidence/<property>.json and, for violations,
// replay files under out/. Exit status 0: held; 1: violation; anything else: the check itself failed.
const fs = require("fs"), path = require("path"), os = require("os"), crypto = require("crypto");
const { fork } = require("child_process");
const { Rng } = require("./lib/rng");
const { Compiler } = require("./lib/compiler");
const { build, ROOT } = require("./lib/build");

const SHARDS = 8;
const id = process.argv[2];
const tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const seed = Number.parseInt(process.env.VERIF_SEED || "1", 10) || 0;

/** What a check sees of one run. */
class Ctx {
  constructor(shard, shards, deadline) {
    Object.assign(this, { id, tier, seed, shard, shards, deadline });
    this.rng = new Rng(seed, id, shard);
    this.evaluations = 0;
    this.distinct = new Set();
    this.counters = {};
    this.samples = [];
    this.violations = [];
    this.known = {};
    this.timedOut = false;
    this.findings = JSON.parse(fs.readFileSync(path.join(ROOT, "known-findings.json"), "utf8")).findings.filter((f) => f.property === id);
  }
  get thorough() { return tier === "thorough"; }
  /** amount of work by tier */
  n(quick, thorough) { return this.thorough ? thorough : quick; }
  /** whether time is up (a guard for slow machines, the amount of work is otherwise fixed) */
  late() { if (Date.now() > this.deadline) this.timedOut = true; return this.timedOut; }
  compiler() { return this._compiler || (this._compiler = new Compiler(process.env.VERIF_HARNESS)); }
  count(name, n = 1) { this.counters[name] = (this.counters[name] || 0) + n; }
  eval(n = 1) { this.evaluations += n; }
  /** notes a distinct non-trivial case, by its identity */
  saw(key) { this.distinct.add(crypto.createHash("md5").update(String(key)).digest("base64").slice(0, 12)); }
  sample(s, max = 3) { if (this.samples.length < max) this.samples.push(s); }
  /** a violation: what happened, and the case to run it again */
  violation(what, kase) {
    this.count("violations_seen");
    if (this.violations.length < 10) this.violations.push({ what, case: kase });
  }
  /** a listed finding that was met */
  hit(key) { this.known[key] = (this.known[key] || 0) + 1; }
  mine(i) { return i % this.shards === this.shard; }
  result() {
    return { evaluations: this.evaluations, distinct: [...this.distinct], counters: this.counters, samples: this.samples, violations: this.violations, known: this.known, timedOut: this.timedOut };
  }
}

async function worker() {
  const [shard, shards, deadline] = process.argv.slice(4, 7).map(Number);
  const ctx = new Ctx(shard, shards, deadline);
  await require("./checks/" + id).run(ctx);
  if (ctx._compiler) ctx._compiler.stop();
  await new Promise((r) => process.send(ctx.result(), r));
  process.exit(0);
}

function writeEvidence(check, merged, wall, violations) {
  fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
  const e = {
    property: id, tier, seed, level: check.level || "exploration",
    coverage: {
      evaluations: merged.evaluations, distinct_nontrivial: merged.distinct.size, rule: check.rule,
      samples: merged.samples.slice(0, 6), ...merged.counters,
      known_findings_met: Object.keys(merged.known).length, stopped_by_time_guard: merged.timedOut,
    },
    assumptions: check.assumptions || [], wall_s: Math.round(wall * 100) / 100, violations,
  };
  fs.writeFileSync(path.join(ROOT, "evidence", id + ".json"), JSON.stringify(e, null, 1) + "\n");
}

async function main() {
  const t0 = Date.now();
  const check = require("./checks/" + id);
  for (const f of [path.join(ROOT, "evidence", id + ".json")]) if (fs.existsSync(f)) fs.unlinkSync(f);
  if (check.needs === undefined || check.needs.includes("harness")) process.env.VERIF_HARNESS = build("harness");
  if (check.needs && check.needs.includes("cli")) process.env.VERIF_CLI = build("cli");
  if (check.prepare) check.prepare();
  const built = Date.now();
  console.log(`${id} ${tier} seed=${seed}: built in ${((built - t0) / 1000).toFixed(1)} s`);

  if (process.argv[3] === "--replay") {
    const ctx = new Ctx(0, 1, Date.now() + 3600e3);
    const kase = JSON.parse(fs.readFileSync(process.argv[4], "utf8"));
    await check.replay(ctx, kase.case);
    for (const v of ctx.violations) console.log("VIOLATION", v.what);
    if (ctx._compiler) ctx._compiler.stop();
    process.exit(ctx.violations.length ? 1 : 0);
  }

  const deadline = built + (tier === "thorough" ? 780 : 400) * 1000;
  const shards = check.shards || SHARDS;
  const results = await Promise.all(Array.from({ length: shards }, (_, i) => new Promise((resolve, reject) => {
    const child = fork(__filename, [id, "--worker", i, shards, deadline], { stdio: ["ignore", "inherit", "inherit", "ipc"], execArgv: ["--max-old-space-size=3000", "--stack-size=3900"] });
    let got = null;
    child.on("message", (m) => { got = m; });
    child.on("exit", (code, signal) => (got ? resolve(got) : reject(new Error(`worker ${i} ended without a result (${signal || code})`))));
  })));
  const merged = { evaluations: 0, distinct: new Set(), counters: {}, samples: [], violations: [], known: {}, timedOut: false };
  for (const r of results) {
    merged.evaluations += r.evaluations;
    for (const d of r.distinct) merged.distinct.add(d);
    for (const [k, v] of Object.entries(r.counters)) merged.counters[k] = k.startsWith("max_") ? Math.max(merged.counters[k] || 0, v) : (merged.counters[k] || 0) + v;
    for (const [k, v] of Object.entries(r.known)) merged.known[k] = (merged.known[k] || 0) + v;
    merged.samples.push(...r.samples.slice(0, 1));
    merged.violations.push(...r.violations);
    merged.timedOut = merged.timedOut || r.timedOut;
  }
  for (const r of results) merged.samples.push(...r.samples.slice(1));
  if (check.finish) check.finish(merged);

  const replays = path.join(ROOT, "out", id);
  fs.rmSync(replays, { recursive: true, force: true });
  for (const key of Object.keys(merged.known).sort()) console.log(`KNOWN-FINDING: property=${id} ${key}`);
  merged.violations.slice(0, 10).forEach((v, i) => {
    fs.mkdirSync(replays, { recursive: true });
    const file = path.join(replays, "violation-" + i + ".json");
    fs.writeFileSync(file, JSON.stringify({ property: id, what: v.what, seed, tier, run: `node ${path.join(ROOT, "run.js")} ${id} --replay ${file}`, case: v.case }, null, 1) + "\n");
    console.log("  " + String(v.what).split("\n").join("\n    ").slice(0, 1500));
    console.log(`VIOLATION property=${id} replay=${file}`);
  });
  const wall = (Date.now() - t0) / 1000;
  writeEvidence(check, merged, wall, merged.violations.length);
  console.log(`${id}: ${merged.evaluations} evaluations, ${merged.distinct.size} distinct, ${merged.violations.length} violations, ${wall.toFixed(1)} s${merged.timedOut ? " (stopped by the time guard)" : ""}`);
  for (const [k, v] of Object.entries(merged.counters)) console.log(`  ${k}: ${v}`);
  process.exit(merged.violations.length ? 1 : 0);
}

(process.argv[3] === "--worker" ? worker() : main()).catch((e) => { console.error(e); process.exit(2); });
