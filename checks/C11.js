"use strict";
// The same texts compiled again and again: later in the same process, after all sorts of other compilations, in other
// processes and from several threads at once. The first result is what all others are compared with.
const fs = require("fs"), gen = require("../lib/gen"), { Compiler, body } = require("../lib/compiler"), { mutate, twin, soup, clean } = require("../lib/mutate"), { flawed, FLAWS } = require("../lib/flaws"), workload = require("../lib/workload"), clock = require("../lib/clock");

function texts(rng, n) {
  const kinds = Object.keys(FLAWS), out = [];
  while (out.length < n) out.push(rng.weighted([
    [5, () => gen.text(gen.schema(rng, { maxLeaves: rng.pick([10, 40, 150]) }), rng)],
    // many types and fields, where an unordered container shows
    [2, () => { const m = rng.int(8, 40); return rng.shuffle([...Array.from({ length: m }, (_, i) => (rng.bool() ? `T${i}: struct { a: uint8 b: string }` : `T${i}: enum { A B }`)), "A: struct {" + Array.from({ length: m }, (_, i) => ` f${i}: T${i}`).join("") + " }"]).join("\n") + "\nexport A"; }],
    // several things wrong at once: which one is reported must not change
    [5, () => gen.nodesText(flawed(rng, gen.schema(rng, { maxLeaves: 25 }), Array.from({ length: rng.int(1, 5) }, () => rng.pick(kinds))), rng)],
    [2, () => { const m = rng.int(3, 15); return Array.from({ length: m }, (_, i) => `T${i}: struct { a: T${rng.int(0, m - 1)} b: U${rng.int(0, 3)} a: uint8 }`).join("\n") + "\nexport T0"; }],
    [2, () => { const m = rng.int(3, 15); return Array.from({ length: m }, (_, i) => `T${i}: struct { a: T${rng.int(0, m - 1)} }`).join("\n") + "\nexport T0"; }],
    [2, () => clean(mutate(rng, gen.text(gen.schema(rng, { maxLeaves: 20 }), rng)))],
    [1, () => soup(rng, rng.int(1, 20))],
  ])());
  return out;
}
const VARIABLES = { LANG: ["C", "de_DE.UTF-8", "tr_TR.UTF-8", ""], LC_ALL: ["C", "POSIX", "ja_JP.eucJP"], HOME: ["/", "/nonexistent"], USER: ["root", "x"], RUST_BACKTRACE: ["1", "full"], RUST_LOG: ["trace"], SOURCE_DATE_EPOCH: ["0", "1700000000"], DEBUG: ["1"], NO_COLOR: ["1"], CI: ["true"], TERM: ["dumb", "xterm-256color"], COLUMNS: ["20"], CARGO_PKG_VERSION: ["9.9.9"], PACKETC: ["1"] };
function surroundings(rng) {
  const env = {};
  for (const [k, v] of Object.entries(VARIABLES)) if (rng.bool()) env[k] = rng.pick(v);
  return env;
}
const say = (r) => `${r.kind} ${body(r.text)}`;
function firstDifference(a, b) {
  const x = a.split("\n"), y = b.split("\n");
  for (let i = 0; i < Math.max(x.length, y.length); ++i) if (x[i] !== y[i]) return `line ${i}: ${JSON.stringify((x[i] || "").slice(0, 150))} and then ${JSON.stringify((y[i] || "").slice(0, 150))}`;
  return "";
}
function compareAll(ctx, list, first, later, how, history) {
  later.forEach(({ index, r }) => {
    ctx.eval();
    ctx.count("compared_" + how.split(" ")[0]);
    if (say(r) !== first[index]) ctx.violation(`${how}: ${firstDifference(first[index], say(r))}`, { schema: list[index], others: history, how });
  });
}
async function examine(ctx, list, rounds) {
  const rng = ctx.rng, bin = process.env.VERIF_HARNESS;
  const one = new Compiler(bin);
  const first = (await Promise.all(list.map((t) => one.compile(t)))).map(say);
  list.forEach((t, i) => { ctx.saw(t); ctx.count("first_" + first[i].split(" ")[0]); });
  for (let k = 0; k < rounds; ++k) {
    // in the same process, in another order, so that each follows others
    // (in every other round right after texts of the same length, which may be its twins)
    const order = rng.shuffle(list.map((_, i) => i).concat(Array.from({ length: 5 }, () => rng.int(0, list.length - 1))));
    if (k % 2) order.sort((a, b) => list[a].length - list[b].length);
    compareAll(ctx, list, first, (await Promise.all(order.map((i) => one.compile(list[i])))).map((r, j) => ({ index: order[j], r })), "again in the same process", list);
    // in a fresh one, one by one from a cold start for some
    const other = new Compiler(bin);
    compareAll(ctx, list, first, (await Promise.all(order.map((i) => other.compile(list[i])))).map((r, j) => ({ index: order[j], r })), "process", list);
    other.stop();
    // at another time and place
    const elsewhere = clock.compiler(rng.pick(["UTC", "Asia/Tokyo", "XYZ+9:30", ""]), surroundings(rng));
    elsewhere.setClock(rng.int(0, 4e9));
    elsewhere.cwd = rng.pick(["/", "/tmp", "/verif"].filter((d) => fs.existsSync(d)));
    const some = order.slice(0, 15);
    compareAll(ctx, list, first, (await Promise.all(some.map((i) => elsewhere.compile(list[i])))).map((r, j) => ({ index: some[j], r })), "elsewhere (time, environment, directory)", list);
    elsewhere.stop();
    for (let j = 0; j < 3; ++j) { const fresh = new Compiler(bin), i = rng.int(0, list.length - 1); compareAll(ctx, list, first, [{ index: i, r: await fresh.compile(list[i]) }], "alone in a process", []); fresh.stop(); }
  }
  const t = await one.threaded(8, Math.max(2, rounds), list);
  if (t.kind !== "code") ctx.violation(`from 8 threads: ${t.kind} ${t.text}`, { schema: list[0], others: list, how: "threads" });
  else compareAll(ctx, list, first, t.results.map((r) => ({ index: r.index, r })), "threads at once", list);
  one.stop();
  const i = rng.int(0, list.length - 1);
  ctx.sample({ text: list[i].slice(0, 300), result: first[i].slice(0, 200), rounds });
}
async function run(ctx) {
  const rng = ctx.rng;
  for (let k = 0; k < ctx.n(24, 400) && !ctx.late(); ++k) {
    const list = texts(rng, 45);
    for (const t of rng.shuffle(list).slice(0, 8)) { list.push(twin(rng, t), twin(rng, t)); ctx.count("twins", 2); }
    await examine(ctx, list, 5);
  }
  await examine(ctx, workload.directed(rng).map((s) => gen.text(s, rng)).filter((t) => t.length < 20000), 3);
}
async function replay(ctx, k) {
  for (let i = 0; i < 5 && !ctx.violations.length; ++i) await examine(ctx, [k.schema, ...k.others.filter((t) => t !== k.schema)], 5);
}
module.exports = {
  run, replay, prepare: clock.prepare, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one compilation whose result (code without the time in the header, or the error) is compared with the first result for the same text: later in the same process after other compilations, in fresh processes (each with its own hash seeds), in processes with another time of day, time zone, environment and working directory, and from 8 threads at once. Distinct non-trivial: distinct texts.",
};
