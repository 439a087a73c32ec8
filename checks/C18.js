"use strict";
// The outline of generated modules: the header line against the clock the compiler was given, imports, exports, and what
// happens when a module is loaded.
const fs = require("fs"), path = require("path"), vm = require("vm");
const subject = require("../lib/subject"), workload = require("../lib/workload"), tsrun = require("../lib/tsrun"), { ts } = tsrun, { REPO } = require("../lib/build"), clock = require("../lib/clock");

const DAYS = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"], MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
const ZONES = ["UTC", "Asia/Tokyo", "America/New_York", "XYZ-5:30", "ABC+11", "CET-1CEST,M3.5.0,M10.5.0/3", ""];
const two = (n) => String(n).padStart(2, "0");

function version() { return /^version\s*=\s*"([^"]*)"/m.exec(fs.readFileSync(path.join(REPO, "Cargo.toml"), "utf8"))[1]; }
/** null, or what is wrong with the header of code compiled between the two times (seconds) */
function header(code, from, to) {
  const line = code.slice(0, code.indexOf("\n"));
  const m = /^\/\/ Generated by packetc v(\S+) at (.*)$/.exec(line);
  if (!m) return `the first line is ${JSON.stringify(line.slice(0, 200))}`;
  if (m[1] !== version()) return `the header names version ${m[1]}, the package is ${version()}`;
  for (let t = from; t <= to; ++t) {
    const d = new Date(t * 1000), rest = `${MONTHS[d.getUTCMonth()]} ${d.getUTCFullYear()} ${two(d.getUTCHours())}:${two(d.getUTCMinutes())}:${two(d.getUTCSeconds())} +0000`;
    if ([`${DAYS[d.getUTCDay()]}, ${two(d.getUTCDate())} ${rest}`, `${DAYS[d.getUTCDay()]}, ${d.getUTCDate()} ${rest}`].includes(m[2])) return null;
  }
  return `the header says ${m[2]}, the time was ${new Date(from * 1000).toUTCString()}`;
}
/** null, or what is wrong with the statements of the module */
function outline(code, name) {
  const bad = /[^\n -~]/.exec(code);
  if (bad) return `a character U+${bad[0].codePointAt(0).toString(16)} is in the code`;
  const sf = ts.createSourceFile("m.ts", code, ts.ScriptTarget.ES2020, true);
  for (const s of sf.statements) {
    if (ts.isImportDeclaration(s)) {
      if (s.moduleSpecifier.text !== "packet") return `it imports ${JSON.stringify(s.moduleSpecifier.text)}`;
      const names = s.importClause && s.importClause.namedBindings && ts.isNamedImports(s.importClause.namedBindings) ? s.importClause.namedBindings.elements.map((e) => (e.propertyName || e.name).text) : ["all of it"];
      const odd = names.find((n) => n !== "Reader" && n !== "Writer");
      if (odd) return `it imports ${odd} from packet`;
    } else if (ts.isExportDeclaration(s) || ts.isExportAssignment(s)) return `it has the export ${s.getText().slice(0, 100)}`;
    else if (ts.canHaveModifiers(s) && (ts.getModifiers(s) || []).some((x) => x.kind === ts.SyntaxKind.ExportKeyword)) {
      if (!s.name || s.name.text !== name) return `it exports ${s.getText().slice(0, 60)}`;
      if ((ts.getModifiers(s) || []).some((x) => x.kind === ts.SyntaxKind.DefaultKeyword)) return "it has a default export";
    }
  }
  return null;
}
/** null, or what loading the module did */
function loading(js, name) {
  const log = [];
  const watched = (what) => new Proxy(function () {}, {
    construct() { log.push("makes a " + what); return {}; }, apply() { log.push("calls " + what); }, set(t, k) { log.push(`sets ${String(k)} of ${what}`); return true; },
    defineProperty(t, k) { log.push(`defines ${String(k)} of ${what}`); return true; }, deleteProperty() { log.push("deletes from " + what); return true; }, get(t, k) { if (k !== "prototype" && typeof k === "string") log.push(`uses ${k} of ${what}`); return t[k]; },
  });
  const packet = Object.freeze({ Reader: watched("Reader"), Writer: watched("Writer"), __esModule: true });
  const box = vm.createContext({});
  const state = () => vm.runInContext(`[globalThis, Object, Object.prototype, Array, Array.prototype, Function.prototype, String.prototype, Number.prototype, ArrayBuffer.prototype, Math, JSON, Promise.prototype].map((o) => Reflect.ownKeys(o).map(String).join()).join("|")`, box);
  const before = state();
  const f = vm.runInContext("(function (require, exports, module) {" + js + "\n})", box);
  const once = () => { const module = { exports: {} }; f((n) => { if (n !== "packet") log.push("loads " + n); return packet; }, module.exports, module); return module.exports; };
  const a = once(), b = once();
  if (log.length) return `when loaded, it ${log[0]}`;
  if (state() !== before) return "loading it changes global objects";
  // assigned to a plain object, __proto__ is no property
  const names = name === "__proto__" ? [name] : Object.keys(a);
  if (names.length !== 1 || names[0] !== name) return `its exports are ${names.join(", ")}`;
  if (a[name] === b[name]) return "loaded twice it gives the same class";
  return null;
}
const MARK = "QzMark";
/** the text with more comments, all of them marked */
function marked(rng, text) {
  const lines = ["*/ export let " + MARK + " = 1; /*", " export let " + MARK, "\rexport let " + MARK, MARK + " \\n " + MARK, "${" + MARK + "}", "'" + MARK + "\"`"];
  // comments of all sorts of beginnings, first, in between and last
  const start = () => "#".repeat(rng.int(1, 4)) + Array.from({ length: rng.int(0, 3) }, () => rng.pick([..." !/*@:-=<>|~\t"])).join("");
  const own = Array.from({ length: rng.int(1, 3) }, () => start() + MARK + rng.pick(lines) + "\n").join("");
  return (rng.bool() ? own + rng.pick(["", "\n"]) : "#" + rng.pick(lines) + "\n" + own) + text.replace(/#/g, () => "# " + MARK + rng.pick(lines) + " ") + "\n#" + rng.pick(lines);
}
async function examine(ctx, texts, how) {
  // {zone, time}: the clock is set; otherwise it is the real one
  const c = how.time === undefined ? ctx.compiler() : clock.compiler(how.zone);
  const done = [];
  for (const { text, name } of texts) {
    let from = Math.floor(Date.now() / 1000), to;
    if (how.time !== undefined) { to = from = how.time(); c.setClock(from); }
    const r = await c.compile(text);
    if (how.time === undefined) to = Math.floor(Date.now() / 1000);
    ctx.count("schemas_compiled");
    if (r.kind === "code") done.push({ text, name, from, to, code: r.text }); else ctx.count("schemas_not_accepted");
  }
  const mods = tsrun.batch(done);
  done.forEach((d, i) => {
    const { text, name, from, to, code } = d;
    ctx.eval();
    ctx.saw(text);
    ctx.count(how.time === undefined ? "headers_with_the_real_time" : "headers_with_a_set_time");
    let bad = header(code, from, to) || (code.includes(MARK) ? "text of a comment is in the code" : null) || outline(code, name);
    try { bad = bad || loading(mods[i].js, name); } catch (e) { bad = `it cannot be loaded: ${e}`; }
    if (bad) ctx.violation(bad, { schema: text, name, time: how.time === undefined ? undefined : from, zone: how.zone });
    ctx.sample({ header: code.slice(0, code.indexOf("\n")), zone: how.zone, time: from, lines: code.split("\n").length });
  });
  if (how.time !== undefined) c.stop();
  subject.requireAccepted(ctx);
}
const EDGES = [0, 1, 59, 86399, 86400, 951782399, 951782400, 951868799, 951868800, 978307199, 1582934400, 1709164800, 1709251199, 1709251200, 2147483647, 2147483648, 4102444799, 4107542400, 4294967295, 4294967296, 16725225600, 253402300799];
const LAST = 253402300799; // the end of the year 9999
async function run(ctx) {
  const rng = ctx.rng;
  let k = 0;
  for (const items of workload.batches(ctx, { random: ctx.n(500, 8000), depth: 1, size: 50 })) {
    const texts = items.filter((it) => it.text.length < 100000).map((it) => ({ text: it.text.includes(MARK) || [...it.model.types.keys()].some((n) => n.includes(MARK)) ? it.text : marked(rng, it.text), name: it.model.export }));
    const time = () => {
      if (rng.bool(0.4)) { ctx.count("times_at_edges"); return rng.pick(EDGES); }
      ctx.count("times_at_random");
      return Math.min(rng.int(0, 59) * 2 ** 32 + rng.int(0, 2 ** 32 - 1), LAST);
    };
    await examine(ctx, texts, k % 4 === 0 ? {} : { zone: rng.pick(ZONES), time });
    ++k;
  }
}
async function replay(ctx, c) { await examine(ctx, [{ text: c.schema, name: c.name }], c.time === undefined ? {} : { zone: c.zone, time: () => c.time }); }
module.exports = {
  run, replay, prepare: clock.prepare, needs: ["harness"], level: "exploration",
  rule: "One evaluation is one accepted schema, compiled at a time given to the compiler (the clock and time zone of its process are set by a preloaded library; the real time for a quarter), whose module is judged: header line against version and time, imports, exports, characters, no text of the schema's comments (which try to get out of comments and strings); and which is loaded twice in a fresh context with a watched runtime. Distinct non-trivial: distinct schema texts.",
  assumptions: ["the version is the one in Cargo.toml", "times from 1970 to 9999"],
};
