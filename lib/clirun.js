"use strict";
// Runs of the command-line tool in a scratch directory: as an unprivileged user where possible, watched by the library in
// faults/ (which refuses changes outside of the scratch directory), with snapshots of everything in it.
//
// Paths inside the scratch directory are "byte strings": one character per byte (latin1), since names need not be UTF-8.
const fs = require("fs"), path = require("path"), os = require("os");
const { spawnSync, spawn } = require("child_process");
const { cc, ROOT } = require("./build");

const NOBODY = 65534;
const bytes = (s) => Buffer.from(s, "latin1");
/** the byte string of a text */
const name = (text) => Buffer.from(text, "utf8").toString("latin1");
const text = (byteString) => bytes(byteString).toString("utf8");

function prepare() { process.env.VERIF_FAULTS = cc(path.join(ROOT, "faults", "faults.c"), "faults/faults.so", ["-shared", "-fPIC", "-O1", "-ldl"]); }

class Sandbox {
  constructor() {
    this.dir = fs.realpathSync(fs.mkdtempSync(path.join(os.tmpdir(), "verif-cli-")));
    fs.chmodSync(this.dir, 0o755);
    this.world = path.join(this.dir, "w");
    this.log = path.join(this.dir, "log");
    this.bin = path.join(this.dir, "packetc");
    this.lib = path.join(this.dir, "faults.so");
    fs.copyFileSync(process.env.VERIF_CLI, this.bin);
    fs.copyFileSync(process.env.VERIF_FAULTS, this.lib);
    fs.chmodSync(this.bin, 0o755);
    fs.chmodSync(this.lib, 0o755);
    this.user = process.getuid() === 0 ? { uid: NOBODY, gid: NOBODY } : {};
    if (spawnSync("/bin/true", [], this.user).error) this.user = {};
    this.cleanup = () => fs.rmSync(this.dir, { recursive: true, force: true });
    process.on("exit", this.cleanup);
    this.reset();
  }
  /** whether permission bits mean something to the tool */
  get unprivileged() { return this.user.uid !== undefined || process.getuid() !== 0; }
  reset() {
    if (fs.existsSync(this.world)) this.remove(bytes(this.world));
    fs.mkdirSync(this.world);
    this.own(this.world);
  }
  remove(dir) {
    for (const e of fs.readdirSync(dir, { withFileTypes: true, encoding: "buffer" })) {
      const p = Buffer.concat([dir, bytes("/"), e.name]);
      if (e.isDirectory()) this.remove(p); else fs.unlinkSync(p);
    }
    fs.rmdirSync(dir);
  }
  own(p) { if (this.user.uid !== undefined) fs.lchownSync(p, this.user.uid, this.user.gid); }
  at(rel) { return bytes(this.world + "/" + rel); }
  mkdir(rel) {
    let p = "";
    for (const part of rel.split("/")) {
      if (!part) continue;
      p += (p && "/") + part;
      if (!fs.existsSync(this.at(p))) { fs.mkdirSync(this.at(p)); this.own(this.at(p)); }
    }
  }
  write(rel, content) {
    const i = rel.lastIndexOf("/");
    if (i > 0) this.mkdir(rel.slice(0, i));
    fs.writeFileSync(this.at(rel), content);
    this.own(this.at(rel));
  }
  symlink(rel, target) {
    const i = rel.lastIndexOf("/");
    if (i > 0) this.mkdir(rel.slice(0, i));
    fs.symlinkSync(bytes(target), this.at(rel));
    this.own(this.at(rel));
  }
  link(rel, target) { fs.linkSync(this.at(target), this.at(rel)); }
  chmod(rel, mode) { fs.chmodSync(this.at(rel), mode); }
  read(rel) {
    // devices have no end
    if (!fs.statSync(this.at(rel)).isFile()) throw new Error("not a file");
    return fs.readFileSync(this.at(rel));
  }
  /** Map from path to what is there */
  snapshot() {
    const out = new Map();
    const walk = (rel) => {
      for (const e of fs.readdirSync(this.at(rel), { withFileTypes: true, encoding: "buffer" })) {
        const p = (rel && rel + "/") + e.name.toString("latin1");
        const mode = (fs.lstatSync(this.at(p)).mode & 0o7777).toString(8);
        if (e.isDirectory()) { out.set(p, "directory " + mode); walk(p); }
        else if (e.isSymbolicLink()) out.set(p, "link to " + fs.readlinkSync(this.at(p), { encoding: "buffer" }).toString("latin1"));
        else if (e.isFile()) out.set(p, "file " + mode + "\n" + fs.readFileSync(this.at(p)).toString("latin1"));
        else out.set(p, "other");
      }
    };
    walk("");
    return out;
  }
  /** the tool run call by call: {calls, ready(ms), go(), stop(), ended, end (a promise)}; it waits before each of its file system calls */
  start(args, { cwd = "" } = {}) {
    const env = { PATH: "/usr/bin:/bin", HOME: this.world, TMPDIR: this.world, RUST_BACKTRACE: "0", LC_ALL: "C.UTF-8", FAULT_ROOT: this.world, FAULT_STEP: "1" };
    const child = spawn("/bin/sh", ["-c", 'ulimit -c 0; ulimit -v 4000000; lib="$0"; exec env LD_PRELOAD="$lib" "$@"', this.lib, this.bin, ...args], { cwd: path.join(this.world, cwd), env, stdio: ["ignore", "pipe", "pipe", "pipe", "pipe"], ...this.user });
    const p = { calls: [], waiting: 0, ended: null, child };
    let wake = null, rest = "", err = "";
    const changed = () => { if (wake) { const w = wake; wake = null; w(); } };
    child.stdout.resume();
    child.stderr.on("data", (d) => { err += d.toString("latin1"); });
    child.stdio[3].on("error", () => {});
    child.stdio[4].on("data", (d) => {
      const lines = (rest + d.toString("latin1")).split("\n");
      rest = lines.pop();
      for (const l of lines) { const m = /^\S+ (\S+) (.*)$/.exec(l); p.calls.push([m[1], m[2].startsWith(this.world) ? m[2].slice(this.world.length + 1) : m[2]]); ++p.waiting; }
      changed();
    });
    p.end = new Promise((r) => child.on("close", (status, signal) => { p.ended = { status, signal, stderr: err }; changed(); r(); }));
    /** whether it waits or has ended, after at most that long */
    p.ready = async (ms) => {
      const until = Date.now() + ms;
      while (!p.waiting && !p.ended && Date.now() < until) await new Promise((r) => { const t = setTimeout(r, until - Date.now()); wake = () => { clearTimeout(t); r(); }; });
      return !!(p.waiting || p.ended);
    };
    p.go = () => { --p.waiting; child.stdio[3].write("."); };
    p.stop = () => { if (!p.ended) child.kill("SIGKILL"); };
    return p;
  }
  /** {status, signal, hang, stdout, stderr, calls: [[kind, path]], refused: [[kind, path]]}; fault: {at, mode, errno} */
  run(args, { cwd = "", fault = null, watch = true, more = {} } = {}) {
    const env = { PATH: "/usr/bin:/bin", HOME: this.world, TMPDIR: this.world, RUST_BACKTRACE: "0", LC_ALL: "C.UTF-8" };
    fs.rmSync(this.log, { force: true });
    fs.writeFileSync(this.log, "");
    this.own(this.log);
    if (watch) Object.assign(env, { FAULT_ROOT: this.world, FAULT_LOG: this.log });
    if (fault) Object.assign(env, { FAULT_AT: String(fault.at), FAULT_MODE: fault.mode, FAULT_ERRNO: String(fault.errno || 0) });
    const r = spawnSync("/bin/sh", ["-c", 'ulimit -c 0; ulimit -v 4000000; lib="$0"; exec env LD_PRELOAD="$lib" "$@"', watch ? this.lib : "", ...Object.entries(more).map((x) => x.join("=")), this.bin, ...args], { cwd: path.join(this.world, cwd), env, timeout: 60000, killSignal: "SIGKILL", maxBuffer: 64 << 20, ...this.user });
    if (r.error && r.error.code !== "ETIMEDOUT") throw r.error;
    const calls = [], refused = [];
    let disturbed = null;
    for (const line of fs.readFileSync(this.log, "latin1").split("\n")) {
      const m = /^(\S+) (\S+) (.*)$/.exec(line);
      if (!m) continue;
      const p = m[3].startsWith(this.world) ? m[3].slice(this.world.length + 1) : m[3];
      if (m[1] === "!") refused.push([m[2], p]); else if (m[1] === "*") disturbed = [m[2], p]; else calls.push([m[2], p]);
    }
    return { status: r.status, signal: r.signal, hang: !!r.error, stdout: r.stdout.toString("latin1"), stderr: r.stderr.toString("latin1"), calls, refused, disturbed };
  }
}
/** environment variables that should make no difference */
function environment(rng) {
  const out = {}, some = { CI: ["1", "true"], NO_COLOR: ["1"], TERM: ["dumb", "xterm-256color"], COLUMNS: ["20", "0", "x"], LC_ALL: ["C", "tr_TR.UTF-8"], LANG: ["de_DE"], HOME: ["", "/nonexistent"], TMPDIR: ["/nonexistent", "in"], PWD: ["/", "/nonexistent", "in"], RUST_BACKTRACE: ["1", "full"], RUST_LOG: ["trace"],
    DEBUG: ["1"], VERBOSE: ["1"], QUIET: ["1"], OUT_DIR: ["other"], PACKETC_OUT: ["other"], PACKETC_PATH: ["other"], CARGO_MANIFEST_DIR: ["/"], TZ: ["Asia/Tokyo"], USER: [""], SHELL: ["/bin/false"], XDG_CACHE_HOME: ["in", "/nonexistent"], XDG_CONFIG_HOME: ["in"] };
  for (const k of Object.keys(some)) if (rng.bool(0.3)) out[k] = rng.pick(some[k]);
  return out;
}
const panicked = (r) => r.status === 101 || /panicked at|stack overflow|fatal runtime error/.test(r.stderr);
const ended = (r) => (r.hang ? "no end after 60 s" : r.signal ? "killed by " + r.signal : "exit status " + r.status);

/** the calls at which something is to happen: all, but of more than 20 like ones in a row only the first and last eight and some in between */
function positions(calls) {
  const out = [], same = (i, k) => calls[i] && calls[i].join(" ") === calls[k].join(" ");
  for (let i = 0, n; i < calls.length; i += n) {
    for (n = 1; same(i + n, i); ++n);
    for (let k = 0; k < n; ++k) if (n <= 20 || k < 8 || k >= n - 8 || k % Math.ceil(n / 5) === 0) out.push(i + k);
  }
  return out;
}
/** differences between two snapshots: [what, path] */
function differences(before, after) {
  const out = [];
  for (const [p, v] of before) { const w = after.get(p); if (w === undefined) out.push(["removed", p]); else if (w !== v) out.push(["changed", p]); }
  for (const p of after.keys()) if (!before.has(p)) out.push(["created", p]);
  return out;
}
/** the name's part before the last dot if there is one in it (but not in front), and what follows it */
function split(n) { const i = n.lastIndexOf("."); return i > 0 && n !== ".." ? [n.slice(0, i), n.slice(i + 1)] : [n, null]; }
const isSchema = (n) => split(n)[1] === "pkt";
const tsName = (n) => split(n)[0] + ".ts";

/** the header line names the version and the time: all of it but the time */
function sameCode(want, got) {
  const head = (s) => { const i = s.indexOf("\n"); return [s.slice(0, i).replace(/ at .*$/, ""), s.slice(i)]; };
  const [a, b] = head(want), [c, d] = head(got);
  return a === c && b === d;
}
module.exports = { Sandbox, prepare, environment, positions, bytes, name, text, panicked, ended, differences, split, isSchema, tsName, sameCode };
