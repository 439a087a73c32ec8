"use strict";
// Client of the harness: compile requests to the real compiler, watched for panics, crashes and hangs.
const { spawn } = require("child_process");
const fs = require("fs");

const KIND = ["code", "parse", "type", "panic", "other"];
const TICKS = 100; // USER_HZ
const CPU_LIMIT = Number(process.env.VERIF_HANG_CPU || 60), IDLE_LIMIT = 120;
const LONGEST = 2 ** 28; // a string cannot be much longer than that; the rest of such code is dropped

class Compiler {
  constructor(bin, { cpuLimit = CPU_LIMIT, memory = 6000000, env = null, cwd = undefined } = {}) {
    Object.assign(this, { memory, env, cwd });
    this.bin = bin; this.child = null; this.queue = []; this.cpuLimit = cpuLimit; this.requests = 0;
  }
  start() {
    // the address-space limit turns runaway memory use into a crash of the harness alone
    const child = spawn("/bin/bash", ["-c", `ulimit -c 0; ulimit -v ${this.memory}; exec "$0"`, this.bin], { stdio: ["pipe", "pipe", "pipe"], cwd: this.cwd, env: this.env ? { ...process.env, ...this.env } : process.env });
    this.child = child;
    this.chunks = []; this.have = 0; this.err = "";
    child.stdout.on("data", (d) => { if (child === this.child) { this.chunks.push(d); this.have += d.length; this.drain(); } });
    child.stderr.on("data", (d) => { this.err = (this.err + d).slice(-2000); });
    child.stdin.on("error", () => {});
    child.on("close", (code, signal) => {
      if (child !== this.child) return;
      this.child = null;
      const q = this.queue;
      this.queue = [];
      // the oldest request is the one it died on; the others are sent again
      if (q.length) {
        const first = q.shift();
        first.resolve({ kind: this.hung ? "hang" : "crash", text: this.hung || (signal ? "killed by " + signal : "exit status " + code) + (this.err ? ": " + this.err.trim() : "") });
      }
      this.hung = null;
      for (const r of q) this.send(r);
    });
    this.watch();
  }
  watch() {
    const child = this.child;
    let req = null, cpu0 = 0, last = 0, idle = 0;
    const timer = setInterval(() => {
      if (this.child !== child) return clearInterval(timer);
      const first = this.queue[0] || null;
      let cpu;
      try {
        const f = fs.readFileSync("/proc/" + child.pid + "/stat", "utf8");
        const p = f.slice(f.lastIndexOf(")") + 2).split(" ");
        cpu = (Number(p[11]) + Number(p[12])) / TICKS;
      } catch (e) { return; }
      if (first !== req) { req = first; cpu0 = last = cpu; idle = 0; return; }
      if (!req) return;
      idle = cpu > last ? 0 : idle + 1;
      last = cpu;
      if (cpu - cpu0 > this.cpuLimit) this.hung = "no result after " + this.cpuLimit + " s of processor time";
      else if (idle > IDLE_LIMIT) this.hung = "no result and no progress for " + IDLE_LIMIT + " s";
      if (this.hung) child.kill("SIGKILL");
    }, 1000);
    timer.unref();
  }
  drain() {
    for (;;) {
      if (this.have < 5) return;
      if (this.chunks.length > 1) {
        if (this.chunks[0].length < 5 || this.have >= this.need) this.chunks = [Buffer.concat(this.chunks)];
        else return;
      }
      const b = this.chunks[0];
      const len = b.readUInt32LE(1);
      this.need = 5 + len;
      if (b.length < this.need) { if (this.chunks.length > 1) continue; return; }
      const r = this.queue.shift();
      const kind = KIND[b[0]];
      const body = b.subarray(5, 5 + len);
      this.chunks = [b.subarray(this.need)]; this.have -= this.need; this.need = 0;
      r.resolve({ kind, text: r.raw ? null : body.toString("utf8", 0, Math.min(len, LONGEST)), raw: r.raw ? Buffer.from(body) : undefined });
    }
  }
  send(r) {
    if (!this.child) this.start();
    this.queue.push(r);
    const head = Buffer.alloc(5);
    head[0] = r.op; head.writeUInt32LE(r.payload.length, 1);
    this.child.stdin.write(head);
    this.child.stdin.write(r.payload);
  }
  request(op, payload, raw) {
    ++this.requests;
    return new Promise((resolve) => this.send({ op, payload, raw, resolve }));
  }
  /** {kind: code|parse|type|panic|crash|hang|other, text} */
  compile(text) { return this.request(1, Buffer.from(text, "utf8")); }
  /** [{index, kind, text}], or {kind: crash|hang} */
  async threaded(threads, rounds, texts) {
    const parts = [Buffer.alloc(8)];
    parts[0].writeUInt32LE(threads, 0); parts[0].writeUInt32LE(rounds, 4);
    for (const t of texts) { const b = Buffer.from(t, "utf8"), n = Buffer.alloc(4); n.writeUInt32LE(b.length, 0); parts.push(n, b); }
    const r = await this.request(2, Buffer.concat(parts), true);
    if (r.kind !== "code") return r;
    const out = [];
    for (let at = 0; at < r.raw.length;) {
      const len = r.raw.readUInt32LE(at + 5);
      out.push({ index: r.raw.readUInt32LE(at), kind: KIND[r.raw[at + 4]], text: r.raw.toString("utf8", at + 9, at + 9 + len) });
      at += 9 + len;
    }
    return { kind: "code", results: out };
  }
  stop() { const c = this.child; this.child = null; if (c) { c.stdin.end(); c.kill(); } }
  restart() { this.stop(); }
}
/** The generated code without the header line, which has the time of the compilation. */
function body(code) { return code.replace(/^\/\/ Generated by [^\n]*\n/, ""); }
module.exports = { Compiler, body };
