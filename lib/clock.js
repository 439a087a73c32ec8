"use strict";
// The compiler under a clock of our own.
const fs = require("fs"), os = require("os"), path = require("path");
const { Compiler } = require("./compiler"), { cc, ROOT } = require("./build");

function prepare() { process.env.VERIF_CLOCK = cc(path.join(ROOT, "faults", "clock.c"), "faults/clock.so", ["-shared", "-fPIC", "-O1"]); }
/** A Compiler whose process has the given time zone and the time last given to setClock (in seconds). */
function compiler(zone, env = {}) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "verif-clock-")), file = path.join(dir, "clock");
  fs.writeFileSync(file, Buffer.alloc(8));
  const c = new Compiler(process.env.VERIF_HARNESS, { env: { ...env, TZ: zone, CLOCK_FILE: file, LD_PRELOAD: process.env.VERIF_CLOCK } });
  const fd = fs.openSync(file, "r+");
  c.setClock = (s) => { const b = Buffer.alloc(8); b.writeBigInt64LE(BigInt(s)); fs.writeSync(fd, b, 0, 8, 0); };
  const stop = c.stop;
  c.stop = function () { stop.call(c); fs.rmSync(dir, { recursive: true, force: true }); };
  return c;
}
module.exports = { prepare, compiler };
