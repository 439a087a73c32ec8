"use strict";
// Builds the harness and the command-line tool from /repo's current working tree.
const fs = require("fs"), path = require("path"), crypto = require("crypto");
const { spawnSync } = require("child_process");

const ROOT = path.join(__dirname, "..");
const REPO = process.env.VERIF_REPO || "/repo";
const TARGET = path.join(ROOT, "target");
const ENV = { ...process.env, HOME: process.env.HOME || "/root", RUSTUP_TOOLCHAIN: "nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE: "true", CARGO_TERM_COLOR: "never", RUSTC_WRAPPER: "" };
ENV.PATH = "/root/.cargo/bin:" + (process.env.PATH || "/usr/bin:/bin");
for (const k of Object.keys(ENV)) if (/^(CARGO_TARGET_DIR|RUSTFLAGS|CARGO_BUILD_|CARGO_PROFILE_)/.test(k)) delete ENV[k];

function sources() {
  const h = crypto.createHash("sha256");
  const walk = (p) => {
    const st = fs.statSync(p);
    if (st.isDirectory()) { for (const n of fs.readdirSync(p).sort()) walk(path.join(p, n)); return; }
    h.update(p + "\0" + st.size + "\0");
    h.update(fs.readFileSync(p));
  };
  for (const n of ["Cargo.toml", "Cargo.lock", "build.rs", "src"]) if (fs.existsSync(path.join(REPO, n))) walk(path.join(REPO, n));
  walk(path.join(ROOT, "harness", "Cargo.toml"));
  walk(path.join(ROOT, "harness", "src"));
  return h.digest("hex");
}

const KINDS = {
  harness: { bin: "harness/release/harness", manifest: path.join(ROOT, "harness/Cargo.toml"), args: ["--release", "--offline"] },
  cli: { bin: "cli/debug/packetc", manifest: path.join(REPO, "Cargo.toml"), args: ["--bin", "packetc", "--locked", "--offline"] },
};
function cargo(args) {
  const r = spawnSync("cargo", args, { cwd: ROOT, env: ENV, encoding: "utf8", maxBuffer: 64 << 20 });
  if (r.error) throw r.error;
  return r;
}
/** Builds and gives the path of the binary; throws with the compiler's messages if it does not build. */
function build(kind) {
  const k = KINDS[kind], dir = path.join(TARGET, kind);
  fs.mkdirSync(dir, { recursive: true });
  const stamp = path.join(dir, "built-from"), want = sources(), bin = path.join(TARGET, k.bin);
  if (fs.existsSync(stamp) && fs.readFileSync(stamp, "utf8") === want && fs.existsSync(bin)) return bin;
  const common = ["--manifest-path", k.manifest, "--target-dir", dir];
  // cargo goes by modification times, which say little about a tree that was just copied
  if (fs.existsSync(stamp)) { fs.unlinkSync(stamp); cargo(["clean", "-p", "packetc", "--offline", ...common, ...(kind === "harness" ? ["--release"] : [])]); }
  const r = cargo(["build", ...k.args, ...common]);
  if (r.status !== 0) throw new Error("building " + kind + " failed:\n" + r.stderr.split("\n").slice(-60).join("\n"));
  fs.writeFileSync(stamp, want);
  return bin;
}
function cc(src, out, args = []) {
  const target = path.join(TARGET, out);
  fs.mkdirSync(path.dirname(target), { recursive: true });
  if (fs.existsSync(target) && fs.statSync(target).mtimeMs > fs.statSync(src).mtimeMs) return target;
  const r = spawnSync("cc", [...args, "-o", target, src], { encoding: "utf8" });
  if (r.status !== 0) throw new Error("cc failed: " + r.stderr);
  return target;
}
module.exports = { build, cc, ROOT, REPO, TARGET };
if (require.main === module) for (const k of process.argv.slice(2)) console.log(build(k));
