"use strict";
// Directory trees with schema files, and ways to name them on the command line.
const gen = require("./gen"), { name, isSchema } = require("./clirun");

/** valid schema texts with their compiled code: [{text, code}] */
async function pool(ctx, n) {
  const texts = ["X: struct {}\nexport X", "# é 中 \u{1F600}\nA: struct { a: uint8 }\r\nexport A\r\n"];
  for (let i = 0; i < n; ++i) texts.push(gen.text(gen.schema(ctx.rng, { maxLeaves: i % 10 === 0 ? 250 : 20 }), ctx.rng));
  // one whose code does not fit a buffer of the usual sizes
  texts.push("B: struct {" + Array.from({ length: 3000 }, (_, i) => ` field_${i}: string[]`).join("") + " }\nexport B");
  const rs = await Promise.all(texts.map((t) => ctx.compiler().compile(t)));
  return texts.map((text, i) => ({ text, code: rs[i].text, kind: rs[i].kind })).filter((s) => s.kind === "code");
}
const STEMS = ["a", "b", "A", "schema", "x.y", "a.b.c", "with space", "é", "中文", "-dash", "--help", "a.pkt", "a.ts", "ts", "pkt", "struct", "0", "..", "a.", "_", "~", "#a", "a%20", "*", "[x]", "'q'", "\"d\"", "back\\slash", "tab\there", "new\nline", ".hidden", "CON", "a".repeat(200)];
const OTHERS = [".pkt", "pkt", "a.pktx", "a.pkt.bak", "a.PKT", "a.Pkt", "a.pkt~", "apkt", "a.ts", "README", "a.txt", "a.", ".a", "a.pkt.", "a.pkt.ts", "a_pkt", "a.pk", "a.kt", "x.spkt"];
const DIRS = ["sub", "d.pkt", "a", "b", ".dot", "with space", "é", "x.y", "pkt", "ts", "a.ts", "-d", "deep/er/and/deeper", "in", "out", "..."];

/** {files: Map path -> schema | null (not a schema: content is noise), dirs: [path]} below a base directory */
function tree(rng, schemas, { max = 12, bytesNames = false } = {}) {
  const files = new Map(), dirs = [], taken = new Set();
  const dirPool = [""];
  for (let i = rng.weighted([[3, 0], [4, rng.int(1, 3)], [1, rng.int(4, 8)]]); i > 0; --i) {
    const d = rng.pick(dirPool), p = (d && d + "/") + name(rng.pick(DIRS));
    const parts = p.split("/");
    if (parts.some((_, k) => files.has(parts.slice(0, k + 1).join("/")))) continue;
    if (!dirPool.includes(p)) { dirPool.push(p); dirs.push(p); }
    for (let k = 1; k <= parts.length; ++k) taken.add(parts.slice(0, k).join("/"));
  }
  const put = (p, s) => { if (!taken.has(p)) { taken.add(p); files.set(p, s); } };
  const count = rng.weighted([[1, 0], [2, 1], [6, rng.int(2, max)]]);
  for (let i = 0; i < count; ++i) {
    const d = rng.pick(dirPool);
    if (rng.bool(0.75)) {
      let stem = name(rng.bool(0.8) ? rng.pick(STEMS) : "f" + rng.int(0, 99));
      put((d && d + "/") + stem + ".pkt", rng.pick(schemas));
    } else put((d && d + "/") + name(rng.pick(OTHERS)), null);
  }
  // the same names in several directories
  if (rng.bool(0.4) && dirPool.length > 1) for (const d of dirPool) put((d && d + "/") + "same.pkt", rng.pick(schemas));
  for (const [p, s] of files) if (s === null && isSchema(p.slice(p.lastIndexOf("/") + 1))) files.delete(p);
  return { files, dirs };
}
const NOISE = ["", "not a schema {", "X: struct {}\nexport X", "\x00\xff\xfe"];

/** ways to write the directory d (which is one or more plain components, relative to the world) from the directory cwd */
function spelling(rng, world, d, cwd) {
  const up = cwd ? cwd.split("/").map(() => "..").join("/") + "/" : "";
  const rel = up + d;
  return rng.weighted([
    [4, rel], [3, rel + "/"], [2, "./" + rel], [2, world + "/" + d], [1, world + "/" + d + "/"], [1, rel + "//"], [1, rel + "/."], [1, rel + "/../" + d.split("/").pop()],
    [1, ".//" + rel], [1, world + "/./" + d], [1, up + "./" + d + "/./"],
    ...(d === cwd ? [[12, "."], [6, "./"]] : []),
    ...(cwd && cwd.startsWith(d + "/") ? [[8, cwd.slice(d.length + 1).split("/").map(() => "..").join("/")]] : []),
  ]);
}
module.exports = { pool, tree, spelling, NOISE, STEMS, OTHERS };
