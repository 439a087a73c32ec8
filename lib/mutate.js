"use strict";
// Near misses of schema texts, and token soup.
const { BUILTINS } = require("./refparse");

const TOKENS = [":", "{", "}", ",", "?", "[", "]", "[]", "#", "struct", "enum", "export", ...BUILTINS, "A", "b", "_x", "9z", "\n", "\r\n", "\r", " ", "\t", "\n\n", " \n ", "?:", "[][]", "[ ]", ";", "=", "|", "/", "//", "/*", "\"", "'", "(", ")", "<", ">", "*", "-", ".", "\\", "$", "@", "!", "~", "`", "%", "&",
  "strings", "structx", "enums", "exports", "export X", "# c\n", "#", "a: uint8", "a: uint8,", "a?: string", "X: struct {}", "E: enum { A }", "é", "中", "\u{1F600}", " ", " ", "﻿", "\0", "\u0085", "​", "ſ", "ı", "\v", "\f", "Ａ", "１"];

const SPLIT = /[A-Za-z_][A-Za-z0-9_]*|[0-9]+|[ \t]+|\r\n|[\s\S]/gu;

function mutate(rng, text) {
  const times = rng.weighted([[6, 1], [2, 2], [1, rng.int(3, 6)]]);
  for (let k = 0; k < times; ++k) {
    const toks = text.match(SPLIT) || [];
    const at = rng.int(0, Math.max(0, toks.length - 1));
    switch (rng.int(0, 9)) {
      case 0: toks.splice(at, 1); break;
      case 1: toks.splice(at, 0, rng.pick(TOKENS)); break;
      case 2: toks[at] = rng.pick(TOKENS); break;
      case 3: toks.splice(at, 0, toks[at] || ""); break;
      case 4: { const to = rng.int(0, Math.max(0, toks.length - 1)); [toks[at], toks[to]] = [toks[to], toks[at]]; break; }
      case 5: toks.length = rng.int(0, toks.length); break;
      case 6: toks.splice(0, rng.int(0, Math.min(8, toks.length))); break;
      case 7: toks.splice(at, rng.int(1, 6)); break;
      case 8: { const from = rng.int(0, Math.max(0, toks.length - 1)); toks.splice(at, 0, ...toks.slice(from, from + rng.int(1, 10))); break; }
      case 9: { // one character
        const cs = [...toks.join("")], i = rng.int(0, Math.max(0, cs.length - 1));
        if (rng.bool()) cs.splice(i, 1); else cs.splice(i, 0, rng.pick([...rng.pick(TOKENS)].concat([" ", "x"])));
        text = cs.join("");
        continue;
      }
    }
    text = toks.filter((t) => t !== undefined).join("");
  }
  return text;
}
function soup(rng, n) {
  let s = "";
  const glue = rng.bool(0.5) ? "" : " ";
  for (let i = 0; i < n; ++i) s += rng.pick(TOKENS) + (rng.bool(0.7) ? glue : "");
  return s;
}
// every construct of the language in a small schema, and what may be put between or instead of its tokens
const DENSE = "E:enum{P,Q R}#k\nS:struct{a:uint8,b?:E c:string[]#l\n d:E[] }\nexport S";
const PIECES = [" ", "\t", "\n", "\r", "\r\n", "#\n", "# x\n", "#", ",", "?", ":", "[]", "[", "]", "{", "}", "a", "A1", "9", "_", "uint8", "int", "struct", "enum", "export", "export S", ";", ".", "\v", "\f", "\0", "é", "\u00a0", "\u2028", "\ufeff"];
/** the dense schema with one change, in every way */
function* perturbed() {
  const toks = DENSE.match(SPLIT);
  const at = (i, n, ...put) => { const t = toks.slice(); t.splice(i, n, ...put); return t.join(""); };
  for (let i = 0; i <= toks.length; ++i) for (const p of PIECES) {
    yield at(i, 0, p);
    if (i < toks.length) yield at(i, 1, p);
  }
  for (let i = 0; i < toks.length; ++i) {
    yield at(i, 1);
    yield at(i, 2);
    yield at(i, 1, toks[i], toks[i]);
    if (i + 1 < toks.length) yield at(i, 2, toks[i + 1], toks[i]);
    for (const n of [50, 300, 1500, 5000, 70000]) if (/^[ \t\r\n]/.test(toks[i]) || /^[A-Za-z]/.test(toks[i])) yield at(i, 1, toks[i].repeat(n));
    for (const n of [50, 300, 1500, 5000, 70000]) for (const w of [" ", "\n", "\r\n", "#" + "c".repeat(n) + "\n"]) yield at(i, 0, w.length > n ? w : w.repeat(n));
  }
}
/** the dense schema with several changes */
function perturb(rng, n = rng.int(2, 4)) {
  const toks = DENSE.match(SPLIT);
  for (let k = 0; k < n; ++k) {
    const i = rng.int(0, toks.length), p = rng.pick(rng.bool(0.5) ? PIECES.slice(0, 7) : PIECES);
    rng.weighted([[5, () => toks.splice(i, 0, p)], [2, () => toks.splice(i, 1, p)], [1, () => toks.splice(i, 1)], [1, () => toks.splice(i, 0, toks[i] || "")], [1, () => toks.splice(i, 2, toks[i + 1] || "", toks[i] || "")]])();
  }
  return toks.join("");
}
/** Text without lone surrogates, which no Rust string can have. */
function clean(s) { return s.toWellFormed ? s.toWellFormed() : s; }
const ALIKE = [["uint8", "int16", "int32", "float"], ["uint16", "uint32", "string"]], LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
/** another text of the same length that differs in one letter or type */
function twin(rng, text) {
  if (rng.bool()) {
    const at = [...text.matchAll(/\b(u?int\d+|float|string)\b/g)], group = at.length ? rng.pick(at) : null, same = group && ALIKE.find((g) => g.includes(group[0]));
    if (same) return text.slice(0, group.index) + rng.pick(same.filter((t) => t !== group[0])) + text.slice(group.index + group[0].length);
  }
  // more often than not near the end
  const at = [...text.matchAll(/[A-Za-z]/g)].map((m) => m.index);
  if (!at.length) return text;
  const i = at[Math.floor(at.length * (rng.bool() ? rng.int(0, 999) / 1000 : 1 - rng.int(1, 200) / 1000))];
  return text.slice(0, i) + rng.pick([...LETTERS].filter((c) => c !== text[i])) + text.slice(i + 1);
}
module.exports = { mutate, twin, soup, perturbed, perturb, clean, TOKENS };
