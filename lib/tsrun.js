"use strict";
// Type-checks generated modules with the strict TypeScript compiler, and runs what it emits against the
// instrumented `packet` stand-in.
const ts = require("/opt/veriftools/node/node_modules/typescript");
const path = require("path");
const packet = require("./packet");

const OPTIONS = {
  strict: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10 || 2,
  lib: ["lib.es2020.d.ts"], types: [], noEmitOnError: false, skipLibCheck: true, skipDefaultLibCheck: true, removeComments: false, newLine: ts.NewLineKind.LineFeed,
};
const LIBDIR = path.dirname(ts.getDefaultLibFilePath(OPTIONS));
const cache = new Map();
function cached(name, text) {
  if (!cache.has(name)) cache.set(name, ts.createSourceFile(name, text, OPTIONS.target, true));
  return cache.get(name);
}

/** files: Map name -> text. Gives { program, checker, diagnostics(name), js(name) } */
function program(files) {
  const out = new Map();
  const own = new Map();
  const host = {
    getSourceFile: (name) => {
      if (files.has(name)) {
        if (!own.has(name)) own.set(name, ts.createSourceFile(name, files.get(name), OPTIONS.target, true));
        return own.get(name);
      }
      if (name === "/packet.d.ts") return cached(name, packet.DTS);
      if (name.startsWith(LIBDIR)) { const text = ts.sys.readFile(name); return text === undefined ? undefined : cached(name, text); }
      return undefined;
    },
    getDefaultLibFileName: (o) => path.join(LIBDIR, ts.getDefaultLibFileName(o)),
    getDefaultLibLocation: () => LIBDIR,
    writeFile: (name, text) => out.set(name, text),
    getCurrentDirectory: () => "/", getCanonicalFileName: (n) => n, useCaseSensitiveFileNames: () => true, getNewLine: () => "\n",
    fileExists: (n) => files.has(n) || n === "/packet.d.ts", readFile: (n) => files.get(n), directoryExists: () => true, getDirectories: () => [],
    resolveModuleNames: (names, from) => names.map((n) => {
      if (n === "packet") return { resolvedFileName: "/packet.d.ts", extension: ".d.ts", isExternalLibraryImport: false };
      const f = path.posix.join(path.posix.dirname(from), n) + ".ts";
      return files.has(f) ? { resolvedFileName: f, extension: ".ts" } : undefined;
    }),
  };
  const prog = ts.createProgram([...files.keys()], OPTIONS, host);
  return {
    program: prog,
    checker: prog.getTypeChecker(),
    file: (name) => prog.getSourceFile(name),
    diagnostics: (name) => {
      const sf = prog.getSourceFile(name);
      return [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)].map((d) => {
        const at = d.file && d.start !== undefined ? d.file.getLineAndCharacterOfPosition(d.start) : null;
        return { code: d.code, message: (at ? "line " + (at.line + 1) + ": " : "") + ts.flattenDiagnosticMessageText(d.messageText, " ") };
      });
    },
    globalDiagnostics: () => prog.getGlobalDiagnostics().concat(prog.getOptionsDiagnostics()).map((d) => ts.flattenDiagnosticMessageText(d.messageText, " ")),
    js: (name) => {
      const sf = prog.getSourceFile(name);
      const target = name.replace(/\.ts$/, ".js");
      if (!out.has(target)) prog.emit(sf);
      return out.get(target);
    },
  };
}

/** Runs an emitted CommonJS module. */
function load(js, require_) {
  const exports = {};
  const module = { exports };
  new Function("require", "exports", "module", js)((n) => {
    if (n === "packet") return packet;
    if (require_) return require_(n);
    throw new Error("unexpected import " + n);
  }, exports, module);
  return module.exports;
}
/**
 * Compiles generated modules together: modules[i] = {code, consumer?: text importing "./m"}.
 * Gives for each: {diagnostics, load(): exports, consumer(): exports of the consumer}
 */
function batch(modules) {
  const files = new Map();
  modules.forEach((m, i) => {
    files.set("/" + i + "/m.ts", m.code);
    if (m.consumer) files.set("/" + i + "/c.ts", m.consumer);
  });
  const p = program(files);
  return modules.map((m, i) => {
    const me = "/" + i + "/m.ts", it = "/" + i + "/c.ts";
    return {
      program: p, file: p.file(me),
      get diagnostics() { return p.diagnostics(me); },
      get consumerDiagnostics() { return p.diagnostics(it); },
      get js() { return p.js(me); },
      load: () => load(p.js(me)),
      loadConsumer: (mod) => load(p.js(it), () => mod),
    };
  });
}
module.exports = { ts, program, batch, load };
