"use strict";
// Loads the real TypeScript sources of /repo/src into "realms". A realm is a private instance of all
// modules (so that static singletons such as Clock exist once per simulated participant) whose timers,
// Date and process-level event hooks are virtual. No source is modified: only type syntax is stripped.
const fs = require("fs");
const path = require("path");
const vm = require("vm");
const Module = require("module");
const { REPO } = require("./solc");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const repoRequire = Module.createRequire(path.join(REPO, "package.json"));

const compiled = new Map();
function compile(file) {
    let c = compiled.get(file);
    if (c) return c;
    const src = fs.readFileSync(file, "utf8");
    const out = esbuild.transformSync(src, {
        loader: "ts",
        format: "cjs",
        target: "es2020",
        sourcefile: file,
        sourcemap: false,
        tsconfigRaw: { compilerOptions: { useDefineForClassFields: false, target: "es2020", esModuleInterop: true } }
    }).code;
    c = new vm.Script(
        `(function(exports, require, module, __filename, __dirname, console, setTimeout, clearTimeout, setInterval, clearInterval, Date, process, Math){${out}\n})`,
        { filename: file }
    );
    compiled.set(file, c);
    return c;
}
function resolveTs(base) {
    for (const s of ["", ".ts", "/index.ts"]) {
        const p = base + s;
        if (fs.existsSync(p) && fs.statSync(p).isFile()) return p;
    }
    throw new Error("cannot resolve " + base);
}
// stand-ins for packages that cannot work here (no network) or are not installed
const STUBS = {
    "get-webrtc": {
        __esModule: true,
        default: { RTCPeerConnection: class { addEventListener() {} createDataChannel() { return { addEventListener() {} }; } } },
        RTCPeerConnection: class {}
    }
};
class StubSwarm {
    constructor() { this.l = {}; this.topics = []; }
    on(e, f) { (this.l[e] = this.l[e] || []).push(f); return this; }
    removeAllListeners() { this.l = {}; }
    join(t) { this.topics.push(t); return { flushed: async () => {} }; }
    leave(t) { this.topics = this.topics.filter((x) => x !== t); }
    emit(e, ...a) { for (const f of this.l[e] || []) f(...a); }
}
const quiet = { log() {}, info() {}, warn() {}, error() {}, trace() {}, debug() {}, table() {} };

let overrideHyperswarm = StubSwarm;
STUBS["hyperswarm"] = { __esModule: true, default: class { constructor() { return new overrideHyperswarm(); } } };
STUBS["@hyperswarm/dht-relay"] = { __esModule: true, default: class {} };
STUBS["@hyperswarm/dht-relay/ws"] = { __esModule: true, default: class {} };

function makeRealm(env = {}) {
    const cache = new Map();
    const con = env.console || quiet;
    const procView = env.process || new Proxy(process, { get: (t, k) => (k === "env" ? { ...t.env, DEBUG_LOCAL_TRANSPORT: undefined } : t[k]) });
    const globals = [
        con,
        env.setTimeout || setTimeout,
        env.clearTimeout || clearTimeout,
        env.setInterval || setInterval,
        env.clearInterval || clearInterval,
        env.Date || Date,
        procView,
        env.Math || Math
    ];
    function load(file) {
        let m = cache.get(file);
        if (m) return m.exports;
        m = { exports: {} };
        cache.set(file, m);
        const req = (id) => {
            if (/(^@|\/)typechain-types(\/|$)/.test(id)) return {};
            if (id.startsWith("@/")) return load(resolveTs(path.join(REPO, "src", id.slice(2))));
            if (id.startsWith(".")) return load(resolveTs(path.resolve(path.dirname(file), id)));
            if (STUBS[id]) return STUBS[id];
            return repoRequire(id);
        };
        compile(file).runInThisContext()(m.exports, req, m, file, path.dirname(file), ...globals);
        return m.exports;
    }
    return {
        load: (rel) => load(resolveTs(path.join(REPO, "src", rel))),
        modules: cache
    };
}
module.exports = { makeRealm, repoRequire, quiet, StubSwarm, STUBS };
