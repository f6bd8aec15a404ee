"use strict";
const { Rng } = require("../lib/rng");
const { Sim } = require("../lib/sim");
const { makeRealm } = require("../lib/loader");
// What one component run observes and reports
class Run {
    constructor(prop, type, seed, chain) {
        this.prop = prop;
        this.type = type;
        this.seed = seed;
        this.chain = chain;
        this.rng = new Rng(seed);
        this.ev = {};
        this.viol = [];
        this.log = [];
        this.sigParts = [];
    }
    count(k, n = 1) { this.ev[k] = (this.ev[k] || 0) + n; }
    note(...a) { const s = a.map((x) => (typeof x === "string" ? x : show(x))).join(" "); this.sigParts.push(s); if (this.log.length < 3000) this.log.push(s); }
    violate(key, msg, props) {
        if (this.viol.some((v) => v.key === key)) return;
        this.log.push("!! " + key + " " + msg);
        this.viol.push({ props: props || [this.prop], key, msg: String(msg).slice(0, 1500) });
    }
    check(ok, key, msg) { this.count("comparisons"); if (!ok) this.violate(key, typeof msg === "function" ? msg() : msg); return ok; }
    same(got, want, key, msg) { const a = show(got), b = show(want); return this.check(a === b, key, () => `${msg}: got ${a.slice(0, 500)}, expected ${b.slice(0, 500)}`); }
    sig() {
        let h = 2166136261 >>> 0;
        for (const s of this.sigParts) for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619) >>> 0;
        return this.type + ":" + h.toString(16);
    }
}
function show(x) {
    return JSON.stringify(x, (k, v) => (typeof v === "bigint" ? v.toString() + "n" : v instanceof Set ? ["Set", ...[...v].map((y) => JSON.stringify(y) || String(y)).sort()] : v instanceof Map ? ["Map", ...v] : v instanceof Error ? "Error:" + v.message : v === undefined ? "undefined" : v)) || "undefined";
}
// A realm whose timers and clock are those of a simulation
function simRealm(run, startMs = 1700000000000) {
    const sim = new Sim(run.rng.fork("sched"), startMs);
    const realm = makeRealm(sim.env("r"));
    return { sim, realm };
}
module.exports = { Run, show, simRealm, Sim, Rng };
