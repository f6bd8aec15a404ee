"use strict";
// Engine U: components of the client and the codecs under generated histories and inputs, judged online by models.
const { Chain } = require("../lib/chain");
const { Run } = require("../u/common");
const KINDS = {
    blocks: require("../u/blocks")
};
const optional = (n) => { try { require.resolve("../u/" + n); } catch (e) { return; } KINDS[n] = require("../u/" + n); };
["exec", "codec", "lock", "net", "agree", "judge", "duel"].forEach(optional);
// what is run for a property: [file, function, weight]
const MIX = {
    C01: [["agree", "history", 1]],
    C03: [["judge", "decisions", 1]],
    C04: [["judge", "decisions", 1]],
    C05: [["agree", "history", 2], ["judge", "decisions", 1]],
    C06: [["agree", "history", 1]],
    C07: [["agree", "history", 1], ["judge", "decisions", 1], ["judge", "proofs", 1], ["duel", "disputes", 2]],
    C08: [["agree", "history", 1], ["judge", "decisions", 1], ["duel", "disputes", 1]],
    C21: [["agree", "history", 1]],
    C22: [["agree", "history", 1], ["judge", "proofs", 1], ["judge", "decisions", 1], ["duel", "disputes", 3]],
    C15: [["exec", "transitions", 4], ["exec", "members", 2], ["exec", "concurrent", 2]],
    C29: [["exec", "admin", 1]],
    C16: [["codec", "structures", 4], ["codec", "proofs", 3], ["codec", "signing", 2], ["codec", "canonical", 2]],
    C17: [["lock", "mutex", 6], ["exec", "concurrent", 3]],
    C18: [["net", "handshakes", 6], ["net", "upgrade", 2]],
    C19: [["net", "calls", 5], ["net", "links", 3], ["net", "upgrade", 1]],
    C27: [["net", "joins", 1]],
    C20: [["blocks", "signatures", 2], ["blocks", "sets", 2], ["blocks", "retries", 2], ["blocks", "barrier", 1], ["blocks", "tasks", 2], ["blocks", "clock", 2], ["blocks", "list", 3]]
};
function cases(prop, n, seed) {
    const m = MIX[prop].filter(([f, k]) => KINDS[f] && KINDS[f][k]);
    const tot = m.reduce((a, x) => a + x[2], 0);
    const acc = m.map(() => 0), cnt = m.map(() => 0);
    const out = [];
    for (let i = 0; i < n; i++) {
        let b = 0;
        m.forEach((x, j) => { acc[j] += x[2]; if (acc[j] > acc[b]) b = j; });
        acc[b] -= tot;
        out.push({ prop, file: m[b][0], type: m[b][1], seed: `${seed}:U:${m[b][1]}:${++cnt[b]}` });
    }
    return out;
}
let chain;
async function init() { chain = await Chain.create(); }
async function runCase(c) {
    await chain.reset(false);
    const run = new Run(c.prop, c.type, c.seed, chain);
    const bad = [];
    const onUnhandled = (e) => bad.push(e);
    process.on("unhandledRejection", onUnhandled);
    try {
        await KINDS[c.file][c.type](run);
        await new Promise((r) => setImmediate(r));
        await new Promise((r) => setImmediate(r));
    } finally { process.removeListener("unhandledRejection", onUnhandled); }
    if (bad.length) run.violate("unhandled-rejection", "unhandled rejection: " + (bad[0] && bad[0].stack || bad[0]));
    run.count("component_runs_" + c.type);
    return { ev: run.ev, evals: 1, sigs: [run.sig()], nontrivial: (run.ev.comparisons || 0) > 0, viol: run.viol, sample: `${c.type} ${c.seed}: ${run.log.slice(0, 12).join("; ").slice(0, 500)}`, notes: [], trace: c.trace ? run.log : undefined };
}
module.exports = {
    cases, init, runCase, MIX, props: Object.keys(MIX), liveness: ["C17", "C18", "C19", "C20", "C27"],
    rule: "one case is one generated history (or batch of inputs) run through the real component and compared with its model after every step; distinct by the hash of the generated history",
    budget: { quick: { n: 700, secs: 30 }, thorough: { n: 20000, secs: 1200 } }
};
