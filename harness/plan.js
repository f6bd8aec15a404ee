"use strict";
const { Rng } = require("./lib/rng");
// Draw the parameters of a scenario of the given type
function makeSpec(type, seed, tier) {
    const r = new Rng("spec:" + seed);
    const spec = { type, n: r.pick([2, 3, 3, 3, 3, 4, 4, 5]), kind: r.pick(["ledger", "ledger", "ledger", "ledger", "math", "math", "long"]), net: r.pick(["fast", "normal", "normal", "slow", "busy"]), moves: r.range(5, 11) };
    if (r.bool(0.35)) spec.eager = Array.from({ length: spec.n }, () => r.bool(0.6));
    if (r.bool(0.25)) spec.skew = Array.from({ length: spec.n }, () => r.range(-20, 0) * 1000);
    spec.history = r.bool(0.4);
    if (type === "lossy") spec.net = "lossy";
    if (type === "noise") spec.noise = true;
    if (type === "honest") spec.noise = r.bool(0.3);
    if (type === "partition") { spec.net = r.pick(["fast", "normal"]); spec.moves = r.range(4, 7); }
    if (type === "silent") { spec.silent = Math.min(spec.n - 1, r.pick([1, 1, 1, 2, 2, 3])); spec.net = r.pick(["fast", "normal", "busy"]); }
    if (type === "byz") { spec.bad = Math.min(spec.n - 1, r.pick([1, 1, 1, 2])); }
    if (type === "offence") {
        spec.net = r.pick(["fast", "normal", "busy"]);
        spec.kindOf = r.pick(["doubleSign", "doubleSign", "doubleSignLater", "badState", "badState", "failingTx", "tsOld", "tsFuture", "wrongTurn", "wrongTurnIdle", "badStateOnChain", "doubleSignOnChain", "farFuture", "wrongTurnLater", "wrongTurnOnChain"]);
        if (spec.kindOf === "farFuture") spec.kind = "long"; // only there the drift the chain allows exceeds what a receiver tolerates
    }
    if (type === "attack") { spec.n = Math.max(3, spec.n); spec.net = r.pick(["fast", "normal"]); }
    if (type === "share") { spec.n = r.pick([3, 3, 4, 4, 5]); spec.net = r.pick(["fast", "fast", "normal"]); spec.picky = r.bool(0.5); spec.history = false; if (r.bool(0.3)) { spec.slowMs = r.pick([600, 1200]); spec.slowShare = r.pick([0.15, 0.3]); } if (r.bool(0.5)) spec.eager = Array.from({ length: spec.n }, () => r.bool(0.8)); }
    if (tier === "thorough" && r.bool(0.3)) spec.moves += r.range(5, 20);
    // some one-way links are much slower than the others: what refers to a block overtakes it
    if (["honest", "byz", "noise"].includes(type) && spec.net !== "slow" && r.bool(0.4)) {
        spec.slowMs = r.pick([600, 1200, 1800]);
        spec.slowShare = r.pick([0.15, 0.3]);
        if (spec.n < 4 && r.bool(0.7)) spec.n = r.pick([4, 4, 5]);
        spec.net = r.pick(["fast", "normal", "busy"]);
        spec.eager = Array.from({ length: spec.n }, () => r.bool(0.9));
    }
    if (["honest", "lossy", "byz", "noise", "silent", "partition"].includes(type) && r.bool(0.3)) spec.burst = true;
    if (["honest", "share"].includes(type) && r.bool(0.35)) spec.crowd = true;
    // the one that is told hears it before anybody else can tell it
    if (type === "share" && spec.picky && r.bool(0.45)) { spec.ahead = true; spec.n = Math.max(spec.n, r.pick([3, 4, 4, 5])); if (spec.eager) spec.eager = Array.from({ length: spec.n }, (_, i) => (i < spec.eager.length ? spec.eager[i] : true)); }
    return spec;
}
module.exports = { makeSpec };
