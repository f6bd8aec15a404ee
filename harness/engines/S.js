"use strict";
// Engine S: simulated channel lives (scenario.js) with monitors.
const { Chain } = require("../lib/chain");
const { Scenario } = require("../scenario");
const { makeSpec } = require("../plan");

// how often each scenario type is run for a property
const MIX = {
    C01: { byz: 3, attack: 3, partition: 1, lossy: 1, offence: 2 },
    C02: { byz: 4, noise: 2, attack: 2, offence: 1, honest: 1 },
    C03: { byz: 4, noise: 2, honest: 2, offence: 1, attack: 1 },
    C04: { noise: 6, byz: 3, lossy: 1 },
    C05: { honest: 3, lossy: 3, partition: 3 },
    C06: { honest: 5, lossy: 3, partition: 1, silent: 1 },
    C07: { offence: 8, byz: 1, attack: 1 },
    C08: { attack: 4, honest: 2, lossy: 2, silent: 2, partition: 1, byz: 1 },
    C17: { honest: 2, byz: 1, lossy: 1 },
    C21: { silent: 7, attack: 2, partition: 1 },
    C22: { offence: 5, attack: 4, byz: 1 },
    C24: { honest: 3, lossy: 2, byz: 2, offence: 2, silent: 1 },
    C28: { honest: 4, noise: 3, byz: 2, lossy: 2, silent: 1, offence: 1, partition: 1 },
    C30: { share: 1 },
    C25: { lossy: 3, honest: 3, silent: 2, partition: 2 }
};
// Interleave the types: a case list whose every prefix has about the right mixture
function cases(prop, n, seed, tier) {
    const m = MIX[prop];
    const types = Object.keys(m);
    const tot = types.reduce((a, t) => a + m[t], 0);
    const acc = Object.fromEntries(types.map((t) => [t, 0]));
    const cnt = {};
    const out = [];
    for (let i = 0; i < n; i++) {
        let best;
        for (const t of types) {
            acc[t] += m[t];
            if (best === undefined || acc[t] > acc[best]) best = t;
        }
        acc[best] -= tot;
        cnt[best] = (cnt[best] || 0) + 1;
        out.push({ type: best, seed: seed + ":" + best + ":" + cnt[best] });
    }
    return out;
}
let chain;
async function init() { chain = await Chain.create(); }
async function runCase(c, tier) {
    const spec = c.spec || makeSpec(c.type, c.seed, tier);
    const s = new Scenario(chain, c.seed, spec);
    const r = await s.run();
    return { ev: r.ev, sigs: [r.sig], nontrivial: r.nontrivial, viol: r.viol, sample: r.sample, spec, notes: s.notes.slice(0, 3).map(String), trace: c.trace ? r.trace : undefined };
}
module.exports = {
    cases, init, runCase, MIX, props: Object.keys(MIX), liveness: ["C04", "C05", "C17", "C21"],
    rule: "one case is one simulated channel life (2-5 real peers, real contracts, seeded schedule, network faults and adversary of the named type); it is non-trivial if at least one block was agreed, and distinct by its scenario type, application, size and the hash of the order of all delivered events",
    // cases per check on 8 cores
    budget: { quick: { n: 72, secs: 160 }, thorough: { n: 4000, secs: 1500 } }
};
