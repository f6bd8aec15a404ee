"use strict";
// C17: the lock against its model: one holder at a time, turns in the order of the requests, nobody left behind
const { simRealm } = require("./common");
async function mutex(run) {
    const { sim, realm } = simRealm(run);
    const { Mutex } = realm.load("utils");
    const r = run.rng, m = new Mutex();
    let holder = null, asked = 0, highest = 0;
    const workers = r.range(2, 8), ended = [];
    const pause = async (k) => { if (k === 1) await null; if (k === 2) await sim.sleep(r.int(30)); if (k === 3) for (let i = 0; i < r.int(5); i++) await null; };
    const section = async (w, depth) => {
        const id = ++asked;
        run.note("ask", w, id);
        await m.lock();
        run.count("turns");
        run.note("turn", w, id);
        run.check(holder === null, "mutex-overlap", () => `request ${id} got its turn while request ${holder} holds the lock`);
        run.check(id === highest + 1, "mutex-order", () => `request ${id} got its turn after request ${highest}`);
        highest = id;
        holder = id;
        try {
            await pause(r.int(4));
            run.check(holder === id, "mutex-overlap", "somebody else took the lock in between");
            if (r.bool(0.25)) throw new Error("fails");
        } finally {
            holder = null;
            m.unlock();
        }
    };
    const work = async (w) => {
        for (let i = 0; i < r.range(1, 6); i++) {
            await pause(r.int(4));
            if (r.bool(0.2)) await Promise.allSettled([section(w), section(w), section(w)]);
            else await section(w).catch(() => {});
        }
        ended.push(w);
    };
    const all = [];
    for (let w = 0; w < workers; w++) { const d = r.int(40); all.push(new Promise((ok, no) => sim.at(d, () => work(w).then(ok, no), "harness"))); }
    const o = await sim.wait(Promise.all(all), 1e6);
    run.check(o.ok, "mutex-blocked", () => `after everything was released, ${workers - ended.length} of ${workers} are still waiting` + (o.err ? " " + o.err.stack : ""));
    run.count("comparisons");
    // free again
    const last = await sim.wait(m.lock(), 1000);
    run.check(last.ok, "mutex-blocked", "the lock is not free after everybody released it");
}
module.exports = { mutex };
