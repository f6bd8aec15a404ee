"use strict";
// C20: the small building blocks against sequential models
const { simRealm, show } = require("./common");
const { ethers, WALLETS } = require("../lib/chain");

async function signatures(run) {
    const { realm } = simRealm(run);
    const { SignatureCollectionMap } = realm.load("utils");
    const r = run.rng, c = new SignatureCollectionMap(), model = new Map();
    const keys = ["k1", "k2", "0x" + "ab".repeat(r.range(0, 40)), "", "__proto__", "constructor"].slice(0, r.range(1, 6));
    const who = WALLETS.slice(0, r.range(1, 7)).map((w) => w.address);
    const n = r.range(10, 60);
    for (let i = 0; i < n; i++) {
        const k = r.pick(keys), op = r.int(20);
        run.count("operations");
        if (op < 11) {
            const v = { signerAddress: r.pick(who), signature: "0x" + r.int(1e9).toString(16) };
            run.note("insert", k, v.signerAddress, v.signature);
            c.tryInsert(k, { ...v });
            if (!model.has(k)) model.set(k, []);
            if (!model.get(k).some((x) => x.signerAddress === v.signerAddress)) model.get(k).push(v);
        } else if (op === 11) { run.note("remove", k); c.remove(k); model.delete(k); }
        else if (op === 12) { run.note("delete", k); run.same(c.delete(k), model.delete(k), "sigmap-delete", "SignatureCollectionMap.delete of a key"); }
        else if (op === 13 && r.bool(0.2)) { run.note("clear"); c.clear(); model.clear(); }
        else {
            const parts = r.shuffle(who).slice(0, r.range(0, who.length));
            const want = parts.every((p) => (model.get(k) || []).some((x) => x.signerAddress === p));
            run.note("everyone", k, parts, want);
            run.same(c.didEveryoneSign(k, parts), want, "sigmap-everyone", `SignatureCollectionMap.didEveryoneSign with ${show(model.get(k))} for ${parts}`);
        }
        for (const q of keys) {
            run.same((c.get(q) || []).map((x) => [x.signerAddress, x.signature]), (model.get(q) || []).map((x) => [x.signerAddress, x.signature]), "sigmap-entries", `signatures kept for key ${q}`);
            run.same(c.has(q), model.has(q), "sigmap-has", "SignatureCollectionMap.has " + q);
        }
        run.same(c.size(), model.size, "sigmap-size", "SignatureCollectionMap.size");
    }
    run.same(c.keys().slice().sort(), [...model.keys()].sort(), "sigmap-keys", "SignatureCollectionMap.keys");
    const flat = (m) => m.map(([k, v]) => k + show(v)).sort();
    run.same(flat(c.entries()), flat([...model]), "sigmap-all", "SignatureCollectionMap.entries");
    run.same(c.values().map(show).sort(), [...model.values()].map(show).sort(), "sigmap-all", "SignatureCollectionMap.values");
    const seen = [];
    c.forEach((v, k) => seen.push([k, v]));
    run.same(flat(seen), flat([...model]), "sigmap-all", "SignatureCollectionMap.forEach");
}
async function sets(run) {
    const { realm } = simRealm(run);
    const S = realm.load("utils/set");
    const r = run.rng;
    const pool = r.pick([() => r.int(8), () => r.pick(WALLETS).address, () => r.pick([0, "", "0", null, undefined, NaN, false, 1n, "1", 1])]);
    const list = () => Array.from({ length: r.range(0, 9) }, pool);
    const uniq = (a) => { const o = []; for (const x of a) if (!o.some((y) => Object.is(y, x))) o.push(x); return o; };
    const has = (a, x) => a.some((y) => Object.is(y, x));
    const eq = (got, want, key) => {
        const g = [...got];
        run.check(g.length === uniq(want).length && g.every((x) => has(want, x)) && uniq(g).length === g.length, key, () => `${key}: got ${show(g)}, expected ${show(uniq(want))}`);
    };
    for (let i = 0; i < 25; i++) {
        const a = list(), b = r.bool(0.3) ? r.shuffle(a).slice(0, r.range(0, a.length)) : list();
        const A = new Set(a), B = new Set(b);
        run.note(show(a), show(b));
        run.count("operations", 10);
        eq(S.union(A, B), [...a, ...b], "set-union");
        eq(S.intersection(A, B), a.filter((x) => has(b, x)), "set-intersection");
        eq(S.difference(A, B), a.filter((x) => !has(b, x)), "set-difference");
        eq(S.symmetricDifference(A, B), [...a.filter((x) => !has(b, x)), ...b.filter((x) => !has(a, x))], "set-symmetric-difference");
        run.same(S.isSubset(A, B), a.every((x) => has(b, x)), "set-subset", `isSubset ${show(a)} ${show(b)}`);
        run.same(S.isSuperset(A, B), b.every((x) => has(a, x)), "set-superset", `isSuperset ${show(a)} ${show(b)}`);
        eq(S.fromArray(a), a, "set-from-array");
        eq(S.toArray(A), a, "set-to-array");
        eq(S.stringSetFromArray(a), a.map(String), "set-string");
        const ex = new Set(b.map(String));
        run.same(S.excludeFromArray(a, ex), a.filter((x) => !ex.has(String(x))), "set-exclude", `excludeFromArray ${show(a)} ${show(b)}`);
        eq(A, a, "set-argument-changed");
        eq(B, b, "set-argument-changed");
    }
}
async function retries(run) {
    const { sim, realm } = simRealm(run);
    const { retry } = realm.load("utils/retry");
    const r = run.rng;
    for (let i = 0; i < 8; i++) {
        const max = r.range(0, 6), fails = r.range(0, max + 2);
        const cfg = { maxRetries: max };
        if (r.bool(0.7)) cfg.delayMs = r.pick([0, 1, 7, 100, 1500]);
        if (r.bool(0.5)) cfg.useExponentialBackoff = r.bool(0.7);
        if (r.bool(0.4)) cfg.backoffFactor = r.pick([1, 2, 3, 1.5]);
        const hook = [];
        if (r.bool(0.6)) cfg.onRetry = (n, e) => hook.push([n, e.message, sim.now]);
        const took = r.pick([0, 0, 30]), sync = r.bool(0.2);
        const calls = [];
        const t0 = sim.now;
        const fn = sync
            ? () => { calls.push(sim.now - t0); if (calls.length <= fails) throw new Error("e" + calls.length); return Promise.resolve("ok" + calls.length); }
            : async () => { calls.push(sim.now - t0); const k = calls.length; if (took) await sim.sleep(took); if (k <= fails) throw new Error("e" + k); return "ok" + k; };
        run.note("retry", show({ ...cfg, onRetry: !!cfg.onRetry }), fails, took, sync);
        run.count("operations");
        const out = await sim.wait(retry(fn, cfg), 10000000);
        // model
        const want = [], wantHook = [];
        let t = 0, res;
        for (let k = 1; ; k++) {
            want.push(t);
            t += sync ? 0 : took;
            if (k > fails) { res = "ok" + k; break; }
            if (k > max) { res = "e" + k; break; }
            if (cfg.onRetry) wantHook.push([k, "e" + k, t0 + t]);
            const d = cfg.delayMs || 0;
            if (d > 0) t += Math.floor(cfg.useExponentialBackoff ? d * Math.pow(cfg.backoffFactor === undefined ? 2 : cfg.backoffFactor, k - 1) : d);
        }
        run.check(!out.pending, "retry-hangs", "retry never ends");
        run.same(out.ok ? out.res : out.err && out.err.message, res, "retry-result", `retry ${show(cfg)} with ${fails} failures`);
        run.check(!!out.ok === fails <= max, "retry-verdict", `retry ${show(cfg)} with ${fails} failures: success=${!!out.ok}`);
        run.same(calls, want, "retry-calls", `times of the attempts, ${show(cfg)}, ${fails} failures`);
        run.same(hook, wantHook, "retry-hook", "calls of onRetry");
    }
}
async function barrier(run) {
    const { sim, realm } = simRealm(run);
    const { BarrierLocal } = realm.load("utils/BarrierLocal");
    const r = run.rng, b = r.bool(0.2) ? BarrierLocal.getInstance() : BarrierLocal.createNewInstance();
    let permits = 0, asked = 0;
    const passed = [], want = [], waiting = [];
    for (let i = 0; i < r.range(10, 60); i++) {
        run.count("operations");
        if (r.bool(0.5)) {
            const id = ++asked;
            run.note("pass", id);
            Promise.resolve(b.tryPass()).then(() => passed.push(id));
            if (permits > 0) { permits--; want.push(id); } else waiting.push(id);
        } else {
            run.note("allow");
            b.allowOne();
            if (waiting.length) want.push(waiting.shift()); else permits++;
        }
        if (r.bool(0.6)) { await sim.settle(); run.same(passed, want, "barrier-order", "who passed the barrier"); }
    }
    await sim.settle();
    run.same(passed, want, "barrier-order", "who passed the barrier");
    if (b !== BarrierLocal.getInstance()) run.check(BarrierLocal.getInstance() === BarrierLocal.getInstance() && BarrierLocal.createNewInstance() !== b, "barrier-instances", "barrier instances are shared");
}
async function tasks(run) {
    const { sim, realm } = simRealm(run);
    const { scheduleTask } = realm.load("utils/scheduler");
    const { subjectiveTimingFlag } = realm.load("utils/timestamp");
    const { ExecutionFlags } = realm.load("types");
    const r = run.rng, t0 = sim.now, want = new Map(), got = new Map();
    for (let i = 0; i < r.range(3, 15); i++) {
        const d = r.pick([0, 1, 5, 100, 1000, 60000]), at = r.int(3000), kind = r.int(5);
        run.note("task", d, at, kind);
        run.count("operations");
        want.set(i, at + Math.max(1, d));
        sim.at(at, () => scheduleTask(() => {
            got.set(i, got.has(i) ? "twice" : sim.now - t0);
            if (kind === 1) throw new Error("sync failure");
            if (kind === 2) return Promise.reject(new Error("async failure"));
            if (kind === 3) return sim.sleep(50).then(() => { throw new Error("late failure"); });
            if (kind === 4) return sim.sleep(70);
        }, d, r.bool() ? "task" + i : undefined), "harness");
    }
    await sim.run(200000);
    run.same([...got].sort((a, b) => a[0] - b[0]), [...want], "task-times", "tasks ran at");
    run.check(sim.errors.length === 0, "task-escapes", () => "an error of a scheduled task escaped: " + sim.errors[0].err);
    for (let i = 0; i < 60; i++) {
        const now = r.pick([0, 5, 10, 1700000000, 4294967296, 9007199254740991 - 100]);
        const ts = r.bool(0.7) ? now + r.range(-14, 14) : r.pick([0, 1, 1700000000, 9007199254740991, now]);
        const f = subjectiveTimingFlag(ts, now);
        const d = BigInt(ts) - BigInt(now);
        const w = d < -5n ? ExecutionFlags.NOT_ENOUGH_TIME : d > 10n ? ExecutionFlags.DISPUTE : ExecutionFlags.SUCCESS;
        run.count("operations");
        run.same(ExecutionFlags[f], ExecutionFlags[w], "timing-flag", `block at ${ts}, now ${now}`);
    }
}
async function clock(run) {
    const r = run.rng, skew = r.pick([0, 0, -1, -7, -3600, -100000, 1, 5, 40, 5000]);
    const start = 1700000000 + r.int(100000), lag = r.bool(0.3) ? r.range(1, 900) : 0;
    const { sim, realm } = simRealm(run, start * 1000 + r.int(1000));
    const Clock = realm.load("Clock").default;
    try { Clock.getTimeInSeconds(); run.violate("clock-uninitialised", "the clock answers before it was set"); } catch (e) {}
    for (let round = 0; round < r.range(1, 3); round++) {
        const height = r.pick([0, 1, 50, 99, 100, 101, 5000]), gap = r.pick([0, 1, 2, 12]);
        const base = Math.floor(sim.now / 1000) - skew, late = r.range(0, gap);
        const latest = base - late;
        const asked = [];
        const provider = { getBlock: async (n) => { asked.push(n); if (lag) await sim.sleep(lag); const k = n === "latest" ? height : Number(n); return { number: k, timestamp: latest - (height - k) * gap }; } };
        const hostAtStart = Math.floor(sim.now / 1000);
        const diff = latest - hostAtStart;
        const avg = height >= 100 ? gap : 0;
        if (avg && Math.abs(diff - 2 * avg) <= 1) continue; // on the edge
        const o = await sim.wait(Clock.init(provider), 100000);
        run.note("clock", skew, height, gap, late, lag, round);
        run.count("operations");
        if (!run.check(o.ok, "clock-init", () => "Clock.init failed: " + (o.err && o.err.stack))) return;
        // the host clock is followed, corrected to the chain's when that is known to be ahead (or nothing is known)
        const adj = !avg ? diff : diff > 2 * avg ? diff : 0;
        for (let i = 0; i < 5; i++) {
            const want = Math.floor(sim.now / 1000) + adj, got = Clock.getTimeInSeconds();
            run.check(Math.abs(got - want) <= (lag ? 2 : 0), "clock-value", () => `clock ${got}, expected ${want} (chain ${latest}, height ${height}, block time ${gap}, host ${hostAtStart})`);
            await sim.run(r.pick([1, 999, 1000, 61000]));
        }
    }
}
async function list(run) {
    const chain = run.chain, r = run.rng;
    const addr = await chain.deploy("DoubleLinkedList");
    const h = chain.contract("DoubleLinkedList", addr);
    const from = WALLETS[0].address, model = [], gone = [];
    const id = (i) => ethers.zeroPadValue(ethers.toBeHex(i + 1), 32);
    const n = r.range(8, 40);
    let next = 0;
    const grow = r.pick([0.4, 0.55, 0.7]);
    for (let i = 0; i < n; i++) {
        run.count("operations");
        if (!model.length || r.bool(grow)) {
            const x = gone.length && r.bool(0.4) ? gone.splice(r.int(gone.length), 1)[0] : id(next++);
            run.note("add", x.slice(-4));
            await h.tx(from, "addFront", [{ tableId: x }]);
            model.unshift(x);
        } else if (r.bool(0.3)) {
            run.note("front");
            await h.tx(from, "removeFront", []);
            gone.push(model.shift());
        } else {
            const k = r.int(model.length);
            run.note("remove", k);
            await h.tx(from, "removeNode", [model[k]]);
            gone.push(...model.splice(k, 1));
        }
        run.same(Number(await h.view("length")), model.length, "list-length", "length of the list");
        const got = [];
        for (let k = 0; k < model.length; k++) got.push((await h.view("getAtIndex", [k])).data.tableId);
        run.same(got, model, "list-order", "elements of the list by index");
        const links = [];
        for (const x of model) { const nd = await h.view("getNode", [x]); links.push([nd.uniquePtr, nd.data.tableId, nd.prev, nd.next]); }
        run.same(links, model.map((x, k) => [x, x, k ? model[k - 1] : ethers.ZeroHash, k + 1 < model.length ? model[k + 1] : ethers.ZeroHash]), "list-links", "nodes and links of the list");
        if (gone.length) { const nd = await h.view("getNode", [r.pick(gone)]); run.same(nd.uniquePtr, ethers.ZeroHash, "list-gone", "a removed node"); }
        let refused = false;
        try { await h.view("getAtIndex", [model.length + r.int(3)]); } catch (e) { refused = true; }
        run.check(refused, "list-bounds", "an index out of bounds is answered");
    }
}
module.exports = { signatures, sets, retries, barrier, tasks, clock, list };
