"use strict";
// C03, C04, C05, C07, C08, C22: the decision a participant takes on a block or a confirmation (the real
// ValidationService on a real AgreementManager), for generated histories, block contents and times around every
// limit, against a model of the rules; and the proofs it builds and keeps (the real ProofManager).
const { simRealm, show } = require("./common");
const { ethers, WALLETS, T, enc, dec, keccak, signBytes, resign, oddHash } = require("../lib/world");

const CH = keccak(ethers.toUtf8Bytes("judge"));
const N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
const ZERO = ethers.ZeroAddress;
// a small deterministic application: the state is a turn, the participants and the last call
const encState = (s) => enc("tuple(uint256 turn,address[] parts,bytes last)", s);
const decState = (e) => { const d = dec("tuple(uint256 turn,address[] parts,bytes last)", e); return { turn: Number(d.turn), parts: [...d.parts], last: d.last }; };
const nextOf = (e) => { const s = decState(e); return s.parts.length ? s.parts[s.turn % s.parts.length] : ZERO; };
const step = (e, tx) => {
    const s = decState(e);
    const d = tx.body.data;
    if (d.startsWith("0x03")) return encState({ ...s, last: d }); // calls that anyone may make at any time
    if (d.startsWith("0x04")) return e;
    if (d.startsWith("0xff") || tx.header.participant !== nextOf(e)) return null;
    return encState({ turn: s.turn + (d.startsWith("0x02") ? 2 : 1), parts: s.parts, last: d });
};
class App {
    constructor(run) { this.state = "0x"; this.run = run; this.done = []; this.r = run.rng.fork("app"); }
    async pause() { for (let i = this.r.int(3); i > 0; i--) await null; }
    async stateTransition(tx) {
        await this.pause();
        const n = step(this.state, tx);
        const before = this.state;
        if (n) this.state = n;
        // a failed call may also have left something behind; the caller has to put the state back
        else if (this.r.bool(0.5)) this.state = encState({ ...decState(before), last: "0xdead" });
        return { success: !!n, successCallback: () => this.done.push(tx) };
    }
    async runView() { return undefined; }
    async getParticipants() { await this.pause(); return decState(this.state).parts; }
    async getNextToWrite() { await this.pause(); return nextOf(this.state); }
    async setState(s) { await this.pause(); this.state = s; }
    async getState() { await this.pause(); return this.state; }
}
async function setup(run, startMs) {
    const { sim, realm } = simRealm(run, startMs);
    const AM = realm.load("agreementManager");
    const am = new (AM.default || AM)();
    // the chain's clock is the participant's own
    const o = await sim.wait(realm.load("Clock").default.init({ getBlock: async () => ({ number: 3, timestamp: Math.floor(sim.now / 1000) }) }), 100000);
    if (!o.ok) throw o.err || new Error("no clock");
    return { sim, realm, am };
}
const one = (realm, p) => { const m = realm.load(p); return m.default || m; };
async function decisions(run) {
    const r = run.rng;
    const { sim, realm, am } = await setup(run);
    const FL = realm.load("types").ExecutionFlags, AF = realm.load("types").AgreementFlag;
    const VS = one(realm, "stateManager/ValidationService");
    const app = new App(run);
    const nW = r.range(2, 5);
    const W = WALLETS.slice(0, nW), OUT = WALLETS.slice(10, 12), all = [...W, ...OUT];
    const by = (a) => all.find((w) => w.address === a);
    const me = W[0].address;
    const p2p = r.pick([3, 7, 15, 40]);
    const disputed = new Set();
    const filed = [];
    const forks = []; // model
    let posts = []; // calldata posted on the chain {f,h,t}; the participant knows those it collected
    const onChain = (f, h) => posts.filter((p) => p.f === f && p.h <= h).reduce((a, p) => Math.max(a, p.t), forks[f] ? forks[f].time : 0);
    let asked = 0;
    const dh = {
        isForkDisputed: (f) => disputed.has(Number(f)),
        createDispute: async (...a) => { filed.push(a); }, disputeFoldRechallenge: async () => {}, setForkDisputed: (f) => disputed.add(Number(f))
    };
    const scm = { getChainLatestBlockTimestamp: async (ch, f, h) => { asked++; await null; return BigInt(onChain(Number(f), Number(h))); } };
    const now = () => Math.floor(sim.now / 1000);
    // collaborators are stand-ins with what the decision needs; code that needs more of them is not judged here
    let unsupported = false;
    const stand = (o) => new Proxy(o, { get: (t, k) => { if (typeof k === "string" && !(k in t) && k !== "then") { unsupported = true; run.count("unsupported_" + k); } return t[k]; } });
    const vs = new VS(am, stand(app), stand(dh), stand(scm), { p2pTime: p2p, agreementTime: 4, chainFallbackTime: 6, challengeTime: 10 }, () => CH, me, (sb, b) => vs.validateSignedBlock(sb, b).then((x) => x.flag));
    const queued = new Set(), slots = new Set();
    // one block of an author is queued per height: what becomes of a second one is not judged here
    const free = (x) => { const k = `${x.f}/${x.h}/${x.by}`; if (slots.has(k)) return false; slots.add(k); return true; };
    const lf = () => forks.length - 1;
    const cur = () => forks[lf()];
    const last = (k) => k.blocks[k.blocks.length - 1];
    const top = (k) => (k.blocks.length ? last(k).state : k.genesis);
    const chainTs = (k) => Math.max(k.time, ...k.blocks.map((b) => b.ts).slice(-1));
    const refTs = (k, f, h) => Math.max(chainTs(k), ...posts.filter((p) => p.known && p.f === f && p.h <= h).map((p) => p.t));
    const CLASS = { SUCCESS: "accept", NOT_READY: "later", DUPLICATE: "ignore", PAST_FORK: "ignore", DISCONNECT: "disconnect", DISPUTE: "dispute", TIMESTAMP_IN_FUTURE: "wait", NOT_ENOUGH_TIME: "wait" };
    // the rules
    const judge = (x, sb, openTime) => {
        if (!forks.length) return ["later"];
        if (x.ch !== CH || !x.canonical || !x.goodSig) return ["disconnect"];
        if (x.f < lf() || disputed.has(x.f)) return ["ignore"];
        const k = forks[x.f];
        const a = k && k.blocks[x.h];
        if ((a && a.e === x.e) || queued.has(x.e)) return ["ignore"];
        if (x.f > lf() || x.h > cur().blocks.length) return ["later"];
        if (!cur().parts.includes(x.by)) return ["disconnect"];
        if (x.h < cur().blocks.length) return ["dispute", a.by === x.by ? "DOUBLE_SIGN" : "INCORRECT_DATA"];
        if (x.ts < chainTs(k)) return ["dispute", "INCORRECT_DATA", "time"];
        const lim = refTs(k, x.f, x.h) + p2p;
        if (x.ts > lim && x.ts > Math.max(refTs(k, x.f, x.h), onChain(x.f, x.h)) + p2p) return ["dispute", "INCORRECT_DATA", "time"];
        if (nextOf(top(k)) === me) {
            const d = openTime - x.ts;
            if (d > 5) return ["wait"];
            if (d < -10) return ["dispute", undefined, "future"];
        }
        if (x.by !== nextOf(top(k))) return ["dispute", "INCORRECT_DATA"];
        const n = step(top(k), x.block.transaction);
        if (!n || keccak(n) !== x.stateHash || keccak(top(k)) !== x.prev) return ["dispute", "INCORRECT_DATA"];
        return ["accept"];
    };
    const mk = (o = {}) => {
        const f = o.f !== undefined ? o.f : lf();
        const k = forks[f];
        const h = o.h !== undefined ? o.h : k ? k.blocks.length : r.int(3);
        const base = k ? (h === 0 ? k.genesis : k.blocks[h - 1] ? k.blocks[h - 1].state : top(k)) : encState({ turn: 0, parts: [me], last: "0x" });
        const who = o.by || nextOf(base);
        const data = o.data || r.pick(["0x01", "0x01", "0x01", "0x01", "0x01", "0x01", "0x01", "0x02", "0x02", r.bool(0.5) ? "0x03" : "0x04"]) + r.bytes(r.int(4)).slice(2);
        const lo = k ? chainTs(k) : now();
        const ts = o.ts !== undefined ? o.ts : Math.max(lo, Math.min(now(), lo + p2p));
        const tx = { header: { channelId: o.ch || CH, participant: who, forkCnt: f, transactionCnt: h, timestamp: ts }, body: { transactionType: 0, encodedData: "0x", data } };
        const st = o.state || step(base, tx) || encState({ ...decState(base), last: data });
        const block = { transaction: tx, stateHash: o.stateHash || keccak(st), previousStateHash: o.prev || keccak(base) };
        const e = enc(T.block, block);
        return { ch: tx.header.channelId, f, h, by: who, ts, block, e, canonical: true, goodSig: true, stateHash: block.stateHash, prev: block.previousStateHash, state: st, sigs: new Set([who]) };
    };
    const signed = (x) => ({ encodedBlock: x.e, signature: by(x.by) ? signBytes(by(x.by), x.e) : "0x" + "11".repeat(64) + "1b" });
    const malleable = (s) => { const q = ethers.Signature.from(s); return q.r + (N - BigInt(q.s)).toString(16).padStart(64, "0") + (q.v === 27 ? "1c" : "1b"); };
    const near = (k) => [keccak(top(k)), ...forks.map((q) => keccak(q.genesis)), ...forks.slice(0, -1).map((q) => keccak(top(q))), ...k.blocks.slice(-2).flatMap((b) => [b.prev, keccak(b.e)])];
    const rival = () => {
        const k = cur();
        const lo = chainTs(k), h = k.blocks.length, ref = refTs(k, lf(), h), ch = Math.max(ref, onChain(lf(), h));
        const around = (t) => t + r.pick([-1, 0, 0, 1, 1, 2]);
        switch (r.pick(["valid", "valid", "valid", "valid", "time", "time", "time", "time", "clock", "clock", "author", "turn", "outsider", "state", "prev", "fail", "past", "past", "ahead", "fork", "channel", "dup", "sig", "early", "calldata"])) {
            case "time": return mk({ ts: around(r.pick([lo, lo, ref + p2p, ref + p2p, ch + p2p, ch + p2p, k.time + p2p])) });
            case "clock": return mk({ ts: now() + r.pick([-7, -6, -5, -4, 9, 10, 11, 12]) });
            case "author": return mk({ by: r.pick(k.parts) });
            case "outsider": return mk({ by: r.pick(OUT).address, h: r.bool() ? undefined : r.int(h + 2) });
            case "state": return mk({ stateHash: oddHash(r, near(k)) });
            case "prev": return mk({ prev: r.bool(0.4) && h > 1 ? keccak(k.blocks[h - 2].state) : oddHash(r, near(k)) });
            case "fail": return mk({ data: "0xff" + r.bytes(2).slice(2), state: r.pick([top(k), encState({ ...decState(top(k)), last: "0xdead" }), undefined]) });
            case "turn": return r.bool(0.5) ? mk({ by: r.pick(k.parts), data: r.pick(["0x03", "0x04"]) + r.bytes(r.int(3)).slice(2) }) : mk({ by: r.pick(k.parts), state: top(k) });
            case "past": { if (!h) return mk(); const q = k.blocks[r.int(h)]; return mk({ h: q.h, by: r.bool(0.6) ? q.by : r.pick(k.parts), ts: q.ts + r.int(3) }); }
            case "ahead": return mk({ h: h + r.range(1, 3), by: r.pick(k.parts) });
            case "fork": return mk({ f: r.int(forks.length + 2), by: r.pick(k.parts) });
            case "channel": return mk({ ch: keccak(r.bytes(4)) });
            case "dup": return h ? Object.assign(Object.create(Object.prototype), r.pick(k.blocks)) : mk();
            case "calldata": return mk({ ts: Math.max(lo, ref) + r.int(p2p + 2) });
            default: return mk();
        }
    };
    const newFork = () => {
        const parts = r.shuffle(W).slice(0, r.range(r.bool(0.9) ? 2 : 1, nW)).map((w) => w.address);
        const g = encState({ turn: r.int(5), parts, last: "0x" });
        const k = { genesis: g, parts, time: now(), blocks: [] };
        am.newFork(g, parts.slice(), forks.length, k.time);
        forks.push(k);
        app.state = g;
        run.note("fork", parts.length, k.time);
    };
    const before = () => show([forks.map((k, f) => [am.getNextBlockHeight(), k.blocks.map((b, h) => [norm(am.getBlock(f, h)), am.getSigantures(b.block).map(String).sort(), am.getEncodedState(f, h)]), norm(am.getBlock(f, k.blocks.length))]), app.state]);
    const norm = (b) => (b ? enc(T.block, b) : undefined);
    const ops = r.range(30, 80);
    for (let i = 0; i < ops; i++) {
        const adv = r.bool(0.85) ? r.int(2) : r.int(p2p + 6);
        if (adv) await sim.run(adv * 1000);
        const op = i === 1 ? "fork" : r.pick(["block", "block", "block", "block", "block", "block", "confirm", "confirm", "confirm", "post", "fork", "disputed", "queue"]);
        run.count("operations");
        if (op === "fork") { if (!forks.length || r.bool(0.25)) newFork(); continue; }
        if (op === "disputed" && forks.length) { if (r.bool(0.15)) { disputed.add(lf()); run.note("disputed", lf()); } continue; }
        if (op === "post" && forks.length) {
            // calldata appears on the chain; the participant may not know it yet
            const k = cur();
            const x = k.blocks.length && r.bool(0.6) ? r.pick(k.blocks) : r.bool(0.2) ? mk({ h: k.blocks.length + r.range(1, 2), by: r.pick(k.parts) }) : undefined;
            if (!x) continue;
            const t = now() + r.int(2), known = r.bool(0.5);
            run.note("post", x.f, x.h, t, known);
            if (!posts.some((p) => p.f === x.f && p.h === x.h && p.by === x.by)) {
                const collected = known && (x.h < k.blocks.length || free(x));
                if (collected) { const fl = am.collectOnChainBlock(signed(x), t); if (AF[fl] === "READY" || AF[fl] === "NOT_READY") queued.add(x.e); }
                posts.push({ f: x.f, h: x.h, by: x.by, t, known: collected });
            }
            continue;
        }
        if (!forks.length && op !== "block" && op !== "confirm") continue;
        if (op === "queue") { const k = cur(); const x = mk({ h: k.blocks.length + r.int(2), by: r.pick(k.parts) }); if ((x.h === k.blocks.length && r.bool(0.7)) || !free(x)) continue; am.queueBlock(signed(x)); queued.add(x.e); run.note("queue", x.h); continue; }
        const x = forks.length ? rival() : mk({ f: 0, h: 0, by: r.pick(W).address });
        let sb = x.sb || signed(x);
        const defect = r.bool(0.12) ? r.pick(["sigOther", "sigMalleable", "sigCompact", "trailing", "case"]) : undefined;
        const y = { ...x };
        if (defect === "sigOther") { sb = { ...sb, signature: signBytes(r.pick(all.filter((w) => w.address !== x.by)), x.e) }; y.goodSig = false; }
        else if (defect === "sigMalleable") { sb = { ...sb, signature: malleable(sb.signature) }; y.goodSig = false; }
        else if (defect === "sigCompact") { sb = { ...sb, signature: ethers.Signature.from(sb.signature).compactSerialized }; y.goodSig = false; }
        else if (defect === "trailing") { y.e = x.e + "00".repeat(32); sb = { encodedBlock: y.e, signature: signBytes(by(x.by), y.e) }; y.canonical = false; }
        const pre = forks.length ? before() : "";
        const nf = filed.length, nd = app.done.length, q0 = asked;
        void q0;
        if (op === "block") {
            const want = judge(y, sb, now());
            run.note("block", y.f, y.h, y.by, y.ts, defect || "", want);
            run.count("judged_" + want[0]);
            const res = await safe(() => vs.validateSignedBlock(sb, r.bool(0.5) && !defect ? realm.load("utils").EvmUtils.decodeBlock(sb.encodedBlock) : undefined));
            compare(y, want, res, filed.length - nf);
            settle(y, sb, want[0] === "accept", pre, nd);
        } else if (op === "confirm") {
            // a confirmation of it by someone
            const w = r.bool(0.85) && forks.length ? by(r.pick(cur().parts)) : r.pick(all);
            let cs = r.bool(0.9) ? signBytes(w, y.e) : resign(w, y.e, r.int(100));
            let csOk = true;
            if (r.bool(0.08)) { cs = malleable(cs); csOk = false; }
            let want;
            let added = false;
            if (!forks.length) want = ["later"];
            else if (y.ch !== CH || !y.canonical || !y.goodSig) want = ["disconnect"];
            else if (y.f < lf()) want = ["ignore"];
            else {
                const a = forks[y.f] && forks[y.f].blocks[y.h];
                let on = !!a && a.e === y.e;
                if (!on) {
                    want = judge(y, sb, now());
                    // kept for later: its confirmation is kept as well
                    if (want[0] === "ignore" && queued.has(y.e) && !disputed.has(y.f)) want = ["later"];
                    if (want[0] === "accept") { added = true; on = true; want = undefined; }
                }
                if (on) {
                    if (!csOk) want = ["disconnect"];
                    else if (!forks[lf()].parts.includes(w.address)) want = ["disconnect"];
                    else if (added ? w.address === y.by : a.sigs.has(w.address)) want = ["ignore"];
                    else want = ["accept"];
                }
            }
            run.note("confirm", y.f, y.h, y.by, y.ts, defect || "", w.address, csOk, want, added);
            run.count("confirm_judged_" + want[0]);
            const res = await safe(() => vs.validateBlockConfirmation(sb, cs, undefined));
            compare(y, want, res, filed.length - nf, true);
            settle(y, sb, added, pre, nd);
            if (res.success && want[0] === "accept") {
                const a = forks[y.f].blocks[y.h];
                a.sigs.add(w.address);
                am.confirmBlock(a.block, cs);
            }
        }
        if (unsupported) { run.viol = []; return; }
        if (run.viol.length) return;
    }
    // what cannot be read is refused with an error
    async function safe(fn) { try { return await fn(); } catch (e) { run.count("refused_with_error"); return { success: false, flag: FL.DISCONNECT, error: e }; } }
    function compare(x, want, res, nFiled, conf) {
        const got = CLASS[FL[res.flag]];
        run.count("comparisons");
        const about = `${conf ? "confirmation of " : ""}block ${x.f}/${x.h} by ${x.by === me ? "this participant" : x.by.slice(0, 8)}, time ${x.ts}: decided ${res.error ? res.error.message : FL[res.flag]}${res.agreementFlag !== undefined ? "/" + AF[res.agreementFlag] : ""}, expected ${want.join("/")} (next ${forks.length ? nextOf(top(cur())).slice(0, 8) : "-"}, height ${forks.length ? cur().blocks.length : "-"}, time of the chain ${forks.length ? chainTs(cur()) : "-"}, limit ${forks.length ? refTs(cur(), lf(), x.h) + p2p : "-"} or ${onChain(lf(), x.h) + p2p}, now ${now()})`;
        if (got !== want[0] || res.success !== (want[0] === "accept")) {
            const props = got === "accept" ? ["C03", "C04"] : got === "dispute" ? ["C08", "C07", ...(want[0] === "accept" ? ["C05"] : [])] : want[0] === "dispute" ? ["C22", "C07"] : got === "later" || want[0] === "later" ? ["C05"] : ["C05", "C04"];
            run.violate("judge-" + got + "-not-" + want[0], about, props);
            return;
        }
        if (!conf && want[0] === "dispute" && want[1] && AF[res.agreementFlag] !== want[1]) run.violate("judge-offence", about, ["C07", "C22"]);
        if ((want[2] === "future") !== (nFiled > 0)) run.violate("judge-future", `${about}; disputes filed directly: ${nFiled}`, ["C07", "C08", "C22"]);
    }
    function settle(x, sb, added, pre, nd) {
        if (!forks.length) return;
        if (!added) {
            run.count("comparisons");
            if (before() !== pre) run.violate("judge-trace", `a refused block ${x.f}/${x.h} changed the agreed chain or the local state`, ["C04"]);
            if (app.done.length !== nd) run.violate("judge-events", `events of a refused block ${x.f}/${x.h} are announced`, ["C24", "C04"]);
            return;
        }
        const k = cur();
        const st = step(top(k), x.block.transaction);
        k.blocks.push({ ...x, state: st, sigs: new Set([x.by]), sb });
        run.count("blocks_added");
        run.count("comparisons");
        const h = x.h;
        if (norm(am.getBlock(x.f, h)) !== x.e || am.getEncodedState(x.f, h) !== st || app.state !== st || show(am.getSigantures(x.block).map(String)) !== show([sb.signature])) run.violate("judge-added", `after accepting ${x.f}/${h} the agreed block, its state or its signature differ from what was accepted`, ["C03", "C01"]);
        if (app.done.length !== nd + 1) run.violate("judge-events", `accepting ${x.f}/${h} announces the events of ${app.done.length - nd} transactions`, ["C24"]);
    }
}
// Proofs built from a history, and which of the proofs kept are worth sending against a dispute
async function proofs(run) {
    const r = run.rng;
    const { sim, realm, am } = await setup(run);
    const PM = one(realm, "ProofManager");
    const PT = realm.load("types/disputes").ProofType;
    const pm = new PM(am);
    const nW = r.range(2, 5);
    const W = WALLETS.slice(0, nW), all = WALLETS.slice(0, nW + 1);
    const by = (a) => all.find((w) => w.address === a);
    const now = () => Math.floor(sim.now / 1000);
    const forks = [];
    const N_ = r.range(1, 3);
    const mk = (f, h, o = {}) => {
        const k = forks[f];
        const prev = o.prev || (h === 0 ? keccak(k.genesis) : k.blocks[h - 1].stateHash);
        const state = r.bytes(r.range(1, 9));
        const who = o.by || r.pick(k.parts);
        const block = { transaction: { header: { channelId: CH, participant: who, forkCnt: f, transactionCnt: h, timestamp: o.ts !== undefined ? o.ts : now() + r.range(-3, 3) }, body: { transactionType: 0, encodedData: "0x", data: r.bytes(r.int(5)) } }, stateHash: keccak(state), previousStateHash: prev };
        const e = enc(T.block, block);
        return { f, h, by: who, block, e, state, stateHash: block.stateHash, prev, ts: block.transaction.header.timestamp, sigs: new Map([[who, signBytes(by(who), e)]]) };
    };
    const sb = (x) => ({ encodedBlock: x.e, signature: x.sigs.get(x.by) });
    for (let f = 0; f < N_; f++) {
        const k = { genesis: r.bytes(r.range(1, 20)), parts: r.shuffle(W).slice(0, r.range(1, nW)).map((w) => w.address), blocks: [] };
        forks.push(k);
        am.newFork(k.genesis, k.parts.slice(), f, now());
        for (let h = 0, n = r.int(7); h < n; h++) {
            const x = mk(f, h);
            am.addBlock(x.block, x.sigs.get(x.by), x.state);
            const p = r.pick([0.3, 0.7, 1]);
            for (const a of k.parts) if (a !== x.by && r.bool(p)) { const s = signBytes(by(a), x.e); x.sigs.set(a, s); am.confirmBlock(x.block, s); }
            k.blocks.push(x);
        }
    }
    run.note("history", forks.map((k) => [k.parts.length, k.blocks.map((b) => b.sigs.size)]));
    const D = (name, p) => dec(T.proof[name][1], p.encodedProof);
    const eq = (props, key, got, want, msg) => { run.count("comparisons"); if (show(got) !== show(want)) run.violate("proof-" + key, `${msg}: got ${show(got).slice(0, 400)}, expected ${show(want).slice(0, 400)}`, props); };
    const plainSb = (q) => [q.encodedBlock, q.signature];
    const made = [];
    for (let i = 0; i < 14; i++) {
        const f = r.int(forks.length), k = forks[f];
        switch (r.pick(["double", "double", "incorrect", "incorrect", "newer", "newer", "fold", "fold"])) {
            case "double": {
                const list = [];
                const want = [];
                for (let j = r.range(1, 3); j > 0 && k.blocks.length; j--) {
                    const a = r.pick(k.blocks);
                    const x = r.bool(0.15) ? a : mk(f, a.h, { by: r.bool(0.8) ? a.by : r.pick(k.parts), prev: a.prev });
                    list.push(x);
                    if (x.e !== a.e && x.by === a.by) want.push([plainSb(sb(x)), [a.e, a.sigs.get(a.by)]]);
                }
                if (!list.length) break;
                const p = pm.createDoubleSignProof(list.map(sb));
                eq(["C07", "C22"], "double", [PT[p.proofType], [...D("DoubleSign", p).doubleSigns].map((d) => [plainSb(d.block1), plainSb(d.block2)])], ["DoubleSign", want], "double sign proof");
                run.count("proofs_built");
                if (want.length) made.push({ kind: "DoubleSign", p, who: list.filter((x) => k.blocks[x.h].e !== x.e && k.blocks[x.h].by === x.by).map((x) => x.by) });
                break;
            }
            case "incorrect": {
                const h = r.int(k.blocks.length + 1);
                const x = mk(f, h, { prev: r.bool(0.2) ? oddHash(r, [keccak(k.genesis), ...k.blocks.slice(-2).map((b) => b.stateHash)]) : undefined });
                const p = pm.createIncorrectDataProof(sb(x));
                const v = D("IncorrectData", p);
                const want = h === 0 ? [null, plainSb(sb(x)), k.genesis] : [plainSb(sb(k.blocks[h - 1])), plainSb(sb(x)), k.blocks[h - 1].state];
                eq(["C07", "C22"], "incorrect", [h === 0 ? null : plainSb(v.block1), plainSb(v.block2), v.encodedState], want, `incorrect data proof at height ${h}`);
                eq(["C07", "C08"], "linked", PM.isIncorrectDataLinked(p), x.prev === keccak(want[2]), "the disputed block builds on the state shown");
                run.count("proofs_built");
                made.push({ kind: "IncorrectData", p, who: [x.by] });
                break;
            }
            case "newer": {
                const a = r.pick(all).address, c = r.range(-1, 6);
                const p = pm.createNewerStateProof(f, a, c);
                const l = k.blocks.filter((b) => b.sigs.has(a)).pop();
                const want = l && l.h > c ? [l.e, l.sigs.get(a)] : undefined;
                const v = p && D("NewerState", p);
                eq(["C07", "C22"], "newer", v && [v.encodedBlock, v.confirmationSignature], want, `newer state proof against ${a} who shows height ${c}`);
                run.count("proofs_built");
                if (want && p) made.push({ kind: "NewerState", p, who: [a], h: l.h });
                break;
            }
            case "fold": {
                const h = r.int(k.blocks.length + 2);
                const p = pm.createFoldRechallengeProof(f, h);
                const b = k.blocks[h];
                const want = b && k.parts.every((a) => b.sigs.has(a)) ? [b.e, [...b.sigs.values()].sort()] : undefined;
                const v = p && D("FoldRechallenge", p);
                eq(["C07", "C22", "C08"], "fold", v && [v.encodedBlock, [...v.signatures].sort()], want, `proof that ${f}/${h} was written`);
                run.count("proofs_built");
                if (want && p) made.push({ kind: "FoldRechallenge", p, who: [b.by], h });
                break;
            }
        }
    }
    for (let i = 0; i < 2; i++) { const k = r.pick(forks); const x = mk(k.blocks.length ? forks.indexOf(k) : forks.indexOf(k), 0, { ts: now() + r.pick([-5, -1, 0, 1, 2, 30]) }); made.push({ kind: "BlockTooFarInFuture", p: PM.createBlockTooFarInFutureProof(sb(x)), who: [x.by], ts: x.ts }); }
    // a proof that names several offenders, on hand-made pairs
    for (let i = 0; i < 2; i++) {
        const k = r.pick(forks), f = forks.indexOf(k);
        const who = r.shuffle(k.parts).slice(0, r.range(1, 3));
        const pairs = who.map((a) => { const x = mk(f, 0, { by: a }), y = mk(f, 0, { by: a }); return { block1: sb(x), block2: sb(y) }; });
        made.push({ kind: "DoubleSign", p: { proofType: PT.DoubleSign, encodedProof: enc(T.proof.DoubleSign[1], { doubleSigns: pairs }) }, who });
    }
    for (let i = 0; i < 8; i++) {
        const k = r.pick(forks);
        const slashed = r.shuffle(W).slice(0, r.int(nW + 1)).map((w) => w.address);
        const votes = k.blocks.slice(0, r.int(k.blocks.length + 1)).map((b) => ({ encodedBlock: b.e, signatures: [...b.sigs.values()] }));
        const vh = votes.length - 1;
        const fold = r.bool(0.6);
        const fr = r.pick(made);
        const d = { slashedParticipants: slashed, virtualVotingBlocks: votes, postedStateDisputer: r.pick(all).address, timedoutParticipant: fold ? (r.bool(0.6) ? fr.who[0] : r.pick(W).address) : ZERO, foldedTransactionCnt: fold ? (r.bool(0.6) && fr.h !== undefined ? fr.h : r.int(6)) : 0, forkCnt: forks.indexOf(k) };
        for (const n of ["foldedTransactionCnt", "forkCnt"]) if (r.bool(0.6)) d[n] = BigInt(d[n]);
        const worth = (m) => {
            switch (m.kind) {
                case "DoubleSign": return m.who.some((a) => !slashed.includes(a));
                case "IncorrectData": return !slashed.includes(m.who[0]);
                case "NewerState": return m.who[0] === d.postedStateDisputer && !slashed.includes(m.who[0]) && m.h > vh;
                case "FoldRechallenge": return m.who[0] === d.timedoutParticipant && m.h === Number(d.foldedTransactionCnt);
                case "BlockTooFarInFuture": return m.ts > now() && !slashed.includes(m.who[0]);
            }
        };
        const sub = made.filter(() => r.bool(0.8));
        const got = new Set(PM.filterValidProofs(d, sub.map((m) => m.p)));
        run.note("filter", slashed.length, vh, sub.map((m) => m.kind[0]).join(""));
        for (const m of sub) {
            run.count("comparisons");
            run.count("proofs_filtered");
            const w = worth(m), g = [...got].some((p) => p.proofType === m.p.proofType && p.encodedProof === m.p.encodedProof);
            if (w !== g) run.violate(w ? "proof-dropped" : "proof-useless", `${m.kind} proof against ${m.who.map((a) => a.slice(0, 8))} is ${g ? "kept" : "dropped"} for a dispute with ${slashed.length} slashed (${slashed.map((a) => a.slice(0, 8))}), votes up to ${vh}, poster ${d.postedStateDisputer.slice(0, 8)}, timed out ${d.timedoutParticipant.slice(0, 8)} at ${d.foldedTransactionCnt}`, w ? ["C22", "C07"] : ["C07", "C10"]);
        }
        run.count("comparisons");
        if (got.size > sub.length || [...got].some((p) => !sub.some((m) => m.p.encodedProof === p.encodedProof))) run.violate("proof-invented", "a proof is returned that was not given", ["C07", "C22"]);
        if (!PM.filterValidProofs(d, []).length && !PM.filterValidProofs(d, undefined).length) run.count("comparisons");
        else run.violate("proof-invented", "proofs out of nothing", ["C07", "C22"]);
    }
}
module.exports = { decisions, proofs };
