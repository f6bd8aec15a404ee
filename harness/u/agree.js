"use strict";
// C01, C05, C06, C07, C08: what one participant keeps of forks, blocks, signatures, early messages and posted
// calldata (the real AgreementManager and everything behind it) under generated histories, compared with a model
// after every operation.
const { simRealm, show } = require("./common");
const { ethers, WALLETS, T, enc, keccak, signBytes, oddHash } = require("../lib/world");

const CH = keccak(ethers.toUtf8Bytes("agree"));
const encBlock = (b) => enc(T.block, b);
const norm = (b) => (b === undefined ? undefined : encBlock(b));
class Model {
    constructor() { this.forks = []; this.bq = new Map(); this.cq = new Map(); }
    get(f, h) { const k = this.forks[f]; return k ? k.blocks[h] : undefined; }
    chainTs(f) { const k = this.forks[f]; const l = k.blocks[k.blocks.length - 1]; return Math.max(k.time, l ? l.ts : 0); }
    postedTs(f, max) { return this.forks[f].posted.filter((p) => p.h <= max).reduce((a, p) => Math.max(a, p.t), 0); }
    dup(x) { const a = this.get(x.f, x.h); return (a !== undefined && a.e === x.e) || this.queued(x); }
    queued(x) { const q = this.bq.get(x.f + "/" + x.h); const s = q && q.get(x.by); return !!s && s.x.e === x.e; }
    check(x, signer) {
        if (signer !== x.by) return "INVALID_SIGNATURE";
        if (this.dup(x)) return "DUPLICATE";
        const k = this.forks[x.f];
        if (!k) return "NOT_READY";
        const a = k.blocks[x.h];
        if (a) return a.by === x.by ? "DOUBLE_SIGN" : "INCORRECT_DATA";
        if (x.h === 0) return x.prev === keccak(k.genesis) ? "READY" : "INCORRECT_DATA";
        const p = k.blocks[x.h - 1];
        if (!p) return "NOT_READY";
        return p.stateHash === x.prev ? "READY" : "INCORRECT_DATA";
    }
    // the newest state `who` signed, the newest state it can show to be final, and the votes for it
    votes(f, who) {
        const k = this.forks[f];
        let top = -1;
        k.blocks.forEach((b, i) => { if (b.sigs.some((s) => s.by === who)) top = i; });
        if (top < 0) return { fin: k.genesis, latest: k.genesis, votes: [] };
        const need = new Set(k.parts);
        let i = top;
        for (; i >= 0; i--) {
            for (const s of k.blocks[i].sigs) need.delete(s.by);
            if (!need.size) break;
        }
        return { fin: i >= 0 ? k.blocks[i].state : k.genesis, latest: k.blocks[top].state, votes: k.blocks.slice(Math.max(0, i), top + 1) };
    }
}
async function history(run) {
    const { realm } = simRealm(run);
    const r = run.rng;
    const AM = realm.load("agreementManager");
    const FLAG = realm.load("types").AgreementFlag;
    const am = new (AM.default || AM)();
    const m = new Model();
    const nW = r.range(2, 6);
    const W = WALLETS.slice(0, nW), OUT = WALLETS.slice(10, 12);
    const all = [...W, ...OUT];
    const by = (a) => all.find((w) => w.address === a);
    const flagName = (v) => (typeof v === "number" ? FLAG[v] : v);
    const same = (props, key, got, want, msg) => {
        run.count("comparisons");
        const a = show(got), b = show(want);
        if (a !== b) run.violate("agree-" + key, `${msg}: got ${a.slice(0, 400)}, expected ${b.slice(0, 400)}`, props);
    };
    const ok = (props, key, cond, msg) => { run.count("comparisons"); if (!cond) run.violate("agree-" + key, msg, props); };
    const fails = (fn) => { try { fn(); return false; } catch (e) { return true; } };
    const SIG = new Map();
    const signed = (w, e) => { const k = w.address + e; if (!SIG.has(k)) SIG.set(k, signBytes(w, e)); return SIG.get(k); };
    const T0 = 1700000000;
    let clock = T0;
    // some block; where it stands decides which of the rules it meets
    const known = [];
    const mk = (f, h, o = {}) => {
        const k = m.forks[f];
        const prev = o.prev || (k && h === 0 ? keccak(k.genesis) : k && k.blocks[h - 1] ? k.blocks[h - 1].stateHash : keccak(enc("uint256", r.u32())));
        const state = o.state || r.bytes(r.range(1, 40));
        const who = o.by || r.pick(W).address;
        const ts = o.ts !== undefined ? o.ts : clock + r.range(-3, 6);
        const block = {
            transaction: { header: { channelId: CH, participant: who, forkCnt: f, transactionCnt: h, timestamp: ts }, body: { transactionType: r.int(3), encodedData: r.bytes(r.int(9)), data: "0x" } },
            stateHash: keccak(state), previousStateHash: prev
        };
        const e = encBlock(block);
        const x = { f, h, by: who, ts, block, e, state, stateHash: keccak(state), prev, sigs: [] };
        known.push(x);
        return x;
    };
    const sb = (x, w) => ({ encodedBlock: x.e, signature: signed(w || by(x.by), x.e) });
    // blocks come from users as structures with numbers, strings or bigints, and from the wire as decoded ones
    const forms = (x) => {
        if (r.bool(0.5)) return realm.load("utils").EvmUtils.decodeBlock(x.e);
        const b = JSON.parse(JSON.stringify(x.block));
        if (r.bool()) for (const k of ["forkCnt", "transactionCnt", "timestamp"]) b.transaction.header[k] = BigInt(b.transaction.header[k]);
        return b;
    };
    const lf = () => m.forks.length - 1;
    const some = () => {
        // a block the history is about: agreed, conflicting, early or unknown
        const p = r.int(10);
        if (p < 4 && known.length) return r.pick(known);
        const f = m.forks.length ? (r.bool(0.8) ? lf() : r.int(m.forks.length + 2)) : r.int(2);
        const n = m.forks[f] ? m.forks[f].blocks.length : 0;
        const h = r.bool(0.4) ? n : r.bool(0.5) ? r.int(n + 1) : n + r.int(4);
        const o = {};
        const a = m.get(f, h);
        if (a && r.bool(0.7)) { o.by = a.by; if (r.bool(0.6)) { o.prev = a.prev; } }
        if (r.bool(0.15)) o.prev = oddHash(r, m.forks.flatMap((k) => [keccak(k.genesis), ...k.blocks.slice(-2).flatMap((b) => [b.stateHash, b.prev])]));
        if (r.bool(0.1)) o.by = r.pick(all).address;
        return mk(f, h, o);
    };
    const ops = r.range(25, 90);
    const play = r.range(1, 6), chatty = r.range(1, 6);
    for (let i = 0; i < ops; i++) {
        clock += r.int(4);
        const op = r.pick(["fork", "add", ...Array(play).fill("add"), "addBad", ...Array(chatty).fill("confirm"), "confirm", "confirmBad", "queue", "queue", "queueC", "queueC", "queueC", "deq", "deq", "deqC", "deqC", "collect", "collect", "collect", "check", "refork"]);
        run.count("operations");
        run.count("op_" + op);
        if (op === "fork" && (m.forks.length === 0 || r.bool(0.35))) {
            const k = { genesis: r.bytes(r.range(1, 30)), parts: r.shuffle(W).slice(0, r.range(1, nW)).map((w) => w.address), time: clock + r.range(-5, 5), blocks: [], posted: [] };
            run.note("fork", m.forks.length, k.parts.length, k.time);
            am.newFork(k.genesis, k.parts.slice(), m.forks.length, k.time);
            m.forks.push(k);
        } else if (op === "refork" && m.forks.length) {
            // announcements repeated, out of order or ahead
            const f = r.bool(0.7) ? r.int(m.forks.length) : m.forks.length + r.range(1, 3);
            run.note("refork", f);
            const echo = r.bool(0.6) && m.forks[f];
            fails(() => am.newFork(echo ? echo.genesis : r.bytes(5), echo ? echo.parts.slice() : [r.pick(W).address], f, echo ? echo.time : clock));
        } else if (op === "add" && m.forks.length) {
            const f = lf();
            const x = mk(f, m.forks[f].blocks.length, { by: r.bool(0.9) ? r.pick(m.forks[f].parts) : undefined });
            const s = sb(x);
            run.note("add", x.f, x.h, x.by);
            am.addBlock(forms(x), s.signature, x.state);
            x.sigs = [{ by: x.by, sig: s.signature }];
            m.forks[f].blocks.push(x);
            run.count("blocks_added");
        } else if (op === "addBad" && m.forks.length) {
            const f = r.bool(0.8) ? lf() : r.int(m.forks.length + 2);
            const n = m.forks[f] ? m.forks[f].blocks.length : 0;
            if (m.forks[f] && !n) continue;
            const a = n ? m.forks[f].blocks[r.int(n)] : undefined;
            const x = a && r.bool(0.3) ? a : mk(f, a ? a.h : r.int(3), a && r.bool() ? { by: a.by, prev: a.prev } : {});
            run.note("addBad", x.f, x.h);
            ok(["C01"], "replaced", fails(() => am.addBlock(forms(x), sb(x).signature, r.bytes(4))), `a second block at ${x.f}/${x.h} is accepted`);
        } else if (op === "confirm" && m.forks.length) {
            const f = r.bool(0.9) ? lf() : r.int(m.forks.length);
            const bl = m.forks[f].blocks;
            if (!bl.length) continue;
            const x = r.bool(0.6) ? bl[bl.length - 1 - r.int(Math.min(3, bl.length))] : r.pick(bl);
            const w = r.bool(0.93) ? by(r.pick(m.forks[f].parts)) : r.pick(all);
            const s = signed(w, x.e);
            const have = x.sigs.some((y) => y.sig === s);
            run.note("confirm", x.f, x.h, w.address, have);
            const threw = fails(() => am.confirmBlock(forms(x), s));
            ok(["C05"], "confirm", threw === have, `confirming ${x.f}/${x.h} by ${w.address}: ${threw ? "refused" : "accepted"} although the signature is ${have ? "already there" : "new"}`);
            if (!have) x.sigs.push({ by: w.address, sig: s });
        } else if (op === "confirmBad" && m.forks.length) {
            const x = some();
            const a = m.get(x.f, x.h);
            if (a && a.e === x.e) continue;
            run.note("confirmBad", x.f, x.h);
            ok(["C01", "C05"], "confirm-other", fails(() => am.confirmBlock(forms(x), signed(r.pick(W), x.e))), `a signature on a block that is not the agreed one at ${x.f}/${x.h} is stored`);
        } else if (op === "queue") {
            const x = some();
            run.note("queue", x.f, x.h, x.by);
            am.queueBlock(sb(x));
            const k = x.f + "/" + x.h;
            if (!m.bq.has(k)) m.bq.set(k, new Map());
            m.bq.get(k).set(x.by, { x, s: sb(x) });
        } else if (op === "queueC") {
            const x = some();
            // several participants confirm the same early block
            for (const w of r.shuffle(W).slice(0, r.range(1, nW))) {
                const c = { originalSignedBlock: sb(x), confirmationSignature: signed(w, x.e) };
                run.note("queueC", x.f, x.h, w.address);
                am.queueConfirmation(c);
                const k = x.f + "/" + x.h;
                if (!m.cq.has(k)) m.cq.set(k, new Map());
                m.cq.get(k).set(w.address, c);
            }
        } else if (op === "deq" || op === "deqC") {
            const q = op === "deq" ? m.bq : m.cq;
            const keys = [...q.keys()];
            const [f, h] = keys.length && r.bool(0.75) ? r.pick(keys).split("/").map(Number) : [r.int(m.forks.length + 2), r.int(6)];
            const k = f + "/" + h;
            run.note(op, k);
            const want = [...((q.get(k) || new Map()).values())].map((v) => (op === "deq" ? show(v.s) : show([v.originalSignedBlock.encodedBlock, v.confirmationSignature]))).sort();
            const got = (op === "deq" ? am.tryDequeueBlocks(f, h) : am.tryDequeueConfirmations(f, h)).map((v) => (op === "deq" ? show({ encodedBlock: v.encodedBlock, signature: v.signature }) : show([v.originalSignedBlock.encodedBlock, v.confirmationSignature]))).sort();
            same(["C05"], op === "deq" ? "queue-blocks" : "queue-confirmations", got, want, `what was kept for ${k}`);
            q.delete(k);
        } else if (op === "collect") {
            const x = some();
            const w = r.bool(0.9) ? by(x.by) : r.pick(all);
            const want = m.check(x, w.address);
            const t = clock + r.range(-20, 20);
            run.note("collect", x.f, x.h, x.by, t, want);
            run.count("collected_" + want);
            same(["C08", "C07"], "collect-flag", flagName(am.collectOnChainBlock(sb(x, w), t)), want, `posted calldata for ${x.f}/${x.h}`);
            if (want === "READY" || want === "NOT_READY") {
                const k = x.f + "/" + x.h;
                if (!m.bq.has(k)) m.bq.set(k, new Map());
                m.bq.get(k).set(x.by, { x, s: sb(x, w) });
            }
            if (["READY", "NOT_READY", "DUPLICATE"].includes(want) && m.forks[x.f] && !m.forks[x.f].posted.some((p) => p.h === x.h && p.by === x.by)) m.forks[x.f].posted.push({ h: x.h, by: x.by, t });
        } else if (op === "check") {
            const x = some();
            const w = r.bool(0.85) ? by(x.by) : r.pick(all);
            const want = m.check(x, w.address);
            run.note("check", x.f, x.h, want);
            run.count("checked_" + want);
            const props = want === "INVALID_SIGNATURE" ? ["C04", "C07"] : want === "DOUBLE_SIGN" ? ["C01", "C07"] : want === "INCORRECT_DATA" ? ["C01", "C03"] : ["C01", "C05"];
            same(props, "check-" + want, flagName(am.checkBlock(sb(x, w))), want, `block ${x.f}/${x.h} by ${x.by}`);
        }
        observe();
    }
    function observe() {
        same(["C01"], "latest-fork", am.getLatestForkCnt(), Math.max(0, lf()), "latest fork");
        same(["C01"], "has-fork", am.hasFork(), m.forks.length > 0, "has a fork");
        same(["C01"], "next-height", am.getNextBlockHeight(), m.forks.length ? m.forks[lf()].blocks.length : 0, "next height");
        m.forks.forEach((k, f) => {
            if (f < lf() && !r.bool(0.3)) return;
            same(["C01"], "genesis", am.getForkGenesisStateEncoded(f), k.genesis, `genesis of fork ${f}`);
            same(["C01"], "end", norm(am.getBlock(f, k.blocks.length)), undefined, `block after the last of fork ${f}`);
            same(["C08", "C03"], "block-time", am.getLatestBlockTimestamp(f), m.chainTs(f), `time of the last block of fork ${f}`);
            for (const max of [0, 1, k.blocks.length - 1, k.blocks.length, k.blocks.length + 1, 1000]) {
                if (max < 0 || !r.bool(0.6)) continue;
                same(["C08"], "posted-time", am.getChainLatestBlockTimestamp(f, max), m.postedTs(f, max), `latest posting time on fork ${f} up to height ${max}`);
                same(["C08"], "time", am.getLatestTimestamp(f, max), Math.max(m.chainTs(f), m.postedTs(f, max)), `latest time on fork ${f} up to height ${max}`);
            }
            for (let j = 0; j < 3; j++) {
                const h = r.int(k.blocks.length + 3), a = r.pick(W).address;
                same(["C08", "C21"], "posted", am.didParticipantPostOnChain(f, h, a), k.posted.some((p) => p.h === h && p.by === a), `${a} posted ${f}/${h}`);
            }
            k.blocks.forEach((b, h) => {
                if (h < k.blocks.length - 3 && !r.bool(0.2)) return;
                same(["C01"], "block", norm(am.getBlock(f, h)), b.e, `agreed block ${f}/${h}`);
                same(["C01", "C03"], "state", am.getEncodedState(f, h), b.state, `state after block ${f}/${h}`);
                same(["C05", "C06"], "signatures", am.getSigantures(b.block).map(String).sort(), b.sigs.map((s) => s.sig).sort(), `signatures on ${f}/${h}`);
                const signers = new Set(b.sigs.map((s) => s.by));
                same(["C06", "C05"], "everyone", am.didEveryoneSignBlock(forms(b)), k.parts.every((a) => signers.has(a)), `everybody signed ${f}/${h}`);
                same(["C25", "C05"], "missing", am.getParticipantsWhoHaventSignedBlock(forms(b)).map(String).sort(), k.parts.filter((a) => !signers.has(a)).sort(), `who did not sign ${f}/${h}`);
                same(["C06"], "author-signature", am.getOriginalSignature(forms(b)), (b.sigs.find((s) => s.by === b.by) || {}).sig, `author's signature on ${f}/${h}`);
                const a = r.pick(all), d = am.didParticipantSign(forms(b), a.address), want = b.sigs.find((s) => s.by === a.address);
                same(["C05", "C06"], "signed-by", [d.didSign, d.signature], [!!want, want && want.sig], `${a.address} signed ${f}/${h}`);
                same(["C05"], "has-signature", am.doesSignatureExist(forms(b), signed(a, b.e)), !!want, `signature of ${a.address} on ${f}/${h} known`);
            });
            const who = r.bool(0.85) ? r.pick(W).address : r.pick(OUT).address;
            const v = m.votes(f, who), g = am.getFinalizedAndLatestWithVotes(r.bool(0.8) ? f : BigInt(f), who);
            run.count("votes_derived");
            if (v.votes.length > 1) run.count("votes_of_several_blocks");
            if (v.fin !== m.forks[f].genesis) run.count("votes_with_final_block");
            same(["C06"], "final-state", g.encodedLatestFinalizedState, v.fin, `newest final state on fork ${f} for ${who}`);
            same(["C06"], "latest-state", g.encodedLatestCorrectState, v.latest, `newest state signed by ${who} on fork ${f}`);
            same(["C06"], "votes", g.virtualVotingBlocks.map((b) => [b.encodedBlock, [...b.signatures].map(String).sort()]), v.votes.map((b) => [b.e, b.sigs.map((s) => s.sig).sort()]), `votes of fork ${f} for ${who}`);
            const l = am.getLatestSignedBlockByParticipant(f, who);
            const lm = k.blocks.filter((b) => b.sigs.some((s) => s.by === who)).pop();
            same(["C07", "C22"], "latest-signed", l && [norm(l.block), l.signature], lm && [lm.e, lm.sigs.find((s) => s.by === who).sig], `newest block of fork ${f} signed by ${who}`);
        });
        for (let j = 0; j < 2 && known.length; j++) {
            const x = r.pick(known);
            const a = m.get(x.f, x.h);
            same(["C01", "C05"], "in-chain", am.isBlockInChain(forms(x)), !!a && a.e === x.e, `block ${x.f}/${x.h} in the chain`);
            same(["C05"], "duplicate", am.isBlockDuplicate(forms(x)), m.dup(x), `block ${x.f}/${x.h} known or kept`);
            const d = am.getDoubleSignedBlock(sb(x));
            const as = a && a.e !== x.e && a.by === x.by ? a.sigs.find((s) => s.by === x.by) : undefined;
            same(["C07", "C22"], "double-signed", d && [d.encodedBlock, d.signature], as && [a.e, as.sig], `block conflicting with ${x.f}/${x.h} by its author`);
            if (as) run.count("double_signs_found");
        }
        const a = r.pick(all).address;
        same(["C03", "C04"], "participant", am.isParticipantInLatestFork(a), m.forks.length > 0 && m.forks[lf()].parts.includes(a), `${a} is a participant of the latest fork`);
    }
}
module.exports = { history };
