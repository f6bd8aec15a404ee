"use strict";
// C07, C08, C21, C22: the dispute process as one participant runs it. The real DisputeHandler, ProofManager and
// AgreementManager of one to three honest participants, each with its own signatures and evidence, on the real
// contracts, against offenders that open and challenge disputes at will. What holds once everybody has reacted is
// judged from the evidence the participants hold.
const { simRealm, show } = require("./common");
const { SimSigner } = require("../lib/chain");
const { ethers, WALLETS, T, enc, keccak, signBytes, resign, proof } = require("../lib/world");
const { ledger } = require("../lib/model");
const ZERO = ethers.ZeroAddress, ZH = ethers.ZeroHash;
const RACE = /ErrorDisputeInProgrees|ErrorDisputeForkMismatch|ErrorDisputeChallengeMismatch|ErrorDisputeExpired/;

async function disputes(run) {
    const r = run.rng, chain = run.chain;
    const { sim, realm } = simRealm(run, (chain.lastTs + 1) * 1000);
    chain.attach(sim);
    const listeners = [];
    const onLog = (l) => listeners.forEach((f) => f(l));
    chain.logListeners.push(onLog);
    try { await play(run, r, chain, sim, realm, listeners); } finally {
        chain.logListeners = chain.logListeners.filter((f) => f !== onLog);
        sim.events = [];
        chain.sim = null;
    }
}
async function play(run, r, chain, sim, realm, listeners) {
    const one = (p) => { const m = realm.load(p); return m.default || m; };
    const DH = one("DisputeHandler"), AMc = one("agreementManager");
    await sim.wait(realm.load("Clock").default.init({ getBlock: async () => ({ number: 3, timestamp: Math.floor(sim.now / 1000) }) }), 100000);
    const long = r.bool(0.4);
    const mgr = long ? chain.long : chain.ledger;
    const [p2p, agr, fall] = long ? [15, 4, 6] : chain.times;
    const iface = chain.iface("LedgerStateMachine");
    const CH = keccak(ethers.toUtf8Bytes("duel-" + run.seed));
    const n = r.pick([2, 2, 3, 3, 3, 4, 4, 5]);
    const W = WALLETS.slice(0, n);
    const by = (a) => W.find((w) => w.address === a);
    const nm = (a) => "p" + W.findIndex((w) => w.address === a);
    const now = () => Math.floor(sim.now / 1000);
    const bads = r.shuffle(W).slice(0, r.range(1, Math.max(1, n - 1)));
    const isBad = (a) => bads.some((w) => w.address === a);
    const good = W.filter((w) => !bads.includes(w));
    // open
    const js = W.map((w, i) => { const jc = { channelId: CH, participant: w.address, amount: 100n + BigInt(i), deadlineTimestamp: BigInt(now() + 50), data: "0x" }; const e = enc(T.jc, jc); return { e, s: signBytes(w, e) }; });
    const o = await sim.wait(mgr.tx(WALLETS[15].address, "openChannel", [CH, js.map((j) => j.e), js.map((j) => j.s)]));
    if (!o.ok) throw o.err || new Error("open");
    const genesis0 = ledger.encode({ turn: 0n, digest: ZH, parts: W.map((w) => w.address), bal: W.map((_, i) => 100n + BigInt(i)), blob: "0x" });
    // the participants that run the client
    const pend = new Set();
    const watch = (c, q) => { pend.add(q); q.then(() => {}, (e) => c.errors.push(e)).then(() => pend.delete(q)); };
    const C = good.slice(0, r.range(1, 3)).map((w, i) => {
        const c = { w, i, held: [], refused: [], knows: [], am: new AMc(), logAt: 0, errors: [], forks: 1 };
        c.am.newFork(genesis0, W.map((x) => x.address), 0, Number(o.res.timestamp));
        const signer = new SimSigner(w, chain.newProvider("c" + i, () => {}), chain, {
            onTx: async () => { await sim.sleep(50 + r.int(r.pick([200, 900]))); },
            onTxDone: (tx) => { run.count("client_transactions_accepted"); run.note("c" + i, "accepted", String(tx.data).slice(0, 10)); },
            onTxError: (tx, e) => { const why = chain.reason(e); c.refused.push(why); run.note("c" + i, "refused", why); }
        });
        c.dh = new DH(CH, signer, w.address, c.am, new ethers.Contract(mgr.address, chain.art[mgr.name].abi, signer), {});
        return c;
    });
    let D; // the dispute of the current fork
    const forks = [{ enc: genesis0, ts: BigInt(o.res.timestamp) }];
    listeners.push((l) => {
        if (l.address.toLowerCase() !== mgr.address.toLowerCase()) return;
        const p = mgr.iface.parseLog(l);
        if (!p || p.args[0] !== CH || !["DisputeUpdated", "SetState"].includes(p.name)) return;
        let act;
        if (p.name === "SetState") {
            forks[Number(p.args.forkCnt)] = { enc: p.args.encodedState, ts: p.args.timestamp };
            act = (c) => () => { const f = Number(p.args.forkCnt); if (f !== c.forks) return; c.forks++; c.am.newFork(p.args.encodedState, ledger.decode(p.args.encodedState).parts, f, Number(p.args.timestamp)); };
        } else {
            D = p.args.dispute;
            run.count("dispute_updates");
            act = (c) => () => watch(c, c.dh.onDispute(p.args.dispute));
        }
        for (const c of C) {
            const give = act(c);
            c.logAt = Math.max(c.logAt + 1, sim.now + 50 + r.int(1500));
            sim.at(c.logAt - sim.now, give, "log", "c" + c.i);
            if (r.bool(0.1)) sim.at(c.logAt - sim.now + r.int(3000), give, "log", "c" + c.i);
        }
    });
    const stages = r.bool(0.25) ? 2 : 1;
    for (let z = 0; z < stages && !run.viol.length; z++) if (!(await stage())) break;

    async function stage() {
        D = undefined;
        const F = forks.length - 1, genesis = forks[F].enc, t0 = forks[F].ts;
        const parts = ledger.decode(genesis).parts;
        const B = bads.filter((w) => parts.includes(w.address));
        const cs = C.filter((c) => parts.includes(c.w.address) && c.forks === F + 1);
        if (!B.length || !cs.length || parts.length < 2) return false;
        // the history: honest participants signed all they have, the others what they liked
        const list = [];
        const make = (k, v = {}) => {
            const base = k === 0 ? genesis : list[k - 1].state, prevTs = k === 0 ? t0 : list[k - 1].ts;
            const author = v.by || ledger.next(ledger.decode(base));
            const [fn, args] = v.call || r.pick([["transfer", [r.pick(parts), r.int(9)]], ["write", [r.bytes(r.int(40))]], ["rotate", [r.range(1, 4)]], ["idle", [r.bytes(r.int(3))]]]);
            const tx = { header: { channelId: CH, participant: author, forkCnt: BigInt(F), transactionCnt: BigInt(k), timestamp: v.ts !== undefined ? v.ts : prevTs + BigInt(r.int(3)) }, body: { transactionType: 0n, encodedData: "0x", data: iface.encodeFunctionData(fn, args) } };
            const x = ledger.exec(ledger.decode(base), tx, iface);
            const state = ledger.encode(x.s);
            const b = { transaction: tx, stateHash: v.stateHash || keccak(state), previousStateHash: v.prev || keccak(base) };
            const e = enc(T.block, b), sig = signBytes(by(author), e);
            return { b, e, ok: x.ok, state, ts: tx.header.timestamp, by: author, h: k, sigs: new Map([[author, sig]]), sb: { encodedBlock: e, signature: sig } };
        };
        for (let k = 0, m = r.int(9); k < m; k++) {
            let x = make(k);
            if (!x.ok) x = make(k, { call: ["write", ["0x"]] });
            list.push(x);
        }
        const L = list.length;
        const late = r.bool(0.4), eager = r.pick([0.3, 0.7, 1]);
        const seen = new Map(parts.map((a) => { const own = list.reduce((q, x) => (x.by === a ? x.h + 1 : q), 0); return [a, isBad(a) || !late ? L : r.pick([L, r.range(own, L)])]; }));
        for (const x of list) for (const a of parts) if (x.by !== a && x.h < seen.get(a) && (!isBad(a) || r.bool(eager))) x.sigs.set(a, signBytes(by(a), x.e));
        const frank = r.pick([0.6, 0.9, 1]);
        for (const c of cs) {
            c.held = []; c.refused = []; c.errors = [];
            c.n = seen.get(c.w.address);
            c.knows = list.slice(0, c.n).map((x) => new Set([...x.sigs.keys()].filter((a) => a === x.by || !isBad(a) || r.bool(frank))));
            for (let h = 0; h < c.n; h++) {
                const x = list[h];
                c.am.addBlock(x.b, x.sigs.get(x.by), x.state);
                for (const a of r.shuffle([...c.knows[h]])) if (a !== x.by) { c.am.confirmBlock(x.b, x.sigs.get(a)); if (isBad(a) && r.bool(0.05)) c.am.confirmBlock(x.b, resign(by(a), x.e, r.int(99))); }
            }
        }
        run.note("fork", F, parts.map(nm).join(), "offenders", B.map((w) => nm(w.address)).join(), "blocks", L, list.map((x) => x.sigs.size).join(""), "seen", cs.map((c) => c.n), long);
        run.count("forks_played");
        if (r.bool(0.75)) await sim.run((p2p + agr + fall + r.range(-1, 22)) * 1000);
        else await sim.run(r.range(0, 8) * 1000);
        // offences: what can be proven, and who pays
        const offence = (c) => {
            const A = r.pick(B).address;
            const mine = list.filter((x) => x.by === A && x.h < c.n);
            const k = r.int(c.n + 1), base = k === 0 ? genesis : list[k - 1].state, next = ledger.next(ledger.decode(base)), pt = k === 0 ? t0 : list[k - 1].ts;
            const kind = r.pick(["double", "double", "double", "state", "fail", "old", "far", "turn", "turnIdle", "future"]);
            let x;
            switch (kind) {
                case "double": {
                    if (!mine.length) return;
                    const set = r.shuffle(mine).slice(0, r.range(1, 2)).map((a) => make(a.h, { by: A, ts: a.ts + BigInt(r.range(1, 9)) }));
                    return { kind, who: A, call: (d) => d.disputeDoubleSign(set.map((y) => y.sb)) };
                }
                case "state": x = make(k, { by: next, stateHash: keccak(r.bytes(5)) }); break;
                case "fail": x = make(k, { by: next, call: ["fail", [r.int(5)]], stateHash: keccak(base) }); break;
                case "old": x = make(k, { by: next, ts: pt - BigInt(r.range(1, 20)) }); break;
                case "far": x = make(k, { by: next, ts: pt + BigInt(p2p + r.range(1, 20)) }); break;
                case "turn": if (A === next) return; x = make(k, { by: A, call: ["write", ["0x01"]] }); break;
                case "turnIdle": if (A === next) return; x = make(k, { by: A, call: ["idle", ["0x01"]] }); break;
                case "future": x = make(L, { by: A, ts: BigInt(now() + 100000) }); return { kind, who: A, call: (d) => d.disputeBlockTooFarInFuture(x.sb) };
            }
            if (!isBad(x.by)) return;
            return { kind, who: x.by, call: (d) => d.disputeIncorrectData(x.sb) };
        };
        // the offenders
        const cover = (e) => { const need = new Set(parts); for (let q = e; q >= 0; q--) { for (const a of list[q].sigs.keys()) need.delete(a); if (!need.size) return q; } return -1; };
        const evidence = (e) => {
            if (e < 0) return { fin: genesis, latest: genesis, votes: [] };
            const q = cover(e);
            return { fin: q >= 0 && !(q === 0 && r.bool(0.2)) ? list[q].state : genesis, latest: list[e].state, votes: list.slice(Math.max(0, q), e + 1).map((x) => ({ encodedBlock: x.e, signatures: r.shuffle([...x.sigs.values()]) })) };
        };
        const framed = (A) => { const h = r.pick([0, 1, 2, 700]); const blk = (t) => ({ transaction: { header: { channelId: CH, participant: A.address, forkCnt: F, transactionCnt: h, timestamp: t }, body: { transactionType: 0, encodedData: "0x", data: "0x" } }, stateHash: ZH, previousStateHash: ZH }); const q = (b) => { const e = enc(T.block, b); return { encodedBlock: e, signature: signBytes(A, e) }; }; return proof("DoubleSign", { doubleSigns: [{ block1: q(blk(1)), block2: q(blk(2)) }] }); };
        const newer = () => { const P = D.postedStateDisputer; const x = [...list].reverse().find((y) => y.sigs.has(P)); return x && x.h > votesEnd() && proof("NewerState", { encodedBlock: x.e, confirmationSignature: x.sigs.get(P) }); };
        const running = () => D && now() < Number(D.deadlineTimestamp);
        const act = async () => {
            const S = D ? [...D.slashedParticipants] : [];
            const can = B.filter((w) => !S.includes(w.address) || r.bool(0.05));
            if (!can.length) return;
            const A = r.pick(can);
            const others = B.filter((w) => w !== A && !S.includes(w.address));
            const victim = () => (others.length && r.bool(0.95) ? r.pick(others) : r.pick(B));
            const send = async (what, fn, args) => {
                const res = await sim.wait(mgr.tx(A.address, fn, args), 1000);
                run.note("bad", nm(A.address), what, res.ok ? "accepted" : chain.reason(res.err));
                run.count(res.ok ? "attacks_accepted" : "attacks_refused");
            };
            if (!D) {
                // of all states of the channel, the one that suits
                let e = r.bool(0.4) ? L - 1 : r.range(-1, L - 1);
                const at = (q) => ledger.next(ledger.decode(q < 0 ? genesis : list[q].state));
                if (others.length === 0 || r.bool(0.7)) {
                    for (let i = 0; i < 5 && at(e) === A.address; i++) e = r.range(-1, L - 1);
                    const ev = evidence(e);
                    await send("times out " + nm(at(e)) + "@" + (e + 1), "createDispute", [CH, F, ev.fin, ev.latest, ev.votes, at(e), e + 1, others.length && r.bool(0.2) ? [framed(victim())] : []]);
                } else { const ev = evidence(e); await send("accuses", "createDispute", [CH, F, ev.fin, ev.latest, ev.votes, ZERO, 0, r.shuffle(others).slice(0, r.range(1, 2)).map(framed)]); }
            } else {
                const ev = evidence(r.bool(0.6) ? L - 1 : r.range(-1, L - 1));
                const ps = [];
                if (r.bool(0.7) && (others.length || r.bool(0.1))) ps.push(framed(victim()));
                if (r.bool(0.4)) { const q = newer(); if (q) ps.push(q); }
                if (r.bool(0.3) && D.timedoutParticipant !== ZERO) { const x = list[Number(D.foldedTransactionCnt)]; if (x) ps.unshift(proof("FoldRechallenge", { encodedBlock: x.e, signatures: [...x.sigs.values()] })); }
                if (!ps.length) return;
                await send("challenges " + ps.map((q) => q.proofType).join(), "challengeDispute", [CH, F, D.challengeCnt, ps, ev.votes, ev.fin, ev.latest]);
            }
        };
        const tell = (c) => {
            const x = offence(c);
            if (!x) return;
            if (D && Number(D.deadlineTimestamp) - now() < 8) return;
            run.note("c" + c.i, "sees", x.kind, nm(x.who));
            run.count("evidence_" + x.kind);
            c.held.push(x);
            let q;
            try { q = Promise.resolve(x.call(c.dh)); } catch (e) { q = Promise.reject(e); }
            watch(c, q);
        };
        const rest = async () => { let calm = 0; for (let i = 0; i < 400 && calm < 4; i++) { const a = run.ev.dispute_updates; const b = pend.size; await sim.run(500); calm = b === 0 && pend.size === 0 && run.ev.dispute_updates === a ? calm + 1 : 0; } };
        const votesEnd = () => (D.virtualVotingBlocks.length ? Number(ethers.AbiCoder.defaultAbiCoder().decode([T.block], D.virtualVotingBlocks[D.virtualVotingBlocks.length - 1].encodedBlock)[0].transaction.header.transactionCnt) : -1);
        // what has to be so when everybody has done what it wanted to do
        const judge = () => {
            run.count("comparisons");
            for (const c of cs) {
                const bad = c.refused.filter((x) => !RACE.test(x));
                const ctx = () => `(fork ${F}, participants ${parts.map(nm)}, offenders ${B.map((w) => nm(w.address))}, blocks ${L} signed by ${list.map((x) => x.sigs.size)}, seen ${c.n}; dispute ${D ? `version ${D.challengeCnt}, poster ${nm(D.postedStateDisputer)}, votes to ${votesEnd()}, timed out ${D.timedoutParticipant === ZERO ? "none" : nm(D.timedoutParticipant) + "@" + D.foldedTransactionCnt}, slashed ${[...D.slashedParticipants].map(nm)}` : "none"}; refused ${c.refused}; errors ${c.errors.slice(-2).map((e) => e && e.message)})`;
                if (bad.length) run.violate("duel-refused-" + bad[0].slice(0, 40), `the chain refuses what ${nm(c.w.address)} files ${ctx()}`, ["C07", "C22"]);
                const S = D ? [...D.slashedParticipants] : [];
                for (const x of c.held) if (!S.includes(x.who)) run.violate("duel-not-slashed-" + x.kind, `${nm(c.w.address)} holds a proof (${x.kind}) against ${nm(x.who)}, who is not slashed ${ctx()}`, ["C22", "C07"]);
                if (!D) continue;
                const P = D.postedStateDisputer;
                if (!S.includes(P)) {
                    let top = -1;
                    c.knows.forEach((k, h) => { if (k.has(P)) top = h; });
                    if (top > votesEnd()) run.violate("duel-stale", `${nm(P)} posted votes up to ${votesEnd()} only; ${nm(c.w.address)} has its signature on ${top} ${ctx()}`, ["C22", "C07", "C01"]);
                }
                if (D.timedoutParticipant !== ZERO) {
                    const h = Number(D.foldedTransactionCnt);
                    if (c.knows[h] && list[h].by === D.timedoutParticipant && parts.every((a) => c.knows[h].has(a))) run.violate("duel-false-timeout", `${nm(c.w.address)} holds everybody's signatures on ${h}, for which ${nm(D.timedoutParticipant)} is timed out ${ctx()}`, ["C22", "C08", "C07", "C21"]);
                }
                for (const w of good) if (S.includes(w.address)) run.violate("duel-honest-slashed", `${nm(w.address)} is slashed ${ctx()}`, ["C08"]);
            }
        };
        const rounds = r.range(1, 5);
        for (let i = 0; i < rounds && !run.viol.length; i++) {
            const steps = r.range(1, 3);
            for (let j = 0; j < steps; j++) {
                if (D && !running()) break;
                const who = L ? ledger.next(ledger.decode(list[L - 1].state)) : ZERO;
                const seer = cs.filter((c) => c.n === L);
                if (!D && i === 0 && L && seer.length && isBad(who) && r.bool(0.3) && now() > Number(list[L - 1].ts) + p2p + agr + fall) {
                    // an offender is really gone: whoever is to write next
                    const c = r.pick(seer);
                    run.note("c" + c.i, "times out", nm(who), L);
                    run.count("client_timeouts");
                    watch(c, c.dh.createDispute(F, who, L, []));
                } else if (r.bool(D ? 0.6 : 0.5)) await act();
                else tell(r.pick(cs));
                await sim.run(r.pick([0, 0, 30, 300, 900, 2500]));
            }
            await rest();
            judge();
        }
        if (run.viol.length || !D) return false;
        await sim.run(Math.max(0, Number(D.deadlineTimestamp) * 1000 - sim.now) + 3000);
        const st = ledger.decode(await mgr.view("getLatestState", [CH]));
        run.count("comparisons");
        run.count("duels_decided");
        const want = parts.filter((a) => ![...D.slashedParticipants].includes(a) && a !== D.timedoutParticipant);
        const known = new Set([genesis, ...list.map((x) => x.state)].map((e) => ledger.decode(e).digest));
        if (show([...st.parts].sort()) !== show([...want].sort())) run.violate("duel-parts", `the next fork has participants ${st.parts.map(nm)}, expected ${want.map(nm)}`, ["C22", "C10"]);
        if (!known.has(st.digest)) run.violate("duel-state", "the next fork does not start from a state of the channel", ["C01"]);
        return !run.viol.length;
    }
}
module.exports = { disputes };
