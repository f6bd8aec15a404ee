"use strict";
// What happens in a scenario of each type. Every script ends at a point where the monitors can judge.
const { T, enc, dec, keccak, signBytes, plainBlock, signBlock, proof, WALLETS, ethers, oddHash } = require("./lib/world");
const rpc = (method, ...params) => JSON.stringify({ method, params }, (k, v) => (typeof v === "bigint" ? v.toString() : v));

// ---- helpers -------------------------------------------------------------------------------------------
function head(s, p) {
    const f = p.am.getLatestForkCnt();
    const ch = s.w.chainOf(p, f);
    const last = ch[ch.length - 1];
    return {
        fork: f, height: ch.length, state: last ? last.state : p.am.getForkGenesisStateEncoded(f), chain: ch,
        ts: Math.max(s.forkGenesis[f].time, last ? Number(last.block.transaction.header.timestamp) : 0)
    };
}
const nearHashes = (s, hd) => [keccak(hd.state), ...hd.chain.slice(-2).map((x) => x.block.previousStateHash), ...s.forkGenesis.slice(0, hd.fork + 1).filter((g) => g && g.state).map((g) => keccak(g.state)), ...hd.chain.slice(-1).map((x) => keccak(enc(T.block, plainBlock(x.block))))];
// whose turn it is in the state of that head (the local state machine may be in the middle of a move)
const turnAt = (s, hd) => { const st = s.w.decodeState(hd.state); const n = st.participants.length; return n ? st.participants[Number((s.w.kind === "math" ? st.number : st.turn) % BigInt(n))] : ethers.ZeroAddress; };
async function exec(s, state, tx) {
    const i = s.w.mgr.iface;
    const r = i.decodeFunctionResult("executeStateTransitionOnState", await s.chain.call(s.w.mgr.address, i.encodeFunctionData("executeStateTransitionOnState", [s.w.channelId, state, tx])));
    return { ok: r[0], state: r[1] };
}
async function craft(s, view, author, over = {}) {
    const hd = head(s, view);
    const [fn, args] = over.call || s.randomCall(view);
    const data = s.w.encodeCall(fn, args);
    const tx = {
        header: { channelId: over.channelId ?? s.w.channelId, participant: over.participant ?? author.address, forkCnt: over.fork ?? hd.fork, transactionCnt: over.height ?? hd.height, timestamp: over.ts ?? Math.max(hd.ts, s.w.nowSec()) },
        body: { transactionType: 0, encodedData: data, data }
    };
    const base = over.state ?? hd.state;
    const r = await exec(s, base, tx);
    const block = { transaction: tx, stateHash: over.stateHash ?? keccak(r.state), previousStateHash: over.previousStateHash ?? keccak(base) };
    return { block, ok: r.ok, right: keccak(r.state), sb: signBlock(author, block) };
}
const send = (s, from, to, msg) => s.w.transmit(from, to, msg, true);
const otherPeers = (s, p) => s.w.peers.filter((q) => q !== p);
function subset(rng, arr, min = 1) {
    const a = rng.shuffle(arr);
    return a.slice(0, Math.max(min, rng.range(1, a.length)));
}
const N_ORDER = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
function malleate(sig) {
    const x = ethers.Signature.from(sig);
    const s2 = (N_ORDER - BigInt(x.s)).toString(16).padStart(64, "0");
    return x.r + s2 + (x.v === 27 ? "1c" : "1b");
}
const compact = (sig) => ethers.Signature.from(sig).compactSerialized;

// ---- honest --------------------------------------------------------------------------------------------
async function playOut(s, opts = {}) {
    const limit = s.sim.now + (opts.limit || s.spec.moves * (s.p2pTime * 1000 + 3000) + 30000);
    let nextRest = s.moves + s.rng.range(1, 4);
    while (s.moves < s.spec.moves && s.sim.now < limit) {
        await s.sim.run(200);
        if (s.moves >= nextRest && opts.rest) {
            s.calm = await s.quiesce(Math.floor(s.p2pTime * 350));
            await opts.rest();
            s.paused = false;
            nextRest = s.moves + s.rng.range(1, 4);
        }
    }
    if (s.moves < s.spec.moves)
        s.violate(["C05", "C21", "C17", "C04"], "stall", `only ${s.moves} of ${s.spec.moves} moves were agreed in ${Math.round((s.sim.now - limit + (opts.limit || 0)) / 1000)} s of play among honest, connected participants (last submission error: ${s.submitErrors.length ? s.submitErrors[s.submitErrors.length - 1].e?.message : "none"})`);
}
async function honest(s) {
    if (s.spec.crowd) crowd(s);
    await playOut(s, { rest: () => s.restCheck({ evidence: true }) });
    await s.quiesce(Math.min(8000, s.timeoutMs - 4000));
    await s.sim.run(1200);
    s.converged({ signed: true });
    await s.restCheck({ evidence: true });
}
async function lossy(s) {
    await playOut(s, {});
    s.paused = true;
    await s.sim.run(s.agreementTime * 1000 + 3500);
    s.converged({ signed: false });
    await s.restCheck({ evidence: true });
}
// cut one honest participant off from the others' network; the chain stays reachable
async function partition(s) {
    const r = s.rng;
    await s.sim.run(r.int(4000));
    const a = r.pick(s.w.peers);
    const others = otherPeers(s, a);
    const cut = r.bool(0.6) ? others : subset(r, others);
    const oneWay = r.bool(0.25);
    s.detail = `${a.owner} ${oneWay ? "mute towards" : "cut from"} ${cut.map((x) => x.owner)}`;
    for (const b of cut) {
        s.w.blocked.add(a.owner + ">" + b.owner);
        if (!oneWay) s.w.blocked.add(b.owner + ">" + a.owner);
    }
    const m0 = s.moves;
    s.spec.moves = Math.min(s.spec.moves, m0 + 7);
    await playOut(s, { limit: 120000 });
    if (r.bool()) {
        s.w.blocked.clear();
        s.spec.moves += 3;
        await playOut(s, { limit: 60000 });
    }
    s.paused = true;
    await s.sim.run(s.agreementTime * 1000 + 3500);
    s.converged({ signed: false });
}

// not everybody is connected to everybody, or somebody sends its messages to some only: the others pass them on
async function share(s) {
    const r = s.rng, ps = s.w.peers, n = ps.length;
    const at = [...ps.keys()];
    const blocked = new Set();
    if (s.spec.picky) {
        const A = r.pick(ps);
        const honest = ps.filter((q) => q !== A);
        A.byz = true; A.plays = true; s.bad.add(A.address); s.offenders.add(A.address);
        const mode = s.spec.ahead ? r.pick(["confirm", "both"]) : r.pick(["confirm", "block", "both", "both"]);
        const one = s.spec.ahead || r.bool(0.4) ? r.pick(honest) : undefined;
        const chosen = new Map();
        // passes on nothing that others say
        const own = new Map();
        const mine = (m) => {
            if (!own.has(m)) {
                const { params: q } = JSON.parse(m);
                own.set(m, (q[1] === undefined ? dec(T.block, q[0].encodedBlock).transaction.header.participant : ethers.verifyMessage(ethers.getBytes(keccak(q[0].encodedBlock)), q[1])) === A.address);
            }
            return own.get(m);
        };
        const aside = s.spec.ahead || r.bool(0.3);
        // the one that is told hears from it before it hears from the others
        if (s.spec.ahead) {
            s.w.slowLinks = new Map(honest.filter((q) => q !== one).map((q) => [q.owner + ">" + one.owner, r.pick([400, 900, 1500])]));
            s.count("told_ahead");
        }
        A.filter = (to, m) => {
            const what = /onBlockConfirmation/.test(m.slice(0, 60)) ? "confirm" : /onSignedBlock/.test(m.slice(0, 60)) ? "block" : undefined;
            if (!what) return true;
            if (aside && !mine(m)) { s.count("forwards_withheld"); return []; }
            if (mode !== "both" && mode !== what) return true;
            // the same few for the same message
            if (!chosen.has(m)) chosen.set(m, one ? [one] : subset(r, honest));
            if (chosen.get(m).some((q) => q === to || q.owner === to)) return true;
            s.count("messages_withheld");
            return [];
        };
        s.detail = `${A.owner} tells ${one ? one.owner : "some"} only (${mode}${aside ? ", passes nothing on" : ""})`;
    } else {
        // a connected graph: a tree and some more links
        const order = r.shuffle(at), keep = new Set();
        for (let i = 1; i < n; i++) { const j = order[r.int(i)]; keep.add(`${order[i]}-${j}`); keep.add(`${j}-${order[i]}`); }
        const more = r.pick([0.2, 0.5]);
        for (const i of at) for (const j of at) if (i < j && r.bool(more)) { keep.add(`${i}-${j}`); keep.add(`${j}-${i}`); }
        for (const i of at) for (const j of at) if (i !== j && !keep.has(`${i}-${j}`)) { s.w.blocked.add(ps[i].owner + ">" + ps[j].owner); blocked.add(ps[i].owner + ">" + ps[j].owner); s.count("links_missing"); }
        s.detail = `not connected: ${[...blocked].join(" ")}`;
    }
    if (s.spec.crowd) crowd(s);
    await playOut(s, {});
    await s.quiesce(Math.min(8000, s.timeoutMs - 4000));
    await s.sim.run(3000);
    s.shared();
    await s.restCheck({ evidence: true });
}

// ---- rejected input ------------------------------------------------------------------------------------
function garbage(s, r) {
    const bytes = r.bytes(r.int(70));
    const junk = [null, undefined, 1, -1, 1e300, "", "x", "0x", "0x12", bytes, [], {}, [[]], true, { encodedBlock: null }, { encodedBlock: "0x", signature: "0x" }, { encodedBlock: bytes, signature: bytes }];
    const methods = ["onSignedBlock", "onBlockConfirmation", "onInitHandshakeRequest", "onInitHandshakeResponse", "onJoinChannelRequest", "onOfferWebRTC", "onAnswerWebRTC", "onIceCandidate", "onCanJoinLeaderResponse", "nope", "constructor", "__proto__", "toString", "valueOf", "hasOwnProperty", "p2pManager", "rpcProxy", "self", "senderTransport", "stateTransitionService", "__defineGetter__", "__lookupGetter__", "isPrototypeOf"];
    const x = r.int(12);
    if (x === 0) return r.pick(["", "{", "null", "[]", "\"x\"", "0", "{}", "{\"method\":\"onSignedBlock\"}", "{\"params\":[]}", "[{\"method\":\"onSignedBlock\",\"params\":[]}]", "\u0000", "true"]);
    if (x === 1) return JSON.stringify({ method: r.pick(methods), params: r.pick([1, "abc", { length: 2 }, {}, true, { 0: 1 }, "0x"]) });
    if (x === 2) return JSON.stringify({ method: r.pick([1, {}, [], ["onSignedBlock"], true]), params: [] });
    const n = r.int(4);
    return JSON.stringify({ method: r.pick(methods), params: Array.from({ length: n }, () => r.pick(junk)) });
}
// inputs that must be refused without any effect; none of them is an offence by an honest participant
async function rejectable(s, victim) {
    const r = s.rng;
    const w = s.w;
    const from = r.pick(otherPeers(s, victim));
    const hd = head(s, victim);
    const stranger = WALLETS[8 + r.int(4)];
    const part = r.pick(s.w.peers).wallet;
    const any = hd.chain.length ? r.pick(hd.chain) : undefined;
    const last = hd.chain[hd.chain.length - 1];
    const x = r.int(17);
    const blk = (sb) => rpc("onSignedBlock", sb);
    const someSb = async () => any ? { encodedBlock: enc(T.block, plainBlock(any.block)), signature: String(any.sigs[0]) } : (await craft(s, victim, stranger)).sb;
    switch (x) {
        case 0: case 1: case 2: return ["garbage", garbage(s, r)];
        case 3: { const c = await craft(s, victim, stranger, { channelId: w.channelId }); return ["stranger-block", blk(c.sb)]; }
        case 4: { // author named, signed by somebody else
            const nxt = await s.next(victim);
            const c = await craft(s, victim, stranger, { participant: nxt });
            return ["forged-author", blk(c.sb)];
        }
        case 5: { // everything valid except the channel
            const nxt = await s.next(victim);
            const wal = WALLETS.find((q) => q.address === nxt);
            const c = await craft(s, victim, wal, { channelId: keccak("0x" + "ab") });
            return ["other-channel", blk(c.sb)];
        }
        case 6: { // the right block in a non-canonical encoding
            if (!any) return ["garbage", garbage(s, r)];
            const e = enc(T.block, plainBlock(any.block)) + "00".repeat(32 * r.range(1, 3));
            const author = WALLETS.find((q) => q.address === any.block.transaction.header.participant);
            return ["padded-known", blk({ encodedBlock: e, signature: signBytes(author, e) })];
        }
        case 7: { const c = await craft(s, victim, stranger, { height: hd.height + r.range(1, 3) }); return ["stranger-future", blk(c.sb)]; }
        case 8: { const c = await craft(s, victim, stranger, { fork: hd.fork + r.range(1, 3), height: r.int(3) }); return ["stranger-future-fork", blk(c.sb)]; }
        case 9: { const sb = await someSb(); return ["bad-signature", blk({ encodedBlock: sb.encodedBlock, signature: r.pick(["0x", "0x" + "00".repeat(65), r.bytes(65), r.bytes(64), sb.signature.slice(0, -2), malleate(sb.signature), compact(sb.signature)]) })]; }
        case 10: { const sb = await someSb(); return ["confirmation-stranger", rpc("onBlockConfirmation", sb, signBytes(stranger, sb.encodedBlock))]; }
        case 11: { const sb = await someSb(); return ["confirmation-bad", rpc("onBlockConfirmation", sb, r.pick(["0x", "0x" + "00".repeat(65), r.bytes(65), "zz", null, 5]))]; }
        case 12: { if (!any) return ["garbage", garbage(s, r)]; const sb = await someSb(); return ["confirmation-malleable", rpc("onBlockConfirmation", sb, r.pick([malleate, compact])(signBytes(part, sb.encodedBlock)))]; }
        case 13: { // a confirmation of something else
            const sb = await someSb();
            return ["confirmation-of-other-bytes", rpc("onBlockConfirmation", sb, signBytes(part, sb.encodedBlock + "00"))];
        }
        case 14: { const m = r.pick(w.wire.filter((q) => q.to === victim)); return m ? ["replay", m.s] : ["garbage", garbage(s, r)]; }
        case 15: { // upper-case hex spelling of a known block
            const sb = await someSb();
            return ["spelling", blk({ encodedBlock: "0x" + sb.encodedBlock.slice(2).toUpperCase(), signature: r.bool() ? sb.signature : "0x" + sb.signature.slice(2).toUpperCase() })];
        }
        case 16: {
            const jc = { channelId: w.channelId, participant: stranger.address, amount: 5, deadlineTimestamp: s.w.nowSec() - 5, data: "0x" };
            const e = enc(T.jc, jc);
            return ["join-expired-or-forged", rpc("onJoinChannelRequest", { encodedJoinChannel: e, signature: signBytes(r.pick([stranger, part]), e) }, r.bool() ? signBytes(part, e) : undefined)];
        }
    }
}
// hostile input arrives over a connection of its own, so that dropping that connection hurts nobody else
function fromStranger(s, victim, msg) {
    const x = { owner: "x", crashed: true, transports: new Map(), address: ethers.ZeroAddress };
    const t = s.w.makeTransport(victim, x);
    victim.p2p.openConnections.push(t);
    s.sim.note("stranger->" + victim.owner, msg.slice(0, 60));
    t.onMessage(msg);
}
// a stranger who keeps sending blocks for the positions to come, and confirmations of blocks under way: what is
// kept for later together with them must not suffer
function crowd(s) {
    const r = s.rng.fork("crowd");
    const stranger = WALLETS[8 + r.int(4)];
    const x = { owner: "x", crashed: true, transports: new Map(), address: ethers.ZeroAddress };
    const links = new Map();
    const say = (q, msg) => {
        if (!links.has(q)) { const t = s.w.makeTransport(q, x); q.p2p.openConnections.push(t); links.set(q, t); }
        s.sim.note("crowd->" + q.owner, msg.slice(0, 60));
        s.count("crowd_messages");
        links.get(q).onMessage(msg);
    };
    let seen = 0;
    const loop = () => {
        if (s.ended) return;
        s.sim.at(r.range(10, 160), () => {
            try {
                const fresh = [];
                for (; seen < s.w.wire.length; seen++) { const m = s.w.wire[seen]; if (/onSignedBlock/.test(m.s.slice(0, 40)) && m.from !== x) fresh.push(m.s); }
                for (const q of s.honest) {
                    if (!q.am || !q.am.hasFork()) continue;
                    const hd = head(s, q);
                    if (fresh.length && r.bool(0.7)) {
                        const sb = JSON.parse(r.pick(fresh)).params[0];
                        say(q, rpc("onBlockConfirmation", sb, signBytes(stranger, sb.encodedBlock)));
                    }
                    if (r.bool(0.5)) {
                        const next = r.bool(0.9);
                        const tx = { header: { channelId: s.w.channelId, participant: stranger.address, forkCnt: next ? hd.fork : hd.fork + 1, transactionCnt: next ? hd.height + r.range(1, 2) : r.int(2), timestamp: Math.max(hd.ts, s.w.nowSec()) }, body: { transactionType: 0, encodedData: "0x", data: "0x" } };
                        const sb = signBlock(stranger, { transaction: tx, stateHash: r.bytes(32), previousStateHash: r.bytes(32) });
                        say(q, r.bool(0.7) ? rpc("onSignedBlock", sb) : rpc("onBlockConfirmation", sb, signBytes(stranger, sb.encodedBlock)));
                    }
                }
            } catch (e) { s.notes.push(String(e.stack || e)); }
            loop();
        }, "crowd", "crowd");
    };
    loop();
}
async function injectRejected(s) {
    const r = s.rng;
    const k = r.range(2, 5);
    for (let i = 0; i < k; i++) {
        const victim = r.pick(s.honest);
        const [name, msg] = await rejectable(s, victim);
        const before = await s.digest(victim);
        const pos = s.posOf(victim);
        const sigs0 = victim.signed;
        s.sim.at(1, () => fromStranger(s, victim, msg), "inject", victim.owner);
        await s.sim.run(40);
        const after = await s.digest(victim);
        s.count("rejected_inputs");
        s.count("reject_" + name);
        if (pos !== s.posOf(victim)) { s.violate("C04", "accepted-" + name, `${victim.owner} accepted input of kind ${name}: ${msg.slice(0, 200)}`); continue; }
        if (JSON.stringify(before) !== JSON.stringify(after)) s.violate("C04", "trace-" + name, `rejected input of kind ${name} changed ${victim.owner}: ${diff(before, after)}; input ${msg.slice(0, 200)}`);
        // garbage may legitimately ask for a handshake answer; anything else must not be signed
        if (name !== "garbage" && name !== "replay" && victim.signed !== sigs0) s.violate(["C04", "C02"], "signs-" + name, `${victim.owner} signed something on input of kind ${name}`);
    }
}
function diff(a, b) {
    for (const k of Object.keys(a)) if (JSON.stringify(a[k]) !== JSON.stringify(b[k])) return k + ": " + JSON.stringify(a[k]).slice(0, 200) + " -> " + JSON.stringify(b[k]).slice(0, 200);
    return "?";
}
async function noise(s) {
    await playOut(s, {
        rest: async () => {
            if (s.calm) await injectRejected(s);
            await s.restCheck();
        }
    });
    const calm = await s.quiesce(Math.min(8000, s.timeoutMs - 4000));
    await s.sim.run(1200);
    if (calm && !s.pendingMessages()) await injectRejected(s);
    s.converged({ signed: true });
}

// ---- silence -------------------------------------------------------------------------------------------
function crash(s, p) {
    p.crashed = true;
    s.bad.add(p.address);
    s.sim.dropOwner(p.owner);
    s.sim.dropOwner("drv" + p.owner);
    for (const q of s.w.peers) { s.w.blocked.add(p.owner + ">" + q.owner); s.w.blocked.add(q.owner + ">" + p.owner); }
    for (const sub of s.chain.subs) if (sub.owner === p.owner) s.chain.subs.delete(sub);
}
function mute(s, p, mode) {
    p.byz = true;
    p.plays = true;
    s.bad.add(p.address);
    const drop = { mute: /./, noConfirm: /onBlockConfirmation/, noBlocks: /onSignedBlock/ }[mode];
    p.filter = (to, m) => (drop.test(m.slice(0, 60)) ? [] : true);
    if (mode !== "noConfirm") {
        const tx = p.signer.hooks.onTx;
        p.signer.hooks.onTx = async (t) => ({ drop: true });
    }
}
// before it falls silent it publishes blocks that are not due yet
async function postAhead(s, p) {
    const hd = head(s, p);
    const n = s.spec.n;
    // rarely those of its next turn, which nothing can be done about (known finding posted-unlinked)
    const ahead = s.rng.bool(0.15) ? [0, 1, 2, n] : [n + 1, n + 2, 2 * n, 3 * n];
    for (const d of s.rng.shuffle(ahead).slice(0, s.rng.range(1, 3))) {
        const c = await craft(s, p, p.wallet, { height: hd.height + d, previousStateHash: keccak(enc("uint256", s.rng.u32())) });
        s.count("posted_ahead");
        s.w.mgr.tx(p.address, "postBlockCalldata", [c.sb]).catch(() => {});
    }
    await s.sim.run(s.rng.pick([100, 1500, 3500]));
}
// has the participant that is due posted a block for this height which does not build on the agreed state?
async function postedUnlinked(s) {
    for (const p of s.honest) {
        const f = p.am.getLatestForkCnt();
        const next = await s.ask(() => p.stateMachine.getNextToWrite());
        if (!s.bad.has(next)) continue;
        const [found, cd] = await s.w.mgr.view("getBlockCallData", [s.w.channelId, f, p.am.getNextBlockHeight(), next]);
        if (found && s.w.decodeBlock(cd.signedBlock.encodedBlock).previousStateHash !== keccak(await s.ask(() => p.stateMachine.getState()))) return true;
    }
    return false;
}
async function silent(s) {
    const r = s.rng;
    await s.until(() => s.moves >= 1 + r.int(4), 40000);
    const k = s.spec.silent || 1;
    const who = r.shuffle(s.w.peers).slice(0, k);
    const modes = [];
    for (const p of who) {
        const mode = r.pick(["crash", "crash", "mute", "noConfirm", "noBlocks"]);
        modes.push(p.owner + ":" + mode);
        if (r.bool(0.35)) await postAhead(s, p);
        if (mode === "crash") crash(s, p);
        else mute(s, p, mode);
        s.count("silent_" + mode);
        await s.sim.run(r.int(3000));
    }
    s.detail = modes.join(",");
    const t0 = s.sim.now;
    const need = 2 * s.spec.n + 1;
    s.spec.moves = s.moves + 1000;
    const before = s.blocks.size;
    const bound = k * (s.timeoutMs + 8000) + k * (s.challengeTime * 1000 + 3000) + need * (s.p2pTime * 250 + 2500) + 15000;
    // a block counts once every live honest participant has agreed to it
    const done = () => {
        const hs = s.honest;
        let n = 0;
        for (const b of s.blocks.values()) if (b.at > t0 + 500 && hs.every((p) => b.seen.has(p))) n++;
        return n >= need;
    };
    const ok = await s.until(done, bound, 500);
    s.count("recoveries");
    if (ok) s.ev.max_recovery_s = Math.max(s.ev.max_recovery_s || 0, Math.round((s.sim.now - t0) / 1000));
    if (!ok) {
        let n = 0;
        for (const b of s.blocks.values()) if (b.at > t0 + 500 && s.honest.every((p) => b.seen.has(p))) n++;
        s.violate(["C21"], (await postedUnlinked(s)) ? "posted-unlinked" : "no-recovery", `${modes.join(",")} of ${s.spec.n} silent: the remaining participants agreed on only ${n} of ${need} blocks within ${bound / 1000} s (on-chain forks ${s.forkGenesis.length}, disputes ${s.disputes.length}; last submission error ${s.submitErrors.length ? s.submitErrors[s.submitErrors.length - 1].e?.message : "none"})`);
    }
    await s.quiesce(Math.floor(s.p2pTime * 350));
}

// ---- provable offences ---------------------------------------------------------------------------------
const OFFENCES = ["doubleSign", "doubleSign", "doubleSignLater", "badState", "failingTx", "tsOld", "tsFuture", "wrongTurn", "wrongTurnIdle", "badStateOnChain", "doubleSignOnChain", "farFuture", "wrongTurnLater", "wrongTurnOnChain"];
async function offend(s, A, kind, targets) {
    const view = A;
    const wal = A.wallet;
    const hd = head(s, view);
    const now = s.w.nowSec();
    let sbs = [];
    let onChain = false;
    if (kind === "doubleSign") {
        const a = await craft(s, view, wal, { call: s.w.kind === "math" ? ["add", [1]] : ["write", ["0x01"]] });
        const b = await craft(s, view, wal, { call: s.w.kind === "math" ? ["add", [2]] : ["write", ["0x02"]] });
        sbs = [a.sb, b.sb];
    } else if (kind === "doubleSignLater" || kind === "doubleSignOnChain") {
        let h = -1;
        for (let i = hd.chain.length - 1; i >= 0; i--) if (hd.chain[i].block.transaction.header.participant === wal.address) { h = i; break; }
        if (h < 0) return false;
        const b = plainBlock(hd.chain[h].block);
        const c = { ...b, transaction: { ...b.transaction, header: { ...b.transaction.header, timestamp: BigInt(b.transaction.header.timestamp) + 1n } } };
        sbs = [signBlock(wal, c)];
        onChain = kind === "doubleSignOnChain";
    } else if (kind === "wrongTurnLater" || kind === "wrongTurnOnChain") {
        // where the agreed block of another stands - mostly the latest one
        const at = hd.chain.map((x, i) => i).filter((i) => hd.chain[i].block.transaction.header.participant !== wal.address);
        if (!at.length) return false;
        const h = s.rng.bool(0.6) ? at[at.length - 1] : s.rng.pick(at);
        const b = plainBlock(hd.chain[h].block);
        sbs = [signBlock(wal, { ...b, transaction: { ...b.transaction, header: { ...b.transaction.header, participant: wal.address } } })];
        onChain = kind === "wrongTurnOnChain";
    } else if (kind === "badState" || kind === "badStateOnChain") {
        const wrong = oddHash(s.rng, [keccak(hd.state), ...s.forkGenesis.filter(Boolean).map((g) => keccak(g.state))]);
        const c = await craft(s, view, wal, { stateHash: wrong });
        if (c.right === wrong) return false;
        sbs = [c.sb];
        onChain = kind === "badStateOnChain";
    } else if (kind === "failingTx") {
        const c = await craft(s, view, wal, { call: s.w.kind === "math" ? ["add", [ethers.MaxUint256]] : ["fail", [s.rng.int(4)]], stateHash: keccak(hd.state) });
        if (c.ok) return false;
        sbs = [c.sb];
    } else if (kind === "tsOld") {
        sbs = [(await craft(s, view, wal, { ts: hd.ts - s.rng.range(1, 30) })).sb];
    } else if (kind === "tsFuture") {
        let ref = hd.ts;
        for (const c of s.calldata) if (c.fork === hd.fork) ref = Math.max(ref, c.time);
        sbs = [(await craft(s, view, wal, { ts: Math.max(ref, now) + s.p2pTime + s.rng.range(12, 40) })).sb];
    } else if (kind === "wrongTurnIdle") {
        // out of turn, with a transaction that the application lets anyone make
        const nxt = turnAt(s, hd);
        if (nxt === wal.address) return false;
        const c = await craft(s, view, wal, { call: s.w.kind === "math" ? ["getSum", []] : s.rng.pick([["getTurn", []], ["getState", []], ["idle", ["0x"]], ["idle", ["0x1234"]]]) });
        if (!c.ok) return false;
        sbs = [c.sb];
    } else if (kind === "wrongTurn" || kind === "farFuture") {
        const nxt = turnAt(s, hd);
        if (nxt === wal.address) return false;
        // "farFuture" is inside the drift the chain allows, but too far ahead for the receiver whose turn it is
        const ts = kind === "farFuture" ? now + 12 : undefined;
        if (kind === "farFuture" && (s.p2pTime < 14 || ts > hd.ts + s.p2pTime)) return false;
        const c = await craft(s, view, wal, { ts });
        if (c.ok) return false;
        sbs = [c.sb];
        if (kind === "farFuture") targets = s.w.peers.filter((p) => p.address === nxt);
    }
    s.offenders.add(wal.address);
    s.bad.add(wal.address);
    A.byz = true;
    s.count("offence_" + kind);
    s.offence = { kind, at: s.sim.now, fork: hd.fork, height: hd.height };
    if (onChain) {
        s.w.mgr.tx(wal.address, "postBlockCalldata", [sbs[0]]).catch((e) => { s.offence.postFailed = s.chain.reason(e); });
    } else if (kind === "doubleSign") {
        // each half to a different part of the others (or both to the same)
        const o = s.rng.shuffle(targets);
        const cut = s.rng.range(0, o.length);
        o.forEach((q, i) => send(s, A, q, rpc("onSignedBlock", sbs[i < cut ? 0 : 1])));
        if (cut === 0 || cut === o.length || s.rng.bool(0.5)) for (const q of o) if (s.rng.bool(0.6) || q === o[0]) for (const sb of sbs) send(s, A, q, rpc("onSignedBlock", sb));
    } else for (const q of targets) send(s, A, q, rpc("onSignedBlock", sbs[0]));
    return true;
}
function hookOffence(s, A, kind, onlyOne) {
    const from = s.rng.range(0, 3);
    const needTurn = !["wrongTurn", "wrongTurnIdle", "doubleSignLater", "doubleSignOnChain", "farFuture", "wrongTurnLater", "wrongTurnOnChain"].includes(kind);
    const pick = () => (onlyOne ? [s.rng.pick(s.honest.filter((q) => q !== A))] : subset(s.rng, s.honest.filter((q) => q !== A)));
    if (needTurn)
        A.onMyTurn = async () => {
            if (s.offence || s.moves < from) return false;
            return offend(s, A, kind, pick());
        };
    else {
        const loop = () => {
            if (s.ended || s.offence) return;
            s.sim.at(s.rng.range(200, 700), async () => {
                try {
                    if (!s.offence && s.moves >= from && A.am.hasFork() && !s.paused) await offend(s, A, kind, pick());
                } catch (e) { s.notes.push(String(e)); }
                loop();
            }, "attack", "atk");
        };
        loop();
    }
}
async function offence(s) {
    const r = s.rng;
    const A = r.pick(s.w.peers);
    const kind = s.spec.kindOf || r.pick(OFFENCES);
    const one = r.bool(0.4);
    A.plays = true;
    hookOffence(s, A, kind, one);
    s.spec.moves = 1000;
    s.detail = kind + (one ? " seen by one" : "");
    await s.until(() => s.offence, 35000);
    if (!s.offence) return void s.count("offence_not_possible");
    const manner = r.pick(["silent", "plays", "plays"]);
    if (manner === "silent") {
        A.filter = () => [];
        A.plays = false;
        A.signer.hooks.onTx = async () => ({ drop: true });
    }
    s.detail += " then " + manner;
    const t0 = s.sim.now;
    const slashed = await s.until(() => s.slashed.has(A.address), 25000);
    if (s.offence.postFailed) return void s.count("offence_not_postable");
    if (!slashed) {
        s.violate(["C22"], "not-slashed-" + kind, `offence ${kind} by ${A.owner} at ${s.offence.fork}/${s.offence.height} was not punished within 25 s (client transactions refused: ${refused(s).join(", ") || "none"})`);
        const rf = refused(s).filter((x) => !RACE.test(x));
        if (rf.length) s.violate(["C07"], "refused-" + kind, `the chain refuses what the client files for offence ${kind}: ${rf.join(", ")}`);
        return;
    }
    s.count("offences_punished");
    const rf = refused(s).filter((x) => !RACE.test(x));
    if (rf.length) s.violate(["C07"], "refused-" + kind, `the chain refuses what the client files for offence ${kind}: ${rf.join(", ")}`);
    // life goes on without the offender
    const f0 = () => s.forkGenesis.length - 1;
    const ok = await s.until(() => {
        const f = f0();
        const parts = s.forkParts(f);
        if (parts.includes(A.address)) return false;
        return s.honest.every((p) => (s.chains.get(p).forks[f] || []).length >= 3);
    }, 45000);
    if (!ok) s.violate(["C22"], "no-continuation", `after ${A.owner} was slashed for ${kind} the honest participants do not continue: fork ${f0()}, participants ${s.forkParts(f0()).length}, heights ${s.honest.map((p) => (s.chains.get(p).forks[f0()] || []).length)}; last submission error ${s.submitErrors.length ? s.submitErrors[s.submitErrors.length - 1].e?.message : "none"}`);
    await s.sim.run(s.challengeTime * 1000 > 15000 ? 0 : s.challengeTime * 1000);
    await s.quiesce(Math.floor(s.p2pTime * 350));
    s.converged({ signed: false });
}
// losing a race, or telling the chain what it knows already
const RACE = /ErrorDisputeInProgrees|ErrorDisputeForkMismatch|ErrorDisputeChallengeMismatch|ErrorDisputeExpired|dropped/;
function refused(s) {
    const out = [];
    for (const p of s.w.peers) if (!p.byz && !p.crashed) for (const e of p.txErrors) { const q = s.parseTx(e.tx); if (q && /Dispute$/.test(q.name)) out.push(e.reason); }
    return out;
}

// ---- arbitrary misbehaviour ----------------------------------------------------------------------------
async function byz(s) {
    const r = s.rng;
    const k = s.spec.bad || 1;
    const As = r.shuffle(s.w.peers).slice(0, k);
    for (const A of As) { A.byz = true; A.plays = true; s.bad.add(A.address); s.offenders.add(A.address); }
    const acts = [];
    for (const A of As) {
        if (r.bool(0.4)) A.filter = (to, m) => (r.bool(0.3) ? [] : r.bool(0.1) ? [[to, m], [to, m]] : true);
        if (r.bool(0.25)) A.filter = (to, m) => (/onBlockConfirmation/.test(m.slice(0, 40)) ? [] : true);
        A.onMyTurn = async () => {
            if (r.bool(0.5)) return false;
            await attackAct(s, A, acts, true);
            return r.bool(0.7);
        };
        const loop = () => {
            if (s.ended) return;
            s.sim.at(r.range(400, 2500), async () => {
                try { if (s.active && !s.paused) await attackAct(s, A, acts, false); } catch (e) { s.notes.push(String(e.stack || e)); }
                loop();
            }, "attack", "atk");
        };
        loop();
    }
    s.spec.moves = 1000;
    await s.sim.run(r.range(12000, 32000));
    s.paused = true;
    await s.sim.run(3000);
    s.detail = `${k} bad: ${[...new Set(acts)].join(",")}`;
    // whatever happened, an honest participant still answers
    for (const p of s.honest) {
        const rr = await s.next(p).then((res) => ({ ok: true, res }));
        if (!rr.ok) s.violate(["C04", "C17"], "unresponsive", `${p.owner} no longer answers queries after hostile input`);
    }
}
async function attackAct(s, A, acts, turn) {
    const r = s.rng;
    if (!A.am.hasFork()) return;
    const targets = s.honest.filter((q) => q !== A);
    if (!targets.length) return;
    const view = r.bool(0.7) ? A : r.pick(targets);
    const hd = head(s, view);
    const wal = A.wallet;
    const some = subset(r, targets);
    const x = r.int(19);
    const name = ["equivocate", "badState", "badPrev", "tsOld", "tsFuture", "wrongHeight", "wrongFork", "wrongChannel", "padded", "conflictOld", "confirmOther", "selfConfirm", "garbage", "oracleHandshake", "oracleJoin", "postChain", "premature", "staleConfirm", "valid"][x];
    acts.push(name);
    s.count("attack_" + name);
    const out = (sb, qs = some) => qs.forEach((q) => send(s, A, q, rpc("onSignedBlock", sb)));
    const mk = (o) => craft(s, view, wal, o);
    switch (name) {
        case "equivocate": { const a = await mk({}); const b = await mk({ ts: Math.max(hd.ts, s.w.nowSec()) + 1 }); targets.forEach((q) => { const o = r.bool() ? [a.sb, b.sb] : [b.sb, a.sb]; send(s, A, q, rpc("onSignedBlock", o[0])); if (r.bool()) send(s, A, q, rpc("onSignedBlock", o[1])); }); break; }
        case "badState": out((await mk({ stateHash: oddHash(r, nearHashes(s, hd)) })).sb); break;
        case "badPrev": out((await mk({ previousStateHash: oddHash(r, nearHashes(s, hd)) })).sb); break;
        case "tsOld": out((await mk({ ts: hd.ts - r.range(1, 50) })).sb); break;
        case "tsFuture": out((await mk({ ts: hd.ts + s.p2pTime + r.range(1, 100) })).sb); break;
        case "wrongHeight": out((await mk({ height: hd.height + r.range(1, 4) })).sb); break;
        case "wrongFork": out((await mk({ fork: hd.fork + r.range(1, 2), height: r.int(2) })).sb); break;
        case "wrongChannel": out((await mk({ channelId: keccak(r.bytes(4)) })).sb); break;
        case "padded": { const c = await mk({}); const e = c.sb.encodedBlock + "00".repeat(32); out({ encodedBlock: e, signature: signBytes(wal, e) }); break; }
        case "conflictOld": {
            if (!hd.chain.length) return;
            const h = r.int(hd.chain.length);
            const b = plainBlock(hd.chain[h].block);
            out(signBlock(wal, { ...b, transaction: { ...b.transaction, header: { ...b.transaction.header, participant: wal.address, timestamp: BigInt(b.transaction.header.timestamp) + 3n } } }));
            break;
        }
        case "confirmOther": { // confirm a block of another participant that nobody else has
            const c = await mk({});
            targets.forEach((q) => send(s, A, q, rpc("onBlockConfirmation", c.sb, signBytes(wal, c.sb.encodedBlock))));
            break;
        }
        case "selfConfirm": {
            const c = r.bool() && hd.chain.length ? { sb: { encodedBlock: enc(T.block, plainBlock(r.pick(hd.chain).block)), signature: signBytes(wal, enc(T.block, plainBlock(r.pick(hd.chain).block))) } } : await mk({});
            targets.forEach((q) => send(s, A, q, rpc("onBlockConfirmation", c.sb, signBytes(wal, c.sb.encodedBlock))));
            break;
        }
        case "garbage": targets.forEach((q) => send(s, A, q, garbage(s, r))); break;
        case "oracleHandshake": {
            // a "challenge" that is the hash of a block in the victim's name
            const q = r.pick(targets);
            const c = await craft(s, q, wal, { participant: q.address });
            const h = keccak(enc(T.block, c.block));
            const forms = [h, ethers.toUtf8String(ethers.toUtf8Bytes(h)), Object.values(ethers.getBytes(h)), { ...ethers.getBytes(h) }, h.toUpperCase(), c.sb.encodedBlock, "0x"];
            send(s, A, q, rpc("onInitHandshakeRequest", r.pick(forms), s.w.nowSec()));
            break;
        }
        case "oracleJoin": {
            const q = r.pick(targets);
            const c = await craft(s, q, wal, { participant: q.address });
            const e = r.pick([c.sb.encodedBlock, enc(T.jc, { channelId: s.w.channelId, participant: r.pick([q.address, wal.address]), amount: 7, deadlineTimestamp: s.w.nowSec() + 50, data: c.sb.encodedBlock }), enc(T.jc, { channelId: s.w.channelId, participant: wal.address, amount: 7, deadlineTimestamp: s.w.nowSec() + 50, data: "0x" }) + "00".repeat(32)]);
            send(s, A, q, rpc("onJoinChannelRequest", { encodedJoinChannel: e, signature: signBytes(wal, e) }));
            break;
        }
        case "postChain": {
            const c = await mk(r.pick([{}, { stateHash: keccak(r.bytes(8)) }, { height: hd.height + 1 }, { ts: s.w.nowSec() - 2 }]));
            s.w.mgr.tx(wal.address, "postBlockCalldata", [c.sb]).catch(() => {});
            break;
        }
        case "premature": {
            const ev = A.am.getFinalizedAndLatestWithVotes(hd.fork, A.address);
            const nxt = await s.next(A);
            s.w.mgr.tx(wal.address, "createDispute", [s.w.channelId, hd.fork, ev.encodedLatestFinalizedState, ev.encodedLatestCorrectState, ev.virtualVotingBlocks, r.bool(0.8) ? nxt : r.pick(targets).address, hd.height, []]).then(
                () => s.count("premature_timeouts_accepted"), () => s.count("premature_timeouts_refused"));
            break;
        }
        case "staleConfirm": {
            const m = r.pick(s.w.wire.filter((z) => /onBlockConfirmation|onSignedBlock/.test(z.s.slice(0, 40))).slice(-200));
            if (m) targets.forEach((q) => send(s, A, q, m.s));
            break;
        }
        case "valid": if (turn) out((await mk({})).sb, targets.slice(0, r.range(1, targets.length))); break;
    }
}

// ---- attacks on the dispute process --------------------------------------------------------------------
async function attack(s) {
    const r = s.rng;
    const A = r.pick(s.w.peers);
    A.byz = true;
    A.plays = true;
    s.bad.add(A.address);
    const kind = s.spec.attackKind || r.pick(["sacrifice", "accomplice", "accomplice", "accomplice", "staleTimeout", "staleTimeout", "falseTimeout", "falseTimeout", "falseTimeout", "premature", "latecalldata", "selective", "strangerCalldata", "lateWriter", "lateWriter"]);
    s.detail = kind;
    s.count("attack_" + kind);
    s.spec.moves = 1000;
    const start = r.range(2, 6);
    await s.until(() => s.moves >= start, 60000);
    const wal = A.wallet;
    const evidence = (upTo) => {
        const f = A.am.getLatestForkCnt();
        const ch = s.w.chainOf(A, f);
        const gen = A.am.getForkGenesisStateEncoded(f);
        const n = Math.min(upTo, ch.length);
        if (!n) return { f, fin: gen, latest: gen, votes: [], height: 0 };
        const parts = s.forkParts(f);
        // the shortest run of votes ending at block n-1 that everybody signed, else everything from genesis
        for (let k = n - 1; k >= 0; k--) {
            const run = ch.slice(k, n);
            const all = new Set(run.flatMap((c) => [...s.signersOf(plainBlock(c.block), c.sigs.map(String))]));
            if (parts.every((a) => all.has(a)) || k === 0)
                return { f, fin: parts.every((a) => all.has(a)) ? ch[k].state : gen, latest: ch[n - 1].state, height: n, votes: run.map((c) => ({ encodedBlock: enc(T.block, plainBlock(c.block)), signatures: c.sigs.map(String) })) };
        }
    };
    const ownDouble = (w2, f) => {
        const blk = (t) => ({ transaction: { header: { channelId: s.w.channelId, participant: w2.address, forkCnt: f, transactionCnt: 700, timestamp: t }, body: { transactionType: 0, encodedData: "0x", data: "0x" } }, stateHash: ethers.ZeroHash, previousStateHash: ethers.ZeroHash });
        return proof("DoubleSign", { doubleSigns: [{ block1: signBlock(w2, blk(1)), block2: signBlock(w2, blk(2)) }] });
    };
    // time `who` out at a height at which it was to write, whether or not it did
    const accuse = async (who) => {
        const f = A.am.getLatestForkCnt();
        const ch = s.w.chainOf(A, f);
        const hs = ch.map((c, i) => i).filter((i) => ch[i].block.transaction.header.participant === who.address);
        if (who.crashed && r.bool()) hs.splice(0, hs.length, ch.length);
        if (!hs.length) return;
        const h = r.bool(0.6) ? hs[hs.length - 1] : r.pick(hs);
        const e = evidence(h);
        const rr = await s.sim.wait(s.w.mgr.tx(wal.address, "createDispute", [s.w.channelId, e.f, e.fin, e.latest, e.votes, who.address, h, []]));
        if (rr.ok) { s.detail += ` accused at ${h} of ${ch.length}`; s.count("attack_accusations_accepted"); if (h < ch.length) s.offenders.add(A.address); }
        else s.count("attack_accusations_refused");
    };
    let disputed = false;
    if (kind === "sacrifice" || kind === "accomplice") {
        let other = A;
        if (kind === "accomplice") {
            other = r.pick(s.w.peers.filter((q) => q !== A));
            if (s.spec.n < 3) return;
            other.byz = true; other.plays = true;
            s.bad.add(other.address);
        }
        s.offenders.add(A.address);
        s.offenders.add(other.address);
        const e = evidence(r.pick([0, 0, 1, 2]));
        try {
            const rr = await s.sim.wait(s.w.mgr.tx(wal.address, "createDispute", [s.w.channelId, e.f, e.fin, e.latest, e.votes, ethers.ZeroAddress, 0, [ownDouble(other.wallet, e.f)]]));
            if (!rr.ok) { s.count("attack_dispute_refused"); s.detail += " refused:" + s.chain.reason(rr.err); }
            disputed = s.disputes.length > 0;
        } catch (x) { s.notes.push(String(x.stack)); }
        if (kind === "accomplice" && disputed && r.bool(0.6)) {
            // make the poster an offender too, before anybody can show that its state was stale
            const d = s.disputes[s.disputes.length - 1];
            const x = await s.sim.wait(s.w.mgr.tx(r.pick([wal.address, wal.address, other.address, WALLETS[10].address]), "challengeDispute", [s.w.channelId, e.f, d.challengeCnt, [ownDouble(wal, e.f)], [], e.fin, e.latest]));
            s.detail += x.ok ? " shielded" : " shield refused:" + s.chain.reason(x.err);
        }
        if (r.bool()) A.filter = () => [];
    } else if (kind === "falseTimeout") {
        // accuse an honest participant of not having written a block everybody agreed to long ago
        const victim = r.pick(s.honest);
        for (let i = 0; i < 40 && !s.disputes.length; i++) {
            await accuse(victim);
            await s.sim.run(r.range(300, 1500));
        }
        disputed = s.disputes.length > 0;
        if (r.bool()) A.filter = () => [];
    } else if (kind === "staleTimeout") {
        // a participant really is gone; the attacker is quicker than the others to time it out, with an old state
        const gone = r.pick(s.w.peers.filter((q) => q !== A));
        await s.until(async () => (await s.next(A)) === gone.address && !s.w.peers.some((q) => q.submitting), 40000, 50);
        crash(s, gone);
        const t1 = s.sim.now;
        if (r.bool()) await s.sim.run(Math.max(0, s.timeoutMs - 3000));
        for (let i = 0; i < 60 && !s.disputes.length && s.sim.now < t1 + s.timeoutMs + 20000; i++) {
            await accuse(gone);
            await s.sim.run(r.range(20, 600));
        }
        disputed = s.disputes.length > 0;
        if (r.bool()) A.filter = () => [];
    } else if (kind === "premature") {
        for (let i = 0; i < 8; i++) {
            await s.sim.run(r.int(3000));
            const f = A.am.getLatestForkCnt();
            const e = evidence(1e9);
            const nxt = await s.next(A);
            const rr = await s.sim.wait(s.w.mgr.tx(wal.address, "createDispute", [s.w.channelId, f, e.fin, e.latest, e.votes, nxt, e.height, []]));
            s.count(rr.ok ? "timeouts_accepted" : "timeouts_refused");
        }
    } else if (kind === "latecalldata") {
        // the attacker keeps its blocks to itself and posts them at the last moment
        A.plays = false;
        A.filter = (to, m) => (/onSignedBlock/.test(m.slice(0, 40)) ? [] : true);
        for (let i = 0; i < 3; i++) {
            const mine = await s.until(async () => (await s.next(A)) === A.address, 30000);
            if (!mine) break;
            const c = await craft(s, A, wal, {});
            const wait = (s.p2pTime + s.agreementTime) * 1000 - r.range(500, 4000);
            await s.sim.run(wait);
            await s.sim.wait(s.w.mgr.tx(wal.address, "postBlockCalldata", [c.sb]));
            await s.sim.run(4000);
        }
        A.plays = true; A.filter = undefined;
    } else if (kind === "selective") {
        const only = r.pick(s.honest);
        A.filter = (to, m) => (to === only || !/onSignedBlock/.test(m.slice(0, 40)) ? true : []);
        await s.sim.run(20000);
    } else if (kind === "lateWriter") {
        // gets the fork disputed when it is its turn, and only then writes
        A.onMyTurn = async () => true;
        await s.until(async () => (await s.next(s.honest[0])) === A.address && !s.disputes.length, 40000, 100);
        const other = r.pick(s.w.peers.filter((q) => q !== A));
        other.byz = true; other.plays = true;
        s.bad.add(other.address);
        if (s.spec.n > 3 || r.bool()) { other.byz = true; other.plays = true; }
        s.bad.add(other.address).add(A.address);
        s.offenders.add(other.address).add(A.address);
        const e = evidence(r.pick([0, 1e9, 1e9]));
        const rr = await s.sim.wait(s.w.mgr.tx(wal.address, "createDispute", [s.w.channelId, e.f, e.fin, e.latest, e.votes, ethers.ZeroAddress, 0, [ownDouble(other.wallet, e.f)]]));
        if (!rr.ok) s.detail += " refused:" + s.chain.reason(rr.err);
        disputed = s.disputes.length > 0;
        await s.sim.run(6000);
        A.onMyTurn = undefined;
    } else if (kind === "strangerCalldata") {
        const st = WALLETS[9];
        for (let i = 0; i < 5; i++) {
            const p = r.pick(s.honest);
            const c = await craft(s, p, st, { height: head(s, p).height + r.int(3) });
            await s.sim.wait(s.w.mgr.tx(st.address, "postBlockCalldata", [c.sb]));
            await s.sim.run(r.int(3000));
        }
    }
    // honest participants get past it
    const t0 = s.sim.now;
    const n0 = s.blocks.size;
    const ok = await s.until(() => {
        const hs = s.honest;
        let n = 0;
        for (const b of s.blocks.values()) if (b.at > t0 && hs.every((p) => b.seen.has(p))) n++;
        return n >= 3;
    }, 2 * s.timeoutMs + 40000 + (disputed ? s.challengeTime * 1000 : 0), 500);
    if (!ok) s.violate(["C21"], "no-recovery-" + kind, `after attack ${kind} the honest participants do not go on (forks ${s.forkGenesis.length}, last submission error ${s.submitErrors.length ? s.submitErrors[s.submitErrors.length - 1].e?.message : "none"})`);
    if (disputed) { s.paused = true; await s.sim.run(Math.min(s.challengeTime * 1000 + 2000, s.timeoutMs - 3000)); }
    await s.quiesce(Math.floor(s.p2pTime * 350));
}

// a participant that goes on writing on a fork that is being disputed
function lateBlocks(s, fork) {
    for (const A of s.w.peers) {
        if (!A.byz || A.crashed || A.lateOn === fork) continue;
        A.lateOn = fork;
        const r = s.rng.fork("late" + A.owner);
        const go = (k) => s.sim.at(r.range(3200, 5200), async () => {
            if (s.ended || !k) return;
            try {
                const q = s.honest.find((x) => x !== A && x.am.hasFork() && x.am.getLatestForkCnt() === fork);
                if (q && (await s.next(q)) === A.address) {
                    const c = await craft(s, q, A.wallet, {});
                    s.count("blocks_on_disputed_fork_sent");
                    s.honest.forEach((x) => send(s, A, x, rpc("onSignedBlock", c.sb)));
                    return;
                }
            } catch (e) { s.notes.push(String(e.stack || e)); }
            go(k - 1);
        }, "attack", "late");
        go(3);
    }
}
module.exports = { lateBlocks, share, honest, lossy, partition, noise, silent, offence, byz, attack, OFFENCES };
