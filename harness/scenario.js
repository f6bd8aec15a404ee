"use strict";
// Engine S: one simulated channel life. Real peers, real contracts, seeded network, hostile participants,
// and the monitors that watch them. A scenario returns the violations seen and counts of what was observed.
const { World, T, enc, dec, keccak, signBytes, plainBlock, signBlock, proof, coder, WALLETS, ethers } = require("./lib/world");
const { preimage } = require("./lib/signwatch");
const { Rng } = require("./lib/rng");

const NETS = {
    fast: { minDelay: 2, maxDelay: 40, logMin: 50, logMax: 400, txMin: 20, txMax: 200 },
    normal: { minDelay: 5, maxDelay: 300, logMin: 100, logMax: 900, txMin: 50, txMax: 600, opDelayP: 0.2, opDelayMax: 25 },
    slow: { minDelay: 50, maxDelay: 1500, logMin: 200, logMax: 1200, txMin: 50, txMax: 700, opDelayP: 0.3, opDelayMax: 60 },
    busy: { minDelay: 2, maxDelay: 60, dup: 0.4, logMin: 50, logMax: 600, logDup: 0.3, logEcho: 0.3, opDelayP: 0.6, opDelayMax: 120 },
    lossy: { minDelay: 5, maxDelay: 250, drop: 0.25, dup: 0.1, logMin: 100, logMax: 900, txMin: 50, txMax: 600, opDelayP: 0.1, opDelayMax: 25 }
};
const hex = (s) => ethers.hexlify(ethers.toUtf8Bytes(s));
const lower = (s) => String(s).toLowerCase();
const J = (x) => JSON.stringify(x, (k, v) => (typeof v === "bigint" ? v.toString() : v));

class Scenario {
    constructor(chain, seed, spec) {
        this.chain = chain;
        this.seed = seed;
        this.spec = spec;
        this.rng = new Rng("scn:" + seed);
        this.viol = [];
        this.ev = {};
        this.moves = 0;
        this.active = false;
        this.offenders = new Set(); // addresses that really misbehaved in a provable way
        this.bad = new Set(); // addresses that are not honest and responsive
        this.signed = new Map(); // peer -> Map(pos -> [{hash, sig, bytes}])
        this.chains = new Map(); // peer -> {forks: [[hash,...]], last}
        this.blocks = new Map(); // "fork/height/hash" -> {block, encoded, state, seenBy:Set, authorSig}
        this.order = new Map(); // peer -> list of blocks in order of agreement
        this.forkGenesis = []; // from the chain: {state,time}
        this.calldata = []; // posted block calldata {fork,height,author,time,encoded}
        this.disputes = [];
        this.timedOut = new Set();
        this.slashed = new Set();
        this.submitErrors = [];
        this.notes = [];
        this.authored = []; // own blocks of honest peers: time, position
        this.rejects = 0;
        this.unhandled = [];
    }
    count(k, n = 1) { this.ev[k] = (this.ev[k] || 0) + n; }
    violate(props, key, msg) {
        if (this.viol.length > 40) return;
        if (this.viol.some((v) => v.key === key)) return;
        this.viol.push({ props: [].concat(props), key, msg: String(msg).slice(0, 1500) });
    }
    async run() {
        const s = this.spec;
        const onUnhandled = (e) => this.unhandled.push(e);
        process.on("unhandledRejection", onUnhandled);
        await this.chain.reset(s.history);
        const w = (this.w = new World(this.chain, this.seed, { kind: s.kind, net: { ...NETS[s.net], ...(s.netOver || {}) } }));
        this.sim = w.sim;
        [this.p2pTime, this.agreementTime, this.fallback, this.challengeTime] = w.times;
        this.timeoutMs = (this.p2pTime + this.agreementTime + this.fallback) * 1000;
        w.onSerial = (k, m) => this.violate("C17", "serial-" + k, m);
        w.onCount = (k) => this.count(k);
        w.onReceive = (p, m) => {
            const x = /"encodedBlock":"(0x[0-9a-f]*)"/i.exec(m);
            if (!x) return;
            p.gotBlock = p.gotBlock || new Map();
            if (p.disputeFiled && p.disputeFiled.size) this.count("blocks_received_while_disputing");
            // what counts is when it was first received: peers repeat each other
            if (!p.gotBlock.has(x[1])) p.gotBlock.set(x[1], this.sim.now);
        };
        w.onTxSent = (p, tx) => this.onPeerTx(p, tx);
        w.onTxFailed = (p, tx) => this.onPeerTx(p, tx, true);
        w.onSigned = (p, m, sig) => this.onSigned(p, m, sig);
        w.onChainEvent = (p) => this.onChain(p);
        w.onLogSeen = (p, e) => {
            if (e.name !== "DisputeUpdated") return;
            p.disputeSeen = p.disputeSeen || new Map();
            const f = Number(e.args.dispute.forkCnt);
            if (!p.disputeSeen.has(f)) p.disputeSeen.set(f, this.sim.now);
        };
        const origStep = w.sim.step.bind(w.sim);
        w.sim.step = async () => {
            const r = await origStep();
            this.observe();
            return r;
        };
        try {
            await w.boot(s.n, { noWait: true, peer: (i) => this.peerOpts(i) });
            for (const p of w.peers) this.instrument(p);
            await w.sim.run(w.net.logMax + 50);
            this.active = true;
            if (s.slowMs) {
                w.slowLinks = new Map();
                for (const a of w.peers) for (const b of w.peers) if (a !== b && this.rng.bool(s.slowShare)) w.slowLinks.set(a.owner + ">" + b.owner, s.slowMs);
                this.count("slow_links", w.slowLinks.size);
            }
            for (const p of w.peers) this.drive(p);
            await SCRIPTS[s.type](this);
            this.active = false;
            await this.finish();
        } finally {
            this.active = false;
            w.dispose();
            for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r));
            process.removeListener("unhandledRejection", onUnhandled);
            for (const p of w.peers) if (p.contract) try { p.contract.removeAllListeners && (await p.contract.removeAllListeners()); } catch (e) {}
        }
        if (this.unhandled.length) this.violate(["C04"], "unhandled-rejection", "unhandled rejection: " + (this.unhandled[0]?.stack || this.unhandled[0]));
        if (w.sim.errors.length) this.violate(["C04"], "timer-throws", "exception out of a callback: " + (w.sim.errors[0].err?.stack || w.sim.errors[0].err));
        const ch = this.w.peers.map((p) => (this.chains.get(p)?.forks || []).map((f) => f.length).join("+"));
        return {
            viol: this.viol,
            ev: this.ev,
            sig: s.type + ":" + s.kind + ":" + s.n + ":" + w.sim.hash.toString(16),
            nontrivial: (this.ev.blocks_agreed || 0) > 0,
            sample: `${s.type} ${s.kind} n=${s.n} net=${s.net}${this.detail ? " " + this.detail : ""}: blocks per fork ${ch.join(" | ")}, ${w.wire.length} messages, chain events ${w.chainLog.map((e) => e.name[0]).join("")}`,
            trace: w.sim.trace
        };
    }
    peerOpts(i) {
        const s = this.spec;
        const self = this;
        const o = {};
        if (s.eager && s.eager[i])
            o.hooks = {
                onTurn: (a) => {
                    const p = self.w.peers[i];
                    if (!p || !p.sm || !self.active || self.paused || a !== p.address || p.crashed || p.byz) return;
                    if (self.moves >= self.spec.moves || p.eagerAt === self.posOf(p)) return;
                    // a sole participant would go on for ever without time passing
                    if ((self.forkParts(p.am.getLatestForkCnt()) || []).length < 2 || self.sim.now < (p.eagerNext || 0)) return;
                    p.eagerNext = self.sim.now + (p.drv ? p.drv.range(200, 900) : 300);
                    p.eagerAt = self.posOf(p);
                    self.count("eager_submissions");
                    self.submit(p);
                }
            };
        if (s.skew && s.skew[i]) o.skewMs = s.skew[i];
        return o;
    }
    posOf(p) { return p.am.getLatestForkCnt() + "/" + p.am.getNextBlockHeight(); }
    get honest() { return this.w.peers.filter((p) => !p.byz && !p.crashed); }
    instrument(p) {
        const self = this;
        this.chains.set(p, { forks: [], genesis: [], gsigs: new Map() });
        this.order.set(p, []);
        p.appEvents = [];
        const names = this.w.kind === "math" ? ["Addition", "NextToPlay"] : ["Moved", "Digest"];
        // a listener of the application that fails
        if (p.rng.bool(0.2)) for (const n of names) p.contract.on(n, () => { throw new Error("listener"); }).catch(() => {});
        for (const n of names)
            p.contract.on(n, (...a) => {
                const payload = a[a.length - 1];
                const args = payload && payload.args !== undefined && payload.emitter ? a.slice(0, -1) : a;
                p.appEvents.push({ n, args: args.map((x) => (typeof x === "object" && x !== null && x.emitter ? undefined : String(x))).filter((x) => x !== undefined), t: self.sim.now });
            }).catch(() => {});
        // operations of one participant must not overlap on its local machine (C17)
        const sm = p.stateMachine;
        let busy = 0;
        const st = sm.stateTransition.bind(sm);
        sm.stateTransition = async (tx) => {
            if (busy) self.violate("C17", "overlap-transition", `${p.owner}: two state transitions in progress at once`);
            busy++;
            self.count("local_executions");
            try { return await st(tx); } finally { busy--; }
        };
    }
    // ---------- monitors fed by events ----------
    onSigned(p, m, sig) {
        this.count("signatures");
        if (typeof m === "string") {
            if (/^0x[0-9a-fA-F]{64}$/.test(m)) this.violate("C02", "signs-raw-hash", p.owner + " signs a bare 32 byte text " + m);
            return;
        }
        if (!(m instanceof Uint8Array) || m.length !== 32) return;
        const h = ethers.hexlify(m);
        const bytes = preimage(h);
        if (p.byz) return;
        if (!bytes) return this.violate("C02", "signs-unknown", `${p.owner} signs the 32 byte value ${h} that is not the hash of anything it encoded or decoded`);
        let block;
        try {
            block = dec(T.block, bytes);
            if (enc(T.block, block) !== bytes) block = undefined;
        } catch (e) { block = undefined; }
        if (block) {
            const hd = block.transaction.header;
            const pos = hd.channelId + "/" + hd.forkCnt + "/" + hd.transactionCnt;
            let mp = this.signed.get(p);
            if (!mp) this.signed.set(p, (mp = new Map()));
            let a = mp.get(pos);
            if (!a) mp.set(pos, (a = []));
            if (!a.some((x) => x.hash === h)) a.push({ hash: h, sig, bytes, block });
            this.count("block_signatures");
            const filed = p.disputeFiled && p.disputeFiled.get(Number(hd.forkCnt));
            if (filed !== undefined && hd.channelId === this.w.channelId) {
                this.count("signed_after_filing");
                const got = p.gotBlock && p.gotBlock.get(bytes);
                if (this.sim.now > filed + 1500 || (got !== undefined && got > filed)) this.violate("C02", "signs-disputing", `${p.owner} signs a block ${hd.forkCnt}/${hd.transactionCnt} of a fork it brought to dispute ${this.sim.now - filed} ms ago`);
            }
            const seen = p.disputeSeen && p.disputeSeen.get(Number(hd.forkCnt));
            if (seen !== undefined && hd.channelId === this.w.channelId && this.sim.now > seen + 3000)
                this.violate("C02", "signs-disputed", `${p.owner} signs a block ${hd.forkCnt}/${hd.transactionCnt} of a fork it has known to be disputed for ${this.sim.now - seen} ms`);
            return;
        }
        let jc;
        try {
            jc = dec(T.jc, bytes);
            if (enc(T.jc, jc) !== bytes) jc = undefined;
        } catch (e) { jc = undefined; }
        if (jc) {
            this.count("join_signatures");
            if (jc.participant === p.address) this.violate("C02", "signs-own-join", `${p.owner} signs a join request in its own name on a peer's demand`);
            return;
        }
        this.violate("C02", "signs-unknown-structure", `${p.owner} signs bytes that are neither a block nor a join request: ${bytes.slice(0, 300)}`);
    }
    released(p, sig) {
        for (const m of this.w.wire) if (m.from === p && m.s.includes(sig)) return true;
        for (const tx of p.txs) if (String(tx.data).includes(sig.slice(2))) return true;
        return false;
    }
    onChain(e) {
        if (e.name === "SetState") {
            this.forkGenesis[Number(e.args.forkCnt)] = { state: e.args.encodedState, time: Number(e.args.timestamp) };
            this.count("forks_on_chain");
        } else if (e.name === "BlockCalldataPosted") {
            const b = dec(T.block, e.args.signedBlock.encodedBlock);
            this.calldata.push({
                fork: Number(b.transaction.header.forkCnt), height: Number(b.transaction.header.transactionCnt), author: b.transaction.header.participant,
                time: Number(e.args.timestamp), encoded: e.args.signedBlock.encodedBlock, at: this.sim.now
            });
            this.count("calldata_posted");
        } else if (e.name === "DisputeUpdated") {
            const d = e.args.dispute;
            this.count("dispute_updates");
            this.disputes.push({ at: this.sim.now, forkCnt: Number(d.forkCnt), challengeCnt: Number(d.challengeCnt), slashed: [...d.slashedParticipants], timedout: d.timedoutParticipant, votes: d.virtualVotingBlocks.length, d, finalAtStart: this.finalHeight(Number(d.forkCnt)) });
            for (const a of d.slashedParticipants) this.slashed.add(a);
            SCRIPTS.lateBlocks(this, Number(d.forkCnt));
        }
    }
    finalHeight(fork) {
        // newest height whose block every participant of the fork signed, by what honest peers hold
        let best = -1;
        const parts = this.forkParts(fork);
        if (!parts) return best;
        for (const p of this.honest) {
            const fs = this.chains.get(p)?.forks[fork] || [];
            for (let h = fs.length - 1; h > best; h--) {
                const b = p.am.getBlock(fork, h);
                if (!b) continue;
                const s = this.signersOf(plainBlock(b), p.am.getSigantures(b));
                if (parts.every((a) => s.has(a))) best = h;
            }
        }
        return best;
    }
    forkParts(f) {
        const g = this.forkGenesis[f];
        return g ? [...this.w.decodeState(g.state).participants] : undefined;
    }
    signersOf(block, sigs) {
        const h = ethers.getBytes(keccak(enc(T.block, block)));
        const out = new Set();
        for (const s of sigs) try { out.add(ethers.verifyMessage(h, s)); } catch (e) {}
        return out;
    }
    // called after every simulated event: what is new in the agreed chains?
    observe() {
        for (const p of this.w.peers) {
            if (p.byz || p.crashed || !p.am) continue;
            const rec = this.chains.get(p);
            if (!rec) continue;
            if (!p.am.hasFork()) continue;
            const lf = p.am.getLatestForkCnt();
            for (let f = Math.max(0, rec.forks.length - 1); f <= lf; f++) {
                if (!rec.forks[f]) {
                    rec.forks[f] = [];
                    this.checkGenesis(p, f);
                }
                const list = rec.forks[f];
                if (list.length && f === lf) {
                    const b = p.am.getBlock(f, list.length - 1);
                    if (!b) this.violate("C01", "block-dropped", `${p.owner}: block ${f}/${list.length - 1} has disappeared from the agreed chain`);
                }
                for (;;) {
                    const b = p.am.getBlock(f, list.length);
                    if (!b) break;
                    this.newBlock(p, f, list.length, b);
                    list.push(b.verifHash || this._lastHash);
                }
            }
        }
    }
    checkGenesis(p, f) {
        const g = this.forkGenesis[f];
        const st = p.am.getForkGenesisStateEncoded(f);
        if (st === undefined) return;
        this.count("forks_seen");
        if (!g) return this.violate("C01", "fork-unannounced", `${p.owner} works on fork ${f} that the chain has not announced`);
        if (st !== g.state) this.violate("C01", "fork-genesis-state", `${p.owner}: genesis of fork ${f} differs from the announced state`);
        const fk = p.am.forkService && p.am.forkService.getFork ? p.am.forkService.getFork(f) : undefined;
        if (fk) {
            if (fk.genesisTimestamp !== undefined && Number(fk.genesisTimestamp) !== g.time) this.violate("C01", "fork-genesis-time", `${p.owner}: genesis time of fork ${f} is ${fk.genesisTimestamp}, the chain announced ${g.time}`);
            if (fk.addressesInThreshold && J([...fk.addressesInThreshold]) !== J(this.forkParts(f))) this.violate("C01", "fork-participants", `${p.owner}: participants of fork ${f} are ${J([...fk.addressesInThreshold])}, the state says ${J(this.forkParts(f))}`);
        }
    }
    newBlock(p, f, h, b) {
        const pb = plainBlock(b);
        const e = enc(T.block, pb);
        const hash = keccak(e);
        this._lastHash = hash;
        const k = f + "/" + h + "/" + hash;
        let r = this.blocks.get(k);
        const sigs = p.am.getSigantures(b);
        if (!r) {
            r = { f, h, hash, block: pb, encoded: e, state: p.am.getEncodedState(f, h), prev: h === 0 ? p.am.getForkGenesisStateEncoded(f) : p.am.getEncodedState(f, h - 1), seen: new Map(), at: this.sim.now };
            this.blocks.set(k, r);
        }
        r.seen.set(p, this.sim.now);
        this.order.get(p).push(r);
        this.count("blocks_agreed");
        if (p.am.getEncodedState(f, h) !== r.state) this.violate("C03", "state-differs", `${p.owner} holds another state for the same block ${k}`);
        if (h > 0) {
            const pr = this.blocks.get(f + "/" + (h - 1) + "/" + this.chains.get(p).forks[f][h - 1]);
            if (pr && pr.block.stateHash !== pb.previousStateHash) this.violate("C03", "unlinked", `${p.owner}: block ${f}/${h} does not build on its predecessor`);
        }
        for (const r2 of this.blocks.values())
            if (r2.f === f && r2.h === h && r2.hash !== hash) {
                const a1 = this.authorSigned(r, p);
                const a2 = [...r2.seen.keys()].some((q) => this.authorSigned(r2, q));
                const same = r2.block.transaction.header.participant === pb.transaction.header.participant;
                this.count("conflicting_blocks");
                if (!(same && a1 && a2)) this.violate("C01", "disagreement", `two agreed blocks at ${f}/${h}, not both signed by one author: ${hash} and ${r2.hash}`);
                const honestAuthor = this.w.peers.find((q) => q.address === pb.transaction.header.participant && !q.byz);
                if (honestAuthor) this.violate(["C01", "C02"], "disagreement-honest", `two agreed blocks at ${f}/${h} by honest ${honestAuthor.owner}`);
            }
        const author = this.w.peers.find((q) => q.address === pb.transaction.header.participant);
        if (!this.authorSigned(r, p)) this.violate(["C03", "C01"], "author-signature-missing", `${p.owner}: agreed block ${f}/${h} lacks its author's signature`);
        if (author === p) {
            this.moves++;
            this.authored.push({ p, f, h, r, t: this.sim.now });
            this.watchPosting(p, f, h, b);
        }
    }
    authorSigned(r, p) {
        const b = p.am.getBlock(r.f, r.h);
        if (!b) return false;
        return this.signersOf(r.block, p.am.getSigantures(b)).has(r.block.transaction.header.participant);
    }
    // C25: published iff not everyone signed within the agreement time
    watchPosting(p, f, h, b) {
        const full = () => {
            const parts = this.forkParts(f) || [];
            const s = this.signersOf(plainBlock(b), p.am.getSigantures(b));
            return parts.every((a) => s.has(a));
        };
        const posted = () => p.txs.some((tx) => { const q = this.parseTx(tx); return q && q.name === "postBlockCalldata" && keccak(q.args[0].encodedBlock) === keccak(enc(T.block, plainBlock(b))); });
        const t = this.agreementTime * 1000;
        this.sim.at(t - 1, () => {
            const before = full();
            if (posted() && !p.crashed && !p.byz) this.violate("C25", "posted-early", `${p.owner} posts block ${f}/${h} before the agreement time is over`);
            this.sim.at(700, () => {
                const after = full();
                if (p.crashed || p.byz || this.ended) return;
                if (before) {
                    this.count("fully_signed_in_time");
                    if (posted()) this.violate("C25", "posted-needlessly", `${p.owner} posts block ${f}/${h} although everyone had signed it in time`);
                } else if (!after) {
                    this.count("missing_signatures");
                    if (!posted()) this.violate("C25", "not-posted", `${p.owner} does not post block ${f}/${h} although signatures are missing after the agreement time`);
                }
            }, "monitor", "mon");
        }, "monitor", "mon");
    }
    // a participant that has brought a fork to dispute is bound by the evidence it gave
    onPeerTx(p, tx, failed) {
        const q = this.parseTx(tx);
        if (!q || q.name !== "createDispute") return;
        const f = Number(q.args[1]);
        p.disputeFiled = p.disputeFiled || new Map();
        if (failed) p.disputeFiled.delete(f);
        else if (!p.disputeFiled.has(f)) p.disputeFiled.set(f, this.sim.now);
    }
    parseTx(tx) {
        if (tx.verifParsed !== undefined) return tx.verifParsed;
        let r = null;
        try { r = this.w.mgr.iface.parseTransaction({ data: tx.data }); } catch (e) {}
        return (tx.verifParsed = r);
    }
    // ---------- application drivers ----------
    drive(p) {
        const r = p.rng.fork("drive");
        p.drv = r;
        const loop = () => {
            if (this.ended) return;
            this.sim.at(r.range(150, 450), () => {
                this.tick(p).catch((e) => this.notes.push("driver " + (e.stack || e))).then(loop);
            }, "driver", "drv" + p.owner);
        };
        loop();
    }
    async tick(p) {
        if (!this.active || this.paused || p.crashed || (p.byz && !p.plays)) return;
        if (this.moves >= this.spec.moves) return;
        if (!p.am.hasFork() || p.submitting) return;
        const f = p.am.getLatestForkCnt();
        const disputed = p.sm.disputeHandler.isForkDisputed(f);
        if (disputed && !p.drv.bool(0.1)) return;
        const next = await p.stateMachine.getNextToWrite();
        if (disputed && next === p.address && !p.submitting && this.active) {
            // an application that does not know of the dispute
            this.count("submissions_while_disputed");
            return void (await this.submit(p));
        }
        if (next !== p.address) return void (p.thinkUntil = 0);
        if (!p.thinkUntil) return void (p.thinkUntil = this.sim.now + p.drv.int(this.p2pTime * 220));
        if (this.sim.now < p.thinkUntil) return;
        p.thinkUntil = 0;
        if (p.onMyTurn && (await p.onMyTurn())) return;
        if (this.spec.noise && p.drv.bool(0.35)) {
            await this.badSubmission(p);
        }
        if (!this.active || this.paused || p.crashed) return;
        if (this.spec.burst && p.drv.bool(0.4)) {
            // the application proposes several moves at once, or while it is no longer its turn
            const more = p.drv.range(1, 3);
            // sometimes the same move again
            const same = p.drv.bool(0.35) ? this.randomCall(p) : undefined;
            for (let i = 0; i < more; i++) {
                this.count(same ? "same_move_at_once" : "moves_at_once");
                this.submit(p, same).catch(() => {});
                if (p.drv.bool(0.3)) await null;
            }
            return void (await this.submit(p, same));
        }
        await this.submit(p);
    }
    randomCall(p) {
        const r = p.drv || this.rng;
        if (this.w.kind === "math") return ["add", [r.range(1, 9)]];
        const parts = this.forkParts(p.am.getLatestForkCnt()) || this.w.parts;
        const x = r.int(10);
        if (x < 5) return ["transfer", [r.pick(parts), r.int(20)]];
        if (x < 7) return ["write", [r.bytes(r.int(90))]];
        if (x < 9) return ["foreign", [r.int(7)]];
        if (r.bool(0.4)) return ["idle", [r.bytes(r.int(5))]];
        return ["rotate", [r.range(1, 5)]];
    }
    submit(p, call) {
        const [fn, args] = call || this.randomCall(p);
        p.submitting = (p.submitting || 0) + 1;
        this.count("submissions");
        const rec = { data: this.w.encodeCall(fn, args), t0: this.sim.now };
        (p.subs = p.subs || []).push(rec);
        return this.w.submit(p, fn, args).then(
            () => {
                p.submitting--;
                rec.ok = true;
                if (!p.byz && !p.crashed) this.claimBlock(p, rec);
                return true;
            },
            (e) => {
                p.submitting--;
                rec.ok = false;
                this.count("submissions_refused");
                this.submitErrors.push({ p, e, t: this.sim.now });
                return e;
            }
        );
    }
    // C28: an accepted move is one block of the proposer's chain, sent to everyone it is connected to
    claimBlock(p, rec) {
        this.count("submissions_accepted");
        const taken = new Set(p.subs.map((x) => x.block));
        for (let f = p.am.getLatestForkCnt(); f >= 0 && !rec.block; f--)
            for (let h = 0, b; (b = p.am.getBlock(f, h)); h++) {
                if (b.transaction.header.participant !== p.address || ethers.hexlify(b.transaction.body.data) !== rec.data || taken.has(f + "/" + h)) continue;
                const hd = b.transaction.header;
                if (Number(hd.forkCnt) !== f || Number(hd.transactionCnt) !== h || hd.channelId !== this.w.channelId) this.violate("C28", "wrong-position", `${p.owner}: the block of an accepted move names ${hd.channelId} ${hd.forkCnt}/${hd.transactionCnt}, it is kept at ${f}/${h}`);
                rec.block = f + "/" + h;
                const mine = p.am.getSigantures(b).map(String).find((s) => this.signersOf(plainBlock(b), [s]).has(p.address));
                if (!mine) this.violate("C28", "unsigned", `${p.owner}: the block of an accepted move is not signed by it`);
                else for (const [q, t] of p.transports) {
                    if (t.isClosed || !p.p2p.openConnections.includes(t)) continue;
                    this.count("proposals_sent_checked");
                    if (!this.w.wire.some((m) => m.from === p && m.to === q && m.s.includes(mine))) this.violate("C28", "not-sent", `${p.owner}: the block ${f}/${h} of an accepted move was not sent to ${q.owner}`);
                }
                break;
            }
        if (!rec.block) this.violate("C28", "accepted-without-block", `${p.owner}: a move was reported as done, but its chain has no block for it (${rec.data.slice(0, 80)})`);
    }
    // every block of an honest author comes from exactly one accepted move, every move got its answer
    proposalCheck(p) {
        const subs = p.subs || [];
        const taken = new Set(subs.map((x) => x.block));
        for (const a of this.authored) {
            if (a.p !== p) continue;
            this.count("authored_blocks_checked");
            if (taken.has(a.f + "/" + a.h)) continue;
            const data = a.r.block.transaction.body.data;
            if (subs.some((x) => x.ok === undefined && x.data === data)) continue; // still being answered
            const no = subs.some((x) => x.ok === false && x.data === data);
            this.violate("C28", no ? "refused-but-done" : "block-without-move", `${p.owner}: block ${a.f}/${a.h} of its chain was ${no ? "refused to the application" : "not asked for by the application"}`);
        }
        for (const x of subs) if (x.ok === undefined && this.sim.now > x.t0 + 20000) this.violate(["C28", "C17"], "never-answered", `${p.owner}: a move proposed ${this.sim.now - x.t0} ms ago was neither accepted nor refused`);
    }
    async digest(p) {
        const f = p.am.getLatestForkCnt();
        const ch = [];
        for (let i = 0; i <= f; i++) ch.push(this.w.chainOf(p, i).map((x) => [keccak(enc(T.block, plainBlock(x.block))), x.state && keccak(x.state), x.sigs.map(String).sort()]));
        const state = await this.ask(() => p.stateMachine.getState());
        const next = await this.ask(() => p.stateMachine.getNextToWrite());
        return { f, ch, state, next, disputed: p.sm.disputeHandler.isForkDisputed(f), events: p.appEvents.length };
    }
    // a submission the application must see refused
    async badSubmission(p) {
        const r = p.drv;
        let call;
        if (this.w.kind === "math") call = ["add", [ethers.MaxUint256]];
        else {
            const x = r.int(9);
            if (x < 5) call = ["fail", [x]];
            else if (x === 5) call = ["transfer", [p.address, ethers.MaxUint256]];
            else if (x === 6) call = ["transfer", [ethers.Wallet.createRandom().address, 1]];
            else if (x === 7) call = ["transfer", [p.address, 10n ** 30n]];
            else call = ["fail", [9999]]; // fails only through its side effects being kept: how > 5 is a valid move
            if (x === 8) call = ["fail", [2]];
        }
        if (this.w.kind === "math") {
            const st = this.w.decodeState(await p.stateMachine.getState());
            if (st.number === 0n) return;
        }
        const before = await this.digest(p);
        const pos = this.posOf(p);
        const signed = p.signed;
        const res = await this.submit(p, call);
        if (this.posOf(p) !== pos) return; // a fork or block came in between
        const after = await this.digest(p);
        this.count("rejected_submissions");
        if (res === true) this.violate(["C04", "C28"], "bad-submission-accepted", `${p.owner}: failing call ${call[0]}(${call[1]}) reported success`);
        else if (after.f === before.f && !after.disputed && J(after.ch.map((c) => c.map((x) => x.slice(0, 2)))) === J(before.ch.map((c) => c.map((x) => x.slice(0, 2))))) {
            if (after.state !== before.state || after.next !== before.next) this.violate(["C04", "C15", "C28"], "bad-submission-trace", `${p.owner}: rejected call ${call[0]}(${call[1]}) changed the local state`);
        }
    }
    // ---------- rest points ----------
    pendingMessages() { return this.sim.events.filter((e) => e.tag === "msg" || e.tag === "log" || e.tag === "sleep").length; }
    // let everything in the network arrive; true if it became quiet before anything can time out
    async quiesce(maxMs) {
        this.paused = true;
        const end = this.sim.now + maxMs;
        while (this.sim.now < end) {
            await this.sim.run(100);
            if (!this.pendingMessages() && !this.w.peers.some((p) => p.submitting)) {
                await this.sim.run(30);
                if (!this.pendingMessages()) return true;
            }
        }
        return false;
    }
    async restCheck(opts = {}) {
        for (const p of this.honest) {
            if (!p.am.hasFork()) continue;
            const f = p.am.getLatestForkCnt();
            const ch = this.w.chainOf(p, f);
            const want = ch.length ? ch[ch.length - 1].state : p.am.getForkGenesisStateEncoded(f);
            const got = await this.ask(() => p.stateMachine.getState());
            let seen;
            try { seen = await this.ask(() => p.contract.getState()); } catch (e) { seen = "error " + e.message; }
            this.count("queries_answered");
            if (seen !== want) this.violate("C28", "query-at-rest", `${p.owner}: the application reads ${String(seen).slice(0, 200)}, not the state of the last agreed block ${f}/${ch.length - 1}`);
            this.count("rest_checks");
            if (got !== want) this.violate("C03", "state-at-rest", `${p.owner}: at rest the local state is not the state of the last agreed block ${f}/${ch.length - 1}`);
            this.scanChain(p);
            if (opts.evidence) await this.evidenceCheck(p, f, ch);
        }
    }
    scanChain(p) {
        const rec = this.chains.get(p);
        for (let f = 0; f < rec.forks.length; f++) {
            const list = rec.forks[f];
            for (let h = 0; h < list.length; h++) {
                const b = p.am.getBlock(f, h);
                if (!b) { this.violate("C01", "block-dropped", `${p.owner}: block ${f}/${h} has disappeared`); continue; }
                const hash = keccak(enc(T.block, plainBlock(b)));
                if (hash !== list[h]) this.violate("C01", "block-replaced", `${p.owner}: block ${f}/${h} was replaced`);
                const sigs = p.am.getSigantures(b).map(String);
                const old = rec.gsigs.get(f + "/" + h) || [];
                for (const s of old) if (!sigs.includes(s)) this.violate(["C01", "C04"], "signature-dropped", `${p.owner}: a signature on ${f}/${h} has disappeared`);
                rec.gsigs.set(f + "/" + h, sigs);
                const set = [...this.signersOf(plainBlock(b), sigs)];
                const parts = this.forkParts(f) || [];
                this.count("signatures_checked", sigs.length);
                if (set.length !== sigs.length) this.violate(["C04", "C20"], "signature-duplicate", `${p.owner}: ${sigs.length} signatures of ${set.length} signers kept on ${f}/${h}`);
                for (const a of set) if (!parts.includes(a) && a !== p.address) this.violate("C04", "stranger-signature", `${p.owner}: keeps a signature of ${a}, who is no participant, on ${f}/${h}`);
            }
        }
    }
    // C06
    async evidenceCheck(p, f, ch) {
        let r;
        try {
            r = p.am.getFinalizedAndLatestWithVotes(f, p.address);
        } catch (e) {
            return this.violate("C06", "evidence-throws", `${p.owner}: deriving the evidence throws: ${e.message}`);
        }
        this.count("evidence_checked");
        const parts = this.forkParts(f);
        if (!parts) return;
        const votes = r.virtualVotingBlocks.map((v) => ({ ...v, b: dec(T.block, v.encodedBlock), s: this.signersOf(plainBlock(dec(T.block, v.encodedBlock)), v.signatures) }));
        let newest = -1;
        for (let h = ch.length - 1; h >= 0; h--) {
            if (this.signersOf(plainBlock(ch[h].block), ch[h].sigs).has(p.address)) { newest = h; break; }
        }
        const fail = (k, m) => this.violate("C06", k, `${p.owner} fork ${f}: ${m}`);
        const hOf = (v) => Number(v.b.transaction.header.transactionCnt);
        const gen = this.forkGenesis[f].state;
        if (newest === -1) {
            if (votes.length || r.encodedLatestCorrectState !== gen || r.encodedLatestFinalizedState !== gen) fail("votes-nothing-signed", "nothing signed, but the evidence is not the genesis state alone");
        } else {
            if (!votes.length || hOf(votes[votes.length - 1]) !== newest) return fail("omits-newest", `evidence ends at ${votes.length ? hOf(votes[votes.length - 1]) : "genesis"}, the newest signed block is ${newest}`);
            for (let i = 1; i < votes.length; i++) if (hOf(votes[i]) !== hOf(votes[i - 1]) + 1) return fail("not-consecutive", "votes are not consecutive");
            for (const v of votes) if (keccak(v.encodedBlock) !== this.chains.get(p).forks[f][hOf(v)]) fail("foreign-vote", `vote ${hOf(v)} is not the agreed block`);
            if (r.encodedLatestCorrectState !== ch[newest].state) fail("latest-state", "latest state is not the state of the newest signed block");
            const union = new Set();
            for (const v of votes) for (const a of v.s) union.add(a);
            const all = parts.every((a) => union.has(a));
            const h0 = hOf(votes[0]);
            if (all) {
                if (!(r.encodedLatestFinalizedState === ch[h0].state)) fail("finalised-state", "finalised state is not the state of the first vote");
                // newest provable: dropping the first vote must lose someone
                const rest = new Set();
                for (const v of votes.slice(1)) for (const a of v.s) rest.add(a);
                if (votes.length > 1 && parts.every((a) => rest.has(a))) fail("finalised-not-newest", "a newer finalised state was provable");
            } else if (h0 !== 0 || r.encodedLatestFinalizedState !== gen) fail("unproven-start", "votes lack signatures and do not start at genesis");
        }
        // does the chain take it?
        if (Number(await this.w.mgr.view("getForkCnt", [this.w.channelId])) !== f) return;
        const d = await this.w.mgr.view("getDispute", [this.w.channelId]);
        if (d.channelId !== ethers.ZeroHash && Number(d.deadlineTimestamp) >= this.w.nowSec()) return;
        const q = parts.map((a) => WALLETS.find((x) => x.address === a)).find((x) => x && x.address !== p.address);
        if (!q) return;
        const blk = (n) => ({
            transaction: { header: { channelId: this.w.channelId, participant: q.address, forkCnt: f, transactionCnt: 900, timestamp: n }, body: { transactionType: 0, encodedData: "0x", data: "0x" } },
            stateHash: ethers.ZeroHash, previousStateHash: ethers.ZeroHash
        });
        const pf = proof("DoubleSign", { doubleSigns: [{ block1: signBlock(q, blk(1)), block2: signBlock(q, blk(2)) }] });
        const data = this.w.mgr.iface.encodeFunctionData("createDispute", [this.w.channelId, f, r.encodedLatestFinalizedState, r.encodedLatestCorrectState, r.virtualVotingBlocks, ethers.ZeroAddress, 0, [pf]]);
        try {
            await this.chain.call(this.w.mgr.address, data, p.address);
            this.count("evidence_accepted_by_chain");
        } catch (e) {
            fail("chain-refuses", `the chain refuses the client's evidence: ${this.chain.reason(e)} (${votes.length} votes)`);
        }
    }
    // ---------- final judgement ----------
    async finish() {
        this.ended = true;
        const w = this.w;
        if (!this.pendingMessages() && !w.peers.some((p) => p.submitting)) await this.restCheck();
        else if (await this.quiesce(3000)) await this.restCheck();
        // C03: re-execute every agreed block on the chain
        for (const r of this.blocks.values()) await this.reexecute(r);
        // C02: conflicting or foreign signatures that were given out
        for (const [p, mp] of this.signed) {
            if (p.byz) continue;
            for (const [pos, a] of mp) {
                if (a.length > 1) {
                    const rel = a.filter((x) => this.released(p, x.sig));
                    if (rel.length > 1) this.violate("C02", "double-sign", `${p.owner} signed ${rel.length} different blocks at ${pos}: ${rel.map((x) => x.hash).join(" ")}`);
                }
                for (const x of a) {
                    const hd = x.block.transaction.header;
                    if (hd.channelId !== w.channelId) { this.violate("C02", "signs-other-channel", `${p.owner} signs a block of another channel`); continue; }
                    const mine = this.chains.get(p)?.forks[Number(hd.forkCnt)]?.[Number(hd.transactionCnt)];
                    if (mine !== x.hash && this.released(p, x.sig)) this.violate(["C02", "C04"], "signs-unagreed", `${p.owner} gave out a signature on block ${pos} that is not in its agreed chain`);
                }
            }
        }
        for (const p of w.peers) if (!p.byz && !p.crashed) this.proposalCheck(p);
        // C24: application events
        for (const p of w.peers) if (!p.byz && !p.crashed) this.checkAppEvents(p);
        for (const p of w.peers) if (p.chainAppLogs) this.violate("C24", "chain-log", `${p.owner}: events emitted by the shared on-chain state machine while the chain checked a proof reach the application (${p.chainAppLogs} logs)`);
        // C08 / C07 / C22
        const honest = this.honest.map((p) => p.address);
        for (const a of this.slashed) {
            if (honest.includes(a)) this.violate(["C08"], "honest-slashed", `${a}, honest, was slashed`);
            else if (!this.offenders.has(a) && !this.bad.has(a)) this.violate(["C08"], "innocent-slashed", `${a} was slashed without an offence`);
        }
        const lastFork = this.forkGenesis.length - 1;
        const parts = this.forkParts(lastFork) || [];
        for (const a of honest) {
            this.count("honest_participants_checked");
            if (!parts.includes(a)) this.violate("C08", "honest-removed", `${a}, honest and responsive, is no longer a participant on fork ${lastFork}`);
        }
        for (const p of w.peers) {
            if (p.byz) continue;
            for (const tx of p.txs) this.checkTx(p, tx);
        }
        if (!this.bad.size && !this.offenders.size && this.disputes.length) this.violate("C08", "dispute-among-honest", "a dispute was opened although everybody was honest and responsive");
        // C01: no dispute ended on a state older than a block everyone had signed before
        const last = new Map();
        for (const d of this.disputes) {
            const x = last.get(d.forkCnt);
            if (x) x.end = d; else last.set(d.forkCnt, { start: d, end: d });
        }
        for (const [f, { start, end }] of last) {
            const over = this.sim.now > end.at + this.challengeTime * 1000 || end.d.deadlineTimestamp < BigInt(w.nowSec());
            if (!over) continue;
            const vb = end.d.virtualVotingBlocks;
            const h = vb.length ? Number(dec(T.block, vb[vb.length - 1].encodedBlock).transaction.header.transactionCnt) : -1;
            this.count("disputes_ended");
            if (h < start.finalAtStart) this.violate(["C01", "C22"], "rollback", `the dispute of fork ${f} ended on height ${h}, although block ${start.finalAtStart} had been signed by everyone before it started`);
        }
        // C17: every honest participant can still run operations
        for (const p of this.honest) {
            const r = await this.sim.wait(p.sm.mutex.lock().then(() => p.sm.mutex.unlock()), 5000);
            if (!r.ok) this.violate(["C17", "C21", "C04"], "blocked", `${p.owner}: its operations are blocked for good`);
        }
    }
    checkTx(p, tx) {
        const q = this.parseTx(tx);
        if (!q) return;
        if (q.name !== "createDispute" && q.name !== "challengeDispute") return;
        this.count("client_dispute_txs");
        const proofs = q.name === "createDispute" ? q.args[7] : q.args[3];
        const accused = new Set();
        if (q.name === "createDispute" && q.args[5] !== ethers.ZeroAddress) accused.add(q.args[5]);
        for (const pr of proofs)
            try {
                const kind = Object.keys(T.proof).find((k) => BigInt(T.proof[k][0]) === pr.proofType);
                const v = dec(T.proof[kind][1], pr.encodedProof);
                const author = (sb) => dec(T.block, sb.encodedBlock).transaction.header.participant;
                this.count("client_proof_" + kind);
                if (kind === "DoubleSign") for (const ds of v.doubleSigns) accused.add(author(ds.block1));
                if (kind === "IncorrectData") accused.add(author(v.block2));
                if (kind === "BlockTooFarInFuture") accused.add(author(v.block1));
            } catch (e) {}
        for (const a of accused) {
            const who = this.w.peers.find((x) => x.address === a);
            if (who && !who.byz && !who.crashed) this.violate(["C07"], "accuses-honest", `${p.owner} files a ${q.name} against honest ${who.owner}`);
        }
    }
    async reexecute(r) {
        this._exec = this._exec || new Map();
        const hd = r.block.transaction.header;
        const fail = (k, m) => this.violate("C03", k, `block ${r.f}/${r.h}: ${m}`);
        if (hd.channelId !== this.w.channelId) fail("wrong-channel", "names another channel");
        if (Number(hd.forkCnt) !== r.f || Number(hd.transactionCnt) !== r.h) fail("wrong-position", `names ${hd.forkCnt}/${hd.transactionCnt}`);
        if (keccak(r.state) !== r.block.stateHash) fail("state-hash", "does not commit to the state kept with it");
        if (keccak(r.prev) !== r.block.previousStateHash) fail("previous-state-hash", "does not commit to its predecessor's state");
        const iface = this.w.mgr.iface;
        const ng = iface.decodeFunctionResult("getNextToWrite", await this.chain.call(this.w.mgr.address, iface.encodeFunctionData("getNextToWrite", [this.w.channelId, r.prev])))[0];
        if (ng !== hd.participant) fail("not-their-turn", `written by ${hd.participant}, the turn was ${ng}'s`);
        const [ok, st] = iface.decodeFunctionResult("executeStateTransitionOnState", await this.chain.call(this.w.mgr.address, iface.encodeFunctionData("executeStateTransitionOnState", [this.w.channelId, r.prev, r.block.transaction])));
        this.count("blocks_reexecuted_on_chain");
        if (!ok) fail("execution-fails", "its transaction fails on its predecessor's state");
        else if (st !== r.state) fail("wrong-execution", "executing its transaction gives another state");
        const g = this.forkGenesis[r.f];
        let prevTs = g.time;
        for (const q of this.blocks.values()) if (q.f === r.f && q.h === r.h - 1 && q.block.stateHash === r.block.previousStateHash) prevTs = Math.max(prevTs, Number(q.block.transaction.header.timestamp));
        const ts = Number(hd.timestamp);
        let ref = prevTs;
        for (const c of this.calldata) if (c.fork === r.f && c.height <= r.h) ref = Math.max(ref, c.time);
        if (ts < prevTs) fail("timestamp-backwards", `timestamp ${ts} before ${prevTs}`);
        if (ts > ref + this.p2pTime) fail("timestamp-drift", `timestamp ${ts} later than ${ref} + ${this.p2pTime}`);
    }
    checkAppEvents(p) {
        const math = this.w.kind === "math";
        const want = [];
        const iface = this.w.smIface;
        for (const r of this.order.get(p)) {
            const hd = r.block.transaction.header;
            const pre = this.w.decodeState(r.prev);
            const post = this.w.decodeState(r.state);
            const call = iface.parseTransaction({ data: r.block.transaction.body.data });
            if (math) {
                want.push(`Addition(${pre.number},${call.args[0]},${post.number})`);
                want.push(`NextToPlay(${pre.participants[Number(pre.number % BigInt(pre.participants.length))]})`);
            } else {
                if (call.name === "transfer") want.push(`Moved(${hd.participant},${call.args[0]},${call.args[1]},${pre.turn})`);
                if (call.name !== "idle") want.push(`Digest(${post.digest})`);
            }
        }
        const got = p.appEvents.map((e) => `${e.n}(${e.args.join(",")})`);
        const fix = math ? want.filter((x) => !x.startsWith("NextToPlay")) : want;
        const g = math ? got.filter((x) => !x.startsWith("NextToPlay")) : got;
        this.count("app_events", g.length);
        if (math && got.length - g.length !== want.length - fix.length) this.violate("C24", "event-count", `${p.owner}: ${got.length - g.length} turn events for ${want.length - fix.length} blocks`);
        for (let i = 0; i < Math.max(fix.length, g.length); i++)
            if (fix[i] !== g[i]) {
                const same = J([...fix].sort()) === J([...g].sort());
                return this.violate("C24", same ? "event-order" : "event-mismatch", `${p.owner}: application event ${i} is ${g[i]}, expected ${fix[i]} (${g.length} received, ${fix.length} expected)`);
            }
    }
    // C30: what one honest participant accepted, all of them have
    shared() {
        const hs = this.honest;
        const f = Math.max(...hs.map((p) => p.am.getLatestForkCnt()));
        const at = hs.filter((p) => p.am.getLatestForkCnt() === f);
        const len = Math.max(...at.map((p) => this.w.chainOf(p, f).length));
        for (let h = 0; h < len; h++) {
            const held = at.map((p) => { const b = p.am.getBlock(f, h); return { p, b, hash: b && keccak(enc(T.block, plainBlock(b))), s: b ? this.signersOf(plainBlock(b), p.am.getSigantures(b)) : new Set() }; });
            const some = held.find((x) => x.b);
            const all = new Set(held.flatMap((x) => [...x.s]));
            for (const x of held) {
                this.count("holdings_compared");
                if (!x.b) { this.violate("C30", "block-not-shared", `${x.p.owner} lacks block ${f}/${h}, which ${some.p.owner} holds`); continue; }
                if (x.hash !== some.hash) { this.violate(["C30", "C01"], "blocks-differ", `${x.p.owner} and ${some.p.owner} hold different blocks ${f}/${h}`); continue; }
                const miss = [...all].filter((a) => !x.s.has(a));
                if (miss.length) this.violate("C30", "confirmation-not-shared", `${x.p.owner}: block ${f}/${h} lacks ${miss.length} of the ${all.size} signatures other honest participants hold (those of ${miss.map((a) => (this.w.peers.find((q) => q.address === a) || { owner: a }).owner)})`);
            }
        }
    }
    // all honest peers hold the same chain, completely signed
    converged(opts = {}) {
        const hs = this.honest;
        const f = Math.max(...hs.map((p) => p.am.getLatestForkCnt()));
        let ref;
        for (const p of hs) {
            if (p.am.getLatestForkCnt() !== f) { this.violate("C05", "fork-lag", `${p.owner} is on fork ${p.am.getLatestForkCnt()}, others on ${f}`); continue; }
            const c = this.chains.get(p).forks[f] || [];
            if (!ref) ref = { p, c };
            else if (J(c) !== J(ref.c)) this.violate("C05", "chains-differ", `${p.owner} holds ${c.length} blocks on fork ${f}, ${ref.p.owner} ${ref.c.length}: the chains differ after everything was delivered`);
            if (opts.signed) {
                const parts = this.forkParts(f);
                for (let h = 0; h < c.length; h++) {
                    const b = p.am.getBlock(f, h);
                    const s = this.signersOf(plainBlock(b), p.am.getSigantures(b));
                    const miss = parts.filter((a) => !s.has(a));
                    this.count("blocks_fully_signed_checked");
                    if (miss.length) this.violate("C05", "signature-missing", `${p.owner}: block ${f}/${h} lacks signatures of ${miss.length} participants after everything was delivered`);
                }
            }
        }
        this.count("convergence_checked");
    }
    next(p) { return this.ask(() => p.stateMachine.getNextToWrite()); }
    // A question to a peer's own objects, answered without delay - or, if they are busy, once they are free
    async ask(fn) {
        this.w.noLag = true;
        try {
            if (this.w.sim.stepping) return await fn();
            const r = await this.w.sim.wait(fn());
            if (r.err) throw r.err;
            if (r.pending) throw new Error("no answer");
            return r.res;
        } finally { this.w.noLag = false; }
    }
    async until(cond, maxMs, slice = 200) {
        const end = this.sim.now + maxMs;
        while (this.sim.now < end) {
            await this.sim.run(slice);
            if (await cond()) return true;
        }
        return false;
    }
}
const SCRIPTS = require("./scripts");
module.exports = { Scenario, NETS, SCRIPTS };
