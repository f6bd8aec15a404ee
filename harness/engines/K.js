"use strict";
// Engine K: the deployed contracts under random call sequences, every call judged by the reference model.
const { Chain } = require("../lib/chain");
const { T, enc, dec, keccak, signBytes, resign, plainBlock, proof, WALLETS, ethers } = require("../lib/world");
const { Model, Refused, ledger, math, signer, threshold, block } = require("../lib/model");
const { Rng } = require("../lib/rng");
const ZERO = ethers.ZeroAddress, ZH = ethers.ZeroHash;
const J = (x) => JSON.stringify(x, (k, v) => (typeof v === "bigint" ? v.toString() : v));
const N_ORDER = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
const OPW = {
    dispute: { play: 4, create: 6, challenge: 7, post: 1, time: 3, alt: 2, poke: 1, direct: 0.3, agree: 1 },
    timeout: { play: 3, createTimeout: 8, create: 1, challenge: 3, post: 4, time: 3, alt: 0.5, poke: 0.5, agree: 0.5 },
    proof: { play: 3, create: 7, challenge: 8, post: 1, time: 2, alt: 4, poke: 0.3 },
    agree: { play: 3, agree: 9, create: 2, challenge: 1, time: 2, alt: 1, refuse: 0.7, poke: 0.5, direct: 0.5 },
    post: { play: 4, post: 10, time: 3, create: 1, challenge: 0.5, createTimeout: 1 },
    funds: { play: 3, agree: 5, create: 3, createTimeout: 3, challenge: 3, joinProof: 3, time: 3, alt: 2, refuse: 0.3, direct: 2, poke: 1 }
};
let chain;
class Case {
    constructor(c) {
        this.type = c.type;
        this.seed = c.seed;
        this.r = new Rng("k:" + c.seed);
        this.ev = {};
        this.viol = [];
        this.sigs = new Set();
        this.log = [];
        this.evals = 0;
    }
    count(k, n = 1) { this.ev[k] = (this.ev[k] || 0) + n; }
    violate(props, key, msg) {
        props = [...new Set([].concat(props))];
        const o = this.viol.find((v) => v.key === key);
        if (o) { for (const p of props) if (!o.props.includes(p)) o.props.push(p); return; }
        this.viol.push({ props, key, msg: String(msg).slice(0, 1200) });
    }
    async setup(kind) {
        const r = this.r;
        await chain.reset(false);
        this.kind = kind || r.pick(["agree", "funds"].includes(this.type) ? ["ledger", "ledger", "long"] : ["ledger", "ledger", "long", "long", "math"]);
        this.app = this.kind === "math" ? math : ledger;
        this.mgr = this.kind === "math" ? chain.math : this.kind === "long" ? chain.long : chain.ledger;
        this.times = this.kind === "math" ? chain.mathTimes : this.kind === "long" ? [15, 4, 6, 40] : chain.times;
        this.smIface = chain.iface(this.kind === "math" ? "MathStateMachine" : "LedgerStateMachine");
        this.smAddr = chain.addr[this.kind === "math" ? "MathStateMachine" : "LedgerStateMachine"];
        this.channel = keccak(ethers.toUtf8Bytes("k-" + this.seed));
        this.other = keccak(ethers.toUtf8Bytes("k-other-" + this.seed));
        this.now = BigInt(chain.lastTs) + BigInt(r.range(1, 50));
        this.m = new Model(this.app, this.smIface, this.times, this.channel);
        this.all = WALLETS.slice(0, 9);
        const crowded = r.bool(0.06);
        if (crowded) this.all = WALLETS.slice(0, 14);
        const n = crowded ? r.range(5, 11) : r.pick(this.type === "timeout" || this.type === "proof" ? [2, 2, 3, 3, 4, 4] : [1, 2, 2, 3, 3, 3, 4, 4]);
        this.ws = this.all.slice(0, n);
        this.guilty = new Set();
        this.hists = [];
        this.honestStates = true;
        this.full = r.pick([0.4, 0.8, 1]);
        await this.open();
    }
    w(a) { return this.all.find((x) => x.address === a); }
    async at(t) { if (t > this.now) this.now = t; chain.lastTs = Number(this.now); }
    joinReq(w, over = {}) {
        const jc = { channelId: this.channel, participant: w.address, amount: BigInt(this.r.range(1, 400)), deadlineTimestamp: this.now + BigInt(this.r.range(0, 60)), data: this.r.bool(0.5) ? "0x" : this.r.bytes(5), ...over };
        if (jc.amount === 13n) jc.amount = 14n;
        const e = enc(T.jc, jc);
        return { jc, e, sig: signBytes(w, e) };
    }
    async open() {
        const js = this.ws.map((w) => this.joinReq(w, { deadlineTimestamp: this.now + 10n }));
        await this.at(this.now);
        const res = await this.mgr.tx(WALLETS[15].address, "openChannel", [this.channel, js.map((j) => j.e), js.map((j) => j.sig)]);
        const parts = js.map((j) => j.jc.participant);
        const st = this.app === math ? { number: 0n, parts } : { turn: 0n, digest: ZH, parts, bal: js.map((j) => j.jc.amount), blob: "0x" };
        if (this.app !== math) for (const j of js) this.m.deposit(j.jc);
        this.m.newFork(this.app.encode(st), BigInt(res.timestamp));
        this.log.push("open n=" + parts.length + " " + this.kind);
    }
    // ---- history off chain -------------------------------------------------------------------------------
    hist(f = Number(this.m.fork)) {
        if (!this.hists[f]) this.hists[f] = { f, list: [], pool: [], base: this.m.forks[f] };
        return this.hists[f];
    }
    call() {
        const r = this.r;
        if (this.app === math) return ["add", [r.range(1, 9)]];
        const x = r.int(12);
        const to = r.pick(this.ws).address;
        if (x < 5) return ["transfer", [to, r.int(30)]];
        if (x < 7) return ["write", [r.bytes(r.int(70))]];
        if (x < 10) return ["rotate", [r.range(1, 6)]];
        if (x === 10) return r.bool(0.3) ? ["getTurn", []] : ["idle", [r.bytes(r.int(3))]];
        return ["fail", [r.range(6, 9)]];
    }
    // a block on top of position h-1 of a history (h = 0: on genesis)
    make(h, k, over = {}) {
        const base = k === 0 ? h.base.enc : h.list[k - 1].enc;
        const prevTs = k === 0 ? h.base.ts : h.list[k - 1].ts;
        const st = this.app.decode(base);
        const author = over.author || this.app.next(st);
        const hi = prevTs + this.m.p2p < this.now ? prevTs + this.m.p2p : this.now > prevTs ? this.now : prevTs;
        const ts = over.ts !== undefined ? over.ts : prevTs + BigInt(this.r.int(Number(hi - prevTs) + 1));
        const [fn, args] = over.call || this.call();
        const data = over.data || this.smIface.encodeFunctionData(fn, args);
        const tx = { header: { channelId: over.channel || this.channel, participant: author, forkCnt: over.fork ?? BigInt(h.f), transactionCnt: over.height ?? BigInt(k), timestamp: ts }, body: { transactionType: over.txType ?? this.r.int(10), encodedData: this.r.bool(0.7) ? "0x" : this.r.bytes(9), data } };
        const x = this.app.exec(st, tx, this.smIface);
        const e2 = this.app.encode(x.s);
        const b = { transaction: tx, stateHash: over.stateHash || keccak(e2), previousStateHash: over.prev || keccak(base) };
        const e = enc(T.block, b);
        const wal = this.w(author);
        return { b, e, sb: { encodedBlock: e, signature: wal ? signBytes(wal, e) : "0x" }, ok: x.ok, enc: e2, ts, author, height: k, sigs: new Map(), hash: b.stateHash };
    }
    sign(x, a) { if (!x.sigs.has(a)) x.sigs.set(a, this.r.bool(0.06) ? resign(this.w(a), x.e, this.r.int(1000)) : signBytes(this.w(a), x.e)); return x.sigs.get(a); }
    play(k = 1, at) {
        const h = this.hist();
        for (let i = 0; i < k; i++) {
            const st = this.app.decode(h.list.length ? h.list[h.list.length - 1].enc : h.base.enc);
            if (!st.parts.length) return;
            const o = at !== undefined ? { ts: h.list.length && h.list[h.list.length - 1].ts > at ? h.list[h.list.length - 1].ts : h.base.ts > at ? h.base.ts : at } : {};
            let x = this.make(h, h.list.length, o);
            if (!x.ok) x = this.make(h, h.list.length, { ...o, call: this.app === math ? ["add", [1]] : ["write", ["0x"]] });
            this.sign(x, x.author);
            // at a time of the caller's choosing it may be too late, which is the author's fault
            const before = h.list.length ? h.list[h.list.length - 1].ts : h.base.ts, lp = this.m.latestPost(BigInt(h.f), BigInt(h.list.length));
            if (x.ts > (lp > before ? lp : before) + this.m.p2p) { this.guilty.add(x.author); this.count("played_late"); }
            for (const p of st.parts) if (this.r.bool(this.full)) this.sign(x, p);
            h.list.push(x);
        }
    }
    // offences: material for proofs
    alt() {
        const r = this.r;
        const h = this.hist(r.bool(0.7) && this.m.dispute ? Number(this.m.dispute.fork) : undefined);
        const parts = this.app.decode(h.base.enc).parts;
        if (!parts.length) return;
        const k = h.list.length ? r.int(h.list.length + 1) : 0;
        const kind = r.pick(["double", "double", "confirmDouble", "wrongState", "failing", "tsOld", "tsFar", "tsNear", "wrongTurn", "wrongTurnIdle", "future", "sameState"]);
        let x;
        const orig = h.list[k];
        const base = k === 0 ? h.base : h.list[k - 1];
        const next = this.app.next(this.app.decode(base.enc));
        const who = r.pick(parts);
        switch (kind) {
            case "double": case "confirmDouble": case "sameState":
                if (!orig) return;
                x = this.make(h, k, kind === "sameState" ? { call: ["x"], data: orig.b.transaction.body.data, ts: orig.ts + BigInt(r.pick([1, 9, 40])), stateHash: orig.b.stateHash } : kind === "confirmDouble" ? { author: who } : {});
                if (x.e === orig.e) return;
                x.signers = kind === "confirmDouble" ? parts.filter(() => r.bool(0.5)) : [x.author];
                for (const a of x.signers) this.sign(x, a);
                for (const a of new Set([x.author, ...x.signers])) if (orig.sigs.has(a)) this.guilty.add(a);
                break;
            case "wrongState": x = this.make(h, k, { stateHash: keccak(r.bytes(4)) }); break;
            case "failing": x = this.make(h, k, this.app === math ? { data: "0x12345678", stateHash: keccak(base.enc) } : { call: ["fail", [r.int(5)]], stateHash: keccak(base.enc) }); break;
            case "tsOld": x = this.make(h, k, { ts: base.ts - BigInt(r.pick([1, 1, 5, 30])) }); break;
            case "tsFar": x = this.make(h, k, { ts: base.ts + this.m.p2p + BigInt(r.pick([1, 1, 2, 20])) }); break;
            case "tsNear": x = this.make(h, k, { ts: base.ts + this.m.p2p }); break;
            case "wrongTurn": x = this.make(h, k, { author: who }); if (who === next) return; break;
            // with a transaction that the application lets anyone make at any time
            case "wrongTurnIdle": x = this.make(h, k, { author: who, call: this.app === math ? ["getSum", []] : ["idle", [r.bytes(r.int(3))]] }); if (who === next) return; break;
            case "future": x = this.make(h, k, { ts: this.now + BigInt(r.range(1, 60)) }); break;
        }
        if (!x || !this.w(x.author)) return;
        this.sign(x, x.author);
        if (!["double", "confirmDouble"].includes(kind)) {
            this.guilty.add(x.author); // wrong in itself, or a second block for its height
        }
        x.kind = kind;
        h.pool.push(x);
        this.count("material." + kind);
    }
    // ---- evidence --------------------------------------------------------------------------------------------
    evidence(h, e, s) {
        const r = this.r;
        if (e < 0 || !h.list.length) return { finalized: h.base.enc, latest: h.base.enc, votes: [] };
        const votes = [];
        for (let i = s; i <= e; i++) votes.push({ encodedBlock: h.list[i].e, signatures: r.bool(0.8) ? [...h.list[i].sigs.values()] : r.shuffle([...h.list[i].sigs.values()]) });
        const gen = s === 0 && r.bool(0.5);
        return { finalized: gen ? h.base.enc : h.list[s].enc, latest: h.list[e].enc, votes };
    }
    // the best start for an end, as an honest client would choose
    bestStart(h, e) {
        const parts = this.app.decode(h.base.enc).parts;
        const seen = new Set();
        for (let s = e; s >= 0; s--) {
            for (const a of h.list[s].sigs.keys()) seen.add(a);
            if (parts.every((p) => seen.has(p))) return s;
        }
        return 0;
    }
    chooseEvidence(h) {
        const r = this.r;
        const n = h.list.length;
        let e = n ? (r.bool(0.6) ? n - 1 : r.int(n + 1) - 1) : -1;
        let s = e < 0 ? 0 : r.bool(0.7) ? this.bestStart(h, e) : r.int(e + 1);
        const ev = this.evidence(h, e, s);
        if (s === 0 && e >= 0 && this.bestStart(h, e) === 0 && r.bool(0.7)) ev.finalized = h.base.enc;
        ev.e = e;
        return ev;
    }
    badSig(sig, data) {
        const x = sig && sig.length === 132 ? sig : "0x" + "11".repeat(64) + "1b";
        let s;
        try { s = ethers.Signature.from(x); } catch (e) { return x + "00"; }
        switch (this.r.int(6)) {
            case 0: return s.r + (N_ORDER - BigInt(s.s)).toString(16).padStart(64, "0") + (s.v === 27 ? "1c" : "1b");
            case 1: return s.compactSerialized;
            case 2: return x.slice(0, -2) + (s.v === 27 ? "00" : "01");
            case 3: return "0x";
            case 4: return "0x" + "00".repeat(65);
            default: return x + "00";
        }
    }
    strangerSig(data) { return signBytes(this.all[8], data); }
    mutVotes(a) { try { return this.mutVotes1(a); } catch (e) { return "again"; } }
    mutVotes1(a) {
        const r = this.r;
        const v = a.votes;
        const i = v.length ? r.int(v.length) : -1;
        const re = (j, f) => {
            const b = plainBlock(dec(T.block, v[j].encodedBlock));
            f(b);
            const e = enc(T.block, b);
            const ws = [b.transaction.header.participant, ...this.ws.map((w) => w.address)];
            v[j] = { encodedBlock: e, signatures: [...new Set(ws)].filter((x) => this.w(x)).filter((x, q) => q === 0 || r.bool(0.8)).map((x) => signBytes(this.w(x), e)) };
        };
        const k = r.pick(["drop", "dropFirst", "swap", "dup", "fin", "lat", "sigAuthor", "sigDrop", "sigBad", "sigTwice", "sigStranger", "channel", "fork", "height", "author", "altVote", "garbage", "trailing", "genFin", "empty", "prevHash", "otherFork"]);
        if (i < 0 && !["fin", "lat", "otherFork"].includes(k)) return "none";
        switch (k) {
            case "drop": v.splice(i, 1); break;
            case "dropFirst": v.shift(); break;
            case "swap": { const j = r.int(v.length); [v[i], v[j]] = [v[j], v[i]]; break; }
            case "dup": v.splice(i, 0, { encodedBlock: v[i].encodedBlock, signatures: v[i].signatures.slice() }); break;
            case "fin": a.finalized = r.bool(0.5) ? this.app.encode(this.tweak(this.app.decode(a.finalized))) : r.bytes(40); break;
            case "lat": a.latest = r.bool(0.5) ? this.app.encode(this.tweak(this.app.decode(a.latest))) : r.bytes(40); break;
            case "sigAuthor": { const b = block(v[i].encodedBlock); v[i].signatures = v[i].signatures.filter((s) => { try { return signer(v[i].encodedBlock, s) !== b.author; } catch (e) { return false; } }); break; }
            case "sigDrop": v[i].signatures = v[i].signatures.slice(0, r.int(v[i].signatures.length + 1)); break;
            case "sigTwice": { // two signatures of one participant, the second in place of another's
                const l = v[i].signatures;
                if (!l.length) return "none";
                const a = signer(v[i].encodedBlock, l[0]);
                if (!this.w(a)) return "none";
                l.splice(l.length > 1 ? 1 + r.int(l.length - 1) : 1, 1, resign(this.w(a), v[i].encodedBlock, r.int(1e6)));
                break;
            }
            case "sigBad": v[i].signatures = [...v[i].signatures, this.badSig(v[i].signatures[0], v[i].encodedBlock)]; break;
            case "sigStranger": { const s = this.strangerSig(v[i].encodedBlock); v[i].signatures = r.bool(0.5) ? [...v[i].signatures, s] : [s, ...v[i].signatures.slice(1)]; break; }
            case "channel": re(i, (b) => (b.transaction.header.channelId = this.other)); break;
            case "fork": re(i, (b) => (b.transaction.header.forkCnt = b.transaction.header.forkCnt + (r.bool(0.5) ? 1n : -1n < 0n ? 1n : 1n))); break;
            case "height": for (let j = i; j < v.length; j++) re(j, (b) => (b.transaction.header.transactionCnt = b.transaction.header.transactionCnt + 1n)); break;
            case "author": re(i, (b) => (b.transaction.header.participant = r.pick(this.all).address)); break;
            case "altVote": { const h = this.hist(Number(a.fork)); const c = h.pool.filter((x) => x.height === Number(block(v[i].encodedBlock).height)); if (!c.length) return "none"; const x = r.pick(c); v[i] = { encodedBlock: x.e, signatures: [...x.sigs.values()] }; if (i === v.length - 1 && r.bool(0.7)) a.latest = x.enc; break; }
            case "garbage": v[i] = { encodedBlock: r.bytes(r.int(64)), signatures: [] }; break;
            case "trailing": { const e = v[i].encodedBlock + "00".repeat(32); v[i] = { encodedBlock: e, signatures: this.ws.map((w) => signBytes(w, e)) }; break; }
            case "genFin": a.finalized = this.m.forks[Number(a.fork)] ? this.m.forks[Number(a.fork)].enc : a.finalized; break;
            case "empty": v.length = 0; break;
            case "prevHash": re(i, (b) => (b.previousStateHash = keccak(r.bytes(3)))); break;
            case "otherFork": { const f = r.int(this.m.forks.length); const h = this.hist(f); Object.assign(a, this.chooseEvidence(h)); break; }
        }
        this.count("mut.votes." + k);
        return k;
    }
    tweak(s) {
        if (this.app === math) return { ...s, number: s.number + 1n };
        const x = this.r.int(3);
        const c = ledger.copy(s);
        if (x === 0) c.turn += 1n;
        else if (x === 1 && c.bal.length) c.bal[0] += 1000n;
        else c.blob = "0xabcd";
        return c;
    }
    // ---- proofs -----------------------------------------------------------------------------------------------
    makeProof(h, target) {
        const r = this.r;
        const parts = this.app.decode(h.base.enc).parts;
        const kinds = target ? target : ["DoubleSign", "DoubleSign", "DoubleSign", "IncorrectData", "IncorrectData", "IncorrectData", "NewerState", "NewerState", "FoldRechallenge", "FoldPriorBlock", "BlockTooFarInFuture", "JoinChannel"];
        const kind = r.pick(kinds);
        const d = this.m.dispute;
        let v;
        const any = () => (h.list.length ? r.pick(h.list) : null);
        if (kind === "DoubleSign") {
            const one = () => {
                const x = h.pool.length ? r.pick(h.pool) : null;
                const o = x && h.list[x.height];
                if (x && o && r.bool(0.9)) {
                    const com = [...x.sigs.keys()].filter((a) => o.sigs.has(a));
                    const a = com.length ? r.pick(com) : x.author;
                    return { block1: { encodedBlock: x.e, signature: this.sign(x, a) }, block2: { encodedBlock: o.e, signature: o.sigs.get(a) || o.sb.signature } };
                }
                const p = any(), q = any();
                if (!p) return null;
                if (r.bool(0.4)) { // signed twice, but the same block
                    const who = r.bool(0.6) || !p.sigs.size ? p.author : r.pick([...p.sigs.keys()]);
                    if (this.w(who)) { const two = [{ encodedBlock: p.e, signature: resign(this.w(who), p.e, r.int(1000)) }, { encodedBlock: p.e, signature: r.bool() ? signBytes(this.w(who), p.e) : resign(this.w(who), p.e, 1000 + r.int(1000)) }]; if (r.bool()) two.reverse(); return { block1: two[0], block2: two[1] }; }
                }
                return { block1: p.sb, block2: q.sb };
            };
            const ds = [];
            for (let i = 0, n = r.pick([1, 1, 1, 2, 3, 0]); i < n; i++) { const z = one(); if (z) ds.push({ block1: { ...z.block1 }, block2: { ...z.block2 } }); }
            v = { doubleSigns: ds };
        } else if (kind === "IncorrectData") {
            const pool = h.pool.filter((x) => !["confirmDouble"].includes(x.kind));
            const x = pool.length && r.bool(0.75) ? r.pick(pool) : any();
            if (!x) return null;
            const k = x.height;
            let pr = k === 0 ? (r.bool(0.5) ? x : any() || x) : h.list[k - 1];
            if (k > 0 && r.bool(0.15)) { const alts = h.pool.filter((y) => y.height === k - 1); if (alts.length) pr = r.pick(alts); }
            v = { block1: { ...pr.sb }, block2: { ...x.sb }, encodedState: k === 0 ? h.base.enc : pr.enc };
        } else if (kind === "NewerState") {
            const who = d ? d.poster : r.pick(parts.length ? parts : [this.all[0].address]);
            const c = [...h.list, ...h.pool].filter((x) => x.sigs.has(who));
            const x = c.length ? (r.bool(0.7) ? c.reduce((p, q) => (q.height > p.height ? q : p)) : r.pick(c)) : any();
            if (!x) return null;
            v = { encodedBlock: x.e, confirmationSignature: x.sigs.get(who) || x.sb.signature };
        } else if (kind === "FoldRechallenge") {
            const k = d ? Number(d.folded) : r.int(h.list.length + 1);
            let x = r.bool(0.85) ? h.list[k] : any();
            if (!x && h.list.length === k && parts.length && this.app.next(this.app.decode(k ? h.list[k - 1].enc : h.base.enc))) {
                // it turns up now
                const c = this.make(h, k);
                if (c.ok && this.w(c.author)) { this.sign(c, c.author); for (const p of parts) if (r.bool(0.85)) this.sign(c, p); x = c; h.list.push(c); }
            }
            if (!x) return null;
            if (r.bool(0.6)) for (const p of parts) this.sign(x, p);
            v = { encodedBlock: x.e, signatures: r.shuffle([...x.sigs.values()]) };
        } else if (kind === "FoldPriorBlock") v = { transactionCnt: BigInt(r.int(h.list.length + 2)) };
        else if (kind === "BlockTooFarInFuture") {
            const c = h.pool.filter((x) => x.kind === "future" || x.kind === "tsFar");
            const x = c.length && r.bool(0.8) ? r.pick(c) : any();
            if (!x) return null;
            v = { block1: { ...x.sb } };
        } else {
            const w = r.bool(0.8) ? r.pick(this.all.slice(4, 8)) : r.pick(this.all);
            const j = this.joinReq(w, { deadlineTimestamp: this.now + BigInt(r.pick([0, 0, 5, 40, -1])), ...(r.bool(0.06) ? { amount: 13n } : {}), ...(r.bool(0.06) ? { channelId: this.other } : {}) });
            const s = enc(T.sjc, { encodedJoinChannel: j.e, signature: r.bool(0.9) ? j.sig : signBytes(this.all[0], j.e) });
            let sigs = parts.filter(() => r.bool(0.95)).map((a) => signBytes(this.w(a), s));
            if (r.bool(0.2)) sigs.push(signBytes(w, s));
            v = { encodedSignedJoinChannel: s, signatures: sigs };
        }
        let mut = "";
        if (this.p(0.3)) mut = this.mutProof(h, kind, v);
        let p = proof(kind, v);
        if (this.p(0.03)) { p = { proofType: r.pick([7, 8, 0, 1, 2, 3, 4, 5, 6]), encodedProof: r.bool(0.5) ? p.encodedProof : r.bytes(r.int(40)) }; mut += " type/bytes"; }
        return { kind, p, v, mut };
    }
    mutProof(h, kind, v) {
        const r = this.r;
        const re = (sb, f, wal) => {
            let b;
            try { b = plainBlock(dec(T.block, sb.encodedBlock)); } catch (e) { return; }
            f(b);
            const e = enc(T.block, b);
            const a = wal || this.w(b.transaction.header.participant) || this.all[8];
            sb.encodedBlock = e;
            sb.signature = signBytes(a, e);
        };
        const sbs = [];
        if (kind === "DoubleSign") for (const d of v.doubleSigns) sbs.push(d.block1, d.block2);
        if (kind === "IncorrectData") sbs.push(v.block1, v.block2);
        if (kind === "BlockTooFarInFuture") sbs.push(v.block1);
        const hd = (b) => b.transaction.header;
        if (sbs.length) {
            const sb = r.pick(sbs);
            // whatever is re-signed is signed by a key of the case, so it may be an offence in itself
            const k = r.pick(["channel", "fork", "height", "author", "sig", "stranger", "badsig", "garbage", "state", "both", "ts", "again"]);
            const note = (x) => { try { this.guilty.add(signer(x.encodedBlock, x.signature)); } catch (e) {} };
            if (k === "channel") re(sb, (b) => (hd(b).channelId = this.other));
            else if (k === "fork") re(sb, (b) => (hd(b).forkCnt = BigInt(r.int(this.m.forks.length + 1))));
            else if (k === "height") re(sb, (b) => (hd(b).transactionCnt = BigInt(r.int(6)) ));
            else if (k === "author") re(sb, (b) => (hd(b).participant = r.pick(this.all).address));
            else if (k === "ts") re(sb, (b) => (hd(b).timestamp = hd(b).timestamp + BigInt(r.pick([1, 5, 30]))));
            else if (k === "sig") sb.signature = signBytes(r.pick(this.all), sb.encodedBlock);
            else if (k === "stranger") re(sb, () => {}, this.all[8]);
            else if (k === "again" && sbs.length > 1) { // both the same block, signed anew
                try { const a = signer(sb.encodedBlock, sb.signature); if (this.w(a)) for (const x of sbs.slice(0, 2)) { x.encodedBlock = sb.encodedBlock; x.signature = resign(this.w(a), sb.encodedBlock, r.int(1e6)); } } catch (e) {}
            }
            else if (k === "badsig") sb.signature = this.badSig(sb.signature, sb.encodedBlock);
            else if (k === "garbage") sb.encodedBlock = r.bytes(r.int(50));
            else if (k === "state" && kind === "IncorrectData") v.encodedState = r.bool(0.5) ? this.m.forks[h.f].enc : this.app.encode(this.tweak(this.app.decode(this.m.forks[h.f].enc)));
            else if (k === "both") for (const x of sbs) re(x, (b) => (hd(b).forkCnt = hd(b).forkCnt + 1n));
            note(sb);
            if (k === "both") sbs.forEach(note);
            return k;
        }
        if (kind === "NewerState") {
            const k = r.pick(["sig", "badsig", "garbage"]);
            if (k === "sig") v.confirmationSignature = signBytes(r.pick(this.all), v.encodedBlock);
            else if (k === "badsig") v.confirmationSignature = this.badSig(v.confirmationSignature, v.encodedBlock);
            else v.encodedBlock = r.bytes(9);
            return k;
        }
        if (kind === "FoldRechallenge" || kind === "JoinChannel") {
            const k = r.pick(["drop", "stranger", "bad", "dup", "twice"]);
            if (k === "drop") v.signatures.splice(r.int(v.signatures.length || 1), 1);
            else if (k === "stranger") v.signatures[0] = this.strangerSig(v.encodedBlock || v.encodedSignedJoinChannel);
            else if (k === "bad") v.signatures.push(this.badSig(v.signatures[0], "0x"));
            else if (k === "twice") { const e = v.encodedBlock || v.encodedSignedJoinChannel; try { const a = signer(e, v.signatures[0]); if (this.w(a) && v.signatures.length > 1) v.signatures[1 + r.int(v.signatures.length - 1)] = resign(this.w(a), e, r.int(1e6)); } catch (e) {} }
            else if (v.signatures.length > 1) v.signatures[1] = v.signatures[0];
            return k;
        }
        return "";
    }
    // ---- operations -----------------------------------------------------------------------------------------
    async exec(name, fn, args, sender, props, judge, extra = {}) {
        const r = this.r;
        await this.at(this.now);
        const now = this.now;
        const want = this.m.attempt((c) => judge(c, sender, now));
        const pre = want.ok ? null : this.m;
        let got;
        try { got = { ok: true, res: await this.mgr.tx(sender, fn, args) }; } catch (e) { got = { ok: false, why: chain.reason(e) }; }
        this.evals++;
        this.log.push(`${name} ${extra.note || ""} by ${this.name(sender)} at ${now}: ${want.ok ? "ok" : "refused (" + want.why + ")"}`);
        this.count(name + (want.ok ? ".accepted" : ".refused"));
        if (!want.ok) this.count("refusal." + want.why);
        this.sigs.add(name + "|" + (want.ok ? "ok" : want.why) + "|" + (extra.shape || ""));
        if (want.ok !== got.ok) {
            const p = [...props, ...(want.ok ? extra.okProps || [] : want.props || [])];
            if (!want.ok && (want.props || []).includes("C01") === false && extra.slashy) p.push("C08");
            this.violate(p, `${name}-${want.ok ? "refused" : "accepted"}`, `${name} ${extra.note || ""}: the contract ${got.ok ? "accepts" : "refuses (" + got.why + ")"}, it has to ${want.ok ? "accept" : "refuse: " + want.why}. History: ${this.log.slice(-14).join("; ")}`);
            this.diverged = true;
            return want;
        }
        if (got.ok) this.events(name, got.res, props, extra);
        await this.compare(name, [...props, ...(extra.okProps || [])], extra);
        return want;
    }
    // chance of a deviation; rare when a call that has to be accepted is wanted
    p(x) { return this.r.bool(this.valid ? x * 0.08 : x); }
    // propose calls until the model accepts one (or just the first one)
    async propose(gen, share) {
        this.valid = this.r.bool(share);
        let c;
        for (let i = 0; i < (this.valid ? 12 : 1); i++) {
            c = await gen();
            if (!c) continue;
            await this.at(this.now);
            const m = this.m.clone();
            try { c.judge(m, c.sender, this.now); break; } catch (e) { if (!(e instanceof Refused)) throw e; }
        }
        this.valid = false;
        if (!c) return null;
        const w = await this.exec(c.name, c.fn, c.args, c.sender, c.props, c.judge, c.extra);
        if (c.after) c.after(w);
        return w;
    }
    name(a) { const i = this.all.findIndex((w) => w.address === a); return i >= 0 ? "w" + i : a === WALLETS[15].address ? "outsider" : a.slice(0, 8); }
    events(name, res, props, extra) {
        const evs = this.mgr.parse(res.logs);
        const exp = { openChannel: ["SetState"], create: ["DisputeUpdated", "SetState"], challenge: ["DisputeUpdated", "SetState"], join: ["SetState"], leave: ["SetState"], post: ["BlockCalldataPosted"] }[name];
        if (!exp) return;
        const got = evs.map((e) => e.name).sort();
        if (J(got) !== J(exp)) this.violate(props, name + "-events", `${name} emits ${got.join(",")} instead of ${exp.join(",")}`);
        for (const e of evs) {
            if (e.name === "SetState") {
                const f = this.m.forks[this.m.forks.length - 1];
                if (e.args[0] !== this.channel || e.args.encodedState !== f.enc || e.args.forkCnt !== this.m.fork || e.args.timestamp !== f.ts) this.violate([...props, "C10"], name + "-setstate-event", `SetState announces fork ${e.args.forkCnt} at ${e.args.timestamp}, expected ${this.m.fork} at ${f.ts}, or another state`);
            } else if (e.name === "DisputeUpdated") {
                const df = this.diffDispute(e.args.dispute);
                if (df) this.violate([...props, "C10"], name + "-dispute-event", "DisputeUpdated announces another dispute: " + df);
            } else if (e.name === "BlockCalldataPosted") {
                if (e.args.signedBlock.encodedBlock !== extra.sb.encodedBlock || e.args.signedBlock.signature !== extra.sb.signature || e.args.timestamp !== this.now) this.violate("C14", "post-event", "BlockCalldataPosted differs from what was posted");
            }
        }
    }
    diffDispute(d) {
        const m = this.m.dispute;
        if (!m) return d.channelId === ZH ? null : "a dispute is stored although there is none";
        const got = {
            channelId: d.channelId, forkCnt: d.forkCnt, challengeCnt: d.challengeCnt, finalized: d.encodedLatestFinalizedState, latest: d.encodedLatestCorrectState,
            votes: d.virtualVotingBlocks.map((v) => [v.encodedBlock, [...v.signatures]]), timedout: d.timedoutParticipant, folded: d.foldedTransactionCnt, poster: d.postedStateDisputer,
            joins: d.joinChannelParticipants.map((j) => [j.participant, j.amount]), leaves: [...d.leaveChannelParticipants], slashed: [...d.slashedParticipants], parts: [...d.participants],
            exits: d.processExits.map((x) => [x.participant, x.amount]), created: d.creationTimestamp, deadline: d.deadlineTimestamp
        };
        const want = {
            channelId: this.channel, forkCnt: m.fork, challengeCnt: m.challengeCnt, finalized: ethers.hexlify(m.finalized), latest: m.latest,
            votes: m.votes.map((v) => [ethers.hexlify(v.encodedBlock), v.signatures.map((s) => ethers.hexlify(s))]), timedout: m.timedout, folded: m.folded, poster: m.poster,
            joins: m.joins.map((j) => [j.participant, j.amount]), leaves: [], slashed: m.slashed, parts: m.parts,
            exits: m.exits.map((x) => [x.who, x.amount]), created: m.created, deadline: m.deadline
        };
        for (const k of Object.keys(want)) if (J(got[k]) !== J(want[k])) return `${k} is ${J(got[k]).slice(0, 200)}, expected ${J(want[k]).slice(0, 200)}`;
        return null;
    }
    async compare(name, props, extra) {
        const v = (fn, a) => this.mgr.view(fn, a);
        const bad = (ps, k, msg) => { this.violate([...props, ...ps], name + "-" + k, `after ${name} ${extra.note || ""}: ${msg}. History: ${this.log.slice(-10).join("; ")}`); this.diverged = true; };
        const fc = await v("getForkCnt", [this.channel]);
        if (fc !== this.m.fork) return bad(["C10"], "forkcnt", `fork ${fc}, expected ${this.m.fork}`);
        const f = this.m.forks[this.m.forks.length - 1];
        const st = await v("getLatestState", [this.channel]);
        if (st !== f.enc) return bad(["C10"], "state", `the latest state differs: ${this.show(st)}, expected ${this.show(f.enc)}`);
        if ((await v("getGenesisTimestamp", [this.channel, fc])) !== f.ts) return bad(["C10"], "genesis-time", "start time of the fork differs");
        const df = this.diffDispute(await v("getDispute", [this.channel]));
        if (df) return bad(["C10", ...(/^slashed|^timedout/.test(df) ? ["C26", "C09", "C08"] : /^exits|^joins/.test(df) ? ["C23"] : [])], "dispute", df);
        if (this.app !== math) {
            for (const ch of [this.channel, this.other]) {
                const e = await v("escrow", [ch]);
                if (e !== (this.m.escrow[ch] || 0n)) return bad(["C23"], "escrow", `escrow ${e}, expected ${this.m.escrow[ch] || 0n}`);
                if ((await v("deposited", [ch])) !== (this.m.deposited[ch] || 0n)) return bad(["C23"], "deposits", "sum of deposits differs");
            }
            if ((await v("paidTotal", [this.channel])) !== (this.m.paidTotal[this.channel] || 0n)) return bad(["C23"], "payouts", "sum of payouts differs");
            for (const [a, x] of this.m.paid) if ((await v("paid", [this.channel, a])) !== x) return bad(["C23"], "payout", `payout to ${this.name(a)} differs`);
            if (this.honestStates) {
                // conservation, stated on the contract's own numbers
                const d = await v("getDispute", [this.channel]);
                const due = d.processExits.reduce((p, q) => p + q.amount, 0n);
                const tot = ledger.total(ledger.decode(st));
                this.count("conservation_checked");
                if ((await v("escrow", [this.channel])) !== tot + due) return bad(["C23"], "conservation", `escrow ${await v("escrow", [this.channel])} != state ${tot} + due ${due}`);
            }
        }
        this.count("states_compared");
        // views
        if (this.r.bool(0.35)) {
            const F = BigInt(this.r.int(Math.min(4, this.m.forks.length + 1)));
            const H = BigInt(this.r.int(8));
            const ch = this.r.bool(0.85) ? this.channel : this.other;
            const t = await v("getChainLatestBlockTimestamp", [ch, F, H]);
            if (t !== this.m.latestPost(F, H, ch)) return bad(["C14", "C09"], "latest-post", `latest posting up to height ${H} of fork ${F} is ${t}, expected ${this.m.latestPost(F, H, ch)}`);
            const a = this.r.pick(this.all).address;
            const [found, cd] = await v("getBlockCallData", [ch, F, H, a]);
            const p = this.m.posted(F, H, a, ch);
            if (found !== !!p || (p && (cd.timestamp !== p.ts || cd.signedBlock.encodedBlock !== p.sb.encodedBlock || cd.signedBlock.signature !== p.sb.signature))) return bad(["C14"], "calldata", `retrieved calldata for ${F}/${H}/${this.name(a)} differs`);
            const old = this.r.int(this.m.forks.length);
            if (this.app !== math && (await v("stateAt", [this.channel, old])) !== this.m.forks[old].enc) return bad(["C10"], "old-state", `stored state of fork ${old} has changed`);
            if ((await v("getGenesisTimestamp", [this.channel, old])) !== this.m.forks[old].ts) return bad(["C10"], "old-time", `stored time of fork ${old} has changed`);
            if ((await v("isGenesisState", [this.channel, old, this.m.forks[old].enc])) !== true) return bad(["C10"], "genesis-state", "isGenesisState denies the fork's state");
            const s = this.m.stateOf(this.m.forks[old].enc);
            if (s.parts.length) {
                if (J([...(await v("getParticipants", [this.channel, old]))]) !== J(s.parts)) return bad(["C10", "C15"], "participants", "getParticipants differs");
                if ((await v("getNextToWrite", [this.channel, this.m.forks[old].enc])) !== this.app.next(s)) return bad(["C10", "C15"], "next", "getNextToWrite differs");
            }
            if ((await v("isChannelOpen", [this.channel])) !== true || (await v("isChannelOpen", [this.other])) !== false) return bad(["C12"], "open", "isChannelOpen is wrong");
            if (J([...(await v("getAllTimes", []))]) !== J(this.times.map(BigInt))) return bad(["C09"], "times", "the times have changed");
            this.count("views_compared");
        }
    }
    show(e) { try { return J(this.app.decode(e)).slice(0, 300); } catch (x) { return String(e).slice(0, 80); } }
    sender(group, lax) {
        const r = this.r;
        void lax;
        if (this.p(0.06)) return this.all[8].address;
        return group.length ? r.pick(group) : this.all[0].address;
    }
    async opCreate(withTimeout) {
        if (withTimeout && this.r.bool(0.35)) await this.postThenPlay();
        return this.propose(() => this.genCreate(withTimeout), 0.6);
    }
    // an agreed block on the chain, later ones off it: which of the times counts?
    async postThenPlay() {
        const r = this.r;
        const h = this.hist();
        if (!h.list.length) this.play(1);
        if (!h.list.length) return;
        const x = h.list[h.list.length - 1 - r.int(Math.min(2, h.list.length))];
        await this.at(x.ts);
        await this.at(this.now + BigInt(r.int(4)));
        const sb = { ...x.sb };
        await this.exec("post", "postBlockCalldata", [sb], x.author, ["C14"], (c, s, now) => c.post(sb, s, now), { note: "story", shape: "story", sb, okProps: [] });
        if (this.diverged) return;
        await this.at(this.now + BigInt(r.int(9)));
        const k = r.int(3);
        for (let i = 0; i < k; i++) { const ts = this.now - BigInt(r.int(2)); this.play(1, ts); }
    }
    dueTimes(h) {
        const m = this.m;
        const f = Number(h.f);
        const c = [m.forks[f].ts];
        for (const x of h.list.slice(-3)) c.push(x.ts);
        for (const p of (m.posts.get(this.channel + "/" + BigInt(h.f)) || []).slice(-3)) c.push(p.ts);
        const d = m.p2p + m.agree + m.fallback;
        return c.map((t) => t + d);
    }
    async genCreate(withTimeout) {
        const r = this.r;
        const m = this.m;
        const h = this.hist();
        const parts = this.app.decode(h.base.enc).parts;
        if (m.running(this.now) && (this.valid || r.bool(0.7))) await this.at(m.dispute.deadline + BigInt(r.pick(this.valid ? [1, 1, 2, 30] : [0, 1, 1, 2, 30])));
        if (this.valid && !withTimeout) for (let i = 0; i < 6 && !h.pool.length; i++) { if (h.list.length < 2) this.play(1); this.alt(); }
        const a = { fork: m.fork, timedout: ZERO, folded: 0n, proofs: [], ...this.chooseEvidence(h) };
        let note = "", shape = "";
        let sender = this.sender(parts, withTimeout);
        const cur = a.votes.length ? Number(block(a.votes[a.votes.length - 1].encodedBlock).height) : -1;
        if (withTimeout) {
            const next = this.app.next(this.app.decode(a.latest));
            a.timedout = next || ZERO;
            a.folded = BigInt(cur + 1);
            if (sender === next && r.bool(0.9)) { const o = parts.filter((p) => p !== next); if (o.length) sender = r.pick(o); }
            const lastTs = a.votes.length ? block(a.votes[a.votes.length - 1].encodedBlock).ts : m.forks[Number(m.fork)].ts;
            let ref = lastTs;
            const lp = m.latestPost(m.fork, a.folded);
            if (lp > ref) ref = lp;
            const due = ref + m.p2p + m.agree + m.fallback;
            if (!this.valid && r.bool(0.3)) await this.at(r.pick(this.dueTimes(h)) + BigInt(r.pick([0, 0, -1, 1])));
            else if (this.valid || r.bool(0.9)) await this.at(due + BigInt(r.pick(this.valid ? [0, 0, 0, 1, 5] : [-1, -1, 0, 0, 0, 1, 2, 9])));
            const k = this.valid ? 9 : r.int(14);
            if (k === 0) a.timedout = r.pick(this.all).address;
            else if (k === 1) a.folded += BigInt(r.pick([1, -1]));
            else if (k === 2) a.folded = 0n;
            else if (k === 3) sender = a.timedout;
            if (a.folded < 0n) a.folded = 0n;
            note += ` timeout ${this.name(a.timedout)} at ${a.folded}`;
            shape += "T" + k;
        }
        const np = withTimeout ? r.pick([0, 0, 0, 0, 1]) : r.pick(this.valid ? [1, 1, 1, 2, 3] : [0, 1, 1, 1, 1, 2, 3]);
        const kinds = [];
        for (let i = 0; i < np; i++) { const p = this.makeProof(h); if (p) { a.proofs.push(p.p); kinds.push(p); } }
        if (this.p(0.06)) a.folded = BigInt(r.int(5)); // folded without a time-out
        let mut = "";
        if (this.p(0.3)) mut = this.mutVotes(a) + (r.bool(0.2) ? "+" + this.mutVotes(a) : "");
        if (this.p(0.04)) a.fork += r.bool(0.5) ? 1n : a.fork > 0n ? -1n : 1n;
        note += ` fork ${a.fork} votes ${a.votes.length} proofs ${kinds.map((k) => k.kind + (k.mut ? "!" + k.mut : "")).join(",") || "-"}${mut ? " votes!" + mut : ""}`;
        shape += kinds.map((k) => k.kind + k.mut).sort().join(",") + "|" + mut;
        if (r.bool(0.85) && this.guiltyHas(sender)) { const o = parts.filter((p) => !this.guiltyHas(p)); if (o.length) sender = r.pick(o); }
        const pre = m.dispute;
        const props = withTimeout || a.timedout !== ZERO ? ["C09", "C10"] : ["C10"];
        if (kinds.length) props.push("C26");
        void pre;
        return {
            name: "create", fn: "createDispute", args: [this.channel, a.fork, a.finalized, a.latest, a.votes, a.timedout, a.folded, a.proofs], sender, props, judge: (c, s, now) => c.create(a, s, now),
            extra: { note, shape, slashy: true, okProps: kinds.length ? ["C22", "C07"] : withTimeout ? ["C21"] : [] }, after: (w) => { if (w.ok) this.truth(kinds, h, a, sender); }
        };
    }
    guiltyHas(a) { return this.guilty.has(a); }
    async opChallenge() {
        const r = this.r;
        const m = this.m;
        for (let i = 0; i < 4 && !this.diverged && (!m.dispute || m.dispute.deadline <= this.now) && r.bool(0.85); i++) await this.opCreate(r.bool(0.5));
        if (this.diverged) return;
        if (m.dispute && r.bool(0.3) && m.dispute.deadline > this.now) await this.at(m.dispute.deadline + BigInt(r.pick([-1, -1, -1, 0, 1])));
        return this.propose(() => this.genChallenge(), 0.65);
    }
    async genChallenge() {
        const r = this.r;
        const m = this.m;
        const d = m.dispute;
        const f = d ? Number(d.fork) : 0;
        const h = this.hist(f);
        const parts = d ? d.parts : [this.all[0].address];
        if (this.valid) for (let i = 0; i < 4 && !h.pool.length; i++) { if (h.list.length < 2) this.play(1); this.alt(); }
        const a = { fork: BigInt(f), challengeCnt: d ? d.challengeCnt : 0n, proofs: [], ...this.chooseEvidence(h) };
        const kinds = [];
        const target = d && d.timedout !== ZERO && r.bool(0.5) ? ["FoldRechallenge"] : d && r.bool(0.25) ? ["NewerState"] : d && d.folded > 0n && r.bool(0.15) ? ["FoldPriorBlock"] : undefined;
        const np = r.pick(this.valid ? [1, 1, 1, 2, 3] : [0, 1, 1, 1, 1, 1, 2, 2]);
        for (let i = 0; i < np; i++) { const p = this.makeProof(h, i === 0 ? target : undefined); if (p) { a.proofs.push(p.p); kinds.push(p); } }
        let mut = "";
        if (this.p(0.25)) mut = this.mutVotes(a);
        if (this.p(0.04)) a.challengeCnt += r.bool(0.5) || a.challengeCnt === 0n ? 1n : -1n;
        if (this.p(0.03)) a.fork += 1n;
        let sender = this.sender(parts);
        if (d && r.bool(0.8) && (d.slashed.includes(sender) || this.guiltyHas(sender))) { const o = parts.filter((p) => !d.slashed.includes(p) && !this.guiltyHas(p)); if (o.length) sender = r.pick(o); }
        const note = `fork ${a.fork} #${a.challengeCnt} votes ${a.votes.length} proofs ${kinds.map((k) => k.kind + (k.mut ? "!" + k.mut : "")).join(",") || "-"}${mut ? " votes!" + mut : ""}`;
        return {
            name: "challenge", fn: "challengeDispute", args: [this.channel, a.fork, a.challengeCnt, a.proofs, a.votes, a.finalized, a.latest], sender, props: kinds.length ? ["C10", "C26"] : ["C10"], judge: (c, s, now) => c.challengeD(a, s, now),
            extra: { note, shape: kinds.map((k) => k.kind + k.mut).sort().join(",") + "|" + mut, slashy: true, okProps: ["C22", "C07"] }, after: (w) => { if (w.ok) this.truth(kinds, h, a, sender); }
        };
    }
    // independent of the model: was anybody punished who did nothing wrong?
    truth(kinds, h, a, sender) {
        const m = this.m;
        const st = (() => { try { return this.app.decode(a.latest); } catch (e) { return null; } })();
        if (!this.mainState(h, a)) this.honestStates = false;
        void st;
        (m.effects || []).forEach((e) => {
            this.count("proof_applied." + e.kind + (e.r ? "" : ".void"));
            const x = kinds.find((k) => k.kind === e.kind);
            for (const s of e.slashed) {
                this.count("slashed_by." + e.kind);
                if (e.kind === "NewerState" || e.kind === "FoldRechallenge" || this.guilty.has(s) || this.signedTwo(h, s)) continue;
                let forged = false;
                for (const k of kinds) if (k.kind === "IncorrectData") {
                    const b2 = k.v.block2.encodedBlock, b1 = k.v.block1.encodedBlock;
                    if (h.list.some((q) => q.e === b2) && !h.list.some((q) => q.e === b1)) forged = true;
                }
                this.violate(["C26", "C08"], forged ? "incorrect-data-forged-prior" : "honest-slashed", `${this.name(s)} is slashed by ${e.kind} although everything it signed is in order (${x ? x.mut : ""})`);
            }
            if (e.kind === "FoldPriorBlock" && e.timedout && e.timedout !== ZERO) {
                this.count("folded_by.FoldPriorBlock");
                if (m.dispute.timedout === e.timedout) this.violate(["C26", "C08"], "fold-prior-block", `${this.name(e.timedout)} is removed by FoldPriorBlock although it produced the block the votes contain`);
            }
        });
    }
    signedTwo(h, a) {
        const all = [...h.list, ...h.pool].filter((x) => x.sigs.has(a));
        return all.some((x) => all.some((y) => x !== y && x.height === y.height && x.e !== y.e));
    }
    mainState(h, a) { return a.latest === h.base.enc || h.list.some((x) => x.enc === a.latest); }
    opPost() { return this.propose(() => this.genPost(), 0.5); }
    async genPost() {
        const r = this.r;
        const m = this.m;
        const h = this.hist();
        const parts = this.app.decode(h.base.enc).parts;
        let x;
        const y = r.int(10);
        if (y < 4 && h.list.length) x = h.list[h.list.length - 1 - r.int(Math.min(3, h.list.length))];
        else if (h.pool.length && y === 4) x = r.pick(h.pool);
        else {
            const win = m.p2p + m.agree + m.fallback;
            const ts = r.bool(0.5) ? this.now - win + BigInt(r.pick([-1, -1, 0, 1])) : this.now + BigInt(r.pick([0, 0, 1, 1, -3]));
            const who = this.w(parts.length && r.bool(0.8) ? r.pick(parts) : r.pick(this.all).address);
            const k = r.int(Math.min(7, h.list.length + 2));
            const b = { transaction: { header: { channelId: r.bool(0.9) ? this.channel : this.other, participant: who.address, forkCnt: r.bool(0.85) ? BigInt(h.f) : BigInt(r.int(4)), transactionCnt: BigInt(k), timestamp: ts }, body: { transactionType: r.bool(0.95) ? r.int(10) : r.range(10, 255), encodedData: r.bytes(r.int(40)), data: r.bytes(r.int(50)) } }, stateHash: keccak(r.bytes(3)), previousStateHash: keccak(r.bytes(3)) };
            const e = enc(T.block, b);
            x = { e, sb: { encodedBlock: e, signature: signBytes(who, e) }, author: who.address, b };
            this.guilty.add(who.address);
            if (this.valid) this.keep = x;
        }
        let sb = { ...x.sb };
        let sender = x.author;
        const k = this.valid ? 21 : r.int(22);
        let mut = "";
        const resign = () => (sb.signature = signBytes(this.w(sender), sb.encodedBlock));
        if (k === 0) { sender = r.pick(this.all).address; mut = "sender"; }
        else if (k === 1) { sender = r.pick(this.all).address; resign(); mut = "sender+signature"; }
        else if (k === 2) { sb.signature = this.badSig(sb.signature); mut = "badsig"; }
        else if (k === 3) { sb.encodedBlock += "00".repeat(32); resign(); mut = "trailing"; }
        else if (k === 4) { sb.encodedBlock = r.bytes(r.int(80)); resign(); mut = "garbage"; }
        else if (k === 5) { sb.encodedBlock = sb.encodedBlock.slice(0, -64); resign(); mut = "truncated"; }
        else if (k === 6) { sb.signature = signBytes(this.all[8], sb.encodedBlock); mut = "stranger's signature"; }
        else if (k === 7) { sb = { encodedBlock: shiftOffset(sb.encodedBlock), signature: "0x" }; resign(); mut = "other encoding"; }
        return { name: "post", fn: "postBlockCalldata", args: [sb], sender, props: ["C14"], judge: (c, s, now) => c.post(sb, s, now), extra: { note: mut, shape: mut, sb, okProps: [] } };
    }
    opAgree() { return this.propose(() => this.genAgree(), 0.5); }
    async genAgree() {
        const r = this.r;
        const m = this.m;
        if (m.running(this.now) && (this.valid || r.bool(0.75))) await this.at(m.dispute.deadline + BigInt(r.pick(this.valid ? [1, 1, 5] : [0, 1, 1, 5])));
        const h = this.hist();
        const parts = this.app.decode(h.base.enc).parts;
        const tip = h.list.length && r.bool(0.75) ? h.list[h.list.length - 1] : h.list.length && r.bool(0.5) ? r.pick(h.list) : h.base;
        let state = tip.enc;
        const dead = this.now + BigInt(r.pick(this.valid ? [0, 1, 10, 50] : [0, 0, 1, 10, 50, -1]));
        const fork = m.fork + BigInt(!this.p(0.07) ? 0 : r.pick([1, m.fork > 0n ? -1 : 1]));
        const tip0 = tip;
        const join = r.bool(0.55);
        let sigGroup = parts.slice();
        let sender, encoded, args, note;
        const prev = !this.p(0.05) ? keccak(state) : keccak(r.bytes(2));
        if (join) {
            const w = r.bool(0.85) ? r.pick(this.all.slice(3, 8)) : r.pick(this.all);
            const j = this.joinReq(w, { deadlineTimestamp: dead });
            if (this.p(0.05)) { j.jc.amount = 13n; j.e = enc(T.jc, j.jc); j.sig = signBytes(w, j.e); }
            const sub = r.bool(0.92) && parts.length ? r.pick(parts) : r.pick(this.all).address;
            encoded = enc(T.jca, { signedJoinChannel: { encodedJoinChannel: j.e, signature: !this.p(0.07) ? j.sig : r.bool(0.5) ? signBytes(this.all[8], j.e) : this.badSig(j.sig) }, submitter: sub, forkCnt: fork, transactionCnt: BigInt(h.list.length), previousStateHash: prev });
            sender = !this.p(0.07) ? sub : r.pick(this.all).address;
            note = `join ${this.name(w.address)}`;
        } else {
            const who = parts.length && r.bool(0.9) ? r.pick(parts) : r.pick(this.all).address;
            encoded = enc(T.lc, { channelId: this.channel, participant: who, forkCnt: fork, transactionCnt: BigInt(h.list.length), previousStateHash: prev, deadlineTimestamp: dead, data: r.bytes(r.int(4)) });
            sender = r.pick(this.all).address;
            note = `leave ${this.name(who)}`;
        }
        if (this.p(0.1) && sigGroup.length) { sigGroup.splice(r.int(sigGroup.length), 1); note += " one signature missing"; }
        let sigs = r.shuffle(sigGroup).map((a) => signBytes(this.w(a), encoded));
        if (this.p(0.1)) sigs.push(signBytes(this.all[8], encoded));
        if (this.p(0.05) && sigs.length) { sigs.push(sigs[0]); note += " dup"; }
        if (this.p(0.04)) { sigs.push(this.badSig(sigs[0])); note += " bad signature"; }
        if (this.p(0.05) && sigs.length) { sigs[0] = signBytes(this.w(parts[0]) || this.all[0], r.bytes(5)); note += " signature of something else"; }
        if (this.p(0.04)) { state = r.bool(0.5) ? r.bytes(64) : this.app.encode(this.tweak(this.app.decode(state))); note += " other state"; }
        args = { encoded, signatures: sigs, state };
        if (this.lastAgree && this.p(0.12)) { ({ args, sender } = this.lastAgree); note = "replay of " + this.lastAgree.note; }
        const isJoin = this.lastAgree && args === this.lastAgree.args ? this.lastAgree.join : join;
        if (this.p(0.15)) { const t = isJoin ? dec(T.jc, dec(T.jca, args.encoded).signedJoinChannel.encodedJoinChannel).deadlineTimestamp : dec(T.lc, args.encoded).deadlineTimestamp; await this.at(t + BigInt(r.pick([0, 1]))); }
        return {
            name: isJoin ? "join" : "leave", fn: isJoin ? "joinChannelWithAgreement" : "leaveChannelWithAgreement",
            args: [isJoin ? { encodedJoinChannelAgreement: args.encoded, signatures: args.signatures } : { encodedLeaveChannel: args.encoded, signatures: args.signatures }, args.state], sender, props: ["C13"],
            judge: (c, s, now) => (isJoin ? c.join(args, s, now) : c.leave(args, s, now)), extra: { note, shape: note.replace(/w\d|0x\w+/g, "") },
            after: (w) => {
                if (w.ok || r.bool(0.3)) this.lastAgree = { args, sender, join: isJoin, note };
                if (w.ok) {
                    if (args.state === state && tip0 !== h.base && !h.list.includes(tip0)) this.honestStates = false;
                    this.count("agreements_applied");
                }
            }
        };
    }
    async opDirect() {
        const r = this.r;
        const who = r.pick([...this.all, WALLETS[15]]).address;
        const jc = { channelId: this.channel, participant: r.pick(this.all).address, amount: 50n, deadlineTimestamp: this.now + 50n, data: "0x" };
        const st = this.m.forks[this.m.forks.length - 1].enc;
        const parts = this.app.decode(st).parts;
        const c = r.pick([
            ["addParticipantComposable", [jc]],
            ["removeParticipantComposable", [this.channel, { participant: r.pick(this.all).address, amount: 1n, data: "0x" }]],
            ["applyJoinChannelToStateMachine", [st, [jc]]],
            ["applySlashesToStateMachine", [st, parts.slice(0, 1)]],
            ["removeParticipantsFromStateMachine", [st, parts.slice(0, 1)]]
        ]);
        let ok = true;
        await this.at(this.now);
        try { await this.mgr.tx(who, c[0], c[1]); } catch (e) { ok = false; }
        this.evals++;
        this.count("direct_calls");
        this.sigs.add("direct|" + c[0]);
        this.log.push("direct " + c[0]);
        if (ok) this.violate("C23", "direct-" + c[0], `${c[0]} can be called by an outsider`);
        else await this.compare("direct", ["C23"], { note: c[0] });
        // disputes can only be handled through the manager's own entry points; its delegate has no say over its storage
    }
    async opPoke() {
        // anybody can use the shared state machine contract; that must not matter to any channel
        const r = this.r;
        const st = this.tweak(this.app.decode(this.m.forks[0].enc));
        await this.at(this.now);
        const i = this.smIface;
        const data = r.bool(0.5) ? i.encodeFunctionData("setState", [this.app.encode(st)]) : r.bool(0.5) ? i.encodeFunctionData("slashParticipant", [this.all[0].address]) : i.encodeFunctionData("removeParticipant", [this.all[1].address]);
        try { await chain.send(this.all[8].address, this.smAddr, data); } catch (e) {}
        this.count("pokes");
        await this.compare("poke", ["C23", "C10"], {});
    }
    async opRefuse() {
        if (this.app === math) return;
        const a = this.r.bool(0.4), b = this.r.bool(0.3);
        await this.at(this.now);
        await this.mgr.tx(this.all[0].address, "setRefuse", [a, b]);
        this.m.refuseAdd = a;
        this.m.refuseRemove = b;
        if (b) this.honestStates = false; // a refusing payout hook is the application's affair
        this.log.push(`hooks refuse ${a} ${b}`);
    }
    async run() {
        const r = this.r;
        await this.setup();
        const ow = OPW[this.type];
        const names = Object.keys(ow);
        const tot = names.reduce((p, q) => p + ow[q], 0);
        const n = r.range(22, 36);
        this.play(r.int(4));
        for (let i = 0; i < n && !this.diverged; i++) {
            if (r.bool(0.3)) await this.at(this.now + BigInt(r.pick([1, 1, 2, 5])));
            // a group too small for the type's subject is given up for a fresh channel
            if (this.app.decode(this.m.forks[this.m.forks.length - 1].enc).parts.length < (this.type === "agree" || this.type === "funds" ? 1 : 2) && this.m.forks.length > 1 && r.bool(0.4)) {
                await this.setup(this.kind);
                this.log.push("(fresh channel)");
                this.play(r.int(4));
            }
            let x = r.float() * tot, op;
            for (op of names) { x -= ow[op]; if (x <= 0) break; }
            switch (op) {
                case "play": this.play(r.range(1, 3)); break;
                case "create": await this.opCreate(false); break;
                case "createTimeout": await this.opCreate(true); break;
                case "challenge": await this.opChallenge(); break;
                case "post": await this.opPost(); break;
                case "time": {
                    const d = this.m.dispute;
                    const g = r.pick(this.dueTimes(this.hist()));
                    const c = [this.now + BigInt(r.range(1, 12)), g, g - 1n];
                    if (d) c.push(d.deadline, d.deadline + 1n, d.deadline - 1n, d.deadline + 1n);
                    await this.at(r.pick(c));
                    break;
                }
                case "alt": this.alt(); break;
                case "agree": await this.opAgree(); break;
                case "joinProof": { const s = this.makeProof; void s; if (this.m.dispute && this.m.dispute.deadline > this.now) await this.opJoinProof(); else await this.opCreate(r.bool(0.5)); break; }
                case "direct": await this.opDirect(); break;
                case "poke": await this.opPoke(); break;
                case "refuse": await this.opRefuse(); break;
            }
        }
        return { ev: this.ev, evals: this.evals, sigs: [...this.sigs].map((s) => this.type + ":" + s), nontrivial: this.evals > 0, viol: this.viol, sample: `${this.type}: ${this.log.slice(0, 9).join("; ")}`, trace: this.log };
    }
    opJoinProof() { return this.propose(() => this.genJoinProof(), 0.75); }
    async genJoinProof() {
        const r = this.r;
        const d = this.m.dispute;
        const h = this.hist(Number(d.fork));
        const p = this.makeProof(h, ["JoinChannel"]);
        if (!p) return null;
        const nx = this.app.next(this.app.decode(d.latest));
        const sender = nx && r.bool(0.85) ? nx : this.sender(d.parts);
        const a = { fork: d.fork, challengeCnt: d.challengeCnt, proofs: [p.p], ...this.chooseEvidence(h) };
        return {
            name: "challenge", fn: "challengeDispute", args: [this.channel, a.fork, a.challengeCnt, a.proofs, a.votes, a.finalized, a.latest], sender, props: ["C10", "C13", "C23"], judge: (c, s, now) => c.challengeD(a, s, now),
            extra: { note: "join proof " + p.mut, shape: "JoinChannel" + p.mut }, after: (w) => { if (w.ok) this.truth([p], h, a, sender); }
        };
    }
}
// the same block with its dynamic part moved by one word: readable, but not the canonical encoding
function shiftOffset(e) {
    const hex = e.slice(2);
    const first = BigInt("0x" + hex.slice(0, 64));
    return "0x" + (first + 32n).toString(16).padStart(64, "0") + "00".repeat(32) + hex.slice(64);
}
// ---- direct checks of the threshold library (C11) ------------------------------------------------------------
let crowd_;
const crowd = () => (crowd_ = crowd_ || [...WALLETS, ...Array.from({ length: 30 }, (_, i) => new ethers.Wallet(ethers.id("verif-crowd-" + i)))]);
async function thresholdCase(c) {
    const k = new Case(c);
    const r = k.r;
    const lib = { i: chain.iface("StateChannelUtilLibrary"), a: chain.addr.LibraryTestContract };
    const t = { i: chain.iface("LibraryTestContract") };
    void t;
    for (let q = 0; q < 25; q++) {
        const big = r.bool(0.12);
        const n = big ? r.range(7, r.bool(0.2) ? 40 : 18) : r.int(6);
        const dupGroup = r.bool(0.15);
        let group = r.shuffle(big ? crowd() : WALLETS.slice(0, 9)).slice(0, n).map((w) => w.address);
        if (dupGroup && n) group.push(r.pick(group));
        if (r.bool(0.05)) group.push(ZERO);
        const data = r.bytes(r.int(100));
        const dataS = data;
        let sigs = [];
        let malformed = false;
        for (const a of group) {
            const w = crowd().find((x) => x.address === a);
            if (!w) continue;
            if (r.bool(big ? 0.99 : 0.93)) sigs.push(signBytes(w, dataS));
        }
        // one member signs twice, in place of another or in addition
        if (sigs.length && r.bool(0.2)) {
            const i = r.int(sigs.length), w = crowd().find((x) => x.address === signer(data, sigs[i]));
            if (w) { const z = resign(w, data, r.int(1000)); if (r.bool(0.6)) sigs[r.int(sigs.length)] = z; else sigs.push(z); }
        }
        // one member's signature in place of another's, anywhere in the list
        if (sigs.length > 1 && r.bool(0.15)) sigs[r.int(sigs.length)] = r.pick(sigs);
        const extra = r.pick([0, 0, 1, 2, 3]);
        for (let i = 0; i < extra; i++) {
            const y = r.int(6);
            if (y < 2) sigs.push(signBytes(r.pick(WALLETS), data));
            else if (y === 2 && sigs.length) sigs.push(r.pick(sigs));
            else if (y === 3) sigs.push(signBytes(r.pick(WALLETS), r.bytes(9)));
            else if (y === 4) { sigs.push(k.badSig(sigs[0] || signBytes(WALLETS[0], data))); malformed = true; }
            else if (sigs.length) sigs[r.int(sigs.length)] = signBytes(r.pick(WALLETS), data);
        }
        if (r.bool(0.7)) sigs = r.shuffle(sigs);
        // independent verdict: who contributed at least one valid signature?
        const signers = new Set();
        for (const s of sigs) try { signers.add(signer(data, s)); } catch (e) {}
        const every = group.every((a) => signers.has(a));
        const noDup = new Set(group).size === group.length;
        let got;
        try { got = lib.i.decodeFunctionResult("verifyThresholdSigned", await chain.call(lib.a, lib.i.encodeFunctionData("verifyThresholdSigned", [group, data, sigs])))[0]; } catch (e) { got = "revert"; }
        k.evals++;
        k.count("threshold." + (got === true ? "yes" : got === false ? "no" : "revert"));
        k.sigs.add(`${group.length}|${sigs.length}|${every}|${noDup}|${malformed}|${got}`);
        if (got === true && !every) k.violate(["C11"], "threshold-accepts", `group of ${group.length} accepted with signatures of ${[...signers].length} signers only`);
        if (got !== true && every && noDup && !malformed) k.violate(["C11"], "threshold-refuses", `group of ${group.length}, all signed, ${sigs.length} signatures: refused (${got})`);
        if (sigs.length) {
            const s = r.pick(sigs);
            let want;
            try { want = signer(data, s); } catch (e) { want = "revert"; }
            let g;
            try { g = lib.i.decodeFunctionResult("retriveSignerAddress", await chain.call(lib.a, lib.i.encodeFunctionData("retriveSignerAddress", [data, s])))[0]; } catch (e) { g = "revert"; }
            if (g !== want) k.violate(["C11"], "recover", `signer of a signature: ${g}, expected ${want}`);
        }
        const a = r.bool(0.5) && group.length ? r.pick(group) : r.pick(WALLETS).address;
        const inA = lib.i.decodeFunctionResult("isAddressInArray", await chain.call(lib.a, lib.i.encodeFunctionData("isAddressInArray", [group, a])))[0];
        if (inA !== group.includes(a)) k.violate(["C11", "C10"], "in-array", "isAddressInArray is wrong");
    }
    return { ev: k.ev, evals: k.evals, sigs: [...k.sigs].map((s) => "threshold:" + s), viol: k.viol, sample: "threshold: 25 groups of 0-40 members against shuffled, missing, extra, duplicate and malformed signatures" };
}
// ---- opening of the example channel (C12) ---------------------------------------------------------------------
async function openCase(c) {
    const k = new Case(c);
    const r = k.r;
    await chain.reset(false);
    k.app = math;
    k.now = BigInt(chain.lastTs) + BigInt(r.range(1, 40));
    const mgr = chain.math;
    const opened = new Map();
    const ids = [0, 1, 2].map((i) => keccak(ethers.toUtf8Bytes(c.seed + "/" + i)));
    for (let q = 0; q < 16; q++) {
        const id = r.bool(0.06) ? ZH : r.pick(ids);
        const n = r.pick([0, 1, 2, 2, 3, 4]);
        const ws = r.shuffle(WALLETS.slice(0, 9)).slice(0, n);
        let data = [], sigs = [];
        k.now += BigInt(r.int(5));
        let valid = n > 0 && id !== ZH && !opened.has(id);
        const jcs = [];
        let mutated = "";
        for (const w of ws) {
            const jc = { channelId: id, participant: w.address, amount: BigInt(r.range(1, 900)), deadlineTimestamp: k.now + BigInt(r.range(1, 90)), data: r.bytes(r.int(5)) };
            if (r.bool(0.05)) { jc.channelId = r.pick(ids); if (jc.channelId !== id) { valid = false; mutated += " channel"; } }
            if (r.bool(0.05)) { jc.amount = 0n; valid = false; mutated += " amount"; }
            if (r.bool(0.07)) { jc.deadlineTimestamp = k.now + BigInt(r.pick([0, 0, -1])); valid = false; mutated += " deadline"; }
            const e = enc(T.jc, jc);
            jcs.push(jc);
            data.push(e);
            let s = signBytes(w, e);
            if (r.bool(0.06)) { s = r.bool(0.5) ? signBytes(WALLETS[9], e) : signBytes(w, r.bytes(8)); valid = false; mutated += " signature"; }
            else if (r.bool(0.04)) { s = k.badSig(s); valid = false; mutated += " badsig"; }
            sigs.push(s);
        }
        if (r.bool(0.05) && n) { sigs.pop(); valid = false; mutated += " short"; }
        else if (r.bool(0.05)) { sigs.push(signBytes(WALLETS[9], "0x")); valid = false; mutated += " long"; }
        else if (r.bool(0.04) && n) { data[r.int(n)] = r.bytes(r.int(70)); valid = false; mutated += " garbage"; }
        else if (r.bool(0.04) && n > 1) { sigs[1] = sigs[0]; valid = false; mutated += " copied signature"; }
        const before = await mgr.view("getLatestState", [id]);
        chain.lastTs = Number(k.now);
        let got = true, res;
        try { res = await mgr.tx(r.pick(WALLETS).address, "openChannel", [id, data, sigs]); } catch (e) { got = false; k.why = chain.reason(e); }
        k.evals++;
        const what = `${n} requests${mutated || ""}${id === ZH ? " zero id" : ""}${opened.has(id) ? " already open" : ""}`;
        k.log.push(`open ${what}: ${valid ? "ok" : "refused"}`);
        k.sigs.add(`${n}|${mutated}|${id === ZH}|${opened.has(id)}`);
        k.count(valid ? "open.accepted" : "open.refused");
        if (got !== valid) { k.violate("C12", valid ? "open-refused" : "open-accepted", `openChannel with ${what}: the contract ${got ? "accepts" : "refuses: " + k.why}`); break; }
        if (got) {
            const st = enc(T.math, { number: 0, participants: jcs.map((j) => j.participant) });
            opened.set(id, { st, t: k.now });
            const ev = mgr.parse(res.logs);
            if (ev.length !== 1 || ev[0].name !== "SetState" || ev[0].args[0] !== id || ev[0].args.encodedState !== st || ev[0].args.forkCnt !== 0n || ev[0].args.timestamp !== k.now) k.violate("C12", "open-event", "SetState of the opening is wrong");
        } else if ((await mgr.view("getLatestState", [id])) !== before) k.violate("C12", "open-trace", "a refused opening changed the channel");
        for (const [x, o] of opened) {
            if ((await mgr.view("getLatestState", [x])) !== o.st || (await mgr.view("getForkCnt", [x])) !== 0n || (await mgr.view("getGenesisTimestamp", [x, 0])) !== o.t || !(await mgr.view("isChannelOpen", [x]))) k.violate("C12", "open-state", "the stored first fork is not what its participants signed");
            k.count("open_states_checked");
        }
        for (const x of ids) if (!opened.has(x) && (await mgr.view("isChannelOpen", [x]))) k.violate("C12", "open-unasked", "a channel nobody opened is open");
    }
    return { ev: k.ev, evals: k.evals, sigs: [...k.sigs].map((s) => "open:" + s), viol: k.viol, sample: "open: " + k.log.slice(0, 6).join("; ") };
}
const MIX = {
    C01: { dispute: 1 },
    C08: { proof: 2, timeout: 2, dispute: 1 },
    C09: { timeout: 5, dispute: 1, post: 1 },
    C10: { dispute: 5, timeout: 1, proof: 2, funds: 1 },
    C11: { threshold: 3, dispute: 1, agree: 1 },
    C12: { open: 1 },
    C13: { agree: 5, funds: 1 },
    C14: { post: 5, timeout: 1 },
    C21: { timeout: 1 },
    C22: { proof: 2, dispute: 1 },
    C23: { funds: 5, agree: 1, dispute: 1 },
    C26: { proof: 5, dispute: 1 }
};
function cases(prop, n, seed, tier) {
    const m = MIX[prop];
    const types = Object.keys(m);
    const tot = types.reduce((a, t) => a + m[t], 0);
    const acc = Object.fromEntries(types.map((t) => [t, 0]));
    const cnt = {};
    const out = [];
    for (let i = 0; i < n; i++) {
        let best;
        for (const t of types) { acc[t] += m[t]; if (best === undefined || acc[t] > acc[best]) best = t; }
        acc[best] -= tot;
        cnt[best] = (cnt[best] || 0) + 1;
        out.push({ type: best, seed: seed + ":" + prop + ":" + best + ":" + cnt[best] });
    }
    return out;
}
async function init() { chain = await Chain.create(); }
async function runCase(c) {
    if (c.type === "threshold") return thresholdCase(c);
    if (c.type === "open") return openCase(c);
    return new Case(c).run();
}
module.exports = {
    cases, init, runCase, MIX,
    rule: "one evaluation is one call on the deployed contracts judged by the reference model (verdict, events, stored state afterwards); cases are sequences of 16-36 calls; distinct and non-trivial are counted as distinct combinations of call kind, expected verdict or refusal reason, proof kinds and mutations",
    budget: { quick: { n: 90, secs: 80 }, thorough: { n: 20000, secs: 1200 } }
};
