"use strict";
// Reference model of the on-chain half: what every call on the channel manager has to do, written from the
// properties (who may do what, when, with which evidence) without running any of the contracts' code.
// A call is judged on its raw arguments; `Refused` carries the reason and the property it belongs to.
const { T, enc, dec, keccak, plainBlock, ethers } = require("./world");
const ZERO = ethers.ZeroAddress;
const N2 = 0x7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0n;
class Refused extends Error {
    constructor(why, props) { super(why); this.why = why; this.props = props; }
}
const need = (c, why, props) => { if (!c) throw new Refused(why, props || []); };
// signer of 65 byte, low-s, v 27/28 signatures; anything else is no signature
function signer(data, sig) {
    const b = ethers.getBytes(sig);
    if (b.length !== 65) throw new Refused("signature length", ["C11"]);
    if (b[64] !== 27 && b[64] !== 28) throw new Refused("signature v", ["C11"]);
    if (BigInt(ethers.hexlify(b.slice(32, 64))) > N2) throw new Refused("signature s", ["C11"]);
    try {
        return ethers.verifyMessage(ethers.getBytes(keccak(data)), ethers.hexlify(b));
    } catch (e) { throw new Refused("signature unrecoverable", ["C11"]); }
}
// everyone of `group` signed (slots are counted, extra signatures are fine)
function threshold(group, data, sigs) {
    if (sigs.length < group.length) return false;
    const left = group.slice();
    for (const s of sigs) {
        const i = left.indexOf(signer(data, s));
        if (i >= 0) left.splice(i, 1);
    }
    return left.length === 0;
}
function decode(type, bytes, what) {
    let v;
    try { v = dec(type, bytes); void JSON.stringify(v, (k, x) => (typeof x === "bigint" ? x.toString() : x)); } catch (e) { throw new Refused("undecodable " + what, []); }
    return v;
}
function block(bytes) {
    const b = decode(T.block, bytes, "block");
    if (b.transaction.body.transactionType > 9n) throw new Refused("transaction type", []);
    const h = b.transaction.header;
    return {
        channel: h.channelId, author: h.participant, fork: h.forkCnt, height: h.transactionCnt, ts: h.timestamp,
        stateHash: b.stateHash, prev: b.previousStateHash, tx: plainBlock(b).transaction, canonical: enc(T.block, plainBlock(b)) === ethers.hexlify(bytes)
    };
}
// ---- the two applications --------------------------------------------------------------------------------
const coder = ethers.AbiCoder.defaultAbiCoder();
const HDR = "tuple(bytes32 channelId,address participant,uint256 forkCnt,uint256 transactionCnt,uint256 timestamp)";
const MAX = (1n << 256n) - 1n;
const ledger = {
    name: "ledger",
    decode(e) {
        const v = decode(T.ledger, e, "state");
        return { turn: v.turn, digest: v.digest, parts: [...v.participants], bal: [...v.balances], blob: v.blob };
    },
    encode: (s) => enc(T.ledger, { turn: s.turn, digest: s.digest, participants: s.parts, balances: s.bal, blob: s.blob }),
    copy: (s) => ({ ...s, parts: s.parts.slice(), bal: s.bal.slice() }),
    next: (s) => (s.parts.length ? s.parts[Number(s.turn % BigInt(s.parts.length))] : ZERO),
    exec(s0, tx, iface, data = tx.body.data) {
        const s = this.copy(s0);
        let call;
        try { call = iface.parseTransaction({ data }); } catch (e) {}
        if (!call) return { ok: false, s: s0 };
        const onTurn = () => {
            if (tx.header.participant !== this.next(s)) return false;
            return true;
        };
        const end = () => {
            s.turn += 1n;
            if (s.turn > MAX || s.bal.some((b) => b > MAX)) return { ok: false, s: s0 };
            s.digest = keccak(coder.encode(["bytes32", HDR, "bytes", "uint256"], [s.digest, tx.header, tx.body.data, s.turn]));
            return { ok: true, s };
        };
        const bad = { ok: false, s: s0 };
        switch (call.name) {
            case "transfer": {
                if (!onTurn()) return bad;
                const f = s.parts.indexOf(tx.header.participant), t = s.parts.indexOf(call.args[0]);
                if (f < 0 || t < 0 || s.bal[f] < call.args[1]) return bad;
                s.bal[f] -= call.args[1];
                s.bal[t] += call.args[1];
                return end();
            }
            case "write": if (!onTurn()) return bad; s.blob = call.args[0]; return end();
            case "rotate": if (!onTurn()) return bad; s.turn += call.args[0]; if (s.turn + 1n > MAX) return bad; return end();
            case "fail": {
                if (!onTurn() || call.args[0] <= 5n) return bad;
                s.blob = "0xdead";
                s.turn += 17n;
                return end();
            }
            case "inner": {
                if (!onTurn()) return bad;
                const q = this.exec(s, tx, iface, call.args[0]);
                if (!q.ok && call.args[1]) return bad;
                if (q.ok) Object.assign(s, this.copy(q.s));
                s.blob = q.ok ? "0x01" : "0x00";
                return end();
            }
            case "total": return { ok: this.total(s) <= MAX, s };
            case "idle": case "getTurn": case "getBlob": case "getState": case "getParticipants": case "getNextToWrite": return { ok: true, s };
            case "balanceOf": return { ok: s.parts.includes(call.args[0]), s: s0 };
            default: return bad; // setState, stateTransition, joinChannel ... are guarded
        }
    },
    slash(s, a) {
        const i = s.parts.indexOf(a);
        if (i < 0) return null;
        const b = s.bal[i], n = s.parts.length;
        s.parts.splice(i, 1);
        s.bal.splice(i, 1);
        if (n > 1) { s.bal[0] += b; return { who: a, amount: 0n }; }
        return { who: a, amount: b };
    },
    remove(s, a) {
        const i = s.parts.indexOf(a);
        if (i < 0) return null;
        const b = s.bal[i];
        s.parts.splice(i, 1);
        s.bal.splice(i, 1);
        return { who: a, amount: b };
    },
    join(s, jc) {
        if (s.parts.includes(jc.participant) || jc.amount === 13n) return false;
        s.parts.push(jc.participant);
        s.bal.push(jc.amount);
        return true;
    },
    total: (s) => s.bal.reduce((a, b) => a + b, 0n)
};
const math = {
    name: "math",
    decode(e) { const v = decode(T.math, e, "state"); return { number: v.number, parts: [...v.participants] }; },
    encode: (s) => enc(T.math, { number: s.number, participants: s.parts }),
    copy: (s) => ({ ...s, parts: s.parts.slice() }),
    next: (s) => (s.parts.length ? s.parts[Number(s.number % BigInt(s.parts.length))] : undefined),
    exec(s0, tx, iface) {
        const s = this.copy(s0);
        let call;
        try { call = iface.parseTransaction({ data: tx.body.data }); } catch (e) {}
        if (!call) return { ok: false, s: s0 };
        if (call.name === "add") {
            if (tx.header.participant !== this.next(s) || s.number + call.args[0] > MAX) return { ok: false, s: s0 };
            s.number += call.args[0];
            return { ok: true, s };
        }
        return { ok: ["getSum", "getState", "getParticipants", "getNextToWrite"].includes(call.name), s };
    },
    slash(s, a) { return this.remove(s, a); },
    remove(s, a) {
        const i = s.parts.indexOf(a);
        if (i < 0) return null;
        s.parts[i] = s.parts[s.parts.length - 1];
        s.parts.pop();
        return { who: a, amount: 0n };
    },
    join: () => false,
    total: () => 0n
};
// ---- the channel manager -----------------------------------------------------------------------------------
class Model {
    constructor(app, iface, times, channelId) {
        this.app = app;
        this.iface = iface; // ABI of the state machine, to read calls
        [this.p2p, this.agree, this.fallback, this.challenge] = times.map(BigInt);
        this.channel = channelId;
        this.forks = []; // {enc, ts}
        this.dispute = null;
        this.posts = new Map(); // fork -> [{height, author, ts, sb}]
        this.escrow = {}; // per channel
        this.deposited = {};
        this.paid = new Map();
        this.paidTotal = {};
        this.refuseAdd = this.refuseRemove = false;
    }
    get fork() { return BigInt(this.forks.length ? this.forks.length - 1 : 0); }
    clone() {
        const c = Object.assign(Object.create(Model.prototype), this);
        c.forks = this.forks.slice();
        c.dispute = this.dispute && { ...this.dispute, joins: this.dispute.joins.slice(), slashed: this.dispute.slashed.slice(), exits: this.dispute.exits.slice() };
        c.posts = new Map([...this.posts].map(([k, v]) => [k, v.slice()]));
        c.escrow = { ...this.escrow };
        c.deposited = { ...this.deposited };
        c.paidTotal = { ...this.paidTotal };
        c.paid = new Map(this.paid);
        return c;
    }
    adopt(c) { for (const k of Object.keys(c)) this[k] = c[k]; }
    // run a call on a copy; adopt it if it is accepted
    attempt(fn) {
        const c = this.clone();
        try { const r = fn(c); this.adopt(c); return { ok: true, r }; } catch (e) { if (!(e instanceof Refused)) throw e; return { ok: false, why: e.why, props: e.props }; }
    }
    stateOf(e) { return this.app.decode(e); }
    parts(f) {
        const g = this.forks[Number(f)];
        if (!g) throw new Refused("no such fork", ["C10"]);
        return this.stateOf(g.enc).parts;
    }
    running(now) { return !!this.dispute && this.dispute.deadline >= now; }
    addPost(p) { const k = p.channel + "/" + p.fork; if (!this.posts.has(k)) this.posts.set(k, []); this.posts.get(k).push(p); }
    posted(fork, height, author, channel = this.channel) {
        const l = this.posts.get(channel + "/" + fork) || [];
        for (let i = l.length - 1; i >= 0; i--) if (l[i].height === height && l[i].author === author) return l[i];
    }
    latestPost(fork, max, channel = this.channel) {
        let t = 0n;
        for (const p of this.posts.get(channel + "/" + fork) || []) if (p.height <= max && p.ts > t) t = p.ts;
        return t;
    }
    newFork(enc, now) { this.forks.push({ enc, ts: now }); }
    deposit(jc) {
        if (this.app.name === "math" || this.refuseAdd) return false;
        this.escrow[jc.channelId] = (this.escrow[jc.channelId] || 0n) + jc.amount;
        this.deposited[jc.channelId] = (this.deposited[jc.channelId] || 0n) + jc.amount;
        return true;
    }
    payout(x) {
        if (this.app.name === "math" || this.refuseRemove) return false;
        const e = this.escrow[this.channel] || 0n;
        need(e >= x.amount, "escrow exhausted", ["C23"]);
        this.escrow[this.channel] = e - x.amount;
        this.paid.set(x.who, (this.paid.get(x.who) || 0n) + x.amount);
        this.paidTotal[this.channel] = (this.paidTotal[this.channel] || 0n) + x.amount;
        return true;
    }
    settleOld(now) {
        if (this.dispute && this.dispute.deadline < now) {
            for (const x of this.dispute.exits) this.payout(x);
            this.dispute.exits = [];
        }
    }
    // C10/C06: do the votes prove the states?
    votes(fork, finalized, latest, votes, group) {
        let genesis = this.forks[Number(fork)].enc === ethers.hexlify(finalized);
        if (!votes.length) { need(genesis && keccak(latest) === keccak(finalized), "without votes only genesis", ["C10", "C01"]); return; }
        let prev = keccak(finalized);
        let last;
        const seen = new Set();
        votes.forEach((v, i) => {
            const b = block(v.encodedBlock);
            if (i === 0) genesis = genesis && b.height === 0n;
            else need(b.height === last + 1n, "votes not consecutive", ["C10", "C01"]);
            last = b.height;
            need(group.includes(b.author), "vote by a stranger", ["C10"]);
            need(b.channel === this.channel, "vote of another channel", ["C10"]);
            need(b.fork === fork, "vote of another fork", ["C10"]);
            let own = false;
            for (const s of v.signatures) {
                const a = signer(v.encodedBlock, s);
                if (a === b.author) own = true;
                if (group.includes(a)) seen.add(a);
            }
            need(own, "vote not signed by its author", ["C10", "C11"]);
            if (i === 0 && !genesis) need(prev === b.stateHash, "first vote is not for the finalised state", ["C10", "C01"]);
            else need(prev === b.prev, "votes not linked", ["C10", "C01"]);
            if (i === votes.length - 1) need(b.stateHash === keccak(latest), "last vote is not for the latest state", ["C10", "C01"]);
            prev = b.stateHash;
        });
        need(genesis || seen.size === group.length, "not everyone voted", ["C10", "C11", "C01"]);
    }
    create(a, sender, now) {
        need(!this.running(now), "dispute running", ["C10"]);
        need(this.fork === a.fork, "not the current fork", ["C10"]);
        const group = this.parts(a.fork);
        need(group.includes(sender), "not a participant", ["C10"]);
        this.votes(a.fork, a.finalized, a.latest, a.votes, group);
        if (a.timedout !== ZERO) {
            const P = ["C09", "C08"];
            let ref = this.forks[Number(a.fork)].ts;
            if (a.folded !== 0n) {
                need(a.votes.length > 0, "no votes for the time-out", P);
                const b = block(a.votes[a.votes.length - 1].encodedBlock);
                need(b.height === a.folded - 1n, "time-out not linked", P);
                ref = b.ts;
            } else need(!a.votes.length, "time-out not linked", P);
            need(a.timedout === this.app.next(this.stateOf(a.latest)), "not the next to write", P);
            need(!this.posted(a.fork, a.folded, a.timedout), "it posted its block", P);
            const lp = this.latestPost(a.fork, a.folded);
            if (lp > ref) ref = lp;
            need(now >= ref + this.p2p + this.agree + this.fallback, "too early", P);
            need(a.timedout !== sender, "times itself out", ["C09"]);
        }
        if (this.dispute) for (const x of this.dispute.exits) this.payout(x);
        const d = (this.dispute = {
            fork: a.fork, challengeCnt: 0n, finalized: a.finalized, latest: a.latest, votes: a.votes, timedout: a.timedout, folded: a.folded,
            timeoutDisputer: a.timedout !== ZERO ? sender : ZERO, poster: sender, joins: [], slashed: [], parts: group, exits: [], created: now, deadline: now + this.challenge
        });
        const ok = this.proofs(d, a.proofs, sender, now);
        need(ok || d.timedout !== ZERO, "nothing proven", ["C10", "C26"]);
        this.enforce(d, now);
    }
    challengeD(a, sender, now) {
        const d = this.dispute;
        need(d, "no dispute", ["C10"]);
        need(d.fork === a.fork, "not the disputed fork", ["C10"]);
        need(d.challengeCnt === a.challengeCnt, "not the current version", ["C10"]);
        need(d.deadline > now, "too late", ["C10"]);
        need(d.parts.includes(sender), "not a participant", ["C10"]);
        need(!d.slashed.includes(sender), "slashed", ["C10"]);
        need(this.proofs(d, a.proofs, sender, now), "nothing proven", ["C10", "C26"]);
        this.votes(d.fork, a.finalized, a.latest, a.votes, d.parts);
        if (d.votes.length && !a.votes.length) need(this.forks[Number(d.fork)].enc === ethers.hexlify(d.finalized), "older finalised state", ["C10", "C01"]);
        else if (d.votes.length) {
            const gap = block(d.votes[0].encodedBlock).height - block(a.votes[0].encodedBlock).height;
            need(gap <= 0n || (gap < BigInt(a.votes.length) && ethers.hexlify(a.votes[Number(gap)].encodedBlock) === ethers.hexlify(d.votes[0].encodedBlock)), "older finalised state", ["C10", "C01"]);
        }
        d.votes = a.votes;
        d.finalized = a.finalized;
        d.latest = a.latest;
        d.poster = sender;
        d.deadline = now + this.challenge;
        d.challengeCnt++;
        this.enforce(d, now);
    }
    enforce(d, now) {
        const s = this.stateOf(d.latest);
        for (const j of d.joins) need(this.app.join(s, j), "join refused by the application", ["C10", "C13"]);
        d.exits = [];
        for (const a of d.slashed) { const x = this.app.slash(s, a); if (x) d.exits.push(x); }
        if (d.timedout !== ZERO) { const x = this.app.remove(s, d.timedout); if (x) d.exits.push(x); }
        d.latest = this.app.encode(s);
        this.newFork(d.latest, now);
    }
    slash(d, a) { if (d.slashed.includes(a)) return false; d.slashed.push(a); return true; }
    cancelFold(d, h) { if (h < d.folded) { d.timedout = ZERO; d.timeoutDisputer = ZERO; } }
    proofs(d, list, sender, now) {
        let any = false;
        this.effects = [];
        for (const p of list) {
            need(Number(p.proofType) <= 7, "unknown proof type", ["C26"]);
            const kind = Object.keys(T.proof).find((k) => T.proof[k][0] === Number(p.proofType));
            if (!kind) continue;
            const v = decode(T.proof[kind][1], p.encodedProof, "proof");
            const before = d.slashed.length, t0 = d.timedout;
            const r = this["p" + kind](d, v, sender, now);
            this.effects.push({ kind, r, slashed: d.slashed.slice(before), timedout: d.timedout !== t0 ? d.timedout : undefined });
            any = r || any;
        }
        need(!d.slashed.includes(sender), "sender slashed", ["C10", "C26"]);
        return any;
    }
    here(d, b) { need(b.channel === this.channel, "proof of another channel", ["C26"]); need(b.fork === d.fork, "proof of another fork", ["C26"]); }
    pFoldRechallenge(d, v) {
        const b = block(v.encodedBlock);
        this.here(d, b);
        need(b.height === d.folded, "another height", ["C26", "C09"]);
        need(d.timedout !== ZERO, "no time-out to rechallenge", ["C26", "C09"]);
        need(threshold(d.parts, v.encodedBlock, [...v.signatures]), "not signed by everyone", ["C26", "C11"]);
        d.timedout = ZERO;
        this.slash(d, d.timeoutDisputer); // it may have been slashed already
        return true;
    }
    pDoubleSign(d, v) {
        let any = false;
        for (const ds of v.doubleSigns) {
            const b1 = block(ds.block1.encodedBlock), b2 = block(ds.block2.encodedBlock);
            this.here(d, b1);
            this.here(d, b2);
            need(b1.height === b2.height, "different heights", ["C26"]);
            need(ds.block1.encodedBlock !== ds.block2.encodedBlock, "same block", ["C26"]);
            const a1 = signer(ds.block1.encodedBlock, ds.block1.signature), a2 = signer(ds.block2.encodedBlock, ds.block2.signature);
            need(a1 === a2, "different signers", ["C26"]);
            need(d.parts.includes(a1), "not a participant", ["C26"]);
            any = this.slash(d, a1) || any;
            if (any) this.cancelFold(d, b1.height);
        }
        return any;
    }
    pIncorrectData(d, v) {
        const b1 = block(v.block1.encodedBlock), b2 = block(v.block2.encodedBlock);
        need(signer(v.block1.encodedBlock, v.block1.signature) === b1.author && signer(v.block2.encodedBlock, v.block2.signature) === b2.author, "not signed by its author", ["C26"]);
        need(d.parts.includes(b1.author) && d.parts.includes(b2.author), "not a participant", ["C26"]);
        this.here(d, b1);
        this.here(d, b2);
        const h = keccak(v.encodedState);
        let prevTs;
        const g = this.forks[Number(d.fork)];
        if (b2.height === 0n && ethers.hexlify(v.encodedState) === g.enc) {
            need(b2.prev === h, "not linked", ["C26"]);
            prevTs = g.ts;
        } else {
            need(b2.prev === b1.stateHash && b1.stateHash === h, "not linked", ["C26"]);
            need(b1.height + 1n === b2.height, "not consecutive", ["C26"]);
            prevTs = b1.ts;
        }
        const lp = this.latestPost(d.fork, b2.height);
        const ref = lp > prevTs ? lp : prevTs;
        const st = this.stateOf(v.encodedState);
        let bad = b2.author !== this.app.next(st) || b2.ts < prevTs || b2.ts > ref + this.p2p;
        if (!bad) {
            const r = this.app.exec(st, b2.tx, this.iface);
            bad = !r.ok || keccak(this.app.encode(r.s)) !== b2.stateHash;
        }
        const r = bad && this.slash(d, b2.author);
        if (r) this.cancelFold(d, b1.height);
        return r;
    }
    pNewerState(d, v) {
        const b = block(v.encodedBlock);
        this.here(d, b);
        need(signer(v.encodedBlock, v.confirmationSignature) === d.poster, "not signed by the disputer", ["C26"]);
        if (d.votes.length) need(b.height > block(d.votes[d.votes.length - 1].encodedBlock).height, "not newer", ["C26"]);
        return this.slash(d, d.poster);
    }
    pFoldPriorBlock(d, v, sender) {
        const b = d.votes.map((x) => block(x.encodedBlock)).find((x) => x.height === v.transactionCnt);
        need(b, "not in the votes", ["C26"]);
        need(v.transactionCnt < d.folded, "not prior", ["C26"]);
        const p = this.posted(d.fork, v.transactionCnt, b.author);
        need(!p || p.ts > d.created, "it was posted", ["C26", "C09"]);
        d.timedout = b.author;
        d.timeoutDisputer = sender;
        return true;
    }
    pBlockTooFarInFuture(d, v, sender, now) {
        const b = block(v.block1.encodedBlock);
        this.here(d, b);
        need(signer(v.block1.encodedBlock, v.block1.signature) === b.author, "not signed by its author", ["C26"]);
        need(d.parts.includes(b.author), "not a participant", ["C26"]);
        need(b.ts > now, "not in the future", ["C26"]);
        return this.slash(d, b.author);
    }
    pJoinChannel(d, v, sender, now) {
        const P = ["C10", "C13", "C26"];
        need(threshold(d.parts, v.encodedSignedJoinChannel, [...v.signatures]), "not signed by everyone", ["C11", ...P]);
        const sjc = decode(T.sjc, v.encodedSignedJoinChannel, "join request");
        const jc = decode(T.jc, sjc.encodedJoinChannel, "join request");
        need(threshold([jc.participant], sjc.encodedJoinChannel, [sjc.signature]), "not signed by the joiner", P);
        need(jc.channelId === this.channel, "join of another channel", P);
        need(sender === this.app.next(this.stateOf(d.latest)), "not the sender's turn", P);
        need(!d.parts.includes(jc.participant), "already in", P);
        need(now <= jc.deadlineTimestamp, "expired", P);
        need(!d.joins.some((j) => j.participant === jc.participant), "already joining", P);
        d.joins.push({ channelId: jc.channelId, participant: jc.participant, amount: jc.amount, deadlineTimestamp: jc.deadlineTimestamp, data: jc.data });
        need(this.deposit(jc), "deposit refused", ["C23", ...P]);
        return true;
    }
    join(a, sender, now) {
        const P = ["C13"];
        const ag = decode(T.jca, a.encoded, "agreement");
        const jc = decode(T.jc, ag.signedJoinChannel.encodedJoinChannel, "join request");
        need(jc.channelId === this.channel, "other channel (not modelled)", P);
        need(!this.running(now), "dispute running", P);
        need(now <= jc.deadlineTimestamp, "expired", P);
        this.settleOld(now);
        need(this.fork === ag.forkCnt, "other fork", P);
        need(keccak(a.state) === ag.previousStateHash, "other state", P);
        const group = this.parts(ag.forkCnt);
        need(!group.includes(jc.participant), "already in", P);
        need(group.includes(ag.submitter), "submitter not a participant", P);
        need(ag.submitter === sender, "not the submitter", P);
        need(threshold(group, a.encoded, a.signatures), "not signed by everyone", ["C13", "C11"]);
        need(threshold([jc.participant], ag.signedJoinChannel.encodedJoinChannel, [ag.signedJoinChannel.signature]), "not signed by the joiner", P);
        need(this.deposit(jc), "deposit refused", ["C13", "C23"]);
        const s = this.stateOf(a.state);
        need(this.app.join(s, jc), "refused by the application", P);
        this.newFork(this.app.encode(s), now);
    }
    leave(a, sender, now) {
        const P = ["C13"];
        const lc = decode(T.lc, a.encoded, "agreement");
        need(lc.channelId === this.channel, "other channel (not modelled)", P);
        need(!this.running(now), "dispute running", P);
        need(now <= lc.deadlineTimestamp, "expired", P);
        this.settleOld(now);
        need(this.fork === lc.forkCnt, "other fork", P);
        need(keccak(a.state) === lc.previousStateHash, "other state", P);
        const group = this.parts(lc.forkCnt);
        need(group.includes(lc.participant), "not a participant", P);
        need(threshold(group, a.encoded, a.signatures), "not signed by everyone", ["C13", "C11"]);
        const s = this.stateOf(a.state);
        const x = this.app.remove(s, lc.participant);
        need(x, "refused by the application", P);
        need(this.payout(x), "payout refused", ["C13", "C23"]);
        this.newFork(this.app.encode(s), now);
    }
    post(sb, sender, now) {
        const P = ["C14"];
        need(threshold([sender], sb.encodedBlock, [sb.signature]), "not signed by the sender", P);
        const b = block(sb.encodedBlock);
        need(b.canonical, "not the canonical encoding", P);
        need(b.author === sender, "not the author", P);
        need(b.ts >= now - this.p2p - this.agree - this.fallback, "too old", P);
        need(b.ts <= now, "in the future", P);
        this.addPost({ channel: b.channel, fork: b.fork, height: b.height, author: sender, ts: now, sb });
        return b;
    }
}
module.exports = { Model, Refused, ledger, math, signer, threshold, block };
