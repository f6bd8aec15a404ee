"use strict";
// C18 and C19: real peers with their real transports over simulated sockets and WebRTC channels
const { show } = require("./common");
const { World, T, enc } = require("../lib/world");
const { ledger } = require("../lib/model");
const { STUBS } = require("../lib/loader");
const { ethers, WALLETS } = require("../lib/chain");
const OPS = ["onInitHandshakeRequest", "onInitHandshakeResponse", "onOfferWebRTC", "onAnswerWebRTC", "onIceCandidate", "onSignJoinChannelTEST", "onCanJoinLeaderRequest", "onCanJoinLeaderResponse", "onJoinChannelRequest", "onSignedBlock", "onBlockConfirmation"];
const json = (method, params) => JSON.stringify({ method, params });
let current = null; // the net of the running case

// ---- fake WebRTC ------------------------------------------------------------------------------------------
class FakeChannel {
    constructor(net, conn) { this.net = net; this.conn = conn; this.state = "connecting"; this.peer = null; }
    send(s) {
        if (this.state !== "open") throw new Error("InvalidStateError: RTCDataChannel.readyState is not 'open'");
        this.net.wrote(this, s);
    }
    close() {
        if (this.state === "closed") return;
        this.state = "closed";
        this.net.sim.at(5, () => { this.net.endpointClosed(this); if (this.onclose) this.onclose({}); }, "rtc");
        const o = this.peer;
        if (o && o.state !== "closed") { o.state = "closed"; this.net.sim.at(20 + this.net.r.int(200), () => { this.net.endpointClosed(o); if (o.onclose) o.onclose({}); }, "rtc"); }
    }
    deliver(s) { if (this.state === "open" && this.onmessage) this.onmessage({ data: this.net.r.bool(0.5) ? s : Buffer.from(s) }); }
}
class FakeRTC {
    constructor() {
        this.net = current;
        this.id = "conn" + ++this.net.conns;
        this.net.rtc.set(this.id, this);
        this.owner = this.net.active;
    }
    createDataChannel() { this.offerer = true; return (this.channel = this.net.rtcChannel(this)); }
    async createOffer() { await this.net.lag(); return { type: "offer", sdp: this.id }; }
    async createAnswer() { await this.net.lag(); if (!this.remote) throw new Error("no remote description"); return { type: "answer", sdp: this.id }; }
    async setLocalDescription() {
        for (let k = 0; k < 2; k++) this.net.sim.at(10 + this.net.r.int(300), () => { if (this.onicecandidate) this.onicecandidate({ candidate: { candidate: this.id, k } }); }, "rtc");
        this.net.sim.at(400, () => { if (this.onicecandidate) this.onicecandidate({ candidate: null }); }, "rtc");
    }
    async setRemoteDescription(d) {
        const o = d && this.net.rtc.get(d.sdp);
        if (!o) throw new Error("bad description");
        this.remote = o;
        await this.net.lag();
        if (o.remote === this && !this.up && !o.up) { this.up = o.up = true; this.net.rtcConnect(this.offerer ? this : o, this.offerer ? o : this); }
    }
    async addIceCandidate(c) {
        this.net.run.count("ice_candidates_added");
        this.net.run.check(!this.remote || !c || typeof c.candidate !== "string" || this.net.hostile.has(c.candidate) || (this.net.rtc.get(c.candidate) || {}).owner === this.remote.owner, "ice-misdirected", () => `a candidate of ${c.candidate} reached ${this.id}, which talks to ${this.remote.id}`);
    }
    addEventListener() {}
    close() {}
}
STUBS["get-webrtc"].RTCPeerConnection = FakeRTC;
STUBS["get-webrtc"].default = { RTCPeerConnection: FakeRTC };
global.RTCIceCandidate = global.RTCIceCandidate || class { constructor(c) { Object.assign(this, c); } };

// ---- fake sockets ----------------------------------------------------------------------------------------
class Sock {
    constructor(net, owner) { this.net = net; this.owner = owner; this.l = {}; this.closed = false; this.written = []; this.lastAt = 0; }
    on(e, f) { (this.l[e] = this.l[e] || []).push(f); return this; }
    once(e, f) { return this.on(e, f); }
    off() { return this; }
    removeListener() { return this; }
    emit(e, ...a) { for (const f of this.l[e] || []) f(...a); }
    write(s) {
        if (this.failing) throw new Error("write failed: stream is being destroyed");
        if (this.closed) { this.net.run.count("writes_after_close"); return false; }
        this.net.wrote(this, String(s));
        return true;
    }
    end() { this.net.shut(this); }
    destroy() { this.net.shut(this); }
    deliver(s) { if (!this.closed) this.emit("data", this.net.r.bool(0.5) ? Buffer.from(s) : new Uint8Array(Buffer.from(s))); }
}
class Net {
    static async create(run, n, opts = {}) {
        const net = new Net();
        net.run = run;
        net.r = run.rng.fork("net");
        net.w = new World(run.chain, run.seed, { kind: "ledger" });
        net.sim = net.w.sim;
        net.rtc = new Map();
        net.conns = 0;
        net.hostile = new Set();
        net.all = []; // every endpoint of an honest peer
        net.challenges = new Map();
        net.seen = new Map(); // transport -> Map(address -> verified)
        net.proved = new Map(); // peer -> Set(address)
        net.template = null;
        net.signed = [];
        current = net;
        await run.chain.mine();
        for (let i = 0; i < n; i++) {
            const hooks = { onConnection: (a) => net.connected(peer, a) };
            let peer;
            peer = await net.w.addPeer(WALLETS[i], { hooks });
            peer.p2p.preferredTransport = opts.webrtc && net.r.bool(opts.webrtc) ? 1 : peer.p2p.preferredTransport;
            net.proved.set(peer, new Set());
            peer.recognised = [];
        }
        net.peers = net.w.peers;
        net.w.onSigned = (p, m) => net.onSigned(p, m);
        net.agree = net.w.times[1];
        return net;
    }
    dispose() { this.w.dispose(); current = null; }
    async lag() { await this.sim.sleep(this.r.int(30)); }
    // ---- what honest peers sign
    onSigned(p, m) {
        const text = typeof m === "string" ? m : null;
        this.signed.push([p, text]);
        this.run.count("handshake_signatures");
        const hex = text && /0x[0-9a-fA-F]{64}/.exec(text);
        if (!text || !hex || text.length < hex[0].length + 4) { this.run.violate("signs-challenge", `${p.owner} signs ${show(m)} for a handshake, which is not a text of its own kind around a 32 byte challenge`); return; }
        const t = text.replace(hex[0], "%");
        if (this.template && this.template !== t) this.run.violate("signs-challenge", `${p.owner} signs ${text} in a handshake where others sign ${this.template}`);
        this.template = t;
    }
    proofText(c) { return (this.template || "state-channels-plus handshake %").replace("%", c); }
    // ---- links
    // an honest endpoint: `remote` is a peer or an adversary's name
    holepunch(peer, sock, remote) {
        const info = { banned: false, ban(b) { this.banned = b; } };
        const { HolepunchTransport } = peer.realm.load("transport");
        sock.remote = remote;
        sock.peer_ = peer;
        this.active = peer;
        this.register(sock, peer, remote);
        sock.transport = new HolepunchTransport(sock, info, peer.p2p);
        this.ready(sock);
    }
    ready(ep) {
        ep.ready = true;
        for (const s of ep.early || []) this.sim.at(0, () => { if (!ep.closed && ep.state !== "closed") this.receive(ep, s); }, "net", ep.owner);
        ep.early = null;
    }
    register(ep, peer, remote) {
        ep.honest = peer;
        ep.remote = remote;
        ep.rx = [];
        ep.tx = [];
        ep.sent = [];
        this.all.push(ep);
    }
    connect(a, b, delay) {
        const x = new Sock(this, a.owner), y = new Sock(this, b.owner);
        x.other = y; y.other = x;
        x.delay = delay || (() => 5 + this.r.int(300));
        y.delay = x.delay;
        const up = (p, s, o) => this.holepunch(p, s, o);
        if (this.r.bool()) { up(a, x, b); this.sim.at(this.r.int(100), () => { if (!y.closed) up(b, y, a); else this.run.count("never_up"); }, "net"); }
        else { up(b, y, a); this.sim.at(this.r.int(100), () => { if (!x.closed) up(a, x, b); }, "net"); }
        this.run.note("link", a.owner, b.owner);
        this.run.count("links_honest");
        return x;
    }
    // the adversary's end is `script`: {onData(s)}; returns what it can do
    adversary(peer, name, keys, delay) {
        const x = new Sock(this, name), y = new Sock(this, peer.owner);
        x.other = y; y.other = x;
        x.delay = y.delay = delay || (() => 5 + this.r.int(200));
        x.inbox = [];
        x.deliver = (s) => { x.inbox.push(s); if (x.onData) x.onData(s); };
        x.keys = keys;
        x.name = name;
        this.holepunch(peer, y, { owner: name, keys });
        this.run.count("links_adversary");
        return x;
    }
    wrote(ep, s) {
        if (ep.honest) this.onWrite(ep, s);
        const o = ep.other || ep.peer;
        if (!o) return;
        const at = Math.max(ep.lastAt || 0, this.sim.now + (ep.delay ? ep.delay() : 5 + this.r.int(60)));
        ep.lastAt = at;
        this.sim.at(at - this.sim.now, () => {
            if (o.closed || o.state === "closed") return;
            if (o.inbox) o.deliver(s);
            else if (!o.ready) (o.early = o.early || []).push(s); // the other side is not up yet
            else this.receive(o, s);
        }, "net", o.owner);
    }
    receive(o, s) {
        o.rx.push({ s, at: this.sim.now });
        this.run.count("messages_received");
        this.active = o.honest;
        if (this.onReceive) this.onReceive(o, s);
        this.current_ = o;
        o.deliver(s);
        this.current_ = null;
        if (this.afterReceive) this.afterReceive(o, s);
    }
    // something leaves an honest peer on an endpoint
    onWrite(ep, s) {
        ep.tx.push({ s, at: this.sim.now });
        let m;
        try { m = JSON.parse(s); } catch (e) { this.run.violate("sends-garbage", "a peer sends " + s.slice(0, 200), ["C19"]); return; }
        if (m.method === "onInitHandshakeRequest") {
            const c = m.params[0];
            this.run.count("challenges");
            if (!/^0x[0-9a-fA-F]{64}$/.test(c)) this.run.violate("weak-challenge", `challenge ${c}`);
            if (this.challenges.has(c)) this.run.violate("challenge-reused", `challenge ${c} is used on two connections or twice`);
            this.challenges.set(c, ep);
            ep.sent.push({ c, at: this.sim.now });
        }
        if (m.method === "onInitHandshakeResponse") {
            // it answers a challenge that came in on this very connection
            let ok = false;
            for (const x of ep.rx) {
                let q;
                try { q = JSON.parse(x.s); } catch (e) { continue; }
                if (!q || q.method !== "onInitHandshakeRequest" || !q.params) continue;
                try { if (ethers.verifyMessage(this.proofText(q.params[0]), m.params[0]) === ep.honest.address) ok = true; } catch (e) {}
            }
            if (!ok) this.run.violate("answer-misdirected", `${ep.honest.owner} sends to ${ep.remote.owner} the answer to a challenge that came from somebody else`, ["C18", "C19"]);
            this.run.count("answers");
        }
    }
    shut(s) {
        if (s.closed) return;
        s.closed = true;
        this.sim.at(1, () => { this.endpointClosed(s); s.emit("close"); }, "net");
        const o = s.other;
        if (o && !o.closed) this.sim.at(10 + this.r.int(150), () => { if (o.closed) return; o.closed = true; this.endpointClosed(o); o.emit("close"); }, "net");
    }
    endpointClosed(ep) { ep.gone = true; this.run.count("links_closed"); }
    // ---- WebRTC
    rtcChannel(conn) { return new FakeChannel(this, conn); }
    rtcConnect(off, ans) {
        const a = off.channel, b = new FakeChannel(this, ans);
        a.peer = b; b.peer = a;
        a.delay = b.delay = () => 5 + this.r.int(80);
        const open = (ch, conn, remote) => {
            if (ch.state === "closed") return;
            ch.state = "open";
            if (conn.owner) this.register(ch, conn.owner, remote);
            this.active = conn.owner;
            if (ch.onopen) ch.onopen({});
            this.ready(ch);
        };
        this.run.count("webrtc_connections");
        this.sim.at(20 + this.r.int(100), () => { if (ans.ondatachannel) ans.ondatachannel({ channel: b }); this.sim.at(this.r.int(60), () => open(b, ans, off.owner), "rtc"); }, "rtc");
        this.sim.at(20 + this.r.int(150), () => open(a, off, ans.owner), "rtc");
    }
    // ---- recognition
    connected(peer, addr) {
        peer.recognised.push(addr);
        this.run.count("recognitions");
        this.pendingHooks = this.pendingHooks || [];
        this.pendingHooks.push([peer, addr]);
    }
    transportOf(ep) {
        if (ep.transport) return ep.transport;
        // a WebRTC channel's transport is known to the peer
        const t = ep.honest && ep.honest.p2p.openConnections.find((x) => x.webRTCChannel === ep);
        if (t) ep.transport = t;
        return ep.transport;
    }
    // everything a peer believes about its connections must have been proved on them
    inspect() {
        for (const ep of this.all) {
            const t = this.transportOf(ep), peer = ep.honest;
            if (!t) continue;
            const prof = peer.p2p.profileManager.getProfileByTransport(t);
            if (ep.gone) {
                if (ep.checkedGone) continue;
                ep.checkedGone = true;
                this.run.check(!peer.p2p.openConnections.includes(t), "closed-kept", () => `${peer.owner} keeps its closed connection to ${ep.remote.owner} among the open ones`);
                this.run.check(!prof, "closed-attributed", () => `${peer.owner} still attributes a closed connection to ${prof.getEvmAddress()}`);
                continue;
            }
            if (!prof) continue;
            const addr = String(prof.getEvmAddress());
            if (!ep.ok) ep.ok = new Set();
            if (ep.ok.has(addr)) continue;
            ep.ok.add(addr);
            this.run.count("attributions");
            const proof = this.proofOf(ep, addr);
            const others = this.peers.filter((p) => p.address === addr && p !== ep.remote);
            this.run.check(!others.length, "attributed-to-other", () => `${peer.owner} attributes its connection to ${ep.remote.owner} to ${addr}, the address of ${others[0].owner}`);
            this.run.check(proof, "attributed-unproved", () => `${peer.owner} attributes its connection to ${ep.remote.owner} to ${addr}, which did not sign a fresh challenge of this connection`);
            if (proof) this.proved.get(peer).add(addr);
        }
        for (const p of this.peers) {
            const o = p.p2p.openConnections;
            this.run.check(new Set(o).size === o.length, "connection-twice", () => `${p.owner} holds a connection twice`);
            for (const q of [...this.peers.map((x) => x.address), ...(this.advKeys || []).map((k) => k.address)]) {
                const prof = p.p2p.profileManager.getProfileByEvmAddress(q);
                if (prof && !this.proved.get(p).has(q)) this.run.violate("profile-unproved", `${p.owner} has a profile for ${q}, which never proved itself to it`);
                const t = prof && prof.getTransport();
                if (!t) continue;
                const ep = this.all.find((e) => e.transport === t);
                if (ep && !(ep.ok && ep.ok.has(q))) this.run.violate("profile-transport", `${p.owner} reaches ${q} over its connection to ${ep.remote.owner}, where ${q} did not prove itself`);
            }
        }
        for (const [p, a] of this.pendingHooks || []) this.run.check(this.proved.get(p).has(a), "hook-unproved", () => `${p.owner} reports a connection with ${a}, which never proved itself to it`);
        this.pendingHooks = [];
    }
    proofOf(ep, addr) {
        for (const x of ep.rx) {
            let m;
            try { m = JSON.parse(x.s); } catch (e) { continue; }
            if (!m || m.method !== "onInitHandshakeResponse" || !m.params) continue;
            for (const c of ep.sent) {
                if (x.at - c.at > (this.agree + 1) * 1000) continue;
                try { if (ethers.verifyMessage(this.proofText(c.c), m.params[0]) === addr) return true; } catch (e) {}
            }
        }
        return false;
    }
    async go(ms) {
        const end = this.sim.now + ms;
        await this.sim.settle();
        let guard = 0;
        while (this.sim.peekTime() <= end) {
            await this.sim.step();
            this.inspect();
            if (++guard > 20000) { this.run.violate("message-storm", `more than 20000 events within ${ms} ms of virtual time`, ["C19", "C27"]); break; }
        }
        this.sim.now = Math.max(this.sim.now, end);
        if (this.sim.errors.length) this.run.violate("escaped", "an error escaped from the handling of an event: " + (this.sim.errors[0].err.stack || this.sim.errors[0].err), ["C18", "C19"]);
    }
    linksOf(a, b) { return this.all.filter((e) => e.honest === a && e.remote === b && !e.gone && !e.closed && e.state !== "closed"); }
    // honest peers with a link know each other and can talk
    async mutual() {
        for (const a of this.peers) for (const b of this.peers) {
            if (a === b) continue;
            const ls = this.linksOf(a, b);
            if (!ls.length) continue;
            const prof = a.p2p.profileManager.getProfileByEvmAddress(b.address);
            this.run.count("pairs_judged");
            const t = prof && prof.getTransport();
            this.run.check(prof && prof.getIsHandshakeCompleted() && ls.some((e) => this.transportOf(e) === t) && a.p2p.profileManager.getProfileByTransport(t) === prof, "not-recognised", () => `${a.owner} does not recognise ${b.owner} on their connection` + (prof ? ` (it has a profile with ${t ? "another" : "no"} connection)` : " (no profile)"));
            this.run.check(t && a.p2p.openConnections.includes(t) && !t.isClosed, "not-open", () => `${a.owner}'s connection to ${b.owner} is not among the open ones`);
            this.run.check(a.recognised.includes(b.address), "not-reported", () => `${a.owner} did not report the connection to ${b.owner}`);
        }
        const tag = "0x" + this.r.bytes(16).slice(2);
        for (const a of this.peers) {
            const o = await this.attempt(() => a.p2p.rpcProxy.onCanJoinLeaderResponse(tag, [a.address]).broadcast());
            this.run.check(!o, "broadcast-throws", () => `a broadcast of ${a.owner} fails: ${o}`);
        }
        await this.go(3000);
        for (const a of this.peers) for (const b of this.peers) {
            if (a === b || !this.linksOf(a, b).length) continue;
            const n = this.all.filter((e) => e.honest === b && e.remote === a && e.rx.some((x) => x.s === json("onCanJoinLeaderResponse", [tag, [a.address]]))).length;
            this.run.check(n >= 1, "not-reached", () => `a broadcast of ${a.owner} did not reach ${b.owner}`);
        }
    }
    async attempt(f) { try { await f(); return null; } catch (e) { return e.message || String(e); } }
}
const keyset = (r, n) => Array.from({ length: n }, () => new ethers.Wallet(r.bytes(32)));

// ---- C18 ---------------------------------------------------------------------------------------------------
async function handshakes(run) {
    const r = run.rng;
    const net = await Net.create(run, r.range(2, 4));
    try {
        const sim = net.sim, t0 = sim.now;
        net.advKeys = keyset(r, 3);
        // honest links, some of which are closed and opened again
        for (let i = 0; i < net.peers.length; i++) for (let j = i + 1; j < net.peers.length; j++) {
            const a = net.peers[i], b = net.peers[j];
            const slow = r.bool(0.2) ? () => 600 + r.int(500) : undefined;
            const open = (t) => sim.at(t, () => {
                const x = net.connect(a, b, slow);
                if (sim.now < t0 + 15000 && r.bool(0.3)) { const t2 = r.pick([3, 200, 1500, 6000]); sim.at(t2, () => { run.note("cut", a.owner, b.owner); net.shut(r.bool() ? x : x.other); }, "net"); open(t2 + 800 + r.int(2000)); }
            }, "net");
            open(r.int(3000));
        }
        const n = r.range(1, 6);
        for (let i = 0; i < n; i++) sim.at(r.int(6000), () => bad(net, i), "net");
        await net.go(30000);
        await net.mutual();
    } finally { net.dispose(); }
}
const MESS = ["0x", "", null, 5, "zz", [], {}, "0x" + "11".repeat(64), "0x" + "00".repeat(65), "0x" + "ff".repeat(65), "0x" + "ab".repeat(400)];
function bad(net, i) {
    const { r, sim, run } = net;
    const p = r.pick(net.peers), key = r.pick(net.advKeys), name = "adv" + i;
    const kind = r.pick(["proper", "proper", "silent", "garbage", "stale", "reflect", "reflect", "replay", "replay", "live-replay", "unsolicited", "cross", "late", "questions", "cut", "repeat", "mixed"]);
    run.note("adversary", name, p.owner, kind);
    run.count("adversary_" + kind);
    const x = net.adversary(p, name, net.advKeys);
    const now = () => net.w.nowSec();
    const req = (c, t) => net.wrote(x, json("onInitHandshakeRequest", [c, t]));
    const res = (sig, t, pref) => net.wrote(x, json("onInitHandshakeResponse", [sig, t === undefined ? now() : t, pref === undefined ? r.pick([0, 0, 1]) : pref]));
    const sign = (k, c) => k.signMessageSync(net.proofText(c));
    const each = (f) => { x.onData = (s) => { let m; try { m = JSON.parse(s); } catch (e) { return; } f(m); }; };
    const fresh = () => r.bytes(32);
    const heard = () => net.all.flatMap((e) => e.tx.map((t) => t.s)).concat(net.all.flatMap((e) => e.rx.map((t) => t.s))).map((s) => { try { return JSON.parse(s); } catch (e) { return {}; } }).filter((m) => m && m.method === "onInitHandshakeResponse" && Array.isArray(m.params) && typeof m.params[0] === "string");
    if (r.bool(0.6)) req(fresh(), now());
    switch (kind) {
        case "proper": each((m) => { if (m.method === "onInitHandshakeRequest") res(sign(key, m.params[0]), undefined, 0); }); break;
        case "silent": break;
        case "garbage": each((m) => { if (m.method === "onInitHandshakeRequest") for (let k = 0; k < 3; k++) net.wrote(x, json("onInitHandshakeResponse", r.pick([[r.pick(MESS), now(), 0], [], {}, [sign(key, fresh()), "now"], [null, null, null]]))); }); break;
        case "stale": each((m) => { if (m.method === "onInitHandshakeRequest") res(sign(key, fresh())); }); break;
        case "reflect": // ask the peer to answer its own challenge
            each((m) => {
                if (m.method === "onInitHandshakeRequest") req(m.params[0], now());
                if (m.method === "onInitHandshakeResponse") res(m.params[0], m.params[1], m.params[2]);
            });
            break;
        case "replay": each((m) => { if (m.method === "onInitHandshakeRequest") for (const o of r.shuffle(heard()).slice(0, 6)) net.wrote(x, json(o.method, o.params)); }); break;
        case "live-replay": { // whatever proof anybody sends to this peer is sent here too, at once
            const old = net.onReceive;
            net.onReceive = (ep, s) => { if (old) old(ep, s); if (ep.honest === p && ep !== x.other && s.includes("onInitHandshakeResponse")) { if (r.bool()) x.lastAt = 0; net.wrote(x, s); } };
            break;
        }
        case "unsolicited": for (let k = 0; k < 3; k++) sim.at(r.int(900), () => res(sign(key, fresh())), "net"); break;
        case "cross": { // proof made for one connection, presented on another
            const y = net.adversary(p, name + "b", net.advKeys);
            each((m) => { if (m.method === "onInitHandshakeRequest") net.wrote(y, json("onInitHandshakeResponse", [sign(key, m.params[0]), now(), 0])); });
            break;
        }
        case "late": each((m) => { if (m.method === "onInitHandshakeRequest") sim.at((net.agree + 2) * 1000 + r.int(3000), () => res(sign(key, m.params[0]), r.bool() ? m.params[1] : undefined), "net"); }); break;
        case "questions": for (let k = 0; k < 6; k++) req(r.pick([fresh(), fresh(), ...MESS, "0x" + "ab".repeat(31), "0x" + "ab".repeat(33), "hello"]), r.pick([now(), now(), now() + 100, 0, null, "x", 1e300, -1])); break;
        case "cut": each(() => { net.shut(x); }); break;
        case "repeat": each((m) => { if (m.method === "onInitHandshakeRequest") { const s = sign(key, m.params[0]); for (let k = 0; k < r.range(2, 4); k++) sim.at(r.int(5000), () => res(s, undefined, 0), "net"); } }); break;
        default: // everything at once
            each((m) => {
                if (m.method === "onInitHandshakeRequest") { if (r.bool()) res(sign(key, fresh())); if (r.bool()) req(fresh(), now()); for (const o of r.shuffle(heard()).slice(0, 2)) net.wrote(x, json(o.method, o.params)); net.wrote(x, "garbage{"); }
            });
    }
    if (r.bool(0.15)) sim.at(r.int(8000), () => net.shut(x), "net");
}
// peers that move their connections to WebRTC
async function upgrade(run) {
    const r = run.rng;
    const net = await Net.create(run, r.range(2, 3), { webrtc: 0.7 });
    try {
        for (let i = 0; i < net.peers.length; i++) for (let j = i + 1; j < net.peers.length; j++) net.sim.at(r.int(2000), () => net.connect(net.peers[i], net.peers[j]), "net");
        net.advKeys = keyset(r, 2);
        if (r.bool(0.5)) for (let i = 0; i < r.range(1, 2); i++) net.sim.at(r.int(4000), () => bad(net, i), "net");
        await net.go(20000);
        await net.mutual();
        // a WebRTC channel goes down: the others stay
        const chans = net.all.filter((e) => e instanceof FakeChannel && e.state === "open");
        if (chans.length && r.bool(0.6)) {
            const c = r.pick(chans);
            run.note("channel down");
            if (r.bool()) c.close(); else { c.peer.close(); }
            await net.go(r.pick([3, 1000]));
            await net.go(1000);
            await net.mutual();
        }
    } finally { net.dispose(); }
}

// ---- C19 ---------------------------------------------------------------------------------------------------
// Record calls of the public operations, on the dispatcher and on the services behind it
function spy(net, peer, log) {
    const main = peer.p2p.localRpcService;
    const own = Object.keys(main);
    const wrap = (obj, name, level) => {
        const orig = obj[name];
        obj[name] = function (...a) {
            log.push({ peer, level, name, args: a, sender: main.senderTransport, ep: net.current_ });
            if (level === "service") {
                const k = net.react ? net.react(name) : 0;
                if (k === 1) throw new Error("service fails at once");
                if (k === 2) return Promise.reject(new Error("service fails later"));
                if (k === 3) return net.sim.sleep(30).then(() => { throw new Error("service fails much later"); });
                if (k === 4) return undefined;
            }
            return orig.apply(this, a);
        };
        Object.defineProperty(obj, name, { value: obj[name], enumerable: false, writable: true, configurable: true });
    };
    const services = new Set();
    for (const k of own) {
        const s = main[k];
        if (!s || typeof s !== "object" || s === main || s === peer.p2p || k === "senderTransport" || k === "rpcProxy") continue;
        for (const op of OPS) if (typeof s[op] === "function" && Object.getPrototypeOf(s) !== Object.prototype && s[op] !== undefined && Object.getPrototypeOf(s).hasOwnProperty(op)) { wrap(s, op, "service"); services.add(op); }
    }
    for (const op of OPS) if (typeof main[op] === "function") wrap(main, op, "main");
    // internals that no message may run
    const p = peer.p2p;
    for (const [o, names] of [[p, ["dispose", "disconnectAll", "tryOpenConnectionToChannel", "addConnection"]], [main.initHandshakeService, ["initHandshake"]], [p.stateManager, ["setChannelId", "dispose", "setState", "playTransaction"]]])
        for (const n of names) if (o && typeof o[n] === "function") {
            const orig = o[n];
            Object.defineProperty(o, n, { value: function (...a) { log.push({ peer, level: "internal", name: n, args: a, ep: net.current_ }); return orig.apply(this, a); }, enumerable: false, writable: true, configurable: true });
        }
    return services;
}
const NAMES = ["constructor", "__proto__", "toString", "valueOf", "hasOwnProperty", "__defineGetter__", "__defineSetter__", "__lookupGetter__", "isPrototypeOf", "propertyIsEnumerable", "toLocaleString", "p2pManager", "rpcProxy", "self", "senderTransport", "initHandshakeService", "stateTransitionService",
    "p2pManager.dispose", "initHandshakeService.initHandshake", "initHandshake", "initiateWebRTC", "dispose", "disconnectAll", "addConnection", "removeConnection", "onRpc", "setState", "playTransaction", "then", "", " onSignedBlock", "onsignedblock", "OnSignedBlock", "onSignedBlock ", "onSignedBlock\u0000", "onBlockConfirmations", "on", "broadcast", "sendOne"];
function arg(r, depth = 0) {
    const k = r.int(depth > 2 ? 7 : 11);
    switch (k) {
        case 0: return null;
        case 1: return r.bool();
        case 2: return r.pick([0, -1, 1.5, 1e300, 9007199254740993, r.int(1e9)]);
        case 3: return r.bytes(r.pick([0, 1, 32, 65, 300]));
        case 4: return r.pick(["", "x", "\u0000", "é€😀", "\"quote\\", "__proto__", "a".repeat(5000), "\n\r"]);
        case 5: return r.pick([[], {}, [[]], { a: {} }]);
        case 6: return r.pick(WALLETS).address;
        case 7: return Array.from({ length: r.int(4) }, () => arg(r, depth + 1));
        case 8: return { encodedBlock: arg(r, 3), signature: arg(r, 3) };
        case 9: return JSON.parse(`{"__proto__":${JSON.stringify(arg(r, 3))},"constructor":1,"then":"x"}`);
        default: return { [r.pick(["a", "length", "toString", "0"])]: arg(r, depth + 1) };
    }
}
function rawMessage(r) {
    const k = r.int(16), name = r.bool(0.5) ? r.pick(NAMES) : r.pick(OPS);
    const args = Array.from({ length: r.int(5) }, () => arg(r));
    switch (k) {
        case 0: return "";
        case 1: return r.pick(["null", "true", "[]", "{}", "5", "\"x\"", "[{\"method\":\"onSignedBlock\",\"params\":[]}]", "{\"method\":null,\"params\":[]}", "NaN", "undefined"]);
        case 2: return json(name, args).slice(0, r.int(40));
        case 3: return JSON.stringify({ method: name });
        case 4: return JSON.stringify({ params: args });
        case 5: return JSON.stringify({ method: r.pick([5, null, [name], { toString: 1 }, true]), params: args });
        case 6: return JSON.stringify({ method: name, params: r.pick([{}, { length: 2 }, { 0: 1 }, 5, true, null, false, 0]) });
        case 7: return JSON.stringify({ method: r.pick(NAMES), params: args });
        case 8: return `{"__proto__":{"method":"onSignedBlock","params":[1]}}`;
        case 9: return "[".repeat(r.pick([10, 20000])) + "]".repeat(10);
        case 10: return json(name, args) + json(name, args);
        case 11: return r.bytes(r.int(60));
        case 12: return JSON.stringify({ method: name, params: args, extra: arg(r), __proto: 1 });
        default: return json(r.pick(NAMES.concat(OPS)), args);
    }
}
// independent reading of a message: [method, params], null if it calls nothing, undefined if unspecified
function meaning(s) {
    let m;
    try { m = JSON.parse(s); } catch (e) { return null; }
    if (!m || typeof m !== "object" || Array.isArray(m) || !Object.prototype.hasOwnProperty.call(m, "method") || typeof m.method !== "string" || !OPS.includes(m.method)) return null;
    if (Array.isArray(m.params)) return [m.method, m.params];
    if (typeof m.params === "string" && m.params) return undefined;
    return null;
}
async function calls(run) {
    const r = run.rng;
    const net = await Net.create(run, r.range(2, 4));
    const protoKeys = () => show([Object.getOwnPropertyNames(Object.prototype).sort(), Object.getOwnPropertyNames(Function.prototype).sort(), Object.getOwnPropertyNames(Array.prototype).length]);
    try {
        const before = protoKeys();
        for (let i = 0; i < net.peers.length; i++) for (let j = i + 1; j < net.peers.length; j++) net.sim.at(r.int(500), () => net.connect(net.peers[i], net.peers[j]), "net");
        await net.go(5000);
        net.advKeys = keyset(r, 2);
        const advs = [];
        for (let i = 0; i < r.range(1, 3); i++) { const x = net.adversary(r.pick(net.peers), "adv" + i, net.advKeys); advs.push(x); x.onData = (s) => { let m; try { m = JSON.parse(s); } catch (e) { return; } if (m.method === "onInitHandshakeRequest" && r.bool(0.7)) net.wrote(x, json("onInitHandshakeResponse", [net.advKeys[0].signMessageSync(net.proofText(m.params[0])), net.w.nowSec(), 0])); }; }
        await net.go(1500);
        const log = [], level2 = new Map();
        for (const p of net.peers) level2.set(p, spy(net, p, log));
        const real = r.bool(0.25); // let the services do their work, whatever the arguments
        net.react = real ? () => 0 : (n) => r.pick([1, 2, 3, 4, 4, 4]);
        const keysOf = (p) => show([Object.keys(p.p2p).sort(), Object.keys(p.p2p.localRpcService).sort(), p.p2p.openConnections.length]);
        let mark = 0, snap = null;
        net.onReceive = (ep) => { mark = log.length; snap = real ? null : keysOf(ep.honest); };
        net.afterReceive = (ep, s) => {
            const made = log.slice(mark).filter((c) => c.peer === ep.honest);
            const want = meaning(s);
            run.count("messages_judged");
            const inner = made.filter((c) => c.level === "internal");
            if (!real || want === null) run.check(!inner.length, "internals-run", () => `message ${s.slice(0, 300)} makes ${ep.honest.owner} run ${inner[0].name}`);
            const main = made.filter((c) => c.level === "main"), svc = made.filter((c) => c.level === "service");
            if (want === undefined) return;
            if (want === null) {
                run.count("messages_without_call");
                run.check(!main.length && !svc.length, "called-unasked", () => `message ${s.slice(0, 300)} makes ${ep.honest.owner} run ${made[0].name}`);
                if (!real) run.check(keysOf(ep.honest) === snap, "peer-changed", () => `message ${s.slice(0, 300)} changes the peer: ${snap} -> ${keysOf(ep.honest)}`);
                return;
            }
            run.count("messages_with_call");
            run.check(main.length + svc.length > 0, "not-called", () => `message ${s.slice(0, 300)} calls nothing`);
            for (const [lv, list] of [["dispatcher", main], ["service", svc]]) {
                if (lv === "service" && !level2.get(ep.honest).has(want[0])) continue;
                if (lv === "dispatcher" && !list.length && svc.length) continue; // dispatched to the service directly
                run.check(list.length === 1 && list[0].name === want[0], "called-wrong", () => `message ${s.slice(0, 300)}: ${lv} runs ${list.map((c) => c.name).join(",") || "nothing"}`);
                if (list.length !== 1) continue;
                const args = list[0].args.slice();
                const exp = want[1].slice();
                while (args.length && args[args.length - 1] === undefined) args.pop();
                // a service takes as many arguments as the operation has
                if (lv === "service" && args.length <= exp.length) exp.length = Math.max(args.length, 0);
                run.check(JSON.stringify(args) === JSON.stringify(exp), "arguments-differ", () => `message ${s.slice(0, 300)}: ${lv} gets ${show(args).slice(0, 300)}`);
                if (lv === "service") { const n = list[0].args.length; run.check(n >= Math.min(want[1].length, ARITY[want[0]]), "arguments-missing", () => `${want[0]} gets ${n} of ${want[1].length} arguments`); }
                if ("senderTransport" in ep.honest.p2p.localRpcService) run.check(list[0].sender === ep.transport, "wrong-context", () => `${want[0]} from ${ep.remote.owner} runs with another connection as its context`);
            }
        };
        for (let k = 0; k < r.range(10, 40); k++) {
            if (r.bool(0.4)) { const x = r.pick(advs), s = rawMessage(r); run.note("raw", s.slice(0, 80)); net.wrote(x, s); run.count("hostile_messages"); }
            else await honestCall(net, run);
            if (r.bool(0.5)) await net.go(r.int(400));
        }
        await net.go(4000);
        net.onReceive = net.afterReceive = null;
        run.check(protoKeys() === before, "prototype-changed", "a message changed a built-in prototype");
        net.react = null;
        if (!real) for (const a of net.peers) for (const b of net.peers) if (a !== b && net.linksOf(a, b).length) run.check(a.p2p.openConnections.includes(net.linksOf(a, b)[0].transport), "link-lost", () => `${a.owner} lost its connection to ${b.owner}`);
    } finally { net.dispose(); }
}
const ARITY = { onInitHandshakeRequest: 2, onInitHandshakeResponse: 3, onOfferWebRTC: 1, onAnswerWebRTC: 1, onIceCandidate: 1, onSignJoinChannelTEST: 2, onCanJoinLeaderRequest: 0, onCanJoinLeaderResponse: 2, onJoinChannelRequest: 2, onSignedBlock: 1, onBlockConfirmation: 2 };
// an outgoing call of an honest peer: who gets it?
async function honestCall(net, run) {
    const r = net.r, p = r.pick(net.peers), op = r.pick(OPS.filter((o) => !/Handshake/.test(o)));
    const args = Array.from({ length: ARITY[op] }, () => arg(r));
    const open = net.all.filter((e) => e.honest === p && !e.gone && p.p2p.openConnections.includes(net.transportOf(e)));
    const before = new Map(net.all.map((e) => [e, e.tx.length]));
    const how = r.int(3);
    let targets, err;
    const wr = (e) => !e.failing && !e.closed && e.state !== "closed";
    const want = json(op, args);
    const h = p.p2p.rpcProxy[op](...args);
    if (how === 0) { targets = open.filter(wr); err = await net.attempt(() => h.broadcast()); }
    else if (how === 1 && open.filter(wr).length) { const e = r.pick(open.filter(wr)); targets = [e]; err = await net.attempt(() => h.sendOne(e.transport)); }
    else { targets = r.shuffle(open.filter(wr)).slice(0, r.range(0, open.length)); err = await net.attempt(() => h.sendMultiple(targets.map((e) => e.transport))); }
    run.note("call", p.owner, op, how, targets.length);
    run.count("calls_sent");
    run.check(!err, "call-throws", () => `${["broadcast", "sendOne", "sendMultiple"][how]} throws: ${err}`);
    for (const e of net.all) {
        const w = e.tx.slice(before.get(e) || 0);
        const n = targets.includes(e) ? 1 : 0;
        run.check(w.length === n && w.every((x) => x.s === want), "delivery-count", () => `${["broadcast", "sendOne", "sendMultiple"][how]} of ${op} by ${p.owner} writes ${w.length} messages (${w.map((x) => x.s.slice(0, 100))}) to the connection ${e.honest.owner}-${e.remote.owner}, expected ${n}`);
    }
}
// connections come, break and go
async function links(run) {
    const r = run.rng;
    const net = await Net.create(run, r.range(2, 4), { webrtc: r.bool(0.3) ? 0.6 : 0 });
    try {
        net.advKeys = keyset(r, 2);
        const free = [];
        for (let i = 0; i < net.peers.length; i++) for (let j = i + 1; j < net.peers.length; j++) free.push([net.peers[i], net.peers[j]]);
        for (const [a, b] of free) net.connect(a, b);
        await net.go(5000);
        const adv = [];
        for (let k = 0; k < r.range(8, 25); k++) {
            const q = r.int(10);
            if (q < 2) { const x = net.adversary(r.pick(net.peers), "adv" + k, net.advKeys); adv.push(x); }
            else if (q < 4 && adv.length) net.shut(r.pick(adv));
            else if (q === 4) { const e = r.pick(net.all); if (e instanceof Sock && !e.gone) { run.note("failing"); e.failing = true; net.sim.at(50 + r.int(400), () => net.shut(e), "net"); } }
            else if (q === 5) { const cs = net.all.filter((e) => e instanceof FakeChannel && e.state === "open"); if (cs.length) r.pick(cs).close(); }
            else if (q === 6) { const e = r.pick(net.all); if (e instanceof Sock && !e.closed) net.shut(e); }
            else if (q === 7) { // connect again whoever lost its connection
                for (const [a, b] of free) if (!net.linksOf(a, b).length && !net.linksOf(b, a).length && !net.all.some((e) => ((e.honest === a && e.remote === b) || (e.honest === b && e.remote === a)) && !e.gone)) { net.connect(a, b); break; }
            } else for (let z = 0; z < 3; z++) await honestCall(net, run);
            await net.go(r.pick([1, 30, 300, 3000]));
        }
        await net.go(8000);
        for (const e of net.all) { e.failing = e.failing && !e.closed; }
        for (const p of net.peers) for (const t of p.p2p.openConnections) { const e = net.all.find((y) => y.transport === t); if (e) run.check(!e.gone, "closed-kept", () => `${p.owner} keeps a closed connection to ${e.remote.owner}`); }
        for (let z = 0; z < 5; z++) await honestCall(net, run);
        await net.go(2000);
        // teardown
        const p = r.pick(net.peers);
        if (r.bool(0.5)) {
            await net.sim.wait(p.p2p.dispose ? p.p2p.dispose() : null);
            run.check(p.p2p.openConnections.length === 0, "disposed-open", () => `${p.owner} has ${p.p2p.openConnections.length} open connections after it was disposed`);
            await net.go(1000);
        }
    } finally { net.dispose(); }
}
// requests to join spread among the participants, who endorse them
async function joins(run) {
    const r = run.rng;
    const net = await Net.create(run, r.range(2, 5));
    const { w, sim } = net;
    try {
        net.advKeys = keyset(r, 3);
        const members = r.shuffle(net.peers).slice(0, r.range(2, net.peers.length));
        const names = members.map((p) => p.address);
        const state = ledger.encode({ turn: 0n, digest: ethers.ZeroHash, parts: names, bal: names.map(() => 5n), blob: "0x" });
        for (const p of net.peers) await p.stateMachine.setState(state);
        const outsider = r.bool(0.3) ? r.pick(net.peers) : null; // a peer that is linked to some only
        for (let i = 0; i < net.peers.length; i++) for (let j = i + 1; j < net.peers.length; j++) net.connect(net.peers[i], net.peers[j]);
        const advs = [];
        for (let i = 0; i < r.range(1, 3); i++) { const x = net.adversary(r.pick(net.peers), "adv" + i, net.advKeys); advs.push(x); x.onData = (s) => { let m; try { m = JSON.parse(s); } catch (e) { return; } if (m.method === "onInitHandshakeRequest") net.wrote(x, json("onInitHandshakeResponse", [net.advKeys[0].signMessageSync(net.proofText(m.params[0])), w.nowSec(), 0])); }; }
        await net.go(3000);
        // the requests
        const reqs = new Map(); // hash -> request
        const all = [];
        const first = new Map(); // peer+encoded -> true once it was passed on
        const base = net.onSigned.bind(net);
        w.onSigned = (p, m) => {
            if (typeof m === "string") return base(p, m);
            const h = ethers.hexlify(m);
            run.count("endorsements");
            const q = reqs.get(h);
            if (!q) return run.violate("endorses-unknown", `${p.owner} signs ${h}, which is no request anybody made`);
            run.check(q.good, "endorses-forged", () => `${p.owner} endorses a request which the joiner did not sign`);
            run.check(p.clockAtMsg === undefined || q.deadline > BigInt(p.clockAtMsg), "endorses-expired", () => `${p.owner} endorses a request ${BigInt(p.clockAtMsg) - q.deadline} s after its deadline`);
        };
        net.onReceive = (ep) => { ep.honest.clockAtMsg = w.nowSec(); };
        const oldWrite = net.onWrite.bind(net);
        const passed = new Map();
        net.onWrite = (ep, s) => {
            oldWrite(ep, s);
            const m = JSON.parse(s);
            if (m.method !== "onJoinChannelRequest") return;
            run.count("requests_passed_on");
            const k = ep.honest.owner + m.params[0].encodedJoinChannel;
            if (!passed.has(k)) passed.set(k, new Map());
            const seen = passed.get(k);
            const q = all.find((x) => x.encoded.toLowerCase() === m.params[0].encodedJoinChannel.toLowerCase());
            if (!q) return run.violate("request-altered", `${ep.honest.owner} passes on a request nobody made`);
            seen.set(ep, (seen.get(ep) || 0) + 1);
            if (seen.get(ep) > 1) run.violate("passed-on-again", `${ep.honest.owner} passes the same pending request on a second time over the same connection (deadline in ${q.deadline - BigInt(w.nowSec())} s)`);
            let who = null;
            try { who = ethers.verifyMessage(ethers.getBytes(q.hash), m.params[1]); } catch (e) {}
            run.check(who === ep.honest.address, "endorsement-wrong", () => `${ep.honest.owner} passes a request on with an endorsement of ${who}`);
        };
        const make = () => {
            const key = r.pick(net.advKeys), now = BigInt(w.nowSec());
            const deadline = now + r.pick([-10n, 0n, 1n, 20n, 20n, 60n, 600n, 600n, 2592000n, 4000000n, 1n << 40n, 1n << 64n, (1n << 255n)]);
            const jc = { channelId: r.bytes(32), participant: r.bool(0.85) ? key.address : r.pick(net.peers).address, amount: BigInt(r.int(100)), deadlineTimestamp: deadline, data: r.bytes(r.pick([0, 1, 40])) };
            const encoded = enc(T.jc, jc);
            const hash = ethers.keccak256(encoded);
            let signature = key.signMessageSync(ethers.getBytes(hash));
            let good = jc.participant === key.address;
            if (r.bool(0.1)) { signature = r.pick(net.advKeys.filter((k) => k !== key)).signMessageSync(ethers.getBytes(hash)); good = false; }
            if (r.bool(0.05)) { signature = r.pick(["0x", "0x1234", null, 5]); good = false; }
            const q = { jc, encoded, hash, signature, good, deadline, at: null, key };
            reqs.set(hash, q);
            all.push(q);
            return q;
        };
        const send = (x, q, conf) => { net.wrote(x, json("onJoinChannelRequest", conf === undefined ? [{ encodedJoinChannel: q.encoded, signature: q.signature }] : [{ encodedJoinChannel: q.encoded, signature: q.signature }, conf])); if (q.at === null) q.at = w.nowSec(); };
        const queue = (p) => (p.p2p.localRpcService.joinChannelService || {}).joinChannelQueue;
        const judgeQueues = () => {
            for (const p of net.peers) {
                const list = queue(p);
                if (!Array.isArray(list)) continue;
                const count = new Map();
                for (const e of list) {
                    const q = all.find((x) => x.encoded === e.signedJoinChannel.encodedJoinChannel);
                    if (!q) { run.violate("queue-unknown", `${p.owner} queues a request nobody made`); continue; }
                    if (!e.judged) {
                        Object.defineProperty(e, "judged", { value: true, enumerable: false });
                        run.count("queued");
                        const by = e.confirmationSignatures.map((s) => { try { return ethers.verifyMessage(ethers.getBytes(q.hash), s); } catch (er) { return "?"; } });
                        run.check(q.good, "queue-forged", () => `${p.owner} queues a request which the joiner did not sign`);
                        run.check(names.every((n) => by.includes(n)), "queue-incomplete", () => `${p.owner} queues a request endorsed by ${by.length} of ${names.length} participants`);
                        run.check(by.every((a) => names.includes(a) || a === p.address), "queue-outsider", () => `${p.owner} queues a request with an endorsement by somebody who is not a participant`);
                        run.check(new Set(by).size === by.length, "queue-double-endorsement", () => `${p.owner} queues a request with two endorsements of one signer`);
                    }
                    count.set(q, (count.get(q) || 0) + 1);
                    if (count.get(q) > 1) run.violate("queued-twice", `${p.owner} queues one request twice`);
                }
            }
        };
        const old = [];
        for (let k = 0; k < r.range(4, 14); k++) {
            const x = r.pick(advs), q = r.bool(0.7) || !all.length ? make() : r.pick(all);
            run.note("request", x.name, q.good, q.deadline - BigInt(w.nowSec()));
            const z = r.int(8);
            if (z < 5) send(x, q);
            else if (z === 5) send(x, q, r.pick([q.key.signMessageSync(ethers.getBytes(q.hash)), "0x", "zz", 5, {}, r.bytes(65), net.peers[0].address]));
            else { // somebody's endorsement of this or of another request
                const heard = net.all.flatMap((e) => e.tx).map((t) => { try { return JSON.parse(t.s); } catch (e) { return {}; } }).filter((m) => m.method === "onJoinChannelRequest" && m.params[1]);
                if (heard.length) for (let i = 0; i < 3; i++) send(x, q, r.pick(heard).params[1]); else send(x, q);
            }
            await net.go(r.pick([0, 5, 100, 1000, 5000, 30000]));
            judgeQueues();
        }
        await net.go(6000);
        judgeQueues();
        // an honest request reaches everybody and is queued by everybody, once
        const key = r.pick(net.advKeys);
        const jc = { channelId: r.bytes(32), participant: key.address, amount: 7n, deadlineTimestamp: BigInt(w.nowSec()) + r.pick([30n, 600n, 5000000n]), data: "0x" };
        const encoded = enc(T.jc, jc), hash = ethers.keccak256(encoded);
        const q = { jc, encoded, hash, key, signature: key.signMessageSync(ethers.getBytes(hash)), good: true, deadline: jc.deadlineTimestamp, at: null };
        reqs.set(hash, q); all.push(q);
        const alive = advs.filter((x) => !x.closed && !x.other.closed);
        if (!alive.length) { run.count("nobody_left_to_ask"); return; }
        send(r.pick(alive), q);
        await net.go(8000);
        judgeQueues();
        for (const p of members) {
            run.count("spread_judged");
            run.check([...passed.keys()].includes(p.owner + encoded), "not-endorsed", () => `${p.owner} never endorsed a valid request that reached the channel`);
            const list = queue(p);
            if (Array.isArray(list)) run.check(list.filter((e) => e.signedJoinChannel.encodedJoinChannel === encoded).length === 1, "not-queued", () => `${p.owner} queued a request everybody endorsed ${list.filter((e) => e.signedJoinChannel.encodedJoinChannel === encoded).length} times`);
        }
        // expired requests are forgotten
        await net.go(700000);
        for (const p of net.peers) {
            const m = (p.p2p.localRpcService.joinChannelService || {}).joinChannelMap;
            if (!m || typeof m.has !== "function") continue;
            for (const x of all) if (x.deadline + 2n < BigInt(w.nowSec())) run.check(!m.has(x.encoded), "not-forgotten", () => `${p.owner} still keeps a request that expired ${BigInt(w.nowSec()) - x.deadline} s ago`);
        }
    } finally { net.dispose(); }
}
module.exports = { handshakes, upgrade, calls, links, joins };
