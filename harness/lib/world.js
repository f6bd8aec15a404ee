"use strict";
// A simulated deployment: real peers (one realm each), real contracts, a network whose delays, drops,
// duplications and orderings are drawn from the seed, and a recorder of everything observable.
const { makeRealm, quiet, StubSwarm } = require("./loader");
const { Sim } = require("./sim");
const { Rng } = require("./rng");
const { watch } = require("./serial");
const { SimSigner, WALLETS, ethers, E } = require("./chain");

global.Hyperswarm = global.Hyperswarm || new StubSwarm();

const T = {
    tx: `tuple(tuple(bytes32 channelId,address participant,uint256 forkCnt,uint256 transactionCnt,uint256 timestamp) header,tuple(uint8 transactionType,bytes encodedData,bytes data) body)`
};
T.block = `tuple(${T.tx} transaction,bytes32 stateHash,bytes32 previousStateHash)`;
T.jc = `tuple(bytes32 channelId,address participant,uint256 amount,uint256 deadlineTimestamp,bytes data)`;
T.sjc = `tuple(bytes encodedJoinChannel,bytes signature)`;
T.jca = `tuple(${T.sjc} signedJoinChannel,address submitter,uint256 forkCnt,uint256 transactionCnt,bytes32 previousStateHash)`;
T.lc = `tuple(bytes32 channelId,address participant,uint256 forkCnt,uint256 transactionCnt,bytes32 previousStateHash,uint256 deadlineTimestamp,bytes data)`;
const SB = "tuple(bytes encodedBlock,bytes signature)";
T.sb = SB;
T.proof = {
    FoldRechallenge: [0, "tuple(bytes encodedBlock,bytes[] signatures)"],
    DoubleSign: [1, `tuple(tuple(${SB} block1,${SB} block2)[] doubleSigns)`],
    IncorrectData: [2, `tuple(${SB} block1,${SB} block2,bytes encodedState)`],
    NewerState: [3, "tuple(bytes encodedBlock,bytes confirmationSignature)"],
    FoldPriorBlock: [4, "tuple(uint256 transactionCnt)"],
    BlockTooFarInFuture: [5, `tuple(${SB} block1)`],
    JoinChannel: [6, "tuple(bytes encodedSignedJoinChannel,bytes[] signatures)"]
};
T.math = "tuple(uint256 number,address[] participants)";
T.ledger = "tuple(uint256 turn,bytes32 digest,address[] participants,uint256[] balances,bytes blob)";
const coder = ethers.AbiCoder.defaultAbiCoder();
const enc = (t, v) => coder.encode([t], [v]);
const dec = (t, b) => coder.decode([t], b)[0];
const keccak = ethers.keccak256;
const { secp256k1 } = require(require.resolve("@noble/curves/secp256k1", { paths: [require("./solc").REPO] }));
// another valid signature of the same key on the same bytes
const resign = (w, encoded, n) => {
    const h = ethers.hashMessage(ethers.getBytes(keccak(encoded)));
    const x = secp256k1.sign(h.slice(2), w.privateKey.slice(2), { lowS: true, extraEntropy: ethers.getBytes(keccak(ethers.toBeHex(n + 1, 32))) });
    return "0x" + x.toCompactHex() + (x.recovery ? "1c" : "1b");
};
const signBytes = (w, encoded) => w.signMessageSync(ethers.getBytes(keccak(encoded)));
const recover = (encoded, sig) => ethers.verifyMessage(ethers.getBytes(keccak(encoded)), sig);
const walletOf = (addr) => WALLETS.find((w) => w.address === addr);

function plainBlock(b) {
    const h = b.transaction.header;
    return {
        transaction: {
            header: { channelId: h.channelId, participant: h.participant, forkCnt: h.forkCnt, transactionCnt: h.transactionCnt, timestamp: h.timestamp },
            body: { transactionType: b.transaction.body.transactionType, encodedData: b.transaction.body.encodedData, data: b.transaction.body.data }
        },
        stateHash: b.stateHash,
        previousStateHash: b.previousStateHash
    };
}
class World {
    constructor(chain, seed, opts = {}) {
        this.chain = chain;
        this.rng = new Rng(seed);
        this.seed = seed;
        const startSec = Math.max(chain.lastTs, chain.sim ? Math.floor(chain.sim.now / 1000) : 0) + 1;
        this.sim = new Sim(this.rng.fork("sched"), startSec * 1000);
        chain.attach(this.sim);
        this.kind = opts.kind || "ledger";
        this.mgr = this.kind === "math" ? chain.math : this.kind === "long" ? chain.long : chain.ledger;
        this.times = this.kind === "math" ? chain.mathTimes : this.kind === "long" ? [15, 4, 6, 40] : chain.times;
        this.smName = this.kind === "math" ? "MathStateMachine" : "LedgerStateMachine";
        this.stateType = this.kind === "math" ? T.math : T.ledger;
        this.smIface = chain.iface(this.smName);
        // the same seed always gives the same channel (unless it is run twice on one chain)
        const used = (chain.usedSeeds = chain.usedSeeds || new Map());
        used.set(seed, (used.get(seed) || 0) + 1);
        this.channelId = keccak(ethers.toUtf8Bytes("channel-" + used.get(seed) + "-" + seed));
        this.peers = [];
        this.net = Object.assign(
            { minDelay: 5, maxDelay: 120, drop: 0, dup: 0, logMin: 100, logMax: 1500, opDelayP: 0, opDelayMax: 40, txMin: 50, txMax: 800 },
            opts.net || {}
        );
        this.wire = []; // every message put on the network
        this.blocked = new Set(); // "a>b" links that are cut
        this.chainLog = []; // decoded manager events of this channel
        this.unhandled = [];
        const self = this;
        this._listener = (l) => {
            if (l.address.toLowerCase() !== self.mgr.address.toLowerCase()) return;
            const p = self.mgr.iface.parseLog(l);
            if (p && p.args[0] === self.channelId) {
                self.chainLog.push({ name: p.name, args: p.args, t: self.chain.lastTs });
                self.sim.note("chain", p.name);
                if (self.onChainEvent) self.onChainEvent(p);
            }
        };
        chain.logListeners.push(this._listener);
    }
    dispose() {
        this.chain.logListeners = this.chain.logListeners.filter((f) => f !== this._listener);
        for (const s of this.chain.subs) this.chain.subs.delete(s);
        this.sim.events = [];
    }
    nowSec() { return Math.floor(this.sim.now / 1000); }
    genesisState(parts, amounts) {
        return this.kind === "math"
            ? enc(T.math, { number: 0, participants: parts })
            : enc(T.ledger, { turn: 0, digest: ethers.ZeroHash, participants: parts, balances: amounts, blob: "0x" });
    }
    signJoin(w, over = {}) {
        const jc = { channelId: this.channelId, participant: w.address, amount: 500, deadlineTimestamp: this.nowSec() + 600, data: "0x", ...over };
        const e = enc(T.jc, jc);
        return { jc, encodedJoinChannel: e, signature: signBytes(w, e) };
    }
    async addPeer(wallet, opts = {}) {
        const owner = "p" + this.peers.length;
        const rng = this.rng.fork(owner);
        const world = this;
        const peer = { owner, wallet, address: wallet.address, world, rng, hooksLog: [], transports: new Map(), txs: [], txErrors: [], signed: 0, crashed: false };
        const env = this.sim.env(owner, opts.skewMs || 0);
        peer.realm = makeRealm({ ...env, console: opts.console || quiet });
        const provider = this.chain.newProvider(owner, (fire, log) => {
            if (log.address.toLowerCase() === world.chain.addr[world.smName].toLowerCase()) {
                // a log of the shared on-chain state machine contract reaching the application's contract object
                peer.chainAppLogs = (peer.chainAppLogs || 0) + 1;
                return;
            }
            if (opts.noLogs) return;
            let parsed;
            try { parsed = world.mgr.iface.parseLog(log); } catch (e) {}
            if (parsed && parsed.args[0] === world.channelId) {
                const deliver = fire;
                fire = () => { if (world.onLogSeen) world.onLogSeen(peer, parsed); return deliver(); };
                // providers deliver at least once: after a reconnect the same log can come much later
                if (world.net.logEcho && world.rng.bool(world.net.logEcho)) world.sim.at(world.net.logMax + world.rng.int(40000), fire, "echo", owner);
            }
            if (world.net.logDrop && world.rng.bool(world.net.logDrop)) return;
            // one participant sees chain logs in order, each no earlier than its predecessor
            const d = world.net.logMin + world.rng.int(Math.max(1, world.net.logMax - world.net.logMin));
            peer.logAt = Math.max((peer.logAt || 0) + 1, world.sim.now + d);
            world.sim.at(peer.logAt - world.sim.now, fire, "log", owner);
            if (world.net.logDup && world.rng.bool(world.net.logDup)) world.sim.at(peer.logAt - world.sim.now + 1 + world.rng.int(2000), fire, "log", owner);
        });
        const lag = async () => {
            if (peer.sm && !world.noLag && world.net.opDelayP && rng.bool(world.net.opDelayP)) await world.sim.sleep(1 + rng.int(world.net.opDelayMax));
        };
        peer.signer = new SimSigner(wallet, provider, this.chain, {
            onSign: async (m) => {
                peer.signed++;
                await lag();
            },
            onSigned: (m, sig) => {
                if (world.onSigned) world.onSigned(peer, m, sig);
            },
            honourGas: true,
            onCall: lag,
            onTx: async (tx) => {
                if (peer.crashed) return { drop: true };
                peer.txs.push(tx);
                if (world.onTxSent) world.onTxSent(peer, tx);
                world.sim.note(owner, "sends chain tx", String(tx.data).slice(0, 10));
                if (opts.blockTx || peer.crashed) return { drop: true };
                await world.sim.sleep(world.net.txMin + rng.int(world.net.txMax - world.net.txMin + 1));
            },
            onTxDone: (tx, r) => {
                tx.verifDone = true;
                if (world.onTxDone) world.onTxDone(peer, tx, r);
            },
            onTxError: (tx, e) => {
                tx.verifError = world.chain.reason(e);
                if (world.onTxFailed) world.onTxFailed(peer, tx);
                peer.txErrors.push({ tx, reason: world.chain.reason(e) });
                world.sim.note(owner, "chain tx failed", world.chain.reason(e));
            }
        });
        const scm = new ethers.Contract(this.mgr.address, this.chain.art[this.mgr.name].abi, peer.signer);
        const smc = new ethers.Contract(this.chain.addr[this.smName], this.chain.art[this.smName].abi, peer.signer);
        const hooks = {};
        for (const k of ["onConnection", "onTurn", "onSetState", "onPostingCalldata", "onPostedCalldata", "onDisputeUpdate", "onInitiatingDispute"])
            hooks[k] = (...a) => {
                peer.hooksLog.push({ t: world.sim.now, k, a });
                opts.hooks?.[k]?.(...a);
            };
        const { EvmStateMachine } = peer.realm.load("evm");
        // set-up does real asynchronous work (loading the EVM), outside the simulated schedule
        peer.instance = await EvmStateMachine.p2pSetup(peer.signer, { data: this.chain.link(this.smName) }, scm, smc, hooks);
        peer.contract = peer.instance.p2pContractInstance;
        peer.p2p = peer.instance.p2pSigner.p2pManager;
        peer.sm = peer.p2p.stateManager;
        peer.am = peer.sm.agreementManager;
        peer.stateMachine = peer.sm.stateMachine;
        watch(peer, (k, m) => { if (world.onSerial) world.onSerial(k, m); }, (k) => { if (world.onCount) world.onCount(k); });
        if (this.net.opDelayP && peer.stateMachine.contractExecuter) {
            // slow local execution down at random points (real EVM execution is asynchronous anyway)
            const ex = peer.stateMachine.contractExecuter;
            for (const m of ["executeCall", "executeView"]) {
                if (typeof ex[m] !== "function") continue;
                const orig = ex[m].bind(ex);
                ex[m] = async (d) => {
                    await lag();
                    const x = await orig(d);
                    await lag();
                    return x;
                };
            }
        }
        peer.ATransport = peer.realm.load("transport").ATransport || peer.realm.load("transport/ATransport").default;
        const Clock = peer.realm.load("Clock").default;
        peer.clock = () => Clock.getTimeInSeconds();
        this.peers.push(peer);
        return peer;
    }
    makeTransport(from, to) {
        const world = this;
        const Base = from.ATransport;
        class SimTransport extends Base {
            constructor() {
                super();
                this.transportType = 0;
                this.closedCount = 0;
            }
            send(s) {
                if (this.isClosed) return;
                world.transmit(from, to, s);
            }
            onMessage(d) {
                from.p2p.localRpcService.senderTransport = this;
                from.p2p.onRpc(d.toString());
            }
            _close() { this.closedCount++; }
        }
        const t = new SimTransport();
        t.label = from.owner + ">" + to.owner;
        from.transports.set(to, t);
        return t;
    }
    transmit(from, to, s, raw) {
        if (from.crashed) return;
        if (!raw && from.filter) {
            const r = from.filter(to, s);
            if (r !== true) {
                for (const [t2, s2] of r || []) this.transmit(from, t2, s2, true);
                return;
            }
        }
        this.wire.push({ t: this.sim.now, from, to, s });
        if (this.onWire) this.onWire(from, to, s);
        if (this.blocked.has(from.owner + ">" + to.owner)) return;
        let copies = 1;
        if (this.net.drop && this.rng.bool(this.net.drop)) copies = 0;
        else if (this.net.dup && this.rng.bool(this.net.dup)) copies = 2;
        for (let i = 0; i < copies; i++) {
            const slow = (this.slowLinks && this.slowLinks.get(from.owner + ">" + to.owner)) || 0;
            const d = slow + this.net.minDelay + this.rng.int(Math.max(1, this.net.maxDelay - this.net.minDelay));
            this.sim.at(d, () => this.receive(from, to, s), "msg", to.owner);
        }
    }
    receive(from, to, s) {
        if (to.crashed || !to.p2p) return;
        this.sim.note(from.owner + "->" + to.owner, s.slice(2, 40), keccak(ethers.toUtf8Bytes(s)).slice(2, 10));
        const t = to.transports.get(from);
        if (this.onReceive) this.onReceive(to, s);
        t.onMessage(s);
    }
    connectAll(handshake = false) {
        for (const a of this.peers) for (const b of this.peers) if (a !== b) {
            const t = this.makeTransport(a, b);
            if (handshake) a.p2p.addConnection(t);
            else a.p2p.openConnections.push(t);
        }
    }
    async open(wallets, amounts, opener) {
        amounts = amounts || wallets.map((_, i) => 1000 + i);
        this.parts = wallets.map((w) => w.address);
        const js = wallets.map((w, i) => this.signJoin(w, { amount: amounts[i] }));
        const o = opener || WALLETS[15];
        const r = await this.sim.wait(
            this.mgr.tx(o.address, "openChannel", [this.channelId, js.map((j) => j.encodedJoinChannel), js.map((j) => j.signature)])
        );
        if (!r.ok) throw r.err || new Error("openChannel pending");
        return r.res;
    }
    // Standard start-up: peers, channel id, links, open, let everyone see the genesis state
    async boot(n, opts = {}) {
        const wallets = opts.wallets || WALLETS.slice(0, n);
        await this.chain.mine(); // a live chain: its newest block is recent
        for (let i = 0; i < n; i++) await this.addPeer(wallets[i], opts.peer ? opts.peer(i) : {});
        this.connectAll(!!opts.handshake);
        for (const p of this.peers) p.instance.p2pSigner.setChannelId(this.channelId);
        await this.sim.settle();
        await this.open(wallets, opts.amounts);
        if (opts.noWait) return;
        await this.sim.run(this.net.logMax + 10);
    }
    encodeCall(fn, args) { return this.smIface.encodeFunctionData(fn, args); }
    decodeState(e) { return dec(this.stateType, e); }
    decodeBlock(e) { return dec(T.block, e); }
    // Honest submission through the public contract interface of a peer
    submit(peer, fn, args) {
        return peer.contract[fn](...args);
    }
    async nextWriter(peer) { return peer.stateMachine.getNextToWrite(); }
    chainOf(peer, fork) {
        const out = [];
        for (let h = 0; ; h++) {
            const b = peer.am.getBlock(fork, h);
            if (!b) break;
            out.push({ block: b, state: peer.am.getEncodedState(fork, h), sigs: peer.am.getSigantures(b) });
        }
        return out;
    }
}
function signBlock(w, block) {
    const encodedBlock = enc(T.block, block);
    return { encodedBlock, signature: signBytes(w, encodedBlock) };
}
function proof(kind, value) {
    const [id, t] = T.proof[kind];
    return { proofType: id, encodedProof: enc(t, value) };
}
// a wrong hash: the obvious ones, those of something nearby, or any
function oddHash(r, near = []) {
    const x = r.int(6);
    if (x === 0) return ethers.ZeroHash;
    if (x === 1) return r.pick([ethers.MaxUint256, 1n]).toString(16).padStart(64, "0").replace(/^/, "0x");
    if (x === 2) return r.pick([keccak("0x"), keccak(ethers.ZeroHash)]);
    if (x < 5 && near.length) {
        const h = r.pick(near);
        if (r.bool(0.6)) return h;
        const i = 2 + r.pick([0, 31, r.int(32)]) * 2;
        return h.slice(0, i) + (parseInt(h.slice(i, i + 2), 16) ^ (1 << r.int(8))).toString(16).padStart(2, "0") + h.slice(i + 2);
    }
    return keccak(enc("uint256", r.u32()));
}
module.exports = {
    oddHash, World, T, enc, dec, keccak, signBytes, resign, recover, walletOf, plainBlock, signBlock, proof, coder, WALLETS, ethers, E };
