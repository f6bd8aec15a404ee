"use strict";
// In-process EVM chain (hardhat's EDR) running the real contracts, with the block time driven by the
// simulation, a thin ethers provider on top, and observation of every log.
const path = require("path");
const { artifacts, REPO } = require("./solc");
const { repoRequire } = require("./loader");
require("./speed");
const ethers = repoRequire("ethers").ethers;
const E = repoRequire("ethers");

const KEYS = [];
for (let i = 1; i <= 16; i++) KEYS.push(ethers.keccak256(ethers.toUtf8Bytes("verif-peer-" + i)));
const WALLETS = KEYS.map((k) => new ethers.Wallet(k));

class ChainError extends Error {
    constructor(data, msg) {
        super(msg || "reverted");
        this.data = data;
        this.code = "CALL_EXCEPTION";
    }
}
class Chain {
    static async create(opts = {}) {
        const c = new Chain();
        const art = await artifacts();
        c.art = art.contracts;
        c.compiledGroups = art.compiled;
        const { createHardhatNetworkProvider } = repoRequire("hardhat/internal/hardhat-network/provider/provider");
        const { defaultHardhatNetworkParams } = repoRequire("hardhat/internal/core/config/default-config");
        c.start = opts.start || 1700000000;
        c.edr = await createHardhatNetworkProvider(
            {
                chainId: 31337,
                networkId: 31337,
                hardfork: "cancun",
                blockGasLimit: 1_000_000_000,
                initialBaseFeePerGas: 0,
                minGasPrice: 0n,
                throwOnTransactionFailures: true,
                throwOnCallFailures: true,
                automine: true,
                intervalMining: 0,
                mempoolOrder: "fifo",
                chains: defaultHardhatNetworkParams.chains,
                coinbase: "0x0000000000000000000000000000000000000001",
                genesisAccounts: KEYS.map((k) => ({ privateKey: k, balance: 10n ** 24n })),
                allowUnlimitedContractSize: true,
                allowBlocksWithSameTimestamp: true,
                initialDate: new Date(c.start * 1000),
                enableTransientStorage: false,
                enableRip7212: false
            },
            { enabled: false }
        );
        c.lastTs = c.start;
        c.inflight = 0;
        c.sim = null;
        c.subs = new Set();
        c.txs = 0;
        c.calls = 0;
        c.logListeners = [];
        c.provider = makeProvider(c);
        c.time = () => (c.sim ? Math.floor(c.sim.now / 1000) : c.lastTs);
        c.errors = new ethers.Interface([]);
        await c.deployAll(opts);
        c.baseTs = c.lastTs;
        c.snapshot = await c.rpc("evm_snapshot");
        return c;
    }
    // Back to the state right after deployment, so that every scenario is reproducible by itself.
    // With `history` the chain has more than a hundred past blocks, two seconds apart.
    async reset(history) {
        if (this.sim) { this.sim.inflight = 0; this.sim = null; }
        this._lock = undefined;
        this.subs.clear();
        await this.rpc("evm_revert", [this.snapshot]);
        this.snapshot = await this.rpc("evm_snapshot");
        this.lastTs = this.baseTs;
        this.usedSeeds = undefined;
        if (history) {
            await this.rpc("evm_setNextBlockTimestamp", ["0x" + (this.lastTs + 2).toString(16)]);
            await this.rpc("hardhat_mine", ["0x82", "0x2"]);
            this.lastTs = Number((await this.rpc("eth_getBlockByNumber", ["latest", false])).timestamp);
        }
    }
    attach(sim) {
        this.sim = sim;
        this.subs.clear();
    }
    async rpc(method, params = []) {
        this.inflight++;
        if (this.sim) { this.sim.inflight++; this.sim.activity++; }
        const s = this.sim;
        try {
            return await this.edr.request({ method, params });
        } finally {
            this.inflight--;
            if (s) { s.inflight--; s.activity++; }
        }
    }
    // Serialise everything that mines, so that block times are well defined
    async mineLock(fn) {
        const prev = this._lock || Promise.resolve();
        let rel;
        this._lock = new Promise((r) => (rel = r));
        await prev;
        try {
            return await fn();
        } finally {
            rel();
        }
    }
    async _stamp() {
        const t = Math.max(this.time(), this.lastTs);
        await this.rpc("evm_setNextBlockTimestamp", ["0x" + t.toString(16)]);
        this.lastTs = t;
        return t;
    }
    async mine() {
        return this.mineLock(async () => {
            await this._stamp();
            await this.rpc("evm_mine");
        });
    }
    // Send a transaction; resolves to {hash, logs, timestamp} or throws ChainError with the revert data
    async send(from, to, data, gas) {
        return this.mineLock(async () => {
            const t = await this._stamp();
            this.txs++;
            let hash;
            try {
                hash = await this.rpc("eth_sendTransaction", [
                    { from, to: to || undefined, data, gas: "0x" + (gas || 200_000_000).toString(16), gasPrice: "0x0" }
                ]);
            } catch (e) {
                throw new ChainError(e.data && e.data.data !== undefined ? e.data.data : e.data, e.message);
            }
            const rc = await this.rpc("eth_getTransactionReceipt", [hash]);
            this.deliver(rc.logs);
            return { hash, logs: rc.logs, timestamp: t, address: rc.contractAddress, receipt: rc };
        });
    }
    async call(to, data, from) {
        this.calls++;
        try {
            return await this.rpc("eth_call", [{ from: from || WALLETS[15].address, to, data, gas: "0x" + (200_000_000).toString(16) }, "latest"]);
        } catch (e) {
            throw new ChainError(e.data && e.data.data !== undefined ? e.data.data : e.data, e.message);
        }
    }
    deliver(logs) {
        for (const l of logs) {
            for (const f of this.logListeners) f(l);
            for (const s of this.subs) {
                if (s.filter.address && String(s.filter.address).toLowerCase() !== l.address.toLowerCase()) continue;
                const ts = s.filter.topics || [];
                if (!ts.every((t, i) => t == null || (Array.isArray(t) ? t : [t]).some((x) => String(x).toLowerCase() === l.topics[i]?.toLowerCase()))) continue;
                const log = new E.Log(
                    {
                        address: ethers.getAddress(l.address),
                        blockHash: l.blockHash,
                        blockNumber: Number(l.blockNumber),
                        data: l.data,
                        index: Number(l.logIndex),
                        topics: l.topics,
                        transactionHash: l.transactionHash,
                        transactionIndex: 0,
                        removed: false
                    },
                    this.provider
                );
                const fire = () => { if (this.subs.has(s)) s.listener(log); };
                if (s.deliver) s.deliver(fire, l);
                else if (this.sim) this.sim.at(0, fire, "log");
                else fire();
            }
        }
    }
    link(name) {
        const a = this.art[name];
        let bc = a.bytecode;
        for (const f of Object.values(a.links))
            for (const [lib, refs] of Object.entries(f))
                for (const r of refs)
                    bc = bc.slice(0, r.start * 2) + this.addr[lib].slice(2).toLowerCase() + bc.slice((r.start + r.length) * 2);
        return "0x" + bc;
    }
    iface(name) {
        this._if = this._if || {};
        return (this._if[name] = this._if[name] || new ethers.Interface(this.art[name].abi));
    }
    async deploy(name, args = []) {
        const i = this.iface(name);
        const data = this.link(name) + i.encodeDeploy(args).slice(2);
        const r = await this.send(WALLETS[15].address, null, data, 900_000_000);
        return ethers.getAddress(r.address);
    }
    async deployAll(opts) {
        this.addr = {};
        this.addr.StateChannelUtilLibrary = await this.deploy("StateChannelUtilLibrary");
        this.addr.LibraryTestContract = await this.deploy("LibraryTestContract", [this.addr.StateChannelUtilLibrary]);
        this.addr.DisputeManagerFacet = await this.deploy("DisputeManagerFacet");
        this.addr.MathStateMachine = await this.deploy("MathStateMachine");
        this.addr.MathManager = await this.deploy("MathStateChannelManagerProxy", [this.addr.MathStateMachine, this.addr.DisputeManagerFacet]);
        this.addr.LedgerStateMachine = await this.deploy("LedgerStateMachine");
        this.times = opts.times || [7, 4, 6, 11];
        this.mathTimes = [5, 5, 5, 5];
        this.addr.LedgerManager = await this.deploy("LedgerManagerProxy", [this.addr.LedgerStateMachine, this.addr.DisputeManagerFacet, ...this.times]);
        // the abstract manager's own defaults: disputes stay open longer than a time-out takes
        this.addr.LongManager = await this.deploy("LedgerManagerProxy", [this.addr.LedgerStateMachine, this.addr.DisputeManagerFacet, 15, 4, 6, 40]);
        this.long = this.contract("LedgerManagerProxy", this.addr.LongManager);
        this.math = this.contract("MathStateChannelManagerProxy", this.addr.MathManager);
        this.ledger = this.contract("LedgerManagerProxy", this.addr.LedgerManager);
        this.errIf = this.iface("DisputeManagerFacet");
    }
    // light contract handle: h.tx(from, fn, args) / h.view(fn, args)
    contract(name, address) {
        const i = this.iface(name);
        const chain = this;
        return {
            name, address, iface: i,
            tx: (from, fn, args, gas) => chain.send(from, address, i.encodeFunctionData(fn, args), gas),
            view: async (fn, args = [], from) => {
                const r = i.decodeFunctionResult(fn, await chain.call(address, i.encodeFunctionData(fn, args), from));
                return r.length === 1 ? r[0] : r;
            },
            parse: (logs) => logs.filter((l) => l.address.toLowerCase() === address.toLowerCase()).map((l) => i.parseLog(l)).filter(Boolean)
        };
    }
    // name of the revert reason
    reason(e) {
        const d = e && e.data;
        if (typeof d === "string" && d.length >= 10) {
            try {
                const p = this.errIf.parseError(d);
                if (p) return p.name === "Error" ? "Error:" + p.args[0] : p.name === "Panic" ? "Panic:" + p.args[0] : p.name;
            } catch (x) {}
        }
        return (e && e.message) || String(e);
    }
}
function makeProvider(chain) {
    class P extends E.AbstractProvider {
        constructor() {
            super(new E.Network("verif", 31337), { cacheTimeout: -1, pollingInterval: 1000 });
        }
        async _detectNetwork() { return new E.Network("verif", 31337); }
        async _perform(req) {
            const hex = (t) => (typeof t === "number" || typeof t === "bigint" ? "0x" + t.toString(16) : t);
            switch (req.method) {
                case "chainId": return 31337;
                case "getBlockNumber": return Number(await chain.rpc("eth_blockNumber"));
                case "getBlock":
                    return req.blockTag !== undefined
                        ? chain.rpc("eth_getBlockByNumber", [hex(req.blockTag), false])
                        : chain.rpc("eth_getBlockByHash", [req.blockHash, false]);
                case "call": return chain.call(req.transaction.to, req.transaction.data, req.transaction.from);
                case "estimateGas": return 200000000n;
                case "getCode": return chain.rpc("eth_getCode", [req.address, "latest"]);
                case "getTransactionCount": return Number(await chain.rpc("eth_getTransactionCount", [req.address, "latest"]));
                case "getLogs": return chain.rpc("eth_getLogs", [{ address: req.filter.address, topics: req.filter.topics, fromBlock: hex(req.filter.fromBlock), toBlock: hex(req.filter.toBlock) }]);
                default: throw new Error("provider: unsupported " + req.method);
            }
        }
        async on(filter, listener) {
            chain.subs.add({ filter, listener, owner: this.owner, deliver: this.deliverLog });
            return this;
        }
        async off(filter, listener) {
            for (const s of chain.subs) if (s.listener === listener || (s.filter === filter && !listener)) chain.subs.delete(s);
            return this;
        }
        async removeListener(f, l) { return this.off(f, l); }
    }
    chain.newProvider = (owner, deliverLog) => {
        const p = new P();
        p.owner = owner;
        p.deliverLog = deliverLog;
        return p;
    };
    return new P();
}
// Signer of a simulated participant: messages are signed with the wallet, transactions go to the chain
class SimSigner extends E.AbstractSigner {
    constructor(wallet, provider, chain, hooks = {}) {
        super(provider);
        this.wallet = wallet;
        this.chain = chain;
        this.hooks = hooks;
        this.address = wallet.address;
    }
    async getAddress() { return this.wallet.address; }
    connect(p) { return new SimSigner(this.wallet, p, this.chain, this.hooks); }
    async signMessage(m) {
        if (this.hooks.onSign) await this.hooks.onSign(m);
        const sig = await this.wallet.signMessage(m);
        if (this.hooks.onSigned) this.hooks.onSigned(m, sig);
        return sig;
    }
    async signTransaction() { throw new Error("unsupported"); }
    async signTypedData() { throw new Error("unsupported"); }
    async call(tx) {
        if (this.hooks.onCall) await this.hooks.onCall(tx);
        const to = await tx.to;
        return this.chain.call(to, tx.data, this.wallet.address);
    }
    async sendTransaction(tx) {
        const to = await tx.to;
        if (this.hooks.onTx) {
            const r = await this.hooks.onTx(tx);
            if (r && r.drop) throw new Error("transaction dropped by fault injection");
        }
        let r;
        try {
            r = await this.chain.send(this.wallet.address, to, tx.data, this.hooks.honourGas && tx.gasLimit ? Number(tx.gasLimit) : undefined);
        } catch (e) {
            if (this.hooks.onTxError) this.hooks.onTxError(tx, e);
            throw e;
        }
        if (this.hooks.onTxDone) this.hooks.onTxDone(tx, r);
        return { hash: r.hash, wait: async () => ({ hash: r.hash, status: 1, logs: r.logs }), from: this.wallet.address, to, data: tx.data };
    }
}
module.exports = { Chain, ChainError, SimSigner, KEYS, WALLETS, ethers, E };
