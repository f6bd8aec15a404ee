"use strict";
// C16: what the client encodes, decodes, signs and verifies against what the compiled contracts do
const { simRealm, show } = require("./common");
const { World, T, enc, dec, keccak, signBytes, plainBlock, signBlock } = require("../lib/world");
const { ethers, E, WALLETS } = require("../lib/chain");
const coder = ethers.AbiCoder.defaultAbiCoder();
const ADDR = WALLETS.map((w) => w.address);
const MAX = (1n << 256n) - 1n;

// a value of an ABI type
function value(r, p, depth = 0) {
    if (p.baseType === "tuple") return Object.fromEntries(p.components.map((c) => [c.name, value(r, c, depth + 1)]));
    if (p.baseType === "array") return Array.from({ length: r.pick([0, 1, 2, 2, 3, 5]) }, () => value(r, p.arrayChildren, depth + 1));
    if (p.type === "address") return r.pick([...ADDR, ethers.ZeroAddress, "0xFFfFfFffFFfffFFfFFfFFFFFffFFFffffFfFFFfF"]);
    if (p.type === "bytes") return r.bytes(r.pick([0, 0, 1, 4, 31, 32, 33, 64, 65, 100, 700]));
    if (p.type === "bytes32") return r.pick([ethers.ZeroHash, "0x" + "ff".repeat(32), r.bytes(32)]);
    if (p.type === "uint8") return r.pick([0n, 1n, 2n, 9n]);
    if (/^uint/.test(p.type)) return r.pick([0n, 1n, 255n, 256n, 1n << 53n, (1n << 53n) + 1n, 1n << 64n, 1n << 255n, MAX, BigInt(r.bytes(32)), BigInt(r.int(100000))]);
    if (p.type === "bool") return r.bool();
    throw new Error("type " + p.type);
}
// decoded values as plain data, whatever the shape the decoder gave them
function plain(p, v) {
    if (p.baseType === "tuple") return Object.fromEntries(p.components.map((c, i) => [c.name, plain(c, v[c.name] !== undefined ? v[c.name] : v[i])]));
    if (p.baseType === "array") return Array.from(v, (x) => plain(p.arrayChildren, x));
    if (/^uint/.test(p.type)) return BigInt(v);
    if (/^bytes/.test(p.type)) return ethers.hexlify(v);
    if (p.type === "address") return ethers.getAddress(v);
    return v;
}
const P = (t) => ethers.ParamType.from(t.replace(/\s+/g, " "));
async function codec(run) {
    const chain = run.chain;
    const addr = await chain.deploy("Codec");
    const i = chain.iface("Codec");
    return {
        type: (n) => i.getFunction("e" + n).inputs[0],
        encode: async (n, v) => i.decodeFunctionResult("e" + n, await chain.call(addr, i.encodeFunctionData("e" + n, [v])))[0],
        decode: async (n, b) => i.decodeFunctionResult("d" + n, await chain.call(addr, i.encodeFunctionData("d" + n, [b])))[0]
    };
}
async function agree(run, c, name, make) {
    const p = c.type(name), r = run.rng;
    for (let k = 0; k < 5; k++) {
        const v = value(r, p);
        run.note(name, show(v));
        run.count("values_encoded");
        const want = await c.encode(name, v);
        let got, back;
        try { got = make.encode(v); } catch (e) { run.violate("encode-fails", `${name}: the client cannot encode ${show(v)}: ${e.message}`); continue; }
        run.check(got === want, "encode-differs", () => `${name} ${show(v)}: the client encodes ${got}, the contract ${want}`);
        try { back = make.decode(want); } catch (e) { run.violate("decode-fails", `${name}: the client cannot decode the contract's ${want}: ${e.message}`); continue; }
        let pl;
        try { pl = plain(p, back); } catch (e) { run.violate("decode-shape", `${name}: decoded value ${show(back)} lacks a field: ${e.message}`); continue; }
        run.same(pl, plain(p, v), "decode-differs", `${name} decoded by the client`);
        run.same(plain(p, await c.decode(name, got).catch((e) => run.violate("contract-refuses", `${name}: the contract cannot decode the client's ${got}`) || v)), plain(p, v), "contract-decodes", `${name} decoded by the contract`);
        // encode(decode(x)) is x again
        let again;
        try { again = make.encode(back); } catch (e) { again = "error " + e.message; }
        run.check(again === want, "not-stable", () => `${name}: decoding and encoding again gives ${again} for ${want}`);
        // a damaged encoding is refused, or read as the contract reads it
        const b = ethers.getBytes(want);
        const m = r.int(3);
        if (m === 0) b[r.int(b.length)] ^= 1 << r.int(8);
        const cut = ethers.hexlify(m === 1 ? b.slice(0, r.int(b.length)) : m === 2 ? ethers.concat([b, r.bytes(32)]) : b);
        let ours, theirs;
        try { ours = show(plain(p, make.decode(cut))); } catch (e) { ours = null; }
        try { theirs = show(plain(p, await c.decode(name, cut))); } catch (e) { theirs = null; }
        run.count("damaged_encodings");
        if (ours && theirs) run.check(ours === theirs, "read-differently", () => `${name}: ${cut} is read as ${ours} by the client and as ${theirs} by the contract`);
    }
}
async function structures(run) {
    const { realm } = simRealm(run);
    const { EvmUtils } = realm.load("utils");
    const types = realm.load("types");
    const c = await codec(run);
    await agree(run, c, "Transaction", { encode: (v) => EvmUtils.encodeTransaction(v), decode: (b) => EvmUtils.decodeTransaction(b) });
    await agree(run, c, "Block", { encode: (v) => EvmUtils.encodeBlock(v), decode: (b) => EvmUtils.decodeBlock(b) });
    await agree(run, c, "JoinChannel", { encode: (v) => EvmUtils.encodeJoinChannel(v), decode: (b) => EvmUtils.decodeJoinChannel(b) });
    for (const n of ["SignedBlock", "SignedJoinChannel", "JoinChannelAgreement"]) {
        const t = types[n + "EthersType"];
        if (!t) continue;
        await agree(run, c, n, { encode: (v) => coder.encode([t], [v]), decode: (b) => coder.decode([t], b)[0] });
    }
    // structures that only appear as arguments of the contract
    const t = types.ConfirmedJoinChannelAgreementEthersType;
    if (t) {
        const p = run.chain.ledger.iface.getFunction("joinChannelWithAgreement").inputs[0];
        const v = value(run.rng, p);
        run.count("values_encoded");
        run.check(coder.encode([t], [v]) === coder.encode([p], [v]), "encode-differs", () => `ConfirmedJoinChannelAgreement ${show(v)}`);
    }
}
async function proofs(run) {
    const { realm } = simRealm(run);
    const { getEthersTypeForDisputeProof, ProofType } = realm.load("types");
    const PM = realm.load("ProofManager").default;
    const c = await codec(run);
    for (const n of ["FoldRechallenge", "DoubleSign", "IncorrectData", "NewerState", "FoldPriorBlock", "BlockTooFarInFuture"]) {
        run.same(ProofType[n], T.proof[n][0], "proof-number", "number of proof type " + n);
        const t = getEthersTypeForDisputeProof(T.proof[n][0]);
        if (!run.check(!!t, "proof-type", "no encoding for proof type " + n)) continue;
        await agree(run, c, n, { encode: (v) => PM && PM.encodeProof ? PM.encodeProof(T.proof[n][0], v) : coder.encode([t], [v]), decode: (b) => (PM && PM.decodeProof ? PM.decodeProof(T.proof[n][0], b) : coder.decode([t], b)[0]) });
        const v = value(run.rng, c.type(n));
        run.check(coder.encode([t], [v]) === coder.encode([c.type(n)], [v]), "encode-differs", () => `${n}Proof ${show(v)}`);
    }
}
async function signing(run) {
    const { realm } = simRealm(run);
    const { EvmUtils, BlockUtils } = realm.load("utils");
    const r = run.rng, chain = run.chain;
    const lib = chain.iface("StateChannelUtilLibrary");
    const recoverOnChain = async (data, sig) => {
        try { return lib.decodeFunctionResult("retriveSignerAddress", await chain.call(chain.addr.LibraryTestContract, lib.encodeFunctionData("retriveSignerAddress", [data, sig])))[0]; } catch (e) { return "refused"; }
    };
    const signerOf = (w) => ({ signMessage: (m) => w.signMessage(m), getAddress: async () => w.address });
    const bt = P(T.block), jt = P(T.jc), tt = P(T.tx);
    for (let k = 0; k < 6; k++) {
        const w = r.pick(WALLETS), other = r.pick(WALLETS.filter((x) => x !== w));
        const b = value(r, bt), j = value(r, jt), t = value(r, tt);
        run.note("sign", w.address.slice(0, 8), show(b));
        run.count("values_signed", 3);
        const sb = await EvmUtils.signBlock(b, signerOf(w));
        run.same(sb.encodedBlock, enc(T.block, b), "signed-bytes", "encodedBlock of signBlock");
        run.same(await recoverOnChain(sb.encodedBlock, sb.signature), w.address, "block-signer-chain", "signer of a client-signed block on chain");
        run.same(EvmUtils.retrieveSignerAddressBlock(b, sb.signature), w.address, "block-signer", "signer of a client-signed block");
        const st = await EvmUtils.signTransaction(t, signerOf(w));
        run.same(st.encodedTransaction, enc(T.tx, t), "signed-bytes", "encodedTransaction of signTransaction");
        run.same(await recoverOnChain(st.encodedTransaction, st.signature), w.address, "tx-signer-chain", "signer of a client-signed transaction on chain");
        const sj = await EvmUtils.signJoinChannel(j, signerOf(w));
        run.same(sj.encodedJoinChannel, enc(T.jc, j), "signed-bytes", "encodedJoinChannel of signJoinChannel");
        run.same(await recoverOnChain(sj.encodedJoinChannel, sj.signature), w.address, "join-signer-chain", "signer of a client-signed join on chain");
        run.same(EvmUtils.retrieveSignerAddressJoinChannel(j, sj.signature), w.address, "join-signer", "signer of a client-signed join");
        // made by others over the contract's bytes
        const s2 = signBytes(other, enc(T.block, b));
        run.same(EvmUtils.retrieveSignerAddressBlock(b, s2), other.address, "block-signer", "signer of a block signed elsewhere");
        run.same(EvmUtils.retrieveSignerAddressJoinChannel(j, signBytes(other, enc(T.jc, j))), other.address, "join-signer", "signer of a join signed elsewhere");
        // a signature does not transfer to another value
        const b2 = JSON.parse(JSON.stringify(b, (q, x) => (typeof x === "bigint" ? x.toString() : x)));
        const f = r.int(6);
        if (f === 0) b2.stateHash = r.bytes(32);
        else if (f === 1) b2.previousStateHash = r.bytes(32);
        else if (f === 2) b2.transaction.header.forkCnt = (BigInt(b2.transaction.header.forkCnt) ^ 1n).toString();
        else if (f === 3) b2.transaction.header.timestamp = (BigInt(b2.transaction.header.timestamp) ^ 1n).toString();
        else if (f === 4) b2.transaction.body.data = b2.transaction.body.data + "00";
        else b2.transaction.body.encodedData = b2.transaction.body.encodedData + "00";
        run.check(EvmUtils.retrieveSignerAddressBlock(b2, sb.signature) !== w.address, "signature-transfers", () => `the signature on ${show(b)} verifies on ${show(b2)}`);
        run.check(!BlockUtils.areBlocksEqual(b, b2) && BlockUtils.areBlocksEqual(b, plainBlock(dec(T.block, enc(T.block, b)))), "blocks-equal", () => `areBlocksEqual on ${show(b)} and ${show(b2)}`);
        const small = { ...b, transaction: { ...b.transaction, header: { ...b.transaction.header, forkCnt: BigInt(r.int(1e6)), transactionCnt: BigInt(r.int(1e6)), timestamp: BigInt(r.int(2e9)) } } };
        const h = small.transaction.header;
        run.same([BlockUtils.getCoordinates(small).forkCnt, BlockUtils.getCoordinates(small).height, BlockUtils.getHeight(small), BlockUtils.getFork(small), BlockUtils.getTimestamp(small), BlockUtils.getBlockAuthor(small), BlockUtils.getChannelId(small)],
            [h.forkCnt, h.transactionCnt, h.transactionCnt, h.forkCnt, h.timestamp].map(Number).concat([h.participant, h.channelId]), "block-fields", "fields of a block");
        const signers = r.shuffle(WALLETS).slice(0, r.range(0, 5));
        const sigs = signers.map((q) => signBytes(q, enc(T.block, b)));
        run.same([...BlockUtils.getSignerAddresses(b, sigs)].sort(), signers.map((q) => q.address).sort(), "signers", "signers of a block");
        const who = r.pick(WALLETS), idx = signers.indexOf(who);
        const ps = BlockUtils.getParticipantSignature(b, sigs, who.address);
        run.same([ps.didSign, ps.signature], [idx >= 0, idx >= 0 ? sigs[idx] : undefined], "participant-signature", "signature of a participant");
    }
}
// other byte strings that decode to the same block
function variants(encoded) {
    const hex = encoded.slice(2);
    const w = [];
    for (let i = 0; i < hex.length; i += 64) w.push(hex.slice(i, i + 64));
    const word = (n) => n.toString(16).padStart(64, "0");
    const at = (k) => parseInt(w[k], 16) / 32;
    const out = {};
    const J = (a) => "0x" + a.join("");
    out["trailing word"] = J([...w, word(0)]);
    out["trailing bytes"] = encoded + "0102";
    out["outer offset moved"] = J([word(64), word(7), ...w.slice(1)]);
    // block tuple starts at word 1; its first word is the offset of the transaction
    const tx = 1 + at(1);
    { const a = w.slice(); a[1] = word((at(1) + 1) * 32); a.splice(tx, 0, word(9)); out["transaction moved"] = J(a); }
    // transaction: five header words, then the offset of the body
    const body = tx + at(tx + 5);
    { const a = w.slice(); a[tx + 5] = word((at(tx + 5) + 1) * 32); a.splice(body, 0, word(5)); out["body moved"] = J(a); }
    // body: type, offset of encodedData, offset of data
    const e = body + at(body + 1), d = body + at(body + 2);
    { const a = w.slice(); a[body + 2] = word((at(body + 2) + 1) * 32); a.splice(d, 0, word(1)); out["data moved"] = J(a); }
    const lenE = parseInt(w[e], 16), lenD = parseInt(w[d], 16);
    if (lenD % 32) { const a = w.slice(); const k = d + 1 + Math.floor(lenD / 32); a[k] = a[k].slice(0, 62) + "01"; out["dirty padding"] = J(a); }
    if (lenE && w.slice(e).join("").slice(0, 64 + lenE * 2) === w.slice(d).join("").slice(0, 64 + lenD * 2)) { const a = w.slice(0, d); a[body + 2] = w[body + 1]; out["shared data"] = J(a); }
    { const E2 = w.slice(e, d), D2 = w.slice(d); const a = w.slice(0, body + 3); a[body + 1] = word((3 + D2.length) * 32); a[body + 2] = word(96); out["fields swapped"] = J([...a, ...D2, ...E2]); }
    const want = show(plainBlock(dec(T.block, encoded)));
    for (const k of Object.keys(out)) {
        let same = false;
        try { same = out[k] !== encoded && show(plainBlock(dec(T.block, out[k]))) === want; } catch (x) {}
        if (!same) delete out[k];
    }
    return out;
}
async function canonical(run) {
    const chain = run.chain, r = run.rng;
    const w = new World(chain, run.seed, { kind: r.bool(0.7) ? "ledger" : "math" });
    try {
        const n = r.range(2, 3);
        await w.boot(n);
        const sim = w.sim, i = w.mgr.iface;
        const nextAddr = await w.nextWriter(w.peers[0]);
        const author = w.peers.find((p) => p.address === nextAddr), others = w.peers.filter((p) => p !== author);
        const state = author.am.getForkGenesisStateEncoded(0);
        const data = w.kind === "math" ? w.encodeCall("add", [5]) : w.encodeCall("write", [r.bytes(r.range(1, 40))]);
        const tx = { header: { channelId: w.channelId, participant: author.address, forkCnt: 0, transactionCnt: 0, timestamp: w.nowSec() }, body: { transactionType: 0, encodedData: r.bool() ? data : r.bytes(r.int(50)), data } };
        const st = i.decodeFunctionResult("executeStateTransitionOnState", await chain.call(w.mgr.address, i.encodeFunctionData("executeStateTransitionOnState", [w.channelId, state, tx])))[1];
        const block = { transaction: tx, stateHash: keccak(st), previousStateHash: keccak(state) };
        const good = signBlock(author.wallet, block);
        const vs = Object.entries(variants(good.encodedBlock));
        const signed = [];
        w.onSigned = (p, m) => signed.push([p, ethers.hexlify(typeof m === "string" ? ethers.toUtf8Bytes(m) : m)]);
        const chainFirst = r.bool();
        const post = async (sb) => { const o = await sim.wait(w.mgr.tx(author.address, "postBlockCalldata", [sb])); return o; };
        for (const [what, bytes] of r.shuffle(vs).slice(0, 4)) {
            const bad = { encodedBlock: bytes, signature: signBytes(author.wallet, bytes) };
            run.note(what);
            run.count("non_canonical_encodings");
            if (chainFirst) {
                const o = await post(bad);
                run.check(!o.ok, "posted", () => `a block in a non-canonical encoding (${what}) can be posted on chain: ${bytes}`);
            }
            for (const p of others) {
                const msg = r.bool(0.75) ? { method: "onSignedBlock", params: [bad] } : { method: "onBlockConfirmation", params: [bad, signBytes(r.pick(w.peers).wallet, bytes)] };
                p.transports.get(author).onMessage(JSON.stringify(msg));
                await sim.run(r.int(600));
                run.count("non_canonical_messages");
                run.check(!p.am.getBlock(0, 0), "accepted", () => `a block in a non-canonical encoding (${what}) is part of the chain of ${p.owner}`);
            }
            const h = keccak(bytes);
            run.check(!signed.some(([, m]) => m === h), "signed", () => `a participant signed the non-canonical encoding (${what})`);
        }
        // the canonical one is as good as ever
        const sb = (await author.realm.load("utils").EvmUtils.signBlock(block, author.wallet));
        run.same([sb.encodedBlock, sb.signature], [good.encodedBlock, good.signature], "signed-bytes", "block signed by the client");
        for (const p of others) p.transports.get(author).onMessage(JSON.stringify({ method: "onSignedBlock", params: [good] }));
        await sim.run(1500);
        const late = w.nowSec() - tx.header.timestamp > w.times[0];
        if (!late) for (const p of others) run.check(!!p.am.getBlock(0, 0), "canonical-refused", () => `the block in its canonical encoding is not accepted by ${p.owner} after ${w.nowSec() - tx.header.timestamp} s`);
        if (!late) run.count("canonical_blocks_accepted");
        if (w.sim.errors.length) run.violate("escaped", "error out of an event: " + w.sim.errors[0].err.stack);
        const o = await post(good);
        run.check(o.ok, "post-refused", () => "the block in its canonical encoding cannot be posted: " + chain.reason(o.err));
    } finally { w.dispose(); }
}
module.exports = { structures, proofs, signing, canonical };
