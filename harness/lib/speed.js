"use strict";
// Memoises third-party pure functions (ECDSA recovery and deterministic signing in ethers). No code of
// the repository is touched; results are identical to the uncached functions.
const { repoRequire } = require("./loader");
const { ethers } = repoRequire("ethers");
const SK = ethers.SigningKey;
const rec = SK.recoverPublicKey.bind(SK);
const cache = new Map();
SK.recoverPublicKey = function (digest, signature) {
    const sig = ethers.Signature.from(signature);
    const k = ethers.hexlify(digest) + sig.serialized;
    let v = cache.get(k);
    if (v === undefined) {
        v = rec(digest, sig);
        if (cache.size > 200000) cache.clear();
        cache.set(k, v);
    }
    return v;
};
const sign = SK.prototype.sign;
const sc = new Map();
SK.prototype.sign = function (digest) {
    const k = this.privateKey + ethers.hexlify(digest);
    let v = sc.get(k);
    if (!v) {
        v = sign.call(this, digest);
        if (sc.size > 200000) sc.clear();
        sc.set(k, v);
    }
    return v.clone();
};
const PT = ethers.ParamType;
const pf = PT.from.bind(PT);
const ptc = new Map();
PT.from = function (obj, allowIndexed) {
    if (typeof obj !== "string") return pf(obj, allowIndexed);
    const k = obj + "|" + !!allowIndexed;
    let v = ptc.get(k);
    if (!v) ptc.set(k, (v = pf(obj, allowIndexed)));
    return v;
};
