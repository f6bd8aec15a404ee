"use strict";
// Remembers what the ABI coder recently produced or consumed, so that a signed 32-byte digest can be traced
// back to the bytes it stands for without any knowledge of which function signed it.
const { ethers } = require("./chain");
const RING = 3000;
const ring = new Array(RING);
let pos = 0;
const push = (hex) => {
    ring[pos % RING] = { hex, h: null };
    pos++;
};
const P = ethers.AbiCoder.prototype;
const encode = P.encode;
P.encode = function (types, values) {
    const r = encode.call(this, types, values);
    push(r);
    return r;
};
const decode = P.decode;
P.decode = function (types, data, loose) {
    if (typeof data === "string") push(data);
    return decode.call(this, types, data, loose);
};
const known = new Map();
function preimage(hash) {
    if (known.has(hash)) return known.get(hash);
    for (let i = pos - 1; i >= 0 && i > pos - RING; i--) {
        const e = ring[i % RING];
        if (!e) break;
        if (!e.h) {
            try { e.h = ethers.keccak256(e.hex); } catch (x) { e.h = "-"; }
            if (known.size > 50000) known.clear();
            known.set(e.h, e.hex);
        }
        if (e.h === hash) return e.hex;
    }
    return undefined;
}
module.exports = { preimage };
