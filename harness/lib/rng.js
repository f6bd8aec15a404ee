"use strict";
// Small seeded generator (xorshift128+ style on 32 bits) so that every run is a function of VERIF_SEED.
class Rng {
    constructor(seed) {
        let h = 2166136261 >>> 0;
        for (const c of String(seed)) h = Math.imul(h ^ c.charCodeAt(0), 16777619) >>> 0;
        this.s = [h || 1, (h * 2654435761) >>> 0 || 2, 0x9e3779b9, 0x7f4a7c15];
        for (let i = 0; i < 20; i++) this.u32();
    }
    u32() {
        let t = this.s[3];
        let s = this.s[0];
        this.s[3] = this.s[2];
        this.s[2] = this.s[1];
        this.s[1] = s;
        t ^= t << 11;
        t ^= t >>> 8;
        this.s[0] = (t ^ s ^ (s >>> 19)) >>> 0;
        return this.s[0];
    }
    float() { return this.u32() / 4294967296; }
    int(n) { return Math.floor(this.float() * n); } // [0,n)
    range(a, b) { return a + this.int(b - a + 1); } // [a,b]
    bool(p = 0.5) { return this.float() < p; }
    pick(a) { return a[this.int(a.length)]; }
    shuffle(a) {
        a = a.slice();
        for (let i = a.length - 1; i > 0; i--) {
            const j = this.int(i + 1);
            [a[i], a[j]] = [a[j], a[i]];
        }
        return a;
    }
    bytes(n) {
        let s = "0x";
        for (let i = 0; i < n; i++) s += this.int(256).toString(16).padStart(2, "0");
        return s;
    }
    fork(tag) { return new Rng(this.u32() + ":" + tag); }
}
module.exports = { Rng };
