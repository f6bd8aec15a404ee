"use strict";
// Virtual time and a seeded event scheduler. All timers of the code under test, all message deliveries
// and all chain notifications are events of this scheduler; events due at the same instant run in a
// seeded random order. Virtual time only moves when the real code has come to rest.
const RealDate = Date;
const realSetImmediate = setImmediate;
class Sim {
    constructor(rng, startMs) {
        this.rng = rng;
        this.now = startMs;
        this.events = [];
        this.seq = 0;
        this.inflight = 0; // native operations (chain requests) in progress
        this.activity = 0;
        this.executed = 0;
        this.errors = []; // errors thrown out of events
        this.trace = [];
        this.traceLimit = 4000;
        this.hash = 0;
    }
    note(...a) {
        for (const c of a.join("|")) this.hash = (Math.imul(this.hash ^ c.charCodeAt(0), 16777619) + 1) >>> 0;
        if (this.trace.length < this.traceLimit) this.trace.push(((this.now / 1000) | 0) + " " + a.map((x) => (typeof x === "string" ? x : JSON.stringify(x, (k, v) => (typeof v === "bigint" ? v.toString() : v)))).join(" "));
    }
    at(delayMs, fn, tag, owner) {
        const ev = { t: this.now + Math.max(0, Math.floor(delayMs || 0)), seq: ++this.seq, fn, tag, owner, tie: this.rng.u32() };
        this.events.push(ev);
        return ev;
    }
    cancel(ev) {
        const i = this.events.indexOf(ev);
        if (i >= 0) this.events.splice(i, 1);
    }
    dropOwner(owner) { this.events = this.events.filter((e) => e.owner !== owner); }
    sleep(ms) { return new Promise((r) => this.at(ms, r, "sleep")); }
    async settle() {
        let calm = 0;
        let last = -1;
        let guard = 0;
        while (calm < 3) {
            await new Promise((r) => realSetImmediate(r));
            if (this.inflight === 0 && this.activity === last) calm++;
            else calm = 0;
            last = this.activity;
            if (++guard > 2000000) throw new Error("sim: does not settle");
        }
    }
    // Earliest event; among events due at the same instant the owner is picked by a seeded tie-break, but
    // the timers of one owner keep their order (as a real event loop guarantees)
    next() {
        let t = Infinity;
        for (const e of this.events) if (e.t < t) t = e.t;
        if (t === Infinity) return -1;
        const first = new Map();
        for (let i = 0; i < this.events.length; i++) {
            const e = this.events[i];
            if (e.t !== t) continue;
            const k = e.tag === "timer" || e.tag === "interval" ? "T" + e.owner : "M" + e.seq;
            const j = first.get(k);
            if (j === undefined || e.seq < this.events[j].seq) first.set(k, i);
        }
        let b = -1;
        for (const i of first.values()) if (b < 0 || this.events[i].tie < this.events[b].tie) b = i;
        return b;
    }
    peekTime() {
        const i = this.next();
        return i < 0 ? Infinity : this.events[i].t;
    }
    async step() {
        const i = this.next();
        if (i < 0) return false;
        const [e] = this.events.splice(i, 1);
        if (e.t > this.now) this.now = e.t;
        this.executed++;
        this.stepping = true;
        try {
            e.fn();
        } catch (err) {
            this.errors.push({ at: this.now, tag: e.tag, err });
        }
        await this.settle();
        this.stepping = false;
        return true;
    }
    // run every event due up to `untilMs`
    async runUntil(untilMs, maxEvents = 1e9) {
        await this.settle();
        let n = 0;
        while (n < maxEvents && this.peekTime() <= untilMs) {
            await this.step();
            n++;
        }
        if (this.now < untilMs && n < maxEvents) this.now = untilMs;
        return n;
    }
    async run(ms, maxEvents) { return this.runUntil(this.now + ms, maxEvents); }
    // run until a promise made by the code under test is settled, moving virtual time if need be
    async wait(p, maxMs = 120000) {
        let done = false;
        let res;
        let err;
        Promise.resolve(p).then((v) => { done = true; res = v; }, (e) => { done = true; err = e || new Error("rejected"); });
        const end = this.now + maxMs;
        await this.settle();
        while (!done && this.peekTime() <= end) await this.step();
        if (!done) return { pending: true };
        return err ? { err } : { ok: true, res };
    }
    env(owner, skewMs = 0) {
        const sim = this;
        class VDate extends RealDate {
            constructor(...a) {
                if (a.length === 0) super(sim.now + skewMs);
                else super(...a);
            }
            static now() { return sim.now + skewMs; }
        }
        // as in node: delays that do not fit in 31 bits (or are no number) are one millisecond
        const clamp = (ms) => (+ms >= 1 && +ms <= 2147483647 ? +ms : 1);
        return {
            Date: VDate,
            setTimeout: (fn, ms, ...a) => sim.at(clamp(ms), () => fn(...a), "timer", owner),
            clearTimeout: (h) => h && sim.cancel(h),
            setInterval: (fn, ms, ...a) => {
                const h = { stop: false };
                const loop = () => { if (h.stop) return; fn(...a); h.ev = sim.at(ms, loop, "interval", owner); };
                h.ev = sim.at(ms, loop, "interval", owner);
                return h;
            },
            clearInterval: (h) => { if (h) { h.stop = true; sim.cancel(h.ev); } }
        };
    }
}
module.exports = { Sim };
