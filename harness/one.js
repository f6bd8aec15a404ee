// node one.js <type> <from> <to>: run scenarios and print what they find
const { Chain } = require("./lib/chain");
const { Scenario } = require("./scenario");
const { makeSpec } = require("./plan");
(async () => {
    const [type, a, b] = process.argv.slice(2);
    const extra = process.argv[5] ? JSON.parse(process.argv[5]) : {};
    const chain = await Chain.create();
    const tot = {};
    for (let i = +a; i <= +(b || a); i++) {
        const t = Date.now();
        const seed = "1:" + type + ":" + i;
        const spec = { ...makeSpec(type, seed), ...extra };
        let r;
        try { const s = new Scenario(chain, seed, spec); r = await s.run(); if (process.env.TRACE) console.log(r.trace.join("\n")); if (s.notes.length) console.log("NOTES", s.notes.slice(0, 3)); } catch (e) { console.log("HARNESS", e.stack); continue; }
        for (const k in r.ev) tot[k] = (tot[k] || 0) + r.ev[k];
        console.log(i, Date.now() - t + "ms", r.sample, r.sig);
        for (const v of r.viol) console.log("   !!", v.props.join(","), v.key, v.msg.slice(0, 400));
    }
    console.log(JSON.stringify(tot));
    process.exit(0);
})();
