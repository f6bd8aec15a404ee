const K = require("./engines/K");
(async () => {
    await K.init();
    const [type, a, b] = process.argv.slice(2);
    const ev = {};
    const keys = {};
    for (let i = +a; i <= +(b || a); i++) {
        const t = Date.now();
        let r;
        try { r = await K.runCase({ type, seed: (process.env.SEED || "1") + ":" + type + ":" + i }); } catch (e) { console.log(i, "HARNESS", e.stack); continue; }
        for (const k in r.ev) ev[k] = (ev[k] || 0) + r.ev[k];
        if (process.env.TRACE && r.trace) console.log(r.trace.join("\n"));
        if (process.env.V) console.log(i, Date.now() - t + "ms", r.evals);
        for (const v of r.viol) if (!keys[v.key] || process.env.ALL) { keys[v.key] = 1; console.log(i, "!!", v.props.join(","), v.key, v.msg); }
    }
    console.log(ev);
    process.exit(0);
})();
