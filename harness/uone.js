// node uone.js <prop> <type> <from> <to>
(async () => {
    const U = require("./engines/U");
    const [prop, type, a, b] = process.argv.slice(2);
    const m = U.MIX[prop].find((x) => x[1] === type);
    await U.init();
    const tot = {}; let ms = 0;
    for (let i = +a; i <= +(b || a); i++) {
        const t = Date.now();
        let r;
        try { r = await U.runCase({ prop, file: m[0], type, seed: `${process.env.SEED || 1}:U:${type}:${i}`, trace: true }); } catch (e) { console.log(i, "HARNESS", e.stack); continue; }
        ms += Date.now() - t;
        if (process.env.TRACE) console.log(r.trace.join("\n"));
        for (const k in r.ev) tot[k] = (tot[k] || 0) + r.ev[k];
        if (process.env.V) console.log(i, r.sample);
        for (const v of r.viol) console.log(i, "   !!", v.props.join(","), v.key, v.msg.slice(0, 600));
    }
    console.log(prop, type, ms + "ms", JSON.stringify(tot));
    process.exit(0);
})();
