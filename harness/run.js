"use strict";
// node run.js <property> [--tier quick|thorough] [--replay file] : decides one property.
// Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
const { fork } = require("child_process");
const fs = require("fs");
const path = require("path");
const os = require("os");
const VERIF = path.resolve(__dirname, "..");

if (process.argv[2] === "--worker") worker();
else main().catch((e) => { console.error("HARNESS ERROR", e.stack || e); process.exit(2); });

function worker() {
    // the code under test must not be able to end or pollute the worker silently
    const engines = {};
    process.on("message", async (m) => {
        if (m.stop) return process.exit(0);
        try {
            let e = engines[m.engine];
            if (!e) {
                e = engines[m.engine] = require("./engines/" + m.engine);
                if (e.init) await e.init(m.engine);
            }
            const r = await e.runCase(m.c, m.tier);
            process.send({ id: m.id, r });
        } catch (err) {
            const { REPO } = require("./lib/solc");
            const top = (String((err && err.stack) || "").split("\n").find((l) => /^\s+at .*\/.*:\d+/.test(l) && !/node_modules|node:/.test(l)) || "");
            // did the real code throw, or the machinery?
            process.send({ id: m.id, err: String((err && err.stack) || err).slice(0, 3000), src: top.includes(path.join(REPO, "src") + path.sep) });
        }
    });
    process.send({ ready: true });
}
class Pool {
    constructor(n, caseLimit) { this.idle = []; this.all = new Set(); this.size = n; this.caseLimit = caseLimit; this.waiters = []; for (let i = 0; i < n; i++) this.spawn(); }
    spawn() {
        const w = fork(__filename, ["--worker"], { stdio: ["ignore", "ignore", "pipe", "ipc"], execArgv: ["--max-old-space-size=3000"], env: { ...process.env } });
        w.errbuf = "";
        w.stderr.on("data", (d) => { w.errbuf = (w.errbuf + d).slice(-3000); });
        this.all.add(w);
        w.on("message", (m) => {
            if (m.ready) return this.free(w);
            const j = w.job;
            w.job = null;
            if (!j) return;
            clearTimeout(j.timer);
            j.resolve(m);
            if (w.connected) this.free(w);
        });
        w.on("exit", (code, sig) => {
            this.all.delete(w);
            this.idle = this.idle.filter((x) => x !== w);
            const j = w.job;
            w.job = null;
            if (j) { clearTimeout(j.timer); j.resolve(j.hung ? { hang: true } : { died: `exit ${code} signal ${sig}: ${w.errbuf.slice(-800)}` }); }
            if (!this.closing) this.spawn();
        });
    }
    free(w) {
        const k = this.waiters.shift();
        if (k) k(w); else this.idle.push(w);
    }
    async run(engine, c, tier, limit) {
        const w = this.idle.shift() || (await new Promise((r) => this.waiters.push(r)));
        return new Promise((resolve) => {
            w.job = { resolve };
            w.job.timer = setTimeout(() => { if (w.job) w.job.hung = true; w.kill("SIGKILL"); }, limit || this.caseLimit);
            try { w.send({ id: 1, engine, c, tier }); } catch (e) { w.kill("SIGKILL"); }
        });
    }
    close() { this.closing = true; for (const w of this.all) w.kill("SIGKILL"); }
}
function known() {
    const f = path.join(VERIF, "known-findings.txt");
    if (!fs.existsSync(f)) return [];
    return fs.readFileSync(f, "utf8").split("\n").map((l) => /^known: property=(\S+) key=(\S+) (.*)$/.exec(l)).filter(Boolean).map((m) => ({ prop: m[1], key: m[2], what: m[3] }));
}
async function main() {
    const prop = process.argv[2];
    const arg = (n) => { const i = process.argv.indexOf("--" + n); return i > 0 ? process.argv[i + 1] : undefined; };
    const tier = arg("tier") || process.env.VERIF_TIER || "quick";
    const seed = parseInt(process.env.VERIF_SEED || "1", 10) || 0;
    const t0 = Date.now();
    const { PLAN } = require("./checks");
    const plan = PLAN[prop];
    if (!plan) throw new Error("no check for " + prop);
    const { artifacts } = require("./lib/solc");
    const art = await artifacts(); // compile what changed before the workers need it
    const tCompile = Date.now();
    const kn = known().filter((k) => k.prop === prop);
    const isKnown = (v) => kn.find((k) => k.key === v.key);
    const cores = Math.max(1, Math.min(8, os.cpus().length));
    const pool = new Pool(cores, tier === "quick" ? 150000 : 240000);
    // a quick run has to answer: what is still going on then is given up
    const hardStop = tier === "quick" ? t0 + 760000 : Infinity;
    let firstAt = 0;
    const limit = (ms) => Math.max(5000, Math.min(ms, hardStop - Date.now()));
    if (arg("replay")) {
        const rp = JSON.parse(fs.readFileSync(arg("replay"), "utf8"));
        const m = await pool.run(rp.engine, { ...rp.case, trace: true }, rp.tier || tier);
        pool.close();
        console.log(JSON.stringify(m.r ? { viol: m.r.viol, sample: m.r.sample, ev: m.r.ev, notes: m.r.notes } : m, null, 1));
        if (m.r && m.r.trace) console.log(m.r.trace.slice(-300).join("\n"));
        process.exit(m.r && m.r.viol.some((v) => v.props.includes(prop) && !isKnown(v)) ? 1 : m.r ? 0 : 2);
    }
    const ev = {};
    const sigs = new Set();
    const samples = [];
    const violations = [];
    const other = new Map();
    const unrepro = [];
    const harness = [];
    const engineStats = {};
    const knownSeen = {};
    let evals = 0;
    let given = 0; // cases without an answer when the time was up
    const kindsSeen = {};
    // all engines of the property share the workers; their cases are interleaved
    const queue = [];
    let totalSecs = 0;
    for (const part of plan) {
        const e = require("./engines/" + part.engine);
        const b = { ...e.budget[tier], ...(part[tier] || {}) };
        totalSecs += b.secs;
        const cs = e.cases(prop, b.n, seed, tier, part);
        engineStats[part.engine] = { cases: 0, planned: cs.length, violations: 0, ms: 0 };
        cs.forEach((c, i) => queue.push({ engine: part.engine, c, at: (i + 0.5) / cs.length, i }));
    }
    queue.sort((a, b) => a.at - b.at);
    const deadline = t0 + (tCompile - t0) + totalSecs * 1000 * (process.env.VERIF_TIME ? Number(process.env.VERIF_TIME) : 1);
    const stopAt = () => violations.length >= 3 || harness.length > 5 || (tier === "quick" && violations.length > 0 && Date.now() > firstAt + 60000) || Date.now() > hardStop;
    const minimum = (k) => k < cores; // a very slow machine still runs something
    let k = 0;
    async function confirm(job, v) {
        // a report must be reproducible: the case is run again in another process
        for (let i = 0; i < 2; i++) {
            const m = await pool.run(job.engine, job.c, tier, limit(150000));
            if (m.r && m.r.viol.some((x) => x.key === v.key && x.props.includes(prop))) return true;
            if (m.hang || m.died) { harness.push("confirmation of " + JSON.stringify(job.c) + " failed: " + JSON.stringify(m).slice(0, 500)); }
        }
        return false;
    }
    async function lane() {
        for (;;) {
            if (k >= queue.length || stopAt() || (Date.now() > deadline && !minimum(k))) return;
            const job = queue[k++];
            const t = Date.now();
            let m = await pool.run(job.engine, job.c, tier, limit(pool.caseLimit));
            if (!m.r && Date.now() > hardStop) return void given++;
            if (m.hang || m.died || m.err) {
                // once more: out of memory or an overloaded machine are not findings
                const first = m;
                m = await pool.run(job.engine, job.c, tier, limit(tier === "quick" ? 200000 : 300000));
                if (!m.r && Date.now() > hardStop) return void given++;
                if (m.hang || m.died || m.err) {
                    const e = require("./engines/" + job.engine);
                    const bad = m.hang ? "hang" : m.died ? "process-died" : "error";
                    if (bad === "error" && m.src && first.src) {
                        m = { r: { ev: {}, sigs: [], viol: [{ props: [prop], key: "throws", msg: "the code under test throws in two runs: " + m.err.slice(0, 900) }], sample: "", spec: job.c.spec } };
                        m.sure = true;
                    } else if (bad !== "error" && e.liveness && e.liveness.includes(prop)) {
                        m = { r: { ev: {}, sigs: [], viol: [{ props: [prop], key: bad, msg: bad + " in two runs: " + JSON.stringify(m).slice(0, 600) }], sample: "", spec: job.c.spec } };
                        m.sure = true;
                    } else { harness.push(JSON.stringify(job.c) + ": " + JSON.stringify(m).slice(0, 1500)); continue; }
                } else harness.retry = (harness.retry || 0) + 1, void first;
            }
            const r = m.r;
            const st = engineStats[job.engine];
            st.cases++;
            st.ms += Date.now() - t;
            evals += r.evals || 1;
            for (const x in r.ev) ev[x] = (ev[x] || 0) + r.ev[x];
            if (r.nontrivial !== false) for (const s of r.sigs) sigs.add(s);
            if (samples.length < 6 && r.sample && (!kindsSeen[job.engine + (job.c.type || "")] || samples.length < 3)) { samples.push(r.sample); kindsSeen[job.engine + (job.c.type || "")] = 1; }
            for (const v of r.viol) {
                if (!v.props.includes(prop)) { other.set(v.props.join("+") + ":" + v.key, (other.get(v.props.join("+") + ":" + v.key) || 0) + 1); continue; }
                const kf = isKnown(v);
                if (kf) { knownSeen[kf.key] = (knownSeen[kf.key] || 0) + 1; continue; }
                if (violations.some((x) => x.key === v.key) || stopAt()) continue;
                if (!m.sure && !(await confirm(job, v))) { unrepro.push(v.key + ": " + v.msg.slice(0, 300)); continue; }
                if (violations.some((x) => x.key === v.key)) continue;
                st.violations++;
                const dir = path.join(VERIF, "evidence", "replays");
                fs.mkdirSync(dir, { recursive: true });
                const file = path.join(dir, `${prop}-${job.engine}-${String(v.key).replace(/[^\w.-]/g, "_")}.json`);
                fs.writeFileSync(file, JSON.stringify({ property: prop, engine: job.engine, tier, case: job.c, spec: r.spec, violation: v }, null, 1));
                firstAt = firstAt || Date.now();
                violations.push(v);
                console.log(`VIOLATION property=${prop} replay=${path.relative(VERIF, file)}`);
                console.log(`  [${v.key}] ${v.msg}`);
            }
        }
    }
    await Promise.all(Array.from({ length: cores }, lane));
    pool.close();
    for (const f of kn) console.log(`KNOWN-FINDING: property=${prop} ${f.what}` + (knownSeen[f.key] ? ` [seen ${knownSeen[f.key]} times in this run]` : " [not met in this run]"));
    const evidence = {
        property: prop, tier, seed, level: "exploration",
        coverage: {
            evaluations: evals,
            distinct_nontrivial: sigs.size,
            rule: plan.map((p) => p.engine + ": " + require("./engines/" + p.engine).rule).join(" | "),
            samples,
            observed: Object.fromEntries(Object.entries(ev).sort()),
            engines: engineStats,
            known_findings_met: knownSeen,
            reports_of_other_properties: Object.fromEntries(other),
            unreproduced_reports: unrepro,
            cases_given_up: given,
            harness_errors: harness.slice(0, 5),
            contract_groups_recompiled: art.compiled
        },
        assumptions: require("./checks").ASSUME,
        wall_s: (Date.now() - t0) / 1000,
        violations: violations.length
    };
    fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
    fs.writeFileSync(path.join(VERIF, "evidence", prop + ".json"), JSON.stringify(evidence, null, 1));
    console.log(`${prop} ${tier}: ${evals} evaluations, ${sigs.size} distinct, ${violations.length} violations, ${Math.round(evidence.wall_s)} s` + (other.size ? `; monitors of other properties reported: ${[...other.keys()].join(" ")}` : "") + (unrepro.length ? `; unreproduced: ${unrepro.length}` : ""));
    if (violations.length) process.exit(1);
    if (given) console.error(given + " cases were given up after " + Math.round((Date.now() - t0) / 1000) + " s");
    if (!evals) { console.error("NO CASE WAS EVALUATED"); process.exit(2); }
    if (harness.length) { console.error("HARNESS ERRORS\n" + harness.slice(0, 5).join("\n")); process.exit(2); }
    process.exit(0);
}
