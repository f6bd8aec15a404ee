// node tools/manifest.js > MANIFEST.json
const { PLAN } = require("../harness/checks");
const NOTES = require("./notes");
const checks = Object.keys(PLAN).sort().map((p) => ({
    property: p,
    quick_cmd: `node harness/run.js ${p} --tier quick`,
    thorough_cmd: `node harness/run.js ${p} --tier thorough`,
    technique: NOTES.technique(p, PLAN[p].map((x) => x.engine)),
    level: "exploration",
    level_note: NOTES.note(p)
}));
const all = require("fs").readFileSync(__dirname + "/../properties.jsonl", "utf8").trim().split("\n").map((l) => JSON.parse(l).id);
const na = all.filter((p) => !PLAN[p]).map((p) => ({ property: p, reason: NOTES.na[p] || "no check yet" }));
console.log(JSON.stringify({ version: 1, setup_cmd: "node harness/lib/solc.js", checks, not_applicable: na, notes: "Runtime monitoring only. Known findings: known-findings.txt. No hooks in /repo." }, null, 1));
