"use strict";
// Compiles /repo/contracts (and the harness' own contracts) with the soljson compiler that ships with
// hardhat, using the settings of /repo/hardhat.config.ts. Results are cached by content hash: the key
// covers every reachable source file, the settings and the compiler, so any change to the contracts'
// compiled text is a recompilation.
const fs = require("fs");
const path = require("path");
const crypto = require("crypto");
const { Worker, isMainThread, parentPort, workerData } = require("worker_threads");
const REPO = process.env.VERIF_REPO || "/repo";
const VERIF = path.resolve(__dirname, "../..");

// groups are compiled in parallel by separate compiler instances
const GROUPS = [
    ["contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol:DisputeManagerFacet"],
    [
        "contracts/V1/examples/MathStateMachine/MathStateChannelManagerProxy.sol:MathStateChannelManagerProxy",
        "contracts/V1/examples/MathStateMachine/MathStateMachine.sol:MathStateMachine"
    ],
    [
        "verif/LedgerManagerProxy.sol:LedgerManagerProxy"
    ],
    [
        "contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol:StateChannelUtilLibrary",
        "contracts/V1/helpers/LibraryTestContract.sol:LibraryTestContract",
        "contracts/V1/DataTypes.sol:DataTypes",
        "contracts/V1/DisputeTypes.sol:DisputeTypes",
        "contracts/common/DoubleLinkedList.sol:DoubleLinkedList",
        "verif/Codec.sol:Codec",
        "verif/LedgerStateMachine.sol:LedgerStateMachine"
    ]
];

function readSource(p) {
    if (p.startsWith("verif/")) return fs.readFileSync(path.join(VERIF, "harness/contracts", p.slice(6)), "utf8");
    if (p.startsWith("contracts/")) return fs.readFileSync(path.join(REPO, p), "utf8");
    return fs.readFileSync(path.join(REPO, "node_modules", p), "utf8");
}
function closure(roots) {
    const out = {};
    const todo = [...roots];
    while (todo.length) {
        const p = todo.pop();
        if (out[p]) continue;
        const src = readSource(p);
        out[p] = { content: src };
        const re = /^\s*import\s+(?:[^"';]*?from\s+)?["']([^"']+)["']/gm;
        let m;
        while ((m = re.exec(src))) {
            let q = m[1];
            if (q.startsWith(".")) q = path.posix.normalize(path.posix.join(path.posix.dirname(p), q));
            if (q.startsWith("@repo/")) q = q.slice(6);
            todo.push(q);
        }
    }
    return out;
}
function inputFor(group) {
    const sources = closure(group.map((g) => g.split(":")[0]));
    const sel = {};
    for (const g of group) {
        const [f, c] = g.split(":");
        sel[f] = sel[f] || {};
        sel[f][c] = ["abi", "evm.bytecode.object", "evm.bytecode.linkReferences"];
    }
    return {
        language: "Solidity",
        sources: Object.fromEntries(Object.entries(sources).sort()),
        settings: {
            viaIR: true,
            optimizer: { enabled: true, runs: 100 },
            evmVersion: "paris",
            outputSelection: sel,
            remappings: ["@repo/="]
        }
    };
}
const SOLJSON = () => path.join(REPO, "node_modules/hardhat/node_modules/solc/soljson.js");
function key(input) {
    return crypto.createHash("sha256").update(JSON.stringify(input)).digest("hex").slice(0, 32);
}
function compileInput(input) {
    const wrapper = require(path.join(REPO, "node_modules/hardhat/node_modules/solc/wrapper.js"));
    const solc = wrapper(require(SOLJSON()));
    const out = JSON.parse(solc.compile(JSON.stringify(input)));
    const errs = (out.errors || []).filter((e) => e.severity === "error");
    if (errs.length) throw new Error("contracts do not compile:\n" + errs.map((e) => e.formattedMessage).join("\n"));
    const res = {};
    for (const [f, cs] of Object.entries(out.contracts || {}))
        for (const [c, v] of Object.entries(cs))
            res[c] = { file: f, abi: v.abi, bytecode: v.evm.bytecode.object, links: v.evm.bytecode.linkReferences };
    return res;
}
if (!isMainThread && workerData && workerData.solcInput) {
    try {
        parentPort.postMessage({ ok: compileInput(workerData.solcInput) });
    } catch (e) {
        parentPort.postMessage({ err: String(e.stack || e) });
    }
}
async function artifacts() {
    const dirs = [path.join(VERIF, "harness/artifacts"), path.join(VERIF, "evidence/.cache")];
    const all = {};
    let compiled = 0;
    await Promise.all(
        GROUPS.map(async (g) => {
            const input = inputFor(g);
            const k = key(input);
            for (const d of dirs) {
                const f = path.join(d, k + ".json");
                if (fs.existsSync(f)) {
                    Object.assign(all, JSON.parse(fs.readFileSync(f, "utf8")));
                    return;
                }
            }
            compiled++;
            const res = await new Promise((resolve, reject) => {
                const w = new Worker(__filename, { workerData: { solcInput: input } });
                w.on("message", (m) => (m.err ? reject(new Error(m.err)) : resolve(m.ok)));
                w.on("error", reject);
            });
            const d = process.env.VERIF_ARTIFACT_DIR || dirs[1];
            fs.mkdirSync(d, { recursive: true });
            const tmp = path.join(d, k + "." + process.pid + ".tmp");
            fs.writeFileSync(tmp, JSON.stringify(res));
            fs.renameSync(tmp, path.join(d, k + ".json"));
            Object.assign(all, res);
        })
    );
    return { contracts: all, compiled };
}
module.exports = { artifacts, REPO, VERIF, GROUPS, inputFor, key };
if (isMainThread && require.main === module) {
    const t = Date.now();
    artifacts().then((a) => console.log(Object.keys(a.contracts), "compiled groups", a.compiled, Date.now() - t, "ms"));
}
