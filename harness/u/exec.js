"use strict";
// C15 (and the local half of C17): the participant's own execution, the chain's and the model's
const { simRealm, show } = require("./common");
const { T, enc, dec } = require("../lib/world");
const { ledger, math } = require("../lib/model");
const { ethers, WALLETS } = require("../lib/chain");
const MAX = (1n << 256n) - 1n;
const ADDR = WALLETS.slice(0, 9).map((w) => w.address);

async function setup(run) {
    const { realm } = simRealm(run);
    const chain = run.chain;
    const kind = run.rng.bool(0.7) ? "ledger" : "math";
    const name = kind === "math" ? "MathStateMachine" : "LedgerStateMachine";
    const iface = chain.iface(name);
    const { EvmStateMachine } = realm.load("evm");
    const sm = await EvmStateMachine.createStandalone({ data: chain.link(name) }, iface);
    const mgr = kind === "math" ? chain.math : chain.ledger;
    return { sm, iface, kind, app: kind === "math" ? math : ledger, mgr, chain, r: run.rng, run };
}
function someState(x) {
    const r = x.r, parts = r.shuffle(ADDR).slice(0, r.pick([1, 2, 2, 3, 4, 6]));
    const big = () => r.pick([0n, 1n, 13n, 500n, 1n << 128n, MAX, BigInt("0x" + r.bytes(8).slice(2))]);
    if (x.kind === "math") return { number: r.pick([0n, 1n, BigInt(r.int(1e6)), MAX, MAX - 3n]), parts };
    return { turn: r.pick([0n, 1n, BigInt(r.int(1000)), MAX - 1n]), digest: r.bytes(32), parts, bal: parts.map(() => (r.bool(0.85) ? BigInt(r.int(2000)) : big())), blob: r.bytes(r.pick([0, 1, 31, 32, 33, 200, 1000])) };
}
function header(x, s) {
    const r = x.r, next = x.app.next(s);
    return {
        channelId: r.pick([ethers.ZeroHash, r.bytes(32)]), participant: r.bool(0.85) && next ? next : r.pick(ADDR),
        forkCnt: r.pick([0n, 1n, MAX, BigInt(r.int(9))]), transactionCnt: r.pick([0n, 5n, MAX]), timestamp: r.pick([0n, 1700000000n, MAX])
    };
}
function someTx(x, s) {
    const r = x.r;
    let data, garbage = false;
    const i = x.iface, e = (f, a) => i.encodeFunctionData(f, a);
    if (x.kind === "math") {
        const k = r.int(10);
        data = k < 7 ? e("add", [r.pick([0n, 1n, BigInt(r.int(1e6)), MAX])]) : k === 7 ? e(r.pick(["getSum", "getParticipants", "getNextToWrite", "getState"]), []) : k === 8 ? e("setState", [enc(T.math, { number: 1, participants: [] })]) : null;
    } else {
        const k = r.int(20), who = r.bool(0.9) ? r.pick(s.parts) : r.pick(ADDR), bal = s.bal[s.parts.indexOf(x.app.next(s))] || 0n;
        if (k < 8) data = e("transfer", [who, r.bool(0.7) ? (bal > 10n ? BigInt(r.int(10)) : bal) : r.pick([0n, bal, bal < MAX ? bal + 1n : bal, MAX])]);
        else if (k < 11) data = e("write", [r.bytes(r.pick([0, 1, 32, 33, 300, 2000]))]);
        else if (k === 11) data = e("idle", [r.bytes(r.int(40))]);
        else if (k < 13) data = e("rotate", [r.pick([0n, 1n, 2n, BigInt(r.int(100)), MAX])]);
        else if (k < 16) data = e("fail", [r.pick([0n, 1n, 2n, 3n, 4n, 6n, MAX])]);
        else if (k === 16) data = r.bool(0.1) ? e("fail", [5n]) : e("total", []);
        else if (k === 17) data = e("balanceOf", [who]);
        else if (k === 18) data = r.pick([() => e("setState", [x.app.encode(s)]), () => e("getBlob", []), () => e("slashParticipant", [r.pick(s.parts)]), () => e("removeParticipant", [r.pick(s.parts)]), () => e("joinChannel", [{ channelId: ethers.ZeroHash, participant: r.pick(ADDR), amount: 5, deadlineTimestamp: 0, data: "0x" }]), () => e("stateTransition", [{ header: header(x, s), body: { transactionType: 0, encodedData: "0x", data: e("write", ["0x77"]) } }])])();
    }
    if (!data) {
        garbage = true;
        const base = x.kind === "math" ? e("add", [5n]) : e("transfer", [r.pick(s.parts), 1n]);
        data = r.pick(["0x", "0x00", r.bytes(4), r.bytes(3), r.bytes(80), base.slice(0, -2 * r.range(1, 32)), base + r.bytes(r.range(1, 40)).slice(2), base.slice(0, 10) + "ff" + base.slice(12), "0xffffffff"]);
    }
    return { tx: { header: header(x, s), body: { transactionType: r.pick([0, 0, 1, 9]), encodedData: r.bytes(r.pick([0, 0, 3, 64])), data } }, garbage };
}
async function look(x, s, what) {
    const { sm, run } = x;
    run.same(await sm.getState(), x.app.encode(s), "state-" + what, `state of the local state machine after ${what}`);
    run.same(await sm.getParticipants(), s.parts, "participants-" + what, "participants");
    const n = x.app.next(s);
    if (n !== undefined) run.same(await sm.getNextToWrite(), n, "next-" + what, "next writer");
}
// executed by the chain, from the same state
async function onChain(x, s, tx) {
    const i = x.mgr.iface;
    const [ok, st] = i.decodeFunctionResult("executeStateTransitionOnState", await x.chain.call(x.mgr.address, i.encodeFunctionData("executeStateTransitionOnState", [tx.header.channelId, x.app.encode(s), tx])));
    x.run.count("chain_executions");
    return { ok, st };
}
async function view(x, s) {
    const { r, sm, run, iface } = x;
    const e = (f, a = []) => iface.encodeFunctionData(f, a);
    const out = (f, v) => iface.encodeFunctionResult(f, v);
    const opts = [["getState", e("getState"), out("getState", [x.app.encode(s)])], ["getParticipants", e("getParticipants"), out("getParticipants", [s.parts])]];
    const n = x.app.next(s);
    if (n !== undefined) opts.push(["getNextToWrite", e("getNextToWrite"), out("getNextToWrite", [n])]);
    if (x.kind === "math") opts.push(["getSum", e("getSum"), out("getSum", [s.number])]);
    else {
        const t = x.app.total(s), a = r.pick(ADDR), k = s.parts.indexOf(a);
        opts.push(["total", e("total"), t > MAX ? null : out("total", [t])], ["getTurn", e("getTurn"), out("getTurn", [s.turn])], ["getBlob", e("getBlob"), out("getBlob", [s.blob])], ["balanceOf", e("balanceOf", [a]), k < 0 ? null : out("balanceOf", [s.bal[k]])]);
        opts.push(["setState as a view", e("setState", [x.app.encode(someState(x))]), undefined], ["fail as a view", e("fail", [0]), null]);
        opts.push(["transition as a view", e("stateTransition", [someTx(x, s).tx]), undefined]);
    }
    opts.push(["unknown function", r.bytes(4), null], ["no data", "0x", null]);
    const [what, data, want] = r.pick(opts);
    let got, err;
    try { got = await sm.runView({ data }); } catch (er) { err = er; }
    run.count("views");
    run.note("view", what);
    if (want === null) run.check(!!err, "view-verdict", () => `a failing view (${what}) answered ${got}`);
    else if (want !== undefined) run.same(err ? "error " + err.message : got, want, "view-value", "answer of " + what);
}
async function load(x, s) {
    const { sm, run } = x;
    let ok;
    try { ok = await sm.setState(x.app.encode(s)); } catch (e) { ok = e; }
    run.check(ok === true, "load-failed", () => "a good state was refused: " + ok);
    run.count("states_loaded");
}
async function transitions(run) {
    const x = await setup(run), r = x.r;
    let s = someState(x);
    await load(x, s);
    await look(x, s, "load");
    const n = r.range(6, 22);
    for (let i = 0; i < n; i++) {
        const k = r.int(20);
        if (k < 2) { s = someState(x); run.note("load", show(s)); await load(x, s); await look(x, s, "load"); continue; }
        if (k < 3) {
            const e = x.app.encode(s);
            const bad = r.pick(["0x", r.bytes(31), r.bytes(64), e.slice(0, -64), "0x" + "ff".repeat(32) + e.slice(66)]);
            let refused = false;
            try { await x.sm.setState(bad); } catch (er) { refused = true; }
            let chainRefused = false;
            try { await x.chain.call(x.chain.addr[x.kind === "math" ? "MathStateMachine" : "LedgerStateMachine"], x.iface.encodeFunctionData("setState", [bad])); } catch (er) { chainRefused = true; }
            run.note("bad state", bad.slice(0, 40));
            run.count("bad_states");
            run.check(refused === chainRefused, "load-verdict", () => `state ${bad.slice(0, 80)}: refused locally ${refused}, by the chain ${chainRefused}`);
            if (!refused) { s = null; try { s = x.app.decode(await x.sm.getState()); } catch (er) {} if (!s) { s = someState(x); await load(x, s); } }
            await look(x, s, "refused-load");
            continue;
        }
        if (k < 7) { await view(x, s); await look(x, s, "view"); continue; }
        const { tx, garbage } = someTx(x, s);
        const c = await onChain(x, s, tx);
        const m = garbage ? null : x.app.exec(s, tx, x.iface);
        const l = await x.sm.stateTransition(tx);
        const after = await x.sm.getState();
        run.note("tx", show(tx), c.ok);
        run.count(c.ok ? "transitions_ok" : "transitions_failed");
        run.check(l.success === c.ok, "verdict-differs", () => `transaction ${show(tx)} on ${show(s)}: locally ${l.success}, on chain ${c.ok}`);
        run.check(after === c.st, "state-differs", () => `transaction ${show(tx)} on ${show(s)}: local state ${after}, chain's ${c.st}`);
        if (m) {
            run.check(m.ok === l.success, "verdict-model", () => `transaction ${show(tx)} on ${show(s)}: ${l.success}, by the model ${m.ok}`);
            run.same(after, x.app.encode(m.ok ? m.s : s), "state-model", `state after ${show(tx)}`);
            if (m.ok) s = m.s;
        } else if (c.ok) s = x.app.decode(c.st);
        if (!l.success) run.same(after, x.app.encode(s), "failed-changes", `state after the failed transaction ${show(tx)}`);
        await look(x, s, "transition");
    }
}
// joins, slashes and removals: the chain's function against the local contract and the model
async function members(run) {
    const x = await setup(run), r = x.r, i = x.mgr.iface;
    let s = someState(x);
    for (let k = 0; k < r.range(3, 8); k++) {
        if (r.bool(0.2) || !s.parts.length) s = someState(x);
        const kind = r.pick(["join", "slash", "remove"]);
        const list = Array.from({ length: r.range(0, 4) }, () => (kind === "join" ? { channelId: r.bytes(32), participant: r.pick(ADDR), amount: r.pick([0n, 13n, 5n, 1n << 100n]), deadlineTimestamp: 0n, data: r.bytes(r.int(9)) } : r.bool(0.8) ? r.pick(s.parts) : r.pick(ADDR)));
        run.note(kind, show(list), show(s));
        const m = x.app.copy(s), exits = [];
        let cnt = 0, overflow = false;
        for (const e of list) {
            const o = kind === "join" ? x.app.join(m, e) : kind === "slash" ? x.app.slash(m, e) : x.app.remove(m, e);
            if (o) { cnt++; if (o !== true) exits.push([o.who, o.amount]); }
            if (m.bal && m.bal.some((b) => b > MAX)) overflow = true;
        }
        if (overflow) { s = someState(x); continue; }
        const fn = { join: "applyJoinChannelToStateMachine", slash: "applySlashesToStateMachine", remove: "removeParticipantsFromStateMachine" }[kind];
        const out = i.decodeFunctionResult(fn, await x.chain.call(x.mgr.address, i.encodeFunctionData(fn, [x.app.encode(s), list]), x.mgr.address));
        const want = x.app.encode(m);
        run.count("membership_changes");
        run.same(out[0], want, "members-chain", `state after ${kind} on chain`);
        run.same(out[out.length - 1], BigInt(cnt), "members-count", `number of successful ${kind}s`);
        if (kind !== "join") run.same(out[1].slice(0, cnt).map((p) => [p.participant, p.amount]), exits, "members-exits", `exits of ${kind}`);
        await load(x, s);
        if (x.sm.contractExecuter && x.sm.contractExecuter.executeCall) {
            for (const e of list) await x.sm.contractExecuter.executeCall(x.iface.encodeFunctionData({ join: "joinChannel", slash: "slashParticipant", remove: "removeParticipant" }[kind], [e]));
            run.same(await x.sm.getState(), want, "members-local", `state after ${kind} off chain`);
        }
        s = m;
        if (s.parts.length) {
            await load(x, s);
            const { tx } = someTx(x, s);
            const c = await onChain(x, s, tx), l = await x.sm.stateTransition(tx);
            run.check(l.success === c.ok && (await x.sm.getState()) === c.st, "state-differs", () => `transaction ${show(tx)} on ${show(s)} after ${kind}`);
            s = x.app.decode(c.st);
        }
    }
}
// Transactions that try to do more than the application's moves: directly, through a move that calls the machine
// itself, or as a transaction inside a transaction
function overreach(x, s, depth = 0) {
    const r = x.r, i = x.iface, e = (f, a) => i.encodeFunctionData(f, a);
    const join = (c) => ({ channelId: r.pick([ethers.ZeroHash, r.bytes(32)]), participant: r.bool(0.7) ? r.pick(ADDR) : r.pick(s.parts), amount: r.pick([0, 5, 1000]), deadlineTimestamp: r.pick([0n, MAX]), data: "0x" });
    const k = r.int(depth ? 13 : 10);
    const move = () => (x.kind === "math" ? e("add", [BigInt(r.int(5))]) : r.pick([() => e("write", [r.bytes(r.int(40))]), () => e("transfer", [r.pick(s.parts), BigInt(r.int(5))]), () => e("rotate", [1n])])());
    if (k < 2) return ["setState", e("setState", [x.app.encode(r.bool(0.3) ? s : someState(x))])];
    if (k < 4) return ["joinChannel", e("joinChannel", [join()])];
    if (k < 6) return ["slashParticipant", e("slashParticipant", [r.bool(0.9) ? r.pick(s.parts) : r.pick(ADDR)])];
    if (k < 8) return ["removeParticipant", e("removeParticipant", [r.bool(0.9) ? r.pick(s.parts) : r.pick(ADDR)])];
    if (k < 10) {
        const h = header(x, s);
        if (r.bool(0.6)) h.participant = r.pick(s.parts); // in the name of another
        return ["stateTransition", e("stateTransition", [{ header: h, body: { transactionType: 0, encodedData: "0x", data: r.bool(0.8) ? move() : overreach(x, s, 1)[1] } }])];
    }
    return ["move", move()];
}
async function admin(run) {
    const x = await setup(run), r = x.r;
    let s = someState(x);
    await load(x, s);
    for (let n = r.range(6, 18), i = 0; i < n; i++) {
        const y = r.int(10);
        let data, what;
        if (y < 3 || (x.kind === "math" && y < 7)) [what, data] = overreach(x, s);
        else if (y < 8 && x.kind !== "math") {
            [what, data] = overreach(x, s, 1);
            for (let d = r.pick([1, 1, 1, 2, 3]); d > 0; d--) { data = x.iface.encodeFunctionData("inner", [data, r.bool(0.3)]); what = "inner " + what; }
        }
        let tx;
        if (data) {
            const h = header(x, s), nx = x.app.next(s);
            if (nx && r.bool(0.9)) h.participant = nx;
            tx = { header: h, body: { transactionType: 0, encodedData: r.bool(0.5) ? data : "0x", data } };
        } else { const t = someTx(x, s); if (t.garbage) continue; tx = t.tx; what = "other"; }
        const m = x.app.exec(s, tx, x.iface);
        const c = await onChain(x, s, tx), l = await x.sm.stateTransition(tx), after = await x.sm.getState();
        run.note(what, show(tx), l.success);
        run.count("attempt_" + what.split(" ").pop());
        if (what.startsWith("inner")) run.count("attempts_from_a_move");
        run.check(l.success === m.ok, "reach-local", () => `${what}: transaction ${show(tx)} on ${show(s)} ${l.success ? "succeeds" : "fails"} locally`);
        run.check(c.ok === m.ok, "reach-chain", () => `${what}: transaction ${show(tx)} on ${show(s)} ${c.ok ? "succeeds" : "fails"} on chain`);
        run.same(after, x.app.encode(m.ok ? m.s : s), "reach-state-local", `local state after ${what}`);
        run.same(c.st, x.app.encode(m.ok ? m.s : s), "reach-state-chain", `state on chain after ${what}`);
        if (m.ok) s = m.s;
        if (r.bool(0.3)) await look(x, s, "reach");
        if (r.bool(0.25)) {
            // the machine still serves its owner
            const q = someState(x);
            await load(x, q);
            s = q;
            await look(x, s, "reload");
        }
    }
}
// Many operations asked for at once: each sees the effects of exactly those asked before it
async function concurrent(run) {
    const x = await setup(run), r = x.r, sm = x.sm;
    const ex = sm.contractExecuter;
    if (ex && ex.evm && ex.evm.runCall) {
        const orig = ex.evm.runCall;
        let busy = 0;
        ex.evm.runCall = async function (...a) {
            if (a[0] && (a[0].depth || a[0].message)) return orig.apply(this, a);
            run.count("local_executions");
            if (++busy > 1) run.violate("execution-overlap", `${busy} executions on the local EVM at the same time`);
            try { return await orig.apply(this, a); } finally { busy--; }
        };
    }
    let s = someState(x);
    await load(x, s);
    for (let round = 0; round < r.range(2, 4); round++) {
        const ops = [], n = r.range(3, 12);
        for (let k = 0; k < n; k++) {
            const o = r.int(12), before = s;
            if (o < 5) {
                let t = someTx(x, s);
                for (let j = 0; t.garbage && j < 20; j++) t = someTx(x, s);
                if (t.garbage) continue;
                const m = x.app.exec(s, t.tx, x.iface);
                if (m.ok) s = m.s;
                ops.push(["transition", () => sm.stateTransition(t.tx).then((q) => q.success), m.ok]);
            } else if (o === 5) { s = someState(x); const e = x.app.encode(s); ops.push(["setState", () => sm.setState(e), true]); }
            else if (o === 6) ops.push(["setState", () => sm.setState("0x1234").catch(() => "refused"), "refused"]);
            else if (o < 9) { const e = x.app.encode(before); ops.push(["getState", () => sm.getState(), e]); }
            else if (o === 9) ops.push(["getParticipants", () => sm.getParticipants(), before.parts]);
            else if (o === 10) { const e = x.app.encode(someState(x)); ops.push(["view", () => sm.runView({ data: x.iface.encodeFunctionData("setState", [e]) }).then(() => "done"), "done"]); }
            else { const e = x.iface.encodeFunctionResult("getState", [x.app.encode(before)]); ops.push(["view", () => sm.runView({ data: x.iface.encodeFunctionData("getState", []) }), e]); }
        }
        run.note("batch", ops.map((o) => o[0]).join(","), show(ops.map((o) => o[2])));
        run.count("operations_at_once", ops.length);
        const got = new Array(ops.length).fill("no answer");
        const ended = [];
        const all = [];
        for (let k = 0; k < ops.length; k++) {
            all.push(ops[k][1]().then((v) => { got[k] = v; ended.push(k); }, (e) => { got[k] = "error " + e.message; ended.push(k); }));
            if (r.bool(0.3)) await null;
        }
        await Promise.all(all);
        run.same(got, ops.map((o) => o[2]), "concurrent-result", "answers to operations asked for at once: " + ops.map((o) => o[0]));
        await look(x, s, "concurrent");
    }
}
module.exports = { transitions, members, admin, concurrent };
