"use strict";
// Monitor of serialisation: which operation of a participant touches its state machine when.
// Operations are told apart by their asynchronous context, so no knowledge of the lock itself is used.
const { AsyncLocalStorage } = require("async_hooks");
const als = new AsyncLocalStorage();
const OPS = ["setState", "onSignedBlock", "playTransaction"];
function watch(peer, report, count) {
    let seq = 0, entries = 0, highest = 0;
    const writes = []; // {seq, op}
    const running = new Set();
    for (const name of OPS) {
        const orig = peer.sm[name];
        if (typeof orig !== "function") continue;
        peer.sm[name] = function (...a) {
            const op = { name, entry: ++entries, first: 0 };
            running.add(op);
            count("serial_operations");
            if (running.size > 1) count("serial_operations_contending");
            const end = () => { running.delete(op); op.done = true; };
            return als.run({ peer, op }, () => {
                let r;
                try { r = orig.apply(this, a); } catch (e) { end(); throw e; }
                Promise.resolve(r).then(end, end);
                return r;
            });
        };
    }
    const touch = (what, write) => {
        const c = als.getStore();
        const op = c && c.peer === peer ? c.op : null;
        if (!op || op.done) return;
        seq++;
        if (!op.first) {
            op.first = seq;
            if (op.entry < highest) report("order", `${peer.owner}: ${op.name} (request ${op.entry}) got its turn after request ${highest}`);
            highest = Math.max(highest, op.entry);
        }
        if (!write) return;
        count("serial_state_changes");
        // somebody else's change since this operation began to look at the state
        for (let i = writes.length - 1; i >= 0 && writes[i].seq > op.first; i--)
            if (writes[i].op !== op) report("interleaved", `${peer.owner}: ${op.name} changes the state (${what}) after ${writes[i].op.name} changed it in between`);
        writes.push({ seq, op });
        if (writes.length > 200) writes.splice(0, 100);
    };
    const wrap = (o, name, write) => {
        const orig = o && o[name];
        if (typeof orig !== "function") return;
        o[name] = function (...a) { touch(name, write); return orig.apply(this, a); };
    };
    for (const n of ["stateTransition", "setState"]) wrap(peer.stateMachine, n, true);
    for (const n of ["getState", "getNextToWrite", "getParticipants"]) wrap(peer.stateMachine, n, false);
    for (const n of ["addBlock", "newFork"]) wrap(peer.am, n, true);
    // executions on the local EVM
    const evm = peer.stateMachine.contractExecuter && peer.stateMachine.contractExecuter.evm;
    if (evm && typeof evm.runCall === "function") {
        const orig = evm.runCall;
        let busy = 0;
        evm.runCall = async function (...a) {
            if (a[0] && (a[0].depth || a[0].message)) return orig.apply(this, a); // a call within an execution
            count("local_executions");
            if (++busy > 1) report("overlap", `${peer.owner}: ${busy} executions on the local EVM at the same time`);
            try { return await orig.apply(this, a); } finally { busy--; }
        };
    }
}
module.exports = { watch };
