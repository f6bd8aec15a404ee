"use strict";
// Which engines decide which property
const S = { engine: "S" };
// the contracts' part of a property that is mostly about the peers
const K2 = { engine: "K", quick: { n: 60, secs: 30 } };
const K = { engine: "K" };
const U = { engine: "U" };
// what one participant keeps, as a component
const A = { engine: "U", quick: { n: 110, secs: 25 }, thorough: { n: 2000, secs: 400 } };
const A2 = { engine: "U", quick: { n: 120, secs: 30 }, thorough: { n: 3000, secs: 600 } };
// with the duels of dispute clients
const A3 = { engine: "U", quick: { n: 220, secs: 45 }, thorough: { n: 6000, secs: 900 } };
const PLAN = {
    C01: [S, K2, A], C02: [S], C03: [S, A], C04: [S, A], C05: [S, A2], C06: [S, A], C07: [S, A3], C08: [S, K2, A3],
    C09: [K], C10: [K], C11: [K], C12: [K], C13: [K], C14: [K],
    C15: [U], C16: [U], C17: [{ engine: "U", quick: { n: 250, secs: 30 } }, { engine: "S", quick: { n: 30, secs: 60 } }], C18: [U], C19: [U], C20: [U], C27: [U],
    C21: [S, K2, A], C22: [S, K2, A3], C23: [K], C24: [S], C25: [S], C26: [K], C28: [S], C29: [U], C30: [{ engine: "S", quick: { n: 50, secs: 60 }, thorough: { n: 1500, secs: 900 } }]
};
const ASSUME = [
    "the simulated network, timers and clock stand for real ones; the peers' and contracts' code is unmodified",
    "host clocks run at the same rate and are not ahead of the chain's clock; the chain produces blocks regularly",
    "signatures are unforgeable and hashes collision-free"
];
module.exports = { PLAN, ASSUME };
