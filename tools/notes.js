const KIND = { S: "monitors over simulated channel lives of the real peers and contracts", K: "contract call fuzzing with an online reference model", U: "component fuzzing with online reference models" };
exports.technique = (p, engines) => "runtime monitoring: " + engines.map((e) => KIND[e]).join("; ");
const W = "Holds on every execution observed (counts in the evidence file); no claim about executions not run. ";
const N = {
    C01: "Adversary keys are simulated in the harness; agreement is read from the peers' public queries after every event.",
    C02: "Every signMessage call of honest peers is inspected and traced back to its pre-image.",
    C03: "Every agreed block is executed again by eth_call on the deployed contract.",
    C04: "State digests before and after hostile input, which arrives over separate connections and as forged or mutated peer messages.",
    C05: "Judged after everything sent between honest peers was delivered.",
    C06: "The evidence is judged against the peer's chain and by eth_call on the real contract.",
    C07: "The client's transactions are decoded; verdicts are those of the real contract.",
    C08: "Assumes hosts whose clocks are not ahead of the chain; FoldPriorBlock and forged-predecessor framing are modelled in C26.",
    C21: "Bound: a few multiples of p2pTime+agreementTime+chainFallbackTime+challengeTime of virtual time.",
    C22: "Offences that the contract cannot prove (wrong previousStateHash, undecodable transaction type) are outside.",
    C24: "One known finding: on-chain re-execution emits events on the shared contract.",
    C15: "Three-way comparison: local EVM, eth_call on the deployed contracts, an independent model; transactions stay far below the local EVM's default call gas.",
    C16: "The contract side is observed by calls to test contracts deployed from harness/contracts that import /repo's libraries, and to the real facets.",
    C17: "The mutex against a queue model, overlapping local executions, and entry/exit monitors on channel operations in simulated lives.",
    C18: "Adversaries hold their own keys and everything seen on the wire; man-in-the-middle relaying and two keys on one connection are outside.",
    C19: "Real transports over simulated sockets and WebRTC channels; params given as a string are unspecified.",
    C20: "Sequential models run in lock step with the components under generated operation sequences and virtual time.",
    C27: "Full mesh of honest peers; adversaries inject requests, endorsements and replays.",
    C28: "Proposals are matched one to one with the blocks of the proposer's chain in every simulated life; queries are judged at rest points.",
    C29: "Local EVM, eth_call on the deployed contracts and a model are compared; the application under test offers a move that calls back into its own machine.",
    C30: "Lives of 3 to 5 participants with missing links (the graph stays connected) or with a participant that sends blocks, confirmations or both to some of the others only; at rest the chains and signature sets of all honest participants are compared.",
    C25: "Deadlines judged with a tolerance of 700 ms virtual time after the agreement time."
};
exports.note = (p) => W + (N[p] || "");
exports.na = {};
