// Source of properties.jsonl (node tools/properties.js > properties.jsonl)
const P = [];
const add = (id, title, statement, over, text, why, files, mechanism, observe_at, state) =>
    P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), ...(state ? { state: state.map(([name, meaning, where]) => ({ name, meaning, where })) } : {}), observe_at, hook_needed: null } });
const SM = "src/stateManager/StateManager.ts", AM = "src/agreementManager/AgreementManager.ts", VS = "src/stateManager/ValidationService.ts", DH = "src/DisputeHandler.ts", PM = "src/ProofManager.ts", FS = "src/agreementManager/ForkService.ts", QS = "src/agreementManager/QueueService.ts", BV = "src/agreementManager/BlockValidator.ts", OC = "src/agreementManager/OnChainTracker.ts", EL = "src/StateChannelEventListener.ts", PS = "src/evm/P2pSigner.ts", ES = "src/evm/EvmStateMachine.ts", EX = "src/evm/ContractExecuter.ts", EU = "src/utils/EvmUtils.ts", PX = "contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol", FC = "contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol", CM = "contracts/V1/StateChannelDiamondProxy/StateChannelCommon.sol", UL = "contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol", ASM = "contracts/V1/AStateMachine.sol", MX = "contracts/V1/examples/MathStateMachine/MathStateChannelManagerProxy.sol", MS = "contracts/V1/examples/MathStateMachine/MathStateMachine.sol";

add("C01", "Honest participants never disagree about an agreed block",
    "No two honest participants of a channel ever hold different blocks at the same position (fork and height), unless that block's author signed both of them; a block that carries the signatures of all participants is never replaced or dropped from its fork, and no dispute ends on a state older than it. Every fork an honest participant works on starts from exactly the state and the time the chain announced for that fork.",
    ["schedules", "fault_sequences", "histories"], "for every number of participants, message order, loss, duplication and delay, any participant misbehaving arbitrarily, and any sequence of forks",
    "The tests run single objects with mocked collaborators and two or three peers in one friendly order; divergence needs specific interleavings of gossip, confirmation and dispute, and an adversary.",
    [SM, AM, FS, VS], [["every block is checked against the local chain before it is added", "ValidationService.validateBlock*, StateManager.onSignedBlock / applyBlock"], ["forks and blocks are append-only", "ForkService.newFork, AgreementManager.addBlock"]],
    ["public queries of every peer (agreed blocks, states, signatures), SetState events of the chain"], [["chain of agreed blocks per fork", "block, signatures and encoded state per height", "AgreementManager/ForkService"]]);
add("C02", "An honest participant never signs two conflicting statements",
    "An honest participant never signs two different blocks for the same channel, fork and height, neither as author nor as confirmer, whatever it receives and in whatever order. Once it has brought a fork to dispute, it signs no block of that fork that reaches it afterwards. Nothing a peer can send makes it sign bytes of the peer's choosing that could later be presented as its signature on a block, or on a request to join or agreement of its own.",
    ["schedules", "inputs", "fault_sequences"], "for every order of incoming blocks, confirmations, local submissions, forks and disputes, and every peer-chosen payload",
    "The tests never hand a peer conflicting blocks in racing order and never look at what was signed; two signatures come from interleavings of local submission, remote block and dispute.",
    [SM, AM, PS, "src/rpc/services/InitHandshakeService.ts", EU], [["one block per height, taken under the lock", "StateManager.playTransaction / onSignedBlock / Mutex"], ["domain-separated handshake", "InitHandshakeService"]],
    ["the signer: every message passed to signMessage; the wire"]);
add("C03", "Every agreed block is a valid, correctly executed successor",
    "Every block in an honest participant's agreed chain was authored by the participant whose turn it was, names the right channel, fork and height, commits to the predecessor's state, has a timestamp no older than its predecessor's and within the allowed drift, and commits to exactly the state obtained by executing its transaction on that predecessor's state. When it is at rest, the participant's local state machine holds exactly the state of its last agreed block.",
    ["schedules", "inputs", "histories"], "for every valid and invalid block that peers produce, every application call (including failing ones) and every interleaving",
    "Only a handful of hand-made invalid blocks are tried, each alone; the resulting states are never compared with an independent execution of the transactions.",
    [SM, VS, BV, ES, AM], [["validation pipeline", "ValidationService, BlockValidator"], ["execution and comparison of the state hash", "StateManager.applyTransaction / EvmStateMachine.stateTransition"]],
    ["public queries of the peers; independent execution by eth_call on the deployed state machine"]);
add("C04", "Rejected input leaves no trace and stops nobody",
    "A block, confirmation, message or local submission that is rejected changes nothing: agreed chain, signatures on agreed blocks, local state and next writer stay as they were, no signature on it is given out, and the caller of a rejected submission gets an error. After any amount of such input the participant keeps accepting and producing valid blocks, and no input ends its process through an unhandled error.",
    ["inputs", "schedules", "fault_sequences"], "for every malformed, mutated, stale, foreign, undecodable or ill-typed input, at every point of a run",
    "Tests assert a return code for a few bad inputs on mocked services; they never check the absence of side effects nor that work continues afterwards.",
    [SM, VS, "src/P2PManager.ts", "src/rpc/MainRpcService.ts", "src/rpc/services/StateTransitionService.ts", ES], [["snapshot and restore around execution", "StateManager, EvmStateMachine.setState"], ["decision handlers", "src/stateManager/processExecutionDecisionHandlers.ts"], ["errors of handlers are contained", "P2PManager.onRpc, MainRpcService"]],
    ["state digest of a peer before and after; its promises; unhandledRejection"]);
add("C05", "Peers converge whatever the order, duplication and delay of messages",
    "If every message between honest participants is eventually delivered, in any order and any number of times, all of them end with the same agreed chain and every block in it carries the signatures of all of them. A message that arrives early is kept and takes effect once its predecessor is known; none is applied twice or lost.",
    ["schedules", "histories"], "for every permutation, duplication and delay of block and confirmation messages, including messages that arrive before the fork or block they refer to",
    "The tests deliver in order over an in-process transport; queues are tested for one reordering at a time with mocked state managers.",
    [QS, SM, AM, "src/stateManager/processConfirmationDecisionHandlers.ts"], [["queues of early blocks and confirmations, drained after each block or fork", "QueueService, StateManager.tryExecuteFromQueue / tryConfirmFromQueue"]],
    ["public queries of every peer after the network is quiet"]);
add("C06", "The evidence a participant brings to the chain is complete and accepted",
    "The latest finalised state, latest state and supporting votes a participant derives from its own chain are the newest it can prove: votes are consecutive blocks, start at the genesis of the fork or at a block everyone signed, together carry everyone's signature or start at genesis, end at the newest agreed block the participant signed, and the chain accepts them. It never omits a newer block it has signed.",
    ["histories", "inputs"], "for every agreed chain, every subset of confirmations received, and every position of the last finalised block",
    "Unit tests check two or three signature layouts; the on-chain acceptance of what the client derives is never exercised.",
    [AM, FS, DH, FC], [["derivation of finalised state and votes", "AgreementManager.getFinalizedAndLatestWithVotes"], ["on-chain check", "DisputeManagerFacet.isFinalizedAndLatest"]],
    ["result of the public query on the peer; createDispute on the real contract"]);
add("C07", "A client-built fraud proof is accepted and punishes exactly the offender",
    "For every misbehaviour a participant can prove (two blocks signed for the same height, incorrect state or timestamp, block in the future, a dispute that hides a newer state, a wrong time-out), the proof the client builds from what it saw is accepted by the contract and slashes the offender and nobody else. The client files no proof against a participant that did not misbehave.",
    ["inputs", "histories"], "for every kind of offence, offender, height and channel state, and combinations of several offences",
    "Tests build proofs with helper functions of the test suite or check only that the client's builder returns something; builder and contract are never connected for arbitrary chains.",
    [PM, DH, FC, VS], [["proof construction", "ProofManager.create*Proof"], ["proof selection per dispute", "ProofManager.filterValidProofs, DisputeHandler"]],
    ["transactions sent by the clients; slashed participants in DisputeUpdated events"]);
add("C08", "Honest, responsive participants are never punished",
    "A participant that runs the unmodified client, answers within the protocol's times and reaches the chain is never slashed and never timed out, whatever the other participants, strangers and the network below those times do. No honest participant opens a dispute when everybody is honest and responsive.",
    ["schedules", "fault_sequences", "histories"], "for every behaviour of the other participants and of strangers, every delay within the protocol's times, every dispute history",
    "Safety against arbitrary adversaries over time-dependent runs; tests contain no adversary beyond single bad calls and no delays.",
    [SM, DH, PM, VS, FC, CM], [["timing checks before signing, confirming, disputing", "ValidationService, StateManager.tryTimeoutParticipant"], ["re-challenge of wrong disputes", "DisputeHandler"], ["on-chain proof checks", "DisputeManagerFacet.apply*Proof"]],
    ["DisputeUpdated events: slashed and timed-out participants; transactions of honest clients"]);
add("C09", "A time-out is enforced only when it is due",
    "The chain lets a participant be timed out only if it is the next to write after the proven latest state, the waiting times have elapsed since the latest of that state's timestamp, the fork's start and the calldata posted up to that height, and it has not posted its block; then it is removed from the new fork's participants. Every other time-out request is refused without effect, and nobody can time out itself.",
    ["inputs", "histories"], "for every block history, posted calldata, request height, named participant and chain time around the deadline",
    "Tests try one valid and a few invalid requests at fixed times; boundaries and combinations with posted calldata and votes are open.",
    [FC, CM], [["time-out conditions", "DisputeManagerFacet.createDispute"], ["latest posted calldata", "StateChannelCommon.getChainLatestBlockTimestamp"]],
    ["the real contracts: revert or DisputeUpdated/SetState events and storage read back"]);
add("C10", "Disputes follow their life cycle and enforce the proven state",
    "Only a participant opens a dispute, only for the current fork, with provable votes and a reason, and only if none is running; a challenge is accepted only from an unslashed participant, before the deadline, against the current version, with a new proof and with votes that keep the block finalised by those in place (they start there or later, or include it; votes on top of the genesis state finalise no block). Each accepted step starts exactly one new fork from the proven latest state with joins, slashes, departures and time-outs applied, restarts the deadline, and slashes only accumulate; a refused step has no effect.",
    ["histories", "inputs"], "for every sequence of create and challenge requests, votes, proofs, senders and times",
    "Tests walk a few fixed paths; dispute state machines go wrong in sequences and in left-over data from an earlier dispute.",
    [FC, CM, PX], [["createDispute / challengeDispute", "DisputeManagerFacet"], ["vote check", "DisputeManagerFacet.isFinalizedAndLatest"], ["fork creation", "StateChannelCommon.setState, DisputeManagerFacet.applyDisputeToLatestState"]],
    ["getDispute, getForkCnt, stored state, events after each call"]);
add("C11", "A threshold signature counts iff every required party signed",
    "Data counts as signed by a group of distinct members if and only if every member contributed at least one valid signature over exactly that data, regardless of the order of signatures, of extra valid signatures by others, and of duplicates; a member listed twice or a malformed signature is never counted in anybody's favour.",
    ["inputs"], "for every group, signature multiset, order and data",
    "Tests check sorted, unsorted and one missing signature.",
    [UL], [["one count per address", "StateChannelUtilLibrary.verifyThresholdSigned / tryInsertAddressInThresholdSet"]],
    ["return value of the library function on the EVM"]);
add("C12", "A channel opens once, and only as its participants signed",
    "The example channel opens if and only if there is at least one participant, every participant signed its own join request, all requests name this non-zero channel, a positive amount and an unexpired deadline, and the channel is not open yet; its first fork then lists exactly those participants in order. Any other request reverts and leaves the channel as it was.",
    ["inputs", "histories"], "for every list of requests, signatures, channel ids, amounts and deadlines, on fresh and open channels",
    "Tests try a valid call and single deviations.",
    [MX, CM], [["openChannel admission", "MathStateChannelManagerProxy.openChannel"]],
    ["openChannel on the real contract, then stored state and SetState event"]);
add("C13", "Joining and leaving by agreement needs everyone, in time, on this state",
    "A join or leave by agreement takes effect if and only if no dispute is running, every current participant signed exactly this agreement, the deadline has not passed, it names the current fork and the state it is applied to, the joiner itself signed and is new (or the leaver is a participant), a participant submits the join, and the application accepts it; the new fork then contains exactly the changed set of participants. Otherwise nothing changes, and an agreement takes effect at most once.",
    ["inputs", "histories"], "for every agreement, signer set, submitter, deadline, fork, state and replay",
    "There is no test of these entry points.",
    [PX, CM], [["joinChannelWithAgreement / leaveChannelWithAgreement", "AStateChannelManagerProxy"]],
    ["the calls on the real contract, then forks, states and escrow"]);
add("C14", "Posted block data is authentic, timely and retrievable",
    "A block is recorded on chain if and only if its author posts it with its own signature, in readable form and with a timestamp neither in the future nor older than the waiting times; it can then be retrieved by channel, fork, height and author together with the time of posting, and is announced. The latest posting time reported for a fork and height is that of the latest recorded block at or below that height.",
    ["inputs", "histories"], "for every block, poster, time and sequence of postings across channels, forks and heights",
    "Tests post one or two blocks; windows, overwriting and the reported maximum over many keys are not covered.",
    [PX, CM], [["postBlockCalldata", "AStateChannelManagerProxy"], ["getBlockCallData / getChainLatestBlockTimestamp", "StateChannelCommon"]],
    ["calls and queries on the real contract against a model"]);
add("C15", "Off-chain and on-chain execution of a transaction agree",
    "For every state and every transaction within the local gas limit, the participant's local execution and the chain's execution give the same verdict and the same resulting state; a failed transaction leaves the state as it was, and reading from the state machine never changes it. Setting a state and reading it back gives the same bytes, and queries (participants, next writer) answer as the chain does.",
    ["inputs", "programs", "histories"], "for every sequence of state loads, transactions, joins, slashes, removals, failing calls and views",
    "Tests execute one state machine on one side with a few calls and never compare the two sides.",
    [ES, EX, ASM, PX], [["local EVM", "ContractExecuter, EvmStateMachine"], ["on-chain execution", "AStateChannelManagerProxy.executeStateTransitionOnState, AStateMachine.stateTransition"]],
    ["return values and encoded states of both sides"]);
add("C16", "Encodings round-trip and mean the same to client and contract",
    "Every structure the client encodes (blocks, transactions, join and leave agreements, confirmations, disputes' proofs) decodes to the same value, is byte for byte what the contract produces for that value, and hashes and signatures made by one side verify on the other. An encoding that is not the canonical one is never accepted as a block.",
    ["inputs"], "for every value of every structure, including empty and long byte strings and extreme numbers, and every mutated encoding",
    "Tests encode a few fixed values with the client's own codec on both sides.",
    [EU, "src/types/ethers.ts", "src/types/disputes.ts", "contracts/V1/DataTypes.sol", "contracts/V1/DisputeTypes.sol", UL], [["ethers type strings", "src/types/ethers.ts, src/types/disputes.ts"], ["encode/decode/sign/verify helpers", "src/utils/EvmUtils.ts"]],
    ["bytes produced by the client helpers against the ABI of the compiled contracts"]);
add("C17", "Operations of one participant are serialised",
    "Operations that read and change a participant's channel state run one at a time in the order in which they asked, each to its end, also when one of them fails; executions on the participant's local state machine never overlap. No sequence of operations leaves the participant blocked for good.",
    ["schedules"], "for every interleaving of lock requests, releases and failures, and of simultaneous submissions, blocks, confirmations and chain events",
    "The mutex has a couple of sequential tests; overlapping operations are not scheduled at all.",
    ["src/utils/Mutex.ts", SM, EX], [["FIFO mutex", "Mutex.lock/unlock"], ["lock held around block processing", "StateManager"], ["lock around local execution", "ContractExecuter"]],
    ["order of entries to and exits from instrumented operations"]);
add("C18", "A connection is attributed only to the key that proved itself on it",
    "A participant treats a connection as belonging to an address only after the other side signed a fresh challenge of this connection with that address' key; no replayed, reflected, foreign or unsolicited answer achieves this (relaying a live challenge to the owner of the key, who answers it, is outside). Honest peers that finish the exchange in any order recognise each other, and one bad connection does not disturb the others.",
    ["inputs", "schedules"], "for every interleaving of any number of concurrent handshakes and every forged, replayed, repeated or malformed handshake message",
    "Tests run one handshake between two friendly peers.",
    ["src/rpc/services/InitHandshakeService.ts", "src/ProfileManager.ts", "src/PeerProfile.ts", "src/P2PManager.ts"], [["challenge / response", "InitHandshakeService"], ["profile registry", "ProfileManager"]],
    ["profile registry and open connections of a peer, messages on the wire"]);
add("C19", "Remote calls reach exactly the intended method, once, or fail cleanly",
    "A remote call runs exactly the named public operation of the named service once with exactly the transmitted arguments and with the sending connection as its context, and broadcasts reach every open connection once, also when another connection fails. No message, however malformed, reaches internals, ends the process, or disturbs other connections, and closed connections are neither used nor kept.",
    ["inputs", "schedules"], "for every message, byte string, service and method name, argument value, and every sequence of connects, disconnects and errors",
    "Tests send well-formed calls to one connection.",
    ["src/rpc/RpcProxy.ts", "src/rpc/RpcHandler.ts", "src/rpc/Rpc.ts", "src/rpc/MainRpcService.ts", "src/P2PManager.ts", "src/transport/ATransport.ts", "src/ProfileManager.ts"], [["serialisation and dispatch", "Rpc, RpcHandler, MainRpcService"], ["connection registry", "P2PManager, ProfileManager"]],
    ["calls observed on services, messages on transports, registry"]);
add("C20", "The building blocks behave as their simple models",
    "Collections of signatures keep one entry per signer in order of arrival; set operations, subsets, retries, barriers, schedulers and the clock give what their mathematical or sequential model gives; the on-chain list keeps exactly the inserted, not removed elements in order. This holds after every sequence of operations.",
    ["histories", "inputs"], "for every sequence of operations and arguments",
    "Tests try one or two short sequences per helper.",
    ["src/utils/SignatureCollectionMap.ts", "src/utils/set.ts", "src/utils/retry.ts", "src/utils/BarrierLocal.ts", "src/utils/scheduler.ts", "src/utils/timestamp.ts", "src/Clock.ts", "contracts/common/DoubleLinkedList.sol"], [["each helper", "src/utils/*, src/Clock.ts, contracts/common/DoubleLinkedList.sol"]],
    ["return values of the helpers against a model"]);
add("C21", "A silent participant cannot stall the channel",
    "If a participant stops responding (crashes, withholds its block or its confirmations, or is cut off), the remaining honest participants get past it within a time bounded by the protocol's waiting times: either its missing data appears on chain, or it is removed, and they go on producing agreed blocks. The protocol's locks and timers never stop an honest participant for good.",
    ["schedules", "crash_points", "fault_sequences"], "for every participant falling silent at every point of a run, with every message order",
    "No test lets a participant fall silent with the others running.",
    [SM, DH, OC, FC], [["time-out of the next writer", "StateManager.tryTimeoutParticipant"], ["posting of unconfirmed blocks", "StateManager / AgreementManager.didEveryoneSignBlock"], ["dispute and new fork", "DisputeHandler, StateManager.setState"]],
    ["participants and progress of agreed chains over virtual time"]);
add("C22", "Provable fraud seen by an honest participant costs the offender its place",
    "If an honest participant of a fork receives proof of an offence committed on it (two signed blocks for one height, a block with a wrong state or with an impossible timestamp, a false dispute), the offender is slashed on chain and the honest participants continue on a fork without it, on the state they had agreed. This holds whatever the offender does meanwhile.",
    ["fault_sequences", "schedules"], "for every offence, offender and time, with offenders that also dispute, withhold and race",
    "End-to-end punishment is never run; tests end at the creation of a proof or at a single contract call.",
    [DH, PM, SM, FC, EL], [["fraud detection", "ValidationService, ProofManager"], ["dispute and challenge", "DisputeHandler"], ["slashing", "DisputeManagerFacet"]],
    ["DisputeUpdated and SetState events, chains of the honest peers"]);
add("C23", "Funds are conserved and privileged operations are closed to outsiders",
    "At every time what a channel holds in escrow equals what its latest on-chain state assigns to participants plus the payouts still due from its last dispute; deposits come only with a join, payouts only with a departure, each exactly once. Operations that move funds or apply joins, slashes and removals directly can be called only by the channel manager itself.",
    ["histories", "inputs"], "for every sequence of opens, joins, leaves, disputes, challenges and direct calls by anyone",
    "There is no test of payouts, and access control is tested for none of the entry points.",
    [PX, FC, "contracts/V1/StateChannelDiamondProxy/StateChannelManagerStorage.sol"], [["onlySelf", "StateChannelManagerStorage"], ["exits processed after expiry", "AStateChannelManagerProxy.tryProcessOldExits, DisputeManagerFacet.createDispute"]],
    ["escrow, payouts and state read back after each call; direct calls by outsiders"]);
add("C24", "The application hears of every agreed step exactly once, in order",
    "For every block that becomes part of the agreed chain, each participant's application receives that block's events exactly once, in block order and in order of emission; it receives none for rejected blocks, and reading state emits none. Turn, state-change and dispute notifications reflect what has just become true.",
    ["schedules", "inputs", "histories"], "for every order of own and remote blocks, rejected blocks and new forks",
    "Tests listen to a single event of a single block.",
    [ES, PS, SM, "src/P2pEventHooks.ts", "src/evm/P2pInstance.ts"], [["event emission after acceptance", "EvmStateMachine, StateManager success callbacks"], ["hooks", "P2pEventHooks calls in StateManager, EvmStateMachine, DisputeHandler"]],
    ["listeners on the public contract instance and hooks"]);
add("C25", "A block that is not fully confirmed in time is published and recoverable",
    "The author of a block that does not collect every signature within the agreement time posts that block on chain, and it does not post a block that everyone signed in time. Every honest participant that sees the posting ends up with the block, and its author is then not timed out for it.",
    ["schedules", "fault_sequences"], "for every set of withheld confirmations, lost messages, partitions and delays",
    "Tests call the posting function directly on a mocked contract.",
    [SM, OC, EL, "src/agreementManager/AgreementManager.ts"], [["posting after the agreement time", "StateManager.tryPostCalldata / scheduleTask"], ["calldata events processed as blocks", "StateChannelEventListener, StateManager.collectOnChainBlock"]],
    ["BlockCalldataPosted events, postings by honest clients, their chains"]);
add("C26", "The contract accepts a fraud proof only if the offence happened",
    "The contract slashes or removes a participant on a proof only if the proof shows, with that participant's own valid signatures, an offence on this channel and fork by a participant of it; a proof with any altered, foreign, stale or mismatched part is refused and has no effect. No participant can be slashed twice or with data signed by others.",
    ["inputs", "histories"], "for every proof kind and every single or combined alteration of a valid proof, and valid proofs against honest histories",
    "Tests give each proof kind one valid and a few invalid instances.",
    [FC, CM, UL], [["apply*Proof", "DisputeManagerFacet"]],
    ["createDispute / challengeDispute on the real contract against an independent verdict"]);
add("C27", "A request to join is endorsed by all participants, once, while it is valid",
    "A participant endorses a request to join (signs it and passes it on to everybody) only if the joiner itself signed it and its deadline lies ahead, and does not do so again while the request is pending; it queues the request for admission once, when and only when valid endorsements of every current participant have arrived. An expired request is forgotten, and no request, whoever sends it and however often, makes participants exchange messages without end.",
    ["inputs", "schedules", "histories"], "for every request, deadline, endorsement, sender, repetition and order of arrival",
    "No test covers the exchange of join requests between several peers or the passing of time until a deadline.",
    ["src/rpc/services/JoinChannelService.ts", "src/utils/SignatureCollectionMap.ts", EU], [["collection and queue", "JoinChannelService.onJoinChannelRequest, SignatureCollectionMap"], ["pruning timer", "JoinChannelService"]],
    ["messages on the wire, messages passed to signMessage, the admission queue"], [["pending requests", "endorsements per encoded request", "joinChannelMap"], ["admission queue", "requests that everybody endorsed", "joinChannelQueue"]]);
add("C28", "A move the application proposes becomes exactly one block, or is refused",
    "When an application proposes a move through its contract object, then either the call succeeds and exactly one block with exactly that move, authored and signed by this participant, has been appended to its chain and sent to every connected peer, or the call fails and no block comes of it and the state is as before. Every proposal is answered, also when several are made at once, on another's turn, or while the fork changes or is disputed; the participant authors no block its application did not propose, and a query through the contract object answers from the state of the last agreed block once the participant is at rest.",
    ["inputs", "schedules", "histories"], "for every move, number of moves proposed at once, moment of proposing and state of the channel",
    "The tests do not run applications that propose concurrently with arriving blocks, confirmations, forks and disputes.",
    ["src/evm/P2pSigner.ts", "src/stateManager/StateManager.ts", "src/evm/EvmStateMachine.ts", "src/rpc/RpcProxy.ts"], [["proposing", "P2pSigner.sendTransaction, StateManager.playTransaction"], ["queries", "P2pSigner.call, EvmStateMachine.runView"]],
    ["outcome of each proposal, the proposer's chain, messages on the wire"], [["proposals", "pending calls of the application"], ["authored blocks", "blocks of the chain whose author is this participant"]]);
add("C29", "A transaction can do no more than the application's moves",
    "Whatever its data, a transaction cannot set the state, admit, slash or remove a participant, or run another transaction (so it never acts in another's name), neither directly nor through a move that calls the state machine itself: such a call fails, locally and on chain, and has no effect; a move that tolerates the failure goes on as if nothing had happened. Afterwards the state machine serves its owner as before.",
    ["inputs", "histories"], "for every transaction data, nesting of calls, state and sequence of transactions",
    "The tests run well-formed moves only.",
    ["contracts/V1/AStateMachine.sol", "src/evm/EvmStateMachine.ts", "contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol"], [["re-entrancy guard", "AStateMachine._nonReentrant on setState, joinChannel, slashParticipant, removeParticipant, stateTransition"]],
    ["verdict and state of local and on-chain execution"], [["guard", "_nonreentrant"], ["state", "the application's state"]]);
add("C30", "Honest participants pass on what they accept",
    "A block or a confirmation that one honest participant accepts reaches every honest participant it is connected to, directly or through others, even if its author sent it to that one alone. At rest, honest participants whose connections form one network hold the same blocks with the same signatures, whichever links are missing and whatever a participant withholds from some of them.",
    ["schedules", "histories"], "for every connected set of links, every choice of recipients by a participant that withholds, and every order and delay of delivery",
    "The tests connect everybody with everybody and nobody withholds anything.",
    ["src/rpc/services/StateTransitionService.ts", "src/rpc/RpcHandler.ts", "src/P2PManager.ts", "src/evm/P2pSigner.ts", "src/stateManager/StateManager.ts"], [["forwarding of accepted blocks and confirmations", "StateTransitionService"], ["broadcast to every open connection", "RpcHandler.broadcast"], ["a confirmation carries the block it confirms", "P2pSigner.confirmBlock, ValidationService.validateBlockConfirmation"]],
    ["agreed chain and signatures of every honest participant at rest"]);
for (const p of P) { if (p.title.length > 80) throw new Error(p.id + " title"); console.log(JSON.stringify(p)); }
