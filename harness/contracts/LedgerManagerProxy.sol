// SPDX-License-Identifier: UNLICENSED
pragma solidity ^0.8.8;
import "@repo/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol";
import "./LedgerStateMachine.sol";

// Manager for LedgerStateMachine. Keeps an escrow account per channel, so that conservation of funds
// across joins, leaves, slashes and timeouts is observable.
contract LedgerManagerProxy is AStateChannelManagerProxy {
    mapping(bytes32 => uint) public escrow;
    mapping(bytes32 => mapping(address => uint)) public paid;
    mapping(bytes32 => uint) public deposited;
    mapping(bytes32 => uint) public paidTotal;
    bool public refuseAdd;
    bool public refuseRemove;

    constructor(address sm, address facet, uint a, uint b, uint c, uint d) AStateChannelManagerProxy(sm, facet) {
        p2pTime = a;
        agreementTime = b;
        chainFallbackTime = c;
        challengeTime = d;
    }
    function setRefuse(bool a, bool r) public {
        refuseAdd = a;
        refuseRemove = r;
    }
    function openChannel(bytes32 channelId, bytes[] calldata data, bytes[] calldata signatures) public virtual override {
        require(!isChannelOpen(channelId), "open");
        LedgerState memory g;
        g.participants = new address[](data.length);
        g.balances = new uint[](data.length);
        for (uint i = 0; i < data.length; i++) {
            JoinChannel memory j = abi.decode(data[i], (JoinChannel));
            require(
                StateChannelUtilLibrary.retriveSignerAddress(data[i], signatures[i]) == j.participant &&
                    j.channelId == channelId,
                "sig"
            );
            g.participants[i] = j.participant;
            g.balances[i] = j.amount;
            require(_addParticipantComposable(j));
        }
        bytes memory e = abi.encode(g);
        encodedStates[channelId][0] = e;
        genesisTimestamps[channelId][0] = block.timestamp;
        emit SetState(channelId, e, 0, block.timestamp);
    }
    // Observers of otherwise private storage
    function stateAt(bytes32 channelId, uint forkCnt) public view returns (bytes memory) {
        return encodedStates[channelId][forkCnt];
    }
    function calldataKeys(bytes32 channelId, uint forkCnt) public view returns (uint) {
        return postedBlockCalldata[channelId][forkCnt].keys.length;
    }
    function closeChannel(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}
    function removeParticipant(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}
    function addParticipant(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}
    function _addParticipantComposable(JoinChannel memory jc) internal virtual override returns (bool) {
        if (refuseAdd) return false;
        escrow[jc.channelId] += jc.amount;
        deposited[jc.channelId] += jc.amount;
        return true;
    }
    function _removeParticipantComposable(bytes32 channelId, ProcessExit memory pe) internal virtual override returns (bool) {
        if (refuseRemove) return false;
        escrow[channelId] -= pe.amount;
        paid[channelId][pe.participant] += pe.amount;
        paidTotal[channelId] += pe.amount;
        return true;
    }
}
