// SPDX-License-Identifier: UNLICENSED
pragma solidity ^0.8.8;
import "@repo/contracts/V1/DisputeTypes.sol";

// What the compiler makes of the repository's structures, independently of any client code.
contract Codec {
    function eTransaction(Transaction memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dTransaction(bytes memory b) public pure returns (Transaction memory) { return abi.decode(b, (Transaction)); }
    function eBlock(Block memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dBlock(bytes memory b) public pure returns (Block memory) { return abi.decode(b, (Block)); }
    function eSignedBlock(SignedBlock memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dSignedBlock(bytes memory b) public pure returns (SignedBlock memory) { return abi.decode(b, (SignedBlock)); }
    function eConfirmedBlock(ConfirmedBlock memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dConfirmedBlock(bytes memory b) public pure returns (ConfirmedBlock memory) { return abi.decode(b, (ConfirmedBlock)); }
    function eJoinChannel(JoinChannel memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dJoinChannel(bytes memory b) public pure returns (JoinChannel memory) { return abi.decode(b, (JoinChannel)); }
    function eSignedJoinChannel(SignedJoinChannel memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dSignedJoinChannel(bytes memory b) public pure returns (SignedJoinChannel memory) { return abi.decode(b, (SignedJoinChannel)); }
    function eJoinChannelAgreement(JoinChannelAgreement memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dJoinChannelAgreement(bytes memory b) public pure returns (JoinChannelAgreement memory) { return abi.decode(b, (JoinChannelAgreement)); }
    function eLeaveChannel(LeaveChannel memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dLeaveChannel(bytes memory b) public pure returns (LeaveChannel memory) { return abi.decode(b, (LeaveChannel)); }
    function eFoldRechallenge(FoldRechallengeProof memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dFoldRechallenge(bytes memory b) public pure returns (FoldRechallengeProof memory) { return abi.decode(b, (FoldRechallengeProof)); }
    function eDoubleSign(DoubleSignProof memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dDoubleSign(bytes memory b) public pure returns (DoubleSignProof memory) { return abi.decode(b, (DoubleSignProof)); }
    function eIncorrectData(IncorrectDataProof memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dIncorrectData(bytes memory b) public pure returns (IncorrectDataProof memory) { return abi.decode(b, (IncorrectDataProof)); }
    function eNewerState(NewerStateProof memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dNewerState(bytes memory b) public pure returns (NewerStateProof memory) { return abi.decode(b, (NewerStateProof)); }
    function eFoldPriorBlock(FoldPriorBlockProof memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dFoldPriorBlock(bytes memory b) public pure returns (FoldPriorBlockProof memory) { return abi.decode(b, (FoldPriorBlockProof)); }
    function eBlockTooFarInFuture(BlockTooFarInFutureProof memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dBlockTooFarInFuture(bytes memory b) public pure returns (BlockTooFarInFutureProof memory) { return abi.decode(b, (BlockTooFarInFutureProof)); }
    function eJoinChannelProof(JoinChannelProof memory v) public pure returns (bytes memory) { return abi.encode(v); }
    function dJoinChannelProof(bytes memory b) public pure returns (JoinChannelProof memory) { return abi.decode(b, (JoinChannelProof)); }
}
