From ce436673aac5c7db797a328f8599466106e4878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 01/68] fix: a dispute without votes can only enforce the
 genesis state

isFinalizedAndLatest accepted any encodedLatestCorrectState when the finalized
state is the genesis state and no virtual votes were given.
---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 0955b4b..5bdb9f4 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -856,6 +856,12 @@ contract DisputeManagerFacet is StateChannelCommon {
             forkCnt,
             encodedFinalizedState
         );
+        //Without votes the only state that can be enforced is the genesis state
+        if (virtualVotingBlocks.length == 0)
+            return
+                isGenesis &&
+                keccak256(encodedLatestCorrectState) ==
+                keccak256(encodedFinalizedState);
 
         //Check through virtual voting and treshold
         bytes32 finalizedStateHash = keccak256(encodedFinalizedState);
-- 
2.43.0


From f7cfc845e393e468a248e433063e6625234b9646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 02/68] fix: votes in a dispute must be consecutive blocks of
 participants

Blocks written by a stranger, or carrying an arbitrary transactionCnt, were
accepted as votes, so a single participant could have any state enforced and
no fraud proof could undo it.
---
 .../DisputeManagerFacet.sol                   | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 5bdb9f4..9d4cc22 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -870,11 +870,30 @@ contract DisputeManagerFacet is StateChannelCommon {
             thresholdSingers.length
         );
         uint countThreshold = 0;
+        uint previousTransactionCnt = 0;
         for (uint i = 0; i < virtualVotingBlocks.length; i++) {
             Block memory _block = abi.decode(
                 virtualVotingBlocks[i].encodedBlock,
                 (Block)
             );
+            uint transactionCnt = _block.transaction.header.transactionCnt;
+            if (i == 0) {
+                //only the first block of the fork builds on genesis
+                isGenesis = isGenesis && transactionCnt == 0;
+            } else {
+                require(
+                    transactionCnt == previousTransactionCnt + 1,
+                    ErrorTransactionCountMismatch()
+                );
+            }
+            previousTransactionCnt = transactionCnt;
+            require(
+                StateChannelUtilLibrary.isAddressInArray(
+                    thresholdSingers,
+                    _block.transaction.header.participant
+                ),
+                ErrorNotParticipant()
+            );
 
             require(
                 _block.transaction.header.channelId == channelId,
-- 
2.43.0


From 8c25e683cc3bf49fb83205005ce4d6a5bc9986d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 03/68] fix: timing out the first writer of a fork requires
 that there are no blocks

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 9d4cc22..5be2737 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -150,6 +150,11 @@ contract DisputeManagerFacet is StateChannelCommon {
                     ErrorTimeoutNotLinkedToPreviousBlock()
                 );
                 latestTimestamp = lastBlock.transaction.header.timestamp;
+            } else {
+                require(
+                    virtualVotingBlocks.length == 0,
+                    ErrorTimeoutNotLinkedToPreviousBlock()
+                );
             }
             require(
                 timedoutParticipant ==
-- 
2.43.0


From c5a2f5be2956d819b8aca6bd93f64c02dbeebcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 04/68] fix: disputes without votes can be challenged

challengeDispute read the first vote of both sides unconditionally and panicked
when a side is still at the genesis state of the fork.
---
 .../DisputeManagerFacet.sol                   | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 5be2737..ab2f999 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -269,19 +269,26 @@ contract DisputeManagerFacet is StateChannelCommon {
             ),
             ErrorLatestFinalizedBlock()
         );
-        Block memory oldBlock = abi.decode(
-            dispute.virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        Block memory newBlock = abi.decode(
-            virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        require(
-            newBlock.transaction.header.transactionCnt >=
-                oldBlock.transaction.header.transactionCnt,
-            ErrorChallengeNewFinalizedBeforeOldFinalized()
-        );
+        //No votes -> everyone is still at genesis
+        if (dispute.virtualVotingBlocks.length > 0) {
+            require(
+                virtualVotingBlocks.length > 0,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+            Block memory oldBlock = abi.decode(
+                dispute.virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            Block memory newBlock = abi.decode(
+                virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            require(
+                newBlock.transaction.header.transactionCnt >=
+                    oldBlock.transaction.header.transactionCnt,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+        }
         copyConfirmedBlockArrayIntoStorage(
             dispute.virtualVotingBlocks,
             virtualVotingBlocks
-- 
2.43.0


From 51131d0dff0dedc83715c0c364410d7313829059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 05/68] fix: the votes of a challenge replace the votes they
 challenge

They were appended, so the recorded votes no longer matched the recorded states.
---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index ab2f999..9b8c7c4 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -975,6 +975,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         ConfirmedBlock[] storage _storage,
         ConfirmedBlock[] memory _memory
     ) internal {
+        while (_storage.length > 0) _storage.pop();
         for (uint i = 0; i < _memory.length; i++) {
             _storage.push(_memory[i]);
         }
-- 
2.43.0


From c24d40bde0f71fc3224d200822d9f4638cf7ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 06/68] fix: a new dispute starts from a clean record

The record of the previous dispute of the channel was reused: its slashes, joins
and timeout were applied again, its challengeCnt and unpaid exits were lost.
---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 9b8c7c4..6c567a9 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -191,7 +191,12 @@ contract DisputeManagerFacet is StateChannelCommon {
             require(timedoutParticipant != address(0), ErrorTimeoutInvalid());
             require(timedoutParticipant != msg.sender, ErrorTimeoutSelf());
         }
+        //The previous dispute has expired -> its exits are final
         Dispute storage dispute = disputes[channelId];
+        for (uint i = 0; i < dispute.processExits.length; i++)
+            removeParticipantComposable(channelId, dispute.processExits[i]);
+        delete disputes[channelId];
+
         dispute.channelId = channelId;
         dispute.forkCnt = forkCnt;
         dispute.challengeCnt = 0; //this can be removed - default value
-- 
2.43.0


From aa893e077b04ea69e676ffc3d199dcde5b651e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 07/68] fix: NewerState slashes only for a block newer than the
 posted ones

The last block the disputer posted was itself accepted as a newer one, so every
honest disputer could be slashed; with no posted block the proof panicked.
---
 .../DisputeManagerFacet.sol                   | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 6c567a9..0c3e2db 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -659,17 +659,20 @@ contract DisputeManagerFacet is StateChannelCommon {
             retrivedAddress == dispute.postedStateDisputer,
             ErrorNewerStateConfirmationInvalid()
         );
-        Block memory latestKnownBlock = abi.decode(
-            dispute
-                .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
-                .encodedBlock,
-            (Block)
-        );
-        require(
-            _block.transaction.header.transactionCnt >=
-                latestKnownBlock.transaction.header.transactionCnt,
-            ErrorTransactionCountMismatch()
-        );
+        //No votes -> the disputer claims not to have signed any block
+        if (dispute.virtualVotingBlocks.length > 0) {
+            Block memory latestKnownBlock = abi.decode(
+                dispute
+                    .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
+                    .encodedBlock,
+                (Block)
+            );
+            require(
+                _block.transaction.header.transactionCnt >
+                    latestKnownBlock.transaction.header.transactionCnt,
+                ErrorTransactionCountMismatch()
+            );
+        }
         return
             insertIfNotExist(
                 dispute.slashedParticipants,
-- 
2.43.0


From 2e7d752111f9015bda45fa5375eec62dbd7fc944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 08/68] fix: fraud proofs concern participants only

A dispute could be opened with blocks signed by a stranger, and a stranger's
block served as the prior block that makes an honest one look incorrect.
---
 .../DisputeManagerFacet.sol                    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 0c3e2db..f4a53f3 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -523,6 +523,13 @@ contract DisputeManagerFacet is StateChannelCommon {
                 doubleSign.block2.signature
             );
             require(retrived1 == retrived2, ErrorDoubleSignSignersNotTheSame());
+            require(
+                StateChannelUtilLibrary.isAddressInArray(
+                    dispute.participants,
+                    retrived1
+                ),
+                ErrorNotParticipant()
+            );
             //If we're here - the proof is valid
             success =
                 insertIfNotExist(dispute.slashedParticipants, retrived1) ||
@@ -562,6 +569,17 @@ contract DisputeManagerFacet is StateChannelCommon {
                 retrived2 == block2.transaction.header.participant,
             ErrorSignatureInvalid()
         );
+        require(
+            StateChannelUtilLibrary.isAddressInArray(
+                dispute.participants,
+                retrived1
+            ) &&
+                StateChannelUtilLibrary.isAddressInArray(
+                    dispute.participants,
+                    retrived2
+                ),
+            ErrorNotParticipant()
+        );
         require(
             block1.transaction.header.channelId == dispute.channelId &&
                 block2.transaction.header.channelId == dispute.channelId,
-- 
2.43.0


From 078ebc9a86a328172726b3eda524c5678802cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 09/68] fix: IncorrectData takes the block before the incorrect
 one as prior block

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index f4a53f3..bdc72a1 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -620,6 +620,11 @@ contract DisputeManagerFacet is StateChannelCommon {
                 block1.stateHash == keccak256(incorrectDataProof.encodedState),
                 ErrorIncorrectDataStateHashNotLinkedToBlock(1)
             );
+            require(
+                block1.transaction.header.transactionCnt + 1 ==
+                    block2.transaction.header.transactionCnt,
+                ErrorTransactionCountMismatch()
+            );
             previousTimestamp = block1.transaction.header.timestamp;
         }
 
-- 
2.43.0


From e9250448238e002ff5c442dc792ba5b06c446b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 10/68] fix: FoldPriorBlock folds the author of the block it
 names

The loop ran on, and the author of the last vote was folded instead.
---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index bdc72a1..9956bb4 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -717,7 +717,10 @@ contract DisputeManagerFacet is StateChannelCommon {
             if (
                 _block.transaction.header.transactionCnt ==
                 foldPriorBlockProof.transactionCnt
-            ) isTransactionCntInVirtualVotes = true;
+            ) {
+                isTransactionCntInVirtualVotes = true;
+                break;
+            }
         }
         require(
             isTransactionCntInVirtualVotes,
-- 
2.43.0


From 1fde9986402155d6676518b7464e32acb9e23295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 11/68] fix: a JoinChannel proof is good until its deadline,
 not after it

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 9956bb4..594c4a7 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -835,7 +835,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         );
         require(!isParticipant, ErrorJoinChannelAlreadyInChannel());
         require(
-            block.timestamp > jc.deadlineTimestamp,
+            block.timestamp <= jc.deadlineTimestamp,
             ErrorJoinChannelExpired()
         );
         require(
-- 
2.43.0


From ff98e563b2d292df352d1597a49af410bce3d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 12/68] fix: FoldRechallenge needs a timeout to rechallenge

Without one it slashed the zero address, which was enough to open a dispute
against nobody.
---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 594c4a7..261a496 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -463,6 +463,10 @@ contract DisputeManagerFacet is StateChannelCommon {
                 dispute.foldedTransactionCnt,
             ErrorTransactionCountMismatch()
         );
+        require(
+            dispute.timedoutParticipant != address(0),
+            ErrorTimeoutInvalid()
+        );
         (bool succeeds, ) = StateChannelUtilLibrary.verifyThresholdSigned(
             dispute.participants,
             foldRechallengeProof.encodedBlock,
-- 
2.43.0


From fb5ee0f6ddfbb35fc2605d578281c022d2fbc75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 13/68] fix: joining and leaving with agreement

Both called functions only the contract itself may call, so they always reverted.
---
 .../V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 9ee6327..1d54bb9 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -133,7 +133,7 @@ abstract contract AStateChannelManagerProxy is
         JoinChannel[] memory joinCahnnels = new JoinChannel[](1);
         joinCahnnels[0] = joinChannel;
         uint successCnt;
-        (encodedState, successCnt) = applyJoinChannelToStateMachine(
+        (encodedState, successCnt) = _applyJoinChannelToStateMachine(
             encodedState,
             joinCahnnels
         );
@@ -206,7 +206,7 @@ abstract contract AStateChannelManagerProxy is
             bytes memory encodedState,
             ProcessExit[] memory pe,
             uint successCnt
-        ) = removeParticipantsFromStateMachine(encodedState, p);
+        ) = _removeParticipantsFromStateMachine(encodedState, p);
         require(
             successCnt == 1,
             "AStateChannelManager: leaveChannelWithAgreement - removeParticipantsFromStateMachine failed"
-- 
2.43.0


From 7a809a27d13d97857455aedbdd73069226b6a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 14/68] fix: agreements to join or leave expire at their
 deadline

---
 .../AStateChannelManagerProxy.sol                         | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 1d54bb9..9a67f9a 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -53,6 +53,10 @@ abstract contract AStateChannelManagerProxy is
             !isDisputeInProgress(joinChannel.channelId),
             "AStateChannelManager: joinChannelWithAgreement - Dispute in progress"
         );
+        require(
+            block.timestamp <= joinChannel.deadlineTimestamp,
+            "AStateChannelManager: joinChannelWithAgreement - expired"
+        );
         tryProcessOldExits(joinChannel.channelId);
 
         //require forkCnt to match
@@ -160,6 +164,10 @@ abstract contract AStateChannelManagerProxy is
             !isDisputeInProgress(leaveChannel.channelId),
             "AStateChannelManager: leaveChannelWithAgreement - Dispute in progress"
         );
+        require(
+            block.timestamp <= leaveChannel.deadlineTimestamp,
+            "AStateChannelManager: leaveChannelWithAgreement - expired"
+        );
         tryProcessOldExits(leaveChannel.channelId);
 
         //require forkCnt to match
-- 
2.43.0


From 162100af1a67667e85c64f454dd46f4c071ec935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 15/68] fix: IncorrectData measures only the first block
 against genesis

A later block on a state equal to the genesis state was held against the
genesis timestamp, and slashed its author.
---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 261a496..673fff8 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -597,6 +597,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         uint previousTimestamp;
         //If encodedState is genesis => Block2 is first block and block1 is just a copy of block2 and is ignored
         if (
+            block2.transaction.header.transactionCnt == 0 &&
             isGenesisState(
                 dispute.channelId,
                 dispute.forkCnt,
-- 
2.43.0


From 4e47b9c8341fa17501644b0ff1e081afb0685761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 16/68] fix: a block whose validation throws is not confirmed

The decision defaulted to SUCCESS, so a block that could not be validated was
signed and broadcast; when that failed in turn the lock was never released and
the peer stopped for good.
---
 src/stateManager/StateManager.ts | 69 +++++++++++---------------------
 1 file changed, 23 insertions(+), 46 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index ab76248..e80b823 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -231,37 +231,25 @@ class StateManager {
         signedBlock: SignedBlockStruct,
         block?: BlockStruct
     ): Promise<ExecutionFlags> {
-        // Default everything to SUCCESS + no AgreementFlag
-        let finalExecutionFlag: ExecutionFlags = ExecutionFlags.SUCCESS;
-        let finalAgreementFlag: AgreementFlag | undefined = undefined;
         const decodedBlock =
             block ?? EvmUtils.decodeBlock(signedBlock.encodedBlock);
 
+        await this.mutex.lock();
         try {
-            await this.mutex.lock();
             const result = await this.validationService.validateSignedBlock(
                 signedBlock,
                 decodedBlock
             );
 
-            finalExecutionFlag = result.flag;
-            finalAgreementFlag = result.agreementFlag;
-
-            return finalExecutionFlag;
-        } finally {
-            // Safety check: must have an execution flag
-            if (finalExecutionFlag === undefined) {
-                throw new Error(
-                    "StateManager - onSignedBlock - Internal Error - flag undefined"
-                );
-            }
-
             // Process the final decision
             await this.processExecutionDecision(
                 signedBlock,
-                finalExecutionFlag,
-                finalAgreementFlag
+                result.flag,
+                result.agreementFlag
             );
+
+            return result.flag;
+        } finally {
             this.mutex.unlock();
         }
     }
@@ -272,40 +260,29 @@ class StateManager {
         confirmationSignature: BytesLike,
         block?: BlockStruct
     ): Promise<ExecutionFlags> {
-        let finalExecutionFlag: ExecutionFlags = ExecutionFlags.SUCCESS; // Default to SUCCESS
         const decodedBlock =
             block ?? EvmUtils.decodeBlock(signedBlock.encodedBlock);
 
-        try {
-            const result =
-                await this.validationService.validateBlockConfirmation(
-                    signedBlock,
-                    confirmationSignature,
-                    decodedBlock
-                );
-            finalExecutionFlag = result.flag;
-
-            if (result.success) {
-                this.agreementManager.confirmBlock(
-                    decodedBlock,
-                    confirmationSignature as SignatureLike
-                );
-            }
-
-            return finalExecutionFlag;
-        } finally {
-            if (finalExecutionFlag === undefined) {
-                throw new Error(
-                    "StateManager - onBlockConfirmation - Internal Error - flag undefined"
-                );
-            }
+        const result = await this.validationService.validateBlockConfirmation(
+            signedBlock,
+            confirmationSignature,
+            decodedBlock
+        );
 
-            await this.processConfirmationDecision(
-                signedBlock,
-                confirmationSignature as SignatureLike,
-                finalExecutionFlag
+        if (result.success) {
+            this.agreementManager.confirmBlock(
+                decodedBlock,
+                confirmationSignature as SignatureLike
             );
         }
+
+        await this.processConfirmationDecision(
+            signedBlock,
+            confirmationSignature as SignatureLike,
+            result.flag
+        );
+
+        return result.flag;
     }
 
     //Aplies a transaction to the state machine and returns the encoded state with a success callback
-- 
2.43.0


From 002d42e6161efacf34a0bee2e7be6349220b3c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 17/68] fix: a block older than its predecessor is incorrect
 data

The contract slashes its author for it; validation threw instead.
---
 src/stateManager/ValidationService.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index dd8f32f..ee3b8a7 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -222,7 +222,7 @@ export default class ValidationService {
             blockHeight
         );
 
-        if (blockTimestamp < latestTxTs) throw new Error("Not implemented");
+        if (blockTimestamp < latestTxTs) return false;
 
         if (blockTimestamp > initialReferenceTime + this.timeCfg.p2pTime) {
             const chainTs = Number(
-- 
2.43.0


From 15275672c73510fae7b1ee6462b9fc46ffd7967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 18/68] fix: confirmations of blocks that are not ready are
 queued

queueConfirmation was bound to the wrong object and threw.
---
 src/stateManager/StateManager.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index e80b823..a416051 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -523,7 +523,9 @@ class StateManager {
             isDisposed: this.isDisposed,
             tryConfirmFromQueue: this.tryConfirmFromQueue.bind(this),
             queueConfirmation:
-                this.agreementManager.queueConfirmation.bind(this)
+                this.agreementManager.queueConfirmation.bind(
+                    this.agreementManager
+                )
         };
 
         await processConfirmationDecision(
-- 
2.43.0


From eabcd6f7755af4a3dba9c0791a6b4ff06792482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 19/68] fix: a rejected block leaves the state machine as it
 was

The transition of a block with a wrong state hash stayed applied, so the peer
no longer agreed with anyone.
---
 src/stateManager/ValidationService.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index ee3b8a7..2d2f82b 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -165,9 +165,8 @@ export default class ValidationService {
         block: BlockStruct,
         signed: SignedBlockStruct
     ): Promise<ValidationResult> {
-        const previousStateHash = await this.stateMachine
-            .getState()
-            .then(ethers.keccak256);
+        const previousState = await this.stateMachine.getState();
+        const previousStateHash = ethers.keccak256(previousState);
         let { success: txOK, successCallback } =
             await this.stateMachine.stateTransition(block.transaction);
 
@@ -178,7 +177,11 @@ export default class ValidationService {
             stateHash === block.stateHash &&
             previousStateHash === block.previousStateHash;
 
-        if (!txOK || !hashOK) return dispute(AgreementFlag.INCORRECT_DATA);
+        if (!txOK || !hashOK) {
+            // The rejected block must leave no trace
+            await this.stateMachine.setState(previousState);
+            return dispute(AgreementFlag.INCORRECT_DATA);
+        }
 
         this.agreementManager.addBlock(
             block,
-- 
2.43.0


From 2bf444c0080c566b3e161f64219db76dddef1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 20/68] fix: a channel is not open before its first fork

getLatestForkCnt is 0 without any fork, so the channel always counted as open:
early blocks were dropped instead of queued.
---
 src/agreementManager/AgreementManager.ts | 4 ++++
 src/stateManager/StateManager.ts         | 2 +-
 src/stateManager/ValidationService.ts    | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/agreementManager/AgreementManager.ts b/src/agreementManager/AgreementManager.ts
index 83dee02..b43f937 100644
--- a/src/agreementManager/AgreementManager.ts
+++ b/src/agreementManager/AgreementManager.ts
@@ -89,6 +89,10 @@ class AgreementManager {
     public getLatestForkCnt(): number {
         return this.forkService.getLatestForkCnt();
     }
+    // There is no fork until the genesis state is set on-chain
+    public hasFork(): boolean {
+        return this.forkService.getLatestFork() !== undefined;
+    }
     public getNextBlockHeight(): number {
         return this.forkService.getNextBlockHeight();
     }
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index a416051..1395372 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -577,7 +577,7 @@ class StateManager {
     // ----- Private validation helper methods -----
 
     private isChannelOpen(): boolean {
-        return this.getForkCnt() !== -1;
+        return this.agreementManager.hasFork();
     }
 }
 
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 2d2f82b..7b9d806 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -251,7 +251,7 @@ export default class ValidationService {
         return this.agreementManager.getLatestForkCnt();
     }
     private isChannelOpen(): boolean {
-        return this.getForkCnt() >= 0;
+        return this.agreementManager.hasFork();
     }
     private isPastFork(f: number): boolean {
         return f < this.getForkCnt();
-- 
2.43.0


From 3900d3e28b5f99038f010f7d6fb229da2012d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 21/68] fix: IncorrectData proofs name the incorrect block as
 such

The prior and the incorrect block were swapped and the state was the one after
the incorrect block; the contract never accepted the proof.
---
 src/ProofManager.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 47774df..600e34e 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -408,21 +408,21 @@ class ProofManager {
 
         const priorEncodedState = this.agreementManager.getEncodedState(
             forkCnt,
-            transactionCnt
+            transactionCnt - 1
         );
 
         if (!priorEncodedState) {
             throw new Error(
-                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt}`
+                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt - 1}`
             );
         }
 
         return {
-            block1: incorrectBlockSigned,
-            block2: {
+            block1: {
                 encodedBlock: EvmUtils.encodeBlock(priorBlock),
                 signature: priorBlockOriginalSignature as string
             },
+            block2: incorrectBlockSigned,
             encodedState: priorEncodedState
         };
     }
-- 
2.43.0


From eaedc145368e8aa265a724b6926048bc2ae35347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 22/68] fix: encode dispute proofs the way the contract decodes
 them

---
 src/types/disputes.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/types/disputes.ts b/src/types/disputes.ts
index bb79ad7..4039b69 100644
--- a/src/types/disputes.ts
+++ b/src/types/disputes.ts
@@ -1,7 +1,7 @@
 import { SignedBlockEthersType } from "./ethers";
 
 export const FoldRechallengeProofEthersType = `tuple(
-    string encodedBlock,
+    bytes encodedBlock,
     bytes[] signatures
     )`;
 
@@ -11,14 +11,14 @@ export const DoubleSignProofEthersType = `tuple(
 export const IncorrectDataProofEthersType = `tuple(
     ${SignedBlockEthersType} block1,
     ${SignedBlockEthersType} block2,
-    string encodedState
+    bytes encodedState
     )`;
 export const NewerStateProofEthersType = `tuple(
-    string encodedBlock,
-    string confirmationSignature
+    bytes encodedBlock,
+    bytes confirmationSignature
     )`;
 export const FoldPriorBlockProofEthersType = `tuple(
-    uint moveCnt
+    uint transactionCnt
     )`;
 export const BlockTooFarInFutureProofEthersType = `tuple(
     ${SignedBlockEthersType} block1
-- 
2.43.0


From b95f277fde8601893728a8d6c7371d76e51cee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 23/68] fix: a dispute without timeout names the zero address

"0x00" is not an address, the call could not even be encoded.
---
 src/DisputeHandler.ts                 | 2 +-
 src/stateManager/StateManager.ts      | 4 ++--
 src/stateManager/ValidationService.ts | 9 ++++++---
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index e2b34d7..5a5e4e8 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -13,7 +13,7 @@ import ProofManager from "./ProofManager";
 let DEBUG_DISPUTE_HANDLER = true;
 
 // Constants for commonly used values
-const NO_PARTICIPANT_TO_FOLD = "0x00";
+const NO_PARTICIPANT_TO_FOLD = ethers.ZeroAddress;
 const INITIAL_TRANSACTION_COUNT = 0;
 
 type ForkCnt = number;
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 1395372..0e84a83 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -147,7 +147,7 @@ class StateManager {
                 ]);
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                ethers.ZeroAddress,
                 0,
                 [disputeProof]
             );
@@ -159,7 +159,7 @@ class StateManager {
                 );
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                ethers.ZeroAddress,
                 0,
                 [disputeProof]
             );
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 7b9d806..75dd1d4 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -205,9 +205,12 @@ export default class ValidationService {
         );
         if (flag === ExecutionFlags.DISPUTE) {
             const proof = ProofManager.createBlockTooFarInFutureProof(signed);
-            this.disputeHandler.createDispute(this.getForkCnt(), "0x00", 0, [
-                proof
-            ]);
+            this.disputeHandler.createDispute(
+                this.getForkCnt(),
+                ethers.ZeroAddress,
+                0,
+                [proof]
+            );
         }
         return flag;
     }
-- 
2.43.0


From b8de4932847d41ce7a51babbb8de77c7e123aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 24/68] fix: challenge the dispute that is in place

The contract takes the challengeCnt it has recorded, the client sent the one
after it, so no challenge was ever accepted.
---
 src/DisputeHandler.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 5a5e4e8..a55f1e9 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -281,7 +281,7 @@ class DisputeHandler {
                 .challengeDispute(
                     this.channelId,
                     dispute.forkCnt,
-                    Number(dispute.challengeCnt) + 1,
+                    dispute.challengeCnt,
                     proofs,
                     virtualVotingBlocks,
                     encodedLatestFinalizedState,
-- 
2.43.0


From dec792eb69c929aeed312dc39cab53f528e6c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 25/68] fix: recognise the rechallenge of a timeout read from
 the chain

A number was compared with a bigint by identity, so the proof was always dropped.
---
 src/ProofManager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 600e34e..a77e41d 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -217,7 +217,7 @@ class ProofManager {
         const block = EvmUtils.decodeBlock(foldRechallengeProof.encodedBlock);
         const sameTransactionCnt =
             Number(block.transaction.header.transactionCnt) ===
-            dispute.foldedTransactionCnt;
+            Number(dispute.foldedTransactionCnt);
         const sameParticipant =
             block.transaction.header.participant ===
             dispute.timedoutParticipant;
-- 
2.43.0


From 6d9898ae042c88df333803ebf3ea22903a6e2d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 26/68] fix: prove a newer state with any block the disputer
 signed

The contract takes the disputer's signature on any later block, also when the
disputer posted no votes; the client kept only blocks the disputer had written,
and none against a dispute without votes.
---
 src/DisputeHandler.ts |  2 +-
 src/ProofManager.ts   | 40 +++++++++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index a55f1e9..875b247 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -333,7 +333,7 @@ class DisputeHandler {
     }
 
     private getLastTransactionCount(dispute: DisputeStruct): number {
-        if (dispute.virtualVotingBlocks.length === 0) return 0;
+        if (dispute.virtualVotingBlocks.length === 0) return -1;
 
         // Extract from the last block
         const lastBlock = EvmUtils.decodeBlock(
diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index a77e41d..fc0fed8 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -1,4 +1,10 @@
-import { ethers, AddressLike, BigNumberish, BytesLike } from "ethers";
+import {
+    ethers,
+    AddressLike,
+    BigNumberish,
+    BytesLike,
+    SignatureLike
+} from "ethers";
 import * as dt from "@typechain-types/contracts/V1/DisputeTypes";
 import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { getEthersTypeForDisputeProof, ProofType } from "@/types/disputes";
@@ -270,27 +276,31 @@ class ProofManager {
         ) as dt.NewerStateProofStruct;
 
         const block = EvmUtils.decodeBlock(newerStateProof.encodedBlock);
-
-        if (dispute.virtualVotingBlocks.length === 0) return false;
-
-        const latestBlock = EvmUtils.decodeBlock(
-            dispute.virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
-                .encodedBlock
+        // The disputer may have written the block or just confirmed it
+        const signer = EvmUtils.retrieveSignerAddressBlock(
+            block,
+            newerStateProof.confirmationSignature as SignatureLike
         );
 
-        const latestTransactionCnt = Number(
-            latestBlock.transaction.header.transactionCnt
-        );
+        // No votes -> the disputer claims not to have signed any block
+        let latestTransactionCnt = -1;
+        if (dispute.virtualVotingBlocks.length > 0) {
+            const latestBlock = EvmUtils.decodeBlock(
+                dispute.virtualVotingBlocks[
+                    dispute.virtualVotingBlocks.length - 1
+                ].encodedBlock
+            );
+            latestTransactionCnt = Number(
+                latestBlock.transaction.header.transactionCnt
+            );
+        }
         const currentTransactionCnt = Number(
             block.transaction.header.transactionCnt
         );
 
         return (
-            !dispute.slashedParticipants.includes(
-                block.transaction.header.participant
-            ) &&
-            block.transaction.header.participant ===
-                dispute.postedStateDisputer &&
+            !dispute.slashedParticipants.includes(signer) &&
+            signer === dispute.postedStateDisputer &&
             currentTransactionCnt > latestTransactionCnt
         );
     }
-- 
2.43.0


From f65a590159df6df97e5ac2c9a754aea4f3d0a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 27/68] fix: a block takes its place in the chain under the
 lock

fork and height were read before waiting for the lock, so a block could be
signed for a height that is already taken, and on a disputed fork.
---
 src/stateManager/StateManager.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 0e84a83..c223dbd 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -316,6 +316,12 @@ class StateManager {
             if (!this.isChannelOpen()) {
                 throw new Error("Channel not open");
             }
+            if (this.disputeHandler.isForkDisputed(this.getForkCnt())) {
+                throw new Error("Fork is disputed");
+            }
+            // Other blocks may have been added while waiting for the lock
+            tx.header.forkCnt = this.getForkCnt();
+            tx.header.transactionCnt = this.getNextBlockHeight();
             if (!(await this.isMyTurn())) {
                 throw new Error(
                     `Not player turn - myAddress: ${String(this.signerAddress)} - nextToWrite: ${await this.stateMachine.getNextToWrite()}`
-- 
2.43.0


From 87cdf3fcdbb88a15189d98fa22d2a8a3cc567443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 28/68] fix: a block that could not be signed leaves the state
 machine as it was

---
 src/stateManager/StateManager.ts | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index c223dbd..e1b65ee 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -329,6 +329,7 @@ class StateManager {
             }
             this.adjustTimestampIfNeeded(tx);
 
+            const previousState = await this.getEncodedState();
             const {
                 success,
                 encodedState,
@@ -342,14 +343,28 @@ class StateManager {
                 );
             }
 
-            const block = await this.createBlock(tx, previousStateHash);
-            const signedBlock = await this.signBlock(block);
-
-            this.agreementManager.addBlock(
-                block,
-                signedBlock.signature as SignatureLike,
-                encodedState
-            );
+            let block: BlockStruct;
+            let signedBlock: SignedBlockStruct;
+            try {
+                block = await this.createBlock(tx, previousStateHash);
+                signedBlock = await this.signBlock(block);
+                if (
+                    this.disputeHandler.isForkDisputed(
+                        Number(tx.header.forkCnt)
+                    )
+                ) {
+                    throw new Error("Fork is disputed");
+                }
+                this.agreementManager.addBlock(
+                    block,
+                    signedBlock.signature as SignatureLike,
+                    encodedState
+                );
+            } catch (error) {
+                // The block was not produced - it must leave no trace
+                await this.stateMachine.setState(previousState);
+                throw error;
+            }
 
             successCallback();
             await this.onSuccessCommon();
-- 
2.43.0


From ab86926c95b4a57b0fd232596ea472c655f322c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 29/68] fix: do not confirm a block on a fork disputed in the
 meantime

With a dispute created while the confirmation was being signed, the peer handed
out the proof that its posted state is not its latest one.
---
 src/evm/P2pSigner.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/evm/P2pSigner.ts b/src/evm/P2pSigner.ts
index c4f0b09..b391c64 100644
--- a/src/evm/P2pSigner.ts
+++ b/src/evm/P2pSigner.ts
@@ -126,6 +126,13 @@ class P2pSigner implements Signer {
     public async confirmBlock(signedBlock: SignedBlockStruct) {
         let block = EvmUtils.decodeBlock(signedBlock.encodedBlock);
         let confirmedBlock = await EvmUtils.signBlock(block, this.signer);
+        // A signature newer than the votes posted in a dispute is slashable
+        if (
+            this.p2pManager.stateManager.disputeHandler.isForkDisputed(
+                Number(block.transaction.header.forkCnt)
+            )
+        )
+            return;
         this.p2pManager.stateManager.agreementManager.confirmBlock(
             block,
             confirmedBlock.signature as SignatureLike
-- 
2.43.0


From 4dd0111672140731e2c6559984080c3aa5c53d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 30/68] fix: adjusting the timestamp of a block does not move
 it into the future

With the latest block written in this very second the next one got a timestamp
ahead of the clock, for which its author can be slashed.
---
 src/stateManager/StateManager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index e1b65ee..865b8c1 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -574,7 +574,7 @@ class StateManager {
         const latestBlockTimestamp =
             this.agreementManager.getLatestBlockTimestamp(this.getForkCnt());
         if (Number(tx.header.timestamp) < latestBlockTimestamp) {
-            tx.header.timestamp = latestBlockTimestamp + 1;
+            tx.header.timestamp = latestBlockTimestamp;
         }
     }
 
-- 
2.43.0


From 7b9af2119556599c5760a4b15097889fdb514760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 31/68] fix: do not sign a block that is too late

The other participants dispute it and its author is slashed.
---
 src/stateManager/StateManager.ts      |  7 +++++++
 src/stateManager/ValidationService.ts | 13 ++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 865b8c1..55534a4 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -328,6 +328,13 @@ class StateManager {
                 );
             }
             this.adjustTimestampIfNeeded(tx);
+            if (
+                !(await this.validationService.isGoodTimestamp({
+                    transaction: tx
+                }))
+            ) {
+                throw new Error("Too late to produce the block");
+            }
 
             const previousState = await this.getEncodedState();
             const {
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 75dd1d4..de52aae 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -2,7 +2,8 @@ import AgreementManager from "@/agreementManager";
 import { ExecutionFlags, TimeConfig, AgreementFlag } from "@/types";
 import {
     BlockStruct,
-    SignedBlockStruct
+    SignedBlockStruct,
+    TransactionStruct
 } from "@typechain-types/contracts/V1/DataTypes";
 import DisputeHandler from "@/DisputeHandler";
 import { AddressLike, BytesLike, ethers, SignatureLike } from "ethers";
@@ -216,10 +217,12 @@ export default class ValidationService {
     }
 
     /* objective / chain timestamp */
-    private async isGoodTimestamp(blk: BlockStruct): Promise<boolean> {
-        const forkCnt = BlockUtils.getFork(blk);
-        const blockHeight = BlockUtils.getHeight(blk);
-        const blockTimestamp = BlockUtils.getTimestamp(blk);
+    public async isGoodTimestamp(blk: {
+        transaction: TransactionStruct;
+    }): Promise<boolean> {
+        const forkCnt = Number(blk.transaction.header.forkCnt);
+        const blockHeight = Number(blk.transaction.header.transactionCnt);
+        const blockTimestamp = Number(blk.transaction.header.timestamp);
 
         const latestTxTs =
             this.agreementManager.getLatestBlockTimestamp(forkCnt);
-- 
2.43.0


From 67a468a0de6852392ef1b928dd344c3b369b474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 32/68] fix: setting the state of a new fork does not
 interleave with blocks

A repeated SetState event put the state machine back to an old genesis state,
and one that arrived while a block was being executed mixed both states.
---
 src/stateManager/StateManager.ts | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 55534a4..70f5c6c 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -213,17 +213,28 @@ class StateManager {
         _timestamp: BigNumberish
     ): Promise<void> {
         console.log("StateManager - SetState", _forkCnt, _timestamp);
-        await this.stateMachine.setState(encodedState);
-        this.agreementManager.newFork(
-            encodedState,
-            await this.stateMachine.getParticipants(),
-            Number(_forkCnt),
-            Number(_timestamp)
-        );
+        await this.mutex.lock();
+        try {
+            //The event can be delivered more than once
+            if (
+                this.isChannelOpen() &&
+                Number(_forkCnt) <= this.getForkCnt()
+            )
+                return;
+            await this.stateMachine.setState(encodedState);
+            this.agreementManager.newFork(
+                encodedState,
+                await this.stateMachine.getParticipants(),
+                Number(_forkCnt),
+                Number(_timestamp)
+            );
 
-        //Try timeout next participant
-        this.p2pEventHooks.onSetState?.();
-        return this.onSuccessCommon();
+            //Try timeout next participant
+            this.p2pEventHooks.onSetState?.();
+            return await this.onSuccessCommon();
+        } finally {
+            this.mutex.unlock();
+        }
     }
 
     // Passes the signedBlock through a verification pipeline and returns an execution flag based on the outcome
-- 
2.43.0


From 3c6c37496bb43d66bf692541522632b62adc208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 33/68] fix: queued confirmations are not lost when their block
 is added first

---
 src/stateManager/StateManager.ts | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 70f5c6c..43b0af2 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -11,6 +11,7 @@ import {
     ethers
 } from "ethers";
 import AgreementManager from "../agreementManager/AgreementManager";
+import { BlockConfirmation } from "../agreementManager/types";
 import { AgreementFlag, ExecutionFlags, TimeConfig } from "@/types";
 import { AStateChannelManagerProxy } from "@typechain-types";
 import {
@@ -184,11 +185,18 @@ class StateManager {
         }
     }
     private async tryConfirmFromQueue(): Promise<void> {
-        //TODO! race condition and skipping a txCount
-        let confirmations = this.agreementManager.tryDequeueConfirmations(
-            this.getForkCnt(),
-            this.getNextBlockHeight()
-        );
+        //The block may have been added while its confirmations were queued
+        const forkCnt = this.getForkCnt();
+        const nextBlockHeight = this.getNextBlockHeight();
+        let confirmations: BlockConfirmation[] = [];
+        for (let height = 0; height <= nextBlockHeight; height++) {
+            confirmations.push(
+                ...this.agreementManager.tryDequeueConfirmations(
+                    forkCnt,
+                    height
+                )
+            );
+        }
 
         for (const confirmation of confirmations) {
             if (
-- 
2.43.0


From e1cb7c8ab11c883dd7112d7ab7ec1bed898af094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 34/68] fix: calls to the local state machine do not overlap

The EVM has a single journal: overlapping calls (a view during a block) mixed
their checkpoints and corrupted the state.
---
 src/evm/ContractExecuter.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/evm/ContractExecuter.ts b/src/evm/ContractExecuter.ts
index 8c2f88e..12c7e60 100644
--- a/src/evm/ContractExecuter.ts
+++ b/src/evm/ContractExecuter.ts
@@ -1,10 +1,13 @@
 import { EVM, EVMResult, ExecResult } from "@ethereumjs/evm";
 import { Address } from "@ethereumjs/util";
 import { BytesLike, ethers } from "ethers";
+import { Mutex } from "@/utils";
 
 export default class ContractExecuter {
     private readonly evm: EVM;
     private readonly contractAddress: Address;
+    // The EVM keeps one journal - calls can't overlap
+    private readonly mutex = new Mutex();
 
     constructor(evm: EVM, contractAddress: Address) {
         this.evm = evm;
@@ -12,6 +15,15 @@ export default class ContractExecuter {
     }
 
     async executeCall(data: BytesLike): Promise<ExecResult> {
+        await this.mutex.lock();
+        try {
+            return await this.runCall(data);
+        } finally {
+            this.mutex.unlock();
+        }
+    }
+
+    private async runCall(data: BytesLike): Promise<ExecResult> {
         const result = await this.evm.runCall({
             data: ethers.getBytes(data),
             to: this.contractAddress
-- 
2.43.0


From 821348500d970eb056458c83719bee052b93131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 35/68] fix: a view leaves the local state machine as it was

contract.method.staticCall() changed the replica outside of any block.
---
 src/evm/ContractExecuter.ts | 15 +++++++++++++++
 src/evm/EvmStateMachine.ts  |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/evm/ContractExecuter.ts b/src/evm/ContractExecuter.ts
index 12c7e60..392b9c7 100644
--- a/src/evm/ContractExecuter.ts
+++ b/src/evm/ContractExecuter.ts
@@ -23,6 +23,21 @@ export default class ContractExecuter {
         }
     }
 
+    // Executes the call and discards its effects
+    async executeView(data: BytesLike): Promise<ExecResult> {
+        await this.mutex.lock();
+        try {
+            await this.evm.stateManager.checkpoint();
+            try {
+                return await this.runCall(data);
+            } finally {
+                await this.evm.stateManager.revert();
+            }
+        } finally {
+            this.mutex.unlock();
+        }
+    }
+
     private async runCall(data: BytesLike): Promise<ExecResult> {
         const result = await this.evm.runCall({
             data: ethers.getBytes(data),
diff --git a/src/evm/EvmStateMachine.ts b/src/evm/EvmStateMachine.ts
index bc2cd6e..ed95d19 100644
--- a/src/evm/EvmStateMachine.ts
+++ b/src/evm/EvmStateMachine.ts
@@ -101,7 +101,7 @@ class EvmStateMachine extends AStateMachine {
 
     async runView(tx: ethers.TransactionRequest): Promise<string> {
         try {
-            const result = await this.contractExecuter.executeCall(
+            const result = await this.contractExecuter.executeView(
                 tx.data as BytesLike
             );
             return hexlify(result.returnValue);
-- 
2.43.0


From 33260d90c1e5977b2a9af9ff1c9d28f7a8ee9930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 36/68] fix: the answer to a handshake goes to the peer that
 asked

The sender was looked up after signing, when it may be another peer.
---
 src/rpc/services/InitHandshakeService.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 8450d8b..c09ef8e 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -31,6 +31,8 @@ class InitHandshakeService extends ARpcService {
     }
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
+        let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
+        if (!senderTransport) throw new Error("senderTransport is undefined");
         let localTime = Clock.getTimeInSeconds();
         if (
             Math.abs(time - localTime) >
@@ -63,7 +65,7 @@ class InitHandshakeService extends ARpcService {
                 localTime,
                 this.mainRpcService.p2pManager.preferredTransport
             )
-            .sendOne(this.mainRpcService.senderTransport!);
+            .sendOne(senderTransport);
     }
 
     public async onInitHandshakeResponse(
-- 
2.43.0


From 18aa6d8e5acfd88056420736631ba5737ce1c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 37/68] fix: a handshake does not sign arbitrary hashes

The challenge was signed as is: a peer could send the hash of a block (or of a
JoinChannel) as its challenge and got it signed.
---
 src/rpc/services/InitHandshakeService.ts | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index c09ef8e..d53708e 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -11,6 +11,13 @@ type ConnectionChallenge = {
     initTime: number;
 };
 
+// Everything else that gets signed is a 32 byte hash - a challenge must never pass for one
+function handshakeMessage(challengeHash: string): string {
+    if (!ethers.isHexString(challengeHash, 32))
+        throw new Error("InitHandshake - challenge is not a 32 byte hash");
+    return `state-channels-plus handshake ${challengeHash}`;
+}
+
 class InitHandshakeService extends ARpcService {
     private mapTransportToChallenge: WeakMap<ATransport, ConnectionChallenge> =
         new WeakMap<ATransport, ConnectionChallenge>();
@@ -53,10 +60,9 @@ class InitHandshakeService extends ARpcService {
         console.log(
             `onInitHandshakeRequest - localTime:${localTime} time:${time}`
         );
-        let challengeHashBytes = ethers.getBytes(challengeHash);
         let signature =
             await this.mainRpcService.p2pManager.p2pSigner.signMessage(
-                challengeHashBytes
+                handshakeMessage(challengeHash)
             );
         console.log(`onInitHandshakeRequest - done`);
         this.mainRpcService.rpcProxy
@@ -101,8 +107,10 @@ class InitHandshakeService extends ARpcService {
             return;
         }
         //verify signature
-        let challengeHashBytes = ethers.getBytes(challenge.randomChallengeHash);
-        let signerAddress = ethers.verifyMessage(challengeHashBytes, signature);
+        let signerAddress = ethers.verifyMessage(
+            handshakeMessage(challenge.randomChallengeHash),
+            signature
+        );
         // let p =
         //     this.p2pManager.profileManager.getProfileByEvmAddress(
         //         signerAddress
-- 
2.43.0


From 14ad7fc5ba7a737bbae67d352df89bc303aa7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 38/68] fix: a repeated handshake does not close its connection

---
 src/ProfileManager.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ProfileManager.ts b/src/ProfileManager.ts
index d47d212..309c91d 100644
--- a/src/ProfileManager.ts
+++ b/src/ProfileManager.ts
@@ -37,7 +37,8 @@ class ProfileManager {
         let profile = this.mapEvmAddressToProfile.get(profileAddress);
         if (!profile) return;
         let oldTransport = profile.getTransport();
-        if (oldTransport) this.removeTransport(oldTransport);
+        if (oldTransport && oldTransport !== newTransport)
+            this.removeTransport(oldTransport);
         profile.setTransport(newTransport);
         this.mapTransportToProfile.set(newTransport, profile);
     }
-- 
2.43.0


From d61635bb6af009e3d20979e8ea02ab28bec285fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 39/68] fix: ICE candidates go to the peer they are meant for

The sender was looked up when the candidate was found, when it may be another peer.
---
 src/rpc/services/WebRTCSetupService.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rpc/services/WebRTCSetupService.ts b/src/rpc/services/WebRTCSetupService.ts
index c6d88ce..ae28f5e 100644
--- a/src/rpc/services/WebRTCSetupService.ts
+++ b/src/rpc/services/WebRTCSetupService.ts
@@ -22,17 +22,17 @@ class WebRTCSetupService extends ARpcService {
                 this.mainRpcService.p2pManager
             );
 
+            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             // Handle ICE candidates
             connection.onicecandidate = (event: any) => {
                 if (event.candidate) {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
-                        .sendOne(this.mainRpcService.senderTransport!);
+                        .sendOne(senderTransport!);
                 }
             };
 
-            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let offer = await connection.createOffer();
             connection.setLocalDescription(offer);
             let adr =
@@ -54,13 +54,14 @@ class WebRTCSetupService extends ARpcService {
     public async onOfferWebRTC(serializedOffer: string) {
         try {
             let connection = new RTCPeerConnection();
+            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             // Handle ICE candidates
             connection.onicecandidate = (event: any) => {
                 if (event.candidate) {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
-                        .sendOne(this.mainRpcService.senderTransport!);
+                        .sendOne(senderTransport!);
                 }
             };
             connection.ondatachannel = (event: any) => {
@@ -70,7 +71,6 @@ class WebRTCSetupService extends ARpcService {
                     this.mainRpcService.p2pManager
                 );
             };
-            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let adr =
                 this.mainRpcService.p2pManager.profileManager.getProfileByTransport(
                     senderTransport!
-- 
2.43.0


From 71a332a8cbd4db59d77deca25168131ec6cf5c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 40/68] fix: a message that can't be processed does not end the
 process

The promises of the RPC services were dropped: a malformed block or handshake was
an unhandled rejection, which ends the node process.
---
 src/P2PManager.ts         |  7 ++++++-
 src/rpc/MainRpcService.ts | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index 210c330..dbc1948 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -65,7 +65,12 @@ class P2PManager implements IOnMessage {
                 return;
             }
             //TODO! set context - calling socket/profile (ATransport)!
-            this.localRpcService[rpc.method](...rpc.params);
+            Promise.resolve(
+                this.localRpcService[rpc.method](...rpc.params)
+            ).catch((e) => {
+                //TODO - disconnect from peer
+                console.error(e);
+            });
         } catch (e) {
             //TODO - disconnect from peer
             console.error(e);
diff --git a/src/rpc/MainRpcService.ts b/src/rpc/MainRpcService.ts
index bf715a8..c6a7251 100644
--- a/src/rpc/MainRpcService.ts
+++ b/src/rpc/MainRpcService.ts
@@ -51,7 +51,7 @@ class MainRpcService {
     // ********************* InitHandskaheService *********************
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
-        this.initHandshakeService.onInitHandshakeRequest(challengeHash, time);
+        return this.initHandshakeService.onInitHandshakeRequest(challengeHash, time);
     }
 
     public async onInitHandshakeResponse(
@@ -59,7 +59,7 @@ class MainRpcService {
         responseTime: number,
         preferredTransport: TransportType
     ) {
-        this.initHandshakeService.onInitHandshakeResponse(
+        return this.initHandshakeService.onInitHandshakeResponse(
             signature,
             responseTime,
             preferredTransport
@@ -68,33 +68,33 @@ class MainRpcService {
 
     // ********************* WebRTCSetupService *********************
     public async onOfferWebRTC(offer: string) {
-        this.webRTCSetunService.onOfferWebRTC(offer);
+        return this.webRTCSetunService.onOfferWebRTC(offer);
     }
 
     public async onAnswerWebRTC(answer: string) {
-        this.webRTCSetunService.onAnswerWebRTC(answer);
+        return this.webRTCSetunService.onAnswerWebRTC(answer);
     }
 
     public async onIceCandidate(serializedCandidate: string) {
-        this.webRTCSetunService.onIceCandidate(serializedCandidate);
+        return this.webRTCSetunService.onIceCandidate(serializedCandidate);
     }
 
     // ********************* TESTJoinChannelService - TODO! TEST this is only for test *********************
     public async onSignJoinChannelTEST(jcEncoded: string, jcSignature: string) {
-        this.testJoinChannelService.onSignJoinChannelTEST(
+        return this.testJoinChannelService.onSignJoinChannelTEST(
             jcEncoded,
             jcSignature
         );
     }
     // ********************* DHTDiscoveryService - DHT discovery, common topic, leader introduction to specific channelID *********************
     public async onCanJoinLeaderRequest() {
-        this.dhtDiscoveryService.onCanJoinLeaderRequest();
+        return this.dhtDiscoveryService.onCanJoinLeaderRequest();
     }
     public async onCanJoinLeaderResponse(
         channelId: BytesLike,
         participants: AddressLike[]
     ) {
-        this.dhtDiscoveryService.onCanJoinLeaderResponse(
+        return this.dhtDiscoveryService.onCanJoinLeaderResponse(
             channelId,
             participants
         );
@@ -104,7 +104,7 @@ class MainRpcService {
         signedJoinChannel: SignedJoinChannelStruct,
         confirmationSignature?: SignatureLike
     ) {
-        this.joinChannelService.onJoinChannelRequest(
+        return this.joinChannelService.onJoinChannelRequest(
             signedJoinChannel,
             confirmationSignature
         );
@@ -112,14 +112,14 @@ class MainRpcService {
 
     // ********************* StateTransitionService *********************
     public async onSignedBlock(signedBlock: SignedBlockStruct) {
-        this.stateTransitionService.onSignedBlock(signedBlock);
+        return this.stateTransitionService.onSignedBlock(signedBlock);
     }
 
     public async onBlockConfirmation(
         originalSignedBlock: SignedBlockStruct,
         confirmationSignature: BytesLike
     ) {
-        this.stateTransitionService.onBlockConfirmation(
+        return this.stateTransitionService.onBlockConfirmation(
             originalSignedBlock,
             confirmationSignature
         );
-- 
2.43.0


From ba60d9a0890a21296d96151bc9fbca16e3a8d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 41/68] fix: a dispute that fails does not end the process

Disputes go on in the background, their rejections were unhandled.
---
 src/stateManager/StateManager.ts              | 32 +++++++++++--------
 src/stateManager/ValidationService.ts         | 11 +++----
 .../processExecutionDecisionHandlers.ts       |  8 +++--
 3 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 43b0af2..3aec154 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -125,7 +125,9 @@ class StateManager {
     }
     //Triggered by the On-chain Event Listener when a dispute is emitted on-chain
     public onDisputeUpdate(dispute: DisputeStruct) {
-        this.disputeHandler.onDispute(dispute);
+        this.disputeHandler
+            .onDispute(dispute)
+            .catch((e) => console.error("onDispute", e));
         this.p2pEventHooks.onDisputeUpdate?.(dispute);
     }
     //Triggered by the On-chain Event Listener when block calldata is posted on-chain
@@ -146,24 +148,28 @@ class StateManager {
                 this.disputeHandler.proofManager.createDoubleSignProof([
                     signedBlock
                 ]);
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                ethers.ZeroAddress,
-                0,
-                [disputeProof]
-            );
+            this.disputeHandler
+                .createDispute(
+                    block.transaction.header.forkCnt,
+                    ethers.ZeroAddress,
+                    0,
+                    [disputeProof]
+                )
+                .catch((e) => console.error("createDispute", e));
         } else if (flag == AgreementFlag.INCORRECT_DATA) {
             console.log("StateManager - collectOnChainBlock - incorrect data");
             disputeProof =
                 this.disputeHandler.proofManager.createIncorrectDataProof(
                     signedBlock
                 );
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                ethers.ZeroAddress,
-                0,
-                [disputeProof]
-            );
+            this.disputeHandler
+                .createDispute(
+                    block.transaction.header.forkCnt,
+                    ethers.ZeroAddress,
+                    0,
+                    [disputeProof]
+                )
+                .catch((e) => console.error("createDispute", e));
         }
         console.log("StateManager - collectOnChainBlock - done");
         this.onSuccessCommon();
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index de52aae..609d68c 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -206,12 +206,11 @@ export default class ValidationService {
         );
         if (flag === ExecutionFlags.DISPUTE) {
             const proof = ProofManager.createBlockTooFarInFutureProof(signed);
-            this.disputeHandler.createDispute(
-                this.getForkCnt(),
-                ethers.ZeroAddress,
-                0,
-                [proof]
-            );
+            this.disputeHandler
+                .createDispute(this.getForkCnt(), ethers.ZeroAddress, 0, [
+                    proof
+                ])
+                .catch((e) => console.error("createDispute", e));
         }
         return flag;
     }
diff --git a/src/stateManager/processExecutionDecisionHandlers.ts b/src/stateManager/processExecutionDecisionHandlers.ts
index 117cb4e..e3075e1 100644
--- a/src/stateManager/processExecutionDecisionHandlers.ts
+++ b/src/stateManager/processExecutionDecisionHandlers.ts
@@ -19,10 +19,14 @@ const disputeHandlers: Partial<
     >
 > = {
     [AgreementFlag.DOUBLE_SIGN]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeDoubleSign([signedBlock]);
+        ctx.disputeHandler
+            .disputeDoubleSign([signedBlock])
+            .catch((e) => console.error("disputeDoubleSign", e));
     },
     [AgreementFlag.INCORRECT_DATA]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeIncorrectData(signedBlock);
+        ctx.disputeHandler
+            .disputeIncorrectData(signedBlock)
+            .catch((e) => console.error("disputeIncorrectData", e));
     }
 };
 
-- 
2.43.0


From 6a987297df5a3034f8f4dc25e5f67c62cad79179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 42/68] fix: one bad queued message does not drop the others

The queue is emptied first: whatever was behind a block or confirmation that threw
was lost, and the rejection was unhandled.
---
 src/stateManager/StateManager.ts | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 3aec154..73342b6 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -182,11 +182,15 @@ class StateManager {
 
         for (const signedBlock of signedBlocks) {
             console.log("tryExecuteFromQueue - executing");
-            if (
-                (await this.onSignedBlock(signedBlock)) ==
-                ExecutionFlags.DISPUTE
-            ) {
-                break;
+            try {
+                if (
+                    (await this.onSignedBlock(signedBlock)) ==
+                    ExecutionFlags.DISPUTE
+                ) {
+                    break;
+                }
+            } catch (e) {
+                console.error("tryExecuteFromQueue", e);
             }
         }
     }
@@ -205,13 +209,17 @@ class StateManager {
         }
 
         for (const confirmation of confirmations) {
-            if (
-                (await this.onBlockConfirmation(
-                    confirmation.originalSignedBlock,
-                    confirmation.confirmationSignature as string
-                )) == ExecutionFlags.DISPUTE
-            ) {
-                break;
+            try {
+                if (
+                    (await this.onBlockConfirmation(
+                        confirmation.originalSignedBlock,
+                        confirmation.confirmationSignature as string
+                    )) == ExecutionFlags.DISPUTE
+                ) {
+                    break;
+                }
+            } catch (e) {
+                console.error("tryConfirmFromQueue", e);
             }
         }
     }
-- 
2.43.0


From 82d5ed63e14e24ff61a68c1370cc4baac8aeb345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 43/68] fix: calldata posted for a fork that is not known yet
 does not throw

---
 src/agreementManager/OnChainTracker.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/agreementManager/OnChainTracker.ts b/src/agreementManager/OnChainTracker.ts
index cd7ec3a..d56fa2c 100644
--- a/src/agreementManager/OnChainTracker.ts
+++ b/src/agreementManager/OnChainTracker.ts
@@ -35,7 +35,11 @@ export default class OnChainTracker {
         const { forkCnt, height } = BlockUtils.getCoordinates(blk);
         const participant = BlockUtils.getBlockAuthor(blk);
 
-        if (!this.hasPosted(forkCnt, height, participant)) {
+        //The fork itself may not be known yet
+        if (
+            this.forks.getFork(forkCnt) &&
+            !this.hasPosted(forkCnt, height, participant)
+        ) {
             this.forks.addChainBlock(forkCnt, height, participant, timestamp);
         }
         return flag;
-- 
2.43.0


From 289e7aaf76ca1370f08c3472c9f8dfdd154d94e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 44/68] fix: calldata posted by strangers does not stop the
 channel

Anyone can post a block. One by a stranger led to a dispute that nobody can win and
to a fork marked as disputed, where nothing is signed any more.
---
 src/stateManager/StateManager.ts | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 73342b6..f9340a3 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -23,7 +23,13 @@ import DisputeHandler from "@/DisputeHandler";
 import P2PManager from "@/P2PManager";
 
 import AStateMachine from "@/AStateMachine";
-import { EvmUtils, DebugProxy, Mutex, scheduleTask } from "@/utils";
+import {
+    BlockUtils,
+    EvmUtils,
+    DebugProxy,
+    Mutex,
+    scheduleTask
+} from "@/utils";
 import StateChannelEventListener from "@/StateChannelEventListener";
 
 import P2pEventHooks from "@/P2pEventHooks";
@@ -142,7 +148,13 @@ class StateManager {
         );
         let block = EvmUtils.decodeBlock(signedBlock.encodedBlock);
         let disputeProof: ProofStruct;
-        if (flag == AgreementFlag.DOUBLE_SIGN) {
+        // Anyone can post - only a participant of the fork can be disputed
+        const isDisputable =
+            BlockUtils.getFork(block) === this.getForkCnt() &&
+            this.agreementManager.isParticipantInLatestFork(
+                BlockUtils.getBlockAuthor(block)
+            );
+        if (isDisputable && flag == AgreementFlag.DOUBLE_SIGN) {
             console.log("StateManager - collectOnChainBlock - double sign");
             disputeProof =
                 this.disputeHandler.proofManager.createDoubleSignProof([
@@ -156,7 +168,7 @@ class StateManager {
                     [disputeProof]
                 )
                 .catch((e) => console.error("createDispute", e));
-        } else if (flag == AgreementFlag.INCORRECT_DATA) {
+        } else if (isDisputable && flag == AgreementFlag.INCORRECT_DATA) {
             console.log("StateManager - collectOnChainBlock - incorrect data");
             disputeProof =
                 this.disputeHandler.proofManager.createIncorrectDataProof(
@@ -172,7 +184,9 @@ class StateManager {
                 .catch((e) => console.error("createDispute", e));
         }
         console.log("StateManager - collectOnChainBlock - done");
-        this.onSuccessCommon();
+        this.onSuccessCommon().catch((e) =>
+            console.error("collectOnChainBlock", e)
+        );
     }
     private async tryExecuteFromQueue() {
         let signedBlocks = this.agreementManager.tryDequeueBlocks(
-- 
2.43.0


From 627eef6a772419634454071c5ea8706c93471a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 45/68] fix: a participant who produced the block is not timed
 out

The delayed timeout did not look again before it disputed, and a block that was
merely not signed by everyone was no reason not to. A channel stopped there: the
fork counts as disputed from then on.
---
 src/stateManager/StateManager.ts | 62 +++++++++++++++-----------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index f9340a3..38cd4db 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -471,10 +471,9 @@ class StateManager {
         participantAdr: string
     ) {
         if (participantAdr == this.signerAddress) return;
-        const block = this.agreementManager.getBlock(forkCnt, transactionCnt);
-        if (block) {
-            if (this.agreementManager.didEveryoneSignBlock(block)) return;
-        }
+        // The fork is over or the participant did transition the state
+        if (forkCnt !== this.getForkCnt()) return;
+        if (this.agreementManager.getBlock(forkCnt, transactionCnt)) return;
         //if there is no block -> check if player posted on chain and try timeout
         if (
             this.agreementManager.didParticipantPostOnChain(
@@ -484,15 +483,6 @@ class StateManager {
             )
         )
             return;
-        if (
-            Clock.getTimeInSeconds() <
-            this.agreementManager.getChainLatestBlockTimestamp(
-                forkCnt,
-                transactionCnt
-            ) +
-                this.getTimeoutWaitTimeSeconds()
-        )
-            return;
         const response =
             await this.stateChannelManagerContract.getBlockCallData(
                 this.channelId,
@@ -505,33 +495,37 @@ class StateManager {
         const delayTimeSeconds =
             this.getTimeoutWaitTimeSeconds() -
             (Clock.getTimeInSeconds() -
-                this.agreementManager.getLatestBlockTimestamp(forkCnt));
-        if (delayTimeSeconds < 0) {
-            this.disputeHandler.createDispute(
-                forkCnt,
-                participantAdr,
-                transactionCnt,
-                []
-            );
-            console.log("Timeout participant!");
-        } else {
+                this.agreementManager.getLatestTimestamp(
+                    forkCnt,
+                    transactionCnt
+                ));
+        if (delayTimeSeconds >= 0) {
+            // The participant still has time - check everything again later
             scheduleTask(
-                async () => {
-                    this.disputeHandler.createDispute(
+                () =>
+                    this.tryTimeoutParticipant(
                         forkCnt,
-                        participantAdr,
                         transactionCnt,
-                        []
-                    );
-                    console.log(
-                        "Timeout participant! - delayed",
-                        delayTimeSeconds
-                    );
-                },
-                delayTimeSeconds * 1000,
+                        participantAdr
+                    ),
+                (delayTimeSeconds + 1) * 1000,
                 "timeoutParticipantDelayed"
             );
+            return;
         }
+        // The block may have arrived while waiting for the chain
+        if (
+            forkCnt !== this.getForkCnt() ||
+            this.agreementManager.getBlock(forkCnt, transactionCnt)
+        )
+            return;
+        console.log("Timeout participant!");
+        await this.disputeHandler.createDispute(
+            forkCnt,
+            participantAdr,
+            transactionCnt,
+            []
+        );
     }
 
     private async onSuccessCommon() {
-- 
2.43.0


From 3540acaa57d676177bf4509908651b5057e038a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 46/68] fix: a refused dispute does not stop the fork

The fork stayed marked as disputed: the participant signed nothing any more and was
itself timed out next.
---
 src/DisputeHandler.ts | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 875b247..c9a7a86 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -160,12 +160,17 @@ class DisputeHandler {
         proofs.forEach((proof) => this.addProof(forkCntNumber, proof));
         const _dispute = this.disputes.get(forkCntNumber);
         if (!_dispute) {
-            await this.createNewDispute(
-                forkCnt,
-                foldedParticipant,
-                foldedTransactionCnt,
-                proofs
-            );
+            try {
+                await this.createNewDispute(
+                    forkCnt,
+                    foldedParticipant,
+                    foldedTransactionCnt,
+                    proofs
+                );
+            } catch (error) {
+                await this.onDisputeRefused(forkCntNumber, error);
+                throw error;
+            }
         }
 
         const newDispute = await this.stateChannelManagerContract.getDispute(
@@ -180,6 +185,22 @@ class DisputeHandler {
         await this.rechallengeRecursive(newDispute);
     }
 
+    // The contract refused the dispute - unless someone else disputed the fork it goes on
+    private async onDisputeRefused(
+        forkCnt: number,
+        error: unknown
+    ): Promise<void> {
+        if (!ethers.isError(error, "CALL_EXCEPTION")) return;
+        const dispute = await this.stateChannelManagerContract.getDispute(
+            this.channelId
+        );
+        if (
+            dispute.channelId === ethers.ZeroHash ||
+            Number(dispute.forkCnt) !== forkCnt
+        )
+            this.disputedForks.delete(forkCnt);
+    }
+
     private async createNewDispute(
         forkCnt: BigNumberish,
         foldedParticipant: AddressLike,
-- 
2.43.0


From 2c898ff1ee2ff37874ede69e736cf86c9c2ff112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 47/68] fix: proofs are submitted to a dispute that is already
 known

A dispute is challenged only when it is seen for the first time, so a proof that was
found later, or in a dispute that lost the race, was never submitted.
---
 src/DisputeHandler.ts | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index c9a7a86..65421b0 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -158,8 +158,8 @@ class DisputeHandler {
         //TODO! stop signing for the current fork
         this.setForkDisputed(forkCntNumber);
         proofs.forEach((proof) => this.addProof(forkCntNumber, proof));
-        const _dispute = this.disputes.get(forkCntNumber);
-        if (!_dispute) {
+        let isAlreadyDisputed = this.disputes.has(forkCntNumber);
+        if (!isAlreadyDisputed) {
             try {
                 await this.createNewDispute(
                     forkCnt,
@@ -169,7 +169,9 @@ class DisputeHandler {
                 );
             } catch (error) {
                 await this.onDisputeRefused(forkCntNumber, error);
-                throw error;
+                // Someone else may have been faster
+                isAlreadyDisputed = this.disputes.has(forkCntNumber);
+                if (!isAlreadyDisputed) throw error;
             }
         }
 
@@ -182,7 +184,8 @@ class DisputeHandler {
                 "DisputeHandler - createDispute - no dispute created"
             );
         }
-        await this.rechallengeRecursive(newDispute);
+        // The proofs are not part of a dispute someone else created
+        await this.rechallengeRecursive(newDispute, isAlreadyDisputed);
     }
 
     // The contract refused the dispute - unless someone else disputed the fork it goes on
@@ -280,8 +283,11 @@ class DisputeHandler {
         return false;
     }
 
-    private async rechallengeRecursive(dispute: DisputeStruct): Promise<void> {
-        if (!this.updateDisputeIfNewer(dispute)) {
+    private async rechallengeRecursive(
+        dispute: DisputeStruct,
+        hasNewProofs: boolean = false
+    ): Promise<void> {
+        if (!this.updateDisputeIfNewer(dispute) && !hasNewProofs) {
             return; // Early return if we already have a newer dispute
         }
 
-- 
2.43.0


From 0a56204ce9ee02b2bad31aa1728668a483fa231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 48/68] fix: count the signatures on a JoinChannel request

The own signature was filed under the address of the joiner and the signature the
request came with was dropped, so the signatures were never complete.
---
 src/rpc/services/JoinChannelService.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index c69272d..840f047 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -43,7 +43,8 @@ class JoinChannelService extends ARpcService {
                     this.mainRpcService.p2pManager.p2pSigner
                 );
                 this.joinChannelMap.tryInsert(key, {
-                    signerAddress: jc.participant.toString(),
+                    signerAddress:
+                        this.mainRpcService.p2pManager.p2pSigner.signerAddress.toString(),
                     signature: mySignedJC.signature as SignatureLike
                 });
                 this.mainRpcService.rpcProxy
@@ -55,7 +56,6 @@ class JoinChannelService extends ARpcService {
                 setTimeout(() => {
                     this.joinChannelMap.delete(key); // prune expired
                 }, timeRemaining * 1000);
-                return;
             }
             //confirmation logic
             if (!confirmationSignature) return;
-- 
2.43.0


From 0e74989203a1d2b048f186518a4e34a37c2442bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 49/68] fix: accept blocks and signatures only the way the
 contract accepts them

A padded block or a compact signature is fine for ethers. The contract refuses
them, and with them every dispute they are evidence in.
---
 src/stateManager/ValidationService.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 609d68c..7a19ae2 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -140,6 +140,8 @@ export default class ValidationService {
             }
         }
 
+        if (!this.isCanonicalSignature(confirmationSig)) return disconnect();
+
         /* confirmer inside fork */
         const confirmer = EvmUtils.retrieveSignerAddressBlock(
             blk,
@@ -271,12 +273,22 @@ export default class ValidationService {
         );
     }
 
+    private isCanonicalSignature(signature: BytesLike): boolean {
+        return (
+            ethers.Signature.from(signature as SignatureLike).serialized ===
+            signature
+        );
+    }
+
     private isSignedBlockAuthentic(
         signed: SignedBlockStruct,
         block: BlockStruct,
         expectedChannelId: BytesLike
     ): boolean {
         if (BlockUtils.getChannelId(block) !== expectedChannelId) return false;
+        // The contract must be able to check what is kept - the block is encoded again then
+        if (EvmUtils.encodeBlock(block) !== signed.encodedBlock) return false;
+        if (!this.isCanonicalSignature(signed.signature)) return false;
 
         const h = ethers.keccak256(signed.encodedBlock);
         const signer = ethers.verifyMessage(
-- 
2.43.0


From e21e7955b14830426137e73d6ad294020b625952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 50/68] fix: keep one signature per participant and block

A participant can make any number of signatures of the same block. All were kept
and sent with every dispute, until it runs out of gas.
---
 src/stateManager/ValidationService.ts | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 7a19ae2..aeff663 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -150,13 +150,8 @@ export default class ValidationService {
         if (!this.agreementManager.isParticipantInLatestFork(confirmer))
             return disconnect();
 
-        /* duplicate sig */
-        if (
-            this.agreementManager.doesSignatureExist(
-                blk,
-                confirmationSig as SignatureLike
-            )
-        )
+        /* one signature per participant - there are many valid ones */
+        if (this.agreementManager.didParticipantSign(blk, confirmer).didSign)
             return duplicate();
 
         return success();
-- 
2.43.0


From db6f2d30c0194430ae0326f315bb3f9980c48fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 51/68] fix: JoinChannelAgreement is encoded the way the
 contract decodes it

---
 src/types/ethers.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/ethers.ts b/src/types/ethers.ts
index d974dba..181becc 100644
--- a/src/types/ethers.ts
+++ b/src/types/ethers.ts
@@ -35,8 +35,10 @@ export const SignedJoinChannelEthersType = `tuple(
 
 export const JoinChannelAgreementEthersType = `tuple(
                   ${SignedJoinChannelEthersType} signedJoinChannel,
-                  uint nextTransactionCnt,
-                  bytes32 latestStateHash)`;
+                  address submitter,
+                  uint forkCnt,
+                  uint transactionCnt,
+                  bytes32 previousStateHash)`;
 
 export const ConfirmedJoinChannelAgreementEthersType = `tuple(
                     bytes encodedJoinChannelAgreement,
-- 
2.43.0


From a078677e1e1f9c63a9f8c8c73db648f9ee73bc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 52/68] fix: only canonically encoded blocks can be posted

A padded block counted as posted, so its author could not be timed out, but the
clients could not read it as a signed block: the channel was stuck.
---
 .../StateChannelDiamondProxy/AStateChannelManagerProxy.sol   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 9a67f9a..5ac1d73 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -422,6 +422,11 @@ abstract contract AStateChannelManagerProxy is
             bytes(signedBlock.encodedBlock),
             (Block)
         );
+        //Posting protects from a timeout - the block has to be one the others can read
+        require(
+            keccak256(abi.encode(_block)) == keccak256(signedBlock.encodedBlock),
+            "AStateChannelManager: postBlockCalldata encoding invalid"
+        );
         //Check if sender is participant - needed since chainTime will be used as block/tx time in disputes
         require(
             msg.sender == _block.transaction.header.participant,
-- 
2.43.0


From 14aad98c3370a174338d442a09c9f5f6bd5b5a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 53/68] fix: let the gas of dispute transactions be estimated

With four or more virtual voting blocks createDispute needs more than the
hard-coded 4M gas (and challengeDispute more than 2M), so the dispute of a
channel with an unresponsive participant ran out of gas every time.
---
 src/DisputeHandler.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 65421b0..00f5039 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -231,8 +231,7 @@ class DisputeHandler {
                         virtualVotingBlocks,
                         foldedParticipant,
                         foldedTransactionCnt,
-                        proofs,
-                        { gasLimit: 4000000 } //TODO! - gas limit
+                        proofs
                     );
                 console.log("TX HASH ##", txResponse.hash);
                 const txReceipt = await txResponse.wait();
@@ -312,8 +311,7 @@ class DisputeHandler {
                     proofs,
                     virtualVotingBlocks,
                     encodedLatestFinalizedState,
-                    encodedLatestCorrectState,
-                    { gasLimit: 2000000 } //TODO! - gas limit
+                    encodedLatestCorrectState
                 )
                 .then((txResponse) => txResponse.wait());
         } catch (e) {
-- 
2.43.0


From 0a5ddebe937dbf9246ca5146d51e98248256b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 54/68] fix: emit a remote block's application events before
 those of later blocks

The events of a block received from a peer were emitted from a scheduled
task, those of an own block right away: an application that plays from
onTurn got the events of its own block before those of the block it builds on.
---
 src/stateManager/ValidationService.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index aeff663..707d3e9 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -11,7 +11,6 @@ import { AStateChannelManagerProxy } from "@typechain-types/contracts/V1/StateCh
 import {
     BlockUtils,
     EvmUtils,
-    scheduleTask,
     subjectiveTimingFlag
 } from "@/utils";
 import AStateMachine from "@/AStateMachine";
@@ -186,7 +185,8 @@ export default class ValidationService {
             signed.signature as SignatureLike,
             encodedState
         );
-        scheduleTask(successCallback, 0, "stateTransitionSuccessCallback");
+        // Right away - the events of later blocks must not overtake these
+        successCallback();
         return success();
     }
 
-- 
2.43.0


From 693268fcb0c0d5348479051bfda271843b24e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 55/68] fix: try the time-out of a participant again after it
 was refused

While the dispute of the previous fork can still be challenged no new one can
be created. With a challenge time longer than the time-out (as in the default
configuration) the only time-out attempt was refused and the channel stalled.
---
 src/stateManager/StateManager.ts | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 38cd4db..3186742 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -520,12 +520,27 @@ class StateManager {
         )
             return;
         console.log("Timeout participant!");
-        await this.disputeHandler.createDispute(
-            forkCnt,
-            participantAdr,
-            transactionCnt,
-            []
-        );
+        try {
+            await this.disputeHandler.createDispute(
+                forkCnt,
+                participantAdr,
+                transactionCnt,
+                []
+            );
+        } catch (error) {
+            // Refused - possibly an earlier dispute is still in progress
+            scheduleTask(
+                () =>
+                    this.tryTimeoutParticipant(
+                        forkCnt,
+                        transactionCnt,
+                        participantAdr
+                    ),
+                this.getTimeoutWaitTimeSeconds() * 1000,
+                "timeoutParticipantRetry"
+            );
+            throw error;
+        }
     }
 
     private async onSuccessCommon() {
-- 
2.43.0


From 9068991347ab9180217be6667619fbe54f31e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 56/68] fix: do not bring unprovable incorrect-data proofs to
 the chain

A block that builds on another predecessor than ours (its author may have
seen the other half of an equivocation) can't be proven incorrect. The proof
was kept and made the contract refuse every later challenge.
---
 src/DisputeHandler.ts |  9 +++++++++
 src/ProofManager.ts   | 15 +++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 00f5039..b962451 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -8,6 +8,7 @@ import {
 import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { EvmUtils, DebugProxy, retry } from "@/utils";
 import P2pEventHooks from "@/P2pEventHooks";
+import { ProofType } from "@/types/disputes";
 import ProofManager from "./ProofManager";
 
 let DEBUG_DISPUTE_HANDLER = true;
@@ -155,6 +156,14 @@ class DisputeHandler {
         }
 
         const forkCntNumber = Number(forkCnt);
+        // The contract refuses all the proofs if one of them is unprovable
+        const hadProofs = proofs.length > 0;
+        proofs = proofs.filter(
+            (proof) =>
+                proof.proofType !== ProofType.IncorrectData ||
+                ProofManager.isIncorrectDataLinked(proof)
+        );
+        if (hadProofs && proofs.length === 0) return;
         //TODO! stop signing for the current fork
         this.setForkDisputed(forkCntNumber);
         proofs.forEach((proof) => this.addProof(forkCntNumber, proof));
diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index fc0fed8..40a901f 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -266,6 +266,21 @@ class ProofManager {
         );
     }
 
+    // A block can be proven incorrect only on the state it claims to build on
+    public static isIncorrectDataLinked(proof: dt.ProofStruct): boolean {
+        const incorrectDataProof = ProofManager.decodeProof(
+            ProofType.IncorrectData,
+            proof.encodedProof
+        ) as dt.IncorrectDataProofStruct;
+        const block2 = EvmUtils.decodeBlock(
+            incorrectDataProof.block2.encodedBlock
+        );
+        return (
+            block2.previousStateHash ===
+            ethers.keccak256(incorrectDataProof.encodedState)
+        );
+    }
+
     public static isNewerStateValid(
         proof: dt.ProofStruct,
         dispute: dt.DisputeStruct
-- 
2.43.0


From 5640c3e851e11932bf8e928a378b0e7c5a25932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 57/68] fix: a peer whose own answer is reflected at it does
 not take the connection for its own

---
 src/rpc/services/InitHandshakeService.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index d53708e..7622da6 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -111,6 +111,15 @@ class InitHandshakeService extends ARpcService {
             handshakeMessage(challenge.randomChallengeHash),
             signature
         );
+        if (
+            signerAddress ===
+            this.mainRpcService.p2pManager.p2pSigner.signerAddress
+        ) {
+            // our own answer reflected back at us - this proves nothing about the other side
+            // TODO! Disconnect
+            this.mainRpcService.p2pManager.removeConnection(senderTransport);
+            return;
+        }
         // let p =
         //     this.p2pManager.profileManager.getProfileByEvmAddress(
         //         signerAddress
-- 
2.43.0


From efa47b35ddacdf7d257e034a6460da51ad1d6573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 58/68] fix: a broadcast reaches every other connection when
 writing to one of them fails

---
 src/P2PManager.ts     | 7 ++++++-
 src/rpc/RpcHandler.ts | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index dbc1948..53fb0be 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -50,7 +50,12 @@ class P2PManager implements IOnMessage {
     public broadcastRpc(serializedRPC: string) {
         // BroadcastLocal.broadcast(serializedRPC);
         for (let transport of this.openConnections) {
-            transport.send(serializedRPC);
+            try {
+                transport.send(serializedRPC);
+            } catch (e) {
+                // one failing connection must not keep the others from receiving
+                console.error(e);
+            }
         }
     }
     public onRpc(serializedRpc: string) {
diff --git a/src/rpc/RpcHandler.ts b/src/rpc/RpcHandler.ts
index b2f4278..a2ea26d 100644
--- a/src/rpc/RpcHandler.ts
+++ b/src/rpc/RpcHandler.ts
@@ -18,7 +18,12 @@ class RpcHandler {
     }
     public sendMultiple(transports: ATransport[]) {
         transports.forEach((transport) => {
-            transport.send(serializeRpc(this.rpc));
+            try {
+                transport.send(serializeRpc(this.rpc));
+            } catch (e) {
+                // one failing connection must not keep the others from receiving
+                console.error(e);
+            }
         });
     }
 }
-- 
2.43.0


From 53ee92134f051eb4f792c1f5479683aada425b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 59/68] fix: the timer of a far join request deadline does not
 overflow and make peers sign it over and over

---
 src/rpc/services/JoinChannelService.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index 840f047..6d4a45a 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -53,9 +53,13 @@ class JoinChannelService extends ARpcService {
                         mySignedJC.signature as SignatureLike
                     )
                     .broadcast();
-                setTimeout(() => {
-                    this.joinChannelMap.delete(key); // prune expired
-                }, timeRemaining * 1000);
+                // a delay that doesn't fit into 32 bits would fire immediately
+                setTimeout(
+                    () => {
+                        this.joinChannelMap.delete(key); // prune expired
+                    },
+                    Math.min(timeRemaining * 1000, 2 ** 31 - 1)
+                );
             }
             //confirmation logic
             if (!confirmationSignature) return;
-- 
2.43.0


From 27b2dd47e8f65c08b845be7abec4da029e800058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 60/68] fix: a repeated confirmation does not queue a join
 request again

---
 src/rpc/services/JoinChannelService.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index 6d4a45a..0bb49e7 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -70,10 +70,13 @@ class JoinChannelService extends ARpcService {
             let currentParticipants =
                 await this.mainRpcService.p2pManager.stateManager.getParticipantsCurrent();
             if (!currentParticipants.includes(retrivedAddress)) return;
+            let knownConfirmations = this.joinChannelMap.get(key).length;
             this.joinChannelMap.tryInsert(key, {
                 signerAddress: retrivedAddress,
                 signature: confirmationSignature
             });
+            if (this.joinChannelMap.get(key).length === knownConfirmations)
+                return; // a repeated confirmation - already accounted for
 
             if (!this.joinChannelMap.didEveryoneSign(key, currentParticipants))
                 return;
-- 
2.43.0


From 2e554b7197711870e1d0c56a00afc9b73617da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 61/68] fix: an ICE candidate found after the signalling
 connection failed does not raise an unhandled error

---
 src/rpc/services/WebRTCSetupService.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rpc/services/WebRTCSetupService.ts b/src/rpc/services/WebRTCSetupService.ts
index ae28f5e..ba82a2a 100644
--- a/src/rpc/services/WebRTCSetupService.ts
+++ b/src/rpc/services/WebRTCSetupService.ts
@@ -25,11 +25,15 @@ class WebRTCSetupService extends ARpcService {
             let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             // Handle ICE candidates
             connection.onicecandidate = (event: any) => {
-                if (event.candidate) {
+                if (!event.candidate) return;
+                try {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
                         .sendOne(senderTransport!);
+                } catch (e) {
+                    // the connection can be gone by now - nobody awaits this callback
+                    console.log("onicecandidate - error", e);
                 }
             };
 
@@ -57,11 +61,15 @@ class WebRTCSetupService extends ARpcService {
             let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             // Handle ICE candidates
             connection.onicecandidate = (event: any) => {
-                if (event.candidate) {
+                if (!event.candidate) return;
+                try {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
                         .sendOne(senderTransport!);
+                } catch (e) {
+                    // the connection can be gone by now - nobody awaits this callback
+                    console.log("onicecandidate - error", e);
                 }
             };
             connection.ondatachannel = (event: any) => {
-- 
2.43.0


From d9a483d18257a55734e986cc6e25443b35e5858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:35 +0000
Subject: [PATCH 62/68] fix: a block written out of turn is provably incorrect
 even when its transaction does not check the turn

---
 .../StateChannelDiamondProxy/DisputeManagerFacet.sol   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 673fff8..29bd8c7 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -633,10 +633,12 @@ contract DisputeManagerFacet is StateChannelCommon {
             previousTimestamp = block1.transaction.header.timestamp;
         }
 
-        bool success = isGoodTimestampNonDeterministic(
-            previousTimestamp,
-            block2
-        );
+        bool success = block2.transaction.header.participant ==
+            getNextToWrite(
+                dispute.channelId,
+                incorrectDataProof.encodedState
+            ) &&
+            isGoodTimestampNonDeterministic(previousTimestamp, block2);
         bytes memory executedEncodedState;
 
         if (success) {
-- 
2.43.0


From 34bfd3e1f2c05eb2e7724fdb791061dfda918979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 63/68] fix: rechallenge a timeout once, before the other
 proofs cancel it

---
 src/DisputeHandler.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index b962451..94acd49 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -378,10 +378,21 @@ class DisputeHandler {
 
     // Filters valid proofs
     private filterProofs(dispute: DisputeStruct): ProofStruct[] {
-        return ProofManager.filterValidProofs(
+        const proofs = ProofManager.filterValidProofs(
             dispute,
             this.localProofs.get(Number(dispute.forkCnt))
         );
+        // A timeout can be undone only once, and before another proof cancels it
+        const rechallenge = proofs.find(
+            (proof) => proof.proofType === ProofType.FoldRechallenge
+        );
+        if (!rechallenge) return proofs;
+        return [
+            rechallenge,
+            ...proofs.filter(
+                (proof) => proof.proofType !== ProofType.FoldRechallenge
+            )
+        ];
     }
 }
 
-- 
2.43.0


From 8a2ab9cfa85a19d4e65e45ffa9a27429a54c3a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 64/68] fix: a challenge may start before the old finalized
 block if it includes it

---
 .../DisputeManagerFacet.sol                   | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 29bd8c7..a31cc9a 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -280,17 +280,11 @@ contract DisputeManagerFacet is StateChannelCommon {
                 virtualVotingBlocks.length > 0,
                 ErrorChallengeNewFinalizedBeforeOldFinalized()
             );
-            Block memory oldBlock = abi.decode(
-                dispute.virtualVotingBlocks[0].encodedBlock,
-                (Block)
-            );
-            Block memory newBlock = abi.decode(
-                virtualVotingBlocks[0].encodedBlock,
-                (Block)
-            );
             require(
-                newBlock.transaction.header.transactionCnt >=
-                    oldBlock.transaction.header.transactionCnt,
+                keepsFinalizedBlock(
+                    dispute.virtualVotingBlocks[0].encodedBlock,
+                    virtualVotingBlocks
+                ),
                 ErrorChallengeNewFinalizedBeforeOldFinalized()
             );
         }
@@ -309,6 +303,26 @@ contract DisputeManagerFacet is StateChannelCommon {
         emit DisputeUpdated(channelId, dispute);
     }
 
+    //The votes start at the old finalized block or later, or they include it
+    function keepsFinalizedBlock(
+        bytes memory encodedOldBlock,
+        ConfirmedBlock[] memory virtualVotingBlocks
+    ) private pure returns (bool) {
+        Block memory oldBlock = abi.decode(encodedOldBlock, (Block));
+        Block memory newBlock = abi.decode(
+            virtualVotingBlocks[0].encodedBlock,
+            (Block)
+        );
+        uint oldCnt = oldBlock.transaction.header.transactionCnt;
+        uint newCnt = newBlock.transaction.header.transactionCnt;
+        if (newCnt >= oldCnt) return true;
+        //Someone may not have seen all the signatures that made the old block final
+        return
+            oldCnt - newCnt < virtualVotingBlocks.length &&
+            keccak256(virtualVotingBlocks[oldCnt - newCnt].encodedBlock) ==
+            keccak256(encodedOldBlock);
+    }
+
     function applyDisputeToLatestState(Dispute storage dispute) internal {
         bytes memory latestEncodedState = dispute.encodedLatestCorrectState;
         uint successCnt = 0;
-- 
2.43.0


From 30b3e785b0c6ff9801f17aba51d19eca89fc6245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 65/68] fix: a timeout can be rechallenged after its disputer
 was slashed

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol   | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index a31cc9a..e643feb 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -488,11 +488,9 @@ contract DisputeManagerFacet is StateChannelCommon {
         );
         require(succeeds, ErrorSignatureInvalid());
         dispute.timedoutParticipant = address(0); //Undo the fold
-        return
-            insertIfNotExist(
-                dispute.slashedParticipants,
-                dispute.timeoutDisputer
-            );
+        //The disputer may have been slashed already
+        insertIfNotExist(dispute.slashedParticipants, dispute.timeoutDisputer);
+        return true;
     }
 
     function applyDoubleSignProof(
-- 
2.43.0


From b27a493aa35892f827ab009da8d9c645bcebe36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:56 +0000
Subject: [PATCH 66/68] fix: a dispute with votes on top of genesis can be
 challenged without votes

---
 .../DisputeManagerFacet.sol                   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index e643feb..3a29755 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -276,15 +276,18 @@ contract DisputeManagerFacet is StateChannelCommon {
         );
         //No votes -> everyone is still at genesis
         if (dispute.virtualVotingBlocks.length > 0) {
+            //Votes on top of genesis don't finalize a block
             require(
-                virtualVotingBlocks.length > 0,
-                ErrorChallengeNewFinalizedBeforeOldFinalized()
-            );
-            require(
-                keepsFinalizedBlock(
-                    dispute.virtualVotingBlocks[0].encodedBlock,
-                    virtualVotingBlocks
-                ),
+                virtualVotingBlocks.length == 0
+                    ? isGenesisState(
+                        channelId,
+                        forkCnt,
+                        dispute.encodedLatestFinalizedState
+                    )
+                    : keepsFinalizedBlock(
+                        dispute.virtualVotingBlocks[0].encodedBlock,
+                        virtualVotingBlocks
+                    ),
                 ErrorChallengeNewFinalizedBeforeOldFinalized()
             );
         }
-- 
2.43.0


From ff1085ccfa36466a24da83297e2d61c8e1c8b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:19 +0000
Subject: [PATCH 67/68] fix: judge a queued block also when another block took
 its place

---
 src/stateManager/StateManager.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 3186742..750afcd 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -189,10 +189,15 @@ class StateManager {
         );
     }
     private async tryExecuteFromQueue() {
-        let signedBlocks = this.agreementManager.tryDequeueBlocks(
-            this.getForkCnt(),
-            this.getNextBlockHeight()
-        );
+        //Another block may have taken the place of a queued one - still has to be judged
+        const forkCnt = this.getForkCnt();
+        const nextBlockHeight = this.getNextBlockHeight();
+        let signedBlocks: SignedBlockStruct[] = [];
+        for (let height = 0; height <= nextBlockHeight; height++) {
+            signedBlocks.push(
+                ...this.agreementManager.tryDequeueBlocks(forkCnt, height)
+            );
+        }
 
         for (const signedBlock of signedBlocks) {
             console.log("tryExecuteFromQueue - executing");
-- 
2.43.0


From 648c7c01866084dc061e63b6fb9933fe7c75b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:17 +0000
Subject: [PATCH 68/68] fix: confirmations that were queued are passed on once
 they are accepted

---
 src/stateManager/StateManager.ts | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 750afcd..f80b4ec 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -229,14 +229,22 @@ class StateManager {
 
         for (const confirmation of confirmations) {
             try {
-                if (
-                    (await this.onBlockConfirmation(
-                        confirmation.originalSignedBlock,
-                        confirmation.confirmationSignature as string
-                    )) == ExecutionFlags.DISPUTE
-                ) {
+                const flag = await this.onBlockConfirmation(
+                    confirmation.originalSignedBlock,
+                    confirmation.confirmationSignature as string
+                );
+                if (flag == ExecutionFlags.DISPUTE) {
                     break;
                 }
+                //It was not passed on when it was queued
+                if (flag == ExecutionFlags.SUCCESS) {
+                    this.p2pManager.rpcProxy
+                        .onBlockConfirmation(
+                            confirmation.originalSignedBlock,
+                            confirmation.confirmationSignature as string
+                        )
+                        .broadcast();
+                }
             } catch (e) {
                 console.error("tryConfirmFromQueue", e);
             }
-- 
2.43.0

