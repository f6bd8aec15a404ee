import subprocess
m={}
out=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s']).decode().splitlines()
props={
'ce43667':'C10','f7cfc84':'C10','8c25e68':'C09','c5a2f5b':'C10','51131d0':'C10','c24d40b':'C10','aa893e0':'C26','2e7d752':'C26','078ebc9':'C26','e925044':'C26','1fde998':'C10','ff98e56':'C26','fb5ee0f':'C13','7a809a2':'C13','162100a':'C26',
'4e47b9c':'C04','002d42e':'C03','1527567':'C05','eabcd6f':'C04','2bf444c':'C04','3900d3e':'C07','eaedc14':'C07','b95f277':'C07','b8de493':'C22','dec792e':'C08','6d9898a':'C07','f65a590':'C02','87cdf3f':'C04','ab86926':'C02','4dd0111':'C03','7b9af21':'C08','67a468a':'C01','3c6c374':'C05','e1cb7c8':'C17','8213485':'C15','33260d9':'C18','18aa6d8':'C02','14ad7fc':'C18','d61635b':'C19','71a332a':'C04','ba60d9a':'C04','6a98729':'C05','82d5ed6':'C04','289e7aa':'C21','627eef6':'C08','3540aca':'C21','2c898ff':'C22','0a56204':'C20','0e74989':'C04','e21e795':'C04','db6f2d3':'C16','a078677':'C14','14aad98':'C21','0a5ddeb':'C24','693268f':'C21','9068991':'C07','5640c3e':'C18','efa47b3':'C19','53ee921':'C27','27b2dd4':'C27','2e554b7':'C19','d9a483d':'C07','34bfd3e':'C22','8a2ab9c':'C22','30b3e78':'C08','b27a493':'C22','ff1085c':'C22','648c7c0':'C30'}
L=["# Findings on peer3to/state-channels-plus. Lines 'known:' are reported as KNOWN-FINDING by the check of the property;",
"# lines 'fixed:' record defects that were repaired in /repo and suppress nothing.",
"known: property=C24 key=chain-log events that the shared on-chain state machine emits while the contract re-executes a proof's block (DisputeManagerFacet.applyIncorrectDataProof -> executeStateTransitionOnState) reach the listeners on the application's p2pContractInstance of every participant (StateChannelEventListener/P2pInstance subscribe the same address)",
]
L.append("known: property=C21 key=posted-unlinked a participant that posts, for the height at which it is due, a block naming another predecessor state, and then falls silent, can neither be timed out (createDispute takes any posted calldata of that height for an answer, StateManager.tryTimeoutParticipant too) nor be proven wrong (applyIncorrectDataProof only takes blocks that are linked to their predecessor), so the fork goes on only if it wants to")
for p in ('C08','C26'):
    L.append(f"known: property={p} key=fold-prior-block a FoldPriorBlock proof (DisputeManagerFacet.applyFoldPriorBlockProof) names the author of a block below the folded one that all participants may have agreed on, and removes that author as timed out, merely because the block was not posted as calldata")
    L.append(f"known: property={p} key=incorrect-data-forged-prior an IncorrectData proof (DisputeManagerFacet.applyIncorrectDataProof) accepts as predecessor any block that its author signed with the right height and state hash, so whoever signs a second block with the same state hash and another timestamp makes the next author's correct block look untimely and gets it slashed")
for l in out:
    h,s=l.split(' ',1)
    if h in props: L.append(f"fixed: property={props[h]} {h} {s[5:]}")
    elif s.startswith('fix:'): print('missing',l)
open('/verif/known-findings.txt','w').write('\n'.join(L)+'\n')
