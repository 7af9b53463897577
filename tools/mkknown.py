#!/usr/bin/env python3
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K=[
 {"property":"B02","sim":"ethy","key":"vote-on-earlier-claim-counted","replay":"known/B02-replayed-vote.json","text":"a notarization signed for a claim that was judged invalid can be delivered again by anyone and counts for a later claim submitted under the same event id (the signed payload names only the id, the authority index and the result)"},
 {"property":"H01","sim":"precompiles","key":"eth-value","replay":"known/H01-eth-value.json","text":"the dex precompile's functions for native XRP (addLiquidityETH, swapExactETHForTokens, swapETHForExactTokens) keep the value sent at the precompile's address and take the amount, in wei read as drops, a second time from the caller; their path need not start with XRP"},
]
F=[
 "fixed: property=X03 b611601 door tickets were handed out again when the next bucket starts below the current sequence",
 "fixed: property=B05 {b05} an eth call on which no consensus is possible was answered with the last vote's return data",
 "fixed: property=B02 {clear} votes of departed notaries made resolving a claim or call fail for ever, bonds stayed held",
 "fixed: property=B02 {norel} a challenge judged valid while no relayer is set was dropped with the challenger's bond held for ever",
 "fixed: property=B01 {stale} a claim resubmitted after an invalid judgement was executed at the block scheduled for the invalid one",
 "fixed: property=P01 {zero} a peg payment delayed by zero blocks was filed under the current block and never paid",
 "fixed: property=P02 {short} a bridge message shorter than its prefix made the nft-peg panic while a block starts",
 "fixed: property=P02 {rest} collections of a message after a blocked one were neither minted nor recorded as claimable",
 "fixed: property=I01 {trunc} the XLS-20 mint fee was truncated to 32 bits, so relayers were underpaid above 4294 XRP",
 "fixed: property=N01 67cf73f an NFT transfer that lists a serial number twice gave the new owner the token twice",
 "fixed: property=M01 1e2be36 tokens of an auction whose settlement failed stayed locked for ever",
 "fixed: property=M01 c194e15 rounded-up royalties of 100% underflowed on a small sale amount",
 "fixed: property=M01 2fbc2de accepting an offer left the other tokens of the listing locked, or the best bid of an auction on hold",
 "fixed: property=M01 509db8e a winning bid of zero could neither be outbid nor settled",
 "fixed: property=C01 9d92987 a sale of zero blocks was never closed and kept what was paid in",
 "fixed: property=C01 7f6a9c9 vouchers of a collection with burned tokens, a bridged or a non-mintable collection could not be redeemed",
 "fixed: property=C01 eb44fc7 a sale that raised nothing stayed open for ever when its administrator held none of the payment asset",
 "fixed: property=C01 58c6326 the refund to the administrator saturated for large funds and took vouchers owed to contributors",
 "fixed: property=A01 10c3772 a batch of transfers or spends whose sum wraps passed the balance check",
 "fixed: property=D01 871dbc1 liquidity added while no fee account was set was charged with the network fee afterwards",
 "fixed: property=V01 2e71838 the event for a new admin named the new one as the old one",
 "fixed: property=V01 c8ddf79 a replaced reward was counted twice, and a sum of rewards could overflow",
 "fixed: property=V01 2ff093b redeeming large vault balances saturated and paid far too little",
 "fixed: property=V01 a8543e1 payout calls for idle cycles kept the workers from ever paying",
 "fixed: property=L01 67dfd17 a contract called by the owner of a futurepass could delegatecall the pass and take it over",
 "fixed: property=L01 e4b802f a delegate of a futurepass could make the pass call its own precompile and manage its delegates or owner",
 "fixed: property=L01 f1f2b78 a proxied call with less than 4 bytes to a futurepass precompile panicked",
 "fixed: property=L01 87022df a delegate who became owner kept its former permission besides the new one",
 "fixed: property=L01 c50cd5d a create2 call without a salt panicked",
 "fixed: property=L01 b3fbec5 the futurepass precompile changed state in static calls and took value for functions that are not payable",
 "fixed: property=H01 c13aca5 burn of the erc721 precompile changed state in static calls",
 "fixed: property=H01 b379d03 a receiver contract that answers onERC721Received or onERC1155Received with less than 4 bytes made the precompile panic",
 "fixed: property=H01 db60540 reRequestXls20Mint with more than 1000 serial numbers panicked",
 "fixed: property=H01 8926c70 XLS20CompatibilityEnabled was logged without its topic",
 "fixed: property=H01 2bdac75 createToken, setMaxSupply, setBaseURI and ownership functions of the erc1155 precompile changed state in static calls",
 "fixed: property=H01 ca7f163 receivers of erc1155 batches were asked with the selector of single transfers",
 "fixed: property=H01 4da7ea9 makeSimpleOffer took marketplace ids modulo 2^32",
 "fixed: property=F01 0daf0f1 an EVM transaction through the fee proxy, or a fee-preference call around an EVM call, with a huge max_fee_per_gas panicked",
 "fixed: property=K01 26d7997 a blocked EVM target could be called through the fee proxy",
 "fixed: property=E01 632b937 a validator set change while an event was pending mixed the indices of two sets and gave its proof the later set's id",
 "fixed: property=E01 429e4d4 with a threshold of 0 (a lone XRPL signer, or none known) a proof without any signature was stored and announced",
 "fixed: property=E02 236e3fe a copy of a witness relabelled with another event id or an old block number made nodes discard the real witness",
 "fixed: property=E01 9375462 XRPL signers set without a change of validators were not noticed",
 "fixed: property=E02 55d7598 a node that completed two later events ignored the witnesses of a pending earlier one",
 "fixed: property=E03 891b1c4 a validator set that could not be read at a change left the old one in force: wrong set id in witnesses and proofs",
 "fixed: property=G01 73b44e3 a migration used more weight than was available",
 "fixed: property=G01 637e793 a migration begun after an abandoned one skipped the entries before that one's last key",
 "fixed: property=S01 09fa2d4 an XRPL transaction with an empty public key panicked the runtime in transaction validation",
 "fixed: property=S01 0fd5d1d a doughnut's limits on amounts did not hold for amounts of 2^64 or more (truncated to 64 bits)",
 "fixed: property=S01 3337fdc a revoked doughnut could be used again with bytes appended to it",
 "fixed: property=S01 c73e10a a revoked doughnut or holder could still charge fees and tips to the issuer",
 "fixed: property=K01 20ce67a maintenance mode and blocked accounts did not apply to calls signed by XRPL wallets or doughnuts",
 "fixed: property=L01 9bc5e6d transferOwnership and renounceOwnership of one pass acted on another pass the caller owns",
 "fixed: property=B06 abce7ff a malformed hex string in an answer of the Ethereum node panicked the notary worker",
 "fixed: property=B06 d76d1f3 a challenge or call a notary had voted on kept it from voting on the ones after it",
 "fixed: property=B06 ddcb674 genuine messages sent with a fee were voted invalid when challenged",
 "fixed: property=B06 560af3a only the first message of an Ethereum transaction could be notarized",
 "fixed: property=U01 {nfi} the NFI migration left the former records behind and converted converted ones again, overwriting other tokens' data",
]
import subprocess
def h(s):
    o=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout
    for l in o.splitlines():
        if s in l: return l.split()[0]
    return "?"
f=dict(nfi=h("NFI migration"),b05=h("eth call without consensus"),clear=h("clear all notarizations"),norel=h("do not drop a challenge"),zero=h("delayed by zero"),short=h("too short to hold"),rest=h("remaining collections"),trunc=h("mint fee to 32"),stale=h("schedule of an earlier, invalid"))
json.dump({"known":K,"fixed":[x.format(**f) for x in F]},open(V+"/known_findings.json","w"),indent=1)
