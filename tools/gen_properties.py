#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=hook)))

G='ethy-gadget/src/'
E='pallet/ethy/src/'
EG='ethy-gadget/src/'
prop('E01','Event proofs are genuine',
 "Every event proof a node stores, announces or serves is for a request in its finalised chain, under that request's event id, chain, block and validator set. It carries at least the required number (never zero) of distinct, valid signatures over exactly the requested data, by members of the validator set at that block, in order of their index; for XRPL the required number is met by XRPL signers of that block. A stored proof survives crashes, and what the RPC server returns is that proof in the form Ethereum and XRPL check it.",
 ['schedules','histories','fault_sequences','crash_points','inputs'],
 'All orders of finality, gossip, validator and signer changes, crashes, and messages of an adversary holding less than a third of the keys.',
 'Tests feed one record a few witnesses in one order, with one validator set.',
 [EG+'worker.rs',EG+'witness_record.rs','ethy-gadget/rpc/src/lib.rs'],
 [('make proof','ethy-gadget/src/worker.rs try_make_proof'),('consensus','ethy-gadget/src/witness_record.rs has_consensus'),('serving','ethy-gadget/rpc/src/lib.rs')],
 observe=['auxiliary database writes','RPC responses and subscriptions'])
prop('E02','Requested events get their proofs',
 'Once faults stop and enough validators of the set run and are connected, every new signing request is proved at every connected node, and an earlier event that enough validators signed and still hold (they stayed up, the sets are unchanged, its block is recent) is proved by some node. Nothing outsiders or the validators outside the honest majority send can prevent it, and the worker of a node never stops or spins. Excepted are requests with lower numbers than all the events a node has completed since it started, and writes the database refuses.',
 ['schedules','histories','fault_sequences','crash_points'],
 'All losses, partitions, stalls, skipped finality, crashes, failed reads and adversarial messages before, and adversarial messages after faults stop.',
 'Tests run the worker on one node without loss or an adversary.',
 [EG+'worker.rs',EG+'gossip.rs',EG+'witness_record.rs'],
 [('backfill','ethy-gadget/src/worker.rs handle_finality_notification'),('gossip validation','ethy-gadget/src/gossip.rs validate'),('unverified witnesses','ethy-gadget/src/witness_record.rs process_unverified_witnesses')],
 observe=['auxiliary database writes after faults stop'])
prop('E03','A validator signs only what its finalised chain asks for',
 "A validator's node signs an event only if a block of its finalised chain requests it and it is in the validator set of that block, and signs exactly the requested data with the right chain, block and set; it never signs two different things for one event, whatever it receives and however often it restarts. A node never passes on a message with a bad signature, of an outsider, or that nobody sent.",
 ['schedules','histories','fault_sequences','crash_points','inputs'],
 'All orders of finality, gossip, set changes, crashes and adversarial messages.',
 'Tests sign single requests.',
 [EG+'worker.rs',EG+'gossip.rs',EG+'keystore.rs'],
 [('signing','ethy-gadget/src/worker.rs handle_finality_notification_active'),('validation','ethy-gadget/src/gossip.rs validate')],
 observe=['gossip messages sent'])
prop('B01','Ethereum messages are executed at most once and only unchallenged',
 'Every Ethereum message relayed to the chain is handed to its subscriber at most once, in spite of resubmission, reordered ids and any pruning of the processed-id window. It is never handed over before its challenge period has elapsed, nor while a challenge against it is open, nor after validators have judged it invalid, and the message handed over is exactly the one submitted.',
 ['histories','schedules','inputs'],
 'Every history of submissions (in any id order, duplicates, gaps), challenges, notarizations, relayer changes, skipped blocks, block-weight limits and pauses.',
 'The tests submit a few messages in fixed order and step to one block; interleavings of challenge, notarization, delay of processing and pruning of processed ids are not covered.',
 [E+'impls.rs',E+'lib.rs'],
 [('submit_event id and window checks',E+'lib.rs submit_event'),('block-scheduled processing',E+'lib.rs on_initialize'),('processed id pruning',E+'impls.rs prune_claim_ids')],
 observe=['subscriber calls','pallet events'])
prop('B02','Challenges are decided by validator supermajority and bonds are conserved',
 'An open challenge resolves invalid only when notarizations by distinct active validators reach the configured threshold, valid only when enough distinct validators vote valid, and a validator counts at most once per claim. Relayer and challenger bonds are held exactly while their relayer role or open challenge lasts, and resolution moves the loser\'s bond to the winner or slashes it once, creating and destroying no funds.',
 ['histories','schedules','inputs'],
 'All orders of challenge, votes (valid, invalid, missing, duplicate, by non-validators), validator-set changes between votes, relayer deposits and withdrawals.',
 'Tests use one fixed validator set and one order of votes per case and never compare total balances over a history.',
 [E+'impls.rs',E+'lib.rs'],
 [('vote counting',E+'impls.rs handle_event_notarization'),('bond holds and releases',E+'lib.rs submit_challenge/deposit_relayer_bond/withdraw_relayer_bond')],
 observe=['held and free balances','pallet events'])
prop('B03','Every outbound bridge request gets one unique proof id and is never lost',
 'Each accepted outbound message or XRPL signing request is assigned a fresh, strictly increasing event id and leads to exactly one signing request in the block headers with the content that was submitted. Requests made while the bridge is paused or validators are changing are queued and each signed once after it is unpaused, even when blocks are full or skipped.',
 ['histories','schedules','fault_sequences'],
 'All interleavings of requests with pause/unpause, authority changes, weight-limited idle time and block boundaries.',
 'Tests check one or two requests around one pause; not sequences of pauses with partially drained queues.',
 [E+'impls.rs',E+'lib.rs','primitives/src/ethy.rs'],
 [('event id allocation',E+'impls.rs get_next_event_proof_id'),('delayed request queue',E+'impls.rs request_for_event_proof / lib.rs on_initialize,on_idle')],
 observe=['consensus digest logs','pallet events'])
prop('B04','Validator-set handover keeps the bridge consistent',
 'At a session change that alters the validators, the chain asks the outgoing set to prove the incoming set exactly once (Ethereum message and, when the XRPL signers change, XRPL signer list), and set ids increase by one per announced change. Between that request and the switch no other event proof is signed; afterwards signing resumes with the new set. XRPL signers are always a subset of the notary keys and at most eight, with a quorum that the signed list repeats.',
 ['histories','schedules'],
 'Every sequence of session rotations, early scheduled changes, XRPL signer governance changes and pending requests.',
 'Tests run a single rotation; multi-rotation histories with pending requests, pauses and signer changes are not sampled.',
 [E+'impls.rs',E+'lib.rs'],
 [('handle_authorities_change and finalise_authorities_change',E+'impls.rs'),('scheduled early handover',E+'lib.rs on_initialize')],
 observe=['consensus digest logs','storage of notary keys and set id'])
prop('B05','A verified Ethereum call request is answered exactly once',
 'Each checked Ethereum call request ends in exactly one callback to its requester: either the return data on which a two-thirds majority of validators agreed, or a failure/timeout. The answer is never based on votes by non-validators, duplicate votes or fewer votes than the threshold, and it is removed once answered.',
 ['histories','schedules','fault_sequences'],
 'All orders and contents of validator votes, missing votes, timeouts in skipped blocks, offchain HTTP errors and malformed replies.',
 'Existing tests check one majority and one timeout; not mixtures of disagreeing and late votes across block skips.',
 [E+'impls.rs',E+'lib.rs',E+'types.rs'],
 [('call notarization',E+'impls.rs handle_call_notarization'),('offchain call',E+'impls.rs offchain_try_eth_call')],
 observe=['requester callbacks'])

prop('B06','A validator\'s vote says what Ethereum shows',
 'For every challenged message and call request, the vote an honest validator\'s node sends follows from what its Ethereum node answers: valid exactly if the transaction succeeded, was sent to the claimed source, made the bridge contract log exactly the claimed message and has enough confirmations. A failed, late, cut or malformed answer yields a truthful other vote and never stops the node. Call results carry the block, time and data the chain asked for. A node that is no active notary sends nothing, each sends at most one message vote and one call vote per block, and once faults stop every open message and call is voted on within a bounded number of blocks: genuine messages are proved, forged ones rejected.',
 ['inputs','fault_sequences','schedules'],
 'All claims (genuine, altered, in transactions with several logs), all answers and failures of the Ethereum nodes, behind and reorganised nodes, and lost, late and repeated votes of up to seven validators.',
 'Tests feed single canned answers to parts of the worker; none runs the worker over its HTTP client against a node with a chain, nor several validators to a decision.',
 [E+'impls.rs',E+'types.rs',E+'lib.rs'],
 [('vote on a message',E+'impls.rs offchain_try_notarize_event'),('vote on a call',E+'impls.rs offchain_try_eth_call'),('client',E+'types.rs EthereumRpcClient')],
 observe=['votes sent','messages accepted or rejected'])

X='pallet/xrpl-bridge/src/'
prop('X01','XRPL deposits are credited exactly once and never when challenged',
 'Every XRPL payment reported by an authorised relayer credits its destination with the reported amount of the mapped asset at most once for as long as reports for its ledger are accepted at all, and not before the challenge period. A challenged payment is not credited, and pruning of history never re-opens a ledger whose payments were already credited.',
 ['histories','schedules','inputs'],
 'Every history of submissions (duplicates, late, out of order ledger indexes, several per block), challenges, relayer changes, skipped blocks and weight-starved pruning.',
 'Tests cover one submission/challenge at a time; the settled window, pruning under weight limits and replays around the window edge are sampled at a few points.',
 [X+'lib.rs',X+'types.rs'],
 [('replay and window checks',X+'lib.rs submit_transaction'),('settlement',X+'lib.rs process_xrp_tx'),('pruning',X+'lib.rs clear_storages')],
 observe=['balances','pallet events'])
prop('X02','XRPL withdrawals burn what they pay and pay once',
 'A withdrawal takes exactly the requested amount plus the configured fee from the sender and produces exactly one XRPL payment of that amount to the requested destination and tag, now or after the configured delay. A rejected withdrawal changes nothing. A delayed payment is paid out exactly once at or after its due block, in whatever order, weight or block gaps idle processing meets.',
 ['histories','schedules','fault_sequences'],
 'All withdrawal amounts, assets, delay settings and changes of them in flight, idle weights, skipped blocks, ticket exhaustion and bridge pauses.',
 'Tests cover single withdrawals and a few delayed ones; not histories where delay configuration, door address, tickets and weights vary together.',
 [X+'lib.rs',X+'types.rs'],
 [('withdraw and delayed scheduling',X+'lib.rs add_to_withdraw/process_withdrawal'),('delayed payments',X+'lib.rs process_delayed_payments')],
 observe=['balances','XRPL signing requests'])
prop('X03','XRPL door tickets are never reused',
 'No two signing requests for the same XRPL door account carry the same ticket sequence number, each number lies in a bucket that governance allocated, and when the current and next buckets are exhausted requests are refused and leave the state unchanged.',
 ['histories','inputs'],
 'Every interleaving of withdrawals, signer list updates, NFT requests and ticket allocations (valid, overlapping, shrinking).',
 'Tests step through a single bucket switch.',
 [X+'lib.rs'],
 [('ticket allocation',X+'lib.rs get_door_ticket_sequence'),('allocation calls',X+'lib.rs set_ticket_sequence_next_allocation')],
 observe=['XRPL signing requests'])

prop('P01','ERC20 bridge: tokens minted on TRN are backed one to one',
 'Each verified Ethereum deposit mints (or releases) exactly its amount of the mapped asset to its beneficiary, at once or once after its delay, and each withdrawal burns (or locks) exactly the amount that its outgoing bridge message carries. Delayed withdrawals and deposits execute exactly once in spite of any idle weight, skipped blocks or pauses, failed operations change nothing, and a token-address mapping is never redirected.',
 ['histories','schedules','fault_sequences'],
 'All interleavings of deposits, withdrawals, delay settings, bridge failures and idle-weight schedules.',
 'Tests cover single deposits and withdrawals and fixed delays.',
 ['pallet/erc20-peg/src/lib.rs','pallet/erc20-peg/src/types.rs'],
 [('deposit/withdraw',' pallet/erc20-peg/src/lib.rs do_deposit/do_withdrawal'),('delayed processing','pallet/erc20-peg/src/lib.rs process_delayed_payments / on_idle')],
 observe=['balances and total issuance','outgoing bridge messages'])
prop('P02','NFT bridge: a bridged NFT exists on exactly one side',
 'A verified NFT deposit makes exactly the named tokens appear once with the beneficiary, or be recorded as claimable by exactly the named claimant once, and a withdrawal removes exactly the tokens that the outgoing message names from the owner\'s side. No token is ever represented in both places or in neither, and nobody but the owner can withdraw it.',
 ['histories','inputs','fault_sequences'],
 'All deposit messages incl. malformed ones and ones exceeding limits, repeated deposits/withdrawals/reclaims by any account.',
 'Tests cover one round trip; not histories with blocked mints, reclaims and repeated bridging of the same serials.',
 ['pallet/nft-peg/src/lib.rs','pallet/nft-peg/src/types.rs','pallet/nft/src/impls.rs'],
 [('deposit decoding and mint','pallet/nft-peg/src/lib.rs do_deposit / pallet/nft do_deposit... mint_xls/peg'),('withdraw','pallet/nft-peg/src/lib.rs do_withdrawal')],
 observe=['token owners','outgoing bridge messages'])

A='pallet/assets-ext/src/'
prop('A01','Asset operations conserve supply and held funds stay with their owner',
 'For every asset, the total supply equals the sum of free and held balances at all times and changes only by mint and burn. Held funds can only be released to their owner or spent up to the held amount by the placing component, a batch of transfers from a hold is all or nothing, and asset ids allocated are unique and embed this chain\'s identity.',
 ['histories','inputs','fault_sequences'],
 'All sequences of create, mint, burn, transfer, split transfer, hold, release and spend over native and custom assets, incl. dust, account death and injected failures.',
 'Tests check selected arithmetic cases; the sum invariant is never checked over a history.',
 [A+'lib.rs',A+'impls.rs',A+'imbalances.rs'],
 [('holds',A+'lib.rs place_hold/release_hold/spend_hold'),('split transfers',A+'lib.rs do_split_transfer'),('dual staking/native currency adapter',A+'impls.rs')],
 observe=['balances, holds and issuance'])
prop('A02','Spending approvals authorise exactly what their owner granted',
 'A spender can move another account\'s fungible tokens only within the allowance the owner last set less what was already used, and an NFT or multi-token only if the current owner approved that spender for it or for all. Transferring an NFT cancels its individual approval, so an approval never outlives ownership.',
 ['histories','inputs'],
 'All histories of approvals, revocations, spends, transfers and burns by any accounts.',
 'Tests check single approve/spend pairs; not stale approvals across ownership changes.',
 ['pallet/token-approvals/src/lib.rs','pallet/nft/src/impls.rs'],
 [('allowances','pallet/token-approvals/src/lib.rs'),('removal on transfer','pallet/nft/src/impls.rs OnTransferSubscription')],
 observe=['approval queries and spends'])
prop('F01','Fee payment in other tokens swaps only what the fee needs',
 'A call paid with a fee-preference token charges the caller at most the stated maximum of that token, the wrapped call runs exactly once with the caller\'s own authority only if the swap succeeded, and a failed swap leaves balances untouched. The chain receives the full native fee whichever token is used; fees withheld in the fee pot equal fees charged and leave it exactly once.',
 ['histories','inputs','fault_sequences'],
 'All fee preferences, maxima, pool states, nested/wrapped calls and failures of the inner call.',
 'Tests use one pool and a few amounts; never a history that checks the conservation of the pot.',
 ['pallet/fee-proxy/src/lib.rs','pallet/fee-proxy/src/impls.rs','pallet/tx-fee-pot/src/lib.rs'],
 [('fee swap','pallet/fee-proxy/src/impls.rs withdraw_fee'),('call','pallet/fee-proxy/src/lib.rs call_with_fee_preferences'),('pot','pallet/tx-fee-pot/src/lib.rs')],
 observe=['balances','inner call effects'])
D='pallet/dex/src/'
prop('D01','The exchange never loses value to rounding, order or slippage',
 'No sequence of swaps reduces the product of a pool\'s reserves, recorded reserves never exceed what the pool account holds, and liquidity shares redeem at most their pro-rata part of the reserves. Every trade respects its caller\'s minimum output, maximum input and deadline, and a failed operation changes nothing.',
 ['histories','inputs'],
 'All sequences of add/remove liquidity, exact-in and exact-out swaps over multi-hop paths, direct donations to the pool, disabled pairs and extreme amounts.',
 'Tests evaluate some fixed amounts; the invariants are quantified over all histories and rounding cases.',
 [D+'lib.rs',D+'types.rs'],
 [('swap invariant check',D+'lib.rs _swap'),('liquidity mint/burn',D+'lib.rs'),('fee and slippage checks',D+'lib.rs do_swap_with_exact_*')],
 observe=['reserves, balances, LP supply'])
N='pallet/nft/src/'
prop('N01','Every NFT has exactly one owner and issuance is bounded and accounted',
 'Each token of a collection is listed for exactly one owner, ownership queries, balances and the collection\'s issuance count agree, serial numbers are never reused, and no collection or account exceeds its limits. Only the owner or an approved spender moves or burns a token, and a token locked for sale cannot be moved, burned or bridged. Paid public minting charges exactly the advertised price per token, to the collection owner.',
 ['histories','inputs'],
 'All histories of create, mint, public mint, transfer, burn, lock, claim and setting changes by any accounts.',
 'Tests check single operations; invariants over mixed histories with caps, pricing and locks are not covered.',
 [N+'lib.rs',N+'impls.rs',N+'types.rs','primitives/src/nft.rs'],
 [('ownership map',N+'types.rs / impls.rs do_mint,do_transfer,do_burn'),('pre_mint checks',N+'impls.rs pre_mint'),('mint fee',N+'impls.rs charge_mint_fee')],
 observe=['owners, balances, issuance'])
S='pallet/sft/src/'
prop('N02','Semi-fungible token supply always equals what holders own',
 'For every semi-fungible token the recorded issuance equals the sum over holders of free plus reserved balances, never exceeds its maximum issuance, and changes only by mint and burn. Reserved balance cannot be transferred, burned or spent until released, and a batch operation applies completely or not at all.',
 ['histories','inputs'],
 'All histories of create, mint, batch mint with duplicate ids, transfer, burn, reserve and release by any accounts.',
 'Tests check single operations and a few batches.',
 [S+'lib.rs',S+'impls.rs',S+'types.rs'],
 [('balance arithmetic',S+'types.rs SftTokenBalance'),('mint/transfer/burn',S+'impls.rs')],
 observe=['token balances and issuance'])
M='pallet/marketplace/src/'
prop('M01','Marketplace sales are atomic, escrowed and never strand assets',
 'A listed token stays locked to its seller until the listing ends by sale, cancellation or expiry, and is then unlocked exactly once; a sale moves the tokens to the payer and the exact price split between seller, marketplace and royalty receivers, or does nothing. Auction and offer funds are held exactly for the current best bid or open offer, returned in full to whoever loses, and no funds or locks remain when nothing is open.',
 ['histories','schedules','inputs'],
 'All histories of fixed-price and auction listings, bids, offers, cancellations, expiries in skipped blocks, balance changes of participants and failures of settlement.',
 'Tests cover one sale flow at a time; not interleavings of listings, bids, offers and expiry over many blocks.',
 [M+'lib.rs',M+'impls.rs',M+'types.rs'],
 [('listing lifecycle',M+'impls.rs'),('auction close',M+'impls.rs close_listings_at'),('settlement',M+'impls.rs process_payment_and_transfer')],
 observe=['holds, balances, token owners and locks'])
C='pallet/crowdsale/src/'
prop('C01','Crowdsales never take or hand out more than was contributed',
 'The contribution recorded for every account equals what the account paid in; on distribution each contributor receives vouchers in proportion (at most one voucher per voucher price, never more than the remaining supply) exactly once, and the collected funds reach the sale administrator exactly once. An enabled sale always ends: one that raises less than its target returns the unsold vouchers to its administrator, one that raises nothing returns all of them, and every whole voucher redeems for exactly one token.',
 ['histories','schedules','inputs'],
 'All histories of initialise, enable, participate, block-driven end, weight-limited distribution, claim and redeem.',
 'Tests cover one sale; the distribution in batches by offchain workers interleaved with manual claims is not covered.',
 [C+'lib.rs',C+'impls.rs',C+'types.rs'],
 [('participation',C+'lib.rs participate'),('distribution',C+'lib.rs distribute_crowdsale_rewards/claim_voucher'),('block close',C+'lib.rs on_initialize / impls.rs')],
 observe=['asset balances, voucher supply, token owners'])
FP='pallet/futurepass/src/'
prop('L01','A futurepass acts only for its owner and registered delegates',
 'Every futurepass has exactly one owner, an owner has at most one, and every account\'s creation and transfer keep that relation one to one. Calls run through a futurepass only when made by its owner or by a delegate whose registered permission covers the call, never after the delegate is removed or after the pass is transferred, and never act for another futurepass.',
 ['histories','inputs'],
 'All histories of create, register (with signatures, deadlines and replays), unregister, transfer and proxied calls, incl. nested ones.',
 'Tests check single transitions; stale delegates across transfer/unregister sequences are not covered.',
 [FP+'lib.rs'],
 [('ownership map',FP+'lib.rs create/transfer_futurepass'),('delegate checks',FP+'lib.rs proxy_extrinsic, registration'),('whitelist',FP+'lib.rs')],
 observe=['effects of proxied calls, proxy registry'])
prop('S01','Wallet-signed transactions execute once and only as the signer allowed',
 'A transaction wrapped in an XRPL-style signature or carried by a delegation certificate executes only if the signature is by the stated account over exactly that call, nonce and deadline, the certificate permits that call to that holder, is unrevoked and unexpired. Each is executed at most once, in spite of replays, reordering and resubmission, it acts with the authority of the issuing account only, and a revoked certificate or holder draws no fees from the issuer.',
 ['histories','inputs','schedules'],
 'All orders, duplicates and mutations of signed payloads, revocations and block times.',
 'Tests check single accept/reject cases; not replay and reordering over a history.',
 ['pallet/xrpl/src/lib.rs','pallet/xrpl/src/types.rs','pallet/doughnut/src/lib.rs','runtime/src/impls.rs','runtime/src/lib.rs'],
 [('XRPL transact','pallet/xrpl/src/lib.rs transact'),('doughnut transact','pallet/doughnut/src/lib.rs transact'),('self-contained validation','both check_self_contained/validate')],
 observe=['nonces, effects of inner calls'])
prop('T01','A signed transaction executes at most once, as its signer signed it',
 'A transaction takes effect only if it carries a signature by its sender\'s own key (plain, personal-sign, or personal-sign over the hash) over exactly that call, nonce, tip and lifetime, for this chain, this runtime version and a recent block of this fork. It then executes at most once, in order of the sender\'s nonces, within its lifetime, at the sender\'s expense alone; everything else is refused without any effect, and the pool\'s verdict agrees with the block\'s. The sender is the address of the key, never the zero account.',
 ['histories','inputs','fault_sequences','schedules'],
 'All signature forms and forgeries, alterations after signing, other chains, versions and forks, duplicates, replays, reorderings, delays, crashes.',
 'Tests verify a few signatures in isolation; none runs a history of transactions through the chain with replays, forks and expiry.',
 ['primitives/src/signature.rs','runtime/src/lib.rs','runtime/src/impls.rs'],
 [('verification','primitives/src/signature.rs verify'),('signed extensions','runtime/src/lib.rs SignedExtra'),('address','primitives/src/signature.rs From<ecdsa::Public>')],
 observe=['outcome of apply and of pool validation, nonces, balances, events'])
prop('W01','XRP used in the EVM is the chain\'s own XRP and is conserved',
 'What a contract sees of an account\'s XRP is the account\'s spendable balance on the chain, in wei. Value moved by any frame of an EVM transaction leaves the sender and reaches the receiver in the same whole number of drops (rounded up) or, if the sender lacks it or the frame or one above it fails, does not move at all. For gas the sender pays the price of the gas used to within a drop, never that of gas it did not use; what it pays goes to the fee pot (base fee) and the block author (rest), and no EVM transaction changes the total of XRP. Only its own signer can make an account\'s EVM call.',
 ['inputs','programs','histories'],
 'All amounts including fractions of a drop and whole balances, all nestings of succeeding and failing frames, gas limits and prices, authors, base fees.',
 'Tests convert a few amounts and charge a few fees; none runs nested frames with value or a sender who spends everything in the transaction that pays for gas.',
 ['runtime/src/impls.rs','pallet/common/src/utils.rs','pallet/assets-ext/src/impls.rs','pallet/assets-ext/src/imbalances.rs','pallet/tx-fee-pot/src/lib.rs','pallet/fee-control/src/lib.rs','pallet/fee-proxy/src/runner.rs'],
 [('EVM currency','runtime/src/impls.rs EvmCurrencyScaler'),('gas charge, refund, tip','runtime/src/impls.rs FutureverseEVMCurrencyAdapter'),('imbalances','pallet/assets-ext/src/imbalances.rs')],
 observe=['balances on the chain and in the EVM','total XRP'])
prop('K01','Maintenance mode stops exactly the blocked calls, however wrapped',
 'While maintenance mode or a block on an account, pallet, call or contract is active, no blocked call takes effect, however deeply it is wrapped in proxy, batch, fee-preference, sudo-less or wallet-signed wrappers; all other calls still work. Governance calls that lift the block always stay available and lifting the block restores the previous behaviour.',
 ['histories','inputs','programs'],
 'All sequences of block/unblock and all call trees over the wrappers.',
 'Tests check direct calls and one level of wrapping.',
 ['pallet/maintenance-mode/src/lib.rs','pallet/fee-proxy/src/lib.rs','pallet/futurepass/src/lib.rs','runtime/src/lib.rs'],
 [('call filter','pallet/maintenance-mode/src/lib.rs MaintenanceChecker / base_call_filter')],
 observe=['effects of dispatched calls'])
prop('V01','Reward distributions pay each registered holder exactly once',
 'Each reward cycle pays every registered account its registered share exactly once, never more in total than the vault holds for that cycle, no matter how many batches or blocks the payout takes. Redeeming reward tokens returns exactly the pro-rata vault assets and burns the tokens; only the authorised account can change a cycle, and its rewards are fixed once it is triggered.',
 ['histories','schedules','inputs'],
 'All histories of create, register, set vault assets, trigger, unsigned batch payouts (duplicated, reordered, missing) and redeem.',
 'Tests cover one cycle with few accounts.',
 ['pallet/vortex-distribution/src/lib.rs'],
 [('payout','pallet/vortex-distribution/src/lib.rs pay_unsigned'),('redeem','pallet/vortex-distribution/src/lib.rs redeem_tokens_from_vault')],
 observe=['balances'])
prop('I01','External NFT data requests are paid, answered and stored consistently',
 'Externally produced NFT data (intelligence data and XRPL token ids) is recorded only for tokens that exist, only by the authorised relayer, and a token\'s XRPL id is never overwritten once set; data goes when its token is burned. Each request is charged its fee exactly once, and only the token owner or collection owner can ask for it.',
 ['histories','inputs'],
 'All histories of enabling, requests, relayer answers (duplicate, late, malformed) and burns.',
 'Tests check single request/answer pairs.',
 ['pallet/nfi/src/lib.rs','pallet/xls20/src/lib.rs'],
 [('relayer fulfilment','pallet/xls20/src/lib.rs fulfill_xls20_mint'),('nfi submission','pallet/nfi/src/lib.rs submit_nfi_data')],
 observe=['storage queries, balances, events'])
prop('G01','Multi-block migrations convert every entry exactly once',
 'A multi-block migration converts every existing entry exactly once and loses none, whatever the weight available per block and however blocks are skipped, and it then reports completion exactly once. A migration never runs twice and never uses more weight than is available, blocked operations stay blocked until it finishes, disabling it pauses it without losing progress, and a new migration always starts from the first entry.',
 ['schedules','histories','fault_sequences'],
 'All per-block weights, block counts, entry sets, pauses and interleaved writes.',
 'Tests use one weight and a few entries.',
 ['pallet/migration/src/lib.rs'],
 [('stepper','pallet/migration/src/lib.rs on_idle / migrate')],
 observe=['storage before and after, events'])
prop('U01','A runtime upgrade carries every record over and touches nothing else',
 'When the shipped runtime replaces the former one, every record kept in the former layout (NFI data of a token, NFI enabled for a collection) is found in the new layout under the same token or collection of this chain with the same content; no other record appears, none stays behind in the former layout, and nothing else in the state changes. An upgrade that is carried out again, or on a chain that has the new layout, changes nothing.',
 ['histories','inputs','fault_sequences'],
 'All sets of former records (any ids and contents), chain ids, blocks of the upgrade, repetitions, forks, crashes.',
 'The test converts two records of each kind and looks up just those.',
 ['runtime/src/migrations/mod.rs','runtime/src/migrations/nfi.rs','pallet/nfi/src/lib.rs'],
 [('migrations','runtime/src/migrations/mod.rs AllMigrations::on_runtime_upgrade'),('NFI layout','runtime/src/migrations/nfi.rs v1::migrate')],
 observe=['storage before and after the upgrade'])
prop('G02','Only governance or the office holder changes the chain\'s parameters',
 'A call that sets a parameter of the chain or belongs to an office (bridge relayers, reward administrator, NFI and XLS-20 relayers, the chain itself) is refused without any effect from every other origin: directly, as a transaction, unsigned, or wrapped in batches, passes, fee preferences or sudo. An office ends with its transfer. Accepted from the rightful origin, it sets exactly what was asked and nothing else.',
 ['programs','inputs','histories'],
 'All such calls with arbitrary arguments, all origins (users, former and current holders, module and pass accounts), wrappers, and orders of hand-overs.',
 'Tests try one signed account on some of the calls, directly.',
 ['pallet/ethy/src/lib.rs','pallet/xrpl-bridge/src/lib.rs','pallet/erc20-peg/src/lib.rs','pallet/maintenance-mode/src/lib.rs','pallet/fee-control/src/lib.rs','pallet/vortex-distribution/src/lib.rs','pallet/token-approvals/src/lib.rs','pallet/dex/src/lib.rs','pallet/nfi/src/lib.rs','pallet/xls20/src/lib.rs','runtime/src/lib.rs'],
 [('privileged calls','ensure_root / ensure_none / relayer checks in every pallet')],
 observe=['outcome of calls','storage before and after'])
prop('R01','Re-executing a block always gives the same state',
 'Executing the same block on the same parent state always produces the same storage, events, weights and digests on every node, independently of process memory, wall-clock time, hash-map order or what the node executed before, including on competing forks and after reorganisation.',
 ['schedules','histories','crash_points'],
 'All blocks reachable in simulation, executed on different simulated nodes with different seeds of the environment, in any fork order.',
 'Unit tests execute each operation once in one process.',
 ['pallet/common/src/lib.rs',E+'impls.rs',X+'lib.rs',D+'lib.rs'],
 [('pure state transition','all pallets use chain storage only')],
 observe=['storage root, events, digests'])
prop('H01','EVM precompiles act exactly like the calls they wrap',
 'A contract call to a token, exchange, bridge or futurepass precompile has exactly the effect of the corresponding chain call by the calling address, or, when it reverts, no effect at all. Read-only calls change nothing, unknown selectors and malformed input revert, value sent to a non-payable function is refused, and every asset and collection the chain creates is at once a contract that other contracts can see.',
 ['inputs','programs','histories'],
 'All selectors, ABI encodings (valid, truncated, mutated), callers, value and gas.',
 'Tests call precompiles with a few valid inputs only.',
 ['evm-precompiles/utils/src/lib.rs','evm-precompiles/erc20/src/lib.rs','evm-precompiles/erc721/src/lib.rs','evm-precompiles/dex/src/lib.rs','evm-precompiles/utils/macro/src/lib.rs'],
 [('selector generation','evm-precompiles/utils/macro'),('dispatch','evm-precompiles/utils/src/substrate.rs'),('modifier check','evm-precompiles/utils/src/modifier.rs')],
 observe=['balances, owners, EVM outputs'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
