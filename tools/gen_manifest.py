#!/usr/bin/env python3
"""Writes MANIFEST.json. CHECKS: property -> (simulations, note)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TRUST = " Trusted: the stand-in substrate (storage, dispatch, balances, assets, host functions) agrees with the pinned polkadot-sdk where the property depends on it; the repository's own pallet unit tests pass on it."
CHECKS = {
    "X01": (["xrpl"], "Seeded search over reports, challenges, re-mappings, resets, prunings, skipped blocks, starved idle processing, crashes and forks; every block's credits compared with a reference ledger."),
    "X02": (["xrpl"], "Seeded search over withdrawals, delays, fee/tag/door changes, starved idle processing, crashes and forks; every charge and every signed XRPL payment decoded and matched with what is owed; delayed payments must be signed once idle weight is available again."),
    "X03": (["xrpl"], "Seeded search over ticket allocations, roll-overs, withdrawals, offers and signer lists; every ticket in a signed transaction must be fresh for its door account and allocated."),
    "B01": (["ethy"], "Seeded search over submissions, resubmissions, gaps, pruning of the window, challenges, votes, period changes, skipped blocks, crashes and forks; every message handed over compared with a reference schedule."),
    "B02": (["ethy"], "Seeded search over bonds, challenges, genuine, forged, repeated and replayed notarizations under changing validator sets; every balance and verdict compared with a reference."),
    "B03": (["ethy"], "Seeded search over requests, pauses, starved idle processing, skipped blocks and validator changes; every signing request in the block headers matched one to one with what was asked."),
    "B04": (["ethy"], "Seeded search over sessions, announced and forced eras, signer lists and pauses; every consensus log compared with the reference handover."),
    "B05": (["ethy"], "Seeded search over checked calls and notarizations under changing validator sets; every answer compared with the recorded votes."),
    "P01": (["erc20"], "Seeded search over deposits, withdrawals, payment delays, contract and mapping changes, decimals, starved idle processing, skipped blocks, crashes and forks; every token in and every message out compared with a reference ledger of both sides."),
    "P02": (["nftbridge"], "Seeded search over ERC-721 and XLS-20 deposits and withdrawals, malformed and foreign messages, full collections, burns, transfers, approvals, skipped blocks, crashes and forks; ownership on both sides compared with a reference."),
    "I01": (["nfidata"], "Seeded search over mints, requests, relayer answers (repeated, late, malformed, unauthorised), fees, owners, burns and bridge withdrawals; every fee, request, answer and stored item compared with a reference."),
    "N01": (["tokens"], "Seeded search over mints, transfers, burns, bridging, sales, auctions and offers of NFTs and SFTs in one chain with block-internal crashes; every owner, query, page, issuance and event compared with an executable reference."),
    "N02": (["tokens"], "Seeded search over SFT mints, transfers, burns, sales and auctions, with batches that fail half way; every free and reserved balance and issuance compared with an executable reference."),
    "M01": (["tokens"], "Seeded search over listings, purchases, bids, offers, expiries, flag and owner changes; every lock, listing, hold, payment and settlement at block starts compared with an executable reference; all listings run to their end."),
    "C01": (["crowdsale"], "Seeded search over sales, contributions (up to a few hundred contributors), claims, distributions, redemptions, hostile vault calls and congestion of the distribution list; every balance, contribution, voucher and token compared with an executable reference; every sale is run to its end and every whole voucher redeemed."),
    "A01": (["assets"], "Seeded search over creations, mints, burns, transfers, batches, approvals, holds, releases and spends of several components (amounts up to the largest), crashes and forks; every free and held balance, supply, id and event compared with an executable reference."),
    "D01": (["dex"], "Seeded search over provision, removal, exact-supply and exact-target trades over up to three pools, donations, disabled pools, fee account changes, deadlines and extreme magnitudes; every balance, reserve, share and event compared with an executable reference, and the worth of a share and the product of the reserves judged on the real balances."),
    "V01": (["vortex"], "Seeded search over reward cycles, registrations (repeated, overflowing, many accounts), vault assets, payouts sent by the real offchain workers over a pool that loses, delays, duplicates and reorders them, foreign payout calls and redemptions; every balance, payout and state compared with an executable reference, cycles driven to their end."),
    "H01": (["precompiles"], "Seeded search over calls to every function of the erc20, erc721, erc1155, nft, sft, dex, marketplace and peg precompiles by accounts and by contracts (nested, static, delegate calls, value, little gas, junk and truncated input, hostile and refusing receivers), with crashes and abandoned forks; each call is compared with the chain call it stands for, executed on the same state: storage, outputs, logs and events must agree, and whatever reverts must leave nothing."),
    "A02": (["precompiles"], "Seeded search over approvals, spending, transfers, burns, sales and revocations through chain calls and contracts, with stale and foreign approvals; an executable reference holds the allowances and decides each spending."),
    "F01": (["fees"], "Seeded search over transactions through the runtime's signed extensions whose fees are paid in other tokens - plain, batched, proxied, by delegates of passes, and contract calls through the fee proxy - with shallow pools, tight maximums, price and fee changes and era ends; every balance, reserve and the fee pot compared with an executable reference."),
    "S01": (["wallets"], "Seeded search over XRPL-signed transactions and doughnuts through the runtime's self-contained calls: signers, calls, nonces, deadlines, permissions, limits, passes, revocations and whitelists, with an adversary that replays, reorders, relabels, truncates, extends and re-signs what it sees, crashes and abandoned forks; a reference which knows what each key signed decides what may execute and who pays."),
    "K01": (["fees", "wallets"], "Seeded search over call trees (batches, proxies, passes, fee preferences, contract calls, sudo, wallet-signed calls) while governance switches maintenance and blocks accounts, pallets, calls and contracts; which leaves take effect is compared with an executable reference, everything is lifted at the end and must work again."),
    "L01": (["futurepass"], "Seeded search over creations, signed registrations (wrong signer, pass, type or deadline), removals, transfers and renouncements by chain calls - plain, batched, proxied and nested - and through the EVM precompiles from users, passes and hostile contracts (static, delegate and nested calls, value, junk data), with crashes; owners, delegates, deposits, payments, views and events compared with an executable reference."),
    "W01": (["evmmoney"], "Seeded search over EVM transactions and contract creations with value (fractions of a drop, whole balances, more than there is), scripts of nested calls that succeed, fail and run out of gas, the XRP token contract, gas limits, prices, tips, base fees, block authors with and without accounts, ordinary transfers and holds in between, crashes and forks; every frame's movement of money is followed in a reference ledger and every balance, the EVM's view of it and the total compared after each step. The EVM interpreter and pallet-evm are stand-ins."),
    "G01": (["migration"], "Seeded search over runtime upgrades, pauses, delays, limits, idle weights, added data, abandoned migrations, crashes and forks with a counting migration behind the migration pallet; after each block every entry's conversions, the weight used, status, events and the calls that wait are compared with a reference, and an enabled migration must end within a bounded number of blocks."),
    "E01": (["gadget"], "Seeded search over networks of 3 to 7 nodes running the gadget and its RPC server: order and skips of finality, gossip delivery, loss, partitions, stalls, syncing, crashes and restarts, failing reads and writes, validator and signer changes, time, and an adversary that holds some keys, sees all messages and forges, relabels, replays, malleates and damages them; every write, response and announcement is judged against the chain's requests and sets."),
    "E02": (["gadget"], "Seeded search over networks of 3 to 7 nodes running the gadget and its RPC server: order and skips of finality, gossip delivery, loss, partitions, stalls, syncing, crashes and restarts, failing reads and writes, validator and signer changes, time, and an adversary that holds some keys, sees all messages and forges, relabels, replays, malleates and damages them; after faults stop, earlier events and new requests must be proved within a bounded time under further adversarial messages."),
    "E03": (["gadget"], "Seeded search over networks of 3 to 7 nodes running the gadget and its RPC server: order and skips of finality, gossip delivery, loss, partitions, stalls, syncing, crashes and restarts, failing reads and writes, validator and signer changes, time, and an adversary that holds some keys, sees all messages and forges, relabels, replays, malleates and damages them; every message a node sends is judged against its finalised chain and what it received."),
    "B06": (["notary"], "Seeded search over networks of up to 7 validators whose notary workers run over the real HTTP client against simulated Ethereum nodes with a growing, reorganised chain: claims genuine and altered, several logs per transaction, nodes behind, timeouts, refused and broken connections, error statuses, malformed and cut answers, lost, late and repeated votes; every vote is compared with what the answers given imply, and after faults stop everything open must be decided rightly within a bounded number of blocks."),
    "U01": (["upgrade"], "Seeded search over records of the former layout with arbitrary ids and contents, chain ids, upgrades at any block, carried out again, on abandoned forks and across crashes, and use of the records afterwards; the whole state after each upgrade is compared with what a reference makes of the state before."),
    "T01": (["signed"], "Seeded search over transactions with honest, forged, altered, foreign, expired, malformed and zero-account signatures in every form, delivered late, out of order, again and on both sides of forks and crashes; a reference says which take effect, and nonces, balances, fees and events are compared after each, as is the pool's verdict."),
    "G02": (["govern"], "Seeded search over 74 privileged calls with arbitrary arguments, tried by users, former and current holders, module and pass accounts directly, as transactions, unsigned, in batches, passes, fee preferences and sudo, between hand-overs, governance changes, forks and crashes; refusals must leave the state as it was, and accepted changes set what was asked and nothing else."),
    "R01": (["erc20", "nftbridge", "tokens", "crowdsale", "assets", "dex", "vortex", "futurepass", "precompiles", "fees", "migration", "nfidata", "xrpl", "ethy", "gadget", "wallets", "evmmoney", "notary", "govern", "signed", "upgrade"], "Every simulation again: each block is executed a second time on its parent state after other blocks, forks and crashes in the same process, under another clock and other hash keys, and outcome, storage, events, weight and digests compared; each run is repeated from its seed."),
}
NA = {}
exec(open(V + "/tools/manifest_extra.py").read()) if os.path.exists(V + "/tools/manifest_extra.py") else None
checks = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        sims, note = CHECKS[i]
        c = "./check.sh %s %%s %s" % (i, " ".join(sims))
        checks.append({"property": i, "quick_cmd": c % "quick", "thorough_cmd": c % "thorough", "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": note + TRUST})
na = [{"property": p["id"], "reason": NA.get(p["id"], "not claimed: no check built yet")} for p in props if p["id"] not in CHECKS]
json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na, "notes": "Harness crates live in /verif/sim and compile the real sources of /repo against a stand-in substrate; no hooks in /repo are needed."}, open(V + "/MANIFEST.json", "w"), indent=1)
