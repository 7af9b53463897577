From b61160191fbf51aedcd1ffcb90c1a87b94ad5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 01/58] fix: do not hand out door tickets again at bucket
 rollover

---
 pallet/xrpl-bridge/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 2e2c0dd..349fd95 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -1732,8 +1732,10 @@ impl<T: Config> Pallet<T> {
 		if current_sequence >= last_sequence {
 			// we ran out current bucket, check the next_start_sequence
 			let next_ticket_params = DoorTicketSequenceParamsNext::<T>::get(door_account);
+			// Tickets below current_sequence were handed out already and must not be used again
 			if next_ticket_params == XrplTicketSequenceParams::default()
 				|| next_ticket_params.start_sequence == ticket_params.start_sequence
+				|| next_ticket_params.start_sequence < current_sequence
 			{
 				return Err(Error::<T>::NextTicketSequenceParamsNotSet.into());
 			} else {
-- 
2.43.0


From 76d85e998cb5b1a40dc43cc4ddd2c3214a40c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:02 +0000
Subject: [PATCH 02/58] fix: fail an eth call without consensus instead of
 answering with the last vote

When notarizations of a checked eth call cannot reach the threshold any more, the call was
completed with whatever result the last notary submitted, even if it was return data that
nobody else confirmed. Report a failure.
---
 pallet/ethy/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 872cc10..e02129a 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -804,7 +804,8 @@ impl<T: Config> Pallet<T> {
 		});
 		// cannot or will not reach consensus based on current notarizations
 		if total_count == notary_count || !can_reach_consensus {
-			return do_callback_and_clean_up(result);
+			// no result was agreed on, the last one received is only one notary's opinion
+			return do_callback_and_clean_up(CheckedEthCallResult::DataProviderErr);
 		}
 
 		// update counts
-- 
2.43.0


From 4d6618506affa93133896f3c5c9af434e8c7546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 03/58] fix: clear all notarizations of a resolved claim or
 call

Votes of notaries who have left since are stored too, so there can be more of them than
current notary keys. Limiting the removal to the number of keys then failed the deciding
vote, every time, and the claim or call stayed open with its bonds held.
---
 pallet/ethy/src/impls.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index e02129a..4d8edb9 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -616,7 +616,7 @@ impl<T: Config> Pallet<T> {
 	pub(crate) fn handle_invalid_claim(event_claim_id: EventClaimId) -> DispatchResult {
 		if let Some(cursor) = <EventNotarizations<T>>::clear_prefix(
 			event_claim_id,
-			NotaryKeys::<T>::decode_len().unwrap_or(1_000) as u32,
+			u32::MAX,
 			None,
 		)
 		.maybe_cursor
@@ -676,7 +676,7 @@ impl<T: Config> Pallet<T> {
 		// no need to track info on this claim any more since it's approved
 		if let Some(cursor) = <EventNotarizations<T>>::clear_prefix(
 			event_claim_id,
-			NotaryKeys::<T>::decode_len().unwrap_or(1_000) as u32,
+			u32::MAX,
 			None,
 		)
 		.maybe_cursor
@@ -764,7 +764,7 @@ impl<T: Config> Pallet<T> {
 			}
 			if let Some(cursor) = <EthCallNotarizations<T>>::clear_prefix(
 				call_id,
-				NotaryKeys::<T>::decode_len().unwrap_or(1_000) as u32,
+				u32::MAX,
 				None,
 			)
 			.maybe_cursor
-- 
2.43.0


From 62cbb942b3b0fd02d8ad499f8c16273eabf247a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 04/58] fix: do not drop a challenge when it is judged valid
 while no relayer is set

The challenge and its votes were removed, but the claim stayed marked as challenged and the
challenger's bond stayed held with nobody left to decide it. Leave the challenge open, the
next vote decides it once a relayer is set.
---
 pallet/ethy/src/impls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 4d8edb9..fd2a649 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -713,6 +713,8 @@ impl<T: Config> Pallet<T> {
 				Self::deposit_event(Event::<T>::Verified { event_claim_id });
 			} else {
 				log!(error, "💎 No relayer set");
+				// keep the challenge open, with its bond, until there is a relayer who can be paid
+				return Err(Error::<T>::Internal.into());
 			}
 		} else {
 			log!(error, "💎 unexpected empty claim");
-- 
2.43.0


From ed0cdca0fe507df277ec38e4ce624e251cf44df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 05/58] fix: do not execute an event claim by the schedule of
 an earlier, invalid claim

The id of a claim that was judged invalid may be submitted again. The new claim was executed
at the block scheduled for the invalid one, before its own challenge period had passed, and
without a new submission the id was recorded as processed and refused from then on. Count the
schedule entries of invalid claims and skip as many.
---
 pallet/ethy/src/impls.rs |  2 ++
 pallet/ethy/src/lib.rs   | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index fd2a649..5863835 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -632,6 +632,8 @@ impl<T: Config> Pallet<T> {
 		});
 
 		if let Some(_event_claim) = PendingEventClaims::<T>::take(event_claim_id) {
+			// The id may be submitted again, this claim's schedule must not apply to that claim
+			InvalidMessageSchedules::<T>::mutate(event_claim_id, |count| *count += 1);
 			if let Some((challenger, bond_amount)) = <ChallengerAccount<T>>::take(event_claim_id) {
 				// Challenger is correct, the event is invalid.
 				// Return challenger bond to challenger and reward challenger with relayer bond
diff --git a/pallet/ethy/src/lib.rs b/pallet/ethy/src/lib.rs
index 0090c73..3dd291b 100644
--- a/pallet/ethy/src/lib.rs
+++ b/pallet/ethy/src/lib.rs
@@ -369,6 +369,11 @@ pub mod pallet {
 		ValueQuery,
 	>;
 
+	#[pallet::storage]
+	/// Number of entries in `MessagesValidAt` that belong to claims judged invalid, by message id
+	pub type InvalidMessageSchedules<T> =
+		StorageMap<_, Twox64Concat, EventClaimId, u32, ValueQuery>;
+
 	// State Oracle
 	/// Subscription Id for EthCall requests
 	#[pallet::storage]
@@ -543,6 +548,18 @@ pub mod pallet {
 				// writes: PendingClaimStatus, PendingEventClaims
 				consumed_weight =
 					consumed_weight.saturating_add(DbWeight::get().reads_writes(2_u64, 2_u64));
+				// Entries of claims that were judged invalid have no meaning any more
+				let invalid_schedules = InvalidMessageSchedules::<T>::get(message_id);
+				if invalid_schedules > 0 {
+					consumed_weight =
+						consumed_weight.saturating_add(DbWeight::get().reads_writes(1_u64, 1_u64));
+					if invalid_schedules == 1 {
+						InvalidMessageSchedules::<T>::remove(message_id);
+					} else {
+						InvalidMessageSchedules::<T>::insert(message_id, invalid_schedules - 1);
+					}
+					continue;
+				}
 				if PendingClaimStatus::<T>::get(message_id) == Some(EventClaimStatus::Challenged) {
 					// We are still waiting on the challenge to be processed, push out by challenge
 					// period
-- 
2.43.0


From 5d21a7e0f0ce50bfc159e9bff5e20e1e3c6cc453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 06/58] fix: erc20-peg: a payment delayed by zero blocks is
 scheduled for the next block

on_initialize has already run for the current block when the payment is
scheduled, so it never became ready and its funds were stuck.
---
 pallet/erc20-peg/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallet/erc20-peg/src/lib.rs b/pallet/erc20-peg/src/lib.rs
index 81275bd..db219b8 100644
--- a/pallet/erc20-peg/src/lib.rs
+++ b/pallet/erc20-peg/src/lib.rs
@@ -676,7 +676,9 @@ impl<T: Config> Pallet<T> {
 			Self::deposit_event(Event::<T>::NoAvailableDelayedPaymentIds);
 			return;
 		}
-		let payment_block = <frame_system::Pallet<T>>::block_number().saturating_add(delay);
+		// Payments become ready in `on_initialize`, which has already run for the current block
+		let payment_block =
+			<frame_system::Pallet<T>>::block_number().saturating_add(delay.max(One::one()));
 		DelayedPayments::<T>::insert(payment_id, &pending_payment);
 		NextDelayedPaymentId::<T>::put(payment_id + 1);
 		DelayedPaymentSchedule::<T>::mutate(payment_block, |v| {
-- 
2.43.0


From 53472ee3139a662fe30871952d697d3d0b824a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 07/58] fix: nft-peg: reject a bridge message too short to hold
 its prefix instead of panicking

---
 pallet/nft-peg/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index 211878c..a6fa24d 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -497,7 +497,8 @@ where
 		let weight = Weight::zero();
 
 		// Decode prefix from first 32 bytes of data
-		let prefix_decoded = match ethabi::decode(&[ParamType::Uint(32)], &data[..32]) {
+		let prefix_data = data.get(..32).ok_or((weight, Error::<T>::InvalidAbiPrefix.into()))?;
+		let prefix_decoded = match ethabi::decode(&[ParamType::Uint(32)], prefix_data) {
 			Ok(abi) => abi,
 			Err(_) => return Err((weight, Error::<T>::InvalidAbiPrefix.into())),
 		};
-- 
2.43.0


From b3449c0989ce194a6095bdb570281d47fcc9ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 08/58] fix: nft-peg: deposit the remaining collections of a
 message when one is blocked

---
 pallet/nft-peg/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index a6fa24d..a413a0f 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -292,6 +292,7 @@ where
 
 		let destination: T::AccountId = destination.into();
 		let name = BoundedVec::truncate_from(b"bridged-collection".to_vec());
+		let mut blocked_err: Option<DispatchError> = None;
 
 		for current_token in token_info.tokens.iter() {
 			// Assign collection owner to pallet. User can claim it later
@@ -371,12 +372,14 @@ where
 						blocked_mint_id,
 						collection_id,
 						serial_numbers,
-						destination_address: destination,
+						destination_address: destination.clone(),
 					});
 
 					weight = weight.saturating_add(T::DbWeight::get().reads_writes(1, 2));
 
-					return Err((weight, err));
+					// The remaining collections of the message must still be deposited
+					blocked_err = Some(err);
+					continue;
 				},
 			}
 
@@ -389,6 +392,10 @@ where
 			weight = weight.saturating_add(T::DbWeight::get().writes(2));
 		}
 
+		if let Some(err) = blocked_err {
+			return Err((weight, err));
+		}
+
 		Self::deposit_event(Event::<T>::Erc721Deposit { destination });
 		Ok(weight)
 	}
-- 
2.43.0


From d0b9eb037b61630084186ed2e5eabb6a3578d230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 09/58] fix: xls20: do not truncate the mint fee to 32 bits

---
 pallet/xls20/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pallet/xls20/src/lib.rs b/pallet/xls20/src/lib.rs
index a672457..32083fb 100644
--- a/pallet/xls20/src/lib.rs
+++ b/pallet/xls20/src/lib.rs
@@ -304,8 +304,7 @@ impl<T: Config> Pallet<T> {
 		}
 		if let Some(relayer) = Relayer::<T>::get() {
 			// Fee is per token minted
-			let nft_count: u32 = token_count.saturated_into();
-			let mint_fee: Balance = nft_count.saturating_mul(xls20_mint_fee as u32).into();
+			let mint_fee: Balance = Balance::from(token_count).saturating_mul(xls20_mint_fee);
 			// Make the payment
 			T::MultiCurrency::transfer(
 				T::Xls20PaymentAsset::get(),
-- 
2.43.0


From 67cf73fa59dafb709e50175d83a8e0adedfe68ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 10/58] fix: refuse an NFT transfer that lists a serial number
 twice

The new owner was recorded with the token once per listing, so that its
balance and the owned token list exceeded the collection's issuance.
---
 pallet/nft/src/impls.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/nft/src/impls.rs b/pallet/nft/src/impls.rs
index fbdbd69..02ff2eb 100644
--- a/pallet/nft/src/impls.rs
+++ b/pallet/nft/src/impls.rs
@@ -108,6 +108,11 @@ impl<T: Config> Pallet<T> {
 					Error::<T>::TokenLocked
 				);
 			}
+			// A serial number listed twice must not be given to the new owner twice
+			let mut unique_serials = serial_numbers.clone().into_inner();
+			unique_serials.sort_unstable();
+			unique_serials.dedup();
+			ensure!(unique_serials.len() == serial_numbers.len(), Error::<T>::NotTokenOwner);
 
 			collection_info.remove_user_tokens(current_owner, serial_numbers.clone());
 			collection_info
-- 
2.43.0


From 1e2be366ad48c8cc31d4a8b752cf340ac35e7ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 11/58] fix: unlock the tokens of an auction whose settlement
 fails

The winning bid was released but the tokens stayed locked (or reserved)
for a listing that no longer exists, with no way to free them.
---
 pallet/marketplace/src/impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 84c49b5..b13b1e0 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -515,6 +515,9 @@ impl<T: Config> Pallet<T> {
 				log!(error, "🃏 releasing hold failed");
 			}
 
+			// the tokens stay with the seller, give them free
+			let _ = listing.tokens.unlock_tokens(&listing.seller);
+
 			// listing metadata is removed by now.
 			Self::deposit_event(Event::<T>::AuctionClose {
 				tokens: listing.tokens,
-- 
2.43.0


From c194e158b477d9dde64f75ebb6cbdc7a420f6503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 12/58] fix: never pay out more royalties than the sale amount

With royalties of (nearly) 100% each share may be rounded up, so that
their sum exceeded a small amount and the subtraction underflowed.
---
 pallet/marketplace/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index b13b1e0..b508c2d 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -572,7 +572,8 @@ impl<T: Config> Pallet<T> {
 		if !royalties_schedule.calculate_total_entitlement().is_zero() {
 			let entitlements = royalties_schedule.entitlements.clone();
 			for (who, entitlement) in entitlements.into_iter() {
-				let royalty: Balance = entitlement * amount;
+				// shares are rounded to the nearest unit, together they may not exceed the amount
+				let royalty: Balance = (entitlement * amount).min(for_seller);
 				for_seller -= royalty;
 				payouts.push((who, royalty));
 			}
-- 
2.43.0


From 2fbc2de33388dc29523ec5d52dc0845cf403abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 13/58] fix: accepting an offer strands neither listed tokens
 nor a winning bid

The listing of the token was removed, but the other tokens in it stayed
locked, and the best bid of an auction stayed on hold for ever.
---
 pallet/marketplace/src/impls.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index b508c2d..408b747 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -373,13 +373,25 @@ impl<T: Config> Pallet<T> {
 		if let Some(TokenLockReason::Listed(listing_id)) = T::NFTExt::get_token_lock(offer.token_id)
 		{
 			if let Some(listing) = <Listings<T>>::get(listing_id) {
-				if let Listing::<T>::FixedPrice(sale) = listing.clone() {
-					Self::deposit_event(Event::<T>::FixedPriceSaleClose {
-						tokens: sale.tokens,
-						listing_id,
-						marketplace_id: sale.marketplace_id,
-						reason: FixedPriceClosureReason::OfferAccepted,
-					});
+				// the listing ends, so every token in it is unlocked
+				match listing.clone() {
+					Listing::<T>::FixedPrice(sale) => {
+						sale.tokens.unlock_tokens(&who)?;
+						Self::deposit_event(Event::<T>::FixedPriceSaleClose {
+							tokens: sale.tokens,
+							listing_id,
+							marketplace_id: sale.marketplace_id,
+							reason: FixedPriceClosureReason::OfferAccepted,
+						});
+					},
+					Listing::<T>::Auction(auction) => {
+						// an auction with a bid must run its course
+						ensure!(
+							ListingWinningBid::<T>::get(listing_id).is_none(),
+							Error::<T>::TokenOnAuction
+						);
+						auction.tokens.unlock_tokens(&who)?;
+					},
 				}
 
 				Self::remove_listing(listing, listing_id);
-- 
2.43.0


From 509db8e79bca315ddccf4b9c473f0599df8520de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 14/58] fix: holding, releasing or spending nothing succeeds

A winning bid of zero could neither be outbid nor settled once its
bidder had no other hold left, or no account for the asset.
---
 pallet/assets-ext/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pallet/assets-ext/src/lib.rs b/pallet/assets-ext/src/lib.rs
index 3fe722d..15bbbe5 100644
--- a/pallet/assets-ext/src/lib.rs
+++ b/pallet/assets-ext/src/lib.rs
@@ -559,6 +559,10 @@ impl<T: Config> Hold for Pallet<T> {
 		asset_id: AssetId,
 		amount: Balance,
 	) -> DispatchResult {
+		// nothing to hold, a hold of zero is not recorded
+		if amount.is_zero() {
+			return Ok(());
+		}
 		let mut holds = Holds::<T>::get(asset_id, who);
 		match holds.binary_search_by_key(&pallet_id.0, |(p, _)| *p) {
 			Ok(index) => {
@@ -600,6 +604,10 @@ impl<T: Config> Hold for Pallet<T> {
 		asset_id: AssetId,
 		amount: Balance,
 	) -> DispatchResult {
+		// nothing to release, a hold of zero is not recorded
+		if amount.is_zero() {
+			return Ok(());
+		}
 		let mut holds = Holds::<T>::get(asset_id, who);
 		if let Ok(index) = holds.binary_search_by_key(&pallet_id.0, |(p, _)| *p) {
 			let (_, existing_hold) = holds[index];
@@ -646,6 +654,9 @@ impl<T: Config> Hold for Pallet<T> {
 		spends: &[(Self::AccountId, Balance)],
 	) -> DispatchResult {
 		let total_spend = spends.iter().map(|x| x.1).sum::<Balance>();
+		if total_spend.is_zero() {
+			return Ok(());
+		}
 		let mut holds = Holds::<T>::get(asset_id, who);
 		if let Ok(index) = holds.binary_search_by_key(&pallet_id.0, |(p, _)| *p) {
 			let (_, existing_hold) = holds[index];
-- 
2.43.0


From 9d929874dc23a55d66295c0aa8f9eb5c4ef0fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 15/58] fix: crowdsale: refuse a sale of zero blocks, which
 would never be closed

---
 pallet/crowdsale/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/crowdsale/src/lib.rs b/pallet/crowdsale/src/lib.rs
index 38e44c1..adaf707 100644
--- a/pallet/crowdsale/src/lib.rs
+++ b/pallet/crowdsale/src/lib.rs
@@ -264,6 +264,8 @@ pub mod pallet {
 		SaleDurationTooLong,
 		/// Extrinsic not allowed
 		ExtrinsicForbidden,
+		/// The sale must last at least one block
+		SaleDurationTooShort,
 	}
 
 	#[pallet::hooks]
@@ -378,6 +380,9 @@ pub mod pallet {
 
 			// ensure soft_cap_price is not zero - prevent future div by zero
 			ensure!(!soft_cap_price.is_zero(), Error::<T>::InvalidSoftCapPrice);
+			// A sale without a duration would end in the block that enables it, after the sales of
+			// that block were closed, and so never be closed
+			ensure!(!sale_duration.is_zero(), Error::<T>::SaleDurationTooShort);
 			// Disallow sale durations that are too long
 			ensure!(sale_duration <= T::MaxSaleDuration::get(), Error::<T>::SaleDurationTooLong);
 
-- 
2.43.0


From 7f6a9c9f4bf4f6e3d8769d535505278f1dd244ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 16/58] fix: crowdsale: refuse a collection whose vouchers
 could not all be redeemed

Tokens that were minted and burned still use up serial numbers, and a bridged or non-mintable
collection cannot be minted at all, so vouchers for them were worthless.
---
 pallet/common/src/lib.rs    |  4 ++++
 pallet/crowdsale/src/lib.rs |  7 +++++++
 pallet/nft/src/impls.rs     | 13 +++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/pallet/common/src/lib.rs b/pallet/common/src/lib.rs
index 200dcfd..8065658 100644
--- a/pallet/common/src/lib.rs
+++ b/pallet/common/src/lib.rs
@@ -566,6 +566,10 @@ pub trait NFTExt {
 		collection_id: CollectionUuid,
 	) -> Result<(TokenCount, Option<TokenCount>), DispatchError>;
 
+	/// Returns how many more tokens the owner can mint before the collection reaches its limits.
+	/// Burned tokens count towards them, since serial numbers are never reused.
+	fn get_mintable_supply(collection_id: CollectionUuid) -> Result<TokenCount, DispatchError>;
+
 	/// Returns the collection public mint information
 	fn get_public_mint_info(
 		collection_id: CollectionUuid,
diff --git a/pallet/crowdsale/src/lib.rs b/pallet/crowdsale/src/lib.rs
index adaf707..d6d1ec4 100644
--- a/pallet/crowdsale/src/lib.rs
+++ b/pallet/crowdsale/src/lib.rs
@@ -264,6 +264,8 @@ pub mod pallet {
 		SaleDurationTooLong,
 		/// Extrinsic not allowed
 		ExtrinsicForbidden,
+		/// The collection's whole maximum issuance can not be minted any more
+		CollectionNotMintable,
 		/// The sale must last at least one block
 		SaleDurationTooShort,
 	}
@@ -394,6 +396,11 @@ pub mod pallet {
 				T::NFTExt::get_collection_issuance(collection_id)?;
 			let max_issuance = max_issuance.ok_or(Error::<T>::MaxIssuanceNotSet)?;
 			ensure!(collection_issuance.is_zero(), Error::<T>::CollectionIssuanceNotZero);
+			// Verify that every voucher will be redeemable for a token
+			ensure!(
+				T::NFTExt::get_mintable_supply(collection_id)? >= max_issuance,
+				Error::<T>::CollectionNotMintable
+			);
 
 			// Verify collection public mint is disabled
 			if let Ok(mint_info) = T::NFTExt::get_public_mint_info(collection_id) {
diff --git a/pallet/nft/src/impls.rs b/pallet/nft/src/impls.rs
index 02ff2eb..483de98 100644
--- a/pallet/nft/src/impls.rs
+++ b/pallet/nft/src/impls.rs
@@ -614,6 +614,19 @@ impl<T: Config> NFTExt for Pallet<T> {
 		Ok((collection_info.collection_issuance, collection_info.max_issuance))
 	}
 
+	fn get_mintable_supply(collection_id: CollectionUuid) -> Result<TokenCount, DispatchError> {
+		let collection_info =
+			CollectionInfo::<T>::get(collection_id).ok_or(Error::<T>::NoCollectionFound)?;
+		// Tokens of a bridged collection are only minted by the bridge
+		if collection_info.origin_chain != OriginChain::Root
+			|| !UtilityFlags::<T>::get(collection_id).mintable
+		{
+			return Ok(0);
+		}
+		let limit = collection_info.max_issuance.unwrap_or(T::MaxTokensPerCollection::get());
+		Ok(limit.saturating_sub(collection_info.next_serial_number))
+	}
+
 	fn get_public_mint_info(
 		collection_id: CollectionUuid,
 	) -> Result<PublicMintInformation, DispatchError> {
-- 
2.43.0


From eb44fc7d788610ba07429581aad29386c0e07f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 17/58] fix: crowdsale: close a sale that raised nothing

Transferring zero funds fails for an administrator without an account in the payment asset, which
left the sale enabled for ever and its vouchers in the vault.
---
 pallet/crowdsale/src/impls.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pallet/crowdsale/src/impls.rs b/pallet/crowdsale/src/impls.rs
index 8d62264..e22474d 100644
--- a/pallet/crowdsale/src/impls.rs
+++ b/pallet/crowdsale/src/impls.rs
@@ -152,13 +152,16 @@ impl<T: Config> Pallet<T> {
 				);
 
 				// transfer all payment_asset from the sale vault to the admin
-				T::MultiCurrency::transfer(
-					sale_info.payment_asset_id,
-					&sale_info.vault,
-					&sale_info.admin,
-					sale_info.funds_raised,
-					Preservation::Expendable,
-				)?;
+				// (a transfer of nothing fails if the admin holds none of the asset)
+				if !sale_info.funds_raised.is_zero() {
+					T::MultiCurrency::transfer(
+						sale_info.payment_asset_id,
+						&sale_info.vault,
+						&sale_info.admin,
+						sale_info.funds_raised,
+						Preservation::Expendable,
+					)?;
+				}
 
 				let collection_max_issuance =
 					T::NFTExt::get_collection_issuance(sale_info.reward_collection_id)?
-- 
2.43.0


From 58c63261061e2b587fe6e3df99d8dc4e62c82d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 18/58] fix: crowdsale: do not saturate the vouchers sold when
 refunding the rest

Funds above 2^128 / 10^6 made the refund to the administrator take vouchers owed to contributors.
---
 pallet/crowdsale/src/impls.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pallet/crowdsale/src/impls.rs b/pallet/crowdsale/src/impls.rs
index e22474d..fc907ff 100644
--- a/pallet/crowdsale/src/impls.rs
+++ b/pallet/crowdsale/src/impls.rs
@@ -180,10 +180,11 @@ impl<T: Config> Pallet<T> {
 					let voucher_total_issuance =
 						collection_max_issuance.saturating_mul(10u128.pow(VOUCHER_DECIMALS as u32));
 					let voucher_price = sale_info.soft_cap_price;
-					let total_vouchers = sale_info
-						.funds_raised
-						.saturating_mul(10u128.pow(VOUCHER_DECIMALS as u32))
-						.saturating_div(voucher_price);
+					let total_vouchers: Balance = U256::from(sale_info.funds_raised)
+						.saturating_mul(U256::from(10u128.pow(VOUCHER_DECIMALS as u32)))
+						.checked_div(U256::from(voucher_price))
+						.unwrap_or_default()
+						.saturated_into();
 					let refunded_vouchers = voucher_total_issuance.saturating_sub(total_vouchers);
 
 					T::MultiCurrency::transfer(
-- 
2.43.0


From 10c37725730c7698e518e137dd4d694864bf28eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 19/58] fix: assets-ext: refuse batches whose sum overflows
 instead of wrapping

split_transfer and spend_hold summed the amounts unchecked. A sum that
wraps passes the balance check (or panics with overflow checks on).
---
 pallet/assets-ext/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pallet/assets-ext/src/lib.rs b/pallet/assets-ext/src/lib.rs
index 15bbbe5..4683b7a 100644
--- a/pallet/assets-ext/src/lib.rs
+++ b/pallet/assets-ext/src/lib.rs
@@ -518,7 +518,10 @@ impl<T: Config> TransferExt for Pallet<T> {
 		asset_id: AssetId,
 		transfers: &[(Self::AccountId, Balance)],
 	) -> DispatchResult {
-		let total = transfers.iter().map(|x| x.1).sum::<Balance>();
+		let total = transfers
+			.iter()
+			.try_fold(Balance::zero(), |sum, (_, amount)| sum.checked_add(*amount))
+			.ok_or(Error::<T>::Overflow)?;
 		// This check will fail before making any transfers to restrict partial transfers
 		ensure!(
 			Self::reducible_balance(asset_id, who, Preservation::Expendable, Fortitude::Polite)
@@ -653,7 +656,10 @@ impl<T: Config> Hold for Pallet<T> {
 		asset_id: AssetId,
 		spends: &[(Self::AccountId, Balance)],
 	) -> DispatchResult {
-		let total_spend = spends.iter().map(|x| x.1).sum::<Balance>();
+		let total_spend = spends
+			.iter()
+			.try_fold(Balance::zero(), |sum, (_, amount)| sum.checked_add(*amount))
+			.ok_or(Error::<T>::Overflow)?;
 		if total_spend.is_zero() {
 			return Ok(());
 		}
-- 
2.43.0


From 871dbc1d5a2493fcc919cd864e91b0fa6aa7b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:03 +0000
Subject: [PATCH 20/58] fix: dex: forget the last product when liquidity
 changes while FeeTo is not set

Otherwise the next swap after FeeTo is set again charges the network fee on
liquidity that was added in between, diluting every provider.
---
 pallet/dex/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallet/dex/src/lib.rs b/pallet/dex/src/lib.rs
index e8a9c10..34e98a1 100644
--- a/pallet/dex/src/lib.rs
+++ b/pallet/dex/src/lib.rs
@@ -736,6 +736,9 @@ where
 				*k = U256::from(reserve_a).mul(U256::from(reserve_b))?;
 				Ok(())
 			});
+		} else {
+			// no fee is due for what the pool gains while FeeTo is not set
+			LiquidityPoolLastK::<T>::remove(lp_share_asset_id);
 		}
 
 		if is_swapped {
@@ -857,6 +860,9 @@ where
 				*k = U256::from(reserve_a).mul(U256::from(reserve_b))?;
 				Ok(())
 			});
+		} else {
+			// no fee is due for what the pool gains while FeeTo is not set
+			LiquidityPoolLastK::<T>::remove(lp_share_asset_id);
 		}
 
 		if is_swapped {
-- 
2.43.0


From 2e7183816a7317f3f312f7b01ede140ab95b6c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:03 +0000
Subject: [PATCH 21/58] fix: vortex-distribution: report the previous admin in
 AdminAccountChanged

---
 pallet/vortex-distribution/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 4a356b5..34fa4bd 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -352,11 +352,9 @@ pub mod pallet {
 			ensure_root(origin)?;
 
 			let new = T::Lookup::lookup(new)?;
+			let old_key = AdminAccount::<T>::get();
 			AdminAccount::<T>::put(&new);
-			Self::deposit_event(Event::AdminAccountChanged {
-				old_key: AdminAccount::<T>::get(),
-				new_key: new,
-			});
+			Self::deposit_event(Event::AdminAccountChanged { old_key, new_key: new });
 			Ok(())
 		}
 
-- 
2.43.0


From c8ddf7978fd572334be74fe11db0ba15f8aa422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 22/58] fix: vortex-distribution: count a replaced reward once
 and refuse totals that overflow

---
 pallet/vortex-distribution/src/lib.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 34fa4bd..3340973 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -49,7 +49,7 @@ use seed_pallet_common::CreateExt;
 use seed_primitives::{AssetId, OffchainErr};
 use sp_runtime::{
 	traits::{AccountIdConversion, CheckedAdd, One, Saturating, StaticLookup, Zero},
-	RuntimeDebug,
+	ArithmeticError, RuntimeDebug,
 };
 use sp_staking::EraIndex;
 use sp_std::{convert::TryInto, prelude::*};
@@ -541,16 +541,17 @@ pub mod pallet {
 
 			match s {
 				VtxDistStatus::Enabled => {
-					let mut total_rewards: BalanceOf<T> = Zero::zero();
+					let mut total_vortex = TotalVortex::<T>::get(id);
 					for (who, amount) in rewards.iter() {
-						total_rewards += *amount;
-						VtxDistOrderbook::<T>::mutate(id, who.clone(), |entry| {
-							*entry = (*amount, false);
-						});
+						// an account's earlier entry is replaced, so it no longer counts
+						let (replaced, _) = VtxDistOrderbook::<T>::get(id, who);
+						total_vortex = total_vortex
+							.saturating_sub(replaced)
+							.checked_add(amount)
+							.ok_or(ArithmeticError::Overflow)?;
+						VtxDistOrderbook::<T>::insert(id, who, (*amount, false));
 					}
-					TotalVortex::<T>::mutate(id, |total_vortex| {
-						*total_vortex = total_vortex.saturating_add(total_rewards);
-					});
+					TotalVortex::<T>::insert(id, total_vortex);
 					Self::deposit_event(Event::RewardRegistered { id, rewards });
 					Ok(())
 				},
-- 
2.43.0


From 2ff093be8fef5472cc69d9f2f85561a8a3ecca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 23/58] fix: vortex-distribution: redeem the exact share of
 large vault balances

vortex_balance * asset_balance saturated, which paid far too little.
---
 pallet/vortex-distribution/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 3340973..77ca58b 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -48,8 +48,11 @@ use scale_info::TypeInfo;
 use seed_pallet_common::CreateExt;
 use seed_primitives::{AssetId, OffchainErr};
 use sp_runtime::{
-	traits::{AccountIdConversion, CheckedAdd, One, Saturating, StaticLookup, Zero},
-	ArithmeticError, RuntimeDebug,
+	helpers_128bit::multiply_by_rational_with_rounding,
+	traits::{
+		AccountIdConversion, CheckedAdd, One, Saturating, StaticLookup, UniqueSaturatedInto, Zero,
+	},
+	ArithmeticError, Rounding, RuntimeDebug,
 };
 use sp_staking::EraIndex;
 use sp_std::{convert::TryInto, prelude::*};
@@ -608,7 +611,15 @@ pub mod pallet {
 				// issue. then multiply it with the vortex token amount the user wants to reddem to
 				// get the resulting asset token amount.
 				let asset_balance = T::MultiCurrency::balance(asset_id, &vault_account);
-				let redeem_amount = vortex_balance.saturating_mul(asset_balance) / total_vortex;
+				// The product may exceed the balance type.
+				let redeem_amount = multiply_by_rational_with_rounding(
+					vortex_balance.unique_saturated_into(),
+					asset_balance.unique_saturated_into(),
+					total_vortex.unique_saturated_into(),
+					Rounding::Down,
+				)
+				.ok_or(ArithmeticError::Overflow)?
+				.unique_saturated_into();
 
 				Self::safe_transfer(asset_id, &vault_account, &who, redeem_amount, false)?;
 			}
-- 
2.43.0


From a8543e10719cb4bf6a1dab543a85a612f7334a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 24/58] fix: vortex-distribution: only a payout delays the next
 payout

pay_unsigned for an id that is not being paid moved NextUnsignedAt, so anybody
could keep the offchain workers from ever paying a cycle.
---
 pallet/vortex-distribution/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 77ca58b..cb6b016 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -481,11 +481,12 @@ pub mod pallet {
 					Self::deposit_event(Event::VtxDistDone { id });
 				}
 				VtxDistPayoutPivot::<T>::insert(id, current_last_raw_key);
-			}
 
-			let current_block = <frame_system::Pallet<T>>::block_number();
-			let next_unsigned_at = current_block + T::UnsignedInterval::get();
-			<NextUnsignedAt<T>>::put(next_unsigned_at);
+				// Only an actual payout delays the next one: a call for any other id must not
+				let current_block = <frame_system::Pallet<T>>::block_number();
+				let next_unsigned_at = current_block + T::UnsignedInterval::get();
+				<NextUnsignedAt<T>>::put(next_unsigned_at);
+			}
 			Ok(())
 		}
 
-- 
2.43.0


From 67dfd1734af53b3f7a021643188ded34d1785c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 25/58] fix: do not run the futurepass precompile under
 DELEGATECALL or CALLCODE

---
 runtime/src/precompiles.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/runtime/src/precompiles.rs b/runtime/src/precompiles.rs
index 1b20b97..b388547 100644
--- a/runtime/src/precompiles.rs
+++ b/runtime/src/precompiles.rs
@@ -93,7 +93,6 @@ pub type FutureversePrecompiles<R> = PrecompileSetBuilder<
 			FuturepassPrefix,
 			FuturePassPrecompileSet<R>,
 			LimitRecursionTo<1>,
-			AllowDelegateCall,
 		>,
 	),
 >;
-- 
2.43.0


From e4b802f3e32be2b4902529a0d27dcb8cf6479683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 26/58] fix: only the owner of a futurepass may proxy evm calls
 to the futurepass precompiles

---
 runtime/src/impls.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index d1f0dd5..0f09aab 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -791,6 +791,15 @@ impl InstanceFilter<RuntimeCall> for ProxyType {
 			// the owner of the futurepass
 			return self == &ProxyType::Owner;
 		}
+		// The same goes for calls to the futurepass precompiles, as the precompile side filter
+		// (and its owner check) is not applied to an evm call made by the futurepass itself
+		if let RuntimeCall::EVM(pallet_evm::Call::call { target, .. }) = c {
+			if target == &H160::from_low_u64_be(FUTUREPASS_REGISTRAR_PRECOMPILE)
+				|| target.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX)
+			{
+				return self == &ProxyType::Owner;
+			}
+		}
 		match self {
 			ProxyType::Owner => true,
 			ProxyType::Any => true,
-- 
2.43.0


From f1f2b78dd016e23c1fa7ecf03d997d5e1f705e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 27/58] fix: do not panic on futurepass sub calls with less
 than 4 bytes of call data

---
 evm-precompiles/futurepass/src/lib.rs | 3 ++-
 runtime/src/impls.rs                  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index e70ac3b..4fd9db9 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -310,7 +310,8 @@ where
 
 		// restrict delegate access to whitelist
 		if call_to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX) {
-			let sub_call_selector = &call_data.inner[..4];
+			// no selector, no whitelisted call
+			let sub_call_selector = call_data.inner.get(..4).unwrap_or_default();
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index 0f09aab..611dfdd 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -743,7 +743,7 @@ impl pallet_evm_precompiles_futurepass::EvmProxyCallFilter for ProxyType {
 			|| call.to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX)
 		{
 			// Whitelist for precompile side
-			let sub_call_selector = &call.call_data.inner[..4];
+			let Some(sub_call_selector) = call.call_data.inner.get(..4) else { return false };
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
-- 
2.43.0


From 87022df58af88075fc54fbc0844da3c3e60cc5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 28/58] fix: a delegate who becomes owner of a futurepass does
 not keep its former permission

---
 pallet/futurepass/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/futurepass/src/lib.rs b/pallet/futurepass/src/lib.rs
index 2a74ba8..1884239 100644
--- a/pallet/futurepass/src/lib.rs
+++ b/pallet/futurepass/src/lib.rs
@@ -434,6 +434,11 @@ pub mod pallet {
 					Error::<T>::AccountAlreadyRegistered
 				);
 
+				// The new owner may already be a delegate; its permissions are replaced
+				if *new_owner != current_owner && T::Proxy::exists(&futurepass, new_owner, None) {
+					T::Proxy::remove_delegate(&caller, &futurepass, new_owner)?;
+				}
+
 				// Add the new owner as a proxy delegate with the most permissive type, i.e.,
 				T::Proxy::add_delegate(&caller, &futurepass, new_owner, &255)?; // owner is maxu8
 
-- 
2.43.0


From c50cd5de2d6982fe61bd42fcf7bae65cab20029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 29/58] fix: do not underflow on futurepass create2 calls
 without a salt

---
 evm-precompiles/futurepass/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 4fd9db9..47e615a 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -497,6 +497,7 @@ where
 				handle.record_log_costs_manual(4, 32)?;
 
 				let creation_code_len = call_data.inner.len();
+				ensure!(creation_code_len >= 32, revert("Futurepass: create2 salt missing"));
 				let call_data_vec = call_data.into_vec();
 
 				// salt is the last 32 bytes of the creation code
-- 
2.43.0


From b3fbec5f954d59e028364492f07f071adebc7e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 30/58] fix: check the function modifiers of the futurepass
 precompile

---
 evm-precompiles/futurepass/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 47e615a..6f41711 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -160,6 +160,14 @@ where
 				},
 			};
 
+			if let Err(err) = handle.check_function_modifier(match selector {
+				Action::Default | Action::ProxyCall => FunctionModifier::Payable,
+				Action::DelegateType | Action::Owner => FunctionModifier::View,
+				_ => FunctionModifier::NonPayable,
+			}) {
+				return Some(Err(err.into()));
+			}
+
 			match selector {
 				Action::Default => Self::receive(handle),
 				Action::DelegateType => Self::delegate_type(handle),
-- 
2.43.0


From 9bc5e6d485d3dba29e8697d592b225fd73ff2777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 31/58] fix: ownership calls to a futurepass precompile act on
 that futurepass only

---
 evm-precompiles/futurepass/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 6f41711..711534f 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -603,11 +603,24 @@ where
 		Ok(succeed(EvmDataWriter::new().write(Address::from(owner)).build()))
 	}
 
+	/// The caller must own this futurepass, not just any futurepass
+	fn ensure_owner(handle: &mut impl PrecompileHandle) -> EvmResult<()> {
+		handle.record_cost(RuntimeHelper::<Runtime>::db_read_gas_cost())?;
+		let caller = Runtime::AccountId::from(handle.context().caller);
+		ensure!(
+			pallet_futurepass::Holders::<Runtime>::get(caller)
+				== Some(handle.code_address().into()),
+			revert("Futurepass: NotFuturepassOwner")
+		);
+		Ok(())
+	}
+
 	fn renounce_ownership(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
 		handle.record_log_costs_manual(3, 32)?;
 
 		let caller = handle.context().caller;
 		let burn_account: H160 = H160::default();
+		Self::ensure_owner(handle)?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
@@ -640,6 +653,7 @@ where
 		read_args!(handle, { new_owner: Address });
 		let new_owner: H160 = new_owner.into();
 		let caller = handle.context().caller;
+		Self::ensure_owner(handle)?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
-- 
2.43.0


From c13aca54332631614c2272701c4b8c645730f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 32/58] fix: erc721 precompile: refuse burn in static calls

burn changes state but was checked as a view function, so a static call could burn tokens.
---
 evm-precompiles/erc721/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index a3c7e9f..4e18aed 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -183,6 +183,7 @@ where
 						| Action::ReRequestXls20Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
+						| Action::Burn
 						| Action::Mint => FunctionModifier::NonPayable,
 						_ => FunctionModifier::View,
 					}) {
-- 
2.43.0


From b379d03ea509578f02b95b6a1bbcaabf5d457d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 33/58] fix: erc721, erc1155 precompiles: do not panic on short
 answers of receivers

A receiver that returns fewer than 4 bytes made the slice of its answer panic; it now rejects the transfer.
---
 evm-precompiles/erc1155/src/lib.rs | 4 ++--
 evm-precompiles/erc721/src/lib.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index f4ccc06..276187c 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -444,7 +444,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if output.get(..4) != Some(&ON_ERC1155_RECEIVED_FUNCTION_SELECTOR[..]) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
@@ -548,7 +548,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if output.get(..4) != Some(&ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR[..]) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 4e18aed..c127031 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -489,7 +489,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC721_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if output.get(..4) != Some(&ON_ERC721_RECEIVED_FUNCTION_SELECTOR[..]) {
 						return Err(revert("ERC721: transfer to non ERC721Receiver implementer"));
 					}
 				},
-- 
2.43.0


From db60540132245e5aca15bdbb9f2f5d7873ed3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 34/58] fix: erc721 precompile: refuse too many serial numbers
 in reRequestXls20Mint

More than MaxTokensPerXls20Mint serial numbers made the conversion panic.
---
 evm-precompiles/erc721/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index c127031..e5560e2 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -1138,7 +1138,8 @@ where
 		let serial_numbers: BoundedVec<
 			SerialNumber,
 			<Runtime as pallet_xls20::Config>::MaxTokensPerXls20Mint,
-		> = BoundedVec::try_from(serial_numbers_unbounded).expect("Should not fail");
+		> = BoundedVec::try_from(serial_numbers_unbounded)
+			.map_err(|_| revert("XLS20: Too many serial numbers"))?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
-- 
2.43.0


From 8926c70ba5735bbbe4ae951c917fb1b2fe804e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:36 +0000
Subject: [PATCH 35/58] fix: erc721 precompile: XLS20CompatibilityEnabled is
 the topic of its event

The event was logged without topics, its signature hash as the data.
---
 evm-precompiles/erc721/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index e5560e2..421bfac 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -1110,7 +1110,7 @@ where
 			pallet_xls20::Call::<Runtime>::enable_xls20_compatibility { collection_id },
 		)?;
 
-		log0(handle.code_address(), SELECTOR_LOG_XLS20_ENABLED).record(handle)?;
+		log1(handle.code_address(), SELECTOR_LOG_XLS20_ENABLED, Vec::new()).record(handle)?;
 
 		// Build output.
 		Ok(succeed(EvmDataWriter::new().write(true).build()))
-- 
2.43.0


From 2bdac756103a34a1dd74f088756412ad48d8e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 36/58] fix: erc1155 precompile: refuse functions that change
 state in static calls

createToken, setMaxSupply, setBaseURI, renounceOwnership and transferOwnership were checked as view functions, so static calls could make them.
---
 evm-precompiles/erc1155/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index 276187c..e8fd821 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -165,6 +165,11 @@ where
 						| Action::Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
+						| Action::CreateToken
+						| Action::SetMaxSupply
+						| Action::SetBaseURI
+						| Action::RenounceOwnership
+						| Action::TransferOwnership
 						| Action::MintBatch => FunctionModifier::NonPayable,
 						_ => FunctionModifier::View,
 					}) {
-- 
2.43.0


From ca7f1634a26b32b85e8bcf809fbe71d0e5536dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 37/58] fix: erc1155 precompile: ask receivers of batches with
 onERC1155BatchReceived

The batch acceptance check called onERC1155Received (with the batch's arguments) and expected onERC1155BatchReceived's answer, so standard receivers rejected every batch.
---
 evm-precompiles/erc1155/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index e8fd821..dd17b91 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -541,7 +541,7 @@ where
 			// Setup input for onErc1155BatchReceived call
 			let sub_context =
 				Context { address: to, caller: operator, apparent_value: Default::default() };
-			let input = EvmDataWriter::new_with_selector(Action::OnErc1155Received)
+			let input = EvmDataWriter::new_with_selector(Action::OnErc1155BatchReceived)
 				.write::<Address>(operator.into())
 				.write::<Address>(from)
 				.write::<Vec<U256>>(ids)
-- 
2.43.0


From 4da7ea92eed7f49db7ca540991250118ceb637d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 38/58] fix: marketplace precompile: makeSimpleOffer refuses
 marketplace ids above 2^32

Such ids were made offers at marketplace 2^32-1.
---
 evm-precompiles/marketplace/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evm-precompiles/marketplace/src/lib.rs b/evm-precompiles/marketplace/src/lib.rs
index 80fd5a8..739c36b 100644
--- a/evm-precompiles/marketplace/src/lib.rs
+++ b/evm-precompiles/marketplace/src/lib.rs
@@ -952,6 +952,10 @@ where
 				marketplace_id: U256
 			}
 		);
+		ensure!(
+			marketplace_id <= u32::MAX.into(),
+			revert("Marketplace: Expected marketplace id <= 2^32")
+		);
 		let marketplace_id: u32 = marketplace_id.saturated_into();
 		ensure!(amount <= u128::MAX.into(), revert("Marketplace: Expected amount <= 2^128"));
 		let amount: Balance = amount.saturated_into();
-- 
2.43.0


From 0daf0f1fafa35ec180a987959f3cb4859b33d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 39/58] fix: do not panic when scaling amounts that exceed u128

The fees of an EVM call are scaled with the max_fee_per_gas its sender
chose, which can be any 256 bit number.
---
 pallet/common/src/utils.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pallet/common/src/utils.rs b/pallet/common/src/utils.rs
index 19ad260..da1f7da 100644
--- a/pallet/common/src/utils.rs
+++ b/pallet/common/src/utils.rs
@@ -49,14 +49,11 @@ pub fn next_asset_uuid(next_id: u32, parachain_id: u32) -> Option<u32> {
 pub fn scale_wei_to_correct_decimals(value: U256, decimals: u8) -> Balance {
 	let unit_value = U256::from(10).pow(U256::from(18) - U256::from(decimals));
 	let (quotient, remainder) = (value / unit_value, value % unit_value);
-	if remainder == U256::from(0) {
-		quotient.as_u128()
-	} else {
-		// if value has a fractional part < CPAY unit value
-		// it is lost in this divide operation
-		(quotient + 1).as_u128()
-		// (quotient).as_u128() // <- validate this is correct
-	}
+	// if value has a fractional part < CPAY unit value
+	// it is lost in this divide operation, hence round up
+	let scaled = if remainder == U256::from(0) { quotient } else { quotient + 1 };
+	// the value can be anything that a user put into a transaction, do not panic on it
+	scaled.try_into().unwrap_or(Balance::MAX)
 }
 
 /// convert X dp to 18dp (wei)
-- 
2.43.0


From 26d799751408fa3c0f14fe1ed0287e02a67badfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 40/58] fix: calls through the fee proxy cannot reach blocked
 EVM targets

---
 pallet/fee-proxy/src/runner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/fee-proxy/src/runner.rs b/pallet/fee-proxy/src/runner.rs
index c7e7e1e..f751de7 100644
--- a/pallet/fee-proxy/src/runner.rs
+++ b/pallet/fee-proxy/src/runner.rs
@@ -319,6 +319,11 @@ where
 			input = new_input;
 			target = new_target;
 
+			// The actual target could be blocked as well
+			if !<T as Config>::MaintenanceChecker::validate_evm_call(&account, &target) {
+				return Err(RunnerError { error: Self::Error::WithdrawFailed, weight });
+			}
+
 			let base_fee_per_gas = <T as Config>::EVMBaseFeeProvider::evm_base_fee_per_gas();
 			let FeePreferencesData { path, total_fee_scaled, max_fee_scaled } =
 				get_fee_preferences_data::<T, U, P>(
-- 
2.43.0


From 632b93799226a392a36ff35bb98fdc6f39d15851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 41/58] fix: prove an event with the validators of its own
 block

A validator set change while an event was pending mixed authority indices of two
sets and labelled the proof with the id of the later one, while the RPC server
resolves the indices with the set of the event's block.
---
 ethy-gadget/src/types.rs          |  8 +++++++-
 ethy-gadget/src/witness_record.rs | 31 +++++++++++++++++++------------
 ethy-gadget/src/worker.rs         |  6 +++---
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/ethy-gadget/src/types.rs b/ethy-gadget/src/types.rs
index 0b87f9c..283a5ce 100644
--- a/ethy-gadget/src/types.rs
+++ b/ethy-gadget/src/types.rs
@@ -14,7 +14,9 @@
 // You may obtain a copy of the License at the root of this project source code
 
 //! ethy-gadget types
-use seed_primitives::ethy::{EthyChainId, EventProofId, ETHY_ENGINE_ID};
+use seed_primitives::ethy::{
+	crypto::AuthorityId, EthyChainId, EventProofId, ValidatorSet, ETHY_ENGINE_ID,
+};
 
 /// Metadata about an Ethy event
 pub struct EventMetadata {
@@ -26,6 +28,10 @@ pub struct EventMetadata {
 	pub digest_data: Vec<u8>,
 	/// The (finalized) block hash where the event proof was made
 	pub block_hash: [u8; 32],
+	/// The validator set in force at that block, a proof is made from its signatures only
+	pub validators: ValidatorSet<AuthorityId>,
+	/// The XRPL subset in force at that block
+	pub xrpl_validators: ValidatorSet<AuthorityId>,
 }
 
 /// An Ethy proof request
diff --git a/ethy-gadget/src/witness_record.rs b/ethy-gadget/src/witness_record.rs
index 6fb6221..b6829a7 100644
--- a/ethy-gadget/src/witness_record.rs
+++ b/ethy-gadget/src/witness_record.rs
@@ -105,9 +105,15 @@ impl WitnessRecord {
 	pub fn has_consensus(&self, event_id: EventProofId, chain_id: EthyChainId) -> bool {
 		trace!(target: "ethy", "💎 event {:?}, witnesses: {:?}", event_id, self.witnesses.get(&event_id));
 
+		// an event is proven by the validators of its own block, they may have changed since
+		let (validators, xrpl_validators) = match self.event_metadata(event_id) {
+			Some(metadata) => (&metadata.validators, &metadata.xrpl_validators),
+			None => (&self.validators, &self.xrpl_validators),
+		};
+
 		let proof_threshold = match chain_id {
-			EthyChainId::Ethereum => self.validators.proof_threshold as usize,
-			EthyChainId::Xrpl => self.xrpl_validators.proof_threshold as usize,
+			EthyChainId::Ethereum => validators.proof_threshold as usize,
+			EthyChainId::Xrpl => xrpl_validators.proof_threshold as usize,
 		};
 
 		let witness_count = match chain_id {
@@ -117,9 +123,9 @@ impl WitnessRecord {
 				// count signatures from the XRPL authorized signers only
 				w.iter()
 					.filter(|(idx, _sig)| {
-						let ethy_pub_key = self.validators.validators.get(*idx as usize);
+						let ethy_pub_key = validators.validators.get(*idx as usize);
 						if let Some(ethy_pub_key) = ethy_pub_key {
-							self.xrpl_validators.authority_index(ethy_pub_key).is_some()
+							xrpl_validators.authority_index(ethy_pub_key).is_some()
 						} else {
 							false
 						}
@@ -162,6 +168,8 @@ impl WitnessRecord {
 			block_hash,
 			digest_data,
 			chain_id,
+			validators: self.validators.clone(),
+			xrpl_validators: self.xrpl_validators.clone(),
 		});
 	}
 	/// Note a witness if we haven't seen it before
@@ -197,7 +205,7 @@ impl WitnessRecord {
 		// witness metadata may not be available at this point
 		// if so we can't fully verify `witness` is for the correct `digest` yet (i.e. validator
 		// didn't sign a different message) store `witness` as unconfirmed for verification later
-		if let Some(metadata) = self.event_metadata(witness.event_id) {
+		let authority_index = if let Some(metadata) = self.event_metadata(witness.event_id) {
 			// verify the signature against locally found digest info from metadata
 			let Some(digest) = data_to_digest(
 				metadata.chain_id,
@@ -219,6 +227,12 @@ impl WitnessRecord {
 				debug!(target: "ethy", "💎 witness digest signature verification failed. witness: {:?}, local digest: {:?} ", witness, digest);
 				return Err(WitnessError::SignatureVerificationFailed);
 			}
+			// Convert authority secp256k1 public key into ordered index
+			// this is useful to efficiently generate the full proof later
+			metadata
+				.validators
+				.authority_index(&witness.authority_id)
+				.ok_or(WitnessError::UnknownAuthority)? as AuthorityIndex
 		} else {
 			// store witness for re-verification later
 			debug!(target: "ethy", "💎 witness recorded (digest unverified): {:?}, {:?}", witness.event_id, witness.authority_id);
@@ -229,13 +243,6 @@ impl WitnessRecord {
 			return Ok(WitnessStatus::DigestUnverified);
 		};
 
-		// Convert authority secp256k1 public key into ordered index
-		// this is useful to efficiently generate the full proof later
-		let authority_index = self
-			.validators
-			.authority_index(&witness.authority_id)
-			.ok_or(WitnessError::UnknownAuthority)? as AuthorityIndex;
-
 		// There are 2 cases:
 		// 1) first time observing an event and witness
 		// 2) observed event, first time observing a witness
diff --git a/ethy-gadget/src/worker.rs b/ethy-gadget/src/worker.rs
index d6406f8..72797b9 100644
--- a/ethy-gadget/src/worker.rs
+++ b/ethy-gadget/src/worker.rs
@@ -352,12 +352,12 @@ where
 
 		// process any unverified witnesses, received before event metadata was known
 		self.witness_record.process_unverified_witnesses(event_id);
-		let EventMetadata { chain_id, block_hash, digest_data } =
+		let EventMetadata { chain_id, block_hash, digest_data, validators, .. } =
 			self.witness_record.event_metadata(event_id).expect("metadata is known; qed");
 
 		if self.witness_record.has_consensus(event_id, *chain_id) {
 			let signatures = self.witness_record.signatures_for(event_id);
-			info!(target: "ethy", "💎 generating proof for event: {:?}, signatures: {:?}, validator set: {:?}", event_id, signatures, self.validator_set.id);
+			info!(target: "ethy", "💎 generating proof for event: {:?}, signatures: {:?}, validator set: {:?}", event_id, signatures, validators.id);
 			// NOTE: XRPL digest is unique per pubkey. For Ethereum it's the same as digest_data.
 			// Anyway EventProof.digest is not used by any other part of the code
 			let Some(digest) = data_to_digest(*chain_id, digest_data.clone(), [0_u8; 33]) else {
@@ -367,7 +367,7 @@ where
 			let event_proof = EventProof {
 				digest,
 				event_id,
-				validator_set_id: self.validator_set.id,
+				validator_set_id: validators.id,
 				block: *block_hash,
 				signatures: signatures.clone(),
 			};
-- 
2.43.0


From 429e4d4cf6514d4f10bbb4548c9702ec30f1260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 42/58] fix: never make an event proof without any signature

The XRPL threshold is the number of signers less one, so 0 for a lone signer (or
when no signer is known), and a proof was stored and announced as soon as the
request was final.
---
 ethy-gadget/src/witness_record.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ethy-gadget/src/witness_record.rs b/ethy-gadget/src/witness_record.rs
index b6829a7..a66088c 100644
--- a/ethy-gadget/src/witness_record.rs
+++ b/ethy-gadget/src/witness_record.rs
@@ -136,7 +136,8 @@ impl WitnessRecord {
 		.unwrap_or(0_usize);
 
 		trace!(target: "ethy", "💎 event {:?}, has # support: {:?}, proof threshold: {:?}", event_id, witness_count, proof_threshold);
-		witness_count >= proof_threshold
+		// a threshold of 0 is no reason to go without any signature, e.g. a lone XRPL signer
+		witness_count > 0 && witness_count >= proof_threshold
 	}
 
 	/// Return event metadata
-- 
2.43.0


From 236e3fee762df27264db0dfd9196d5fa52260c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 43/58] fix: don't let relabelled copies of a witness suppress
 votes

The event id and block number of a witness are not signed. A copy sent with
another event id, or with an old block number, marked the authority's vote as
seen and its real witness was discarded.
---
 ethy-gadget/src/gossip.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ethy-gadget/src/gossip.rs b/ethy-gadget/src/gossip.rs
index c674b17..921a558 100644
--- a/ethy-gadget/src/gossip.rs
+++ b/ethy-gadget/src/gossip.rs
@@ -68,7 +68,10 @@ where
 	BE: Backend<B>,
 {
 	topic: B::Hash,
-	known_votes: RwLock<BTreeMap<EventProofId, Vec<Public>>>,
+	/// Votes seen for an event. An event id is not covered by the signature, the digest is.
+	/// Votes are tracked with the digest so that a copy sent under another event id is not taken
+	/// for the authority's vote on that event
+	known_votes: RwLock<BTreeMap<EventProofId, Vec<(Public, [u8; 32])>>>,
 	/// Pruned list of recently completed events
 	complete_events: RwLock<VecDeque<EventProofId>>,
 	/// Public (ECDSA session) keys of active ethy validators
@@ -151,7 +154,8 @@ where
 			trace!(target: "ethy", "💎 witness from: {:?}, validator set: {:?}, event: {:?}", authority_id, validator_set_id, event_id);
 
 			let mut known_votes = self.known_votes.write();
-			let maybe_known = known_votes.get(&event_id).map(|v| v.binary_search(&authority_id));
+			let vote = (authority_id.clone(), digest);
+			let maybe_known = known_votes.get(&event_id).map(|v| v.binary_search(&vote));
 			if let Some(Ok(_)) = maybe_known {
 				trace!(target: "ethy", "💎 witness from: {:?}, event: {:?} is already known", &authority_id, event_id);
 				return ValidationResult::Discard;
@@ -166,6 +170,13 @@ where
 			// correct i.e malicious or buggy validators could sign anything as digest this will be
 			// verified later to match the locally extracted digest from finalized block headers
 			if EthyKeystore::verify_prehashed(&authority_id, &signature, &digest) {
+				// the block number is not signed, don't let an out of date copy count as seen
+				let finalized_number = self.backend.blockchain().info().finalized_number;
+				if block_number < finalized_number.into().saturating_sub(WINDOW_SIZE) {
+					info!(target: "ethy", "💎 witness: {:?}, event: {:?} sender: {:?} out of live window. mark as discard.", &authority_id, event_id, sender);
+					return ValidationResult::Discard;
+				}
+
 				// Make the vote as seen
 				trace!(target: "ethy", "💎 verify prehashed OK, waiting lock: {:?}, event: {:?}", &authority_id, event_id);
 				match maybe_known {
@@ -173,23 +184,17 @@ where
 						// we've seen this nonce and need to add the new vote
 						// insert_index is guaranteed to be `Err` as it has not been recorded yet
 						if let Some(v) = known_votes.get_mut(&event_id) {
-							v.insert(index, authority_id.clone())
+							v.insert(index, vote)
 						}
 					},
 					None => {
 						// we haven't seen this nonce yet
-						known_votes.insert(event_id, vec![authority_id.clone()]);
+						known_votes.insert(event_id, vec![vote]);
 					},
 					Some(Ok(_)) => (), // dropped/checked prior as duplicate
 				}
 
 				trace!(target: "ethy", "💎 valid witness: {:?}, event: {:?}", &authority_id, event_id);
-				let finalized_number = self.backend.blockchain().info().finalized_number;
-				if block_number < finalized_number.into().saturating_sub(WINDOW_SIZE) {
-					info!(target: "ethy", "💎 witness: {:?}, event: {:?} sender: {:?} out of live window. mark as discard.", &authority_id, event_id, sender);
-					return ValidationResult::Discard;
-				}
-
 				return ValidationResult::ProcessAndKeep(self.topic);
 			} else {
 				// TODO: decrease peer reputation
-- 
2.43.0


From 93754622a3c10ae086f8799981758dfbdc71ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 44/58] fix: use the XRPL signers of the block that asks for a
 proof

The XRPL signers were only read when the validator set id changed, but they can
be set at any time.
---
 ethy-gadget/src/worker.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ethy-gadget/src/worker.rs b/ethy-gadget/src/worker.rs
index 72797b9..19fb448 100644
--- a/ethy-gadget/src/worker.rs
+++ b/ethy-gadget/src/worker.rs
@@ -28,8 +28,8 @@ use sp_runtime::{
 use std::{sync::Arc, time::Duration};
 
 use seed_primitives::ethy::{
-	crypto::AuthorityId as Public, ConsensusLog, EthyApi, EthyEcdsaToPublicKey, EventProof,
-	EventProofId, ValidatorSet, VersionedEventProof, Witness, ETHY_ENGINE_ID,
+	crypto::AuthorityId as Public, ConsensusLog, EthyApi, EthyChainId, EthyEcdsaToPublicKey,
+	EventProof, EventProofId, ValidatorSet, VersionedEventProof, Witness, ETHY_ENGINE_ID,
 	GENESIS_AUTHORITY_SET_ID,
 };
 
@@ -298,6 +298,17 @@ where
 			}
 		}
 
+		// The XRPL signers may change without the validator set, use those of the requests' block
+		if extract_proof_requests::<B>(&new_header)
+			.iter()
+			.any(|request| request.chain_id == EthyChainId::Xrpl)
+		{
+			self.witness_record.set_validators(
+				self.validator_set.clone(),
+				self.xrpl_validator_set(&new_header).unwrap_or_default(),
+			);
+		}
+
 		// Process proof requests
 		if let Some(authority_id) =
 			self.key_store.authority_id(self.validator_set.validators.as_slice())
-- 
2.43.0


From 55d75987d10e5eba0a78a3b94dac3ee53649ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 45/58] fix: keep proving pending events when later ones
 complete first

A node that completed two later events took a pending earlier one for complete
and ignored its witnesses from then on.
---
 ethy-gadget/src/witness_record.rs | 33 ++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/ethy-gadget/src/witness_record.rs b/ethy-gadget/src/witness_record.rs
index a66088c..99a7be2 100644
--- a/ethy-gadget/src/witness_record.rs
+++ b/ethy-gadget/src/witness_record.rs
@@ -156,6 +156,21 @@ impl WitnessRecord {
 			}
 		}
 	}
+	/// Whether `event_id` is complete, or older than all recently completed events
+	fn is_complete(&self, event_id: EventProofId) -> bool {
+		// First check if the event_id is contained within completed_events
+		if self.completed_events.contains(&event_id) {
+			return true;
+		}
+		// If we have only 1 event, and it's not in completed events, that means the
+		// completed_events id is 1 and the new event_id is 0, so comparing with the lowest
+		// won't work
+		match self.completed_events.first() {
+			Some(completed_watermark) if self.completed_events.len() > 1 =>
+				event_id <= *completed_watermark,
+			_ => false,
+		}
+	}
 	/// Note event metadata
 	/// This must exist in order to locally verify witnesses
 	pub fn note_event_metadata(
@@ -165,6 +180,9 @@ impl WitnessRecord {
 		block_hash: [u8; 32],
 		chain_id: EthyChainId,
 	) {
+		if self.is_complete(event_id) {
+			return;
+		}
 		self.event_meta.entry(event_id).or_insert(EventMetadata {
 			block_hash,
 			digest_data,
@@ -178,19 +196,10 @@ impl WitnessRecord {
 	pub fn note_event_witness(&mut self, witness: &Witness) -> Result<WitnessStatus, WitnessError> {
 		// Check if the witness is for a completed event, based on the pruned completed_events vec
 		// First check if the event_id is contained within completed_events
-		if self.completed_events.iter().any(|id| id == &witness.event_id) {
+		// An event with metadata is still in progress, even if events with a higher id completed
+		// first
+		if self.is_complete(witness.event_id) && self.event_metadata(witness.event_id).is_none() {
 			return Err(WitnessError::CompletedEvent);
-		} else {
-			// If we have only 1 event, and it's not in completed events, that means the
-			// completed_events id is 1 and the new event_id is 0, so comparing with the lowest
-			// won't work
-			if self.completed_events.len() > 1 {
-				if let Some(completed_watermark) = self.completed_events.first() {
-					if witness.event_id <= *completed_watermark {
-						return Err(WitnessError::CompletedEvent);
-					}
-				}
-			}
 		}
 
 		if self
-- 
2.43.0


From 891b1c4cc26c75f0822fedd03056626934f960ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 46/58] fix: query the validator set again when reading it
 failed

A failure to read the set at a validator set change left the previous one in
force until the next change.
---
 ethy-gadget/src/worker.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ethy-gadget/src/worker.rs b/ethy-gadget/src/worker.rs
index 19fb448..8d943d3 100644
--- a/ethy-gadget/src/worker.rs
+++ b/ethy-gadget/src/worker.rs
@@ -293,7 +293,11 @@ where
 					}
 				},
 				None => {
+					// don't carry on with validators that are no longer in force, try again with
+					// the next block
 					warn!(target: "ethy", "💎 Validator set is empty");
+					self.witness_record.set_validators(Default::default(), Default::default());
+					self.validator_set = ValidatorSet::empty();
 				},
 			}
 		}
-- 
2.43.0


From 73b44e3d432ec98a4783b718438f1d4eb2f88f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 47/58] fix: never use more weight for a migration than is
 available

The last step of a block was started with any weight left, and with either of
ref time and proof size used up.
---
 pallet/migration/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pallet/migration/src/lib.rs b/pallet/migration/src/lib.rs
index d5fd09b..6bf450c 100644
--- a/pallet/migration/src/lib.rs
+++ b/pallet/migration/src/lib.rs
@@ -226,7 +226,7 @@ impl<T: Config> Pallet<T> {
 		let base_weight = T::WeightInfo::migrate();
 
 		// Check we have enough weight to perform at least one step
-		if weight_limit.all_lt(base_weight.saturating_add(max_step_weight)) {
+		if weight_limit.any_lt(base_weight.saturating_add(max_step_weight)) {
 			return Weight::zero();
 		}
 
@@ -254,7 +254,10 @@ impl<T: Config> Pallet<T> {
 		used_weight = used_weight.saturating_add(base_weight);
 
 		log::debug!(target: LOG_TARGET, "🦆 Starting multi-block migration for block {:?}", block_number);
-		while used_weight.all_lt(weight_limit) && step_counter < block_limit {
+		// Only start a step if the weight it can use at most is still available
+		while used_weight.saturating_add(max_step_weight).all_lte(weight_limit) &&
+			step_counter < block_limit
+		{
 			// Perform one migration step on the current migration
 			let step_result = T::CurrentMigration::step(last_key);
 			last_key = step_result.last_key.clone();
-- 
2.43.0


From 637e7936cb9cfb96891184a15b4a1ec361aa61e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 48/58] fix: start a new migration from its first entry

The key an abandoned migration had reached was kept, and the entries before it
were skipped by the next one.
---
 pallet/migration/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallet/migration/src/lib.rs b/pallet/migration/src/lib.rs
index 6bf450c..b8652d4 100644
--- a/pallet/migration/src/lib.rs
+++ b/pallet/migration/src/lib.rs
@@ -161,6 +161,9 @@ pub mod pallet {
 
 			// Return read for Status within migration_in_progress function
 			Status::<T>::put(MigrationStatus::InProgress { steps_done: 0 });
+			// A previous migration may have been abandoned halfway, the new one starts from the first
+			// entry
+			LastKey::<T>::kill();
 			Self::deposit_event(Event::MigrationStarted);
 			log::debug!(target: LOG_TARGET, "🦆 A new multi-block migration has started");
 			DbWeight::get().reads_writes(1, 1)
-- 
2.43.0


From 09fa2d4755457aaaea4371e22fef50b84fa50f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 49/58] fix: an XRPL transaction with an empty public key
 panicked

---
 pallet/xrpl/src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/xrpl/src/types.rs b/pallet/xrpl/src/types.rs
index c14094c..e364692 100644
--- a/pallet/xrpl/src/types.rs
+++ b/pallet/xrpl/src/types.rs
@@ -121,7 +121,8 @@ impl XRPLTransaction {
 			hex::decode(&self.signing_pub_key).map_err(|_| "Error decoding hex string")?;
 		// check prefix (ignore-case "ED") to determine the public key type
 		// uppercase first 2 characters and compare with "ED"
-		let key_prefix = &self.signing_pub_key[0..2].to_uppercase();
+		let key_prefix =
+			self.signing_pub_key.get(0..2).ok_or("Missing public key")?.to_uppercase();
 		match key_prefix.as_str() {
 			"ED" => {
 				// remove the first byte (prefix) from the public key
-- 
2.43.0


From 0fd5d1d87d5db14f7521797d0534877c9fd70ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 50/58] fix: doughnut limits did not hold for amounts of 2^64
 or more

---
 runtime/src/impls.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index 611dfdd..6a4185b 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -985,7 +985,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Numeric(value_u128.saturated_into())),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -1004,7 +1004,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Numeric(value_u128.saturated_into())),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -1054,7 +1054,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						&[
 							PactType::Numeric(Numeric(asset_id_u64)),
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(*amount as u64)),
+							PactType::Numeric(Numeric((*amount).saturated_into())),
 							PactType::Numeric(Numeric(keep_alive_u64)),
 						],
 					)
-- 
2.43.0


From 3337fdc73221de6e1f14a94b262e9ad704df4cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 51/58] fix: a revoked doughnut could be used with bytes
 appended to it

---
 pallet/doughnut/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallet/doughnut/src/lib.rs b/pallet/doughnut/src/lib.rs
index 76678ae..698ad55 100644
--- a/pallet/doughnut/src/lib.rs
+++ b/pallet/doughnut/src/lib.rs
@@ -593,10 +593,13 @@ where
 		doughnut_payload: Vec<u8>,
 	) -> Result<Doughnut, DispatchError> {
 		// decode the doughnut
-		let doughnut_decoded = Doughnut::decode(&mut &doughnut_payload[..]).map_err(|e| {
+		let mut input = &doughnut_payload[..];
+		let doughnut_decoded = Doughnut::decode(&mut input).map_err(|e| {
 			log!(info, "🍩 failed to decode doughnut: {:?}", e);
 			Error::<T>::DoughnutDecodeFailed
 		})?;
+		// a doughnut is revoked by the hash of its bytes, so it must have only one form
+		ensure!(input.is_empty(), Error::<T>::DoughnutDecodeFailed);
 
 		// only supports v1 for now
 		let Doughnut::V1(_) = doughnut_decoded.clone() else {
-- 
2.43.0


From c73e10a122b41722325afe9cb315bb2d84b5b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 52/58] fix: a revoked doughnut or holder could still charge
 fees and tips to the issuer

---
 pallet/doughnut/src/lib.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/pallet/doughnut/src/lib.rs b/pallet/doughnut/src/lib.rs
index 698ad55..1c39bae 100644
--- a/pallet/doughnut/src/lib.rs
+++ b/pallet/doughnut/src/lib.rs
@@ -26,7 +26,7 @@ use sp_runtime::FixedPointOperand;
 
 use alloc::{boxed::Box, string::String, vec::Vec};
 use doughnut_rs::{
-	doughnut::Doughnut,
+	doughnut::{Doughnut, DoughnutV1},
 	signature::{crypto::verify_signature, SignatureVersion},
 	traits::{DoughnutApi, DoughnutVerify},
 	Topping,
@@ -300,6 +300,9 @@ where
 		else {
 			return Err("🍩 Doughnut validation failed.".into());
 		};
+		// A revoked doughnut or holder must not be able to charge fees (and tips) to the issuer
+		crate::Pallet::<T>::ensure_not_revoked(doughnut, &doughnut_v1)
+			.map_err(|_| "🍩 Doughnut or holder is revoked.")?;
 		// No need to do the doughnut verification again since already did in check_self_contained()
 		let Ok(fee_payer_doughnut) = crate::Pallet::<T>::get_address(doughnut_v1.fee_payer()) else {
 			log!(info, "🍩 failed to get fee payer address: {:?}", doughnut_v1.fee_payer());
@@ -477,15 +480,8 @@ pub mod pallet {
 				Error::<T>::HolderNotWhitelisted
 			);
 
-			// Ensure doughnut is not revoked
-			let doughnut_hash = keccak_256(&doughnut);
-			ensure!(!BlockedDoughnuts::<T>::get(doughnut_hash), Error::<T>::DoughnutRevoked);
-
-			// Ensure holder is not revoked
-			ensure!(
-				!BlockedHolders::<T>::get(issuer_address.clone(), holder_address.clone()),
-				Error::<T>::HolderRevoked
-			);
+			// Ensure doughnut and holder are not revoked
+			Self::ensure_not_revoked(&doughnut, &doughnut_v1)?;
 
 			// permission domain - topping validations
 			let Some(mut topping_payload) = doughnut_v1.get_topping(TRN_PERMISSION_DOMAIN) else {
@@ -589,6 +585,22 @@ where
 		Ok(T::AccountId::from(H160::from_slice(&account_id_20.0)))
 	}
 
+	/// Ensures that neither the doughnut nor its holder have been revoked by the issuer
+	fn ensure_not_revoked(doughnut: &[u8], doughnut_v1: &DoughnutV1) -> DispatchResult {
+		ensure!(
+			!BlockedDoughnuts::<T>::get(keccak_256(doughnut)),
+			Error::<T>::DoughnutRevoked
+		);
+		ensure!(
+			!BlockedHolders::<T>::get(
+				Self::get_address(doughnut_v1.issuer)?,
+				Self::get_address(doughnut_v1.holder)?
+			),
+			Error::<T>::HolderRevoked
+		);
+		Ok(())
+	}
+
 	fn run_doughnut_common_validations(
 		doughnut_payload: Vec<u8>,
 	) -> Result<Doughnut, DispatchError> {
-- 
2.43.0


From 20ce67a9a20af23248d1d94bd2be23a40865e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 53/58] fix: maintenance mode and blocked accounts did not
 apply to wallet-signed calls

---
 runtime/src/lib.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index e7631ba..aad4dcb 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -2204,9 +2204,17 @@ impl fp_self_contained::SelfContainedCall for RuntimeCall {
 				Some(validate_self_contained_inner(self, call, signed_info, dispatch_info, len))
 			},
 			RuntimeCall::Xrpl(ref call) => {
+				if let Err(e) = check_wallet_call_maintenance(self, signed_info, dispatch_info, len)
+				{
+					return Some(Err(e));
+				}
 				call.validate_self_contained(signed_info, dispatch_info, len)
 			},
 			RuntimeCall::Doughnut(ref call) => {
+				if let Err(e) = check_wallet_call_maintenance(self, signed_info, dispatch_info, len)
+				{
+					return Some(Err(e));
+				}
 				call.validate_self_contained(signed_info, dispatch_info, len)
 			},
 			_ => None,
@@ -2224,9 +2232,17 @@ impl fp_self_contained::SelfContainedCall for RuntimeCall {
 				call.pre_dispatch_self_contained(signed_info, dispatch_info, len)
 			},
 			RuntimeCall::Xrpl(ref call) => {
+				if let Err(e) = check_wallet_call_maintenance(self, signed_info, dispatch_info, len)
+				{
+					return Some(Err(e));
+				}
 				call.pre_dispatch_self_contained(signed_info, dispatch_info, len)
 			},
 			RuntimeCall::Doughnut(ref call) => {
+				if let Err(e) = check_wallet_call_maintenance(self, signed_info, dispatch_info, len)
+				{
+					return Some(Err(e));
+				}
 				call.pre_dispatch_self_contained(signed_info, dispatch_info, len)
 			},
 			_ => None,
@@ -2262,6 +2278,31 @@ impl fp_self_contained::SelfContainedCall for RuntimeCall {
 	}
 }
 
+/// XRPL and doughnut transactions carry no signed extensions of the runtime: maintenance mode and
+/// blocked accounts are applied to their signer (and its EOA, if that is a futurepass) here
+fn check_wallet_call_maintenance(
+	call: &RuntimeCall,
+	signer: &H160,
+	dispatch_info: &DispatchInfoOf<RuntimeCall>,
+	len: usize,
+) -> Result<(), TransactionValidityError> {
+	use sp_runtime::traits::{SignedExtension as _, StaticLookup as _};
+	let inner_call: &RuntimeCall = match call {
+		RuntimeCall::Xrpl(pallet_xrpl::Call::transact { call, .. }) => call,
+		RuntimeCall::Doughnut(pallet_doughnut::Call::transact { call, .. }) => call,
+		_ => return Ok(()),
+	};
+	for who in [*signer, impls::FuturepassLookup::unlookup(*signer)] {
+		pallet_maintenance_mode::MaintenanceChecker::<Runtime>::new().validate(
+			&who.into(),
+			inner_call,
+			dispatch_info,
+			len,
+		)?;
+	}
+	Ok(())
+}
+
 fn validate_self_contained_inner(
 	call: &RuntimeCall,
 	eth_call: &pallet_ethereum::Call<Runtime>,
-- 
2.43.0


From abce7ff9578486c0c485e6b93d9e2c454ff55924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:54 +0000
Subject: [PATCH 54/58] fix: a malformed hex string in an answer of the
 Ethereum node panicked the notary worker

---
 pallet/ethy/src/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pallet/ethy/src/types.rs b/pallet/ethy/src/types.rs
index cb379d3..42be84e 100644
--- a/pallet/ethy/src/types.rs
+++ b/pallet/ethy/src/types.rs
@@ -614,7 +614,9 @@ impl<'a> Visitor<'a> for BytesVisitor {
 		E: Error,
 	{
 		if value.len() >= 2 && value.starts_with("0x") && value.len() & 1 == 0 {
-			Ok(decode_hex(&value[2..]).expect("it is hex"))
+			decode_hex(&value[2..]).map_err(|_| {
+				Error::custom("Invalid bytes format. Expected hexadecimal digits after the 0x prefix")
+			})
 		} else {
 			Err(Error::custom(
 				"Invalid bytes format. Expected a 0x-prefixed hex string with even length",
@@ -656,7 +658,11 @@ impl<'a> Deserialize<'a> for Bytes {
 
 // decode a non-0x prefixed hex string into a `Vec<u8>`
 fn decode_hex(s: &str) -> Result<Vec<u8>, core::num::ParseIntError> {
-	(0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16)).collect()
+	(0..s.len())
+		.step_by(2)
+		// not at a character boundary: not a hex digit either
+		.map(|i| u8::from_str_radix(s.get(i..i + 2).unwrap_or_default(), 16))
+		.collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From d76d1f30f987bbdf2e56db56dce183c52ab35f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:54 +0000
Subject: [PATCH 55/58] fix: a challenge or call a notary voted on kept it from
 voting on the ones after it

---
 pallet/ethy/src/impls.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 5863835..8f8234a 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -270,22 +270,23 @@ impl<T: Config> Pallet<T> {
 		// this will be invoked once every block
 		// we limit the total claims per invocation using `CLAIMS_PER_BLOCK` so we don't stall block
 		// production.
-		for event_claim_id in PendingClaimChallenges::<T>::get().iter().take(CLAIMS_PER_BLOCK) {
+		for event_claim_id in PendingClaimChallenges::<T>::get()
+			.iter()
+			// skip if we've notarized it previously
+			.filter(|event_claim_id| {
+				!<EventNotarizations<T>>::contains_key::<EventClaimId, T::EthyId>(
+					**event_claim_id,
+					active_key.clone(),
+				)
+			})
+			.take(CLAIMS_PER_BLOCK)
+		{
 			let Some(event_claim) = PendingEventClaims::<T>::get(event_claim_id) else {
 				// This shouldn't happen
 				log!(error, "💎 notarization failed, event claim: {:?} not found", event_claim_id);
 				continue;
 			};
 
-			// skip if we've notarized it previously
-			if <EventNotarizations<T>>::contains_key::<EventClaimId, T::EthyId>(
-				*event_claim_id,
-				active_key.clone(),
-			) {
-				log!(trace, "💎 already notarized claim: {:?}, ignoring...", event_claim_id);
-				continue;
-			}
-
 			let result = Self::offchain_try_notarize_event(*event_claim_id, event_claim);
 			log!(trace, "💎 claim verification status: {:?}", &result);
 			let payload = NotarizationPayload::Event {
@@ -407,16 +408,17 @@ impl<T: Config> Pallet<T> {
 	pub(crate) fn do_call_notarization_ocw(active_key: &T::EthyId, authority_index: u16) {
 		// we limit the total claims per invocation using `CALLS_PER_BLOCK` so we don't stall block
 		// production
-		for call_id in EthCallRequests::<T>::get().iter().take(CALLS_PER_BLOCK) {
+		for call_id in EthCallRequests::<T>::get()
+			.iter()
 			// skip if we've notarized it previously
-			if <EthCallNotarizations<T>>::contains_key::<EthCallId, T::EthyId>(
-				*call_id,
-				active_key.clone(),
-			) {
-				log!(trace, "💎 already notarized call: {:?}, ignoring...", call_id);
-				continue;
-			}
-
+			.filter(|call_id| {
+				!<EthCallNotarizations<T>>::contains_key::<EthCallId, T::EthyId>(
+					**call_id,
+					active_key.clone(),
+				)
+			})
+			.take(CALLS_PER_BLOCK)
+		{
 			if let Some(request) = EthCallRequestInfo::<T>::get(call_id) {
 				let result = Self::offchain_try_eth_call(&request);
 				log!(trace, "💎 checked call status: {:?}", &result);
-- 
2.43.0


From ddcb6742e5b96161302cf20ce7cadfab8d1e6dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:54 +0000
Subject: [PATCH 56/58] fix: genuine messages with a fee were voted invalid
 when challenged

---
 pallet/ethy/src/impls.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 8f8234a..0100847 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -356,20 +356,16 @@ impl<T: Config> Pallet<T> {
 				&& log.topics.contains(&SUBMIT_BRIDGE_EVENT_SELECTOR.into())
 		});
 
-		let submitted_event_data = ethabi::encode(&[
-			Token::Uint(event_claim_id.into()),
-			Token::Address(source),
-			Token::Address(destination),
-			Token::Bytes(data.into_inner()),
-		]);
 		if let Some(log) = matching_log {
 			// check if the Ethereum event data matches what was reported
 			// in the original claim
-			if log.data != submitted_event_data {
+			let submitted_event =
+				(event_claim_id, EventClaim { tx_hash, data, source, destination });
+			if Self::decode_event_data(tx_hash, log.data.clone()).as_ref() != Ok(&submitted_event) {
 				log!(
 					trace,
 					"💎 mismatch in provided data vs. observed data. provided: {:?} observed: {:?}",
-					submitted_event_data,
+					submitted_event,
 					log.data,
 				);
 				return EventClaimResult::UnexpectedData;
-- 
2.43.0


From 560af3a671afe05873d4c853311d49ff95f16161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:54 +0000
Subject: [PATCH 57/58] fix: only the first message of an Ethereum transaction
 could be notarized

---
 pallet/ethy/src/impls.rs | 49 ++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 0100847..886cbec 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -350,32 +350,33 @@ impl<T: Config> Pallet<T> {
 			return EventClaimResult::UnexpectedSource;
 		}
 
-		// search for a bridge deposit event in this tx receipt
-		let matching_log = tx_receipt.logs.iter().find(|log| {
-			log.transaction_hash == Some(tx_hash)
-				&& log.topics.contains(&SUBMIT_BRIDGE_EVENT_SELECTOR.into())
-		});
-
-		if let Some(log) = matching_log {
-			// check if the Ethereum event data matches what was reported
-			// in the original claim
-			let submitted_event =
-				(event_claim_id, EventClaim { tx_hash, data, source, destination });
-			if Self::decode_event_data(tx_hash, log.data.clone()).as_ref() != Ok(&submitted_event) {
-				log!(
-					trace,
-					"💎 mismatch in provided data vs. observed data. provided: {:?} observed: {:?}",
-					submitted_event,
-					log.data,
-				);
-				return EventClaimResult::UnexpectedData;
-			}
-			if log.address != ContractAddress::<T>::get() {
-				return EventClaimResult::UnexpectedContractAddress;
-			}
-		} else {
+		// search for the bridge deposit events in this tx receipt
+		let mut bridge_logs = tx_receipt
+			.logs
+			.iter()
+			.filter(|log| {
+				log.transaction_hash == Some(tx_hash)
+					&& log.topics.contains(&SUBMIT_BRIDGE_EVENT_SELECTOR.into())
+			})
+			.peekable();
+		if bridge_logs.peek().is_none() {
 			return EventClaimResult::NoTxLogs;
 		}
+		// check if the Ethereum event data matches what was reported in the original claim, one
+		// transaction may have sent several messages
+		let submitted_event = (event_claim_id, EventClaim { tx_hash, data, source, destination });
+		let mut matching_logs = bridge_logs
+			.filter(|log| {
+				Self::decode_event_data(tx_hash, log.data.clone()).as_ref() == Ok(&submitted_event)
+			})
+			.peekable();
+		if matching_logs.peek().is_none() {
+			log!(trace, "💎 no log of {:?} matches the claim: {:?}", tx_hash, submitted_event);
+			return EventClaimResult::UnexpectedData;
+		}
+		if !matching_logs.any(|log| log.address == ContractAddress::<T>::get()) {
+			return EventClaimResult::UnexpectedContractAddress;
+		}
 
 		//  have we got enough block confirmations to be re-org safe?
 		let observed_block_number: u64 = tx_receipt.block_number.saturated_into();
-- 
2.43.0


From d771a53f84b103def4019b5d509f37b83b4b6d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:14 +0000
Subject: [PATCH 58/58] fix: the NFI migration left the former records behind
 and converted converted ones again

---
 runtime/src/migrations/nfi.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/runtime/src/migrations/nfi.rs b/runtime/src/migrations/nfi.rs
index 59ec437..5fb0319 100644
--- a/runtime/src/migrations/nfi.rs
+++ b/runtime/src/migrations/nfi.rs
@@ -127,9 +127,12 @@ pub mod v1 {
 		let chain_id = ChainId::<T>::get();
 
 		// Migrate NFI Data
-		for (token_id, sub_type, nfi_data) in NfiData::<T>::iter() {
+		// The old and the new map share their prefix: take all old entries out before the first new
+		// one is inserted, otherwise the iteration comes across the new ones as well
+		let old_data: Vec<_> = NfiData::<T>::drain().collect();
+		for (token_id, sub_type, nfi_data) in old_data {
 			weight = weight
-				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 1));
+				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 2));
 			let multi_chain_token = MultiChainTokenId {
 				chain_id,
 				collection_id: GenericCollectionId::U32(token_id.0),
@@ -139,9 +142,10 @@ pub mod v1 {
 		}
 
 		// Migrate NFIEnabled
-		for (collection_id, sub_type, enabled) in NfiEnabled::<T>::iter() {
+		let old_enabled: Vec<_> = NfiEnabled::<T>::drain().collect();
+		for (collection_id, sub_type, enabled) in old_enabled {
 			weight = weight
-				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 1));
+				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 2));
 			let collection_id = GenericCollectionId::U32(collection_id);
 			NewNfiEnabled::<T>::insert((chain_id, collection_id), sub_type, enabled);
 		}
-- 
2.43.0

