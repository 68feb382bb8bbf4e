From 280b997303b1f7b5f59553a5383d3076b59c30bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 1/7] fix: distribute at most epoch_count epochs, none for 0,
 and do not overflow on a huge count

---
 contracts/rewards/src/contract/execute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/rewards/src/contract/execute.rs b/contracts/rewards/src/contract/execute.rs
index d89d0ed..f130191 100644
--- a/contracts/rewards/src/contract/execute.rs
+++ b/contracts/rewards/src/contract/execute.rs
@@ -130,11 +130,11 @@ where
             .map_or(0, |last_processed| last_processed + 1);
 
         let to = std::cmp::min(
-            (from + epoch_process_limit).saturating_sub(1), // for process limit =1 "from" and "to" must be equal
+            from.saturating_add(epoch_process_limit).saturating_sub(1), // for process limit =1 "from" and "to" must be equal
             cur_epoch.epoch_num.saturating_sub(EPOCH_PAYOUT_DELAY),
         );
 
-        if to < from || cur_epoch.epoch_num < EPOCH_PAYOUT_DELAY {
+        if epoch_process_limit == 0 || to < from || cur_epoch.epoch_num < EPOCH_PAYOUT_DELAY {
             return Err(ContractError::NoRewardsToDistribute.into());
         }
 
-- 
2.43.0


From 84a900e8727dbaab6d48836aa9a1f652b2a921db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 2/7] fix: look up the named worker of the named service in
 GetWorker (the arguments were swapped)

---
 contracts/service-registry/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 9fa129e..07775b4 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -337,7 +337,7 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> Result<Binary, ContractErr
         QueryMsg::GetWorker {
             service_name,
             worker,
-        } => to_binary(&query::get_worker(deps, worker, service_name)?).map_err(|err| err.into()),
+        } => to_binary(&query::get_worker(deps, service_name, worker)?).map_err(|err| err.into()),
         QueryMsg::GetService { service_name } => {
             to_binary(&query::get_service(deps, service_name)?).map_err(|err| err.into())
         }
-- 
2.43.0


From 7c45b0714ae58e96a5801edbb6928c914039ea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 3/7] fix: refuse to bond with coins of another denomination
 next to the bond, they would be locked forever

---
 contracts/service-registry/src/contract.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 07775b4..7a53d95 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -205,14 +205,10 @@ pub mod execute {
             .may_load(deps.storage, &service_name)?
             .ok_or(ContractError::ServiceNotFound)?;
 
-        let bond = if !info.funds.is_empty() {
-            info.funds
-                .iter()
-                .find(|coin| coin.denom == service.bond_denom)
-                .ok_or(ContractError::WrongDenom)?
-                .amount
-        } else {
-            Uint128::zero() // sender can rebond currently unbonding funds by just sending no new funds
+        let bond = match info.funds.as_slice() {
+            [] => Uint128::zero(), // sender can rebond currently unbonding funds by just sending no new funds
+            [coin] if coin.denom == service.bond_denom => coin.amount,
+            _ => Err(ContractError::WrongDenom)?, // any other coins would be locked forever
         };
 
         WORKERS.update(
-- 
2.43.0


From 73425aa90b92c96e11012d4784508fcee53593fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 4/7] fix: do not replace a command batch that sessions may
 already refer to

ConstructProof looks for a stored batch under the id of the requested messages
alone. A batch that also hands over to a new worker set is stored under another
id, so asking again in the same block for the same messages, in another order,
built a second batch with the same id and overwrote the first one. The proof of
the session started before was then made of data its signatures do not cover.
---
 contracts/multisig-prover/src/execute.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/contracts/multisig-prover/src/execute.rs b/contracts/multisig-prover/src/execute.rs
index 3fe06fe..6042bbc 100644
--- a/contracts/multisig-prover/src/execute.rs
+++ b/contracts/multisig-prover/src/execute.rs
@@ -48,9 +48,15 @@ pub fn construct_proof(
             }
             let batch = builder.build()?;
 
-            COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
-
-            batch
+            // a batch with a new worker set is stored under a different id than the one looked up above.
+            // If it exists already, sessions may refer to it, so it must not be replaced
+            match COMMANDS_BATCH.may_load(deps.storage, &batch.id)? {
+                Some(existing) => existing,
+                None => {
+                    COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
+                    batch
+                }
+            }
         }
     };
 
-- 
2.43.0


From 43a601c8d764823eb39e120c7611913402160cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 5/7] fix: do not route a message to nexus twice when its id is
 repeated within a batch

---
 .../nexus-gateway/src/contract/execute.rs     | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/contracts/nexus-gateway/src/contract/execute.rs b/contracts/nexus-gateway/src/contract/execute.rs
index c848d6e..057340b 100644
--- a/contracts/nexus-gateway/src/contract/execute.rs
+++ b/contracts/nexus-gateway/src/contract/execute.rs
@@ -47,21 +47,16 @@ where
             return Err(report!(ContractError::Unauthorized));
         }
 
-        let msgs = msgs
-            .into_iter()
-            .filter_map(|msg| match self.store.is_message_routed(&msg.cc_id) {
-                Ok(true) => None,
-                Ok(false) => Some(Ok(msg)),
-                Err(err) => Some(Err(err)),
-            })
-            .collect::<Result<Vec<_>>>()?;
-
-        msgs.iter()
-            .try_for_each(|msg| self.store.set_message_routed(&msg.cc_id))?;
-
-        let msgs: Vec<nexus::Message> = msgs.into_iter().map(Into::into).collect();
+        let mut unrouted: Vec<nexus::Message> = vec![];
+        for msg in msgs {
+            // recording each message before checking the next one also skips an id that is repeated within the batch
+            if !self.store.is_message_routed(&msg.cc_id)? {
+                self.store.set_message_routed(&msg.cc_id)?;
+                unrouted.push(msg.into());
+            }
+        }
 
-        Ok(Response::new().add_messages(msgs))
+        Ok(Response::new().add_messages(unrouted))
     }
 }
 
-- 
2.43.0


From 11879606588feedc79e521716bc85399c6324c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 6/7] fix: pass on the verifier's answer to IsVerified (it was
 decoded as Binary and always refused)

---
 contracts/aggregate-verifier/src/contract.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/contracts/aggregate-verifier/src/contract.rs b/contracts/aggregate-verifier/src/contract.rs
index 09b1b0a..bf01cdb 100644
--- a/contracts/aggregate-verifier/src/contract.rs
+++ b/contracts/aggregate-verifier/src/contract.rs
@@ -99,10 +99,13 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> StdResult<Binary> {
     match msg {
         QueryMsg::IsVerified { messages } => {
             let verifier = CONFIG.load(deps.storage)?.verifier;
-            deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
-                contract_addr: verifier.to_string(),
-                msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
-            }))
+            let verified: Vec<(CrossChainId, bool)> =
+                deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
+                    contract_addr: verifier.to_string(),
+                    msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
+                }))?;
+
+            to_binary(&verified)
         }
     }
 }
-- 
2.43.0


From ab7d664c1f9c5b3fab6c7130b2bb1d78420c0a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 7/7] fix: do not deserialize zero into nonempty Uint128,
 Uint256 and Timestamp

---
 packages/axelar-wasm-std/src/nonempty/timestamp.rs | 1 +
 packages/axelar-wasm-std/src/nonempty/uint.rs      | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/packages/axelar-wasm-std/src/nonempty/timestamp.rs b/packages/axelar-wasm-std/src/nonempty/timestamp.rs
index 2501f8c..b984685 100644
--- a/packages/axelar-wasm-std/src/nonempty/timestamp.rs
+++ b/packages/axelar-wasm-std/src/nonempty/timestamp.rs
@@ -2,6 +2,7 @@ use crate::nonempty::Error;
 use cosmwasm_schema::cw_serde;
 
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Timestamp")]
 pub struct Timestamp(cosmwasm_std::Timestamp);
 
 impl TryFrom<cosmwasm_std::Timestamp> for Timestamp {
diff --git a/packages/axelar-wasm-std/src/nonempty/uint.rs b/packages/axelar-wasm-std/src/nonempty/uint.rs
index 862c782..91e48b8 100644
--- a/packages/axelar-wasm-std/src/nonempty/uint.rs
+++ b/packages/axelar-wasm-std/src/nonempty/uint.rs
@@ -49,6 +49,7 @@ impl fmt::Display for Uint64 {
 
 // TODO: consider using macro for these types
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint256")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint256(cosmwasm_std::Uint256);
 
@@ -89,6 +90,7 @@ impl AsRef<cosmwasm_std::Uint256> for Uint256 {
 }
 
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint128")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint128(cosmwasm_std::Uint128);
 
-- 
2.43.0

