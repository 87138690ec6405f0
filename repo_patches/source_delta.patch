From 1d1948f553d268129cf2698682785c551447ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 01/14] fix: pin the core bridge and fee collector recorded in
 the lookup table

---
 .../src/instructions/luts.rs                       | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/solana/programs/example-native-token-transfers/src/instructions/luts.rs b/solana/programs/example-native-token-transfers/src/instructions/luts.rs
index 8749856..cf68d8d 100644
--- a/solana/programs/example-native-token-transfers/src/instructions/luts.rs
+++ b/solana/programs/example-native-token-transfers/src/instructions/luts.rs
@@ -25,6 +25,7 @@
 use anchor_lang::prelude::*;
 use solana_address_lookup_table_program;
 use solana_program::program::{invoke, invoke_signed};
+use wormhole_anchor_sdk::wormhole;
 
 use crate::{config::Config, queue::outbox::OutboxRateLimit, transceivers::wormhole::accounts::*};
 
@@ -108,9 +109,22 @@ pub struct Entries<'info> {
     pub outbox_rate_limit: Account<'info, OutboxRateLimit>,
 
     // NOTE: this includes the system program so we don't need to add it in the outer context
+    #[account(
+        // NOTE: these two are normally checked by the wormhole core bridge when a
+        // message is posted, but this instruction posts none. Without the checks,
+        // anyone could record accounts of their own choosing in the LUT.
+        constraint = wormhole.bridge.key()
+            == find_wormhole_address(wormhole::BridgeData::SEED_PREFIX),
+        constraint = wormhole.fee_collector.key()
+            == find_wormhole_address(wormhole::FeeCollector::SEED_PREFIX),
+    )]
     pub wormhole: WormholeAccounts<'info>,
 }
 
+fn find_wormhole_address(seed: &[u8]) -> Pubkey {
+    Pubkey::find_program_address(&[seed], &wormhole::program::ID).0
+}
+
 pub fn initialize_lut(ctx: Context<InitializeLUT>, recent_slot: u64) -> Result<()> {
     let (ix, lut_address) = solana_address_lookup_table_program::instruction::create_lookup_table(
         ctx.accounts.authority.key(),
-- 
2.43.0


From 2e6970bdec54dd9d98204369336ca946e866e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:40 +0000
Subject: [PATCH 02/14] fix: declared sizes of transceiver messages and
 broadcasts match the bytes written

---
 solana/modules/ntt-messages/src/transceiver.rs           | 3 +++
 solana/modules/ntt-messages/src/transceivers/wormhole.rs | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/solana/modules/ntt-messages/src/transceiver.rs b/solana/modules/ntt-messages/src/transceiver.rs
index 798fc1b..80331cd 100644
--- a/solana/modules/ntt-messages/src/transceiver.rs
+++ b/solana/modules/ntt-messages/src/transceiver.rs
@@ -177,8 +177,11 @@ where
     fn written_size(&self) -> usize {
         4 // prefix
         + self.source_ntt_manager.len()
+        + self.recipient_ntt_manager.len()
         + u16::SIZE.unwrap() // length prefix
         + self.ntt_manager_payload.written_size()
+        + u16::SIZE.unwrap() // length prefix
+        + self.transceiver_payload.len()
     }
 
     fn write<W>(&self, writer: &mut W) -> io::Result<()>
diff --git a/solana/modules/ntt-messages/src/transceivers/wormhole.rs b/solana/modules/ntt-messages/src/transceivers/wormhole.rs
index a96feff..48db6b8 100644
--- a/solana/modules/ntt-messages/src/transceivers/wormhole.rs
+++ b/solana/modules/ntt-messages/src/transceivers/wormhole.rs
@@ -46,7 +46,7 @@ impl AnchorSerialize for WormholeTransceiverInfo {
 }
 
 impl Readable for WormholeTransceiverInfo {
-    const SIZE: Option<usize> = Some(32 + 1 + 32 + 1);
+    const SIZE: Option<usize> = Some(4 + 32 + 1 + 32 + 1);
 
     fn read<R>(reader: &mut R) -> std::io::Result<Self>
     where
@@ -119,7 +119,7 @@ impl AnchorSerialize for WormholeTransceiverRegistration {
 }
 
 impl Readable for WormholeTransceiverRegistration {
-    const SIZE: Option<usize> = Some(2 + 32);
+    const SIZE: Option<usize> = Some(4 + 2 + 32);
 
     fn read<R>(reader: &mut R) -> std::io::Result<Self>
     where
-- 
2.43.0


From 85ee03ae71381d7529f31cb482437659dbdb0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:40 +0000
Subject: [PATCH 03/14] fix: governance messages and actions declare and write
 their full size

---
 .../wormhole-governance/src/instructions/governance.rs         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solana/programs/wormhole-governance/src/instructions/governance.rs b/solana/programs/wormhole-governance/src/instructions/governance.rs
index 1c92eb2..df82fe3 100644
--- a/solana/programs/wormhole-governance/src/instructions/governance.rs
+++ b/solana/programs/wormhole-governance/src/instructions/governance.rs
@@ -229,6 +229,7 @@ impl Writeable for GovernanceMessage {
         Self::MODULE.len()
         + GovernanceAction::SIZE.unwrap() // action
         + u16::SIZE.unwrap() // chain
+        + <[u8; 32]>::SIZE.unwrap() // governance_program_id
         + <[u8; 32]>::SIZE.unwrap() // program_id
         + u16::SIZE.unwrap() // accounts_len
         + self.accounts.iter()  // accounts
@@ -370,7 +371,7 @@ impl Writeable for GovernanceAction {
         W: io::Write,
     {
         match self {
-            GovernanceAction::Undefined => Ok(()),
+            GovernanceAction::Undefined => 0u8.write(writer),
             GovernanceAction::EvmCall => 1u8.write(writer),
             GovernanceAction::SolanaCall => 2u8.write(writer),
         }
-- 
2.43.0


From d2e922d9bf62e80886cf36b7260288e31d257801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:15 +0000
Subject: [PATCH 04/14] fix: length fields count the type byte of typed
 payloads

---
 solana/modules/ntt-messages/src/ntt.rs         | 5 +++--
 solana/modules/ntt-messages/src/ntt_manager.rs | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/solana/modules/ntt-messages/src/ntt.rs b/solana/modules/ntt-messages/src/ntt.rs
index acebbad..9ce3069 100644
--- a/solana/modules/ntt-messages/src/ntt.rs
+++ b/solana/modules/ntt-messages/src/ntt.rs
@@ -77,7 +77,7 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NativeTokenTransfer<A> {
             + self.to.len()
             + ChainId::SIZE.unwrap()
             + if A::SIZE != Some(0) {
-                u16::SIZE.unwrap() + self.additional_payload.written_size()
+                u16::SIZE.unwrap() + self.additional_payload.payload_written_size()
             } else {
                 0
             }
@@ -102,7 +102,8 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NativeTokenTransfer<A> {
         to_chain.write(writer)?;
 
         if A::SIZE != Some(0) {
-            let len: u16 = u16::try_from(additional_payload.written_size()).expect("u16 overflow");
+            let len: u16 =
+                u16::try_from(additional_payload.payload_written_size()).expect("u16 overflow");
             len.write(writer)?;
             // TODO: ditto todo in transceiver.rs
             A::write_payload(additional_payload, writer)
diff --git a/solana/modules/ntt-messages/src/ntt_manager.rs b/solana/modules/ntt-messages/src/ntt_manager.rs
index 9107c88..ea1c53c 100644
--- a/solana/modules/ntt-messages/src/ntt_manager.rs
+++ b/solana/modules/ntt-messages/src/ntt_manager.rs
@@ -62,7 +62,7 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NttManagerMessage<A> {
         self.id.len()
             + self.sender.len()
             + u16::SIZE.unwrap() // payload length
-            + self.payload.written_size()
+            + self.payload.payload_written_size()
     }
 
     fn write<W>(&self, writer: &mut W) -> io::Result<()>
@@ -77,7 +77,7 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NttManagerMessage<A> {
 
         id.write(writer)?;
         writer.write_all(sender)?;
-        let len: u16 = u16::try_from(payload.written_size()).expect("u16 overflow");
+        let len: u16 = u16::try_from(payload.payload_written_size()).expect("u16 overflow");
         len.write(writer)?;
         // TODO: ditto todo in transceiver.rs
         A::write_payload(payload, writer)
-- 
2.43.0


From 49a5c6025e54488bca489ad15fbde178fb42fb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:06 +0000
Subject: [PATCH 05/14] fix: quote the delivery price with instructions indexed
 by registration

The public quote parsed the transceiver instructions against the number of
enabled transceivers, while a transfer parses them against the number of
registered ones. After a transceiver had been removed, the quote reverted
for instructions (or transceivers) a transfer accepts.
---
 evm/src/NttManager/ManagerBase.sol | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evm/src/NttManager/ManagerBase.sol b/evm/src/NttManager/ManagerBase.sol
index 8a336fc..0fcc783 100644
--- a/evm/src/NttManager/ManagerBase.sol
+++ b/evm/src/NttManager/ManagerBase.sol
@@ -102,8 +102,12 @@ abstract contract ManagerBase is
     ) public view returns (uint256[] memory, uint256) {
         address[] memory enabledTransceivers = _getEnabledTransceiversStorage();
 
+        // NOTE: instructions are indexed by the registration index of a transceiver, which
+        // can exceed the number of enabled transceivers once one has been removed
         TransceiverStructs.TransceiverInstruction[] memory instructions = TransceiverStructs
-            .parseTransceiverInstructions(transceiverInstructions, enabledTransceivers.length);
+            .parseTransceiverInstructions(
+            transceiverInstructions, _getRegisteredTransceiversStorage().length
+        );
 
         return _quoteDeliveryPrice(recipientChain, instructions, enabledTransceivers);
     }
-- 
2.43.0


From 7f7b06b1a3273c0ba6dc2aa6201a46214ece47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:06 +0000
Subject: [PATCH 06/14] fix: allow limits to be set again when rate limiting is
 off

With a rate limit duration of zero the current capacity reads as the
maximum, so carrying it over to a new limit overflowed or exceeded the limit:
setting a limit or updating a peer a second time reverted.
---
 evm/src/libraries/RateLimiter.sol | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evm/src/libraries/RateLimiter.sol b/evm/src/libraries/RateLimiter.sol
index 877c86e..22b67fb 100644
--- a/evm/src/libraries/RateLimiter.sol
+++ b/evm/src/libraries/RateLimiter.sol
@@ -81,7 +81,9 @@ abstract contract RateLimiter is IRateLimiter, IRateLimiterEvents {
 
     function _setLimit(TrimmedAmount limit, RateLimitParams storage rateLimitParams) internal {
         TrimmedAmount oldLimit = rateLimitParams.limit;
-        if (oldLimit.isNull()) {
+        // NOTE: without rate limiting the current capacity is not tracked (it always reads as
+        // the maximum), so it can't be carried over to the new limit
+        if (oldLimit.isNull() || rateLimitDuration == 0) {
             rateLimitParams.currentCapacity = limit;
         } else {
             TrimmedAmount currentCapacity = _getCurrentCapacity(rateLimitParams);
-- 
2.43.0


From 49a18be0491a64d8f2a88f6149bbf323df2c97b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:16 +0000
Subject: [PATCH 07/14] fix: read u64 quoter values of more than 53 bits

BN.toNumber() throws above 2^53 - 1, so a chain whose relaying is paused
(base price u64::MAX) made getRegisteredChain, isRelayEnabled and
isRelayingAvailable throw instead of reporting that it is paused.
---
 solana/ts/lib/utils.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solana/ts/lib/utils.ts b/solana/ts/lib/utils.ts
index bfda734..3b22475 100644
--- a/solana/ts/lib/utils.ts
+++ b/solana/ts/lib/utils.ts
@@ -81,7 +81,8 @@ export const U64 = {
 
     return ret;
   },
-  from: (amount: BN, unit: number) => amount.toNumber() / unit,
+  // note: not amount.toNumber(), which throws for values of more than 53 bits
+  from: (amount: BN, unit: number) => Number(amount.toString()) / unit,
 };
 
 type Seed = Uint8Array | string;
-- 
2.43.0


From 9cd83e6e80a74e40ff51b3943a06692705b0c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:17 +0000
Subject: [PATCH 08/14] fix: pass the fee recipient to the quoter's close_relay

The account is required by the program and cannot be inferred from the
IDL, so createCloseRelayInstruction could not build an instruction.
---
 solana/ts/lib/quoter.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solana/ts/lib/quoter.ts b/solana/ts/lib/quoter.ts
index 9105eac..d2c0a08 100644
--- a/solana/ts/lib/quoter.ts
+++ b/solana/ts/lib/quoter.ts
@@ -397,12 +397,14 @@ export class NttQuoter {
     authority: PublicKey,
     outboxItem: PublicKey
   ) {
+    const { feeRecipient } = await this.getInstance();
     return this.program.methods
       .closeRelay()
       .accounts({
         authority,
         instance: this.instance,
         relayRequest: this.relayRequestPda(outboxItem),
+        feeRecipient,
       })
       .instruction();
   }
-- 
2.43.0


From 746fef5d47ff1c7b49b367df37a655a54e69d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:17 +0000
Subject: [PATCH 09/14] fix: read the program data account with its tag and
 program bytes

The layout had neither the leading 4 byte state tag nor the program that
follows the upgrade authority, so it matched no program data account and
the quoter's createInitalizeInstruction always threw.
---
 solana/ts/lib/utils.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/solana/ts/lib/utils.ts b/solana/ts/lib/utils.ts
index 3b22475..c27d320 100644
--- a/solana/ts/lib/utils.ts
+++ b/solana/ts/lib/utils.ts
@@ -43,6 +43,15 @@ export const pubKeyConversion = {
 
 //neither anchor nor solana web3 have a built-in way to parse this, because ofc they don't
 export const programDataLayout = [
+  // UpgradeableLoaderState::ProgramData
+  {
+    name: "tag",
+    binary: "uint",
+    endianness: "little",
+    size: 4,
+    custom: 3,
+    omit: true,
+  },
   { name: "slot", binary: "uint", endianness: "little", size: 8 },
   {
     name: "upgradeAuthority",
@@ -64,6 +73,7 @@ export const programDataLayout = [
       ],
     ],
   },
+  { name: "program", binary: "bytes" },
 ] as const satisfies Layout;
 export const programVersionLayout = [
   { name: "length", binary: "uint", endianness: "little", size: 4 },
-- 
2.43.0


From 8a6d84597442277d4ab2886df4401c656d660211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:17 +0000
Subject: [PATCH 10/14] fix: pass every account of transfer_ownership

The owner, upgrade lock, program data and loader accounts cannot be
inferred from the IDL, so setOwner could not build its instruction.
---
 solana/ts/lib/ntt.ts | 7 +++++++
 solana/ts/sdk/ntt.ts | 1 +
 2 files changed, 8 insertions(+)

diff --git a/solana/ts/lib/ntt.ts b/solana/ts/lib/ntt.ts
index c3507c1..49861d3 100644
--- a/solana/ts/lib/ntt.ts
+++ b/solana/ts/lib/ntt.ts
@@ -103,6 +103,7 @@ export namespace NTT {
       derivePda(["registered_transceiver", transceiver.toBytes()], programId);
     const lutAccount = (): PublicKey => derivePda("lut", programId);
     const lutAuthority = (): PublicKey => derivePda("lut_authority", programId);
+    const upgradeLock = (): PublicKey => derivePda("upgrade_lock", programId);
     const sessionAuthority = (
       sender: PublicKey,
       args: TransferArgs
@@ -135,6 +136,7 @@ export namespace NTT {
       registeredTransceiver,
       lutAccount,
       lutAuthority,
+      upgradeLock,
     };
   };
 
@@ -696,6 +698,7 @@ export namespace NTT {
   export async function createTransferOwnershipInstruction(
     program: Program<NttBindings.NativeTokenTransfer<IdlVersion>>,
     args: {
+      owner: PublicKey;
       newOwner: PublicKey;
     },
     pdas?: Pdas
@@ -705,7 +708,11 @@ export namespace NTT {
       .transferOwnership()
       .accounts({
         config: pdas.configAccount(),
+        owner: args.owner,
         newOwner: args.newOwner,
+        upgradeLock: pdas.upgradeLock(),
+        programData: programDataAddress(program.programId),
+        bpfLoaderUpgradeableProgram: BPF_LOADER_UPGRADEABLE_PROGRAM_ID,
       })
       .instruction();
   }
diff --git a/solana/ts/sdk/ntt.ts b/solana/ts/sdk/ntt.ts
index 3e8982d..c93b730 100644
--- a/solana/ts/sdk/ntt.ts
+++ b/solana/ts/sdk/ntt.ts
@@ -511,6 +511,7 @@ export class SolanaNtt<N extends Network, C extends SolanaChains>
   async *setOwner(newOwner: AnySolanaAddress, payer: AccountAddress<C>) {
     const sender = new SolanaAddress(payer).unwrap();
     const ix = await NTT.createTransferOwnershipInstruction(this.program, {
+      owner: sender,
       newOwner: new SolanaAddress(newOwner).unwrap(),
     });
 
-- 
2.43.0


From 64778a81efcadf1aaff7be8c0ba18f5ee0d7f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:34 +0000
Subject: [PATCH 11/14] fix: request the gas drop-off that was asked for

createRequestRelayInstruction takes the drop-off in eth; transfer passed
it in gwei, so the request asked for 1e9 times the amount and exceeded
either the chain's maximum or the quoted fee.
---
 solana/ts/lib/quoter.ts | 1 +
 solana/ts/sdk/ntt.ts    | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/solana/ts/lib/quoter.ts b/solana/ts/lib/quoter.ts
index d2c0a08..9ecc84a 100644
--- a/solana/ts/lib/quoter.ts
+++ b/solana/ts/lib/quoter.ts
@@ -27,6 +27,7 @@ import {
 const USD_UNIT = 1e6;
 const GWEI_PER_ETH = 1e9;
 export const WEI_PER_GWEI = 1e9;
+export const WEI_PER_ETH = WEI_PER_GWEI * GWEI_PER_ETH;
 
 const SEED_PREFIX_INSTANCE = "instance";
 const SEED_PREFIX_REGISTERED_CHAIN = "registered_chain";
diff --git a/solana/ts/sdk/ntt.ts b/solana/ts/sdk/ntt.ts
index c93b730..8ee80fe 100644
--- a/solana/ts/sdk/ntt.ts
+++ b/solana/ts/sdk/ntt.ts
@@ -48,7 +48,7 @@ import {
   getNttProgram,
   getTransceiverProgram,
 } from "../lib/bindings.js";
-import { NTT, NttQuoter, WEI_PER_GWEI } from "../lib/index.js";
+import { NTT, NttQuoter, WEI_PER_ETH } from "../lib/index.js";
 import { parseVersion } from "../lib/utils.js";
 
 export class SolanaNttWormholeTransceiver<
@@ -872,8 +872,8 @@ export class SolanaNtt<N extends Network, C extends SolanaChains>
         outboxItem.publicKey,
         destination.chain,
         Number(fee) / LAMPORTS_PER_SOL,
-        // NOTE: quoter expects gas dropoff to be in terms of gwei
-        Number(options.gasDropoff ?? 0n) / WEI_PER_GWEI
+        // NOTE: createRequestRelayInstruction expects gas dropoff to be in terms of eth
+        Number(options.gasDropoff ?? 0n) / WEI_PER_ETH
       );
       tx.add(relayIx);
     }
-- 
2.43.0


From 20e6260bb13e4b1cd719122663de33729e696cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:34 +0000
Subject: [PATCH 12/14] fix: refuse to quote a relay to a chain whose relaying
 is paused

isRelayEnabled returns a promise, which is always truthy.
---
 solana/ts/sdk/ntt.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solana/ts/sdk/ntt.ts b/solana/ts/sdk/ntt.ts
index 8ee80fe..4aa0ae7 100644
--- a/solana/ts/sdk/ntt.ts
+++ b/solana/ts/sdk/ntt.ts
@@ -535,7 +535,7 @@ export class SolanaNtt<N extends Network, C extends SolanaChains>
     options: Ntt.TransferOptions
   ): Promise<bigint> {
     if (!this.quoter) throw new Error("Quoter not available");
-    if (!this.quoter.isRelayEnabled(destination))
+    if (!(await this.quoter.isRelayEnabled(destination)))
       throw new Error("Relay not enabled");
 
     return await this.quoter.quoteDeliveryPrice(
-- 
2.43.0


From c5ccba252ab72aa4079f1cecc13ceebfb39eca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:24 +0000
Subject: [PATCH 13/14] fix: EVM client reports a queued inbound transfer's
 amount in token units

---
 evm/ts/src/ntt.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evm/ts/src/ntt.ts b/evm/ts/src/ntt.ts
index 07b4cb8..c0a9299 100644
--- a/evm/ts/src/ntt.ts
+++ b/evm/ts/src/ntt.ts
@@ -580,9 +580,11 @@ export class EvmNtt<N extends Network, C extends EvmChains>
     if (queuedTransfer.txTimestamp > 0n) {
       const { recipient, amount, txTimestamp } = queuedTransfer;
       const duration = await this.getRateLimitDuration();
+      const tokenDecimals = await this.getTokenDecimals();
       return {
         recipient: new EvmAddress(recipient) as AccountAddress<C>,
-        amount: amount,
+        // NOTE: the contract stores the queued amount as an encoded trimmed amount
+        amount: untrim(decodeTrimmedAmount(amount), tokenDecimals),
         rateLimitExpiryTimestamp: Number(txTimestamp + duration),
       };
     }
-- 
2.43.0


From a727fa513cc7ce05e1768a36bcda418fee98381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:24 +0000
Subject: [PATCH 14/14] fix: EVM client answers queue queries for managers
 without rate limiting

---
 evm/ts/src/ntt.ts | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/evm/ts/src/ntt.ts b/evm/ts/src/ntt.ts
index c0a9299..188f950 100644
--- a/evm/ts/src/ntt.ts
+++ b/evm/ts/src/ntt.ts
@@ -35,7 +35,12 @@ import {
   NttTransceiver,
   WormholeNttTransceiver,
 } from "@wormhole-foundation/sdk-definitions-ntt";
-import { Contract, type Provider, type TransactionRequest } from "ethers";
+import {
+  Contract,
+  isCallException,
+  type Provider,
+  type TransactionRequest,
+} from "ethers";
 import {
   NttBindings,
   NttManagerBindings,
@@ -574,12 +579,18 @@ export class EvmNtt<N extends Network, C extends EvmChains>
     fromChain: Chain,
     transceiverMessage: Ntt.Message
   ): Promise<Ntt.InboundQueuedTransfer<C> | null> {
-    const queuedTransfer = await this.manager.getInboundQueuedTransfer(
-      Ntt.messageDigest(fromChain, transceiverMessage)
-    );
-    if (queuedTransfer.txTimestamp > 0n) {
+    const duration = await this.getRateLimitDuration();
+    const queuedTransfer = await this.manager
+      .getInboundQueuedTransfer(
+        Ntt.messageDigest(fromChain, transceiverMessage)
+      )
+      .catch((e) => {
+        // NOTE: NttManagerNoRateLimiting has no queue, and reverts
+        if (duration === 0n && isCallException(e)) return null;
+        throw e;
+      });
+    if (queuedTransfer && queuedTransfer.txTimestamp > 0n) {
       const { recipient, amount, txTimestamp } = queuedTransfer;
-      const duration = await this.getRateLimitDuration();
       const tokenDecimals = await this.getTokenDecimals();
       return {
         recipient: new EvmAddress(recipient) as AccountAddress<C>,
-- 
2.43.0

