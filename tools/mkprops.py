#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = "solana/programs/"
M = P + "example-native-token-transfers/src/"
T = P + "ntt-transceiver/src/"
Q = P + "ntt-quoter/src/"
L = "solana/modules/ntt-messages/src/"
OUT = []

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    OUT.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Cross-chain supply is conserved across connected deployments",
  "For two connected deployments (a locking hub and a burning spoke), in every history of outbound transfers, message publications, repeated, reordered or withheld deliveries, redemptions and releases, the tokens locked at the hub always equal the tokens in circulation on the spoke plus everything in flight in either direction. No history creates or destroys value, and users' wallets together with in-flight transfers always add up to the initial total.",
  ["histories", "schedules"], "all interleavings of user, relayer and clock actions on both chains, with every message deliverable any number of times in any order",
  "The Solana integration tests need git dependencies and are not runnable here, and even upstream they drive a handful of single-chain histories; none runs two deployments against each other.",
  [M + "instructions/transfer.rs", M + "instructions/redeem.rs", M + "instructions/release_inbound.rs", M + "transceivers/wormhole/instructions/release_outbound.rs", M + "transceivers/wormhole/instructions/receive_message.rs"],
  [("lock/burn on the way out, unlock/mint on the way in, at most once per message", M + "instructions/transfer.rs"), ("release status state machine", M + "queue/inbox.rs"), ("released bitmap per transceiver", M + "queue/outbox.rs")],
  [("custody", "tokens locked on the hub", M + "config.rs"), ("mint supply", "tokens circulating on the spoke", "SPL mint")],
  ["token account balances and mint supply after every transaction"])

p("C02", "An outbound transfer debits exactly what it announces",
  "For every accepted outbound transfer, the sender's token account loses exactly the amount recorded for the destination (the requested amount rounded down to what min(8, local, remote) decimals can represent), the dust stays with the sender, and the same amount enters custody (locking) or leaves the mint supply with custody unchanged (burning). The queued transfer names the token account's owner as sender, the requested recipient and chain, and the peer currently registered for that chain; no other balance changes.",
  ["inputs", "configurations", "histories"], "all amounts, decimals pairs, modes, token programs and prior balances within the enumerated domains",
  "Unit tests check a few trim() values; the transfer instruction is only exercised by integration tests that sample one amount and one decimals pair and cannot run here.",
  [M + "instructions/transfer.rs", L + "trimmed_amount.rs"],
  [("dust removal before the token transfer", M + "instructions/transfer.rs"), ("trim/untrim", L + "trimmed_amount.rs"), ("custody balance comparison before/after", M + "instructions/transfer.rs")],
  [("outbox item", "the announced transfer", M + "queue/outbox.rs")], ["balances, mint supply and outbox account after each transfer"])

p("C03", "An inbound transfer pays out once, exactly, to its recipient",
  "For every inbound message, over every order and repetition of redeem and release calls, at most one payout happens, it happens only after the message was approved and its release time reached, and it credits exactly the message's amount scaled to local decimals to the canonical token account of the message's recipient. Locking deployments take it from custody and burning deployments from newly minted supply with custody unchanged; calling release earlier moves nothing, and the release status never goes backwards.",
  ["histories", "inputs"], "all sequences of redeem/release/clock actions over several messages, recipients and modes",
  "Tests run the honest sequence once; the double-spend question is about every other order and repetition.",
  [M + "instructions/redeem.rs", M + "instructions/release_inbound.rs", M + "queue/inbox.rs"],
  [("ReleaseStatus state machine", M + "queue/inbox.rs"), ("associated-token constraint on the recipient", M + "instructions/release_inbound.rs"), ("untrim", L + "trimmed_amount.rs")],
  [("inbox item", "status, amount and recipient of one message", M + "queue/inbox.rs")], ["recipient balance, custody, supply, inbox account"])

p("C04", "Only authentic peer messages addressed to this deployment are redeemed",
  "A message is accepted for redemption only if it was delivered by a transceiver that is registered and enabled, names as its source manager the peer registered for the chain it came from, is addressed to this manager program and to this chain, and lives in an account owned by that transceiver's program. Any message or account combination that violates one of these is rejected and changes nothing.",
  ["inputs", "configurations"], "all single and pairwise deviations (wrong chain, peer, manager, owner, transceiver, account substitution) from an honest redemption",
  "The existing negative tests try three hand-picked wrong messages; the guarantee covers every combination of message field and account substitution.",
  [M + "instructions/redeem.rs", M + "messages.rs", L + "transceiver.rs"],
  [("account constraints of the redeem instruction", M + "instructions/redeem.rs"), ("zero-copy message accessors", L + "transceiver.rs"), ("owner check of the message account", M + "messages.rs")],
  (), ["acceptance of redeem; inbox account"])

p("C05", "Approval needs a quorum of distinct enabled transceivers",
  "An inbound message becomes approved exactly when the number of distinct, currently enabled transceivers that delivered that very message reaches the configured threshold; repeated delivery by one transceiver counts once and never counts for another message. Once approved, further deliveries change neither its status, amount, recipient nor release time.",
  ["histories", "configurations"], "all delivery orders and repetitions over up to 3 transceivers, thresholds 1..3, enabled subsets and two competing messages",
  "Tests only run with one transceiver and threshold 1.",
  [M + "instructions/redeem.rs", M + "bitmap.rs", M + "queue/inbox.rs"],
  [("votes bitmap intersected with the enabled bitmap", M + "bitmap.rs"), ("threshold comparison", M + "instructions/redeem.rs")],
  [("votes", "which transceivers delivered the message", M + "queue/inbox.rs")], ["inbox account after each redeem"])

p("C06", "Each queued transfer is published once per transceiver, faithfully",
  "A queued outbound transfer is published at most once by each registered and enabled transceiver (built-in or standalone), never before its release time and never by an unregistered or disabled one; asking too early either fails or, if the caller opted out of reverting, does nothing. Every published message is emitted by the deployment's own emitter through Wormhole at finalized consistency and carries exactly the queued transfer: its id, sender, amount, source token, recipient, destination chain, source manager and peer manager.",
  ["histories", "inputs", "configurations"], "all orders/repetitions of publish calls by each transceiver, release times around the boundary, enabled subsets",
  "Tests publish one message once and once more; combinations of two transceivers, delays and registrations are never run.",
  [M + "transceivers/wormhole/instructions/release_outbound.rs", T + "wormhole/instructions/release_outbound.rs", M + "instructions/mark_outbox_item_as_released.rs", M + "queue/outbox.rs"],
  [("released bitmap", M + "queue/outbox.rs"), ("mark-as-released call restricted to the transceiver's signer", M + "instructions/mark_outbox_item_as_released.rs"), ("post_message", M + "transceivers/wormhole/accounts.rs")],
  [("released", "which transceivers have published", M + "queue/outbox.rs")], ["messages created at the core bridge, outbox account"])

p("C07", "Outbound rate limit: within capacity immediate, above it delayed",
  "An outbound transfer is releasable immediately exactly when its amount fits the outbound capacity at that moment, and then reduces the capacity by exactly that amount; capacity refills linearly to the limit over 24 hours and never exceeds it. A transfer above capacity is rejected unless queuing was requested, and a queued one becomes releasable exactly 24 hours later without touching any capacity.",
  ["histories", "inputs"], "all sequences of transfers, clock advances and limit changes within the bounds",
  "One unit test walks one fixed sequence of the limiter; the property is about every sequence and the instructions that use it.",
  [M + "instructions/transfer.rs", M + "queue/rate_limit.rs", M + "queue/outbox.rs"],
  [("consume_or_delay", M + "queue/rate_limit.rs"), ("insert into outbox", M + "instructions/transfer.rs")],
  [("outbound rate limit account", "limit, capacity at last use, time of last use", M + "queue/outbox.rs")], ["rate-limit account and outbox release time"])

p("C08", "Inbound rate limit is enforced per source chain",
  "An approved inbound transfer is releasable immediately exactly when its amount fits the inbound capacity of its own source chain at that moment, and then reduces that chain's capacity by exactly that amount; otherwise it becomes releasable exactly 24 hours later and consumes nothing. Inbound traffic from one chain never changes the inbound capacity of another.",
  ["histories", "inputs"], "all interleavings of approvals from two chains with clock advances and limit changes",
  "No existing test reaches the inbound limiter with two chains.",
  [M + "instructions/redeem.rs", M + "queue/rate_limit.rs", M + "queue/inbox.rs"],
  [("per-chain rate limit account", M + "queue/inbox.rs"), ("consume_or_delay", M + "queue/rate_limit.rs")],
  [("inbound rate limit account per chain", "limit, capacity, last use", M + "queue/inbox.rs")], ["rate-limit accounts and inbox release time"])

p("C09", "Backflow refills the opposite rate limit by the same amount",
  "A transfer that is sent immediately refills the inbound capacity of its destination chain, and one received immediately refills the outbound capacity, by exactly its amount and never beyond the respective limit. Delayed transfers refill nothing, now or when they are later released, and no other chain's capacity changes.",
  ["histories", "inputs"], "all interleavings of immediate and delayed transfers in both directions over two chains",
  "The unit test of the limiter calls refill() directly; whether the instructions call it for the right chain, amount and cases is untested.",
  [M + "instructions/transfer.rs", M + "instructions/redeem.rs", M + "queue/rate_limit.rs"],
  [("refill", M + "queue/rate_limit.rs")],
  (), ["rate-limit accounts before/after each instruction"])

p("C10", "Rate-limiter arithmetic is exact for every state, amount and time",
  "For every stored limiter state (limit, capacity, last use), elapsed time, amount and new limit, up to the largest 64-bit values, the resulting capacity equals min(limit, capacity + floor(limit * elapsed / 86400)) adjusted by the operation (consume, refill, or shift by the limit change, floored at 0 and capped at the limit), without overflow or wrap-around. Capacity is always between 0 and the limit.",
  ["inputs"], "the full product of boundary values of all inputs",
  "The unit test evaluates seven points.",
  [M + "queue/rate_limit.rs"],
  [("capacity_at, consume_or_delay, refill, set_limit", M + "queue/rate_limit.rs")], (), ["rate-limit accounts after transfer, redeem, limit changes"])

p("C11", "Pausing stops all token movement and message traffic",
  "While the deployment is paused, outbound transfers, releases of inbound transfers, publications of outbound messages and receipts of Wormhole messages (through the built-in or the standalone transceiver) are all rejected and change nothing; redeeming already received messages and all administration keep working. Unpausing restores exactly the behaviour before the pause, and only the owner can pause or unpause.",
  ["histories", "configurations"], "every instruction tried in every reachable state of a small history, paused and unpaused",
  "No runnable test exercises the paused state.",
  [M + "config.rs", M + "instructions/transfer.rs", M + "instructions/release_inbound.rs", M + "transceivers/wormhole/instructions/receive_message.rs", M + "transceivers/wormhole/instructions/release_outbound.rs", T + "wormhole/instructions/receive_message.rs"],
  [("NotPausedConfig", M + "config.rs")], [("paused", "pause flag", M + "config.rs")], ["acceptance of each instruction, full state diff"])

p("C12", "Only the current owner can administer a deployment",
  "Every administrative action (pausing, registering transceivers, setting manager or transceiver peers, changing rate limits, starting an ownership transfer in either form) takes effect only when the current owner has signed; a pending, former or unrelated key, an unsigned owner, or a look-alike configuration is rejected without any effect. This holds in every state of an ownership hand-over.",
  ["histories", "inputs"], "every admin instruction x every candidate signer x every reachable ownership state, with account substitution",
  "Existing tests contain one negative case (non-owner set_peer style checks) and cannot run here.",
  [M + "instructions/admin.rs", M + "transceivers/wormhole/instructions/admin.rs", T + "wormhole/instructions/admin.rs"],
  [("has_one = owner / owner equality constraints with Signer", M + "instructions/admin.rs")], [("owner", "current owner", M + "config.rs")], ["acceptance and state diff"])

p("C13", "Ownership hand-over is two-step, cancellable, and keeps the upgrade key",
  "After a two-step transfer starts, the old owner stays owner until the nominated key (or the old owner, cancelling) claims with its signature; nobody else can claim, and a claim makes the claimer owner, clears the nomination and moves the program's upgrade authority to it. While a nomination is pending the upgrade authority is held by the program's lock and never by the nominee; the explicit one-step transfer moves ownership and upgrade authority together.",
  ["histories"], "all sequences of transfer, one-step transfer, claim by three keys, to a fixed point",
  "Upstream tests are TypeScript e2e runs of one hand-over; none explores cancellations and repeated nominations.",
  [M + "instructions/admin.rs"],
  [("pending_owner and upgrade_lock", M + "instructions/admin.rs")], [("owner, pending_owner", "ownership state", M + "config.rs"), ("program data authority", "upgrade key", "BPF loader")], ["config account, program data account"])

p("C14", "A spending approval authorises exactly one set of transfer terms",
  "Tokens leave a user's account only if that user approved (or is acting through) the session key derived from the account's owner and the exact amount, destination chain, recipient and queuing choice; with the approval in place anyone may submit, but only with those exact terms and only up to the approved amount. Changing any term, or the account debited, makes the transfer fail.",
  ["inputs", "histories"], "all pairs (approved terms, submitted terms) over the enumerated domains, all submitters, repeated submissions",
  "The existing test changes one field once.",
  [M + "instructions/transfer.rs", M + "lib.rs"],
  [("session authority PDA seeded by sender and argument hash", M + "instructions/transfer.rs")], (), ["acceptance, balances"])

p("C15", "Wire formats match the specification and round-trip",
  "Every message the system writes (transfer, manager message, transceiver message, transceiver info and registration broadcasts) has exactly the big-endian, length-prefixed layout documented for all runtimes, its length fields and declared size equal the bytes actually written, and reading it back gives the same message. Inputs with a wrong prefix, truncated at any byte, or with an invalid mode are rejected rather than misread.",
  ["inputs"], "all messages over boundary field values, all truncation points, all single-byte corruptions of prefixes",
  "Five fixed vectors are decoded by unit tests.",
  [L + "ntt.rs", L + "ntt_manager.rs", L + "transceiver.rs", L + "transceivers/wormhole.rs", L + "trimmed_amount.rs", L + "chain_id.rs", L + "mode.rs"],
  [("Readable/Writeable implementations", L + "transceiver.rs")], (), ["bytes written, decoded values"])

p("C16", "Decimal trimming never creates value and round-trips exactly",
  "For every amount and pair of decimals, trimming keeps min(8, from, to) decimals and rounds down, removing dust leaves the largest representable amount not above the input, and scaling a trimmed amount back gives exactly that amount; whatever cannot be represented in 64 bits is reported as an error instead of wrapping. Trimming is monotone and idempotent, and a value never grows by a round trip.",
  ["inputs"], "boundary amounts x all decimals pairs 0..=255",
  "Unit tests check six values.",
  [L + "trimmed_amount.rs"], [("scale/trim/untrim/remove_dust", L + "trimmed_amount.rs")], (), ["returned values"])

p("C17", "Inbound messages are identified by their full content and source chain",
  "The record of an inbound message is keyed by its complete content together with the chain it came from: two deliveries share a record exactly when the source chain and every field (id, sender, amount and its decimals, source token, recipient, destination chain) are equal. A message differing in any field can never reuse, overwrite or add votes to another message's record.",
  ["inputs", "histories"], "all pairs from a family of messages differing in one or two fields or in the source chain",
  "Not covered by any runnable test.",
  [M + "instructions/redeem.rs", L + "ntt_manager.rs"], [("content-addressed inbox item", M + "instructions/redeem.rs"), ("keccak256", L + "ntt_manager.rs")], (), ["set of inbox accounts"])

p("C18", "Transceiver registry: unique, stable indices within capacity",
  "Registering a transceiver assigns it the next index, enables it, and never changes the index or status of another; a transceiver cannot be registered twice, only executable programs can be registered, and at most 128 fit. Enabled status and recorded votes or publications refer to exactly the transceiver holding that index.",
  ["histories", "configurations"], "all registration sequences over several programs, and every registry size around the 128 limit",
  "Bitmap unit tests set a few bits; registration itself is untested here.",
  [M + "instructions/admin.rs", M + "bitmap.rs", M + "registered_transceiver.rs"],
  [("next_transceiver_id and bitmap", M + "instructions/admin.rs")], [("enabled_transceivers", "bitmap of enabled indices", M + "config.rs")], ["config and registration accounts"])

p("C19", "Initialization is one-time, by the deployer, and fixes the mode",
  "A deployment can be initialized once, only by the holder of the program's upgrade authority, and in burning mode only if the program controls the mint; it then starts unpaused, owned by the deployer, with the given chain and outbound limit at full capacity and no transceivers. Afterwards a locking deployment never mints or burns and a burning deployment never uses custody as a reserve: the instructions of the other mode are always rejected.",
  ["configurations", "histories"], "all combinations of mode, mint authority, signer, token program and repeated initialization; both modes' instructions in every reachable state",
  "Tests use one correct initialization per mode.",
  [M + "instructions/initialize.rs", M + "instructions/transfer.rs", M + "instructions/release_inbound.rs"],
  [("init constraints", M + "instructions/initialize.rs"), ("mode constraints", M + "instructions/transfer.rs")], (), ["config account, acceptance"])

p("C20", "Wormhole messages are accepted only from the registered peer, once",
  "A posted Wormhole message is accepted by a transceiver (built-in or standalone) only if it is a genuine core-bridge message emitted by the peer registered for its source chain and targeted at this chain; it is then recorded verbatim with its source chain, once per source chain and message id, and the record can never be replaced or altered. Malformed payloads are rejected.",
  ["inputs", "histories"], "all single and pairwise deviations in emitter, chain, target, owner, payload; all orders of conflicting deliveries",
  "One negative test upstream (wrong recipient chain); not runnable here.",
  [M + "transceivers/wormhole/instructions/receive_message.rs", T + "wormhole/instructions/receive_message.rs"],
  [("peer and vaa constraints, init of the message account", M + "transceivers/wormhole/instructions/receive_message.rs")], (), ["transceiver message accounts"])

p("C21", "Peer and limit administration changes exactly its target",
  "Setting a manager peer records exactly the given address and decimals for that chain and gives that chain the given inbound limit at full capacity; changing a limit sets exactly that limit and shifts the current capacity by the difference, within 0 and the new limit; a transceiver peer is recorded once per chain and never replaced. None of these touches another chain, the outbound limiter (unless it is the target), balances, queued or received transfers, or ownership.",
  ["histories", "inputs"], "all sequences of administrative actions over two chains with boundary values, interleaved with transfers",
  "No runnable test inspects state after administration.",
  [M + "instructions/admin.rs", M + "transceivers/wormhole/instructions/admin.rs", T + "wormhole/instructions/admin.rs", M + "queue/rate_limit.rs"],
  [("set_peer, set_inbound_limit, set_outbound_limit", M + "instructions/admin.rs")], (), ["full state diff"])

p("C22", "Relay quotes follow the price formula and respect the user's cap",
  "For every registered price, gas cost, gas drop-off and cap, a new relay request charges the payer exactly the larger of the request's rent and the quoted fee: (base price + native price x (drop-off + gas price x gas cost)) / SOL price, converted to lamports with every unit conversion rounded down, and never more than the caller's maximum fee; drop-offs above the chain's maximum, disabled chains, unset SOL price or results that do not fit 64 bits are rejected and charge nothing.",
  ["inputs"], "product of boundary values of all prices and request arguments",
  "The quoter has no runnable test except its program id.",
  [Q + "processor/request_relay.rs"], [("mul_div and fee computation", Q + "processor/request_relay.rs")], (), ["lamport balances, relay request account"])

p("C23", "Relay requests and quoter configuration are authorised and single-use",
  "Only the quoter's owner or assistant can register chains and programs, set prices and limits or close relays, only the owner can change the assistant or fee recipient, and only the upgrade authority can initialise it (once, never with a null fee recipient). An outbound transfer has at most one open relay request at a time, made only after that transfer was published by the registered program's Wormhole transceiver for a registered chain; closing pays its whole balance to the fee recipient, and each setter changes exactly its own values.",
  ["histories", "inputs"], "every instruction x every candidate signer in every reachable configuration; request/close histories",
  "Not covered by runnable tests.",
  [Q + "processor/admin.rs", Q + "processor/update_prices.rs", Q + "processor/request_relay.rs", Q + "processor/close_relay.rs", Q + "state.rs"],
  [("is_authorized and address constraints", Q + "state.rs")], (), ["quoter accounts, lamports"])

p("C24", "Governance executes each guardian-approved call exactly once, as given",
  "The governance program executes an instruction only if it comes in a genuine Wormhole message from the governance emitter on Solana, addressed to this program and chain with the right module and action, and at most once per message; it runs exactly the encoded program, accounts, flags and data, with only the owner and payer placeholders replaced by the governance authority and the payer. Anything else is rejected without effect, and messages round-trip through their documented wire format.",
  ["inputs", "histories"], "all single and pairwise deviations from an honest message, all replays, all placements of placeholders",
  "Two unit tests decode fixed vectors and are not even compiled in this environment.",
  [P + "wormhole-governance/src/instructions/governance.rs"], [("vaa constraints and replay account", P + "wormhole-governance/src/instructions/governance.rs")], (), ["effects of the governed call, replay account"])

p("C25", "Broadcasts publish the true identity and peers of the deployment",
  "An identity broadcast publishes exactly this manager's address, mode, token and token decimals, and a peer broadcast exactly the transceiver peer registered for the requested chain, in the documented format, from the deployment's own emitter (built-in and standalone). A broadcast for an unregistered chain or with substituted accounts is rejected, and broadcasting changes no deployment state.",
  ["configurations", "inputs"], "all modes, decimals, chains and account substitutions within the domains, in every order",
  "Upstream tests decode one broadcast; not runnable here.",
  [M + "transceivers/wormhole/instructions/broadcast_id.rs", M + "transceivers/wormhole/instructions/broadcast_peer.rs", T + "wormhole/instructions/broadcast_id.rs", T + "wormhole/instructions/broadcast_peer.rs"],
  [("post_message", M + "transceivers/wormhole/accounts.rs")], (), ["core bridge messages"])

p("C26", "Token-2022 hooks always run and fee-charging tokens are refused",
  "For a token with a transfer hook, every outbound transfer and every inbound payout, in both modes, triggers the hook exactly once, so a hook that rejects stops the movement entirely. For a token that charges transfer fees, an outbound transfer that would deliver less than the announced amount is rejected, so custody and announced amounts never diverge.",
  ["configurations", "inputs"], "all modes x hook/fee configurations x amounts, with and without the hook's extra accounts",
  "Hook behaviour is only exercised by TypeScript e2e tests; fees by none.",
  [M + "instructions/transfer.rs", M + "instructions/release_inbound.rs"],
  [("transfer via custody before burn / after mint", M + "instructions/transfer.rs"), ("custody balance comparison", M + "instructions/transfer.rs")], (), ["hook counter, balances"])

p("C27", "No honest transfer gets stuck",
  "From every reachable state of an unpaused deployment, every queued outbound transfer can be published by each enabled transceiver no later than 24 hours after it was sent, and every received authentic message can be redeemed, approved and paid out no later than 24 hours after approval, by anyone, without the owner's help. A pause in between only postpones this.",
  ["histories", "schedules"], "a completion schedule from every reachable state",
  "Liveness from every reachable state cannot be sampled by tests.",
  [M + "instructions/redeem.rs", M + "instructions/release_inbound.rs", M + "transceivers/wormhole/instructions/release_outbound.rs", M + "queue/rate_limit.rs"],
  [("permissionless release after the delay", M + "queue/inbox.rs")], (), ["completion runs"])

p("C28", "Look-alike accounts are never trusted",
  "Every account that carries authority or accounting state for a token movement or message (configuration, rate limits, peers, registrations, queue items, custody, mint, authorities) must be the genuine one belonging to this deployment and to the chain or item concerned; replacing it with a byte-identical account owned by another program, a sibling account of the same type, or any other existing account makes the instruction fail or, where the choice is free, act only on the account named. The instruction then has no effect.",
  ["inputs"], "every account slot of every user-facing instruction x every account in the system (single substitutions; pairs in the thorough tier)",
  "No test substitutes accounts systematically.",
  [M + "instructions/transfer.rs", M + "instructions/redeem.rs", M + "instructions/release_inbound.rs", M + "instructions/admin.rs", M + "transceivers/wormhole/instructions/release_outbound.rs", T + "wormhole/instructions/release_outbound.rs"],
  [("anchor seeds, owner and address constraints", M + "instructions/redeem.rs")], (), ["acceptance, full state diff"])

p("C29", "The lookup table contains exactly the deployment's accounts",
  "Initialising the deployment's address lookup table, by anyone and any number of times, records a table controlled by the program that contains the program, its configuration, custody, mint, token program, authority, outbound limiter and the Wormhole accounts (core bridge, its fee collector, the emitter's message sequence), and never accounts of the caller's choosing. A later call replaces only the recorded address and leaves earlier tables intact.",
  ["inputs", "histories"], "account substitutions and repeated/concurrent initialisations incl. front-running table creation",
  "Not covered by runnable tests.",
  [M + "instructions/luts.rs"], [("entries constraints", M + "instructions/luts.rs")], (), ["lookup table contents"])

p("C32", "The published interface description matches the deployed programs",
  "A client that knows only the published interface description (IDL 3.0.0, JSON and TypeScript copies) can run the whole system: every instruction built from it (discriminator, argument encoding, account order, signer and writable flags, nothing more) is accepted whenever the program would accept the operation at all, requires exactly the signatures it lists, and never writes an account it lists as read-only. Every account it names decodes under its declared layout to the state the programs really hold, return values decode as declared, and every program error carries the code and name it lists.",
  ["inputs", "histories"], "every instruction of the manager, transceiver and quoter in every lifecycle and in every state one step away from it, and every error the explored calls provoke",
  "No test compares the IDL with the programs; a reordered field or a missing writable flag only shows up in clients.",
  ["solana/ts/idl/3_0_0/json/example_native_token_transfers.json", "solana/ts/idl/3_0_0/json/ntt_transceiver.json", "solana/ts/idl/3_0_0/json/ntt_quoter.json", M + "lib.rs", M + "error.rs", Q + "lib.rs", T + "lib.rs"],
  [("account structs and instruction signatures", M + "instructions/"), ("error enumeration", M + "error.rs")],
  [("accounts", "borsh layout of Config, Peer, OutboxItem, InboxItem, rate limits, quoter accounts", M + "config.rs")],
  ["account bytes, return data and error codes after each IDL-built instruction"])

E = "evm/src/"
p("C33", "EVM: tokens leave or enter custody exactly as announced",
  "For every history of transfers, queued, completed and cancelled transfers, incoming messages and releases, in locking and burning mode, the Solidity manager takes from a sender exactly what it announces (at the precision of at most 8 and of both chains' decimals, rejecting amounts with dust, zero amounts, zero recipients or refund addresses), measures what really arrived for fee-charging tokens, pays each incoming message and each cancelled transfer exactly its amount once to the right party, and never holds less than it owes. A queued transfer is either completed or cancelled, once. Tokens that call back into the manager cannot gain by re-entering it, and a manager whose chain forked moves nothing.",
  ["histories", "inputs", "schedules"], "all sequences of transfers, cancellations, completions, attestations and clock steps; decimals x amounts; every re-entry point x inner call",
  "Foundry tests sample a few sequences and cannot run here.",
  [E + "NttManager/NttManager.sol", E + "NttManager/NttManagerNoRateLimiting.sol", E + "libraries/TrimmedAmount.sol"],
  [("_transferEntryPoint, _mintOrUnlockToRecipient, queue completion and cancellation", E + "NttManager/NttManager.sol"), ("nonReentrant and checkFork", E + "libraries/Implementation.sol")], (), ["token and ether balances, supply, queues, messages handed to transceivers"])

p("C34", "EVM: messages execute once, after enough enabled transceivers attested",
  "The manager counts an attestation only from a transceiver that is enabled when it attests and only for a message sent by the registered peer manager of its source chain, at most once per transceiver and message, and counts towards the threshold only attestations of transceivers enabled at that moment. A message is executed exactly once, as soon as the attestation that reaches the threshold arrives or later through executeMsg by anyone, only if addressed to this chain and well-formed; a failed execution leaves the message executable, a repeated or unapproved one has no effect, and messages differing in source chain or any content are counted separately.",
  ["histories", "inputs"], "all orders of attestations, executions, transceiver removals and additions and threshold changes over several messages and chains",
  "Foundry tests sample a few orders; they cannot run here.",
  [E + "NttManager/ManagerBase.sol", E + "NttManager/NttManager.sol", E + "libraries/TransceiverStructs.sol"],
  [("attestationReceived, _isMessageExecuted, isMessageApproved, executeMsg", E + "NttManager/NttManager.sol"), ("_setTransceiverAttestedToMessage, messageAttestations", E + "NttManager/ManagerBase.sol")], (), ["attestation counts, executed flags, payouts"])

p("C35", "EVM: rate limits bound flow and queued transfers wait exactly the window",
  "In every history the amount sent within one window starting from any moment never exceeds what the outbound limit allows, likewise what arrives from one chain for its inbound limit; capacity refills linearly to the limit and never beyond, flow in one direction restores capacity in the other, and changing a limit keeps the consumed part. A transfer above capacity is rejected or, if the sender asked (or on the inbound side), queued and completable by anyone exactly one window later and not before, without consuming capacity; with rate limiting off (zero duration or the no-limit manager) limits are never enforced and can still be set any number of times.",
  ["histories", "inputs"], "limits x uses x elapsed times x changes; all sequences of transfers, messages, clock steps, limit changes and completions",
  "Foundry fuzz tests sample; they cannot run here.",
  [E + "libraries/RateLimiter.sol", E + "NttManager/NttManager.sol", E + "NttManager/NttManagerNoRateLimiting.sol"],
  [("_setLimit, _getCurrentCapacity, _consume/_backfill, queue items", E + "libraries/RateLimiter.sol")], (), ["capacity getters, limit parameters, queue items, acceptance"])

p("C36", "EVM: only the owner configures, the pauser only pauses, pausing stops movement",
  "On the Solidity manager and transceiver only the current owner can set peers, limits, thresholds and transceivers, upgrade, migrate, unpause or hand over ownership (which also moves the ownership of every registered transceiver); pauser and owner can pause and pass on the pauser role; every setter changes exactly its own values and refuses invalid arguments. While paused no transfer, attestation, execution, completion or cancellation succeeds; unpausing restores normal operation. A caller without a role can change state only through the user-facing entry points.",
  ["histories", "inputs"], "every external function x every kind of caller in every reachable role state",
  "Foundry tests sample a few callers; they cannot run here.",
  [E + "NttManager/ManagerBase.sol", E + "NttManager/NttManager.sol", E + "libraries/PausableOwnable.sol", E + "libraries/PausableUpgradeable.sol", E + "libraries/external/OwnableUpgradeable.sol", E + "Transceiver/Transceiver.sol"],
  [("onlyOwner, onlyOwnerOrPauser, whenNotPaused modifiers", E + "libraries/PausableOwnable.sol")], (), ["owner, pauser, paused flag, configuration getters, acceptance"])

p("C37", "EVM: the Wormhole transceiver delivers authentic messages once, sends correctly",
  "The Wormhole transceiver hands a message to its manager only if it is a verified VAA, or a delivery by the configured standard relayer itself, emitted by the registered peer transceiver of that chain, correctly prefixed, addressed to this manager and never delivered before; the manager receives exactly the source chain, source manager and message encoded. Outgoing messages come only from its manager and go over exactly one route (standard relaying, special relaying, or plain publication, which the instruction's skip flag also forces) chosen by the configured flags, with the exact encoded payload, refund address, peers and fee; each peer is set once, never zero, and peers, relaying flags and the initial mode and token are announced on Wormhole.",
  ["inputs", "histories"], "all sequences of deliveries, replays and configuration changes; flags x chain x instruction x payment; every truncation and byte change of a message",
  "Foundry tests need guardians and mainnet forks; they cannot run here.",
  [E + "Transceiver/WormholeTransceiver/WormholeTransceiver.sol", E + "Transceiver/WormholeTransceiver/WormholeTransceiverState.sol", E + "Transceiver/Transceiver.sol"],
  [("receiveMessage, receiveWormholeMessages, _sendMessage, _quoteDeliveryPrice", E + "Transceiver/WormholeTransceiver/WormholeTransceiver.sol"), ("setWormholePeer, relaying flags", E + "Transceiver/WormholeTransceiver/WormholeTransceiverState.sol")], (), ["calls on the core bridge, relayers and manager; configuration getters"])

p("C38", "EVM: wire formats, digests and trimmed amounts are exact",
  "Every message, transfer, transceiver message, instruction list, initialisation and registration record of the EVM library encodes to the documented bytes and decodes back to the same fields; truncated, extended or wrongly prefixed bytes are rejected, instruction lists with unordered or unregistered indices too. The message digest is the keccak-256 of source chain and encoding, so distinct messages never share one. Trimmed amounts keep value and decimals through packing, trimming never gains value, untrimming restores what was representable, and overflows, mixed decimals and out-of-range values are rejected.",
  ["inputs"], "boundary field values, every truncation, extension and single-bit change; decimals x decimals x boundary amounts",
  "Foundry fuzz tests sample; they cannot run here.",
  [E + "libraries/TransceiverStructs.sol", E + "libraries/TrimmedAmount.sol", E + "libraries/TransceiverHelpers.sol"],
  [("encode*/parse* functions and digest", E + "libraries/TransceiverStructs.sol"), ("trim, untrim, shift, operators", E + "libraries/TrimmedAmount.sol")], (), ["returned bytes and values"])

p("C39", "EVM: the transceiver registry stays consistent",
  "In every history of adding, removing and re-adding transceivers, each transceiver keeps the index it first received, indices are unique and below 64 (a 65th is refused), the enabled list and bitmap agree with each other and with the add/remove history, removal keeps all other transceivers enabled with their indices, and the threshold is never zero or above the number of enabled transceivers while any is registered; the last transceiver cannot be removed.",
  ["histories"], "all sequences of add, remove, threshold and attest operations up to the bound; every registry size through 66",
  "Foundry tests sample a few sequences; they cannot run here.",
  [E + "NttManager/TransceiverRegistry.sol", E + "NttManager/ManagerBase.sol"],
  [("_setTransceiver, _removeTransceiver, _checkTransceiversInvariants", E + "NttManager/TransceiverRegistry.sol")], (), ["getTransceivers, getTransceiverInfo, getThreshold, attestation counts"])

p("C40", "EVM: each enabled transceiver gets each message, its instruction and exact fee",
  "A transfer (or completed queued transfer) is handed once to every enabled transceiver and to no other, each with the instruction the sender addressed to it by registration index and exactly the price it quotes, with the excess of the payment returned to the caller and an insufficient payment rejected; quoteDeliveryPrice quotes precisely what such a transfer will charge, also when some transceivers are disabled; without enabled transceivers nothing is sent. Sequence numbers increase by one per transfer and never repeat.",
  ["inputs", "histories"], "all instruction encodings over small alphabets x registry states; payment x price x caller; all short sequences with registry changes",
  "Foundry tests sample; they cannot run here.",
  [E + "NttManager/ManagerBase.sol", E + "NttManager/NttManager.sol"],
  [("quoteDeliveryPrice, _sendMessageToTransceivers, _prepareForTransfer", E + "NttManager/ManagerBase.sol")], (), ["calls and value received by each transceiver, refunds, quotes"])

p("C41", "EVM: governance executes each guardian-approved call exactly once, as given",
  "The EVM governance contract performs a call only for a verified VAA from the Wormhole governance emitter on Solana, with the right module and action, for this chain and this contract, at most once per VAA; it calls exactly the encoded contract with exactly the encoded bytes and fails as a whole if that call fails. Everything else is rejected without effect, and the packet format round-trips.",
  ["inputs", "histories"], "VAA validity x emitter x module x action x chain x contracts x call data; all sequences of packets",
  "Foundry tests sample a few packets; they cannot run here.",
  [E + "wormhole/Governance.sol"], [("performGovernance, _verifyGovernanceVAA, replay protection", E + "wormhole/Governance.sol")], (), ["calls made, acceptance"])

p("C42", "EVM: deployments initialise once and upgrades preserve immutables and state",
  "A manager or transceiver behind a proxy can be initialised exactly once, by its deployer only, its implementation never directly, and migrate runs only as part of an upgrade. An upgrade, by the owner only, keeps every word of storage (except what a migration changes on purpose), refuses implementations that are no contracts, fail to migrate or change the immutable configuration (token, mode, chain, manager, rate-limit duration), and leaves the old implementation in place when it fails. Storage written by the deployed version stays readable at the same place by the current code, so an upgraded deployment continues with its configuration, limits, queues, votes and replay protection.",
  ["histories", "configurations"], "contracts x constructor arguments x caller x direct or proxied; every new implementation x state; recorded storage of the deployed version",
  "Foundry tests sample a few upgrades; they cannot run here, and none compares storage with earlier releases.",
  [E + "libraries/Implementation.sol", E + "libraries/external/Initializable.sol", E + "NttManager/ManagerBase.sol", E + "Transceiver/Transceiver.sol"],
  [("_upgrade, migrate, initializer", E + "libraries/Implementation.sol"), ("storage slots", E + "NttManager/ManagerBase.sol")],
  [("storage", "slots derived from fixed names", E + "NttManager/TransceiverRegistry.sol")], ["storage words, getters, acceptance"])

p("C43", "EVM: events report exactly what happened",
  "Every accepted call of the Solidity manager and Wormhole transceiver emits exactly the documented events for what it did, with the documented signature and indexed arguments and the true values (sender, recipient, amounts in token units, fee paid, sequence, digest as the destination will compute it, old and new settings, route taken), and a rejected call emits none. Off-chain relayers and explorers can therefore reconstruct every transfer, queueing, cancellation, attestation, redemption and configuration change from the logs alone.",
  ["histories", "inputs"], "all histories and input products explored for C33 to C37, C39 and C40",
  "Foundry tests check a few events; they cannot run here.",
  [E + "interfaces/INttManager.sol", E + "interfaces/IManagerBase.sol", E + "interfaces/IRateLimiterEvents.sol", E + "NttManager/NttManager.sol", E + "NttManager/ManagerBase.sol", E + "libraries/RateLimiter.sol", E + "Transceiver/WormholeTransceiver/WormholeTransceiver.sol"],
  [("emit statements", E + "NttManager/NttManager.sol")], (), ["logs of every accepted call"])

p("C44", "TypeScript layouts, digests and version test agree with the wire format",
  "For every field value, the TypeScript layouts of sdk/definitions encode token transfers, manager messages, transceiver messages, transceiver info and registration messages and transceiver instruction lists to exactly the bytes the on-chain programs and contracts use, and decode those bytes to the same values: prefix, field order, widths, byte order, length fields, the optional additional payload, every chain number. Truncated, extended or wrongly prefixed messages and out-of-range values are refused rather than silently changed. The message digest equals the on-chain message id for every source chain, and the version test accepts an on-chain version exactly when its major version equals and its minor version is not below the SDK's.",
  ["inputs"], "products of boundary values of every field; all chain numbers of the domain; every payload size up to a bound; all truncations and single-bit changes of sample encodings; all small instruction lists; all pairs of small versions",
  "The jest suites decode a handful of recorded messages and need npm packages that are absent here.",
  ["sdk/definitions/src/layouts/", "sdk/definitions/src/ntt.ts"],
  [("nativeTokenTransferLayout", "sdk/definitions/src/layouts/transfer.ts"), ("nttManagerMessageLayout", "sdk/definitions/src/layouts/manager.ts"), ("transceiverMessageLayout, transceiverInfo, transceiverRegistration", "sdk/definitions/src/layouts/transceiver.ts"), ("messageDigest, encodeTransceiverInstructions, abiVersionMatches", "sdk/definitions/src/ntt.ts")], (), ["encoded bytes, decoded values, digests"])

p("C45", "TypeScript Solana client builds transactions the programs accept and mean",
  "In every state of a deployment, every transaction the TypeScript Solana client builds (initialize, register and configure transceivers and peers, set limits, pause, hand over ownership, transfer with and without queuing and relaying, receive and redeem, complete a queued transfer, maintain the lookup table, administer the relay quoter; built-in or standalone transceiver; tokens with transfer hooks) names the right programs, addresses, signers, arguments and units: executed, it is accepted exactly when the requested operation is possible in that state and has exactly the effect of that operation. Values the programs cannot represent are refused by the client rather than changed.",
  ["histories", "inputs"], "every client call with boundary arguments in every state reached from several deployments by the operations of the mixed exploration; both modes and token programs, both transceivers, two transfer hooks under several policies",
  "The repository's integration tests run a few transfers against a local validator and need npm packages that are absent here.",
  ["solana/ts/lib/ntt.ts", "solana/ts/lib/quoter.ts", "solana/ts/lib/utils.ts", "solana/ts/sdk/ntt.ts"],
  [("address derivations, instruction builders, addExtraAccountMetasForExecute", "solana/ts/lib/ntt.ts"), ("NttQuoter instruction builders", "solana/ts/lib/quoter.ts"), ("U64, programDataLayout, derivePda", "solana/ts/lib/utils.ts"), ("SolanaNtt, SolanaNttWormholeTransceiver", "solana/ts/sdk/ntt.ts")], (), ["accounts after executing the client's transactions, acceptance, signers"])

p("C46", "TypeScript Solana client reports the on-chain state and sufficient quotes",
  "In every state of a deployment, what the TypeScript Solana client reports is what the accounts say: mode, pause, owner, threshold, decimals, custody, limits, peers, transceiver addresses, whether an inbound transfer is unknown, queued (with amount, recipient and expiry), approved or executed, whether relaying to a chain is available, the quoter's prices and recorded relay requests. Absent accounts are reported as absent, not as errors. A delivery quote covers what the quoter program charges in that state with a margin of at most about ten percent, and none is given when the program would refuse the request.",
  ["histories", "inputs"], "every getter for every chain, message and relay request of the scenario in every state reached by histories of up to two operations; both modes and token programs; boundary prices and drop-offs",
  "The repository's integration tests read a few values from a local validator and need npm packages that are absent here.",
  ["solana/ts/sdk/ntt.ts", "solana/ts/lib/quoter.ts"],
  [("getters", "solana/ts/sdk/ntt.ts"), ("quoteDeliveryPrice, isRelayEnabled, wasRelayRequested, getRegisteredChain", "solana/ts/lib/quoter.ts")], (), ["values returned by the client"])

p("C47", "TypeScript EVM client submits correct calls and reports the contract state",
  "In every state of an EVM deployment, every transaction the TypeScript EVM client builds (set peers of manager and transceiver, relaying flags and outbound and inbound limits, pause and unpause, hand over owner and pauser, transfer with and without queuing and automatic relaying including the approval it needs, redeem, complete a queued inbound transfer) goes to the right contract with the right function, arguments and value: executed, it is accepted exactly when the requested operation is possible in that state and has exactly the effect of that operation; a transfer never grants the manager more allowance than the transfer needs. What the client reports is what the contracts hold: mode, pause, owner, pauser, threshold, decimals, limits and capacities in token units, peers, relaying flags, delivery prices, deployed addresses and version, and whether an inbound message is unknown, approved, queued (with amount, recipient and expiry) or executed, with and without rate limiting.",
  ["histories", "inputs"], "every client call with boundary arguments in every state reached from several deployments by histories of direct calls up to the depth bound; both modes, several decimals, with and without rate limiting",
  "The repository's tests of the client run a few transfers against forked networks and need npm packages that are absent here.",
  ["evm/ts/src/ntt.ts", "evm/ts/src/bindings.ts", "evm/ts/src/ethers-contracts/"],
  [("EvmNtt, EvmNttWormholeTranceiver", "evm/ts/src/ntt.ts"), ("loadAbiVersion", "evm/ts/src/bindings.ts")], (), ["contract state, balances, events and external calls after executing the client's transactions; values returned by the client"])

p("C48", "Routes use the configured contracts and drive every transfer to completion",
  "For every route configuration, transfer request and history of what happens on the chains, the manual and automatic routes of the TypeScript SDK (1) offer exactly the configured tokens and use the configured contracts of the source token and of the same token on the destination, whatever the letter case and also when addresses repeat across tokens and chains; (2) send the amount asked for rounded down to what both tokens and the 8-decimal wire format can represent, without queueing at the source, relayed exactly when the route is automatic, with the gas drop-off asked for; (3) quote the amount that arrives, the relayer's price in the source chain's native token and a capacity warning exactly when the destination limits its rate and the amount exceeds 95 % of the inbound capacity left, and give no quote when relaying is unavailable; (4) report, when a transfer is tracked, its true stage (unsigned, attested, delivered, queued with its release time, finalised) and never a stage not reached, whoever delivered or released it; (5) redeem or release with the one right call on the destination's contracts exactly when the receipt is attested or queued, keeping the receipt's other contents; (6) resume a transfer (manual, or relayed between EVM chains) from its transaction with the contracts, amount and stage of the original.",
  ["histories", "inputs", "configurations"], "four configurations with shared addresses; all pairs of deployments, decimals, boundary amounts, drop-offs and capacities; every reachable state of a transfer with every route call in it",
  "The repository's tests of the routes need live test networks and npm packages that are absent here.",
  ["sdk/route/src/types.ts", "sdk/route/src/automatic.ts", "sdk/route/src/manual.ts"],
  [("NttRoute", "sdk/route/src/types.ts"), ("NttAutomaticRoute", "sdk/route/src/automatic.ts"), ("NttManualRoute", "sdk/route/src/manual.ts")], (), ["values returned by the routes, calls and transactions they submit"])

p("C31", "CLI acts on the configuration it displays",
  "For every deployment file and on-chain state, the CLI shows the differences that exist and never pushes a configuration different from the one displayed.",
  ["inputs", "configurations"], "all deployment files and on-chain configurations",
  "There are only shell scripts that need live networks.",
  ["cli/src/index.ts", "cli/src/diff.ts"],
  [("push, pull, status", "cli/src/index.ts"), ("diffObjects", "cli/src/diff.ts")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for o in OUT:
        f.write(json.dumps(o) + "\n")
print(len(OUT), "properties")
