bug("quorum-counts-disabled", "C05",
    [(M + "instructions/redeem.rs", """        .votes
        .count_enabled_votes(accs.config.enabled_transceivers)
        < accs.config.threshold
""", """        .votes
        .len()
        < usize::from(accs.config.threshold)
""")],
    "threshold 2, a transceiver that voted and was then disabled",
    "votes of transceivers that are no longer enabled count towards the quorum",
    """
    let s = Setup { transceivers: vec![MGR, MOCK1, MOCK2], ..Setup::default() };
    let d = s.dep();
    let mut w = s.build().unwrap();
    set_quorum(&mut w, 0b111, 2);
    let x = s.inbound(2, 1, 50, 8, &k("bob"));
    let v1 = inject_vtm(&mut w, &MOCK1, 2, &x);
    let v2 = inject_vtm(&mut w, &MOCK2, 2, &x);
    let mut w = ok(&w, Op::Redeem { t: MOCK1, vtm: v1 }, &d);
    // the first voter is disabled before the second votes
    set_quorum(&mut w, 0b101, 2);
    let w = ok(&w, Op::Redeem { t: MOCK2, vtm: v2 }, &d);
    let _ = run_op(&w, &pay(&d, inbox_item(2, &x.msg), "bob", true), &d).map(|w| same("balance paid with one enabled vote", balance(&w, &d.ata(&k("bob"))), 0));
""")

bug("redelivery-restarts", "C05",
    [(M + "instructions/redeem.rs", "    if !accs.inbox_item.init {\n", "    if !accs.inbox_item.init\n        || matches!(\n            accs.inbox_item.release_status,\n            ReleaseStatus::ReleaseAfter(_)\n        )\n    {\n")],
    "an approved message held back by the inbound limit is redeemed again",
    "a second delivery re-evaluates an approved message: its release time moves and capacity is consumed again",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let x = s.inbound(2, 1, 500, 8, &k("bob"));
    let w = deliver(&w, &d, 2, &x); // 5000 > 1000: delayed
    let w2 = later(&w, 1000);
    let item = inbox_item(2, &x.msg);
    if let Ok(w3) = run_op(&w2, &Op::Redeem { t: MGR, vtm: vtm(&MGR, 2, &x.msg.id) }, &d) {
        same("inbox item", observe(&w3).inbox[&item].clone(), observe(&w).inbox[&item].clone());
    }
    let w = later(&w2, DAY - 1000);
    ok(&w, pay(&d, item, "bob", true), &d);
""")

bug("capacity-in-u64", "C10",
    [(M + "queue/rate_limit.rs", """            u128::from(capacity_at_last_tx)
                + time_passed as u128 * limit / (Self::RATE_LIMIT_DURATION as u128)
""", """            u128::from(capacity_at_last_tx)
                + u128::from(
                    (time_passed as u64).saturating_mul(self.limit)
                        / (Self::RATE_LIMIT_DURATION as u64),
                )
""")],
    "a limit whose product with the elapsed seconds exceeds 64 bits",
    "with large limits the capacity stops refilling after a while instead of reaching the limit in a day",
    """
    let big = 10_000_000_000_000_000u64;
    let s = Setup { out_limit: big, decimals: 8, users: vec![("alice", big), ("bob", 0)], ..Setup::default() };
    let d = s.dep();
    let w = s.build().unwrap();
    let w = later(&w, 3_000_000);
    let w = ok(&w, xfer(&d, "alice", "o1", args(big, 2, false)), &d);
    let w = later(&w, DAY / 2);
    let mut w = w;
    w.edit(&d.ata(&k("alice")), |a| a.data[64..72].copy_from_slice(&big.to_le_bytes()));
    ok(&w, xfer(&d, "alice", "o2", args(big / 2, 2, false)), &d);
""")

bug("refill-forgets-time", "C09",
    [(M + "queue/rate_limit.rs", "        self.capacity_at_last_tx = self.capacity_at(now).saturating_add(amount).min(self.limit);\n", "        self.capacity_at_last_tx = self\n            .capacity_at_last_tx\n            .saturating_add(amount)\n            .min(self.limit);\n")],
    "a backflow some time after the limiter was last used",
    "a backflow discards the capacity that had accrued since the last use",
    """
    let s = Setup { out_limit: 1000, ..Setup::default() };
    let d = s.dep();
    let w = s.build().unwrap();
    let w = ok(&w, xfer(&d, "alice", "o1", args(1000, 2, false)), &d);
    let w = later(&w, DAY / 2); // 500 accrued
    let w = deliver(&w, &d, 2, &s.inbound(2, 1, 10, 8, &k("bob"))); // +100
    ok(&w, xfer(&d, "alice", "o2", args(600, 2, false)), &d);
""")

bug("payout-one-second-late", "C27",
    [(M + "queue/inbox.rs", "                if release_timestamp > now {\n", "                if release_timestamp >= now {\n")],
    "a payout asked for exactly at its release time",
    "an approved transfer within the limit cannot be paid out in the same block",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let x = s.inbound(2, 1, 500, 8, &k("bob"));
    let w = deliver(&w, &d, 2, &x);
    let w = later(&w, DAY);
    ok(&w, pay(&d, inbox_item(2, &x.msg), "bob", true), &d);
""")

bug("approval-ignores-queue", "C14",
    [(M + "instructions/transfer.rs", """            recipient_address,
            should_queue,
        } = self;
        solana_program::keccak::hashv(&[
            amount.to_be_bytes().as_ref(),
            recipient_chain.id.to_be_bytes().as_ref(),
            recipient_address,
            &[u8::from(*should_queue)],
        ])
""", """            recipient_address,
            should_queue: _,
        } = self;
        // queuing only affects timing, keep one session key for both choices
        solana_program::keccak::hashv(&[
            amount.to_be_bytes().as_ref(),
            recipient_chain.id.to_be_bytes().as_ref(),
            recipient_address,
            &[u8::from(false)],
        ])
""")],
    "a third party submitting an approved transfer with the other queuing choice",
    "an approval for an immediate transfer can be used to queue it for a day",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let a = args(2000, 2, false); // above the limit: must fail, not queue
    let q = args(2000, 2, true);
    let w = ok(&w, Op::Approve { owner: k("alice"), from: d.ata(&k("alice")), delegate: session_authority(&k("alice"), &a), amount: 2000 }, &d);
    let mut t = d.transfer_raw(false, k("mallory"), d.ata(&k("alice")), &k("alice"), k("o1"), &q, &[]);
    for key in [session_authority(&k("alice"), &q), session_authority(&k("alice"), &a)] {
        t.accounts[11].pubkey = key;
        if exec(&w, &[t.clone()]).is_ok() {
            fail("a transfer approved without queuing was queued");
        }
    }
    // the honest flow
    ok(&w, xfer(&d, "alice", "o2", args(100, 2, false)), &d);
""")

bug("mint-straight-to-recipient", "C26",
    [(M + "instructions/release_inbound.rs", """    // Step 1: mint tokens to the custody account
    token_interface::mint_to(
""", """    // Nothing to call along the way: mint to the recipient directly
    if ctx.remaining_accounts.is_empty() {
        return token_interface::mint_to(
            CpiContext::new_with_signer(
                ctx.accounts.common.token_program.to_account_info(),
                token_interface::MintTo {
                    mint: ctx.accounts.common.mint.to_account_info(),
                    to: ctx.accounts.common.recipient.to_account_info(),
                    authority: ctx.accounts.common.token_authority.to_account_info(),
                },
                &[&[
                    crate::TOKEN_AUTHORITY_SEED,
                    &[ctx.bumps.common.token_authority],
                ]],
            ),
            inbox_item.amount,
        );
    }

    // Step 1: mint tokens to the custody account
    token_interface::mint_to(
""")],
    "a burning deployment of a token with a transfer hook, payout submitted without the hook's accounts",
    "the payout skips the token's transfer hook",
    """
    use solana_program::{instruction::AccountMeta, system_instruction, system_program};
    use spl_token_2022::{extension::{transfer_hook, ExtensionType}, instruction as ti, state::Mint};
    let s = Setup { burning: true, t22: true, users: vec![("bob", 0)], ..Setup::default() };
    let d = s.dep();
    let mut w = s.genesis();
    w.remove(&d.mint);
    w.remove(&d.ata(&k("bob")));
    let len = ExtensionType::try_calculate_account_len::<Mint>(&[ExtensionType::TransferHook]).unwrap();
    let hook = dummy_transfer_hook::ID;
    let r = |k| AccountMeta::new_readonly(k, false);
    let meta = pda(&[b"extra-account-metas", d.mint.as_ref()], &hook);
    let counter = pda(&[b"counter"], &hook);
    let mut w = exec(&w, &[
        system_instruction::create_account(&k("payer"), &d.mint, rent_min(len), len as u64, &d.tp),
        transfer_hook::instruction::initialize(&d.tp, &d.mint, None, Some(hook)).unwrap(),
        ti::initialize_mint2(&d.tp, &d.mint, &token_authority(), None, s.decimals).unwrap(),
        spl_associated_token_account::instruction::create_associated_token_account(&k("payer"), &k("bob"), &d.mint, &d.tp),
        ix(hook, "initialize_extra_account_meta_list", &[], vec![AccountMeta::new(k("payer"), true), AccountMeta::new(meta, false), r(d.mint), r(d.tp), r(ATA), AccountMeta::new(counter, false), r(system_program::ID)]),
    ]).unwrap().world;
    for op in s.ops() {
        w = ok(&w, op, &d);
    }
    let x = s.inbound(2, 1, 10, 8, &k("bob"));
    let w = deliver(&w, &d, 2, &x);
    let count = |w: &World| w.data(&counter).unwrap()[8];
    let bob = d.ata(&k("bob"));
    for extra in [vec![], vec![r(pda(&[b"dummy_account", token_authority().as_ref()], &hook)), AccountMeta::new(counter, false), r(hook), r(meta)]] {
        if let Ok(t) = exec(&w, &[d.release_inbound(true, k("payer"), inbox_item(2, &x.msg), bob, true, &extra)]) {
            same("balance", balance(&t.world, &bob), 100);
            same("hook runs", count(&t.world), 1);
        } else if !extra.is_empty() {
            fail("the payout was rejected");
        }
    }
""")

bug("source-chain-truncated", "C17",
    [(L + "ntt_manager.rs", "        bytes.extend_from_slice(&chain_id.id.to_be_bytes());\n", "        bytes.extend_from_slice(&[0, chain_id.id.to_be_bytes()[1]]);\n")],
    "equal messages from two chains whose ids differ by a multiple of 256",
    "messages from different chains share one record",
    """
    let s = Setup { peers: vec![(2, 9, 1000), (258, 9, 1000)], transceivers: vec![MGR, MOCK1], ..Setup::default() };
    let d = s.dep();
    let mut w = s.build().unwrap();
    set_quorum(&mut w, 0b11, 2);
    let x = s.inbound(2, 1, 50, 8, &k("bob"));
    let mut y = x.clone();
    y.source_manager = peer_addr(258);
    let w = deliver(&w, &d, 2, &x);
    let mut w = w;
    let v = inject_vtm(&mut w, &MOCK1, 258, &y);
    // the vote for the other chain's message must not approve this one
    let mut r = d.redeem(k("payer"), &MOCK1, 258, v, &y.msg);
    for item in [inbox_item(258, &y.msg), inbox_item(2, &x.msg)] {
        r.accounts[6].pubkey = item;
        if let Ok(t) = exec(&w, &[r.clone()]) {
            if let Ok(p) = run_op(&t.world, &pay(&d, inbox_item(2, &x.msg), "bob", true), &d) {
                same("balance", balance(&p, &d.ata(&k("bob"))), 0);
            }
        }
    }
""")

bug("receive-again-overwrites", "C20",
    [(X + "wormhole/instructions/receive_message.rs", """    #[account(
        init,
        payer = payer,
        space""", """    #[account(
        init_if_needed,
        payer = payer,
        space""")],
    "a second genuine message with the same id and different contents, delivered to the standalone transceiver",
    "an already recorded message is replaced",
    """
    let s = Setup { transceivers: vec![MGR, XCVR], ..Setup::default() };
    let d = s.dep();
    let mut w = s.build().unwrap();
    let x = s.inbound(2, 1, 50, 8, &k("bob"));
    let y = s.inbound(2, 1, 60, 8, &k("mallory"));
    let v1 = post_vaa(&mut w, "v1", &XCVR, 2, &x);
    let v2 = post_vaa(&mut w, "v2", &XCVR, 2, &y);
    let w = ok(&w, Op::Receive { prog: XCVR, vaa: v1 }, &d);
    refused(&w, Op::Receive { prog: XCVR, vaa: v2 }, &d);
""")

bug("standalone-receives-paused", "C11",
    [(X + "wormhole/instructions/receive_message.rs", "    pub config: NotPausedConfig<'info>,\n", "    pub config: Account<'info, Config>,\n"),
     (X + "wormhole/instructions/receive_message.rs", "    config::{anchor_reexports::*, *},\n", "    config::*,\n")],
    "a paused deployment with the standalone transceiver",
    "the standalone transceiver keeps accepting messages during a pause",
    """
    let s = Setup { transceivers: vec![MGR, XCVR], ..Setup::default() };
    let d = s.dep();
    let mut w = s.build().unwrap();
    let v = post_vaa(&mut w, "v", &XCVR, 2, &s.inbound(2, 1, 50, 8, &k("bob")));
    let p = ok(&w, Op::SetPaused(k("owner"), true), &d);
    refused(&p, Op::Receive { prog: XCVR, vaa: v }, &d);
    ok(&w, Op::Receive { prog: XCVR, vaa: v }, &d);
""")

bug("nominee-sets-peers", "C12",
    [(M + "instructions/admin.rs", """    pub owner: Signer<'info>,

    #[account(
        has_one = owner,
    )]
    pub config: Account<'info, Config>,

    #[account(
        init_if_needed,
        space = 8 + NttManagerPeer::INIT_SPACE,
""", """    pub owner: Signer<'info>,

    // the incoming owner may prepare the peers while the hand-over is pending
    #[account(
        constraint = (
            config.owner == owner.key()
            || config.pending_owner == Some(owner.key())
        ) @ NTTError::InvalidPendingOwner
    )]
    pub config: Account<'info, Config>,

    #[account(
        init_if_needed,
        space = 8 + NttManagerPeer::INIT_SPACE,
""")],
    "an ownership transfer that was started and not yet claimed",
    "the nominated key can already set peers",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let w = ok(&w, Op::GiveOwnership { one_step: false, signer: k("owner"), new: k("carol") }, &d);
    let p = |signer| Op::SetPeer { signer, chain: 2, address: a32("x"), limit: 5, decimals: 9 };
    ok(&w, p(k("owner")), &d);
    refused(&w, p(k("carol")), &d);
""")

bug("register-twice", "C18",
    [(M + "instructions/admin.rs", """    #[account(
        init,
        space = 8 + RegisteredTransceiver::INIT_SPACE,
""", """    #[account(
        init_if_needed,
        space = 8 + RegisteredTransceiver::INIT_SPACE,
""")],
    "registering a transceiver that is already registered",
    "a second registration gives the transceiver a second index, so it can vote and publish twice",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    refused(&w, Op::Register { signer: k("owner"), t: MGR }, &d);
    ok(&w, Op::Register { signer: k("owner"), t: XCVR }, &d);
""")

bug("frozen-mint-accepted", "C19",
    [(M + "instructions/initialize.rs", "            || mint.mint_authority.unwrap() == token_authority.key()\n", "            || mint.mint_authority.is_none()\n            || mint.mint_authority.unwrap() == token_authority.key()\n")],
    "a burning deployment initialized for a mint without any mint authority",
    "burning mode starts although the program does not control the mint, so inbound transfers can never be paid",
    """
    let s = Setup { burning: true, ..Setup::default() };
    let d = s.dep();
    let mut w = s.genesis();
    let init = || Op::Initialize { payer: k("payer"), deployer: k("owner"), limit: 5, dep: d.clone() };
    ok(&w, init(), &d);
    w.set(d.mint, mint_acct(d.tp, None, 100, 9));
    refused(&w, init(), &d);
""")

bug("peer-checked-on-first-vote", "C04",
    [(M + "instructions/redeem.rs", "        constraint = peer.address == ValidatedTransceiverMessage::<NativeTokenTransfer<Payload>>::message(&transceiver_message.try_borrow_data()?[..])?.source_ntt_manager() @ NTTError::InvalidNttManagerPeer,\n", ""),
     (M + "instructions/redeem.rs", "    if !accs.inbox_item.init {\n", """    if !accs.inbox_item.init {
        if accs.peer.address != transceiver_message.message.source_ntt_manager {
            return Err(NTTError::InvalidNttManagerPeer.into());
        }
""")],
    "threshold 2: the second transceiver delivers a message with the same contents from a foreign manager",
    "a message that does not come from the peer counts as a vote",
    """
    let s = Setup { transceivers: vec![MGR, MOCK1], ..Setup::default() };
    let d = s.dep();
    let mut w = s.build().unwrap();
    set_quorum(&mut w, 0b11, 2);
    let x = s.inbound(2, 1, 50, 8, &k("bob"));
    let mut y = x.clone();
    y.source_manager = a32("somebody else");
    let mut w = deliver(&w, &d, 2, &x);
    let v = inject_vtm(&mut w, &MOCK1, 2, &y);
    refused(&w, Op::Redeem { t: MOCK1, vtm: v }, &d);
    let v = inject_vtm(&mut w, &MOCK1, 2, &x);
    ok(&w, Op::Redeem { t: MOCK1, vtm: v }, &d);
""")

bug("early-ask-marks-sent", "C06",
    [(M + "queue/outbox.rs", """        if self.release_timestamp > now {
            return Ok(false);
        }

        if self.released.get(transceiver_index)? {
            return Err(NTTError::MessageAlreadySent.into());
        }

        self.released.set(transceiver_index, true)?;

        Ok(true)
""", """        if self.released.get(transceiver_index)? {
            return Err(NTTError::MessageAlreadySent.into());
        }

        self.released.set(transceiver_index, true)?;

        Ok(self.release_timestamp <= now)
""")],
    "a queued transfer above the limit, publication asked for too early without reverting",
    "the transfer is marked as sent without being published and can never be published afterwards",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let w = ok(&w, xfer(&d, "alice", "o1", args(5000, 2, true)), &d);
    let p = |revert| Op::Publish { prog: MGR, outbox: k("o1"), revert };
    let w = ok(&w, p(false), &d);
    let w = later(&w, DAY);
    let w = ok(&w, p(true), &d);
    same("messages", observe(&w).emitted.len(), 1);
""")

bug("dust-counts-against-limit", "C07",
    [(M + "instructions/transfer.rs", """    if after != before + amount {
        return Err(NTTError::BadAmountAfterTransfer.into());
    }

    let recipient_ntt_manager = accs.peer.address;

    insert_into_outbox(
        &mut accs.common,
        &mut accs.inbox_rate_limit,
        amount,
""", """    if after != before + amount {
        return Err(NTTError::BadAmountAfterTransfer.into());
    }

    let recipient_ntt_manager = accs.peer.address;

    insert_into_outbox(
        &mut accs.common,
        &mut accs.inbox_rate_limit,
        args.amount,
""")],
    "a locking transfer whose requested amount has dust",
    "the outbound capacity is reduced by more than the amount sent",
    """
    let s = Setup { out_limit: 1000, ..Setup::default() };
    let d = s.dep();
    let w = s.build().unwrap();
    let w = ok(&w, xfer(&d, "alice", "o1", args(509, 2, false)), &d); // 500
    let w = ok(&w, xfer(&d, "alice", "o2", args(500, 2, false)), &d);
    same("custody", balance(&w, &d.custody()), 51_000);
""")

bug("dust-kept-below-eight", "C16",
    [(L + "trimmed_amount.rs", "        *amount = trimmed.untrim(from_decimals)?;\n", "        // nothing is lost at eight decimals or less\n        if from_decimals > TRIMMED_DECIMALS {\n            *amount = trimmed.untrim(from_decimals)?;\n        }\n")],
    "a token with at most eight decimals sent to a chain with fewer",
    "the dust is taken from the sender although it is not sent",
    """
    let s = Setup { decimals: 8, peers: vec![(2, 6, 1_000_000)], out_limit: 1_000_000, ..Setup::default() };
    let d = s.dep();
    let w = s.build().unwrap();
    let w = ok(&w, xfer(&d, "alice", "o1", args(1099, 2, false)), &d);
    same("alice", balance(&w, &d.ata(&k("alice"))), 99_000);
    same("announced", observe(&w).outbox[&k("o1")].amount, 10);
""")

bug("redeem-any-limiter", "C28",
    [(M + "instructions/redeem.rs", """    #[account(
        mut,
        seeds = [
            InboxRateLimit::SEED_PREFIX,
            ValidatedTransceiverMessage::<NativeTokenTransfer<Payload>>::from_chain(&transceiver_message)?.id.to_be_bytes().as_ref(),
        ],
        bump,
    )]
    pub inbox_rate_limit""", """    #[account(mut)]
    pub inbox_rate_limit""")],
    "two source chains, a relayer that passes the other chain's limiter",
    "a transfer can be released against another chain's inbound capacity",
    """
    let s = Setup { peers: vec![(2, 9, 1000), (3, 9, 100_000)], ..Setup::default() };
    let d = s.dep();
    let mut w = s.build().unwrap();
    let x = s.inbound(2, 1, 500, 8, &k("bob"));
    let vaa = post_vaa(&mut w, "v", &MGR, 2, &x);
    let w = ok(&w, Op::Receive { prog: MGR, vaa }, &d);
    let mut r = d.redeem(k("payer"), &MGR, 2, vtm(&MGR, 2, &x.msg.id), &x.msg);
    if exec(&w, &[r.clone()]).is_err() {
        fail("redeem was rejected");
    }
    r.accounts[7].pubkey = inbox_rl(3);
    if exec(&w, &[r]).is_ok() {
        fail("the limiter of another chain was accepted");
    }
""")

bug("standalone-broadcasts-any-peer", "C25",
    [(X + "wormhole/instructions/broadcast_peer.rs", """    #[account(
        seeds = [TransceiverPeer::SEED_PREFIX, args.chain_id.to_be_bytes().as_ref()],
        bump
    )]
    pub peer""", """    pub peer""")],
    "a peer broadcast of the standalone transceiver with another chain's peer account",
    "the broadcast announces one chain's peer for another chain",
    """
    let s = Setup { transceivers: vec![MGR, XCVR], peers: vec![(2, 9, 1000), (3, 9, 1000)], ..Setup::default() };
    let d = s.dep();
    let w = s.build().unwrap();
    ok(&w, Op::BroadcastPeer { prog: XCVR, msg: k("m"), chain: 2 }, &d);
    let mut b = broadcast_peer(&XCVR, k("payer"), k("m"), 2);
    b.accounts[2].pubkey = xpeer(&XCVR, 3);
    if exec(&w, &[b]).is_ok() {
        fail("chain 2 was announced with the peer of chain 3");
    }
""")

bug("lut-any-token-program", "C29",
    [(M + "instructions/luts.rs", """    #[account(
        constraint = token_program.key() == config.token_program,
    )]
    /// CHECK: The constraint enforces that this is the correct account.
    pub token_program""", """    /// CHECK: only recorded for convenience
    pub token_program""")],
    "the table is initialized by someone who passes another account as the token program",
    "the table records an account of the caller's choosing",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let i = d.initialize_lut(k("mallory"), w.slot - 1);
    if exec(&w, &[i.clone()]).is_err() {
        fail("initialization of the table was rejected");
    }
    let at = i.accounts.iter().position(|a| a.pubkey == d.tp).unwrap();
    let mut j = i.clone();
    j.accounts[at].pubkey = k("mallory-account");
    if exec(&w, &[j]).is_ok() {
        fail("an arbitrary account was recorded");
    }
""")

bug("same-limit-keeps-usage", "C21",
    [(M + "instructions/admin.rs", """    ctx.accounts.inbox_rate_limit.set_inner(InboxRateLimit {
        bump: ctx.bumps.inbox_rate_limit,
        rate_limit: RateLimitState::new(args.limit),
    });
    Ok(())
""", """    // leave the limiter alone when the limit does not change
    if ctx.accounts.inbox_rate_limit.rate_limit.limit != args.limit
        || ctx.accounts.inbox_rate_limit.bump == 0
    {
        ctx.accounts.inbox_rate_limit.set_inner(InboxRateLimit {
            bump: ctx.bumps.inbox_rate_limit,
            rate_limit: RateLimitState::new(args.limit),
        });
    }
    Ok(())
""")],
    "a peer set again with the limit it already has, after some inbound capacity was used",
    "the chain does not get its inbound limit at full capacity",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let w = deliver(&w, &d, 2, &s.inbound(2, 1, 90, 8, &k("bob")));
    let w = ok(&w, Op::SetPeer { signer: k("owner"), chain: 2, address: peer_addr(2), limit: 1000, decimals: 9 }, &d);
    let x = s.inbound(2, 2, 100, 8, &k("bob"));
    let w = deliver(&w, &d, 2, &x);
    ok(&w, pay(&d, inbox_item(2, &x.msg), "bob", true), &d);
""")

bug("submitter-named-as-sender", "C02",
    [(M + "instructions/transfer.rs", "        sender: common.from.owner,\n", "        sender: common.payer.key(),\n")],
    "someone else than the account's owner submits and pays for the transfer",
    "the queued transfer names the submitter instead of the token account's owner",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let w = ok(&w, xfer(&d, "alice", "o1", args(100, 2, false)), &d);
    same("sender", observe(&w).outbox[&k("o1")].sender, k("alice"));
""")

bug("hook-of-custody-remainder", "C01",
    [(M + "instructions/release_inbound.rs", """        inbox_item.amount,
    )?;

    // Step 2: transfer the tokens from the custody account to the recipient
""", """        inbox_item
            .amount
            .saturating_sub(ctx.accounts.common.custody.amount),
    )?;

    // Step 2: transfer the tokens from the custody account to the recipient
""")],
    "a burning deployment whose custody account holds tokens (anyone can send some there)",
    "payouts use tokens found in custody instead of newly minted supply",
    """
    let s = Setup { burning: true, ..Setup::default() };
    let d = s.dep();
    let mut w = s.build().unwrap();
    w.edit(&d.custody(), |a| a.data[64..72].copy_from_slice(&70u64.to_le_bytes()));
    let before = observe(&w);
    let x = s.inbound(2, 1, 10, 8, &k("bob"));
    let w = deliver(&w, &d, 2, &x);
    let w = ok(&w, pay(&d, inbox_item(2, &x.msg), "bob", true), &d);
    let after = observe(&w);
    same("custody", after.tokens[&d.custody()].amount, before.tokens[&d.custody()].amount);
    same("supply", after.mints[&d.mint].1, before.mints[&d.mint].1 + 100);
""")

G = "solana/programs/wormhole-governance/src/instructions/"

bug("delayed-moves-the-clock", "C08",
    [(M + "instructions/redeem.rs", """        RateLimitResult::Delayed(release_timestamp) => release_timestamp,
""", """        RateLimitResult::Delayed(release_timestamp) => {
            accs.inbox_rate_limit.rate_limit.last_tx_timestamp =
                release_timestamp - RateLimitState::RATE_LIMIT_DURATION;
            release_timestamp
        }
"""), (M + "instructions/redeem.rs", "        rate_limit::RateLimitResult,\n", "        rate_limit::{RateLimitResult, RateLimitState},\n")],
    "a delayed transfer while the capacity is still refilling",
    "an inbound transfer that is held back discards the capacity regained since the last use",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let w = deliver(&w, &d, 2, &s.inbound(2, 1, 100, 8, &k("bob"))); // uses everything
    let w = later(&w, DAY / 2);
    let w = deliver(&w, &d, 2, &s.inbound(2, 2, 60, 8, &k("bob"))); // held back
    let x = s.inbound(2, 3, 50, 8, &k("bob")); // fits exactly
    let w = deliver(&w, &d, 2, &x);
    ok(&w, pay(&d, inbox_item(2, &x.msg), "bob", true), &d);
""")

bug("cancel-leaves-nominee", "C13",
    [(M + "instructions/admin.rs", """    ctx.accounts.config.pending_owner = None;
    ctx.accounts.config.owner = ctx.accounts.new_owner.key();

    bpf""", """    if ctx.accounts.config.owner != ctx.accounts.new_owner.key() {
        ctx.accounts.config.pending_owner = None;
        ctx.accounts.config.owner = ctx.accounts.new_owner.key();
    }

    bpf""")],
    "the owner cancels a hand-over by claiming, and starts another one later",
    "a cancelled nomination stays recorded",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let w = exec(&w, &[transfer_ownership(false, k("owner"), k("carol"))]).unwrap().world;
    let w = exec(&w, &[claim_ownership(k("owner"))]).unwrap().world;
    same("nominee", observe(&w).config.unwrap().pending, None);
    let _ = d;
""")

bug("short-payload-padded", "C15",
    [(L + "transceiver.rs", "        reader.read_exact(&mut transceiver_payload)?;\n", """        // the payload is optional for transceivers that do not use it
        let mut read = 0;
        while read < transceiver_payload.len() {
            match reader.read(&mut transceiver_payload[read..])? {
                0 => break,
                n => read += n,
            }
        }
""")],
    "a message cut off inside its transceiver payload",
    "a truncated message is accepted, its missing bytes read as zeros",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let x = s.inbound(2, 1, 10, 8, &k("bob"));
    let mut bytes = x.wire();
    let n = bytes.len();
    bytes[n - 2..].copy_from_slice(&5u16.to_be_bytes());
    let mut w = w;
    let vaa = post_vaa(&mut w, "vaa", &MGR, 2, &x);
    w.edit(&vaa, |a| {
        // the payload is the last field
        let at = a.data.len() - n;
        a.data[at..].copy_from_slice(&bytes);
    });
    if exec(&w, &[receive(&MGR, k("payer"), vaa, 2, &x.msg.id)]).is_ok() {
        fail("a truncated message was accepted");
    }
    let _ = d;
""")

bug("fee-legs-rounded-apart", "C22",
    [(Q + "processor/request_relay.rs", """        let total_in_usd = target_native_in_usd + accs.registered_chain.base_price;

        //total_fee[sol, 9 decimals] = total_usd[usd, 6 decimals] / (sol_price[usd, 6 decimals]
        mul_div(total_in_usd, LAMPORTS_PER_SOL, accs.instance.sol_price)
    }?;
""", """        //total_fee[sol, 9 decimals] = total_usd[usd, 6 decimals] / (sol_price[usd, 6 decimals]
        mul_div(
            target_native_in_usd,
            LAMPORTS_PER_SOL,
            accs.instance.sol_price,
        )? + mul_div(
            accs.registered_chain.base_price,
            LAMPORTS_PER_SOL,
            accs.instance.sol_price,
        )?
    };
""")],
    "a SOL price that divides neither part of the fee evenly",
    "the fee is a lamport lower than the quoted formula",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let w = ok(&w, xfer(&d, "alice", "o1", args(100, 2, false)), &d);
    let w = with_quoter(&w, 0);
    let o = k("owner");
    let w = q(&w, Q::Publish { prog: MGR, outbox: k("o1") });
    let w = q(&w, Q::Sol { by: o, price: 300_000_007 });
    let w = q(&w, Q::Prices { by: o, chain: 2, native: 1_000_000_000, gas: 0 });
    let w = q(&w, Q::Params { by: o, chain: 2, max: 1_000_000_000_000, base: 2_000_000 });
    let n = q(&w, Q::Request { payer: k("alice"), outbox: k("o1"), dropoff: 2_000_000, max_fee: u64::MAX });
    let usd = 2_000_000u64 + 2_000_000;
    same("fee", w.lamports(&k("alice")) - n.lamports(&k("alice")), usd * 1_000_000_000 / 300_000_007);
""")

bug("assistant-sets-fee-recipient", "C23",
    [(Q + "processor/admin.rs", """pub struct SetFeeRecipient<'info> {
    #[account(address = instance.owner)]
""", """pub struct SetFeeRecipient<'info> {
    #[account(
        constraint = instance.is_authorized(&owner.key()) @ NttQuoterError::NotAuthorized
    )]
""")],
    "an assistant that acts against the owner",
    "the assistant can redirect the collected fees",
    """
    let s = Setup::default();
    let w = s.build().unwrap();
    let w = with_quoter(&w, 0);
    let w = q(&w, Q::SetAssistant { owner: k("owner"), to: Some(k("carol")) });
    q_refused(&w, Q::SetFee { owner: k("carol"), fee: k("carol") });
""")

bug("relay-index-out-of-range", "C23",
    [(Q + "processor/request_relay.rs", """    let released = item
        .released
        .get(registered_ntt.wormhole_transceiver_index)?;
    if !released {
""", """    let released = item
        .released
        .get(registered_ntt.wormhole_transceiver_index)
        .unwrap_or(!item.released.is_empty());
    if !released {
""")],
    "a program registered with an index outside the registry",
    "a relay is sold for a transfer that the registered transceiver never published",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let w = ok(&w, xfer(&d, "alice", "o1", args(100, 2, false)), &d);
    let w = with_quoter(&w, 200);
    let w = q(&w, Q::Publish { prog: MGR, outbox: k("o1") });
    q_refused(&w, Q::Request { payer: k("alice"), outbox: k("o1"), dropoff: 0, max_fee: u64::MAX });
""")

bug("owner-placeholder-only-as-signer", "C24",
    [(G + "governance.rs", """        if acc.pubkey == OWNER {
            acc.pubkey""", """        if acc.pubkey == OWNER && acc.is_signer {
            acc.pubkey""")],
    "a governed call that names its owner without requiring the signature",
    "the owner placeholder stays in the executed call",
    """
    use solana_program::instruction::{AccountMeta, Instruction};
    let w = gov_world();
    let i = Instruction {
        program_id: rec(0),
        accounts: vec![AccountMeta::new_readonly(placeholder("owner"), false), AccountMeta::new(k("alice"), false)],
        data: vec![1, 2, 3],
    };
    let mut i2 = i.clone();
    // the submitter also brings the placeholder itself
    let m = Msg::honest(&i, 1);
    i2.accounts.push(AccountMeta::new_readonly(placeholder("owner"), false));
    let mut w = w;
    w.set(k("vaa"), m.acct());
    let p = k("payer");
    let mut extra = attach(&i, p);
    extra.push(AccountMeta::new_readonly(placeholder("owner"), false));
    let n = exec(&w, &[gov_ix(p, k("vaa"), i.program_id, m.replay(), &extra)]).unwrap_or_else(|e| fail(&format!("rejected: {e}"))).world;
    if !log(&n, 0).starts_with(governance().as_ref()) {
        fail("the executed call does not name the governance authority");
    }
""", gov=True)

bug("undefined-action-accepted", "C24",
    [(G + "governance.rs", "        if action != GovernanceAction::SolanaCall {", "        if action == GovernanceAction::EvmCall {")],
    "a governance packet with the reserved action 0",
    "a packet that is not a Solana call is executed",
    """
    use solana_program::instruction::{AccountMeta, Instruction};
    let w = gov_world();
    let i = Instruction { program_id: rec(0), accounts: vec![AccountMeta::new(k("alice"), false)], data: vec![7] };
    let mut m = Msg::honest(&i, 1);
    submit(&w, "vaa", &m, &i).unwrap_or_else(|e| fail(&format!("rejected: {e}")));
    m.packet.action = 0;
    if submit(&w, "vaa", &m, &i).is_ok() {
        fail("executed");
    }
""", gov=True)

bug("mint-tops-up-custody", "C03",
    [(M + "instructions/release_inbound.rs", """                &[ctx.bumps.common.token_authority],
            ]],
        ),
        inbox_item.amount,
    )?;

    // Step 2""", """                &[ctx.bumps.common.token_authority],
            ]],
        ),
        // whatever already lies in the custody account need not be minted
        inbox_item
            .amount
            .saturating_sub(ctx.accounts.common.custody.amount),
    )?;

    // Step 2""")],
    "a burning deployment whose custody account holds tokens somebody sent there",
    "a payout takes those tokens instead of minting, so supply and payouts no longer correspond and custody changes",
    """
    let s = Setup { burning: true, stray: 40, users: vec![("bob", 0)], ..Setup::default() };
    let d = s.dep();
    let w = s.build().unwrap();
    let supply = |w: &World| observe(w).mints[&d.mint].1;
    let x = s.inbound(2, 1, 7, 8, &k("bob"));
    let w1 = deliver(&w, &d, 2, &x);
    let w2 = ok(&w1, pay(&d, inbox_item(2, &x.msg), "bob", true), &d);
    same("paid", balance(&w2, &d.ata(&k("bob"))), 70);
    same("custody", balance(&w2, &d.custody()), 40);
    same("supply", supply(&w2), supply(&w) + 70);
""")

bug("errors-sorted", "C32",
    [(M + "error.rs", """    #[msg("InvalidMode")]
    InvalidMode,
    #[msg("InvalidMintAuthority")]
    InvalidMintAuthority,
""", """    #[msg("InvalidMintAuthority")]
    InvalidMintAuthority,
    #[msg("InvalidMode")]
    InvalidMode,
""")],
    "a client interprets the error code of a transfer in the wrong mode",
    "two error codes are exchanged with respect to the published interface",
    """
    let s = Setup::default();
    let d = s.dep();
    let w = s.build().unwrap();
    let t = xfer(&d, "alice", "t", args(50, 2, false));
    let Op::Transfer { payer, owner, from, outbox, args, approve, .. } = t else { unreachable!() };
    let e = match run_op(&w, &Op::Transfer { burn: true, payer, owner, from, outbox, args, approve }, &d) {
        Ok(_) => fail("a burning transfer was accepted by a locking deployment"),
        Err(e) => e,
    };
    // the interface description lists InvalidMode as 6011
    if !e.contains("6011") {
        fail(&format!("a transfer in the wrong mode fails with {e}, the interface says 6011"));
    }
""")
