//! C26: Token-2022 transfer hooks and transfer fees.
use nttmc::{client::*, explore::*, model::*, programs::*, scn::*, setup::*, svm::*};
use solana_program::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    pubkey,
    pubkey::Pubkey,
    system_instruction, system_program,
};
use spl_token_2022::{extension::ExtensionType, state::Mint};

pub(super) const DUMMY: Pubkey = pubkey!("BgabMDLaxsyB7eGMBt9L22MSk9KMrL4zY2iNe14kyFP5");
/// A hook that records what it is told and rejects on demand.
pub(super) const REC: Pubkey = pubkey!("Rec1111111111111111111111111111111111111111");
const EXECUTE: [u8; 8] = [105, 37, 101, 197, 75, 251, 102, 26];

/// Log account: mode, blocked key, calls, then the last call's source,
/// destination, authority and amount.
/// Modes: 0 accept, 1 reject, 2 reject movements touching the blocked key.
const LOG_LEN: usize = 1 + 32 + 8 + 96 + 8;

pub(super) fn log_key() -> Pubkey {
    k("hook-log")
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Log {
    mode: u8,
    blocked: Pubkey,
    calls: u64,
    src: Pubkey,
    dst: Pubkey,
    amount: u64,
}

fn key(d: &[u8]) -> Pubkey {
    Pubkey::try_from(&d[..32]).unwrap()
}
fn u64le(d: &[u8]) -> u64 {
    u64::from_le_bytes(d[..8].try_into().unwrap())
}

fn log(w: &World) -> Log {
    let d = w.data(&log_key()).unwrap();
    Log { mode: d[0], blocked: key(&d[1..]), calls: u64le(&d[33..]), src: key(&d[41..]), dst: key(&d[73..]), amount: u64le(&d[137..]) }
}

fn recorder(_id: &Pubkey, accts: &'static [AccountInfo<'static>], d: &[u8]) -> ProgramResult {
    let bad = ProgramError::InvalidInstructionData;
    if d.len() != 16 || d[..8] != EXECUTE || accts.len() < 6 || *accts[5].key != log_key() {
        return Err(bad);
    }
    let mut l = accts[5].try_borrow_mut_data()?;
    let blocked = key(&l[1..]);
    if l[0] == 1 || (l[0] == 2 && (*accts[0].key == blocked || *accts[2].key == blocked)) {
        return Err(ProgramError::Custom(77));
    }
    let n = u64le(&l[33..]) + 1;
    l[33..41].copy_from_slice(&n.to_le_bytes());
    for (i, a) in [0usize, 2, 3].into_iter().enumerate() {
        l[41 + 32 * i..73 + 32 * i].copy_from_slice(accts[a].key.as_ref());
    }
    l[137..145].copy_from_slice(&d[8..16]);
    Ok(())
}

fn meta_list(hook: &Pubkey, mint: &Pubkey) -> Pubkey {
    pda(&[b"extra-account-metas", mint.as_ref()], hook)
}
fn counter() -> Pubkey {
    pda(&[b"counter"], &DUMMY)
}
fn dummy_of(owner: &Pubkey) -> Pubkey {
    pda(&[b"dummy_account", owner.as_ref()], &DUMMY)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub(super) enum Ext {
    Hook(Pubkey),
    /// (older, newer, epoch of the newer): fee in basis points, maximum fee
    Fee((u16, u64), (u16, u64), u64),
}

fn t22<T: std::fmt::Debug>(e: T) -> String {
    format!("token-2022: {e:?}")
}

/// The chain before initialization, with the token replaced by one carrying `ext`.
fn genesis(s: &Setup, ext: Ext) -> Result<World, String> {
    use spl_token_2022::{extension, instruction as ti};
    let d = s.dep();
    let mut w = s.genesis();
    w.remove(&d.mint);
    for (u, _) in &s.users {
        w.remove(&d.ata(&k(u)));
    }
    let et = match ext {
        Ext::Hook(_) => ExtensionType::TransferHook,
        Ext::Fee(..) => ExtensionType::TransferFeeConfig,
    };
    let len = ExtensionType::try_calculate_account_len::<Mint>(&[et]).map_err(t22)?;
    let auth = k("minter");
    let mut v = vec![system_instruction::create_account(&k("payer"), &d.mint, rent_min(len), len as u64, &d.tp)];
    v.push(match ext {
        Ext::Hook(h) => extension::transfer_hook::instruction::initialize(&d.tp, &d.mint, None, Some(h)),
        Ext::Fee((bps, max), ..) => extension::transfer_fee::instruction::initialize_transfer_fee_config(&d.tp, &d.mint, None, None, bps, max),
    }
    .map_err(t22)?);
    v.push(ti::initialize_mint2(&d.tp, &d.mint, &auth, None, s.decimals).map_err(t22)?);
    for (u, n) in &s.users {
        v.push(ata_create(&k(u), &d));
        if *n > 0 {
            v.push(ti::mint_to(&d.tp, &d.mint, &d.ata(&k(u)), &auth, &[], *n).map_err(t22)?);
        }
    }
    let mut w = exec(&w, &v)?.world;
    if let Ext::Fee(_, (bps, max), epoch) = ext {
        // TransferFeeConfig: two authorities, withheld amount, older and newer fee
        let at = 166 + 4 + 64 + 8 + 18;
        w.edit(&d.mint, |a| {
            a.data[at..at + 8].copy_from_slice(&epoch.to_le_bytes());
            a.data[at + 8..at + 16].copy_from_slice(&max.to_le_bytes());
            a.data[at + 16..at + 18].copy_from_slice(&bps.to_le_bytes());
        });
    }
    match ext {
        Ext::Hook(h) if h == DUMMY => {
            let r = |k| AccountMeta::new_readonly(k, false);
            let i = ix(
                DUMMY,
                "initialize_extra_account_meta_list",
                &[],
                vec![
                    AccountMeta::new(k("payer"), true),
                    AccountMeta::new(meta_list(&h, &d.mint), false),
                    r(d.mint),
                    r(d.tp),
                    r(ATA),
                    AccountMeta::new(counter(), false),
                    r(system_program::ID),
                ],
            );
            w = exec(&w, &[i])?.world;
        }
        Ext::Hook(h) => {
            let mut l = EXECUTE.to_vec();
            l.extend((4u32 + 35).to_le_bytes());
            l.extend(1u32.to_le_bytes());
            l.push(0);
            l.extend(log_key().as_ref());
            l.extend([0, 1]);
            w.set(meta_list(&h, &d.mint), Acct { lamports: rent_min(l.len()), owner: h, executable: false, data: l });
            w.set(log_key(), Acct { lamports: rent_min(LOG_LEN), owner: h, executable: false, data: vec![0; LOG_LEN] });
        }
        _ => {}
    }
    Ok(w)
}

fn ata_create(owner: &Pubkey, d: &Dep) -> Instruction {
    spl_associated_token_account::instruction::create_associated_token_account(&k("payer"), owner, &d.mint, &d.tp)
}

/// The deployment for such a token.
pub(super) fn build(s: &Setup, ext: Ext) -> Result<World, String> {
    use spl_token_2022::instruction as ti;
    let d = s.dep();
    let mut w = genesis(s, ext)?;
    let (minter, ta) = (k("minter"), token_authority());
    // in burning mode the mint authority goes to the manager before it starts
    let give = ti::set_authority(&d.tp, &d.mint, Some(&ta), ti::AuthorityType::MintTokens, &minter, &[]).map_err(t22)?;
    // the custody account may hold tokens in either mode
    if s.custody > 0 {
        w = exec(&w, &[ata_create(&ta, &d), ti::mint_to(&d.tp, &d.mint, &d.custody(), &minter, &[], s.custody).map_err(t22)?])?.world;
    }
    if s.burning {
        w = exec(&w, &[give])?.world;
    }
    honest(w, &d, &s.ops())
}

// ------------------------------------------------------------------ hooks

/// Which of the hook's extra accounts accompany the instruction.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Extra {
    Right,
    Reversed,
    /// plus unrelated accounts
    Padded,
    None,
    /// without the n-th account
    Without(usize),
    /// the n-th replaced by another account of the same kind
    Wrong(usize),
    /// the account the hook writes, read-only
    ReadOnly,
}

pub(super) fn right(hook: &Pubkey, d: &Dep, src_owner: &Pubkey) -> Vec<AccountMeta> {
    let r = |k| AccountMeta::new_readonly(k, false);
    if *hook == DUMMY {
        vec![r(dummy_of(src_owner)), AccountMeta::new(counter(), false), r(DUMMY), r(meta_list(hook, &d.mint))]
    } else {
        vec![AccountMeta::new(log_key(), false), r(REC), r(meta_list(hook, &d.mint))]
    }
}

impl Extra {
    fn good(&self) -> bool {
        matches!(self, Extra::Right | Extra::Reversed | Extra::Padded)
    }
    fn metas(&self, hook: &Pubkey, d: &Dep, src_owner: &Pubkey) -> Vec<AccountMeta> {
        let mut v = right(hook, d, src_owner);
        match self {
            Extra::Right => {}
            Extra::Reversed => v.reverse(),
            Extra::Padded => {
                v.insert(0, AccountMeta::new_readonly(k("carol"), false));
                v.push(AccountMeta::new_readonly(k("dave"), false));
            }
            Extra::None => v.clear(),
            Extra::Without(i) => {
                v.remove(*i);
            }
            Extra::Wrong(i) => {
                v[*i].pubkey = if *hook == DUMMY && *i == 0 { dummy_of(&k("mallory")) } else { k("mallory") };
            }
            Extra::ReadOnly => v.iter_mut().for_each(|m| m.is_writable = false),
        }
        v
    }
    fn all(hook: &Pubkey) -> Vec<Extra> {
        let n = right(hook, &Setup::default().dep(), &k("x")).len();
        let mut v = vec![Extra::Right, Extra::Reversed, Extra::Padded, Extra::None, Extra::ReadOnly];
        v.extend((0..n).map(Extra::Without));
        v.extend((0..n).map(Extra::Wrong));
        v
    }
}

#[derive(Clone, Debug)]
enum HOp {
    Do(Op, Extra),
    /// the hook's owner changes what it rejects
    Hook(u8, Pubkey),
}

struct HookScn {
    d: Dep,
    hook: Pubkey,
    inits: Vec<(String, World)>,
    ops: Box<dyn Fn(&Obs) -> Vec<HOp> + Sync>,
}

fn calls(w: &World, hook: &Pubkey) -> u64 {
    if *hook == DUMMY {
        w.data(&counter()).map_or(0, |d| u64le(&d[8..]))
    } else {
        log(w).calls
    }
}

/// Executes one operation and judges it; `None` if rejected.
fn hook_step(w: &World, op: &Op, x: Extra, d: &Dep, hook: &Pubkey) -> (Option<World>, Vec<Div>) {
    let pre = observe(w);
    let mut pred = predict(&pre, op, d);
    // the movement of tokens this operation makes, if any
    let mut moved = None;
    let mut ixs = op.ixs(w, d);
    match op {
        Op::Transfer { owner, from, args, .. } => {
            ixs.last_mut().unwrap().accounts.extend(x.metas(hook, d, owner));
            if let Ok(n) = &pred {
                let amt = pre.tokens[from].amount - n.tokens[from].amount;
                moved = Some((Some(*from), None, amt));
            }
            let _ = args;
        }
        Op::Release { to, item, .. } => {
            ixs.last_mut().unwrap().accounts.extend(x.metas(hook, d, &token_authority()));
            if let Ok(n) = &pred {
                if n.inbox[item] != pre.inbox[item] {
                    moved = Some((None, Some(*to), pre.inbox[item].amount));
                }
            }
        }
        _ => {}
    }
    let custody = d.custody();
    if let Some((s, t, _)) = moved {
        let l = (*hook == REC).then(|| log(w));
        let refuses = l.map_or(false, |l| l.mode == 1 || (l.mode == 2 && [s.unwrap_or(custody), t.unwrap_or(custody)].contains(&l.blocked)));
        if refuses {
            pred = Err(vec!["hook-rejects"]);
        } else if !x.good() {
            pred = Err(vec!["hook-accounts"]);
        }
    }
    let real = match op {
        Op::Advance(_) | Op::Quorum { .. } => run_op(w, op, d),
        _ => exec(w, &ixs).map(|t| t.world),
    };
    let name = op.name();
    let (n, _, mut divs) = judge(op, pred, real);
    if let Some(n) = &n {
        let (a, b) = (calls(w, hook), calls(n, hook));
        let want = a + moved.is_some() as u64;
        if b != want {
            divs.push(Div { op: name.into(), aspect: "hook-calls".into(), detail: format!("{op:?}: the hook ran {} times", b as i128 - a as i128) });
        } else if let (Some((s, t, amt)), true) = (moved, *hook == REC) {
            let l = log(n);
            if s.map_or(false, |s| s != l.src) || t.map_or(false, |t| t != l.dst) || amt != l.amount {
                divs.push(Div { op: name.into(), aspect: "hook-told".into(), detail: format!("{op:?}: the hook saw {l:?}") });
            }
        }
    }
    (n, divs)
}

impl Model for HookScn {
    type S = World;
    type O = HOp;
    type P = World;
    fn pack(&self, s: World) -> World {
        s
    }
    fn unpack(&self, p: &World) -> World {
        p.clone()
    }
    fn init(&self) -> Vec<(String, World)> {
        self.inits.clone()
    }
    fn ops(&self, s: &World) -> Vec<HOp> {
        let mut v = (self.ops)(&observe(s));
        if self.hook == REC {
            let l = log(s);
            for (m, b) in [(0u8, Pubkey::default()), (1, Pubkey::default()), (2, self.d.ata(&k("bob"))), (2, self.d.ata(&k("alice")))] {
                if (l.mode, l.blocked) != (m, b) {
                    v.push(HOp::Hook(m, b));
                }
            }
        }
        v
    }
    fn step(&self, s: &World, op: &HOp) -> (Option<World>, Vec<Div>) {
        match op {
            HOp::Do(op, x) => hook_step(s, op, *x, &self.d, &self.hook),
            HOp::Hook(m, b) => {
                let mut n = s.clone();
                n.edit(&log_key(), |a| {
                    a.data[0] = *m;
                    a.data[1..33].copy_from_slice(b.as_ref());
                });
                (Some(n), vec![])
            }
        }
    }
    fn key(&self, s: &World) -> u128 {
        let mut h = KeyHasher::new();
        world_key(&mut h, s);
        h.finish()
    }
    fn check(&self, _: &World) -> Vec<Div> {
        vec![]
    }
    fn op_name(&self, o: &HOp) -> String {
        match o {
            HOp::Do(op, x) => format!("{}{}", op.name(), if x.good() { "" } else { " (bad hook accounts)" }),
            HOp::Hook(..) => "hook policy".into(),
        }
    }
}

pub(super) fn install() {
    register(REC, Program::Native(recorder));
}

pub fn c26(r: &mut Run) {
    install();
    r.focus(&["transfer/*", "release/*", "inv/*"]);
    let t = r.thorough;
    for hook in [DUMMY, REC] {
        for burning in [false, true] {
            let s = Setup {
                burning,
                t22: true,
                users: vec![("alice", 100_000), ("bob", 500)],
                custody: if burning { 70 } else { 50_000 },
                peers: vec![(2, 9, 1000)],
                ..Setup::default()
            };
            let d = s.dep();
            let name = format!("{}-{}", if hook == DUMMY { "dummy-hook" } else { "policy-hook" }, if burning { "burning" } else { "locking" });
            let prep = build(&s, Ext::Hook(hook)).and_then(|mut w| {
                // three messages: payable at once, delayed, not yet approved
                let mut ops = vec![];
                for (i, amt, to) in [(1u8, 30u64, "bob"), (2, 5000, "bob"), (3, 20, "alice")] {
                    let m = s.inbound(2, i, amt, 8, &k(to));
                    let vaa = post_vaa(&mut w, &format!("vaa{i}"), &MGR, 2, &m);
                    ops.push(Op::Receive { prog: MGR, vaa });
                    if i < 3 {
                        ops.push(Op::Redeem { t: MGR, vtm: vtm(&MGR, 2, &m.msg.id) });
                    }
                }
                honest(w, &d, &ops)
            });
            let Some(w) = r.setup(&name, prep) else { continue };
            let item = {
                let s = s.clone();
                move |i: u8, amt: u64, to: &str| inbox_item(2, &s.inbound(2, i, amt, 8, &k(to)).msg)
            };
            let items = [(item(1, 30, "bob"), "bob"), (item(2, 5000, "bob"), "bob"), (item(3, 20, "alice"), "alice")];
            let id3 = s.inbound(2, 3, 20, 8, &k("alice")).msg.id;
            // every shape of the extra accounts, on every movement
            let shapes = Extra::all(&hook);
            let policies: Vec<(u8, Pubkey)> = if hook == REC {
                vec![(0, Pubkey::default()), (1, Pubkey::default()), (2, d.ata(&k("alice"))), (2, d.ata(&k("bob"))), (2, d.custody())]
            } else {
                vec![(0, Pubkey::default())]
            };
            let Some(w3) = r.setup(&name, honest(w.clone(), &d, &[Op::Redeem { t: MGR, vtm: vtm(&MGR, 2, &id3) }])) else { continue };
            let amounts: Vec<u64> = if t { vec![0, 1, 9, 10, 11, 100, 500, 990, 1000, 1010, 5000, 100_000] } else { vec![0, 9, 10, 105, 1000, 1010, 100_000] };
            let bools = [false, true];
            let whos = ["alice", "bob"];
            r.sweep(&format!("{name}/outbound"), shapes.len() * policies.len() * amounts.len() * 4, |i| {
                let mut ix = Ix(i);
                let x = *ix.pick(&shapes);
                let p = *ix.pick(&policies);
                let a = *ix.pick(&amounts);
                let q = *ix.pick(&bools);
                let who = *ix.pick(&whos);
                let mut w = w3.clone();
                if hook == REC {
                    w.edit(&log_key(), |a| {
                        a.data[0] = p.0;
                        a.data[1..33].copy_from_slice(p.1.as_ref());
                    });
                }
                let mut c = Case::new(move || format!("{who} sends {a}, queue {q}, hook accounts {x:?}, hook policy {p:?}"));
                let (n, divs) = hook_step(&w, &xfer(&d, who, ob(0), args(a, 2, q)), x, &d, &hook);
                c.did(n.as_ref());
                c.divs.extend(divs);
                c
            });
            let delays = [0i64, DAY - 1, DAY, DAY + 1];
            r.sweep(&format!("{name}/payout"), shapes.len() * policies.len() * delays.len() * items.len() * 2, |i| {
                let mut ix = Ix(i);
                let x = *ix.pick(&shapes);
                let p = *ix.pick(&policies);
                let dt = *ix.pick(&delays);
                let (it, to) = *ix.pick(&items);
                let rv = *ix.pick(&bools);
                let mut w = w3.clone();
                w.now += dt;
                if hook == REC {
                    w.edit(&log_key(), |a| {
                        a.data[0] = p.0;
                        a.data[1..33].copy_from_slice(p.1.as_ref());
                    });
                }
                let mut c = Case::new(move || format!("payout of {it} after {dt} s, revert {rv}, hook accounts {x:?}, hook policy {p:?}"));
                let (n, divs) = hook_step(&w, &release(&d, it, to, rv), x, &d, &hook);
                c.did(n.as_ref());
                c.divs.extend(divs);
                if let Some(n) = n {
                    // and again
                    let (m, divs) = hook_step(&n, &release(&d, it, to, rv), x, &d, &hook);
                    c.did(m.as_ref());
                    c.divs.extend(divs);
                }
                c
            });
            // histories
            let dd = d.clone();
            let t0 = w.now;
            let m = HookScn {
                d: d.clone(),
                hook,
                inits: vec![("queued work".into(), w)],
                ops: Box::new(move |o| {
                    let mut v = vec![];
                    for x in [Extra::Right, Extra::None] {
                        if let Some(q) = next_ob(o, 2) {
                            v.push(HOp::Do(xfer(&dd, "alice", q, args(100, 2, false)), x));
                            v.push(HOp::Do(xfer(&dd, "bob", q, args(30, 2, true)), x));
                            v.push(HOp::Do(xfer(&dd, "alice", q, args(2000, 2, true)), x));
                        }
                        for (it, to) in items {
                            v.push(HOp::Do(release(&dd, it, to, x == Extra::Right), x));
                        }
                    }
                    v.push(HOp::Do(Op::Redeem { t: MGR, vtm: vtm(&MGR, 2, &id3) }, Extra::None));
                    for q in o.outbox.keys() {
                        v.push(HOp::Do(Op::Publish { prog: MGR, outbox: *q, revert: false }, Extra::None));
                    }
                    let p = o.config.as_ref().unwrap().paused;
                    v.push(HOp::Do(Op::SetPaused(k("owner"), !p), Extra::None));
                    if o.now < t0 + DAY {
                        v.push(HOp::Do(Op::Advance(DAY), Extra::None));
                    }
                    v
                }),
            };
            r.bfs(&format!("{name}/histories"), &m, if t { 9 } else { 5 });
        }
    }
    fees(r);
}

// ------------------------------------------------------------------- fees

fn fee_of(amount: u64, (bps, max): (u16, u64)) -> u64 {
    let f = (amount as u128 * bps as u128 + 9999) / 10000;
    (f as u64).min(max)
}

fn fees(r: &mut Run) {
    let t = r.thorough;
    let bps: Vec<u16> = if t { vec![0, 1, 2, 50, 100, 5000, 9999, 10000] } else { vec![0, 1, 100, 10000] };
    let maxes: Vec<u64> = vec![0, 1, 5, 1000, u64::MAX];
    let mut rates = vec![];
    for b in &bps {
        for m in &maxes {
            rates.push((*b, *m));
        }
    }
    let bools = [false, true];
    // fee in force from the start, or scheduled for a later epoch
    let mut exts = vec![];
    for x in &rates {
        exts.push(Ext::Fee(*x, *x, 0));
        exts.push(Ext::Fee((0, 0), *x, 3));
        exts.push(Ext::Fee(*x, (0, 0), 3));
        exts.push(Ext::Fee((10000, u64::MAX), *x, 0));
    }
    let amounts: Vec<u64> = if t { vec![0, 1, 9, 10, 19, 20, 100, 990, 1000, 1010, 10_000, 99_999, 100_000] } else { vec![0, 9, 10, 100, 1000, 1010, 100_000] };
    let ins: Vec<u64> = vec![0, 1, 10, 100];
    let custodies = [0u64, 70, 200_000];
    let mut worlds = vec![];
    for e in &exts {
        for b in bools {
            for c in custodies {
                let s = Setup { burning: b, t22: true, custody: c, ..Setup::default() };
                let Some(w) = r.setup("fees", build(&s, *e)) else { return };
                worlds.push((s, *e, w));
            }
        }
    }
    r.sweep("fees/outbound", worlds.len() * amounts.len() * 2, |i| {
        let mut ix = Ix(i);
        let (s, e, w) = ix.pick(&worlds);
        let a = *ix.pick(&amounts);
        let q = *ix.pick(&bools);
        let Ext::Fee(old, new, epoch) = *e else { unreachable!() };
        let d = s.dep();
        let (b, cu) = (s.burning, s.custody);
        let mut c = Case::new(move || format!("send {a}, queue {q}, fee {old:?} then {new:?} from epoch {epoch}, burning {b}, custody {cu}"));
        let pre = observe(w);
        let op = xfer(&d, "alice", ob(0), args(a, 2, q));
        let mut pred = predict(&pre, &op, &d);
        let amt = pred.as_ref().map_or(0, |n| pre.tokens[&d.ata(&k("alice"))].amount - n.tokens[&d.ata(&k("alice"))].amount);
        let fee = fee_of(amt, if epoch == 0 { new } else { old });
        if pred.is_ok() && fee > 0 {
            pred = Err(vec!["fee"]);
        }
        let (n, _, divs) = judge(&op, pred, run_op(w, &op, &d));
        c.did(n.as_ref());
        c.divs.extend(divs);
        c
    });
    r.sweep("fees/payout", worlds.len() * ins.len(), |i| {
        let mut ix = Ix(i);
        let (s, e, w) = ix.pick(&worlds);
        let a = *ix.pick(&ins);
        let Ext::Fee(old, new, epoch) = *e else { unreachable!() };
        let d = s.dep();
        let (b, cu) = (s.burning, s.custody);
        let mut c = Case::new(move || format!("pay {a}0, fee {old:?} then {new:?} from epoch {epoch}, burning {b}, custody {cu}"));
        let mut w = w.clone();
        let m = s.inbound(2, 1, a, 8, &k("bob"));
        let vaa = post_vaa(&mut w, "vaa", &MGR, 2, &m);
        let w = match honest(w, &d, &[Op::Receive { prog: MGR, vaa }, Op::Redeem { t: MGR, vtm: vtm(&MGR, 2, &m.msg.id) }]) {
            Ok(w) => w,
            Err(e) => {
                c.fail("release", "rejected", e);
                return c;
            }
        };
        let pre = observe(&w);
        let op = release(&d, inbox_item(2, &m.msg), "bob", true);
        // what the recipient receives is the token's business; what leaves is not
        let real = run_op(&w, &op, &d);
        c.did(real.as_ref().ok());
        if let (Ok(want), Ok(n)) = (predict(&pre, &op, &d), &real) {
            let got = observe(n);
            let to = d.ata(&k("bob"));
            let fee = fee_of(a * 10, if epoch == 0 { new } else { old });
            let mut want = want;
            want.tokens.get_mut(&to).unwrap().amount -= fee;
            c.divs.extend(compare("release", &want, &got, Some(op.payer())));
        } else if predict(&pre, &op, &d).is_ok() != real.is_ok() {
            c.fail("release", "rejected", format!("{:?}", real.err()));
        }
        c
    });
}
