//! A small in-process Solana runtime.
//!
//! Executes the *native* builds of on-chain programs (their anchor `entry`
//! functions, or SPL processors) against a set of accounts, following the
//! runtime's rules: accounts are laid out as in the real program input buffer
//! (so `realloc`/`assign` work), only an account's owner may change its data
//! or debit it, only writable accounts may change, lamports are conserved,
//! CPI privileges are checked, PDAs sign through seeds, a failing instruction
//! aborts the whole transaction, and a failed transaction changes nothing.

use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    sysvar,
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::{Arc, Once, OnceLock, RwLock},
};

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub data: Vec<u8>,
}

/// The accounts of one chain plus its clock. Cheap to clone.
#[derive(Clone, Default)]
pub struct World {
    accts: Vec<(Pubkey, Arc<Acct>)>,
    pub now: i64,
    pub slot: u64,
}

impl World {
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.accts
            .binary_search_by(|e| e.0.cmp(k))
            .ok()
            .map(|i| &*self.accts[i].1)
    }
    pub fn set(&mut self, k: Pubkey, a: Acct) {
        match self.accts.binary_search_by(|e| e.0.cmp(&k)) {
            Ok(i) => self.accts[i].1 = Arc::new(a),
            Err(i) => self.accts.insert(i, (k, Arc::new(a))),
        }
    }
    pub fn remove(&mut self, k: &Pubkey) {
        if let Ok(i) = self.accts.binary_search_by(|e| e.0.cmp(k)) {
            self.accts.remove(i);
        }
    }
    pub fn edit(&mut self, k: &Pubkey, f: impl FnOnce(&mut Acct)) {
        let mut a = self.get(k).cloned().unwrap_or_default();
        f(&mut a);
        self.set(*k, a);
    }
    pub fn iter(&self) -> impl Iterator<Item = (&Pubkey, &Acct)> {
        self.accts.iter().map(|(k, a)| (k, &**a))
    }
    pub fn data(&self, k: &Pubkey) -> Option<&[u8]> {
        self.get(k).map(|a| &a.data[..])
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.get(k).map_or(0, |a| a.lamports)
    }
    pub fn same_accounts(&self, o: &World) -> bool {
        self.accts.len() == o.accts.len()
            && self
                .accts
                .iter()
                .zip(o.accts.iter())
                .all(|(a, b)| a.0 == b.0 && (Arc::ptr_eq(&a.1, &b.1) || a.1 == b.1))
    }
    /// Keys whose account differs between the two worlds.
    pub fn changed(&self, o: &World) -> Vec<Pubkey> {
        let mut m: BTreeMap<Pubkey, (Option<&Acct>, Option<&Acct>)> = BTreeMap::new();
        for (k, a) in self.iter() {
            m.entry(*k).or_default().0 = Some(a);
        }
        for (k, a) in o.iter() {
            m.entry(*k).or_default().1 = Some(a);
        }
        m.into_iter()
            .filter(|(_, (a, b))| a != b)
            .map(|(k, _)| k)
            .collect()
    }
}

pub type NativeFn = fn(&Pubkey, &'static [AccountInfo<'static>], &[u8]) -> ProgramResult;
pub type BuiltinFn = fn(&mut Ctx, &[u8]) -> Result<(), String>;

#[derive(Clone, Copy)]
pub enum Program {
    Native(NativeFn),
    Builtin(BuiltinFn),
}

fn programs() -> &'static RwLock<HashMap<Pubkey, Program>> {
    static P: OnceLock<RwLock<HashMap<Pubkey, Program>>> = OnceLock::new();
    P.get_or_init(Default::default)
}

/// Registers a program (visible in every world as an executable account).
pub fn register(id: Pubkey, p: Program) {
    programs().write().unwrap().insert(id, p);
}

fn program(id: &Pubkey) -> Option<Program> {
    thread_local!(static CACHE: RefCell<HashMap<Pubkey, Program>> = RefCell::default());
    CACHE.with(|c| {
        if let Some(p) = c.borrow().get(id) {
            return Some(*p);
        }
        let p = programs().read().unwrap().get(id).copied();
        if let Some(p) = p {
            c.borrow_mut().insert(*id, p);
        }
        p
    })
}

pub fn is_program(id: &Pubkey) -> bool {
    program(id).is_some()
}

pub const LOADER: Pubkey = solana_program::bpf_loader_upgradeable::ID;
pub const START_TIME: i64 = 1_700_000_000;

pub fn clock_of(w: &World) -> Clock {
    Clock {
        slot: w.slot,
        epoch_start_timestamp: 0,
        epoch: 0,
        leader_schedule_epoch: 0,
        unix_timestamp: w.now,
    }
}

pub fn rent_min(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}

#[derive(Clone, Debug)]
pub struct FrameAcct {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

pub struct Frame {
    pub program: Pubkey,
    pub accts: Vec<FrameAcct>,
    sum: u128,
}

/// The state of a transaction being executed.
pub struct Ctx {
    base: World,
    work: HashMap<Pubkey, Acct>,
    stack: Vec<Frame>,
    ret: Option<(Pubkey, Vec<u8>)>,
    aborted: Option<String>,
    depth_slots: usize,
}

impl Ctx {
    pub fn load(&mut self, k: &Pubkey) -> &mut Acct {
        let base = &self.base;
        self.work.entry(*k).or_insert_with(|| {
            if let Some(a) = base.get(k) {
                return a.clone();
            }
            if program(k).is_some() {
                return Acct {
                    lamports: 1,
                    owner: LOADER,
                    executable: true,
                    data: vec![],
                };
            }
            if *k == sysvar::clock::ID {
                return Acct {
                    lamports: 1,
                    owner: sysvar::ID,
                    executable: false,
                    data: bincode::serialize(&clock_of(base)).unwrap(),
                };
            }
            if *k == sysvar::rent::ID {
                return Acct {
                    lamports: 1,
                    owner: sysvar::ID,
                    executable: false,
                    data: bincode::serialize(&Rent::default()).unwrap(),
                };
            }
            Acct::default()
        })
    }
    pub fn frame(&self) -> &Frame {
        self.stack.last().unwrap()
    }
    pub fn acct_key(&self, i: usize) -> Result<Pubkey, String> {
        self.frame()
            .accts
            .get(i)
            .map(|a| a.key)
            .ok_or_else(|| "NotEnoughAccountKeys".to_string())
    }
    pub fn is_signer(&self, i: usize) -> bool {
        self.frame().accts.get(i).map_or(false, |a| a.signer)
    }
    pub fn is_writable_key(&self, k: &Pubkey) -> bool {
        self.frame().accts.iter().any(|a| a.key == *k && a.writable)
    }
    pub fn is_signer_key(&self, k: &Pubkey) -> bool {
        self.frame().accts.iter().any(|a| a.key == *k && a.signer)
    }
    pub fn now(&self) -> i64 {
        self.base.now
    }
    pub fn slot(&self) -> u64 {
        self.base.slot
    }
    fn sum(&mut self, accts: &[FrameAcct]) -> u128 {
        let mut seen: Vec<Pubkey> = vec![];
        let mut s = 0u128;
        for a in accts {
            if !seen.contains(&a.key) {
                seen.push(a.key);
                s += self.load(&a.key).lamports as u128;
            }
        }
        s
    }
    /// Runtime rules for one account modified by `program`.
    fn commit(
        &mut self,
        program: &Pubkey,
        key: &Pubkey,
        writable: bool,
        lamports: u64,
        owner: &Pubkey,
        data: &[u8],
    ) -> Result<(), String> {
        let pre = self.load(key);
        let changed = pre.lamports != lamports || pre.owner != *owner || pre.data != data;
        if !changed {
            return Ok(());
        }
        if pre.executable {
            return Err("ExecutableModified".into());
        }
        if !writable {
            return Err(format!("ReadonlyModified {key}"));
        }
        if lamports < pre.lamports && pre.owner != *program {
            return Err("ExternalAccountLamportSpend".into());
        }
        if pre.data != data && pre.owner != *program {
            return Err("ExternalAccountDataModified".into());
        }
        if pre.owner != *owner {
            if pre.owner != *program {
                return Err("ModifiedProgramId".into());
            }
            if data.iter().any(|b| *b != 0) {
                return Err("ModifiedProgramId (data not zero)".into());
            }
        }
        pre.lamports = lamports;
        pre.owner = *owner;
        if pre.data != data {
            pre.data.clear();
            pre.data.extend_from_slice(data);
        }
        Ok(())
    }
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
    static SLOTS: RefCell<Vec<Box<Slot>>> = RefCell::new(Vec::new());
    static QUIET: RefCell<u32> = RefCell::new(0);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static LOGS: RefCell<Option<Vec<String>>> = RefCell::new(None);
}

fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no transaction running")))
}

/// Largest account this runtime handles plus the growth the loader permits.
const CAP: usize = 88 + 10_240 + 12_288;

/// One account in the program input layout:
/// marker, signer, writable, executable, original length (u32), key, owner,
/// lamports, data length, data.
struct Slot {
    buf: Vec<u64>,
    dirty: usize,
}

impl Slot {
    fn new() -> Self {
        Slot {
            buf: vec![0; CAP / 8],
            dirty: 0,
        }
    }
    fn p(&mut self) -> *mut u8 {
        self.buf.as_mut_ptr() as *mut u8
    }
    fn write(&mut self, key: &Pubkey, signer: bool, writable: bool, a: &Acct) {
        let n = a.data.len();
        assert!(n + 88 + 10_240 <= CAP, "account too large for mini-SVM");
        let d = self.dirty;
        unsafe {
            let p = self.p();
            *p = 0xff;
            *p.add(1) = signer as u8;
            *p.add(2) = writable as u8;
            *p.add(3) = a.executable as u8;
            *(p.add(4) as *mut u32) = n as u32;
            std::ptr::copy_nonoverlapping(key.as_ref().as_ptr(), p.add(8), 32);
            std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), p.add(40), 32);
            *(p.add(72) as *mut u64) = a.lamports;
            *(p.add(80) as *mut u64) = n as u64;
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(88), n);
            if d > n {
                std::ptr::write_bytes(p.add(88 + n), 0, d - n);
            }
        }
        self.dirty = n;
    }
    fn info(&mut self) -> AccountInfo<'static> {
        unsafe {
            let p = self.p();
            AccountInfo {
                key: &*(p.add(8) as *const Pubkey),
                lamports: Rc::new(RefCell::new(&mut *(p.add(72) as *mut u64))),
                data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(
                    p.add(88),
                    *(p.add(80) as *const u64) as usize,
                ))),
                owner: &*(p.add(40) as *const Pubkey),
                rent_epoch: u64::MAX,
                is_signer: *p.add(1) != 0,
                is_writable: *p.add(2) != 0,
                executable: *p.add(3) != 0,
            }
        }
    }
}

fn take_slot() -> Box<Slot> {
    SLOTS
        .with(|s| s.borrow_mut().pop())
        .unwrap_or_else(|| Box::new(Slot::new()))
}

fn give_slot(s: Box<Slot>) {
    SLOTS.with(|v| v.borrow_mut().push(s));
}

fn merged(metas: &[AccountMeta]) -> Vec<FrameAcct> {
    let mut v: Vec<FrameAcct> = metas
        .iter()
        .map(|m| FrameAcct {
            key: m.pubkey,
            signer: m.is_signer,
            writable: m.is_writable,
        })
        .collect();
    for i in 0..v.len() {
        let (mut s, mut w) = (false, false);
        for o in metas {
            if o.pubkey == v[i].key {
                s |= o.is_signer;
                w |= o.is_writable;
            }
        }
        v[i].signer = s;
        v[i].writable = w;
    }
    v
}

fn process(program_id: &Pubkey, accts: Vec<FrameAcct>, data: &[u8]) -> Result<(), String> {
    let prog = with(|c| {
        let exe = c.load(program_id).executable;
        if !exe {
            return Err(format!("program {program_id} not executable"));
        }
        if c.stack.len() >= 5 {
            return Err("CallDepth".into());
        }
        if c.stack.last().map_or(false, |f| f.program != *program_id)
            && c.stack.iter().any(|f| f.program == *program_id)
        {
            return Err("ReentrancyNotAllowed".into());
        }
        if let Some(f) = c.stack.last() {
            let (accts, sum) = (f.accts.clone(), f.sum);
            if c.sum(&accts) != sum {
                return Err("UnbalancedInstruction (caller)".into());
            }
        }
        let sum = c.sum(&accts);
        c.stack.push(Frame {
            program: *program_id,
            accts: accts.clone(),
            sum,
        });
        c.ret = None;
        program(program_id).ok_or_else(|| "UnsupportedProgramId".to_string())
    })?;
    match prog {
        Program::Builtin(f) => with(|c| {
            let pre: Vec<(Pubkey, bool, Acct)> = accts
                .iter()
                .map(|a| (a.key, a.writable, c.load(&a.key).clone()))
                .collect();
            f(c, data)?;
            for (k, w, p) in pre {
                if !w && *c.load(&k) != p {
                    return Err(format!("ReadonlyModified {k} by builtin"));
                }
            }
            Ok(())
        })?,
        Program::Native(f) => run_native(program_id, &accts, data, f)?,
    }
    with(|c| {
        let f = c.stack.last().unwrap();
        let (fa, sum) = (f.accts.clone(), f.sum);
        if c.sum(&fa) != sum {
            return Err("UnbalancedInstruction".to_string());
        }
        c.stack.pop();
        Ok(())
    })
}

fn run_native(
    program_id: &Pubkey,
    accts: &[FrameAcct],
    data: &[u8],
    f: NativeFn,
) -> Result<(), String> {
    let mut slots: Vec<Box<Slot>> = Vec::with_capacity(accts.len());
    let mut infos: Vec<AccountInfo<'static>> = Vec::with_capacity(accts.len());
    let mut first: Vec<usize> = Vec::with_capacity(accts.len());
    with(|c| {
        for (i, a) in accts.iter().enumerate() {
            if let Some(j) = accts[..i].iter().position(|b| b.key == a.key) {
                let dup = infos[j].clone();
                infos.push(dup);
                continue;
            }
            let mut s = take_slot();
            s.write(&a.key, a.signer, a.writable, c.load(&a.key));
            infos.push(s.info());
            slots.push(s);
            first.push(i);
        }
        c.depth_slots += 1;
    });
    let res = {
        let slice: &'static [AccountInfo<'static>] =
            unsafe { std::mem::transmute::<&[AccountInfo], _>(&infos[..]) };
        QUIET.with(|q| *q.borrow_mut() += 1);
        let r = catch_unwind(AssertUnwindSafe(|| f(program_id, slice, data)));
        QUIET.with(|q| *q.borrow_mut() -= 1);
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(format!("{e:?}")),
            Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        }
    };
    let res = res.and_then(|_| {
        with(|c| {
            if let Some(e) = &c.aborted {
                return Err(e.clone());
            }
            for &i in &first {
                let info = &infos[i];
                let lamports = **info.lamports.try_borrow().map_err(|_| "borrow")?;
                let d = info.data.try_borrow().map_err(|_| "borrow")?;
                c.commit(
                    program_id,
                    &accts[i].key,
                    accts[i].writable,
                    lamports,
                    info.owner,
                    &d,
                )?;
            }
            Ok(())
        })
    });
    for (s, &i) in slots.iter_mut().zip(first.iter()) {
        let n = infos[i].data.try_borrow().map(|d| d.len()).unwrap_or(CAP - 88);
        // accounts that grew and shrank again may have left bytes behind
        s.dirty = s.dirty.max(n);
        let orig = unsafe { *((s.buf.as_ptr() as *const u8).add(4) as *const u32) } as usize;
        if n != orig {
            s.dirty = CAP - 88;
        }
    }
    drop(infos);
    slots.into_iter().for_each(give_slot);
    res
}

fn cpi(
    ix: &Instruction,
    infos: &[AccountInfo],
    seeds: &[&[&[u8]]],
) -> Result<(), String> {
    let accts = with(|c| {
        let caller = c.frame().program;
        let mut signers = vec![];
        for s in seeds {
            signers.push(
                Pubkey::create_program_address(s, &caller)
                    .map_err(|e| format!("bad signer seeds {e:?}"))?,
            );
        }
        let accts = merged(&ix.accounts);
        for a in &accts {
            let fr = c
                .frame()
                .accts
                .iter()
                .find(|f| f.key == a.key)
                .ok_or_else(|| format!("MissingAccount {}", a.key))?;
            if a.writable && !fr.writable {
                return Err(format!("PrivilegeEscalation writable {}", a.key));
            }
            if a.signer && !fr.signer && !signers.contains(&a.key) {
                return Err(format!("PrivilegeEscalation signer {}", a.key));
            }
        }
        if !c.frame().accts.iter().any(|f| f.key == ix.program_id) {
            return Err(format!("MissingAccount program {}", ix.program_id));
        }
        // the callee sees the caller's pending changes
        let fa = c.frame().accts.clone();
        let mut done: Vec<Pubkey> = vec![];
        for a in &accts {
            if done.contains(&a.key) {
                continue;
            }
            done.push(a.key);
            let info = infos
                .iter()
                .find(|i| *i.key == a.key)
                .ok_or_else(|| format!("MissingAccount info {}", a.key))?;
            let w = fa.iter().any(|f| f.key == a.key && f.writable);
            let lamports = **info.lamports.try_borrow().map_err(|_| "AccountBorrowFailed")?;
            let d = info.data.try_borrow().map_err(|_| "AccountBorrowFailed")?;
            c.commit(&caller, &a.key, w, lamports, info.owner, &d)?;
        }
        Ok(accts)
    })?;
    process(&ix.program_id, accts.clone(), &ix.data)?;
    with(|c| {
        for a in &accts {
            if !a.writable {
                continue;
            }
            let acct = c.load(&a.key).clone();
            for info in infos.iter().filter(|i| *i.key == a.key) {
                **info
                    .lamports
                    .try_borrow_mut()
                    .map_err(|_| "AccountBorrowFailed")? = acct.lamports;
                if *info.owner != acct.owner {
                    #[allow(invalid_reference_casting)]
                    unsafe {
                        std::ptr::write_volatile(
                            info.owner as *const Pubkey as *mut Pubkey,
                            acct.owner,
                        );
                    }
                }
                if info.data_len() != acct.data.len() {
                    info.realloc(acct.data.len(), false)
                        .map_err(|e| format!("realloc {e:?}"))?;
                }
                info.data
                    .try_borrow_mut()
                    .map_err(|_| "AccountBorrowFailed")?
                    .copy_from_slice(&acct.data);
            }
        }
        Ok(())
    })
}

struct Stubs;

impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        LOGS.with(|l| {
            if let Some(v) = l.borrow_mut().as_mut() {
                v.push(m.to_string())
            }
        })
    }
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        1_000_000
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        match cpi(ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(e) => {
                // in the real runtime a failed CPI ends the transaction
                with(|c| {
                    c.aborted.get_or_insert(e.clone());
                });
                self.sol_log(&format!("CPI failed: {e}"));
                Err(ProgramError::Custom(0xdead))
            }
        }
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = with(|c| clock_of(&c.base));
        unsafe { *(p as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        with(|c| c.ret.clone())
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        with(|c| c.ret = Some((c.frame().program, d.to_vec())))
    }
    fn sol_get_stack_height(&self) -> u64 {
        with(|c| c.stack.len() as u64)
    }
}

pub fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if QUIET.with(|q| *q.borrow()) > 0 {
                LAST_PANIC.with(|p| *p.borrow_mut() = format!("{i}"));
            } else {
                prev(i)
            }
        }));
    });
}

/// Result of a successful transaction.
pub struct TxOk {
    pub world: World,
    pub ret: Option<(Pubkey, Vec<u8>)>,
}

/// Executes a transaction. Accounts flagged as signers in the instructions'
/// metas have signed.
pub fn exec(w: &World, ixs: &[Instruction]) -> Result<TxOk, String> {
    CTX.with(|c| {
        *c.borrow_mut() = Some(Ctx {
            base: w.clone(),
            work: HashMap::with_capacity(32),
            stack: vec![],
            ret: None,
            aborted: None,
            depth_slots: 0,
        })
    });
    let all: Vec<AccountMeta> = ixs.iter().flat_map(|i| i.accounts.clone()).collect();
    let mut res = Ok(());
    for ix in ixs {
        // message-level privileges
        let mut fa = merged(&ix.accounts);
        for a in fa.iter_mut() {
            for m in all.iter().filter(|m| m.pubkey == a.key) {
                a.signer |= m.is_signer;
                a.writable |= m.is_writable;
            }
        }
        // program accounts and sysvars are demoted to read-only, as in a real message
        for a in fa.iter_mut() {
            if program(&a.key).is_some() || a.key == sysvar::clock::ID || a.key == sysvar::rent::ID
            {
                a.writable = false;
            }
        }
        res = process(&ix.program_id, fa, &ix.data);
        if res.is_err() {
            break;
        }
    }
    let ctx = CTX.with(|c| c.borrow_mut().take().unwrap());
    res?;
    if let Some(e) = ctx.aborted {
        return Err(e);
    }
    let mut out = w.clone();
    for (k, a) in ctx.work {
        let pre = w.get(&k);
        if pre == Some(&a) {
            continue;
        }
        if pre.is_none()
            && (a == Acct::default()
                || program(&k).is_some()
                || k == sysvar::clock::ID
                || k == sysvar::rent::ID)
        {
            continue;
        }
        if a.lamports == 0 {
            out.remove(&k);
            continue;
        }
        if a.lamports < rent_min(a.data.len()) {
            let was = pre.map_or(false, |p| {
                p.lamports < rent_min(p.data.len())
                    && p.data.len() == a.data.len()
                    && a.lamports <= p.lamports
            });
            if !was {
                return Err(format!("InsufficientFundsForRent {k}"));
            }
        }
        out.set(k, a);
    }
    Ok(TxOk {
        world: out,
        ret: ctx.ret,
    })
}

/// Like [`exec`], also returning the program logs (for diagnostics).
pub fn exec_logged(w: &World, ixs: &[Instruction]) -> (Result<TxOk, String>, Vec<String>) {
    LOGS.with(|l| *l.borrow_mut() = Some(vec![]));
    let r = exec(w, ixs);
    let logs = LOGS.with(|l| l.borrow_mut().take().unwrap());
    (r, logs)
}
