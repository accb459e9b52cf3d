//! A small, deterministic model of the Solana runtime ("mini-SVM") that runs the *real* native
//! program code against an in-memory ledger.  It owns every source of nondeterminism the program
//! can see (accounts, clock, rent, CPI results).  `conform` replays traces produced here against
//! the real Solana bank (solana-program-test) and compares results and ledgers.

use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::{deserialize, ProgramResult};
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, OnceLock, RwLock};

pub const MAX_INCREASE: usize = 10240;
pub const MAX_LEN: usize = 10 * 1024 * 1024;
pub const SYSTEM: Pubkey = solana_program::system_program::ID;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub data: Vec<u8>,
}

impl Acct {
    pub fn none() -> Acct {
        Acct { lamports: 0, owner: SYSTEM, executable: false, data: vec![] }
    }
    pub fn wallet(lamports: u64) -> Acct {
        Acct { lamports, ..Acct::none() }
    }
    pub fn new(lamports: u64, owner: Pubkey, data: Vec<u8>) -> Acct {
        Acct { lamports, owner, executable: false, data }
    }
    /// Uninitialised in Solana's sense: owned by the system program, no data.
    pub fn is_uninit(&self) -> bool {
        self.owner == SYSTEM && self.data.is_empty()
    }
}

fn none_arc() -> &'static Arc<Acct> {
    static N: OnceLock<Arc<Acct>> = OnceLock::new();
    N.get_or_init(|| Arc::new(Acct::none()))
}

/// The ledger: a map from address to account; an absent entry is the empty system account.
#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Ledger {
    m: BTreeMap<Pubkey, Arc<Acct>>,
}

impl Ledger {
    pub fn get(&self, k: &Pubkey) -> &Acct {
        self.m.get(k).unwrap_or(none_arc())
    }
    pub fn set(&mut self, k: Pubkey, a: Acct) {
        if a == **none_arc() {
            self.m.remove(&k);
        } else {
            self.m.insert(k, Arc::new(a));
        }
    }
    pub fn edit(&mut self, k: &Pubkey, f: impl FnOnce(&mut Acct)) {
        let mut a = self.get(k).clone();
        f(&mut a);
        self.set(*k, a);
    }
    pub fn iter(&self) -> impl Iterator<Item = (&Pubkey, &Acct)> {
        self.m.iter().map(|(k, a)| (k, &**a))
    }
    pub fn same_at(&self, o: &Ledger, k: &Pubkey) -> bool {
        match (self.m.get(k), o.m.get(k)) {
            (Some(a), Some(b)) => Arc::ptr_eq(a, b) || a == b,
            (None, None) => true,
            _ => false,
        }
    }
    pub fn total(&self) -> u128 {
        self.m.values().map(|a| a.lamports as u128).sum()
    }
    fn purge(&mut self) {
        self.m.retain(|_, a| a.lamports != 0);
    }
    /// 128-bit canonical hash. `drop_lamports(k)` says for which accounts the balance is abstracted.
    pub fn digest(&self, drop_lamports: &dyn Fn(&Pubkey) -> bool, extra: &dyn Fn(&mut dyn Hasher)) -> u128 {
        let mut out = 0u128;
        for salt in 0u64..2 {
            let mut h = Fx(0xcbf29ce484222325 ^ (salt.wrapping_mul(0x9E3779B97F4A7C15)));
            for (k, a) in &self.m {
                h.write(k.as_ref());
                if !drop_lamports(k) {
                    h.write_u64(a.lamports);
                } else {
                    h.write_u64(u64::MAX);
                }
                h.write(a.owner.as_ref());
                h.write_u64(a.data.len() as u64);
                h.write(&a.data);
            }
            extra(&mut h);
            out = (out << 64) | h.finish() as u128;
        }
        out
    }
}

/// A simple 64-bit mixing hasher (deterministic across runs, unlike std's RandomState).
pub struct Fx(pub u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            let x = u64::from_le_bytes(w) ^ ((c.len() as u64) << 56);
            self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
            self.0 ^= self.0 >> 29;
        }
    }
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}
pub fn w(key: Pubkey) -> Meta {
    Meta { key, signer: false, writable: true }
}
pub fn r(key: Pubkey) -> Meta {
    Meta { key, signer: false, writable: false }
}
pub fn ws(key: Pubkey) -> Meta {
    Meta { key, signer: true, writable: true }
}
pub fn rs(key: Pubkey) -> Meta {
    Meta { key, signer: true, writable: false }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tx {
    pub label: String,
    pub ixs: Vec<Ix>,
}
impl Tx {
    pub fn new(label: impl Into<String>, ix: Ix) -> Tx {
        Tx { label: label.into(), ixs: vec![ix] }
    }
}

/// One program invocation (top level or CPI) as the runtime saw it.
#[derive(Clone, Debug)]
pub struct Call {
    pub program: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
    pub depth: usize,
    pub parent: Option<usize>,
    pub ix_index: usize,
    pub pre: Ledger,
    /// Ledger right after the invocation succeeded.
    pub post: Option<Ledger>,
    pub err: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub ok: bool,
    pub err: String,
    /// Failed in the transaction-level rent check, after every instruction succeeded.
    pub rent_failure: bool,
    pub ledger: Ledger,
    pub calls: Vec<Call>,
}

pub type ProgFn = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

static PROGRAMS: OnceLock<RwLock<HashMap<Pubkey, ProgFn>>> = OnceLock::new();
pub fn register(id: Pubkey, f: ProgFn) {
    PROGRAMS.get_or_init(Default::default).write().unwrap().insert(id, f);
}
fn program(id: &Pubkey) -> Option<ProgFn> {
    PROGRAMS.get_or_init(Default::default).read().unwrap().get(id).copied()
}

struct Frame {
    program: Pubkey,
    metas: Vec<Meta>,
    sum: u128,
    call: Option<usize>,
}

#[derive(Default)]
struct Ctx {
    led: Ledger,
    stack: Vec<Frame>,
    calls: Vec<Call>,
    slot: u64,
    ix_index: usize,
    tx_keys: Vec<Pubkey>,
    trace_len: usize,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

type R<T> = Result<T, String>;

fn lam_sum(led: &Ledger, metas: &[Meta]) -> u128 {
    let mut s = 0u128;
    for (i, m) in metas.iter().enumerate() {
        if metas[..i].iter().any(|o| o.key == m.key) {
            continue;
        }
        s += led.get(&m.key).lamports as u128;
    }
    s
}

/// Apply a caller's view of one account under the runtime's account-modification rules.
fn apply(led: &mut Ledger, program: &Pubkey, key: &Pubkey, writable: bool, lamports: u64, data: &[u8], owner: &Pubkey) -> R<()> {
    let cur = led.get(key);
    if cur.lamports == lamports && cur.owner == *owner && cur.data == data {
        return Ok(());
    }
    let mut a = cur.clone();
    let owned = a.owner == *program;
    if a.lamports != lamports {
        if !owned && lamports < a.lamports {
            return Err("ExternalAccountLamportSpend".into());
        }
        if !writable {
            return Err("ReadonlyLamportChange".into());
        }
        if a.executable {
            return Err("ExecutableLamportChange".into());
        }
        a.lamports = lamports;
    }
    if a.data != data {
        if a.data.len() != data.len() && !owned {
            return Err("AccountDataSizeChanged".into());
        }
        if data.len() > MAX_LEN {
            return Err("InvalidRealloc".into());
        }
        if a.executable {
            return Err("ExecutableDataModified".into());
        }
        if !writable {
            return Err("ReadonlyDataModified".into());
        }
        if !owned {
            return Err("ExternalAccountDataModified".into());
        }
        a.data = data.to_vec();
    }
    if a.owner != *owner {
        if !writable {
            return Err("ReadonlyOwnerChange (ModifiedProgramId)".into());
        }
        if !owned || a.executable || !a.data.iter().all(|b| *b == 0) {
            return Err("ModifiedProgramId".into());
        }
        a.owner = *owner;
    }
    // an emptied account stays in the map within the transaction: it only vanishes at its end
    led.m.insert(*key, Arc::new(a));
    Ok(())
}

fn system_process(led: &mut Ledger, metas: &[Meta], data: &[u8]) -> R<()> {
    let e = |s: &str| Err::<(), String>(s.to_string());
    let u32_at = |o: usize| data.get(o..o + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()));
    let u64_at = |o: usize| data.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
    let pk_at = |o: usize| data.get(o..o + 32).map(|b| Pubkey::try_from(b).unwrap());
    let bad = || "InvalidInstructionData".to_string();
    let signed = |k: &Pubkey| metas.iter().any(|m| m.key == *k && m.signer);
    let writable = |k: &Pubkey| metas.iter().any(|m| m.key == *k && m.writable);
    let need = |n: usize| if metas.len() < n { Err("NotEnoughAccountKeys".to_string()) } else { Ok(()) };
    let put = |led: &mut Ledger, k: &Pubkey, a: &Acct| apply(led, &SYSTEM, k, writable(k), a.lamports, &a.data, &a.owner);
    let transfer = |led: &mut Ledger, from: &Pubkey, to: &Pubkey, n: u64, fsig: bool| -> R<()> {
        if !fsig {
            return e("MissingRequiredSignature");
        }
        let mut f = led.get(from).clone();
        if !f.data.is_empty() {
            return e("InvalidArgument");
        }
        if n > f.lamports {
            return e("ResultWithNegativeLamports");
        }
        f.lamports -= n;
        put(led, from, &f)?;
        let mut t = led.get(to).clone();
        t.lamports = t.lamports.checked_add(n).ok_or("ArithmeticOverflow")?;
        put(led, to, &t)
    };
    let allocate = |led: &mut Ledger, k: &Pubkey, space: u64| -> R<()> {
        if !signed(k) {
            return e("MissingRequiredSignature");
        }
        let mut a = led.get(k).clone();
        if !a.data.is_empty() || a.owner != SYSTEM {
            return e("AccountAlreadyInUse");
        }
        if space > MAX_LEN as u64 {
            return e("InvalidAccountDataLength");
        }
        a.data = vec![0; space as usize];
        put(led, k, &a)
    };
    let assign = |led: &mut Ledger, k: &Pubkey, owner: &Pubkey| -> R<()> {
        let mut a = led.get(k).clone();
        if a.owner == *owner {
            return Ok(());
        }
        if !signed(k) {
            return e("MissingRequiredSignature");
        }
        a.owner = *owner;
        put(led, k, &a)
    };
    match u32_at(0).ok_or_else(bad)? {
        0 => {
            let (l, s, o) = (u64_at(4).ok_or_else(bad)?, u64_at(12).ok_or_else(bad)?, pk_at(20).ok_or_else(bad)?);
            need(2)?;
            let to = metas[1].key;
            if led.get(&to).lamports > 0 {
                return e("AccountAlreadyInUse");
            }
            allocate(led, &to, s)?;
            assign(led, &to, &o)?;
            transfer(led, &metas[0].key, &to, l, metas[0].signer)
        }
        1 => {
            let o = pk_at(4).ok_or_else(bad)?;
            need(1)?;
            assign(led, &metas[0].key, &o)
        }
        2 => {
            let l = u64_at(4).ok_or_else(bad)?;
            need(2)?;
            transfer(led, &metas[0].key, &metas[1].key, l, metas[0].signer)
        }
        8 => {
            let s = u64_at(4).ok_or_else(bad)?;
            need(1)?;
            allocate(led, &metas[0].key, s)
        }
        _ => Err(bad()),
    }
}

struct Slot {
    key_ix: usize,
    off_owner: usize,
    off_lam: usize,
    off_len: usize,
    off_data: usize,
    orig_len: usize,
}

fn align8(n: usize) -> usize {
    (n + 7) & !7
}

fn native(f: ProgFn, program_id: &Pubkey, metas: &[Meta], data: &[u8]) -> R<()> {
    // Serialise the input exactly like the runtime's aligned ABI.
    let mut first: Vec<Option<usize>> = vec![];
    for (i, m) in metas.iter().enumerate() {
        first.push(metas[..i].iter().position(|o| o.key == m.key));
    }
    let (mut buf, slots) = CTX.with(|c| {
        let c = c.borrow();
        let mut size = 8;
        for (i, m) in metas.iter().enumerate() {
            size += if first[i].is_some() { 8 } else { align8(88 + c.led.get(&m.key).data.len() + MAX_INCREASE) + 8 };
        }
        size += 8 + data.len() + 32 + 64;
        let mut buf: Vec<u64> = vec![0u64; size / 8 + 16];
        let mut slots: Vec<Slot> = vec![];
        {
            let b: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, buf.len() * 8) };
            let mut o = 0;
            b[0..8].copy_from_slice(&(metas.len() as u64).to_le_bytes());
            o += 8;
            for (i, m) in metas.iter().enumerate() {
                if let Some(p) = first[i] {
                    b[o] = p as u8;
                    o += 8;
                    continue;
                }
                let a = c.led.get(&m.key);
                b[o] = 0xff;
                // runtime unifies the privileges of duplicate metas
                b[o + 1] = metas.iter().any(|x| x.key == m.key && x.signer) as u8;
                b[o + 2] = metas.iter().any(|x| x.key == m.key && x.writable) as u8;
                b[o + 3] = a.executable as u8;
                o += 8;
                b[o..o + 32].copy_from_slice(m.key.as_ref());
                let off_owner = o + 32;
                b[off_owner..off_owner + 32].copy_from_slice(a.owner.as_ref());
                let off_lam = o + 64;
                b[off_lam..off_lam + 8].copy_from_slice(&a.lamports.to_le_bytes());
                let off_len = o + 72;
                b[off_len..off_len + 8].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
                let off_data = o + 80;
                b[off_data..off_data + a.data.len()].copy_from_slice(&a.data);
                slots.push(Slot { key_ix: i, off_owner, off_lam, off_len, off_data, orig_len: a.data.len() });
                o = align8(off_data + a.data.len() + MAX_INCREASE);
                b[o..o + 8].copy_from_slice(&u64::MAX.to_le_bytes());
                o += 8;
            }
            b[o..o + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
            o += 8;
            b[o..o + data.len()].copy_from_slice(data);
            o += data.len();
            b[o..o + 32].copy_from_slice(program_id.as_ref());
        }
        (buf, slots)
    });
    let res = catch_unwind(AssertUnwindSafe(|| {
        let (pid, infos, d) = unsafe { deserialize(buf.as_mut_ptr() as *mut u8) };
        f(pid, &infos, d)
    }));
    match res {
        Err(p) => {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            return Err(format!("ProgramFailedToComplete (panic: {msg})"));
        }
        Ok(Err(e)) => {
            // an error raised by the runtime inside a CPI is reported as is
            return Err(format!("{e:?}"));
        }
        Ok(Ok(())) => {}
    }
    let b: &[u8] = unsafe { std::slice::from_raw_parts(buf.as_ptr() as *const u8, buf.len() * 8) };
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        for s in &slots {
            let m = &metas[s.key_ix];
            let wr = metas.iter().any(|x| x.key == m.key && x.writable);
            let len = u64::from_le_bytes(b[s.off_len..s.off_len + 8].try_into().unwrap()) as usize;
            if len.saturating_sub(s.orig_len) > MAX_INCREASE || len > MAX_LEN {
                return Err("InvalidRealloc".into());
            }
            let lam = u64::from_le_bytes(b[s.off_lam..s.off_lam + 8].try_into().unwrap());
            let owner = Pubkey::try_from(&b[s.off_owner..s.off_owner + 32]).unwrap();
            apply(&mut c.led, program_id, &m.key, wr, lam, &b[s.off_data..s.off_data + len], &owner)?;
        }
        Ok(())
    })
}

/// Push a frame, run the program, pop with the balance check.
fn run(program_id: Pubkey, metas: Vec<Meta>, data: Vec<u8>) -> R<()> {
    let call = CTX.with(|c| -> R<Option<usize>> {
        let c = &mut *c.borrow_mut();
        if c.stack.len() >= 5 {
            return Err("CallDepth".into());
        }
        c.trace_len += 1;
        if c.trace_len > 64 {
            return Err("MaxInstructionTraceLengthExceeded".into());
        }
        if let Some(top) = c.stack.last() {
            if lam_sum(&c.led, &top.metas) != top.sum {
                return Err("UnbalancedInstruction".into());
            }
            let contains = c.stack.iter().any(|f| f.program == program_id);
            if contains && top.program != program_id {
                return Err("ReentrancyNotAllowed".into());
            }
        }
        let sum = lam_sum(&c.led, &metas);
        let call = if program_id == SYSTEM {
            None
        } else {
            c.calls.push(Call {
                program: program_id,
                metas: metas.clone(),
                data: data.clone(),
                depth: c.stack.len(),
                parent: c.stack.iter().rev().find_map(|f| f.call),
                ix_index: c.ix_index,
                pre: c.led.clone(),
                post: None,
                err: None,
            });
            Some(c.calls.len() - 1)
        };
        c.stack.push(Frame { program: program_id, metas: metas.clone(), sum, call });
        Ok(call)
    })?;
    let mut res = if program_id == SYSTEM {
        CTX.with(|c| system_process(&mut c.borrow_mut().led, &metas, &data))
    } else if let Some(f) = program(&program_id) {
        native(f, &program_id, &metas, &data)
    } else {
        Err("UnsupportedProgramId".into())
    };
    CTX.with(|c| {
        let c = &mut *c.borrow_mut();
        let fr = c.stack.pop().unwrap();
        if res.is_ok() && lam_sum(&c.led, &fr.metas) != fr.sum {
            res = Err("UnbalancedInstruction".into());
        }
        if let Some(i) = call {
            match &res {
                Ok(()) => c.calls[i].post = Some(c.led.clone()),
                Err(e) => c.calls[i].err = Some(e.clone()),
            }
        }
    });
    res
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> R<()> {
    let (metas, back) = CTX.with(|c| -> R<(Vec<Meta>, Vec<(Pubkey, usize)>)> {
        let c = &mut *c.borrow_mut();
        let caller = c.stack.last().ok_or("no frame")?;
        let caller_id = caller.program;
        let mut signers = vec![];
        for s in seeds {
            signers.push(Pubkey::create_program_address(s, &caller_id).map_err(|e| format!("{e:?}"))?);
        }
        let mut metas: Vec<Meta> = ix
            .accounts
            .iter()
            .map(|m| Meta { key: m.pubkey, signer: m.is_signer, writable: m.is_writable })
            .collect();
        // unify duplicate privileges
        let copy = metas.clone();
        for m in metas.iter_mut() {
            m.signer = copy.iter().any(|o| o.key == m.key && o.signer);
            m.writable = copy.iter().any(|o| o.key == m.key && o.writable);
        }
        for m in &metas {
            let cs: Vec<&Meta> = caller.metas.iter().filter(|x| x.key == m.key).collect();
            if cs.is_empty() {
                return Err("MissingAccount".into());
            }
            if m.writable && !cs.iter().any(|x| x.writable) {
                return Err("PrivilegeEscalation (writable)".into());
            }
            if m.signer && !(cs.iter().any(|x| x.signer) || signers.contains(&m.key)) {
                return Err("PrivilegeEscalation (signer)".into());
            }
        }
        if !c.tx_keys.contains(&ix.program_id) || !c.led.get(&ix.program_id).executable {
            return Err("MissingAccount (program)".into());
        }
        let mut back = vec![];
        let caller_metas = caller.metas.clone();
        for (i, m) in metas.iter().enumerate() {
            if metas[..i].iter().any(|o| o.key == m.key) {
                continue;
            }
            let ai_ix = infos.iter().position(|a| *a.key == m.key).ok_or("MissingAccount")?;
            let ai = &infos[ai_ix];
            let cw = caller_metas.iter().any(|x| x.key == m.key && x.writable);
            let d = ai.try_borrow_data().map_err(|e| format!("{e:?}"))?;
            let l = ai.try_borrow_lamports().map_err(|e| format!("{e:?}"))?;
            apply(&mut c.led, &caller_id, &m.key, cw, **l, &d, ai.owner)?;
            if m.writable {
                back.push((m.key, ai_ix));
            }
        }
        Ok((metas, back))
    })?;
    run(ix.program_id, metas, ix.data.clone())?;
    CTX.with(|c| -> R<()> {
        let c = c.borrow();
        for (k, i) in back {
            let a = c.led.get(&k);
            let ai = &infos[i];
            **ai.try_borrow_mut_lamports().map_err(|e| format!("{e:?}"))? = a.lamports;
            if *ai.owner != a.owner {
                ai.assign(&a.owner);
            }
            if ai.data_len() != a.data.len() {
                ai.realloc(a.data.len(), false).map_err(|e| format!("{e:?}"))?;
            }
            ai.try_borrow_mut_data().map_err(|e| format!("{e:?}"))?.copy_from_slice(&a.data);
        }
        Ok(())
    })
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if trace_logs() {
            println!("      log: {m}");
        }
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        200_000
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let slot = CTX.with(|c| c.borrow().slot);
        let c = solana_program::clock::Clock { slot, ..Default::default() };
        unsafe { *(p as *mut solana_program::clock::Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        CTX.with(|c| c.borrow().stack.len() as u64)
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        match cpi(ix, infos, seeds) {
            Ok(()) => Ok(()),
            // On chain a failed CPI aborts the whole transaction: the caller cannot observe it.
            Err(e) => std::panic::panic_any(format!("CPI failed: {e}")),
        }
    }
}

static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn set_trace(on: bool) {
    TRACE.store(on, std::sync::atomic::Ordering::Relaxed)
}
fn trace_logs() -> bool {
    TRACE.load(std::sync::atomic::Ordering::Relaxed)
}

pub fn install() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| {
        // program panics are an ordinary outcome; panics of the harness itself are printed
        let in_program = CTX.with(|c| c.try_borrow().map(|c| !c.stack.is_empty()).unwrap_or(false));
        if !in_program {
            eprintln!("harness panic: {i}");
        }
    }));
}

pub fn rent(len: usize) -> u64 {
    (128 + len as u64) * 3480 * 2
}

#[derive(PartialEq, Debug)]
enum RentState {
    Uninit,
    Paying(usize, u64),
    Exempt,
}
fn rent_state(a: &Acct) -> RentState {
    if a.lamports == 0 {
        RentState::Uninit
    } else if a.lamports >= rent(a.data.len()) {
        RentState::Exempt
    } else {
        RentState::Paying(a.data.len(), a.lamports)
    }
}

/// Execute a transaction atomically on `led` at `slot`.
pub fn exec(led: &Ledger, tx: &Tx, slot: u64) -> Out {
    // message-level privileges
    let mut flags: HashMap<Pubkey, (bool, bool)> = HashMap::new();
    let mut keys = vec![];
    for ix in &tx.ixs {
        for m in &ix.metas {
            let f = flags.entry(m.key).or_default();
            f.0 |= m.signer;
            f.1 |= m.writable;
            keys.push(m.key);
        }
        keys.push(ix.program);
    }
    for ix in &tx.ixs {
        if let Some(f) = flags.get_mut(&ix.program) {
            f.1 = false;
        }
    }
    if let Some(f) = flags.get_mut(&SYSTEM) {
        f.1 = false;
    }
    CTX.with(|c| {
        *c.borrow_mut() = Ctx { led: led.clone(), slot, tx_keys: keys, ..Default::default() };
    });
    let mut err = None;
    for (i, ix) in tx.ixs.iter().enumerate() {
        let metas: Vec<Meta> = ix
            .metas
            .iter()
            .map(|m| Meta { key: m.key, signer: flags[&m.key].0, writable: flags[&m.key].1 })
            .collect();
        CTX.with(|c| c.borrow_mut().ix_index = i);
        if let Err(e) = run(ix.program, metas, ix.data.clone()) {
            err = Some(format!("ix{i}: {e}"));
            break;
        }
    }
    let mut ctx = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
    let mut rent_failure = false;
    if err.is_none() {
        for (k, (_, wr)) in &flags {
            if !wr {
                continue;
            }
            let post = rent_state(ctx.led.get(k));
            if let RentState::Paying(sz, l) = &post {
                let ok = match rent_state(led.get(k)) {
                    RentState::Paying(psz, pl) => psz == *sz && *l <= pl,
                    _ => false,
                };
                if !ok {
                    err = Some("InsufficientFundsForRent".into());
                    rent_failure = true;
                }
            }
        }
    }
    match err {
        Some(e) => Out { ok: false, err: e, rent_failure, ledger: led.clone(), calls: ctx.calls },
        None => {
            ctx.led.purge();
            Out { ok: true, err: String::new(), rent_failure: false, ledger: ctx.led, calls: ctx.calls }
        }
    }
}

pub fn err_is_program(e: &ProgramError) -> bool {
    matches!(e, ProgramError::Custom(_))
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = Fx(7);
    t.hash(&mut h);
    h.finish()
}
