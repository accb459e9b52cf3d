//! Independent statement of the wire format: operation numbers, argument encodings, account order
//! and flags, derived addresses and account layouts.  Nothing here comes from the crate under test.

use crate::svm::*;
use solana_program::pubkey;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};

pub const DLP: Pubkey = pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
pub const LOADER: Pubkey = pubkey!("BPFLoaderUpgradeab1e11111111111111111111111");
pub const CALLBACK: [u8; 8] = [196, 28, 41, 206, 48, 37, 51, 167];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Delegate = 0,
    Commit = 1,
    Finalize = 2,
    Undelegate = 3,
    InitProtocol = 5,
    InitValidator = 6,
    ValidatorClaim = 7,
    Whitelist = 8,
    TopUp = 9,
    DelegateEscrow = 10,
    CloseEscrow = 11,
    ProtocolClaim = 12,
    CommitBuffer = 13,
    CloseValidator = 14,
}
pub const OPS: [Op; 14] = [
    Op::Delegate,
    Op::Commit,
    Op::Finalize,
    Op::Undelegate,
    Op::InitProtocol,
    Op::InitValidator,
    Op::ValidatorClaim,
    Op::Whitelist,
    Op::TopUp,
    Op::DelegateEscrow,
    Op::CloseEscrow,
    Op::ProtocolClaim,
    Op::CommitBuffer,
    Op::CloseValidator,
];
impl Op {
    pub fn from_tag(t: u8) -> Option<Op> {
        OPS.iter().copied().find(|o| *o as u8 == t)
    }
    pub fn n_accounts(self) -> usize {
        self.flags().len()
    }
    /// (needs signature, needs to be writable) per account position.
    pub fn flags(self) -> &'static [(bool, bool)] {
        const S: (bool, bool) = (true, false);
        const SW: (bool, bool) = (true, true);
        const W: (bool, bool) = (false, true);
        const R: (bool, bool) = (false, false);
        match self {
            Op::Delegate => &[SW, SW, R, W, W, W, R],
            Op::Commit => &[SW, R, W, W, R, W, R, R, R],
            Op::CommitBuffer => &[SW, R, W, W, R, W, R, R, R, R],
            Op::Finalize => &[SW, W, W, W, W, W, W, R],
            Op::Undelegate => &[SW, W, R, W, R, R, W, W, W, W, W, R],
            Op::InitProtocol => &[SW, W, R],
            Op::InitValidator => &[SW, S, R, R, W, R],
            Op::CloseValidator => &[S, S, R, W, W],
            Op::ValidatorClaim => &[SW, W, W],
            Op::ProtocolClaim => &[SW, W, R],
            Op::Whitelist => &[SW, R, R, R, R, W, R],
            Op::TopUp => &[SW, R, W, R],
            Op::CloseEscrow => &[SW, W, R],
            Op::DelegateEscrow => &[SW, S, W, W, W, W, R, R],
        }
    }
    pub fn roles(self) -> &'static [&'static str] {
        match self {
            Op::Delegate => &["payer", "account", "owner", "buffer", "record", "meta", "system"],
            Op::Commit => &["validator", "account", "cstate", "crecord", "record", "meta", "vault", "config", "system"],
            Op::CommitBuffer => {
                &["validator", "account", "cstate", "crecord", "record", "meta", "statebuf", "vault", "config", "system"]
            }
            Op::Finalize => &["validator", "account", "cstate", "crecord", "record", "meta", "vault", "system"],
            Op::Undelegate => &[
                "validator", "account", "owner", "ubuf", "cstate", "crecord", "record", "meta", "rentpayer", "pvault", "vault",
                "system",
            ],
            Op::InitProtocol => &["payer", "pvault", "system"],
            Op::InitValidator => &["payer", "admin", "dlpdata", "identity", "vault", "system"],
            Op::CloseValidator => &["payer", "admin", "dlpdata", "identity", "vault"],
            Op::ValidatorClaim => &["validator", "pvault", "vault"],
            Op::ProtocolClaim => &["admin", "pvault", "dlpdata"],
            Op::Whitelist => &["authority", "identity", "program", "progdata", "dlpdata", "config", "system"],
            Op::TopUp => &["payer", "user", "escrow", "system"],
            Op::CloseEscrow => &["user", "escrow", "system"],
            Op::DelegateEscrow => &["payer", "user", "escrow", "buffer", "record", "meta", "system", "dlp"],
        }
    }
}

// ---------------------------------------------------------------- addresses

thread_local! {
    static PDAS: RefCell<HashMap<(Vec<Vec<u8>>, Pubkey), Option<Pubkey>>> = RefCell::new(HashMap::new());
    static CURVE: RefCell<HashMap<Pubkey, bool>> = RefCell::new(HashMap::new());
}

/// The derived address of `seeds` under `program`, or None when none exists (too many or too long seeds).
pub fn derive(seeds: &[&[u8]], program: &Pubkey) -> Option<Pubkey> {
    let key = (seeds.iter().map(|s| s.to_vec()).collect::<Vec<_>>(), *program);
    PDAS.with(|c| {
        if let Some(r) = c.borrow().get(&key) {
            return *r;
        }
        let r = Pubkey::try_find_program_address(seeds, program).map(|x| x.0);
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        c.insert(key, r);
        r
    })
}
pub fn on_curve(k: &Pubkey) -> bool {
    CURVE.with(|c| *c.borrow_mut().entry(*k).or_insert_with(|| k.is_on_curve()))
}
fn d1(seed: &[u8], k: &Pubkey, program: &Pubkey) -> Pubkey {
    derive(&[seed, k.as_ref()], program).unwrap()
}
pub fn record(d: &Pubkey) -> Pubkey {
    d1(b"delegation", d, &DLP)
}
pub fn metadata(d: &Pubkey) -> Pubkey {
    d1(b"delegation-metadata", d, &DLP)
}
pub fn cstate(d: &Pubkey) -> Pubkey {
    d1(b"state-diff", d, &DLP)
}
pub fn crecord(d: &Pubkey) -> Pubkey {
    d1(b"commit-state-record", d, &DLP)
}
pub fn buffer(d: &Pubkey, owner: &Pubkey) -> Pubkey {
    d1(b"buffer", d, owner)
}
pub fn ubuf(d: &Pubkey) -> Pubkey {
    d1(b"undelegate-buffer", d, &DLP)
}
pub fn pvault() -> Pubkey {
    derive(&[b"fees-vault"], &DLP).unwrap()
}
pub fn vvault(v: &Pubkey) -> Pubkey {
    d1(b"v-fees-vault", v, &DLP)
}
pub fn config(p: &Pubkey) -> Pubkey {
    d1(b"p-conf", p, &DLP)
}
pub fn escrow(u: &Pubkey, ix: u8) -> Pubkey {
    derive(&[b"balance", u.as_ref(), &[ix]], &DLP).unwrap()
}
pub fn progdata(p: &Pubkey) -> Pubkey {
    derive(&[p.as_ref()], &LOADER).unwrap()
}

// ---------------------------------------------------------------- layouts

pub fn disc(n: u64) -> Vec<u8> {
    n.to_le_bytes().to_vec()
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }
    fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|b| u32::from_le_bytes(b.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        self.take(8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
    }
    fn boolean(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    fn key(&mut self) -> Option<Pubkey> {
        self.take(32).map(|b| Pubkey::try_from(b).unwrap())
    }
    fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.u32()? as usize;
        self.take(n).map(|b| b.to_vec())
    }
    fn seeds(&mut self) -> Option<Vec<Vec<u8>>> {
        let n = self.u32()? as usize;
        if n > self.0.len() {
            return None;
        }
        (0..n).map(|_| self.bytes()).collect()
    }
    fn done<T>(self, t: T) -> Option<T> {
        self.0.is_empty().then_some(t)
    }
}
fn put_bytes(o: &mut Vec<u8>, b: &[u8]) {
    o.extend((b.len() as u32).to_le_bytes());
    o.extend(b);
}
pub fn enc_seeds(s: &[Vec<u8>]) -> Vec<u8> {
    let mut o = (s.len() as u32).to_le_bytes().to_vec();
    for x in s {
        put_bytes(&mut o, x);
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Record {
    pub authority: Pubkey,
    pub owner: Pubkey,
    pub slot: u64,
    pub lamports: u64,
    pub freq: u64,
}
pub const RECORD_LEN: usize = 96;
impl Record {
    pub fn enc(&self) -> Vec<u8> {
        let mut o = disc(100);
        o.extend(self.authority.as_ref());
        o.extend(self.owner.as_ref());
        o.extend(self.slot.to_le_bytes());
        o.extend(self.lamports.to_le_bytes());
        o.extend(self.freq.to_le_bytes());
        o
    }
    pub fn dec(b: &[u8]) -> Option<Record> {
        let mut r = Rd(b);
        if r.u64()? != 100 {
            return None;
        }
        let x = Record { authority: r.key()?, owner: r.key()?, slot: r.u64()?, lamports: r.u64()?, freq: r.u64()? };
        r.done(x)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct CommitRec {
    pub identity: Pubkey,
    pub account: Pubkey,
    pub slot: u64,
    pub lamports: u64,
}
pub const COMMIT_LEN: usize = 88;
impl CommitRec {
    pub fn enc(&self) -> Vec<u8> {
        let mut o = disc(101);
        o.extend(self.identity.as_ref());
        o.extend(self.account.as_ref());
        o.extend(self.slot.to_le_bytes());
        o.extend(self.lamports.to_le_bytes());
        o
    }
    pub fn dec(b: &[u8]) -> Option<CommitRec> {
        let mut r = Rd(b);
        if r.u64()? != 101 {
            return None;
        }
        let x = CommitRec { identity: r.key()?, account: r.key()?, slot: r.u64()?, lamports: r.u64()? };
        r.done(x)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Metadata {
    pub last: u64,
    pub allow: bool,
    pub seeds: Vec<Vec<u8>>,
    pub rent_payer: Pubkey,
}
impl Metadata {
    pub fn enc(&self) -> Vec<u8> {
        let mut o = disc(102);
        o.extend(self.last.to_le_bytes());
        o.push(self.allow as u8);
        o.extend(enc_seeds(&self.seeds));
        o.extend(self.rent_payer.as_ref());
        o
    }
    pub fn dec(b: &[u8]) -> Option<Metadata> {
        let mut r = Rd(b);
        if r.u64()? != 102 {
            return None;
        }
        let x = Metadata { last: r.u64()?, allow: r.boolean()?, seeds: r.seeds()?, rent_payer: r.key()? };
        r.done(x)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Config(pub BTreeSet<Pubkey>);
impl Config {
    pub fn enc(&self) -> Vec<u8> {
        let mut o = disc(103);
        o.extend((self.0.len() as u32).to_le_bytes());
        for k in &self.0 {
            o.extend(k.as_ref());
        }
        o
    }
    pub fn dec(b: &[u8]) -> Option<Config> {
        let mut r = Rd(b);
        if r.u64()? != 103 {
            return None;
        }
        let n = r.u32()? as usize;
        let mut s = BTreeSet::new();
        for _ in 0..n {
            s.insert(r.key()?);
        }
        r.done(Config(s))
    }
}
pub fn progdata_bytes(slot: u64, authority: Option<Pubkey>) -> Vec<u8> {
    let mut o = 3u32.to_le_bytes().to_vec();
    o.extend(slot.to_le_bytes());
    match authority {
        Some(a) => {
            o.push(1);
            o.extend(a.as_ref());
        }
        None => {
            o.push(0);
            o.extend([0u8; 32]);
        }
    }
    o
}
/// The data account of a program that was made immutable: the loader clears the tag and leaves the former authority's key behind.
pub fn progdata_former(slot: u64, former: Pubkey) -> Vec<u8> {
    let mut d = progdata_bytes(slot, Some(former));
    d[12] = 0;
    d
}
/// None: not program data. Some(x): the upgrade authority it names, if any.
pub fn progdata_authority(b: &[u8]) -> Option<Option<Pubkey>> {
    let mut r = Rd(b);
    if r.u32()? != 3 {
        return None;
    }
    r.u64()?;
    match r.u8()? {
        0 => Some(None),
        1 => Some(Some(r.key()?)),
        _ => None,
    }
}

// ---------------------------------------------------------------- instruction data

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DelegateArgs {
    pub freq: u32,
    pub seeds: Vec<Vec<u8>>,
    pub validator: Option<Pubkey>,
}
impl DelegateArgs {
    pub fn enc(&self) -> Vec<u8> {
        let mut o = self.freq.to_le_bytes().to_vec();
        o.extend(enc_seeds(&self.seeds));
        match self.validator {
            None => o.push(0),
            Some(v) => {
                o.push(1);
                o.extend(v.as_ref());
            }
        }
        o
    }
    fn rd(r: &mut Rd) -> Option<DelegateArgs> {
        Some(DelegateArgs {
            freq: r.u32()?,
            seeds: r.seeds()?,
            validator: if r.boolean()? { Some(r.key()?) } else { None },
        })
    }
}

/// Arguments of every operation, as decoded from instruction data.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Args {
    Delegate(DelegateArgs),
    Commit { slot: u64, lamports: u64, allow: bool, data: Vec<u8> },
    CommitBuffer { slot: u64, lamports: u64, allow: bool },
    DelegateEscrow(DelegateArgs, u8),
    TopUp { amount: u64, index: u8 },
    CloseEscrow { index: u8 },
    Claim(Option<u64>),
    Whitelist(bool),
    None,
}

pub fn data(op: Op, a: &Args) -> Vec<u8> {
    let mut o = disc(op as u64);
    match a {
        Args::Delegate(d) => o.extend(d.enc()),
        Args::Commit { slot, lamports, allow, data } => {
            o.extend(slot.to_le_bytes());
            o.extend(lamports.to_le_bytes());
            o.push(*allow as u8);
            put_bytes(&mut o, data);
        }
        Args::CommitBuffer { slot, lamports, allow } => {
            o.extend(slot.to_le_bytes());
            o.extend(lamports.to_le_bytes());
            o.push(*allow as u8);
        }
        Args::DelegateEscrow(d, i) => {
            o.extend(d.enc());
            o.push(*i);
        }
        Args::TopUp { amount, index } => {
            o.extend(amount.to_le_bytes());
            o.push(*index);
        }
        Args::CloseEscrow { index } => o.push(*index),
        Args::Claim(x) => match x {
            None => o.push(0),
            Some(v) => {
                o.push(1);
                o.extend(v.to_le_bytes());
            }
        },
        Args::Whitelist(b) => o.push(*b as u8),
        Args::None => {}
    }
    o
}

pub fn parse(d: &[u8]) -> Option<(Op, Args)> {
    if d.len() < 8 {
        return None;
    }
    let op = Op::from_tag(d[0])?;
    let mut r = Rd(&d[8..]);
    let a = match op {
        Op::Delegate => Args::Delegate(DelegateArgs::rd(&mut r)?),
        Op::Commit => Args::Commit { slot: r.u64()?, lamports: r.u64()?, allow: r.boolean()?, data: r.bytes()? },
        Op::CommitBuffer => Args::CommitBuffer { slot: r.u64()?, lamports: r.u64()?, allow: r.boolean()? },
        Op::DelegateEscrow => Args::DelegateEscrow(DelegateArgs::rd(&mut r)?, r.u8()?),
        Op::TopUp => Args::TopUp { amount: r.u64()?, index: r.u8()? },
        Op::CloseEscrow => {
            let index = r.u8()?;
            r.0 = &[]; // surplus bytes are not the operation's concern
            Args::CloseEscrow { index }
        }
        Op::ValidatorClaim => Args::Claim(if r.boolean()? { Some(r.u64()?) } else { None }),
        Op::Whitelist => Args::Whitelist(r.boolean()?),
        _ => {
            r.0 = &[];
            Args::None
        }
    };
    r.done((op, a))
}

pub fn mk(op: Op, args: &Args, keys: &[Pubkey]) -> Ix {
    let f = op.flags();
    assert_eq!(f.len(), keys.len());
    Ix {
        program: DLP,
        metas: keys.iter().zip(f).map(|(k, (s, w))| Meta { key: *k, signer: *s, writable: *w }).collect(),
        data: data(op, args),
    }
}

// ---------------------------------------------------------------- canonical instructions

pub fn delegate(payer: Pubkey, d: Pubkey, owner: Pubkey, a: &DelegateArgs) -> Ix {
    mk(Op::Delegate, &Args::Delegate(a.clone()), &[payer, d, owner, buffer(&d, &owner), record(&d), metadata(&d), SYSTEM])
}
pub fn commit(v: Pubkey, d: Pubkey, owner: Pubkey, slot: u64, lamports: u64, allow: bool, bytes: &[u8]) -> Ix {
    mk(
        Op::Commit,
        &Args::Commit { slot, lamports, allow, data: bytes.to_vec() },
        &[v, d, cstate(&d), crecord(&d), record(&d), metadata(&d), vvault(&v), config(&owner), SYSTEM],
    )
}
pub fn commit_buffer(v: Pubkey, d: Pubkey, owner: Pubkey, buf: Pubkey, slot: u64, lamports: u64, allow: bool) -> Ix {
    mk(
        Op::CommitBuffer,
        &Args::CommitBuffer { slot, lamports, allow },
        &[v, d, cstate(&d), crecord(&d), record(&d), metadata(&d), buf, vvault(&v), config(&owner), SYSTEM],
    )
}
pub fn finalize(v: Pubkey, d: Pubkey) -> Ix {
    mk(Op::Finalize, &Args::None, &[v, d, cstate(&d), crecord(&d), record(&d), metadata(&d), vvault(&v), SYSTEM])
}
pub fn undelegate(v: Pubkey, d: Pubkey, owner: Pubkey, rent_payer: Pubkey) -> Ix {
    mk(
        Op::Undelegate,
        &Args::None,
        &[
            v, d, owner, ubuf(&d), cstate(&d), crecord(&d), record(&d), metadata(&d), rent_payer, pvault(), vvault(&v), SYSTEM,
        ],
    )
}
pub fn init_protocol(payer: Pubkey) -> Ix {
    mk(Op::InitProtocol, &Args::None, &[payer, pvault(), SYSTEM])
}
pub fn init_validator(payer: Pubkey, admin: Pubkey, v: Pubkey) -> Ix {
    mk(Op::InitValidator, &Args::None, &[payer, admin, progdata(&DLP), v, vvault(&v), SYSTEM])
}
pub fn close_validator(payer: Pubkey, admin: Pubkey, v: Pubkey) -> Ix {
    mk(Op::CloseValidator, &Args::None, &[payer, admin, progdata(&DLP), v, vvault(&v)])
}
pub fn validator_claim(v: Pubkey, amount: Option<u64>) -> Ix {
    mk(Op::ValidatorClaim, &Args::Claim(amount), &[v, pvault(), vvault(&v)])
}
pub fn protocol_claim(admin: Pubkey) -> Ix {
    mk(Op::ProtocolClaim, &Args::None, &[admin, pvault(), progdata(&DLP)])
}
pub fn whitelist(auth: Pubkey, v: Pubkey, p: Pubkey, insert: bool) -> Ix {
    mk(Op::Whitelist, &Args::Whitelist(insert), &[auth, v, p, progdata(&p), progdata(&DLP), config(&p), SYSTEM])
}
pub fn top_up(payer: Pubkey, user: Pubkey, amount: u64, index: u8) -> Ix {
    mk(Op::TopUp, &Args::TopUp { amount, index }, &[payer, user, escrow(&user, index), SYSTEM])
}
pub fn close_escrow(user: Pubkey, index: u8) -> Ix {
    mk(Op::CloseEscrow, &Args::CloseEscrow { index }, &[user, escrow(&user, index), SYSTEM])
}
pub fn delegate_escrow(payer: Pubkey, user: Pubkey, index: u8, a: &DelegateArgs) -> Ix {
    let e = escrow(&user, index);
    mk(
        Op::DelegateEscrow,
        &Args::DelegateEscrow(a.clone(), index),
        &[payer, user, e, buffer(&e, &SYSTEM), record(&e), metadata(&e), SYSTEM, DLP],
    )
}
/// System transfer.
pub fn transfer(from: Pubkey, to: Pubkey, n: u64) -> Ix {
    let mut data = 2u32.to_le_bytes().to_vec();
    data.extend(n.to_le_bytes());
    Ix { program: SYSTEM, metas: vec![ws(from), w(to)], data }
}
