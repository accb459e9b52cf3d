//! The actors, programs and accounts of the explored worlds, and ledger construction by layout.

use crate::svm::*;
use crate::wire::{self, *};
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::{keypair_from_seed, Keypair};
use solana_sdk::signer::Signer;
use std::collections::{BTreeSet, HashMap};
use std::sync::{OnceLock, RwLock};

pub const SOL: u64 = 1_000_000_000;
pub const WALLET: u64 = 1000 * SOL;

static NAMES: OnceLock<RwLock<HashMap<Pubkey, String>>> = OnceLock::new();
fn names() -> &'static RwLock<HashMap<Pubkey, String>> {
    NAMES.get_or_init(Default::default)
}
pub fn name(k: &Pubkey, n: impl Into<String>) {
    names().write().unwrap().insert(*k, n.into());
}
pub fn name_of(k: &Pubkey) -> Option<String> {
    names().read().unwrap().get(k).cloned()
}
/// Name a delegated account and everything derived from it.
pub fn name_family(d: &Pubkey, owner: &Pubkey, n: &str) {
    name(d, n);
    name(&record(d), format!("record({n})"));
    name(&metadata(d), format!("metadata({n})"));
    name(&cstate(d), format!("staged({n})"));
    name(&crecord(d), format!("commit-record({n})"));
    name(&ubuf(d), format!("undelegate-buffer({n})"));
    name(&buffer(d, owner), format!("buffer({n})"));
}

pub fn keypair(i: u8) -> Keypair {
    keypair_from_seed(&[i; 32]).unwrap()
}
fn pk(i: u8, n: &str) -> Pubkey {
    let k = keypair(i).pubkey();
    name(&k, n);
    k
}

/// An account that can be delegated, with its owner program and seeds.
#[derive(Clone, Debug)]
pub struct Sub {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub seeds: Vec<Vec<u8>>,
}
impl Sub {
    pub fn pda(owner: Pubkey, seeds: Vec<Vec<u8>>, n: &str) -> Sub {
        let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
        let key = derive(&refs, &owner).expect("derivable");
        name_family(&key, &owner, n);
        Sub { key, owner, seeds }
    }
    pub fn escrow(user: Pubkey, ix: u8) -> Sub {
        let key = escrow(&user, ix);
        let n = format!("escrow({},{ix})", crate::spec::short(&user));
        name_family(&key, &SYSTEM, &n);
        Sub { key, owner: SYSTEM, seeds: vec![b"balance".to_vec(), user.to_bytes().to_vec(), vec![ix]] }
    }
}

#[derive(Clone)]
pub struct World {
    pub admin: Pubkey,
    pub v1: Pubkey,
    pub v2: Pubkey,
    pub v3: Pubkey,
    pub u1: Pubkey,
    pub u2: Pubkey,
    pub x: Pubkey,
    pub auth_p: Pubkey,
    pub auth_q: Pubkey,
    pub payer: Pubkey,
    /// on-curve account that is delegated itself
    pub c: Sub,
    pub p: Pubkey,
    pub q: Pubkey,
    pub h: Pubkey,
    /// an on-chain program without upgrade authority
    pub immut: Pubkey,
    pub a: Sub,
    pub a2: Sub,
    pub b: Sub,
}

pub fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        name(&SYSTEM, "system");
        name(&DLP, "dlp");
        name(&LOADER, "loader");
        let p = pk(40, "P");
        let q = pk(41, "Q");
        let h = pk(42, "H");
        let immut = pk(43, "Immutable");
        for (k, n) in [(p, "P"), (q, "Q"), (h, "H"), (immut, "Immutable"), (DLP, "dlp")] {
            name(&progdata(&k), format!("programdata({n})"));
            name(&wire::config(&k), format!("whitelist({n})"));
        }
        name(&wire::config(&SYSTEM), "whitelist(system)");
        name(&pvault(), "protocol-vault");
        let cpub = pk(20, "C");
        name_family(&cpub, &p, "C");
        let w = World {
            admin: pk(1, "ADMIN"),
            v1: pk(2, "V1"),
            v2: pk(3, "V2"),
            v3: pk(4, "V3"),
            u1: pk(5, "U1"),
            u2: pk(6, "U2"),
            x: pk(7, "X"),
            auth_p: pk(8, "AUTH_P"),
            auth_q: pk(9, "AUTH_Q"),
            payer: pk(10, "PAYER"),
            c: Sub { key: cpub, owner: SYSTEM, seeds: vec![] },
            p,
            q,
            h,
            immut,
            a: Sub::pda(p, vec![b"acct".to_vec(), b"a".to_vec()], "A"),
            a2: Sub::pda(p, vec![b"acct".to_vec(), vec![], vec![7; 32], vec![2]], "A2"),
            b: Sub::pda(q, vec![b"b".to_vec()], "B"),
        };
        for v in [w.v1, w.v2, w.v3, w.x, w.admin] {
            name(&vvault(&v), format!("vault({})", crate::spec::short(&v)));
        }
        w
    })
}

fn prog(l: &mut Ledger, k: Pubkey, auth: Option<Pubkey>) {
    l.set(k, Acct { lamports: SOL, owner: LOADER, executable: true, data: vec![] });
    let mut d = progdata_bytes(7, auth);
    d.extend([0xEE; 19]);
    l.set(progdata(&k), Acct::new(SOL, LOADER, d));
}

/// Wallets, programs and their data accounts.
pub fn base() -> Ledger {
    let w = world();
    let mut l = Ledger::default();
    prog(&mut l, DLP, Some(w.admin));
    prog(&mut l, w.p, Some(w.auth_p));
    prog(&mut l, w.q, Some(w.auth_q));
    prog(&mut l, w.h, None);
    prog(&mut l, w.immut, None);
    // its former authority's key is still there
    l.edit(&progdata(&w.immut), |a| a.data[..45].copy_from_slice(&progdata_former(7, w.x)));
    l.set(SYSTEM, Acct { lamports: 1, owner: solana_program::pubkey!("NativeLoader1111111111111111111111111111111"), executable: true, data: b"system_program".to_vec() });
    for k in [w.admin, w.v1, w.v2, w.v3, w.u1, w.u2, w.x, w.auth_p, w.auth_q, w.payer] {
        l.set(k, Acct::wallet(WALLET));
    }
    l
}

pub fn is_wallet(k: &Pubkey) -> bool {
    static S: OnceLock<BTreeSet<Pubkey>> = OnceLock::new();
    S.get_or_init(|| {
        let w = world();
        [w.admin, w.v1, w.v2, w.v3, w.u1, w.u2, w.x, w.auth_p, w.auth_q, w.payer].into_iter().collect()
    })
    .contains(k)
}

pub fn with_pvault(mut l: Ledger) -> Ledger {
    l.set(pvault(), Acct::new(rent(8), DLP, vec![0; 8]));
    l
}
pub fn with_vault(mut l: Ledger, v: &Pubkey) -> Ledger {
    l.set(vvault(v), Acct::new(rent(8), DLP, vec![0; 8]));
    l
}
pub fn with_config(mut l: Ledger, p: &Pubkey, set: &[Pubkey]) -> Ledger {
    let d = Config(set.iter().copied().collect()).enc();
    l.set(wire::config(p), Acct::new(rent(d.len()), DLP, d));
    l
}
/// Protocol vault, V1's and V2's vaults (not V3's).
pub fn ready() -> Ledger {
    let w = world();
    with_vault(with_vault(with_pvault(base()), &w.v1), &w.v2)
}
/// The account in its owner program's hands.
pub fn with_owned(mut l: Ledger, s: &Sub, lamports: u64, data: &[u8]) -> Ledger {
    l.set(s.key, Acct::new(lamports, s.owner, data.to_vec()));
    l
}

#[derive(Clone, Debug)]
pub struct Del {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub rec_lamports: u64,
    pub slot: u64,
    pub freq: u64,
    pub authority: Pubkey,
    pub last: u64,
    pub allow: bool,
    pub rent_payer: Pubkey,
    pub owner: Pubkey,
    pub seeds: Vec<Vec<u8>>,
}
impl Del {
    pub fn of(s: &Sub, data: &[u8]) -> Del {
        let lam = rent(data.len());
        Del {
            lamports: lam,
            data: data.to_vec(),
            rec_lamports: lam,
            slot: 3,
            freq: 50,
            authority: world().v1,
            last: 0,
            allow: false,
            rent_payer: world().payer,
            owner: s.owner,
            seeds: s.seeds.clone(),
        }
    }
    pub fn lam(mut self, n: u64) -> Del {
        self.lamports = n;
        self.rec_lamports = n;
        self
    }
    pub fn allow(mut self) -> Del {
        self.allow = true;
        self
    }
    pub fn last(mut self, s: u64) -> Del {
        self.last = s;
        self
    }
    pub fn rent_payer(mut self, k: Pubkey) -> Del {
        self.rent_payer = k;
        self
    }
}
pub fn with_delegated(mut l: Ledger, d: &Pubkey, x: &Del) -> Ledger {
    l.set(*d, Acct::new(x.lamports, DLP, x.data.clone()));
    let rec = Record { authority: x.authority, owner: x.owner, slot: x.slot, lamports: x.rec_lamports, freq: x.freq }.enc();
    l.set(record(d), Acct::new(rent(rec.len()), DLP, rec));
    let m = Metadata { last: x.last, allow: x.allow, seeds: x.seeds.clone(), rent_payer: x.rent_payer }.enc();
    l.set(metadata(d), Acct::new(rent(m.len()), DLP, m));
    l
}
/// A pending commit as a commit instruction would have left it.
pub fn with_pending(mut l: Ledger, d: &Pubkey, v: &Pubkey, slot: u64, lamports: u64, data: &[u8]) -> Ledger {
    let rec = Record::dec(&l.get(&record(d)).data).unwrap();
    let extra = lamports.saturating_sub(rec.lamports);
    l.set(cstate(d), Acct::new(extra.max(rent(data.len())), DLP, data.to_vec()));
    let c = CommitRec { identity: *v, account: *d, slot, lamports }.enc();
    l.set(crecord(d), Acct::new(rent(c.len()), DLP, c));
    l
}
pub fn donate(l: &Ledger, k: &Pubkey, n: u64) -> Ledger {
    let mut l = l.clone();
    l.edit(k, |a| a.lamports += n);
    l
}

pub fn args(s: &Sub, v: Option<Pubkey>) -> DelegateArgs {
    DelegateArgs { freq: 50, seeds: s.seeds.clone(), validator: v }
}
