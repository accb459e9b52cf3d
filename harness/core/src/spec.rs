//! The one-step specification: given the ledger before an invocation of the delegation program and
//! the invocation itself, what must, may and must not happen.  Every clause carries the ids of the
//! properties it decides.

use crate::svm::*;
use crate::wire::{self, *};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{OnceLock, RwLock};

pub type Tags = Vec<&'static str>;

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: Tags,
    pub msg: String,
}
impl Viol {
    pub fn new(tags: &[&'static str], msg: impl Into<String>) -> Viol {
        Viol { tags: tags.to_vec(), msg: msg.into() }
    }
}

/// How often each clause family was evaluated, per property (for the vacuity guard and evidence).
#[derive(Clone, Debug, Default)]
pub struct Evals(pub BTreeMap<(&'static str, &'static str), u64>);
impl Evals {
    pub fn hit(&mut self, tags: &[&'static str], kind: &'static str) {
        for t in tags {
            *self.0.entry((t, kind)).or_default() += 1;
        }
    }
    pub fn merge(&mut self, o: &Evals) {
        for (k, v) in &o.0 {
            *self.0.entry(*k).or_default() += v;
        }
    }
    pub fn of(&self, tag: &str) -> u64 {
        self.0.iter().filter(|(k, _)| k.0 == tag).map(|(_, v)| *v).sum()
    }
}

/// Owner programs known to follow the undelegation callback contract.
static HONEST: OnceLock<RwLock<BTreeSet<Pubkey>>> = OnceLock::new();
pub fn honest(p: Pubkey) {
    HONEST.get_or_init(Default::default).write().unwrap().insert(p);
}
pub fn is_honest(p: &Pubkey) -> bool {
    HONEST.get_or_init(Default::default).read().unwrap().contains(p)
}

/// Expected ledger, built by exact integer accounting (balances may be momentarily negative).
struct Sc<'a> {
    base: &'a Ledger,
    m: HashMap<Pubkey, (i128, Pubkey, Vec<u8>)>,
}
impl<'a> Sc<'a> {
    fn new(base: &'a Ledger) -> Self {
        Sc { base, m: HashMap::new() }
    }
    fn a(&mut self, k: &Pubkey) -> &mut (i128, Pubkey, Vec<u8>) {
        let b = self.base;
        self.m.entry(*k).or_insert_with(|| {
            let x = b.get(k);
            (x.lamports as i128, x.owner, x.data.clone())
        })
    }
    fn lam(&mut self, k: &Pubkey) -> i128 {
        self.a(k).0
    }
    fn mv(&mut self, from: &Pubkey, to: &Pubkey, n: i128) {
        self.a(from).0 -= n;
        self.a(to).0 += n;
    }
    /// Make `k` a rent-exempt program account with this content, `payer` paying what is missing.
    fn create(&mut self, k: &Pubkey, payer: &Pubkey, owner: &Pubkey, data: Vec<u8>) {
        let need = rent(data.len()) as i128 - self.lam(k);
        if need > 0 {
            self.mv(payer, k, need);
        }
        let a = self.a(k);
        a.1 = *owner;
        a.2 = data;
    }
    fn close(&mut self, k: &Pubkey, to: &Pubkey) {
        let l = self.lam(k);
        self.mv(k, to, l);
        let a = self.a(k);
        a.1 = SYSTEM;
        a.2.clear();
    }
    fn close_with_fees(&mut self, k: &Pubkey, payer: &Pubkey, vault: &Pubkey, pv: &Pubkey) {
        let l = self.lam(k);
        let fee = l * 10 / 100;
        let prot = fee * 10 / 100;
        self.mv(k, vault, fee - prot);
        self.mv(k, pv, prot);
        self.close(k, payer);
    }
}

pub enum Want<'a> {
    /// Must not succeed; each reason alone suffices.
    Reject(Vec<(Tags, String)>),
    /// If it succeeds, exactly this ledger; `must`: it has to succeed.
    Effect(Effect<'a>),
}
pub struct Effect<'a> {
    sc: Sc<'a>,
    must: Option<Tags>,
    primary: Tags,
    /// accounts whose result is not fixed (hostile callbacks); judged by the caller
    free: Vec<Pubkey>,
    noop: bool,
}

struct V<'a> {
    led: &'a Ledger,
    m: &'a [Meta],
    why: Vec<(Tags, String)>,
}
impl<'a> V<'a> {
    fn bad(&mut self, tags: &[&'static str], s: impl Into<String>) {
        self.why.push((tags.to_vec(), s.into()));
    }
    fn k(&self, i: usize) -> Pubkey {
        self.m[i].key
    }
    fn acct(&self, i: usize) -> &'a Acct {
        self.led.get(&self.m[i].key)
    }
    fn signed(&self, i: usize) -> bool {
        self.m.iter().any(|x| x.key == self.m[i].key && x.signer)
    }
    fn writable(&self, i: usize) -> bool {
        self.m.iter().any(|x| x.key == self.m[i].key && x.writable)
    }
    fn sig(&mut self, i: usize, tags: &[&'static str], who: &str) {
        if !self.signed(i) {
            self.bad(tags, format!("{who} did not sign"));
        }
    }
    fn addr(&mut self, i: usize, want: Pubkey, tags: &[&'static str], what: &str) -> bool {
        if self.k(i) != want {
            let mut t = tags.to_vec();
            t.push("C23");
            self.bad(&t, format!("{what} is not the account the operation calls for"));
            return false;
        }
        true
    }
    fn owned(&mut self, i: usize, tags: &[&'static str], what: &str) -> bool {
        if self.acct(i).owner != DLP {
            self.bad(tags, format!("{what} is not owned by the delegation program"));
            return false;
        }
        true
    }
    fn open(&mut self, val: &Pubkey, tags: &[&'static str]) {
        if self.led.get(&vvault(val)).owner != DLP {
            self.bad(tags, "the validator's own vault is not open");
        }
    }
    fn uninit(&mut self, i: usize, tags: &[&'static str], what: &str) {
        if !self.acct(i).is_uninit() {
            self.bad(tags, format!("{what} already exists"));
        }
    }
    fn system(&mut self, i: usize) {
        self.addr(i, SYSTEM, &[], "system program");
    }
    fn admin(&mut self, pd: usize, who: usize, tags: &[&'static str]) {
        if !self.addr(pd, progdata(&DLP), tags, "program data account") {
            return;
        }
        match progdata_authority(&self.acct(pd).data) {
            Some(Some(a)) if a == self.k(who) => {}
            _ => self.bad(tags, "signer is not the delegation program's upgrade authority"),
        }
    }
    fn rich(&self, i: usize, needed: i128) -> bool {
        let a = self.acct(i);
        a.owner == SYSTEM && a.data.is_empty() && !a.executable && a.lamports as i128 >= needed + rent(0) as i128
    }
    /// The payer is a wallet that ends the operation with nothing or with an empty account's rent minimum.
    fn pays(&self, i: usize, sc: &mut Sc) -> bool {
        let a = self.acct(i);
        let left = sc.a(&self.k(i)).0;
        a.owner == SYSTEM && a.data.is_empty() && !a.executable && (left == 0 || left >= rent(0) as i128)
    }
}

fn distinct(m: &[Meta], allowed: &[(usize, usize)]) -> bool {
    for i in 0..m.len() {
        for j in 0..i {
            if m[i].key == m[j].key && !allowed.contains(&(j, i)) {
                return false;
            }
        }
    }
    true
}

/// Is the delegated account an escrow / system-owned account of the protocol?
fn esc(owner: &Pubkey, d: &Pubkey) -> bool {
    *owner == SYSTEM && !on_curve(d)
}

pub fn want<'a>(call: &'a Call, slot: u64) -> Want<'a> {
    let led = &call.pre;
    let Some((op, args)) = parse(&call.data) else {
        // a close that names no index is not the user's word for any escrow
        let t = if call.data.len() == 8 && Op::from_tag(call.data[0]) == Some(Op::CloseEscrow) { vec!["C25", "C19"] } else { vec!["C25"] };
        return Want::Reject(vec![(t, "malformed instruction data".into())]);
    };
    let n = op.n_accounts();
    if call.metas.len() < n {
        return Want::Reject(vec![(vec!["C25"], "too few accounts".into())]);
    }
    let mut v = V { led, m: &call.metas[..n], why: vec![] };
    let exact_count = call.metas.len() == n;
    let flags_ok = op.flags().iter().enumerate().all(|(i, (s, w))| (!s || v.signed(i)) && (!w || v.writable(i)));
    let ok0 = exact_count && flags_ok;
    let mut sc = Sc::new(led);
    macro_rules! fin {
        ($primary:expr, $must:expr, $mt:expr, $noop:expr) => {{
            if !v.why.is_empty() {
                return Want::Reject(v.why);
            }
            if let Some((k, _)) = sc.m.iter().find(|(_, a)| a.0 < 0) {
                let mut t: Tags = $primary;
                t.dedup();
                return Want::Reject(vec![(t, format!("{k} cannot pay"))]);
            }
            let must: bool = $must;
            return Want::Effect(Effect {
                sc,
                must: if must && ok0 { Some($mt) } else { None },
                primary: $primary,
                free: vec![],
                noop: $noop,
            });
        }};
    }
    match (op, args) {
        (Op::Delegate, Args::Delegate(a)) => {
            let t: &[&'static str] = &["C01"];
            let d = v.k(1);
            let owner = v.k(2);
            v.sig(0, t, "payer");
            v.sig(1, t, "the account being delegated");
            v.owned(1, t, "the account being delegated");
            if !on_curve(&d) {
                let prog = if owner == SYSTEM { DLP } else { owner };
                let s: Vec<&[u8]> = a.seeds.iter().map(|x| &x[..]).collect();
                if derive(&s, &prog) != Some(d) {
                    v.bad(t, "the account is not derived from the seeds under the owner program");
                }
            }
            v.addr(3, buffer(&d, &owner), t, "delegate buffer");
            if v.addr(4, record(&d), t, "delegation record") {
                v.uninit(4, t, "delegation record");
            }
            if v.addr(5, metadata(&d), t, "delegation metadata") {
                v.uninit(5, t, "delegation metadata");
            }
            v.system(6);
            let payer = v.k(0);
            let rec = Record {
                authority: a.validator.unwrap_or_default(),
                owner,
                slot,
                lamports: led.get(&d).lamports,
                freq: a.freq as u64,
            };
            let meta = Metadata { last: 0, allow: false, seeds: a.seeds.clone(), rent_payer: payer };
            let menc = meta.enc();
            let big = menc.len() > MAX_INCREASE;
            let cost = rent(RECORD_LEN + 8) as i128 + rent(menc.len()) as i128;
            sc.create(&record(&d), &payer, &DLP, rec.enc());
            sc.create(&metadata(&d), &payer, &DLP, menc);
            let buf = led.get(&v.k(3));
            let fits = buf.data.is_empty() || buf.data.len() == led.get(&d).data.len();
            if !buf.data.is_empty() {
                sc.a(&d).2 = buf.data.clone();
            }
            let must = fits && !big && v.pays(0, &mut sc) && distinct(v.m, &[(2, 6)]) && led.get(&d).lamports > 0;
            let e = esc(&owner, &d);
            fin!(
                if e { vec!["C02", "C20"] } else { vec!["C02"] },
                must,
                if e { vec!["C02", "C20"] } else { vec!["C02"] },
                false
            )
        }
        (Op::Commit | Op::CommitBuffer, args) => {
            let (cslot, lam, allow, bytes, o) = match &args {
                Args::Commit { slot, lamports, allow, data } => (*slot, *lamports, *allow, data.clone(), 0),
                Args::CommitBuffer { slot, lamports, allow } => (*slot, *lamports, *allow, v.acct(6).data.clone(), 1),
                _ => unreachable!(),
            };
            let t: &[&'static str] = &["C03"];
            let (val, d) = (v.k(0), v.k(1));
            v.sig(0, t, "validator");
            v.owned(1, t, "the account committed to");
            // whoever is believed about the account decides the ordering, the gate and the collateral
            let rec_ok = v.addr(4, record(&d), &["C03", "C08"], "delegation record") && v.owned(4, t, "delegation record");
            let met_ok = v.addr(5, metadata(&d), &["C03", "C05", "C06"], "delegation metadata") && v.owned(5, t, "delegation metadata");
            v.addr(6 + o, vvault(&val), t, "validator vault");
            v.open(&val, &["C03", "C15"]);
            v.system(8 + o);
            let rec = if rec_ok { Record::dec(&v.acct(4).data) } else { None };
            let meta = if met_ok { Metadata::dec(&v.acct(5).data) } else { None };
            let (Some(rec), Some(meta)) = (rec, meta) else {
                v.bad(t, "the account is not delegated");
                return Want::Reject(v.why);
            };
            let x = esc(&rec.owner, &d);
            let ext = move |b: &[&'static str]| -> Tags {
                let mut b = b.to_vec();
                if x {
                    b.push("C20");
                }
                b
            };
            let all_distinct = distinct(v.m, &[]);
            let cfg_acct = led.get(&wire::config(&rec.owner));
            let listed =
                cfg_acct.owner == SYSTEM || Config::dec(&cfg_acct.data).map(|c| c.0.contains(&val)).unwrap_or(false);
            let positions_ok = v.k(2) == cstate(&d) && v.k(3) == crecord(&d) && v.k(7 + o) == wire::config(&rec.owner);
            if cslot < meta.last {
                // outdated: success without effect
                let must = all_distinct && positions_ok && listed;
                fin!(ext(&["C05", "C04"]), must, ext(&["C05"]), true)
            }
            if meta.allow {
                v.bad(&["C06"], "undelegation has already been allowed: no further commit may be accepted");
            }
            if led.get(&d).lamports < rec.lamports {
                v.bad(&["C08"], "the account holds less than its recorded balance");
            }
            if v.addr(7 + o, wire::config(&rec.owner), t, "whitelist account") && !listed {
                v.bad(t, "validator is not on the owner program's whitelist");
            }
            if v.addr(2, cstate(&d), &["C04"], "staged state") {
                v.uninit(2, &["C04"], "a pending commit (staged state)");
            }
            if v.addr(3, crecord(&d), &["C04"], "commit record") {
                v.uninit(3, &["C04"], "a pending commit (commit record)");
            }
            let extra = (lam as i128 - rec.lamports as i128).max(0);
            if extra > 0 {
                sc.mv(&val, &cstate(&d), extra);
            }
            let small = bytes.len() <= MAX_INCREASE;
            let cost = extra + rent(bytes.len()) as i128 + rent(COMMIT_LEN + 8) as i128;
            sc.create(&cstate(&d), &val, &DLP, bytes);
            sc.create(&crecord(&d), &val, &DLP, CommitRec { identity: val, account: d, slot: cslot, lamports: lam }.enc());
            sc.a(&metadata(&d)).2 = Metadata { allow, ..meta }.enc();
            let must = small && v.pays(0, &mut sc) && all_distinct;
            fin!(ext(&["C04"]), must, ext(&["C03", "C04", "C05", "C08", "C24"]), false)
        }
        (Op::Finalize, _) => {
            let t: &[&'static str] = &["C07"];
            let (val, d, vault) = (v.k(0), v.k(1), v.k(6));
            v.sig(0, t, "validator");
            v.owned(1, t, "the account");
            let rec_ok = v.addr(4, record(&d), &["C07", "C08"], "delegation record") && v.owned(4, t, "delegation record");
            let met_ok = v.addr(5, metadata(&d), &["C07", "C05"], "delegation metadata") && v.owned(5, t, "delegation metadata");
            v.addr(6, vvault(&val), &["C07", "C08"], "validator vault");
            v.open(&val, &["C07", "C15"]);
            v.system(7);
            let a2 = v.addr(2, cstate(&d), t, "staged state");
            let a3 = v.addr(3, crecord(&d), t, "commit record");
            if !a2 || !a3 || !rec_ok || !met_ok {
                return Want::Reject(v.why);
            }
            let (cs, cr) = (v.acct(2), v.acct(3));
            if cs.is_uninit() && cr.is_uninit() {
                fin!(vec!["C07"], distinct(v.m, &[]), vec!["C07"], true)
            }
            let (rec, meta, crec) = (Record::dec(&v.acct(4).data), Metadata::dec(&v.acct(5).data), CommitRec::dec(&cr.data));
            let (Some(rec), Some(meta), Some(crec)) = (rec, meta, crec) else {
                v.bad(t, "there is no valid pending commit for the account");
                return Want::Reject(v.why);
            };
            if cs.owner != DLP || cr.owner != DLP {
                v.bad(t, "there is no valid pending commit for the account");
            }
            if crec.account != d {
                v.bad(t, "the pending commit is for another account");
            }
            if crec.identity != val {
                v.bad(t, "the pending commit was made by another validator");
            }
            let delta = crec.lamports as i128 - rec.lamports as i128;
            if delta < 0 {
                sc.mv(&d, &vault, -delta);
            } else {
                sc.mv(&cstate(&d), &d, delta);
            }
            let newlam = sc.lam(&d);
            let grow = cs.data.len().saturating_sub(led.get(&d).data.len()) <= MAX_INCREASE;
            sc.a(&d).2 = cs.data.clone();
            sc.a(&metadata(&d)).2 = Metadata { last: crec.slot, ..meta }.enc();
            sc.a(&record(&d)).2 = Record { lamports: newlam.max(0) as u64, ..rec.clone() }.enc();
            sc.close(&cstate(&d), &val);
            sc.close(&crecord(&d), &val);
            let must = grow && distinct(v.m, &[]);
            let e = esc(&rec.owner, &d);
            fin!(
                if e { vec!["C07", "C20"] } else { vec!["C07"] },
                must,
                if e { vec!["C07", "C08", "C05", "C20", "C24"] } else { vec!["C07", "C08", "C05", "C24"] },
                false
            )
        }
        (Op::Undelegate, _) => {
            let t: &[&'static str] = &["C06"];
            let (val, d, owner) = (v.k(0), v.k(1), v.k(2));
            v.sig(0, t, "validator");
            v.owned(1, t, "the account");
            let rec_ok = v.addr(6, record(&d), &["C06", "C09", "C10"], "delegation record") && v.owned(6, t, "delegation record");
            let met_ok = v.addr(7, metadata(&d), &["C06", "C09", "C10", "C12"], "delegation metadata") && v.owned(7, t, "delegation metadata");
            if v.addr(9, pvault(), &["C10"], "protocol vault") {
                v.owned(9, &["C10"], "protocol vault");
            }
            v.addr(10, vvault(&val), &["C06", "C10"], "validator vault");
            v.open(&val, &["C06", "C15"]);
            v.system(11);
            if v.addr(4, cstate(&d), t, "staged state") {
                v.uninit(4, t, "a pending commit (staged state)");
            }
            if v.addr(5, crecord(&d), t, "commit record") {
                v.uninit(5, t, "a pending commit (commit record)");
            }
            let rec = if rec_ok { Record::dec(&v.acct(6).data) } else { None };
            let meta = if met_ok { Metadata::dec(&v.acct(7).data) } else { None };
            let (Some(rec), Some(meta)) = (rec, meta) else {
                v.bad(t, "the account is not delegated");
                return Want::Reject(v.why);
            };
            if rec.owner != owner {
                v.bad(&["C09", "C12", "C23"], "the owner program is not the one recorded at delegation");
            }
            if meta.rent_payer != v.k(8) {
                v.bad(&["C10", "C23"], "the rent recipient is not the account that paid the rent");
            }
            if !meta.allow {
                v.bad(t, "undelegation was not allowed by the latest commit");
            }
            let pre = led.get(&d).clone();
            let ub = ubuf(&d);
            if !pre.data.is_empty() && v.addr(3, ub, &["C12"], "undelegate buffer") {
                v.uninit(3, &["C12"], "undelegate buffer");
            }
            if !v.why.is_empty() {
                return Want::Reject(v.why);
            }
            let rp = v.k(8);
            sc.a(&d).1 = owner;
            let mut free = vec![];
            if !pre.data.is_empty() {
                sc.close(&ub, &val);
                if !is_honest(&owner) {
                    free = vec![d, val, ub];
                }
            }
            let (vault, pv) = (v.k(10), v.k(9));
            sc.close_with_fees(&record(&d), &rp, &vault, &pv);
            sc.close_with_fees(&metadata(&d), &rp, &vault, &pv);
            let simple_owner = pre.data.is_empty() || is_honest(&owner);
            let must = ok0
                && simple_owner
                && pre.lamports >= rent(pre.data.len())
                && pre.data.len() <= MAX_INCREASE
                && v.rich(0, rent(pre.data.len()) as i128)
                && distinct(v.m, &[(0, 8), (2, 11)]);
            let e = esc(&owner, &d);
            let mut primary: Tags = vec!["C09"];
            let mut mt: Tags = vec!["C06", "C09", "C10", "C12", "C24"];
            if e {
                primary.push("C20");
                mt.push("C20");
            }
            Want::Effect(Effect { sc, must: must.then_some(mt), primary, free, noop: false })
        }
        (Op::InitProtocol, _) => {
            let t: &[&'static str] = &["C14"];
            v.sig(0, t, "payer");
            if v.addr(1, pvault(), t, "protocol vault") {
                v.uninit(1, t, "protocol vault");
            }
            v.system(2);
            sc.create(&pvault(), &v.k(0), &DLP, vec![0; 8]);
            let must = v.pays(0, &mut sc) && distinct(v.m, &[]);
            fin!(vec!["C14"], must, vec!["C14"], false)
        }
        (Op::InitValidator, _) => {
            let t: &[&'static str] = &["C15"];
            v.sig(0, t, "payer");
            v.sig(1, t, "admin");
            v.admin(2, 1, t);
            let val = v.k(3);
            if v.addr(4, vvault(&val), t, "validator vault") {
                v.uninit(4, t, "validator vault");
            }
            v.system(5);
            sc.create(&vvault(&val), &v.k(0), &DLP, vec![0; 8]);
            let must = v.pays(0, &mut sc) && distinct(v.m, &[(0, 1), (0, 3), (1, 3)]);
            fin!(vec!["C15"], must, vec!["C15"], false)
        }
        (Op::CloseValidator, _) => {
            let t: &[&'static str] = &["C15"];
            v.sig(0, t, "payer");
            v.sig(1, t, "admin");
            v.admin(2, 1, t);
            let val = v.k(3);
            if v.addr(4, vvault(&val), t, "validator vault") {
                v.owned(4, t, "validator vault");
            }
            sc.close(&vvault(&val), &val);
            let must = distinct(v.m, &[(0, 1), (0, 3), (1, 3)]);
            fin!(vec!["C15"], must, vec!["C15"], false)
        }
        (Op::ValidatorClaim, Args::Claim(amount)) => {
            let t: &[&'static str] = &["C13"];
            let (val, pv, vault) = (v.k(0), v.k(1), v.k(2));
            v.sig(0, t, "validator");
            if v.addr(1, pvault(), t, "protocol vault") {
                v.owned(1, t, "protocol vault");
            }
            v.addr(2, vvault(&val), t, "validator vault");
            v.open(&val, &["C13", "C15"]);
            let avail = led.get(&vault).lamports as i128 - rent(8) as i128;
            let a = amount.map(|x| x as i128).unwrap_or(avail.max(0));
            if a > avail {
                v.bad(t, "the claim would take the vault below its rent minimum");
            }
            let fee = a * 10 / 100;
            sc.mv(&vault, &pv, fee);
            sc.mv(&vault, &val, a - fee);
            let must = distinct(v.m, &[]);
            fin!(vec!["C13"], must, vec!["C13"], false)
        }
        (Op::ProtocolClaim, _) => {
            let t: &[&'static str] = &["C14"];
            v.sig(0, t, "admin");
            if v.addr(1, pvault(), t, "protocol vault") {
                v.owned(1, t, "protocol vault");
            }
            v.admin(2, 0, t);
            let a = led.get(&pvault()).lamports as i128 - rent(8) as i128;
            if a < 0 {
                v.bad(t, "the protocol vault is below its rent minimum");
            } else {
                sc.mv(&pvault(), &v.k(0), a);
            }
            let must = distinct(v.m, &[]);
            fin!(vec!["C14"], must, vec!["C14"], false)
        }
        (Op::Whitelist, Args::Whitelist(insert)) => {
            let t: &[&'static str] = &["C16"];
            let (auth, ident, prog) = (v.k(0), v.k(1), v.k(2));
            v.sig(0, t, "authority");
            if v.addr(4, progdata(&DLP), t, "delegation program data account") {
                let adm = progdata_authority(&v.acct(4).data).flatten();
                let is_admin = adm == Some(auth);
                if adm.is_none() {
                    v.bad(t, "the delegation program has no upgrade authority");
                }
                if !is_admin {
                    let own = v.k(3) == progdata(&prog)
                        && progdata_authority(&v.acct(3).data).flatten() == Some(auth);
                    if !own {
                        v.bad(t, "the signer is neither the admin nor the program's upgrade authority");
                    }
                }
            }
            let c = wire::config(&prog);
            v.addr(5, c, t, "whitelist account");
            v.system(6);
            let ca = led.get(&c);
            let mut cfg = if ca.owner == SYSTEM {
                Config::default()
            } else {
                match Config::dec(&ca.data) {
                    Some(c) => c,
                    None => {
                        v.bad(&["C17"], "the whitelist account is corrupt");
                        Config::default()
                    }
                }
            };
            let grow = 12 + 32 * (cfg.0.len() + 1) - ca.data.len().min(12 + 32 * cfg.0.len()) <= MAX_INCREASE;
            if insert {
                cfg.0.insert(ident);
            } else {
                cfg.0.remove(&ident);
            }
            sc.create(&c, &auth, &DLP, cfg.enc());
            let must = grow
                && v.pays(0, &mut sc)
                && distinct(v.m, &[(0, 1), (3, 4), (1, 2), (1, 3), (1, 4), (0, 2), (0, 3), (0, 4)]);
            fin!(vec!["C17"], must, vec!["C17", "C16"], false)
        }
        (Op::TopUp, Args::TopUp { amount, index }) => {
            let t: &[&'static str] = &["C18"];
            let (payer, user) = (v.k(0), v.k(1));
            let e = escrow(&user, index);
            v.sig(0, t, "payer");
            v.addr(2, e, t, "escrow");
            v.system(3);
            if led.get(&e).owner == SYSTEM {
                sc.create(&e, &payer, &SYSTEM, vec![]);
            }
            sc.mv(&payer, &e, amount as i128);
            let must = v.pays(0, &mut sc) && distinct(v.m, &[(0, 1)]);
            fin!(vec!["C18"], must, vec!["C18"], false)
        }
        (Op::CloseEscrow, Args::CloseEscrow { index }) => {
            let t: &[&'static str] = &["C19"];
            let user = v.k(0);
            let e = escrow(&user, index);
            v.sig(0, t, "user");
            if v.addr(1, e, t, "escrow") && v.acct(1).owner != SYSTEM {
                v.bad(t, "the escrow is delegated");
            }
            let l = sc.lam(&e);
            sc.mv(&e, &user, l);
            let must = v.k(2) == SYSTEM && distinct(v.m, &[]);
            fin!(vec!["C19"], must, vec!["C19"], false)
        }
        (Op::DelegateEscrow, Args::DelegateEscrow(mut a, index)) => {
            let t: &[&'static str] = &["C20"];
            let (payer, user) = (v.k(0), v.k(1));
            let e = escrow(&user, index);
            v.sig(0, t, "payer");
            v.sig(1, t, "user");
            v.addr(2, e, t, "escrow");
            v.addr(3, buffer(&e, &SYSTEM), t, "delegate buffer");
            if v.addr(4, record(&e), t, "delegation record") {
                v.uninit(4, &["C01", "C20"], "delegation record");
            }
            if v.addr(5, metadata(&e), t, "delegation metadata") {
                v.uninit(5, &["C01", "C20"], "delegation metadata");
            }
            v.system(6);
            v.addr(7, DLP, t, "delegation program");
            a.seeds = vec![b"balance".to_vec(), user.to_bytes().to_vec(), vec![index]];
            let ea = led.get(&e);
            let rec =
                Record { authority: a.validator.unwrap_or_default(), owner: SYSTEM, slot, lamports: ea.lamports, freq: a.freq as u64 };
            let meta = Metadata { last: 0, allow: false, seeds: a.seeds.clone(), rent_payer: payer };
            sc.create(&record(&e), &payer, &DLP, rec.enc());
            sc.create(&metadata(&e), &payer, &DLP, meta.enc());
            sc.a(&e).1 = DLP;
            let b = led.get(&buffer(&e, &SYSTEM));
            let must = v.pays(0, &mut sc)
                && distinct(v.m, &[(0, 1)])
                && ea.owner == SYSTEM
                && ea.data.is_empty()
                && b.data.is_empty()
                && ea.lamports > 0;
            fin!(vec!["C20", "C02"], must, vec!["C20"], false)
        }
        _ => unreachable!(),
    }
}

fn role_of(call: &Call, op: Op, k: &Pubkey) -> Option<&'static str> {
    call.metas.iter().zip(op.roles()).find(|(m, _)| m.key == *k).map(|(_, r)| *r)
}

/// Which properties does an unexpected value of account `k` break?
fn diff_tags(op: Op, role: Option<&'static str>, primary: &Tags, want: &Acct, got: &Acct, noop: bool) -> Tags {
    let mut t = primary.clone();
    let lam = want.lamports != got.lamports;
    let dat = want.data != got.data || want.owner != got.owner;
    let add = |t: &mut Tags, x: &[&'static str]| {
        for i in x {
            if !t.contains(i) {
                t.push(i);
            }
        }
    };
    if lam {
        match op {
            Op::Commit | Op::CommitBuffer | Op::Finalize => add(&mut t, &["C08"]),
            Op::Undelegate => add(&mut t, &["C10"]),
            _ => {}
        }
    }
    let Some(role) = role else {
        add(&mut t, &["C21"]);
        return t;
    };
    match op {
        Op::Delegate | Op::DelegateEscrow => {
            if role == "meta" && dat {
                match (Metadata::dec(&want.data), Metadata::dec(&got.data)) {
                    (Some(a), Some(b)) => {
                        if a.last != b.last {
                            add(&mut t, &["C05"]);
                        }
                        if a.allow != b.allow {
                            add(&mut t, &["C06"]);
                        }
                        if a.rent_payer != b.rent_payer {
                            add(&mut t, &["C10"]);
                        }
                        if a.seeds != b.seeds {
                            add(&mut t, &["C12"]);
                        }
                    }
                    _ => add(&mut t, &["C01"]),
                }
            }
            if role == "record" && dat {
                match (Record::dec(&want.data), Record::dec(&got.data)) {
                    (Some(a), Some(b)) => {
                        if a.owner != b.owner {
                            add(&mut t, &["C09", "C01"]);
                        }
                        if a.lamports != b.lamports {
                            add(&mut t, &["C08"]);
                        }
                    }
                    _ => add(&mut t, &["C01"]),
                }
            }
        }
        Op::Commit | Op::CommitBuffer | Op::Finalize => {
            if role == "meta" && dat {
                match (Metadata::dec(&want.data), Metadata::dec(&got.data)) {
                    (Some(a), Some(b)) => {
                        if a.last != b.last {
                            add(&mut t, &["C05"]);
                        }
                        if a.allow != b.allow {
                            add(&mut t, &["C06"]);
                        }
                    }
                    _ => add(&mut t, &["C05", "C06"]),
                }
            }
            if role == "crecord" && dat {
                add(&mut t, &["C05", "C07", "C08"]);
            }
            if role == "record" && dat {
                add(&mut t, &["C08", "C09"]);
            }
            if noop {
                add(&mut t, &["C04"]);
            }
        }
        Op::Undelegate => match role {
            "record" | "meta" => add(&mut t, &["C10"]),
            "rentpayer" | "pvault" | "vault" => add(&mut t, &["C10"]),
            "validator" => add(&mut t, &["C10", "C11"]),
            "account" => add(&mut t, &["C11"]),
            _ => {}
        },
        Op::Whitelist => {
            if role != "config" && role != "authority" {
                add(&mut t, &["C21"]);
            }
        }
        _ => {}
    }
    t
}

fn show(a: &Acct) -> String {
    let hex: String = a.data.iter().take(160).map(|b| format!("{b:02x}")).collect();
    format!("{} lamports, owner {}, {} bytes {}", a.lamports, short(&a.owner), a.data.len(), hex)
}
pub fn short(k: &Pubkey) -> String {
    if let Some(n) = crate::world::name_of(k) {
        return n;
    }
    k.to_string()[..8].to_string()
}

/// One of the program's own accounts signs, or paid for a delegation: nobody can bring that about, so what happens
/// then is nobody's promise.  (Escrows sign for their own delegation and are not meant.)
fn impossible(call: &Call, op: Op) -> bool {
    let mut suspects: Vec<Pubkey> = call.metas.iter().filter(|m| m.signer).map(|m| m.key).collect();
    if op == Op::Undelegate {
        suspects.extend(call.metas.get(8).map(|m| m.key));
    }
    suspects.retain(|k| !wire::on_curve(k));
    if suspects.is_empty() {
        return false;
    }
    let own = |s: &Pubkey| {
        *s == pvault()
            || call.metas.iter().map(|m| m.key).any(|k| [record, metadata, cstate, crecord, ubuf, vvault, wire::config].iter().any(|f| f(&k) == *s))
    };
    suspects.iter().any(own)
}

/// Judge one invocation of the delegation program.
pub fn judge(calls: &[Call], i: usize, slot: u64, ev: &mut Evals) -> Vec<Viol> {
    let call = &calls[i];
    let mut out = vec![];
    let op_name = parse(&call.data).map(|(o, _)| format!("{o:?}")).unwrap_or("malformed".into());
    let w = want(call, slot);
    if let (Want::Effect(_), Some((op, _))) = (&w, parse(&call.data)) {
        if impossible(call, op) {
            return out;
        }
    }
    match (w, &call.post) {
        (Want::Reject(why), None) => {
            for (t, _) in &why {
                ev.hit(t, "rejected");
            }
        }
        (Want::Reject(why), Some(_)) => {
            for (t, m) in why {
                out.push(Viol { tags: t, msg: format!("{op_name} succeeded although {m}") });
            }
        }
        (Want::Effect(e), None) => {
            if let Some(t) = &e.must {
                out.push(Viol {
                    tags: t.clone(),
                    msg: format!("{op_name} must succeed here but failed: {}", call.err.clone().unwrap_or_default()),
                });
            }
        }
        (Want::Effect(mut e), Some(post)) => {
            if let Some(t) = &e.must {
                ev.hit(t, "had-to-succeed");
            }
            let (op, _) = parse(&call.data).unwrap();
            ev.hit(&e.primary, if e.noop { "no-op effect" } else { "effect" });
            let side: &[&'static str] = match op {
                Op::Commit | Op::CommitBuffer | Op::Finalize => &["C05", "C06", "C08", "C21"],
                Op::Undelegate => &["C10", "C11", "C12", "C21"],
                _ => &["C21"],
            };
            ev.hit(side, "effect");
            if op == Op::Undelegate {
                out.extend(undelegate_calls(calls, i, ev));
                if !e.free.is_empty() {
                    out.extend(hostile_post(call, post, ev));
                }
            }
            let free = std::mem::take(&mut e.free);
            let mut keys: BTreeSet<Pubkey> = e.sc.m.keys().copied().collect();
            for (k, _) in call.pre.iter().chain(post.iter()) {
                if !e.sc.m.contains_key(k) && !call.pre.same_at(post, k) {
                    keys.insert(*k);
                }
            }
            for k in keys {
                if free.contains(&k) {
                    continue;
                }
                let got = post.get(&k);
                let want = match e.sc.m.get(&k) {
                    Some((l, o, d)) => Acct {
                        lamports: *l as u64,
                        owner: *o,
                        executable: got.executable,
                        data: d.clone(),
                    },
                    None => call.pre.get(&k).clone(),
                };
                if want != *got {
                    let role = role_of(call, op, &k);
                    out.push(Viol {
                        tags: diff_tags(op, role, &e.primary, &want, got, e.noop),
                        msg: format!(
                            "{op_name}: account {} ({}) is [{}] but should be [{}]",
                            short(&k),
                            role.unwrap_or("not part of the operation"),
                            show(got),
                            show(&want)
                        ),
                    });
                }
            }
        }
    }
    out
}

/// C12: the calls an undelegation makes to other programs.
fn undelegate_calls(calls: &[Call], i: usize, ev: &mut Evals) -> Vec<Viol> {
    let call = &calls[i];
    let mut out = vec![];
    let (val, d, owner) = (call.metas[0].key, call.metas[1].key, call.metas[2].key);
    let pre = call.pre.get(&d);
    let kids: Vec<&Call> = calls.iter().filter(|c| c.parent == Some(i)).collect();
    let t = &["C12"];
    ev.hit(t, "callback");
    let mut bad = |m: String| out.push(Viol::new(t, m));
    if pre.data.is_empty() {
        if !kids.is_empty() {
            bad("undelegating an account without data called another program".into());
        }
        return out;
    }
    if kids.len() != 1 || kids[0].program != owner {
        bad(format!("undelegation made {} calls to other programs instead of one to the owner", kids.len()));
        return out;
    }
    let c = kids[0];
    let ub = ubuf(&d);
    let m = &c.metas;
    let want = [(d, false, true), (ub, true, true), (val, true, true), (SYSTEM, false, false)];
    let got: Vec<_> = m.iter().map(|x| (x.key, x.signer, x.writable)).collect();
    if got != want {
        bad(format!("the callback's accounts are {m:?}"));
    }
    let Some(meta) = Metadata::dec(&call.pre.get(&metadata(&d)).data) else { return out };
    let mut data = CALLBACK.to_vec();
    data.extend(enc_seeds(&meta.seeds));
    if c.data != data {
        bad(format!("the callback's data is {:02x?} instead of {:02x?}", c.data, data));
    }
    let (da, ua) = (c.pre.get(&d), c.pre.get(&ub));
    if !(da.lamports == 0 && da.is_uninit()) {
        bad(format!("the delegated account is not closed when the callback runs: {}", show(da)));
    }
    if ua.owner != DLP || ua.data != pre.data {
        bad(format!("the callback's buffer does not hold the state: {}", show(ua)));
    }
    out
}

/// C11: what holds after a successful undelegation whatever the owner program did.
fn hostile_post(call: &Call, post: &Ledger, ev: &mut Evals) -> Vec<Viol> {
    let mut out = vec![];
    let (val, d) = (call.metas[0].key, call.metas[1].key);
    let t = &["C11"];
    ev.hit(t, "hostile callback accepted");
    let (vp, va) = (call.pre.get(&val), post.get(&val));
    if vp.owner == SYSTEM && vp.data.is_empty() {
        if va.owner != SYSTEM {
            out.push(Viol::new(t, format!("the owner program took over the validator's account (now owned by {})", short(&va.owner))));
        }
        if !va.data.is_empty() {
            out.push(Viol::new(t, "the owner program left data in the validator's account"));
        }
        let mut expect = vp.lamports as i128;
        // what the validator is due as rent payer
        if call.metas[8].key == val {
            for k in [record(&d), metadata(&d)] {
                let l = call.pre.get(&k).lamports as i128;
                expect += l - l * 10 / 100;
            }
        }
        if (va.lamports as i128) < expect {
            out.push(Viol::new(t, format!("the validator lost {} lamports", expect - va.lamports as i128)));
        }
    }
    if post.get(&d).data != call.pre.get(&d).data {
        out.push(Viol::new(t, "the account does not hold the committed data after undelegation"));
    }
    let ua = post.get(&ubuf(&d));
    if !(ua.is_uninit() && ua.lamports == 0) {
        out.push(Viol::new(&["C11", "C09"], "the undelegate buffer was not closed"));
    }
    out
}

/// Judge everything a transaction did.
pub fn judge_out(out: &Out, slot: u64, ev: &mut Evals) -> Vec<Viol> {
    let mut v = vec![];
    for i in 0..out.calls.len() {
        if out.calls[i].program == DLP {
            v.extend(judge(&out.calls, i, slot, ev));
        }
    }
    v
}
