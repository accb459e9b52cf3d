//! The protocol model: an abstract state machine of delegations, vaults, whitelists and escrows.
//! It predicts, for well-formed instructions, whether they succeed and the abstract state after
//! them; `life` compares it with the implementation on every explored transition.

use crate::spec::Viol;
use crate::svm::*;
use crate::wire::{self, *};
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Pend {
    pub v: Pubkey,
    pub slot: u64,
    pub lam: u64,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Life {
    Home,
    Away { last: u64, allow: bool, recorded: u64, pend: Option<Pend>, rent_payer: Pubkey },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MSub {
    pub owner: Pubkey,
    pub seeds: Vec<Vec<u8>>,
    pub data: Vec<u8>,
    pub bal: u64,
    pub life: Life,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Model {
    pub subs: BTreeMap<Pubkey, MSub>,
    pub open: BTreeSet<Pubkey>,
    pub pv: bool,
    pub lists: BTreeMap<Pubkey, BTreeSet<Pubkey>>,
    /// validators whose vault is tracked
    pub vals: BTreeSet<Pubkey>,
    pub progs: BTreeSet<Pubkey>,
}

/// What the model says about one instruction.
pub enum Pred {
    Unknown,
    Ok(Model),
    /// must fail; the properties that say so
    Fail(&'static [&'static str]),
}

impl Model {
    /// The model state a ledger represents (used to start an exploration).
    pub fn of(l: &Ledger, subs: &[Sub], vals: &[Pubkey], progs: &[Pubkey]) -> Model {
        let mut m = Model {
            vals: vals.iter().copied().collect(),
            progs: progs.iter().copied().collect(),
            pv: l.get(&pvault()).owner == DLP,
            ..Default::default()
        };
        for v in vals {
            if l.get(&vvault(v)).owner == DLP {
                m.open.insert(*v);
            }
        }
        for p in progs {
            if let Some(c) = Config::dec(&l.get(&wire::config(p)).data) {
                m.lists.insert(*p, c.0);
            }
        }
        for s in subs {
            let a = l.get(&s.key);
            let life = match (Record::dec(&l.get(&record(&s.key)).data), Metadata::dec(&l.get(&metadata(&s.key)).data)) {
                (Some(r), Some(t)) => Life::Away {
                    last: t.last,
                    allow: t.allow,
                    recorded: r.lamports,
                    rent_payer: t.rent_payer,
                    pend: CommitRec::dec(&l.get(&crecord(&s.key)).data).map(|c| Pend {
                        v: c.identity,
                        slot: c.slot,
                        lam: c.lamports,
                        data: l.get(&cstate(&s.key)).data.clone(),
                    }),
                },
                _ => Life::Home,
            };
            m.subs.insert(
                s.key,
                MSub { owner: s.owner, seeds: s.seeds.clone(), data: a.data.clone(), bal: a.lamports, life },
            );
        }
        m
    }

    fn listed(&self, owner: &Pubkey, v: &Pubkey) -> bool {
        self.lists.get(owner).map(|s| s.contains(v)).unwrap_or(true)
    }

    pub fn predict(&self, l: &Ledger, ix: &Ix) -> Pred {
        let mut n = self.clone();
        if ix.program == SYSTEM {
            // a transfer; whether it succeeds is the runtime's business
            if ix.data.len() == 12 && ix.data[0] == 2 {
                let amt = u64::from_le_bytes(ix.data[4..12].try_into().unwrap());
                if let Some(s) = n.subs.get_mut(&ix.metas[1].key) {
                    s.bal += amt;
                }
            }
            return Pred::Ok(n);
        }
        if ix.program != DLP {
            let d = match ix.data.first() {
                Some(0) => ix.metas[1].key,
                Some(1) => ix.metas[0].key,
                _ => return Pred::Unknown,
            };
            let Some(s) = n.subs.get_mut(&d) else { return Pred::Unknown };
            if s.owner != ix.program {
                return Pred::Fail(&["C01"]);
            }
            if s.life != Life::Home {
                return Pred::Fail(&["C01"]);
            }
            if ix.data[0] == 0 {
                s.life = Life::Away { last: 0, allow: false, recorded: s.bal, pend: None, rent_payer: ix.metas[0].key };
            } else {
                s.data = ix.data[1..].to_vec();
            }
            return Pred::Ok(n);
        }
        let Some((op, args)) = parse(&ix.data) else { return Pred::Unknown };
        let k = |i: usize| ix.metas[i].key;
        match (op, args) {
            (Op::Commit | Op::CommitBuffer, args) => {
                let (slot, lam, allow_, data, o) = match args {
                    Args::Commit { slot, lamports, allow, data } => (slot, lamports, allow, data, 0),
                    Args::CommitBuffer { slot, lamports, allow } => (slot, lamports, allow, l.get(&k(6)).data.clone(), 1),
                    _ => unreachable!(),
                };
                let _ = o;
                let (v, d) = (k(0), k(1));
                let listed = self.subs.get(&d).map(|s| self.listed(&s.owner, &v)).unwrap_or(true);
                let Some(s) = n.subs.get_mut(&d) else { return Pred::Unknown };
                if !self.open.contains(&v) {
                    return Pred::Fail(&["C03", "C15"]);
                }
                let Life::Away { last, allow, pend, .. } = &mut s.life else { return Pred::Fail(&["C03"]) };
                if slot < *last {
                    return if listed { Pred::Ok(self.clone()) } else { Pred::Unknown };
                }
                if *allow {
                    return Pred::Fail(&["C06"]);
                }
                if !listed {
                    return Pred::Fail(&["C03"]);
                }
                if pend.is_some() {
                    return Pred::Fail(&["C04"]);
                }
                *allow = allow_;
                *pend = Some(Pend { v, slot, lam, data });
                Pred::Ok(n)
            }
            (Op::Finalize, _) => {
                let (v, d) = (k(0), k(1));
                let Some(s) = n.subs.get_mut(&d) else { return Pred::Unknown };
                if !self.open.contains(&v) {
                    return Pred::Fail(&["C07", "C15"]);
                }
                let Life::Away { last, pend, recorded, .. } = &mut s.life else { return Pred::Fail(&["C07"]) };
                let Some(p) = pend.take() else { return Pred::Ok(self.clone()) };
                if p.v != v {
                    return Pred::Fail(&["C07"]);
                }
                *last = p.slot;
                s.bal = (s.bal as i128 + p.lam as i128 - *recorded as i128) as u64;
                *recorded = s.bal;
                s.data = p.data;
                if s.bal == 0 {
                    return Pred::Unknown;
                }
                Pred::Ok(n)
            }
            (Op::Undelegate, _) => {
                let (v, d) = (k(0), k(1));
                let Some(s) = n.subs.get_mut(&d) else { return Pred::Unknown };
                if !self.open.contains(&v) {
                    return Pred::Fail(&["C06", "C15"]);
                }
                let Life::Away { allow, pend, rent_payer, .. } = &s.life else { return Pred::Fail(&["C06"]) };
                if pend.is_some() || !allow {
                    return Pred::Fail(&["C06"]);
                }
                if !self.pv || *rent_payer != k(8) || s.owner != k(2) {
                    return Pred::Fail(&["C10"]);
                }
                if s.owner == SYSTEM && !s.data.is_empty() {
                    return Pred::Unknown;
                }
                s.life = Life::Home;
                Pred::Ok(n)
            }
            (Op::InitProtocol, _) => {
                if self.pv {
                    return Pred::Fail(&["C14"]);
                }
                n.pv = true;
                Pred::Ok(n)
            }
            (Op::InitValidator, _) => {
                if k(1) != world().admin || !n.open.insert(k(3)) {
                    return Pred::Fail(&["C15"]);
                }
                Pred::Ok(n)
            }
            (Op::CloseValidator, _) => {
                if k(1) != world().admin || !n.open.remove(&k(3)) {
                    return Pred::Fail(&["C15"]);
                }
                Pred::Ok(n)
            }
            (Op::Whitelist, Args::Whitelist(ins)) => {
                let w = world();
                let ok = k(0) == w.admin || (k(2) == w.p && k(0) == w.auth_p) || (k(2) == w.q && k(0) == w.auth_q);
                if !ok {
                    return Pred::Fail(&["C16"]);
                }
                let e = n.lists.entry(k(2)).or_default();
                if ins {
                    e.insert(k(1));
                } else {
                    e.remove(&k(1));
                }
                Pred::Ok(n)
            }
            (Op::TopUp, Args::TopUp { amount, .. }) => {
                let Some(s) = n.subs.get_mut(&k(2)) else { return Pred::Unknown };
                if s.life == Life::Home {
                    s.bal = s.bal.max(rent(0));
                }
                s.bal += amount;
                Pred::Ok(n)
            }
            (Op::CloseEscrow, _) => {
                let Some(s) = n.subs.get_mut(&k(1)) else { return Pred::Unknown };
                if s.life != Life::Home {
                    return Pred::Fail(&["C19"]);
                }
                s.bal = 0;
                Pred::Ok(n)
            }
            (Op::DelegateEscrow, _) => {
                let Some(s) = n.subs.get_mut(&k(2)) else { return Pred::Unknown };
                if s.life != Life::Home {
                    return Pred::Fail(&["C20", "C01"]);
                }
                if s.bal == 0 {
                    return Pred::Unknown;
                }
                s.life = Life::Away { last: 0, allow: false, recorded: s.bal, pend: None, rent_payer: k(0) };
                Pred::Ok(n)
            }
            (Op::ValidatorClaim, Args::Claim(a)) => {
                if !self.open.contains(&k(0)) || !self.pv {
                    return Pred::Fail(&["C13", "C15"]);
                }
                match a {
                    Some(a) if a as i128 > l.get(&vvault(&k(0))).lamports as i128 - rent(8) as i128 => Pred::Fail(&["C13"]),
                    _ => Pred::Ok(n),
                }
            }
            (Op::ProtocolClaim, _) => {
                if k(0) != world().admin || !self.pv {
                    return Pred::Fail(&["C14"]);
                }
                Pred::Ok(n)
            }
            _ => Pred::Unknown,
        }
    }

    /// Does the ledger represent this model state?
    pub fn check(&self, l: &Ledger) -> Vec<Viol> {
        let mut out = vec![];
        let mut bad = |t: &[&'static str], m: String| out.push(Viol::new(t, format!("model: {m}")));
        for (k, s) in &self.subs {
            let n = crate::spec::short(k);
            let a = l.get(k);
            let esc: &[&'static str] = if s.owner == SYSTEM { &["C20"] } else { &[] };
            let tg = |x: &[&'static str]| [x, esc].concat();
            if a.data != s.data {
                bad(&tg(&["C07", "C09", "C04"]), format!("{n} has data {:?} instead of {:?}", trunc(&a.data), trunc(&s.data)));
            }
            if a.lamports != s.bal {
                bad(&tg(&["C08", "C09"]), format!("{n} has {} lamports instead of {}", a.lamports, s.bal));
            }
            let (r, t) = (l.get(&record(k)), l.get(&metadata(k)));
            match &s.life {
                Life::Home => {
                    if a.owner != s.owner {
                        bad(&tg(&["C09", "C01"]), format!("{n} is not back with its owner"));
                    }
                    if !r.is_uninit() || !t.is_uninit() {
                        bad(&tg(&["C09"]), format!("{n}'s delegation records still exist"));
                    }
                }
                Life::Away { last, allow, recorded, pend, rent_payer } => {
                    if a.owner != DLP {
                        bad(&tg(&["C01", "C06"]), format!("{n} is no longer held by the delegation program"));
                    }
                    let (Some(r), Some(t)) = (Record::dec(&r.data), Metadata::dec(&t.data)) else {
                        bad(&tg(&["C02", "C01"]), format!("{n}'s delegation records are missing"));
                        continue;
                    };
                    if r.owner != s.owner {
                        bad(&tg(&["C02", "C09"]), format!("{n}: recorded owner changed"));
                    }
                    if r.lamports != *recorded {
                        bad(&tg(&["C08", "C02"]), format!("{n}: recorded balance {} instead of {recorded}", r.lamports));
                    }
                    if t.last != *last {
                        bad(&tg(&["C05"]), format!("{n}: last finalized slot {} instead of {last}", t.last));
                    }
                    if t.allow != *allow {
                        bad(&tg(&["C06"]), format!("{n}: undelegation allowed = {} instead of {allow}", t.allow));
                    }
                    if t.rent_payer != *rent_payer || t.seeds != s.seeds {
                        bad(&tg(&["C02", "C10", "C12"]), format!("{n}: rent payer or seeds changed"));
                    }
                    let got = CommitRec::dec(&l.get(&crecord(k)).data).map(|c| Pend {
                        v: c.identity,
                        slot: c.slot,
                        lam: c.lamports,
                        data: l.get(&cstate(k)).data.clone(),
                    });
                    if got != *pend {
                        bad(&tg(&["C04", "C07", "C05"]), format!("{n}: pending commit is {got:?} instead of {pend:?}"));
                    }
                }
            }
        }
        for v in &self.vals {
            if (l.get(&vvault(v)).owner == DLP) != self.open.contains(v) {
                bad(&["C15"], format!("vault of {} open state differs", crate::spec::short(v)));
            }
        }
        for p in &self.progs {
            let got = Config::dec(&l.get(&wire::config(p)).data).map(|c| c.0);
            if got != self.lists.get(p).cloned() {
                bad(&["C17", "C16"], format!("whitelist of {} is {got:?}", crate::spec::short(p)));
            }
        }
        if (l.get(&pvault()).owner == DLP) != self.pv {
            bad(&["C14"], "protocol vault existence differs".into());
        }
        out
    }
}
fn trunc(b: &[u8]) -> &[u8] {
    &b[..b.len().min(16)]
}

/// Which properties say that this (predicted) success has to happen?
pub fn success_tags(ix: &Ix) -> &'static [&'static str] {
    if ix.program == DLP {
        match parse(&ix.data).map(|x| x.0) {
            Some(Op::Commit | Op::CommitBuffer) => &["C03", "C04", "C05", "C08"],
            Some(Op::Finalize) => &["C07", "C08", "C05"],
            Some(Op::Undelegate) => &["C06", "C09", "C10", "C12"],
            Some(Op::InitProtocol | Op::ProtocolClaim) => &["C14"],
            Some(Op::InitValidator | Op::CloseValidator) => &["C15"],
            Some(Op::Whitelist) => &["C16", "C17"],
            Some(Op::TopUp) => &["C18"],
            Some(Op::CloseEscrow) => &["C19"],
            Some(Op::DelegateEscrow) => &["C20"],
            Some(Op::ValidatorClaim) => &["C13"],
            _ => &[],
        }
    } else if ix.program == SYSTEM {
        &[]
    } else {
        &["C02", "C09"]
    }
}

/// Ghost step: predicted result and state versus the implementation's.
pub fn follow(l: &Ledger, m: &Model, tx: &Tx, out: &Out, ev: &mut crate::spec::Evals) -> (Model, Vec<Viol>) {
    let mut cur = m.clone();
    let mut led = l.clone();
    for ix in &tx.ixs {
        match cur.predict(&led, ix) {
            Pred::Unknown => {
                if !out.ok {
                    return (m.clone(), vec![]);
                }
                // resynchronise on what the implementation did
                let subs: Vec<Sub> =
                    m.subs.iter().map(|(k, s)| Sub { key: *k, owner: s.owner, seeds: s.seeds.clone() }).collect();
                let vals: Vec<Pubkey> = m.vals.iter().copied().collect();
                let progs: Vec<Pubkey> = m.progs.iter().copied().collect();
                return (Model::of(&out.ledger, &subs, &vals, &progs), vec![]);
            }
            Pred::Fail(t) => {
                ev.hit(t, "model-rejected");
                if out.ok {
                    return (
                        m.clone(),
                        vec![Viol::new(t, format!("model: {} succeeded but must fail", crate::explore::describe(tx)))],
                    );
                }
                return (m.clone(), vec![]);
            }
            Pred::Ok(n) => cur = n,
        }
        if tx.ixs.len() > 1 {
            // intermediate ledgers are only needed for buffers and vault balances
            led = out.ledger.clone();
        }
    }
    let tags: Vec<&'static str> = tx.ixs.iter().flat_map(|i| success_tags(i).iter().copied()).collect();
    if !out.ok {
        let runtime = out.rent_failure || tx.ixs.iter().all(|i| i.program == SYSTEM);
        if runtime || tags.is_empty() {
            return (m.clone(), vec![]);
        }
        return (
            m.clone(),
            vec![Viol::new(
                &tags,
                format!("model: {} must succeed but failed: {}", crate::explore::describe(tx), out.err),
            )],
        );
    }
    ev.hit(&tags, "model-accepted");
    let v = cur.check(&out.ledger);
    (cur, v)
}
