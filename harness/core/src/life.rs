//! Life-cycle explorations: every history of a configurable alphabet up to a depth (or to closure),
//! judged step by step by `spec` and against the protocol model.

use crate::explore::*;
use crate::model::{self, Model};
use crate::owner;
use crate::svm::*;
use crate::wire::{self, *};
use crate::world::*;
use solana_program::pubkey::Pubkey;

#[derive(Clone)]
pub struct Alphabet {
    pub subs: Vec<Sub>,
    pub committers: Vec<Pubkey>,
    pub finalizers: Vec<Pubkey>,
    pub undelegators: Vec<Pubkey>,
    pub slots: Vec<u64>,
    /// committed balance as an offset over the rent of the committed data
    pub lams: Vec<u64>,
    /// committed balances as such
    pub abs_lams: Vec<u64>,
    pub datas: Vec<Vec<u8>>,
    pub allows: Vec<bool>,
    pub from_buffer: Vec<Pubkey>,
    pub delegators: Vec<Pubkey>,
    pub auth: Option<Pubkey>,
    pub donations: Vec<(Pubkey, u64)>,
    pub writes: Vec<Vec<u8>>,
    pub vault_admin: Vec<(Pubkey, Pubkey)>,
    pub lists: Vec<(Pubkey, Pubkey, Pubkey)>,
    pub claims: Vec<(Pubkey, Option<u64>)>,
    pub pclaims: Vec<Pubkey>,
    pub init_pv: bool,
    pub topups: Vec<(Pubkey, Pubkey, u64, u8)>,
    pub closes: Vec<(Pubkey, u8)>,
    pub escrow_delegs: Vec<(Pubkey, Pubkey, u8)>,
    /// also delegate escrows that hold nothing (a recorded finding: see C20 and C24)
    pub unfunded: bool,
    pub clock: u64,
}
impl Alphabet {
    pub fn new() -> Alphabet {
        Alphabet {
            subs: vec![],
            committers: vec![],
            finalizers: vec![],
            undelegators: vec![],
            slots: vec![1],
            lams: vec![0],
            abs_lams: vec![],
            datas: vec![vec![1; 8]],
            allows: vec![false, true],
            from_buffer: vec![],
            delegators: vec![],
            auth: None,
            donations: vec![],
            writes: vec![],
            vault_admin: vec![],
            lists: vec![],
            claims: vec![],
            pclaims: vec![],
            init_pv: false,
            topups: vec![],
            closes: vec![],
            escrow_delegs: vec![],
            unfunded: false,
            clock: 9,
        }
    }
    pub fn actions(&self, l: &Ledger, m: &Model) -> Vec<Step> {
        use crate::spec::short;
        let mut o: Vec<Tx> = vec![];
        for s in &self.subs {
            let n = short(&s.key);
            for p in &self.delegators {
                if s.owner != SYSTEM {
                    o.push(Tx::new(
                        format!("delegate {n}"),
                        owner::delegate_ix(s.owner, *p, s.key, &s.seeds, &args(s, self.auth)),
                    ));
                }
            }
            for v in &self.committers {
                for sl in &self.slots {
                    for d in &self.datas {
                        let lams: Vec<u64> = self.lams.iter().map(|x| rent(d.len()) + x).chain(self.abs_lams.iter().copied()).collect();
                        for x in &lams {
                            for a in &self.allows {
                                o.push(Tx::new(
                                    format!("commit {n} by {}", short(v)),
                                    wire::commit(*v, s.key, s.owner, *sl, *x, *a, d),
                                ));
                            }
                        }
                    }
                    for b in &self.from_buffer {
                        for a in &self.allows {
                            o.push(Tx::new(
                                format!("commit {n} from buffer by {}", short(v)),
                                wire::commit_buffer(*v, s.key, s.owner, *b, *sl, rent(l.get(b).data.len()) + self.lams[0], *a),
                            ));
                        }
                    }
                }
            }
            for v in &self.finalizers {
                o.push(Tx::new(format!("finalize {n} by {}", short(v)), wire::finalize(*v, s.key)));
            }
            for v in &self.undelegators {
                let rp = Metadata::dec(&l.get(&metadata(&s.key)).data).map(|m| m.rent_payer).unwrap_or(world().payer);
                o.push(Tx::new(format!("undelegate {n} by {}", short(v)), wire::undelegate(*v, s.key, s.owner, rp)));
            }
            for d in &self.writes {
                if s.owner != SYSTEM && m.subs[&s.key].life == model::Life::Home && m.subs[&s.key].bal >= rent(d.len()) {
                    o.push(Tx::new(format!("write {n}"), owner::write_ix(s.owner, s.key, d)));
                }
            }
        }
        for (k, n) in &self.donations {
            if l.get(k).lamports < 20 * SOL {
                o.push(Tx::new(format!("donate {n} to {}", short(k)), transfer(world().x, *k, *n)));
            }
        }
        for (a, v) in &self.vault_admin {
            o.push(Tx::new(format!("open vault of {} by {}", short(v), short(a)), init_validator(*a, *a, *v)));
            o.push(Tx::new(format!("close vault of {} by {}", short(v), short(a)), close_validator(*a, *a, *v)));
        }
        for (a, p, v) in &self.lists {
            for ins in [true, false] {
                o.push(Tx::new(
                    format!("{} {} for {} by {}", if ins { "list" } else { "unlist" }, short(v), short(p), short(a)),
                    whitelist(*a, *v, *p, ins),
                ));
            }
        }
        for (v, a) in &self.claims {
            o.push(Tx::new(format!("claim {a:?} by {}", short(v)), validator_claim(*v, *a)));
        }
        for a in &self.pclaims {
            o.push(Tx::new(format!("protocol claim by {}", short(a)), protocol_claim(*a)));
        }
        if self.init_pv {
            o.push(Tx::new("init protocol vault", init_protocol(world().payer)));
        }
        for (p, u, n, i) in &self.topups {
            if l.get(&escrow(u, *i)).lamports < 20 * SOL {
                o.push(Tx::new(format!("top up {} {i} by {n}", short(u)), top_up(*p, *u, *n, *i)));
            }
        }
        for (u, i) in &self.closes {
            o.push(Tx::new(format!("close escrow {} {i}", short(u)), close_escrow(*u, *i)));
        }
        for (p, u, i) in &self.escrow_delegs {
            if !self.unfunded && l.get(&escrow(u, *i)).lamports == 0 {
                continue;
            }
            let a = DelegateArgs { freq: 50, seeds: vec![vec![9]], validator: self.auth };
            o.push(Tx::new(format!("delegate escrow {} {i}", short(u)), delegate_escrow(*p, *u, *i, &a)));
        }
        o.into_iter().map(|tx| Step { tx, slot: self.clock }).collect()
    }
}

/// Balances that only ever receive or pay (wallets, vaults) are not part of a state's identity: no
/// guard of the protocol reads them except through claims, which have their own exploration.
pub fn drop_lam(k: &Pubkey) -> bool {
    is_wallet(k) || *k == pvault() || {
        let w = world();
        [w.v1, w.v2, w.v3].iter().any(|v| vvault(v) == *k)
    }
}
pub fn keep_vault_lam(k: &Pubkey) -> bool {
    is_wallet(k)
}

