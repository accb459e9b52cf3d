//! History-level explorations: life cycles, interleavings, donations, recovery and bundles.

use crate::explore::*;
use crate::life::{self, Alphabet};
use crate::model::{self, Model};
use crate::scen::sub;
use crate::spec::{self, short, Evals, Viol};
use crate::svm::*;
use crate::wire::{self, *};
use crate::world::*;
use solana_program::pubkey::Pubkey;

type After<'a> = &'a (dyn Fn(&Ledger, &Model, &Step, &Out, &mut Evals) -> Vec<Viol> + Sync);
type AtState<'a> = &'a (dyn Fn(&Ledger, &Model, &mut Local) + Sync);

pub struct Spec<'a> {
    pub name: &'a str,
    pub note: &'a str,
    pub init: Vec<Ledger>,
    pub al: Alphabet,
    pub vals: Vec<Pubkey>,
    pub progs: Vec<Pubkey>,
    pub depth: usize,
    pub cap: usize,
    pub keep_vaults: bool,
    /// only evaluate `at_state` (for explorations of recorded findings)
    pub only_at_state: bool,
    pub after: Option<After<'a>>,
    pub at_state: Option<AtState<'a>>,
}
impl<'a> Spec<'a> {
    pub fn new(name: &'a str, note: &'a str, init: Vec<Ledger>, al: Alphabet) -> Spec<'a> {
        let w = world();
        Spec {
            name,
            note,
            init,
            al,
            vals: vec![w.v1, w.v2],
            progs: vec![w.p, w.q],
            depth: 60,
            cap: 150_000,
            keep_vaults: false,
            only_at_state: false,
            after: None,
            at_state: None,
        }
    }
}

pub fn go(run: &mut Run, s: &Spec) {
    let init: Vec<(Ledger, Model)> =
        s.init.iter().map(|l| (l.clone(), Model::of(l, &s.al.subs, &s.vals, &s.progs))).collect();
    let b = Bfs {
        name: s.name,
        note: s.note,
        init,
        max_depth: s.depth,
        max_states: s.cap,
        actions: &|l: &Ledger, m: &Model| s.al.actions(l, m),
        after: &|l: &Ledger, m: &Model, st: &Step, o: &Out, ev: &mut Evals| {
            if s.only_at_state {
                return (m.clone(), vec![]);
            }
            let (m2, mut v) = model::follow(l, m, &st.tx, o, ev);
            if let Some(f) = s.after {
                v.extend(f(l, m, st, o, ev));
            }
            (m2, v)
        },
        abstract_lamports: if s.keep_vaults { &life::keep_vault_lam } else { &life::drop_lam },
        at_state: s.at_state,
        judge: !s.only_at_state,
    };
    bfs(run, &b);
}

pub fn owned(s: &Sub) -> Ledger {
    with_owned(ready(), s, rent(8) + 1000, &[3; 8])
}

// ------------------------------------------------------------------ alphabets

pub fn al_core(run: &Run) -> Alphabet {
    let w = world();
    let mut al = Alphabet::new();
    al.subs = vec![w.a.clone()];
    al.committers = vec![w.v1, w.v2, w.v3];
    al.finalizers = vec![w.v1, w.v2, w.v3];
    al.undelegators = vec![w.v1, w.v2, w.v3];
    al.slots = run.pick(vec![0, 1, 2], vec![0, 1, 2, 3, 4, 5]);
    al.lams = run.pick(vec![0, 1000, 2500], vec![0, 1000, 2500, SOL]);
    al.datas = run.pick(vec![vec![1; 8], vec![0; 11], vec![]], vec![vec![1; 8], vec![0; 11], vec![], vec![5; 3]]);
    al.delegators = vec![w.payer, w.u1];
    al.auth = Some(w.v2);
    al
}

/// Delegate, commit, finalize, undelegate of one account by every validator, to closure.
pub fn life_core(run: &mut Run) {
    let w = world();
    let mut al = al_core(run);
    if !run.thorough {
        al.delegators = vec![w.payer];
    }
    go(run, &Spec::new("life cycle of a program account", "slots, balances up/down, two data sizes, three validators (one without vault)", vec![owned(&w.a)], al));
}

/// The same with the program writing its own account while it is home, and through every payer.
pub fn life_writes(run: &mut Run) {
    let w = world();
    let mut al = al_core(run);
    al.slots = vec![1, 2];
    al.lams = vec![0];
    al.committers = vec![w.v1, w.v2];
    al.finalizers = vec![w.v1, w.v2];
    al.undelegators = vec![w.v1, w.v2];
    al.datas = vec![vec![1; 8], vec![2; 4]];
    al.writes = vec![vec![9; 8], vec![]];
    go(run, &Spec::new("life cycle with program writes", "the owner program rewrites the account whenever it is home", vec![owned(&w.a)], al));
}

pub fn life_admin(run: &mut Run) {
    let w = world();
    let mut al = Alphabet::new();
    al.subs = vec![w.a.clone()];
    al.committers = vec![w.v1, w.v2];
    al.finalizers = vec![w.v1, w.v2];
    al.undelegators = vec![w.v1, w.v2];
    al.slots = run.pick(vec![1], vec![1, 2]);
    al.datas = vec![vec![1; 8]];
    al.delegators = vec![w.payer];
    al.vault_admin = vec![(w.admin, w.v1), (w.admin, w.v2), (w.x, w.v1)];
    al.lists = vec![(w.auth_p, w.p, w.v1), (w.admin, w.p, w.v2), (w.auth_q, w.p, w.v1), (w.auth_q, w.q, w.v1)];
    al.claims = vec![(w.v1, None), (w.v2, None)];
    go(run, &Spec::new("life cycle under administration", "vaults opened and closed, validators listed and unlisted, at any moment", vec![owned(&w.a)], al));
}

/// Slots at the edges of the integer ranges.
pub fn life_slots(run: &mut Run) {
    let w = world();
    let mut al = Alphabet::new();
    al.subs = vec![w.a.clone()];
    al.committers = vec![w.v1];
    al.finalizers = vec![w.v1];
    al.undelegators = vec![w.v1];
    al.slots = run.pick(
        vec![0, 1, 255, 256, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX],
        vec![0, 1, 2, 127, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX],
    );
    al.datas = vec![vec![1; 8]];
    al.delegators = vec![w.payer];
    al.clock = 1 << 40;
    go(run, &Spec::new("life cycle over extreme slots", "every order of commits over slots at integer boundaries", vec![owned(&w.a)], al));
}

pub fn life_buffer(run: &mut Run) {
    let w = world();
    let mut al = Alphabet::new();
    al.subs = vec![w.a.clone()];
    al.committers = vec![w.v1, w.v2];
    al.finalizers = vec![w.v1, w.v2];
    al.undelegators = vec![w.v1];
    al.slots = vec![0, 1, 2];
    al.lams = vec![0, 700];
    al.datas = vec![vec![1; 8]];
    al.delegators = vec![w.payer];
    let r = crate::scen::rich();
    al.from_buffer = r.statebufs[..2].to_vec();
    let mut l = owned(&w.a);
    for b in &al.from_buffer {
        l.set(*b, r.led.get(b).clone());
    }
    go(run, &Spec::new("life cycle with commits from buffers", "direct commits and commits from two buffers", vec![l], al));
}

pub fn life_escrow(run: &mut Run) {
    let w = world();
    let (e0, e1) = (Sub::escrow(w.u1, 0), Sub::escrow(w.u1, 255));
    let mut al = Alphabet::new();
    al.subs = vec![e0.clone(), e1.clone()];
    al.committers = vec![w.v1];
    al.finalizers = vec![w.v1, w.v2];
    al.undelegators = vec![w.v2];
    al.slots = vec![0, 1];
    al.datas = vec![vec![]];
    al.lams = run.pick(vec![SOL], vec![SOL, 3 * SOL]);
    al.topups = vec![(w.payer, w.u1, 0, 0), (w.u1, w.u1, 2 * SOL, 0), (w.payer, w.u1, SOL, 255)];
    al.closes = vec![(w.u1, 0), (w.u1, 255), (w.u2, 0)];
    al.escrow_delegs = vec![(w.payer, w.u1, 0), (w.u1, w.u1, 255)];
    let mut l = ready();
    l.set(escrow(&w.u2, 0), Acct::wallet(SOL));
    let depth = run.pick(9, 14);
    let mut s = Spec::new("escrow life cycle", "two indices of one user: top up, delegate, commit, finalize, undelegate, close in any order", vec![l.clone()], al.clone());
    s.depth = depth;
    s.cap = run.pick(30_000, 500_000);
    go(run, &s);
    // from a delegated escrow, one index, to closure
    al.subs = vec![e0.clone()];
    al.topups = vec![(w.payer, w.u1, SOL, 0)];
    al.closes = vec![(w.u1, 0)];
    al.escrow_delegs = vec![(w.payer, w.u1, 0)];
    al.lams = vec![SOL];
    let mut s = Spec::new("escrow life cycle, one index", "as above, deeper", vec![with_delegated(l, &e0.key, &Del::of(&e0, &[]).lam(2 * SOL))], al);
    s.depth = run.pick(12, 20);
    s.cap = run.pick(20_000, 400_000);
    go(run, &s);
}

/// Vault balances kept exactly: settlement, claims, closing and refunds together.
pub fn life_fees(run: &mut Run) {
    let w = world();
    let mut al = Alphabet::new();
    al.subs = vec![w.a.clone()];
    al.committers = vec![w.v1, w.v2];
    al.finalizers = vec![w.v1, w.v2];
    al.undelegators = vec![w.v1, w.v2];
    al.slots = vec![1];
    al.lams = vec![0, 1000];
    al.datas = vec![vec![1; 8]];
    al.delegators = vec![w.payer];
    al.claims = vec![(w.v1, None), (w.v1, Some(7)), (w.v2, Some(500_000)), (w.v3, None)];
    al.pclaims = vec![w.admin, w.x];
    al.init_pv = true;
    al.vault_admin = vec![(w.admin, w.v1)];
    let mut s = Spec::new("fees", "settlement decreases, refunds, claims, vault closing; vault balances part of the state", vec![owned(&w.a)], al);
    s.keep_vaults = true;
    s.depth = run.pick(11, 16);
    s.cap = run.pick(30_000, 500_000);
    go(run, &s);
}

/// C17: every sequence of insertions and removals, to closure.
pub fn life_lists(run: &mut Run) {
    let w = world();
    let ids = run.pick(vec![w.v1, w.v2, w.v3, w.x], vec![w.v1, w.v2, w.v3, w.x, w.u1, w.u2, w.payer]);
    let mut al = Alphabet::new();
    for v in &ids {
        al.lists.push((w.auth_p, w.p, *v));
        al.lists.push((w.admin, w.p, *v));
    }
    al.lists.push((w.auth_q, w.q, w.v1));
    al.lists.push((w.auth_q, w.p, w.v1));
    al.lists.push((w.auth_p, w.q, w.v1));
    al.donations = vec![(wire::config(&w.p), 10 * SOL)];
    let mut pre = ready();
    pre.set(wire::config(&w.p), Acct::wallet(rent(0)));
    go(run, &Spec::new("whitelist histories", "every order of insertions and removals by both authorities, with donations", vec![ready(), pre], al));
}

/// C20: delegating an escrow that holds nothing, in a transaction of its own and followed by funding.
pub fn unfunded_escrow(run: &mut Run) {
    let w = world();
    let items: Vec<u8> = vec![0, 7, 255];
    cases(run, "unfunded escrow", "delegation of an escrow that holds nothing, then topped up", 1, &items, &|ix, l| {
        let led = ready();
        let a = DelegateArgs { freq: 1, seeds: vec![], validator: None };
        let tx = |label: &str, ixs: Vec<Ix>| Tx { label: label.into(), ixs };
        let steps = [
            tx("delegate escrow that holds nothing", vec![delegate_escrow(w.payer, w.u1, *ix, &a)]),
            tx("top up", vec![top_up(w.payer, w.u1, SOL, *ix)]),
            tx("delegate escrow again", vec![delegate_escrow(w.payer, w.u1, *ix, &a)]),
        ];
        let mut cur = led.clone();
        let mut hist = vec![];
        for t in &steps {
            cur = exec_and_account(l, &cur, t).ledger;
            hist.push(Step { tx: t.clone(), slot: 5 });
        }
        let e = escrow(&w.u1, *ix);
        l.evals.hit(&["C20"], "unfunded escrow");
        if Record::dec(&cur.get(&record(&e)).data).is_some() && cur.get(&e).owner != DLP {
            l.fail(
                Viol::new(&["C20"], "an escrow that held nothing when delegated has delegation records but is not delegated"),
                &led,
                hist.clone(),
                Some("unfunded escrow: records without a delegated account".into()),
            );
        }
        l.offer(&led, hist);
        // funded in the same transaction it is an ordinary delegation
        let t = tx("delegate escrow and top up", vec![delegate_escrow(w.payer, w.u1, *ix, &a), top_up(w.payer, w.u1, SOL, *ix)]);
        let o = l.run(&led, &t, 5);
        if o.ok && (o.ledger.get(&e).owner != DLP || o.ledger.get(&e).lamports < SOL) {
            l.fail(
                Viol::new(&["C20"], "an escrow delegated and funded in one transaction is not delegated"),
                &led,
                vec![Step { tx: t.clone(), slot: 5 }],
                None,
            );
        }
        l.offer(&led, vec![Step { tx: t, slot: 5 }]);
    });
}
fn exec_and_account(l: &mut Local, led: &Ledger, t: &Tx) -> Out {
    let o = exec(led, t, 5);
    l.account(led, &o);
    o
}

// ------------------------------------------------------------------ C21

/// Accounts that belong together: nothing outside the families an instruction names may matter.
fn families() -> Vec<Vec<Pubkey>> {
    let w = world();
    let mut f = vec![];
    for s in two_subs() {
        f.push(vec![s.key, record(&s.key), metadata(&s.key), cstate(&s.key), crecord(&s.key), ubuf(&s.key), buffer(&s.key, &s.owner)]);
    }
    for v in [w.v1, w.v2] {
        f.push(vec![vvault(&v)]);
    }
    for p in [w.p, w.q] {
        f.push(vec![wire::config(&p)]);
    }
    f
}
fn two_subs() -> Vec<Sub> {
    let w = world();
    vec![w.a.clone(), w.a2.clone(), w.b.clone(), Sub::escrow(w.u1, 0), Sub::escrow(w.u1, 1), Sub::escrow(w.u2, 0)]
}

/// Unwinding: the step leaves the other families alone, and would do the same if they were different.
fn noninterference(fams: &[Vec<Pubkey>], init: &Ledger, l: &Ledger, st: &Step, o: &Out, ev: &mut Evals) -> Vec<Viol> {
    let t: &[&'static str] = &["C21"];
    let keys: Vec<Pubkey> = st.tx.ixs.iter().flat_map(|i| i.metas.iter().map(|m| m.key)).collect();
    let others: Vec<&Vec<Pubkey>> = fams.iter().filter(|f| !f.iter().any(|k| keys.contains(k))).collect();
    let mut out = vec![];
    let mut reset = l.clone();
    for f in &others {
        for k in f.iter() {
            if !l.same_at(&o.ledger, k) {
                out.push(Viol::new(t, format!("{} changed {}", describe(&st.tx), short(k))));
            }
            reset.set(*k, init.get(k).clone());
        }
    }
    let o2 = exec(&reset, &st.tx, st.slot);
    ev.hit(t, "unwinding step");
    if o2.ok != o.ok {
        out.push(Viol::new(t, format!("{}: outcome depends on unrelated accounts", describe(&st.tx))));
    } else if o.ok {
        for k in &keys {
            if !o.ledger.same_at(&o2.ledger, k) {
                out.push(Viol::new(t, format!("{}: effect on {} depends on unrelated accounts", describe(&st.tx), short(k))));
            }
        }
    }
    out
}

pub fn isolation(run: &mut Run) {
    let w = world();
    let fams = families();
    let pairs: Vec<(usize, usize)> = if run.thorough {
        vec![(0, 1), (0, 2), (0, 3), (3, 4), (3, 5)]
    } else {
        vec![(0, 1), (0, 2), (0, 3), (3, 4), (3, 5)]
    };
    let subs = two_subs();
    for (i, j) in pairs {
        let (s1, s2) = (subs[i].clone(), subs[j].clone());
        let name = format!("interleavings of {} and {}", short(&s1.key), short(&s2.key));
        let mut l = ready();
        let mut al = Alphabet::new();
        al.subs = vec![s1.clone(), s2.clone()];
        let both_esc = s1.owner == SYSTEM && s2.owner == SYSTEM;
        for s in [&s1, &s2] {
            if s.owner == SYSTEM {
                l.set(s.key, Acct::wallet(2 * SOL));
            } else {
                l = with_owned(l, s, rent(8) + 1000, &[3; 8]);
            }
        }
        al.datas = if both_esc { vec![vec![]] } else if s2.owner == SYSTEM { vec![vec![], vec![7; 8]] } else { vec![vec![7; 8]] };
        al.lams = if both_esc || s2.owner == SYSTEM { vec![SOL] } else { run.pick(vec![0], vec![0, 1000]) };
        al.committers = run.pick(vec![w.v1], vec![w.v1, w.v2]);
        al.finalizers = vec![w.v1, w.v2];
        al.undelegators = vec![w.v1, w.v2];
        al.slots = run.pick(vec![1], vec![1, 2]);
        al.delegators = vec![w.payer];
        for s in [&s1, &s2] {
            if s.owner == SYSTEM {
                let u = if s.key == escrow(&w.u2, 0) { w.u2 } else { w.u1 };
                let ix = if s.key == escrow(&w.u1, 1) { 1 } else { 0 };
                al.escrow_delegs.push((w.payer, u, ix));
                al.closes.push((u, ix));
                al.topups.push((w.payer, u, 2 * SOL, ix));
            }
        }
        if i == 0 && j == 2 {
            al.lists = vec![(w.auth_p, w.p, w.v1), (w.auth_q, w.q, w.v2)];
        }
        if i == 0 && j == 1 {
            al.vault_admin = vec![(w.admin, w.v2)];
        }
        let init = l.clone();
        let f = |l: &Ledger, _m: &Model, st: &Step, o: &Out, ev: &mut Evals| noninterference(&fams, &init, l, st, o, ev);
        let mut s = Spec::new(&name, "product of two life cycles; every step compared with the same step where unrelated accounts are in their initial state", vec![l], al);
        s.after = Some(&f);
        s.cap = run.pick(10_000, 150_000);
        s.depth = run.pick(14, 24);
        go(run, &s);
    }
}

// ------------------------------------------------------------------ C22

/// Ledger contents apart from balances.
fn shape(l: &Ledger, keys: &[Pubkey]) -> Vec<(Pubkey, Pubkey, Vec<u8>)> {
    let mut v = vec![];
    for k in keys {
        let a = l.get(k);
        let mut d = a.data.clone();
        if let Some(mut r) = Record::dec(&d) {
            r.lamports = 0;
            d = r.enc();
        }
        v.push((*k, a.owner, d));
    }
    v
}

fn donation_targets(tx: &Tx) -> Vec<Pubkey> {
    let w = world();
    let fixed = [SYSTEM, DLP, w.p, w.q, w.h, w.immut];
    let mut t: Vec<Pubkey> = vec![];
    for ix in &tx.ixs {
        for m in &ix.metas {
            if !fixed.contains(&m.key) && !t.contains(&m.key) && progdata(&DLP) != m.key {
                t.push(m.key);
            }
        }
    }
    t
}

/// Compare the transaction with and without each donation (single addresses, pairs, all at once).
fn compare_donations(l: &Ledger, tx: &Tx, slot: u64, amounts: &[u64], pairs: bool, loc: &mut Local) {
    let t: &[&'static str] = &["C22"];
    let plain = exec(l, tx, slot);
    loc.account(l, &plain);
    if !plain.ok {
        return;
    }
    let targets = donation_targets(tx);
    let mut sets: Vec<Vec<Pubkey>> = targets.iter().map(|k| vec![*k]).collect();
    if pairs {
        for i in 0..targets.len() {
            for j in 0..i {
                sets.push(vec![targets[i], targets[j]]);
            }
        }
    }
    sets.push(targets.clone());
    let keys: Vec<Pubkey> = {
        let mut k: Vec<Pubkey> = l.iter().chain(plain.ledger.iter()).map(|x| *x.0).collect();
        k.extend(targets.iter());
        k.sort();
        k.dedup();
        k
    };
    let want = shape(&plain.ledger, &keys);
    for set in &sets {
        for n in amounts {
            let mut l2 = l.clone();
            for k in set {
                l2.edit(k, |a| a.lamports += n);
            }
            let o = loc.run(&l2, tx, slot);
            loc.evals.hit(t, "with and without donation");
            let st = || vec![Step { tx: tx.clone(), slot }];
            let names = set.iter().map(short).collect::<Vec<_>>().join(", ");
            if !o.ok {
                loc.fail(
                    Viol::new(t, format!("{} is blocked by {n} lamports sent to {names}: {}", describe(tx), o.err)),
                    &l2,
                    st(),
                    None,
                );
                continue;
            }
            let got = shape(&o.ledger, &keys);
            if got != want {
                let k = got.iter().zip(&want).find(|(a, b)| a != b).map(|(a, _)| short(&a.0)).unwrap_or_default();
                loc.fail(
                    Viol::new(t, format!("{}: {n} lamports sent to {names} change what results at {k}", describe(tx))),
                    &l2,
                    st(),
                    None,
                );
            }
            if o.ledger.total() != l2.total() {
                loc.fail(Viol::new(t, format!("{}: lamports are lost after a donation", describe(tx))), &l2, st(), None);
            }
            if loc.transitions % 50 == 0 {
                loc.offer(&l2, st());
            }
        }
    }
}

fn donation_amounts(run: &Run) -> Vec<u64> {
    let mut amounts = vec![1u64, rent(0), rent(8), rent(96), 3 * SOL];
    if run.thorough {
        amounts.extend([2, 1000, rent(0) + 1, rent(8) - 1, rent(88), rent(104), rent(104) + 1, 100 * SOL, 1 << 50]);
    }
    amounts
}

/// The valid instances of `ops` with lamports sent to any of their addresses before.
pub fn donated(run: &mut Run, ops: &[Op]) {
    let am = donation_amounts(run);
    let ss: Vec<&crate::scen::Scen> = crate::scen::rich().scens.iter().filter(|s| ops.is_empty() || ops.contains(&s.op)).collect();
    cases(run, "donations before valid instances", "every address of every instance, pairs of addresses and all at once, several amounts", 1, &ss, &|s, l| {
        compare_donations(&s.led, &Tx::new(s.name.clone(), s.ix.clone()), s.slot, &am, true, l);
    });
}

/// Histories with donations between any two steps.
fn donation_histories(run: &mut Run, compare: bool) {
    let w = world();
    for (name, s, bytes) in [("a program account", w.a.clone(), vec![3u8; 8]), ("an escrow", Sub::escrow(w.u1, 0), vec![])] {
        let mut al = Alphabet::new();
        al.subs = vec![s.clone()];
        al.committers = vec![w.v1];
        al.finalizers = vec![w.v1];
        al.undelegators = vec![w.v1];
        al.slots = vec![1, 2];
        al.datas = vec![bytes.clone()];
        al.lams = vec![if bytes.is_empty() { SOL } else { 0 }, if bytes.is_empty() { 5 * SOL } else { 900 }];
        al.delegators = vec![w.payer];
        if s.owner == SYSTEM {
            al.escrow_delegs = vec![(w.payer, w.u1, 0)];
            al.topups = vec![(w.payer, w.u1, SOL, 0)];
            al.closes = vec![(w.u1, 0)];
        }
        // one donation per address: the amount is above the cap that stops further ones
        let big = 21 * SOL;
        for k in [s.key, record(&s.key), metadata(&s.key), cstate(&s.key), crecord(&s.key), ubuf(&s.key)] {
            al.donations.push((k, big));
        }
        let l = if s.owner == SYSTEM {
            let mut l = ready();
            l.set(s.key, Acct::wallet(2 * SOL));
            l
        } else {
            owned(&s)
        };
        let am: Vec<u64> = run.pick(vec![1, rent(96)], vec![1, rent(0), rent(96), 3 * SOL]);
        let mut clean = al.clone();
        clean.donations = vec![];
        let at = |l: &Ledger, m: &Model, loc: &mut Local| {
            for st in clean.actions(l, m) {
                compare_donations(l, &st.tx, st.slot, &am, false, loc);
            }
        };
        let nm = format!("histories of {name} with donations");
        let mut sp = Spec::new(&nm, "a donation to any of its addresses between any two steps", vec![l], al);
        if compare {
            sp.at_state = Some(&at);
            sp.depth = run.pick(5, 7);
            sp.cap = run.pick(2_500, 60_000);
        } else {
            sp.depth = run.pick(7, 9);
            sp.cap = run.pick(10_000, 120_000);
        }
        go(run, &sp);
    }
}
pub fn life_donate(run: &mut Run) {
    donation_histories(run, false);
}

pub fn donations(run: &mut Run) {
    let w = world();
    donated(run, &[]);
    // the owner program's whole delegation flow, including its buffer
    let flow: Vec<Sub> = vec![w.a.clone(), w.a2.clone(), w.b.clone()];
    let am = donation_amounts(run);
    cases(run, "donations before delegation flows", "the owner program's delegate flow", 1, &flow, &|s, l| {
        for (lam, d) in [(rent(8), vec![1u8; 8]), (rent(0), vec![])] {
            let led = with_owned(ready(), s, lam, &d);
            let tx = Tx::new("delegate by its program", crate::owner::delegate_ix(s.owner, w.payer, s.key, &s.seeds, &args(s, None)));
            compare_donations(&led, &tx, 5, &am, true, l);
        }
    });
    // every size of what is staged, copied or recorded
    let sizes: Vec<usize> = vec![0, 1, 40, 128, 1000, 4001, 8192, 10239, 10240];
    let th = run.thorough;
    cases(run, "donations and sizes", "delegation, commit, finalization, undelegation and whitelisting with 0 to 10240 bytes, donations around each rent minimum", 211, &sizes, &|n, l| {
        let n = *n;
        let bytes = vec![7u8; n];
        let mut am = vec![1, rent(0), rent(n).saturating_sub(1), rent(n), rent(n) + 1, 3 * SOL];
        if th {
            am.extend([rent(n) / 2, rent(n / 2), rent(n + 1), rent(n + 8)]);
        }
        let s = &w.a;
        let have = rent(n) + 500;
        let out = with_delegated(ready(), &s.key, &Del::of(s, &bytes).lam(have));
        let small = with_delegated(ready(), &s.key, &Del::of(s, &[1]).lam(have));
        let allowed = with_delegated(ready(), &s.key, &Del::of(s, &bytes).lam(have).allow());
        let mut led = small.clone();
        led.set(w.x, Acct::new(rent(n), w.p, bytes.clone()));
        for (what, led, ix) in [
            ("commit", &small, commit(w.v1, s.key, s.owner, 3, have + 5, true, &bytes)),
            ("commit less", &small, commit(w.v1, s.key, s.owner, 3, have - 5, false, &bytes)),
            ("commit from buffer", &led, commit_buffer(w.v1, s.key, s.owner, w.x, 3, have + 5, true)),
            ("finalize", &with_pending(small.clone(), &s.key, &w.v1, 3, have + 77, &bytes), finalize(w.v1, s.key)),
            ("finalize less", &with_pending(out.clone(), &s.key, &w.v1, 3, have - 77, &bytes[..n / 2]), finalize(w.v1, s.key)),
            ("undelegate", &allowed, undelegate(w.v1, s.key, s.owner, w.payer)),
        ] {
            compare_donations(led, &Tx::new(format!("{what}, {n} bytes"), ix), 5, &am, false, l);
        }
        let led = with_owned(ready(), s, have, &bytes);
        let tx = Tx::new(format!("delegate {n} bytes by its program"), crate::owner::delegate_ix(s.owner, w.payer, s.key, &s.seeds, &args(s, None)));
        compare_donations(&led, &tx, 5, &am, false, l);
        let listed: Vec<Pubkey> = (0..n as u16 / 32).map(|i| key_of(i)).collect();
        if !listed.is_empty() {
            let led = with_config(ready(), &w.p, &listed);
            for (v, insert) in [(w.v1, true), (listed[0], false)] {
                compare_donations(&led, &Tx::new(format!("whitelist of {}", listed.len()), whitelist(w.auth_p, v, w.p, insert)), 5, &am, false, l);
            }
        }
    });
    // every amount
    let ss = &crate::scen::rich().scens;
    let es: Vec<u64> = crate::drivers::edges().into_iter().filter(|e| *e > 0 && *e < 1 << 58).collect();
    cases(run, "donations of every amount", "each address of each valid instance x every power of two and ten and its neighbours", 1001, ss, &|s, l| {
        compare_donations(&s.led, &Tx::new(s.name.clone(), s.ix.clone()), s.slot, &es, false, l);
    });
    donation_histories(run, true);
}

fn key_of(i: u16) -> Pubkey {
    let mut b = [0x55u8; 32];
    b[..2].copy_from_slice(&i.to_be_bytes());
    Pubkey::new_from_array(b)
}

// ------------------------------------------------------------------ C24

struct Rec<'a> {
    led: Ledger,
    steps: Vec<Step>,
    loc: &'a mut Local,
    clock: u64,
}
impl Rec<'_> {
    fn try_(&mut self, label: &str, ixs: Vec<Ix>) -> Result<(), String> {
        let tx = Tx { label: format!("recovery: {label}"), ixs };
        let o = exec(&self.led, &tx, self.clock);
        self.loc.account(&self.led, &o);
        self.steps.push(Step { tx, slot: self.clock });
        self.clock += 1;
        for v in spec::judge_out(&o, self.clock - 1, &mut self.loc.evals) {
            let led = self.led.clone();
            let steps = self.steps.clone();
            self.loc.fail(v, &led, steps, None);
        }
        if !o.ok {
            return Err(format!("{label} fails: {}", o.err));
        }
        self.led = o.ledger;
        Ok(())
    }
    fn fund(&mut self, k: &Pubkey, min: u64) -> Result<(), String> {
        let have = self.led.get(k).lamports;
        if have < min {
            return self.try_("donate", vec![transfer(world().x, *k, min - have)]);
        }
        Ok(())
    }
}

fn recover_inner(r: &mut Rec, s: &Sub) -> Result<(), String> {
    let w = world();
    if r.led.get(&record(&s.key)).is_uninit() {
        return Ok(());
    }
    if r.led.get(&s.key).owner != DLP {
        return Err("the delegated account is no longer held by the delegation program while its records exist".into());
    }
    if r.led.get(&pvault()).owner != DLP {
        r.try_("create the protocol vault", vec![init_protocol(w.payer)])?;
    }
    if r.led.get(&vvault(&w.v1)).owner != DLP {
        r.try_("open V1's vault", vec![init_validator(w.admin, w.admin, w.v1)])?;
    }
    let cfg = r.led.get(&wire::config(&s.owner)).clone();
    if cfg.owner == DLP && !Config::dec(&cfg.data).ok_or("corrupt whitelist")?.0.contains(&w.v1) {
        r.try_("list V1", vec![whitelist(w.admin, w.v1, s.owner, true)])?;
    }
    if let Some(c) = CommitRec::dec(&r.led.get(&crecord(&s.key)).data) {
        if r.led.get(&vvault(&c.identity)).owner != DLP {
            r.try_("open the committer's vault", vec![init_validator(w.admin, w.admin, c.identity)])?;
        }
        // what the account holds after finalization has to cover its rent
        let rec = Record::dec(&r.led.get(&record(&s.key)).data).ok_or("corrupt record")?;
        let after = r.led.get(&s.key).lamports as i128 + c.lamports as i128 - rec.lamports as i128;
        let need = rent(r.led.get(&cstate(&s.key)).data.len()) as i128;
        if after < need {
            let k = s.key;
            let have = r.led.get(&k).lamports;
            r.fund(&k, have + (need - after) as u64)?;
        }
        r.try_("finalize", vec![finalize(c.identity, s.key)])?;
    }
    let meta = Metadata::dec(&r.led.get(&metadata(&s.key)).data).ok_or("corrupt metadata")?;
    let bytes = r.led.get(&s.key).data.clone();
    if !meta.allow {
        let lam = r.led.get(&s.key).lamports;
        let rec = Record::dec(&r.led.get(&record(&s.key)).data).ok_or("corrupt record")?;
        if lam < rec.lamports {
            return Err("the account holds less than its recorded balance".into());
        }
        r.try_("commit the last state", vec![commit(w.v1, s.key, s.owner, meta.last, rec.lamports, true, &bytes)])?;
        r.try_("finalize", vec![finalize(w.v1, s.key)])?;
    }
    let k = s.key;
    r.fund(&k, rent(bytes.len()))?;
    let lam = r.led.get(&s.key).lamports;
    r.try_("undelegate", vec![undelegate(w.v1, s.key, s.owner, meta.rent_payer)])?;
    let a = r.led.get(&s.key);
    if a.owner != s.owner || a.data != bytes || a.lamports != lam {
        return Err("undelegation did not return the account as it was".into());
    }
    for k in [record(&s.key), metadata(&s.key), cstate(&s.key), crecord(&s.key)] {
        if !r.led.get(&k).is_uninit() {
            return Err(format!("{} still exists after recovery", short(&k)));
        }
    }
    let again = if s.owner == SYSTEM {
        let user = Pubkey::try_from(&s.seeds[1][..]).unwrap();
        delegate_escrow(w.payer, user, s.seeds[2][0], &DelegateArgs { freq: 1, seeds: vec![], validator: None })
    } else {
        crate::owner::delegate_ix(s.owner, w.payer, s.key, &s.seeds, &args(s, None))
    };
    r.try_("delegate again", vec![again])?;
    if Record::dec(&r.led.get(&record(&s.key)).data).is_none() {
        return Err("delegating again leaves no record".into());
    }
    Ok(())
}

fn recovery_at(l: &Ledger, m: &Model, loc: &mut Local) {
    let subs: Vec<Sub> = m.subs.iter().map(|(k, s)| Sub { key: *k, owner: s.owner, seeds: s.seeds.clone() }).collect();
    for s in subs {
        loc.evals.hit(&["C24"], "recovery");
        let mut r = Rec { led: l.clone(), steps: vec![], loc, clock: 1000 };
        if let Err(e) = recover_inner(&mut r, &s) {
            let steps = std::mem::take(&mut r.steps);
            let n = short(&s.key);
            let sig = format!("{}: {e}", loc.driver);
            loc.fail(Viol::new(&["C24"], format!("{n} cannot be recovered: {e}")), l, steps, Some(sig));
        }
    }
}

pub fn recovery(run: &mut Run) {
    let w = world();
    let at: AtState = &recovery_at;
    let mut base = Alphabet::new();
    base.subs = vec![w.a.clone()];
    base.committers = vec![w.v1, w.v2];
    base.finalizers = vec![w.v1, w.v2];
    base.undelegators = vec![w.v1, w.v2];
    base.slots = vec![0, 1, u64::MAX];
    base.lams = vec![0, 1000];
    base.datas = vec![vec![1; 8], vec![0; 11]];
    base.delegators = vec![w.payer];
    let mut s = Spec::new("recovery: life cycle", "from every reachable state", vec![owned(&w.a)], base.clone());
    s.at_state = Some(at);
    go(run, &s);
    let mut al = base.clone();
    al.slots = run.pick(vec![1], vec![1, 2]);
    al.lams = vec![0];
    al.datas = vec![vec![1; 8], vec![]];
    al.vault_admin = vec![(w.admin, w.v1), (w.admin, w.v2)];
    al.lists = vec![(w.auth_p, w.p, w.v1), (w.auth_p, w.p, w.v2)];
    let mut s = Spec::new("recovery: administration", "vaults and whitelists changing at any moment", vec![owned(&w.a)], al);
    s.at_state = Some(at);
    go(run, &s);
    let mut al = base.clone();
    al.slots = vec![1];
    al.committers = vec![w.v1];
    al.finalizers = vec![w.v1];
    al.undelegators = vec![w.v1];
    al.datas = vec![vec![1; 8]];
    for k in [w.a.key, record(&w.a.key), metadata(&w.a.key), cstate(&w.a.key), crecord(&w.a.key), ubuf(&w.a.key)] {
        al.donations.push((k, 21 * SOL));
    }
    let mut s = Spec::new("recovery: donations", "donations to any of its addresses at any moment", vec![owned(&w.a)], al);
    s.at_state = Some(at);
    s.depth = run.pick(9, 14);
    s.cap = run.pick(10_000, 150_000);
    go(run, &s);
    // commits below the rent minimum, down to one lamport
    let mut al = base.clone();
    al.slots = vec![1];
    al.lams = vec![];
    al.abs_lams = vec![1, rent(8) - 1, rent(8), 50 * SOL];
    al.datas = vec![vec![1; 8], vec![]];
    let mut s = Spec::new("recovery: poor balances", "commits that leave less than the rent minimum", vec![owned(&w.a)], al.clone());
    s.at_state = Some(at);
    go(run, &s);
    // escrows
    let e = Sub::escrow(w.u1, 0);
    let mut al = base.clone();
    al.subs = vec![e.clone()];
    al.datas = vec![vec![]];
    al.lams = vec![0, SOL];
    al.slots = vec![1, 2];
    al.topups = vec![(w.payer, w.u1, SOL, 0)];
    al.escrow_delegs = vec![(w.payer, w.u1, 0)];
    let mut l = ready();
    l.set(e.key, Acct::wallet(2 * SOL));
    let escrows = al.clone();
    let mut s = Spec::new("recovery: funded escrow", "escrow life cycle with top-ups", vec![l], al.clone());
    s.at_state = Some(at);
    s.depth = run.pick(10, 16);
    s.cap = run.pick(10_000, 150_000);
    go(run, &s);
    // states of very different sizes
    let mut al = base.clone();
    al.slots = vec![1];
    al.committers = vec![w.v1];
    al.finalizers = vec![w.v1];
    al.undelegators = vec![w.v1];
    al.lams = vec![0];
    al.datas = vec![vec![], vec![1; 8], vec![2; 1300], vec![3; 5000], vec![4; 10240]];
    al.abs_lams = vec![rent(10240), rent(10240) + SOL];
    let mut s = Spec::new("recovery: sizes", "states growing and shrinking between 0 and 10240 bytes", vec![owned(&w.a)], al.clone());
    s.at_state = Some(at);
    s.cap = run.pick(3_000, 60_000);
    go(run, &s);
    // several accounts at once
    let mut al = base.clone();
    al.subs = vec![w.a.clone(), w.b.clone()];
    al.slots = vec![1];
    al.lams = vec![0];
    al.committers = vec![w.v1];
    al.datas = vec![vec![1; 8]];
    let l = with_owned(owned(&w.a), &w.b, rent(4), &[2; 4]);
    let mut s = Spec::new("recovery: two accounts", "two delegations of different programs", vec![l], al);
    s.at_state = Some(at);
    s.cap = run.pick(3_000, 100_000);
    go(run, &s);
    // recorded findings
    let mut al = base;
    al.slots = vec![1];
    al.lams = vec![];
    al.abs_lams = vec![0, rent(8)];
    al.datas = vec![vec![1; 8], vec![]];
    let mut s = Spec::new("recovery: zero balances", "commits of a zero balance, each instruction in its own transaction", vec![owned(&w.a)], al);
    s.at_state = Some(at);
    s.only_at_state = true;
    go(run, &s);
    let mut al = escrows;
    al.unfunded = true;
    let mut s = Spec::new("recovery: unfunded escrow", "escrow delegated before it was ever funded", vec![ready()], al);
    s.at_state = Some(at);
    s.only_at_state = true;
    s.depth = run.pick(5, 8);
    go(run, &s);
}

// ------------------------------------------------------------------ C28

fn bundle_check(l: &Ledger, al: &Alphabet, m: &Model, len: usize, loc: &mut Local) {
    let t: &[&'static str] = &["C28"];
    fn rec(genesis: &Ledger, led: &Ledger, ixs: &mut Vec<Ix>, names: &mut Vec<String>, acts: &[Step], len: usize, loc: &mut Local, t: &'static [&'static str]) {
        for a in acts {
            let o = exec(led, &a.tx, a.slot);
            loc.account(led, &o);
            ixs.extend(a.tx.ixs.iter().cloned());
            names.push(describe(&a.tx));
            let n = a.tx.ixs.len();
            if ixs.len() > n || !o.ok {
                let b = Tx { label: names.join(" + "), ixs: ixs.clone() };
                let ob = exec(genesis, &b, a.slot);
                loc.account(genesis, &ob);
                loc.evals.hit(t, "bundle");
                for v in spec::judge_out(&ob, a.slot, &mut loc.evals) {
                    loc.fail(v, genesis, vec![Step { tx: b.clone(), slot: a.slot }], None);
                }
                let st = || vec![Step { tx: b.clone(), slot: a.slot }];
                if o.ok && !ob.ok {
                    loc.fail(Viol::new(t, format!("the bundle [{}] fails although its instructions succeed one by one: {}", b.label, ob.err)), genesis, st(), None);
                }
                if o.ok && ob.ok && o.ledger != ob.ledger {
                    loc.fail(Viol::new(t, format!("the bundle [{}] has another effect than its instructions one by one", b.label)), genesis, st(), None);
                }
                if !ob.ok && ob.ledger != *genesis {
                    loc.fail(Viol::new(t, format!("the failed bundle [{}] changed the ledger", b.label)), genesis, st(), None);
                }
                if loc.transitions % 31 == 0 {
                    loc.offer(genesis, st());
                }
            }
            if o.ok && len > 1 {
                rec(genesis, &o.ledger, ixs, names, acts, len - 1, loc, t);
            }
            for _ in 0..n {
                ixs.pop();
            }
            names.pop();
        }
    }
    let acts = al.actions(l, m);
    rec(l, l, &mut vec![], &mut vec![], &acts, len, loc, &["C28"]);
    let _ = t;
}

/// A sequence one by one and as one transaction.
fn sequence_check(loc: &mut Local, led: &Ledger, label: &str, ixs: &[Ix], slot: u64) {
    let t: &[&'static str] = &["C28"];
    let mut one = led.clone();
    let mut ok = true;
    for ix in ixs {
        let o = exec(&one, &Tx { label: label.into(), ixs: vec![ix.clone()] }, slot);
        loc.account(&one, &o);
        ok = o.ok;
        one = o.ledger;
        if !ok {
            break;
        }
    }
    let tx = Tx { label: label.into(), ixs: ixs.to_vec() };
    let b = exec(led, &tx, slot);
    loc.account(led, &b);
    loc.evals.hit(t, "bundle");
    let st = || vec![Step { tx: tx.clone(), slot }];
    for v in spec::judge_out(&b, slot, &mut loc.evals) {
        loc.fail(v, led, st(), None);
    }
    if ok && !b.ok {
        loc.fail(Viol::new(t, format!("the bundle [{label}] fails although its instructions succeed one by one: {}", b.err)), led, st(), None);
    }
    if ok && b.ok && one != b.ledger {
        loc.fail(Viol::new(t, format!("the bundle [{label}] has another effect than its instructions one by one")), led, st(), None);
    }
    if !b.ok && b.ledger != *led {
        loc.fail(Viol::new(t, format!("the failed bundle [{label}] changed the ledger")), led, st(), None);
    }
}

/// Bundles of the valid instances, and life cycles bundled at every number.
fn companies(run: &mut Run) {
    let ss = &crate::scen::rich().scens;
    let th = run.thorough;
    cases(run, "instances in company", "each valid instance followed and preceded by each other one (thorough: and a third), as a bundle and one by one", 409, ss, &|s, l| {
        for t in ss {
            for led in [&s.led, &t.led] {
                for (a, b) in [(s, t), (t, s)] {
                    let label = format!("{} + {}", a.name, b.name);
                    sequence_check(l, led, &label, &[a.ix.clone(), b.ix.clone()], s.slot);
                    if th {
                        for c in ss {
                            sequence_check(l, led, &format!("{label} + {}", c.name), &[a.ix.clone(), b.ix.clone(), c.ix.clone()], s.slot);
                        }
                    }
                }
            }
        }
    });
    let es = crate::drivers::edges();
    let items: Vec<(&crate::scen::Scen, u64)> = ss.iter().flat_map(|s| es.iter().map(move |e| (s, *e))).collect();
    cases(run, "bundles of all numbers", "commits, finalizations and undelegations in one transaction, top-ups and claims, at every edge value of each number", 409, &items, &|(s, e), l| {
        let Some((op, args)) = parse(&s.ix.data) else { return };
        let e = *e;
        let mut led = s.led.clone();
        for m in &s.ix.metas {
            if m.signer && led.get(&m.key).owner == SYSTEM && led.get(&m.key).data.is_empty() {
                led.edit(&m.key, |a| a.lamports = 1 << 59);
            }
        }
        let key = |i: usize| s.ix.metas[i].key;
        let with = |f: &Args| {
            let mut ix = s.ix.clone();
            ix.data = data(op, f);
            ix
        };
        let mut seqs: Vec<Vec<Ix>> = vec![];
        match args {
            Args::Commit { slot, lamports, data, .. } => {
                for (sl, la) in [(e, lamports), (slot, e), (e, e)] {
                    for allow in [false, true] {
                        let c = with(&Args::Commit { slot: sl, lamports: la, allow, data: data.clone() });
                        let f = finalize(key(0), key(1));
                        seqs.push(vec![c.clone(), f.clone()]);
                        seqs.push(vec![c.clone(), f.clone(), c.clone(), f.clone()]);
                        let owner = Record::dec(&led.get(&record(&key(1))).data).map(|r| r.owner);
                        let payer = Metadata::dec(&led.get(&metadata(&key(1))).data).map(|m| m.rent_payer);
                        if let (Some(o), Some(p), true) = (owner, payer, allow) {
                            seqs.push(vec![c, f, undelegate(key(0), key(1), o, p)]);
                        }
                    }
                }
            }
            Args::CommitBuffer { slot, lamports, .. } => {
                for (sl, la) in [(e, lamports), (slot, e), (e, e)] {
                    for allow in [false, true] {
                        seqs.push(vec![with(&Args::CommitBuffer { slot: sl, lamports: la, allow }), finalize(key(0), key(1))]);
                    }
                }
            }
            Args::TopUp { amount, index } => {
                let t = |amount: u64, index: u8| {
                    let mut ix = with(&Args::TopUp { amount, index });
                    ix.metas[2].key = escrow(&key(1), index);
                    ix
                };
                seqs.push(vec![t(e, index), t(amount, index)]);
                seqs.push(vec![t(e, e as u8), t(e, index)]);
                if s.ix.metas[0].key == key(1) {
                    seqs.push(vec![t(e, e as u8), close_escrow(key(1), e as u8)]);
                    seqs.push(vec![t(e, e as u8), close_escrow(key(1), e as u8), t(e, e as u8)]);
                }
            }
            Args::Claim(_) => {
                let v = key(2);
                led.edit(&v, |a| a.lamports = 1 << 58);
                seqs.push(vec![with(&Args::Claim(Some(e))), with(&Args::Claim(Some(e)))]);
                seqs.push(vec![with(&Args::Claim(Some(e))), with(&Args::Claim(None))]);
            }
            _ => {}
        }
        for q in seqs {
            sequence_check(l, &led, &format!("{} and on, with {e}", s.name), &q, s.slot);
        }
    });
}

pub fn bundles(run: &mut Run) {
    companies(run);
    let w = world();
    let mut al = Alphabet::new();
    al.subs = vec![w.a.clone()];
    al.committers = vec![w.v1];
    al.finalizers = vec![w.v1];
    al.undelegators = vec![w.v1];
    al.slots = vec![1, 2];
    al.lams = vec![0];
    al.datas = vec![vec![1; 8]];
    al.delegators = vec![w.payer];
    al.lists = vec![(w.auth_p, w.p, w.v1)];
    al.vault_admin = vec![(w.admin, w.v1)];
    al.claims = vec![(w.v1, None)];
    al.pclaims = vec![w.admin];
    let al2 = al.clone();
    let at2 = |l: &Ledger, m: &Model, loc: &mut Local| bundle_check(l, &al2, m, 2, loc);
    let at3 = |l: &Ledger, m: &Model, loc: &mut Local| bundle_check(l, &al2, m, 3, loc);
    let mut s = Spec::new("bundles in a life cycle", "every bundle of two (thorough: three) instructions in every reachable state, against one by one", vec![owned(&w.a)], al.clone());
    s.vals = vec![w.v1];
    s.at_state = Some(if run.thorough { &at3 } else { &at2 });
    s.depth = run.pick(14, 30);
    s.cap = run.pick(1_500, 4_000);
    go(run, &s);
    // every longer bundle from one state of each stage of the life cycle
    let mut al3 = al.clone();
    al3.slots = vec![1];
    al3.allows = vec![true];
    let al4 = al3.clone();
    let len = run.pick(5, 6);
    let at4 = |l: &Ledger, m: &Model, loc: &mut Local| bundle_check(l, &al4, m, len, loc);
    let d = Del::of(&w.a, &[1; 8]).lam(rent(8) + 500);
    let out = with_delegated(ready(), &w.a.key, &d);
    let listed = with_config(out.clone(), &w.p, &[w.v1]);
    let stages = vec![
        owned(&w.a),
        out.clone(),
        with_pending(out.clone(), &w.a.key, &w.v1, 1, rent(8), &[2; 5]),
        with_pending(with_delegated(ready(), &w.a.key, &Del::of(&w.a, &[1; 8]).lam(rent(8) + 500).allow()), &w.a.key, &w.v1, 1, rent(8) + 900, &[1; 8]),
        with_delegated(ready(), &w.a.key, &Del::of(&w.a, &[1; 8]).lam(rent(8) + 500).last(1).allow()),
        with_delegated(ready(), &w.a.key, &Del::of(&w.a, &[]).lam(SOL).last(1).allow()),
        listed,
        donate(&donate(&out, &cstate(&w.a.key), SOL), &ubuf(&w.a.key), 5),
    ];
    let mut s = Spec::new("longer bundles", "every bundle of up to five (thorough: six) instructions from every stage of a delegation", stages, al3);
    s.vals = vec![w.v1];
    s.at_state = Some(&at4);
    s.depth = 0;
    go(run, &s);
    // two accounts and an escrow
    let e = Sub::escrow(w.u1, 0);
    let mut al = Alphabet::new();
    al.subs = vec![w.a.clone(), e.clone()];
    al.committers = vec![w.v1];
    al.finalizers = vec![w.v1];
    al.undelegators = vec![w.v1];
    al.lams = vec![SOL];
    al.datas = vec![vec![]];
    al.delegators = vec![w.payer];
    al.topups = vec![(w.payer, w.u1, SOL, 0)];
    al.closes = vec![(w.u1, 0)];
    al.escrow_delegs = vec![(w.payer, w.u1, 0)];
    let al2 = al.clone();
    let at2 = |l: &Ledger, m: &Model, loc: &mut Local| bundle_check(l, &al2, m, 2, loc);
    let at3 = |l: &Ledger, m: &Model, loc: &mut Local| bundle_check(l, &al2, m, 3, loc);
    let mut l = owned(&w.a);
    l.set(e.key, Acct::wallet(2 * SOL));
    let mut s = Spec::new("bundles over two accounts", "a program account and an escrow", vec![l], al);
    s.vals = vec![w.v1];
    s.at_state = Some(if run.thorough { &at3 } else { &at2 });
    s.depth = run.pick(8, 12);
    s.cap = run.pick(800, 3_000);
    go(run, &s);
    let _ = sub;
}
