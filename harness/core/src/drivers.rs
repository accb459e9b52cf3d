//! Enumerated one-step drivers: account substitution, missing signatures, malformed input and value
//! grids.  Every case runs the real program and is judged by `spec`.

use crate::explore::*;
use crate::owner;
use crate::scen::*;
use crate::svm::*;
use crate::wire::{self, *};
use crate::world::*;
use solana_program::pubkey::Pubkey;

fn go(l: &mut Local, led: &Ledger, label: String, ix: Ix, slot: u64) -> Out {
    let tx = Tx { label, ixs: vec![ix] };
    let out = l.run(led, &tx, slot);
    l.offer(led, vec![Step { tx, slot }]);
    out
}

fn pick<'a>(ops: &[Op]) -> Vec<&'a Scen> {
    rich().scens.iter().filter(|s| ops.is_empty() || ops.contains(&s.op)).collect()
}

/// The instances in which an account is created, with lamports already at every address to be created.
fn prefunded(ops: &[Op]) -> Vec<Scen> {
    let mut out = vec![];
    for s in pick(ops) {
        let new: Vec<Pubkey> = s.ix.metas.iter().filter(|m| m.writable && s.led.get(&m.key).is_uninit() && s.led.get(&m.key).lamports == 0).map(|m| m.key).collect();
        if new.is_empty() {
            continue;
        }
        for lam in [1, rent(0), 2 * SOL] {
            let mut t = s.clone();
            for k in &new {
                t.led.set(*k, Acct::wallet(lam));
            }
            t.name = format!("{} (each new account already holds {lam})", s.name);
            out.push(t);
        }
    }
    out
}

/// Every scenario as it is: must succeed (a vacuity anchor for the attacks below).
pub fn plain(run: &mut Run, ops: &[Op]) {
    let ss = pick(ops);
    cases(run, "valid instances", "each operation's valid instances", 1, &ss, &|s, l| {
        let o = go(l, &s.led, s.name.clone(), s.ix.clone(), s.slot);
        if !o.ok {
            // judged above; on the unchanged tree this never happens
            eprintln!("NOTE: valid instance \"{}\" does not succeed: {}", s.name, o.err);
        }
    });
}

/// Every position replaced by every account of the pool; the mutated instruction also with the
/// position's own flags and with all flags raised.
pub fn subst1(run: &mut Run, ops: &[Op]) {
    let pre = prefunded(ops);
    let mut ss = pick(ops);
    ss.extend(pre.iter().filter(|s| s.name.ends_with("1000000000)") || s.name.ends_with("2000000000)")));
    let mut items = vec![];
    for s in &ss {
        for i in 0..s.ix.metas.len() {
            items.push((*s, i));
        }
    }
    let note = format!("{} instances (as they are, and with every new account already funded), every position x {} accounts", ss.len(), rich().pool.len());
    cases(run, "substitute 1 account", &note, 97, &items, &|(s, i), l| {
        for k in &rich().pool {
            if *k == s.ix.metas[*i].key {
                continue;
            }
            let mut ix = s.ix.clone();
            ix.metas[*i].key = *k;
            go(l, &s.led, format!("{} with {}={}", s.name, s.op.roles()[*i], crate::spec::short(k)), ix, s.slot);
        }
    });
}

/// Every pair of positions replaced by every pair of accounts of `pool`.
pub fn subst2(run: &mut Run, ops: &[Op], pool: &[Pubkey]) {
    let ss = pick(ops);
    let mut items = vec![];
    for s in &ss {
        for i in 0..s.ix.metas.len() {
            for j in i + 1..s.ix.metas.len() {
                for k in pool {
                    items.push((*s, i, j, *k));
                }
            }
        }
    }
    let note = format!("{} instances, every pair of positions x {}^2 accounts", ss.len(), pool.len());
    cases(run, "substitute 2 accounts", &note, 0, &items, &|(s, i, j, k), l| {
        for k2 in pool {
            let mut ix = s.ix.clone();
            ix.metas[*i].key = *k;
            ix.metas[*j].key = *k2;
            let tx = Tx { label: String::new(), ixs: vec![ix] };
            l.run(&s.led, &tx, s.slot);
        }
    });
}

/// Every mixture of two valid instances of the same operation: each position from one or the other.
pub fn crossover(run: &mut Run, ops: &[Op]) {
    let ss = pick(ops);
    let mut items = vec![];
    for a in &ss {
        for b in &ss {
            if a.op == b.op && a.name != b.name && a.ix.metas.len() == b.ix.metas.len() {
                items.push((*a, *b));
            }
        }
    }
    cases(run, "mix two instances", "every subset of positions taken from another valid instance", 211, &items, &|(a, b), l| {
        let diff: Vec<usize> = (0..a.ix.metas.len()).filter(|i| a.ix.metas[*i].key != b.ix.metas[*i].key).collect();
        for mask in 1u32..(1 << diff.len()) {
            let mut ix = a.ix.clone();
            for (bit, i) in diff.iter().enumerate() {
                if mask >> bit & 1 == 1 {
                    ix.metas[*i].key = b.ix.metas[*i].key;
                }
            }
            go(l, &a.led, format!("{} mixed with {} ({mask:b})", a.name, b.name), ix, a.slot);
        }
    });
}

/// Every subset of the signatures withheld, and every single writable flag withheld.
pub fn flags(run: &mut Run, ops: &[Op]) {
    let pre = prefunded(ops);
    let mut ss = pick(ops);
    ss.extend(pre.iter());
    cases(run, "withhold signatures", "every subset of signatures; every single writable flag; two, or all, more writable and every wallet also signing", 3, &ss, &|s, l| {
        go(l, &s.led, s.name.clone(), s.ix.clone(), s.slot);
        let sig: Vec<usize> = (0..s.ix.metas.len()).filter(|i| s.ix.metas[*i].signer).collect();
        for mask in 1u32..(1 << sig.len()) {
            let mut ix = s.ix.clone();
            for (b, i) in sig.iter().enumerate() {
                if mask >> b & 1 == 1 {
                    ix.metas[*i].signer = false;
                }
            }
            go(l, &s.led, format!("{} unsigned {mask:b}", s.name), ix, s.slot);
        }
        for i in 0..s.ix.metas.len() {
            let mut ix = s.ix.clone();
            ix.metas[i].writable = !ix.metas[i].writable;
            go(l, &s.led, format!("{} with {} writable={}", s.name, s.op.roles()[i], ix.metas[i].writable), ix, s.slot);
        }
        // more privileges than needed, as other instructions of the transaction may bring them: two writable, one
        // signing too, all writable, all wallets signing
        let wallet = |k: &Pubkey| {
            let a = s.led.get(k);
            a.owner == SYSTEM && a.data.is_empty() && a.lamports > 0 && on_curve(k)
        };
        let mut wide = s.ix.clone();
        for i in 0..wide.metas.len() {
            let m = &mut wide.metas[i];
            m.writable |= !s.led.get(&m.key).executable;
            for j in 0..i {
                let mut ix = s.ix.clone();
                for k in [i, j] {
                    ix.metas[k].writable |= !s.led.get(&ix.metas[k].key).executable;
                }
                go(l, &s.led, format!("{} with two more writable", s.name), ix, s.slot);
            }
        }
        go(l, &s.led, format!("{} with all writable", s.name), wide.clone(), s.slot);
        for i in 0..wide.metas.len() {
            if wallet(&wide.metas[i].key) {
                let mut ix = s.ix.clone();
                ix.metas[i].signer = true;
                go(l, &s.led, format!("{} with {} signing", s.name, s.op.roles()[i]), ix, s.slot);
                wide.metas[i].signer = true;
                go(l, &s.led, format!("{} with all writable, {} and others signing", s.name, s.op.roles()[i]), wide.clone(), s.slot);
            }
        }
    });
}

/// Withheld signatures combined with every single substitution.
pub fn flags_subst(run: &mut Run, ops: &[Op]) {
    let ss = pick(ops);
    let mut items = vec![];
    for s in &ss {
        for i in 0..s.ix.metas.len() {
            for j in 0..s.ix.metas.len() {
                if s.ix.metas[j].signer {
                    items.push((*s, i, j));
                }
            }
        }
    }
    cases(run, "withhold a signature and substitute", "every signature x every position x small pool", 0, &items, &|(s, i, j), l| {
        for k in &rich().small_pool {
            let mut ix = s.ix.clone();
            ix.metas[*j].signer = false;
            ix.metas[*i].key = *k;
            l.run(&s.led, &Tx { label: String::new(), ixs: vec![ix] }, s.slot);
        }
    });
}

/// Operation on accounts in a wrong life-cycle state: every instance against every subject's family.
pub fn wrong_state(run: &mut Run, ops: &[Op]) {
    let r = rich();
    let w = world();
    let mut items: Vec<(String, Ix)> = vec![];
    for s in &r.subs {
        let n = crate::spec::short(&s.key);
        for v in [w.v1, w.v2, w.v3, w.x] {
            let vn = crate::spec::short(&v);
            for slot in [0, 5, 9] {
                for allow in [false, true] {
                    items.push((format!("commit {n} by {vn}"), commit(v, s.key, s.owner, slot, rent(8) + 5000, allow, &[1; 8])));
                    items.push((
                        format!("commit {n} by {vn} from buffer"),
                        commit_buffer(v, s.key, s.owner, r.statebufs[0], slot, rent(8) + 5000, allow),
                    ));
                }
            }
            items.push((format!("finalize {n} by {vn}"), finalize(v, s.key)));
            for rp in [w.payer, w.u1, w.u2, w.x, v] {
                for o in [s.owner, w.p, w.q, SYSTEM] {
                    items.push((format!("undelegate {n} by {vn}"), undelegate(v, s.key, o, rp)));
                }
            }
        }
        for o in [s.owner, w.p, w.q, SYSTEM, w.x] {
            for seeds in [s.seeds.clone(), vec![], vec![b"x".to_vec()]] {
                let a = DelegateArgs { freq: 1, seeds, validator: Some(w.v1) };
                items.push((format!("delegate {n} for {}", crate::spec::short(&o)), delegate(w.payer, s.key, o, &a)));
            }
        }
    }
    for u in [w.u1, w.u2, w.x] {
        for i in 0..12u8 {
            let a = DelegateArgs { freq: 1, seeds: vec![], validator: None };
            items.push(("delegate escrow".into(), delegate_escrow(w.payer, u, i, &a)));
            items.push(("close escrow".into(), close_escrow(u, i)));
            items.push(("top up".into(), top_up(w.payer, u, 10, i)));
        }
    }
    for v in [w.v1, w.v2, w.v3, w.x] {
        for a in [w.admin, w.x, v, w.auth_p] {
            items.push(("init vault".into(), init_validator(a, a, v)));
            items.push(("close vault".into(), close_validator(a, a, v)));
            items.push(("init vault, other payer".into(), init_validator(w.payer, a, v)));
            items.push(("close vault, other payer".into(), close_validator(w.payer, a, v)));
        }
        for amt in [None, Some(0), Some(1), Some(600_000), Some(u64::MAX)] {
            items.push(("claim".into(), validator_claim(v, amt)));
        }
    }
    for a in [w.admin, w.x, w.v1, w.auth_p] {
        items.push(("protocol claim".into(), protocol_claim(a)));
    }
    items.push(("init protocol vault".into(), init_protocol(w.x)));
    for a in [w.admin, w.auth_p, w.auth_q, w.x, w.v1] {
        for p in [w.p, w.q, w.immut, w.h, SYSTEM, w.x, DLP] {
            for v in [w.v1, w.v3, w.x] {
                for ins in [true, false] {
                    items.push(("whitelist".into(), whitelist(a, v, p, ins)));
                }
            }
        }
    }
    items.retain(|(_, ix)| ops.is_empty() || ops.contains(&parse(&ix.data).unwrap().0));
    for led in [&r.led, &r.bare] {
        cases(run, "every operation on every subject", "canonical instructions by every actor against every subject", 41, &items, &|(n, ix), l| {
            go(l, led, n.clone(), ix.clone(), 77);
        });
    }
}

/// C25: malformed instruction data and account lists.
pub fn malformed(run: &mut Run) {
    let ss = pick(&[]);
    let thorough = run.thorough;
    cases(run, "malformed data", "truncations, extensions, every first byte, invalid encodings, missing accounts", 61, &ss, &|s, l| {
        let base = &s.ix;
        let w = |data: Vec<u8>, metas: Vec<Meta>| Ix { program: DLP, metas, data };
        for n in 0..base.data.len() {
            go(l, &s.led, format!("{}: data cut to {n}", s.name), w(base.data[..n].to_vec(), base.metas.clone()), s.slot);
        }
        for extra in 1..10usize {
            for fill in [0u8, 1, 255] {
                let mut d = base.data.clone();
                d.extend(vec![fill; extra]);
                go(l, &s.led, format!("{}: {extra} surplus bytes {fill}", s.name), w(d, base.metas.clone()), s.slot);
            }
        }
        for t in 0..=255u8 {
            let mut d = base.data.clone();
            d[0] = t;
            go(l, &s.led, format!("{}: operation number {t}", s.name), w(d, base.metas.clone()), s.slot);
        }
        for n in 0..base.metas.len() {
            go(l, &s.led, format!("{}: {n} accounts", s.name), w(base.data.clone(), base.metas[..n].to_vec()), s.slot);
        }
        // every argument byte with every value: includes every invalid bool, option and length prefix
        for i in 8..base.data.len() {
            for v in 0..=255u8 {
                if v == base.data[i] || (!thorough && i > 60 && !(v < 3 || v == 255)) {
                    continue;
                }
                let mut d = base.data.clone();
                d[i] = v;
                l.run(&s.led, &Tx { label: String::new(), ixs: vec![w(d, base.metas.clone())] }, s.slot);
            }
        }
        // huge length prefixes
        for i in 8..base.data.len().saturating_sub(3) {
            for v in [u32::MAX, 0x8000_0000, 0x7fff_ffff, 0x0100_0000, 1024] {
                let mut d = base.data.clone();
                d[i..i + 4].copy_from_slice(&v.to_le_bytes());
                l.run(&s.led, &Tx { label: String::new(), ixs: vec![w(d, base.metas.clone())] }, s.slot);
            }
        }
        if thorough {
            // truncation combined with every operation number, and with fewer accounts
            for t in 0..=20u8 {
                for n in 8..base.data.len() {
                    let mut d = base.data[..n].to_vec();
                    d[0] = t;
                    l.run(&s.led, &Tx { label: String::new(), ixs: vec![w(d, base.metas.clone())] }, s.slot);
                }
                for n in 0..base.metas.len() {
                    let mut d = base.data.clone();
                    d[0] = t;
                    l.run(&s.led, &Tx { label: String::new(), ixs: vec![w(d, base.metas[..n].to_vec())] }, s.slot);
                }
            }
        }
    });
    // under a different program id
    let other = rich().scens.iter().filter(|_| true).collect::<Vec<_>>();
    let alias = alias_program();
    cases(run, "different program id", "every valid instance sent to another deployment of the code", 0, &other, &|s, l| {
        let mut led = s.led.clone();
        led.set(alias, Acct { lamports: SOL, owner: LOADER, executable: true, data: vec![] });
        let mut ix = s.ix.clone();
        ix.program = alias;
        let tx = Tx { label: format!("{} under another program id", s.name), ixs: vec![ix] };
        let out = exec(&led, &tx, s.slot);
        l.account(&led, &out);
        l.evals.hit(&["C25"], "rejected");
        if out.ok {
            l.fail(
                crate::spec::Viol::new(&["C25"], format!("{} succeeded under a different program id", s.name)),
                &led,
                vec![Step { tx, slot: s.slot }],
                None,
            );
        }
    });
}
pub fn alias_program() -> Pubkey {
    use solana_sdk::signer::Signer;
    keypair(90).pubkey()
}

// ---------------------------------------------------------------- value grids

const SLOTS: &[u64] = &[0, 1, 2, 3, 255, 256, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX];
fn datas(thorough: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let lens: &[usize] = if thorough {
        &[0, 1, 2, 7, 8, 9, 31, 32, 33, 255, 256, 257, 1024, 4096, 10239, 10240]
    } else {
        &[0, 1, 8, 32, 255, 1024, 10240]
    };
    for n in lens {
        v.push(vec![0; *n]);
        if *n > 0 {
            v.push((0..*n).map(|i| (i * 7 + 3) as u8).collect());
            let mut e = vec![0; *n];
            e[*n - 1] = 0xff;
            v.push(e);
        }
    }
    v.extend(lookalikes());
    v
}

/// Contents that look like something the protocol stores or sends.
pub fn lookalikes() -> Vec<Vec<u8>> {
    let w = world();
    let seeds = vec![b"a".to_vec(), vec![1; 32]];
    let mut v = vec![
        Record { authority: w.v1, owner: w.p, slot: 3, lamports: rent(8), freq: 7 }.enc(),
        CommitRec { identity: w.v1, account: w.a.key, slot: 4, lamports: rent(8) }.enc(),
        Metadata { last: 9, allow: true, seeds: seeds.clone(), rent_payer: w.x }.enc(),
        Config([w.v1, w.v2].into_iter().collect()).enc(),
        [wire::CALLBACK.to_vec(), enc_seeds(&seeds)].concat(),
        wire::CALLBACK.to_vec(),
        progdata_bytes(3, Some(w.v1)),
    ];
    for t in [100u64, 101, 102, 103] {
        v.push(t.to_le_bytes().to_vec());
    }
    v
}

/// Every string of up to `n` letters.
pub fn strings(n: usize, alpha: &[u8]) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut layer: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..n {
        layer = layer.iter().flat_map(|s| alpha.iter().map(move |a| [&s[..], &[*a]].concat())).collect();
        all.extend(layer.iter().cloned());
    }
    all
}
/// Every way of cutting `b` into at most `n` consecutive pieces of at most 32 bytes (pieces may be empty).
pub fn cuts(b: &[u8], n: usize) -> Vec<Vec<Vec<u8>>> {
    if n == 0 {
        return if b.is_empty() { vec![vec![]] } else { vec![] };
    }
    let mut out = vec![];
    if b.is_empty() {
        out.push(vec![]);
    }
    for i in 0..=b.len().min(32) {
        for mut rest in cuts(&b[i..], n - 1) {
            if rest.is_empty() && i < b.len() {
                continue;
            }
            rest.insert(0, b[..i].to_vec());
            out.push(rest);
        }
    }
    out
}

/// Every small content against every small content: what the account, its buffer and a commit hold.
pub fn grid_contents(run: &mut Run, delegate_only: bool) {
    let w = world();
    let ss = strings(run.pick(3, 4), &[0, 1, 255]);
    let note = format!("account contents x other contents, {}^2 strings over three byte values", ss.len());
    if delegate_only {
        cases(run, "delegate: small contents", &note, 3, &ss, &|own, l| {
            for (s, lam) in [(&w.a, rent(8)), (&w.b, 3 * SOL)] {
                for buf in &ss {
                    let mut led = ready();
                    led.set(s.key, Acct::new(lam, DLP, own.clone()));
                    led.set(buffer(&s.key, &s.owner), Acct::new(rent(buf.len()), s.owner, buf.clone()));
                    l.run(&led, &Tx { label: "delegate".into(), ixs: vec![delegate(w.payer, s.key, s.owner, &args(s, None))] }, 9);
                }
                let mut led = ready();
                led.set(s.key, Acct::new(lam, DLP, own.clone()));
                l.run(&led, &Tx { label: "delegate".into(), ixs: vec![delegate(w.payer, s.key, s.owner, &args(s, None))] }, 9);
                let led = with_owned(ready(), s, lam, own);
                go(l, &led, "delegate by its program".into(), owner::delegate_ix(s.owner, w.payer, s.key, &s.seeds, &args(s, None)), 9);
            }
        });
        return;
    }
    let note = format!("{note}; commit, finalize, commit again, finalize, undelegate");
    cases(run, "small contents through a delegation", &note, 3, &ss, &|old, l| {
        let s = &w.a;
        for new in &ss {
            for via_buffer in [false, true] {
                let mut led = with_delegated(ready(), &s.key, &Del::of(s, old).lam(rent(4)));
                led.set(w.x, Acct::new(rent(new.len()), w.v2, new.clone()));
                let cm = |slot, lam, allow, bytes: &[u8]| {
                    if via_buffer {
                        commit_buffer(w.v1, s.key, s.owner, w.x, slot, lam, allow)
                    } else {
                        commit(w.v1, s.key, s.owner, slot, lam, allow, bytes)
                    }
                };
                let steps = [
                    ("commit", cm(4, rent(4) + 3, false, new)),
                    ("finalize", finalize(w.v1, s.key)),
                    ("commit back", commit(w.v1, s.key, s.owner, 5, rent(4), false, old)),
                    ("finalize", finalize(w.v1, s.key)),
                    ("last commit", cm(5, rent(4), true, new)),
                    ("finalize", finalize(w.v1, s.key)),
                    ("undelegate", undelegate(w.v2, s.key, s.owner, w.payer)),
                ];
                for (n, ix) in steps {
                    let o = go(l, &led, n.into(), ix, 77);
                    if !o.ok {
                        break;
                    }
                    led = o.ledger;
                }
            }
        }
    });
}

/// Every operation that changes who may do what, signed by every account of the pool.
pub fn grid_authority(run: &mut Run) {
    let w = world();
    let r = rich();
    let xprog = r.small_pool[7];
    let mut signers = r.pool.clone();
    for k in [w.p, w.q, w.h, w.immut, xprog, SYSTEM, DLP, LOADER] {
        signers.push(k);
        signers.push(progdata(&k));
    }
    signers.sort();
    signers.dedup();
    let progs = [w.p, w.q, w.h, w.immut, xprog, SYSTEM, DLP, w.x, w.v1];
    let note = format!("{} signers x {} programs x 7 states of the program's data account", signers.len(), progs.len());
    cases(run, "authorities: every signer", &note, 0, &signers, &|k, l| {
        for p in &progs {
            for st in 0..7 {
                let mut led = r.led.clone();
                let pd = progdata(p);
                match st {
                    0 => {}
                    _ if *p == DLP => continue,
                    1 => led.set(pd, Acct::none()),
                    2 => led.set(pd, Acct::new(SOL, LOADER, progdata_bytes(3, None))),
                    3 => led.set(pd, Acct::new(SOL, LOADER, progdata_bytes(3, Some(w.x)))),
                    4 => led.set(pd, Acct::new(SOL, LOADER, progdata_bytes(3, Some(w.v1)))),
                    5 => led.set(pd, Acct::new(SOL, LOADER, progdata_former(3, *k))),
                    _ => led.set(pd, Acct::new(SOL, LOADER, vec![0; 45])),
                }
                for ident in [w.v3, *k] {
                    for ins in [true, false] {
                        let ix = whitelist(*k, ident, *p, ins);
                        l.run(&led, &Tx { label: "list".into(), ixs: vec![ix] }, 77);
                        if *p != w.p {
                            // with the signer's own program's data account
                            for other in [progdata(&xprog), progdata(&w.p), progdata(&DLP), progdata(k)] {
                                let mut ix = whitelist(*k, ident, *p, ins);
                                ix.metas[3].key = other;
                                l.run(&led, &Tx { label: "list".into(), ixs: vec![ix] }, 77);
                            }
                        }
                    }
                }
            }
        }
        for ix in [
            protocol_claim(*k),
            init_validator(w.payer, *k, w.v3),
            init_validator(w.payer, *k, *k),
            close_validator(w.payer, *k, w.v1),
            validator_claim(*k, None),
            close_escrow(*k, 0),
        ] {
            l.run(&r.led, &Tx { label: "administer".into(), ixs: vec![ix] }, 77);
        }
    });
}

/// The same seeds cut into pieces differently derive the same address: what is recorded, and accepted.
pub fn grid_cuts(run: &mut Run) {
    let w = world();
    let n = run.pick(3, 4);
    let e: Vec<u8> = [b"balance".as_ref(), w.u1.as_ref(), &[3]].concat();
    let ec = cuts(&e, n);
    cases(run, "delegate escrow: caller's seeds", "every way of cutting the escrow's seeds, and other lists", 19, &ec, &|seeds, l| {
        let mut led = ready();
        led.set(escrow(&w.u1, 3), Acct::wallet(2 * SOL));
        let mut rev = seeds.clone();
        rev.reverse();
        for s in [seeds.clone(), rev] {
            let a = DelegateArgs { freq: 1, seeds: s, validator: None };
            go(l, &led, "delegate escrow".into(), delegate_escrow(w.payer, w.u1, 3, &a), 9);
        }
        // directly, the escrow having been assigned: it cannot sign, and must not be accepted unsigned
        led.set(escrow(&w.u1, 3), Acct::new(2 * SOL, DLP, vec![]));
        let a = DelegateArgs { freq: 1, seeds: seeds.clone(), validator: None };
        let mut ix = delegate(w.payer, escrow(&w.u1, 3), SYSTEM, &a);
        l.run(&led, &Tx { label: "delegate".into(), ixs: vec![ix.clone()] }, 9);
        ix.metas[1].signer = false;
        l.run(&led, &Tx { label: "delegate unsigned".into(), ixs: vec![ix] }, 9);
    });
    let base: Vec<u8> = b"seedlist".to_vec();
    let pc = cuts(&base, run.pick(4, 6));
    cases(run, "delegate: same seeds cut differently", "every way of cutting one string into seeds; each against the others", 17, &pc, &|seeds, l| {
        let key = derive(&[&base], &w.p).unwrap();
        let s = Sub { key, owner: w.p, seeds: seeds.clone() };
        let led = with_owned(ready(), &s, rent(8), &[3; 8]);
        let o = go(l, &led, "delegate by its program".into(), owner::delegate_ix(w.p, w.payer, key, &[base.clone()], &args(&s, None)), 5);
        if o.ok {
            let mut led = o.ledger;
            for ix in [commit(w.v1, key, w.p, 1, rent(8), true, &[5; 8]), finalize(w.v1, key), undelegate(w.v1, key, w.p, w.payer)] {
                let o = l.run(&led, &Tx { label: String::new(), ixs: vec![ix] }, 9);
                if !o.ok {
                    break;
                }
                led = o.ledger;
            }
        }
    });
}

/// Records that exist although the account is not held by the delegation program (as the recorded
/// findings can leave them): every operation on such an account must be refused.
pub fn orphans(run: &mut Run, ops: &[Op]) {
    let ss: Vec<&Scen> = pick(ops).into_iter().filter(|s| s.op.roles().contains(&"account")).collect();
    let w = world();
    if ss.is_empty() {
        return;
    }
    cases(run, "account not held by the program", "every valid instance with the account given to each other owner, emptied or absent", 13, &ss, &|s, l| {
        let i = s.op.roles().iter().position(|r| *r == "account").unwrap();
        let k = s.ix.metas[i].key;
        for o in [w.p, w.q, SYSTEM, w.x, LOADER] {
            for (keep_data, keep_lam) in [(true, true), (false, true), (true, false), (false, false)] {
                let mut led = s.led.clone();
                led.edit(&k, |a| {
                    a.owner = o;
                    if !keep_data {
                        a.data.clear();
                    }
                    if !keep_lam {
                        a.lamports = rent(a.data.len());
                    }
                });
                go(l, &led, format!("{} with the account owned by {}", s.name, crate::spec::short(&o)), s.ix.clone(), s.slot);
            }
        }
        let mut led = s.led.clone();
        led.set(k, Acct::none());
        go(l, &led, format!("{} with the account absent", s.name), s.ix.clone(), s.slot);
    });
}

/// C02/C01: what is recorded, over seeds, sizes, balances, buffers, arguments and slots.
pub fn grid_delegate(run: &mut Run) {
    let w = world();
    let th = run.thorough;
    let mut seedsets: Vec<Vec<Vec<u8>>> = vec![];
    for n in 0..=15usize {
        for len in [0usize, 1, 7, 8, 31, 32] {
            let s: Vec<Vec<u8>> = (0..n).map(|i| (0..len).map(|j| (i * 31 + j) as u8).collect()).collect();
            if !seedsets.contains(&s) {
                seedsets.push(s);
            }
        }
        seedsets.push((0..n).map(|i| vec![i as u8; (i * 5) % 33]).collect());
    }
    // more than the runtime can derive from, and over-long seeds
    for s in [vec![vec![1; 33]], vec![vec![1; 1]; 16], vec![vec![1; 1]; 17], vec![vec![]; 16]] {
        seedsets.push(s);
    }
    let mk = |owner: Pubkey, seeds: &Vec<Vec<u8>>| -> Option<Sub> {
        let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
        derive(&refs, &owner).map(|key| Sub { key, owner, seeds: seeds.clone() })
    };
    // 1. seeds, through the owner program's flow and directly
    cases(run, "delegate: seed lists", "0..15 seeds of 0..32 bytes, owner flow and direct, three payers", 9, &seedsets, &|seeds, l| {
        for owner in [w.p, w.q] {
            let Some(s) = mk(owner, seeds) else {
                // not derivable: any address must be refused
                let led = with_owned(ready(), &w.a, rent(8), &[1; 8]);
                let mut led2 = led.clone();
                led2.set(w.a.key, Acct::new(rent(8), DLP, vec![0; 8]));
                let a = DelegateArgs { freq: 7, seeds: seeds.clone(), validator: None };
                go(l, &led2, "delegate with impossible seeds".into(), delegate(w.payer, w.a.key, w.p, &a), 3);
                continue;
            };
            for payer in [w.payer, w.u1] {
                for bytes in [vec![1u8; 8], vec![]] {
                    let led = with_owned(ready(), &s, rent(bytes.len()) + 3, &bytes);
                    let a = args(&s, Some(w.v2));
                    go(l, &led, "delegate by its program".into(), owner::delegate_ix(owner, payer, s.key, &s.seeds, &a), 5);
                    // wrong seeds: drop one, change one, swap two, add one
                    let mut bad: Vec<Vec<Vec<u8>>> = vec![];
                    for i in 0..seeds.len() {
                        let mut b = seeds.clone();
                        b.remove(i);
                        bad.push(b);
                        let mut b = seeds.clone();
                        if let Some(c) = b[i].last_mut() {
                            *c ^= 1;
                        } else {
                            b[i].push(0);
                        }
                        bad.push(b);
                    }
                    let mut b = seeds.clone();
                    b.push(vec![9]);
                    bad.push(b);
                    let mut led2 = led.clone();
                    led2.edit(&s.key, |x| x.owner = DLP);
                    for (i, b) in bad.into_iter().enumerate() {
                        if !th && i > 3 {
                            break;
                        }
                        let a = DelegateArgs { freq: 7, seeds: b, validator: None };
                        l.run(&led2, &Tx { label: "delegate with wrong seeds".into(), ixs: vec![delegate(payer, s.key, owner, &a)] }, 5);
                    }
                    // right seeds, wrong owner
                    for o in [w.p, w.q, SYSTEM, DLP, w.x] {
                        l.run(&led2, &Tx { label: "delegate".into(), ixs: vec![delegate(payer, s.key, o, &args(&s, None))] }, 5);
                    }
                }
            }
        }
    });
    // the bytes inside a seed: every string up to three bytes over the edge values, alone, first and last;
    // zero-filled and zero-ended ones of every length
    let mut strings: Vec<Vec<u8>> = vec![vec![]];
    let mut last: Vec<Vec<u8>> = strings.clone();
    for _ in 0..3 {
        last = last.iter().flat_map(|s| [0u8, 1, 0x80, 0xff].iter().map(move |b| [s.clone(), vec![*b]].concat())).collect();
        strings.extend(last.clone());
    }
    for n in 4..=32usize {
        strings.push(vec![0; n]);
        strings.push(vec![0xff; n]);
        let mut s: Vec<u8> = (1..=n as u8).collect();
        s[n - 1] = 0;
        strings.push(s.clone());
        s.reverse();
        strings.push(s);
    }
    for (a, b) in [(b"delegation".to_vec(), vec![]), (b"balance".to_vec(), vec![]), (b"buffer".to_vec(), w.x.to_bytes().to_vec()), (w.p.to_bytes().to_vec(), w.payer.to_bytes().to_vec())] {
        strings.push(a);
        strings.push(b);
    }
    let contents: Vec<Vec<Vec<u8>>> =
        strings.iter().flat_map(|s| [vec![s.clone()], vec![s.clone(), b"s".to_vec()], vec![b"s".to_vec(), s.clone()], vec![s.clone(), s.clone()]]).collect();
    cases(run, "delegate: seed contents", "seeds of 0..3 edge bytes, zero-filled, zero-ended; alone, first, last, twice", 23, &contents, &|seeds, l| {
        let Some(s) = mk(w.p, seeds) else { return };
        let led = with_owned(ready(), &s, rent(8) + 3, &[1; 8]);
        let a = args(&s, None);
        go(l, &led, "delegate by its program".into(), owner::delegate_ix(w.p, w.payer, s.key, &s.seeds, &a), 5);
        let mut led = ready();
        led.set(s.key, Acct::new(rent(8), DLP, vec![0; 8]));
        // the same seeds trimmed, padded, joined and split: other addresses, unless they are the same bytes
        let flat = seeds.concat();
        let mut forms = vec![seeds.clone(), vec![flat.clone()], vec![flat.clone(), vec![]], flat.iter().map(|b| vec![*b]).take(15).collect::<Vec<_>>()];
        for i in 0..seeds.len() {
            let mut t = seeds.clone();
            t[i].push(0);
            forms.push(t);
            let mut t = seeds.clone();
            t[i].pop();
            forms.push(t);
            let mut t = seeds.clone();
            t[i].reverse();
            forms.push(t);
        }
        for f in forms {
            let a = DelegateArgs { freq: 7, seeds: f, validator: None };
            go(l, &led, "delegate with reshaped seeds".into(), delegate(w.payer, s.key, w.p, &a), 5);
        }
    });
    // addresses derived from the same seeds under the delegation program (escrows), the system program and others
    let few: Vec<Vec<Vec<u8>>> = seedsets.iter().filter(|s| s.len() <= 4).cloned().chain([vec![b"balance".to_vec(), w.u1.to_bytes().to_vec(), vec![3]]]).collect();
    cases(run, "delegate: derived under another program", "seed lists derived under five programs x five recorded owners", 3, &few, &|seeds, l| {
        for under in [DLP, SYSTEM, w.p, w.q, w.x] {
            let Some(s) = mk(under, seeds) else { continue };
            for o in [DLP, SYSTEM, w.p, w.q, w.x] {
                for bytes in [vec![], vec![3u8; 8]] {
                    let mut led = ready();
                    led.set(s.key, Acct::new(rent(8) + 1, DLP, bytes.clone()));
                    for buf in [None, Some(vec![6u8; bytes.len()])] {
                        if let Some(b) = buf {
                            led.set(buffer(&s.key, &o), Acct::new(rent(b.len()), o, b));
                        }
                        go(l, &led, "delegate".into(), delegate(w.payer, s.key, o, &args(&s, None)), 5);
                    }
                }
            }
        }
    });
    // 2. balances x data x buffers
    let lams: Vec<u64> = vec![1, 1000, rent(0) - 1, rent(0), rent(8), 5 * SOL, 1 << 40, (1 << 53) + 1, (1 << 62) - 1];
    let ds = datas(th);
    let items: Vec<(u64, Vec<u8>)> = lams.iter().flat_map(|l| ds.iter().map(move |d| (*l, d.clone()))).collect();
    cases(run, "delegate: balances and data", "balances x data x buffer contents", 13, &items, &|(lam, d), l| {
        for s in [&w.a, &w.c, &Sub { owner: w.p, ..w.c.clone() }, &Sub::escrow(w.u1, 4)] {
            for buf in [None, Some(d.clone()), Some(d.iter().map(|b| b ^ 0x5a).collect()), Some(vec![7; d.len() + 1]), Some(vec![7; d.len().saturating_sub(1)])] {
                for own in [vec![0; d.len()], d.clone()] {
                    let mut led = ready();
                    led.set(s.key, Acct::new(*lam, DLP, own));
                    if let Some(b) = &buf {
                        led.set(buffer(&s.key, &s.owner), Acct::new(rent(b.len()), s.owner, b.clone()));
                    }
                    l.run(&led, &Tx { label: "delegate".into(), ixs: vec![delegate(w.payer, s.key, s.owner, &args(&s, None))] }, 9);
                }
            }
        }
        let s = &w.a;
        let led = with_owned(ready(), s, *lam, d);
        for how in [0, 3, 4, 5, 6] {
            go(l, &led, "delegate by its program".into(), owner::delegate_how_ix(how, s.owner, w.payer, s.key, &s.seeds, &args(s, None)), 9);
        }
    });
    // 3. arguments and slots; on-curve accounts; escrows
    let mut items = vec![];
    for freq in [0u32, 1, 30_000, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
        for v in [None, Some(w.v1), Some(w.x), Some(SYSTEM), Some(Pubkey::new_from_array([255; 32]))] {
            for slot in SLOTS {
                items.push((freq, v, *slot));
            }
        }
    }
    for v in [w.payer, w.p, w.q, w.u1, w.a.key, w.c.key, escrow(&w.u1, 200), DLP, LOADER, record(&w.a.key), metadata(&w.a.key), buffer(&w.a.key, &w.p), pvault(), vvault(&w.v1)] {
        items.push((7, Some(v), 5));
    }
    cases(run, "delegate: arguments and slots", "frequency x validator x slot, for program, on-curve and escrow accounts", 17, &items, &|(freq, v, slot), l| {
        let mut led = with_owned(ready(), &w.a, rent(8) + 9, &[4; 8]);
        led.set(w.c.key, Acct::new(3 * SOL, DLP, vec![]));
        led.set(escrow(&w.u1, 200), Acct::wallet(2 * SOL));
        let a = DelegateArgs { freq: *freq, seeds: w.a.seeds.clone(), validator: *v };
        go(l, &led, "delegate by its program".into(), owner::delegate_ix(w.p, w.payer, w.a.key, &w.a.seeds, &a), *slot);
        for seeds in [vec![], vec![vec![1; 40]; 20], vec![b"balance".to_vec()]] {
            for o in [SYSTEM, w.p] {
                let a = DelegateArgs { freq: *freq, seeds: seeds.clone(), validator: *v };
                go(l, &led, "delegate on-curve".into(), delegate(w.payer, w.c.key, o, &a), *slot);
            }
            let a = DelegateArgs { freq: *freq, seeds, validator: *v };
            go(l, &led, "delegate escrow".into(), delegate_escrow(w.payer, w.u1, 200, &a), *slot);
        }
    });
    // 4. pre-funded records, poor payers
    let pre: Vec<u64> = vec![0, 1, 1000, rent(0), rent(104) - 1, rent(104), rent(104) + 1, 3 * SOL];
    let items: Vec<(u64, u64)> = pre.iter().flat_map(|a| pre.iter().map(move |b| (*a, *b))).collect();
    cases(run, "delegate: pre-funded records", "lamports already at the record, metadata and buffer addresses; payer balances", 5, &items, &|(a, b), l| {
        for funds in [WALLET, rent(104), rent(104) - 1, rent(104) + rent(86), 0] {
            let mut led = with_owned(ready(), &w.a, rent(8) + 9, &[4; 8]);
            led.set(record(&w.a.key), Acct::wallet(*a));
            led.set(metadata(&w.a.key), Acct::wallet(*b));
            led.set(w.payer, Acct::wallet(funds));
            let mut led2 = led.clone();
            led2.edit(&w.a.key, |x| x.owner = DLP);
            l.run(&led2, &Tx { label: "delegate".into(), ixs: vec![delegate(w.payer, w.a.key, w.p, &args(&w.a, None))] }, 9);
            go(l, &led, "delegate by its program".into(), owner::delegate_ix(w.p, w.payer, w.a.key, &w.a.seeds, &args(&w.a, None)), 9);
        }
    });
}

/// Every account of an instance that is a plain wallet (payers, users, identities, refund recipients), given
/// every balance, owner and content in turn, alone and in pairs.
pub fn actors(run: &mut Run, ops: &[Op]) {
    let w = world();
    let ss = pick(ops);
    let mut forms: Vec<Acct> = [0, 1, rent(0) - 1, rent(0), rent(0) + 1, rent(8), rent(90), SOL, 1 << 50].iter().map(|x| Acct::wallet(*x)).collect();
    for o in [SYSTEM, w.p, DLP] {
        for d in [vec![], vec![0; 8], vec![100, 0, 0, 0, 0, 0, 0, 0], vec![9; 80]] {
            for lam in [1, rent(0), rent(d.len()), 3 * SOL] {
                forms.push(Acct::new(lam, o, d.clone()));
            }
        }
    }
    cases(run, "states of the actors", "each plain account of each valid instance given 57 balances, owners and contents, alone and with every second actor poor or owned", 7, &ss, &|s, l| {
        let mut ks: Vec<Pubkey> = vec![];
        for m in &s.ix.metas {
            let a = s.led.get(&m.key);
            // addresses the operation creates are covered by the pre-funded instances
            if a.owner == SYSTEM && a.data.is_empty() && !a.executable && a.lamports > 0 && on_curve(&m.key) && !ks.contains(&m.key) {
                ks.push(m.key);
            }
        }
        let absent: Vec<Pubkey> = s.ix.metas.iter().filter(|m| !m.writable && on_curve(&m.key) && s.led.get(&m.key).lamports == 0).map(|m| m.key).collect();
        ks.extend(absent);
        for k in &ks {
            for f in &forms {
                let mut led = s.led.clone();
                led.set(*k, f.clone());
                go(l, &led, format!("{}: another state of an actor", s.name), s.ix.clone(), s.slot);
                for k2 in &ks {
                    if k2 <= k {
                        continue;
                    }
                    for f2 in [Acct::wallet(0), Acct::wallet(1), Acct::wallet(rent(0)), Acct::new(3 * SOL, w.p, vec![0; 8])] {
                        let mut led = led.clone();
                        led.set(*k2, f2);
                        l.run(&led, &Tx { label: format!("{}: other states of two actors", s.name), ixs: vec![s.ix.clone()] }, s.slot);
                    }
                }
            }
        }
    });
}

/// `k` with one bit of byte `i` flipped.
pub fn nearly(k: &Pubkey, i: usize) -> Pubkey {
    let mut b = k.to_bytes();
    b[i] ^= 1 << (i * 5 % 8);
    Pubkey::new_from_array(b)
}

/// Keys that differ from the right ones in a single byte, at each of the 32 places: passed in the instruction
/// (with the contents of the right account), as an actor together with its own fee vault, or stored.
pub fn near(run: &mut Run, ops: &[Op]) {
    let ss = pick(ops);
    cases(run, "near misses", "each account of each valid instance, and each key stored in its accounts, changed in one byte at each of 32 places", 101, &ss, &|s, l| {
        for i in 0..s.ix.metas.len() {
            let k = s.ix.metas[i].key;
            for b in 0..32 {
                let k2 = nearly(&k, b);
                let mut ix = s.ix.clone();
                ix.metas[i].key = k2;
                let mut led = s.led.clone();
                let a = led.get(&k).clone();
                led.set(k2, a);
                l.run(&led, &Tx { label: format!("{} with byte {b} of {} changed", s.name, s.op.roles()[i]), ixs: vec![ix.clone()] }, s.slot);
                if s.op.flags()[i].0 {
                    let (v, v2) = (vvault(&k), vvault(&k2));
                    let a = led.get(&v).clone();
                    led.set(v2, a);
                    for m in ix.metas.iter_mut() {
                        if m.key == v {
                            m.key = v2;
                        }
                    }
                    l.run(&led, &Tx { label: format!("{} by an actor with byte {b} changed", s.name), ixs: vec![ix] }, s.slot);
                }
            }
        }
        // the stored keys
        for m in &s.ix.metas {
            let a = s.led.get(&m.key).clone();
            for b in 0..32 {
                let mut forms: Vec<Vec<u8>> = vec![];
                if a.owner == DLP {
                    if let Some(r) = Record::dec(&a.data) {
                        forms.push(Record { authority: nearly(&r.authority, b), ..r.clone() }.enc());
                        forms.push(Record { owner: nearly(&r.owner, b), ..r }.enc());
                    } else if let Some(r) = Metadata::dec(&a.data) {
                        forms.push(Metadata { rent_payer: nearly(&r.rent_payer, b), ..r }.enc());
                    } else if let Some(r) = CommitRec::dec(&a.data) {
                        forms.push(CommitRec { identity: nearly(&r.identity, b), ..r }.enc());
                    } else if let Some(Config(set)) = Config::dec(&a.data) {
                        for k in &set {
                            let mut t = set.clone();
                            t.remove(k);
                            t.insert(nearly(k, b));
                            forms.push(Config(t).enc());
                        }
                        forms.push(Config(set.iter().map(|k| nearly(k, b)).collect()).enc());
                    }
                } else if a.owner == LOADER && !a.executable {
                    if let Some(Some(x)) = progdata_authority(&a.data) {
                        forms.push(progdata_bytes(3, Some(nearly(&x, b))));
                    }
                }
                for f in forms {
                    let mut led = s.led.clone();
                    led.edit(&m.key, |x| x.data = f.clone());
                    l.run(&led, &Tx { label: format!("{} with byte {b} of a stored key changed", s.name), ixs: vec![s.ix.clone()] }, s.slot);
                }
            }
        }
    });
}

/// The ways to write `k` over a key stored in the account's data.
fn stored_as(a: &Acct, k: &Pubkey) -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![];
    if a.owner == DLP {
        if let Some(r) = Record::dec(&a.data) {
            v.push(("record authority", Record { authority: *k, ..r }.enc()));
        } else if let Some(r) = Metadata::dec(&a.data) {
            v.push(("rent payer", Metadata { rent_payer: *k, ..r }.enc()));
        } else if let Some(r) = CommitRec::dec(&a.data) {
            v.push(("committer", CommitRec { identity: *k, ..r }.enc()));
        } else if let Some(Config(mut set)) = Config::dec(&a.data) {
            set.insert(*k);
            v.push(("whitelist", Config(set).enc()));
        }
    } else if a.owner == LOADER && !a.executable && progdata_authority(&a.data).is_some() {
        v.push(("upgrade authority", progdata_bytes(3, Some(*k))));
        v.push(("former authority", progdata_former(3, *k)));
    }
    v
}

/// The instance's state with one thing in it changed that may matter to whether the operation is permitted.
fn breaks(s: &Scen, led: &Ledger) -> Vec<(String, Ledger)> {
    let w = world();
    let mut v = vec![];
    for m in &s.ix.metas {
        let a = led.get(&m.key);
        if a.owner == DLP {
            if let Some(r) = Metadata::dec(&a.data) {
                let mut l = led.clone();
                l.edit(&m.key, |a| a.data = Metadata { allow: !r.allow, ..r.clone() }.enc());
                v.push(("the other permission".into(), l));
                let mut l = led.clone();
                l.edit(&m.key, |a| a.data = Metadata { last: u64::MAX, ..r }.enc());
                v.push(("every commit outdated".into(), l));
            }
        }
    }
    let mut vaults: Vec<Pubkey> = s.ix.metas.iter().filter(|m| m.signer).map(|m| vvault(&m.key)).collect();
    vaults.push(pvault());
    for k in vaults {
        let a = led.get(&k);
        if a.owner == DLP && s.ix.metas.iter().any(|m| m.key == k) {
            let mut l = led.clone();
            l.set(k, Acct::none());
            v.push((format!("no {}", crate::spec::short(&k)), l));
        }
    }
    if matches!(s.op, Op::Commit | Op::CommitBuffer | Op::Finalize | Op::Undelegate) && Record::dec(&led.get(&record(&s.ix.metas[1].key)).data).is_some() {
        let d = s.ix.metas[1].key;
        let mut l = led.clone();
        if led.get(&crecord(&d)).is_uninit() {
            let lam = led.get(&d).lamports;
            l = with_pending(l, &d, &w.v2, 9, lam, &led.get(&d).data.clone());
        } else {
            l.set(crecord(&d), Acct::none());
            l.set(cstate(&d), Acct::none());
        }
        v.push(("pending or not".into(), l));
        if let Some(r) = Record::dec(&led.get(&record(&d)).data) {
            v.push(("only others listed".into(), with_config(led.clone(), &r.owner, &[w.v3])));
        }
    }
    v
}

/// The same instruction in the same state with one thing amiss: a signature withheld, another signer in place of one
/// (with its own vault too), a precondition broken.
fn amiss(l: &mut Local, s: &Scen, led: &Ledger, ix: &Ix, label: &str) {
    let w = world();
    let one = |l: &mut Local, led: &Ledger, n: &str, ix: Ix| {
        l.run(led, &Tx { label: format!("{label}, {n}"), ixs: vec![ix] }, s.slot);
    };
    for i in 0..ix.metas.len() {
        if !ix.metas[i].signer {
            continue;
        }
        let old = ix.metas[i].key;
        let mut x = ix.clone();
        x.metas[i].signer = false;
        one(l, led, "a signature withheld", x);
        for k in [w.x, w.v2, w.v3] {
            if k == old || !led.get(&old).data.is_empty() {
                continue;
            }
            let mut x = ix.clone();
            x.metas[i].key = k;
            one(l, led, "another signer", x.clone());
            if x.metas.iter().any(|m| m.key == vvault(&old)) {
                for m in x.metas.iter_mut() {
                    if m.key == vvault(&old) {
                        m.key = vvault(&k);
                    }
                }
                one(l, led, "another signer and its vault", x);
            }
        }
    }
    for (n, b) in breaks(s, led) {
        one(l, &b, &n, ix.clone());
    }
}

/// Actors that coincide: every key stored in the accounts of each valid instance set to every actor, with the
/// instance as it is, without each signature, with a precondition broken, with the actor in each position, and with
/// a second stored key set to it too.
pub fn coincide(run: &mut Run, ops: &[Op]) {
    let w = world();
    let mut items = vec![];
    for s in pick(ops) {
        for k in [w.payer, w.v1, w.v2, w.v3, w.u1, w.u2, w.x, w.admin, w.auth_p, w.auth_q] {
            items.push((s, k));
        }
    }
    cases(run, "coinciding actors", "each stored key set to each of 10 actors x withheld signatures, broken preconditions, the actor in every position, a second stored key", 203, &items, &|(s, k), l| {
        let mut seen: Vec<Pubkey> = vec![];
        for m in &s.ix.metas {
            if seen.contains(&m.key) {
                continue;
            }
            seen.push(m.key);
            for (what, data) in stored_as(s.led.get(&m.key), k) {
                let mut led = s.led.clone();
                led.edit(&m.key, |a| a.data = data.clone());
                let mut try_all = |led: &Ledger, deep: bool| {
                    let run1 = |l: &mut Local, led: &Ledger, n: &str, ix: Ix| {
                        l.run(led, &Tx { label: format!("{}: {what} is {}, {n}", s.name, crate::spec::short(k)), ixs: vec![ix] }, s.slot);
                    };
                    run1(l, led, "as it is", s.ix.clone());
                    for i in 0..s.ix.metas.len() {
                        if s.ix.metas[i].signer {
                            let mut ix = s.ix.clone();
                            ix.metas[i].signer = false;
                            run1(l, led, "a signature withheld", ix);
                        }
                        if deep && s.ix.metas[i].key != *k {
                            let mut ix = s.ix.clone();
                            let old = ix.metas[i].key;
                            ix.metas[i].key = *k;
                            run1(l, led, "and stands in", ix.clone());
                            if s.op.flags()[i].0 {
                                for m in ix.metas.iter_mut() {
                                    if m.key == vvault(&old) {
                                        m.key = vvault(k);
                                    }
                                }
                                run1(l, led, "and acts with its own vault", ix);
                            }
                        }
                    }
                    for (n, b) in breaks(s, led) {
                        run1(l, &b, &n, s.ix.clone());
                    }
                };
                try_all(&led, true);
                for m2 in &s.ix.metas {
                    if m2.key > m.key {
                        for (_, data) in stored_as(led.get(&m2.key), k) {
                            let mut led = led.clone();
                            led.edit(&m2.key, |a| a.data = data.clone());
                            try_all(&led, false);
                        }
                    }
                }
            }
        }
    });
    merged(run, ops);
}

/// Two actors, or three, played by one account throughout.
pub fn merged(run: &mut Run, ops: &[Op]) {
    let w = world();
    let ss = pick(ops);
    let actors = [w.payer, w.v1, w.v2, w.v3, w.u1, w.u2, w.x, w.admin, w.auth_p, w.auth_q];
    cases(run, "one account in two parts", "each actor of each valid instance replaced throughout by each other account of it (then a third actor too) x withheld signatures, broken preconditions", 211, &ss, &|s, l| {
        let there = |k: &Pubkey| s.ix.metas.iter().any(|m| m.key == *k);
        let mut news: Vec<Pubkey> = s.ix.metas.iter().map(|m| m.key).collect();
        news.push(w.x);
        news.sort();
        news.dedup();
        news.retain(|k| !s.led.get(k).executable);
        for old in actors {
            for new in &news {
                if old == *new {
                    continue;
                }
                let t = renamed(s, &old, new);
                let mut all = vec![t.clone()];
                for third in actors {
                    if third != old && third != *new && there(&third) && there(&old) {
                        all.push(renamed(&t, &third, new));
                    }
                }
                for t in all {
                    let run1 = |l: &mut Local, led: &Ledger, n: &str, ix: Ix| {
                        l.run(led, &Tx { label: format!("{} with {} as {}{n}", s.name, crate::spec::short(new), crate::spec::short(&old)), ixs: vec![ix] }, s.slot);
                    };
                    run1(l, &t.led, "", t.ix.clone());
                    for (n, b) in breaks(&t, &t.led) {
                        run1(l, &b, &format!(", {n}"), t.ix.clone());
                    }
                    for i in 0..t.ix.metas.len() {
                        if t.ix.metas[i].signer {
                            let k = t.ix.metas[i].key;
                            let mut ix = t.ix.clone();
                            for m in ix.metas.iter_mut() {
                                m.signer &= m.key != k;
                            }
                            run1(l, &t.led, ", not signing", ix);
                        }
                    }
                }
            }
        }
    });
}

/// `s` with the actor `old` replaced by `new` everywhere: positions, its vault, its escrows, what is stored.
pub fn renamed(s: &Scen, old: &Pubkey, new: &Pubkey) -> Scen {
    let mut map: Vec<(Pubkey, Pubkey)> = vec![(*old, *new), (vvault(old), vvault(new))];
    for i in 0..16u8 {
        let (a, b) = (escrow(old, i), escrow(new, i));
        map.push((a, b));
        for f in [record, metadata, cstate, crecord, ubuf] {
            map.push((f(&a), f(&b)));
        }
        map.push((buffer(&a, &SYSTEM), buffer(&b, &SYSTEM)));
    }
    let to = |k: &Pubkey| map.iter().find(|m| m.0 == *k).map_or(*k, |m| m.1);
    let mut t = s.clone();
    for m in t.ix.metas.iter_mut() {
        m.key = to(&m.key);
    }
    match parse(&s.ix.data) {
        Some((Op::Delegate, Args::Delegate(mut a))) => {
            a.validator = a.validator.map(|v| to(&v));
            t.ix.data = data(Op::Delegate, &Args::Delegate(a));
        }
        Some((Op::DelegateEscrow, Args::DelegateEscrow(mut a, i))) => {
            a.validator = a.validator.map(|v| to(&v));
            t.ix.data = data(Op::DelegateEscrow, &Args::DelegateEscrow(a, i));
        }
        _ => {}
    }
    for (k, a) in s.led.iter() {
        let mut a = a.clone();
        if a.owner == DLP {
            if let Some(r) = Record::dec(&a.data) {
                a.data = Record { authority: to(&r.authority), ..r }.enc();
            } else if let Some(r) = Metadata::dec(&a.data) {
                let seeds = r.seeds.iter().map(|x| if x[..] == *old.as_ref() { new.to_bytes().to_vec() } else { x.clone() }).collect();
                a.data = Metadata { rent_payer: to(&r.rent_payer), seeds, ..r }.enc();
            } else if let Some(r) = CommitRec::dec(&a.data) {
                a.data = CommitRec { identity: to(&r.identity), account: to(&r.account), ..r }.enc();
            } else if let Some(Config(set)) = Config::dec(&a.data) {
                a.data = Config(set.iter().map(to).collect()).enc();
            }
        } else if a.owner == LOADER && progdata_authority(&a.data) == Some(Some(*old)) {
            a.data = progdata_bytes(3, Some(*new));
        }
        // what is at the new address already stays
        if to(k) == *k || s.led.get(&to(k)) == &Acct::none() {
            t.led.set(to(k), a);
        }
    }
    t
}

/// The same operations called by another program: with the actors' signatures passed on, and with actors that are
/// the calling program's own derived addresses.
pub fn via_cpi(run: &mut Run, ops: &[Op]) {
    let w = world();
    let ss = pick(ops);
    cases(run, "called by a program", "each valid instance called by another program, also with each actor being a derived address of that program, and with its signature withheld", 3, &ss, &|s, l| {
        let Some(p) = [w.q, w.p].into_iter().find(|p| s.ix.metas.iter().all(|m| m.key != *p)) else { return };
        let seeds = vec![b"cpi".to_vec()];
        let pda = derive(&[b"cpi"], &p).unwrap();
        let slot = s.slot;
        go(l, &s.led, format!("{}, called by a program", s.name), owner::proxy_ix(p, &seeds, &s.ix), slot);
        let mut bad = s.ix.clone();
        for i in 0..s.ix.metas.len() {
            if s.ix.metas[i].signer {
                bad.metas[i].signer = false;
                l.run(&s.led, &Tx { label: format!("{}, called without a signature", s.name), ixs: vec![owner::proxy_ix(p, &seeds, &bad)] }, slot);
                bad.metas[i].signer = true;
            }
        }
        let mut done: Vec<Pubkey> = vec![];
        for m in &s.ix.metas {
            if !on_curve(&m.key) || s.led.get(&m.key).owner != SYSTEM || done.contains(&m.key) || m.key == SYSTEM {
                continue;
            }
            done.push(m.key);
            let t = renamed(s, &m.key, &pda);
            go(l, &t.led, format!("{}, with a program's address as {}", s.name, crate::spec::short(&m.key)), owner::proxy_ix(p, &seeds, &t.ix), slot);
            // the program does not sign for it
            let other = vec![b"other".to_vec()];
            let mut ix = t.ix.clone();
            for x in ix.metas.iter_mut() {
                x.signer &= x.key != pda;
            }
            l.run(&t.led, &Tx { label: format!("{}, called without the program's signature", s.name), ixs: vec![owner::proxy_ix(p, &other, &ix)] }, slot);
        }
    });
}

/// What the records hold beside what the operation is about: delegation slot, commit frequency, chosen validator,
/// last slot, seeds, and the clock, at the edges of their ranges, one and two at a time.
pub fn fields(run: &mut Run, ops: &[Op]) {
    let w = world();
    let nums = [0u64, 1, 2, 49, 50, 76, 77, 78, 255, 256, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 5, 1 << 53, (1 << 53) + 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
    let ss = pick(ops);
    cases(run, "record fields", "delegation slot, frequency, chosen validator, last slot, seeds and clock at the edges of their ranges, one and two at a time", 97, &ss, &|s, l| {
        let d = s.ix.metas.get(1).map(|m| m.key).unwrap_or_default();
        let (Some(rec), Some(met)) = (Record::dec(&s.led.get(&record(&d)).data), Metadata::dec(&s.led.get(&metadata(&d)).data)) else { return };
        let pending = CommitRec::dec(&s.led.get(&crecord(&d)).data);
        let mut recs: Vec<Record> = vec![];
        for n in nums {
            recs.push(Record { slot: n, ..rec.clone() });
            recs.push(Record { freq: n, ..rec.clone() });
            recs.push(Record { slot: n, freq: n, ..rec.clone() });
        }
        for k in [Pubkey::default(), w.v1, w.v2, w.v3, w.x, w.payer, DLP, d, rec.owner] {
            recs.push(Record { authority: k, ..rec.clone() });
        }
        let mut mets: Vec<Metadata> = vec![met.clone()];
        for n in nums {
            if pending.as_ref().is_none_or(|c| c.slot >= n) {
                mets.push(Metadata { last: n, ..met.clone() });
            }
        }
        if s.op != Op::Undelegate {
            for seeds in [vec![], vec![vec![]], vec![vec![1]], vec![vec![0xff; 32]; 15], vec![b"balance".to_vec(), w.u1.to_bytes().to_vec(), vec![0]]] {
                mets.push(Metadata { seeds, ..met.clone() });
            }
        }
        for r in recs.iter().chain([&rec]) {
            for m in &mets {
                if r != &rec && m != &met && r.slot != r.freq && r.authority == rec.authority && !matches!(m.last, 0 | u64::MAX) {
                    continue;
                }
                let mut led = s.led.clone();
                led.edit(&record(&d), |a| a.data = r.enc());
                let b = m.enc();
                led.edit(&metadata(&d), |a| {
                    a.lamports = a.lamports.max(rent(b.len()));
                    a.data = b.clone();
                });
                for clock in [77, 0, 1 << 40, u64::MAX] {
                    l.run(&led, &Tx { label: format!("{} with other record fields", s.name), ixs: vec![s.ix.clone()] }, clock);
                }
                if r == &rec || m == &met {
                    amiss(l, s, &led, &s.ix, &format!("{} with other record fields", s.name));
                }
            }
        }
        l.offer(&s.led, vec![Step { tx: Tx::new(s.name.clone(), s.ix.clone()), slot: 0 }]);
    });
}

/// Every power of two and of ten with its neighbours, and the rent minima of the sizes in use.
pub fn edges() -> Vec<u64> {
    let mut v: Vec<u64> = vec![u64::MAX, 0];
    for k in 0..64 {
        let p = 1u64 << k;
        v.extend([p.wrapping_sub(1), p, p.wrapping_add(1)]);
    }
    let mut t = 1u64;
    for _ in 0..20 {
        v.extend([t.wrapping_sub(1), t, t.wrapping_add(1), t.wrapping_mul(5)]);
        t = t.wrapping_mul(10);
    }
    for n in [0usize, 1, 8, 11, 12, 44, 86, 88, 104, 165] {
        v.extend([rent(n) - 1, rent(n), rent(n) + 1]);
    }
    v.sort();
    v.dedup();
    v
}

/// Every number an operation is given or meets: its arguments, the balances of its accounts and the balances recorded,
/// at every edge value; the rest of a life cycle follows.
pub fn powers(run: &mut Run, ops: &[Op]) {
    let w = world();
    let ss = pick(ops);
    let es = edges();
    let items: Vec<(&Scen, u64)> = ss.iter().flat_map(|s| es.iter().map(move |e| (*s, *e))).collect();
    const RICH: u64 = 1 << 59;
    cases(run, "numbers", "each numeric argument, each account's balance and each recorded balance at every power of two and ten and its neighbours", 331, &items, &|(s, e), l| {
        let e = *e;
        let Some((op, args)) = parse(&s.ix.data) else { return };
        let mut led = s.led.clone();
        for m in &s.ix.metas {
            if m.signer && led.get(&m.key).owner == SYSTEM && led.get(&m.key).data.is_empty() && !s.name.contains("undelegate") {
                led.edit(&m.key, |a| a.lamports = RICH);
            }
        }
        let mut forms: Vec<Args> = vec![];
        match &args {
            Args::Commit { slot, lamports, allow, data } => {
                forms.push(Args::Commit { slot: e, lamports: *lamports, allow: *allow, data: data.clone() });
                forms.push(Args::Commit { slot: *slot, lamports: e, allow: true, data: data.clone() });
                forms.push(Args::Commit { slot: e, lamports: e, allow: *allow, data: e.to_le_bytes().to_vec() });
            }
            Args::CommitBuffer { slot, lamports, allow } => {
                forms.push(Args::CommitBuffer { slot: e, lamports: *lamports, allow: *allow });
                forms.push(Args::CommitBuffer { slot: *slot, lamports: e, allow: true });
            }
            Args::TopUp { amount, index } => {
                forms.push(Args::TopUp { amount: e, index: *index });
                forms.push(Args::TopUp { amount: *amount, index: e as u8 });
                forms.push(Args::TopUp { amount: e, index: e as u8 });
            }
            Args::Claim(_) => forms.push(Args::Claim(Some(e))),
            Args::Delegate(d) if e <= u32::MAX as u64 => forms.push(Args::Delegate(DelegateArgs { freq: e as u32, ..d.clone() })),
            Args::DelegateEscrow(d, i) if e <= u32::MAX as u64 => forms.push(Args::DelegateEscrow(DelegateArgs { freq: e as u32, ..d.clone() }, *i)),
            _ => {}
        }
        for f in forms {
            let mut ix = s.ix.clone();
            ix.data = data(op, &f);
            // escrow operations name the address of their index
            if let (Op::TopUp, Args::TopUp { index, .. }) = (op, &f) {
                ix.metas[2].key = escrow(&ix.metas[1].key, *index);
            }
            let mut vaulted = led.clone();
            if op == Op::ValidatorClaim {
                vaulted.edit(&s.ix.metas[2].key, |a| a.lamports = RICH);
            }
            amiss(l, s, &led, &ix, &format!("{} with {e}", s.name));
            for led in [&s.led, &vaulted] {
                let out = l.run(led, &Tx { label: format!("{} with {e}", s.name), ixs: vec![ix.clone()] }, s.slot);
                if out.ok && matches!(op, Op::Commit | Op::CommitBuffer) {
                    let fin = Tx::new("then finalize", finalize(s.ix.metas[0].key, s.ix.metas[1].key));
                    l.run(&out.ledger, &fin, s.slot);
                }
            }
        }
        // the clock
        l.run(&s.led, &Tx { label: format!("{} at slot {e}", s.name), ixs: vec![s.ix.clone()] }, e);
        // balances of the accounts
        if e > 0 && e < RICH {
            let mut ks: Vec<Pubkey> = s.ix.metas.iter().map(|m| m.key).filter(|k| !s.led.get(k).executable).collect();
            ks.sort();
            ks.dedup();
            for k in ks {
                let mut x = s.led.clone();
                if x.get(&k).lamports == 0 && x.get(&k).owner != SYSTEM {
                    continue;
                }
                // the protocol's own accounts never hold less than they were created or funded with
                let subject = s.ix.metas.get(1).is_some_and(|m| m.key == k) || k == escrow(&w.u1, 4);
                let a = x.get(&k);
                let least = if a.owner == DLP && !subject { a.lamports.min(if a.data == vec![0; 8] && op != Op::Finalize { rent(8) } else { u64::MAX }) } else { 0 };
                if e < least {
                    continue;
                }
                x.edit(&k, |a| a.lamports = e);
                let n = format!("{} with {e} lamports in {}", s.name, crate::spec::short(&k));
                l.run(&x, &Tx { label: n.clone(), ixs: vec![s.ix.clone()] }, s.slot);
                amiss(l, s, &x, &s.ix, &n);
            }
        }
        // balances recorded
        if !matches!(op, Op::Commit | Op::CommitBuffer | Op::Finalize | Op::Undelegate) || e >= RICH {
            return;
        }
        let d = s.ix.metas[1].key;
        let Some(rec) = Record::dec(&s.led.get(&record(&d)).data) else { return };
        let com = CommitRec::dec(&s.led.get(&crecord(&d)).data);
        let mut pairs = vec![(e, 0u64)];
        if com.is_some() {
            for c in [0, 1, rec.lamports, e / 2, e, e.saturating_sub(1), e + 1, SOL] {
                pairs.push((e, c));
                pairs.push((c, e));
            }
        }
        for (r, c) in pairs {
            for more in [0u64, 1, e / 3] {
                let mut x = s.led.clone();
                x.edit(&record(&d), |a| a.data = Record { lamports: r, ..rec.clone() }.enc());
                x.edit(&d, |a| a.lamports = (r + more).max(1));
                if let Some(com) = &com {
                    x.edit(&crecord(&d), |a| a.data = CommitRec { lamports: c, ..com.clone() }.enc());
                    x.edit(&cstate(&d), |a| a.lamports = rent(a.data.len()) + c.saturating_sub(r));
                }
                let n = format!("{} with {r} recorded, {c} committed", s.name);
                l.run(&x, &Tx { label: n.clone(), ixs: vec![s.ix.clone()] }, s.slot);
                if more == 0 {
                    amiss(l, s, &x, &s.ix, &n);
                }
            }
        }
    });
}

/// C03/C04/C05/C08: commits over slots, balances, data, buffers, donations.
pub fn grid_commit(run: &mut Run) {
    let w = world();
    let th = run.thorough;
    let mut items = vec![];
    for last in SLOTS {
        for slot in SLOTS {
            for allowed in [false, true] {
                items.push((*last, *slot, allowed));
            }
        }
    }
    cases(run, "commit: slots", "last finalized slot x commit slot x flags x pending or not", 29, &items, &|(last, slot, allowed), l| {
        for s in [w.a.clone(), Sub::escrow(w.u1, 4)] {
            let bytes: &[u8] = if s.owner == SYSTEM { &[] } else { &[2; 8] };
            let mut d = Del::of(&s, bytes).last(*last);
            d.allow = *allowed;
            let led = with_delegated(ready(), &s.key, &d);
            let pend = with_pending(led.clone(), &s.key, &w.v2, *last, d.lamports + 5, &[9; 3]);
            for led in [led, pend] {
                for allow in [false, true] {
                    go(l, &led, "commit".into(), commit(w.v1, s.key, s.owner, *slot, d.lamports, allow, bytes), 77);
                    let mut led2 = led.clone();
                    led2.set(w.x, Acct::new(rent(5), w.p, vec![5; 5]));
                    go(l, &led2, "commit from buffer".into(), commit_buffer(w.v1, s.key, s.owner, w.x, *slot, d.lamports, allow), 77);
                    // the same by a validator without vault and by one that is not on the whitelist
                    let led3 = with_config(led.clone(), &s.owner, &[w.v2]);
                    for v in [w.v1, w.v2, w.v3] {
                        l.run(&led3, &Tx { label: "commit".into(), ixs: vec![commit(v, s.key, s.owner, *slot, d.lamports, allow, bytes)] }, 77);
                    }
                }
            }
        }
    });
    let lams: Vec<u64> = vec![
        0, 1, 999, rent(8) - 1, rent(8), rent(8) + 1, rent(11), SOL, WALLET - rent(8), WALLET, WALLET + rent(8) + 1, 1 << 62, u64::MAX - 1, u64::MAX,
    ];
    let mut items = vec![];
    for recd in [1u64, 1000, rent(8), rent(8) + 1, SOL, u64::MAX / 2, u64::MAX] {
        for lam in &lams {
            for over in [0i64, 1, 5000, -1] {
                items.push((recd, *lam, over));
            }
        }
    }
    cases(run, "commit: balances", "recorded balance x committed balance x actual balance (donated or short) x donated staging accounts", 31, &items, &|(recd, lam, over), l| {
        let mut d = Del::of(&w.a, &[2; 8]).lam(*recd);
        d.lamports = (*recd as i128 + *over as i128).clamp(0, u64::MAX as i128) as u64;
        let led = with_delegated(ready(), &w.a.key, &d);
        for don in [0u64, 1, rent(0), rent(8), 10 * SOL] {
            let mut led = led.clone();
            led.set(cstate(&w.a.key), Acct::wallet(don));
            for don2 in [0u64, 1, rent(96), 2 * SOL] {
                let mut led = led.clone();
                led.set(crecord(&w.a.key), Acct::wallet(don2));
                for bytes in [&[4u8; 8][..], &[4; 0], &[4; 30]] {
                    go(l, &led, "commit".into(), commit(w.v1, w.a.key, w.p, 4, *lam, true, bytes), 77);
                }
                led.set(w.x, Acct::new(rent(5), w.p, vec![5; 5]));
                l.run(&led, &Tx { label: "commit from buffer".into(), ixs: vec![commit_buffer(w.v1, w.a.key, w.p, w.x, 4, *lam, false)] }, 77);
            }
        }
    });
    let ds = datas(th);
    cases(run, "commit: data", "staged data, given and from buffers owned by anyone", 3, &ds, &|bytes, l| {
        for old in [&[1u8; 8][..], &[]] {
            let d = Del::of(&w.a, old).lam(rent(10240));
            let led = with_delegated(ready(), &w.a.key, &d);
            for allow in [false, true] {
                let o = go(l, &led, "commit".into(), commit(w.v1, w.a.key, w.p, 4, rent(10240), allow, bytes), 77);
                if o.ok {
                    go(l, &o.ledger, "finalize".into(), finalize(w.v1, w.a.key), 78);
                }
                for owner in [w.p, SYSTEM, DLP, w.x] {
                    let mut led = led.clone();
                    led.set(w.u2, Acct::new(rent(bytes.len()), owner, bytes.clone()));
                    let o = go(l, &led, "commit from buffer".into(), commit_buffer(w.v1, w.a.key, w.p, w.u2, 4, rent(10240) + 7, allow), 77);
                    if o.ok {
                        go(l, &o.ledger, "finalize".into(), finalize(w.v1, w.a.key), 78);
                    }
                }
            }
        }
    });
    // whitelists that hold nearly the validator
    let items: Vec<usize> = (0..=32).collect();
    cases(run, "commit: whitelists of near misses", "entries that differ from the validator in one byte, at each of 32 places, alone, with others, all together", 7, &items, &|n, l| {
        let d = Del::of(&w.a, &[2; 8]);
        let led = with_delegated(ready(), &w.a.key, &d);
        let close: Vec<Pubkey> = (0..32).map(|b| nearly(&w.v1, b)).collect();
        let sets: Vec<Vec<Pubkey>> = match close.get(*n) {
            Some(k) => vec![vec![*k], vec![*k, w.v2], vec![*k, w.v3], vec![*k, w.v1], close.iter().filter(|x| *x != k).copied().collect()],
            None => vec![close.clone(), close.iter().copied().chain([w.v1]).collect()],
        };
        for set in sets {
            let mut led = with_config(led.clone(), &w.p, &set);
            led.set(w.x, Acct::new(rent(5), w.p, vec![5; 5]));
            for v in [w.v1, w.v2, w.v3] {
                go(l, &led, "commit".into(), commit(v, w.a.key, w.p, 4, d.lamports, true, &[3; 8]), 77);
                l.run(&led, &Tx { label: "commit from buffer".into(), ixs: vec![commit_buffer(v, w.a.key, w.p, w.x, 4, d.lamports, false)] }, 77);
            }
        }
    });
    // whitelists of various sizes
    let items: Vec<usize> = (0..run.pick(41, 130)).chain([64, 100, 255, 256, 257, 319, 320]).collect();
    cases(run, "commit: whitelists", "whitelists of every size, with and without the validator, before, among and after the others", 7, &items, &|n, l| {
        let d = Del::of(&w.a, &[2; 8]);
        let led = with_delegated(ready(), &w.a.key, &d);
        for place in 0..4usize {
            // everything below, above or around the validators; near misses of the validator's own key
            let others: Vec<Pubkey> = (0..*n)
                .map(|i| {
                    let mut b = if place == 3 { w.v1.to_bytes() } else { [0x55; 32] };
                    let at = if place == 3 { 30 } else { 1 };
                    b[0] = match place {
                        0 => 0,
                        1 => 255,
                        2 => (i * 37) as u8,
                        _ => b[0],
                    };
                    b[at] ^= 1 + (i % 250) as u8;
                    b[at + 1] ^= (i / 250) as u8;
                    Pubkey::new_from_array(b)
                })
                .collect();
            for with in [None, Some(w.v1), Some(w.v2)] {
                let mut set = others.clone();
                set.extend(with);
                let led = with_config(led.clone(), &w.p, &set);
                for v in [w.v1, w.v2, w.v3] {
                    go(l, &led, "commit".into(), commit(v, w.a.key, w.p, 4, d.lamports, true, &[3; 8]), 77);
                    let mut led = led.clone();
                    led.set(w.x, Acct::new(rent(5), w.p, vec![5; 5]));
                    l.run(&led, &Tx { label: "commit from buffer".into(), ixs: vec![commit_buffer(v, w.a.key, w.p, w.x, 4, d.lamports, false)] }, 77);
                }
                // another program's whitelist does not matter
                let led = with_config(with_delegated(ready(), &w.a.key, &d), &w.q, &set);
                go(l, &led, "commit".into(), commit(w.v1, w.a.key, w.p, 4, d.lamports, true, &[3; 8]), 77);
            }
        }
    });
}

/// What a validator may do without an open vault of its own: nothing, whatever is passed in its place.
pub fn closed_vaults(run: &mut Run) {
    let w = world();
    let ops = [Op::Commit, Op::CommitBuffer, Op::Finalize, Op::Undelegate, Op::ValidatorClaim];
    let ss: Vec<&Scen> = pick(&ops);
    let mut items = vec![];
    for s in &ss {
        for st in 0..5 {
            items.push((*s, st));
        }
    }
    cases(run, "validators without a vault", "every valid instance with the vault absent, unfunded or foreign; every account in any position", 41, &items, &|(s, st), l| {
        let v = s.ix.metas[0].key;
        let mut led = s.led.clone();
        led.set(
            vvault(&v),
            match st {
                0 => Acct::none(),
                1 => Acct::wallet(rent(8)),
                2 => Acct::wallet(SOL),
                3 => Acct::new(rent(8), w.x, vec![0; 8]),
                _ => Acct::new(rent(8), SYSTEM, vec![0; 8]),
            },
        );
        go(l, &led, format!("{} without a vault", s.name), s.ix.clone(), s.slot);
        let vp = s.op.roles().iter().position(|r| *r == "vault").unwrap();
        for k in &rich().pool {
            let mut ix = s.ix.clone();
            ix.metas[vp].key = *k;
            go(l, &led, format!("{} with the vault replaced by {}", s.name, crate::spec::short(k)), ix, s.slot);
        }
        for i in 0..s.ix.metas.len() {
            if i == vp {
                continue;
            }
            for k in &rich().small_pool {
                for vk in [vvault(&v), vvault(&w.v1), vvault(&w.v2)] {
                    let mut ix = s.ix.clone();
                    ix.metas[i].key = *k;
                    ix.metas[vp].key = vk;
                    l.run(&led, &Tx { label: String::new(), ixs: vec![ix] }, s.slot);
                }
            }
        }
    });
}

/// C07/C08: finalization over balances, data sizes and committers.
pub fn grid_finalize(run: &mut Run) {
    let w = world();
    let vals: Vec<u64> = vec![1, 1000, rent(8) - 1, rent(8), rent(8) + 1, rent(30), SOL, SOL + 1, 1 << 59];
    let mut items = vec![];
    for recd in &vals {
        for lam in vals.iter().chain(&[0]) {
            for over in [0u64, 1, 4000, SOL] {
                items.push((*recd, *lam, over));
            }
        }
    }
    cases(run, "finalize: balances", "recorded x committed x donated, donated staging, every committer and finalizer", 37, &items, &|(recd, lam, over), l| {
        for (s, bytes) in [(w.a.clone(), &[2u8; 8][..]), (Sub::escrow(w.u2, 9), &[][..])] {
            let mut d = Del::of(&s, bytes).lam(*recd).last(3);
            d.lamports = *recd + *over;
            let led = with_delegated(ready(), &s.key, &d);
            for don in [0u64, 1, SOL] {
                let led = with_pending(led.clone(), &s.key, &w.v1, 4, *lam, if bytes.is_empty() { &[] } else { &[6; 5] });
                let led = donate(&donate(&led, &cstate(&s.key), don), &crecord(&s.key), don * 3);
                let led = donate(&led, &vvault(&w.v1), don * 7);
                for v in [w.v1, w.v2, w.v3] {
                    go(l, &led, "finalize".into(), finalize(v, s.key), 77);
                }
            }
        }
    });
    let ds = datas(run.thorough);
    let items: Vec<(Vec<u8>, Vec<u8>)> = ds.iter().flat_map(|a| ds.iter().map(move |b| (a.clone(), b.clone()))).collect();
    cases(run, "finalize: data", "old data x staged data", 19, &items, &|(old, new), l| {
        let d = Del::of(&w.a, old).lam(rent(10240));
        let led = with_delegated(ready(), &w.a.key, &d);
        for slot in [0u64, 1, u64::MAX] {
            let led = with_pending(led.clone(), &w.a.key, &w.v2, slot, rent(10240) + 3, new);
            l.run(&led, &Tx { label: "finalize".into(), ixs: vec![finalize(w.v2, w.a.key)] }, 77);
        }
        let led = with_pending(led, &w.a.key, &w.v2, 5, rent(10240) - 3, new);
        let o = go(l, &led, "finalize".into(), finalize(w.v2, w.a.key), 77);
        if o.ok {
            // once only
            go(l, &o.ledger, "finalize again".into(), finalize(w.v2, w.a.key), 78);
            go(l, &o.ledger, "finalize again by another".into(), finalize(w.v1, w.a.key), 78);
        }
    });
}

/// C09/C10/C12: undelegation over balances, data, seeds and rent payers.
pub fn grid_undelegate(run: &mut Run) {
    let w = world();
    let th = run.thorough;
    // rounding: every remainder class of the two-level 10% split
    let n = run.pick(120u64, 1100);
    let items: Vec<u64> = (0..n).chain([SOL, SOL + 1, 7 * SOL + 99, (1 << 58) + 5]).collect();
    cases(run, "undelegate: fee rounding", "every remainder of record and metadata balances", 23, &items, &|x, l| {
        let s = &w.a;
        for (a, b) in [(*x, 0), (0, *x), (*x, *x), (*x, 3 * *x + 1)] {
            let mut led = with_delegated(ready(), &s.key, &Del::of(s, &[1; 8]).allow());
            led.edit(&record(&s.key), |q| q.lamports += a);
            led.edit(&metadata(&s.key), |q| q.lamports += b);
            go(l, &led, "undelegate".into(), undelegate(w.v1, s.key, s.owner, w.payer), 77);
        }
    });
    // payers, validators, owners
    let mut items = vec![];
    for rp in [w.payer, w.v1, w.v2, w.u1, w.x, vvault(&w.v1), vvault(&w.v2), pvault(), Pubkey::new_from_array([201; 32]), w.admin] {
        for v in [w.v1, w.v2] {
            for given in [w.payer, w.v1, w.u1, w.x, rp] {
                items.push((rp, v, given));
            }
        }
    }
    cases(run, "undelegate: rent payers", "recorded rent payer x validator x given recipient, program, escrow and on-curve accounts", 7, &items, &|(rp, v, given), l| {
        for (s, bytes) in [(w.a.clone(), &[2u8; 8][..]), (w.b.clone(), &[0; 3]), (w.a.clone(), &[]), (Sub::escrow(w.u2, 9), &[]), (w.c.clone(), &[])] {
            for extra in [0u64, 1, SOL] {
                let d = Del::of(&s, bytes).lam(rent(bytes.len()) + extra).allow().rent_payer(*rp);
                let led = with_delegated(ready(), &s.key, &d);
                for o in [s.owner, w.q, SYSTEM] {
                    go(l, &led, "undelegate".into(), undelegate(*v, s.key, o, *given), 77);
                }
                // the account holds more than is recorded
                let led = donate(&led, &s.key, 12_345);
                go(l, &led, "undelegate".into(), undelegate(*v, s.key, s.owner, *given), 77);
            }
        }
    });
    // data sizes, balances, seeds
    let mut seedsets: Vec<Vec<Vec<u8>>> = vec![vec![b"s".to_vec()]];
    for n in 0..=15usize {
        for len in [0usize, 1, 32] {
            seedsets.push((0..n).map(|i| (0..len).map(|j| (i * 31 + j + 1) as u8).collect()).collect());
        }
    }
    let ds = datas(th);
    let mut items = vec![];
    for (i, s) in seedsets.iter().enumerate() {
        for (j, d) in ds.iter().enumerate() {
            if th || i < 2 || j < 6 {
                items.push((s.clone(), d.clone()));
            }
        }
    }
    cases(run, "undelegate: seeds and data", "seed lists x data, callback and state handed back, then re-delegated", 11, &items, &|(seeds, d), l| {
        let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
        let Some(key) = derive(&refs, &w.p) else { return };
        let s = Sub { key, owner: w.p, seeds: seeds.clone() };
        for lam in [rent(d.len()), rent(d.len()) + 1, rent(d.len()) + 9 * SOL, WALLET * 3] {
            for don in [0u64, 1, rent(d.len()) + 5] {
                let del = Del::of(&s, d).lam(lam).allow().last(9);
                let mut led = with_delegated(ready(), &s.key, &del);
                led.set(ubuf(&s.key), Acct::wallet(don));
                let o = go(l, &led, "undelegate".into(), undelegate(w.v1, s.key, s.owner, w.payer), 77);
                if o.ok {
                    go(l, &o.ledger, "delegate again".into(), owner::delegate_ix(s.owner, w.u2, s.key, &s.seeds, &args(&s, None)), 80);
                }
                for extra in [1, rent(0), 2 * SOL] {
                    let led = donate(&led, &s.key, extra);
                    l.run(&led, &Tx { label: "undelegate after a donation".into(), ixs: vec![undelegate(w.v1, s.key, s.owner, w.payer)] }, 77);
                }
            }
        }
    });
    // gating
    let mut items = vec![];
    for allow in [false, true] {
        for pend in [0, 1, 2] {
            for v in [w.v1, w.v2, w.v3, w.x] {
                items.push((allow, pend, v));
            }
        }
    }
    cases(run, "undelegate: gating", "allowed or not x pending or not x every validator, with donated staging addresses", 1, &items, &|(allow, pend, v), l| {
        for (s, bytes) in [(w.a.clone(), &[2u8; 8][..]), (w.b.clone(), &[]), (Sub::escrow(w.u2, 9), &[]), (w.c.clone(), &[])] {
            let mut d = Del::of(&s, bytes).lam(rent(bytes.len()) + 7);
            d.allow = *allow;
            let mut led = with_delegated(ready(), &s.key, &d);
            if *pend > 0 {
                led = with_pending(led, &s.key, &w.v1, 4, d.lamports, bytes);
            }
            if *pend == 2 {
                // staged without data of its own
                led = with_pending(led, &s.key, &w.v2, 4, d.lamports + 9, &[]);
            }
            go(l, &led, "undelegate".into(), undelegate(*v, s.key, s.owner, w.payer), 77);
            if *pend == 0 {
                let led = donate(&donate(&led, &cstate(&s.key), rent(0)), &crecord(&s.key), SOL);
                go(l, &led, "undelegate".into(), undelegate(*v, s.key, s.owner, w.payer), 77);
            }
            // without signature
            let mut ix = undelegate(*v, s.key, s.owner, w.payer);
            ix.metas[0].signer = false;
            go(l, &led, "undelegate unsigned".into(), ix, 77);
        }
    });
}

/// C13: validator claims around the rent minimum.
pub fn grid_claim(run: &mut Run) {
    let w = world();
    let mut items = vec![];
    for over in (0..run.pick(40u64, 300)).chain([99, 100, 101, 999, SOL, 1 << 59]) {
        items.push(over);
    }
    cases(run, "validator claims", "vault balance from the rent minimum up x every small amount and boundaries", 29, &items, &|over, l| {
        let mut led = ready();
        let bal = rent(8) + over;
        led.edit(&vvault(&w.v1), |a| a.lamports = bal);
        let mut amts: Vec<Option<u64>> = vec![None];
        amts.extend((0..(over + 3).min(45)).map(Some));
        for x in [over.saturating_sub(1), *over, over + 1, bal.saturating_sub(1), bal, bal + 1, u64::MAX / 10, u64::MAX / 10 + 1, u64::MAX / 2, u64::MAX] {
            amts.push(Some(x));
        }
        for a in amts {
            for v in [w.v1, w.v2, w.v3] {
                go(l, &led, "claim".into(), validator_claim(v, a), 77);
            }
            // another validator's vault
            let mut ix = validator_claim(w.v2, a);
            ix.metas[2].key = vvault(&w.v1);
            go(l, &led, "claim another's".into(), ix, 77);
            let mut ix = validator_claim(w.v1, a);
            ix.metas[0].signer = false;
            l.run(&led, &Tx { label: "claim unsigned".into(), ixs: vec![ix] }, 77);
        }
    });
}

/// C14/C15: creation, claims and closing over pre-existing balances.
pub fn grid_vaults(run: &mut Run) {
    let w = world();
    let items: Vec<u64> = (0..run.pick(30u64, 200))
        .chain([rent(0) - 1, rent(0), rent(8) - 1, rent(8), rent(8) + 1, SOL, 1 << 59])
        .collect();
    cases(run, "vault balances", "lamports at vault addresses before creation, above the minimum at claims and closing", 5, &items, &|x, l| {
        let mut led = base();
        led.set(pvault(), Acct::wallet(*x));
        led.set(vvault(&w.v1), Acct::wallet(*x));
        for p in [w.payer, w.x, w.admin] {
            let o = go(l, &led, "init protocol vault".into(), init_protocol(p), 1);
            if o.ok {
                go(l, &o.ledger, "init protocol vault twice".into(), init_protocol(w.u1), 1);
                go(l, &o.ledger, "protocol claim".into(), protocol_claim(w.admin), 1);
            }
            for a in [w.admin, w.x] {
                for id in [w.v1, w.x] {
                    let o = go(l, &led, "init vault".into(), init_validator(p, a, id), 1);
                    if o.ok {
                        go(l, &o.ledger, "init vault twice".into(), init_validator(p, a, id), 1);
                        go(l, &o.ledger, "close vault".into(), close_validator(p, a, id), 1);
                    }
                }
            }
        }
        for minus in [false, true] {
            let mut led = ready();
            let b = if minus { rent(8).saturating_sub(*x + 1) } else { rent(8).saturating_add(*x) };
            led.edit(&pvault(), |a| a.lamports = b);
            led.edit(&vvault(&w.v1), |a| a.lamports = b);
            for a in [w.admin, w.x, w.auth_p] {
                go(l, &led, "protocol claim".into(), protocol_claim(a), 1);
                go(l, &led, "close vault".into(), close_validator(w.payer, a, w.v1), 1);
                go(l, &led, "close vault".into(), close_validator(a, a, w.v1), 1);
            }
        }
    });
    // authorities as recorded in the program's data account
    let auths: Vec<Option<Pubkey>> = vec![None, Some(w.admin), Some(w.x), Some(w.v1), Some(SYSTEM)];
    let mut items = vec![];
    for a in &auths {
        for signer in [w.admin, w.x, w.v1, w.payer] {
            for len in [0usize, 4, 12, 13, 44, 45, 64, 200] {
                items.push((*a, signer, len));
            }
        }
    }
    cases(run, "program authorities", "recorded upgrade authority x signer x size of the data account, and other state tags", 7, &items, &|(auth, signer, len), l| {
        for tag in [3u32, 0, 1, 2, 4] {
            for slot in [0u64, 7, u64::MAX] {
                // without an authority, the former one's key is left behind
                let mut d = match auth {
                    None => progdata_former(slot, *signer),
                    a => progdata_bytes(slot, *a),
                };
                d[..4].copy_from_slice(&tag.to_le_bytes());
                d.resize(*len, 0xEE);
                let mut led = ready();
                led.edit(&progdata(&DLP), |a| a.data = d.clone());
                for (n, ix) in [
                    ("protocol claim", protocol_claim(*signer)),
                    ("init vault", init_validator(w.payer, *signer, w.v3)),
                    ("close vault", close_validator(w.payer, *signer, w.v1)),
                    ("list", whitelist(*signer, w.v3, w.p, true)),
                    ("list", whitelist(*signer, w.v3, w.immut, true)),
                ] {
                    go(l, &led, n.into(), ix, 77);
                }
                let mut led = ready();
                led.edit(&progdata(&w.p), |a| a.data = d.clone());
                for ins in [true, false] {
                    go(l, &led, "list".into(), whitelist(*signer, w.v3, w.p, ins), 77);
                    go(l, &led, "list".into(), whitelist(*signer, w.v3, w.q, ins), 77);
                }
            }
        }
    });
}

/// C17/C16: one whitelist step from sets of many sizes and from pre-funded addresses.
pub fn grid_whitelist(run: &mut Run) {
    let w = world();
    let n = run.pick(16usize, 70);
    let items: Vec<usize> = (0..=n).chain([150, 300, 318, 319, 320, 321]).collect();
    cases(run, "whitelist steps", "sets of every size x inserted/removed entry before, between, after, present x pre-funding", 11, &items, &|n, l| {
        let set: Vec<Pubkey> = (0..*n)
            .map(|i| {
                let mut b = [7u8; 32];
                b[0] = (i / 64 * 4 + 2) as u8;
                b[1] = (i % 64 * 4 + 1) as u8;
                Pubkey::new_from_array(b)
            })
            .collect();
        let mut ids = vec![Pubkey::new_from_array([0; 32]), Pubkey::new_from_array([255; 32]), w.v1];
        for i in [0, n / 2, n.saturating_sub(1)] {
            if let Some(k) = set.get(i) {
                ids.push(*k);
                let every = if *n < 6 { 0..32 } else { 31..32 };
                ids.extend(every.map(|b| nearly(k, b)));
            }
        }
        for over in [0u64, 1, rent(32) - rent(0), SOL] {
            for fresh in [false, true] {
                let mut led = base();
                if !fresh {
                    led = with_config(led, &w.p, &set);
                    led.edit(&config(&w.p), |a| a.lamports += over);
                } else {
                    if *n > 0 {
                        continue;
                    }
                    led.set(config(&w.p), Acct::wallet(over));
                }
                for id in &ids {
                    for ins in [true, false] {
                        for a in [w.auth_p, w.admin, w.x] {
                            go(l, &led, "list".into(), whitelist(a, *id, w.p, ins), 77);
                        }
                    }
                }
            }
        }
    });
}

/// C18/C19/C20: escrows over amounts, balances, indices and users.
pub fn grid_escrow(run: &mut Run) {
    let w = world();
    let items: Vec<u8> = (0..=255).collect();
    let th = run.thorough;
    cases(run, "escrow indices", "every index: top up, delegate, commit, finalize, undelegate, close; other indices and users untouched", 13, &items, &|i, l| {
        let mut led = ready();
        // neighbours that must not be touched
        for (u, j) in [(w.u1, i.wrapping_add(1)), (w.u2, *i), (w.u2, i.wrapping_add(1)), (w.u1, i.wrapping_sub(1))] {
            led.set(escrow(&u, j), Acct::wallet(2 * SOL + j as u64));
        }
        for payer in [w.payer, w.u1] {
            let mut cur = led.clone();
            let dargs = DelegateArgs { freq: 3, seeds: vec![vec![*i]], validator: None };
            let e = escrow(&w.u1, *i);
            let steps = vec![
                ("top up", top_up(payer, w.u1, 5 * SOL, *i)),
                ("delegate escrow", delegate_escrow(payer, w.u1, *i, &dargs)),
                ("top up", top_up(payer, w.u1, 77, *i)),
                ("close", close_escrow(w.u1, *i)),
                ("commit", commit(w.v1, e, SYSTEM, 3, 4 * SOL, true, &[])),
                ("finalize", finalize(w.v1, e)),
                ("undelegate", undelegate(w.v1, e, SYSTEM, payer)),
                ("top up", top_up(payer, w.u1, 78, *i)),
                ("delegate escrow", delegate_escrow(payer, w.u1, *i, &dargs)),
                ("commit", commit(w.v1, e, SYSTEM, 0, 6 * SOL, true, &[])),
                ("finalize", finalize(w.v1, e)),
                ("undelegate", undelegate(w.v1, e, SYSTEM, payer)),
                ("close", close_escrow(w.u1, *i)),
                ("close", close_escrow(w.u1, *i)),
            ];
            for (n, ix) in steps {
                let o = go(l, &cur, format!("{n} {i}"), ix, 50);
                if o.ok {
                    cur = o.ledger;
                }
                // nobody else can close or delegate it, at any point
                for (u, j) in [(w.u2, *i), (w.x, *i), (w.u1, i.wrapping_add(1))] {
                    let mut ix = close_escrow(u, j);
                    ix.metas[1].key = e;
                    l.run(&cur, &Tx { label: "close another's".into(), ixs: vec![ix] }, 50);
                    let mut ix = close_escrow(w.u1, *i);
                    ix.data.truncate(8);
                    l.run(&cur, &Tx { label: "close without index".into(), ixs: vec![ix] }, 50);
                    let mut ix = delegate_escrow(w.payer, u, j, &dargs);
                    for (p, k) in [(2, e), (3, buffer(&e, &SYSTEM)), (4, record(&e)), (5, metadata(&e))] {
                        ix.metas[p].key = k;
                    }
                    l.run(&cur, &Tx { label: "delegate another's".into(), ixs: vec![ix] }, 50);
                    if th {
                        let mut ix = top_up(w.payer, u, 5, j);
                        ix.metas[2].key = e;
                        l.run(&cur, &Tx { label: "top up another's".into(), ixs: vec![ix] }, 50);
                    }
                }
            }
        }
    });
    let amts: Vec<u64> = vec![0, 1, 2, rent(0) - 1, rent(0), rent(0) + 1, SOL, WALLET - rent(0), WALLET - 1, WALLET, WALLET + 1, 1 << 62, u64::MAX];
    let bals: Vec<u64> = vec![0, 1, rent(0) - 1, rent(0), rent(0) + 1, SOL, 1 << 62];
    let mut items = vec![];
    for a in &amts {
        for b in &bals {
            items.push((*a, *b));
        }
    }
    cases(run, "escrow amounts", "top-up amount x prior balance x payer funds x delegated or not; closing at every balance", 7, &items, &|(amt, bal), l| {
        for deleg in [false, true] {
            for funds in [WALLET, 0, 1, rent(0), (*amt).min(1 << 62)] {
                for payer in [w.payer, w.u1, w.x] {
                    let s = Sub::escrow(w.u1, 3);
                    let mut led = ready();
                    if deleg {
                        if *bal == 0 {
                            continue;
                        }
                        led = with_delegated(led, &s.key, &Del::of(&s, &[]).lam(*bal));
                    } else {
                        led.set(s.key, Acct::wallet(*bal));
                    }
                    led.set(payer, Acct::wallet(funds));
                    go(l, &led, "top up".into(), top_up(payer, w.u1, *amt, 3), 1);
                    go(l, &led, "close".into(), close_escrow(w.u1, 3), 1);
                    let a = DelegateArgs { freq: 3, seeds: vec![], validator: Some(w.v1) };
                    go(l, &led, "delegate escrow".into(), delegate_escrow(payer, w.u1, 3, &a), 1);
                    let mut ix = delegate_escrow(w.payer, w.u1, 3, &a);
                    ix.metas[1].signer = false;
                    go(l, &led, "delegate escrow without its user".into(), ix, 1);
                    let mut ix = close_escrow(w.u1, 3);
                    ix.metas[0].signer = false;
                    go(l, &led, "close without its user".into(), ix, 1);
                }
            }
        }
    });
}

/// C11: every callback script over the hostile alphabet.
pub fn hostile(run: &mut Run) {
    let w = world();
    let alpha: Vec<u8> = owner::HOSTILE.iter().map(|x| x.0).collect();
    let maxlen = run.pick(3, 4);
    let mut scripts: Vec<Vec<u8>> = vec![vec![]];
    let mut layer: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..maxlen {
        let mut next = vec![];
        for s in &layer {
            for a in &alpha {
                let mut t = s.clone();
                t.push(*a);
                next.push(t);
            }
        }
        scripts.extend(next.iter().cloned());
        layer = next;
    }
    let create = |s: &[u8]| s.iter().any(|c| b"Ccmsg0".contains(c));
    if !run.thorough {
        // one operation more, for scripts that do hand the state back
        for s in &layer {
            for a in &alpha {
                let mut t = s.clone();
                t.push(*a);
                if create(&t) && t.contains(&b'W') {
                    scripts.push(t);
                }
            }
        }
    } else {
        for s in &layer {
            if create(s) && s.contains(&b'W') {
                for a in &alpha {
                    let mut t = s.clone();
                    t.push(*a);
                    scripts.push(t);
                }
            }
        }
    }
    let note = format!("{} callback scripts of up to {} operations x 3 balances x 2 states", scripts.len(), maxlen + 1);
    cases(run, "hostile callbacks", &note, 2003, &scripts, &|script, l| {
        let seeds = vec![b"h".to_vec(), script.clone()];
        let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
        let Some(key) = Pubkey::try_find_program_address(&refs, &w.h).map(|x| x.0) else { return };
        let s = Sub { key, owner: w.h, seeds };
        let zero_matters = !script.contains(&b'W');
        for bytes in [&[9u8, 8, 7][..], &[0, 0, 0]] {
            if bytes[0] == 0 && !zero_matters && script.len() > 3 {
                continue;
            }
            for extra in [0u64, 100, 5 * SOL] {
                let mut led = ready();
                led.set(key, Acct::none());
                let led = with_delegated(led, &key, &Del::of(&s, bytes).lam(rent(3) + extra).allow());
                go(l, &led, format!("undelegate with callback {}", String::from_utf8_lossy(script)), undelegate(w.v1, key, w.h, w.payer), 77);
            }
        }
    });
    // the same through validators that are also the rent payer
    let short: Vec<Vec<u8>> = scripts.iter().filter(|s| s.len() <= 3 && create(s)).cloned().collect();
    cases(run, "hostile callbacks, validator paid the rent", "scripts of up to 3 operations", 509, &short, &|script, l| {
        let seeds = vec![b"h".to_vec(), script.clone()];
        let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
        let Some(key) = Pubkey::try_find_program_address(&refs, &w.h).map(|x| x.0) else { return };
        let s = Sub { key, owner: w.h, seeds };
        for extra in [0u64, 100] {
            let led = with_delegated(ready(), &key, &Del::of(&s, &[9, 8, 7]).lam(rent(3) + extra).allow().rent_payer(w.v1));
            go(l, &led, format!("undelegate with callback {}", String::from_utf8_lossy(script)), undelegate(w.v1, key, w.h, w.v1), 77);
        }
    });
    cases(run, "hostile callbacks, poor and rich validators", "scripts of up to 3 operations x 7 balances of the validator, as rent payer or not", 509, &short, &|script, l| {
        let seeds = vec![b"h".to_vec(), script.clone()];
        let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
        let Some(key) = Pubkey::try_find_program_address(&refs, &w.h).map(|x| x.0) else { return };
        let s = Sub { key, owner: w.h, seeds };
        for have in [rent(3), rent(3) + 1, rent(3) + rent(0), 2 * rent(3), SOL, 3 * SOL, 1 << 58] {
            for rp in [w.v1, w.payer] {
                let mut led = with_delegated(ready(), &key, &Del::of(&s, &[9, 8, 7]).allow().rent_payer(rp));
                led.set(w.v1, Acct::wallet(have));
                l.run(&led, &Tx { label: format!("undelegate with callback {}", String::from_utf8_lossy(script)), ixs: vec![undelegate(w.v1, key, w.h, rp)] }, 77);
            }
        }
    });
    // states of every kind of length: handed back whole, or with one byte changed, or cut short
    let sizes: Vec<usize> = vec![1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1232, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10239, 10240];
    let mut items = vec![];
    for n in sizes {
        let mut at: Vec<usize> = vec![0, 1, 7, 8, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, n / 2, n.saturating_sub(2), n - 1];
        if n <= run.pick(65, 1025) {
            at.extend(0..n);
        }
        at.retain(|x| *x < n);
        at.sort();
        at.dedup();
        for s in [&b"CW"[..], b"C", b"CWY", b"CWZ", b"sW", b"gW", b"0W", b"0", b"CWq", b"CWr", b"CWqr", b"cW", b"CWU"] {
            items.push((n, s.to_vec()));
        }
        for p in at {
            let mut s = b"CWP".to_vec();
            s.extend((p as u16).to_le_bytes());
            items.push((n, s));
        }
    }
    cases(run, "hostile callbacks, larger states", "states of 1 to 10240 bytes, handed back as they are, with the byte at each place changed, cut, grown or zeroed", 211, &items, &|(n, script), l| {
        let seeds = vec![b"h".to_vec(), script.clone()];
        let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
        let Some(key) = Pubkey::try_find_program_address(&refs, &w.h).map(|x| x.0) else { return };
        let s = Sub { key, owner: w.h, seeds };
        let mixed: Vec<u8> = (0..*n).map(|i| (i % 251 + 1) as u8).collect();
        for bytes in [mixed, vec![0; *n]] {
            let led = with_delegated(ready(), &key, &Del::of(&s, &bytes).lam(rent(*n) + 100).allow());
            go(l, &led, format!("undelegate {n} bytes with callback {}", script.escape_ascii()), undelegate(w.v1, key, w.h, w.payer), 77);
        }
    });
    let _ = wire::CALLBACK;
}
