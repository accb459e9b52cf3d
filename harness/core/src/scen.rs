//! One world in which every operation has several valid instances at once, and the pool of accounts
//! used to attack them.

use crate::svm::*;
use crate::wire::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Scen {
    pub name: String,
    pub op: Op,
    pub led: Ledger,
    pub ix: Ix,
    pub slot: u64,
}

pub struct Rich {
    pub led: Ledger,
    /// without the protocol vault
    pub bare: Ledger,
    pub scens: Vec<Scen>,
    pub pool: Vec<Pubkey>,
    pub small_pool: Vec<Pubkey>,
    pub subs: Vec<Sub>,
    pub forged: Vec<Pubkey>,
    pub statebufs: Vec<Pubkey>,
}

pub fn sub(owner: Pubkey, tag: &str, n: &str) -> Sub {
    Sub::pda(owner, vec![tag.as_bytes().to_vec(), vec![1, 2, 3]], n)
}

/// Assigned to the delegation program and signing, as in the middle of its owner's delegate flow.
fn midflow(mut l: Ledger, s: &Sub, lam: u64, bytes: &[u8]) -> Ledger {
    l.set(s.key, Acct::new(lam, DLP, vec![0; bytes.len()]));
    if s.owner != SYSTEM {
        l.set(buffer(&s.key, &s.owner), Acct::new(rent(bytes.len()), s.owner, bytes.to_vec()));
    }
    l
}

pub fn rich() -> &'static Rich {
    static R: OnceLock<Rich> = OnceLock::new();
    R.get_or_init(build)
}

fn build() -> Rich {
    let w = world();
    let (p, q) = (w.p, w.q);
    let a = w.a.clone();
    let a2 = sub(p, "a2", "A2'");
    let a3 = sub(p, "a3", "A3");
    let a4 = sub(p, "a4", "A4");
    let a5 = sub(p, "a5", "A5");
    let b = w.b.clone();
    let b2 = sub(q, "b2", "B2");
    let b3 = sub(q, "b3", "B3");
    let b4 = sub(q, "b4", "B4");
    let c = w.c.clone();
    let c2k = {
        use solana_sdk::signer::Signer;
        keypair(21).pubkey()
    };
    name_family(&c2k, &SYSTEM, "C2");
    let c2 = Sub { key: c2k, owner: SYSTEM, seeds: vec![] };
    let e = |u: Pubkey, i: u8| Sub::escrow(u, i);
    let (e10, e11, e12, e13, e20, e21) = (e(w.u1, 0), e(w.u1, 1), e(w.u1, 2), e(w.u1, 3), e(w.u2, 0), e(w.u2, 1));

    let mut l = ready();
    l.edit(&vvault(&w.v1), |a| a.lamports += 1_000_003);
    l.edit(&vvault(&w.v2), |a| a.lamports += 500_017);
    l.edit(&pvault(), |a| a.lamports += 77_777);
    l = with_config(l, &p, &[w.v1, w.v2]);
    let d8 = [1u8, 2, 3, 4, 5, 6, 7, 8];
    let base = rent(8) + 200_000;
    l = with_delegated(l, &a.key, &Del::of(&a, &d8).lam(base).last(5));
    l = with_delegated(l, &a2.key, &Del::of(&a2, &d8).lam(base).last(4));
    l = with_pending(l, &a2.key, &w.v1, 6, base + 777, &[9; 11]);
    l = with_delegated(l, &a3.key, &Del::of(&a3, &d8).lam(base).last(4));
    l = with_pending(l, &a3.key, &w.v2, 7, base - 555, &[8; 5]);
    l = with_delegated(l, &a4.key, &Del::of(&a4, &d8).lam(base).last(4).allow());
    l = midflow(l, &a5, base, &d8);
    l = with_delegated(l, &b.key, &Del::of(&b, &[5; 3]).lam(base).last(3).rent_payer(w.u2));
    l = with_delegated(l, &b2.key, &Del::of(&b2, &[5; 3]).lam(base).rent_payer(w.u2));
    l = with_pending(l, &b2.key, &w.v1, 2, base, &[6; 3]);
    l = with_delegated(l, &b3.key, &Del::of(&b3, &[5; 9]).lam(base).last(2).allow().rent_payer(w.u2));
    l = midflow(l, &b4, base, &[4; 13]);
    l.set(c.key, Acct::new(2 * SOL, DLP, vec![]));
    l = with_delegated(l, &c2.key, &Del::of(&c2, &[]).lam(SOL).last(2).allow().rent_payer(w.u1));
    l.set(e10.key, Acct::wallet(3 * SOL));
    l.set(e20.key, Acct::wallet(4 * SOL));
    for (x, allow, pend) in [(&e11, false, false), (&e12, true, true), (&e13, true, false), (&e21, false, false)] {
        let mut d = Del::of(x, &[]).lam(2 * SOL).last(1);
        d.allow = allow;
        d.rent_payer = if x.key == e21.key { w.u2 } else { w.payer };
        l = with_delegated(l, &x.key, &d);
        if pend {
            l = with_pending(l, &x.key, &w.v1, 3, SOL, &[]);
        }
    }
    // Accounts an attacker could bring about: owned by the delegation program (assigned to it, as
    // every delegated account is) with contents of its choice.
    let mut forged = vec![];
    let mut forge = |l: &mut Ledger, i: u8, n: &str, acct: Acct| {
        use solana_sdk::signer::Signer;
        let k = keypair(i).pubkey();
        name(&k, format!("forged-{n}"));
        l.set(k, acct);
        forged.push(k);
    };
    let dlp_owned = |d: Vec<u8>| Acct::new(rent(d.len()) + 10_000_000, DLP, d);
    let rec = l.get(&record(&a.key)).data.clone();
    let met = Metadata { last: 0, allow: true, seeds: a.seeds.clone(), rent_payer: w.x }.enc();
    forge(&mut l, 60, "record", dlp_owned(rec));
    forge(&mut l, 61, "metadata", dlp_owned(met));
    forge(&mut l, 62, "commit-record", dlp_owned(CommitRec { identity: w.v1, account: a2.key, slot: 6, lamports: base + 10_000_000 }.enc()));
    forge(&mut l, 63, "whitelist", dlp_owned(Config([w.v3, w.x, w.v1, w.v2].into_iter().collect()).enc()));
    forge(&mut l, 64, "vault", dlp_owned(vec![0; 8]));
    forge(&mut l, 65, "empty", dlp_owned(vec![]));
    forge(&mut l, 66, "record2", dlp_owned(Record { authority: w.v1, owner: w.x, slot: 1, lamports: 5, freq: 1 }.enc()));
    let pd = progdata_bytes(3, Some(w.x));
    forge(&mut l, 67, "programdata-of-X", Acct::new(SOL, w.h, pd.clone()));
    forge(&mut l, 68, "programdata-dlp-owned", dlp_owned(pd.clone()));
    // a loader-owned buffer account may carry any bytes after its header; and X may own a real program
    forge(&mut l, 69, "loader-buffer", Acct::new(SOL, LOADER, {
        let mut d = 1u32.to_le_bytes().to_vec();
        d.push(1);
        d.extend(w.x.as_ref());
        d.extend(&pd);
        d
    }));
    let xprog = {
        use solana_sdk::signer::Signer;
        keypair(70).pubkey()
    };
    name(&xprog, "XPROG");
    name(&progdata(&xprog), "programdata(XPROG)");
    name(&config(&xprog), "whitelist(XPROG)");
    l.set(xprog, Acct { lamports: SOL, owner: LOADER, executable: true, data: vec![] });
    l.set(progdata(&xprog), Acct::new(SOL, LOADER, progdata_bytes(4, Some(w.x))));
    let mut statebufs = vec![];
    for (i, bytes) in [(80u8, vec![3u8; 7]), (81, vec![0u8; 40]), (82, vec![])] {
        use solana_sdk::signer::Signer;
        let k = keypair(i).pubkey();
        name(&k, format!("statebuf{}", i - 80));
        l.set(k, Acct::new(rent(bytes.len()), if i == 81 { w.v2 } else { p }, bytes));
        statebufs.push(k);
    }

    let mut bare = l.clone();
    bare.set(pvault(), Acct::none());
    let mut scens: Vec<Scen> = vec![];
    let mut add = |name: &str, ix: Ix| {
        let op = parse(&ix.data).unwrap().0;
        scens.push(Scen { name: name.into(), op, led: if op == Op::InitProtocol { bare.clone() } else { l.clone() }, ix, slot: 77 });
    };
    add("delegate A5", delegate(w.payer, a5.key, p, &args(&a5, Some(w.v1))));
    add("delegate B4", delegate(w.u1, b4.key, q, &args(&b4, None)));
    add("delegate C", delegate(w.payer, c.key, SYSTEM, &args(&c, Some(w.v2))));
    add("commit A by V1", commit(w.v1, a.key, p, 5, base + 100, true, &[7; 12]));
    add("commit A by V2", commit(w.v2, a.key, p, 6, base - 100, false, &[0; 8]));
    add("commit B by V2", commit(w.v2, b.key, q, 9, base, false, &[7; 2]));
    add("commit escrow(U1,1)", commit(w.v1, e11.key, SYSTEM, 1, SOL, true, &[]));
    add("outdated commit A", commit(w.v1, a.key, p, 4, base + 100, true, &[7; 12]));
    add("commit A from buffer", commit_buffer(w.v1, a.key, p, statebufs[0], 5, base + 100, true));
    add("commit B from buffer", commit_buffer(w.v2, b.key, q, statebufs[1], 8, base, false));
    add("commit escrow(U2,1) from buffer", commit_buffer(w.v1, e21.key, SYSTEM, statebufs[2], 8, 3 * SOL, false));
    add("outdated commit A from buffer", commit_buffer(w.v1, a.key, p, statebufs[0], 2, base, true));
    add("finalize A2'", finalize(w.v1, a2.key));
    add("finalize A3", finalize(w.v2, a3.key));
    add("finalize B2", finalize(w.v1, b2.key));
    add("finalize escrow(U1,2)", finalize(w.v1, e12.key));
    add("finalize nothing", finalize(w.v1, a.key));
    add("undelegate A4", undelegate(w.v1, a4.key, p, w.payer));
    add("undelegate B3", undelegate(w.v2, b3.key, q, w.u2));
    add("undelegate C2", undelegate(w.v1, c2.key, SYSTEM, w.u1));
    add("undelegate escrow(U1,3)", undelegate(w.v2, e13.key, SYSTEM, w.payer));
    add("init protocol vault", init_protocol(w.payer));
    add("init vault V3", init_validator(w.payer, w.admin, w.v3));
    add("init vault X", init_validator(w.admin, w.admin, w.x));
    add("close vault V1", close_validator(w.payer, w.admin, w.v1));
    add("close vault V2", close_validator(w.admin, w.admin, w.v2));
    add("claim V1 1000", validator_claim(w.v1, Some(1000)));
    add("claim V2 all", validator_claim(w.v2, None));
    add("protocol claim", protocol_claim(w.admin));
    add("list V3 for P", whitelist(w.auth_p, w.v3, p, true));
    add("list V1 for Q", whitelist(w.auth_q, w.v1, q, true));
    add("unlist V1 for P by admin", whitelist(w.admin, w.v1, p, false));
    add("list V1 for Immutable by admin", whitelist(w.admin, w.v1, w.immut, true));
    add("list X for XPROG", whitelist(w.x, w.x, xprog, true));
    add("top up escrow(U1,0)", top_up(w.payer, w.u1, 5000, 0));
    add("top up escrow(U2,1) delegated", top_up(w.u2, w.u2, 6000, 1));
    add("top up escrow(U1,7) new", top_up(w.payer, w.u1, 0, 7));
    add("close escrow(U1,0)", close_escrow(w.u1, 0));
    add("close escrow(U2,0)", close_escrow(w.u2, 0));
    add("close escrow(U1,9) absent", close_escrow(w.u1, 9));
    add("delegate escrow(U1,0)", delegate_escrow(w.payer, w.u1, 0, &DelegateArgs { freq: 9, seeds: vec![vec![1]], validator: Some(w.v1) }));
    add("delegate escrow(U2,0)", delegate_escrow(w.u2, w.u2, 0, &DelegateArgs { freq: 0, seeds: vec![], validator: None }));

    let subs = vec![a, a2, a3, a4, a5, b, b2, b3, b4, c, c2, e10, e11, e12, e13, e20, e21];
    let mut pool: Vec<Pubkey> = l.iter().map(|x| *x.0).collect();
    for s in &subs {
        for k in [record(&s.key), metadata(&s.key), cstate(&s.key), crecord(&s.key), ubuf(&s.key), buffer(&s.key, &s.owner)] {
            pool.push(k);
        }
    }
    for k in [w.p, w.q, w.h, w.immut, xprog, SYSTEM, w.x] {
        pool.push(config(&k));
    }
    for k in [w.v1, w.v2, w.v3, w.x, w.admin, w.payer] {
        pool.push(vvault(&k));
    }
    for k in [record(&w.x), metadata(&w.x), cstate(&w.x)] {
        pool.push(k);
    }
    pool.push(pvault());
    pool.push(Pubkey::new_from_array([200; 32]));
    pool.sort();
    pool.dedup();
    let find = |n: &str| subs.iter().find(|s| name_of(&s.key).unwrap() == n).unwrap().clone();
    let (a, a2, a4, b3, e12) = (find("A"), find("A2'"), find("A4"), find("B3"), find("escrow(U1,2)"));
    let small_pool = vec![
        w.x, w.v2, w.v3, w.admin, w.u2, w.q, SYSTEM, xprog, progdata(&xprog), config(&xprog), vvault(&w.v2), vvault(&w.x), pvault(),
        record(&a.key), metadata(&a.key), a2.key, record(&a2.key), metadata(&a2.key), cstate(&a2.key), crecord(&a2.key),
        a4.key, record(&a4.key), metadata(&a4.key), b3.key, record(&b3.key), metadata(&b3.key), e12.key, cstate(&e12.key),
        crecord(&e12.key), record(&w.x), cstate(&a.key), crecord(&a.key), config(&w.q),
        forged[0], forged[1], forged[2], forged[3], forged[4], forged[5], forged[7], forged[9],
    ];
    Rich { led: l, bare, scens, pool, small_pool, subs, forged, statebufs }
}
