//! Explorations of the crate's client-facing interface: instruction builders and address helpers (C26)
//! and account codecs (C27).  A program of its own, so that a change of these interfaces cannot keep the
//! other checks from building.

use dlp::args as da;
use dlp::instruction_builder as ib;
use dlp::state as st;
use dlp_mc::*;
use mc_core::explore::*;
use mc_core::hist;
use mc_core::life::Alphabet;
use mc_core::scen::rich;
use mc_core::spec::{short, Evals, Viol};
use mc_core::svm::*;
use mc_core::wire::{self, Args, Op};
use mc_core::world::*;
use mc_core::{checks, drivers};
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;
use std::time::Instant;

fn dargs(a: &wire::DelegateArgs) -> da::DelegateArgs {
    da::DelegateArgs { commit_frequency_ms: a.freq, seeds: a.seeds.clone(), validator: a.validator }
}

/// The instruction the crate's builder makes for the operation of a canonical instruction.
fn built(ix: &Ix) -> Option<Instruction> {
    if ix.program != wire::DLP {
        return None;
    }
    let (op, args) = wire::parse(&ix.data)?;
    let k: Vec<Pubkey> = ix.metas.iter().map(|m| m.key).collect();
    if k.len() != op.n_accounts() {
        return None;
    }
    // the owner is not an account of a commit, only its whitelist is
    let owner = || OWNERS.iter().map(|f| f()).find(|o| wire::config(o) == *k.iter().rev().nth(1).unwrap());
    Some(match (op, args) {
        (Op::Delegate, Args::Delegate(a)) => ib::delegate(k[0], k[1], Some(k[2]), dargs(&a)),
        (Op::Commit, Args::Commit { slot, lamports, allow, data }) => {
            ib::commit_state(k[0], k[1], owner()?, da::CommitStateArgs { slot, lamports, allow_undelegation: allow, data })
        }
        (Op::CommitBuffer, Args::CommitBuffer { slot, lamports, allow }) => ib::commit_state_from_buffer(
            k[0],
            k[1],
            owner()?,
            k[6],
            da::CommitStateFromBufferArgs { slot, lamports, allow_undelegation: allow },
        ),
        (Op::Finalize, _) => ib::finalize(k[0], k[1]),
        (Op::Undelegate, _) => ib::undelegate(k[0], k[1], k[2], k[8]),
        (Op::InitProtocol, _) => ib::init_protocol_fees_vault(k[0]),
        (Op::InitValidator, _) => ib::init_validator_fees_vault(k[0], k[1], k[3]),
        (Op::CloseValidator, _) => ib::close_validator_fees_vault(k[0], k[1], k[3]),
        (Op::ValidatorClaim, Args::Claim(x)) => ib::validator_claim_fees(k[0], x),
        (Op::ProtocolClaim, _) => ib::protocol_claim_fees(k[0]),
        (Op::Whitelist, Args::Whitelist(b)) => ib::whitelist_validator_for_program(k[0], k[1], k[2], b),
        (Op::TopUp, Args::TopUp { amount, index }) => ib::top_up_ephemeral_balance(k[0], k[1], Some(amount), Some(index)),
        (Op::CloseEscrow, Args::CloseEscrow { index }) => ib::close_ephemeral_balance(k[0], index),
        (Op::DelegateEscrow, Args::DelegateEscrow(a, index)) => {
            ib::delegate_ephemeral_balance(k[0], k[1], da::DelegateEphemeralBalanceArgs { delegate_args: dargs(&a), index })
        }
        _ => return None,
    })
}
const OWNERS: [fn() -> Pubkey; 6] =
    [|| world().p, || world().q, || world().h, || SYSTEM, || world().immut, || world().x];

fn to_ix(i: &Instruction) -> Ix {
    Ix {
        program: i.program_id,
        metas: i.accounts.iter().map(|m| Meta { key: m.pubkey, signer: m.is_signer, writable: m.is_writable }).collect(),
        data: i.data.clone(),
    }
}

fn compare(want: &Ix, got: &Instruction) -> Option<String> {
    let op = wire::parse(&want.data).unwrap().0;
    if got.program_id != want.program {
        return Some(format!("{op:?} builder addresses program {}", got.program_id));
    }
    let g = wire::parse(&got.data);
    let w = wire::parse(&want.data);
    if g != w {
        return Some(format!("{op:?} builder encodes {g:?} instead of {w:?}"));
    }
    if got.data[..8] != want.data[..8] {
        return Some(format!("{op:?} builder's operation number is {:?}", &got.data[..8]));
    }
    if got.accounts.len() < want.metas.len() {
        return Some(format!("{op:?} builder passes only {} accounts", got.accounts.len()));
    }
    for (i, (m, w)) in got.accounts.iter().zip(&want.metas).enumerate() {
        let role = op.roles()[i];
        if m.pubkey != w.key {
            return Some(format!("{op:?} builder passes {} as {role} instead of {}", short(&m.pubkey), short(&w.key)));
        }
        if m.is_signer != w.signer {
            return Some(format!("{op:?} builder: signature of {role}: {} instead of {}", m.is_signer, w.signer));
        }
        if w.writable && !m.is_writable {
            return Some(format!("{op:?} builder: {role} has to be writable"));
        }
    }
    if got.accounts[want.metas.len()..].iter().any(|m| m.is_signer) {
        return Some(format!("{op:?} builder requires surplus signatures"));
    }
    None
}

const T26: &[&str] = &["C26"];

fn same_effect(l: &Ledger, tx: &Tx, slot: u64, want: &Out, ev: &mut Evals) -> Vec<Viol> {
    let mut ixs = vec![];
    let mut any = false;
    for i in &tx.ixs {
        match built(i) {
            Some(b) => {
                any = true;
                ixs.push(to_ix(&b));
            }
            None => ixs.push(i.clone()),
        }
    }
    if !any {
        return vec![];
    }
    ev.hit(&["C26"], "built instruction executed");
    let o = exec(l, &Tx { label: tx.label.clone(), ixs }, slot);
    if o.ok != want.ok {
        return vec![Viol::new(
            T26,
            format!("as built it {}: {}{}", if o.ok { "succeeds" } else { "fails" }, o.err, want.err),
        )];
    }
    if o.ok && o.ledger != want.ledger {
        return vec![Viol::new(T26, "as built it has another effect")];
    }
    vec![]
}

fn c26(run: &mut Run) {
    // every valid instance, built by the crate
    let ss: Vec<_> = rich().scens.iter().collect();
    cases(run, "built valid instances", "each operation's valid instances through its builder, executed", 1, &ss, &|s, l| {
        let Some(b) = built(&s.ix) else {
            return;
        };
        l.evals.hit(&["C26"], "builder");
        let bad = compare(&s.ix, &b);
        if let Some(m) = bad {
            l.fail(Viol::new(T26, m), &s.led, vec![Step { tx: Tx::new(s.name.clone(), s.ix.clone()), slot: s.slot }], None);
        }
        let tx = Tx::new(s.name.clone(), s.ix.clone());
        let want = exec(&s.led, &tx, s.slot);
        let btx = Tx::new(format!("built {}", s.name), to_ix(&b));
        let got = l.run(&s.led, &btx, s.slot);
        if !got.ok || !want.ok || got.ledger != want.ledger {
            let m = format!("the built {:?} {}", s.op, if got.ok { "has another effect".into() } else { format!("fails: {}", got.err) });
            l.fail(Viol::new(T26, m), &s.led, vec![Step { tx: btx.clone(), slot: s.slot }], None);
        }
        l.offer(&s.led, vec![Step { tx: btx, slot: s.slot }]);
    });
    // argument and key grids
    let w = world();
    let keys: Vec<Pubkey> = {
        let mut k = vec![w.v1, w.v2, w.a.key, w.c.key, wire::escrow(&w.u1, 0), Pubkey::default(), Pubkey::new_from_array([255; 32]), wire::DLP];
        if run.thorough {
            k.extend([w.admin, w.u1, w.p, w.b.key, wire::record(&w.a.key), wire::pvault()]);
        }
        k
    };
    let ints: Vec<u64> = {
        let mut v = vec![0, 1, 255, 256, 0x0102030405060708, u64::MAX];
        if run.thorough {
            v.extend((0..64).map(|i| 1u64 << i));
            v.extend((1..64).map(|i| (1u64 << i) - 1));
        }
        v
    };
    let mut blobs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1, 2, 3], vec![255; 40], (0..=255).collect(), vec![7; 1024]];
    for k in 3..=16 {
        for n in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            blobs.push(vec![0; n]);
            blobs.push((0..n).map(|i| (i * 37 + 1) as u8).collect());
        }
    }
    for n in [900, 1000, 1012, 1200, 1232, 1300, 10_000, 10_239, 10_240, 10_241] {
        blobs.push(vec![9; n]);
    }
    let seeds: Vec<Vec<Vec<u8>>> = vec![
        vec![],
        vec![vec![]],
        vec![vec![1]],
        vec![b"a".to_vec(), vec![], vec![9; 32]],
        (0..16).map(|i| vec![i; i as usize]).collect(),
        vec![vec![5; 32]; 17],
        vec![vec![]; 33],
        vec![vec![6; 33]],
        vec![vec![0; 300], vec![1, 0]],
        vec![vec![0; 32]],
    ];
    let mut items: Vec<Ix> = vec![];
    for a in &keys {
        items.push(wire::init_protocol(*a));
        items.push(wire::protocol_claim(*a));
        for x in &ints {
            items.push(wire::validator_claim(*a, Some(*x)));
        }
        items.push(wire::validator_claim(*a, None));
        for i in 0..=255u8 {
            items.push(wire::close_escrow(*a, i));
            items.push(wire::top_up(w.payer, *a, 77, i));
            items.push(wire::delegate_escrow(w.payer, *a, i, &wire::DelegateArgs { freq: i as u32, seeds: vec![vec![i]], validator: Some(*a) }));
        }
        for x in &ints {
            items.push(wire::top_up(*a, w.u1, *x, 3));
        }
        for b in &keys {
            items.push(wire::finalize(*a, *b));
            items.push(wire::top_up(*a, *b, 5, 9));
            for c in &keys {
                items.push(wire::init_validator(*a, *b, *c));
                items.push(wire::close_validator(*a, *b, *c));
                for ins in [true, false] {
                    items.push(wire::whitelist(*a, *b, *c, ins));
                }
                items.push(wire::undelegate(*a, *b, *c, w.payer));
                items.push(wire::undelegate(*a, *b, w.p, *c));
                items.push(wire::commit_buffer(*a, *b, w.p, *c, 3, 4, true));
                items.push(wire::delegate(*a, *b, *c, &wire::DelegateArgs { freq: 1, seeds: vec![vec![1]], validator: None }));
            }
        }
        for f in OWNERS {
            items.push(wire::commit(w.v1, *a, f(), 1, 2, false, &[3]));
            items.push(wire::commit_buffer(w.v1, *a, f(), w.u2, 1, 2, false));
        }
    }
    for s in &ints {
        for x in &ints {
            for allow in [true, false] {
                items.push(wire::commit_buffer(w.v1, w.a.key, w.p, w.u2, *s, *x, allow));
                for d in &blobs {
                    if run.thorough || d.len() < 50 {
                        items.push(wire::commit(w.v1, w.a.key, w.p, *s, *x, allow, d));
                    }
                }
            }
        }
    }
    for d in &blobs {
        items.push(wire::commit(w.v1, w.a.key, w.p, 1, 2, true, d));
        items.push(wire::commit(w.v2, w.c.key, SYSTEM, u64::MAX, 0, false, d));
    }
    for x in mc_core::drivers::edges() {
        items.push(wire::validator_claim(w.v1, Some(x)));
        items.push(wire::top_up(w.payer, w.u1, x, 0));
        items.push(wire::commit(w.v1, w.a.key, w.p, x, 5, true, &[1]));
        items.push(wire::commit(w.v1, w.a.key, w.p, 5, x, false, &[1]));
        items.push(wire::commit_buffer(w.v1, w.a.key, w.p, w.u2, x, 5, true));
        items.push(wire::commit_buffer(w.v1, w.a.key, w.p, w.u2, 5, x, false));
        if let Ok(f) = u32::try_from(x) {
            items.push(wire::delegate(w.payer, w.a.key, w.p, &wire::DelegateArgs { freq: f, seeds: vec![vec![1]], validator: None }));
            items.push(wire::delegate_escrow(w.payer, w.u1, 3, &wire::DelegateArgs { freq: f, seeds: vec![], validator: None }));
        }
    }
    for f in [0u32, 1, 255, 256, 0x01020304, u32::MAX] {
        for s in &seeds {
            for v in [None, Some(Pubkey::default()), Some(w.v1), Some(Pubkey::new_from_array([255; 32]))] {
                let a = wire::DelegateArgs { freq: f, seeds: s.clone(), validator: v };
                items.push(wire::delegate(w.payer, w.a.key, w.p, &a));
                for i in [0, 1, 255] {
                    items.push(wire::delegate_escrow(w.payer, w.u1, i, &a));
                }
            }
        }
    }
    let note = format!("{} combinations of operation, keys and arguments", items.len());
    cases(run, "builder grid", &note, 0, &items, &|ix, l| {
        l.evals.hit(&["C26"], "builder");
        l.tick(&ix.data, ix.metas.iter().map(|m| m.key));
        let bad = match built(ix) {
            None => Some(format!("no builder for {:?}", wire::parse(&ix.data))),
            Some(b) => compare(ix, &b),
        };
        if let Some(m) = bad {
            l.fail(Viol::new(T26, m), &Ledger::default(), vec![Step { tx: Tx::new("", ix.clone()), slot: 1 }], None);
        }
    });
    // defaults
    cases(run, "builder defaults", "optional builder arguments left out", 0, &keys, &|k, l| {
        l.evals.hit(&["C26"], "builder default");
        l.tick(k.as_ref(), []);
        let d = wire::DelegateArgs { freq: 3, seeds: vec![], validator: None };
        let mut bad = compare(&wire::delegate(w.payer, *k, SYSTEM, &d), &ib::delegate(w.payer, *k, None, dargs(&d)));
        bad = bad.or(compare(&wire::top_up(w.payer, *k, 5, 0), &ib::top_up_ephemeral_balance(w.payer, *k, Some(5), None)));
        bad = bad.or(compare(&wire::top_up(w.payer, *k, 10_000, 7), &ib::top_up_ephemeral_balance(w.payer, *k, None, Some(7))));
        if let Some(m) = bad {
            l.fail(Viol::new(T26, m), &Ledger::default(), vec![], None);
        }
    });
    // address helpers
    let mut pool = rich().pool.clone();
    pool.extend(keys.iter());
    pool.sort();
    pool.dedup();
    let note = format!("every helper for {} keys, {} pairs, and every escrow index", pool.len(), pool.len() * 6);
    cases(run, "address helpers", &note, 0, &pool, &|k, l| {
        use dlp::pda as p;
        l.tick(k.as_ref(), []);
        let mut pairs = vec![
            ("delegation record", p::delegation_record_pda_from_delegated_account(k), wire::record(k)),
            ("delegation metadata", p::delegation_metadata_pda_from_delegated_account(k), wire::metadata(k)),
            ("commit state", p::commit_state_pda_from_delegated_account(k), wire::cstate(k)),
            ("commit record", p::commit_record_pda_from_delegated_account(k), wire::crecord(k)),
            ("undelegate buffer", p::undelegate_buffer_pda_from_delegated_account(k), wire::ubuf(k)),
            ("protocol fees vault", p::fees_vault_pda(), wire::pvault()),
            ("validator fees vault", p::validator_fees_vault_pda_from_validator(k), wire::vvault(k)),
            ("program config", p::program_config_from_program_id(k), wire::config(k)),
        ];
        for f in OWNERS {
            let o = f();
            pairs.push(("delegate buffer", p::delegate_buffer_pda_from_delegated_account_and_owner_program(k, &o), wire::buffer(k, &o)));
        }
        let all = keys.contains(k);
        for i in 0..=255u8 {
            if all || i % 51 == 0 {
                pairs.push(("ephemeral balance", p::ephemeral_balance_pda_from_payer(k, i), wire::escrow(k, i)));
            }
        }
        for (n, got, want) in pairs {
            l.evals.hit(&["C26"], "address helper");
            if got != want {
                l.fail(Viol::new(T26, format!("the {n} helper returns another address than the program uses")), &Ledger::default(), vec![], None);
            }
        }
    });
    // whole histories through the builders
    let mut al = hist::al_core(run);
    al.delegators = vec![w.payer];
    al.vault_admin = vec![(w.admin, w.v1)];
    al.lists = vec![(w.auth_p, w.p, w.v1)];
    al.claims = vec![(w.v1, None), (w.v1, Some(1))];
    al.pclaims = vec![w.admin];
    al.slots = run.pick(vec![0, 1], vec![0, 1, 2]);
    if !run.thorough {
        al.finalizers = vec![w.v1];
        al.undelegators = vec![w.v1];
        al.datas.truncate(2);
    }
    let after = |l: &Ledger, _m: &mc_core::model::Model, s: &Step, o: &Out, ev: &mut Evals| same_effect(l, &s.tx, s.slot, o, ev);
    let mut sp = hist::Spec::new("histories through the builders", "every step also executed as the builder makes it", vec![hist::owned(&w.a)], al);
    sp.after = Some(&after);
    hist::go(run, &sp);
    let mut al = Alphabet::new();
    let e = Sub::escrow(w.u1, 0);
    al.subs = vec![e.clone()];
    al.datas = vec![vec![]];
    al.lams = vec![0, SOL];
    al.committers = vec![w.v1];
    al.finalizers = vec![w.v1];
    al.undelegators = vec![w.v1];
    al.topups = vec![(w.payer, w.u1, SOL, 0), (w.u1, w.u1, 1, 0)];
    al.closes = vec![(w.u1, 0)];
    al.escrow_delegs = vec![(w.payer, w.u1, 0), (w.u1, w.u1, 0)];
    let mut sp = hist::Spec::new("escrow histories through the builders", "every step also executed as the builder makes it", vec![ready()], al);
    sp.after = Some(&after);
    sp.depth = run.pick(6, 9);
    sp.cap = run.pick(10_000, 100_000);
    hist::go(run, &sp);
}

// ------------------------------------------------------------------ C27

/// `b` behind an 8-aligned start, as accounts are laid out in a transaction's input.
struct Aligned(Vec<u64>, usize);
impl Aligned {
    fn of(b: &[u8]) -> Aligned {
        let mut v = vec![0u64; b.len() / 8 + 1];
        let p = v.as_mut_ptr() as *mut u8;
        // SAFETY: the vector has room for the bytes
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
        Aligned(v, b.len())
    }
    fn get(&self) -> &[u8] {
        // SAFETY: as above
        unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.1) }
    }
    fn get_mut(&mut self) -> &mut [u8] {
        // SAFETY: as above
        unsafe { std::slice::from_raw_parts_mut(self.0.as_mut_ptr() as *mut u8, self.1) }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Val {
    Rec(wire::Record),
    Com(wire::CommitRec),
    Meta(wire::Metadata),
    Conf(wire::Config),
}

fn enc_want(v: &Val) -> Vec<u8> {
    match v {
        Val::Rec(x) => x.enc(),
        Val::Com(x) => x.enc(),
        Val::Meta(x) => x.enc(),
        Val::Conf(x) => x.enc(),
    }
}

/// The crate's encoding of a value.
fn enc_got(v: &Val) -> Result<Vec<u8>, String> {
    match v {
        Val::Rec(x) => {
            let r = st::DelegationRecord {
                authority: x.authority,
                owner: x.owner,
                delegation_slot: x.slot,
                lamports: x.lamports,
                commit_frequency_ms: x.freq,
            };
            let mut b = vec![0xAA; st::DelegationRecord::size_with_discriminator()];
            r.to_bytes_with_discriminator(&mut b).map_err(|e| e.to_string())?;
            Ok(b)
        }
        Val::Com(x) => {
            let r = st::CommitRecord { identity: x.identity, account: x.account, slot: x.slot, lamports: x.lamports };
            let mut b = vec![0xAA; st::CommitRecord::size_with_discriminator()];
            r.to_bytes_with_discriminator(&mut b).map_err(|e| e.to_string())?;
            Ok(b)
        }
        Val::Meta(x) => {
            let r = st::DelegationMetadata {
                last_update_external_slot: x.last,
                is_undelegatable: x.allow,
                seeds: x.seeds.clone(),
                rent_payer: x.rent_payer,
            };
            let mut b = vec![];
            r.to_bytes_with_discriminator(&mut b).map_err(|e| e.to_string())?;
            Ok(b)
        }
        Val::Conf(x) => {
            let r = st::ProgramConfig { approved_validators: x.0.clone() };
            let mut b = vec![];
            r.to_bytes_with_discriminator(&mut b).map_err(|e| e.to_string())?;
            if r.size_with_discriminator() != b.len() {
                return Err(format!("size_with_discriminator is {}, not {}", r.size_with_discriminator(), b.len()));
            }
            Ok(b)
        }
    }
}

/// What each of the crate's decoders makes of the bytes: at most one may accept them.
fn decode(b: &[u8]) -> Vec<Val> {
    let mut o = vec![];
    let mut a = Aligned::of(b);
    if let Ok(r) = st::DelegationRecord::try_from_bytes_with_discriminator(a.get()) {
        o.push(Val::Rec(wire::Record {
            authority: r.authority,
            owner: r.owner,
            slot: r.delegation_slot,
            lamports: r.lamports,
            freq: r.commit_frequency_ms,
        }));
    }
    if let Ok(r) = st::CommitRecord::try_from_bytes_with_discriminator(a.get()) {
        o.push(Val::Com(wire::CommitRec { identity: r.identity, account: r.account, slot: r.slot, lamports: r.lamports }));
    }
    if let Ok(r) = st::DelegationMetadata::try_from_bytes_with_discriminator(a.get()) {
        o.push(Val::Meta(wire::Metadata {
            last: r.last_update_external_slot,
            allow: r.is_undelegatable,
            seeds: r.seeds,
            rent_payer: r.rent_payer,
        }));
    }
    if let Ok(r) = st::ProgramConfig::try_from_bytes_with_discriminator(a.get()) {
        o.push(Val::Conf(wire::Config(r.approved_validators)));
    }
    // the mutable decoders must agree
    let m = st::DelegationRecord::try_from_bytes_with_discriminator_mut(a.get_mut()).is_ok();
    if m != o.iter().any(|v| matches!(v, Val::Rec(_))) {
        o.push(Val::Conf(Default::default()));
        o.push(Val::Conf(Default::default()));
    }
    let m = st::CommitRecord::try_from_bytes_with_discriminator_mut(a.get_mut()).is_ok();
    if m != o.iter().any(|v| matches!(v, Val::Com(_))) {
        o.push(Val::Conf(Default::default()));
        o.push(Val::Conf(Default::default()));
    }
    o
}

fn c27(run: &mut Run) {
    let w = world();
    let zero = Pubkey::default();
    let full = Pubkey::new_from_array([255; 32]);
    let count = Pubkey::new_from_array(std::array::from_fn(|i| i as u8));
    let keys = [zero, full, count, w.v1];
    let ints = run.pick(vec![0, 1, 0x0102030405060708, u64::MAX], vec![0, 1, 255, 256, 0x0102030405060708, 1 << 63, u64::MAX - 1, u64::MAX]);
    let mut vals: Vec<Val> = vec![];
    for a in &keys {
        for o in &keys {
            for s in &ints {
                for x in &ints {
                    vals.push(Val::Com(wire::CommitRec { identity: *a, account: *o, slot: *s, lamports: *x }));
                    for f in &ints {
                        vals.push(Val::Rec(wire::Record { authority: *a, owner: *o, slot: *s, lamports: *x, freq: *f }));
                    }
                }
            }
        }
    }
    let pieces: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![255], vec![1, 0], vec![0, 1], vec![0; 4], vec![9; 32]];
    let mut seeds: Vec<Vec<Vec<u8>>> = vec![vec![]];
    for a in &pieces {
        seeds.push(vec![a.clone()]);
        for b in &pieces {
            seeds.push(vec![a.clone(), b.clone()]);
            if run.thorough {
                for c in &pieces {
                    seeds.push(vec![a.clone(), b.clone(), c.clone()]);
                }
            }
        }
    }
    seeds.push((0..16).map(|i| vec![i; 2 * i as usize]).collect());
    seeds.push(vec![vec![5; 300]]);
    for l in &ints {
        for allow in [false, true] {
            for s in &seeds {
                for r in &keys {
                    vals.push(Val::Meta(wire::Metadata { last: *l, allow, seeds: s.clone(), rent_payer: *r }));
                }
            }
        }
    }
    let vk = [zero, full, count, w.v1, w.v2, w.v3, w.x, wire::DLP];
    for m in 0..256u32 {
        let set: BTreeSet<Pubkey> = vk.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, k)| *k).collect();
        vals.push(Val::Conf(wire::Config(set)));
    }
    vals.push(Val::Conf(wire::Config((0..=255u8).map(|i| Pubkey::new_from_array([i; 32])).collect())));
    // whitelists of every size up to 66, around powers of two, and around and beyond the 10240 bytes one instruction can add
    let many = |n: usize| -> BTreeSet<Pubkey> {
        (0..n).map(|i| Pubkey::new_from_array(std::array::from_fn(|j| ((i * 2654435761usize) >> (8 * (j % 4))) as u8 ^ (i >> 8) as u8 ^ j as u8))).collect()
    };
    for n in (1..=66).chain([127, 128, 129, 255, 257, 281, 312, 318, 319, 320, 321, 511, 512, 513, 1024]) {
        vals.push(Val::Conf(wire::Config(many(n))));
    }
    // every number at every edge, every count and length of seeds
    for x in mc_core::drivers::edges() {
        vals.push(Val::Rec(wire::Record { authority: count, owner: w.p, slot: x, lamports: 1, freq: 2 }));
        vals.push(Val::Rec(wire::Record { authority: count, owner: w.p, slot: 1, lamports: x, freq: 2 }));
        vals.push(Val::Rec(wire::Record { authority: count, owner: w.p, slot: 1, lamports: 2, freq: x }));
        vals.push(Val::Com(wire::CommitRec { identity: count, account: w.a.key, slot: x, lamports: 3 }));
        vals.push(Val::Com(wire::CommitRec { identity: count, account: w.a.key, slot: 3, lamports: x }));
        vals.push(Val::Meta(wire::Metadata { last: x, allow: x % 2 == 0, seeds: vec![vec![3]], rent_payer: count }));
    }
    for n in 0..=33usize {
        vals.push(Val::Meta(wire::Metadata { last: 1, allow: true, seeds: vec![vec![n as u8; n]; 3], rent_payer: count }));
        vals.push(Val::Meta(wire::Metadata { last: 1, allow: false, seeds: vec![vec![7; 2]; n], rent_payer: full }));
        vals.push(Val::Meta(wire::Metadata { last: 1, allow: false, seeds: vec![vec![]; n], rent_payer: zero }));
    }
    for n in [255usize, 256, 257, 1000, 9000, 10_000] {
        vals.push(Val::Meta(wire::Metadata { last: 1, allow: false, seeds: vec![vec![1]; n / 8], rent_payer: count }));
        vals.push(Val::Meta(wire::Metadata { last: 1, allow: true, seeds: vec![vec![1; n]], rent_payer: count }));
    }
    const T: &[&str] = &["C27"];
    let note = format!("{} values: layout, decoding, every truncation, every single-byte change, surplus bytes, type numbers", vals.len());
    let thorough = run.thorough;
    cases(run, "codec grid", &note, 0, &vals, &|v, l| {
        let none = Ledger::default();
        let fail = |l: &mut Local, m: String| l.fail(Viol::new(T, m), &none, vec![], None);
        let kind = match v {
            Val::Rec(_) => "delegation record",
            Val::Com(_) => "commit record",
            Val::Meta(_) => "delegation metadata",
            Val::Conf(_) => "whitelist",
        };
        l.evals.hit(T, "round trip");
        let want = enc_want(v);
        l.tick(&want, []);
        let got = match std::panic::catch_unwind(|| enc_got(v)).unwrap_or(Err("panic".into())) {
            Ok(b) => b,
            Err(e) => return fail(l, format!("{kind}: encoding fails: {e}")),
        };
        if got != want {
            return fail(l, format!("{kind}: encoded as {} instead of {}", mc_core::io::hex(&got), mc_core::io::hex(&want)));
        }
        if decode(&want) != vec![v.clone()] {
            return fail(l, format!("{kind}: decoding an encoding gives {:?}", decode(&want)));
        }
        let step = if want.len() > 3000 && !thorough { 97 } else { 1 };
        for n in (0..want.len()).filter(|n| n % step == 0 || *n < 200 || n + 70 > want.len()) {
            l.evals.hit(T, "truncation");
            if !decode(&want[..n]).is_empty() {
                fail(l, format!("{kind}: an encoding cut to {n} bytes decodes"));
            }
        }
        for extra in [vec![0u8], vec![255], vec![0; 8], vec![1; 32], want.clone()] {
            l.evals.hit(T, "surplus");
            let mut b = want.clone();
            b.extend(&extra);
            if !decode(&b).is_empty() {
                fail(l, format!("{kind}: an encoding with {} surplus bytes decodes", extra.len()));
            }
        }
        for t in 0..=255u8 {
            if t == want[0] {
                continue;
            }
            l.evals.hit(T, "type number");
            let mut b = want.clone();
            b[0] = t;
            // another type's decoder may accept only a valid encoding of its own
            if decode(&b).iter().any(|x| enc_want(x) != b || std::mem::discriminant(x) == std::mem::discriminant(v)) {
                fail(l, format!("{kind}: decodes with type number {t}"));
            }
        }
        for i in 1..8 {
            for x in [1u8, 0x80, 255] {
                l.evals.hit(T, "type number");
                let mut b = want.clone();
                b[i] ^= x;
                if !decode(&b).is_empty() {
                    fail(l, format!("{kind}: decodes although byte {i} of the type number is not zero"));
                }
            }
        }
        let flips: &[u8] = if thorough { &[1, 2, 4, 8, 16, 32, 64, 128, 255] } else { &[1, 128, 255] };
        if want.len() > 600 && !thorough {
            return;
        }
        for i in 8..want.len() {
            for x in flips {
                l.evals.hit(T, "changed byte");
                let mut b = want.clone();
                b[i] ^= x;
                for d in decode(&b) {
                    if d == *v {
                        fail(l, format!("{kind}: two encodings of one value (byte {i} changed)"));
                    } else if std::mem::discriminant(&d) != std::mem::discriminant(v) {
                        fail(l, format!("{kind}: decodes as another type"));
                    }
                }
            }
        }
    });
    // the accounts the program really writes
    let after = |_l: &Ledger, _m: &mc_core::model::Model, _s: &Step, o: &Out, ev: &mut Evals| {
        let mut v = vec![];
        if o.ok {
            for (k, a) in o.ledger.iter() {
                if a.owner == wire::DLP && a.data.len() >= 8 && (100..=103).contains(&a.data[0]) && is_record(k) {
                    ev.hit(&["C27"], "account written by the program");
                    let d = decode(&a.data);
                    if d.len() != 1 || enc_want(&d[0]) != a.data {
                        v.push(Viol::new(&["C27"], format!("{} as written by the program does not decode to what it encodes", short(k))));
                    }
                }
            }
        }
        v
    };
    let mut al = hist::al_core(run);
    al.delegators = vec![w.payer];
    al.slots = vec![0, u64::MAX];
    al.auth = Some(w.v2);
    al.vault_admin = vec![(w.admin, w.v1)];
    al.lists = vec![(w.auth_p, w.p, w.v1), (w.auth_p, w.p, w.v2)];
    if !run.thorough {
        al.finalizers = vec![w.v1];
        al.undelegators = vec![w.v1];
        al.datas.truncate(2);
    }
    let mut sp = hist::Spec::new("accounts of a life cycle", "decoded by the crate and by the documented layout after every step", vec![hist::owned(&w.a)], al);
    sp.after = Some(&after);
    hist::go(run, &sp);
    drivers::plain(run, &[]);
}

fn is_record(k: &Pubkey) -> bool {
    let w = world();
    [wire::record(&w.a.key), wire::metadata(&w.a.key), wire::crecord(&w.a.key), wire::config(&w.p)].contains(k)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    setup();
    let id = match args.get(2).map(|s| s.as_str()) {
        Some("C26") => "C26",
        Some("C27") => "C27",
        _ => {
            eprintln!("usage: api check C26|C27 [quick|thorough]");
            std::process::exit(2);
        }
    };
    let t0 = Instant::now();
    let mut run = Run::new(id, tier(), seed());
    run.known = known(id).into_iter().map(|k| k.0).collect();
    match id {
        "C26" => c26(&mut run),
        _ => c27(&mut run),
    }
    std::process::exit(report(&run, t0, &checks::assumptions(id)));
}
