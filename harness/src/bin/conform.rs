//! Replays histories found by the model's exploration on the real Solana bank (solana-program-test),
//! with the same programs, and compares outcome and ledger after every step.

use mc_core::explore::{describe, Trace};
use mc_core::svm::{self, Acct, Ledger};
use mc_core::{drivers, io, owner, spec, wire, world};
use serde_json::json;
use solana_program_test::{processor, BanksClientError, ProgramTest, ProgramTestContext};
use solana_sdk::account::{Account, AccountSharedData};
use solana_sdk::clock::Clock;
use solana_sdk::compute_budget::ComputeBudgetInstruction;
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Keypair;
use solana_sdk::signer::Signer;
use solana_sdk::transaction::Transaction;
use std::collections::{BTreeSet, HashMap};
use std::sync::Mutex;

/// Accounts the bank owns: histories never replace them.
fn programs() -> Vec<Pubkey> {
    let w = world::world();
    vec![wire::DLP, w.p, w.q, w.h, drivers::alias_program(), svm::SYSTEM]
}

async fn start() -> ProgramTestContext {
    let w = world::world();
    let mut t = ProgramTest::default();
    t.prefer_bpf(false);
    t.add_program("dlp", wire::DLP, processor!(dlp::process_instruction));
    t.add_program("p", w.p, processor!(owner::honest));
    t.add_program("q", w.q, processor!(owner::honest));
    t.add_program("h", w.h, processor!(owner::hostile));
    t.add_program("alias", drivers::alias_program(), processor!(dlp::process_instruction));
    t.start_with_context().await
}

fn to_account(a: &Acct) -> AccountSharedData {
    AccountSharedData::from(Account {
        lamports: a.lamports,
        data: a.data.clone(),
        owner: a.owner,
        executable: a.executable,
        rent_epoch: u64::MAX,
    })
}

struct Expect {
    ok: bool,
    err: String,
    ledger: Ledger,
}

/// What the model says about every step, or why the history cannot be replayed on the bank.  (Computed
/// before any bank is started: the bank replaces the process-wide system-call hooks.)
fn expect(t: &Trace, keys: &HashMap<Pubkey, Keypair>) -> Result<Vec<Expect>, &'static str> {
    let mut v = vec![];
    if t.genesis.total() > 1u128 << 62 {
        return Err("more lamports than the bank has");
    }
    if t.genesis.iter().any(|(_, a)| a.lamports == 0) {
        return Err("account without lamports");
    }
    let known = programs();
    let mut led = t.genesis.clone();
    for s in &t.steps {
        for ix in &s.tx.ixs {
            if !known.contains(&ix.program) {
                return Err("unknown program");
            }
            for m in &ix.metas {
                if m.signer && !keys.contains_key(&m.key) {
                    return Err("signature of an account without key");
                }
            }
        }
        let n: BTreeSet<Pubkey> = s.tx.ixs.iter().flat_map(|i| i.metas.iter().map(|m| m.key)).collect();
        if n.len() > 60 {
            return Err("too many accounts");
        }
        let o = svm::exec(&led, &s.tx, s.slot);
        if o.err.contains("panic") && !o.err.contains("CPI failed") {
            return Err("program panics");
        }
        if o.err.contains("Readonly") || o.err.contains("ExternalAccountDataModified") {
            return Err("write to data that is read-only or another program's (the test bank drops it, a validator refuses it)");
        }
        led = o.ledger.clone();
        v.push(Expect { ok: o.ok, err: o.err, ledger: o.ledger });
    }
    Ok(v)
}

enum Failed {
    /// The bank did not answer in time (or the block hash it was given expired): says nothing about the program.
    NoAnswer,
    Mismatch(String),
}

struct Worker {
    ctx: ProgramTestContext,
    dirty: BTreeSet<Pubkey>,
    n: u32,
}

impl Worker {
    async fn differs(&mut self, led: &Ledger, keys: &BTreeSet<Pubkey>) -> Result<(), Failed> {
        let progs = programs();
        for k in keys {
            if progs.contains(k) {
                continue;
            }
            let have = self.ctx.banks_client.get_account(*k).await.map_err(|_| Failed::NoAnswer)?;
            let want = led.get(k);
            let have = match have {
                None => Acct::none(),
                Some(a) if a.lamports == 0 => Acct::none(),
                Some(a) => Acct { lamports: a.lamports, owner: a.owner, executable: a.executable, data: a.data },
            };
            if have != *want {
                return Err(Failed::Mismatch(format!(
                    "{}: the bank has {} lamports, owner {}, data {}; the model has {}, {}, {}",
                    spec::short(k), have.lamports, spec::short(&have.owner), io::hex(&have.data),
                    want.lamports, spec::short(&want.owner), io::hex(&want.data)
                )));
            }
        }
        Ok(())
    }

    async fn replay(&mut self, t: &Trace, expect: &[Expect], keys: &HashMap<Pubkey, Keypair>) -> Result<u64, Failed> {
        let progs = programs();
        for k in std::mem::take(&mut self.dirty) {
            self.ctx.set_account(&k, &AccountSharedData::default());
        }
        let mut all: BTreeSet<Pubkey> = BTreeSet::new();
        for (k, a) in t.genesis.iter() {
            if !progs.contains(k) {
                self.ctx.set_account(k, &to_account(a));
                all.insert(*k);
            }
        }
        let mut steps = 0;
        for (i, s) in t.steps.iter().enumerate() {
            self.ctx.set_sysvar(&Clock { slot: s.slot, ..Clock::default() });
            let want = &expect[i];
            self.n += 1;
            let mut ixs = vec![ComputeBudgetInstruction::set_compute_unit_limit(1_400_000 - self.n % 600_000)];
            let mut signers: Vec<&Keypair> = vec![&self.ctx.payer];
            let mut used: BTreeSet<Pubkey> = BTreeSet::new();
            for ix in &s.tx.ixs {
                for m in &ix.metas {
                    used.insert(m.key);
                    if m.signer && !signers.iter().any(|x| x.pubkey() == m.key) {
                        signers.push(&keys[&m.key]);
                    }
                }
                ixs.push(Instruction {
                    program_id: ix.program,
                    accounts: ix
                        .metas
                        .iter()
                        .map(|m| AccountMeta { pubkey: m.key, is_signer: m.signer, is_writable: m.writable })
                        .collect(),
                    data: ix.data.clone(),
                });
            }
            used.retain(|k| !progs.contains(k));
            all.extend(used.iter());
            self.dirty = all.clone();
            let tx = Transaction::new_signed_with_payer(&ixs, Some(&self.ctx.payer.pubkey()), &signers, self.ctx.last_blockhash);
            let r = self.ctx.banks_client.process_transaction(tx).await;
            if let Err(e) = &r {
                if !matches!(e, BanksClientError::TransactionError(_) | BanksClientError::SimulationError { .. }) {
                    return Err(Failed::NoAnswer);
                }
            }
            if r.is_ok() != want.ok {
                return Err(Failed::Mismatch(format!(
                    "step {i} ({}) of [{}]: the bank says {:?}, the model says {}",
                    describe(&s.tx),
                    t.steps.iter().map(|s| describe(&s.tx)).collect::<Vec<_>>().join(" ; "),
                    r.err().map(|e| e.to_string()),
                    if want.ok { "ok" } else { &want.err }
                )));
            }
            steps += 1;
            let check = if i + 1 == t.steps.len() { all.clone() } else { used };
            self.differs(&want.ledger, &check).await.map_err(|f| match f {
                Failed::Mismatch(d) => Failed::Mismatch(format!(
                    "step {i} ({}) of [{}]: {d}",
                    describe(&s.tx),
                    t.steps.iter().map(|s| describe(&s.tx)).collect::<Vec<_>>().join(" ; ")
                )),
                f => f,
            })?;
        }
        Ok(steps)
    }
}

fn main() {
    let path = std::env::args().nth(1).expect("traces");
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&path).expect("file")).expect("json");
    let traces: Vec<Trace> = match v.get("traces") {
        Some(a) => a.as_array().unwrap().iter().map(io::un_trace).collect(),
        None => vec![io::un_trace(&v["trace"])],
    };
    dlp_mc::setup();
    let keys: HashMap<Pubkey, Keypair> = (0..=255u8).map(world::keypair).map(|k| (k.pubkey(), k)).collect();
    let mut skipped: HashMap<&'static str, u64> = HashMap::new();
    let mut todo = vec![];
    for t in traces {
        match expect(&t, &keys) {
            Err(r) => *skipped.entry(r).or_default() += 1,
            Ok(e) => todo.push((t, e)),
        }
    }
    let n = todo.len();
    let workers = n.div_ceil(8).clamp(1, 6);
    let queue = Mutex::new(todo);
    let res: Mutex<(u64, u64, Vec<String>, u64)> = Mutex::new((0, 0, vec![], 0));
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
                rt.block_on(async {
                    let mut w = Worker { ctx: start().await, dirty: BTreeSet::new(), n: 0 };
                    loop {
                        let Some((t, e)) = queue.lock().unwrap().pop() else { break };
                        let mut r = w.replay(&t, &e, &keys).await;
                        for _ in 0..5 {
                            if !matches!(r, Err(Failed::NoAnswer)) {
                                break;
                            }
                            w = Worker { ctx: start().await, dirty: BTreeSet::new(), n: 0 };
                            r = w.replay(&t, &e, &keys).await;
                        }
                        let mut g = res.lock().unwrap();
                        match r {
                            Ok(k) => {
                                g.0 += 1;
                                g.1 += k;
                            }
                            Err(Failed::Mismatch(e)) => g.2.push(e),
                            Err(Failed::NoAnswer) => g.3 += 1,
                        }
                    }
                });
            });
        }
    });
    let g = res.into_inner().unwrap();
    if g.3 > 0 {
        skipped.insert("the bank did not answer in time", g.3);
    }
    if verbose {
        eprintln!("skipped: {skipped:?}");
    }
    println!("CONFORM {}", json!({"validated": g.0, "steps": g.1, "mismatches": g.2, "skipped": skipped}));
}
