//! Exhaustive exploration: a parallel breadth-first search with state deduplication, and a parallel
//! driver for enumerated one-step (or few-step) cases.

use crate::spec::{self, Evals, Viol};
use crate::svm::*;
use solana_program::pubkey::Pubkey;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Step {
    pub tx: Tx,
    pub slot: u64,
}
#[derive(Clone, Debug)]
pub struct Trace {
    pub genesis: Ledger,
    pub steps: Vec<Step>,
}
#[derive(Clone, Debug)]
pub struct Found {
    pub driver: String,
    pub viol: Viol,
    pub trace: Trace,
    /// identifies the specific history of a violation (for the known-findings file)
    pub sig: String,
}

#[derive(Clone, Debug, Default)]
pub struct DriverStat {
    pub name: String,
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub depth: usize,
    pub exhausted: bool,
    pub note: String,
    pub secs: f64,
}

pub struct Run {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub drivers: Vec<DriverStat>,
    pub evals: Evals,
    pub found: Vec<Found>,
    pub traces: Vec<Trace>,
    pub samples: Vec<String>,
    pub threads: usize,
    pub verbose: bool,
    pub max_traces: usize,
    /// every violation a driver sees counts for the property being checked
    pub catch: bool,
    /// signatures of recorded findings
    pub known: Vec<String>,
}

impl Run {
    pub fn new(id: &'static str, thorough: bool, seed: u64) -> Run {
        Run {
            id,
            thorough,
            seed,
            drivers: vec![],
            evals: Evals::default(),
            found: vec![],
            traces: vec![],
            samples: vec![],
            threads: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4),
            verbose: std::env::var("MC_VERBOSE").is_ok(),
            max_traces: 12,
            catch: std::env::var_os("MC_ALL").is_some(),
            known: vec![],
        }
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn add_found(&mut self, f: Found) {
        // keep one representative (the shortest) per signature, and bound the number kept
        if let Some(o) = self.found.iter_mut().find(|o| o.sig == f.sig && o.viol.msg == f.viol.msg) {
            if f.trace.steps.len() < o.trace.steps.len() {
                *o = f;
            }
            return;
        }
        if self.found.len() < 400 {
            self.found.push(f);
        }
    }
    pub fn finish_driver(&mut self, s: DriverStat) {
        if self.verbose {
            eprintln!(
                "[{}] {}: {} states, {} transitions ({} accepted), depth {}, exhausted={}, {:.1}s {}",
                self.id, s.name, s.states, s.transitions, s.accepted, s.depth, s.exhausted, s.secs, s.note
            );
        }
        self.drivers.push(s);
    }
}

pub fn describe(t: &Tx) -> String {
    if !t.label.is_empty() {
        return t.label.clone();
    }
    t.ixs
        .iter()
        .map(|i| crate::wire::parse(&i.data).map(|(o, _)| format!("{o:?}")).unwrap_or("?".into()))
        .collect::<Vec<_>>()
        .join("+")
}

// ------------------------------------------------------------------ enumerated cases

/// Collects the results of one worker over enumerated cases.
pub struct Local {
    pub id: &'static str,
    pub evals: Evals,
    pub found: Vec<Found>,
    pub transitions: u64,
    pub accepted: u64,
    pub digests: HashSet<u128>,
    pub traces: Vec<Trace>,
    pub trace_every: u64,
    pub driver: String,
    pub catch: bool,
    trace_count: u64,
}
impl Local {
    pub fn new(id: &'static str, driver: &str, every: u64, catch: bool) -> Local {
        Local {
            id,
            evals: Evals::default(),
            found: vec![],
            transitions: 0,
            accepted: 0,
            digests: HashSet::new(),
            traces: vec![],
            trace_every: every,
            driver: driver.to_string(),
            catch,
            trace_count: 0,
        }
    }
    /// Execute and judge one transaction; returns the outcome.
    pub fn run(&mut self, led: &Ledger, tx: &Tx, slot: u64) -> Out {
        let out = exec(led, tx, slot);
        self.account(led, &out);
        let v = spec::judge_out(&out, slot, &mut self.evals);
        let id = self.id;
        for x in v {
            if self.catch || x.tags.contains(&id) {
                self.fail(x, led, vec![Step { tx: tx.clone(), slot }], None);
            }
        }
        out
    }
    pub fn account(&mut self, led: &Ledger, out: &Out) {
        self.transitions += 1;
        self.digests.insert(led.digest(&|_| false, &|_| {}));
        if out.ok {
            self.accepted += 1;
            self.digests.insert(out.ledger.digest(&|_| false, &|_| {}));
        }
    }
    /// Count one evaluated input that is not a transaction.
    pub fn tick(&mut self, b: &[u8], keys: impl IntoIterator<Item = Pubkey>) {
        use std::hash::Hasher;
        self.transitions += 1;
        self.accepted += 1;
        let (mut x, mut y) = (Fx(1), Fx(2));
        x.write(b);
        y.write(b);
        for k in keys {
            x.write(k.as_ref());
            y.write(k.as_ref());
        }
        self.digests.insert((x.finish() as u128) << 64 | y.finish() as u128);
    }
    pub fn fail(&mut self, viol: Viol, genesis: &Ledger, steps: Vec<Step>, sig: Option<String>) {
        if self.found.len() < 200 {
            let sig = sig.unwrap_or_else(|| format!("{}: {}", self.driver, viol.msg));
            self.found.push(Found {
                driver: self.driver.clone(),
                viol,
                trace: Trace { genesis: genesis.clone(), steps },
                sig,
            });
        }
    }
    /// Offer an executed history for replay on the real bank.
    pub fn offer(&mut self, genesis: &Ledger, steps: Vec<Step>) {
        self.trace_count += 1;
        if self.trace_every > 0 && (self.trace_count - 1) % self.trace_every == 0 && self.traces.len() < 64 {
            self.traces.push(Trace { genesis: genesis.clone(), steps });
        }
    }
}

/// Run `f` on every case, in parallel; merge the results into `run`.
pub fn cases<C: Sync>(run: &mut Run, name: &str, note: &str, every: u64, items: &[C], f: &(dyn Fn(&C, &mut Local) + Sync)) {
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let locals: Mutex<Vec<(usize, Local)>> = Mutex::new(vec![]);
    let chunk = (items.len() / (run.threads * 8)).max(1);
    let id = run.id;
    let catch = run.catch;
    std::thread::scope(|s| {
        for _ in 0..run.threads {
            s.spawn(|| loop {
                let i = next.fetch_add(chunk, Ordering::Relaxed);
                if i >= items.len() {
                    break;
                }
                let mut l = Local::new(id, name, every, catch);
                for c in &items[i..(i + chunk).min(items.len())] {
                    f(c, &mut l);
                }
                locals.lock().unwrap().push((i, l));
            });
        }
    });
    let mut ls = locals.into_inner().unwrap();
    ls.sort_by_key(|x| x.0);
    let mut st = DriverStat { name: name.into(), exhausted: true, note: note.into(), ..Default::default() };
    let mut digests = HashSet::new();
    let mut traces = vec![];
    for (_, l) in ls {
        st.transitions += l.transitions;
        st.accepted += l.accepted;
        digests.extend(l.digests);
        run.evals.merge(&l.evals);
        for f in l.found {
            run.add_found(f);
        }
        traces.extend(l.traces);
    }
    st.states = digests.len() as u64;
    st.depth = 1;
    st.secs = t0.elapsed().as_secs_f64();
    spread(&mut run.traces, traces, run.max_traces);
    run.finish_driver(st);
}

/// Keep at most `n` of `from`, spread evenly.
pub fn spread(into: &mut Vec<Trace>, from: Vec<Trace>, n: usize) {
    if from.len() <= n {
        into.extend(from);
        return;
    }
    let len = from.len();
    let mut last = usize::MAX;
    let want: HashSet<usize> = (0..n).map(|i| i * (len - 1) / (n - 1).max(1)).collect();
    for (i, t) in from.into_iter().enumerate() {
        if want.contains(&i) && i != last {
            into.push(t);
            last = i;
        }
    }
}

// ------------------------------------------------------------------ breadth-first search

pub trait Ghost: Clone + Send + Sync + Hash + 'static {}
impl<T: Clone + Send + Sync + Hash + 'static> Ghost for T {}

pub struct Bfs<'a, G: Ghost> {
    pub name: &'a str,
    pub note: &'a str,
    pub init: Vec<(Ledger, G)>,
    pub max_depth: usize,
    pub max_states: usize,
    pub actions: &'a (dyn Fn(&Ledger, &G) -> Vec<Step> + Sync),
    /// Ghost successor and the violations of history-level properties.
    pub after: &'a (dyn Fn(&Ledger, &G, &Step, &Out, &mut Evals) -> (G, Vec<Viol>) + Sync),
    /// Accounts whose balance is left out of the state's identity.
    pub abstract_lamports: &'a (dyn Fn(&Pubkey) -> bool + Sync),
    /// Called once per reached state.
    pub at_state: Option<&'a (dyn Fn(&Ledger, &G, &mut Local) + Sync)>,
    pub judge: bool,
}

struct Meta2 {
    parent: u32,
    step: Option<Arc<Step>>,
    root: u32,
}

pub fn bfs<G: Ghost>(run: &mut Run, b: &Bfs<G>) {
    let t0 = Instant::now();
    let id = run.id;
    let catch = run.catch;
    let mut seen: HashSet<u128> = HashSet::new();
    let mut metas: Vec<Meta2> = vec![];
    let mut frontier: Vec<(u32, Ledger, G)> = vec![];
    let digest = |l: &Ledger, g: &G| {
        l.digest(&|k| (b.abstract_lamports)(k), &|mut h| {
            let mut hh = Fx(3);
            g.hash(&mut hh);
            use std::hash::Hasher;
            (&mut h).write_u64(hh.finish());
        })
    };
    for (i, (l, g)) in b.init.iter().enumerate() {
        if seen.insert(digest(l, g)) {
            metas.push(Meta2 { parent: u32::MAX, step: None, root: i as u32 });
            frontier.push((metas.len() as u32 - 1, l.clone(), g.clone()));
        }
    }
    let mut st = DriverStat { name: b.name.into(), note: b.note.into(), ..Default::default() };
    let path = |metas: &[Meta2], mut n: u32| -> (u32, Vec<Step>) {
        let mut s = vec![];
        while let Some(x) = &metas[n as usize].step {
            s.push((**x).clone());
            n = metas[n as usize].parent;
        }
        s.reverse();
        (metas[n as usize].root, s)
    };
    let mut depth = 0;
    let mut exhausted = false;
    let mut sample_nodes: Vec<(u32, Vec<Step>)> = vec![];
    let mut label_seen: HashMap<(String, bool), u32> = HashMap::new();
    loop {
        if frontier.is_empty() {
            exhausted = true;
            break;
        }
        if let Some(at) = b.at_state {
            let next = AtomicUsize::new(0);
            let acc: Mutex<Vec<(u32, Local)>> = Mutex::new(vec![]);
            std::thread::scope(|s| {
                for _ in 0..run.threads {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= frontier.len() {
                            break;
                        }
                        let (n, l, g) = &frontier[i];
                        let mut loc = Local::new(id, b.name, 0, catch);
                        at(l, g, &mut loc);
                        acc.lock().unwrap().push((*n, loc));
                    });
                }
            });
            let mut acc = acc.into_inner().unwrap();
            acc.sort_by_key(|x| x.0);
            for (n, l) in acc {
                st.transitions += l.transitions;
                st.accepted += l.accepted;
                run.evals.merge(&l.evals);
                for mut f in l.found {
                    let (root, mut steps) = path(&metas, n);
                    steps.extend(f.trace.steps);
                    f.trace = Trace { genesis: b.init[root as usize].0.clone(), steps };
                    run.add_found(f);
                }
            }
        }
        if depth >= b.max_depth {
            break;
        }
        if metas.len() >= b.max_states {
            break;
        }
        let next = AtomicUsize::new(0);
        type Succ<G> = (u128, Ledger, G, u32, Step);
        struct Acc<G> {
            order: usize,
            succ: Vec<Succ<G>>,
            viol: Vec<(u32, Step, Viol)>,
            evals: Evals,
            trans: u64,
            ok: u64,
            firsts: Vec<(String, bool, u32, Step)>,
        }
        let accs: Mutex<Vec<Acc<G>>> = Mutex::new(vec![]);
        let seen_ref = &seen;
        let frontier_ref = &frontier;
        let chunk = (frontier.len() / (run.threads * 8)).max(1);
        std::thread::scope(|s| {
            for _ in 0..run.threads {
                s.spawn(|| loop {
                    let i0 = next.fetch_add(chunk, Ordering::Relaxed);
                    if i0 >= frontier_ref.len() {
                        break;
                    }
                    let mut acc = Acc {
                        order: i0,
                        succ: vec![],
                        viol: vec![],
                        evals: Evals::default(),
                        trans: 0,
                        ok: 0,
                        firsts: vec![],
                    };
                    let mut mine: HashSet<u128> = HashSet::new();
                    let mut labels: HashSet<(String, bool)> = HashSet::new();
                    for (n, l, g) in &frontier_ref[i0..(i0 + chunk).min(frontier_ref.len())] {
                        for step in (b.actions)(l, g) {
                            let out = exec(l, &step.tx, step.slot);
                            acc.trans += 1;
                            if b.judge {
                                for v in spec::judge_out(&out, step.slot, &mut acc.evals) {
                                    if catch || v.tags.contains(&id) {
                                        acc.viol.push((*n, step.clone(), v));
                                    }
                                }
                            }
                            let (g2, vs) = (b.after)(l, g, &step, &out, &mut acc.evals);
                            for v in vs {
                                if catch || v.tags.contains(&id) {
                                    acc.viol.push((*n, step.clone(), v));
                                }
                            }
                            if labels.insert((step.tx.label.clone(), out.ok)) {
                                acc.firsts.push((step.tx.label.clone(), out.ok, *n, step.clone()));
                            }
                            if out.ok {
                                acc.ok += 1;
                                let dg = digest(&out.ledger, &g2);
                                if !seen_ref.contains(&dg) && mine.insert(dg) {
                                    acc.succ.push((dg, out.ledger, g2, *n, step));
                                }
                            }
                        }
                    }
                    accs.lock().unwrap().push(acc);
                });
            }
        });
        let mut accs = accs.into_inner().unwrap();
        accs.sort_by_key(|a| a.order);
        let mut nextf = vec![];
        for a in accs {
            st.transitions += a.trans;
            st.accepted += a.ok;
            run.evals.merge(&a.evals);
            for (n, step, v) in a.viol {
                let (root, mut steps) = path(&metas, n);
                steps.push(step);
                let sig = format!("{}: {}", b.name, v.msg);
                run.add_found(Found {
                    driver: b.name.into(),
                    viol: v,
                    trace: Trace { genesis: b.init[root as usize].0.clone(), steps },
                    sig,
                });
            }
            for (lab, ok, n, step) in a.firsts {
                let c = label_seen.entry((lab, ok)).or_default();
                *c += 1;
                if *c <= 2 {
                    sample_nodes.push((n, vec![step]));
                }
            }
            for (dg, l, g, parent, step) in a.succ {
                if seen.insert(dg) {
                    metas.push(Meta2 { parent, step: Some(Arc::new(step)), root: metas[parent as usize].root });
                    nextf.push((metas.len() as u32 - 1, l, g));
                }
            }
        }
        frontier = nextf;
        depth += 1;
        if !run.thorough && run.found.iter().any(|f| !run.known.contains(&f.sig)) {
            // a violation is known: no need to search deeper in the quick tier
            break;
        }
    }
    st.states = metas.len() as u64;
    st.depth = depth;
    st.exhausted = exhausted;
    // traces for the conformance replay: one history per (action, outcome) seen, plus the deepest ones
    let mut traces = vec![];
    let last = metas.len() as u32;
    for n in [last.wrapping_sub(1), last / 2, last * 3 / 4] {
        if n < last {
            sample_nodes.push((n, vec![]));
        }
    }
    for (n, extra) in sample_nodes {
        let (root, mut steps) = path(&metas, n);
        steps.extend(extra);
        if !steps.is_empty() {
            traces.push(Trace { genesis: b.init[root as usize].0.clone(), steps });
        }
    }
    if let Some(t) = traces.last() {
        if run.samples.len() < 12 {
            run.samples.push(format!("{}: {}", b.name, t.steps.iter().map(|s| describe(&s.tx)).collect::<Vec<_>>().join(" ; ")));
        }
    }
    spread(&mut run.traces, traces, run.max_traces);
    st.secs = t0.elapsed().as_secs_f64();
    run.finish_driver(st);
}
