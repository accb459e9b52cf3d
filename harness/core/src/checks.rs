//! Which explorations decide which property.

use crate::drivers::*;
use crate::explore::Run;
use crate::hist::*;
use crate::scen::rich;
use crate::wire::Op::{self, *};

pub const IDS: [&str; 28] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
    "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
];

/// Attacks on the given operations by account substitution and missing signatures.
fn attack(run: &mut Run, ops: &[Op]) {
    plain(run, ops);
    subst1(run, ops);
    crossover(run, ops);
    flags(run, ops);
    wrong_state(run, ops);
    orphans(run, ops);
    if run.thorough {
        flags_subst(run, ops);
        subst2(run, ops, &rich().pool);
    } else {
        subst2(run, ops, &rich().small_pool[..14]);
    }
}

/// All explorations of a property decided in the core (C26 and C27 have theirs beside the crate's own API).
pub fn check(run: &mut Run) {
    match run.id {
        "C01" => {
            attack(run, &[Delegate, DelegateEscrow]);
            grid_delegate(run);
            grid_cuts(run);
            life_writes(run);
            actors(run, &[Delegate, DelegateEscrow]);
            merged(run, &[Delegate, DelegateEscrow]);
            near(run, &[Delegate, DelegateEscrow]);
            powers(run, &[Delegate, DelegateEscrow]);
            via_cpi(run, &[Delegate, DelegateEscrow]);
            donated(run, &[Delegate, DelegateEscrow]);
        }
        "C02" => {
            flags(run, &[Delegate, DelegateEscrow]);
            plain(run, &[Delegate, DelegateEscrow]);
            grid_delegate(run);
            grid_contents(run, true);
            grid_cuts(run);
            life_core(run);
            life_escrow(run);
            actors(run, &[Delegate, DelegateEscrow]);
            merged(run, &[Delegate, DelegateEscrow]);
            near(run, &[Delegate, DelegateEscrow]);
            powers(run, &[Delegate, DelegateEscrow]);
            via_cpi(run, &[Delegate, DelegateEscrow]);
            donated(run, &[Delegate, DelegateEscrow]);
        }
        "C03" => {
            attack(run, &[Commit, CommitBuffer]);
            closed_vaults(run);
            grid_commit(run);
            life_admin(run);
            actors(run, &[Commit, CommitBuffer]);
            near(run, &[Commit, CommitBuffer]);
            powers(run, &[Commit, CommitBuffer]);
            via_cpi(run, &[Commit, CommitBuffer]);
            coincide(run, &[Commit, CommitBuffer]);
            fields(run, &[Commit, CommitBuffer]);
            donated(run, &[Commit, CommitBuffer]);
        }
        "C04" => {
            flags(run, &[Commit, CommitBuffer]);
            plain(run, &[Commit, CommitBuffer]);
            grid_commit(run);
            grid_contents(run, false);
            life_core(run);
            life_buffer(run);
            subst1(run, &[Commit, CommitBuffer]);
            actors(run, &[Commit, CommitBuffer]);
            near(run, &[Commit, CommitBuffer]);
            powers(run, &[Commit, CommitBuffer]);
            via_cpi(run, &[Commit, CommitBuffer]);
            coincide(run, &[Commit, CommitBuffer]);
            fields(run, &[Commit, CommitBuffer]);
            donated(run, &[Commit, CommitBuffer]);
        }
        "C05" => {
            flags(run, &[Commit, CommitBuffer, Finalize]);
            life_slots(run);
            life_core(run);
            life_buffer(run);
            grid_commit(run);
            subst1(run, &[Commit, CommitBuffer, Finalize]);
            fields(run, &[Commit, CommitBuffer, Finalize]);
            coincide(run, &[Commit, CommitBuffer, Finalize]);
            powers(run, &[Commit, CommitBuffer, Finalize]);
            via_cpi(run, &[Commit, CommitBuffer, Finalize]);
        }
        "C06" => {
            attack(run, &[Undelegate]);
            closed_vaults(run);
            grid_undelegate(run);
            life_core(run);
            life_admin(run);
            life_buffer(run);
            subst1(run, &[Commit, CommitBuffer]);
            actors(run, &[Undelegate]);
            near(run, &[Undelegate]);
            powers(run, &[Undelegate]);
            via_cpi(run, &[Undelegate]);
            coincide(run, &[Undelegate]);
            fields(run, &[Undelegate]);
            donated(run, &[Undelegate]);
        }
        "C07" => {
            attack(run, &[Finalize]);
            closed_vaults(run);
            grid_finalize(run);
            grid_contents(run, false);
            life_core(run);
            actors(run, &[Finalize]);
            near(run, &[Finalize]);
            powers(run, &[Finalize]);
            via_cpi(run, &[Finalize]);
            coincide(run, &[Finalize]);
            fields(run, &[Finalize]);
            donated(run, &[Finalize]);
            life_donate(run);
        }
        "C08" => {
            flags(run, &[Commit, CommitBuffer, Finalize]);
            grid_commit(run);
            grid_finalize(run);
            life_core(run);
            life_fees(run);
            subst1(run, &[Commit, CommitBuffer, Finalize]);
            actors(run, &[Commit, CommitBuffer, Finalize]);
            coincide(run, &[Commit, CommitBuffer, Finalize]);
            powers(run, &[Commit, CommitBuffer, Finalize]);
            life_donate(run);
        }
        "C09" => {
            flags(run, &[Undelegate]);
            grid_undelegate(run);
            grid_contents(run, false);
            life_core(run);
            life_writes(run);
            subst1(run, &[Undelegate]);
            actors(run, &[Undelegate]);
            near(run, &[Undelegate]);
            powers(run, &[Undelegate]);
            via_cpi(run, &[Undelegate]);
            coincide(run, &[Undelegate]);
            fields(run, &[Undelegate]);
            donated(run, &[Undelegate]);
            life_donate(run);
        }
        "C10" => {
            flags(run, &[Undelegate]);
            grid_undelegate(run);
            crossover(run, &[Undelegate]);
            subst1(run, &[Undelegate]);
            life_fees(run);
            actors(run, &[Undelegate]);
            near(run, &[Undelegate]);
            powers(run, &[Undelegate]);
            via_cpi(run, &[Undelegate]);
            coincide(run, &[Undelegate]);
            fields(run, &[Undelegate]);
            donated(run, &[Undelegate]);
            life_donate(run);
        }
        "C11" => {
            hostile(run);
        }
        "C12" => {
            flags(run, &[Undelegate]);
            grid_undelegate(run);
            grid_contents(run, false);
            grid_cuts(run);
            life_core(run);
            subst1(run, &[Undelegate]);
            life_donate(run);
            fields(run, &[Undelegate]);
            coincide(run, &[Undelegate]);
            powers(run, &[Undelegate]);
            via_cpi(run, &[Undelegate]);
        }
        "C13" => {
            attack(run, &[ValidatorClaim]);
            closed_vaults(run);
            grid_claim(run);
            life_fees(run);
            actors(run, &[ValidatorClaim]);
            merged(run, &[ValidatorClaim]);
            near(run, &[ValidatorClaim]);
            powers(run, &[ValidatorClaim]);
            via_cpi(run, &[ValidatorClaim]);
            donated(run, &[ValidatorClaim]);
        }
        "C14" => {
            attack(run, &[InitProtocol, ProtocolClaim]);
            grid_authority(run);
            grid_vaults(run);
            life_fees(run);
            actors(run, &[InitProtocol, ProtocolClaim]);
            near(run, &[InitProtocol, ProtocolClaim]);
            powers(run, &[InitProtocol, ProtocolClaim]);
            via_cpi(run, &[InitProtocol, ProtocolClaim]);
            coincide(run, &[InitProtocol, ProtocolClaim]);
            donated(run, &[InitProtocol, ProtocolClaim]);
        }
        "C15" => {
            attack(run, &[InitValidator, CloseValidator]);
            grid_authority(run);
            grid_vaults(run);
            closed_vaults(run);
            life_admin(run);
            actors(run, &[InitValidator, CloseValidator]);
            near(run, &[InitValidator, CloseValidator]);
            powers(run, &[InitValidator, CloseValidator]);
            via_cpi(run, &[InitValidator, CloseValidator]);
            coincide(run, &[InitValidator, CloseValidator]);
            donated(run, &[InitValidator, CloseValidator]);
        }
        "C16" => {
            attack(run, &[Whitelist]);
            grid_authority(run);
            grid_vaults(run);
            grid_whitelist(run);
            life_lists(run);
            actors(run, &[Whitelist]);
            near(run, &[Whitelist]);
            powers(run, &[Whitelist]);
            via_cpi(run, &[Whitelist]);
            coincide(run, &[Whitelist]);
            donated(run, &[Whitelist]);
        }
        "C17" => {
            flags(run, &[Whitelist]);
            plain(run, &[Whitelist]);
            grid_whitelist(run);
            life_lists(run);
            actors(run, &[Whitelist]);
            near(run, &[Whitelist]);
            powers(run, &[Whitelist]);
            via_cpi(run, &[Whitelist]);
            coincide(run, &[Whitelist]);
            donated(run, &[Whitelist]);
        }
        "C18" => {
            attack(run, &[TopUp]);
            grid_escrow(run);
            life_escrow(run);
            actors(run, &[TopUp]);
            merged(run, &[TopUp]);
            near(run, &[TopUp]);
            powers(run, &[TopUp]);
            via_cpi(run, &[TopUp]);
            donated(run, &[TopUp]);
        }
        "C19" => {
            attack(run, &[CloseEscrow]);
            grid_escrow(run);
            life_escrow(run);
            actors(run, &[CloseEscrow]);
            merged(run, &[CloseEscrow]);
            near(run, &[CloseEscrow]);
            powers(run, &[CloseEscrow]);
            via_cpi(run, &[CloseEscrow]);
            donated(run, &[CloseEscrow]);
        }
        "C20" => {
            attack(run, &[DelegateEscrow]);
            unfunded_escrow(run);
            grid_cuts(run);
            grid_escrow(run);
            life_escrow(run);
            actors(run, &[DelegateEscrow]);
            merged(run, &[DelegateEscrow]);
            near(run, &[DelegateEscrow]);
            powers(run, &[DelegateEscrow]);
            via_cpi(run, &[DelegateEscrow]);
            donated(run, &[DelegateEscrow]);
        }
        "C21" => {
            isolation(run);
            run.catch = true;
            crossover(run, &[]);
            subst1(run, &[]);
            near(run, &[]);
            via_cpi(run, &[]);
            coincide(run, &[]);
        }
        "C22" => {
            run.catch = true;
            donations(run);
        }
        "C23" => {
            run.catch = true;
            plain(run, &[]);
            flags(run, &[]);
            subst1(run, &[]);
            crossover(run, &[]);
            let n = run.pick(13, rich().small_pool.len());
            subst2(run, &[], &rich().small_pool[..n]);
            if run.thorough {
                subst2(run, &[], &rich().pool);
            }
        }
        "C24" => {
            let ops = [Commit, CommitBuffer, Finalize, Undelegate];
            actors(run, &ops);
            coincide(run, &ops);
            fields(run, &ops);
            powers(run, &ops);
            donated(run, &ops);
            run.catch = true;
            recovery(run);
            via_cpi(run, &[]);
        }
        "C25" => {
            plain(run, &[]);
            malformed(run);
        }
        "C28" => {
            run.catch = true;
            bundles(run);
        }
        _ => {}
    }
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "the runtime is the in-memory model in harness/core/src/svm.rs, bound to the real bank by replaying traces of this run",
        "derived addresses and hashes do not collide",
        "an account of the protocol holds at most 2^59 lamports (about the whole supply)",
    ];
    match id {
        "C11" => v.push("hostile callbacks are programs of at most the enumerated number of actions from the enumerated set"),
        "C24" => v.push("honest validators do not commit a zero balance, nor data for a system-owned account (recorded findings)"),
        _ => {}
    }
    v
}
