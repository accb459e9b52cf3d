#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property."""
import json, os
P = "src/processor/"
def m(name, where): return {"name": name, "where": where}
rows = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": mech, "observe_at": observe, "hook_needed": None}
    if state: a["state"] = state
    rows.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

LED = "the ledger (owner, lamports, data of every account) before and after the instruction, and whether it succeeded"

prop("C01", "Delegation needs consent and an account is delegated at most once",
 "An account becomes delegated only by an instruction signed by both the payer and the account itself, where the account is already owned by the delegation program and, if it is a program-derived address, is derived from the given seeds under the owner program that is being recorded (under the delegation program itself for escrows). While an account is delegated, every further delegation of it fails and its delegation record and metadata stay as they are.",
 ["inputs","histories"], "all account lists, signer subsets, seed lists, owner programs and prior histories of the account",
 "the tests delegate one fresh account through one well-behaved program; no test omits a signature, substitutes the owner program or seeds, or delegates twice",
 [P+"delegate.rs", P+"utils/loaders.rs", P+"delegate_ephemeral_balance.rs"],
 [m("ownership, seed, signer and uninitialised-record checks", P+"delegate.rs process_delegate"), m("load_uninitialized_pda / load_signer", P+"utils/loaders.rs")],
 [LED])
prop("C02", "Delegation records exactly what was delegated",
 "A successful delegation creates a delegation record holding the chosen validator (or none), the owner program, the current slot, the account's lamports and the commit frequency, and a metadata record holding the exact seed list, the payer as rent payer, last commit slot zero and undelegation not allowed, both rent-exempt, of exactly the encoded size and paid for by the payer. The delegated account keeps its lamports, and its data becomes the delegate buffer's content if the buffer is non-empty and is otherwise unchanged.",
 ["inputs"], "all argument values (frequency, validator, 0..16 seeds of 0..32 bytes), account data sizes, lamports, clock slots and pre-funded record addresses",
 "tests use one seed list, one size, slot 0 and compare a few fields; pre-funded record addresses, other slots, many seeds and an empty buffer are not tried",
 [P+"delegate.rs", "src/state/delegation_record.rs", "src/state/delegation_metadata.rs", P+"utils/pda.rs"],
 [m("record and metadata initialisation, buffer copy", P+"delegate.rs"), m("create_pda", P+"utils/pda.rs")],
 [LED])
prop("C03", "Only admitted validators commit, and only to delegated accounts",
 "A state commit takes effect only if the validator signed it, the validator's own fees vault is open, the target is currently delegated (owned by the delegation program with its own delegation record and metadata), and, when the account's owner program has a validator whitelist, the validator is on that whitelist; otherwise it fails and changes nothing. A commit that meets these conditions in a delegation that is not pending, not closed to commits, and whose validator can pay, succeeds.",
 ["inputs","histories","configurations"], "all validators, vault and whitelist histories, account lists and signer subsets, for both commit forms",
 "tests try one admitted validator, and one whitelisted and one missing-vault case; removal from a whitelist, closed vaults, other validators' vaults, and histories of these are not covered",
 [P+"commit_state.rs", P+"commit_state_from_buffer.rs", P+"utils/loaders.rs"],
 [m("signer, vault and program-config checks", P+"commit_state.rs process_commit_state_internal"), m("load_initialized_validator_fees_vault / load_program_config", P+"utils/loaders.rs")],
 [LED])
prop("C04", "A commit stages exactly the given state and touches nothing else",
 "A successful non-outdated commit creates a staged state equal byte for byte to the given data (or the whole given buffer) and a commit record naming that validator, account, slot and lamports, and leaves the delegated account, the delegation record, the whitelist and every vault unchanged. At most one commit is pending per account: a non-outdated commit while another is pending fails and leaves the pending one unchanged.",
 ["inputs","histories"], "all data sizes and contents, slots, lamports, both commit forms and all prior histories, including pre-funded staging addresses",
 "tests commit one short byte string to a fresh account; empty, large, all-zero data, repeated commits and pre-funded staging addresses are not tried",
 [P+"commit_state.rs", P+"commit_state_from_buffer.rs", "src/state/commit_record.rs", P+"utils/pda.rs"],
 [m("create and fill the staging accounts", P+"commit_state.rs"), m("load_uninitialized_pda", P+"utils/loaders.rs")],
 [LED])
prop("C05", "Commits are ordered by slot and outdated ones are skipped",
 "The finalized slot of a delegation never decreases: a commit whose slot is lower than the last finalized slot succeeds without changing anything, a commit with an equal or higher slot is accepted on its other merits, and the last finalized slot changes only when a commit is finalized, to exactly that commit's slot. A new delegation starts again from slot zero.",
 ["inputs","histories"], "all sequences of commit, finalize, undelegate and redelegate with any slot values up to 2^64-1",
 "no test commits an outdated or equal slot or uses large slot values; tests use one or two increasing slots",
 [P+"commit_state.rs", P+"finalize.rs", "src/state/delegation_metadata.rs"],
 [m("outdated-slot skip", P+"commit_state.rs"), m("last slot update", P+"finalize.rs")],
 [LED])
prop("C06", "Undelegation is gated by the final allowing commit, with nothing pending",
 "Undelegation succeeds only for a signing validator with an open vault, when the latest accepted commit allowed undelegation and no commit is pending; otherwise it fails and changes nothing. Once a commit allowing undelegation has been accepted, no further non-outdated commit is accepted in that delegation, and a commit that does not allow it never enables undelegation.",
 ["inputs","histories"], "all histories of commits with either flag, finalizations, undelegation attempts at every point and by every signer",
 "tests undelegate once after one allowing commit, and once with no commit; attempts with a pending commit, after a disallowing commit, or commits after an allowing one are not covered",
 [P+"undelegate.rs", P+"commit_state.rs", "src/state/delegation_metadata.rs"],
 [m("undelegatable flag, pending-commit and vault checks", P+"undelegate.rs"), m("already-undelegated check", P+"commit_state.rs")],
 [LED])
prop("C07", "Finalize applies exactly the pending commit, once, by its committer",
 "Finalizing a pending commit succeeds only for the signing validator that committed it, sets the delegated account's data to the staged bytes exactly, records the new slot and lamports, and closes both staging accounts to that validator. Finalizing when nothing is pending succeeds and changes nothing.",
 ["inputs","histories"], "all pending commits (any size within the runtime's growth limit, any lamports), all finalizing validators, all prior histories",
 "tests finalize one commit by its own validator; another admitted validator finalizing, shrinking/growing to other sizes, and finalizing twice or with nothing pending are not tested",
 [P+"finalize.rs", P+"utils/pda.rs"],
 [m("identity checks, data copy, close_pda", P+"finalize.rs")],
 [LED])
prop("C08", "Commit/finalize lamport settlement is exact and collateralised",
 "If a commit raises the balance, the validator deposits the increase when it commits and it reaches the delegated account at finalization; if it lowers the balance, the decrease goes from the delegated account to that validator's fees vault; an equal balance moves nothing. Rent the validator put into staging comes back to it, so after finalization its net cost is exactly the increase, and the recorded balance equals the account's actual lamports. At any time the delegated account holds at least its recorded balance, and donations made meanwhile stay in the account.",
 ["inputs","histories"], "all recorded and committed lamport values, donations to any involved address, and all histories of rounds",
 "tests settle one raise and one decrease of fixed size; several rounds, donations, pre-funded staging addresses, zero and huge values are not explored",
 [P+"commit_state.rs", P+"finalize.rs"],
 [m("collateral transfer", P+"commit_state.rs"), m("settle_lamports_balance", P+"finalize.rs")],
 [LED])
prop("C09", "Undelegation hands the account back exactly and ends the delegation",
 "When undelegation succeeds with an owner program that follows the callback contract, the account again belongs to the owner program recorded at delegation with exactly the data and lamports it had before, and the delegation record, the metadata and the temporary buffer no longer exist. The account can then be used by its program and delegated again, starting as a fresh delegation.",
 ["inputs","histories"], "all data sizes and balances (above and exactly at rent), all delegate/commit/finalize/undelegate histories, accounts with and without data, on and off curve",
 "tests undelegate one account of one size and compare data; exact lamports over histories, re-delegation cycles, and boundary balances are not checked",
 [P+"undelegate.rs", P+"utils/pda.rs"],
 [m("close, callback, verify, restore lamports, cleanup", P+"undelegate.rs")],
 [LED])
prop("C10", "Rent of delegation records is refunded to its payer minus fixed fees",
 "On undelegation, for each of the delegation record and the metadata separately, 10% of its balance rounded down is taken as fee, 10% of that fee rounded down goes to the protocol vault and the rest of the fee to the undelegating validator's vault, and everything else goes to the account that paid the rent at delegation. No other recipient gets anything and no lamport is lost or created.",
 ["inputs"], "all balances of the two records (any seed list length, any donation to them), any rent payer including the validator itself",
 "the test checks one pair of balances with round numbers; rounding at each residue, donations and a rent payer that is also the validator are not covered",
 [P+"undelegate.rs", P+"utils/pda.rs", "src/consts.rs"],
 [m("close_pda_with_fees", P+"utils/pda.rs"), m("process_delegation_cleanup", P+"undelegate.rs")],
 [LED])
prop("C11", "A misbehaving owner program cannot harm the undelegating validator",
 "Whatever the owner program does in its undelegation callback, a successful undelegation leaves the validator's account system-owned, without data and with no lamports lost, leaves the delegated account holding exactly the committed data, and settles the records as usual; if the callback does anything incompatible with that, the whole undelegation fails and changes nothing.",
 ["programs","inputs"], "all callback programs (sequences of operations a program can perform on the accounts passed to it), all sizes and balances of the delegated account",
 "tests only use the well-behaved test program; no test has a callback that steals, assigns, underfunds, corrupts or does nothing",
 [P+"undelegate.rs"],
 [m("validator balance check and data check after the callback", P+"undelegate.rs process_undelegation_with_cpi")],
 [LED])
prop("C12", "The undelegation callback follows its documented contract",
 "Undelegating an account with data makes exactly one call to the recorded owner program, with the fixed 8-byte callback discriminator followed by the encoded seed list given at delegation, and with the accounts: delegated account (writable), state buffer (writable, signer), validator (writable, signer), system program; at that moment the delegated account is empty and closed and the buffer, owned by the delegation program, holds exactly the committed data. Undelegating an account without data makes no call to the owner program.",
 ["inputs","histories"], "all seed lists, data sizes and contents (including all zero), prior balances of the buffer address",
 "the tests only see that one compiled test program accepts the call; the exact call and its state are not inspected, and empty and all-zero data are not separated",
 [P+"undelegate.rs", "src/consts.rs"],
 [m("cpi_external_undelegate", P+"undelegate.rs"), m("EXTERNAL_UNDELEGATE_DISCRIMINATOR", "src/consts.rs")],
 ["every cross-program call made by the instruction: program, accounts with flags, data, and the ledger at the moment of the call"])
prop("C13", "Validator fee claims pay out exactly, never below the rent minimum",
 "Only the validator that owns a fees vault can claim from it, by signing; a claim of an amount moves exactly that amount out of the vault, a tenth of it rounded down to the protocol vault and the rest to the validator, and a claim without amount takes everything above the vault's rent minimum. A claim that would take the vault below its rent minimum fails and changes nothing.",
 ["inputs"], "all amounts (none, zero, every boundary, up to 2^64-1) and vault balances, all signers and vaults",
 "the test claims one round amount; rounding, exact-balance, over-balance, other validators' vaults and missing signatures are not covered",
 [P+"validator_claim_fees.rs", "src/consts.rs"],
 [m("balance check and split", P+"validator_claim_fees.rs")],
 [LED])
prop("C14", "Protocol vault: created once, claimed only by the program's admin",
 "Anyone can create the protocol fees vault, once, as an 8-byte rent-exempt account of the delegation program, keeping lamports already at its address; creating it again fails. Only the signing upgrade authority of the delegation program can claim from it, and a claim moves everything above the rent minimum to that authority and nothing else.",
 ["inputs","histories"], "all balances of the vault and its address before creation, all signers, authority accounts and operation orders",
 "tests create it once and claim once with a test-only admin key; the production authority check is compiled out of the tests entirely",
 [P+"init_protocol_fees_vault.rs", P+"protocol_claim_fees.rs", P+"utils/loaders.rs"],
 [m("load_program_upgrade_authority", P+"utils/loaders.rs"), m("amount above rent", P+"protocol_claim_fees.rs")],
 [LED])
prop("C15", "Only the program's admin opens and closes validator vaults",
 "A validator's fees vault is opened or closed only by an instruction signed by both the payer and the upgrade authority of the delegation program, read from the program's own data account. Opening creates an 8-byte rent-exempt account of the delegation program at the address of exactly that validator and fails if it exists; closing pays its whole balance to that validator identity, and from then on the validator can no longer commit, finalize, undelegate or claim until it is reopened.",
 ["inputs","histories"], "all signers, authority accounts, validators and open/close/commit histories",
 "tests run one open and one close with a test-only admin key, so the production authority check never runs in tests; wrong admin, missing signatures and re-opening are not covered",
 [P+"init_validator_fees_vault.rs", P+"close_validator_fees_vault.rs", P+"utils/loaders.rs"],
 [m("authority and signer checks", P+"init_validator_fees_vault.rs, "+P+"close_validator_fees_vault.rs")],
 [LED])
prop("C16", "A program's whitelist is changed only by its own authority or the admin",
 "The validator whitelist of a program changes only through an instruction signed by that program's upgrade authority or by the delegation program's upgrade authority, as recorded in those programs' own data accounts; the authority of another program, an immutable program, or a forged or mismatched data account gives no right.",
 ["inputs"], "all signers, programs, data accounts (right, swapped, forged, without authority) and signer flags",
 "tests use the test-only admin and one program authority; swapped or forged data accounts, other programs' authorities and missing signatures are not covered",
 [P+"whitelist_validator_for_program.rs", P+"utils/loaders.rs"],
 [m("validate_authority / load_program_upgrade_authority", P+"whitelist_validator_for_program.rs")],
 [LED])
prop("C17", "A whitelist is exactly the set built by its insertions and removals",
 "After any sequence of insertions and removals the whitelist account, owned by the delegation program, encodes exactly the resulting set of validators in ascending order with its count and no surplus bytes, is rent-exempt for its size, and repeated insertions or removals of absent entries do not change the set. Each change affects only the named validator, the account's lamports never decrease, and the signing authority pays any rent growth.",
 ["inputs","histories"], "all insert/remove sequences over any number of validators, with any pre-existing lamports at the address",
 "tests insert a few validators and remove one; shrinking, growing again, removal from an absent whitelist, order, and prefunded addresses are not covered",
 [P+"whitelist_validator_for_program.rs", "src/state/program_config.rs", P+"utils/pda.rs"],
 [m("create, insert/remove, resize, rewrite", P+"whitelist_validator_for_program.rs"), m("resize_pda", P+"utils/pda.rs")],
 [LED])
prop("C18", "Escrow top-up moves exactly the amount into the named escrow",
 "A top-up signed by the payer moves exactly the given amount (plus, for an escrow below the rent minimum of an empty account, what is missing to reach it) from the payer into the escrow of the named user and index, whether or not the escrow is delegated, and touches no other account. Each user and index has its own escrow; it stays system-owned while not delegated.",
 ["inputs","histories"], "all amounts, all 256 indexes, payers and users, prior balances, delegated and undelegated escrows",
 "tests top up a couple of indexes; other indexes, prior balances, zero, and a delegated escrow are not covered",
 [P+"top_up_ephemeral_balance.rs", P+"utils/pda.rs", "src/pda.rs"],
 [m("escrow address check, create and transfer", P+"top_up_ephemeral_balance.rs")],
 [LED])
prop("C19", "Only its user can close an escrow, for its full balance, while undelegated",
 "Closing an escrow succeeds only when signed by the user it belongs to, for that user's given index and while the escrow is not delegated, and it pays the escrow's entire balance to that user; closing an empty escrow succeeds without effect. Nobody else's escrow and no other index is affected.",
 ["inputs","histories"], "all users, signers, 256 indexes, balances and delegation states",
 "tests close one undelegated escrow; foreign users, delegated escrows, empty escrows, other indexes and balances below rent are not covered",
 [P+"close_ephemeral_balance.rs"],
 [m("signer, address and owner checks", P+"close_ephemeral_balance.rs")],
 [LED])
prop("C20", "Delegating an escrow needs its user and pins it to that user and index",
 "An escrow is delegated only by an instruction signed by both the payer and the escrow's user; it is recorded with the system program as owner and with seeds naming exactly that user and index, whatever seeds the caller passes, keeping its balance. It goes through commits, finalization and undelegation like any account and afterwards is system-owned again with its balance and can be topped up, closed or delegated again.",
 ["inputs","histories"], "all users, payers, indexes, caller-supplied arguments and histories of the escrow",
 "tests delegate one escrow once with matching seeds; a missing user signature, foreign seeds, other indexes, double delegation and the full escrow life cycle are not covered",
 [P+"delegate_ephemeral_balance.rs", P+"delegate.rs"],
 [m("seed override, assign and nested delegation", P+"delegate_ephemeral_balance.rs")],
 [LED])
prop("C21", "Delegations are isolated: an operation only affects its own accounts",
 "An instruction about one delegated account never changes another delegated account, its records, its pending commit, another validator's vault, another user's escrow or another program's whitelist. Interleaving operations on different accounts in any order gives each account the same result as running its operations alone.",
 ["histories","schedules"], "all interleavings of operation sequences on two delegated accounts (same or different owner programs, validators and escrow users)",
 "tests only ever have one delegated account per run, so cross-account interference cannot show",
 [P+"commit_state.rs", P+"finalize.rs", P+"undelegate.rs", P+"delegate.rs", "src/pda.rs"],
 [m("per-account derived addresses", "src/pda.rs"), m("account checks in every processor", "src/processor")],
 [LED])
prop("C22", "Unsolicited lamports cannot block or corrupt any operation",
 "Sending lamports to any address the protocol uses (records, staging, buffers, vaults, whitelists, escrows or the delegated account), before or between operations, never makes an operation that would have succeeded fail, and never changes which accounts, owners and data result, apart from recorded balances. The donated lamports are never lost: they end up in the accounts the protocol settles to.",
 ["histories","fault_sequences"], "a donation of any amount (dust, around rent, large) to any protocol address at every point of every operation sequence",
 "one test suite tries no donations except a single pre-funded delegation case; blocking by pre-funding is the classic denial-of-service on derived addresses",
 [P+"utils/pda.rs", P+"utils/loaders.rs", P+"finalize.rs", P+"undelegate.rs"],
 [m("create_pda's transfer/allocate/assign path", P+"utils/pda.rs"), m("uninitialised means system-owned without data", P+"utils/loaders.rs")],
 [LED])
prop("C23", "Substituting any account of an instruction is rejected",
 "If in an otherwise valid instruction one or two of the expected accounts are replaced by any other account (another user's, validator's or program's derived account, one of a different kind, an account with forged contents, or an uninitialised one), the instruction fails and changes nothing, unless the replacement is itself a legitimate choice for that position, in which case the effect is exactly that of the instruction for that account.",
 ["inputs"], "every instruction, every one or two positions, every other account in the world, in every life-cycle state",
 "tests pass the builders' account lists; only a few substitutions of a single validator or admin are tried",
 ["src/processor", P+"utils/loaders.rs"],
 [m("address, owner and program checks", P+"utils/loaders.rs")],
 [LED])
prop("C24", "No reachable state strands a delegated account",
 "From every state that delegations, commits, finalizations, failed operations and donations can reach, the honest parties can recover: the committing validator can finalize a pending commit, an admitted validator can then commit an allowing state and finalize it, and undelegation returns the account to its program with its data and lamports and refunds the rent, after which it can be delegated again.",
 ["histories","fault_sequences"], "all reachable states of the life cycle within the depth bound, including those produced by adversarial, donated or failing steps",
 "tests follow the single intended path and never ask whether recovery remains possible after another history",
 [P+"commit_state.rs", P+"finalize.rs", P+"undelegate.rs", P+"delegate_ephemeral_balance.rs"],
 [m("uninitialised/initialised transitions of records and staging", "src/processor")],
 [LED])
prop("C25", "Malformed or unknown instructions fail without effect",
 "Instruction data shorter than eight bytes, with an unknown operation number, truncated or over-long for the operations that take structured arguments, or with invalid encodings, and account lists shorter than the operation needs, always make the instruction fail and leave the ledger unchanged. Calls under a different program id fail.",
 ["inputs"], "all first bytes, all truncations and extensions of every operation's data, all short account lists, all invalid boolean and option encodings",
 "tests only send well-formed instructions",
 ["src/lib.rs", "src/discriminator.rs", "src/args", "src/processor"],
 [m("dispatch and length checks", "src/lib.rs process_instruction"), m("strict argument decoding", "src/processor")],
 [LED])
prop("C26", "Client builders encode what the program accepts",
 "For every argument value, each instruction builder yields the documented operation number, argument encoding, account order and derived addresses, with the needed signers and writable accounts, so that the program accepts it in a state where the operation is valid and does exactly that operation for exactly those arguments. Every address helper returns the address the program itself uses.",
 ["inputs"], "all builders, all argument values of a bounded grid covering every field, index and option, and all keys of the world",
 "tests use builders for both sides with one argument set, so a consistent error in builder and program, or one visible only for other arguments, goes unnoticed",
 ["src/instruction_builder", "src/pda.rs", "src/args", "src/discriminator.rs"],
 [m("instruction builders", "src/instruction_builder"), m("address helpers", "src/pda.rs")],
 ["the instruction a builder returns, and the ledger after executing it"])
prop("C27", "Account layouts are stable and decoding is strict",
 "Each state account type has a fixed layout: an 8-byte little-endian type number (100 delegation record, 101 commit record, 102 delegation metadata, 103 whitelist) followed by its fields in the documented order; decoding an encoding returns the same value, and decoding fails for any other type number, any truncation and any surplus bytes. Distinct values have distinct encodings.",
 ["inputs"], "all field values of a bounded grid (boundary integers, seed lists, validator sets), all truncations, extensions and type numbers",
 "one unit test round-trips one metadata value without its type number; layout, strictness and type confusion are not tested",
 ["src/state", "src/state/utils"],
 [m("to/try_from bytes with discriminator", "src/state/utils")],
 ["bytes produced and values decoded by the public state types"])
prop("C28", "Bundling instructions in one transaction changes nothing",
 "If a sequence of instructions of this program succeeds when each is sent in its own transaction, the same sequence sent as one transaction also succeeds and leaves exactly the same ledger. A bundle in which any instruction fails leaves the ledger unchanged.",
 ["schedules","histories"], "all bundles of up to three instructions drawn from the operation alphabet, in every order, from every base state",
 "tests send one instruction per transaction except for a few commit+finalize+undelegate bundles in one state",
 ["src/processor", P+"utils/loaders.rs"],
 [m("account flag and initialisation checks tolerant of merged flags", P+"utils/loaders.rs"), m("skip-without-error on outdated commits and empty finalizations", P+"commit_state.rs, "+P+"finalize.rs")],
 [LED])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in rows: f.write(json.dumps(r) + "\n")
print(len(rows))
