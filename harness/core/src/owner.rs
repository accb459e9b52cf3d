//! Owner programs used by the model: an honest one that follows the delegation SDK's flow, and a
//! hostile one whose undelegation callback runs a script taken from the delegation seeds.

use crate::wire::{self, CALLBACK, DLP};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program::{invoke, invoke_signed};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::system_instruction as sys;

fn rent(n: usize) -> u64 {
    crate::svm::rent(n)
}

pub fn parse_seeds(mut d: &[u8]) -> Option<(Vec<Vec<u8>>, &[u8])> {
    let n = u32::from_le_bytes(d.get(..4)?.try_into().ok()?) as usize;
    d = &d[4..];
    let mut o = vec![];
    for _ in 0..n {
        let l = u32::from_le_bytes(d.get(..4)?.try_into().ok()?) as usize;
        o.push(d.get(4..4 + l)?.to_vec());
        d = &d[4 + l..];
    }
    Some((o, d))
}

fn create<'a>(t: &AccountInfo<'a>, payer: &AccountInfo<'a>, sysp: &AccountInfo<'a>, owner: &Pubkey, space: usize, s: &[&[u8]]) -> ProgramResult {
    let need = rent(space).saturating_sub(t.lamports());
    if need > 0 {
        invoke(&sys::transfer(payer.key, t.key, need), &[payer.clone(), t.clone(), sysp.clone()])?;
    }
    invoke_signed(&sys::allocate(t.key, space as u64), &[t.clone(), sysp.clone()], &[s])?;
    invoke_signed(&sys::assign(t.key, owner), &[t.clone(), sysp.clone()], &[s])
}

/// Instructions of the honest owner program:
///   0 ++ seeds ++ delegate args  : delegate a PDA   [payer ws, pda w, self, buffer w, record w, meta w, dlp, system]
///   1 ++ bytes                   : rewrite its PDA  [pda w]
///   callback                     : external undelegate
pub fn honest(program_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.len() >= 8 && data[..8] == CALLBACK {
        let (seeds, _) = parse_seeds(&data[8..]).ok_or(ProgramError::InvalidInstructionData)?;
        let [d, buf, payer, sysp, ..] = accounts else { return Err(ProgramError::NotEnoughAccountKeys) };
        if !buf.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
        let (_, bump) = Pubkey::find_program_address(&refs, program_id);
        let b = [bump];
        let mut full = refs.clone();
        full.push(&b);
        let n = buf.data_len();
        create(d, payer, sysp, program_id, n, &full)?;
        d.try_borrow_mut_data()?.copy_from_slice(&buf.try_borrow_data()?);
        return Ok(());
    }
    match data.first() {
        // 3, 4, 5, 6: as 0, but with the buffer left unfunded, not created, overfunded, and given a longer copy
        Some(&how @ (0 | 3..=6)) => {
            let (seeds, args) = parse_seeds(&data[1..]).ok_or(ProgramError::InvalidInstructionData)?;
            let [payer, d, me, buffer, rec, meta, dlp, sysp, ..] = accounts else { return Err(ProgramError::NotEnoughAccountKeys) };
            let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
            let (_, bump) = Pubkey::find_program_address(&refs, program_id);
            let b = [bump];
            let mut full = refs.clone();
            full.push(&b);
            let bs: [&[u8]; 2] = [b"buffer", d.key.as_ref()];
            let (_, bbump) = Pubkey::find_program_address(&bs, program_id);
            let bb = [bbump];
            let bfull: [&[u8]; 3] = [bs[0], bs[1], &bb];
            let n = d.data_len();
            match how {
                3 => {
                    invoke_signed(&sys::allocate(buffer.key, n as u64), &[buffer.clone(), sysp.clone()], &[&bfull])?;
                    invoke_signed(&sys::assign(buffer.key, program_id), &[buffer.clone(), sysp.clone()], &[&bfull])?;
                }
                4 => {}
                _ => create(buffer, payer, sysp, program_id, if how == 6 { n + 3 } else { n }, &bfull)?,
            }
            if how == 5 {
                invoke(&sys::transfer(payer.key, buffer.key, 12345), &[payer.clone(), buffer.clone(), sysp.clone()])?;
            }
            if how != 4 {
                buffer.try_borrow_mut_data()?[..n].copy_from_slice(&d.try_borrow_data()?);
            }
            d.try_borrow_mut_data()?.fill(0);
            d.assign(&crate::svm::SYSTEM);
            invoke_signed(&sys::assign(d.key, &DLP), &[d.clone(), sysp.clone()], &[&full])?;
            let mut data = vec![0u8; 8];
            data.extend(args);
            let ix = Instruction {
                program_id: DLP,
                accounts: vec![
                    AccountMeta::new(*payer.key, true),
                    AccountMeta::new(*d.key, true),
                    AccountMeta::new_readonly(*me.key, false),
                    AccountMeta::new(*buffer.key, false),
                    AccountMeta::new(*rec.key, false),
                    AccountMeta::new(*meta.key, false),
                    AccountMeta::new_readonly(*sysp.key, false),
                ],
                data,
            };
            invoke_signed(
                &ix,
                &[payer.clone(), d.clone(), me.clone(), buffer.clone(), rec.clone(), meta.clone(), sysp.clone(), dlp.clone()],
                &[&full],
            )?;
            if how == 4 {
                return Ok(());
            }
            let l = buffer.lamports();
            **buffer.try_borrow_mut_lamports()? = 0;
            **payer.try_borrow_mut_lamports()? += l;
            buffer.realloc(0, false)?;
            buffer.assign(&crate::svm::SYSTEM);
            Ok(())
        }
        Some(1) => {
            let d = &accounts[0];
            if d.owner != program_id {
                return Err(ProgramError::IllegalOwner);
            }
            d.realloc(data.len() - 1, false)?;
            d.try_borrow_mut_data()?.copy_from_slice(&data[1..]);
            Ok(())
        }
        // 2 ++ seeds ++ instruction data: any call signed for the PDA; accounts are passed through, [dlp, pda, ...]
        Some(2) => {
            let (seeds, args) = parse_seeds(&data[1..]).ok_or(ProgramError::InvalidInstructionData)?;
            let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
            let (pda, bump) = Pubkey::find_program_address(&refs, program_id);
            let b = [bump];
            let mut full = refs.clone();
            full.push(&b);
            let ix = Instruction {
                program_id: *accounts[0].key,
                accounts: accounts[1..]
                    .iter()
                    .map(|a| AccountMeta { pubkey: *a.key, is_signer: a.is_signer || *a.key == pda, is_writable: a.is_writable })
                    .collect(),
                data: args.to_vec(),
            };
            invoke_signed(&ix, accounts, &[&full])
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// The operations a hostile callback is composed of.
pub const HOSTILE: &[(u8, &str)] = &[
    (b'C', "create the account with the exact rent"),
    (b'W', "copy as much of the state as fits into the account"),
    (b's', "create the account one byte too short, with the rent of the full size"),
    (b'g', "create the account one byte too long"),
    (b'0', "create the account without data, with the rent of the full size"),
    (b'c', "create the account with one lamport too many"),
    (b'm', "create the account with one lamport too few"),
    (b'T', "take 1 lamport from the validator into the account"),
    (b'R', "take 1 SOL from the validator into the account"),
    (b'B', "take 5 lamports from the validator into the buffer"),
    (b'A', "assign the validator's account to itself"),
    (b'D', "assign the validator's account to the delegation program"),
    (b'V', "give the validator's account back to the system program"),
    (b'L', "allocate data in the validator's account"),
    (b'N', "resize the validator's account while owning it"),
    (b'S', "move 1 SOL out of the validator's account while owning it"),
    (b'F', "move 7 lamports from the account to the validator"),
    (b'f', "move 9 lamports from the account to the buffer"),
    (b'Y', "corrupt one byte of the account"),
    (b'r', "grow the account by one byte"),
    (b'q', "shrink the account by one byte"),
    (b'O', "assign the account to the delegation program"),
    (b'o', "assign the account to the system program"),
    (b'Z', "zero the account"),
    (b'U', "overwrite the buffer"),
    (b'E', "fail"),
];

/// Hostile owner program: the callback runs the script found in the second seed.
pub fn hostile(program_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.len() < 8 || data[..8] != CALLBACK {
        return Err(ProgramError::InvalidInstructionData);
    }
    let (seeds, _) = parse_seeds(&data[8..]).ok_or(ProgramError::InvalidInstructionData)?;
    let [d, buf, val, sysp, ..] = accounts else { return Err(ProgramError::NotEnoughAccountKeys) };
    let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
    let (_, bump) = Pubkey::find_program_address(&refs, program_id);
    let b = [bump];
    let mut full = refs.clone();
    full.push(&b);
    let n = buf.data_len();
    let mkn = |lam: u64, n: usize| {
        invoke_signed(
            &sys::create_account(val.key, d.key, lam, n as u64, program_id),
            &[val.clone(), d.clone(), sysp.clone()],
            &[&full],
        )
    };
    let mk = |lam: u64| mkn(lam, n);
    let mv = |a: &AccountInfo, b: &AccountInfo, x: u64| -> ProgramResult {
        if a.lamports() < x {
            return Err(ProgramError::InsufficientFunds);
        }
        **a.try_borrow_mut_lamports()? -= x;
        **b.try_borrow_mut_lamports()? += x;
        Ok(())
    };
    let mut ops = seeds[1].iter();
    while let Some(op) = ops.next() {
        match op {
            b'C' => mk(rent(n))?,
            b'c' => mk(rent(n) + 1)?,
            b'm' => mk(rent(n) - 1)?,
            b's' => mkn(rent(n), n.saturating_sub(1))?,
            b'g' => mkn(rent(n + 1), n + 1)?,
            b'0' => mkn(rent(n), 0)?,
            b'W' => {
                let mut to = d.try_borrow_mut_data()?;
                let from = buf.try_borrow_data()?;
                let k = to.len().min(from.len());
                to[..k].copy_from_slice(&from[..k]);
            }
            b'T' => invoke(&sys::transfer(val.key, d.key, 1), &[val.clone(), d.clone(), sysp.clone()])?,
            b'R' => invoke(&sys::transfer(val.key, d.key, 1_000_000_000), &[val.clone(), d.clone(), sysp.clone()])?,
            b'B' => invoke(&sys::transfer(val.key, buf.key, 5), &[val.clone(), buf.clone(), sysp.clone()])?,
            b'A' => invoke(&sys::assign(val.key, program_id), &[val.clone(), sysp.clone()])?,
            b'D' => invoke(&sys::assign(val.key, &DLP), &[val.clone(), sysp.clone()])?,
            b'V' => val.assign(&crate::svm::SYSTEM),
            b'L' => invoke(&sys::allocate(val.key, 8), &[val.clone(), sysp.clone()])?,
            b'N' => val.realloc(4, false)?,
            b'S' => mv(val, d, 1_000_000_000)?,
            b'F' => mv(d, val, 7)?,
            b'f' => mv(d, buf, 9)?,
            b'Y' => {
                let mut x = d.try_borrow_mut_data()?;
                match x.first_mut() {
                    Some(c) => *c ^= 1,
                    None => return Err(ProgramError::InvalidAccountData),
                }
            }
            // not part of the alphabet above: corrupt the byte whose position follows
            b'P' => {
                let (Some(a), Some(b)) = (ops.next(), ops.next()) else { return Err(ProgramError::InvalidInstructionData) };
                match d.try_borrow_mut_data()?.get_mut(u16::from_le_bytes([*a, *b]) as usize) {
                    Some(c) => *c ^= 1,
                    None => return Err(ProgramError::InvalidAccountData),
                }
            }
            b'r' => d.realloc(d.data_len() + 1, false)?,
            b'q' => d.realloc(d.data_len().saturating_sub(1), false)?,
            b'O' => d.assign(&DLP),
            b'o' => d.assign(&crate::svm::SYSTEM),
            b'Z' => d.try_borrow_mut_data()?.fill(0),
            b'U' => buf.try_borrow_mut_data()?.fill(7),
            _ => return Err(ProgramError::Custom(99)),
        }
    }
    Ok(())
}

/// Metas and data of the honest program's "delegate" instruction.
pub fn delegate_ix(program: Pubkey, payer: Pubkey, d: Pubkey, seeds: &[Vec<u8>], a: &wire::DelegateArgs) -> crate::svm::Ix {
    use crate::svm::*;
    let mut data = vec![0u8];
    data.extend(wire::enc_seeds(seeds));
    data.extend(a.enc());
    Ix {
        program,
        metas: vec![
            ws(payer),
            w(d),
            r(program),
            w(wire::buffer(&d, &program)),
            w(wire::record(&d)),
            w(wire::metadata(&d)),
            r(DLP),
            r(SYSTEM),
        ],
        data,
    }
}
/// As [`delegate_ix`], with the buffer handled in another way (see [`honest`]).
pub fn delegate_how_ix(how: u8, program: Pubkey, payer: Pubkey, d: Pubkey, seeds: &[Vec<u8>], a: &wire::DelegateArgs) -> crate::svm::Ix {
    let mut ix = delegate_ix(program, payer, d, seeds, a);
    ix.data[0] = how;
    ix
}
pub fn write_ix(program: Pubkey, d: Pubkey, bytes: &[u8]) -> crate::svm::Ix {
    use crate::svm::*;
    let mut data = vec![1u8];
    data.extend(bytes);
    Ix { program, metas: vec![w(d)], data }
}
/// A call of `ix` signed for the PDA of `program` with `seeds`.
pub fn proxy_ix(program: Pubkey, seeds: &[Vec<u8>], ix: &crate::svm::Ix) -> crate::svm::Ix {
    use crate::svm::*;
    let refs: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
    let pda = wire::derive(&refs, &program);
    let mut metas = vec![r(ix.program)];
    for m in &ix.metas {
        metas.push(Meta { key: m.key, signer: m.signer && Some(m.key) != pda, writable: m.writable });
    }
    let mut data = vec![2u8];
    data.extend(wire::enc_seeds(seeds));
    data.extend(&ix.data);
    Ix { program, metas, data }
}
