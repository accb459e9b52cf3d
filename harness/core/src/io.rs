//! Ledgers, transactions and histories as JSON: replay files, and traces for the bank.

use crate::explore::{Step, Trace};
use crate::svm::*;
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::str::FromStr;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn key(v: &Value) -> Pubkey {
    Pubkey::from_str(v.as_str().unwrap()).unwrap()
}
pub fn ledger(l: &Ledger) -> Value {
    Value::Array(
        l.iter()
            .map(|(k, a)| {
                json!({"key": k.to_string(), "lamports": a.lamports, "owner": a.owner.to_string(),
                       "exec": a.executable, "data": hex(&a.data), "name": crate::world::name_of(k)})
            })
            .collect(),
    )
}
pub fn un_ledger(v: &Value) -> Ledger {
    let mut l = Ledger::default();
    for a in v.as_array().unwrap() {
        l.set(
            key(&a["key"]),
            Acct {
                lamports: a["lamports"].as_u64().unwrap(),
                owner: key(&a["owner"]),
                executable: a["exec"].as_bool().unwrap(),
                data: unhex(a["data"].as_str().unwrap()),
            },
        );
    }
    l
}
pub fn tx(t: &Tx) -> Value {
    json!({"label": t.label, "ixs": t.ixs.iter().map(|i| json!({
        "program": i.program.to_string(), "data": hex(&i.data),
        "metas": i.metas.iter().map(|m| json!([m.key.to_string(), m.signer, m.writable])).collect::<Vec<_>>()
    })).collect::<Vec<_>>()})
}
pub fn un_tx(v: &Value) -> Tx {
    Tx {
        label: v["label"].as_str().unwrap_or("").into(),
        ixs: v["ixs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|i| Ix {
                program: key(&i["program"]),
                data: unhex(i["data"].as_str().unwrap()),
                metas: i["metas"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|m| Meta { key: key(&m[0]), signer: m[1].as_bool().unwrap(), writable: m[2].as_bool().unwrap() })
                    .collect(),
            })
            .collect(),
    }
}
pub fn trace(t: &Trace) -> Value {
    json!({"genesis": ledger(&t.genesis), "steps": t.steps.iter().map(|s| json!({"tx": tx(&s.tx), "slot": s.slot})).collect::<Vec<_>>()})
}
pub fn un_trace(v: &Value) -> Trace {
    Trace {
        genesis: un_ledger(&v["genesis"]),
        steps: v["steps"].as_array().unwrap().iter().map(|s| Step { tx: un_tx(&s["tx"]), slot: s["slot"].as_u64().unwrap() }).collect(),
    }
}
