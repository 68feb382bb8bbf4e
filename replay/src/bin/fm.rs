//! C04: values that must be present are, and names are canonical
use axelar_wasm_std::nonempty;
use axelar_wasm_std::voting::PollId;
use connection_router::state::{Address, ChainName, CrossChainId, Message};
use cosmwasm_std::{Timestamp, Uint128, Uint256, Uint64};
use cw_storage_plus::{KeyDeserialize, PrimaryKey};
use replay::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const F: &str = "C04";

fn text(r: &mut Rng) -> String {
    let al: Vec<char> = "ab:AB0:ÉéΣσςİß: ".chars().collect();
    (0..r.below(6)).map(|_| *r.pick(&al)).collect()
}

fn present(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    for _ in 0..8 {
        let s = text(r);
        let n = if r.chance(30) { 0 } else { r.edge() };
        let j = json!(s);
        let want = if s.is_empty() { None } else { Some(j.clone()) };
        let back = |x: Option<nonempty::String>| x.map(|x| json!(x));
        chk!(F, back(serde_json::from_value(j.clone()).ok()) == want, "a text is read as a nonempty text exactly when it is not empty", "{:?}", s);
        chk!(F, back(nonempty::String::try_from(s.clone()).ok()) == want && back(s.parse().ok()) == want && back(nonempty::String::try_from(s.as_str()).ok()) == want, "conversion of a text", "{:?}", s);
        let want = if n == 0 { None } else { Some(n) };
        let q = json!(n.to_string());
        chk!(F, serde_json::from_value::<nonempty::Uint64>(q.clone()).ok().map(u64::from) == want, "a number is read as a nonzero Uint64 exactly when it is not zero", "{}", n);
        chk!(F, serde_json::from_value::<nonempty::Uint128>(q.clone()).ok().map(|x| Uint128::from(x).u128() as u64) == want, "a number is read as a nonzero Uint128 exactly when it is not zero", "{}", n);
        chk!(F, serde_json::from_value::<nonempty::Uint256>(q.clone()).ok().map(|x| *x.as_ref()) == want.map(Uint256::from), "a number is read as a nonzero Uint256 exactly when it is not zero", "{}", n);
        chk!(F, serde_json::from_value::<nonempty::Timestamp>(q.clone()).ok().map(|x| json!(x)) == want.map(|_| q.clone()), "a time is read as a nonzero Timestamp exactly when it is not zero", "{}", n);
        chk!(F, nonempty::Uint64::try_from(n).ok().map(u64::from) == want && nonempty::Uint64::try_from(Uint64::from(n)).ok().map(u64::from) == want, "conversion to Uint64", "{}", n);
        chk!(F, nonempty::Uint128::try_from(Uint128::from(n)).ok().map(Uint128::from) == want.map(Uint128::from), "conversion to Uint128", "{}", n);
        chk!(F, nonempty::Uint256::try_from(Uint256::from(n)).ok().map(Uint256::from) == want.map(Uint256::from), "conversion to Uint256", "{}", n);
        chk!(F, nonempty::Uint256::try_from(Uint128::from(n)).ok().map(Uint256::from) == want.map(Uint256::from), "conversion from Uint128 to Uint256", "{}", n);
        chk!(F, nonempty::Timestamp::try_from(Timestamp::from_nanos(n)).is_ok() == want.is_some(), "conversion to Timestamp", "{}", n);
        let v: Vec<u64> = (0..r.below(3)).collect();
        let got = serde_json::from_value::<nonempty::Vec<u64>>(json!(v)).ok().map(Vec::<u64>::from);
        chk!(F, got == if v.is_empty() { None } else { Some(v.clone()) }, "a list is read as a nonempty list exactly when it is not empty", "{:?}", v);
        chk!(F, nonempty::Vec::try_from(v.clone()).ok().map(Vec::<u64>::from) == got, "conversion to a nonempty list", "{:?}", v);
        t.log(format!("{:?} {}", s, n));
    }
    Ok(())
}

fn names(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let mut keys: BTreeMap<Vec<u8>, CrossChainId> = BTreeMap::new();
    let mut texts: BTreeMap<String, CrossChainId> = BTreeMap::new();
    for _ in 0..12 {
        let s = text(r);
        let want = if s.is_empty() || s.contains(':') { None } else { Some(s.to_lowercase()) };
        let got = |x: Option<ChainName>| x.map(String::from);
        chk!(F, got(s.parse().ok()) == want, "a chain name is the lower case of a text that is not empty and has no separator", "{:?}", s);
        chk!(F, got(ChainName::try_from(s.clone()).ok()) == want && got(serde_json::from_value(json!(s)).ok()) == want, "a chain name is made the same way however it is given", "{:?}", s);
        chk!(F, got(ChainName::from_vec(s.clone().into_bytes()).ok()) == want, "a chain name is read from a key the same way", "{:?}", s);
        t.log(format!("{:?}", s));
        let a: Option<Address> = serde_json::from_value(json!(s)).ok();
        chk!(F, a.is_some() != s.is_empty() && s.parse::<Address>().ok() == a, "an address is a text that is not empty", "{:?}", s);
        let chain: ChainName = match s.parse() {
            Ok(c) => c,
            Err(_) => continue,
        };
        chk!(F, chain == s && chain == s.to_lowercase(), "a chain is known by any case of its name", "{:?}", s);
        let m = text(r);
        let id = format!("{}:{}", s, m);
        let x = id.parse::<CrossChainId>();
        chk!(F, x.is_ok() != m.is_empty(), "a chain name and a message id that is not empty make an id", "{:?}", id);
        let x = match x {
            Ok(x) => x,
            Err(_) => continue,
        };
        chk!(F, x.chain == chain && x.id.to_string() == m, "an id is the chain and the message id its text names", "{:?}", id);
        let js: Value = json!(x);
        chk!(F, js == json!({"chain": s.to_lowercase(), "id": m}) && serde_json::from_value::<CrossChainId>(js.clone()).ok() == Some(x.clone()), "an id survives a trip between contracts", "{:?}", id);
        chk!(F, serde_json::from_value::<CrossChainId>(json!({"chain": s, "id": m})).ok() == Some(x.clone()), "an id is canonical however it is given", "{:?}", id);
        chk!(F, x.to_string().parse::<CrossChainId>().ok() == Some(x.clone()), "the text of an id reads as that id", "{:?}", id);
        let k = x.joined_key();
        chk!(F, CrossChainId::from_vec(k.clone()).ok() == Some(x.clone()), "an id is read back from its key", "{:?}", id);
        if let Some(y) = keys.insert(k, x.clone()) {
            chk!(F, x == y, "different ids have different keys", "{} {}", x, y);
        }
        if let Some(y) = texts.insert(x.to_string(), x.clone()) {
            chk!(F, x == y, "different ids have different texts", "{} {}", x, y);
        }
        t.hit(&id);
    }
    let p = r.edge();
    let poll: PollId = p.into();
    chk!(F, PollId::from_vec(poll.joined_key()).ok() == Some(poll) && json!(poll) == json!(p.to_string()), "a poll id is read back from its key and names its number", "{}", p);
    let n = *r.pick(&[31usize, 32, 33, 0, 64]);
    let m = json!({"cc_id": {"chain": "a", "id": "b"}, "source_address": "c", "destination_chain": "d", "destination_address": "e", "payload_hash": "ab".repeat(n)});
    let got = serde_json::from_value::<Message>(m.clone());
    chk!(F, got.is_ok() == (n == 32), "a payload hash has 32 bytes", "{}", n);
    if let Ok(x) = got {
        chk!(F, json!(x) == m && x.payload_hash == [0xab; 32], "a message survives a trip between contracts", "{}", m);
    }
    Ok(())
}

fn main() {
    main_loop(&[("present", present), ("names", names)])
}
