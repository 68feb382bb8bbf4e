//! C10: gateway, with a verifier whose verdicts are chosen at random
use connection_router::state::{CrossChainId, Message};
use cosmwasm_std::{from_binary, to_binary, ContractResult, QuerierResult, SystemResult, WasmQuery};
use gateway::contract::{execute, instantiate, query};
use gateway::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use replay::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const M: &str = "C10";

fn message(r: &mut Rng) -> Message {
    let chains = ["ethereum", "avalanche", "fantom"];
    Message {
        cc_id: CrossChainId { chain: r.pick(&chains).parse().unwrap(), id: format!("0x{}{}:{}", ["", "a", "A"][r.us(3)], r.size(2), r.below(2)).try_into().unwrap() },
        source_address: format!("s{}", r.below(2)).parse().unwrap(),
        destination_chain: r.pick(&chains).parse().unwrap(),
        destination_address: format!("d{}", r.below(2)).parse().unwrap(),
        payload_hash: [r.below(3) as u8; 32],
    }
}

/// the verifier's answer: fixed by a secret for each whole message
fn verdict(secret: u64, m: &Value) -> bool {
    let mut h = secret;
    for b in m.to_string().bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    (h >> 20) % 2 == 0
}

fn history(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let mut c = Chain::new();
    let secret = r.next();
    let broken = r.chance(4);
    let rev = r.bool();
    c.deps.querier.update_wasm(move |q| -> QuerierResult {
        match q {
            WasmQuery::Smart { contract_addr, msg } if contract_addr == "verifier" && !broken => {
                let v: Value = serde_json::from_slice(msg.as_slice()).unwrap();
                let mut out: Vec<Value> = v["is_verified"]["messages"].as_array().unwrap().iter().map(|m| json!([m["cc_id"], verdict(secret, m)])).collect();
                if rev {
                    out.reverse();
                }
                SystemResult::Ok(ContractResult::Ok(serde_json::to_vec(&out).unwrap().into()))
            }
            WasmQuery::Smart { contract_addr, .. } => SystemResult::Err(cosmwasm_std::SystemError::NoSuchContract { addr: contract_addr.clone() }),
            _ => SystemResult::Err(cosmwasm_std::SystemError::Unknown {}),
        }
    });
    let x = c.tx(|d, e| instantiate(d.as_mut(), e, info("creator", &[]), InstantiateMsg { verifier_address: "verifier".into(), router_address: "router".into() }));
    chk!(M, x.is_ok(), "the contract can be instantiated", "{}", x.what());
    let mut store: BTreeMap<String, Value> = BTreeMap::new();
    for _ in 0..r.range(3, 25) {
        let before = c.state();
        let mut ms: Vec<Message> = (0..r.size(6)).map(|_| message(r)).collect();
        if r.chance(70) {
            let mut seen = std::collections::BTreeSet::new();
            ms.retain(|m| seen.insert(m.cc_id.to_string()));
        }
        let js: Vec<Value> = ms.iter().map(|m| json!(m)).collect();
        let dup = (0..js.len()).any(|i| (0..i).any(|j| js[i]["cc_id"] == js[j]["cc_id"]));
        let s = *r.pick(&["router", "router", "anyone", "verifier", "gateway"]);
        let ver = r.chance(40);
        let m = if ver { ExecuteMsg::VerifyMessages(ms.clone()) } else { ExecuteMsg::RouteMessages(ms.clone()) };
        let x = c.tx(|d, e| execute(d.as_mut(), e, info(s, &[]), m));
        t.log(format!("{} {} {:?} -> {}", s, if ver { "verifies" } else { "routes" }, js.iter().map(|m| format!("{} {}", m["cc_id"], verdict(secret, m))).collect::<Vec<_>>(), x.what()));
        let asks = ver && !js.is_empty() || !ver && s != "router";
        chk!(M, x.is_ok() == (!dup && !(broken && asks)), "messages are refused exactly when ids repeat or the verifier cannot be asked", "{} {:?}", x.what(), js);
        let res = match x.get() {
            None => {
                t.hit("x");
                continue;
            }
            Some(r) => r,
        };
        let out = msgs(res);
        if !ver && s == "router" {
            chk!(M, out.is_empty(), "outgoing messages send nothing");
            for m in &js {
                store.insert(m["cc_id"].to_string(), m.clone());
            }
            t.hit(&format!("O{}", js.len()));
        } else {
            let sel: Vec<&Value> = js.iter().filter(|m| verdict(secret, m) != ver).collect();
            let want = if sel.is_empty() {
                vec![]
            } else if ver {
                vec![json!({"to": "verifier", "msg": {"verify_messages": {"messages": sel}}, "funds": []})]
            } else {
                vec![json!({"to": "router", "msg": {"route_messages": sel}, "funds": []})]
            };
            chk!(M, out == want, "exactly the verified messages go to the router, and exactly the unverified ones to the verifier", "got {:?} want {:?}", out, want);
            chk!(M, c.state() == before, "incoming messages change no state");
            t.hit(&format!("{}{}/{}", if ver { "V" } else { "I" }, sel.len(), js.len()));
        }
        // what the destination can fetch
        let mut ask: Vec<CrossChainId> = ms.iter().map(|m| m.cc_id.clone()).collect();
        for (i, v) in store.iter().enumerate() {
            if r.chance(40) && i < 8 {
                ask.push(serde_json::from_value(v.1["cc_id"].clone()).unwrap());
            }
        }
        if r.bool() {
            ask.retain(|i| store.contains_key(&json!(i).to_string()));
        }
        let got = quiet(|| query(c.deps.as_ref(), c.env.clone(), QueryMsg::GetMessages { message_ids: ask.clone() })).and_then(|x| x.ok()).map(|b| from_binary::<Value>(&b).unwrap());
        let want: Option<Vec<Value>> = ask.iter().map(|i| store.get(&json!(i).to_string()).cloned()).collect();
        chk!(M, got == want.map(Value::from), "the destination can fetch exactly the messages the router delivered", "asked {:?} got {:?}", ask, got);
    }
    let _ = to_binary(&0u8);
    Ok(())
}

fn main() {
    main_loop(&[("gateway", history)])
}
