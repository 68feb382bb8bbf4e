//! C20: nexus gateway; C21: batching; C22: aggregate verifier; C23: operators hash
use axelar_wasm_std::operators::Operators;
use connection_router::state::{CrossChainId, Message};
use cosmwasm_std::{
    from_binary, to_binary, BankMsg, Binary, ContractResult, CosmosMsg, Event, HexBinary, QuerierResult, Reply, SubMsgResponse, SubMsgResult, SystemResult, Uint256, WasmMsg, WasmQuery,
};
use replay::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const N: &str = "C20";
const B: &str = "C21";
const A: &str = "C22";
const O: &str = "C23";

fn id(r: &mut Rng) -> String {
    let tx = *r.pick(&["0x01", "01", "0xab", "AB", "0xAb0c", "ff", "0x", "", "xyz", "0x1", "abc", "0X01"]);
    match r.below(12) {
        0 => format!("{}", r.pick(&["plain", "ab", "0x12"])),
        1 => format!("{}:{}:{}", tx, r.below(3), r.below(3)),
        2 => format!("{}:{}", tx, r.pick(&["", "x", "-1", "18446744073709551616", "18446744073709551615", "+1", "01"])),
        3 => format!(":{}", r.below(2)),
        _ => format!("{}:{}", tx, r.below(3)),
    }
}

fn message(r: &mut Rng) -> Message {
    let chains = ["ethereum", "avalanche", "axelarnet"];
    Message {
        cc_id: CrossChainId { chain: r.pick(&chains).parse().unwrap(), id: id(r).try_into().unwrap() },
        source_address: format!("s{}", r.below(2)).parse().unwrap(),
        destination_chain: r.pick(&chains).parse().unwrap(),
        destination_address: format!("d{}", r.below(2)).parse().unwrap(),
        payload_hash: [r.below(3) as u8; 32],
    }
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    hex::decode(s).ok()
}

/// what nexus is told about a message
fn to_nexus(m: &Value) -> Value {
    let i = m["cc_id"]["id"].as_str().unwrap();
    let p: Vec<&str> = i.split(':').collect();
    let known = if p.len() == 2 {
        match (unhex(p[0].trim_start_matches("0x")), p[1].parse::<u64>()) {
            (Some(t), Ok(n)) if !t.is_empty() => Some((t, n)),
            _ => None,
        }
    } else {
        None
    };
    let (t, n) = known.unwrap_or((i.as_bytes().to_vec(), u64::MAX));
    json!({"source_chain": m["cc_id"]["chain"], "source_address": m["source_address"], "destination_chain": m["destination_chain"],
        "destination_address": m["destination_address"], "payload_hash": hex::decode(m["payload_hash"].as_str().unwrap()).unwrap(), "source_tx_id": t, "source_tx_index": n})
}

fn nexus(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    use nexus_gateway::contract::{execute, instantiate};
    use nexus_gateway::msg::{ExecuteMsg, InstantiateMsg};
    let mut c = Chain::new();
    let x = c.tx(|d, e| instantiate(d.as_mut(), e, info("creator", &[]), InstantiateMsg { nexus: "nexus".into(), router: "router".into() }));
    chk!(N, x.is_ok(), "the contract can be instantiated", "{}", x.what());
    let mut done: BTreeSet<String> = BTreeSet::new();
    for _ in 0..r.range(2, 14) {
        let before = c.state();
        let s = *r.pick(&["router", "router", "router", "nexus", "nexus", "anyone"]);
        if r.chance(65) {
            let ms: Vec<Message> = (0..r.size(6)).map(|_| message(r)).collect();
            let js: Vec<Value> = ms.iter().map(|m| json!(m)).collect();
            let x = c.tx(|d, e| execute(d.as_mut(), e, info(s, &[]), ExecuteMsg::RouteMessages(ms)));
            t.log(format!("{} routes {:?} -> {}", s, js.iter().map(|m| m["cc_id"].to_string()).collect::<Vec<_>>(), x.what()));
            chk!(N, x.is_ok() == (s == "router"), "the router, and nobody else, delivers messages for nexus", "{} {}", s, x.what());
            let res = match x.get() {
                None => continue,
                Some(r) => r,
            };
            let want: Vec<Value> = js.iter().filter(|m| done.insert(m["cc_id"].to_string())).map(|m| json!({"custom": to_nexus(m)})).collect();
            let got: Vec<Value> = res.messages.iter().map(|m| json(&m.msg)).collect();
            chk!(N, got == want, "each message is sent to nexus the first time it is delivered and never again", "got {:?} want {:?}", got, want);
            chk!(N, res.messages.iter().all(|m| m.id == 0 && m.reply_on == cosmwasm_std::ReplyOn::Never), "failures of nexus revert the delivery");
            t.hit(&format!("R{}/{}", want.len(), js.len()));
        } else {
            let ms: Vec<Value> = (0..r.size(5))
                .map(|_| {
                    let mut m = to_nexus(&json!(message(r)));
                    m["source_tx_index"] = json!(if r.bool() { r.below(3) } else { r.edge() });
                    m
                })
                .collect();
            let m: ExecuteMsg = serde_json::from_value(json!({"route_messages_from_nexus": ms})).unwrap();
            let x = c.tx(|d, e| execute(d.as_mut(), e, info(s, &[]), m));
            t.log(format!("{} delivers {:?} -> {}", s, ms.iter().map(|m| m["source_tx_index"].to_string()).collect::<Vec<_>>(), x.what()));
            chk!(N, x.is_ok() == (s == "nexus"), "nexus, and nobody else, delivers messages for the router", "{} {}", s, x.what());
            let res = match x.get() {
                None => continue,
                Some(r) => r,
            };
            let routed: Vec<Value> = ms
                .iter()
                .map(|m| {
                    let tx: Vec<u8> = serde_json::from_value(m["source_tx_id"].clone()).unwrap();
                    json!({"cc_id": {"chain": m["source_chain"], "id": format!("{}:{}", hex::encode(tx), m["source_tx_index"])}, "source_address": m["source_address"],
                        "destination_chain": m["destination_chain"], "destination_address": m["destination_address"], "payload_hash": hex::encode(serde_json::from_value::<Vec<u8>>(m["payload_hash"].clone()).unwrap())})
                })
                .collect();
            let js: Vec<Value> = res.messages.iter().map(|m| json(&m.msg)).collect();
            let got: Vec<Value> = js
                .iter()
                .map(|m| {
                    let e = &m["wasm"]["execute"];
                    let b: Binary = serde_json::from_value(e["msg"].clone()).unwrap();
                    json!({"to": e["contract_addr"], "funds": e["funds"], "msg": from_binary::<Value>(&b).unwrap()})
                })
                .collect();
            let want = if ms.is_empty() { vec![] } else { vec![json!({"to": "router", "funds": [], "msg": {"route_messages": routed}})] };
            chk!(N, got == want, "exactly the messages from nexus go to the router", "got {:?} want {:?}", got, want);
            chk!(N, c.state() == before, "messages from nexus change no state");
            // back again
            for (m, w) in ms.iter().zip(&routed) {
                chk!(N, &to_nexus(w) == m, "a message from nexus keeps its transaction on the way back", "{} {}", m, w);
            }
            t.hit(&format!("N{}", ms.len()));
        }
    }
    Ok(())
}

fn cosmos(r: &mut Rng) -> CosmosMsg {
    if r.bool() {
        CosmosMsg::Bank(BankMsg::Burn { amount: vec![cosmwasm_std::coin(r.below(5) as u128, "u")] })
    } else {
        WasmMsg::Execute { contract_addr: format!("c{}", r.below(3)), msg: to_binary(&r.below(9)).unwrap(), funds: vec![] }.into()
    }
}

fn batch(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    use batching::contract::{execute, instantiate, reply};
    use batching::msg::{ExecuteMsg, InstantiateMsg};
    let mut c = Chain::new();
    let x = c.tx(|d, e| instantiate(d.as_mut(), e, info("creator", &[]), InstantiateMsg {}));
    chk!(B, x.is_ok(), "the contract can be instantiated", "{}", x.what());
    for _ in 0..r.range(1, 6) {
        let must: Vec<CosmosMsg> = (0..r.size(5)).map(|_| cosmos(r)).collect();
        let can: Vec<CosmosMsg> = (0..r.size(5)).map(|_| cosmos(r)).collect();
        let m: ExecuteMsg = serde_json::from_value(json!({"batch": {"must_succeed_msgs": must, "can_fail_msgs": can}})).unwrap();
        let x = c.tx(|d, e| execute(d.as_mut(), e, info("anyone", &[]), m));
        t.log(format!("{} + {} -> {}", must.len(), can.len(), x.what()));
        let res = match x.get() {
            None => return fail("a batch is dispatched", x.what()),
            Some(r) => r,
        };
        let want: Vec<(CosmosMsg, bool)> = must.iter().map(|m| (m.clone(), true)).chain(can.iter().map(|m| (m.clone(), false))).collect();
        let got: Vec<(CosmosMsg, bool)> = res.messages.iter().map(|m| (m.msg.clone(), m.reply_on == cosmwasm_std::ReplyOn::Never)).collect();
        chk!(B, got == want, "all messages are sent in order; those that must succeed revert the batch, the others are answered", "{:?}", got);
        let mut ids: Vec<u64> = res.messages.iter().skip(must.len()).map(|m| m.id).collect();
        ids.sort();
        ids.dedup();
        chk!(B, ids.len() == can.len() && res.messages.iter().all(|m| m.gas_limit.is_none()), "answers can be told apart", "{:?}", res.messages);
        chk!(B, res.messages.iter().skip(must.len()).all(|m| m.reply_on == cosmwasm_std::ReplyOn::Always), "failures and successes are both answered");
        for (i, m) in res.messages.iter().skip(must.len()).enumerate() {
            let good = r.bool();
            let evs = vec![Event::new("something").add_attribute("n", i.to_string())];
            let result = if good { SubMsgResult::Ok(SubMsgResponse { events: evs.clone(), data: None }) } else { SubMsgResult::Err("broken".into()) };
            let y = c.tx(|d, e| reply(d.as_mut(), e, Reply { id: m.id, result }));
            match y.get() {
                None => return fail("a message that may fail does not make the batch fail", y.what()),
                Some(z) => {
                    chk!(B, z.messages.is_empty(), "an answer sends nothing");
                    if good {
                        chk!(B, z.events == evs, "the events of a message are passed on");
                    } else {
                        chk!(B, z.events.len() == 1 && z.events[0].attributes.iter().any(|a| a.key == m.id.to_string() && a.value == "broken"), "a failure is reported with its place and its error", "{:?}", z.events);
                    }
                }
            }
        }
        t.hit(&format!("{}+{}", must.len(), can.len()));
    }
    Ok(())
}

fn wrapped(data: &[u8]) -> Binary {
    let mut out = vec![0x0a];
    let mut n = data.len();
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        out.push(if n > 0 { b | 0x80 } else { b });
        if n == 0 {
            break;
        }
    }
    out.extend(data);
    Binary::from(out)
}

fn aggregate(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    use aggregate_verifier::contract::{execute, instantiate, query, reply};
    use aggregate_verifier::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
    let mut c = Chain::new();
    let x = c.tx(|d, e| instantiate(d.as_mut(), e, info("creator", &[]), InstantiateMsg { verifier_address: "verifier".into() }));
    chk!(A, x.is_ok(), "the contract can be instantiated", "{}", x.what());
    let secret = r.next();
    let verdict = move |m: &Value| (m.to_string().bytes().fold(secret, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) >> 20) % 2 == 0;
    c.deps.querier.update_wasm(move |q| -> QuerierResult {
        match q {
            WasmQuery::Smart { contract_addr, msg } if contract_addr == "verifier" => {
                let v: Value = serde_json::from_slice(msg.as_slice()).unwrap();
                let out: Vec<Value> = v["is_verified"]["messages"].as_array().unwrap().iter().map(|m| json!([m["cc_id"], verdict(m)])).collect();
                SystemResult::Ok(ContractResult::Ok(serde_json::to_vec(&out).unwrap().into()))
            }
            _ => SystemResult::Err(cosmwasm_std::SystemError::Unknown {}),
        }
    });
    for _ in 0..r.range(1, 8) {
        let ms: Vec<Message> = (0..r.size(5)).map(|_| message(r)).collect();
        let js: Vec<Value> = ms.iter().map(|m| json!(m)).collect();
        let want: Vec<Value> = js.iter().map(|m| json!([m["cc_id"], verdict(m)])).collect();
        let x = c.tx(|d, e| execute(d.as_mut(), e, info("anyone", &[]), ExecuteMsg::VerifyMessages { messages: ms.clone() }));
        t.log(format!("verify {} -> {}", want.iter().map(|w| w.to_string()).collect::<Vec<_>>().join(" "), x.what()));
        let res = match x.get() {
            None => return fail("anyone can have messages verified", x.what()),
            Some(r) => r,
        };
        let got = msgs(res);
        chk!(A, got == vec![json!({"to": "verifier", "msg": {"verify_messages": {"messages": js}}, "funds": []})], "exactly the given messages go to the verifier", "{:?}", got);
        chk!(A, res.messages[0].reply_on == cosmwasm_std::ReplyOn::Success, "the verifier's failure is a failure, its answer is passed on");
        let id = res.messages[0].id;
        let answer = |c: &mut Chain, data: Option<Binary>| c.tx(|d, e| reply(d.as_mut(), e, Reply { id, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data }) }));
        let y = answer(&mut c, Some(wrapped(&serde_json::to_vec(&want).unwrap())));
        match y.get() {
            None => return fail("the verifier's answer is passed on", y.what()),
            Some(z) => chk!(A, z.data.as_ref().map(|d| from_binary::<Value>(d).unwrap()) == Some(json!(want)), "the verifier's answer is passed on as it is", "{:?}", z.data),
        }
        // what the voting verifier really answers
        let y = answer(&mut c, Some(wrapped(&to_binary(&voting_verifier::msg::VerifyMessagesResponse { verification_statuses: serde_json::from_value(json!(want)).unwrap() }).unwrap())));
        if !y.is_ok() {
            t.known("aggregate-verifier-reply-format", format!("the voting verifier's answer to VerifyMessages is refused: {}", y.what()));
        }
        chk!(A, !answer(&mut c, None).is_ok(), "no answer is a failure");
        let q = quiet(|| query(c.deps.as_ref(), c.env.clone(), QueryMsg::IsVerified { messages: ms.clone() }));
        let got = q.and_then(|x| x.ok()).map(|b| from_binary::<Value>(&b).unwrap());
        chk!(A, got == Some(json!(want)), "the verdicts reported are the verifier's", "got {:?} want {:?}", got, want);
        t.hit(&format!("{}", ms.len()));
    }
    Ok(())
}

fn operators(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let mut pool: Vec<(HexBinary, Uint256)> = vec![];
    let mut seen: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for i in 0..1 + r.size(6) {
        pool.push((HexBinary::from(vec![i as u8; r.range(1, 3) as usize]), Uint256::from(r.below(4))));
    }
    for _ in 0..r.range(2, 8) {
        let mut l: Vec<(HexBinary, Uint256)> = pool.iter().filter(|_| r.chance(80)).cloned().collect();
        for x in l.iter_mut() {
            if r.chance(10) {
                x.1 = Uint256::from(r.below(4));
            }
        }
        let mut s = l.clone();
        s.sort();
        r.shuffle(&mut l);
        let th = Uint256::from(r.below(3));
        let o = Operators::new(l.clone(), th);
        let h = o.hash().to_vec();
        let key = json!([s, th]).to_string();
        for (k, v) in &seen {
            chk!(O, (k == &key) == (v == &h), "two lists of operators have the same hash exactly when they have the same members, weights and threshold", "{} {}", k, key);
        }
        let back: Operators = serde_json::from_value(json!(o)).unwrap();
        chk!(O, back.hash().to_vec() == h, "the hash survives a trip between contracts");
        chk!(O, json!(o)["weights_by_addresses"] == json!(s), "operators are kept in ascending order");
        t.log(key.clone());
        t.hit(&key);
        seen.insert(key, h);
    }
    t.hit(&format!("{}", seen.len()));
    Ok(())
}

fn main() {
    match pid().as_str() {
        "C20" => main_loop(&[("nexus gateway", nexus)]),
        "C21" => main_loop(&[("batching", batch)]),
        "C22" => main_loop(&[("aggregate verifier", aggregate)]),
        _ => main_loop(&[("operators", operators)]),
    }
}
