//! C12-C13: voting-verifier, with a service registry whose answer is chosen at random
use axelar_wasm_std::operators::Operators;
use axelar_wasm_std::voting::{PollId, Vote};
use axelar_wasm_std::{MajorityThreshold, Threshold};
use connection_router::state::{CrossChainId, Message};
use cosmwasm_std::{from_binary, ContractResult, HexBinary, QuerierResult, Response, SystemResult, Uint256, WasmQuery};
use replay::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use voting_verifier::contract::{execute, instantiate, query};
use voting_verifier::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};

const M: &str = "C12";
const W: &str = "C13";
const B: &str = "C12 C13";
const VOTES: [Vote; 3] = [Vote::SucceededOnChain, Vote::FailedOnChain, Vote::NotFound];

struct Poll {
    id: u64,
    size: usize,
    members: Vec<String>,
    quorum: u64,
    expires: u64,
    votes: BTreeMap<String, Vec<Vote>>,
    finished: bool,
    ws: bool,
}

impl Poll {
    fn results(&self) -> Vec<Option<Vote>> {
        (0..self.size)
            .map(|i| {
                VOTES.iter().find(|v| self.votes.values().filter(|x| x[i] == **v).count() as u64 >= self.quorum).cloned()
            })
            .collect()
    }
    fn agreeing(&self) -> Vec<String> {
        let rs = self.results();
        self.votes.iter().filter(|(_, v)| v.iter().zip(&rs).all(|(a, b)| b.is_none() || b.as_ref() == Some(a))).map(|x| x.0.clone()).collect()
    }
}

fn message(r: &mut Rng) -> Message {
    let id = if r.chance(4) {
        r.pick(&["0x1", "0x1:x", "0x1:1:1", ":1", "0x1:", "0x1:-1", "0x1:18446744073709551616"]).to_string()
    } else {
        format!("0x{}{}:{}", ["", "a", "A"][r.us(3)], r.size(3), r.below(2))
    };
    Message {
        cc_id: CrossChainId { chain: if r.chance(3) { "fantom" } else { "source" }.parse().unwrap(), id: id.try_into().unwrap() },
        source_address: format!("s{}", r.below(2)).parse().unwrap(),
        destination_chain: r.pick(&["dsta", "dstb"]).parse().unwrap(),
        destination_address: format!("d{}", r.below(2)).parse().unwrap(),
        payload_hash: [r.below(2) as u8; 32],
    }
}

fn id_ok(id: &str) -> bool {
    let c: Vec<&str> = id.split(':').collect();
    c.len() == 2 && !c[0].is_empty() && c[1].parse::<u64>().is_ok()
}

fn operators(r: &mut Rng) -> Operators {
    let mut v: Vec<(HexBinary, Uint256)> = (0..r.size(3)).map(|i| (HexBinary::from(vec![i as u8, r.below(2) as u8]), Uint256::from(r.range(1, 2)))).collect();
    r.shuffle(&mut v);
    Operators::new(v, Uint256::from(r.range(1, 2)))
}

fn event(res: &Response, ty: &str) -> Option<BTreeMap<String, String>> {
    res.events.iter().find(|e| e.ty == ty).map(|e| e.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect())
}

#[derive(Clone)]
struct Registry {
    workers: Vec<String>,
    unbonded: bool,
    broken: bool,
    asked: u64,
}

fn history(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let mut c = Chain::new();
    let reg = Arc::new(Mutex::new(Registry { workers: vec![], unbonded: false, broken: false, asked: 0 }));
    let rg = reg.clone();
    c.deps.querier.update_wasm(move |q| -> QuerierResult {
        let mut x = rg.lock().unwrap();
        x.asked += 1;
        let none = |a: &str| SystemResult::Err(cosmwasm_std::SystemError::NoSuchContract { addr: a.into() });
        match q {
            WasmQuery::Smart { contract_addr, msg } if contract_addr == "registry" && !x.broken => {
                let v: Value = serde_json::from_slice(msg.as_slice()).unwrap();
                if v != json!({"get_active_workers": {"service_name": "svc", "chain_name": "source"}}) {
                    return none("the wrong question");
                }
                let n = x.workers.len();
                let out: Vec<Value> = x.workers.iter().enumerate().map(|(i, w)| json!({"address": w, "service_name": "svc", "authorization_state": "Authorized",
                    "bonding_state": if x.unbonded && i + 1 == n { json!({"RequestedUnbonding": {"amount": "10"}}) } else { json!({"Bonded": {"amount": format!("{}", 10 * (i + 1))}}) }})).collect();
                SystemResult::Ok(ContractResult::Ok(serde_json::to_vec(&out).unwrap().into()))
            }
            WasmQuery::Smart { contract_addr, .. } => none(contract_addr),
            _ => SystemResult::Err(cosmwasm_std::SystemError::Unknown {}),
        }
    });
    let d = r.range(1, 6);
    let n = r.range(d / 2 + 1, d);
    let th: MajorityThreshold = Threshold::try_from((n, d)).unwrap().try_into().unwrap();
    let expiry = r.below(20);
    let x = c.tx(|dd, e| {
        instantiate(dd.as_mut(), e, info("creator", &[]), InstantiateMsg {
            service_registry_address: "registry".try_into().unwrap(),
            service_name: "svc".try_into().unwrap(),
            source_gateway_address: "gw".try_into().unwrap(),
            voting_threshold: th,
            block_expiry: expiry,
            confirmation_height: 3,
            source_chain: "source".parse().unwrap(),
            rewards_address: "rewards".into(),
        })
    });
    chk!(B, x.is_ok(), "the contract can be instantiated", "{}", x.what());
    t.log(format!("threshold {}/{} expiry {}", n, d, expiry));
    let mut height = c.env.block.height;
    let mut polls: BTreeMap<u64, Poll> = BTreeMap::new();
    let mut stored: BTreeMap<String, (u64, usize)> = BTreeMap::new(); // message -> place in a poll
    let mut wstored: BTreeMap<String, u64> = BTreeMap::new();
    let mut last = 0u64;
    let pool: Vec<Message> = (0..5).map(|_| message(r)).collect();
    let ops: Vec<Operators> = (0..2).map(|_| operators(r)).collect();
    let fav: Vec<Vote> = (0..6).map(|_| if r.chance(60) { Vote::SucceededOnChain } else { r.pick(&VOTES).clone() }).collect();
    let vot = |k: &str, stored: &BTreeMap<String, (u64, usize)>, polls: &BTreeMap<u64, Poll>| -> (bool, bool) {
        // confirmed, needs a new poll
        match stored.get(k) {
            None => (false, true),
            Some((p, i)) => {
                let p = &polls[p];
                let won = p.results()[*i] == Some(Vote::SucceededOnChain);
                (won, !won && p.finished)
            }
        }
    };
    for _ in 0..r.range(5, 40) {
        if r.chance(40) {
            height += r.below(8);
            c.env.block.height = height;
        }
        {
            let mut x = reg.lock().unwrap();
            if x.workers.is_empty() || r.chance(15) {
                let k = if r.chance(4) { 0 } else { r.range(1, 5) };
                x.workers = (0..6).map(|i| format!("w{}", i)).collect();
                r.shuffle(&mut x.workers);
                x.workers.truncate(k as usize);
            }
            x.unbonded = r.chance(3);
            x.broken = r.chance(3);
        }
        let rs = reg.lock().unwrap().clone();
        let reg_ok = !rs.broken && !rs.workers.is_empty() && !rs.unbonded;
        let quorum = (rs.workers.len() as u64 * n + d - 1) / d;
        let before = c.state();
        let who = if r.chance(90) { format!("w{}", r.below(6)) } else { "stranger".into() };
        let new_poll = |id: u64, size: usize, ws: bool| Poll { id, size, members: rs.workers.clone(), quorum, expires: height + expiry, votes: BTreeMap::new(), finished: false, ws };
        let meta = |e: &BTreeMap<String, String>, p: &Poll| -> bool {
            let mut ps: Vec<String> = serde_json::from_str(&e["participants"]).unwrap();
            ps.sort();
            let mut m = p.members.clone();
            m.sort();
            serde_json::from_str::<Value>(&e["poll_id"]).unwrap() == json!(p.id.to_string()) && e["expires_at"] == p.expires.to_string() && ps == m && e["source_chain"] == "source"
        };
        match r.below(10) {
            0 | 1 | 2 => {
                let ms: Vec<Message> = (0..r.size(5)).map(|_| if r.chance(85) { r.pick(&pool).clone() } else { message(r) }).collect();
                let ks: Vec<String> = ms.iter().map(|m| json!(m).to_string()).collect();
                let st: Vec<(bool, bool)> = ks.iter().map(|k| vot(k, &stored, &polls)).collect();
                let fresh: Vec<usize> = (0..ms.len()).filter(|i| st[*i].1).collect();
                let can = !ms.is_empty()
                    && ms.iter().all(|m| m.cc_id.chain.to_string() == "source")
                    && (fresh.is_empty() || reg_ok && fresh.iter().all(|i| id_ok(&json!(ms[*i])["cc_id"]["id"].as_str().unwrap())));
                let x = c.tx(|dd, e| execute(dd.as_mut(), e, info(&who, &[]), ExecuteMsg::VerifyMessages { messages: ms.clone() }));
                t.log(format!("height {} verify {:?} statuses {:?} workers {:?} (registry ok: {}) -> {}", height, ks, st, rs.workers, reg_ok, x.what()));
                chk!(M, x.is_ok() == can, "messages are refused exactly when they may not be verified", "{}", x.what());
                let res = match x.get() {
                    None => {
                        t.hit("vx");
                        continue;
                    }
                    Some(r) => r,
                };
                let data: Value = serde_json::from_slice(res.data.as_ref().map(|b| b.as_slice()).unwrap_or(b"null")).unwrap_or(Value::Null);
                let want: Vec<Value> = (0..ms.len()).map(|i| json!([ms[i].cc_id, st[i].0])).collect();
                chk!(M, data == json!({"verification_statuses": want}), "the reply gives each message's status", "{} want {:?}", data, want);
                chk!(M, msgs(res).is_empty(), "nothing is sent");
                let ev = event(res, "messages_poll_started");
                chk!(M, ev.is_some() == !fresh.is_empty(), "a poll is started exactly if some message needs one");
                if let Some(e) = ev {
                    last += 1;
                    let p = new_poll(last, fresh.len(), false);
                    chk!(M, meta(&e, &p), "the poll announced is the next one, over the active workers", "{:?}", e);
                    let lst: Vec<Value> = serde_json::from_str(&e["messages"]).unwrap();
                    let want: Vec<Value> = fresh.iter().map(|i| {
                        let m = json!(ms[*i]);
                        let id = m["cc_id"]["id"].as_str().unwrap();
                        let (a, b) = id.split_once(':').unwrap();
                        json!({"tx_id": a, "event_index": b.parse::<u64>().unwrap(), "destination_address": m["destination_address"], "destination_chain": m["destination_chain"], "source_address": m["source_address"], "payload_hash": m["payload_hash"]})
                    }).collect();
                    chk!(M, lst == want, "the poll covers exactly the messages that need one, in order", "{:?} want {:?}", lst, want);
                    polls.insert(last, p);
                    for (i, m) in fresh.iter().enumerate() {
                        stored.insert(ks[*m].clone(), (last, i));
                    }
                    t.hit(&format!("p{}", fresh.len()));
                } else {
                    chk!(M, c.state() == before, "nothing changes without a new poll");
                }
            }
            3 => {
                let o = r.pick(&ops).clone();
                let k = json!(o).to_string();
                let id = if r.chance(10) { *r.pick(&["0x1", ":1", "0x:y"]) } else { "0x1:7" };
                let won = wstored.get(&k).map_or(false, |p| polls[p].results()[0] == Some(Vote::SucceededOnChain));
                let x = c.tx(|dd, e| execute(dd.as_mut(), e, info(&who, &[]), ExecuteMsg::VerifyWorkerSet { message_id: id.try_into().unwrap(), new_operators: o.clone() }));
                t.log(format!("height {} verify worker set {} -> {}", height, k, x.what()));
                chk!(W, x.is_ok() == (!won && reg_ok && id_ok(id)), "a worker set gets a poll exactly unless it is confirmed already", "{}", x.what());
                if let Some(res) = x.get() {
                    last += 1;
                    let p = new_poll(last, 1, true);
                    let ev = event(res, "worker_set_poll_started");
                    chk!(W, ev.as_ref().map_or(false, |e| meta(e, &p) && serde_json::from_str::<Value>(&e["worker_set"]).unwrap() == json!({"tx_id": "0x1", "event_index": 7, "operators": o})),
                        "the poll announced is the next one, over the active workers", "{:?}", ev);
                    polls.insert(last, p);
                    wstored.insert(k, last);
                    t.hit("w");
                }
            }
            4 | 5 | 6 | 7 => {
                let id = if r.chance(95) { last.saturating_sub(r.below(3)) } else { last + 1 };
                let size = polls.get(&id).map_or(1, |p| p.size);
                let len = if r.chance(94) { size } else { r.us(4) };
                let who = match polls.get(&id) {
                    Some(p) if r.chance(80) => r.pick(&p.members).clone(),
                    _ => who,
                };
                let vs: Vec<Vote> = (0..len).map(|i| if r.chance(70) { fav[i % 6].clone() } else { r.pick(&VOTES).clone() }).collect();
                let tags = polls.get(&id).map_or(B, |p| if p.ws { W } else { M });
                let can = polls.get(&id).map_or(false, |p| p.members.contains(&who) && height < p.expires && len == p.size && !p.votes.contains_key(&who));
                let x = c.tx(|dd, e| execute(dd.as_mut(), e, info(&who, &[]), ExecuteMsg::Vote { poll_id: PollId::from(id), votes: vs.clone() }));
                t.log(format!("height {} {} votes in {} {:?} -> {}", height, who, id, vs, x.what()));
                chk!(tags, x.is_ok() == can, "a vote counts exactly once, from a participant of the open poll", "{}", x.what());
                if let Some(res) = x.get() {
                    chk!(tags, msgs(res).is_empty(), "nothing is sent");
                    polls.get_mut(&id).unwrap().votes.insert(who, vs);
                    t.hit("t");
                }
            }
            _ => {
                let id = if r.chance(95) { last.saturating_sub(r.below(3)) } else { last + 1 };
                let tags = W;
                let can = polls.get(&id).map_or(false, |p| !p.finished && height >= p.expires);
                let x = c.tx(|dd, e| execute(dd.as_mut(), e, info(&who, &[]), ExecuteMsg::EndPoll { poll_id: PollId::from(id) }));
                t.log(format!("height {} end {} -> {}", height, id, x.what()));
                chk!(tags, x.is_ok() == can, "exactly an open poll past its expiry is ended", "{}", x.what());
                if let Some(res) = x.get() {
                    let p = polls.get_mut(&id).unwrap();
                    p.finished = true;
                    let data: Value = serde_json::from_slice(res.data.as_ref().map(|b| b.as_slice()).unwrap_or(b"null")).unwrap();
                    let mut ag: Vec<String> = serde_json::from_value(data["poll_result"]["consensus_participants"].clone()).unwrap_or_default();
                    ag.sort();
                    chk!(tags, data["poll_result"]["poll_id"] == json!(id.to_string()) && data["poll_result"]["results"] == json!(p.results()) && ag == p.agreeing(),
                        "the reply is the result of the poll", "{} want {:?} {:?}", data, p.results(), p.agreeing());
                    let mut out: Vec<String> = msgs(res).iter().map(|m| m.to_string()).collect();
                    let mut want: Vec<String> = p.agreeing().iter().map(|a| json!({"to": "rewards", "msg": {"record_participation": {"event_id": id.to_string(), "worker_address": a}}, "funds": []}).to_string()).collect();
                    out.sort();
                    want.sort();
                    chk!(tags, out == want, "every voter that agreed is recorded once, and nobody else", "{:?} want {:?}", out, want);
                    t.hit(&format!("e{}", want.len()));
                }
            }
        }
        // what can be asked
        let mut ask: Vec<Message> = (0..r.size(4)).map(|_| if r.chance(90) { r.pick(&pool).clone() } else { message(r) }).collect();
        if r.chance(20) {
            ask.extend(stored.keys().map(|k| serde_json::from_str::<Message>(k).unwrap()).take(6));
        }
        let got = quiet(|| query(c.deps.as_ref(), c.env.clone(), QueryMsg::IsVerified { messages: ask.clone() })).and_then(|x| x.ok()).map(|b| from_binary::<Value>(&b).unwrap());
        let want: Vec<Value> = ask.iter().map(|m| json!([m.cc_id, vot(&json!(m).to_string(), &stored, &polls).0])).collect();
        chk!(M, got == Some(json!(want)), "a message is verified exactly if its poll has a quorum for its success", "got {:?} want {:?}", got, want);
        if want.iter().any(|w| w[1] == true) {
            t.hit("C");
        }
        for o in &ops {
            let got = quiet(|| query(c.deps.as_ref(), c.env.clone(), QueryMsg::IsWorkerSetVerified { new_operators: o.clone() })).and_then(|x| x.ok()).map(|b| from_binary::<bool>(&b).unwrap());
            let won = wstored.get(&json!(o).to_string()).map_or(false, |p| polls[p].results()[0] == Some(Vote::SucceededOnChain));
            chk!(W, got == Some(won), "a worker set is verified exactly if its poll has a quorum for its success", "got {:?} want {}", got, won);
            if won {
                t.hit("CW");
            }
        }
    }
    Ok(())
}

/// two messages whose fields run together to the same text share a place in the storage
fn collision(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let mut c = Chain::new();
    let reg = Arc::new(Mutex::new(Registry { workers: vec![], unbonded: false, broken: false, asked: 0 }));
    let rg = reg.clone();
    c.deps.querier.update_wasm(move |q| -> QuerierResult {
        let mut x = rg.lock().unwrap();
        x.asked += 1;
        let none = |a: &str| SystemResult::Err(cosmwasm_std::SystemError::NoSuchContract { addr: a.into() });
        match q {
            WasmQuery::Smart { contract_addr, msg } if contract_addr == "registry" && !x.broken => {
                let v: Value = serde_json::from_slice(msg.as_slice()).unwrap();
                if v != json!({"get_active_workers": {"service_name": "svc", "chain_name": "source"}}) {
                    return none("the wrong question");
                }
                let n = x.workers.len();
                let out: Vec<Value> = x.workers.iter().enumerate().map(|(i, w)| json!({"address": w, "service_name": "svc", "authorization_state": "Authorized",
                    "bonding_state": if x.unbonded && i + 1 == n { json!({"RequestedUnbonding": {"amount": "10"}}) } else { json!({"Bonded": {"amount": format!("{}", 10 * (i + 1))}}) }})).collect();
                SystemResult::Ok(ContractResult::Ok(serde_json::to_vec(&out).unwrap().into()))
            }
            WasmQuery::Smart { contract_addr, .. } => none(contract_addr),
            _ => SystemResult::Err(cosmwasm_std::SystemError::Unknown {}),
        }
    });
    let d = r.range(1, 6);
    let n = r.range(d / 2 + 1, d);
    let th: MajorityThreshold = Threshold::try_from((n, d)).unwrap().try_into().unwrap();
    let expiry = r.below(20);
    let x = c.tx(|dd, e| {
        instantiate(dd.as_mut(), e, info("creator", &[]), InstantiateMsg {
            service_registry_address: "registry".try_into().unwrap(),
            service_name: "svc".try_into().unwrap(),
            source_gateway_address: "gw".try_into().unwrap(),
            voting_threshold: th,
            block_expiry: expiry,
            confirmation_height: 3,
            source_chain: "source".parse().unwrap(),
            rewards_address: "rewards".into(),
        })
    });
    chk!(B, x.is_ok(), "the contract can be instantiated", "{}", x.what());
    t.log(format!("threshold {}/{} expiry {}", n, d, expiry));
    reg.lock().unwrap().workers = vec!["w0".into()];
    let m = |id: String, source: String| Message {
        cc_id: CrossChainId { chain: "source".parse().unwrap(), id: id.try_into().unwrap() },
        source_address: source.parse().unwrap(),
        destination_chain: "dst".parse().unwrap(),
        destination_address: "d".parse().unwrap(),
        payload_hash: [1; 32],
    };
    let (i, k) = (r.below(9), r.below(9));
    let real = m(format!("0xaa:{}", i), format!("{}xabc", k));
    let squat = m(format!("0xaa:{}{}", i, k), "xabc".into());
    let verify = |c: &mut Chain, m: &Message| {
        let m = m.clone();
        c.tx(move |dd, e| execute(dd.as_mut(), e, info("w0", &[]), ExecuteMsg::VerifyMessages { messages: vec![m] })).is_ok()
    };
    chk!(M, verify(&mut c, &squat), "a new message is polled", "{:?}", squat);
    if !verify(&mut c, &real) {
        t.log(format!("{} polled first, then {} is refused", json!(squat), json!(real)));
        if pid() == "C12" {
            t.known("message-hash-collision", format!("{} polled first, then {} is refused", json!(squat), json!(real)));
        }
    }
    t.hit("k");
    Ok(())
}

fn main() {
    main_loop(&[("voting-verifier", history), ("colliding messages", collision)])
}
