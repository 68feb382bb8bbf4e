//! C08, C09: connection-router, against a model of registered chains
use connection_router::contract::{execute, instantiate, query};
use connection_router::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use connection_router::state::{ChainName, CrossChainId, GatewayDirection, Message};
use replay::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const M: &str = "C08";
const G: &str = "C09";
const ALL: &str = "C08 C09";

#[derive(Clone, Debug)]
struct Ch {
    gw: String,
    inc: bool,
    out: bool,
}

pub fn case(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.chance(30) { c.to_ascii_uppercase() } else { c }).collect()
}

fn message(r: &mut Rng, src: &str, dst: &str, n: &mut u64) -> Message {
    *n += 1;
    let id = if r.chance(5) { 0 } else { *n };
    Message {
        cc_id: CrossChainId { chain: case(r, src).parse().unwrap(), id: format!("0x{}{}:{}", ["", "a", "A"][r.us(3)], id, r.below(2)).try_into().unwrap() },
        source_address: format!("s{}", r.below(3)).parse().unwrap(),
        destination_chain: case(r, dst).parse().unwrap(),
        destination_address: format!("d{}", r.below(3)).parse().unwrap(),
        payload_hash: [r.below(256) as u8; 32],
    }
}

fn dir(r: &mut Rng) -> (GatewayDirection, bool, bool) {
    match r.below(7) {
        0 => (GatewayDirection::None, false, false),
        1 | 2 => (GatewayDirection::Incoming, true, false),
        3 | 4 => (GatewayDirection::Outgoing, false, true),
        _ => (GatewayDirection::Bidirectional, true, true),
    }
}

fn history(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let mut c = Chain::new();
    let m = InstantiateMsg { admin_address: "admin".into(), governance_address: "gov".into(), nexus_gateway: "nexus".into() };
    let x = c.tx(|d, e| instantiate(d.as_mut(), e, info("creator", &[]), m));
    chk!(ALL, x.is_ok(), "the contract can be instantiated", "{}", x.what());
    let chains = ["ethereum", "avalanche", "moon-beam", "fantom", "polygon"];
    let gws: Vec<String> = (0..6).map(|i| format!("gateway{}", i)).collect();
    let mut st: BTreeMap<String, Ch> = BTreeMap::new();
    let mut n = 0;
    let setup = r.range(2, 4);
    for k in 0..r.range(6, 45) {
        let before = c.state();
        let ch = r.pick(&chains).to_string();
        let op = if k < setup { 0 } else { r.below(13) };
        let mut who = |good: &str| if r.chance(85) || k < setup { good.to_string() } else { (*r.pick(&["admin", "gov", "nexus", "gateway0", "gateway1", "mallory"])).to_string() };
        match op {
            0 | 1 => {
                let s = who("gov");
                let gw = r.pick(&gws).clone();
                let up = op == 1 || (k >= setup && r.bool());
                let name: ChainName = case(r, &ch).parse().unwrap();
                let m = if up { ExecuteMsg::UpgradeGateway { chain: name, contract_address: gw.clone() } } else { ExecuteMsg::RegisterChain { chain: name, gateway_address: gw.clone() } };
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(&s, &[]), m));
                t.log(format!("{} {} {} with {} -> {}", s, if up { "upgrades" } else { "registers" }, ch, gw, x.what()));
                let good = s == "gov" && st.contains_key(&ch) == up && !st.values().any(|c| c.gw == gw);
                chk!(G, x.is_ok() == good, "governance, and only governance, registers new chains and changes gateways, one chain per gateway", "{} {} {}: {} known {:?}", s, ch, gw, x.what(), st);
                if good {
                    chk!(ALL, x.get().unwrap().messages.is_empty(), "registering sends nothing");
                    st.entry(ch.clone()).or_insert(Ch { gw: String::new(), inc: false, out: false }).gw = gw.clone();
                    t.hit(if up { "U" } else { "R" });
                }
            }
            2 | 3 | 4 => {
                let s = who("admin");
                let (d, i, o) = dir(r);
                let un = op == 4 || (op == 3 && r.bool());
                let name: ChainName = case(r, &ch).parse().unwrap();
                let m = if un { ExecuteMsg::UnfreezeChain { chain: name, direction: d } } else { ExecuteMsg::FreezeChain { chain: name, direction: d } };
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(&s, &[]), m));
                t.log(format!("{} {} {} {} {} -> {}", s, if un { "unfreezes" } else { "freezes" }, ch, i, o, x.what()));
                let good = s == "admin" && st.contains_key(&ch);
                chk!(G, x.is_ok() == good, "the admin, and only the admin, freezes registered chains", "{} {}: {}", s, ch, x.what());
                if good {
                    let e = st.get_mut(&ch).unwrap();
                    if i {
                        e.inc = !un;
                    }
                    if o {
                        e.out = !un;
                    }
                    t.hit(&format!("{}{}{}", un, i, o));
                }
            }
            _ => {
                let any = r.chance(12);
                let s = if r.chance(20) { "nexus".to_string() } else if any || st.is_empty() { (*r.pick(&["admin", "gov", "gateway5", "mallory"])).to_string() } else { st.values().nth(r.us(st.len())).unwrap().gw.clone() };
                let mine = st.iter().find(|(_, c)| c.gw == s).map(|x| x.0.clone());
                let src = mine.clone().unwrap_or_else(|| "osmosis".into());
                let dests: Vec<String> = (0..2).map(|_| if r.chance(12) { "osmosis".to_string() } else if r.chance(85) && !st.is_empty() { st.keys().nth(r.us(st.len())).unwrap().clone() } else { r.pick(&chains).to_string() }).collect();
                let size = if r.chance(2) { r.range(20, 70) } else { r.below(6) };
                let mut ms: Vec<Message> = (0..size).map(|_| { let a = if r.chance(3) { chains[r.us(5)].to_string() } else { src.clone() }; let d = r.pick(&dests).clone(); message(r, &a, &d, &mut n) }).collect();
                if !ms.is_empty() && r.chance(15) {
                    // the same message again, beside itself or later
                    let i = r.us(ms.len());
                    let m = ms[i].clone();
                    if r.bool() {
                        ms.insert(i, m);
                    } else {
                        ms.push(m);
                    }
                }
                let sent = ms.clone();
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(&s, &[]), ExecuteMsg::RouteMessages(ms)));
                t.log(format!("{} routes {:?} -> {}", s, sent.iter().map(|m| format!("{} to {}", m.cc_id.chain, m.destination_chain)).collect::<Vec<_>>(), x.what()));
                let lower = |c: &ChainName| c.to_string();
                let src_ok = s == "nexus" || mine.as_ref().map_or(false, |c| !st[c].inc && sent.iter().all(|m| lower(&m.cc_id.chain) == *c));
                let dst_ok = sent.iter().all(|m| st.get(&lower(&m.destination_chain)).map_or(s != "nexus", |c| !c.out));
                chk!(M, x.is_ok() == (src_ok && dst_ok), "messages are routed exactly when the sender may send them and the destinations may receive them", "{} {:?}", x.what(), st);
                if let Some(res) = x.get() {
                    let mut got: Vec<(String, Value)> = vec![];
                    for o in msgs(res) {
                        let to = o["to"].as_str().unwrap_or("").to_string();
                        chk!(M, o["funds"] == json!([]), "no funds are sent", "{}", o);
                        let l = o["msg"]["route_messages"].as_array().cloned();
                        chk!(M, l.is_some(), "only RouteMessages is sent", "{}", o);
                        got.extend(l.unwrap().into_iter().map(|m| (to.clone(), m)));
                    }
                    let want: Vec<(String, Value)> = sent.iter().map(|m| (st.get(&lower(&m.destination_chain)).map_or("nexus".into(), |c| c.gw.clone()), replay::json(m))).collect();
                    chk!(M, got == want, "every message is sent once, unchanged and in order, to its destination chain's gateway", "got {:?} want {:?}", got, want);
                    chk!(M, c.state() == before, "routing changes no state");
                    t.hit(&format!("M{}{}", sent.len(), msgs(res).len()));
                }
            }
        }
        if op < 5 {
            for ch in chains {
                let q = quiet(|| query(c.deps.as_ref(), c.env.clone(), QueryMsg::GetChainInfo(ch.parse().unwrap())));
                let got = q.and_then(|x| x.ok()).map(|b| serde_json::from_slice::<Value>(b.as_slice()).unwrap());
                let want = st.get(ch).map(|e| json!({"name": ch, "gateway": {"address": e.gw}, "frozen_status": e.inc as u8 + 2 * e.out as u8}));
                chk!(G, got == want, "the registry holds each chain with its gateway and frozen directions", "{:?} want {:?}", got, want);
            }
        }
    }
    Ok(())
}

fn main() {
    main_loop(&[("router", history)])
}
