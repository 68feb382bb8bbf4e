//! C16-C17: service-registry
use cosmwasm_std::{coin, from_binary, Coin};
use replay::*;
use serde_json::{json, Value};
use service_registry::contract::{execute, instantiate, query};
use service_registry::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use std::collections::{BTreeMap, BTreeSet};

const K: &str = "C16";
const A: &str = "C17";
const B: &str = "C16 C17";
const DAY: u64 = 86_400_000_000_000;

#[derive(Clone, Debug)]
struct Service {
    denom: String,
    min: u128,
    days: u16,
    json: Value,
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    Bonded(u128),
    Unbonding(u128, u64),
    Unbonded,
}

#[derive(Clone, Debug)]
struct Worker {
    st: St,
    auth: bool,
}

fn shown(s: &str, a: &str, w: &Worker) -> Value {
    json!({"address": a, "service_name": s, "authorization_state": if w.auth { "Authorized" } else { "NotAuthorized" }, "bonding_state": match &w.st {
        St::Bonded(n) => json!({"Bonded": {"amount": n.to_string()}}),
        St::Unbonding(n, t) => json!({"Unbonding": {"amount": n.to_string(), "unbonded_at": t.to_string()}}),
        St::Unbonded => json!("Unbonded"),
    }})
}

fn history(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let mut c = Chain::new();
    let x = c.tx(|d, e| instantiate(d.as_mut(), e, info("creator", &[]), InstantiateMsg { governance_account: "governance".into() }));
    chk!(B, x.is_ok(), "the contract can be instantiated", "{}", x.what());
    let mut services: BTreeMap<String, Service> = BTreeMap::new();
    let mut workers: BTreeMap<(String, String), Worker> = BTreeMap::new();
    let mut support: BTreeSet<(String, String, String)> = BTreeSet::new();
    let names = ["svc", "svca", "s"];
    let chains = ["eth", "ethe", "avax"];
    // now and then many workers bond and support chains
    let big = r.chance(2);
    let many: Vec<String> = (0..40).map(|i| format!("wk{}", i)).collect();
    let ws: Vec<&str> = if big { many.iter().map(|w| w.as_str()).collect() } else { vec!["wk1", "wk2", "wk12", "worker"] };
    let mut held: BTreeMap<String, u128> = BTreeMap::new(); // what the contract holds
    for step in 0..if big { 140 } else { r.range(8, 50) } {
        if r.chance(40) {
            let n = match r.below(4) {
                0 => 1,
                1 => DAY,
                2 => DAY - 1,
                _ => r.below(4 * DAY),
            };
            c.env.block.time = c.env.block.time.plus_nanos(n);
        }
        let now = c.env.block.time.nanos();
        let s = if big { "svc".to_string() } else { r.pick(&names).to_string() };
        let who = if big && step < 90 { ws[step as usize % 40].to_string() } else if r.chance(85) { r.pick(&ws).to_string() } else { "governance".to_string() };
        let key = (s.clone(), who.clone());
        let op = if step < 2 { 0 } else if big && step < 90 { if step < 5 { 1 } else if step < 47 { 4 } else { 8 } } else { r.below(16) };
        match op {
            0 => {
                let by = if r.chance(90) { "governance" } else { "wk1" };
                let (min, denom, days) = (r.below(4) as u128 * 10, if r.bool() { "axl" } else { "uaxl" }, r.below(3) as u16);
                let m = json!({"register_service": {"service_name": s, "service_contract": "nowhere", "min_num_workers": r.below(3), "max_num_workers": if r.bool() { json!(r.below(9)) } else { Value::Null },
                    "min_worker_bond": min.to_string(), "bond_denom": denom, "unbonding_period_days": days, "description": format!("d{}", r.below(5))}});
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(by, &[]), serde_json::from_value(m.clone()).unwrap()));
                t.log(format!("{} registers {} -> {}", by, m, x.what()));
                chk!(A, x.is_ok() == (by == "governance" && !services.contains_key(&s)), "only governance registers a service, once", "{}", x.what());
                if x.is_ok() {
                    let mut j = m["register_service"].clone();
                    j["name"] = json!(s);
                    j.as_object_mut().unwrap().remove("service_name");
                    services.insert(s.clone(), Service { denom: denom.into(), min, days, json: j });
                    t.hit("R");
                }
            }
            1 | 2 | 3 => {
                let by = if r.chance(92) { "governance" } else { "wk1" };
                let on = r.chance(70);
                let list: Vec<String> = if big && step < 90 { many.clone() } else { (0..r.size(4)).map(|_| r.pick(&ws).to_string()).collect() };
                let m = if on { ExecuteMsg::AuthorizeWorkers { workers: list.clone(), service_name: s.clone() } } else { ExecuteMsg::UnauthorizeWorkers { workers: list.clone(), service_name: s.clone() } };
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(by, &[]), m));
                t.log(format!("{} authorizes {} {:?} for {} -> {}", by, on, list, s, x.what()));
                chk!(A, x.is_ok() == (by == "governance" && services.contains_key(&s)), "only governance changes who is authorized", "{}", x.what());
                if let Some(res) = x.get() {
                    chk!(B, msgs(res).is_empty(), "nothing is sent");
                    for w in list {
                        workers.entry((s.clone(), w)).or_insert(Worker { st: St::Unbonded, auth: on }).auth = on;
                    }
                    t.hit("A");
                }
            }
            4 | 5 | 6 | 7 => {
                let own = services.get(&s).map_or("axl".to_string(), |x| x.denom.clone());
                let n = if r.chance(10) { 0 } else { r.range(1, 40) as u128 };
                let funds: Vec<Coin> = match r.below(10) {
                    0 | 1 => vec![],
                    2 => vec![coin(n, "other")],
                    3 => vec![coin(n, own.clone()), coin(5, "other")],
                    _ => vec![coin(n, own.clone())],
                };
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(&who, &funds), ExecuteMsg::BondWorker { service_name: s.clone() }));
                t.log(format!("{} bonds {:?} in {} -> {}", who, funds, s, x.what()));
                let good = services.contains_key(&s) && (funds.is_empty() || funds.len() == 1 && funds[0].denom == own);
                let paid = funds.first().map_or(0, |c| c.amount.u128());
                let had = workers.get(&key).map_or(0, |w| match w.st {
                    St::Bonded(n) | St::Unbonding(n, _) => n,
                    St::Unbonded => 0,
                });
                if x.is_ok() {
                    chk!(K, good, "only the service's own coin is taken");
                    let auth = workers.get(&key).map_or(false, |w| w.auth);
                    workers.insert(key.clone(), Worker { st: St::Bonded(had + paid), auth });
                    *held.entry(own).or_default() += paid;
                    chk!(K, msgs(x.get().unwrap()).is_empty(), "nothing is sent");
                    t.hit("B");
                } else {
                    chk!(K, !good || had + paid == 0, "bonding a stake is not refused", "{}", x.what());
                }
            }
            8 | 9 => {
                let list: Vec<String> = (0..r.size(3)).map(|_| r.pick(&chains).to_string()).collect();
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(&who, &[]), ExecuteMsg::DeclareChainSupport { service_name: s.clone(), chains: list.iter().map(|c| c.parse().unwrap()).collect() }));
                t.log(format!("{} supports {:?} in {} -> {}", who, list, s, x.what()));
                chk!(A, x.is_ok() == (services.contains_key(&s) && workers.contains_key(&key)), "exactly a worker of the service declares its support", "{}", x.what());
                if x.is_ok() {
                    for ch in list {
                        support.insert((s.clone(), ch, who.clone()));
                    }
                    t.hit("D");
                }
            }
            10 | 11 | 12 => {
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(&who, &[]), ExecuteMsg::UnbondWorker { service_name: s.clone() }));
                t.log(format!("{} unbonds in {} at {} -> {}", who, s, now, x.what()));
                let st = workers.get(&key).map(|w| w.st.clone());
                chk!(K, x.is_ok() == (services.contains_key(&s) && matches!(st, Some(St::Bonded(_)))), "exactly a bonded stake is unbonded", "{:?} {}", st, x.what());
                if let (Some(res), Some(St::Bonded(n))) = (x.get(), st) {
                    chk!(K, msgs(res).is_empty(), "nothing is sent");
                    workers.get_mut(&key).unwrap().st = St::Unbonding(n, now);
                    t.hit("U");
                }
            }
            _ => {
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(&who, &[]), ExecuteMsg::ClaimStake { service_name: s.clone() }));
                t.log(format!("{} claims in {} at {} -> {}", who, s, now, x.what()));
                let st = workers.get(&key).map(|w| w.st.clone());
                let can = match (&st, services.get(&s)) {
                    (Some(St::Unbonding(_, at)), Some(sv)) => at + sv.days as u64 * DAY <= now,
                    _ => false,
                };
                chk!(K, x.is_ok() == can, "a stake is claimed exactly after its unbonding period", "{:?} now {} {}", st, now, x.what());
                if let (Some(res), Some(St::Unbonding(n, _))) = (x.get(), st) {
                    let d = services[&s].denom.clone();
                    let got: Vec<Value> = res.messages.iter().map(|m| json!(m.msg)).collect();
                    chk!(K, got == vec![json!({"bank": {"send": {"to_address": who, "amount": [{"denom": d, "amount": n.to_string()}]}}})], "exactly the stake is sent to its worker", "{:?}", got);
                    let h = held.entry(d).or_default();
                    chk!(K, *h >= n, "no more is paid out than was bonded");
                    *h -= n;
                    workers.get_mut(&key).unwrap().st = St::Unbonded;
                    t.hit("C");
                }
            }
        }
        // what is shown
        let ask = |m: Value| quiet(|| query(c.deps.as_ref(), c.env.clone(), serde_json::from_value::<QueryMsg>(m.clone()).unwrap())).and_then(|x| x.ok()).map(|b| from_binary::<Value>(&b).unwrap());
        for s in names {
            let got = ask(json!({"get_service": {"service_name": s}}));
            chk!(A, got == services.get(s).map(|x| x.json.clone()), "a service stays as registered", "{:?} {:?}", got, services.get(s));
            for w in ws.clone() {
                let got = ask(json!({"get_worker": {"service_name": s, "worker": w}}));
                let want = workers.get(&(s.to_string(), w.to_string())).map(|x| shown(s, w, x));
                chk!(B, got == want, "a worker's record is its history", "{:?} want {:?}", got, want);
            }
            for ch in chains {
                let got = ask(json!({"get_active_workers": {"service_name": s, "chain_name": ch}}));
                let want: Option<Vec<Value>> = services.get(s).map(|sv| {
                    let ok = |w: &Worker| w.auth && matches!(w.st, St::Bonded(n) if n >= sv.min);
                    workers.iter().filter(|(k, w)| k.0 == s && ok(w) && support.contains(&(s.to_string(), ch.to_string(), k.1.clone()))).map(|(k, w)| shown(s, &k.1, w)).collect()
                });
                let sorted = |v: Option<Value>| v.map(|v| {
                    let mut x: Vec<String> = v.as_array().unwrap().iter().map(|y| y.to_string()).collect();
                    x.sort();
                    x
                });
                if want.as_ref().map_or(false, |w| !w.is_empty()) {
                    t.hit("W");
                }
                chk!(A, sorted(got.clone()) == sorted(want.clone().map(Value::from)), "exactly the authorized and bonded workers that support the chain are active", "{} {} {:?} want {:?}", s, ch, got, want);
            }
        }
    }
    Ok(())
}

fn main() {
    main_loop(&[("service-registry", history)])
}
