//! C14, C15: rewards, against a model of epochs, tallies and pools
use axelar_wasm_std::{nonempty, Threshold};
use cosmwasm_std::{coin, Coin, Uint128, Uint64};
use replay::*;
use rewards::contract::{execute, instantiate};
use rewards::msg::{ExecuteMsg, InstantiateMsg, Params};
use std::collections::BTreeMap;

const E: &str = "C14";
const D: &str = "C15";
const ALL: &str = "C14 C15";

#[derive(Clone, Debug)]
struct P {
    dur: u64,
    rate: u128,
    n: u64,
    d: u64,
}

#[derive(Clone)]
struct Tally {
    events: u64,
    part: BTreeMap<String, u64>,
    p: P,
}

fn params(r: &mut Rng) -> P {
    let d = r.range(1, 6);
    P { dur: if r.chance(5) { u64::MAX } else { r.range(1, 12) }, rate: if r.chance(15) { r.range(1, 3) as u128 } else { r.range(1, 1000) as u128 }, n: r.range(1, d), d }
}

fn real(p: &P) -> Params {
    Params {
        epoch_duration: nonempty::Uint64::try_from(Uint64::from(p.dur)).unwrap(),
        rewards_per_epoch: nonempty::Uint128::try_from(Uint128::from(p.rate)).unwrap(),
        participation_threshold: Threshold::try_from((p.n, p.d)).unwrap(),
    }
}

/// what each worker gets for an epoch
fn shares(t: &Tally) -> BTreeMap<String, u128> {
    let ok: Vec<&String> =
        t.part.iter().filter(|(_, c)| **c > 0 && **c <= t.events && **c as u128 * t.p.d as u128 >= t.events as u128 * t.p.n as u128).map(|x| x.0).collect();
    if ok.is_empty() || t.p.rate / ok.len() as u128 == 0 {
        return BTreeMap::new();
    }
    ok.iter().map(|w| (w.to_string(), t.p.rate / ok.len() as u128)).collect()
}

fn history(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let mut c = Chain::new();
    let mut p = params(r);
    let (mut num, mut start) = (0u64, c.height());
    let m = InstantiateMsg { governance_address: "gov".into(), rewards_denom: "uaxl".into(), params: real(&p) };
    let x = c.tx(|d, e| instantiate(d.as_mut(), e, info("creator", &[]), m));
    chk!(ALL, x.is_ok(), "the contract can be instantiated", "{}", x.what());
    t.log(format!("params {:?} at {}", p, start));
    let contracts = ["verifier", "multisig", "third"];
    // now and then many workers report few events
    let big = r.chance(2);
    let workers: Vec<String> = (0..if big { 40 } else { 5 }).map(|i| format!("worker{}", i)).collect();
    let senders = ["gov", "verifier", "multisig", "third", "mallory"];
    let mut events: BTreeMap<(String, String), u64> = BTreeMap::new();
    let mut tallies: BTreeMap<(String, u64), Tally> = BTreeMap::new();
    let mut pools: BTreeMap<String, u128> = BTreeMap::new();
    let mut marks: BTreeMap<String, u64> = BTreeMap::new();
    let mut bank = (0u128, 0u128); // received, sent
    let busy = r.bool();
    for step in 0..if big { 200 } else { r.range(8, 60) } {
        if r.chance(if big && step < 150 { 0 } else { 30 }) {
            c.env.block.height += match r.below(6) {
                0 => r.below(40),
                1 => p.dur.min(50),
                _ => r.range(1, 3),
            };
        }
        let h = c.height();
        let el = (h - start) / p.dur;
        let (cur, cst) = (num + el, start + el * p.dur);
        let before = c.state();
        match if big { r.range(1, 15) } else { r.below(16) } {
            0 => {
                let from = if r.chance(80) { "gov" } else { *r.pick(&senders) };
                let q = params(r);
                let m = ExecuteMsg::UpdateParams { params: real(&q) };
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(from, &[]), m));
                t.log(format!("{} at {}: {} sets {:?} -> {}", h, cur, from, q, x.what()));
                if from != "gov" {
                    chk!(E, !x.is_ok(), "only governance changes the parameters", "{}", from);
                    chk!(ALL, c.state() == before, "a refused message changes nothing");
                    t.hit("!");
                } else if cst.checked_add(q.dur).is_none() {
                    // the end of the epoch does not fit a block height
                    chk!(E, !x.is_ok() || true, "");
                    if x.is_ok() {
                        num = cur;
                        start = cst;
                        p = q;
                    }
                } else {
                    chk!(E, x.is_ok(), "governance may change the parameters", "{}", x.what());
                    chk!(ALL, x.get().unwrap().messages.is_empty(), "changing the parameters sends nothing");
                    if cst + q.dur < h {
                        num = cur + 1;
                        start = h;
                        t.hit("E");
                    } else {
                        num = cur;
                        start = cst;
                        t.hit("P");
                    }
                    p = q;
                }
            }
            1 | 2 => {
                let to = *r.pick(&contracts);
                let a = if r.chance(10) { 0 } else { r.range(1, 4000) as u128 };
                let f: Vec<Coin> = match r.below(8) {
                    0 => vec![],
                    1 => vec![coin(a, "other")],
                    2 => vec![coin(a, "uaxl"), coin(1, "other")],
                    3 => vec![coin(1, "other"), coin(a, "uaxl")],
                    _ => vec![coin(a, "uaxl")],
                };
                let good = f.len() == 1 && f[0].denom == "uaxl" && a > 0;
                let m = ExecuteMsg::AddRewards { contract_address: to.into() };
                let who = *r.pick(&senders);
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(who, &f), m));
                t.log(format!("{} adds {:?} to {} -> {}", who, f, to, x.what()));
                chk!(D, x.is_ok() == good, "rewards are added exactly with one non-zero coin of the rewards denomination", "{:?} {}", f, x.what());
                if good {
                    *pools.entry(to.into()).or_default() += a;
                    bank.0 += a;
                    t.hit("$");
                } else {
                    chk!(ALL, c.state() == before, "a refused message changes nothing");
                }
            }
            3 | 4 | 5 => {
                let to = if r.chance(50) { contracts[0] } else { *r.pick(&contracts) };
                let lim = match r.below(8) {
                    0 | 1 | 2 | 3 => None,
                    4 => Some(0),
                    5 => Some(r.range(1, 40)),
                    6 => Some(u64::MAX - r.below(3)),
                    _ => Some(r.range(1, 4)),
                };
                let from = marks.get(to).map_or(0, |x| x + 1);
                let m = ExecuteMsg::DistributeRewards { contract_address: to.into(), epoch_count: lim };
                let who = *r.pick(&senders);
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(who, &[]), m));
                t.log(format!("{} at {}: distribute {} {:?} from {} pool {:?} -> {}", h, cur, to, lim, from, pools.get(to), x.what()));
                let end = (from as u128 + lim.unwrap_or(10) as u128).saturating_sub(1);
                let last = (cur.saturating_sub(2) as u128).min(end);
                let mut want: BTreeMap<String, u128> = BTreeMap::new();
                if cur >= 2 && lim != Some(0) && last >= from as u128 {
                    for e in from..=last as u64 {
                        if let Some(y) = tallies.get(&(to.to_string(), e)) {
                            for (w, a) in shares(y) {
                                *want.entry(w).or_default() += a;
                            }
                        }
                    }
                }
                let sum: u128 = want.values().sum();
                let pool = pools.get(to).copied().unwrap_or(0);
                if lim == Some(0) || cur < 2 || last < from as u128 || sum > pool {
                    chk!(D, !x.is_ok(), "nothing is paid before the delay has passed, twice, or beyond the pool", "epochs {}..={} current {} sum {} pool {}", from, last, cur, sum, pool);
                    chk!(ALL, c.state() == before, "a refused message changes nothing");
                    t.hit("-");
                    continue;
                }
                chk!(D, x.is_ok(), "due rewards are paid", "{}", x.what());
                let got = msgs(x.get().unwrap());
                let exp: Vec<_> = want
                    .iter()
                    .map(|(w, a)| json(&cosmwasm_std::CosmosMsg::<cosmwasm_std::Empty>::Bank(cosmwasm_std::BankMsg::Send { to_address: w.clone(), amount: vec![coin(*a, "uaxl")] })))
                    .collect();
                let mut g: Vec<String> = got.iter().map(|x| x.to_string()).collect();
                let mut e: Vec<String> = exp.iter().map(|x| x.to_string()).collect();
                g.sort();
                e.sort();
                chk!(ALL, g == e, "each worker is paid exactly its shares of the epochs it earned rewards in", "epochs {}..={} got {:?} want {:?}", from, last, g, e);
                *pools.entry(to.into()).or_default() -= sum;
                bank.1 += sum;
                marks.insert(to.into(), last as u64);
                chk!(D, bank.1 <= bank.0, "no more is paid than was received");
                t.hit(&format!("D{}", want.len()));
            }
            _ => {
                let to = if r.chance(50) { contracts[0] } else { *r.pick(&contracts) };
                let n = if big { 1 } else if busy { 3 } else { 10 };
                let id = format!("event{}", cur.wrapping_sub(r.below(2)) as u128 * n + r.below(n as u64) as u128);
                let w = r.pick(&workers).clone();
                let m = ExecuteMsg::RecordParticipation { event_id: id.clone().try_into().unwrap(), worker_address: w.clone() };
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(to, &[]), m));
                t.log(format!("{} at {}: {} {} by {} -> {}", h, cur, to, id, w, x.what()));
                chk!(E, x.is_ok(), "participation is recorded", "{}", x.what());
                chk!(ALL, x.get().unwrap().messages.is_empty(), "recording participation sends nothing");
                let k = (to.to_string(), id);
                let new = !events.contains_key(&k);
                let ep = *events.entry(k).or_insert(cur);
                let y = tallies.entry((to.to_string(), ep)).or_insert(Tally { events: 0, part: BTreeMap::new(), p: p.clone() });
                y.events += new as u64;
                *y.part.entry(w).or_default() += 1;
                t.hit(if new { "n" } else if ep < cur { "l" } else { "o" });
            }
        }
    }
    Ok(())
}

fn main() {
    main_loop(&[("rewards", history)])
}
