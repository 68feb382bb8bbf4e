//! C01-C03: polls, thresholds, snapshots
use axelar_wasm_std::voting::{PollId, PollStatus, Vote, WeightedPoll};
use axelar_wasm_std::{nonempty, snapshot::Participant, Snapshot, Threshold};
use axelar_wasm_std::MajorityThreshold;
use cosmwasm_std::{Addr, Uint256, Uint64};
use replay::*;
use std::collections::BTreeMap;

const VOTES: [Vote; 3] = [Vote::SucceededOnChain, Vote::FailedOnChain, Vote::NotFound];

fn majority(r: &mut Rng) -> (u64, u64, MajorityThreshold) {
    loop {
        let d = r.range(1, 12);
        let n = r.range(1, d);
        if let Ok(t) = Threshold::try_from((n, d)) {
            if let Ok(m) = MajorityThreshold::try_from(t) {
                return (n, d, m);
            }
        }
    }
}

fn snap(r: &mut Rng) -> (Vec<(String, u64)>, u64, u64, Snapshot) {
    let n = 1 + r.size(5);
    let ws: Vec<(String, u64)> = (0..n).map(|i| (format!("voter{:02}", i), if r.chance(20) { r.range(1, 1000) } else { r.range(1, 4) })).collect();
    let (num, den, m) = majority(r);
    let ps: Vec<Participant> = ws
        .iter()
        .map(|(a, w)| Participant { address: Addr::unchecked(a), weight: nonempty::Uint256::try_from(Uint256::from(*w)).unwrap() })
        .collect();
    (ws, num, den, Snapshot::new(m, nonempty::Vec::try_from(ps).unwrap()))
}

fn poll(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let (ws, _, _, s) = snap(r);
    let total: u64 = ws.iter().map(|x| x.1).sum();
    let quorum: Uint256 = s.quorum.into();
    let size = 1 + r.size(3) as usize;
    let expiry = r.range(5, 20);
    t.log(format!("weights {:?} quorum {} size {} expiry {}", ws, quorum, size, expiry));
    let id = PollId::from(r.below(100));
    let mut p = WeightedPoll::new(id, s, expiry, size);
    ensure!(p.poll_id == id && p.quorum == nonempty::Uint256::try_from(quorum).unwrap() && p.expires_at == expiry && p.poll_size == size as u64, "new poll terms");
    ensure!(matches!(p.status, PollStatus::InProgress), "new poll is open");
    let mut votes: BTreeMap<String, Vec<Vote>> = BTreeMap::new();
    let mut decided: Vec<Option<Vote>> = vec![None; size];
    let mut h = 0u64;
    // a bias makes agreement likely
    let fav: Vec<Vote> = (0..size).map(|_| r.pick(&VOTES).clone()).collect();
    for _ in 0..r.range(1, 10) {
        if r.chance(60) {
            h += r.below(4);
        }
        let who = if r.chance(15) { "stranger".to_string() } else { r.pick(&ws).0.clone() };
        let len = if r.chance(12) { r.below(size as u64 + 2) as usize } else { size };
        let vs: Vec<Vote> = (0..len).map(|i| if i < size && r.chance(70) { fav[i].clone() } else { r.pick(&VOTES).clone() }).collect();
        let res = quiet(|| p.clone().cast_vote(h, &Addr::unchecked(&who), vs.clone()));
        let can = ws.iter().any(|x| x.0 == who) && h < expiry && vs.len() == size && !votes.contains_key(&who);
        t.log(format!("height {} {} votes {:?} -> {}", h, who, vs, match &res { None => "panic", Some(Ok(_)) => "ok", Some(Err(_)) => "err" }));
        match res {
            None => return fail("casting a vote does not panic", "panic"),
            Some(Ok(n)) => {
                ensure!(can, "only an eligible voter is accepted");
                t.hit("v");
                votes.insert(who, vs);
                p = n;
            }
            Some(Err(_)) => {
                ensure!(!can, "an eligible voter is not refused");
                t.hit("r");
            }
        }
        // exact tallies
        let st = match quiet(|| p.state()) {
            Some(s) => s,
            None => return fail("poll state does not panic", "panic"),
        };
        ensure!(st.results.len() == size, "one result per item");
        for i in 0..size {
            let mut sum: BTreeMap<Vote, u64> = BTreeMap::new();
            for (a, v) in &votes {
                *sum.entry(v[i].clone()).or_default() += ws.iter().find(|x| &x.0 == a).unwrap().1;
            }
            let exp = VOTES.iter().find(|v| Uint256::from(*sum.get(v).unwrap_or(&0)) >= quorum).cloned();
            ensure!(st.results[i] == exp, "result iff a vote holds at least the quorum", "item {} sums {:?} total {} got {:?}", i, sum, total, st.results[i]);
            let one = quiet(|| p.consensus(i as u32));
            ensure!(matches!(&one, Some(Ok(x)) if *x == exp), "consensus of one item agrees", "{:?}", one);
            if decided[i].is_some() {
                ensure!(decided[i] == st.results[i], "a result never changes once reached");
            }
            if st.results[i].is_some() {
                t.hit("d");
            }
            decided[i] = st.results[i].clone();
        }
        ensure!(matches!(quiet(|| p.consensus(size as u32)), Some(Err(_))), "an index out of range is refused");
        let mut exp: Vec<String> = votes.iter().filter(|(_, v)| v.iter().zip(st.results.iter()).all(|(a, b)| b.is_none() || b.as_ref() == Some(a))).map(|x| x.0.clone()).collect();
        let mut got = st.consensus_participants.clone();
        exp.sort();
        got.sort();
        ensure!(exp == got, "consensus participants are those who voted with every result", "expected {:?} got {:?}", exp, got);
        ensure!(st.poll_id == id, "poll id");
        for (a, w) in &ws {
            let x = p.participation.get(a);
            ensure!(x.is_some(), "every participant stays in the poll");
            let x = x.unwrap();
            ensure!(x.weight == nonempty::Uint256::try_from(Uint256::from(*w)).unwrap() && x.vote.as_ref() == votes.get(a), "each vote is recorded once, with its weight", "{} {:?}", a, x);
        }
        ensure!(p.participation.len() == ws.len(), "nobody else joins the poll");
        ensure!(p.quorum == nonempty::Uint256::try_from(quorum).unwrap() && p.expires_at == expiry && p.poll_size == size as u64 && p.poll_id == id, "the poll's terms do not change");
        if r.chance(20) {
            let fin = quiet(|| p.clone().finish(h));
            ensure!(matches!(fin, Some(Ok(_))) == (h >= expiry), "a poll finishes exactly when expired", "height {} expiry {}", h, expiry);
            if let Some(Ok(f)) = fin {
                ensure!(matches!(f.status, PollStatus::Finished), "finished");
                ensure!(f.tallies == p.tallies && f.participation == p.participation && f.quorum == p.quorum && f.expires_at == p.expires_at && f.poll_id == p.poll_id, "finishing changes nothing but the status");
                ensure!(matches!(quiet(|| f.finish(h + r.below(5))), Some(Err(_))), "a poll finishes once");
                t.hit("f");
            }
        }
    }
    Ok(())
}

fn thresholds(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let small = r.bool();
    let mut g = |r: &mut Rng| if small { r.below(12) } else { r.edge() };
    let (n, d) = (g(r), g(r));
    t.log(format!("threshold {}/{}", n, d));
    let ok = n > 0 && d > 0 && n <= d;
    let a = quiet(|| Threshold::try_from((n, d)));
    let b = quiet(|| Threshold::try_from((Uint64::from(n), Uint64::from(d))));
    let js = quiet(|| cosmwasm_std::from_slice::<Threshold>(format!("[\"{}\",\"{}\"]", n, d).as_bytes()));
    for (w, x) in [("from u64", matches!(a, Some(Ok(_)))), ("from Uint64", matches!(b, Some(Ok(_)))), ("from JSON", matches!(js, Some(Ok(_))))] {
        ensure!(x == ok, "a threshold is a fraction in (0,1]", "{} {}/{} accepted: {}", w, n, d, x);
    }
    let maj = ok && (n as u128) * 2 > d as u128;
    let mj = quiet(|| cosmwasm_std::from_slice::<MajorityThreshold>(format!("[\"{}\",\"{}\"]", n, d).as_bytes()));
    ensure!(matches!(mj, Some(Ok(_))) == maj, "a majority threshold is above one half, from JSON", "{}/{}", n, d);
    if let Some(Ok(x)) = a {
        let m = quiet(|| MajorityThreshold::try_from(x));
        ensure!(matches!(m, Some(Ok(_))) == maj, "a majority threshold is above one half", "{}/{}", n, d);
        t.hit(&format!("{} {}", n.min(20), d.min(20)));
        let (n2, d2) = (r.range(1, 12), r.range(1, 12));
        if let Ok(y) = Threshold::try_from((n2, d2)) {
            let want = (n as u128 * d2 as u128).cmp(&(n2 as u128 * d as u128));
            ensure!(x.partial_cmp(&y) == Some(want), "thresholds compare as fractions", "{}/{} vs {}/{}", n, d, n2, d2);
        }
    }
    Ok(())
}

fn snapshots(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let (ws, n, d, s) = snap(r);
    let total: u64 = ws.iter().map(|x| x.1).sum();
    t.log(format!("weights {:?} threshold {}/{}", ws, n, d));
    let want = (total * n + d - 1) / d;
    let q: Uint256 = s.quorum.into();
    ensure!(q == Uint256::from(want), "the quorum is the threshold share of the total weight, rounded up", "got {} want {}", q, want);
    ensure!(q * Uint256::from(2u64) > Uint256::from(total) && q <= Uint256::from(total), "the quorum is above half of the weight and at most all of it");
    ensure!(s.participants.len() == ws.len(), "the snapshot holds the participants");
    for (a, w) in &ws {
        let g = s.get_participant_weight(&Addr::unchecked(a)).cloned();
        ensure!(g == Some(Uint256::from(*w)), "a participant's weight", "{} {:?}", a, g);
        ensure!(s.get_participant(&Addr::unchecked(a)).map(|p| p.address.to_string()) == Some(a.clone()), "a participant is found under its address");
    }
    ensure!(s.get_participant_weight(&Addr::unchecked("stranger")).is_none(), "nobody else has weight");
    let mut got: Vec<String> = s.get_participants().into_iter().map(|a| a.to_string()).collect();
    got.sort();
    ensure!(got == ws.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "the participants are listed");
    t.hit(&format!("{:?} {} {}", ws, n, d));
    Ok(())
}

fn main() {
    let which = std::env::args().nth(1).unwrap_or_default();
    match which.as_str() {
        "C03" => main_loop(&[("thresholds", thresholds), ("snapshots", snapshots)]),
        _ => main_loop(&[("poll", poll)]),
    }
}
