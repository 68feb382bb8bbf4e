//! C05-C07: multisig
use cosmwasm_std::{from_binary, Addr, HexBinary, Uint256, Uint64};
use multisig::contract::{execute, instantiate, query};
use multisig::key::{KeyType, PublicKey};
use multisig::msg::{ExecuteMsg, InstantiateMsg, Multisig, QueryMsg, Signer};
use multisig::types::MultisigState;
use multisig::worker_set::WorkerSet;
use replay::*;
use std::collections::BTreeMap;
use std::str::FromStr;

const S: &str = "C05";
const A: &str = "C06";
const R: &str = "C07";

enum Sk {
    Ec(k256::ecdsa::SigningKey),
    Ed(ed25519_zebra::SigningKey),
}

impl Sk {
    fn new(i: usize, ed: bool) -> Self {
        let b = [(i as u8) + 1 + if ed { 64 } else { 0 }; 32];
        if ed {
            Sk::Ed(ed25519_zebra::SigningKey::from(b))
        } else {
            Sk::Ec(k256::ecdsa::SigningKey::from_slice(&b).unwrap())
        }
    }
    fn public(&self, compressed: bool) -> PublicKey {
        match self {
            Sk::Ec(k) => PublicKey::Ecdsa(HexBinary::from(k.verifying_key().to_encoded_point(compressed).as_bytes())),
            Sk::Ed(k) => PublicKey::Ed25519(HexBinary::from(<[u8; 32]>::from(ed25519_zebra::VerificationKey::from(k)).as_slice())),
        }
    }
    fn sign(&self, m: &[u8]) -> HexBinary {
        match self {
            Sk::Ec(k) => {
                use k256::ecdsa::signature::hazmat::PrehashSigner;
                let s: k256::ecdsa::Signature = k.sign_prehash(m).unwrap();
                HexBinary::from(s.to_bytes().as_slice())
            }
            Sk::Ed(k) => HexBinary::from(<[u8; 64]>::from(k.sign(m)).as_slice()),
        }
    }
}

thread_local! { static KEYS: Vec<Sk> = (0..6).map(|i| Sk::new(i, false)).chain((0..4).map(|i| Sk::new(i, true))).chain((10..46).map(|i| Sk::new(i, false))).collect(); }

fn who(i: usize) -> String {
    format!("signer{}", i)
}

struct Session {
    ws: String,
    msg: HexBinary,
    done: Option<u64>,
    sigs: BTreeMap<usize, HexBinary>,
}

struct Set {
    ws: WorkerSet,
    members: BTreeMap<usize, (u64, PublicKey)>,
}

fn pubkey(r: &mut Rng, i: usize) -> PublicKey {
    KEYS.with(|k| k[i].public(!r.chance(20)))
}

fn sets(r: &mut Rng, h: u64, big: bool) -> Set {
    let ed = r.chance(30);
    let mut members = BTreeMap::new();
    for i in 0..10 {
        if (i >= 6) == ed || r.chance(10) {
            if r.chance(70) {
                members.insert(i, (if r.chance(10) { 0 } else { r.range(1, 5) }, pubkey(r, i)));
            }
        }
    }
    for i in 10..46 {
        if big && r.chance(95) {
            members.insert(i, (r.range(1, 3), pubkey(r, i)));
        }
    }
    let total: u64 = members.values().map(|x| x.0).sum();
    let thr = if r.chance(80) { r.range(1, total.max(1)) } else { r.below(total + 3) };
    let signers = members
        .iter()
        .map(|(i, (w, p))| (who(*i), Signer { address: Addr::unchecked(who(*i)), weight: Uint256::from(*w), pub_key: p.clone() }))
        .collect();
    Set { ws: WorkerSet { signers, threshold: Uint256::from(thr), created_at: h + r.below(2) }, members }
}

fn history(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let mut c = Chain::new();
    let grace = match r.below(10) {
        0 => 0,
        1 => u64::MAX - c.height() - 1000,
        _ => r.below(6),
    };
    let im = InstantiateMsg { governance_address: "gov".into(), rewards_address: "rewards".into(), grace_period: grace };
    let x = c.tx(|d, e| instantiate(d.as_mut(), e, info("creator", &[]), im));
    chk!("C05 C06 C07", x.is_ok(), "the contract can be instantiated", "{}", x.what());
    let mut auth: Vec<String> = vec![];
    let callers = ["prover", "other", "gov", "rewards"];
    let mut regd: Vec<Set> = vec![];
    let mut sessions: Vec<Session> = vec![];
    let mut keys: BTreeMap<(String, bool), HexBinary> = BTreeMap::new();
    t.log(format!("grace {}", grace));
    // one large set, and a session that all its members sign
    let big = r.chance(2);
    let steps = if big { 58 } else { r.range(6, 30) };
    for step in 0..steps {
        if !big && r.chance(35) {
            c.env.block.height += r.range(1, 4);
        }
        let h = c.height();
        let before = c.state();
        let k = if step < 3 { step } else if big { 13 } else { r.below(14) };
        match k {
            0 => {
                let s = if !regd.is_empty() && r.chance(20) {
                    let o = &regd[r.us(regd.len())];
                    Set { ws: o.ws.clone(), members: o.members.clone() }
                } else {
                    sets(r, h, big)
                };
                let from = *r.pick(&callers);
                let m = ExecuteMsg::RegisterWorkerSet { worker_set: s.ws.clone() };
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(from, &[]), m));
                t.log(format!("{} registers a set {:?} threshold {} -> {}", from, s.members.iter().map(|(i, m)| (i, m.0)).collect::<Vec<_>>(), s.ws.threshold, x.what()));
                chk!(R, x.is_ok(), "any signer set can be registered", "{}", x.what());
                chk!("C05 C07", x.get().unwrap().messages.is_empty(), "registering a signer set sends nothing");
                if !regd.iter().any(|y| y.ws == s.ws) {
                    regd.push(s);
                }
                t.hit("w");
            }
            1 | 3 => {
                let from = if step == 1 { "gov" } else { *r.pick(&callers) };
                let who = if step == 1 { "prover" } else { *r.pick(&callers) };
                let on = step == 1 || r.chance(65);
                let a = Addr::unchecked(who);
                let m = if on { ExecuteMsg::AuthorizeCaller { contract_address: a } } else { ExecuteMsg::UnauthorizeCaller { contract_address: a } };
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(from, &[]), m));
                t.log(format!("{} {} {} -> {}", from, if on { "authorizes" } else { "unauthorizes" }, who, x.what()));
                chk!(R, x.is_ok() == (from == "gov"), "exactly governance changes the authorized callers", "{} {}", from, x.what());
                if x.is_ok() {
                    auth.retain(|y| y != who);
                    if on {
                        auth.push(who.into());
                    }
                    t.hit(if on { "a" } else { "u" });
                }
            }
            2 | 4 | 5 => {
                let from = if step == 2 { "prover" } else { *r.pick(&callers) };
                let set = if r.chance(90) { regd[r.us(regd.len())].ws.id() } else { "nosuchset".to_string() };
                let len = if r.chance(90) { 32 } else { *r.pick(&[0usize, 31, 33, 64]) };
                let b: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
                let msg = HexBinary::from(b);
                let m = ExecuteMsg::StartSigningSession { worker_set_id: set.clone(), msg: msg.clone(), chain_name: connection_router::state::ChainName::from_str("ethereum").unwrap(), sig_verifier: None };
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(from, &[]), m));
                let ok = auth.iter().any(|y| y == from);
                t.log(format!("{} starts a session of {} bytes for {} -> {}", from, len, &set[..9], x.what()));
                chk!("C07", ok || !x.is_ok(), "only an authorized caller starts a signing session", "{}", from);
                let good = len == 32 && set != "nosuchset";
                chk!("C05 C07", x.is_ok() == (ok && good), "an authorized caller starts a session for a registered set and a 32-byte message", "{} {}", from, x.what());
                if let Some(rs) = x.get() {
                    let id = sessions.len() as u64 + 1;
                    chk!(S, rs.messages.is_empty(), "starting a session sends nothing");
                    let got: Option<Uint64> = rs.data.as_ref().and_then(|d| from_binary(d).ok());
                    chk!(S, got == Some(Uint64::from(id)), "the caller is told the session's id, which is fresh", "{:?} want {}", got, id);
                    sessions.push(Session { ws: set, msg, done: None, sigs: BTreeMap::new() });
                    t.hit("s");
                }
            }
            6 => {
                let i = r.us(10);
                let p = pubkey(r, i);
                let from = who(r.us(4));
                let m = ExecuteMsg::RegisterPublicKey { public_key: p.clone() };
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(&from, &[]), m));
                t.log(format!("{} registers key {} -> {}", from, i, x.what()));
                chk!(R, x.is_ok(), "anybody may register a key", "{}", x.what());
                keys.insert((from, matches!(p, PublicKey::Ed25519(_))), p.into());
                t.hit("k");
            }
            _ => {
                let n = sessions.len() as u64;
                let id = if big && n > 0 { 1 } else if n > 0 && r.chance(95) { r.range(1, n) } else { r.below(n + 3) };
                let exists = id >= 1 && id <= n;
                let i = if exists && r.chance(85) {
                    let m = &regd.iter().find(|s| s.ws.id() == sessions[id as usize - 1].ws).unwrap().members;
                    if m.is_empty() { r.us(10) } else if big { *m.keys().nth((step as usize - 3) % m.len()).unwrap() } else { *m.keys().nth(r.us(m.len())).unwrap() }
                } else {
                    r.us(10)
                };
                let from = who(i);
                let mode = if big { 9 } else { r.below(10) };
                let target = if exists { sessions[id as usize - 1].msg.clone() } else { HexBinary::from(vec![7u8; 32]) };
                // the key that signs, the text that is signed
                let j = if mode == 0 { r.us(10) } else { i };
                let text = if mode == 1 {
                    if n > 1 { sessions[r.us(n as usize)].msg.clone() } else { HexBinary::from(vec![9u8; 32]) }
                } else {
                    target.clone()
                };
                let mut sig: Vec<u8> = KEYS.with(|k| k[j].sign(text.as_slice())).into();
                if mode == 2 {
                    let z = r.us(64);
                    sig[z] ^= 1 << r.below(8);
                }
                if mode == 3 {
                    sig.truncate(r.us(64));
                }
                let sig = HexBinary::from(sig);
                let m = ExecuteMsg::SubmitSignature { session_id: Uint64::from(id), signature: sig.clone() };
                let x = c.tx(|d, e| execute(d.as_mut(), e, info(&from, &[]), m));
                t.log(format!("height {} {} signs session {} (mode {}) -> {}", h, from, id, mode, x.what()));
                let mut ok = exists;
                let mut closed = false;
                if exists {
                    let s = &sessions[id as usize - 1];
                    let set = regd.iter().find(|y| y.ws.id() == s.ws).unwrap();
                    let member = set.members.contains_key(&i);
                    let valid = (mode >= 4) || (mode == 0 && i == j) || (mode == 1 && text == target);
                    closed = s.done.map(|d| d as u128 + (grace as u128) < h as u128).unwrap_or(false);
                    let dup = s.sigs.contains_key(&i);
                    chk!(A, member || !x.is_ok(), "only a member of the session's signer set is accepted", "{}", from);
                    chk!(A, valid || !x.is_ok(), "only a signature that verifies for the session's message under the member's own key is accepted", "mode {}", mode);
                    chk!("C05 C06", !closed || !x.is_ok(), "nothing is accepted after the grace period");
                    chk!("C05 C06", !dup || !x.is_ok(), "a member signs a session at most once");
                    ok = member && valid && !closed && !dup;
                }
                chk!("C05 C06", x.is_ok() == ok, "a valid first signature of a member is accepted, and nothing else", "{} closed {}", x.what(), closed);
                if let Some(rs) = x.get() {
                    let want = serde_json::json!([{"to": "rewards", "msg": {"record_participation": {"event_id": id.to_string(), "worker_address": from}}, "funds": []}]);
                    chk!("C06", serde_json::Value::from(msgs(rs)) == want, "the signer's participation is reported to the rewards contract, and nothing else is sent", "{:?}", msgs(rs));
                    let s = &mut sessions[id as usize - 1];
                    let set = regd.iter().find(|y| y.ws.id() == s.ws).unwrap();
                    s.sigs.insert(i, sig);
                    let w: u64 = s.sigs.keys().map(|k| set.members[k].0).sum();
                    if s.done.is_none() && Uint256::from(w) >= set.ws.threshold {
                        s.done = Some(h);
                        t.hit("d");
                    }
                    t.hit("g");
                } else {
                    t.hit("r");
                }
            }
        }
        if (!big && (r.chance(25) || step % 5 == 4)) || (big && step % 19 == 18) {
            let _ = before;
            views(&c, r, &sessions, &regd, &keys)?;
        }
    }
    views(&c, r, &sessions, &regd, &keys)
}

fn views(c: &Chain, r: &mut Rng, sessions: &[Session], regd: &[Set], keys: &BTreeMap<(String, bool), HexBinary>) -> Result<(), Fail> {
    let d = &c.deps;
    let q = |m: QueryMsg| quiet(|| query(d.as_ref(), c.env.clone(), m)).and_then(|x| x.ok());
    for (k, s) in sessions.iter().enumerate() {
        let g: Option<Multisig> = q(QueryMsg::GetMultisig { session_id: Uint64::from(k as u64 + 1) }).and_then(|b| from_binary(&b).ok());
        chk!("C05 C06", g.is_some(), "a session can be queried", "{}", k + 1);
        let g = g.unwrap();
        let set = regd.iter().find(|y| y.ws.id() == s.ws).unwrap();
        let done = match g.state {
            MultisigState::Pending => None,
            MultisigState::Completed { completed_at } => Some(completed_at),
        };
        chk!(S, done == s.done, "a session completes exactly when the signed weight first reaches the threshold, and stays completed", "session {} got {:?} want {:?}", k + 1, done, s.done);
        chk!(S, g.quorum == set.ws.threshold, "a session's threshold is its signer set's");
        chk!("C05 C06", g.signers.len() == set.members.len(), "every member of the signer set is shown");
        for (sg, sig) in &g.signers {
            let i = set.members.keys().find(|i| who(**i) == sg.address.as_str());
            chk!(S, i.is_some(), "only members are shown", "{}", sg.address);
            let i = i.unwrap();
            chk!(S, sg.weight == Uint256::from(set.members[i].0) && sg.pub_key == set.members[i].1, "a member is shown with its weight and key");
            let got = sig.as_ref().map(|x| HexBinary::from(x.as_ref()));
            chk!("C05 C06", got.as_ref() == s.sigs.get(i), "each member's own signature is shown", "{} {:?}", sg.address, got);
        }
    }
    for s in regd {
        let g: Option<WorkerSet> = q(QueryMsg::GetWorkerSet { worker_set_id: s.ws.id() }).and_then(|b| from_binary(&b).ok());
        chk!(R, g.as_ref() == Some(&s.ws), "a registered signer set is found under its id, unchanged");
    }
    chk!(R, q(QueryMsg::GetWorkerSet { worker_set_id: "nosuchset".into() }).is_none(), "an unknown signer set is not found");
    for i in 0..4 {
        for ed in [false, true] {
            let kt = if ed { KeyType::Ed25519 } else { KeyType::Ecdsa };
            let g: Option<PublicKey> = q(QueryMsg::GetPublicKey { worker_address: who(i), key_type: kt }).and_then(|b| from_binary(&b).ok());
            let w = keys.get(&(who(i), ed));
            chk!(R, g.is_some() == w.is_some(), "a key is registered for its sender and its type only", "{} {:?}", who(i), kt);
            if let Some(g) = g {
                chk!(R, matches!(g, PublicKey::Ed25519(_)) == ed && &HexBinary::from(g) == w.unwrap(), "a worker's latest key of the type is returned");
            }
        }
    }
    let _ = r;
    Ok(())
}

fn ids(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let a = sets(r, 5, false);
    let mut b = a.ws.clone();
    let what = r.below(5);
    match what {
        0 => b.threshold += Uint256::from(1u64),
        1 => b.created_at += 1 + r.below(100),
        2 => {
            if let Some(k) = b.signers.keys().next().cloned() {
                b.signers.remove(&k);
            }
        }
        3 => {
            if let Some(s) = b.signers.values_mut().next() {
                s.weight += Uint256::from(1 + r.below(10));
            }
        }
        _ => {
            if let Some(s) = b.signers.values_mut().next() {
                let i = r.us(10);
                s.pub_key = pubkey(r, i);
            }
        }
    }
    t.log(format!("{:?} against {:?}", a.ws, b));
    chk!(R, (a.ws == b) == (a.ws.id() == b.id()), "signer sets with the same id are the same signer set", "change {}", what);
    t.hit(&format!("{} {}", what, a.members.len()));
    Ok(())
}

fn main() {
    match pid().as_str() {
        "C07" => main_loop(&[("history", history), ("history2", history), ("ids", ids)]),
        _ => main_loop(&[("history", history)]),
    }
}
