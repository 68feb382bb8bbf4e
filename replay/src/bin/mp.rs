//! C18-C19: multisig-prover, with a gateway, registry, multisig contract and verifier whose answers are chosen at random
use connection_router::state::{CrossChainId, Message};
use cosmwasm_std::{from_binary, Addr, ContractResult, HexBinary, QuerierResult, Reply, SubMsgResponse, SubMsgResult, SystemResult, Uint256, Uint64, WasmQuery};
use k256::elliptic_curve::sec1::ToEncodedPoint;
use multisig::key::{KeyType, PublicKey, Signature};
use multisig::msg::{Multisig, Signer};
use multisig::types::MultisigState;
use multisig::worker_set::WorkerSet;
use multisig_prover::contract::{execute, instantiate, query, reply};
use multisig_prover::encoding::Encoder;
use multisig_prover::msg::{ExecuteMsg, GetProofResponse, InstantiateMsg, ProofStatus, QueryMsg};
use replay::*;
use serde_json::{json, Value};
use sha3::{Digest, Keccak256};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const R: &str = "C18";
const P: &str = "C19";
const B: &str = "C18 C19";

fn keccak(b: &[u8]) -> Vec<u8> {
    Keccak256::digest(b).to_vec()
}

// ---------------------------------------------------------------- the destination chains' encodings
enum Tok {
    Word([u8; 32]),
    Dyn(Vec<u8>),
    Arr(Vec<Tok>),
}

fn word(n: u128) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[16..].copy_from_slice(&n.to_be_bytes());
    w
}

fn padded(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    while v.len() % 32 != 0 {
        v.push(0);
    }
    v
}

fn abi(ts: &[Tok]) -> Vec<u8> {
    let mut head = vec![];
    let mut tail: Vec<u8> = vec![];
    for t in ts {
        match t {
            Tok::Word(w) => head.extend(w),
            Tok::Dyn(b) => {
                head.extend(word((32 * ts.len() + tail.len()) as u128));
                tail.extend(word(b.len() as u128));
                tail.extend(padded(b));
            }
            Tok::Arr(xs) => {
                head.extend(word((32 * ts.len() + tail.len()) as u128));
                tail.extend(word(xs.len() as u128));
                tail.extend(abi(xs));
            }
        }
    }
    head.extend(tail);
    head
}

fn uleb(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

fn lp(b: &[u8]) -> Vec<u8> {
    let mut v = uleb(b.len());
    v.extend(b);
    v
}

fn list<T>(xs: &[T], f: impl Fn(&T) -> Vec<u8>) -> Vec<u8> {
    let mut v = uleb(xs.len());
    xs.iter().for_each(|x| v.extend(f(x)));
    v
}

fn addr_word(a: &[u8]) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[12..].copy_from_slice(a);
    w
}

fn fixed(b: &[u8]) -> [u8; 32] {
    b.try_into().unwrap_or([0; 32])
}

/// what the destination calls a signer
fn dest(enc: Encoder, k: &PublicKey) -> Vec<u8> {
    match enc {
        Encoder::Bcs => k.as_ref().to_vec(),
        Encoder::Abi => {
            let p = k256::PublicKey::from_sec1_bytes(k.as_ref()).unwrap().to_encoded_point(false);
            keccak(&p.as_bytes()[1..])[12..].to_vec()
        }
    }
}

fn small(u: Uint256) -> u128 {
    u.to_string().parse().unwrap()
}

fn members(enc: Encoder, ws: &WorkerSet) -> Vec<(Vec<u8>, u128)> {
    let mut v: Vec<_> = ws.signers.values().map(|s| (dest(enc, &s.pub_key), small(s.weight))).collect();
    v.sort();
    v
}

struct Cmd {
    id: Vec<u8>,
    ty: &'static str,
    params: Vec<u8>,
}

fn handover(enc: Encoder, ws: &WorkerSet) -> Cmd {
    let m = members(enc, ws);
    let params = match enc {
        Encoder::Abi => abi(&[
            Tok::Arr(m.iter().map(|x| Tok::Word(addr_word(&x.0))).collect()),
            Tok::Arr(m.iter().map(|x| Tok::Word(word(x.1))).collect()),
            Tok::Word(word(small(ws.threshold))),
        ]),
        Encoder::Bcs => {
            let mut v = list(&m, |x| lp(&x.0));
            v.extend(list(&m, |x| x.1.to_le_bytes().to_vec()));
            v.extend(small(ws.threshold).to_le_bytes());
            v
        }
    };
    Cmd { id: keccak(&serde_json::to_vec(ws).unwrap()), ty: "transferOperatorship", params }
}

/// None: the destination address is no address
fn approval(enc: Encoder, m: &Message) -> Option<Cmd> {
    let (chain, src, dst) = (m.cc_id.chain.to_string(), m.source_address.to_string(), m.destination_address.to_string());
    let d = hex::decode(dst.strip_prefix("0x").unwrap_or(&dst)).ok()?;
    let params = match enc {
        Encoder::Abi => {
            if d.len() != 20 {
                return None;
            }
            // the head counts the empty token as one word of no length: 160 bytes, as ethabi lays it out
            let (c, s) = (chain.as_bytes(), src.as_bytes());
            let mut v = vec![];
            v.extend(word(160));
            v.extend(word(160 + 32 + padded(c).len() as u128));
            v.extend(addr_word(&d));
            v.extend(m.payload_hash);
            v.extend(word(0));
            v.extend(word(c.len() as u128));
            v.extend(padded(c));
            v.extend(word(s.len() as u128));
            v.extend(padded(s));
            v
        }
        Encoder::Bcs => {
            if d.len() != 32 {
                return None;
            }
            let mut v = lp(chain.as_bytes());
            v.extend(lp(src.as_bytes()));
            v.extend(d);
            v.extend(lp(&m.payload_hash));
            v
        }
    };
    Some(Cmd { id: keccak(format!("{}:{}", chain, *m.cc_id.id).as_bytes()), ty: "approveContractCall", params })
}

fn encode(enc: Encoder, chain: u64, cmds: &[Cmd]) -> Vec<u8> {
    match enc {
        Encoder::Abi => abi(&[
            Tok::Word(word(chain as u128)),
            Tok::Arr(cmds.iter().map(|c| Tok::Word(fixed(&c.id))).collect()),
            Tok::Arr(cmds.iter().map(|c| Tok::Dyn(c.ty.as_bytes().to_vec())).collect()),
            Tok::Arr(cmds.iter().map(|c| Tok::Dyn(c.params.clone())).collect()),
        ]),
        Encoder::Bcs => {
            let mut v = chain.to_le_bytes().to_vec();
            v.extend(list(cmds, |c| c.id.clone()));
            v.extend(list(cmds, |c| lp(c.ty.as_bytes())));
            v.extend(list(cmds, |c| lp(&c.params)));
            v
        }
    }
}

fn digest(enc: Encoder, data: &[u8]) -> Vec<u8> {
    match enc {
        Encoder::Abi => keccak(&[b"\x19Ethereum Signed Message:\n32".as_slice(), &keccak(data)].concat()),
        Encoder::Bcs => keccak(&[b"\x19Sui Signed Message:\n".as_slice(), data].concat()),
    }
}

struct Rd<'a>(&'a [u8], usize);

impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.0.get(self.1..self.1.checked_add(n)?)?;
        self.1 += n;
        Some(r)
    }
    fn num(&mut self) -> Option<usize> {
        let (mut n, mut s) = (0usize, 0);
        loop {
            let b = self.take(1)?[0];
            n |= ((b & 0x7f) as usize) << s;
            s += 7;
            if b & 0x80 == 0 || s > 28 {
                return Some(n);
            }
        }
    }
    fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.num()?;
        Some(self.take(n)?.to_vec())
    }
}

fn u(w: &[u8]) -> Option<usize> {
    if w.len() == 32 && w[..24].iter().all(|b| *b == 0) {
        Some(u64::from_be_bytes(w[24..].try_into().unwrap()) as usize)
    } else {
        None
    }
}

fn dyn_at(b: &[u8], at: usize) -> Option<Vec<u8>> {
    let n = u(b.get(at..at + 32)?)?;
    Some(b.get(at + 32..at + 32 + n)?.to_vec())
}

fn arr_at(b: &[u8], at: usize) -> Option<(usize, &[u8])> {
    Some((u(b.get(at..at + 32)?)?, b.get(at + 32..)?))
}

/// (data, members, quorum, signatures)
type Proof = (Vec<u8>, Vec<(Vec<u8>, u128)>, u128, Vec<Vec<u8>>);

fn decode(enc: Encoder, x: &[u8]) -> Option<Proof> {
    match enc {
        Encoder::Abi => {
            if x.get(..4)? != &keccak(b"execute(bytes)")[..4] {
                return None;
            }
            let inp = dyn_at(&x[4..], 32)?;
            let o = |b: &[u8], k: usize| u(b.get(32 * k..32 * k + 32)?);
            let (data, proof) = (dyn_at(&inp, o(&inp, 0)?)?, dyn_at(&inp, o(&inp, 1)?)?);
            let (n, ad) = arr_at(&proof, o(&proof, 0)?)?;
            let (m, wt) = arr_at(&proof, o(&proof, 1)?)?;
            let (k, sg) = arr_at(&proof, o(&proof, 3)?)?;
            if n != m {
                return None;
            }
            let mem = (0..n).map(|i| Some((ad.get(32 * i + 12..32 * i + 32)?.to_vec(), o(wt, i)? as u128))).collect::<Option<Vec<_>>>()?;
            let sigs = (0..k).map(|i| dyn_at(sg, o(sg, i)?)).collect::<Option<Vec<_>>>()?;
            Some((data, mem, o(&proof, 2)? as u128, sigs))
        }
        Encoder::Bcs => {
            let mut r = Rd(x, 0);
            let (data, proof) = (r.bytes()?, r.bytes()?);
            if r.1 != x.len() {
                return None;
            }
            let mut r = Rd(&proof, 0);
            let n = r.num()?;
            let ad = (0..n).map(|_| r.bytes()).collect::<Option<Vec<_>>>()?;
            let m = r.num()?;
            let mut u128_ = |r: &mut Rd| Some(u128::from_le_bytes(r.take(16)?.try_into().ok()?));
            let ws = (0..m).map(|_| u128_(&mut r)).collect::<Option<Vec<_>>>()?;
            let q = u128_(&mut r)?;
            let k = r.num()?;
            let sigs = (0..k).map(|_| r.bytes()).collect::<Option<Vec<_>>>()?;
            if n != m || r.1 != proof.len() {
                return None;
            }
            Some((data, ad.into_iter().zip(ws).collect(), q, sigs))
        }
    }
}

// ---------------------------------------------------------------- the world around the contract
#[derive(Clone, Copy, PartialEq)]
enum Gw {
    Honest,
    Short,
    Foreign,
    Down,
}

struct World {
    active: Vec<(usize, bool)>,
    keys: Vec<PublicKey>,
    verified: bool,
    asked: Vec<Value>,
    msgs: BTreeMap<String, Message>,
    gw: Gw,
    sessions: BTreeMap<u64, Multisig>,
}

fn who(i: usize) -> String {
    format!("worker{}", i)
}

fn key_for(i: usize) -> k256::ecdsa::SigningKey {
    k256::ecdsa::SigningKey::from_slice(&[i as u8 + 1; 32]).unwrap()
}

fn answer(w: &mut World, to: &str, v: Value) -> Result<Vec<u8>, String> {
    let ok = |v: Value| Ok(serde_json::to_vec(&v).unwrap());
    match to {
        "registry" if v == json!({"get_active_workers": {"service_name": "svc", "chain_name": "dest"}}) => ok(json!(w
            .active
            .iter()
            .map(|(i, b)| json!({"address": who(*i), "service_name": "svc", "authorization_state": "Authorized",
                "bonding_state": if *b { json!({"Bonded": {"amount": format!("{}", 7 * (i + 1))}}) } else { json!({"RequestedUnbonding": {"amount": "10"}}) }}))
            .collect::<Vec<_>>())),
        "multisig" if v.get("get_public_key").is_some() => {
            let a = v["get_public_key"]["worker_address"].as_str().unwrap_or("").to_string();
            match (0..w.keys.len()).find(|i| who(*i) == a && v["get_public_key"]["key_type"] == json!("ecdsa")) {
                Some(i) => ok(json(&w.keys[i])),
                None => Err("no key".into()),
            }
        }
        "multisig" if v.get("get_multisig").is_some() => {
            let s: u64 = v["get_multisig"]["session_id"].as_str().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
            w.sessions.get(&s).map(|m| serde_json::to_vec(m).unwrap()).ok_or_else(|| "no session".into())
        }
        "verifier" if v.get("is_worker_set_verified").is_some() => {
            w.asked.push(v["is_worker_set_verified"]["new_operators"].clone());
            ok(json!(w.verified))
        }
        "gateway" if v.get("get_messages").is_some() => {
            let ids: Vec<CrossChainId> = serde_json::from_value(v["get_messages"]["message_ids"].clone()).map_err(|e| e.to_string())?;
            let mut out = vec![];
            for id in &ids {
                out.push(w.msgs.get(&id.to_string()).cloned().ok_or("no message")?);
            }
            match w.gw {
                Gw::Down => return Err("down".into()),
                Gw::Short => {
                    out.pop();
                }
                Gw::Foreign => out.iter_mut().take(1).for_each(|m| m.destination_chain = "elsewhere".parse().unwrap()),
                Gw::Honest => {}
            }
            ok(json(&out))
        }
        _ => Err(format!("unexpected question to {}: {}", to, v)),
    }
}

struct Batch {
    set: Option<WorkerSet>,
    msgs: Vec<Message>,
}

impl Batch {
    fn cmds(&self, enc: Encoder) -> Option<Vec<Cmd>> {
        let mut v: Vec<Cmd> = self.set.iter().map(|s| handover(enc, s)).collect();
        for m in &self.msgs {
            v.push(approval(enc, m)?);
        }
        Some(v)
    }
}

fn sorted_ids(ids: &[CrossChainId]) -> Vec<String> {
    let mut v: Vec<String> = ids.iter().map(|i| i.to_string()).collect();
    v.sort();
    v
}

fn diff(a: &WorkerSet, b: &WorkerSet) -> usize {
    let f = |a: &WorkerSet, b: &WorkerSet| a.signers.values().filter(|s| !b.signers.values().any(|x| x == *s)).count();
    f(a, b) + f(b, a)
}

fn history(r: &mut Rng, t: &mut Trace) -> Result<(), Fail> {
    let enc = if r.bool() { Encoder::Abi } else { Encoder::Bcs };
    let nkeys = if r.chance(2) { 40 } else { 5 };
    let pk = |i: usize| PublicKey::Ecdsa(HexBinary::from(key_for(i).verifying_key().to_encoded_point(true).as_bytes()));
    let world = Arc::new(Mutex::new(World {
        active: vec![],
        keys: (0..nkeys).map(pk).collect(),
        verified: false,
        asked: vec![],
        msgs: BTreeMap::new(),
        gw: Gw::Honest,
        sessions: BTreeMap::new(),
    }));
    let mut c = Chain::new();
    let w = world.clone();
    c.deps.querier.update_wasm(move |q| -> QuerierResult {
        match q {
            WasmQuery::Smart { contract_addr, msg } => match answer(&mut w.lock().unwrap(), contract_addr, serde_json::from_slice(msg.as_slice()).unwrap()) {
                Ok(b) => SystemResult::Ok(ContractResult::Ok(b.into())),
                Err(e) => SystemResult::Ok(ContractResult::Err(e)),
            },
            _ => SystemResult::Err(cosmwasm_std::SystemError::Unknown {}),
        }
    });
    let d = r.range(1, 5);
    let n = r.range(d / 2 + 1, d);
    let chain_id = r.range(1, 3);
    let tol = r.below(3) as u32;
    let th: axelar_wasm_std::MajorityThreshold = axelar_wasm_std::Threshold::try_from((n, d)).unwrap().try_into().unwrap();
    let x = c.tx(|dd, e| {
        instantiate(dd.as_mut(), e, info("creator", &[]), InstantiateMsg {
            admin_address: "admin".into(),
            gateway_address: "gateway".into(),
            multisig_address: "multisig".into(),
            service_registry_address: "registry".into(),
            voting_verifier_address: "verifier".into(),
            destination_chain_id: Uint256::from(chain_id),
            signing_threshold: th,
            service_name: "svc".into(),
            chain_name: "dest".into(),
            worker_set_diff_threshold: tol,
            encoder: enc,
            key_type: KeyType::Ecdsa,
        })
    });
    chk!(B, x.is_ok(), "the contract can be instantiated", "{}", x.what());
    for i in 0..if r.chance(2) { 40usize } else { 4 } {
        let bad = r.chance(6);
        let dst = match enc {
            Encoder::Abi => "ab".repeat(if bad { 19 } else { 20 }),
            Encoder::Bcs => format!("{}{}", if r.bool() { "0x" } else { "" }, "cd".repeat(if bad { 20 } else { 32 })),
        };
        let id: CrossChainId = format!("src{}:0x{}{}:{}", i % 2, i, ["ab", "AB", "aB"][r.below(3) as usize], r.below(3)).parse().unwrap();
        let m = Message {
            cc_id: id.clone(),
            source_address: format!("{}", "s".repeat(1 + r.us(40))).parse().unwrap(),
            destination_chain: "dest".parse().unwrap(),
            destination_address: dst.parse().unwrap(),
            payload_hash: [r.next() as u8; 32],
        };
        world.lock().unwrap().msgs.insert(id.to_string(), m);
    }
    let all: Vec<Message> = world.lock().unwrap().msgs.values().cloned().collect();
    let mut cur: Option<WorkerSet> = None;
    let mut next: Option<WorkerSet> = None;
    // made batches: ids in order of text, hash of the set -> batch
    let mut batches: BTreeMap<(Vec<String>, Option<String>), Batch> = BTreeMap::new();
    let mut tracked: Option<(Vec<String>, Option<String>)> = None;
    let mut sessions: BTreeMap<u64, (Vec<String>, Option<String>)> = BTreeMap::new();
    t.log(format!("encoder {:?}, threshold {}/{}, tolerated {}, chain id {}", enc, n, d, tol, chain_id));
    for step in 0..r.range(6, 26) {
        if r.chance(60) {
            c.env.block.height += r.range(1, 3);
        }
        let h = c.height();
        if step == 0 || r.chance(40) {
            let mut g = world.lock().unwrap();
            g.active = (0..nkeys).map(|i| (i, nkeys > 5 || !r.chance(2), r.chance(70))).filter(|x| x.2).map(|x| (x.0, x.1)).collect();
            if r.chance(20) {
                let i = r.us(nkeys);
                let j = if r.chance(50) { i } else { i + 50 };
                g.keys[i] = pk(j);
            }
            r.shuffle(&mut g.active);
        }
        // the set of the active workers, if they make one
        let fresh: Option<WorkerSet> = {
            let g = world.lock().unwrap();
            let k = g.active.len() as u64;
            if k == 0 || g.active.iter().any(|x| !x.1) {
                None
            } else {
                Some(WorkerSet {
                    signers: g
                        .active
                        .iter()
                        .map(|(i, _)| (who(*i), Signer { address: Addr::unchecked(who(*i)), weight: Uint256::one(), pub_key: g.keys[*i].clone() }))
                        .collect(),
                    threshold: Uint256::from((k * n + d - 1) / d),
                    created_at: h,
                })
            }
        };
        // the set a batch would have to hand over to; Err when it may not be proposed
        let due: Result<Option<WorkerSet>, ()> = match (&cur, &fresh) {
            (Some(cu), Some(f)) if diff(cu, f) > tol as usize => match &next {
                Some(x) if x.signers != f.signers || x.threshold != f.threshold => Err(()),
                _ => Ok(Some(f.clone())),
            },
            (Some(_), Some(_)) => Ok(None),
            _ => Err(()),
        };
        let before = c.state();
        match if step == 0 { 0 } else { r.below(12) } {
            0 | 1 => {
                let x = c.tx(|dd, e| execute(dd.as_mut(), e, info("anyone", &[]), ExecuteMsg::UpdateWorkerSet));
                t.log(format!("height {}: {} active, update: {}", h, world.lock().unwrap().active.len(), x.what()));
                match &cur {
                    None => {
                        chk!(R, x.is_ok() == fresh.is_some(), "without a set the active workers become the current set", "{}", x.what());
                        if let Some(res) = x.get() {
                            cur = fresh.clone();
                            let m = msgs(res);
                            chk!(R, m.len() == 1 && m[0]["to"] == "multisig" && m[0]["msg"] == json!({"register_worker_set": {"worker_set": json(&cur)}}), "the set is registered with the multisig contract", "{:?}", m);
                        }
                    }
                    Some(cu) => {
                        let want = matches!(due, Ok(Some(_)));
                        chk!(R, x.is_ok() == want, "an update proposes a next set only when enough signers changed and no other set is proposed", "{} but due {:?}", x.what(), due);
                        if let (Some(res), Ok(Some(f))) = (x.get(), due) {
                            t.hit("rotate");
                            let b = Batch { set: Some(f.clone()), msgs: vec![] };
                            let dg = digest(enc, &encode(enc, chain_id, &b.cmds(enc).unwrap()));
                            let want = json!({"start_signing_session": {"worker_set_id": cu.id(), "msg": hex::encode(dg), "chain_name": "dest", "sig_verifier": null}});
                            let m = msgs(res);
                            chk!(R, m.len() == 1 && m[0]["to"] == "multisig" && m[0]["msg"] == want, "the current set signs the proposal", "{:?} not {:?}", m, want);
                            let key = (vec![], Some(f.hash().to_string()));
                            batches.insert(key.clone(), b);
                            tracked = Some(key);
                            next = Some(f);
                        }
                    }
                }
            }
            2 | 3 => {
                let yes = r.chance(60);
                {
                    let mut g = world.lock().unwrap();
                    g.verified = yes;
                    g.asked.clear();
                }
                let x = c.tx(|dd, e| execute(dd.as_mut(), e, info("anyone", &[]), ExecuteMsg::ConfirmWorkerSet));
                t.log(format!("confirm, verified {}: {}", yes, x.what()));
                chk!(R, x.is_ok() == (next.is_some() && yes), "a set is confirmed only if it was proposed and the verifier says that the gateway has taken it over", "{} proposed {} verified {}", x.what(), next.is_some(), yes);
                if let Some(nx) = &next {
                    let g = world.lock().unwrap();
                    let want = json!({"weights_by_addresses": members(enc, nx).iter().map(|m| json!([hex::encode(&m.0), m.1.to_string()])).collect::<Vec<_>>(), "threshold": nx.threshold});
                    chk!(R, g.asked.len() == 1 && g.asked[0] == want, "the verifier is asked about the proposed set", "{:?} not {}", g.asked, want);
                }
                if let Some(res) = x.get() {
                    t.hit("confirm");
                    cur = next.take();
                    let m = msgs(res);
                    chk!(R, m.len() == 1 && m[0]["to"] == "multisig" && m[0]["msg"] == json!({"register_worker_set": {"worker_set": json(&cur)}}), "the confirmed set is registered with the multisig contract", "{:?}", m);
                }
            }
            4..=7 => {
                let mut ids: Vec<Message> = all.iter().filter(|_| r.chance(50)).cloned().collect();
                r.shuffle(&mut ids);
                if r.chance(10) && !ids.is_empty() {
                    ids.push(ids[0].clone());
                }
                let gw = if r.chance(90) { Gw::Honest } else { *r.pick(&[Gw::Short, Gw::Foreign, Gw::Down]) };
                world.lock().unwrap().gw = gw;
                let cc: Vec<CrossChainId> = ids.iter().map(|m| m.cc_id.clone()).collect();
                let x = c.tx(|dd, e| execute(dd.as_mut(), e, info("anyone", &[]), ExecuteMsg::ConstructProof { message_ids: cc.clone() }));
                t.log(format!("height {}: proof of {:?}: {}", h, sorted_ids(&cc), x.what()));
                let gw_ok = gw == Gw::Honest || (gw != Gw::Down && ids.is_empty());
                let mut key = (sorted_ids(&cc), None);
                let again = batches.contains_key(&key);
                let made = Batch { set: due.clone().ok().flatten(), msgs: ids.clone() };
                let want = gw_ok && cur.is_some() && (again || (due.is_ok() && made.cmds(enc).is_some()));
                chk!(B, x.is_ok() == want, "a proof is constructed exactly when the messages are there and the signers are known", "{} (gateway ok {}, again {}, due {:?})", x.what(), gw_ok, again, due.as_ref().map(|x| x.is_some()));
                if let Some(res) = x.get() {
                    if !again {
                        if let Some(s) = &made.set {
                            key.1 = Some(s.hash().to_string());
                            next = Some(s.clone());
                            t.hit("proof-with-set");
                        }
                        batches.entry(key.clone()).or_insert(made);
                    } else {
                        t.hit("again");
                    }
                    let b = &batches[&key];
                    let dg = digest(enc, &encode(enc, chain_id, &b.cmds(enc).unwrap()));
                    let want = json!({"start_signing_session": {"worker_set_id": cur.as_ref().unwrap().id(), "msg": hex::encode(dg), "chain_name": "dest", "sig_verifier": null}});
                    let m = msgs(res);
                    chk!(B, m.len() == 1 && m[0]["to"] == "multisig" && m[0]["msg"] == want, "the current set signs the batch", "{:?} not {:?}", m, want);
                    let sm = &res.messages[0];
                    chk!(P, sm.id == 1 && sm.reply_on == cosmwasm_std::ReplyOn::Success, "the answer is asked for");
                    tracked = Some(key);
                }
            }
            8 => {
                let sid = r.range(1, 5);
                let data = match r.below(10) {
                    0 => None,
                    1 => Some(b"\"x\"".to_vec()),
                    _ => Some(format!("\"{}\"", sid).into_bytes()),
                };
                let good = data.as_ref().map(|x| x.len() > 1 && x[1] != b'x').unwrap_or(false);
                // MsgExecuteContractResponse: field 1, bytes
                let enc_data = data.as_ref().map(|x| {
                    let mut v = vec![10u8, x.len() as u8];
                    v.extend(x);
                    v
                });
                let id = if r.chance(95) { 1 } else { r.range(2, 3) };
                let rp = Reply { id, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(enc_data.unwrap_or_default().into()) }) };
                let x = c.tx(|dd, e| reply(dd.as_mut(), e, rp));
                t.log(format!("reply session {} {:?}: {}", sid, good, x.what()));
                let want = id == 1 && good && tracked.is_some();
                chk!(P, x.is_ok() == want, "the session of a batch is known from the answer", "{}", x.what());
                if want {
                    sessions.insert(sid, tracked.clone().unwrap());
                    t.hit("session");
                }
            }
            _ => {
                let sid = if sessions.is_empty() || r.chance(10) { r.range(1, 5) } else { *sessions.keys().nth(r.us(sessions.len())).unwrap() };
                proof(r, t, &c, &world, enc, chain_id, sid, &sessions, &batches)?;
            }
        }
        // the sets
        let ws: Option<WorkerSet> = quiet(|| query(c.deps.as_ref(), c.env.clone(), QueryMsg::GetWorkerSet)).and_then(|x| x.ok()).and_then(|b| from_binary(&b).ok());
        chk!(R, ws == cur, "the current set changes only when it is set or confirmed", "{:?} not {:?}", ws, cur);
        let _ = before;
    }
    // every session still has the batch that was signed
    for sid in sessions.keys().copied().collect::<Vec<_>>() {
        proof(r, t, &c, &world, enc, chain_id, sid, &sessions, &batches)?;
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn proof(
    r: &mut Rng,
    t: &mut Trace,
    c: &Chain,
    world: &Arc<Mutex<World>>,
    enc: Encoder,
    chain_id: u64,
    sid: u64,
    sessions: &BTreeMap<u64, (Vec<String>, Option<String>)>,
    batches: &BTreeMap<(Vec<String>, Option<String>), Batch>,
) -> Result<(), Fail> {
    let batch = sessions.get(&sid).map(|k| &batches[k]);
    let data = batch.map(|b| encode(enc, chain_id, &b.cmds(enc).unwrap()));
    let dg = data.as_ref().map(|d| digest(enc, d)).unwrap_or_else(|| vec![0; 32]);
    // signers and signatures
    let mut signers = vec![];
    let mut total = 0u64;
    let mut have: Vec<(Vec<u8>, u64, Vec<u8>)> = vec![];
    let mut weights = vec![];
    let ns = 1 + if r.chance(2) { 40 } else { r.below(5) } as usize;
    let mut order: Vec<usize> = (0..ns).collect();
    r.shuffle(&mut order);
    for i in order {
        let k = key_for(i);
        let pub_key = PublicKey::Ecdsa(HexBinary::from(k.verifying_key().to_encoded_point(true).as_bytes()));
        let wt = r.range(1, 5);
        let sig = if r.chance(65) {
            let (s, rid) = k.sign_prehash_recoverable(&dg).unwrap();
            let mut rec = s.to_bytes().to_vec();
            rec.push(rid.to_byte() + if matches!(enc, Encoder::Abi) { 27 } else { 0 });
            have.push((dest(enc, &pub_key), wt, rec));
            total += wt;
            Some(Signature::try_from((KeyType::Ecdsa, HexBinary::from(s.to_bytes().as_slice()))).unwrap())
        } else {
            None
        };
        weights.push((dest(enc, &pub_key), wt as u128));
        signers.push((Signer { address: Addr::unchecked(who(i)), weight: Uint256::from(wt), pub_key }, sig));
    }
    let quorum = r.range(1, (2 * total).max(1));
    let done = r.chance(75);
    world.lock().unwrap().sessions = BTreeMap::from([(sid, Multisig {
        state: if done { MultisigState::Completed { completed_at: c.height() } } else { MultisigState::Pending },
        quorum: Uint256::from(quorum),
        signers,
    })]);
    let q = quiet(|| query(c.deps.as_ref(), c.env.clone(), QueryMsg::GetProof { multisig_session_id: Uint64::from(sid) }));
    let got: Option<GetProofResponse> = match &q {
        Some(Ok(b)) => from_binary(b).ok(),
        _ => None,
    };
    t.log(format!("proof of session {}: {}", sid, if got.is_some() { "given" } else { "none" }));
    let b = match batch {
        None => {
            chk!(P, got.is_none(), "a session nobody opened has no proof");
            return Ok(());
        }
        Some(b) => b,
    };
    let data = data.unwrap();
    let g = match got {
        Some(g) => g,
        None => {
            chk!(P, false, "the proof of a session can be asked for", "{:?}", q);
            return Ok(());
        }
    };
    chk!(P, g.multisig_session_id.u64() == sid && g.message_ids == b.msgs.iter().map(|m| m.cc_id.clone()).collect::<Vec<_>>(), "the proof lists the messages of the batch", "{:?}", g.message_ids);
    let cmds = b.cmds(enc).unwrap();
    let same = g.data.destination_chain_id == Uint256::from(chain_id)
        && g.data.commands.len() == cmds.len()
        && g.data.commands.iter().zip(&cmds).all(|(a, b)| a.id.as_slice() == b.id && a.ty.to_string() == b.ty && a.params.as_slice() == b.params);
    chk!("C18 C19", same, "the batch of a session is the one that is signed", "{:?}", g.data);
    match g.status {
        ProofStatus::Pending => {
            chk!(P, !done, "a proof is pending until the session is completed");
        }
        ProofStatus::Completed { execute_data } => {
            chk!(P, done, "a proof is completed only when its session is");
            t.hit("completed");
            let (dt, mem, qu, sigs) = match decode(enc, execute_data.as_slice()) {
                Some(x) => x,
                None => {
                    chk!(P, false, "the proof is in the destination's format", "{}", execute_data);
                    return Ok(());
                }
            };
            chk!(P, dt == data, "the proof carries the signed batch", "{}", hex::encode(&dt));
            weights.sort();
            chk!(P, mem == weights && qu == quorum as u128, "the proof names every signer with its weight in ascending order, and the quorum", "{:?} not {:?}", mem, weights);
            have.sort();
            let mut left = have.iter();
            let mut sum = 0;
            for s in &sigs {
                match left.find(|x| x.2 == *s) {
                    Some(x) => sum += x.1,
                    None => chk!(P, false, "every signature in the proof is one of the signers', in the order of the signers", "{}", hex::encode(s)),
                }
            }
            chk!(P, sum >= quorum.min(total), "the signatures in the proof reach the quorum whenever those given do", "{} of {} given, quorum {}", sum, total, quorum);
        }
    }
    Ok(())
}

fn main() {
    main_loop(&[("multisig-prover history", history)]);
}
