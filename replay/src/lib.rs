//! Executable contracts: random histories against the real contracts, checked against the clauses of a property.
//! Bounded by time; deterministic in (seed, case).  Depends on none of the crates under check.
use cosmwasm_std::testing::{mock_env, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::{Addr, Coin, Empty, Env, MessageInfo, Order, OwnedDeps, Storage};
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, case: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234_5678_9abc_def1);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n, and now and then much more
    pub fn size(&mut self, n: u64) -> u64 {
        if self.chance(2) {
            self.range(n, 70)
        } else {
            self.below(n)
        }
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.us(i + 1);
            xs.swap(i, j);
        }
    }
    /// small, boundary or arbitrary
    pub fn edge(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => u64::MAX - self.below(3),
            4 => self.below(10),
            5 => 1u64 << self.below(64),
            6 => (1u64 << self.below(64)).wrapping_sub(1),
            _ => self.next(),
        }
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub clause: String,
    pub detail: String,
    /// a finding listed in /verif/known_findings.json
    pub known: Option<String>,
}

pub fn fail<T>(clause: &str, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { clause: clause.into(), detail: detail.into(), known: None })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $clause:expr $(,)?) => { if !($c) { return $crate::fail($clause, stringify!($c)); } };
    ($c:expr, $clause:expr, $($arg:tt)+) => { if !($c) { return $crate::fail($clause, format!($($arg)+)); } };
}

/// what happened to a transaction
pub enum Tx<T> {
    Ok(T),
    Err(String),
    Panic,
}

impl<T> Tx<T> {
    pub fn is_ok(&self) -> bool {
        matches!(self, Tx::Ok(_))
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Tx::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn get(&self) -> Option<&T> {
        match self {
            Tx::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn what(&self) -> String {
        match self {
            Tx::Ok(_) => "accepted".into(),
            Tx::Err(e) => format!("refused ({})", e),
            Tx::Panic => "panicked".into(),
        }
    }
}

pub type Deps = OwnedDeps<MockStorage, MockApi, MockQuerier<Empty>, Empty>;

/// one contract's state
pub struct Chain {
    pub deps: Deps,
    pub env: Env,
}

impl Default for Chain {
    fn default() -> Self {
        Self::new()
    }
}

pub fn dump(s: &dyn Storage) -> Vec<(Vec<u8>, Vec<u8>)> {
    s.range(None, None, Order::Ascending).collect()
}

impl Chain {
    pub fn new() -> Self {
        Chain { deps: cosmwasm_std::testing::mock_dependencies(), env: mock_env() }
    }
    pub fn state(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        dump(&self.deps.storage)
    }
    pub fn restore(&mut self, s: &[(Vec<u8>, Vec<u8>)]) {
        let mut n = MockStorage::new();
        for (k, v) in s {
            n.set(k, v);
        }
        self.deps.storage = n;
    }
    /// a message: an error or a panic undoes its storage changes, as on chain
    pub fn tx<T, E: ToString>(&mut self, f: impl FnOnce(&mut Deps, Env) -> Result<T, E>) -> Tx<T> {
        let before = self.state();
        let env = self.env.clone();
        let r = quiet(|| f(&mut self.deps, env));
        match r {
            Some(Ok(t)) => Tx::Ok(t),
            Some(Err(e)) => {
                self.restore(&before);
                Tx::Err(e.to_string())
            }
            None => {
                self.restore(&before);
                Tx::Panic
            }
        }
    }
    pub fn height(&self) -> u64 {
        self.env.block.height
    }
}

/// runs f, None if it panics
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r
}

thread_local! { static QUIET: RefCell<u32> = RefCell::new(0); }

pub fn info(sender: &str, funds: &[Coin]) -> MessageInfo {
    MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() }
}

/// the history of a case, and what it exercised
#[derive(Default)]
pub struct Trace {
    pub lines: Vec<String>,
    /// what makes the case distinct
    pub key: String,
    pub nontrivial: bool,
    pub known: Vec<Fail>,
}

impl Trace {
    pub fn log(&mut self, s: impl Into<String>) {
        if self.lines.len() < 400 {
            self.lines.push(s.into());
        }
    }
    /// an interesting event: the case counts as non-trivial, and differs from cases with other events
    pub fn hit(&mut self, s: &str) {
        self.nontrivial = true;
        self.key.push_str(s);
        self.key.push(';');
    }
    pub fn known(&mut self, id: &str, detail: impl Into<String>) {
        self.known.push(Fail { clause: id.into(), detail: detail.into(), known: Some(id.into()) });
    }
}

pub type Scenario = fn(&mut Rng, &mut Trace) -> Result<(), Fail>;

fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// runs scenarios for the given time; prints one JSON line
pub fn main_loop(scenarios: &[(&str, Scenario)]) {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|v| v.parse::<u64>().ok());
    let seed = get("--seed").unwrap_or(1);
    let millis = get("--millis").unwrap_or(5000);
    let max = get("--max").unwrap_or(u64::MAX);
    let threads = get("--threads").unwrap_or(4);
    std::panic::set_hook(Box::new(|i| {
        if QUIET.with(|q| *q.borrow()) == 0 {
            eprintln!("harness panic: {}", i);
        }
    }));
    if let Some(k) = get("--case") {
        let (name, f) = scenarios[(k % scenarios.len() as u64) as usize];
        let mut t = Trace::default();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut Rng::new(seed, k), &mut t)));
        println!("scenario {}", name);
        for l in &t.lines {
            println!("{}", l);
        }
        match r {
            Ok(Ok(())) => println!("RESULT: holds"),
            Ok(Err(e)) => {
                println!("RESULT: {} -- {}", e.clause, e.detail);
                std::process::exit(1);
            }
            Err(_) => println!("RESULT: harness panic"),
        }
        for k in &t.known {
            println!("KNOWN {} {}", k.clause, k.detail);
        }
        return;
    }
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let evals = AtomicU64::new(0);
    let panics = AtomicU64::new(0);
    let distinct: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let failure: Mutex<Option<(u64, &str, Fail, Vec<String>)>> = Mutex::new(None);
    let known: Mutex<Vec<(u64, Fail)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= max || stop.load(Ordering::SeqCst) || start.elapsed() > Duration::from_millis(millis) {
                    break;
                }
                let (name, f) = scenarios[(k % scenarios.len() as u64) as usize];
                let mut t = Trace::default();
                let r = catch_unwind(AssertUnwindSafe(|| f(&mut Rng::new(seed, k), &mut t)));
                evals.fetch_add(1, Ordering::SeqCst);
                if t.nontrivial {
                    let mut d = distinct.lock().unwrap();
                    let new = d.len() < 200000 && d.insert(format!("{}|{}", name, t.key));
                    if new && d.len() <= 3 {
                        samples.lock().unwrap().push(format!("{}: {}", name, t.lines.iter().take(12).cloned().collect::<Vec<_>>().join(" / ")));
                    }
                }
                for e in t.known {
                    let mut g = known.lock().unwrap();
                    if !g.iter().any(|(_, x)| x.clause == e.clause) {
                        g.push((k, e));
                    }
                }
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => {
                        let mut g = failure.lock().unwrap();
                        if g.as_ref().map(|x| x.0 > k).unwrap_or(true) {
                            *g = Some((k, name, e, t.lines));
                        }
                        stop.store(true, Ordering::SeqCst);
                        break;
                    }
                    Err(_) => {
                        panics.fetch_add(1, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    let f = failure.into_inner().unwrap();
    let fj = match &f {
        None => "null".to_string(),
        Some((k, n, e, lines)) => format!(
            "{{\"case\":{},\"scenario\":{},\"clause\":{},\"detail\":{},\"history\":[{}]}}",
            k,
            esc(n),
            esc(&e.clause),
            esc(&e.detail),
            lines.iter().map(|l| esc(l)).collect::<Vec<_>>().join(",")
        ),
    };
    let kj = known.into_inner().unwrap().iter().map(|(k, e)| format!("{{\"case\":{},\"id\":{},\"detail\":{}}}", k, esc(&e.clause), esc(&e.detail))).collect::<Vec<_>>().join(",");
    println!(
        "{{\"evaluations\":{},\"distinct\":{},\"harness_panics\":{},\"samples\":[{}],\"known\":[{}],\"failure\":{}}}",
        evals.load(Ordering::SeqCst),
        distinct.lock().unwrap().len(),
        panics.load(Ordering::SeqCst),
        samples.lock().unwrap().iter().map(|l| esc(l)).collect::<Vec<_>>().join(","),
        kj,
        fj
    );
}

/// the property under check: the first argument
pub fn pid() -> String {
    std::env::args().nth(1).unwrap_or_default()
}

thread_local! { static PID: String = pid(); }

pub fn selected(tags: &str) -> bool {
    PID.with(|p| p.is_empty() || tags.split(' ').any(|t| t == p))
}

/// a clause of the properties named in the first argument; when it fails for another property the case ends quietly
#[macro_export]
macro_rules! chk {
    ($tags:expr, $c:expr, $clause:expr $(,)?) => { if !($c) { if $crate::selected($tags) { return $crate::fail($clause, stringify!($c)); } else { return Ok(()); } } };
    ($tags:expr, $c:expr, $clause:expr, $($arg:tt)+) => { if !($c) { if $crate::selected($tags) { return $crate::fail($clause, format!($($arg)+)); } else { return Ok(()); } } };
}

/// like chk!, in functions that return nothing of use
pub fn json<T: serde::Serialize>(t: &T) -> serde_json::Value {
    serde_json::to_value(t).unwrap_or(serde_json::Value::Null)
}

/// a sent message as JSON, with the payloads of wasm messages decoded
pub fn msgs(r: &cosmwasm_std::Response) -> Vec<serde_json::Value> {
    r.messages.iter().map(|m| decode(&m.msg)).collect()
}

pub fn decode(m: &cosmwasm_std::CosmosMsg) -> serde_json::Value {
    match m {
        cosmwasm_std::CosmosMsg::Wasm(cosmwasm_std::WasmMsg::Execute { contract_addr, msg, funds }) => serde_json::json!({
            "to": contract_addr, "msg": serde_json::from_slice::<serde_json::Value>(msg.as_slice()).unwrap_or(serde_json::Value::Null),
            "funds": json(funds) }),
        m => json(m),
    }
}
