use std::panic::catch_unwind;

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let seed: u64 = std::env::args().nth(1).map_or(1, |x| x.parse().unwrap());
    let n: u64 = std::env::args().nth(2).map_or(10, |x| x.parse().unwrap());
    let mut s = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let mut next = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    for (name, f) in selftest::table() {
        for _ in 0..n {
            let mut num = |small: bool| match next() % 12 {
                0 if !small => u64::MAX - next() % 3,
                1 if !small => next(),
                _ => next() % 6,
            };
            let small = num(true) > 0;
            let mut list = || -> Vec<u64> { (0..num(true) % 5).map(|_| num(small)).collect() };
            let (a, b) = (list(), list());
            let k = num(small);
            let (a2, b2) = (a.clone(), b.clone());
            let r = catch_unwind(move || f(a2, b2, k));
            println!("{} {:?} {:?} {} {}", name, a, b, k, r.map_or("panic".to_string(), |v| format!("{:?}", v)));
        }
    }
}
