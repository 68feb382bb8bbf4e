//! Functions whose compiled behaviour is compared with what mirv derives from their MIR (dev/selftest.py).
use cosmwasm_std::{Uint128, Uint256};
use itertools::Itertools;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type V = Vec<u64>;

macro_rules! tests {
    ($($(#[$m:meta])* fn $name:ident($a:ident, $b:ident, $k:ident) $body:block)*) => {
        $(#[allow(unused_variables, unused_mut)] pub fn $name(mut $a: V, mut $b: V, mut $k: u64) -> V $body)*
        pub fn table() -> Vec<(&'static str, fn(V, V, u64) -> V)> {
            vec![$((stringify!($name), $name as fn(V, V, u64) -> V)),*]
        }
    };
}

fn opt(x: Option<u64>) -> V {
    match x {
        Some(x) => vec![1, x],
        None => vec![0],
    }
}

fn flag(b: bool) -> V {
    vec![if b { 1 } else { 0 }]
}

fn map(a: &V, b: &V) -> BTreeMap<u64, u64> {
    let mut m = BTreeMap::new();
    for i in 0..a.len() {
        m.insert(a[i], if i < b.len() { b[i] } else { 0 });
    }
    m
}

fn set(a: V) -> BTreeSet<u64> {
    a.into_iter().collect()
}

fn flat(m: BTreeMap<u64, u64>) -> V {
    let mut out = vec![];
    for (k, v) in m {
        out.push(k);
        out.push(v);
    }
    out
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Shape {
    Dot,
    Line(u64),
    Box { w: u64, h: u64 },
}

fn shape(k: u64) -> Shape {
    match k % 3 {
        0 => Shape::Dot,
        1 => Shape::Line(k / 3),
        _ => Shape::Box { w: k / 3, h: k % 7 },
    }
}

fn checked(a: u64, b: u64) -> Result<u64, u64> {
    a.checked_sub(b).ok_or(b)
}

fn chain(a: &V, k: u64) -> Result<u64, u64> {
    let mut x = k;
    for y in a {
        x = checked(x, *y)?;
    }
    Ok(x)
}

tests! {
    fn t_map(a, b, k) { a.iter().map(|x| x / 2 + k % 5).collect() }
    fn t_filter(a, b, k) { a.into_iter().filter(|x| *x > k).collect() }
    fn t_filter_map(a, b, k) { a.iter().filter_map(|x| x.checked_sub(k)).collect() }
    fn t_enumerate(a, b, k) { a.iter().enumerate().map(|(i, x)| if i as u64 == k { 0 } else { *x }).collect() }
    fn t_zip(a, b, k) { a.iter().zip(b.iter()).map(|(x, y)| x.max(y) - x.min(y)).collect() }
    fn t_chain(a, b, k) { a.into_iter().chain(b).collect() }
    fn t_rev(a, b, k) { a.into_iter().rev().collect() }
    fn t_take(a, b, k) { a.into_iter().take((k % 4) as usize).collect() }
    fn t_skip(a, b, k) { a.into_iter().skip((k % 4) as usize).collect() }
    fn t_take_while(a, b, k) { a.into_iter().take_while(|x| *x < k).collect() }
    fn t_skip_while(a, b, k) { a.into_iter().skip_while(|x| *x < k).collect() }
    fn t_any(a, b, k) { flag(a.iter().any(|x| *x == k)) }
    fn t_all(a, b, k) { flag(a.iter().all(|x| *x <= k)) }
    fn t_find(a, b, k) { opt(a.iter().find(|x| **x > k).copied()) }
    fn t_position(a, b, k) { opt(a.iter().position(|x| *x == k).map(|i| i as u64)) }
    fn t_find_map(a, b, k) { opt(a.iter().find_map(|x| x.checked_sub(k))) }
    fn t_count(a, b, k) { vec![a.iter().filter(|x| **x > k).count() as u64] }
    fn t_sum(a, b, k) { vec![a.iter().sum::<u64>()] }
    fn t_fold(a, b, k) { vec![a.iter().fold(k, |s, x| s + x)] }
    fn t_fold_push(a, b, k) { a.into_iter().fold(vec![], |mut v, x| { if x != k { v.push(x); } v }) }
    fn t_try_fold(a, b, k) { opt(a.iter().try_fold(k, |s, x| s.checked_sub(*x))) }
    fn t_max(a, b, k) { opt(a.into_iter().max()) }
    fn t_min(a, b, k) { opt(a.iter().min().copied()) }
    fn t_max_by_key(a, b, k) { opt(a.into_iter().max_by_key(|x| x % 3)) }
    fn t_min_by_key(a, b, k) { opt(a.into_iter().min_by_key(|x| x % 3)) }
    fn t_last(a, b, k) { opt(a.last().copied()) }
    fn t_first(a, b, k) { opt(a.first().copied()) }
    fn t_get(a, b, k) { opt(a.get(k as usize).copied()) }
    fn t_index(a, b, k) { vec![a[k as usize]] }
    fn t_contains(a, b, k) { flag(a.contains(&k)) }
    fn t_push(a, b, k) { a.push(k); a.push(k / 2); a }
    fn t_pop(a, b, k) { let x = a.pop(); a.extend(opt(x)); a }
    fn t_insert(a, b, k) { a.insert(k as usize, 7); a }
    fn t_remove(a, b, k) { let x = a.remove(k as usize); a.push(x); a }
    fn t_swap_remove(a, b, k) { let x = a.swap_remove(k as usize); a.push(x); a }
    fn t_truncate(a, b, k) { a.truncate(k as usize); a }
    fn t_clear(a, b, k) { a.clear(); a.push(k); a }
    fn t_split_off(a, b, k) { let c = a.split_off(k as usize); a.push(99); a.extend(c); a }
    fn t_drain(a, b, k) { let c: V = a.drain(..).collect(); a.push(c.len() as u64); a.extend(c); a }
    fn t_retain(a, b, k) { a.retain(|x| *x != k); a }
    fn t_dedup(a, b, k) { a.dedup(); a }
    fn t_it_dedup(a, b, k) { a.into_iter().dedup().collect() }
    fn t_unique(a, b, k) { a.into_iter().unique().collect() }
    fn t_all_equal(a, b, k) { flag(a.iter().all_equal()) }
    fn t_extend(a, b, k) { a.extend(b); a }
    fn t_append(a, b, k) { a.append(&mut b); a.extend(b); a }
    fn t_sort(a, b, k) { a.sort(); a }
    fn t_sort_by(a, b, k) { a.sort_by(|x, y| y.cmp(x)); a }
    fn t_sort_by_key(a, b, k) { a.sort_by_key(|x| x % 2); a }
    fn t_sorted(a, b, k) { a.into_iter().sorted().collect() }
    fn t_eq(a, b, k) { flag(a == b) }
    fn t_it_eq(a, b, k) { flag(a.iter().eq(b.iter())) }
    fn t_it_ne(a, b, k) { flag(a.iter().ne(b.iter())) }
    fn t_is_empty(a, b, k) { flag(a.is_empty() || b.len() > k as usize) }
    fn t_iter_mut(a, b, k) { a.iter_mut().for_each(|x| *x = *x / 2 + k % 3); a }
    fn t_for_mut(a, b, k) { for x in a.iter_mut() { if *x > k { *x = k; } } a }
    fn t_loop_break(a, b, k) { for x in &a { if *x > k { return vec![*x]; } } b }
    fn t_loop_sum(a, b, k) { let mut s = 0; for x in &a { if *x > k { s += x; } } vec![s] }
    fn t_loop_count(a, b, k) { let mut s = 0u64; for x in &a { if *x == k { s += 1; } } vec![s] }
    fn t_flatten(a, b, k) { a.iter().map(|x| x.checked_sub(k)).flatten().collect() }
    fn t_flat_map(a, b, k) { a.iter().flat_map(|x| b.iter().map(move |y| x / 2 + y / 2)).collect() }
    fn t_collect_result(a, b, k) { match a.iter().map(|x| checked(*x, k)).collect::<Result<Vec<_>, _>>() { Ok(v) => v, Err(e) => vec![e, 1, 1] } }
    fn t_collect_option(a, b, k) { a.iter().map(|x| x.checked_sub(k)).collect::<Option<Vec<_>>>().unwrap_or(vec![5]) }
    fn t_partition(a, b, k) { let (c, d): (V, V) = a.into_iter().partition(|x| *x > k); c.into_iter().chain(vec![77]).chain(d).collect() }
    fn t_unzip(a, b, k) { let (c, d): (V, V) = a.into_iter().map(|x| (x, x / 2)).unzip(); c.into_iter().chain(d).collect() }
    fn t_group_by(a, b, k) { a.iter().group_by(|x| **x / 2).into_iter().map(|(x, g)| x * 100 % 1000 + g.count() as u64).collect() }
    fn t_map_insert(a, b, k) { flat(map(&a, &b)) }
    fn t_map_get(a, b, k) { opt(map(&a, &b).get(&k).copied()) }
    fn t_map_remove(a, b, k) { let mut m = map(&a, &b); let x = m.remove(&k); let mut v = flat(m); v.extend(opt(x)); v }
    fn t_map_entry(a, b, k) { let mut m = map(&a, &b); *m.entry(k).or_insert(3) += 1; flat(m) }
    fn t_map_modify(a, b, k) { let mut m = map(&a, &b); m.entry(k).and_modify(|x| *x /= 2).or_insert(9); flat(m) }
    fn t_map_default(a, b, k) { let mut m: BTreeMap<u64, u64> = BTreeMap::new(); for x in a { *m.entry(x).or_default() += 1; } flat(m) }
    fn t_map_keys(a, b, k) { map(&a, &b).keys().copied().collect() }
    fn t_map_values(a, b, k) { map(&a, &b).values().copied().collect() }
    fn t_map_len(a, b, k) { vec![map(&a, &b).len() as u64] }
    fn t_map_has(a, b, k) { flag(map(&a, &b).contains_key(&k)) }
    fn t_map_retain(a, b, k) { let mut m = map(&a, &b); m.retain(|x, y| *x > k || *y > k); flat(m) }
    fn t_map_extend(a, b, k) { let mut m = map(&a, &b); m.extend(b.iter().map(|x| (*x, k))); flat(m) }
    fn t_map_eq(a, b, k) { flag(map(&a, &b) == map(&b, &a)) }
    fn t_map_collect(a, b, k) { flat(a.into_iter().zip(b).collect::<BTreeMap<_, _>>()) }
    fn t_hash_get(a, b, k) { let m: HashMap<u64, u64> = a.into_iter().zip(b).collect(); opt(m.get(&k).copied()) }
    fn t_set(a, b, k) { set(a).into_iter().collect() }
    fn t_set_insert(a, b, k) { let mut s = set(a); let n = s.insert(k); let mut v: V = s.into_iter().collect(); v.extend(flag(n)); v }
    fn t_set_remove(a, b, k) { let mut s = set(a); let n = s.remove(&k); let mut v: V = s.into_iter().collect(); v.extend(flag(n)); v }
    fn t_set_subset(a, b, k) { flag(set(a).is_subset(&set(b))) }
    fn t_set_disjoint(a, b, k) { flag(set(a).is_disjoint(&set(b))) }
    fn t_set_difference(a, b, k) { let (c, d) = (set(a), set(b)); c.difference(&d).copied().collect() }
    fn t_set_sym(a, b, k) { let (c, d) = (set(a), set(b)); c.symmetric_difference(&d).copied().collect() }
    fn t_hashset(a, b, k) { let s: HashSet<u64> = a.into_iter().collect(); vec![s.len() as u64, s.contains(&k) as u64] }
    fn t_add(a, b, k) { vec![a[0] + k] }
    fn t_sub(a, b, k) { vec![a[0] - k] }
    fn t_mul(a, b, k) { vec![a[0] * k] }
    fn t_div(a, b, k) { vec![a[0] / k, a[0] % k] }
    fn t_checked(a, b, k) { let x = a[0]; vec![x.checked_add(k).unwrap_or(1), x.checked_mul(k).unwrap_or(2), x.checked_div(k).unwrap_or(3), x.checked_rem(k).unwrap_or(4)] }
    fn t_saturating(a, b, k) { let x = a[0]; vec![x.saturating_add(k), x.saturating_sub(k)] }
    fn t_wrapping(a, b, k) { let x = a[0]; vec![x.wrapping_add(k), x.wrapping_sub(k)] }
    fn t_min_max(a, b, k) { vec![a[0].min(k), a[0].max(k), a[0].abs_diff(k)] }
    fn t_cast(a, b, k) { vec![(k as u32) as u64, (k as u8) as u64, u16::try_from(k).map_or(1, |x| x as u64)] }
    fn t_cmp(a, b, k) { vec![a[0].cmp(&k) as i8 as u8 as u64, (a[0] < k) as u64, (a[0] >= k) as u64] }
    fn t_uint128(a, b, k) { let (x, y) = (Uint128::from(a[0]), Uint128::from(k)); vec![(x + y).u128() as u64, x.checked_sub(y).map_or(1, |z| z.u128() as u64), (x.multiply_ratio(3u128, 7u128)).u128() as u64] }
    fn t_uint256(a, b, k) { let (x, y) = (Uint256::from(a[0]), Uint256::from(k)); flag(x * y > Uint256::from(1000u64)) }
    fn t_ceil(a, b, k) { let x = Uint128::from(a[0]); vec![x.checked_mul_ceil((2u64, 3u64)).map_or(1, |z| z.u128() as u64)] }
    fn t_opt(a, b, k) { let x = a.first().copied(); opt(x.map(|x| x / 2).filter(|x| *x > k).or(b.first().copied()).and_then(|x| x.checked_sub(1))) }
    fn t_opt_or(a, b, k) { vec![a.first().copied().unwrap_or(k), a.get(1).map_or(k, |x| x / 2), a.get(2).copied().unwrap_or_default(), a.get(3).map_or_else(|| 8, |x| *x)] }
    fn t_opt_take(a, b, k) { let mut x = a.first().copied(); let y = x.take(); let z = x.replace(k); vec![y.is_some() as u64, z.is_none() as u64, x.unwrap()] }
    fn t_opt_zip(a, b, k) { opt(a.first().zip(b.first()).map(|(x, y)| x / 2 + y / 2)) }
    fn t_opt_insert(a, b, k) { let mut x = a.first().copied(); *x.get_or_insert(k) /= 2; opt(x.xor(None)) }
    fn t_unwrap(a, b, k) { vec![a.first().copied().unwrap()] }
    fn t_result(a, b, k) { match checked(k, 3).and_then(|x| checked(x, 2)).or_else(|e| if e == 2 { Ok(50) } else { Err(e) }) { Ok(x) => vec![1, x], Err(e) => vec![0, e] } }
    fn t_question(a, b, k) { match chain(&a, k) { Ok(x) => vec![1, x], Err(e) => vec![0, e] } }
    fn t_shape(a, b, k) { match shape(k) { Shape::Dot => vec![], Shape::Line(n) if n > 2 => vec![n], Shape::Line(_) => vec![1, 1], Shape::Box { w, h } => vec![w, h, w] } }
    fn t_shape_cmp(a, b, k) { let (x, y) = (shape(k), shape(a.len() as u64)); vec![(x == y) as u64, (x < y) as u64, (x != y) as u64] }
    fn t_opt_xor(a, b, k) { opt(a.first().copied().xor(b.first().copied())) }
    fn t_ceil_err(a, b, k) { opt(Uint128::new(u128::MAX - k as u128).checked_mul_ceil((a.len() as u64 + 1, b.len() as u64)).ok().map(|x| (x.u128() % 97) as u64)) }
    fn t_set_inter(a, b, k) { set(a).intersection(&set(b)).copied().collect() }
    fn t_set_union(a, b, k) { vec![set(a).union(&set(b)).count() as u64] }
    fn t_flat_opt(a, b, k) { a.into_iter().flat_map(|x| x.checked_sub(k)).collect() }
    fn t_swap(a, b, k) { std::mem::swap(&mut a, &mut b); let c = std::mem::take(&mut b); a.push(c.len() as u64); a.extend(b); a }
    fn t_closure(a, b, k) { let mut n = 0; let mut f = |x: u64| { n += x % 4; n }; let x = f(k); let y = f(k / 2); vec![x, y, n] }
    fn t_while(a, b, k) { let mut i = 0usize; while i < a.len() && a[i] < k { i += 1; } vec![i as u64] }
    fn t_nested(a, b, k) { flag(a.iter().all(|x| b.iter().any(|y| x == y))) }
    fn t_windows(a, b, k) { flag(a.iter().zip(a.iter().skip(1)).all(|(x, y)| x <= y)) }
    fn t_slice(a, b, k) { a[1..].to_vec() }
    fn t_concat(a, b, k) { [a.clone(), b].concat() }
    fn t_array(a, b, k) { let x = [k, k / 2, 3]; let mut v = x.to_vec(); v.push(x.len() as u64); v }
    fn t_matches(a, b, k) { flag(matches!(a.as_slice(), [x] if *x > k)) }
    fn t_if_let(a, b, k) { if let [x, y] = a.as_slice() { vec![*x, *y] } else { vec![9] } }
    fn t_tuple(a, b, k) { let t = (k, (a.len() as u64, k > 3)); let (x, (y, z)) = t; vec![x, y, z as u64] }
    fn t_last_wins(a, b, k) { let mut m = BTreeMap::new(); for x in &a { m.insert(k, *x); } opt(m.get(&k).copied()) }
    fn t_then(a, b, k) { opt((k > 2).then(|| k / 2).or_else(|| (k == 0).then_some(4))) }
    fn t_sum_map(a, b, k) { vec![map(&a, &b).values().sum::<u64>()] }
    fn t_cloned(a, b, k) { let c = a.clone(); a.clear(); c.iter().cloned().inspect(|_| ()).collect() }
    fn t_product(a, b, k) { vec![(k % 7) * (a.len() as u64)] }
    fn t_inner(a, b, k) { let mut out = vec![]; for x in &a { if b.contains(x) { continue; } out.push(*x); } out }
    fn t_sub_set(a, b, k) { let s: HashSet<u64> = b.into_iter().collect(); a.into_iter().filter(|x| !s.contains(x)).collect() }
}
