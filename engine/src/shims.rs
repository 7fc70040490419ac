//! Exercises the assumed contracts of the containers (verus/prelude.rs) against the real crates: each operation of a random
//! sequence must answer as the contract says on the abstract set or map. This does not prove the assumptions.
use crate::run::Rng;
use std::collections::{BTreeMap, BTreeSet};

/// what the contract of an iterator says: each element of the view once, exact size hints at every position
fn listed<T: Ord + Clone>(mut it: impl Iterator<Item = T>, want: &BTreeSet<T>, exact: bool) -> bool {
  let mut left = want.clone();
  loop {
    let (lo, hi) = it.size_hint();
    if exact && (lo != left.len() || hi != Some(lo)) {
      return false;
    }
    match it.next() {
      None => return left.is_empty() && it.next().is_none(),
      Some(x) => {
        if !left.remove(&x) {
          return false;
        }
      },
    }
  }
}

macro_rules! set_test {
  ($n:ident, $t:ty, $rem:ident) => {
    fn $n(r: &mut Rng) -> Option<String> {
      let mut s = <$t>::default();
      let mut m: BTreeSet<usize> = BTreeSet::new();
      if !<$t>::new().is_empty() {
        return Some("new is not empty".into());
      }
      for _ in 0..r.below(60) {
        let k = r.below(12);
        let ok = match r.below(7) {
          0 | 1 => s.insert(k) == m.insert(k),
          2 => s.$rem(&k) == m.remove(&k),
          3 => s.contains(&k) == m.contains(&k),
          4 => s.len() == m.len() && s.is_empty() == m.is_empty(),
          5 => {
            let c = s.clone();
            let same = c == s;
            s.insert(k);
            let d = m.contains(&k);
            m.insert(k);
            same && (c == s) == d
          },
          _ => listed(s.iter().copied(), &m, true) && listed((&s).into_iter().copied(), &m, true) && listed(s.clone().into_iter(), &m, true),
        };
        if !ok {
          return Some(format!("key {k}, view {m:?}"));
        }
      }
      None
    }
  };
}
set_test!(order_set, ordermap::OrderSet<usize>, swap_remove);
set_test!(order_set_remove, ordermap::OrderSet<usize>, remove);
set_test!(index_set, indexmap::IndexSet<usize>, swap_remove);
set_test!(hash_set, std::collections::HashSet<usize>, remove);
set_test!(btree_set, BTreeSet<usize>, remove);

fn order_map(r: &mut Rng) -> Option<String> {
  let mut s: ordermap::OrderMap<usize, u64> = ordermap::OrderMap::new();
  let mut m: BTreeMap<usize, u64> = BTreeMap::new();
  for _ in 0..r.below(60) {
    let k = r.below(12);
    let v = r.next();
    let ok = match r.below(10) {
      0 | 1 => s.insert(k, v) == m.insert(k, v),
      2 => s.swap_remove(&k) == m.remove(&k),
      3 => s.remove(&k) == m.remove(&k),
      4 => s.get(&k) == m.get(&k) && s.contains_key(&k) == m.contains_key(&k) && s.len() == m.len() && s.is_empty() == m.is_empty(),
      5 => {
        if let Some(x) = s.get_mut(&k) {
          *x = v;
        }
        if let Some(x) = m.get_mut(&k) {
          *x = v;
        }
        m.get(&k).map_or(true, |x| s[&k] == *x)
      },
      6 => {
        let mut o: ordermap::OrderMap<usize, u64> = (0..r.below(4)).map(|_| (r.below(12), r.next())).collect();
        m.extend(o.iter().map(|(a, b)| (*a, *b)));
        s.append(&mut o);
        o.is_empty()
      },
      7 => {
        let a = *s.entry(k).or_insert(v);
        a == *m.entry(k).or_insert(v)
      },
      8 => {
        *s.entry(k).or_default() = v;
        *m.entry(k).or_default() = v;
        true
      },
      _ => true,
    };
    let pairs: BTreeSet<(usize, u64)> = m.iter().map(|(a, b)| (*a, *b)).collect();
    let keys: BTreeSet<usize> = m.keys().copied().collect();
    if !ok || !listed(s.iter().map(|(a, b)| (*a, *b)), &pairs, true) || !listed(s.keys().copied(), &keys, true) || !listed(s.clone().into_iter(), &pairs, true) || !listed((&s).into_iter().map(|(a, b)| (*a, *b)), &pairs, true) {
      return Some(format!("key {k}, view {m:?}"));
    }
  }
  None
}

fn btree_map(r: &mut Rng) -> Option<String> {
  let mut s: BTreeMap<String, u64> = BTreeMap::new();
  let mut m: Vec<(String, u64)> = vec![];
  for _ in 0..r.below(40) {
    let k = format!("k{}", r.below(9));
    let v = r.next();
    let old = m.iter().position(|x| x.0 == k).map(|i| m.remove(i).1);
    if r.chance(60) {
      if s.insert(k.clone(), v) != old {
        return Some(format!("insert {k}"));
      }
      m.push((k, v));
    } else if s.remove(k.as_str()) != old {
      return Some(format!("remove {k}"));
    }
    if !listed(s.iter().map(|(a, b)| (a.clone(), *b)), &m.iter().cloned().collect(), true) {
      return Some(format!("view {m:?}"));
    }
  }
  None
}

fn sequences(r: &mut Rng) -> Option<String> {
  let a: Vec<usize> = (0..r.below(8)).map(|_| r.below(5)).collect();
  let b: Vec<usize> = (0..r.below(8)).map(|_| r.below(5)).collect();
  let n = r.below(10);
  let ok = a.iter().chain(b.iter()).copied().collect::<Vec<_>>() == [&a[..], &b[..]].concat()
    && a.iter().take(n).copied().collect::<Vec<_>>() == a[..n.min(a.len())]
    && a.iter().skip(n).copied().collect::<Vec<_>>() == a[n.min(a.len())..]
    && (0..a.len()).all(|i| a.iter().rev().nth(i) == Some(&a[a.len() - 1 - i]))
    && a.iter().copied().max().map_or(a.is_empty(), |x| a.contains(&x) && a.iter().all(|y| *y <= x))
    && a.iter().enumerate().all(|(i, x)| a[i] == *x)
    && Vec::from_iter(a.iter().copied()) == a
    && Some(&n as &dyn std::any::Any).and_then(|x| x.downcast_ref::<usize>()) == Some(&n)
    && (&n as &dyn std::any::Any).downcast_ref::<u64>().is_none();
  if ok { None } else { Some(format!("{a:?} {b:?} {n}")) }
}

pub fn run(seed: u64) -> serde_json::Value {
  let all: [(&str, fn(&mut Rng) -> Option<String>); 8] = [
    ("OrderSet (swap_remove)", order_set),
    ("OrderSet (remove)", order_set_remove),
    ("IndexSet", index_set),
    ("HashSet", hash_set),
    ("BTreeSet", btree_set),
    ("OrderMap", order_map),
    ("BTreeMap", btree_map),
    ("Vec, slices, iterator adaptors, downcast", sequences),
  ];
  let mut bad = vec![];
  for (n, f) in all {
    let mut r = Rng(seed);
    for _ in 0..1500 {
      if let Some(e) = f(&mut r) {
        bad.push(format!("{n}: {e}"));
        break;
      }
    }
  }
  serde_json::json!({"sequences": 1500 * all.len(), "types": all.iter().map(|x| x.0).collect::<Vec<_>>(), "mismatches": bad})
}
