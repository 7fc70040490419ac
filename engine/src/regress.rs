//! Directed scenarios: entry points the random histories do not use, and the histories of defects that were repaired.
use crate::run::{fail, quiet, R};
use std::collections::*;
use ttgraph::*;

#[derive(TypedNode, Debug, Clone, PartialEq)]
struct A {
  d: NodeIndex,
  s: BTreeSet<NodeIndex>,
  v: Vec<NodeIndex>,
  n: usize,
}
#[derive(TypedNode, Debug, Clone, PartialEq)]
struct B {
  x: NodeIndex,
  n: usize,
}
#[derive(TypedNode, Debug, Clone, PartialEq)]
struct C {
  y: NodeIndex,
}
node_enum! {
  #[derive(Debug, Clone, PartialEq)]
  enum N { A(A), B(B), C(C) }
  link_type! { A.v: A, B.x: {B,C} }
}
mod f9 {
  use ttgraph::*;
  #[derive(TypedNode, Debug)]
  pub struct P {
    pub x: NodeIndex,
  }
  #[derive(TypedNode, Debug)]
  pub struct Q {
    pub y: NodeIndex,
  }
  #[derive(TypedNode, Debug)]
  #[allow(dead_code)]
  pub struct Rr {
    pub z: NodeIndex,
  }
  node_enum! { #[derive(Debug)] #[allow(dead_code)] pub enum M { P(P), Q(Q), R(Rr) } link_type!{ Q.y: R } bidirectional!{ P.x <-> Q.y, R.z <-> Q.y } }
}
mod f22 {
  use ttgraph::*;
  #[derive(TypedNode, Debug)]
  pub struct P {
    #[group(g, h)]
    pub x: NodeIndex,
  }
  #[derive(TypedNode, Debug)]
  pub struct Q {
    pub y: NodeIndex,
  }
  node_enum! { #[derive(Debug)] pub enum M { P(P), Q(Q) } bidirectional!{ P.g <-> Q.y, P.h <-> Q.y } }
}
fn a(n: usize) -> A {
  A { d: NodeIndex::empty(), s: BTreeSet::new(), v: vec![], n }
}
fn e() -> NodeIndex {
  NodeIndex::empty()
}
fn ck(c: bool, tags: &[&'static str], m: &str) -> R<()> {
  if c {
    Ok(())
  } else {
    fail(tags, m.to_string())
  }
}

pub fn tags(name: &str) -> Vec<&'static str> {
  match name {
    "macros" => vec!["C03", "C07"],
    "extend" => vec!["C03", "C08"],
    "node_index" => vec!["C06", "C12"],
    "redirect_empty" => vec!["C02", "C15"],
    "auto_type" => vec!["C05", "C04"],
    "overlap" => vec!["C13", "C04"],
    "vec_dup" => vec!["C05"],
    "default_ctx" => vec!["C11"],
    "switch" => vec!["C09"],
    "unknown_link" => vec!["C15", "C01"],
    "crowd" => vec!["C01", "C02", "C03", "C07", "C15"],
    "high" => vec!["C10", "C06", "C09"],
    _ => vec!["C03"],
  }
}

pub fn all() -> Vec<(&'static str, fn() -> R<()>)> {
  let mut v: Vec<(&'static str, fn() -> R<()>)> = vec![
    ("macros", macros),
    ("extend", extend),
    ("node_index", node_index),
    ("redirect_empty", redirect_empty),
    ("overlap", overlap),
    ("default_ctx", default_ctx),
    ("switch", switch),
    ("ids", ids),
    ("unknown_link", unknown_link),
    ("crowd", crowd),
    ("high", high),
  ];
  if cfg!(feature = "debug") {
    v.push(("auto_type", auto_type));
    v.push(("vec_dup", vec_dup));
  }
  v
}

fn macros() -> R<()> {
  let ctx = Context::new();
  let mut g = Graph::<N>::new(&ctx);
  let mut t = Transaction::new(&ctx);
  let i = alloc_node!(t, N::A);
  let j = t.insert(N::B(B { x: e(), n: 5 }));
  t.fill_back(i, N::A(A { d: j, ..a(1) }));
  g.commit(t);
  ck(get_node!(g, N::A, i).map(|x| x.n) == Some(1), &["C07"], "get_node! of the right variant")?;
  ck(get_node!(g, N::B, i).is_none() && get_node!(g, N::A, j).is_none(), &["C07"], "get_node! of a wrong variant")?;
  ck(iter_nodes!(g, N::A).map(|(k, x)| (k, x.n)).collect::<Vec<_>>() == vec![(i, 1)], &["C07"], "iter_nodes!")?;
  let mut t = Transaction::new(&ctx);
  let k = 7;
  mut_node!(t, N::A, i, |x| { x.n += 10 });
  mut_node!(t, N::A, i, move |x| { x.n += k });
  mut_node!(t, N::A, i, x, { x.n *= 2 });
  update_node!(t, N::B, j, |x| { B { n: x.n + 1, ..x } });
  update_node!(t, N::B, j, move |x| { B { n: x.n * k, ..x } });
  update_node!(t, N::B, j, x, { B { n: x.n + 2, ..x } });
  g.commit(t);
  ck(get_node!(g, N::A, i).map(|x| x.n) == Some(36), &["C03"], "mut_node!")?;
  ck(get_node!(g, N::B, j).map(|x| x.n) == Some(44), &["C03"], "update_node!")?;
  let mut t = Transaction::new(&ctx);
  mut_node!(t, N::B, i, |x| { x.n += 10 });
  ck(quiet(|| g.commit(t)).is_err(), &["C03"], "mut_node! of a wrong variant did not panic")
}

fn extend() -> R<()> {
  let ctx = Context::new();
  let mut g = Graph::<N>::new(&ctx);
  let mut t = Transaction::new(&ctx);
  t.extend((0..5).map(|i| N::A(a(i))));
  ck(!t.is_empty(), &["C08"], "a transaction with inserted nodes is empty")?;
  g.commit(t);
  let mut v: Vec<usize> = g.iter().map(|(_, n)| if let N::A(x) = n { x.n } else { 99 }).collect();
  v.sort();
  ck(v == vec![0, 1, 2, 3, 4], &["C03"], "extend inserts every node once")
}

fn node_index() -> R<()> {
  ck(NodeIndex::empty().is_empty() && NodeIndex::default().is_empty(), &["C06", "C12"], "empty index")?;
  for i in [1usize, 2, 3, 63, 64, 65, 255, 256, 1 << 20, usize::MAX] {
    ck(!NodeIndex(i).is_empty(), &["C06", "C12"], "a non-empty index is empty")?;
  }
  Ok(())
}

fn redirect_empty() -> R<()> {
  let ctx = Context::new();
  let mut g = Graph::<N>::new(&ctx);
  let mut t = Transaction::new(&ctx);
  let i = t.insert(N::A(a(1)));
  let j = t.insert(N::A(A { d: i, s: BTreeSet::from([i]), v: vec![i, i], ..a(2) }));
  let k = t.insert(N::A(a(3)));
  g.commit(t);
  let mut t = Transaction::new(&ctx);
  t.redirect_links(i, e());
  g.commit(t);
  let ok = |g: &Graph<N>| matches!(g.get(j), Some(N::A(x)) if x.d.is_empty() && x.s.is_empty() && x.v == vec![e(), e()]);
  ck(ok(&g), &["C02"], "links redirected to the empty index")?;
  let mut t = Transaction::new(&ctx);
  t.redirect_links(e(), k);
  if quiet(|| g.commit(t)).is_ok() {
    ck(ok(&g), &["C02", "C15"], "an empty link was redirected")?;
  }
  Ok(())
}

fn auto_type() -> R<()> {
  use f9::*;
  let ctx = Context::new();
  let mut g = Graph::<M>::new(&ctx);
  let mut t = Transaction::new(&ctx);
  let q = t.insert(M::Q(Q { y: e() }));
  t.insert(M::P(P { x: q }));
  ck(quiet(|| g.commit(t)).is_err(), &["C05"], "a completed bidirectional link of a forbidden type went through")
}

fn overlap() -> R<()> {
  use f22::*;
  let ctx = Context::new();
  let mut g = Graph::<M>::new(&ctx);
  let mut t = Transaction::new(&ctx);
  let q = t.insert(M::Q(Q { y: e() }));
  let p = t.insert(M::P(P { x: q }));
  g.commit(t);
  ck(matches!(g.get(q), Some(M::Q(x)) if x.y == p), &["C04", "C13"], "partner through overlapping groups")?;
  let mut t = Transaction::new(&ctx);
  t.mutate(q, |n| if let M::Q(q) = n { q.y = e() });
  g.commit(t);
  ck(matches!(g.get(p), Some(M::P(x)) if x.x.is_empty()), &["C04", "C13"], "partner through overlapping groups, removal")?;
  let mut t = Transaction::new(&ctx);
  t.mutate(q, move |n| if let M::Q(q) = n { q.y = p });
  g.commit(t);
  ck(matches!(g.get(p), Some(M::P(x)) if x.x == q), &["C04", "C13"], "partner through overlapping groups, addition")
}

fn vec_dup() -> R<()> {
  let ctx = Context::new();
  let mut g = Graph::<N>::new(&ctx);
  let mut t = Transaction::new(&ctx);
  let b = t.insert(N::B(B { x: e(), n: 0 }));
  let i = t.insert(N::A(a(1)));
  g.commit(t);
  let mut t = Transaction::new(&ctx);
  t.mutate(i, move |n| if let N::A(x) = n { x.v = vec![b, b] });
  t.mutate(i, move |n| if let N::A(x) = n { x.v.pop(); });
  ck(quiet(|| g.commit(t)).is_err(), &["C05"], "a duplicated vec slot hid a forbidden link")
}

fn default_ctx() -> R<()> {
  let (c1, c2) = (Context::default(), Context::default());
  let mut g = Graph::<N>::new(&c1);
  let mut t = Transaction::new(&c2);
  t.insert(N::A(a(1)));
  ck(quiet(|| g.commit(t)).is_err(), &["C11"], "default contexts are the same")?;
  let c3 = c1.clone();
  let mut t = Transaction::new(&c3);
  t.insert(N::C(C { y: e() }));
  ck(quiet(|| g.commit(t)).is_ok() && g.len() == 1, &["C11"], "a clone of the context is refused")
}

fn switch() -> R<()> {
  // a large graph with all links inside, and overlapping old and new indices
  let ctx = Context::new();
  let mut g = Graph::<N>::new(&ctx);
  let mut t = Transaction::new(&ctx);
  let ids: Vec<NodeIndex> = (0..120).map(|_| t.alloc_untyped()).collect();
  for (k, i) in ids.iter().enumerate() {
    t.fill_back_untyped(*i, N::A(A { d: ids[(k * 7 + 1) % 120], s: (0..5).map(|j| ids[(k * j + 3) % 120]).collect(), v: vec![ids[(k + 1) % 120], e(), ids[k], ids[k]], n: k }));
  }
  g.commit(t);
  let mut t = Transaction::new(&ctx);
  for k in [3, 50, 99] {
    t.remove(ids[k]);
  }
  g.commit(t);
  let name = |g: &Graph<N>, i: NodeIndex| if i.is_empty() { None } else { match g.get(i) { Some(N::A(x)) => Some(x.n), _ => Some(9999) } };
  let view = |g: &Graph<N>| -> BTreeMap<usize, (Option<usize>, BTreeSet<Option<usize>>, Vec<Option<usize>>)> {
    g.iter().map(|(_, x)| if let N::A(x) = x { (x.n, (name(g, x.d), x.s.iter().map(|i| name(g, *i)).collect(), x.v.iter().map(|i| name(g, *i)).collect())) } else { unreachable!() }).collect()
  };
  let want = view(&g);
  let c2 = Context::new();
  let mut t = Transaction::<N>::new(&c2);
  for _ in 0..17 {
    t.alloc_untyped();
  }
  let g = g.switch_context(&c2);
  ck(view(&g) == want && g.len() == 117, &["C09"], "switch_context of a large graph changed it")?;
  let g = g.switch_context(&ctx);
  ck(view(&g) == want && g.len() == 117, &["C09"], "switch_context back changed the graph")
}

fn ids() -> R<()> {
  let c = Context::new();
  let mut seen = BTreeSet::new();
  for k in 0..400 {
    let mut t = Transaction::<N>::new(&c.clone());
    for _ in 0..(k % 7) {
      let x = t.alloc_untyped();
      if x.is_empty() || !seen.insert(x) {
        return fail(&["C06"], format!("index {x:?} handed out twice"));
      }
    }
    if k % 2 == 0 {
      t.give_up();
    } else {
      drop(t);
    }
  }
  Ok(())
}

/// A link to an index of another open transaction: the commit panics, or the link is a link like any other.
fn unknown_link() -> R<()> {
  for way in 0..5 {
    let ctx = Context::new();
    let mut g = Graph::<N>::new(&ctx);
    let mut t = Transaction::new(&ctx);
    let i = t.insert(N::A(a(1)));
    let j = t.insert(N::A(a(2)));
    let k = t.insert(N::A(A { d: j, s: BTreeSet::from([j]), v: vec![j, e()], ..a(3) }));
    g.commit(t);
    let mut later = Transaction::new(&ctx);
    let y = later.alloc(NDiscriminant::A);
    let mut t = Transaction::new(&ctx);
    match way {
      0 => t.mutate(i, move |n| if let N::A(x) = n { x.d = y; x.v = vec![e(), y]; x.s.insert(y); }),
      1 => t.update(i, move |n| if let N::A(x) = n { N::A(A { s: BTreeSet::from([y, j]), ..x }) } else { n }),
      2 => t.redirect_links(j, y),
      3 => t.redirect_all_links(j, y),
      _ => {
        t.insert(N::A(A { d: y, ..a(4) }));
      },
    }
    if quiet(|| g.commit(t)).is_err() {
      continue;
    }
    later.fill_back(y, N::A(a(5)));
    if quiet(|| g.commit(later)).is_err() {
      continue;
    }
    ck(quiet(|| g.check_backlinks()).is_ok(), &["C15"], "back links after a link to a node that was added later")?;
    let mut t = Transaction::new(&ctx);
    t.remove(y);
    g.commit(t);
    let left = g.iter().any(|(_, n)| matches!(n, N::A(x) if x.d == y || x.s.contains(&y) || x.v.contains(&y)));
    ck(!left, &["C01", "C15"], "a link to a removed node is left")?;
    ck(quiet(|| g.check_backlinks()).is_ok() && g.get(k).is_some(), &["C15"], "back links after the removal")?;
  }
  Ok(())
}

/// One commit that touches hundreds of nodes of a graph of 600
fn crowd() -> R<()> {
  let ctx = Context::new();
  let mut g = Graph::<N>::new(&ctx);
  let mut t = Transaction::new(&ctx);
  let n = 600usize;
  let ids: Vec<NodeIndex> = (0..n).map(|_| t.alloc_untyped()).collect();
  let at = |k: usize| ids[k % n];
  let mk = |k: usize| A { d: at(k * 11 + 5), s: (0..4).map(|q| at(k * (q + 2) + q)).collect(), v: vec![at(k + 1), e(), at(k * 3), at(k * 3), at(7)], n: k };
  for k in 0..n {
    t.fill_back_untyped(ids[k], N::A(mk(k)));
  }
  g.commit(t);
  ck(g.len() == n && quiet(|| g.check_backlinks()).is_ok(), &["C03", "C15"], "600 nodes in one commit")?;
  let mut want: BTreeMap<NodeIndex, A> = (0..n).map(|k| (ids[k], mk(k))).collect();
  let mut map = |want: &mut BTreeMap<NodeIndex, A>, f: &dyn Fn(NodeIndex) -> NodeIndex| {
    for x in want.values_mut() {
      x.d = f(x.d);
      x.s = x.s.iter().map(|i| f(*i)).filter(|i| !i.is_empty()).collect();
      x.v = x.v.iter().map(|i| f(*i)).collect();
    }
  };
  let same = |g: &Graph<N>, want: &BTreeMap<NodeIndex, A>, m: &str, tags: &[&'static str]| -> R<()> {
    ck(g.len() == want.len() && want.iter().all(|(i, x)| matches!(g.get(*i), Some(N::A(y)) if x == y)), tags, m)?;
    ck(g.iter().count() == want.len() && g.iter_type(NDiscriminant::A).count() == want.len(), &["C07"], "number of nodes yielded")?;
    ck(quiet(|| g.check_backlinks()).is_ok(), &["C15"], m)
  };
  // changes of 300 nodes by closures
  let mut t = Transaction::new(&ctx);
  for k in 0..150 {
    let (i, j) = (at(k * 4), at(k * 4 + 2));
    let y = at(k * k);
    t.mutate(i, move |n| if let N::A(x) = n { x.d = y; x.v.push(y); x.s.insert(y); });
    t.update(j, move |n| if let N::A(x) = n { N::A(A { d: e(), v: vec![y], ..x }) } else { n });
    let x = want.get_mut(&i).unwrap();
    x.d = y;
    x.v.push(y);
    x.s.insert(y);
    let x = want.get_mut(&j).unwrap();
    x.d = e();
    x.v = vec![y];
  }
  g.commit(t);
  same(&g, &want, "300 changes in one commit", &["C03"])?;
  // a chain of 100 redirections and 60 separate ones, onto nodes that have links already
  let mut t = Transaction::new(&ctx);
  let mut to: BTreeMap<NodeIndex, NodeIndex> = BTreeMap::new();
  for k in (0..100).rev() {
    t.redirect_links(at(k), at(k + 1));
    to.insert(at(k), at(100));
  }
  for k in 0..60 {
    t.redirect_links(at(200 + k), at(300 + k / 4));
    to.insert(at(200 + k), at(300 + k / 4));
  }
  g.commit(t);
  map(&mut want, &|i| to.get(&i).copied().unwrap_or(i));
  same(&g, &want, "160 redirections in one commit", &["C02"])?;
  // removal of a node that hundreds of others link to, and of 130 nodes
  let mut t = Transaction::new(&ctx);
  let dead: BTreeSet<NodeIndex> = (0..130).map(|k| at(k * 3 + 1)).chain([at(100)]).collect();
  for i in &dead {
    t.remove(*i);
  }
  g.commit(t);
  want.retain(|i, _| !dead.contains(i));
  map(&mut want, &|i| if dead.contains(&i) { e() } else { i });
  same(&g, &want, "131 removals in one commit", &["C01"])
}

mod serd {
  use serde::{Deserialize, Serialize};
  use ttgraph::*;
  #[derive(TypedNode, Debug, Clone, PartialEq, Serialize, Deserialize)]
  pub struct P {
    pub x: NodeIndex,
    pub v: Vec<NodeIndex>,
  }
  node_enum! { #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)] pub enum M { P(P) } }
}

/// Indices beyond 16 and 32 bits
fn high() -> R<()> {
  use serd::*;
  use ttgraph::serialize::*;
  for top in [70_000usize, (1 << 32) + 5, 1 << 40] {
    let mk = |k: usize| if k % 2 == 0 { 1 + k } else { top - k };
    let ids: Vec<usize> = (0..30).map(mk).collect();
    let nodes: Vec<(NodeIndex, M)> = (0..30).map(|k| (NodeIndex(ids[k]), M::P(P { x: NodeIndex(ids[(k * 7 + 1) % 30]), v: vec![NodeIndex(ids[(k + 3) % 30]), NodeIndex(0)] }))).collect();
    let j = format!("{{\"ctx_id\":{},\"nodes\":{}}}", serde_json::to_string(&{
      let g = Graph::<M>::new(&Context::new());
      serde_json::to_value(&g).unwrap()["ctx_id"].clone()
    }).unwrap(), serde_json::to_string(&nodes).unwrap());
    let Ok(data) = serde_json::from_str::<GraphSerializer<M>>(&j) else {
      return Ok(()); // another document format: nothing to say here
    };
    let (ctx, mut g) = deserialize_graph(data);
    ck(g.len() == 30 && nodes.iter().all(|(i, n)| g.get(*i) == Some(n)), &["C10"], "a document with high indices")?;
    ck(quiet(|| g.check_backlinks()).is_ok(), &["C10", "C15"], "back links of a document with high indices")?;
    let old: BTreeSet<NodeIndex> = nodes.iter().map(|x| x.0).collect();
    let mut t = Transaction::new(&ctx);
    let mut new = BTreeSet::new();
    for _ in 0..40 {
      let i = t.insert(M::P(P { x: nodes[0].0, v: vec![] }));
      if old.contains(&i) || !new.insert(i) {
        return fail(&["C06", "C10"], format!("index {i:?} of a deserialized graph handed out again"));
      }
    }
    g.commit(t);
    ck(g.len() == 70 && nodes.iter().all(|(i, n)| g.get(*i) == Some(n)), &["C10", "C06"], "insertion after a document with high indices")?;
    let c2 = Context::new();
    let g2 = g.switch_context(&c2);
    ck(g2.len() == 70 && quiet(|| g2.check_backlinks()).is_ok(), &["C09"], "switch_context of high indices")?;
    let again = serde_json::to_string(&g2).unwrap();
    let (_, g3) = deserialize_graph(serde_json::from_str::<GraphSerializer<M>>(&again).unwrap());
    ck(g3.len() == 70 && g2.iter().all(|(i, n)| g3.get(i) == Some(n)), &["C10"], "round trip")?;
  }
  Ok(())
}
