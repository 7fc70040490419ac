//! The schemas the engine runs, and their description for the model.
use crate::model::*;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use ttgraph::*;

pub trait Data: Sized {
  fn from_u(u: u64) -> Self;
  fn to_u(&self) -> u64;
}
impl Data for usize {
  fn from_u(u: u64) -> Self {
    u as usize
  }
  fn to_u(&self) -> u64 {
    *self as u64
  }
}
impl Data for u64 {
  fn from_u(u: u64) -> Self {
    u
  }
  fn to_u(&self) -> u64 {
    *self
  }
}
impl Data for String {
  fn from_u(u: u64) -> Self {
    format!("s{u}")
  }
  fn to_u(&self) -> u64 {
    self[1..].parse().unwrap()
  }
}
impl Data for Option<u32> {
  fn from_u(u: u64) -> Self {
    if u == 0 {
      None
    } else {
      Some(u as u32 - 1)
    }
  }
  fn to_u(&self) -> u64 {
    self.map_or(0, |x| x as u64 + 1)
  }
}
impl Data for Vec<u8> {
  fn from_u(u: u64) -> Self {
    u.to_le_bytes().to_vec()
  }
  fn to_u(&self) -> u64 {
    u64::from_le_bytes(self[..].try_into().unwrap())
  }
}
impl Data for [u32; 2] {
  fn from_u(u: u64) -> Self {
    [u as u32, (u >> 32) as u32]
  }
  fn to_u(&self) -> u64 {
    self[0] as u64 | ((self[1] as u64) << 32)
  }
}

pub trait Sch: 'static {
  type N: NodeEnum + Clone + Debug + Serialize + DeserializeOwned + Send + 'static;
  fn desc() -> Schema;
  fn mk(m: &MNode) -> Self::N;
  fn read(n: &Self::N) -> MNode;
  fn disc(t: usize) -> <Self::N as NodeEnum>::Discriminant;
  fn link(t: usize, f: usize) -> <Self::N as NodeEnum>::LinkMirrorEnum;
  fn source(t: usize, f: usize, slot: usize) -> <Self::N as NodeEnum>::SourceEnum;
  fn log(t: usize, name: &str) -> Option<<Self::N as NodeEnum>::LoGMirrorEnum>;
  /// Checks of the TypedNode impl of the variant of this node
  fn typed(n: &Self::N, m: &MNode, s: &Schema) -> Result<(), (&'static str, String)>;
}

#[macro_export]
macro_rules! mkfield {
  (D, $v:expr) => {
    match $v {
      MLink::D(x) => NodeIndex(*x),
      _ => unreachable!(),
    }
  };
  (S, $v:expr) => {
    match $v {
      MLink::S(x) => x.iter().map(|y| NodeIndex(*y)).collect(),
      _ => unreachable!(),
    }
  };
  (V, $v:expr) => {
    match $v {
      MLink::V(x) => x.iter().map(|y| NodeIndex(*y)).collect(),
      _ => unreachable!(),
    }
  };
}
#[macro_export]
macro_rules! rdfield {
  (D, $v:expr) => {
    MLink::D($v.0)
  };
  (S, $v:expr) => {
    MLink::S($v.iter().map(|y| y.0).collect())
  };
  (V, $v:expr) => {
    MLink::V($v.iter().map(|y| y.0).collect())
  };
}
#[macro_export]
macro_rules! mksrc {
  (D, $e:expr, $slot:expr) => {
    $e
  };
  (S, $e:expr, $slot:expr) => {
    $e
  };
  (V, $e:expr, $slot:expr) => {
    $e($slot)
  };
}

/// A type no node field has
#[derive(Debug)]
pub struct Wrong;

/// one in 64 calls probes with names that nearly are names of fields
pub fn probe() -> bool {
  thread_local!(static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
  N.with(|n| {
    n.set(n.get().wrapping_add(1));
    n.get() % 64 == 1
  })
}
pub fn near(k: &'static str) -> Vec<&'static str> {
  thread_local!(static C: std::cell::RefCell<std::collections::HashMap<&'static str, Vec<&'static str>>> = Default::default());
  C.with(|c| c.borrow_mut().entry(k).or_insert_with(|| near1(k).into_iter().map(|w| &*w.leak()).collect()).clone())
}
fn near1(k: &str) -> Vec<String> {
  let camel: String = k.split('_').map(|p| p[..p.len().min(1)].to_uppercase() + &p[p.len().min(1)..]).collect();
  vec![format!("{k}_"), format!("_{k}"), format!("{k} "), format!(" {k}"), format!("{k}s"), format!("{k}1"), format!("r#{k}"), k.to_uppercase(), k.to_lowercase(), camel, k.replace('_', ""), k[1..].into(), k[..k.len() - 1].into(), k.trim_end_matches(|c: char| c.is_numeric() || c == '_').into(), k.trim_start_matches('_').into(), format!("{k}\0")]
}
#[macro_export]
macro_rules! schema_impl {
  ($S:ident, $N:ident, $nm:literal,
   types { $( $V:ident ( $T:ident ) { data { $($d:ident : $dt:ty),* } links { $($l:ident : $k:ident [$($g:ident),*]),* } } )* }
   node_groups { $( $ng:ident [ $($ngv:ident),* ] ),* }
   bd { $( ($b1:ident, $bl1:ident, $b2:ident, $bl2:ident) ),* }
   anno { $( ($av:ident, $al:ident, [ $($at:ident),* ]) ),* }
  ) => {
    pub struct $S;
    ttgraph::macros::paste! {
    impl $crate::schemas::Sch for $S {
      type N = $N;
      fn desc() -> Schema {
        let types = vec![ $( TypeDesc {
          name: stringify!($V),
          data: vec![ $( stringify!($d) ),* ],
          links: vec![ $( LinkDesc { name: stringify!($l), kind: Kind::$k, groups: vec![ $( stringify!($g) ),* ] } ),* ],
        } ),* ];
        let pos = |n: &str| types.iter().position(|t: &TypeDesc| t.name == n).unwrap();
        let _ = &pos;
        let node_groups = vec![ $( (stringify!($ng), vec![ $( pos(stringify!($ngv)) ),* ]) ),* ];
        Schema {
          name: $nm, types, node_groups,
          bd_decl: vec![ $( (stringify!($b1), stringify!($bl1), stringify!($b2), stringify!($bl2)) ),* ],
          anno_decl: vec![ $( (stringify!($av), stringify!($al), vec![ $( stringify!($at) ),* ]) ),* ],
          bd: Default::default(), anno: Default::default(),
        }.derive()
      }
      #[allow(unused_assignments, unused_mut, unused_variables)]
      fn mk(m: &MNode) -> $N {
        let mut t = 0;
        $( if m.ty == t {
          let mut di = 0; let mut li = 0;
          return $N::$V($T {
            $( $d: { di += 1; <$dt as Data>::from_u(m.data[di - 1]) }, )*
            $( $l: { li += 1; mkfield!($k, &m.links[li - 1]) }, )*
          });
        } t += 1; )*
        unreachable!()
      }
      #[allow(unused_assignments)]
      fn read(n: &$N) -> MNode {
        let mut t = 0;
        $( if let $N::$V(x) = n {
          let _ = x;
          return MNode { ty: t, data: vec![ $( x.$d.to_u() ),* ], links: vec![ $( rdfield!($k, x.$l) ),* ] };
        } t += 1; )*
        unreachable!("{t}")
      }
      #[allow(unused_assignments)]
      fn disc(ty: usize) -> <$N as NodeEnum>::Discriminant {
        let mut t = 0;
        $( if ty == t { return <$N as NodeEnum>::Discriminant::$V; } t += 1; )*
        unreachable!()
      }
      #[allow(unused_assignments, unused_mut, unused_variables)]
      fn link(ty: usize, f: usize) -> <$N as NodeEnum>::LinkMirrorEnum {
        let mut t = 0;
        $( if ty == t { let mut i = 0;
          $( if i == f { return <$N as NodeEnum>::LinkMirrorEnum::$V(<$T as TypedNode>::LinkMirror::[<$l:camel>]); } i += 1; )*
        } t += 1; )*
        unreachable!()
      }
      #[allow(unused_assignments, unused_mut, unused_variables)]
      fn source(ty: usize, f: usize, slot: usize) -> <$N as NodeEnum>::SourceEnum {
        let mut t = 0;
        $( if ty == t { let mut i = 0;
          $( if i == f { return <$N as NodeEnum>::SourceEnum::$V(mksrc!($k, <$T as TypedNode>::Source::[<$l:camel>], slot)); } i += 1; )*
        } t += 1; )*
        unreachable!()
      }
      #[allow(unused_assignments, unused_mut, unused_variables)]
      fn log(ty: usize, name: &str) -> Option<<$N as NodeEnum>::LoGMirrorEnum> {
        let mut t = 0;
        $( if ty == t {
          $( if name == stringify!($l) { return Some(<$N as NodeEnum>::LoGMirrorEnum::$V(<$T as TypedNode>::LoGMirror::[<$l:camel>])); }
             $( if name == stringify!($g) { return Some(<$N as NodeEnum>::LoGMirrorEnum::$V(<$T as TypedNode>::LoGMirror::[<$g:camel>])); } )*
          )*
        } t += 1; )*
        None
      }
      #[allow(unused_mut, unused_variables)]
      fn typed(n: &$N, m: &MNode, s: &Schema) -> Result<(), (&'static str, String)> {
        $( if let $N::$V(x) = n {
          let td = &s.types[m.ty];
          let names: Vec<&str> = <$T as TypedNode>::link_names().to_vec();
          if names != td.links.iter().map(|l| l.name).collect::<Vec<_>>() { return Err(("C12", format!("link_names of {} is {:?}", td.name, names))); }
          let kinds: Vec<Kind> = <$T as TypedNode>::link_types().iter().map(|k| match k { LinkType::Point => Kind::D, LinkType::Set => Kind::S, LinkType::Vec => Kind::V }).collect();
          if kinds != td.links.iter().map(|l| l.kind).collect::<Vec<_>>() { return Err(("C12", format!("link_types of {} is {:?}", td.name, kinds))); }
          let mirrors: Vec<_> = <$T as TypedNode>::link_mirrors().to_vec();
          if mirrors != Vec::<<$T as TypedNode>::LinkMirror>::from([ $( <$T as TypedNode>::LinkMirror::[<$l:camel>] ),* ]) { return Err(("C12", format!("link_mirrors of {} is {:?}", td.name, mirrors))); }
          let dn: Vec<&str> = <$T as TypedNode>::data_names().to_vec();
          if !dn.iter().all(|n| td.data.contains(n)) || dn.iter().enumerate().any(|(i, n)| dn[..i].contains(n)) { return Err(("C12", format!("data_names of {} is {:?}", td.name, dn))); }
          $(
            let listed = dn.contains(&stringify!($d));
            if listed == stringify!($dt).starts_with('[') { return Err(("C12", format!("data_names of {} is {:?}", td.name, dn))); }
            if listed {
              match x.data_ref_by_name::<$dt>(stringify!($d)) {
                Some(v) if std::ptr::eq(v, &x.$d) => {},
                _ => return Err(("C12", format!("data_ref_by_name({:?}) of {:?} is not the field", stringify!($d), x))),
              }
              match NodeEnum::data_ref_by_name::<$dt>(n, stringify!($d)) {
                Some(v) if std::ptr::eq(v, &x.$d) => {},
                _ => return Err(("C12", format!("data_ref_by_name({:?}) of {:?} is not the field", stringify!($d), n))),
              }
            }
            if x.data_ref_by_name::<$crate::schemas::Wrong>(stringify!($d)).is_some() { return Err(("C12", format!("data_ref_by_name with a wrong type returned data"))); }
            if NodeEnum::data_ref_by_name::<$crate::schemas::Wrong>(n, stringify!($d)).is_some() { return Err(("C12", format!("data_ref_by_name with a wrong type returned data"))); }
            if stringify!($dt) != "usize" && NodeEnum::data_ref_by_name::<usize>(n, stringify!($d)).is_some() { return Err(("C12", format!("data_ref_by_name with a wrong type returned data"))); }
          )*
          if $crate::schemas::probe() {
            let known: Vec<&str> = td.data.iter().copied().chain(td.links.iter().flat_map(|l| std::iter::once(l.name).chain(l.groups.iter().copied()))).collect();
            for k in &known {
              for w in $crate::schemas::near(k) {
                if known.contains(&w) || s.types.iter().any(|t| t.links.iter().any(|l| l.groups.contains(&w))) { continue; }
                if x.data_ref_by_name::<usize>(w).is_some() || x.data_ref_by_name::<String>(w).is_some() || NodeEnum::data_ref_by_name::<usize>(n, w).is_some() { return Err(("C12", format!("data_ref_by_name({w:?}) of {x:?} returned data"))); }
                if x.get_links_by_name(w).next().is_some() { return Err(("C12", format!("get_links_by_name({w:?}) of {x:?} returned something"))); }
                if <$T as TypedNode>::get_link_or_group_by_name(w).is_some() { return Err(("C13", format!("get_link_or_group_by_name({w:?}) returned something"))); }
                if !x.get_links_by_group(w).is_empty() { return Err(("C13", format!("get_links_by_group({w:?}) returned something"))); }
              }
            }
            for (i, w) in td.links.iter().enumerate() {
              if !td.data.contains(&w.name) && x.data_ref_by_name::<usize>(w.name).is_some() { return Err(("C12", format!("data_ref_by_name({:?}), link {i} of {x:?}, returned data", w.name))); }
            }
            for w in &td.data {
              if !td.links.iter().any(|l| l.name == *w) && x.get_links_by_name(w).next().is_some() { return Err(("C12", format!("get_links_by_name({w:?}) of {x:?}, a data field, returned something"))); }
            }
          }
          if x.data_ref_by_name::<usize>("no_such_field").is_some() { return Err(("C12", format!("data_ref_by_name of an unknown name returned data"))); }
          if NodeEnum::data_ref_by_name::<usize>(n, "").is_some() { return Err(("C12", format!("data_ref_by_name of an unknown name returned data"))); }
          // TypedNode level reads
          let mut src: Vec<(NodeIndex, <$T as TypedNode>::Source)> = Vec::new();
          $( match rdfield!($k, x.$l) {
            MLink::V(v) => { for (i, y) in v.iter().enumerate() { let _ = i; if *y != 0 { src.push((NodeIndex(*y), mksrc!($k, <$T as TypedNode>::Source::[<$l:camel>], i))); } } },
            o => { for y in o.targets() { let i = 0usize; let _ = i; src.push((NodeIndex(y), mksrc!($k, <$T as TypedNode>::Source::[<$l:camel>], i))); } },
          } )*
          src.sort();
          let mut got: Vec<_> = x.iter_sources().collect();
          got.sort();
          if got != src { return Err(("C12", format!("iter_sources of {:?} is {:?}", x, got))); }
          $(
            let lm = <$T as TypedNode>::LinkMirror::[<$l:camel>];
            let field = rdfield!($k, x.$l);
            let mut want = field.targets();
            let mut got: Vec<usize> = x.iter_links(lm).map(|i| i.0).collect();
            let mut got2: Vec<usize> = x.get_links_by_name(stringify!($l)).map(|i| i.0).collect();
            if Kind::$k == Kind::S { got.sort(); want.sort(); got2.sort(); }
            if got != want { return Err(("C12", format!("iter_links({:?}) of {:?} is {:?}", lm, x, got))); }
            if got2 != want { return Err(("C12", format!("get_links_by_name({:?}) of {:?} is {:?}", stringify!($l), x, got2))); }
            for t in want.iter().copied().chain([1, 7, 1000]) {
              if x.contains_link(lm, NodeIndex(t)) != field.has(t) { return Err(("C12", format!("contains_link({:?}, {t}) of {:?} is wrong", lm, x))); }
            }
            match <$T as TypedNode>::get_link_or_group_by_name(stringify!($l)) {
              Some(g) if g == <$T as TypedNode>::LoGMirror::[<$l:camel>] => {},
              o => return Err(("C13", format!("get_link_or_group_by_name({:?}) is {:?}", stringify!($l), o))),
            }
            $( match <$T as TypedNode>::get_link_or_group_by_name(stringify!($g)) {
              Some(g) if g == <$T as TypedNode>::LoGMirror::[<$g:camel>] => {},
              o => return Err(("C13", format!("get_link_or_group_by_name({:?}) is {:?}", stringify!($g), o))),
            } )*
          )*
          if x.get_links_by_name("no_such_field").next().is_some() { return Err(("C12", format!("get_links_by_name of an unknown name returned something"))); }
          if !x.get_links_by_group("no_such_group").is_empty() { return Err(("C13", format!("get_links_by_group of an unknown name returned something"))); }
          if <$T as TypedNode>::get_link_or_group_by_name("no_such_group").is_some() { return Err(("C13", format!("get_link_or_group_by_name of an unknown name returned something"))); }
          return Ok(());
        } )*
        unreachable!()
      }
    }
    }
  };
}

/// All kinds of links, no bidirectional or type declarations
pub mod basic {
  use super::*;
  use ::indexmap::IndexSet;
  use ::ordermap::OrderSet;
  use std::collections::{BTreeSet, HashSet};
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct NodeA {
    pub uid: usize,
    pub name: String,
    pub n: usize,
    #[group(g, all)]
    pub d: NodeIndex,
    #[group(all)]
    pub s: HashSet<NodeIndex>,
    #[group(g)]
    #[group(all)]
    pub v: Vec<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct NodeB {
    pub uid: usize,
    pub a_one: NodeIndex,
    pub opt: Option<u32>,
    #[group(g)]
    pub b_two: NodeIndex,
    pub bs: BTreeSet<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct NodeC {
    pub uid: usize,
    #[group(many)]
    pub os: OrderSet<NodeIndex>,
    #[group(many)]
    pub is: IndexSet<NodeIndex>,
    pub v_a: Vec<NodeIndex>,
    pub arr: [u32; 2],
    #[group(many, g)]
    pub v_b: Vec<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct NodeE {
    pub uid: usize,
    pub bytes: Vec<u8>,
  }
  node_enum! {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Node { A(NodeA), B(NodeB), Cee(NodeC), Empty(NodeE), A2(NodeA) }
    group! { ab { A, B }, all { A, B, Cee, Empty, A2 }, one { Cee }, ae { A2, Empty } }
  }
  schema_impl! { Basic, Node, "basic",
    types {
      A(NodeA) { data { uid: usize, name: String, n: usize } links { d: D [g, all], s: S [all], v: V [g, all] } }
      B(NodeB) { data { uid: usize, opt: Option<u32> } links { a_one: D [], b_two: D [g], bs: S [] } }
      Cee(NodeC) { data { uid: usize, arr: [u32; 2] } links { os: S [many], is: S [many], v_a: V [], v_b: V [many, g] } }
      Empty(NodeE) { data { uid: usize, bytes: Vec<u8> } links { } }
      A2(NodeA) { data { uid: usize, name: String, n: usize } links { d: D [g, all], s: S [all], v: V [g, all] } }
    }
    node_groups { ab [A, B], all [A, B, Cee, Empty, A2], one [Cee], ae [A2, Empty] }
    bd { } anno { }
  }
}

/// One variant only
pub mod single {
  use super::*;
  use std::collections::HashSet;
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct Only {
    pub uid: usize,
    pub next: NodeIndex,
    pub many: HashSet<ttgraph::NodeIndex>,
    pub list: std::vec::Vec<ttgraph::NodeIndex>,
  }
  node_enum! {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Node { OnlyOne(Only) }
  }
  schema_impl! { Single, Node, "single",
    types { OnlyOne(Only) { data { uid: usize } links { next: D [], many: S [], list: V [] } } }
    node_groups { } bd { } anno { }
  }
}

/// Bidirectional links with a single partner between any two types
pub mod bidir {
  use super::*;
  use ::ordermap::OrderSet;
  use std::collections::{BTreeSet, HashSet};
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct X {
    pub uid: usize,
    pub parent: NodeIndex,
    pub children: BTreeSet<NodeIndex>,
    pub peer: NodeIndex,
    pub friends: HashSet<NodeIndex>,
    pub free: Vec<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct Y {
    pub uid: usize,
    pub owner: NodeIndex,
    pub next: NodeIndex,
    pub prev: NodeIndex,
    pub refs: OrderSet<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct Z {
    pub uid: usize,
    pub owner: NodeIndex,
    pub back: BTreeSet<NodeIndex>,
    pub items: BTreeSet<NodeIndex>,
    pub extra: NodeIndex,
  }
  node_enum! {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Node { X(X), Y(Y), Z(Z) }
    group! { yz { Y, Z } }
    bidirectional! { X.parent <-> X.children, X.peer <-> X.peer, X.friends <-> X.friends }
    bidirectional! { yz.owner <-> Z.items, Y.next <-> Y.prev, Y.refs <-> Z.back }
  }
  schema_impl! { Bidir, Node, "bidir",
    types {
      X(X) { data { uid: usize } links { parent: D [], children: S [], peer: D [], friends: S [], free: V [] } }
      Y(Y) { data { uid: usize } links { owner: D [], next: D [], prev: D [], refs: S [] } }
      Z(Z) { data { uid: usize } links { owner: D [], back: S [], items: S [], extra: D [] } }
    }
    node_groups { yz [Y, Z] }
    bd { (X, parent, X, children), (X, peer, X, peer), (X, friends, X, friends), (yz, owner, Z, items), (Y, next, Y, prev), (Y, refs, Z, back) }
    anno { }
  }
}

/// Bidirectional links with groups and several partners
pub mod multi {
  use super::*;
  use std::collections::{BTreeSet, HashSet};
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct P {
    pub uid: usize,
    #[group(lnk, both)]
    pub a: NodeIndex,
    #[group(lnk)]
    pub b: HashSet<NodeIndex>,
    #[group(both)]
    pub c: NodeIndex,
    pub plain: NodeIndex,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct Q {
    pub uid: usize,
    #[group(rev)]
    pub r: BTreeSet<NodeIndex>,
    #[group(rev)]
    pub q: NodeIndex,
    pub one: BTreeSet<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  #[phantom_group(rev)]
  pub struct R {
    pub uid: usize,
    pub t: BTreeSet<NodeIndex>,
  }
  node_enum! {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Node { P(P), Q(Q), R(R) }
    group! { qr { Q, R } }
    bidirectional! { P.lnk <-> qr.rev, P.c <-> Q.one, P.plain <-> R.t, P.both <-> Q.one }
  }
  schema_impl! { Multi, Node, "multi",
    types {
      P(P) { data { uid: usize } links { a: D [lnk, both], b: S [lnk], c: D [both], plain: D [] } }
      Q(Q) { data { uid: usize } links { r: S [rev], q: D [rev], one: S [] } }
      R(R) { data { uid: usize } links { t: S [] } }
    }
    node_groups { qr [Q, R] }
    bd { (P, lnk, qr, rev), (P, c, Q, one), (P, plain, R, t), (P, both, Q, one) }
    anno { }
  }
}

/// Link types, with groups, and bidirectional links that create links themselves
pub mod typed {
  use super::*;
  use std::collections::{BTreeSet, HashSet};
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct NodeA {
    pub uid: usize,
    pub to_a: NodeIndex,
    #[group(out)]
    pub to_b: BTreeSet<NodeIndex>,
    #[group(out)]
    pub x: NodeIndex,
    pub any: HashSet<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct NodeB {
    pub uid: usize,
    pub to_a: Vec<NodeIndex>,
    #[group(out)]
    pub to_b: HashSet<NodeIndex>,
    pub x: NodeIndex,
    pub bk: BTreeSet<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct NodeC {
    pub uid: usize,
    pub x: NodeIndex,
    pub y: NodeIndex,
    pub bk: BTreeSet<NodeIndex>,
  }
  node_enum! {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Node { A(NodeA), B(NodeB), C(NodeC) }
    group! { AB { A, B }, BC { B, C } }
    bidirectional! { A.any <-> BC.bk }
    link_type! { A.to_a: A, A.out: AB, AB.x: { A, BC }, B.out: B, B.to_a: {A, C}, C.x: AB, C.y: {AB, C}, B.bk: { A } }
    link_type! { A.to_b: BC, C.bk: B }
  }
  schema_impl! { Typed, Node, "typed",
    types {
      A(NodeA) { data { uid: usize } links { to_a: D [], to_b: S [out], x: D [out], any: S [] } }
      B(NodeB) { data { uid: usize } links { to_a: V [], to_b: S [out], x: D [], bk: S [] } }
      C(NodeC) { data { uid: usize } links { x: D [], y: D [], bk: S [] } }
    }
    node_groups { AB [A, B], BC [B, C] }
    bd { (A, any, BC, bk) }
    anno { (A, to_a, [A]), (A, out, [AB]), (AB, x, [A, BC]), (B, out, [B]), (B, to_a, [A, C]), (C, x, [AB]), (C, y, [AB, C]), (B, bk, [A]), (A, to_b, [BC]), (C, bk, [B]) }
  }
}

/// Declarations written only through the second or later group of a field, and overlapping node groups
pub mod grouped {
  use super::*;
  use std::collections::{BTreeSet, HashSet};
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct M {
    pub uid: usize,
    #[group(g0, g1, g2)]
    pub a: NodeIndex,
    #[group(g0)]
    #[group(g2)]
    pub b: Vec<NodeIndex>,
    #[group(g1, g3)]
    pub c: BTreeSet<NodeIndex>,
    #[group(g0, h)]
    pub d: HashSet<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  #[phantom_group(g3)]
  pub struct N {
    pub uid: usize,
    #[group(g0, g2)]
    pub a: NodeIndex,
    #[group(g0, g1, k)]
    pub e: BTreeSet<NodeIndex>,
    pub f: Vec<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct O {
    pub uid: usize,
    #[group(g1, g2, g3)]
    pub z: NodeIndex,
  }
  node_enum! {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Node { M(M), N(N), O(O) }
    group! { mn { M, N }, no { N, O }, mno { M, N, O } }
    bidirectional! { M.h <-> N.k }
    link_type! { mn.g2: { M, no }, mno.g3: no, M.h: N }
    link_type! { N.f: { mn, no } }
  }
  schema_impl! { Grouped, Node, "grouped",
    types {
      M(M) { data { uid: usize } links { a: D [g0, g1, g2], b: V [g0, g2], c: S [g1, g3], d: S [g0, h] } }
      N(N) { data { uid: usize } links { a: D [g0, g2], e: S [g0, g1, k], f: V [] } }
      O(O) { data { uid: usize } links { z: D [g1, g2, g3] } }
    }
    node_groups { mn [M, N], no [N, O], mno [M, N, O] }
    bd { (M, h, N, k) }
    anno { (mn, g2, [M, no]), (mno, g3, [no]), (M, h, [N]), (N, f, [mn, no]) }
  }
}

/// A wide enum with many fields
pub mod wide {
  use super::*;
  use std::collections::{BTreeSet, HashSet};
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct T1 {
    pub uid: usize,
    pub f_a: NodeIndex,
    pub f_b: NodeIndex,
    pub f_c: NodeIndex,
    pub f_d: NodeIndex,
    pub f_e: Vec<NodeIndex>,
    pub f_f: Vec<NodeIndex>,
    pub f_g: HashSet<NodeIndex>,
    pub f_h: BTreeSet<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct T2 {
    pub uid: usize,
    #[group(p, q)]
    pub x1: NodeIndex,
    #[group(q, r)]
    pub x2: HashSet<NodeIndex>,
    #[group(r)]
    pub x3: Vec<NodeIndex>,
    pub tag: String,
    #[group(p)]
    #[group(r)]
    pub x4: NodeIndex,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct T3 {
    pub uid: usize,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct T4 {
    pub uid: usize,
    pub l: Vec<NodeIndex>,
    pub a: usize,
    pub b: usize,
    pub c: String,
  }
  node_enum! {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Node { FirstKind(T1), SecondKind(T2), ThirdKind(T3), Fourth(T4), Fifth(T2), Sixth(T3), Seventh(T4) }
    group! { odd { FirstKind, ThirdKind, Fifth, Seventh }, even { SecondKind, Fourth, Sixth } }
    group! { last { Seventh }, big { FirstKind, SecondKind, Fifth } }
  }
  schema_impl! { Wide, Node, "wide",
    types {
      FirstKind(T1) { data { uid: usize } links { f_a: D [], f_b: D [], f_c: D [], f_d: D [], f_e: V [], f_f: V [], f_g: S [], f_h: S [] } }
      SecondKind(T2) { data { uid: usize, tag: String } links { x1: D [p, q], x2: S [q, r], x3: V [r], x4: D [p, r] } }
      ThirdKind(T3) { data { uid: usize } links { } }
      Fourth(T4) { data { uid: usize, a: usize, b: usize, c: String } links { l: V [] } }
      Fifth(T2) { data { uid: usize, tag: String } links { x1: D [p, q], x2: S [q, r], x3: V [r], x4: D [p, r] } }
      Sixth(T3) { data { uid: usize } links { } }
      Seventh(T4) { data { uid: usize, a: usize, b: usize, c: String } links { l: V [] } }
    }
    node_groups { odd [FirstKind, ThirdKind, Fifth, Seventh], even [SecondKind, Fourth, Sixth], last [Seventh], big [FirstKind, SecondKind, Fifth] }
    bd { } anno { }
  }
}

/// Every spelling of a link field's type
pub mod spell {
  use super::*;
  use ::indexmap::{self, IndexSet};
  use ::ordermap::{self, OrderSet};
  use std::collections::{self, BTreeSet, HashSet};
  use std::vec;
  use ttgraph::{self, NodeIndex};
  pub mod map {
    pub use ::indexmap::IndexSet;
    pub use ::ordermap::OrderSet;
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct Ay {
    pub uid: usize,
    pub l0: ttgraph::NodeIndex,
    pub l1: HashSet<ttgraph::NodeIndex>,
    pub l2: ::ordermap::set::OrderSet<ttgraph::NodeIndex>,
    pub l3: ::ordermap::set::OrderSet<ttgraph::NodeIndex>,
    pub l4: indexmap::IndexSet<ttgraph::NodeIndex>,
    pub l5: collections::HashSet<NodeIndex>,
    pub l6: BTreeSet<NodeIndex>,
    pub l7: map::OrderSet<NodeIndex>,
    pub l8: indexmap::set::IndexSet<NodeIndex>,
    pub l9: vec::Vec<ttgraph::NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct Be {
    pub uid: usize,
    pub l0: NodeIndex,
    pub l1: ::std::collections::BTreeSet<ttgraph::NodeIndex>,
    pub l2: ::ordermap::OrderSet<ttgraph::NodeIndex>,
    pub l3: OrderSet<ttgraph::NodeIndex>,
    pub l4: map::IndexSet<ttgraph::NodeIndex>,
    pub l5: HashSet<NodeIndex>,
    pub l6: ::ordermap::set::OrderSet<NodeIndex>,
    pub l7: ::ordermap::set::OrderSet<NodeIndex>,
    pub l8: indexmap::IndexSet<NodeIndex>,
    pub l9: Vec<ttgraph::NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct Ce {
    pub uid: usize,
    pub l0: ::std::collections::HashSet<ttgraph::NodeIndex>,
    pub l1: std::collections::BTreeSet<ttgraph::NodeIndex>,
    pub l2: ordermap::set::OrderSet<ttgraph::NodeIndex>,
    pub l3: ::indexmap::set::IndexSet<ttgraph::NodeIndex>,
    pub l4: IndexSet<ttgraph::NodeIndex>,
    pub l5: ::std::collections::BTreeSet<NodeIndex>,
    pub l6: ::ordermap::OrderSet<NodeIndex>,
    pub l7: OrderSet<NodeIndex>,
    pub l8: map::IndexSet<NodeIndex>,
    pub l9: std::vec::Vec<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct De {
    pub uid: usize,
    pub l0: std::collections::HashSet<ttgraph::NodeIndex>,
    pub l1: collections::BTreeSet<ttgraph::NodeIndex>,
    pub l2: ordermap::OrderSet<ttgraph::NodeIndex>,
    pub l3: ::indexmap::IndexSet<ttgraph::NodeIndex>,
    pub l4: ::std::collections::HashSet<NodeIndex>,
    pub l5: std::collections::BTreeSet<NodeIndex>,
    pub l6: ordermap::set::OrderSet<NodeIndex>,
    pub l7: ::indexmap::set::IndexSet<NodeIndex>,
    pub l8: IndexSet<NodeIndex>,
    pub l9: vec::Vec<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct Ee {
    pub uid: usize,
    pub l0: collections::HashSet<ttgraph::NodeIndex>,
    pub l1: BTreeSet<ttgraph::NodeIndex>,
    pub l2: map::OrderSet<ttgraph::NodeIndex>,
    pub l3: indexmap::set::IndexSet<ttgraph::NodeIndex>,
    pub l4: std::collections::HashSet<NodeIndex>,
    pub l5: collections::BTreeSet<NodeIndex>,
    pub l6: ordermap::OrderSet<NodeIndex>,
    pub l7: ::indexmap::IndexSet<NodeIndex>,
    pub l8: std::vec::Vec<ttgraph::NodeIndex>,
    pub l9: Vec<NodeIndex>,
  }
  node_enum! {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Node { Ay(Ay), Be(Be), Ce(Ce), De(De), Ee(Ee) }
  }
  schema_impl! { Spell, Node, "spell",
    types {
      Ay(Ay) { data { uid: usize } links { l0: D [], l1: S [], l2: S [], l3: S [], l4: S [], l5: S [], l6: S [], l7: S [], l8: S [], l9: V [] } }
      Be(Be) { data { uid: usize } links { l0: D [], l1: S [], l2: S [], l3: S [], l4: S [], l5: S [], l6: S [], l7: S [], l8: S [], l9: V [] } }
      Ce(Ce) { data { uid: usize } links { l0: S [], l1: S [], l2: S [], l3: S [], l4: S [], l5: S [], l6: S [], l7: S [], l8: S [], l9: V [] } }
      De(De) { data { uid: usize } links { l0: S [], l1: S [], l2: S [], l3: S [], l4: S [], l5: S [], l6: S [], l7: S [], l8: S [], l9: V [] } }
      Ee(Ee) { data { uid: usize } links { l0: S [], l1: S [], l2: S [], l3: S [], l4: S [], l5: S [], l6: S [], l7: S [], l8: V [], l9: V [] } }
    }
    node_groups { } bd { } anno { }
  }
}

/// Declarations before the groups they use, groups on both sides, a field in many groups, a type in one link group twice
pub mod cross {
  use super::*;
  use ::ordermap::OrderSet;
  use std::collections::{BTreeSet, HashSet};
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct Left1Node {
    pub uid: usize,
    #[group(up, a_b, c3)]
    #[group(down, e)]
    pub peers: HashSet<NodeIndex>,
    pub to: BTreeSet<NodeIndex>,
    #[group(e)]
    pub x1y: NodeIndex,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  #[phantom_group(e)]
  pub struct HTTPNode {
    pub uid: usize,
    pub peers: OrderSet<NodeIndex>,
    #[group(rev)]
    pub from: BTreeSet<NodeIndex>,
    #[group(spare)]
    pub v2: Vec<NodeIndex>,
    pub name: String,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  #[phantom_group(spare, e)]
  pub struct Third {
    pub uid: usize,
    pub peers: NodeIndex,
    #[group(rev)]
    pub back: HashSet<NodeIndex>,
    pub own: NodeIndex,
    pub owns: NodeIndex,
  }
  node_enum! {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Node { Left1(Left1Node), HTTP(HTTPNode), Third(Third), Left2(Left1Node) }
    link_type! { every.e: lefts, others.spare: { HTTP, lefts }, Third.own: Third, }
    bidirectional! { lefts.peers <-> lefts.peers, lefts.to <-> others.rev, HTTP.peers <-> HTTP.peers, Third.own <-> Third.owns, }
    group! { lefts { Left1, Left2, }, others { HTTP, Third } }
    group! { every { Left1, HTTP, Third, Left2 }, none_of { Third }, }
  }
  schema_impl! { Cross, Node, "cross",
    types {
      Left1(Left1Node) { data { uid: usize } links { peers: S [up, a_b, c3, down, e], to: S [], x1y: D [e] } }
      HTTP(HTTPNode) { data { uid: usize, name: String } links { peers: S [], from: S [rev], v2: V [spare] } }
      Third(Third) { data { uid: usize } links { peers: D [], back: S [rev], own: D [], owns: D [] } }
      Left2(Left1Node) { data { uid: usize } links { peers: S [up, a_b, c3, down, e], to: S [], x1y: D [e] } }
    }
    node_groups { lefts [Left1, Left2], others [HTTP, Third], every [Left1, HTTP, Third, Left2], none_of [Third] }
    bd { (lefts, peers, lefts, peers), (lefts, to, others, rev), (HTTP, peers, HTTP, peers), (Third, own, Third, owns) }
    anno { (every, e, [lefts]), (others, spare, [HTTP, lefts]), (Third, own, [Third]) }
  }
}

/// Names that differ in a digit, an underscore or case, names shared between fields, groups and types, variants named
/// like the type of another variant
pub mod names {
  use super::*;
  use std::collections::{BTreeSet, HashSet};
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct Aab {
    pub uid: usize,
    pub n: usize,
    pub n_: usize,
    pub _n: usize,
    #[group(ll, l_l, n)]
    pub l: NodeIndex,
    pub nn: usize,
    #[group(g1)]
    pub l1: NodeIndex,
    #[group(g11)]
    #[group(g1, n)]
    pub l11: HashSet<NodeIndex>,
    pub x_y: String,
    pub xy: String,
    #[group(g, gg)]
    pub ln: Vec<NodeIndex>,
    pub x_y_: String,
    #[group(g)]
    pub next_l: Vec<NodeIndex>,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  pub struct AaB {
    pub uid: usize,
    pub l: u64,
    pub l1: u64,
    pub l_1: u64,
    #[group(g, l11, n_ext)]
    pub next: NodeIndex,
    #[group(n_ext)]
    pub next1: NodeIndex,
    #[group(g1, g)]
    pub nex: BTreeSet<NodeIndex>,
    pub ext: Vec<NodeIndex>,
    pub t: NodeIndex,
  }
  #[derive(TypedNode, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
  #[phantom_group(n_ext)]
  pub struct A {
    pub uid: usize,
    pub aab: NodeIndex,
    #[group(next, g)]
    pub aa_b: NodeIndex,
    pub aa_bs: BTreeSet<NodeIndex>,
    #[group(g)]
    pub a: BTreeSet<NodeIndex>,
  }
  node_enum! {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Node { AaB(Aab), Aab(AaB), A(A), Aa(A) }
    link_type! { AaB.next_l: A, AaB.l1: Aa, AaB.l11: aa, every.g: { AA, aa }, A.n_ext: aa, Aab.next1: AaB, }
    bidirectional! { AaB.ll <-> AA.aa_bs, Aab.t <-> A.aab, Aab.next <-> Aa.aab }
    group! { aa { A, Aa }, AA { Aa, A }, every { AaB, Aab, A }, aA { Aab } }
  }
  schema_impl! { Names, Node, "names",
    types {
      AaB(Aab) { data { uid: usize, n: usize, n_: usize, _n: usize, nn: usize, x_y: String, xy: String, x_y_: String } links { l: D [ll, l_l, n], l1: D [g1], l11: S [g11, g1, n], ln: V [g, gg], next_l: V [g] } }
      Aab(AaB) { data { uid: usize, l: u64, l1: u64, l_1: u64 } links { next: D [g, l11, n_ext], next1: D [n_ext], nex: S [g1, g], ext: V [], t: D [] } }
      A(A) { data { uid: usize } links { aab: D [], aa_b: D [next, g], aa_bs: S [], a: S [g] } }
      Aa(A) { data { uid: usize } links { aab: D [], aa_b: D [next, g], aa_bs: S [], a: S [g] } }
    }
    node_groups { aa [A, Aa], AA [Aa, A], every [AaB, Aab, A], aA [Aab] }
    bd { (AaB, ll, AA, aa_bs), (Aab, t, A, aab), (Aab, next, Aa, aab) }
    anno { (AaB, next_l, [A]), (AaB, l1, [Aa]), (AaB, l11, [aa]), (every, g, [AA, aa]), (Aab, next1, [AaB]) }
  }
}
