// Written by verus/gen_schemas.py: the declarations whose macro expansion is verified.
#![allow(dead_code, unused)]
pub mod ga {
  use ttgraph::*;
  #[derive(TypedNode)]
  pub struct P {
    pub data: usize,
    #[group(lnk, both)]
    pub one: NodeIndex,
    #[group(lnk)]
    pub many: Vec<NodeIndex>,
    pub hs: std::collections::HashSet<NodeIndex>,
    pub bs: std::collections::BTreeSet<NodeIndex>,
  }
  #[derive(TypedNode)]
  pub struct Q {
    #[group(rev)]
    pub back: ::ordermap::OrderSet<NodeIndex>,
    pub s: String,
  }
  node_enum! {
    pub enum Ga { P(P), Q(Q) }
    group! { first { P }, all { P, Q } }
    bidirectional! { P.one <-> Q.back }
    link_type! { P.many: Q }
  }
}
pub mod gb {
  use ttgraph::*;
  #[derive(TypedNode)]
  pub struct X {
    pub id: u32,
    #[group(src)]
    pub a: NodeIndex,
    #[group(src, wide)]
    pub b: ::indexmap::IndexSet<NodeIndex>,
    pub peer: std::collections::HashSet<NodeIndex>,
    #[group(wide)]
    pub loose: Vec<NodeIndex>,
    pub name: String,
  }
  #[derive(TypedNode)]
  #[phantom_group(wide)]
  pub struct Y {
    #[group(dst)]
    pub y_a: ::ordermap::OrderSet<NodeIndex>,
    #[group(dst)]
    pub yb: std::collections::BTreeSet<NodeIndex>,
    pub yv: Vec<NodeIndex>,
    pub par: NodeIndex,
    pub kids: ::ordermap::OrderSet<NodeIndex>,
  }
  #[derive(TypedNode)]
  #[phantom_group(dst)]
  pub struct Z {
    #[group(wide)]
    pub zc: NodeIndex,
    pub zz: std::collections::HashSet<NodeIndex>,
  }
  node_enum! {
    pub enum Gb { X(X), Y(Y), Z(Z), Twin(X) }
    group! { yz { Y, Z }, all { X, Y, Z, Twin }, lone { Twin } }
    bidirectional! { X.src <-> yz.dst, X.peer <-> X.peer, Y.par <-> Y.kids, Z.zc <-> X.peer, Twin.a <-> Z.zz }
    link_type! { X.loose: Y, yz.wide: { X, Twin }, Twin.loose: { yz, Twin }, Z.zz: lone, X.wide: { yz, X } }
  }
}
pub mod gc {
  use ttgraph::*;
  #[derive(TypedNode)]
  pub struct Nil {
    pub n: usize,
  }
  #[derive(TypedNode)]
  pub struct Only {
    pub v: Vec<NodeIndex>,
  }
  node_enum! {
    pub enum Gc { Nil(Nil), Only(Only) }
  }
}
pub mod gd {
  use ttgraph::*;
  #[derive(TypedNode)]
  pub struct Solo {
    pub next: NodeIndex,
    pub prev: NodeIndex,
    pub tag: u8,
  }
  node_enum! {
    pub enum Gd { Solo(Solo) }
    bidirectional! { Solo.next <-> Solo.prev }
    link_type! { Solo.next: Solo }
  }
}
pub mod ge {
  use ttgraph::*;
  #[derive(TypedNode)]
  pub struct HTTPNode {
    #[group(ring, east)]
    pub to_2: std::collections::BTreeSet<NodeIndex>,
    #[group(ring, deep_end)]
    pub x_y_z: NodeIndex,
    pub port: u16,
  }
  #[derive(TypedNode)]
  pub struct B2 {
    #[group(ring)]
    pub up: ::indexmap::IndexSet<NodeIndex>,
    #[group(deep_end, east)]
    pub w: Vec<NodeIndex>,
  }
  #[derive(TypedNode)]
  #[phantom_group(east)]
  pub struct Leaf {
    pub val: i64,
    #[group(ring)]
    pub up: NodeIndex,
  }
  #[derive(TypedNode)]
  pub struct Void {
  }
  node_enum! {
    pub enum GeTree { HTTPNode(HTTPNode), Leaf(Leaf), B2(B2), LeafAlt(Leaf), Void(Void) }
    link_type! { HTTPNode.deep_end: outer, B2.w: { HTTPNode, outer }, outer.up: all_of, HTTPNode.ring: inner }
    bidirectional! { inner.ring <-> inner.ring, outer.up <-> LeafAlt.up }
    group! { inner { HTTPNode, B2 }, outer { B2, Leaf, LeafAlt }, all_of { HTTPNode, Leaf, B2, LeafAlt, Void }, void { Void } }
  }
}
pub mod gf {
  use ttgraph::*;
  #[derive(TypedNode)]
  pub struct Aab {
    pub n: usize,
    pub n_: usize,
    pub _n: usize,
    #[group(ll, l_l, n)]
    pub l: NodeIndex,
    #[group(g11, g1, n)]
    pub l11: std::collections::HashSet<NodeIndex>,
    pub x_y: String,
    pub xy: String,
    #[group(g, gg)]
    pub ln: Vec<NodeIndex>,
  }
  #[derive(TypedNode)]
  pub struct AaB {
    pub l: u64,
    #[group(g, l11, n_ext)]
    pub next: NodeIndex,
    #[group(n_ext)]
    pub next1: NodeIndex,
    #[group(g1, g)]
    pub nex: std::collections::BTreeSet<NodeIndex>,
    pub t: NodeIndex,
  }
  #[derive(TypedNode)]
  #[phantom_group(n_ext)]
  pub struct A {
    pub aab: NodeIndex,
    #[group(next, g)]
    pub aa_b: NodeIndex,
    pub aa_bs: ::ordermap::OrderSet<NodeIndex>,
  }
  node_enum! {
    pub enum Gf { AaB(Aab), Aab(AaB), A(A), Aa(A) }
    link_type! { AaB.l11: aa, every.g: { AA, aa }, A.n_ext: aa, Aab.next1: AaB }
    bidirectional! { AaB.ll <-> AA.aa_bs, Aab.t <-> A.aab, Aab.next <-> Aa.aab }
    group! { aa { A, Aa }, AA { Aa, A }, every { AaB, Aab, A }, aA { Aab } }
  }
}
pub mod gh {
  use ttgraph::*;
  #[derive(TypedNode)]
  pub struct W {
    #[group(g0)]
    pub f0: NodeIndex,
    #[group(g0, g1)]
    pub f1: NodeIndex,
    pub d0: u16,
    #[group(g1)]
    pub f2: NodeIndex,
    #[group(g2)]
    pub f3: Vec<NodeIndex>,
    #[group(g2, g3)]
    pub f4: Vec<NodeIndex>,
    #[group(g3, g4)]
    pub f5: std::collections::BTreeSet<NodeIndex>,
    #[group(g4, g5)]
    pub f6: std::collections::HashSet<NodeIndex>,
    pub d1: String,
    #[group(g5, g0)]
    pub f7: ::ordermap::OrderSet<NodeIndex>,
    pub f8: NodeIndex,
    #[group(g5)]
    pub f9: ::indexmap::IndexSet<NodeIndex>,
    pub d2: u16,
  }
  #[derive(TypedNode)]
  pub struct U {
    #[group(g0)]
    pub x: NodeIndex,
    pub v: u8,
    #[group(g1)]
    pub y: NodeIndex,
  }
  node_enum! {
    pub enum Gh { V1(W), V2(U), V3(U) }
    group! { us { V2, V3 }, ends { V1, V3 } }
    bidirectional! { V1.f9 <-> us.y }
    link_type! { us.x: { us, ends }, V1.f3: { us, V1 }, V1.g5: { V1, us }, V1.f0: { V3, V2 } }
  }
}
pub mod mac {
  use super::gc::*;
  use ttgraph::*;
  pub fn m_get<'a>(g: &'a Graph<Gc>, i: NodeIndex) -> Option<&'a Only> {
    get_node!(g, Gc::Only, i)
  }
  pub fn m_iter<'a>(g: &'a Graph<Gc>) -> Vec<(NodeIndex, &'a Nil)> {
    iter_nodes!(g, Gc::Nil).collect()
  }
  pub fn m_alloc(t: &mut Transaction<'_, Gc>) -> NodeIndex {
    alloc_node!(t, Gc::Only)
  }
  pub fn m_mut_plain<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex) {
    mut_node!(t, Gc::Nil, i, node, { node.n = node.n / 2 })
  }
  pub fn m_mut_bars<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex) {
    mut_node!(t, Gc::Nil, i, |node| { node.n = node.n / 2 })
  }
  pub fn m_mut_move<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex, k: usize) {
    mut_node!(t, Gc::Nil, i, move |node| { node.n = k })
  }
  pub fn m_upd_plain<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex) {
    update_node!(t, Gc::Nil, i, node, { Nil { n: node.n / 2 } })
  }
  pub fn m_upd_bars<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex) {
    update_node!(t, Gc::Nil, i, |node| { Nil { n: node.n / 2 } })
  }
  pub fn m_upd_move<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex, k: usize) {
    update_node!(t, Gc::Nil, i, move |node| { Nil { n: k } })
  }
}
