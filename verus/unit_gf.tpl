// modes: P
// Written by verus/gen_schemas.py. The expansion of the macros for gen/src/lib.rs, mod gf.
#![allow(unused, dead_code, non_camel_case_types)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
verus! {
/*@include prelude.rs@*/
/*@include-trusted base.inc@*/
/*@include typed.inc@*/
/*@replace
  Box<dyn std::iter::Iterator<Item = ttgraph::NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = (NodeIndex, Self::SourceEnum)>> =>> VIter<(NodeIndex, Self::SourceEnum)>
  std::vec::IntoIter< =>> VIter<
  ::alloc::vec::Vec =>> Vec
  ::ordermap::OrderSet =>> OrderSet
  ::indexmap::IndexSet =>> IndexSet
  std::collections::HashSet =>> HashSet
  std::collections::BTreeSet =>> BTreeSet
  impl std::iter::IntoIterator<Item = (ttgraph::NodeIndex, Self::V)> =>> Vec<(ttgraph::NodeIndex, Self::V)>
  <dyn std::any::Any>::downcast_ref::<TGDataRefT> =>> vf_downcast::<_, TGDataRefT>
  <Aab as ttgraph::TypedNode>::Source =>> AabSource
  <Aab as ttgraph::TypedNode>::LinkMirror =>> AabLinkMirror
  <Aab as ttgraph::TypedNode>::LoGMirror =>> AabLoGMirror
  <self::super::Aab as ttgraph::TypedNode>::Source =>> AabSource
  <self::super::Aab as ttgraph::TypedNode>::LinkMirror =>> AabLinkMirror
  <self::super::Aab as ttgraph::TypedNode>::LoGMirror =>> AabLoGMirror
  <Aab as TypedNode>::Source =>> AabSource
  <Aab as TypedNode>::LinkMirror =>> AabLinkMirror
  <Aab as TypedNode>::LoGMirror =>> AabLoGMirror
  <self::super::Aab as TypedNode>::Source =>> AabSource
  <self::super::Aab as TypedNode>::LinkMirror =>> AabLinkMirror
  <self::super::Aab as TypedNode>::LoGMirror =>> AabLoGMirror
  <AaB as ttgraph::TypedNode>::Source =>> AaBSource
  <AaB as ttgraph::TypedNode>::LinkMirror =>> AaBLinkMirror
  <AaB as ttgraph::TypedNode>::LoGMirror =>> AaBLoGMirror
  <self::super::AaB as ttgraph::TypedNode>::Source =>> AaBSource
  <self::super::AaB as ttgraph::TypedNode>::LinkMirror =>> AaBLinkMirror
  <self::super::AaB as ttgraph::TypedNode>::LoGMirror =>> AaBLoGMirror
  <AaB as TypedNode>::Source =>> AaBSource
  <AaB as TypedNode>::LinkMirror =>> AaBLinkMirror
  <AaB as TypedNode>::LoGMirror =>> AaBLoGMirror
  <self::super::AaB as TypedNode>::Source =>> AaBSource
  <self::super::AaB as TypedNode>::LinkMirror =>> AaBLinkMirror
  <self::super::AaB as TypedNode>::LoGMirror =>> AaBLoGMirror
  <A as ttgraph::TypedNode>::Source =>> ASource
  <A as ttgraph::TypedNode>::LinkMirror =>> ALinkMirror
  <A as ttgraph::TypedNode>::LoGMirror =>> ALoGMirror
  <self::super::A as ttgraph::TypedNode>::Source =>> ASource
  <self::super::A as ttgraph::TypedNode>::LinkMirror =>> ALinkMirror
  <self::super::A as ttgraph::TypedNode>::LoGMirror =>> ALoGMirror
  <A as TypedNode>::Source =>> ASource
  <A as TypedNode>::LinkMirror =>> ALinkMirror
  <A as TypedNode>::LoGMirror =>> ALoGMirror
  <self::super::A as TypedNode>::Source =>> ASource
  <self::super::A as TypedNode>::LinkMirror =>> ALinkMirror
  <self::super::A as TypedNode>::LoGMirror =>> ALoGMirror
@*/
// ---------------- Aab ----------------
/*@struct gen:gf.rs Aab
@*/
/*@enum gen:gf.rs AabSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gf.rs AabLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gf.rs AabLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_aab { pub use super::*; }
pub struct AabData { pub n: usize, pub n_: usize, pub _n: usize, pub x_y: String, pub xy: String, pub n_ln: nat, }
impl TypedSpec for Aab {
  type Source = AabSource;
  type LinkMirror = AabLinkMirror;
  type LoGMirror = AabLoGMirror;
  type DataT = AabData;
  open spec fn links(&self) -> ISet<(NodeIndex, AabSource)> {
    ISet::new(|p: (NodeIndex, AabSource)| p.0.0 != 0 && match p.1 {
      AabSource::L => self.l == p.0,
      AabSource::L11 => self.l11@.contains(p.0),
      AabSource::Ln(i) => i < self.ln@.len() && self.ln@[i as int] == p.0,
    })
  }
  open spec fn data(&self) -> AabData { AabData { n: self.n, n_: self.n_, _n: self._n, x_y: self.x_y, xy: self.xy, n_ln: self.ln@.len(), } }
  open spec fn place_ok(d: AabData, s: AabSource) -> bool { match s {
      AabSource::L => true,
      AabSource::L11 => true,
      AabSource::Ln(i) => i < d.n_ln,
  } }
  open spec fn single(s: AabSource) -> bool { match s {
      AabSource::L => true,
      AabSource::L11 => false,
      AabSource::Ln(i) => true,
  } }
  open spec fn mirror(s: AabSource) -> AabLinkMirror { match s {
      AabSource::L => AabLinkMirror::L,
      AabSource::L11 => AabLinkMirror::L11,
      AabSource::Ln(i) => AabLinkMirror::Ln,
  } }
  open spec fn source(l: AabLinkMirror) -> AabSource { match l {
      AabLinkMirror::L => AabSource::L,
      AabLinkMirror::L11 => AabSource::L11,
      AabLinkMirror::Ln => AabSource::Ln(0),
  } }
  open spec fn is_vec(l: AabLinkMirror) -> bool { match l {
      AabLinkMirror::L => false,
      AabLinkMirror::L11 => false,
      AabLinkMirror::Ln => true,
  } }
  open spec fn is_field(l: AabLinkMirror) -> bool { true }
  open spec fn in_log(g: AabLoGMirror, l: AabLinkMirror) -> bool { match (g, l) {
    (AabLoGMirror::L, AabLinkMirror::L) => true,
    (AabLoGMirror::L11, AabLinkMirror::L11) => true,
    (AabLoGMirror::Ln, AabLinkMirror::Ln) => true,
    (AabLoGMirror::Ll, AabLinkMirror::L) => true,
    (AabLoGMirror::LL, AabLinkMirror::L) => true,
    (AabLoGMirror::N, AabLinkMirror::L) => true,
    (AabLoGMirror::N, AabLinkMirror::L11) => true,
    (AabLoGMirror::G11, AabLinkMirror::L11) => true,
    (AabLoGMirror::G1, AabLinkMirror::L11) => true,
    (AabLoGMirror::G, AabLinkMirror::Ln) => true,
    (AabLoGMirror::Gg, AabLinkMirror::Ln) => true,
    _ => false,
  } }
  open spec fn has(&self, l: AabLinkMirror, x: NodeIndex) -> bool { match l {
      AabLinkMirror::L => self.l == x,
      AabLinkMirror::L11 => self.l11@.contains(x),
      AabLinkMirror::Ln => self.ln@.contains(x),
  } }
  open spec fn cnt_of(&self, l: AabLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      AabLinkMirror::L => if self.l == x { 1 } else { 0 },
      AabLinkMirror::L11 => if self.l11@.contains(x) { 1 } else { 0 },
      AabLinkMirror::Ln => cnt(self.ln@, x),
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "ll"@ { self.cnt_of(AabLinkMirror::L, x) } else if name == "l_l"@ { self.cnt_of(AabLinkMirror::L, x) } else if name == "n"@ { self.cnt_of(AabLinkMirror::L, x) + self.cnt_of(AabLinkMirror::L11, x) } else if name == "g11"@ { self.cnt_of(AabLinkMirror::L11, x) } else if name == "g1"@ { self.cnt_of(AabLinkMirror::L11, x) } else if name == "g"@ { self.cnt_of(AabLinkMirror::Ln, x) } else if name == "gg"@ { self.cnt_of(AabLinkMirror::Ln, x) } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<AabLinkMirror> { if name == "l"@ { Some(AabLinkMirror::L) } else if name == "l11"@ { Some(AabLinkMirror::L11) } else if name == "ln"@ { Some(AabLinkMirror::Ln) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<AabLoGMirror> { if name == "l"@ { Some(AabLoGMirror::L) } else if name == "l11"@ { Some(AabLoGMirror::L11) } else if name == "ln"@ { Some(AabLoGMirror::Ln) } else if name == "ll"@ { Some(AabLoGMirror::Ll) } else if name == "l_l"@ { Some(AabLoGMirror::LL) } else if name == "n"@ { Some(AabLoGMirror::N) } else if name == "g11"@ { Some(AabLoGMirror::G11) } else if name == "g1"@ { Some(AabLoGMirror::G1) } else if name == "g"@ { Some(AabLoGMirror::G) } else if name == "gg"@ { Some(AabLoGMirror::Gg) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { if name == "n"@ { vf_any::<usize, T>(self.n) } else if name == "n_"@ { vf_any::<usize, T>(self.n_) } else if name == "_n"@ { vf_any::<usize, T>(self._n) } else if name == "x_y"@ { vf_any::<String, T>(self.x_y) } else if name == "xy"@ { vf_any::<String, T>(self.xy) } else { None } }
  open spec fn names() -> Seq<&'static str> { seq!["l", "l11", "ln"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Point, LinkType::Set, LinkType::Vec] }
  open spec fn mirrors() -> Seq<AabLinkMirror> { seq![AabLinkMirror::L, AabLinkMirror::L11, AabLinkMirror::Ln] }
  open spec fn dnames() -> Seq<&'static str> { seq!["n", "n_", "_n", "x_y", "xy"] }
  proof fn law_has(&self, l: AabLinkMirror, x: NodeIndex) {
    if l is L && self.has(l, x) { assert(self.links().contains((x, AabSource::L))); }
    if l is L11 && self.has(l, x) { assert(self.links().contains((x, AabSource::L11))); }
    if l is Ln && self.has(l, x) { let j = choose|j: int| 0 <= j < self.ln@.len() && self.ln@[j] == x; assert(self.ln.len() == self.ln@.len()); assert(self.links().contains((x, AabSource::Ln(j as usize)))); }
    if l is Ln { assert forall|s: AabSource| #[trigger] self.links().contains((x, s)) && Self::mirror(s) == l implies self.has(l, x) by { } }
  }
}
impl AabSource {
/*@fn gen:gf.rs AabSource::to_link_mirror
#props C12
#ensures
  r == Aab::mirror(self),
@*/
}
impl AabLinkMirror {
/*@fn gen:gf.rs AabLinkMirror::to_source
#props C12
#requires[T]
  !Aab::is_vec(self),
#ensures
  r == Aab::source(self), !Aab::is_vec(self),
@*/
}
impl AabLoGMirror {
/*@fn gen:gf.rs AabLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> Aab::in_log(self, #[trigger] r@[i]),
  forall|l: AabLinkMirror| #[trigger] Aab::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is L { assert(vf_ret@.contains(AabLinkMirror::L)); }
    if self is L11 { assert(vf_ret@.contains(AabLinkMirror::L11)); }
    if self is Ln { assert(vf_ret@.contains(AabLinkMirror::Ln)); }
    if self is Ll { assert(vf_ret@.contains(AabLinkMirror::L)); }
    if self is LL { assert(vf_ret@.contains(AabLinkMirror::L)); }
    if self is N { assert(vf_ret@.contains(AabLinkMirror::L)); assert(vf_ret@.contains(AabLinkMirror::L11)); }
    if self is G11 { assert(vf_ret@.contains(AabLinkMirror::L11)); }
    if self is G1 { assert(vf_ret@.contains(AabLinkMirror::L11)); }
    if self is G { assert(vf_ret@.contains(AabLinkMirror::Ln)); }
    if self is Gg { assert(vf_ret@.contains(AabLinkMirror::Ln)); }
  }
@*/
}
impl TypedNode for Aab {
/*@fn gen:gf.rs Aab as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.l11 before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.l11
  forall|p: (NodeIndex, AabSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == AabSource::L11 && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.l11 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.l11 after
  proof { met_all(self.l11@, vf_all$n); }
#loop @self.ln before
  let ghost vf_pre$n = sources@;
#loop @self.ln
  forall|p: (NodeIndex, AabSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 is Ln && p.1->Ln_0 < vf_it$n.pos() && self.ln@[p.1->Ln_0 as int] == p.0),
  sources@.no_duplicates(),
#end
  proof {
    assert forall|p: (NodeIndex, AabSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:gf.rs Aab as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.l11 before
  proof { met_none(vf_all$n); }
#loop @self.l11
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.l11 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.l11 after
  proof { met_all(self.l11@, vf_all$n); }
#loop @self.ln before
  proof { take_none(self.ln@); }
#loop @self.ln
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 == 0 { 0 } else { cnt(self.ln@.take(vf_it$n.pos() as int), x) }),
#loop @self.ln begin
  proof { cnt_take(self.ln@, vf_it$n.pos() - 1); }
#loop @self.ln after
  proof { take_all(self.ln@); }
@*/
/*@fn gen:gf.rs Aab as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if self.l.0 != 0 { assert(self.links().contains((self.l, AabSource::L))); }
    if source is Ln { let j = source->Ln_0 as int; if self.ln@[j].0 != 0 { assert(self.links().contains((self.ln@[j], source))); } }
  }
#end
  proof { assert forall|p: (NodeIndex, AabSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == AabSource::L || q == AabSource::L11 || q is Ln); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gf.rs Aab as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.l.0 != 0 { assert(self.links().contains((self.l, AabSource::L))); }
  }
#end
  proof { assert forall|p: (NodeIndex, AabSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == AabSource::L || q == AabSource::L11 || q is Ln); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:gf.rs Aab as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, AabSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == AabSource::L || q == AabSource::L11 || q is Ln); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:gf.rs Aab as TypedNode::contains_link
#props C12 C04
#loop @self.ln before
  proof { take_none(self.ln@); }
#loop @self.ln
  vf_acc$n == self.ln@.take(vf_it$n.pos() as int).contains(target),
#loop @self.ln begin
  proof { take_step(self.ln@, vf_it$n.pos() - 1); }
#loop @self.ln after
  proof { take_all(self.ln@); }
@*/
/*@fn gen:gf.rs Aab as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:gf.rs Aab as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:gf.rs Aab as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:gf.rs Aab as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:gf.rs Aab as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("_n"); reveal_strlit("g"); reveal_strlit("g1"); reveal_strlit("g11"); reveal_strlit("gg"); reveal_strlit("l"); reveal_strlit("l11"); reveal_strlit("l_l"); reveal_strlit("ll"); reveal_strlit("ln"); reveal_strlit("n"); reveal_strlit("n_"); reveal_strlit("x_y"); reveal_strlit("xy"); assert("_n"@.len() != "g"@.len()); assert("_n"@[0] != "g1"@[0]); assert("_n"@.len() != "g11"@.len()); assert("_n"@[0] != "gg"@[0]); assert("_n"@.len() != "l"@.len()); assert("_n"@.len() != "l11"@.len()); assert("_n"@.len() != "l_l"@.len()); assert("_n"@[0] != "ll"@[0]); assert("_n"@[0] != "ln"@[0]); assert("_n"@.len() != "n"@.len()); assert("_n"@[0] != "n_"@[0]); assert("_n"@.len() != "x_y"@.len()); assert("_n"@[0] != "xy"@[0]); assert("g"@.len() != "g1"@.len()); assert("g"@.len() != "g11"@.len()); assert("g"@.len() != "gg"@.len()); assert("g"@[0] != "l"@[0]); assert("g"@.len() != "l11"@.len()); assert("g"@.len() != "l_l"@.len()); assert("g"@.len() != "ll"@.len()); assert("g"@.len() != "ln"@.len()); assert("g"@[0] != "n"@[0]); assert("g"@.len() != "n_"@.len()); assert("g"@.len() != "x_y"@.len()); assert("g"@.len() != "xy"@.len()); assert("g1"@.len() != "g11"@.len()); assert("g1"@[1] != "gg"@[1]); assert("g1"@.len() != "l"@.len()); assert("g1"@.len() != "l11"@.len()); assert("g1"@.len() != "l_l"@.len()); assert("g1"@[0] != "ll"@[0]); assert("g1"@[0] != "ln"@[0]); assert("g1"@.len() != "n"@.len()); assert("g1"@[0] != "n_"@[0]); assert("g1"@.len() != "x_y"@.len()); assert("g1"@[0] != "xy"@[0]); assert("g11"@.len() != "gg"@.len()); assert("g11"@.len() != "l"@.len()); assert("g11"@[0] != "l11"@[0]); assert("g11"@[0] != "l_l"@[0]); assert("g11"@.len() != "ll"@.len()); assert("g11"@.len() != "ln"@.len()); assert("g11"@.len() != "n"@.len()); assert("g11"@.len() != "n_"@.len()); assert("g11"@[0] != "x_y"@[0]); assert("g11"@.len() != "xy"@.len()); assert("gg"@.len() != "l"@.len()); assert("gg"@.len() != "l11"@.len()); assert("gg"@.len() != "l_l"@.len()); assert("gg"@[0] != "ll"@[0]); assert("gg"@[0] != "ln"@[0]); assert("gg"@.len() != "n"@.len()); assert("gg"@[0] != "n_"@[0]); assert("gg"@.len() != "x_y"@.len()); assert("gg"@[0] != "xy"@[0]); assert("l"@.len() != "l11"@.len()); assert("l"@.len() != "l_l"@.len()); assert("l"@.len() != "ll"@.len()); assert("l"@.len() != "ln"@.len()); assert("l"@[0] != "n"@[0]); assert("l"@.len() != "n_"@.len()); assert("l"@.len() != "x_y"@.len()); assert("l"@.len() != "xy"@.len()); assert("l11"@[1] != "l_l"@[1]); assert("l11"@.len() != "ll"@.len()); assert("l11"@.len() != "ln"@.len()); assert("l11"@.len() != "n"@.len()); assert("l11"@.len() != "n_"@.len()); assert("l11"@[0] != "x_y"@[0]); assert("l11"@.len() != "xy"@.len()); assert("l_l"@.len() != "ll"@.len()); assert("l_l"@.len() != "ln"@.len()); assert("l_l"@.len() != "n"@.len()); assert("l_l"@.len() != "n_"@.len()); assert("l_l"@[0] != "x_y"@[0]); assert("l_l"@.len() != "xy"@.len()); assert("ll"@[1] != "ln"@[1]); assert("ll"@.len() != "n"@.len()); assert("ll"@[0] != "n_"@[0]); assert("ll"@.len() != "x_y"@.len()); assert("ll"@[0] != "xy"@[0]); assert("ln"@.len() != "n"@.len()); assert("ln"@[0] != "n_"@[0]); assert("ln"@.len() != "x_y"@.len()); assert("ln"@[0] != "xy"@[0]); assert("n"@.len() != "n_"@.len()); assert("n"@.len() != "x_y"@.len()); assert("n"@.len() != "xy"@.len()); assert("n_"@.len() != "x_y"@.len()); assert("n_"@[0] != "xy"@[0]); assert("x_y"@.len() != "xy"@.len()); }
@*/
/*@fn gen:gf.rs Aab as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("_n"); reveal_strlit("g"); reveal_strlit("g1"); reveal_strlit("g11"); reveal_strlit("gg"); reveal_strlit("l"); reveal_strlit("l11"); reveal_strlit("l_l"); reveal_strlit("ll"); reveal_strlit("ln"); reveal_strlit("n"); reveal_strlit("n_"); reveal_strlit("x_y"); reveal_strlit("xy"); assert("_n"@.len() != "g"@.len()); assert("_n"@[0] != "g1"@[0]); assert("_n"@.len() != "g11"@.len()); assert("_n"@[0] != "gg"@[0]); assert("_n"@.len() != "l"@.len()); assert("_n"@.len() != "l11"@.len()); assert("_n"@.len() != "l_l"@.len()); assert("_n"@[0] != "ll"@[0]); assert("_n"@[0] != "ln"@[0]); assert("_n"@.len() != "n"@.len()); assert("_n"@[0] != "n_"@[0]); assert("_n"@.len() != "x_y"@.len()); assert("_n"@[0] != "xy"@[0]); assert("g"@.len() != "g1"@.len()); assert("g"@.len() != "g11"@.len()); assert("g"@.len() != "gg"@.len()); assert("g"@[0] != "l"@[0]); assert("g"@.len() != "l11"@.len()); assert("g"@.len() != "l_l"@.len()); assert("g"@.len() != "ll"@.len()); assert("g"@.len() != "ln"@.len()); assert("g"@[0] != "n"@[0]); assert("g"@.len() != "n_"@.len()); assert("g"@.len() != "x_y"@.len()); assert("g"@.len() != "xy"@.len()); assert("g1"@.len() != "g11"@.len()); assert("g1"@[1] != "gg"@[1]); assert("g1"@.len() != "l"@.len()); assert("g1"@.len() != "l11"@.len()); assert("g1"@.len() != "l_l"@.len()); assert("g1"@[0] != "ll"@[0]); assert("g1"@[0] != "ln"@[0]); assert("g1"@.len() != "n"@.len()); assert("g1"@[0] != "n_"@[0]); assert("g1"@.len() != "x_y"@.len()); assert("g1"@[0] != "xy"@[0]); assert("g11"@.len() != "gg"@.len()); assert("g11"@.len() != "l"@.len()); assert("g11"@[0] != "l11"@[0]); assert("g11"@[0] != "l_l"@[0]); assert("g11"@.len() != "ll"@.len()); assert("g11"@.len() != "ln"@.len()); assert("g11"@.len() != "n"@.len()); assert("g11"@.len() != "n_"@.len()); assert("g11"@[0] != "x_y"@[0]); assert("g11"@.len() != "xy"@.len()); assert("gg"@.len() != "l"@.len()); assert("gg"@.len() != "l11"@.len()); assert("gg"@.len() != "l_l"@.len()); assert("gg"@[0] != "ll"@[0]); assert("gg"@[0] != "ln"@[0]); assert("gg"@.len() != "n"@.len()); assert("gg"@[0] != "n_"@[0]); assert("gg"@.len() != "x_y"@.len()); assert("gg"@[0] != "xy"@[0]); assert("l"@.len() != "l11"@.len()); assert("l"@.len() != "l_l"@.len()); assert("l"@.len() != "ll"@.len()); assert("l"@.len() != "ln"@.len()); assert("l"@[0] != "n"@[0]); assert("l"@.len() != "n_"@.len()); assert("l"@.len() != "x_y"@.len()); assert("l"@.len() != "xy"@.len()); assert("l11"@[1] != "l_l"@[1]); assert("l11"@.len() != "ll"@.len()); assert("l11"@.len() != "ln"@.len()); assert("l11"@.len() != "n"@.len()); assert("l11"@.len() != "n_"@.len()); assert("l11"@[0] != "x_y"@[0]); assert("l11"@.len() != "xy"@.len()); assert("l_l"@.len() != "ll"@.len()); assert("l_l"@.len() != "ln"@.len()); assert("l_l"@.len() != "n"@.len()); assert("l_l"@.len() != "n_"@.len()); assert("l_l"@[0] != "x_y"@[0]); assert("l_l"@.len() != "xy"@.len()); assert("ll"@[1] != "ln"@[1]); assert("ll"@.len() != "n"@.len()); assert("ll"@[0] != "n_"@[0]); assert("ll"@.len() != "x_y"@.len()); assert("ll"@[0] != "xy"@[0]); assert("ln"@.len() != "n"@.len()); assert("ln"@[0] != "n_"@[0]); assert("ln"@.len() != "x_y"@.len()); assert("ln"@[0] != "xy"@[0]); assert("n"@.len() != "n_"@.len()); assert("n"@.len() != "x_y"@.len()); assert("n"@.len() != "xy"@.len()); assert("n_"@.len() != "x_y"@.len()); assert("n_"@[0] != "xy"@[0]); assert("x_y"@.len() != "xy"@.len()); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gf.rs Aab as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("_n"); reveal_strlit("g"); reveal_strlit("g1"); reveal_strlit("g11"); reveal_strlit("gg"); reveal_strlit("l"); reveal_strlit("l11"); reveal_strlit("l_l"); reveal_strlit("ll"); reveal_strlit("ln"); reveal_strlit("n"); reveal_strlit("n_"); reveal_strlit("x_y"); reveal_strlit("xy"); assert("_n"@.len() != "g"@.len()); assert("_n"@[0] != "g1"@[0]); assert("_n"@.len() != "g11"@.len()); assert("_n"@[0] != "gg"@[0]); assert("_n"@.len() != "l"@.len()); assert("_n"@.len() != "l11"@.len()); assert("_n"@.len() != "l_l"@.len()); assert("_n"@[0] != "ll"@[0]); assert("_n"@[0] != "ln"@[0]); assert("_n"@.len() != "n"@.len()); assert("_n"@[0] != "n_"@[0]); assert("_n"@.len() != "x_y"@.len()); assert("_n"@[0] != "xy"@[0]); assert("g"@.len() != "g1"@.len()); assert("g"@.len() != "g11"@.len()); assert("g"@.len() != "gg"@.len()); assert("g"@[0] != "l"@[0]); assert("g"@.len() != "l11"@.len()); assert("g"@.len() != "l_l"@.len()); assert("g"@.len() != "ll"@.len()); assert("g"@.len() != "ln"@.len()); assert("g"@[0] != "n"@[0]); assert("g"@.len() != "n_"@.len()); assert("g"@.len() != "x_y"@.len()); assert("g"@.len() != "xy"@.len()); assert("g1"@.len() != "g11"@.len()); assert("g1"@[1] != "gg"@[1]); assert("g1"@.len() != "l"@.len()); assert("g1"@.len() != "l11"@.len()); assert("g1"@.len() != "l_l"@.len()); assert("g1"@[0] != "ll"@[0]); assert("g1"@[0] != "ln"@[0]); assert("g1"@.len() != "n"@.len()); assert("g1"@[0] != "n_"@[0]); assert("g1"@.len() != "x_y"@.len()); assert("g1"@[0] != "xy"@[0]); assert("g11"@.len() != "gg"@.len()); assert("g11"@.len() != "l"@.len()); assert("g11"@[0] != "l11"@[0]); assert("g11"@[0] != "l_l"@[0]); assert("g11"@.len() != "ll"@.len()); assert("g11"@.len() != "ln"@.len()); assert("g11"@.len() != "n"@.len()); assert("g11"@.len() != "n_"@.len()); assert("g11"@[0] != "x_y"@[0]); assert("g11"@.len() != "xy"@.len()); assert("gg"@.len() != "l"@.len()); assert("gg"@.len() != "l11"@.len()); assert("gg"@.len() != "l_l"@.len()); assert("gg"@[0] != "ll"@[0]); assert("gg"@[0] != "ln"@[0]); assert("gg"@.len() != "n"@.len()); assert("gg"@[0] != "n_"@[0]); assert("gg"@.len() != "x_y"@.len()); assert("gg"@[0] != "xy"@[0]); assert("l"@.len() != "l11"@.len()); assert("l"@.len() != "l_l"@.len()); assert("l"@.len() != "ll"@.len()); assert("l"@.len() != "ln"@.len()); assert("l"@[0] != "n"@[0]); assert("l"@.len() != "n_"@.len()); assert("l"@.len() != "x_y"@.len()); assert("l"@.len() != "xy"@.len()); assert("l11"@[1] != "l_l"@[1]); assert("l11"@.len() != "ll"@.len()); assert("l11"@.len() != "ln"@.len()); assert("l11"@.len() != "n"@.len()); assert("l11"@.len() != "n_"@.len()); assert("l11"@[0] != "x_y"@[0]); assert("l11"@.len() != "xy"@.len()); assert("l_l"@.len() != "ll"@.len()); assert("l_l"@.len() != "ln"@.len()); assert("l_l"@.len() != "n"@.len()); assert("l_l"@.len() != "n_"@.len()); assert("l_l"@[0] != "x_y"@[0]); assert("l_l"@.len() != "xy"@.len()); assert("ll"@[1] != "ln"@[1]); assert("ll"@.len() != "n"@.len()); assert("ll"@[0] != "n_"@[0]); assert("ll"@.len() != "x_y"@.len()); assert("ll"@[0] != "xy"@[0]); assert("ln"@.len() != "n"@.len()); assert("ln"@[0] != "n_"@[0]); assert("ln"@.len() != "x_y"@.len()); assert("ln"@[0] != "xy"@[0]); assert("n"@.len() != "n_"@.len()); assert("n"@.len() != "x_y"@.len()); assert("n"@.len() != "xy"@.len()); assert("n_"@.len() != "x_y"@.len()); assert("n_"@[0] != "xy"@[0]); assert("x_y"@.len() != "xy"@.len()); }
@*/
/*@fn gen:gf.rs Aab as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("_n"); reveal_strlit("g"); reveal_strlit("g1"); reveal_strlit("g11"); reveal_strlit("gg"); reveal_strlit("l"); reveal_strlit("l11"); reveal_strlit("l_l"); reveal_strlit("ll"); reveal_strlit("ln"); reveal_strlit("n"); reveal_strlit("n_"); reveal_strlit("x_y"); reveal_strlit("xy"); assert("_n"@.len() != "g"@.len()); assert("_n"@[0] != "g1"@[0]); assert("_n"@.len() != "g11"@.len()); assert("_n"@[0] != "gg"@[0]); assert("_n"@.len() != "l"@.len()); assert("_n"@.len() != "l11"@.len()); assert("_n"@.len() != "l_l"@.len()); assert("_n"@[0] != "ll"@[0]); assert("_n"@[0] != "ln"@[0]); assert("_n"@.len() != "n"@.len()); assert("_n"@[0] != "n_"@[0]); assert("_n"@.len() != "x_y"@.len()); assert("_n"@[0] != "xy"@[0]); assert("g"@.len() != "g1"@.len()); assert("g"@.len() != "g11"@.len()); assert("g"@.len() != "gg"@.len()); assert("g"@[0] != "l"@[0]); assert("g"@.len() != "l11"@.len()); assert("g"@.len() != "l_l"@.len()); assert("g"@.len() != "ll"@.len()); assert("g"@.len() != "ln"@.len()); assert("g"@[0] != "n"@[0]); assert("g"@.len() != "n_"@.len()); assert("g"@.len() != "x_y"@.len()); assert("g"@.len() != "xy"@.len()); assert("g1"@.len() != "g11"@.len()); assert("g1"@[1] != "gg"@[1]); assert("g1"@.len() != "l"@.len()); assert("g1"@.len() != "l11"@.len()); assert("g1"@.len() != "l_l"@.len()); assert("g1"@[0] != "ll"@[0]); assert("g1"@[0] != "ln"@[0]); assert("g1"@.len() != "n"@.len()); assert("g1"@[0] != "n_"@[0]); assert("g1"@.len() != "x_y"@.len()); assert("g1"@[0] != "xy"@[0]); assert("g11"@.len() != "gg"@.len()); assert("g11"@.len() != "l"@.len()); assert("g11"@[0] != "l11"@[0]); assert("g11"@[0] != "l_l"@[0]); assert("g11"@.len() != "ll"@.len()); assert("g11"@.len() != "ln"@.len()); assert("g11"@.len() != "n"@.len()); assert("g11"@.len() != "n_"@.len()); assert("g11"@[0] != "x_y"@[0]); assert("g11"@.len() != "xy"@.len()); assert("gg"@.len() != "l"@.len()); assert("gg"@.len() != "l11"@.len()); assert("gg"@.len() != "l_l"@.len()); assert("gg"@[0] != "ll"@[0]); assert("gg"@[0] != "ln"@[0]); assert("gg"@.len() != "n"@.len()); assert("gg"@[0] != "n_"@[0]); assert("gg"@.len() != "x_y"@.len()); assert("gg"@[0] != "xy"@[0]); assert("l"@.len() != "l11"@.len()); assert("l"@.len() != "l_l"@.len()); assert("l"@.len() != "ll"@.len()); assert("l"@.len() != "ln"@.len()); assert("l"@[0] != "n"@[0]); assert("l"@.len() != "n_"@.len()); assert("l"@.len() != "x_y"@.len()); assert("l"@.len() != "xy"@.len()); assert("l11"@[1] != "l_l"@[1]); assert("l11"@.len() != "ll"@.len()); assert("l11"@.len() != "ln"@.len()); assert("l11"@.len() != "n"@.len()); assert("l11"@.len() != "n_"@.len()); assert("l11"@[0] != "x_y"@[0]); assert("l11"@.len() != "xy"@.len()); assert("l_l"@.len() != "ll"@.len()); assert("l_l"@.len() != "ln"@.len()); assert("l_l"@.len() != "n"@.len()); assert("l_l"@.len() != "n_"@.len()); assert("l_l"@[0] != "x_y"@[0]); assert("l_l"@.len() != "xy"@.len()); assert("ll"@[1] != "ln"@[1]); assert("ll"@.len() != "n"@.len()); assert("ll"@[0] != "n_"@[0]); assert("ll"@.len() != "x_y"@.len()); assert("ll"@[0] != "xy"@[0]); assert("ln"@.len() != "n"@.len()); assert("ln"@[0] != "n_"@[0]); assert("ln"@.len() != "x_y"@.len()); assert("ln"@[0] != "xy"@[0]); assert("n"@.len() != "n_"@.len()); assert("n"@.len() != "x_y"@.len()); assert("n"@.len() != "xy"@.len()); assert("n_"@.len() != "x_y"@.len()); assert("n_"@[0] != "xy"@[0]); assert("x_y"@.len() != "xy"@.len()); }
@*/
/*@fn gen:gf.rs Aab as TypedNode::to_source
#props C12
@*/
/*@fn gen:gf.rs Aab as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:gf.rs Aab as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is L { assert(vf_ret@.contains(AabLoGMirror::L)); assert(vf_ret@.contains(AabLoGMirror::Ll)); assert(vf_ret@.contains(AabLoGMirror::LL)); assert(vf_ret@.contains(AabLoGMirror::N)); }
    if input is L11 { assert(vf_ret@.contains(AabLoGMirror::L11)); assert(vf_ret@.contains(AabLoGMirror::N)); assert(vf_ret@.contains(AabLoGMirror::G11)); assert(vf_ret@.contains(AabLoGMirror::G1)); }
    if input is Ln { assert(vf_ret@.contains(AabLoGMirror::Ln)); assert(vf_ret@.contains(AabLoGMirror::G)); assert(vf_ret@.contains(AabLoGMirror::Gg)); }
  }
@*/
}
// ---------------- AaB ----------------
/*@struct gen:gf.rs AaB
@*/
/*@enum gen:gf.rs AaBSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gf.rs AaBLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gf.rs AaBLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_aa_b { pub use super::*; }
pub struct AaBData { pub l: u64, }
impl TypedSpec for AaB {
  type Source = AaBSource;
  type LinkMirror = AaBLinkMirror;
  type LoGMirror = AaBLoGMirror;
  type DataT = AaBData;
  open spec fn links(&self) -> ISet<(NodeIndex, AaBSource)> {
    ISet::new(|p: (NodeIndex, AaBSource)| p.0.0 != 0 && match p.1 {
      AaBSource::Next => self.next == p.0,
      AaBSource::Next1 => self.next1 == p.0,
      AaBSource::Nex => self.nex@.contains(p.0),
      AaBSource::T => self.t == p.0,
    })
  }
  open spec fn data(&self) -> AaBData { AaBData { l: self.l, } }
  open spec fn place_ok(d: AaBData, s: AaBSource) -> bool { match s {
      AaBSource::Next => true,
      AaBSource::Next1 => true,
      AaBSource::Nex => true,
      AaBSource::T => true,
  } }
  open spec fn single(s: AaBSource) -> bool { match s {
      AaBSource::Next => true,
      AaBSource::Next1 => true,
      AaBSource::Nex => false,
      AaBSource::T => true,
  } }
  open spec fn mirror(s: AaBSource) -> AaBLinkMirror { match s {
      AaBSource::Next => AaBLinkMirror::Next,
      AaBSource::Next1 => AaBLinkMirror::Next1,
      AaBSource::Nex => AaBLinkMirror::Nex,
      AaBSource::T => AaBLinkMirror::T,
  } }
  open spec fn source(l: AaBLinkMirror) -> AaBSource { match l {
      AaBLinkMirror::Next => AaBSource::Next,
      AaBLinkMirror::Next1 => AaBSource::Next1,
      AaBLinkMirror::Nex => AaBSource::Nex,
      AaBLinkMirror::T => AaBSource::T,
  } }
  open spec fn is_vec(l: AaBLinkMirror) -> bool { match l {
      AaBLinkMirror::Next => false,
      AaBLinkMirror::Next1 => false,
      AaBLinkMirror::Nex => false,
      AaBLinkMirror::T => false,
  } }
  open spec fn is_field(l: AaBLinkMirror) -> bool { true }
  open spec fn in_log(g: AaBLoGMirror, l: AaBLinkMirror) -> bool { match (g, l) {
    (AaBLoGMirror::Next, AaBLinkMirror::Next) => true,
    (AaBLoGMirror::Next1, AaBLinkMirror::Next1) => true,
    (AaBLoGMirror::Nex, AaBLinkMirror::Nex) => true,
    (AaBLoGMirror::T, AaBLinkMirror::T) => true,
    (AaBLoGMirror::G, AaBLinkMirror::Next) => true,
    (AaBLoGMirror::G, AaBLinkMirror::Nex) => true,
    (AaBLoGMirror::L11, AaBLinkMirror::Next) => true,
    (AaBLoGMirror::NExt, AaBLinkMirror::Next) => true,
    (AaBLoGMirror::NExt, AaBLinkMirror::Next1) => true,
    (AaBLoGMirror::G1, AaBLinkMirror::Nex) => true,
    _ => false,
  } }
  open spec fn has(&self, l: AaBLinkMirror, x: NodeIndex) -> bool { match l {
      AaBLinkMirror::Next => self.next == x,
      AaBLinkMirror::Next1 => self.next1 == x,
      AaBLinkMirror::Nex => self.nex@.contains(x),
      AaBLinkMirror::T => self.t == x,
  } }
  open spec fn cnt_of(&self, l: AaBLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      AaBLinkMirror::Next => if self.next == x { 1 } else { 0 },
      AaBLinkMirror::Next1 => if self.next1 == x { 1 } else { 0 },
      AaBLinkMirror::Nex => if self.nex@.contains(x) { 1 } else { 0 },
      AaBLinkMirror::T => if self.t == x { 1 } else { 0 },
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "g"@ { self.cnt_of(AaBLinkMirror::Next, x) + self.cnt_of(AaBLinkMirror::Nex, x) } else if name == "l11"@ { self.cnt_of(AaBLinkMirror::Next, x) } else if name == "n_ext"@ { self.cnt_of(AaBLinkMirror::Next, x) + self.cnt_of(AaBLinkMirror::Next1, x) } else if name == "g1"@ { self.cnt_of(AaBLinkMirror::Nex, x) } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<AaBLinkMirror> { if name == "next"@ { Some(AaBLinkMirror::Next) } else if name == "next1"@ { Some(AaBLinkMirror::Next1) } else if name == "nex"@ { Some(AaBLinkMirror::Nex) } else if name == "t"@ { Some(AaBLinkMirror::T) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<AaBLoGMirror> { if name == "next"@ { Some(AaBLoGMirror::Next) } else if name == "next1"@ { Some(AaBLoGMirror::Next1) } else if name == "nex"@ { Some(AaBLoGMirror::Nex) } else if name == "t"@ { Some(AaBLoGMirror::T) } else if name == "g"@ { Some(AaBLoGMirror::G) } else if name == "l11"@ { Some(AaBLoGMirror::L11) } else if name == "n_ext"@ { Some(AaBLoGMirror::NExt) } else if name == "g1"@ { Some(AaBLoGMirror::G1) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { if name == "l"@ { vf_any::<u64, T>(self.l) } else { None } }
  open spec fn names() -> Seq<&'static str> { seq!["next", "next1", "nex", "t"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Point, LinkType::Point, LinkType::Set, LinkType::Point] }
  open spec fn mirrors() -> Seq<AaBLinkMirror> { seq![AaBLinkMirror::Next, AaBLinkMirror::Next1, AaBLinkMirror::Nex, AaBLinkMirror::T] }
  open spec fn dnames() -> Seq<&'static str> { seq!["l"] }
  proof fn law_has(&self, l: AaBLinkMirror, x: NodeIndex) {
    if l is Next && self.has(l, x) { assert(self.links().contains((x, AaBSource::Next))); }
    if l is Next1 && self.has(l, x) { assert(self.links().contains((x, AaBSource::Next1))); }
    if l is Nex && self.has(l, x) { assert(self.links().contains((x, AaBSource::Nex))); }
    if l is T && self.has(l, x) { assert(self.links().contains((x, AaBSource::T))); }
  }
}
impl AaBSource {
/*@fn gen:gf.rs AaBSource::to_link_mirror
#props C12
#ensures
  r == AaB::mirror(self),
@*/
}
impl AaBLinkMirror {
/*@fn gen:gf.rs AaBLinkMirror::to_source
#props C12
#requires[T]
  !AaB::is_vec(self),
#ensures
  r == AaB::source(self), !AaB::is_vec(self),
@*/
}
impl AaBLoGMirror {
/*@fn gen:gf.rs AaBLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> AaB::in_log(self, #[trigger] r@[i]),
  forall|l: AaBLinkMirror| #[trigger] AaB::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is Next { assert(vf_ret@.contains(AaBLinkMirror::Next)); }
    if self is Next1 { assert(vf_ret@.contains(AaBLinkMirror::Next1)); }
    if self is Nex { assert(vf_ret@.contains(AaBLinkMirror::Nex)); }
    if self is T { assert(vf_ret@.contains(AaBLinkMirror::T)); }
    if self is G { assert(vf_ret@.contains(AaBLinkMirror::Next)); assert(vf_ret@.contains(AaBLinkMirror::Nex)); }
    if self is L11 { assert(vf_ret@.contains(AaBLinkMirror::Next)); }
    if self is NExt { assert(vf_ret@.contains(AaBLinkMirror::Next)); assert(vf_ret@.contains(AaBLinkMirror::Next1)); }
    if self is G1 { assert(vf_ret@.contains(AaBLinkMirror::Nex)); }
  }
@*/
}
impl TypedNode for AaB {
/*@fn gen:gf.rs AaB as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.nex before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.nex
  forall|p: (NodeIndex, AaBSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == AaBSource::Nex && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.nex begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.nex after
  proof { met_all(self.nex@, vf_all$n); }
#end
  proof {
    assert forall|p: (NodeIndex, AaBSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:gf.rs AaB as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.nex before
  proof { met_none(vf_all$n); }
#loop @self.nex
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.nex begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.nex after
  proof { met_all(self.nex@, vf_all$n); }
@*/
/*@fn gen:gf.rs AaB as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if self.next.0 != 0 { assert(self.links().contains((self.next, AaBSource::Next))); }
    if self.next1.0 != 0 { assert(self.links().contains((self.next1, AaBSource::Next1))); }
    if self.t.0 != 0 { assert(self.links().contains((self.t, AaBSource::T))); }
  }
#end
  proof { assert forall|p: (NodeIndex, AaBSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == AaBSource::Next || q == AaBSource::Next1 || q == AaBSource::Nex || q == AaBSource::T); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gf.rs AaB as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.next.0 != 0 { assert(self.links().contains((self.next, AaBSource::Next))); }
    if self.next1.0 != 0 { assert(self.links().contains((self.next1, AaBSource::Next1))); }
    if self.t.0 != 0 { assert(self.links().contains((self.t, AaBSource::T))); }
  }
#end
  proof { assert forall|p: (NodeIndex, AaBSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == AaBSource::Next || q == AaBSource::Next1 || q == AaBSource::Nex || q == AaBSource::T); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:gf.rs AaB as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, AaBSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == AaBSource::Next || q == AaBSource::Next1 || q == AaBSource::Nex || q == AaBSource::T); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:gf.rs AaB as TypedNode::contains_link
#props C12 C04
@*/
/*@fn gen:gf.rs AaB as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:gf.rs AaB as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:gf.rs AaB as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:gf.rs AaB as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:gf.rs AaB as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("g"); reveal_strlit("g1"); reveal_strlit("l"); reveal_strlit("l11"); reveal_strlit("n_ext"); reveal_strlit("nex"); reveal_strlit("next"); reveal_strlit("next1"); reveal_strlit("t"); assert("g"@.len() != "g1"@.len()); assert("g"@[0] != "l"@[0]); assert("g"@.len() != "l11"@.len()); assert("g"@.len() != "n_ext"@.len()); assert("g"@.len() != "nex"@.len()); assert("g"@.len() != "next"@.len()); assert("g"@.len() != "next1"@.len()); assert("g"@[0] != "t"@[0]); assert("g1"@.len() != "l"@.len()); assert("g1"@.len() != "l11"@.len()); assert("g1"@.len() != "n_ext"@.len()); assert("g1"@.len() != "nex"@.len()); assert("g1"@.len() != "next"@.len()); assert("g1"@.len() != "next1"@.len()); assert("g1"@.len() != "t"@.len()); assert("l"@.len() != "l11"@.len()); assert("l"@.len() != "n_ext"@.len()); assert("l"@.len() != "nex"@.len()); assert("l"@.len() != "next"@.len()); assert("l"@.len() != "next1"@.len()); assert("l"@[0] != "t"@[0]); assert("l11"@.len() != "n_ext"@.len()); assert("l11"@[0] != "nex"@[0]); assert("l11"@.len() != "next"@.len()); assert("l11"@.len() != "next1"@.len()); assert("l11"@.len() != "t"@.len()); assert("n_ext"@.len() != "nex"@.len()); assert("n_ext"@.len() != "next"@.len()); assert("n_ext"@[1] != "next1"@[1]); assert("n_ext"@.len() != "t"@.len()); assert("nex"@.len() != "next"@.len()); assert("nex"@.len() != "next1"@.len()); assert("nex"@.len() != "t"@.len()); assert("next"@.len() != "next1"@.len()); assert("next"@.len() != "t"@.len()); assert("next1"@.len() != "t"@.len()); }
@*/
/*@fn gen:gf.rs AaB as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("g"); reveal_strlit("g1"); reveal_strlit("l"); reveal_strlit("l11"); reveal_strlit("n_ext"); reveal_strlit("nex"); reveal_strlit("next"); reveal_strlit("next1"); reveal_strlit("t"); assert("g"@.len() != "g1"@.len()); assert("g"@[0] != "l"@[0]); assert("g"@.len() != "l11"@.len()); assert("g"@.len() != "n_ext"@.len()); assert("g"@.len() != "nex"@.len()); assert("g"@.len() != "next"@.len()); assert("g"@.len() != "next1"@.len()); assert("g"@[0] != "t"@[0]); assert("g1"@.len() != "l"@.len()); assert("g1"@.len() != "l11"@.len()); assert("g1"@.len() != "n_ext"@.len()); assert("g1"@.len() != "nex"@.len()); assert("g1"@.len() != "next"@.len()); assert("g1"@.len() != "next1"@.len()); assert("g1"@.len() != "t"@.len()); assert("l"@.len() != "l11"@.len()); assert("l"@.len() != "n_ext"@.len()); assert("l"@.len() != "nex"@.len()); assert("l"@.len() != "next"@.len()); assert("l"@.len() != "next1"@.len()); assert("l"@[0] != "t"@[0]); assert("l11"@.len() != "n_ext"@.len()); assert("l11"@[0] != "nex"@[0]); assert("l11"@.len() != "next"@.len()); assert("l11"@.len() != "next1"@.len()); assert("l11"@.len() != "t"@.len()); assert("n_ext"@.len() != "nex"@.len()); assert("n_ext"@.len() != "next"@.len()); assert("n_ext"@[1] != "next1"@[1]); assert("n_ext"@.len() != "t"@.len()); assert("nex"@.len() != "next"@.len()); assert("nex"@.len() != "next1"@.len()); assert("nex"@.len() != "t"@.len()); assert("next"@.len() != "next1"@.len()); assert("next"@.len() != "t"@.len()); assert("next1"@.len() != "t"@.len()); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gf.rs AaB as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("g"); reveal_strlit("g1"); reveal_strlit("l"); reveal_strlit("l11"); reveal_strlit("n_ext"); reveal_strlit("nex"); reveal_strlit("next"); reveal_strlit("next1"); reveal_strlit("t"); assert("g"@.len() != "g1"@.len()); assert("g"@[0] != "l"@[0]); assert("g"@.len() != "l11"@.len()); assert("g"@.len() != "n_ext"@.len()); assert("g"@.len() != "nex"@.len()); assert("g"@.len() != "next"@.len()); assert("g"@.len() != "next1"@.len()); assert("g"@[0] != "t"@[0]); assert("g1"@.len() != "l"@.len()); assert("g1"@.len() != "l11"@.len()); assert("g1"@.len() != "n_ext"@.len()); assert("g1"@.len() != "nex"@.len()); assert("g1"@.len() != "next"@.len()); assert("g1"@.len() != "next1"@.len()); assert("g1"@.len() != "t"@.len()); assert("l"@.len() != "l11"@.len()); assert("l"@.len() != "n_ext"@.len()); assert("l"@.len() != "nex"@.len()); assert("l"@.len() != "next"@.len()); assert("l"@.len() != "next1"@.len()); assert("l"@[0] != "t"@[0]); assert("l11"@.len() != "n_ext"@.len()); assert("l11"@[0] != "nex"@[0]); assert("l11"@.len() != "next"@.len()); assert("l11"@.len() != "next1"@.len()); assert("l11"@.len() != "t"@.len()); assert("n_ext"@.len() != "nex"@.len()); assert("n_ext"@.len() != "next"@.len()); assert("n_ext"@[1] != "next1"@[1]); assert("n_ext"@.len() != "t"@.len()); assert("nex"@.len() != "next"@.len()); assert("nex"@.len() != "next1"@.len()); assert("nex"@.len() != "t"@.len()); assert("next"@.len() != "next1"@.len()); assert("next"@.len() != "t"@.len()); assert("next1"@.len() != "t"@.len()); }
@*/
/*@fn gen:gf.rs AaB as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("g"); reveal_strlit("g1"); reveal_strlit("l"); reveal_strlit("l11"); reveal_strlit("n_ext"); reveal_strlit("nex"); reveal_strlit("next"); reveal_strlit("next1"); reveal_strlit("t"); assert("g"@.len() != "g1"@.len()); assert("g"@[0] != "l"@[0]); assert("g"@.len() != "l11"@.len()); assert("g"@.len() != "n_ext"@.len()); assert("g"@.len() != "nex"@.len()); assert("g"@.len() != "next"@.len()); assert("g"@.len() != "next1"@.len()); assert("g"@[0] != "t"@[0]); assert("g1"@.len() != "l"@.len()); assert("g1"@.len() != "l11"@.len()); assert("g1"@.len() != "n_ext"@.len()); assert("g1"@.len() != "nex"@.len()); assert("g1"@.len() != "next"@.len()); assert("g1"@.len() != "next1"@.len()); assert("g1"@.len() != "t"@.len()); assert("l"@.len() != "l11"@.len()); assert("l"@.len() != "n_ext"@.len()); assert("l"@.len() != "nex"@.len()); assert("l"@.len() != "next"@.len()); assert("l"@.len() != "next1"@.len()); assert("l"@[0] != "t"@[0]); assert("l11"@.len() != "n_ext"@.len()); assert("l11"@[0] != "nex"@[0]); assert("l11"@.len() != "next"@.len()); assert("l11"@.len() != "next1"@.len()); assert("l11"@.len() != "t"@.len()); assert("n_ext"@.len() != "nex"@.len()); assert("n_ext"@.len() != "next"@.len()); assert("n_ext"@[1] != "next1"@[1]); assert("n_ext"@.len() != "t"@.len()); assert("nex"@.len() != "next"@.len()); assert("nex"@.len() != "next1"@.len()); assert("nex"@.len() != "t"@.len()); assert("next"@.len() != "next1"@.len()); assert("next"@.len() != "t"@.len()); assert("next1"@.len() != "t"@.len()); }
@*/
/*@fn gen:gf.rs AaB as TypedNode::to_source
#props C12
@*/
/*@fn gen:gf.rs AaB as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:gf.rs AaB as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is Next { assert(vf_ret@.contains(AaBLoGMirror::Next)); assert(vf_ret@.contains(AaBLoGMirror::G)); assert(vf_ret@.contains(AaBLoGMirror::L11)); assert(vf_ret@.contains(AaBLoGMirror::NExt)); }
    if input is Next1 { assert(vf_ret@.contains(AaBLoGMirror::Next1)); assert(vf_ret@.contains(AaBLoGMirror::NExt)); }
    if input is Nex { assert(vf_ret@.contains(AaBLoGMirror::Nex)); assert(vf_ret@.contains(AaBLoGMirror::G)); assert(vf_ret@.contains(AaBLoGMirror::G1)); }
    if input is T { assert(vf_ret@.contains(AaBLoGMirror::T)); }
  }
@*/
}
// ---------------- A ----------------
/*@struct gen:gf.rs A
@*/
/*@enum gen:gf.rs ASource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gf.rs ALinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gf.rs ALoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_a { pub use super::*; }
pub struct AData {  }
impl TypedSpec for A {
  type Source = ASource;
  type LinkMirror = ALinkMirror;
  type LoGMirror = ALoGMirror;
  type DataT = AData;
  open spec fn links(&self) -> ISet<(NodeIndex, ASource)> {
    ISet::new(|p: (NodeIndex, ASource)| p.0.0 != 0 && match p.1 {
      ASource::Aab => self.aab == p.0,
      ASource::AaB => self.aa_b == p.0,
      ASource::AaBs => self.aa_bs@.contains(p.0),
    })
  }
  open spec fn data(&self) -> AData { AData {  } }
  open spec fn place_ok(d: AData, s: ASource) -> bool { match s {
      ASource::Aab => true,
      ASource::AaB => true,
      ASource::AaBs => true,
  } }
  open spec fn single(s: ASource) -> bool { match s {
      ASource::Aab => true,
      ASource::AaB => true,
      ASource::AaBs => false,
  } }
  open spec fn mirror(s: ASource) -> ALinkMirror { match s {
      ASource::Aab => ALinkMirror::Aab,
      ASource::AaB => ALinkMirror::AaB,
      ASource::AaBs => ALinkMirror::AaBs,
  } }
  open spec fn source(l: ALinkMirror) -> ASource { match l {
      ALinkMirror::Aab => ASource::Aab,
      ALinkMirror::AaB => ASource::AaB,
      ALinkMirror::AaBs => ASource::AaBs,
  } }
  open spec fn is_vec(l: ALinkMirror) -> bool { match l {
      ALinkMirror::Aab => false,
      ALinkMirror::AaB => false,
      ALinkMirror::AaBs => false,
  } }
  open spec fn is_field(l: ALinkMirror) -> bool { true }
  open spec fn in_log(g: ALoGMirror, l: ALinkMirror) -> bool { match (g, l) {
    (ALoGMirror::Aab, ALinkMirror::Aab) => true,
    (ALoGMirror::AaB, ALinkMirror::AaB) => true,
    (ALoGMirror::AaBs, ALinkMirror::AaBs) => true,
    (ALoGMirror::Next, ALinkMirror::AaB) => true,
    (ALoGMirror::G, ALinkMirror::AaB) => true,
    _ => false,
  } }
  open spec fn has(&self, l: ALinkMirror, x: NodeIndex) -> bool { match l {
      ALinkMirror::Aab => self.aab == x,
      ALinkMirror::AaB => self.aa_b == x,
      ALinkMirror::AaBs => self.aa_bs@.contains(x),
  } }
  open spec fn cnt_of(&self, l: ALinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      ALinkMirror::Aab => if self.aab == x { 1 } else { 0 },
      ALinkMirror::AaB => if self.aa_b == x { 1 } else { 0 },
      ALinkMirror::AaBs => if self.aa_bs@.contains(x) { 1 } else { 0 },
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "next"@ { self.cnt_of(ALinkMirror::AaB, x) } else if name == "g"@ { self.cnt_of(ALinkMirror::AaB, x) } else if name == "n_ext"@ { 0 } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<ALinkMirror> { if name == "aab"@ { Some(ALinkMirror::Aab) } else if name == "aa_b"@ { Some(ALinkMirror::AaB) } else if name == "aa_bs"@ { Some(ALinkMirror::AaBs) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<ALoGMirror> { if name == "aab"@ { Some(ALoGMirror::Aab) } else if name == "aa_b"@ { Some(ALoGMirror::AaB) } else if name == "aa_bs"@ { Some(ALoGMirror::AaBs) } else if name == "next"@ { Some(ALoGMirror::Next) } else if name == "g"@ { Some(ALoGMirror::G) } else if name == "n_ext"@ { Some(ALoGMirror::NExt) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { { None } }
  open spec fn names() -> Seq<&'static str> { seq!["aab", "aa_b", "aa_bs"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Point, LinkType::Point, LinkType::Set] }
  open spec fn mirrors() -> Seq<ALinkMirror> { seq![ALinkMirror::Aab, ALinkMirror::AaB, ALinkMirror::AaBs] }
  open spec fn dnames() -> Seq<&'static str> { seq![] }
  proof fn law_has(&self, l: ALinkMirror, x: NodeIndex) {
    if l is Aab && self.has(l, x) { assert(self.links().contains((x, ASource::Aab))); }
    if l is AaB && self.has(l, x) { assert(self.links().contains((x, ASource::AaB))); }
    if l is AaBs && self.has(l, x) { assert(self.links().contains((x, ASource::AaBs))); }
  }
}
impl ASource {
/*@fn gen:gf.rs ASource::to_link_mirror
#props C12
#ensures
  r == A::mirror(self),
@*/
}
impl ALinkMirror {
/*@fn gen:gf.rs ALinkMirror::to_source
#props C12
#requires[T]
  !A::is_vec(self),
#ensures
  r == A::source(self), !A::is_vec(self),
@*/
}
impl ALoGMirror {
/*@fn gen:gf.rs ALoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> A::in_log(self, #[trigger] r@[i]),
  forall|l: ALinkMirror| #[trigger] A::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is Aab { assert(vf_ret@.contains(ALinkMirror::Aab)); }
    if self is AaB { assert(vf_ret@.contains(ALinkMirror::AaB)); }
    if self is AaBs { assert(vf_ret@.contains(ALinkMirror::AaBs)); }
    if self is Next { assert(vf_ret@.contains(ALinkMirror::AaB)); }
    if self is G { assert(vf_ret@.contains(ALinkMirror::AaB)); }
    if self is NExt {  }
  }
@*/
}
impl TypedNode for A {
/*@fn gen:gf.rs A as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.aa_bs before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.aa_bs
  forall|p: (NodeIndex, ASource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == ASource::AaBs && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.aa_bs begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.aa_bs after
  proof { met_all(self.aa_bs@, vf_all$n); }
#end
  proof {
    assert forall|p: (NodeIndex, ASource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:gf.rs A as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.aa_bs before
  proof { met_none(vf_all$n); }
#loop @self.aa_bs
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.aa_bs begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.aa_bs after
  proof { met_all(self.aa_bs@, vf_all$n); }
@*/
/*@fn gen:gf.rs A as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if self.aab.0 != 0 { assert(self.links().contains((self.aab, ASource::Aab))); }
    if self.aa_b.0 != 0 { assert(self.links().contains((self.aa_b, ASource::AaB))); }
  }
#end
  proof { assert forall|p: (NodeIndex, ASource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == ASource::Aab || q == ASource::AaB || q == ASource::AaBs); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gf.rs A as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.aab.0 != 0 { assert(self.links().contains((self.aab, ASource::Aab))); }
    if self.aa_b.0 != 0 { assert(self.links().contains((self.aa_b, ASource::AaB))); }
  }
#end
  proof { assert forall|p: (NodeIndex, ASource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == ASource::Aab || q == ASource::AaB || q == ASource::AaBs); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:gf.rs A as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, ASource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == ASource::Aab || q == ASource::AaB || q == ASource::AaBs); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:gf.rs A as TypedNode::contains_link
#props C12 C04
@*/
/*@fn gen:gf.rs A as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:gf.rs A as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:gf.rs A as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:gf.rs A as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:gf.rs A as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("aa_b"); reveal_strlit("aa_bs"); reveal_strlit("aab"); reveal_strlit("g"); reveal_strlit("n_ext"); reveal_strlit("next"); assert("aa_b"@.len() != "aa_bs"@.len()); assert("aa_b"@.len() != "aab"@.len()); assert("aa_b"@.len() != "g"@.len()); assert("aa_b"@.len() != "n_ext"@.len()); assert("aa_b"@[0] != "next"@[0]); assert("aa_bs"@.len() != "aab"@.len()); assert("aa_bs"@.len() != "g"@.len()); assert("aa_bs"@[0] != "n_ext"@[0]); assert("aa_bs"@.len() != "next"@.len()); assert("aab"@.len() != "g"@.len()); assert("aab"@.len() != "n_ext"@.len()); assert("aab"@.len() != "next"@.len()); assert("g"@.len() != "n_ext"@.len()); assert("g"@.len() != "next"@.len()); assert("n_ext"@.len() != "next"@.len()); }
@*/
/*@fn gen:gf.rs A as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("aa_b"); reveal_strlit("aa_bs"); reveal_strlit("aab"); reveal_strlit("g"); reveal_strlit("n_ext"); reveal_strlit("next"); assert("aa_b"@.len() != "aa_bs"@.len()); assert("aa_b"@.len() != "aab"@.len()); assert("aa_b"@.len() != "g"@.len()); assert("aa_b"@.len() != "n_ext"@.len()); assert("aa_b"@[0] != "next"@[0]); assert("aa_bs"@.len() != "aab"@.len()); assert("aa_bs"@.len() != "g"@.len()); assert("aa_bs"@[0] != "n_ext"@[0]); assert("aa_bs"@.len() != "next"@.len()); assert("aab"@.len() != "g"@.len()); assert("aab"@.len() != "n_ext"@.len()); assert("aab"@.len() != "next"@.len()); assert("g"@.len() != "n_ext"@.len()); assert("g"@.len() != "next"@.len()); assert("n_ext"@.len() != "next"@.len()); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gf.rs A as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("aa_b"); reveal_strlit("aa_bs"); reveal_strlit("aab"); reveal_strlit("g"); reveal_strlit("n_ext"); reveal_strlit("next"); assert("aa_b"@.len() != "aa_bs"@.len()); assert("aa_b"@.len() != "aab"@.len()); assert("aa_b"@.len() != "g"@.len()); assert("aa_b"@.len() != "n_ext"@.len()); assert("aa_b"@[0] != "next"@[0]); assert("aa_bs"@.len() != "aab"@.len()); assert("aa_bs"@.len() != "g"@.len()); assert("aa_bs"@[0] != "n_ext"@[0]); assert("aa_bs"@.len() != "next"@.len()); assert("aab"@.len() != "g"@.len()); assert("aab"@.len() != "n_ext"@.len()); assert("aab"@.len() != "next"@.len()); assert("g"@.len() != "n_ext"@.len()); assert("g"@.len() != "next"@.len()); assert("n_ext"@.len() != "next"@.len()); }
@*/
/*@fn gen:gf.rs A as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("aa_b"); reveal_strlit("aa_bs"); reveal_strlit("aab"); reveal_strlit("g"); reveal_strlit("n_ext"); reveal_strlit("next"); assert("aa_b"@.len() != "aa_bs"@.len()); assert("aa_b"@.len() != "aab"@.len()); assert("aa_b"@.len() != "g"@.len()); assert("aa_b"@.len() != "n_ext"@.len()); assert("aa_b"@[0] != "next"@[0]); assert("aa_bs"@.len() != "aab"@.len()); assert("aa_bs"@.len() != "g"@.len()); assert("aa_bs"@[0] != "n_ext"@[0]); assert("aa_bs"@.len() != "next"@.len()); assert("aab"@.len() != "g"@.len()); assert("aab"@.len() != "n_ext"@.len()); assert("aab"@.len() != "next"@.len()); assert("g"@.len() != "n_ext"@.len()); assert("g"@.len() != "next"@.len()); assert("n_ext"@.len() != "next"@.len()); }
@*/
/*@fn gen:gf.rs A as TypedNode::to_source
#props C12
@*/
/*@fn gen:gf.rs A as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:gf.rs A as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is Aab { assert(vf_ret@.contains(ALoGMirror::Aab)); }
    if input is AaB { assert(vf_ret@.contains(ALoGMirror::AaB)); assert(vf_ret@.contains(ALoGMirror::Next)); assert(vf_ret@.contains(ALoGMirror::G)); }
    if input is AaBs { assert(vf_ret@.contains(ALoGMirror::AaBs)); }
  }
@*/
}
// ---------------- Gf ----------------
/*@enum gen:gf.rs Gf
@*/
/*@enum gen:gf.rs GfDiscriminant
#props C07 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gf.rs GfSourceEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gf.rs GfLinkMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gf.rs GfLoGMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_gf { pub use super::*; }
pub enum GfData { AaB(AabData), Aab(AaBData), A(AData), Aa(AData), }
impl NodeDiscriminant for GfDiscriminant {
  open spec fn vf_first() -> Self { GfDiscriminant::AaB }
  open spec fn vf_succ(self) -> Option<Self> { match self { GfDiscriminant::AaB => Some(GfDiscriminant::Aab), GfDiscriminant::Aab => Some(GfDiscriminant::A), GfDiscriminant::A => Some(GfDiscriminant::Aa), GfDiscriminant::Aa => None, } }
/*@fn gen:gf.rs GfDiscriminant as NodeDiscriminant::first
#props C07
@*/
/*@fn gen:gf.rs GfDiscriminant as NodeDiscriminant::next
#props C07
@*/
}
impl Discriminated<GfDiscriminant> for Gf {
  open spec fn disc(&self) -> GfDiscriminant { match self { Gf::AaB(_) => GfDiscriminant::AaB, Gf::Aab(_) => GfDiscriminant::Aab, Gf::A(_) => GfDiscriminant::A, Gf::Aa(_) => GfDiscriminant::Aa, } }
/*@fn gen:gf.rs Gf as Discriminated::discriminant
#props C07 C12
@*/
}
impl NodeSpec for Gf {
  type SourceEnum = GfSourceEnum;
  type LinkMirrorEnum = GfLinkMirrorEnum;
  type LoGMirrorEnum = GfLoGMirrorEnum;
  type Discriminant = GfDiscriminant;
  type DataT = GfData;
  open spec fn links(&self) -> ISet<(NodeIndex, GfSourceEnum)> {
    ISet::new(|p: (NodeIndex, GfSourceEnum)| match (*self, p.1) {
      (Gf::AaB(x), GfSourceEnum::AaB(s)) => x.links().contains((p.0, s)),
      (Gf::Aab(x), GfSourceEnum::Aab(s)) => x.links().contains((p.0, s)),
      (Gf::A(x), GfSourceEnum::A(s)) => x.links().contains((p.0, s)),
      (Gf::Aa(x), GfSourceEnum::Aa(s)) => x.links().contains((p.0, s)),
      _ => false,
    })
  }
  open spec fn data(&self) -> GfData { match self {
    Gf::AaB(x) => GfData::AaB(x.data()),
    Gf::Aab(x) => GfData::Aab(x.data()),
    Gf::A(x) => GfData::A(x.data()),
    Gf::Aa(x) => GfData::Aa(x.data()),
  } }
  open spec fn place_ok(d: GfData, s: GfSourceEnum) -> bool { match (d, s) {
    (GfData::AaB(d), GfSourceEnum::AaB(s)) => Aab::place_ok(d, s),
    (GfData::Aab(d), GfSourceEnum::Aab(s)) => AaB::place_ok(d, s),
    (GfData::A(d), GfSourceEnum::A(s)) => A::place_ok(d, s),
    (GfData::Aa(d), GfSourceEnum::Aa(s)) => A::place_ok(d, s),
    _ => false,
  } }
  open spec fn single(s: GfSourceEnum) -> bool { match s {
    GfSourceEnum::AaB(s) => Aab::single(s),
    GfSourceEnum::Aab(s) => AaB::single(s),
    GfSourceEnum::A(s) => A::single(s),
    GfSourceEnum::Aa(s) => A::single(s),
  } }
  open spec fn mirror(s: GfSourceEnum) -> GfLinkMirrorEnum { match s {
    GfSourceEnum::AaB(s) => GfLinkMirrorEnum::AaB(Aab::mirror(s)),
    GfSourceEnum::Aab(s) => GfLinkMirrorEnum::Aab(AaB::mirror(s)),
    GfSourceEnum::A(s) => GfLinkMirrorEnum::A(A::mirror(s)),
    GfSourceEnum::Aa(s) => GfLinkMirrorEnum::Aa(A::mirror(s)),
  } }
  open spec fn source(l: GfLinkMirrorEnum) -> GfSourceEnum { match l {
    GfLinkMirrorEnum::AaB(l) => GfSourceEnum::AaB(Aab::source(l)),
    GfLinkMirrorEnum::Aab(l) => GfSourceEnum::Aab(AaB::source(l)),
    GfLinkMirrorEnum::A(l) => GfSourceEnum::A(A::source(l)),
    GfLinkMirrorEnum::Aa(l) => GfSourceEnum::Aa(A::source(l)),
  } }
  open spec fn is_vec(l: GfLinkMirrorEnum) -> bool { match l {
    GfLinkMirrorEnum::AaB(l) => Aab::is_vec(l),
    GfLinkMirrorEnum::Aab(l) => AaB::is_vec(l),
    GfLinkMirrorEnum::A(l) => A::is_vec(l),
    GfLinkMirrorEnum::Aa(l) => A::is_vec(l),
  } }
  open spec fn is_field(l: GfLinkMirrorEnum) -> bool { match l {
    GfLinkMirrorEnum::AaB(l) => Aab::is_field(l),
    GfLinkMirrorEnum::Aab(l) => AaB::is_field(l),
    GfLinkMirrorEnum::A(l) => A::is_field(l),
    GfLinkMirrorEnum::Aa(l) => A::is_field(l),
  } }
  open spec fn owner(l: GfLinkMirrorEnum) -> GfDiscriminant { match l {
    GfLinkMirrorEnum::AaB(_) => GfDiscriminant::AaB,
    GfLinkMirrorEnum::Aab(_) => GfDiscriminant::Aab,
    GfLinkMirrorEnum::A(_) => GfDiscriminant::A,
    GfLinkMirrorEnum::Aa(_) => GfDiscriminant::Aa,
  } }
  open spec fn logs(l: GfLinkMirrorEnum) -> ISet<GfLoGMirrorEnum> {
    ISet::new(|g: GfLoGMirrorEnum| match (l, g) {
      (GfLinkMirrorEnum::AaB(l), GfLoGMirrorEnum::AaB(g)) => Aab::is_field(l) && Aab::in_log(g, l),
      (GfLinkMirrorEnum::Aab(l), GfLoGMirrorEnum::Aab(g)) => AaB::is_field(l) && AaB::in_log(g, l),
      (GfLinkMirrorEnum::A(l), GfLoGMirrorEnum::A(g)) => A::is_field(l) && A::in_log(g, l),
      (GfLinkMirrorEnum::Aa(l), GfLoGMirrorEnum::Aa(g)) => A::is_field(l) && A::in_log(g, l),
      _ => false,
    })
  }
  open spec fn bd_log(g: GfLoGMirrorEnum) -> ISet<GfLinkMirrorEnum> {
    ISet::new(|m: GfLinkMirrorEnum| match (g, m) {
      (GfLoGMirrorEnum::AaB(AabLoGMirror::Ll), GfLinkMirrorEnum::A(ALinkMirror::AaBs)) => true,
      (GfLoGMirrorEnum::AaB(AabLoGMirror::Ll), GfLinkMirrorEnum::Aa(ALinkMirror::AaBs)) => true,
      (GfLoGMirrorEnum::Aa(ALoGMirror::AaBs), GfLinkMirrorEnum::AaB(AabLinkMirror::L)) => true,
      (GfLoGMirrorEnum::A(ALoGMirror::AaBs), GfLinkMirrorEnum::AaB(AabLinkMirror::L)) => true,
      (GfLoGMirrorEnum::Aab(AaBLoGMirror::T), GfLinkMirrorEnum::A(ALinkMirror::Aab)) => true,
      (GfLoGMirrorEnum::A(ALoGMirror::Aab), GfLinkMirrorEnum::Aab(AaBLinkMirror::T)) => true,
      (GfLoGMirrorEnum::Aab(AaBLoGMirror::Next), GfLinkMirrorEnum::Aa(ALinkMirror::Aab)) => true,
      (GfLoGMirrorEnum::Aa(ALoGMirror::Aab), GfLinkMirrorEnum::Aab(AaBLinkMirror::Next)) => true,
      _ => false,
    })
  }
  open spec fn allowed_log(g: GfLoGMirrorEnum, d: GfDiscriminant) -> bool { match g {
    GfLoGMirrorEnum::AaB(AabLoGMirror::L11) => d is A || d is Aa,
    GfLoGMirrorEnum::AaB(AabLoGMirror::G) => d is Aa || d is A,
    GfLoGMirrorEnum::Aab(AaBLoGMirror::G) => d is Aa || d is A,
    GfLoGMirrorEnum::A(ALoGMirror::G) => d is Aa || d is A,
    GfLoGMirrorEnum::A(ALoGMirror::NExt) => d is A || d is Aa,
    GfLoGMirrorEnum::Aab(AaBLoGMirror::Next1) => d is AaB,
    _ => true,
  } }
  open spec fn member(d: GfDiscriminant, name: Seq<char>) -> bool { if name == "aa"@ { d is A || d is Aa } else if name == "AA"@ { d is Aa || d is A } else if name == "every"@ { d is AaB || d is Aab || d is A } else if name == "aA"@ { d is Aab } else { false } }
  proof fn law_links(&self, y: NodeIndex, s: GfSourceEnum) { }
  proof fn law_single(&self, y: NodeIndex, z: NodeIndex, s: GfSourceEnum) { }
  proof fn law_data(&self, o: &Self) { }
  proof fn law_mirror(l: GfLinkMirrorEnum, s: GfSourceEnum) { }
  proof fn law_bd(g: GfLoGMirrorEnum, m: GfLinkMirrorEnum) { }
}
/// field m belongs to link or group g
pub open spec fn covers(g: GfLoGMirrorEnum, m: GfLinkMirrorEnum) -> bool { match (g, m) {
    (GfLoGMirrorEnum::AaB(g), GfLinkMirrorEnum::AaB(m)) => Aab::in_log(g, m),
    (GfLoGMirrorEnum::Aab(g), GfLinkMirrorEnum::Aab(m)) => AaB::in_log(g, m),
    (GfLoGMirrorEnum::A(g), GfLinkMirrorEnum::A(m)) => A::in_log(g, m),
    (GfLoGMirrorEnum::Aa(g), GfLinkMirrorEnum::Aa(m)) => A::in_log(g, m),
  _ => false,
} }
#[verifier::opaque]
pub open spec fn covered(s: Seq<GfLoGMirrorEnum>, n: nat, m: GfLinkMirrorEnum) -> bool decreases n { n > 0 && (covered(s, (n - 1) as nat, m) || covers(s[n - 1], m)) }
pub proof fn covered_none(s: Seq<GfLoGMirrorEnum>) ensures forall|m: GfLinkMirrorEnum| !#[trigger] covered(s, 0, m) { reveal(covered); }
pub proof fn covered_step(s: Seq<GfLoGMirrorEnum>, n: nat)
  requires n < s.len()
  ensures forall|m: GfLinkMirrorEnum| #[trigger] covered(s, n + 1, m) <==> covered(s, n, m) || covers(s[n as int], m)
{ reveal(covered); }
pub open spec fn cnt_in(n: Gf, l: GfLinkMirrorEnum, x: NodeIndex) -> nat { match (n, l) {
    (Gf::AaB(n), GfLinkMirrorEnum::AaB(l)) => n.cnt_of(l, x),
    (Gf::Aab(n), GfLinkMirrorEnum::Aab(l)) => n.cnt_of(l, x),
    (Gf::A(n), GfLinkMirrorEnum::A(l)) => n.cnt_of(l, x),
    (Gf::Aa(n), GfLinkMirrorEnum::Aa(l)) => n.cnt_of(l, x),
  _ => 0,
} }
pub proof fn has_link_is(n: Gf, l: GfLinkMirrorEnum, x: NodeIndex)
  requires x.0 != 0
  ensures has_link(n, l, x) == match (n, l) {
    (Gf::AaB(n), GfLinkMirrorEnum::AaB(l)) => n.has(l, x),
    (Gf::Aab(n), GfLinkMirrorEnum::Aab(l)) => n.has(l, x),
    (Gf::A(n), GfLinkMirrorEnum::A(l)) => n.has(l, x),
    (Gf::Aa(n), GfLinkMirrorEnum::Aa(l)) => n.has(l, x),
    _ => false,
  }
{
  match (n, l) {
    (Gf::AaB(v), GfLinkMirrorEnum::AaB(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: AabSource| #[trigger] v.links().contains((x, s)) && Aab::mirror(s) == k; assert(n.links().contains((x, GfSourceEnum::AaB(s)))); }
      if has_link(n, l, x) { let s = choose|s: GfSourceEnum| #[trigger] n.links().contains((x, s)) && Gf::mirror(s) == l; assert(v.links().contains((x, s->AaB_0))); }
    },
    (Gf::Aab(v), GfLinkMirrorEnum::Aab(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: AaBSource| #[trigger] v.links().contains((x, s)) && AaB::mirror(s) == k; assert(n.links().contains((x, GfSourceEnum::Aab(s)))); }
      if has_link(n, l, x) { let s = choose|s: GfSourceEnum| #[trigger] n.links().contains((x, s)) && Gf::mirror(s) == l; assert(v.links().contains((x, s->Aab_0))); }
    },
    (Gf::A(v), GfLinkMirrorEnum::A(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: ASource| #[trigger] v.links().contains((x, s)) && A::mirror(s) == k; assert(n.links().contains((x, GfSourceEnum::A(s)))); }
      if has_link(n, l, x) { let s = choose|s: GfSourceEnum| #[trigger] n.links().contains((x, s)) && Gf::mirror(s) == l; assert(v.links().contains((x, s->A_0))); }
    },
    (Gf::Aa(v), GfLinkMirrorEnum::Aa(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: ASource| #[trigger] v.links().contains((x, s)) && A::mirror(s) == k; assert(n.links().contains((x, GfSourceEnum::Aa(s)))); }
      if has_link(n, l, x) { let s = choose|s: GfSourceEnum| #[trigger] n.links().contains((x, s)) && Gf::mirror(s) == l; assert(v.links().contains((x, s->Aa_0))); }
    },
    _ => { },
  }
}
impl NodeEnum for Gf {
/*@fn gen:gf.rs Gf as NodeEnum::iter_sources
#props C12 C02 C15 C14 C09
#box id
#loop @SourceEnum::AaB
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GfSourceEnum::AaB(vf_all$n[j].1)),
#loop @SourceEnum::AaB after
  proof { lift_sources::<AabSource, GfSourceEnum>(self->AaB_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: AabSource| GfSourceEnum::AaB(s), |t: GfSourceEnum| t->AaB_0); }
#loop @SourceEnum::Aab
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GfSourceEnum::Aab(vf_all$n[j].1)),
#loop @SourceEnum::Aab after
  proof { lift_sources::<AaBSource, GfSourceEnum>(self->Aab_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: AaBSource| GfSourceEnum::Aab(s), |t: GfSourceEnum| t->Aab_0); }
#loop @SourceEnum::A
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GfSourceEnum::A(vf_all$n[j].1)),
#loop @SourceEnum::A after
  proof { lift_sources::<ASource, GfSourceEnum>(self->A_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: ASource| GfSourceEnum::A(s), |t: GfSourceEnum| t->A_0); }
#loop @SourceEnum::Aa
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GfSourceEnum::Aa(vf_all$n[j].1)),
#loop @SourceEnum::Aa after
  proof { lift_sources::<ASource, GfSourceEnum>(self->Aa_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: ASource| GfSourceEnum::Aa(s), |t: GfSourceEnum| t->Aa_0); }
@*/
/*@fn gen:gf.rs Gf as NodeEnum::modify_link
#props C12 C01 C02 C03 C04 C09
#ensures
  forall|m: GfLinkMirrorEnum| #[trigger] r.bd_link_mirrors@.contains(m) <==> bd_of::<Self>(Self::mirror(source)).contains(m),
#start
  proof {
    if *self is AaB && source is AaB { assert((*self)->AaB_0.links().contains((old_idx, source->AaB_0)) == self.links().contains((old_idx, source))); assert((*self)->AaB_0.links().contains((new_idx, source->AaB_0)) == self.links().contains((new_idx, source))); }
    if *self is Aab && source is Aab { assert((*self)->Aab_0.links().contains((old_idx, source->Aab_0)) == self.links().contains((old_idx, source))); assert((*self)->Aab_0.links().contains((new_idx, source->Aab_0)) == self.links().contains((new_idx, source))); }
    if *self is A && source is A { assert((*self)->A_0.links().contains((old_idx, source->A_0)) == self.links().contains((old_idx, source))); assert((*self)->A_0.links().contains((new_idx, source->A_0)) == self.links().contains((new_idx, source))); }
    if *self is Aa && source is Aa { assert((*self)->Aa_0.links().contains((old_idx, source->Aa_0)) == self.links().contains((old_idx, source))); assert((*self)->Aa_0.links().contains((new_idx, source->Aa_0)) == self.links().contains((new_idx, source))); }
  }
#end
  proof { assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gf.rs Gf as NodeEnum::add_link
#props C12 C04
#start
  proof {
    if *self is AaB && link is AaB { assert(Self::single(Self::source(link)) == Aab::single(Aab::source(link->AaB_0))); assert forall|z: NodeIndex| #[trigger] (*self)->AaB_0.links().contains((z, Aab::source(link->AaB_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is Aab && link is Aab { assert(Self::single(Self::source(link)) == AaB::single(AaB::source(link->Aab_0))); assert forall|z: NodeIndex| #[trigger] (*self)->Aab_0.links().contains((z, AaB::source(link->Aab_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is A && link is A { assert(Self::single(Self::source(link)) == A::single(A::source(link->A_0))); assert forall|z: NodeIndex| #[trigger] (*self)->A_0.links().contains((z, A::source(link->A_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is Aa && link is Aa { assert(Self::single(Self::source(link)) == A::single(A::source(link->Aa_0))); assert forall|z: NodeIndex| #[trigger] (*self)->Aa_0.links().contains((z, A::source(link->Aa_0))) implies self.links().contains((z, Self::source(link))) by { } }
  }
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); } }
@*/
/*@fn gen:gf.rs Gf as NodeEnum::remove_link
#props C12 C04
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); } }
@*/
/*@fn gen:gf.rs Gf as NodeEnum::contains_link
#props C12 C04
#start
  proof { if target.0 != 0 { has_link_is(*self, link, target); } }
@*/
/*@fn gen:gf.rs Gf as NodeEnum::in_group
#props C13 C07
#start
  proof { reveal_strlit("aa"); reveal_strlit("AA"); reveal_strlit("every"); reveal_strlit("aA"); assert("aa"@[0] != "AA"@[0]); assert("aa"@.len() != "every"@.len()); assert("aa"@[1] != "aA"@[1]); assert("AA"@.len() != "every"@.len()); assert("AA"@[0] != "aA"@[0]); assert("every"@.len() != "aA"@.len()); }
@*/
/*@fn gen:gf.rs Gf as NodeEnum::to_source_enum
#props C12
@*/
/*@fn gen:gf.rs Gf as NodeEnum::to_link_mirror_enum
#props C12
@*/
/*@fn gen:gf.rs Gf as NodeEnum::to_log_mirror_enums
#props C13 C04 C05
#loop @LoGMirrorEnum::AaB
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GfLoGMirrorEnum::AaB(*vf_all$n[j]),
#loop @LoGMirrorEnum::AaB after
  proof { assert forall|g: GfLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(Aab::in_log(*vf_all$n[j], input->AaB_0)); }
    if Self::logs(input).contains(g) { assert(Aab::in_log(g->AaB_0, input->AaB_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->AaB_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::Aab
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GfLoGMirrorEnum::Aab(*vf_all$n[j]),
#loop @LoGMirrorEnum::Aab after
  proof { assert forall|g: GfLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(AaB::in_log(*vf_all$n[j], input->Aab_0)); }
    if Self::logs(input).contains(g) { assert(AaB::in_log(g->Aab_0, input->Aab_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->Aab_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::A
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GfLoGMirrorEnum::A(*vf_all$n[j]),
#loop @LoGMirrorEnum::A after
  proof { assert forall|g: GfLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(A::in_log(*vf_all$n[j], input->A_0)); }
    if Self::logs(input).contains(g) { assert(A::in_log(g->A_0, input->A_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->A_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::Aa
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GfLoGMirrorEnum::Aa(*vf_all$n[j]),
#loop @LoGMirrorEnum::Aa after
  proof { assert forall|g: GfLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(A::in_log(*vf_all$n[j], input->Aa_0)); }
    if Self::logs(input).contains(g) { assert(A::in_log(g->Aa_0, input->Aa_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->Aa_0; assert(vf_acc$n@[j] == g); }
  } }
@*/
/*@fn gen:gf.rs Gf as NodeEnum::get_bidiretional_link_mirrors_of_log
#props C04 C13
#loop @].into_iter().Self::expand_link_groups before
  proof { covered_none(vf_all$n); }
#loop @].into_iter().Self::expand_link_groups
  forall|m: GfLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> covered(vf_all$n, vf_it$n.pos(), m),
#loop @].into_iter().Self::expand_link_groups begin
  proof { covered_step(vf_all$n, (vf_it$n.pos() - 1) as nat); }
#loop @].into_iter().Self::expand_link_groups after
  proof { assert forall|m: GfLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> Self::bd_log(link).contains(m) by { reveal_with_fuel(covered, 8); } }
#loop @expand_link_groups before
  let ghost vf_pre$n = vf_acc$p@;
  proof { take_none(vf_all$n); }
#loop @expand_link_groups
  forall|m: GfLinkMirrorEnum| #[trigger] vf_acc$p@.contains(m) <==> vf_pre$n.contains(m) || vf_all$n.take(vf_it$n.pos() as int).contains(m),
#loop @expand_link_groups begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @expand_link_groups after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gf.rs Gf as NodeEnum::check_link_type_by_group
#props C05 C13
@*/
/*@fn gen:gf.rs Gf as NodeEnum::match_bd_link_group
#props C04 C13
#loop @LinkMirrorEnum::AaB before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::AaB
  forall|l: GfLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GfDiscriminant::AaB,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::AaB begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::AaB after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::Aab before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::Aab
  forall|l: GfLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GfDiscriminant::Aab,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::Aab begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::Aab after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::A before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::A
  forall|l: GfLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GfDiscriminant::A,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::A begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::A after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::Aa before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::Aa
  forall|l: GfLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GfDiscriminant::Aa,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::Aa begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::Aa after
  proof { take_all(vf_all$n); }
@*/
}
impl Gf {
/*@fn gen:gf.rs Gf as NodeEnum::iter_links
#props C12
#requires[T]
  Self::owner(link) == self.disc(),
#ensures
  Self::owner(link) == self.disc(), r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == cnt_in(*self, link, x),
#replace
  Self::SourceEnum =>> GfSourceEnum
  Self::LinkMirrorEnum =>> GfLinkMirrorEnum
  Self::LoGMirrorEnum =>> GfLoGMirrorEnum
@*/
/*@fn gen:gf.rs Gf as NodeEnum::check_link
#props C12
#ensures
  r == (Self::owner(link) == self.disc()),
#replace
  Self::SourceEnum =>> GfSourceEnum
  Self::LinkMirrorEnum =>> GfLinkMirrorEnum
  Self::LoGMirrorEnum =>> GfLoGMirrorEnum
@*/
/*@fn gen:gf.rs Gf as NodeEnum::get_links_by_name
#props C12 C13 C07
#ensures
  r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == (match self {
    Gf::AaB(n) => match Aab::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    Gf::Aab(n) => match AaB::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    Gf::A(n) => match A::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    Gf::Aa(n) => match A::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
  }),
#replace
  Self::SourceEnum =>> GfSourceEnum
  Self::LinkMirrorEnum =>> GfLinkMirrorEnum
  Self::LoGMirrorEnum =>> GfLoGMirrorEnum
@*/
/*@fn gen:gf.rs Gf as NodeEnum::get_links_by_group
#props C13 C07
#ensures
  forall|x: NodeIndex| #[trigger] cnt(r@, x) == (match self {
    Gf::AaB(n) => n.grp_cnt(name@, x),
    Gf::Aab(n) => n.grp_cnt(name@, x),
    Gf::A(n) => n.grp_cnt(name@, x),
    Gf::Aa(n) => n.grp_cnt(name@, x),
  }),
#replace
  Self::SourceEnum =>> GfSourceEnum
  Self::LinkMirrorEnum =>> GfLinkMirrorEnum
  Self::LoGMirrorEnum =>> GfLoGMirrorEnum
@*/
/*@fn gen:gf.rs Gf as NodeEnum::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<T>(&self, name: &'static str) -> (r: Option<&T>)
#ensures
  r is Some == (match self {
    Gf::AaB(n) => n.dref::<T>(name@),
    Gf::Aab(n) => n.dref::<T>(name@),
    Gf::A(n) => n.dref::<T>(name@),
    Gf::Aa(n) => n.dref::<T>(name@),
  }) is Some,
  r is Some ==> Some(*r->0) == (match self {
    Gf::AaB(n) => n.dref::<T>(name@),
    Gf::Aab(n) => n.dref::<T>(name@),
    Gf::A(n) => n.dref::<T>(name@),
    Gf::Aa(n) => n.dref::<T>(name@),
  }),
#replace
  Self::SourceEnum =>> GfSourceEnum
  Self::LinkMirrorEnum =>> GfLinkMirrorEnum
  Self::LoGMirrorEnum =>> GfLoGMirrorEnum
@*/
/*@fn gen:gf.rs Gf as NodeEnum::expand_link_groups
#props C13 C04
#ensures
  forall|m: GfLinkMirrorEnum| (Self::is_field(m)) ==> (#[trigger] r@.contains(m) <==> covers(input, m)),
#loop @LinkMirrorEnum::AaB
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GfLinkMirrorEnum::AaB(*vf_all$n[j]),
#loop @LinkMirrorEnum::AaB after
  proof { assert forall|m: GfLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(Aab::in_log(input->AaB_0, *vf_all$n[j]) || !Aab::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(Aab::in_log(input->AaB_0, m->AaB_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->AaB_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::Aab
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GfLinkMirrorEnum::Aab(*vf_all$n[j]),
#loop @LinkMirrorEnum::Aab after
  proof { assert forall|m: GfLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(AaB::in_log(input->Aab_0, *vf_all$n[j]) || !AaB::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(AaB::in_log(input->Aab_0, m->Aab_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->Aab_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::A
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GfLinkMirrorEnum::A(*vf_all$n[j]),
#loop @LinkMirrorEnum::A after
  proof { assert forall|m: GfLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(A::in_log(input->A_0, *vf_all$n[j]) || !A::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(A::in_log(input->A_0, m->A_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->A_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::Aa
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GfLinkMirrorEnum::Aa(*vf_all$n[j]),
#loop @LinkMirrorEnum::Aa after
  proof { assert forall|m: GfLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(A::in_log(input->Aa_0, *vf_all$n[j]) || !A::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(A::in_log(input->Aa_0, m->Aa_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->Aa_0; assert(vf_acc$n@[j] == m); }
  } }
#replace
  Self::SourceEnum =>> GfSourceEnum
  Self::LinkMirrorEnum =>> GfLinkMirrorEnum
  Self::LoGMirrorEnum =>> GfLoGMirrorEnum
@*/
}
// ---------------- GfArena ----------------
/*@struct gen:gf.rs GfArena
@*/
/*@struct gen:gf.rs GfIter
@*/
/*@struct gen:gf.rs GfIntoIter
@*/
impl ArenaSpec for GfArena {
  type V = Gf;
  type D = GfDiscriminant;
  open spec fn disp(&self) -> IMap<NodeIndex, GfDiscriminant> { self._dispatcher@ }
  open spec fn cont(&self, d: GfDiscriminant) -> IMap<usize, Gf> { match d { GfDiscriminant::AaB => self.aa_b@, GfDiscriminant::Aab => self.aab@, GfDiscriminant::A => self.a@, GfDiscriminant::Aa => self.aa@, } }
  open spec fn dist(&self) -> IdDistributer { self._id_distributer }
}
/// a type's container holds the nodes of that type, and no index is in two containers
pub proof fn parts(a: GfArena)
  requires arena_wf(a)
  ensures nodes_of(a) == lift(a.aa_b@).union_prefer_right(lift(a.aab@).union_prefer_right(lift(a.a@).union_prefer_right(lift(a.aa@)))),
    lift(a.aa_b@).dom().disjoint(lift(a.aab@).dom()), lift(a.aa_b@).dom().disjoint(lift(a.a@).dom()), lift(a.aa_b@).dom().disjoint(lift(a.aa@).dom()), lift(a.aab@).dom().disjoint(lift(a.a@).dom()), lift(a.aab@).dom().disjoint(lift(a.aa@).dom()), lift(a.a@).dom().disjoint(lift(a.aa@).dom()),
{
  reveal(arena_wf); reveal(nodes_of);
  assert forall|i: NodeIndex| #[trigger] lift(a.aa_b@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GfDiscriminant::AaB by { assert(lift(a.aa_b@).contains_key(i) == a.cont(GfDiscriminant::AaB).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.aab@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GfDiscriminant::Aab by { assert(lift(a.aab@).contains_key(i) == a.cont(GfDiscriminant::Aab).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.a@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GfDiscriminant::A by { assert(lift(a.a@).contains_key(i) == a.cont(GfDiscriminant::A).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.aa@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GfDiscriminant::Aa by { assert(lift(a.aa@).contains_key(i) == a.cont(GfDiscriminant::Aa).contains_key(i.0)); }
  assert forall|i: NodeIndex| !(lift(a.aa_b@).dom().contains(i) && lift(a.aab@).dom().contains(i)) by { assert(lift(a.aa_b@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::AaB); assert(lift(a.aab@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::Aab); } assert forall|i: NodeIndex| !(lift(a.aa_b@).dom().contains(i) && lift(a.a@).dom().contains(i)) by { assert(lift(a.aa_b@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::AaB); assert(lift(a.a@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::A); } assert forall|i: NodeIndex| !(lift(a.aa_b@).dom().contains(i) && lift(a.aa@).dom().contains(i)) by { assert(lift(a.aa_b@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::AaB); assert(lift(a.aa@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::Aa); } assert forall|i: NodeIndex| !(lift(a.aab@).dom().contains(i) && lift(a.a@).dom().contains(i)) by { assert(lift(a.aab@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::Aab); assert(lift(a.a@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::A); } assert forall|i: NodeIndex| !(lift(a.aab@).dom().contains(i) && lift(a.aa@).dom().contains(i)) by { assert(lift(a.aab@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::Aab); assert(lift(a.aa@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::Aa); } assert forall|i: NodeIndex| !(lift(a.a@).dom().contains(i) && lift(a.aa@).dom().contains(i)) by { assert(lift(a.a@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::A); assert(lift(a.aa@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::Aa); }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) == lift(a.aa_b@).union_prefer_right(lift(a.aab@).union_prefer_right(lift(a.a@).union_prefer_right(lift(a.aa@)))).contains_key(i) by {
    assert(lift(a.aa_b@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::AaB); assert(lift(a.aab@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::Aab); assert(lift(a.a@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::A); assert(lift(a.aa@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::Aa);
  }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) implies nodes_of(a)[i] == lift(a.aa_b@).union_prefer_right(lift(a.aab@).union_prefer_right(lift(a.a@).union_prefer_right(lift(a.aa@))))[i] by {
    assert(lift(a.aa_b@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::AaB); assert(lift(a.aab@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::Aab); assert(lift(a.a@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::A); assert(lift(a.aa@).contains_key(i) ==> a.disp()[i] == GfDiscriminant::Aa);
  }
  assert(nodes_of(a) =~= lift(a.aa_b@).union_prefer_right(lift(a.aab@).union_prefer_right(lift(a.a@).union_prefer_right(lift(a.aa@)))));
}
impl<'a> GfIter<'a> {
  pub open spec fn ok(&self) -> bool { self.aa_b.pos() <= self.aa_b.all().len() && self.aab.pos() <= self.aab.all().len() && self.a.pos() <= self.a.all().len() && self.aa.pos() <= self.aa.all().len() && (self.stage() < 4 ==> self.aa_b.pos() == self.aa_b.all().len()) && (self.stage() < 3 ==> self.aab.pos() == self.aab.all().len()) && (self.stage() < 2 ==> self.a.pos() == self.a.all().len()) && (self.stage() < 1 ==> self.aa.pos() == self.aa.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, &'a Gf)> { match self._iter_state {
    Some(GfDiscriminant::AaB) => (left(self.aa_b) + (left(self.aab) + (left(self.a) + left(self.aa)))), Some(GfDiscriminant::Aab) => (left(self.aab) + (left(self.a) + left(self.aa))), Some(GfDiscriminant::A) => (left(self.a) + left(self.aa)), Some(GfDiscriminant::Aa) => left(self.aa),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GfDiscriminant::AaB) => 4, Some(GfDiscriminant::Aab) => 3, Some(GfDiscriminant::A) => 2, Some(GfDiscriminant::Aa) => 1, None => 0 } }
/*@fn gen:gf.rs GfIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, &'a Gf)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GfDiscriminant::AaB) && self.aa_b.pos() >= self.aa_b.all().len() { assert(left(self.aa_b).len() == 0); } if self._iter_state == Some(GfDiscriminant::Aab) && self.aab.pos() >= self.aab.all().len() { assert(left(self.aab).len() == 0); } if self._iter_state == Some(GfDiscriminant::A) && self.a.pos() >= self.a.all().len() { assert(left(self.a).len() == 0); } if self._iter_state == Some(GfDiscriminant::Aa) && self.aa.pos() >= self.aa.all().len() { assert(left(self.aa).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GfDiscriminant::AaB) && old(self).aa_b.pos() < old(self).aa_b.all().len() { assert(left(self.aa_b) =~= left(old(self).aa_b).skip(1)); assert(left(old(self).aa_b)[0] == vf_ret->0); } if old(self)._iter_state == Some(GfDiscriminant::Aab) && old(self).aab.pos() < old(self).aab.all().len() { assert(left(self.aab) =~= left(old(self).aab).skip(1)); assert(left(old(self).aab)[0] == vf_ret->0); } if old(self)._iter_state == Some(GfDiscriminant::A) && old(self).a.pos() < old(self).a.all().len() { assert(left(self.a) =~= left(old(self).a).skip(1)); assert(left(old(self).a)[0] == vf_ret->0); } if old(self)._iter_state == Some(GfDiscriminant::Aa) && old(self).aa.pos() < old(self).aa.all().len() { assert(left(self.aa) =~= left(old(self).aa).skip(1)); assert(left(old(self).aa)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:gf.rs GfIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); hints_step(vf_all0, 2); hints_step(vf_all0, 3); assert(left(self.aa_b).len() == vf_all0[0].0); assert(left(self.aab).len() == vf_all0[1].0); assert(left(self.a).len() == vf_all0[2].0); assert(left(self.aa).len() == vf_all0[3].0); }
@*/
}
impl GfIntoIter {
  pub open spec fn ok(&self) -> bool { self.aa_b.pos() <= self.aa_b.all().len() && self.aab.pos() <= self.aab.all().len() && self.a.pos() <= self.a.all().len() && self.aa.pos() <= self.aa.all().len() && (self.stage() < 4 ==> self.aa_b.pos() == self.aa_b.all().len()) && (self.stage() < 3 ==> self.aab.pos() == self.aab.all().len()) && (self.stage() < 2 ==> self.a.pos() == self.a.all().len()) && (self.stage() < 1 ==> self.aa.pos() == self.aa.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, Gf)> { match self._iter_state {
    Some(GfDiscriminant::AaB) => (left_own(self.aa_b) + (left_own(self.aab) + (left_own(self.a) + left_own(self.aa)))), Some(GfDiscriminant::Aab) => (left_own(self.aab) + (left_own(self.a) + left_own(self.aa))), Some(GfDiscriminant::A) => (left_own(self.a) + left_own(self.aa)), Some(GfDiscriminant::Aa) => left_own(self.aa),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GfDiscriminant::AaB) => 4, Some(GfDiscriminant::Aab) => 3, Some(GfDiscriminant::A) => 2, Some(GfDiscriminant::Aa) => 1, None => 0 } }
/*@fn gen:gf.rs GfIntoIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, Gf)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GfDiscriminant::AaB) && self.aa_b.pos() >= self.aa_b.all().len() { assert(left_own(self.aa_b).len() == 0); } if self._iter_state == Some(GfDiscriminant::Aab) && self.aab.pos() >= self.aab.all().len() { assert(left_own(self.aab).len() == 0); } if self._iter_state == Some(GfDiscriminant::A) && self.a.pos() >= self.a.all().len() { assert(left_own(self.a).len() == 0); } if self._iter_state == Some(GfDiscriminant::Aa) && self.aa.pos() >= self.aa.all().len() { assert(left_own(self.aa).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GfDiscriminant::AaB) && old(self).aa_b.pos() < old(self).aa_b.all().len() { assert(left_own(self.aa_b) =~= left_own(old(self).aa_b).skip(1)); assert(left_own(old(self).aa_b)[0] == vf_ret->0); } if old(self)._iter_state == Some(GfDiscriminant::Aab) && old(self).aab.pos() < old(self).aab.all().len() { assert(left_own(self.aab) =~= left_own(old(self).aab).skip(1)); assert(left_own(old(self).aab)[0] == vf_ret->0); } if old(self)._iter_state == Some(GfDiscriminant::A) && old(self).a.pos() < old(self).a.all().len() { assert(left_own(self.a) =~= left_own(old(self).a).skip(1)); assert(left_own(old(self).a)[0] == vf_ret->0); } if old(self)._iter_state == Some(GfDiscriminant::Aa) && old(self).aa.pos() < old(self).aa.all().len() { assert(left_own(self.aa) =~= left_own(old(self).aa).skip(1)); assert(left_own(old(self).aa)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:gf.rs GfIntoIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); hints_step(vf_all0, 2); hints_step(vf_all0, 3); assert(left_own(self.aa_b).len() == vf_all0[0].0); assert(left_own(self.aab).len() == vf_all0[1].0); assert(left_own(self.a).len() == vf_all0[2].0); assert(left_own(self.aa).len() == vf_all0[3].0); }
@*/
}
impl GfArena {
/*@fn gen:gf.rs GfArena as CateArena::iter
#props C07
#sig
fn gen_iter<'a>(&'a self) -> (r: GfIter<'a>)
#requires
  arena_wf(*self),
#ensures
  r.ok(), seq_of_map_kref(nodes_of(*self), r.rest()),
#start
  let ghost vf_a = *self;
#end
  proof { parts(vf_a); left_ok(vf_a.aa_b@, vf_ret.aa_b); left_ok(vf_a.aab@, vf_ret.aab); left_ok(vf_a.a@, vf_ret.a); left_ok(vf_a.aa@, vf_ret.aa); cat_ok(lift(vf_a.a@), left(vf_ret.a), lift(vf_a.aa@), left(vf_ret.aa)); cat_ok(lift(vf_a.aab@), left(vf_ret.aab), lift(vf_a.a@).union_prefer_right(lift(vf_a.aa@)), (left(vf_ret.a) + left(vf_ret.aa))); cat_ok(lift(vf_a.aa_b@), left(vf_ret.aa_b), lift(vf_a.aab@).union_prefer_right(lift(vf_a.a@).union_prefer_right(lift(vf_a.aa@))), (left(vf_ret.aab) + (left(vf_ret.a) + left(vf_ret.aa)))); }
#replace
  Self::IntoIter =>> GfIntoIter
  Self::Iter =>> GfIter
  Self::D =>> GfDiscriminant
@*/
/*@fn gen:gf.rs GfArena as CateArena::into_iter
#props C07 C10
#sig
fn gen_into_iter(self) -> (r: GfIntoIter)
#requires
  arena_wf(self),
#ensures
  r.ok(), seq_of_map(nodes_of(self), r.rest()),
#start
  let ghost vf_a = self;
#end
  proof { parts(vf_a); left_own_ok(vf_a.aa_b@, vf_ret.aa_b); left_own_ok(vf_a.aab@, vf_ret.aab); left_own_ok(vf_a.a@, vf_ret.a); left_own_ok(vf_a.aa@, vf_ret.aa); cat_own_ok(lift(vf_a.a@), left_own(vf_ret.a), lift(vf_a.aa@), left_own(vf_ret.aa)); cat_own_ok(lift(vf_a.aab@), left_own(vf_ret.aab), lift(vf_a.a@).union_prefer_right(lift(vf_a.aa@)), (left_own(vf_ret.a) + left_own(vf_ret.aa))); cat_own_ok(lift(vf_a.aa_b@), left_own(vf_ret.aa_b), lift(vf_a.aab@).union_prefer_right(lift(vf_a.a@).union_prefer_right(lift(vf_a.aa@))), (left_own(vf_ret.aab) + (left_own(vf_ret.a) + left_own(vf_ret.aa)))); }
#replace
  Self::IntoIter =>> GfIntoIter
  Self::Iter =>> GfIter
  Self::D =>> GfDiscriminant
@*/
}
impl CateArena for GfArena {
  // what a loop over the arena's iterator visits
  #[verifier::loop_isolation(true)]
  fn vf_iter<'a>(&'a self) -> VIter<(NodeIndex, &'a Gf)> {
    let mut it = self.gen_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
  #[verifier::loop_isolation(true)]
  fn vf_into_iter(self) -> VIter<(NodeIndex, Gf)> {
    let mut it = self.gen_into_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
/*@fn gen:gf.rs GfArena as CateArena::new
#props C07 C09
@*/
/*@fn gen:gf.rs GfArena as CateArena::new_from_iter
#props C07 C10
#start
  proof { reveal(arena_wf); reveal(nodes_of); }
#loop @* before
  proof { assert(nodes_of(result) =~= upto(vf_all$n, 0)); }
#loop @*
  arena_wf(result), result.dist() == id_distributer, nodes_of(result) == upto(vf_all$n, vf_it$n.pos()),
  forall|k: NodeIndex| #[trigger] result.disp().contains_key(k) <==> upto(vf_all$n, vf_it$n.pos()).contains_key(k),
#loop @* begin
  let ghost vf_pre = result;
  proof {
    upto_has(vf_all$n, (vf_it$n.pos() - 1) as nat);
    let ghost vf_i = vf_all$n[vf_it$n.pos() - 1].0;
    assert(NodeIndex(vf_i.0) == vf_i);
    assert(!result.cont(GfDiscriminant::AaB).contains_key(vf_i.0)); assert(!result.cont(GfDiscriminant::Aab).contains_key(vf_i.0)); assert(!result.cont(GfDiscriminant::A).contains_key(vf_i.0)); assert(!result.cont(GfDiscriminant::Aa).contains_key(vf_i.0));
  }
#loop @* end
  proof { assert forall|d: GfDiscriminant, k: usize| #[trigger] result.cont(d).contains_key(k) implies result.disp().contains_key(NodeIndex(k)) && result.disp()[NodeIndex(k)] == d && result.cont(d)[k].disc() == d by {
    assert(vf_pre.cont(d).contains_key(k) || NodeIndex(k) == vf_all$n[vf_it$n.pos() - 1].0);
  } }
  proof { assert(nodes_of(result) =~= upto(vf_all$n, vf_it$n.pos())); }
#loop @* after
  proof { upto_has(vf_all$n, vf_all$n.len()); }
@*/
/*@fn gen:gf.rs GfArena as CateArena::dispatch
#props C07
@*/
/*@fn gen:gf.rs GfArena as CateArena::get_container
#props C07
@*/
/*@fn gen:gf.rs GfArena as CateArena::get_container_mut
#props C07 C03
@*/
/*@fn gen:gf.rs GfArena as CateArena::alloc
#props C06 C08
#mode P
@*/
/*@fn gen:gf.rs GfArena as CateArena::alloc_untyped
#props C06 C08
@*/
/*@fn gen:gf.rs GfArena as CateArena::fill_back_untyped
#props C08 C07
#start
  proof {
    reveal(arena_wf); reveal(nodes_of); assert(NodeIndex(i.0) == i);
    assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GfDiscriminant::AaB).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GfDiscriminant::Aab).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GfDiscriminant::A).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GfDiscriminant::Aa).contains_key(i.0));
  }
#end
  proof {
    assert forall|d: GfDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i); assert(NodeIndex(k) == i ==> !old(self).cont(d).contains_key(k));
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(i, item));
  }
@*/
/*@fn gen:gf.rs GfArena as CateArena::remove
#props C07 C03
#start
  proof { reveal(arena_wf); reveal(nodes_of); reveal(arena_wf_ex); }
#end
  proof {
    assert forall|d: GfDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i);
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).remove(i));
  }
@*/
/*@fn gen:gf.rs GfArena as CateArena::merge
#props C03 C07 C11
#start
  let ghost vf_o = other;
  proof { reveal(arena_wf); reveal(nodes_of); }
#end
  proof {
    assert forall|d: GfDiscriminant, i: usize| #[trigger] self.cont(d).contains_key(i) implies self.disp().contains_key(NodeIndex(i)) && self.disp()[NodeIndex(i)] == d && self.cont(d)[i].disc() == d by {
      assert(old(self).cont(d).contains_key(i) || vf_o.cont(d).contains_key(i));
      if vf_o.cont(d).contains_key(i) { assert(vf_o.disp().dom().contains(NodeIndex(i))); } else { assert(old(self).disp().dom().contains(NodeIndex(i))); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) == (nodes_of(*old(self)).contains_key(i) || nodes_of(vf_o).contains_key(i)) by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GfDiscriminant::AaB).contains_key(i.0)); assert(!vf_o.cont(GfDiscriminant::Aab).contains_key(i.0)); assert(!vf_o.cont(GfDiscriminant::A).contains_key(i.0)); assert(!vf_o.cont(GfDiscriminant::Aa).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GfDiscriminant::AaB).contains_key(i.0)); assert(!old(self).cont(GfDiscriminant::Aab).contains_key(i.0)); assert(!old(self).cont(GfDiscriminant::A).contains_key(i.0)); assert(!old(self).cont(GfDiscriminant::Aa).contains_key(i.0)); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) implies nodes_of(*self)[i] == nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o))[i] by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GfDiscriminant::AaB).contains_key(i.0)); assert(!vf_o.cont(GfDiscriminant::Aab).contains_key(i.0)); assert(!vf_o.cont(GfDiscriminant::A).contains_key(i.0)); assert(!vf_o.cont(GfDiscriminant::Aa).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GfDiscriminant::AaB).contains_key(i.0)); assert(!old(self).cont(GfDiscriminant::Aab).contains_key(i.0)); assert(!old(self).cont(GfDiscriminant::A).contains_key(i.0)); assert(!old(self).cont(GfDiscriminant::Aa).contains_key(i.0)); }
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o)));
  }
@*/
/*@fn gen:gf.rs GfArena as CateArena::len
#props C07
#end
  proof {
    parts(*self);
    lift_len(self.aa_b@); lift_len(self.aab@); lift_len(self.a@); lift_len(self.aa@);
    union_len(lift(self.a@).dom(), lift(self.aa@).dom()); union_len(lift(self.aab@).dom(), lift(self.a@).dom().union(lift(self.aa@).dom())); union_len(lift(self.aa_b@).dom(), lift(self.aab@).dom().union(lift(self.a@).dom().union(lift(self.aa@).dom())));
    assert(nodes_of(*self).dom() =~= lift(self.aa_b@).dom().union(lift(self.aab@).dom().union(lift(self.a@).dom().union(lift(self.aa@).dom()))));
  }
@*/
}
fn main() {}
}
