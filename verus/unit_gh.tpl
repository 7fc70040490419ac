// modes: P
// Written by verus/gen_schemas.py. The expansion of the macros for gen/src/lib.rs, mod gh.
#![allow(unused, dead_code, non_camel_case_types)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
verus! {
/*@include prelude.rs@*/
/*@include-trusted base.inc@*/
/*@include typed.inc@*/
/*@replace
  Box<dyn std::iter::Iterator<Item = ttgraph::NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = (NodeIndex, Self::SourceEnum)>> =>> VIter<(NodeIndex, Self::SourceEnum)>
  std::vec::IntoIter< =>> VIter<
  ::alloc::vec::Vec =>> Vec
  ::ordermap::OrderSet =>> OrderSet
  ::indexmap::IndexSet =>> IndexSet
  std::collections::HashSet =>> HashSet
  std::collections::BTreeSet =>> BTreeSet
  impl std::iter::IntoIterator<Item = (ttgraph::NodeIndex, Self::V)> =>> Vec<(ttgraph::NodeIndex, Self::V)>
  <dyn std::any::Any>::downcast_ref::<TGDataRefT> =>> vf_downcast::<_, TGDataRefT>
  <W as ttgraph::TypedNode>::Source =>> WSource
  <W as ttgraph::TypedNode>::LinkMirror =>> WLinkMirror
  <W as ttgraph::TypedNode>::LoGMirror =>> WLoGMirror
  <self::super::W as ttgraph::TypedNode>::Source =>> WSource
  <self::super::W as ttgraph::TypedNode>::LinkMirror =>> WLinkMirror
  <self::super::W as ttgraph::TypedNode>::LoGMirror =>> WLoGMirror
  <W as TypedNode>::Source =>> WSource
  <W as TypedNode>::LinkMirror =>> WLinkMirror
  <W as TypedNode>::LoGMirror =>> WLoGMirror
  <self::super::W as TypedNode>::Source =>> WSource
  <self::super::W as TypedNode>::LinkMirror =>> WLinkMirror
  <self::super::W as TypedNode>::LoGMirror =>> WLoGMirror
  <U as ttgraph::TypedNode>::Source =>> USource
  <U as ttgraph::TypedNode>::LinkMirror =>> ULinkMirror
  <U as ttgraph::TypedNode>::LoGMirror =>> ULoGMirror
  <self::super::U as ttgraph::TypedNode>::Source =>> USource
  <self::super::U as ttgraph::TypedNode>::LinkMirror =>> ULinkMirror
  <self::super::U as ttgraph::TypedNode>::LoGMirror =>> ULoGMirror
  <U as TypedNode>::Source =>> USource
  <U as TypedNode>::LinkMirror =>> ULinkMirror
  <U as TypedNode>::LoGMirror =>> ULoGMirror
  <self::super::U as TypedNode>::Source =>> USource
  <self::super::U as TypedNode>::LinkMirror =>> ULinkMirror
  <self::super::U as TypedNode>::LoGMirror =>> ULoGMirror
@*/
// ---------------- W ----------------
/*@struct gen:gh.rs W
@*/
/*@enum gen:gh.rs WSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gh.rs WLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gh.rs WLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_w { pub use super::*; }
pub struct WData { pub d0: u16, pub d1: String, pub d2: u16, pub n_f3: nat, pub n_f4: nat, }
impl TypedSpec for W {
  type Source = WSource;
  type LinkMirror = WLinkMirror;
  type LoGMirror = WLoGMirror;
  type DataT = WData;
  open spec fn links(&self) -> ISet<(NodeIndex, WSource)> {
    ISet::new(|p: (NodeIndex, WSource)| p.0.0 != 0 && match p.1 {
      WSource::F0 => self.f0 == p.0,
      WSource::F1 => self.f1 == p.0,
      WSource::F2 => self.f2 == p.0,
      WSource::F3(i) => i < self.f3@.len() && self.f3@[i as int] == p.0,
      WSource::F4(i) => i < self.f4@.len() && self.f4@[i as int] == p.0,
      WSource::F5 => self.f5@.contains(p.0),
      WSource::F6 => self.f6@.contains(p.0),
      WSource::F7 => self.f7@.contains(p.0),
      WSource::F8 => self.f8 == p.0,
      WSource::F9 => self.f9@.contains(p.0),
    })
  }
  open spec fn data(&self) -> WData { WData { d0: self.d0, d1: self.d1, d2: self.d2, n_f3: self.f3@.len(), n_f4: self.f4@.len(), } }
  open spec fn place_ok(d: WData, s: WSource) -> bool { match s {
      WSource::F0 => true,
      WSource::F1 => true,
      WSource::F2 => true,
      WSource::F3(i) => i < d.n_f3,
      WSource::F4(i) => i < d.n_f4,
      WSource::F5 => true,
      WSource::F6 => true,
      WSource::F7 => true,
      WSource::F8 => true,
      WSource::F9 => true,
  } }
  open spec fn single(s: WSource) -> bool { match s {
      WSource::F0 => true,
      WSource::F1 => true,
      WSource::F2 => true,
      WSource::F3(i) => true,
      WSource::F4(i) => true,
      WSource::F5 => false,
      WSource::F6 => false,
      WSource::F7 => false,
      WSource::F8 => true,
      WSource::F9 => false,
  } }
  open spec fn mirror(s: WSource) -> WLinkMirror { match s {
      WSource::F0 => WLinkMirror::F0,
      WSource::F1 => WLinkMirror::F1,
      WSource::F2 => WLinkMirror::F2,
      WSource::F3(i) => WLinkMirror::F3,
      WSource::F4(i) => WLinkMirror::F4,
      WSource::F5 => WLinkMirror::F5,
      WSource::F6 => WLinkMirror::F6,
      WSource::F7 => WLinkMirror::F7,
      WSource::F8 => WLinkMirror::F8,
      WSource::F9 => WLinkMirror::F9,
  } }
  open spec fn source(l: WLinkMirror) -> WSource { match l {
      WLinkMirror::F0 => WSource::F0,
      WLinkMirror::F1 => WSource::F1,
      WLinkMirror::F2 => WSource::F2,
      WLinkMirror::F3 => WSource::F3(0),
      WLinkMirror::F4 => WSource::F4(0),
      WLinkMirror::F5 => WSource::F5,
      WLinkMirror::F6 => WSource::F6,
      WLinkMirror::F7 => WSource::F7,
      WLinkMirror::F8 => WSource::F8,
      WLinkMirror::F9 => WSource::F9,
  } }
  open spec fn is_vec(l: WLinkMirror) -> bool { match l {
      WLinkMirror::F0 => false,
      WLinkMirror::F1 => false,
      WLinkMirror::F2 => false,
      WLinkMirror::F3 => true,
      WLinkMirror::F4 => true,
      WLinkMirror::F5 => false,
      WLinkMirror::F6 => false,
      WLinkMirror::F7 => false,
      WLinkMirror::F8 => false,
      WLinkMirror::F9 => false,
  } }
  open spec fn is_field(l: WLinkMirror) -> bool { true }
  open spec fn in_log(g: WLoGMirror, l: WLinkMirror) -> bool { match (g, l) {
    (WLoGMirror::F0, WLinkMirror::F0) => true,
    (WLoGMirror::F1, WLinkMirror::F1) => true,
    (WLoGMirror::F2, WLinkMirror::F2) => true,
    (WLoGMirror::F3, WLinkMirror::F3) => true,
    (WLoGMirror::F4, WLinkMirror::F4) => true,
    (WLoGMirror::F5, WLinkMirror::F5) => true,
    (WLoGMirror::F6, WLinkMirror::F6) => true,
    (WLoGMirror::F7, WLinkMirror::F7) => true,
    (WLoGMirror::F8, WLinkMirror::F8) => true,
    (WLoGMirror::F9, WLinkMirror::F9) => true,
    (WLoGMirror::G0, WLinkMirror::F0) => true,
    (WLoGMirror::G0, WLinkMirror::F1) => true,
    (WLoGMirror::G0, WLinkMirror::F7) => true,
    (WLoGMirror::G1, WLinkMirror::F1) => true,
    (WLoGMirror::G1, WLinkMirror::F2) => true,
    (WLoGMirror::G2, WLinkMirror::F3) => true,
    (WLoGMirror::G2, WLinkMirror::F4) => true,
    (WLoGMirror::G3, WLinkMirror::F4) => true,
    (WLoGMirror::G3, WLinkMirror::F5) => true,
    (WLoGMirror::G4, WLinkMirror::F5) => true,
    (WLoGMirror::G4, WLinkMirror::F6) => true,
    (WLoGMirror::G5, WLinkMirror::F6) => true,
    (WLoGMirror::G5, WLinkMirror::F7) => true,
    (WLoGMirror::G5, WLinkMirror::F9) => true,
    _ => false,
  } }
  open spec fn has(&self, l: WLinkMirror, x: NodeIndex) -> bool { match l {
      WLinkMirror::F0 => self.f0 == x,
      WLinkMirror::F1 => self.f1 == x,
      WLinkMirror::F2 => self.f2 == x,
      WLinkMirror::F3 => self.f3@.contains(x),
      WLinkMirror::F4 => self.f4@.contains(x),
      WLinkMirror::F5 => self.f5@.contains(x),
      WLinkMirror::F6 => self.f6@.contains(x),
      WLinkMirror::F7 => self.f7@.contains(x),
      WLinkMirror::F8 => self.f8 == x,
      WLinkMirror::F9 => self.f9@.contains(x),
  } }
  open spec fn cnt_of(&self, l: WLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      WLinkMirror::F0 => if self.f0 == x { 1 } else { 0 },
      WLinkMirror::F1 => if self.f1 == x { 1 } else { 0 },
      WLinkMirror::F2 => if self.f2 == x { 1 } else { 0 },
      WLinkMirror::F3 => cnt(self.f3@, x),
      WLinkMirror::F4 => cnt(self.f4@, x),
      WLinkMirror::F5 => if self.f5@.contains(x) { 1 } else { 0 },
      WLinkMirror::F6 => if self.f6@.contains(x) { 1 } else { 0 },
      WLinkMirror::F7 => if self.f7@.contains(x) { 1 } else { 0 },
      WLinkMirror::F8 => if self.f8 == x { 1 } else { 0 },
      WLinkMirror::F9 => if self.f9@.contains(x) { 1 } else { 0 },
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "g0"@ { self.cnt_of(WLinkMirror::F0, x) + self.cnt_of(WLinkMirror::F1, x) + self.cnt_of(WLinkMirror::F7, x) } else if name == "g1"@ { self.cnt_of(WLinkMirror::F1, x) + self.cnt_of(WLinkMirror::F2, x) } else if name == "g2"@ { self.cnt_of(WLinkMirror::F3, x) + self.cnt_of(WLinkMirror::F4, x) } else if name == "g3"@ { self.cnt_of(WLinkMirror::F4, x) + self.cnt_of(WLinkMirror::F5, x) } else if name == "g4"@ { self.cnt_of(WLinkMirror::F5, x) + self.cnt_of(WLinkMirror::F6, x) } else if name == "g5"@ { self.cnt_of(WLinkMirror::F6, x) + self.cnt_of(WLinkMirror::F7, x) + self.cnt_of(WLinkMirror::F9, x) } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<WLinkMirror> { if name == "f0"@ { Some(WLinkMirror::F0) } else if name == "f1"@ { Some(WLinkMirror::F1) } else if name == "f2"@ { Some(WLinkMirror::F2) } else if name == "f3"@ { Some(WLinkMirror::F3) } else if name == "f4"@ { Some(WLinkMirror::F4) } else if name == "f5"@ { Some(WLinkMirror::F5) } else if name == "f6"@ { Some(WLinkMirror::F6) } else if name == "f7"@ { Some(WLinkMirror::F7) } else if name == "f8"@ { Some(WLinkMirror::F8) } else if name == "f9"@ { Some(WLinkMirror::F9) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<WLoGMirror> { if name == "f0"@ { Some(WLoGMirror::F0) } else if name == "f1"@ { Some(WLoGMirror::F1) } else if name == "f2"@ { Some(WLoGMirror::F2) } else if name == "f3"@ { Some(WLoGMirror::F3) } else if name == "f4"@ { Some(WLoGMirror::F4) } else if name == "f5"@ { Some(WLoGMirror::F5) } else if name == "f6"@ { Some(WLoGMirror::F6) } else if name == "f7"@ { Some(WLoGMirror::F7) } else if name == "f8"@ { Some(WLoGMirror::F8) } else if name == "f9"@ { Some(WLoGMirror::F9) } else if name == "g0"@ { Some(WLoGMirror::G0) } else if name == "g1"@ { Some(WLoGMirror::G1) } else if name == "g2"@ { Some(WLoGMirror::G2) } else if name == "g3"@ { Some(WLoGMirror::G3) } else if name == "g4"@ { Some(WLoGMirror::G4) } else if name == "g5"@ { Some(WLoGMirror::G5) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { if name == "d0"@ { vf_any::<u16, T>(self.d0) } else if name == "d1"@ { vf_any::<String, T>(self.d1) } else if name == "d2"@ { vf_any::<u16, T>(self.d2) } else { None } }
  open spec fn names() -> Seq<&'static str> { seq!["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Point, LinkType::Point, LinkType::Point, LinkType::Vec, LinkType::Vec, LinkType::Set, LinkType::Set, LinkType::Set, LinkType::Point, LinkType::Set] }
  open spec fn mirrors() -> Seq<WLinkMirror> { seq![WLinkMirror::F0, WLinkMirror::F1, WLinkMirror::F2, WLinkMirror::F3, WLinkMirror::F4, WLinkMirror::F5, WLinkMirror::F6, WLinkMirror::F7, WLinkMirror::F8, WLinkMirror::F9] }
  open spec fn dnames() -> Seq<&'static str> { seq!["d0", "d1", "d2"] }
  proof fn law_has(&self, l: WLinkMirror, x: NodeIndex) {
    if l is F0 && self.has(l, x) { assert(self.links().contains((x, WSource::F0))); }
    if l is F1 && self.has(l, x) { assert(self.links().contains((x, WSource::F1))); }
    if l is F2 && self.has(l, x) { assert(self.links().contains((x, WSource::F2))); }
    if l is F3 && self.has(l, x) { let j = choose|j: int| 0 <= j < self.f3@.len() && self.f3@[j] == x; assert(self.f3.len() == self.f3@.len()); assert(self.links().contains((x, WSource::F3(j as usize)))); }
    if l is F3 { assert forall|s: WSource| #[trigger] self.links().contains((x, s)) && Self::mirror(s) == l implies self.has(l, x) by { } }
    if l is F4 && self.has(l, x) { let j = choose|j: int| 0 <= j < self.f4@.len() && self.f4@[j] == x; assert(self.f4.len() == self.f4@.len()); assert(self.links().contains((x, WSource::F4(j as usize)))); }
    if l is F4 { assert forall|s: WSource| #[trigger] self.links().contains((x, s)) && Self::mirror(s) == l implies self.has(l, x) by { } }
    if l is F5 && self.has(l, x) { assert(self.links().contains((x, WSource::F5))); }
    if l is F6 && self.has(l, x) { assert(self.links().contains((x, WSource::F6))); }
    if l is F7 && self.has(l, x) { assert(self.links().contains((x, WSource::F7))); }
    if l is F8 && self.has(l, x) { assert(self.links().contains((x, WSource::F8))); }
    if l is F9 && self.has(l, x) { assert(self.links().contains((x, WSource::F9))); }
  }
}
impl WSource {
/*@fn gen:gh.rs WSource::to_link_mirror
#props C12
#ensures
  r == W::mirror(self),
@*/
}
impl WLinkMirror {
/*@fn gen:gh.rs WLinkMirror::to_source
#props C12
#requires[T]
  !W::is_vec(self),
#ensures
  r == W::source(self), !W::is_vec(self),
@*/
}
impl WLoGMirror {
/*@fn gen:gh.rs WLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> W::in_log(self, #[trigger] r@[i]),
  forall|l: WLinkMirror| #[trigger] W::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is F0 { assert(vf_ret@.contains(WLinkMirror::F0)); }
    if self is F1 { assert(vf_ret@.contains(WLinkMirror::F1)); }
    if self is F2 { assert(vf_ret@.contains(WLinkMirror::F2)); }
    if self is F3 { assert(vf_ret@.contains(WLinkMirror::F3)); }
    if self is F4 { assert(vf_ret@.contains(WLinkMirror::F4)); }
    if self is F5 { assert(vf_ret@.contains(WLinkMirror::F5)); }
    if self is F6 { assert(vf_ret@.contains(WLinkMirror::F6)); }
    if self is F7 { assert(vf_ret@.contains(WLinkMirror::F7)); }
    if self is F8 { assert(vf_ret@.contains(WLinkMirror::F8)); }
    if self is F9 { assert(vf_ret@.contains(WLinkMirror::F9)); }
    if self is G0 { assert(vf_ret@.contains(WLinkMirror::F0)); assert(vf_ret@.contains(WLinkMirror::F1)); assert(vf_ret@.contains(WLinkMirror::F7)); }
    if self is G1 { assert(vf_ret@.contains(WLinkMirror::F1)); assert(vf_ret@.contains(WLinkMirror::F2)); }
    if self is G2 { assert(vf_ret@.contains(WLinkMirror::F3)); assert(vf_ret@.contains(WLinkMirror::F4)); }
    if self is G3 { assert(vf_ret@.contains(WLinkMirror::F4)); assert(vf_ret@.contains(WLinkMirror::F5)); }
    if self is G4 { assert(vf_ret@.contains(WLinkMirror::F5)); assert(vf_ret@.contains(WLinkMirror::F6)); }
    if self is G5 { assert(vf_ret@.contains(WLinkMirror::F6)); assert(vf_ret@.contains(WLinkMirror::F7)); assert(vf_ret@.contains(WLinkMirror::F9)); }
  }
@*/
}
impl TypedNode for W {
/*@fn gen:gh.rs W as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.f3 before
  let ghost vf_pre$n = sources@;
#loop @self.f3
  forall|p: (NodeIndex, WSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 is F3 && p.1->F3_0 < vf_it$n.pos() && self.f3@[p.1->F3_0 as int] == p.0),
  sources@.no_duplicates(),
#loop @self.f4 before
  let ghost vf_pre$n = sources@;
#loop @self.f4
  forall|p: (NodeIndex, WSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 is F4 && p.1->F4_0 < vf_it$n.pos() && self.f4@[p.1->F4_0 as int] == p.0),
  sources@.no_duplicates(),
#loop @self.f5 before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.f5
  forall|p: (NodeIndex, WSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == WSource::F5 && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.f5 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.f5 after
  proof { met_all(self.f5@, vf_all$n); }
#loop @self.f6 before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.f6
  forall|p: (NodeIndex, WSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == WSource::F6 && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.f6 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.f6 after
  proof { met_all(self.f6@, vf_all$n); }
#loop @self.f7 before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.f7
  forall|p: (NodeIndex, WSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == WSource::F7 && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.f7 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.f7 after
  proof { met_all(self.f7@, vf_all$n); }
#loop @self.f9 before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.f9
  forall|p: (NodeIndex, WSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == WSource::F9 && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.f9 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.f9 after
  proof { met_all(self.f9@, vf_all$n); }
#end
  proof {
    assert forall|p: (NodeIndex, WSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:gh.rs W as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.f3 before
  proof { take_none(self.f3@); }
#loop @self.f3
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 == 0 { 0 } else { cnt(self.f3@.take(vf_it$n.pos() as int), x) }),
#loop @self.f3 begin
  proof { cnt_take(self.f3@, vf_it$n.pos() - 1); }
#loop @self.f3 after
  proof { take_all(self.f3@); }
#loop @self.f4 before
  proof { take_none(self.f4@); }
#loop @self.f4
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 == 0 { 0 } else { cnt(self.f4@.take(vf_it$n.pos() as int), x) }),
#loop @self.f4 begin
  proof { cnt_take(self.f4@, vf_it$n.pos() - 1); }
#loop @self.f4 after
  proof { take_all(self.f4@); }
#loop @self.f5 before
  proof { met_none(vf_all$n); }
#loop @self.f5
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.f5 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.f5 after
  proof { met_all(self.f5@, vf_all$n); }
#loop @self.f6 before
  proof { met_none(vf_all$n); }
#loop @self.f6
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.f6 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.f6 after
  proof { met_all(self.f6@, vf_all$n); }
#loop @self.f7 before
  proof { met_none(vf_all$n); }
#loop @self.f7
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.f7 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.f7 after
  proof { met_all(self.f7@, vf_all$n); }
#loop @self.f9 before
  proof { met_none(vf_all$n); }
#loop @self.f9
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.f9 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.f9 after
  proof { met_all(self.f9@, vf_all$n); }
@*/
/*@fn gen:gh.rs W as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if self.f0.0 != 0 { assert(self.links().contains((self.f0, WSource::F0))); }
    if self.f1.0 != 0 { assert(self.links().contains((self.f1, WSource::F1))); }
    if self.f2.0 != 0 { assert(self.links().contains((self.f2, WSource::F2))); }
    if source is F3 { let j = source->F3_0 as int; if self.f3@[j].0 != 0 { assert(self.links().contains((self.f3@[j], source))); } }
    if source is F4 { let j = source->F4_0 as int; if self.f4@[j].0 != 0 { assert(self.links().contains((self.f4@[j], source))); } }
    if self.f8.0 != 0 { assert(self.links().contains((self.f8, WSource::F8))); }
  }
#end
  proof { assert forall|p: (NodeIndex, WSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == WSource::F0 || q == WSource::F1 || q == WSource::F2 || q is F3 || q is F4 || q == WSource::F5 || q == WSource::F6 || q == WSource::F7 || q == WSource::F8 || q == WSource::F9); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gh.rs W as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.f0.0 != 0 { assert(self.links().contains((self.f0, WSource::F0))); }
    if self.f1.0 != 0 { assert(self.links().contains((self.f1, WSource::F1))); }
    if self.f2.0 != 0 { assert(self.links().contains((self.f2, WSource::F2))); }
    if self.f8.0 != 0 { assert(self.links().contains((self.f8, WSource::F8))); }
  }
#end
  proof { assert forall|p: (NodeIndex, WSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == WSource::F0 || q == WSource::F1 || q == WSource::F2 || q is F3 || q is F4 || q == WSource::F5 || q == WSource::F6 || q == WSource::F7 || q == WSource::F8 || q == WSource::F9); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:gh.rs W as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, WSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == WSource::F0 || q == WSource::F1 || q == WSource::F2 || q is F3 || q is F4 || q == WSource::F5 || q == WSource::F6 || q == WSource::F7 || q == WSource::F8 || q == WSource::F9); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:gh.rs W as TypedNode::contains_link
#props C12 C04
#loop @self.f3 before
  proof { take_none(self.f3@); }
#loop @self.f3
  vf_acc$n == self.f3@.take(vf_it$n.pos() as int).contains(target),
#loop @self.f3 begin
  proof { take_step(self.f3@, vf_it$n.pos() - 1); }
#loop @self.f3 after
  proof { take_all(self.f3@); }
#loop @self.f4 before
  proof { take_none(self.f4@); }
#loop @self.f4
  vf_acc$n == self.f4@.take(vf_it$n.pos() as int).contains(target),
#loop @self.f4 begin
  proof { take_step(self.f4@, vf_it$n.pos() - 1); }
#loop @self.f4 after
  proof { take_all(self.f4@); }
@*/
/*@fn gen:gh.rs W as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:gh.rs W as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:gh.rs W as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:gh.rs W as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:gh.rs W as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("d0"); reveal_strlit("d1"); reveal_strlit("d2"); reveal_strlit("f0"); reveal_strlit("f1"); reveal_strlit("f2"); reveal_strlit("f3"); reveal_strlit("f4"); reveal_strlit("f5"); reveal_strlit("f6"); reveal_strlit("f7"); reveal_strlit("f8"); reveal_strlit("f9"); reveal_strlit("g0"); reveal_strlit("g1"); reveal_strlit("g2"); reveal_strlit("g3"); reveal_strlit("g4"); reveal_strlit("g5"); assert("d0"@[1] != "d1"@[1]); assert("d0"@[1] != "d2"@[1]); assert("d0"@[0] != "f0"@[0]); assert("d0"@[0] != "f1"@[0]); assert("d0"@[0] != "f2"@[0]); assert("d0"@[0] != "f3"@[0]); assert("d0"@[0] != "f4"@[0]); assert("d0"@[0] != "f5"@[0]); assert("d0"@[0] != "f6"@[0]); assert("d0"@[0] != "f7"@[0]); assert("d0"@[0] != "f8"@[0]); assert("d0"@[0] != "f9"@[0]); assert("d0"@[0] != "g0"@[0]); assert("d0"@[0] != "g1"@[0]); assert("d0"@[0] != "g2"@[0]); assert("d0"@[0] != "g3"@[0]); assert("d0"@[0] != "g4"@[0]); assert("d0"@[0] != "g5"@[0]); assert("d1"@[1] != "d2"@[1]); assert("d1"@[0] != "f0"@[0]); assert("d1"@[0] != "f1"@[0]); assert("d1"@[0] != "f2"@[0]); assert("d1"@[0] != "f3"@[0]); assert("d1"@[0] != "f4"@[0]); assert("d1"@[0] != "f5"@[0]); assert("d1"@[0] != "f6"@[0]); assert("d1"@[0] != "f7"@[0]); assert("d1"@[0] != "f8"@[0]); assert("d1"@[0] != "f9"@[0]); assert("d1"@[0] != "g0"@[0]); assert("d1"@[0] != "g1"@[0]); assert("d1"@[0] != "g2"@[0]); assert("d1"@[0] != "g3"@[0]); assert("d1"@[0] != "g4"@[0]); assert("d1"@[0] != "g5"@[0]); assert("d2"@[0] != "f0"@[0]); assert("d2"@[0] != "f1"@[0]); assert("d2"@[0] != "f2"@[0]); assert("d2"@[0] != "f3"@[0]); assert("d2"@[0] != "f4"@[0]); assert("d2"@[0] != "f5"@[0]); assert("d2"@[0] != "f6"@[0]); assert("d2"@[0] != "f7"@[0]); assert("d2"@[0] != "f8"@[0]); assert("d2"@[0] != "f9"@[0]); assert("d2"@[0] != "g0"@[0]); assert("d2"@[0] != "g1"@[0]); assert("d2"@[0] != "g2"@[0]); assert("d2"@[0] != "g3"@[0]); assert("d2"@[0] != "g4"@[0]); assert("d2"@[0] != "g5"@[0]); assert("f0"@[1] != "f1"@[1]); assert("f0"@[1] != "f2"@[1]); assert("f0"@[1] != "f3"@[1]); assert("f0"@[1] != "f4"@[1]); assert("f0"@[1] != "f5"@[1]); assert("f0"@[1] != "f6"@[1]); assert("f0"@[1] != "f7"@[1]); assert("f0"@[1] != "f8"@[1]); assert("f0"@[1] != "f9"@[1]); assert("f0"@[0] != "g0"@[0]); assert("f0"@[0] != "g1"@[0]); assert("f0"@[0] != "g2"@[0]); assert("f0"@[0] != "g3"@[0]); assert("f0"@[0] != "g4"@[0]); assert("f0"@[0] != "g5"@[0]); assert("f1"@[1] != "f2"@[1]); assert("f1"@[1] != "f3"@[1]); assert("f1"@[1] != "f4"@[1]); assert("f1"@[1] != "f5"@[1]); assert("f1"@[1] != "f6"@[1]); assert("f1"@[1] != "f7"@[1]); assert("f1"@[1] != "f8"@[1]); assert("f1"@[1] != "f9"@[1]); assert("f1"@[0] != "g0"@[0]); assert("f1"@[0] != "g1"@[0]); assert("f1"@[0] != "g2"@[0]); assert("f1"@[0] != "g3"@[0]); assert("f1"@[0] != "g4"@[0]); assert("f1"@[0] != "g5"@[0]); assert("f2"@[1] != "f3"@[1]); assert("f2"@[1] != "f4"@[1]); assert("f2"@[1] != "f5"@[1]); assert("f2"@[1] != "f6"@[1]); assert("f2"@[1] != "f7"@[1]); assert("f2"@[1] != "f8"@[1]); assert("f2"@[1] != "f9"@[1]); assert("f2"@[0] != "g0"@[0]); assert("f2"@[0] != "g1"@[0]); assert("f2"@[0] != "g2"@[0]); assert("f2"@[0] != "g3"@[0]); assert("f2"@[0] != "g4"@[0]); assert("f2"@[0] != "g5"@[0]); assert("f3"@[1] != "f4"@[1]); assert("f3"@[1] != "f5"@[1]); assert("f3"@[1] != "f6"@[1]); assert("f3"@[1] != "f7"@[1]); assert("f3"@[1] != "f8"@[1]); assert("f3"@[1] != "f9"@[1]); assert("f3"@[0] != "g0"@[0]); assert("f3"@[0] != "g1"@[0]); assert("f3"@[0] != "g2"@[0]); assert("f3"@[0] != "g3"@[0]); assert("f3"@[0] != "g4"@[0]); assert("f3"@[0] != "g5"@[0]); assert("f4"@[1] != "f5"@[1]); assert("f4"@[1] != "f6"@[1]); assert("f4"@[1] != "f7"@[1]); assert("f4"@[1] != "f8"@[1]); assert("f4"@[1] != "f9"@[1]); assert("f4"@[0] != "g0"@[0]); assert("f4"@[0] != "g1"@[0]); assert("f4"@[0] != "g2"@[0]); assert("f4"@[0] != "g3"@[0]); assert("f4"@[0] != "g4"@[0]); assert("f4"@[0] != "g5"@[0]); assert("f5"@[1] != "f6"@[1]); assert("f5"@[1] != "f7"@[1]); assert("f5"@[1] != "f8"@[1]); assert("f5"@[1] != "f9"@[1]); assert("f5"@[0] != "g0"@[0]); assert("f5"@[0] != "g1"@[0]); assert("f5"@[0] != "g2"@[0]); assert("f5"@[0] != "g3"@[0]); assert("f5"@[0] != "g4"@[0]); assert("f5"@[0] != "g5"@[0]); assert("f6"@[1] != "f7"@[1]); assert("f6"@[1] != "f8"@[1]); assert("f6"@[1] != "f9"@[1]); assert("f6"@[0] != "g0"@[0]); assert("f6"@[0] != "g1"@[0]); assert("f6"@[0] != "g2"@[0]); assert("f6"@[0] != "g3"@[0]); assert("f6"@[0] != "g4"@[0]); assert("f6"@[0] != "g5"@[0]); assert("f7"@[1] != "f8"@[1]); assert("f7"@[1] != "f9"@[1]); assert("f7"@[0] != "g0"@[0]); assert("f7"@[0] != "g1"@[0]); assert("f7"@[0] != "g2"@[0]); assert("f7"@[0] != "g3"@[0]); assert("f7"@[0] != "g4"@[0]); assert("f7"@[0] != "g5"@[0]); assert("f8"@[1] != "f9"@[1]); assert("f8"@[0] != "g0"@[0]); assert("f8"@[0] != "g1"@[0]); assert("f8"@[0] != "g2"@[0]); assert("f8"@[0] != "g3"@[0]); assert("f8"@[0] != "g4"@[0]); assert("f8"@[0] != "g5"@[0]); assert("f9"@[0] != "g0"@[0]); assert("f9"@[0] != "g1"@[0]); assert("f9"@[0] != "g2"@[0]); assert("f9"@[0] != "g3"@[0]); assert("f9"@[0] != "g4"@[0]); assert("f9"@[0] != "g5"@[0]); assert("g0"@[1] != "g1"@[1]); assert("g0"@[1] != "g2"@[1]); assert("g0"@[1] != "g3"@[1]); assert("g0"@[1] != "g4"@[1]); assert("g0"@[1] != "g5"@[1]); assert("g1"@[1] != "g2"@[1]); assert("g1"@[1] != "g3"@[1]); assert("g1"@[1] != "g4"@[1]); assert("g1"@[1] != "g5"@[1]); assert("g2"@[1] != "g3"@[1]); assert("g2"@[1] != "g4"@[1]); assert("g2"@[1] != "g5"@[1]); assert("g3"@[1] != "g4"@[1]); assert("g3"@[1] != "g5"@[1]); assert("g4"@[1] != "g5"@[1]); }
@*/
/*@fn gen:gh.rs W as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("d0"); reveal_strlit("d1"); reveal_strlit("d2"); reveal_strlit("f0"); reveal_strlit("f1"); reveal_strlit("f2"); reveal_strlit("f3"); reveal_strlit("f4"); reveal_strlit("f5"); reveal_strlit("f6"); reveal_strlit("f7"); reveal_strlit("f8"); reveal_strlit("f9"); reveal_strlit("g0"); reveal_strlit("g1"); reveal_strlit("g2"); reveal_strlit("g3"); reveal_strlit("g4"); reveal_strlit("g5"); assert("d0"@[1] != "d1"@[1]); assert("d0"@[1] != "d2"@[1]); assert("d0"@[0] != "f0"@[0]); assert("d0"@[0] != "f1"@[0]); assert("d0"@[0] != "f2"@[0]); assert("d0"@[0] != "f3"@[0]); assert("d0"@[0] != "f4"@[0]); assert("d0"@[0] != "f5"@[0]); assert("d0"@[0] != "f6"@[0]); assert("d0"@[0] != "f7"@[0]); assert("d0"@[0] != "f8"@[0]); assert("d0"@[0] != "f9"@[0]); assert("d0"@[0] != "g0"@[0]); assert("d0"@[0] != "g1"@[0]); assert("d0"@[0] != "g2"@[0]); assert("d0"@[0] != "g3"@[0]); assert("d0"@[0] != "g4"@[0]); assert("d0"@[0] != "g5"@[0]); assert("d1"@[1] != "d2"@[1]); assert("d1"@[0] != "f0"@[0]); assert("d1"@[0] != "f1"@[0]); assert("d1"@[0] != "f2"@[0]); assert("d1"@[0] != "f3"@[0]); assert("d1"@[0] != "f4"@[0]); assert("d1"@[0] != "f5"@[0]); assert("d1"@[0] != "f6"@[0]); assert("d1"@[0] != "f7"@[0]); assert("d1"@[0] != "f8"@[0]); assert("d1"@[0] != "f9"@[0]); assert("d1"@[0] != "g0"@[0]); assert("d1"@[0] != "g1"@[0]); assert("d1"@[0] != "g2"@[0]); assert("d1"@[0] != "g3"@[0]); assert("d1"@[0] != "g4"@[0]); assert("d1"@[0] != "g5"@[0]); assert("d2"@[0] != "f0"@[0]); assert("d2"@[0] != "f1"@[0]); assert("d2"@[0] != "f2"@[0]); assert("d2"@[0] != "f3"@[0]); assert("d2"@[0] != "f4"@[0]); assert("d2"@[0] != "f5"@[0]); assert("d2"@[0] != "f6"@[0]); assert("d2"@[0] != "f7"@[0]); assert("d2"@[0] != "f8"@[0]); assert("d2"@[0] != "f9"@[0]); assert("d2"@[0] != "g0"@[0]); assert("d2"@[0] != "g1"@[0]); assert("d2"@[0] != "g2"@[0]); assert("d2"@[0] != "g3"@[0]); assert("d2"@[0] != "g4"@[0]); assert("d2"@[0] != "g5"@[0]); assert("f0"@[1] != "f1"@[1]); assert("f0"@[1] != "f2"@[1]); assert("f0"@[1] != "f3"@[1]); assert("f0"@[1] != "f4"@[1]); assert("f0"@[1] != "f5"@[1]); assert("f0"@[1] != "f6"@[1]); assert("f0"@[1] != "f7"@[1]); assert("f0"@[1] != "f8"@[1]); assert("f0"@[1] != "f9"@[1]); assert("f0"@[0] != "g0"@[0]); assert("f0"@[0] != "g1"@[0]); assert("f0"@[0] != "g2"@[0]); assert("f0"@[0] != "g3"@[0]); assert("f0"@[0] != "g4"@[0]); assert("f0"@[0] != "g5"@[0]); assert("f1"@[1] != "f2"@[1]); assert("f1"@[1] != "f3"@[1]); assert("f1"@[1] != "f4"@[1]); assert("f1"@[1] != "f5"@[1]); assert("f1"@[1] != "f6"@[1]); assert("f1"@[1] != "f7"@[1]); assert("f1"@[1] != "f8"@[1]); assert("f1"@[1] != "f9"@[1]); assert("f1"@[0] != "g0"@[0]); assert("f1"@[0] != "g1"@[0]); assert("f1"@[0] != "g2"@[0]); assert("f1"@[0] != "g3"@[0]); assert("f1"@[0] != "g4"@[0]); assert("f1"@[0] != "g5"@[0]); assert("f2"@[1] != "f3"@[1]); assert("f2"@[1] != "f4"@[1]); assert("f2"@[1] != "f5"@[1]); assert("f2"@[1] != "f6"@[1]); assert("f2"@[1] != "f7"@[1]); assert("f2"@[1] != "f8"@[1]); assert("f2"@[1] != "f9"@[1]); assert("f2"@[0] != "g0"@[0]); assert("f2"@[0] != "g1"@[0]); assert("f2"@[0] != "g2"@[0]); assert("f2"@[0] != "g3"@[0]); assert("f2"@[0] != "g4"@[0]); assert("f2"@[0] != "g5"@[0]); assert("f3"@[1] != "f4"@[1]); assert("f3"@[1] != "f5"@[1]); assert("f3"@[1] != "f6"@[1]); assert("f3"@[1] != "f7"@[1]); assert("f3"@[1] != "f8"@[1]); assert("f3"@[1] != "f9"@[1]); assert("f3"@[0] != "g0"@[0]); assert("f3"@[0] != "g1"@[0]); assert("f3"@[0] != "g2"@[0]); assert("f3"@[0] != "g3"@[0]); assert("f3"@[0] != "g4"@[0]); assert("f3"@[0] != "g5"@[0]); assert("f4"@[1] != "f5"@[1]); assert("f4"@[1] != "f6"@[1]); assert("f4"@[1] != "f7"@[1]); assert("f4"@[1] != "f8"@[1]); assert("f4"@[1] != "f9"@[1]); assert("f4"@[0] != "g0"@[0]); assert("f4"@[0] != "g1"@[0]); assert("f4"@[0] != "g2"@[0]); assert("f4"@[0] != "g3"@[0]); assert("f4"@[0] != "g4"@[0]); assert("f4"@[0] != "g5"@[0]); assert("f5"@[1] != "f6"@[1]); assert("f5"@[1] != "f7"@[1]); assert("f5"@[1] != "f8"@[1]); assert("f5"@[1] != "f9"@[1]); assert("f5"@[0] != "g0"@[0]); assert("f5"@[0] != "g1"@[0]); assert("f5"@[0] != "g2"@[0]); assert("f5"@[0] != "g3"@[0]); assert("f5"@[0] != "g4"@[0]); assert("f5"@[0] != "g5"@[0]); assert("f6"@[1] != "f7"@[1]); assert("f6"@[1] != "f8"@[1]); assert("f6"@[1] != "f9"@[1]); assert("f6"@[0] != "g0"@[0]); assert("f6"@[0] != "g1"@[0]); assert("f6"@[0] != "g2"@[0]); assert("f6"@[0] != "g3"@[0]); assert("f6"@[0] != "g4"@[0]); assert("f6"@[0] != "g5"@[0]); assert("f7"@[1] != "f8"@[1]); assert("f7"@[1] != "f9"@[1]); assert("f7"@[0] != "g0"@[0]); assert("f7"@[0] != "g1"@[0]); assert("f7"@[0] != "g2"@[0]); assert("f7"@[0] != "g3"@[0]); assert("f7"@[0] != "g4"@[0]); assert("f7"@[0] != "g5"@[0]); assert("f8"@[1] != "f9"@[1]); assert("f8"@[0] != "g0"@[0]); assert("f8"@[0] != "g1"@[0]); assert("f8"@[0] != "g2"@[0]); assert("f8"@[0] != "g3"@[0]); assert("f8"@[0] != "g4"@[0]); assert("f8"@[0] != "g5"@[0]); assert("f9"@[0] != "g0"@[0]); assert("f9"@[0] != "g1"@[0]); assert("f9"@[0] != "g2"@[0]); assert("f9"@[0] != "g3"@[0]); assert("f9"@[0] != "g4"@[0]); assert("f9"@[0] != "g5"@[0]); assert("g0"@[1] != "g1"@[1]); assert("g0"@[1] != "g2"@[1]); assert("g0"@[1] != "g3"@[1]); assert("g0"@[1] != "g4"@[1]); assert("g0"@[1] != "g5"@[1]); assert("g1"@[1] != "g2"@[1]); assert("g1"@[1] != "g3"@[1]); assert("g1"@[1] != "g4"@[1]); assert("g1"@[1] != "g5"@[1]); assert("g2"@[1] != "g3"@[1]); assert("g2"@[1] != "g4"@[1]); assert("g2"@[1] != "g5"@[1]); assert("g3"@[1] != "g4"@[1]); assert("g3"@[1] != "g5"@[1]); assert("g4"@[1] != "g5"@[1]); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gh.rs W as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("d0"); reveal_strlit("d1"); reveal_strlit("d2"); reveal_strlit("f0"); reveal_strlit("f1"); reveal_strlit("f2"); reveal_strlit("f3"); reveal_strlit("f4"); reveal_strlit("f5"); reveal_strlit("f6"); reveal_strlit("f7"); reveal_strlit("f8"); reveal_strlit("f9"); reveal_strlit("g0"); reveal_strlit("g1"); reveal_strlit("g2"); reveal_strlit("g3"); reveal_strlit("g4"); reveal_strlit("g5"); assert("d0"@[1] != "d1"@[1]); assert("d0"@[1] != "d2"@[1]); assert("d0"@[0] != "f0"@[0]); assert("d0"@[0] != "f1"@[0]); assert("d0"@[0] != "f2"@[0]); assert("d0"@[0] != "f3"@[0]); assert("d0"@[0] != "f4"@[0]); assert("d0"@[0] != "f5"@[0]); assert("d0"@[0] != "f6"@[0]); assert("d0"@[0] != "f7"@[0]); assert("d0"@[0] != "f8"@[0]); assert("d0"@[0] != "f9"@[0]); assert("d0"@[0] != "g0"@[0]); assert("d0"@[0] != "g1"@[0]); assert("d0"@[0] != "g2"@[0]); assert("d0"@[0] != "g3"@[0]); assert("d0"@[0] != "g4"@[0]); assert("d0"@[0] != "g5"@[0]); assert("d1"@[1] != "d2"@[1]); assert("d1"@[0] != "f0"@[0]); assert("d1"@[0] != "f1"@[0]); assert("d1"@[0] != "f2"@[0]); assert("d1"@[0] != "f3"@[0]); assert("d1"@[0] != "f4"@[0]); assert("d1"@[0] != "f5"@[0]); assert("d1"@[0] != "f6"@[0]); assert("d1"@[0] != "f7"@[0]); assert("d1"@[0] != "f8"@[0]); assert("d1"@[0] != "f9"@[0]); assert("d1"@[0] != "g0"@[0]); assert("d1"@[0] != "g1"@[0]); assert("d1"@[0] != "g2"@[0]); assert("d1"@[0] != "g3"@[0]); assert("d1"@[0] != "g4"@[0]); assert("d1"@[0] != "g5"@[0]); assert("d2"@[0] != "f0"@[0]); assert("d2"@[0] != "f1"@[0]); assert("d2"@[0] != "f2"@[0]); assert("d2"@[0] != "f3"@[0]); assert("d2"@[0] != "f4"@[0]); assert("d2"@[0] != "f5"@[0]); assert("d2"@[0] != "f6"@[0]); assert("d2"@[0] != "f7"@[0]); assert("d2"@[0] != "f8"@[0]); assert("d2"@[0] != "f9"@[0]); assert("d2"@[0] != "g0"@[0]); assert("d2"@[0] != "g1"@[0]); assert("d2"@[0] != "g2"@[0]); assert("d2"@[0] != "g3"@[0]); assert("d2"@[0] != "g4"@[0]); assert("d2"@[0] != "g5"@[0]); assert("f0"@[1] != "f1"@[1]); assert("f0"@[1] != "f2"@[1]); assert("f0"@[1] != "f3"@[1]); assert("f0"@[1] != "f4"@[1]); assert("f0"@[1] != "f5"@[1]); assert("f0"@[1] != "f6"@[1]); assert("f0"@[1] != "f7"@[1]); assert("f0"@[1] != "f8"@[1]); assert("f0"@[1] != "f9"@[1]); assert("f0"@[0] != "g0"@[0]); assert("f0"@[0] != "g1"@[0]); assert("f0"@[0] != "g2"@[0]); assert("f0"@[0] != "g3"@[0]); assert("f0"@[0] != "g4"@[0]); assert("f0"@[0] != "g5"@[0]); assert("f1"@[1] != "f2"@[1]); assert("f1"@[1] != "f3"@[1]); assert("f1"@[1] != "f4"@[1]); assert("f1"@[1] != "f5"@[1]); assert("f1"@[1] != "f6"@[1]); assert("f1"@[1] != "f7"@[1]); assert("f1"@[1] != "f8"@[1]); assert("f1"@[1] != "f9"@[1]); assert("f1"@[0] != "g0"@[0]); assert("f1"@[0] != "g1"@[0]); assert("f1"@[0] != "g2"@[0]); assert("f1"@[0] != "g3"@[0]); assert("f1"@[0] != "g4"@[0]); assert("f1"@[0] != "g5"@[0]); assert("f2"@[1] != "f3"@[1]); assert("f2"@[1] != "f4"@[1]); assert("f2"@[1] != "f5"@[1]); assert("f2"@[1] != "f6"@[1]); assert("f2"@[1] != "f7"@[1]); assert("f2"@[1] != "f8"@[1]); assert("f2"@[1] != "f9"@[1]); assert("f2"@[0] != "g0"@[0]); assert("f2"@[0] != "g1"@[0]); assert("f2"@[0] != "g2"@[0]); assert("f2"@[0] != "g3"@[0]); assert("f2"@[0] != "g4"@[0]); assert("f2"@[0] != "g5"@[0]); assert("f3"@[1] != "f4"@[1]); assert("f3"@[1] != "f5"@[1]); assert("f3"@[1] != "f6"@[1]); assert("f3"@[1] != "f7"@[1]); assert("f3"@[1] != "f8"@[1]); assert("f3"@[1] != "f9"@[1]); assert("f3"@[0] != "g0"@[0]); assert("f3"@[0] != "g1"@[0]); assert("f3"@[0] != "g2"@[0]); assert("f3"@[0] != "g3"@[0]); assert("f3"@[0] != "g4"@[0]); assert("f3"@[0] != "g5"@[0]); assert("f4"@[1] != "f5"@[1]); assert("f4"@[1] != "f6"@[1]); assert("f4"@[1] != "f7"@[1]); assert("f4"@[1] != "f8"@[1]); assert("f4"@[1] != "f9"@[1]); assert("f4"@[0] != "g0"@[0]); assert("f4"@[0] != "g1"@[0]); assert("f4"@[0] != "g2"@[0]); assert("f4"@[0] != "g3"@[0]); assert("f4"@[0] != "g4"@[0]); assert("f4"@[0] != "g5"@[0]); assert("f5"@[1] != "f6"@[1]); assert("f5"@[1] != "f7"@[1]); assert("f5"@[1] != "f8"@[1]); assert("f5"@[1] != "f9"@[1]); assert("f5"@[0] != "g0"@[0]); assert("f5"@[0] != "g1"@[0]); assert("f5"@[0] != "g2"@[0]); assert("f5"@[0] != "g3"@[0]); assert("f5"@[0] != "g4"@[0]); assert("f5"@[0] != "g5"@[0]); assert("f6"@[1] != "f7"@[1]); assert("f6"@[1] != "f8"@[1]); assert("f6"@[1] != "f9"@[1]); assert("f6"@[0] != "g0"@[0]); assert("f6"@[0] != "g1"@[0]); assert("f6"@[0] != "g2"@[0]); assert("f6"@[0] != "g3"@[0]); assert("f6"@[0] != "g4"@[0]); assert("f6"@[0] != "g5"@[0]); assert("f7"@[1] != "f8"@[1]); assert("f7"@[1] != "f9"@[1]); assert("f7"@[0] != "g0"@[0]); assert("f7"@[0] != "g1"@[0]); assert("f7"@[0] != "g2"@[0]); assert("f7"@[0] != "g3"@[0]); assert("f7"@[0] != "g4"@[0]); assert("f7"@[0] != "g5"@[0]); assert("f8"@[1] != "f9"@[1]); assert("f8"@[0] != "g0"@[0]); assert("f8"@[0] != "g1"@[0]); assert("f8"@[0] != "g2"@[0]); assert("f8"@[0] != "g3"@[0]); assert("f8"@[0] != "g4"@[0]); assert("f8"@[0] != "g5"@[0]); assert("f9"@[0] != "g0"@[0]); assert("f9"@[0] != "g1"@[0]); assert("f9"@[0] != "g2"@[0]); assert("f9"@[0] != "g3"@[0]); assert("f9"@[0] != "g4"@[0]); assert("f9"@[0] != "g5"@[0]); assert("g0"@[1] != "g1"@[1]); assert("g0"@[1] != "g2"@[1]); assert("g0"@[1] != "g3"@[1]); assert("g0"@[1] != "g4"@[1]); assert("g0"@[1] != "g5"@[1]); assert("g1"@[1] != "g2"@[1]); assert("g1"@[1] != "g3"@[1]); assert("g1"@[1] != "g4"@[1]); assert("g1"@[1] != "g5"@[1]); assert("g2"@[1] != "g3"@[1]); assert("g2"@[1] != "g4"@[1]); assert("g2"@[1] != "g5"@[1]); assert("g3"@[1] != "g4"@[1]); assert("g3"@[1] != "g5"@[1]); assert("g4"@[1] != "g5"@[1]); }
@*/
/*@fn gen:gh.rs W as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("d0"); reveal_strlit("d1"); reveal_strlit("d2"); reveal_strlit("f0"); reveal_strlit("f1"); reveal_strlit("f2"); reveal_strlit("f3"); reveal_strlit("f4"); reveal_strlit("f5"); reveal_strlit("f6"); reveal_strlit("f7"); reveal_strlit("f8"); reveal_strlit("f9"); reveal_strlit("g0"); reveal_strlit("g1"); reveal_strlit("g2"); reveal_strlit("g3"); reveal_strlit("g4"); reveal_strlit("g5"); assert("d0"@[1] != "d1"@[1]); assert("d0"@[1] != "d2"@[1]); assert("d0"@[0] != "f0"@[0]); assert("d0"@[0] != "f1"@[0]); assert("d0"@[0] != "f2"@[0]); assert("d0"@[0] != "f3"@[0]); assert("d0"@[0] != "f4"@[0]); assert("d0"@[0] != "f5"@[0]); assert("d0"@[0] != "f6"@[0]); assert("d0"@[0] != "f7"@[0]); assert("d0"@[0] != "f8"@[0]); assert("d0"@[0] != "f9"@[0]); assert("d0"@[0] != "g0"@[0]); assert("d0"@[0] != "g1"@[0]); assert("d0"@[0] != "g2"@[0]); assert("d0"@[0] != "g3"@[0]); assert("d0"@[0] != "g4"@[0]); assert("d0"@[0] != "g5"@[0]); assert("d1"@[1] != "d2"@[1]); assert("d1"@[0] != "f0"@[0]); assert("d1"@[0] != "f1"@[0]); assert("d1"@[0] != "f2"@[0]); assert("d1"@[0] != "f3"@[0]); assert("d1"@[0] != "f4"@[0]); assert("d1"@[0] != "f5"@[0]); assert("d1"@[0] != "f6"@[0]); assert("d1"@[0] != "f7"@[0]); assert("d1"@[0] != "f8"@[0]); assert("d1"@[0] != "f9"@[0]); assert("d1"@[0] != "g0"@[0]); assert("d1"@[0] != "g1"@[0]); assert("d1"@[0] != "g2"@[0]); assert("d1"@[0] != "g3"@[0]); assert("d1"@[0] != "g4"@[0]); assert("d1"@[0] != "g5"@[0]); assert("d2"@[0] != "f0"@[0]); assert("d2"@[0] != "f1"@[0]); assert("d2"@[0] != "f2"@[0]); assert("d2"@[0] != "f3"@[0]); assert("d2"@[0] != "f4"@[0]); assert("d2"@[0] != "f5"@[0]); assert("d2"@[0] != "f6"@[0]); assert("d2"@[0] != "f7"@[0]); assert("d2"@[0] != "f8"@[0]); assert("d2"@[0] != "f9"@[0]); assert("d2"@[0] != "g0"@[0]); assert("d2"@[0] != "g1"@[0]); assert("d2"@[0] != "g2"@[0]); assert("d2"@[0] != "g3"@[0]); assert("d2"@[0] != "g4"@[0]); assert("d2"@[0] != "g5"@[0]); assert("f0"@[1] != "f1"@[1]); assert("f0"@[1] != "f2"@[1]); assert("f0"@[1] != "f3"@[1]); assert("f0"@[1] != "f4"@[1]); assert("f0"@[1] != "f5"@[1]); assert("f0"@[1] != "f6"@[1]); assert("f0"@[1] != "f7"@[1]); assert("f0"@[1] != "f8"@[1]); assert("f0"@[1] != "f9"@[1]); assert("f0"@[0] != "g0"@[0]); assert("f0"@[0] != "g1"@[0]); assert("f0"@[0] != "g2"@[0]); assert("f0"@[0] != "g3"@[0]); assert("f0"@[0] != "g4"@[0]); assert("f0"@[0] != "g5"@[0]); assert("f1"@[1] != "f2"@[1]); assert("f1"@[1] != "f3"@[1]); assert("f1"@[1] != "f4"@[1]); assert("f1"@[1] != "f5"@[1]); assert("f1"@[1] != "f6"@[1]); assert("f1"@[1] != "f7"@[1]); assert("f1"@[1] != "f8"@[1]); assert("f1"@[1] != "f9"@[1]); assert("f1"@[0] != "g0"@[0]); assert("f1"@[0] != "g1"@[0]); assert("f1"@[0] != "g2"@[0]); assert("f1"@[0] != "g3"@[0]); assert("f1"@[0] != "g4"@[0]); assert("f1"@[0] != "g5"@[0]); assert("f2"@[1] != "f3"@[1]); assert("f2"@[1] != "f4"@[1]); assert("f2"@[1] != "f5"@[1]); assert("f2"@[1] != "f6"@[1]); assert("f2"@[1] != "f7"@[1]); assert("f2"@[1] != "f8"@[1]); assert("f2"@[1] != "f9"@[1]); assert("f2"@[0] != "g0"@[0]); assert("f2"@[0] != "g1"@[0]); assert("f2"@[0] != "g2"@[0]); assert("f2"@[0] != "g3"@[0]); assert("f2"@[0] != "g4"@[0]); assert("f2"@[0] != "g5"@[0]); assert("f3"@[1] != "f4"@[1]); assert("f3"@[1] != "f5"@[1]); assert("f3"@[1] != "f6"@[1]); assert("f3"@[1] != "f7"@[1]); assert("f3"@[1] != "f8"@[1]); assert("f3"@[1] != "f9"@[1]); assert("f3"@[0] != "g0"@[0]); assert("f3"@[0] != "g1"@[0]); assert("f3"@[0] != "g2"@[0]); assert("f3"@[0] != "g3"@[0]); assert("f3"@[0] != "g4"@[0]); assert("f3"@[0] != "g5"@[0]); assert("f4"@[1] != "f5"@[1]); assert("f4"@[1] != "f6"@[1]); assert("f4"@[1] != "f7"@[1]); assert("f4"@[1] != "f8"@[1]); assert("f4"@[1] != "f9"@[1]); assert("f4"@[0] != "g0"@[0]); assert("f4"@[0] != "g1"@[0]); assert("f4"@[0] != "g2"@[0]); assert("f4"@[0] != "g3"@[0]); assert("f4"@[0] != "g4"@[0]); assert("f4"@[0] != "g5"@[0]); assert("f5"@[1] != "f6"@[1]); assert("f5"@[1] != "f7"@[1]); assert("f5"@[1] != "f8"@[1]); assert("f5"@[1] != "f9"@[1]); assert("f5"@[0] != "g0"@[0]); assert("f5"@[0] != "g1"@[0]); assert("f5"@[0] != "g2"@[0]); assert("f5"@[0] != "g3"@[0]); assert("f5"@[0] != "g4"@[0]); assert("f5"@[0] != "g5"@[0]); assert("f6"@[1] != "f7"@[1]); assert("f6"@[1] != "f8"@[1]); assert("f6"@[1] != "f9"@[1]); assert("f6"@[0] != "g0"@[0]); assert("f6"@[0] != "g1"@[0]); assert("f6"@[0] != "g2"@[0]); assert("f6"@[0] != "g3"@[0]); assert("f6"@[0] != "g4"@[0]); assert("f6"@[0] != "g5"@[0]); assert("f7"@[1] != "f8"@[1]); assert("f7"@[1] != "f9"@[1]); assert("f7"@[0] != "g0"@[0]); assert("f7"@[0] != "g1"@[0]); assert("f7"@[0] != "g2"@[0]); assert("f7"@[0] != "g3"@[0]); assert("f7"@[0] != "g4"@[0]); assert("f7"@[0] != "g5"@[0]); assert("f8"@[1] != "f9"@[1]); assert("f8"@[0] != "g0"@[0]); assert("f8"@[0] != "g1"@[0]); assert("f8"@[0] != "g2"@[0]); assert("f8"@[0] != "g3"@[0]); assert("f8"@[0] != "g4"@[0]); assert("f8"@[0] != "g5"@[0]); assert("f9"@[0] != "g0"@[0]); assert("f9"@[0] != "g1"@[0]); assert("f9"@[0] != "g2"@[0]); assert("f9"@[0] != "g3"@[0]); assert("f9"@[0] != "g4"@[0]); assert("f9"@[0] != "g5"@[0]); assert("g0"@[1] != "g1"@[1]); assert("g0"@[1] != "g2"@[1]); assert("g0"@[1] != "g3"@[1]); assert("g0"@[1] != "g4"@[1]); assert("g0"@[1] != "g5"@[1]); assert("g1"@[1] != "g2"@[1]); assert("g1"@[1] != "g3"@[1]); assert("g1"@[1] != "g4"@[1]); assert("g1"@[1] != "g5"@[1]); assert("g2"@[1] != "g3"@[1]); assert("g2"@[1] != "g4"@[1]); assert("g2"@[1] != "g5"@[1]); assert("g3"@[1] != "g4"@[1]); assert("g3"@[1] != "g5"@[1]); assert("g4"@[1] != "g5"@[1]); }
@*/
/*@fn gen:gh.rs W as TypedNode::to_source
#props C12
@*/
/*@fn gen:gh.rs W as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:gh.rs W as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is F0 { assert(vf_ret@.contains(WLoGMirror::F0)); assert(vf_ret@.contains(WLoGMirror::G0)); }
    if input is F1 { assert(vf_ret@.contains(WLoGMirror::F1)); assert(vf_ret@.contains(WLoGMirror::G0)); assert(vf_ret@.contains(WLoGMirror::G1)); }
    if input is F2 { assert(vf_ret@.contains(WLoGMirror::F2)); assert(vf_ret@.contains(WLoGMirror::G1)); }
    if input is F3 { assert(vf_ret@.contains(WLoGMirror::F3)); assert(vf_ret@.contains(WLoGMirror::G2)); }
    if input is F4 { assert(vf_ret@.contains(WLoGMirror::F4)); assert(vf_ret@.contains(WLoGMirror::G2)); assert(vf_ret@.contains(WLoGMirror::G3)); }
    if input is F5 { assert(vf_ret@.contains(WLoGMirror::F5)); assert(vf_ret@.contains(WLoGMirror::G3)); assert(vf_ret@.contains(WLoGMirror::G4)); }
    if input is F6 { assert(vf_ret@.contains(WLoGMirror::F6)); assert(vf_ret@.contains(WLoGMirror::G4)); assert(vf_ret@.contains(WLoGMirror::G5)); }
    if input is F7 { assert(vf_ret@.contains(WLoGMirror::F7)); assert(vf_ret@.contains(WLoGMirror::G0)); assert(vf_ret@.contains(WLoGMirror::G5)); }
    if input is F8 { assert(vf_ret@.contains(WLoGMirror::F8)); }
    if input is F9 { assert(vf_ret@.contains(WLoGMirror::F9)); assert(vf_ret@.contains(WLoGMirror::G5)); }
  }
@*/
}
// ---------------- U ----------------
/*@struct gen:gh.rs U
@*/
/*@enum gen:gh.rs USource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gh.rs ULinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gh.rs ULoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_u { pub use super::*; }
pub struct UData { pub v: u8, }
impl TypedSpec for U {
  type Source = USource;
  type LinkMirror = ULinkMirror;
  type LoGMirror = ULoGMirror;
  type DataT = UData;
  open spec fn links(&self) -> ISet<(NodeIndex, USource)> {
    ISet::new(|p: (NodeIndex, USource)| p.0.0 != 0 && match p.1 {
      USource::X => self.x == p.0,
      USource::Y => self.y == p.0,
    })
  }
  open spec fn data(&self) -> UData { UData { v: self.v, } }
  open spec fn place_ok(d: UData, s: USource) -> bool { match s {
      USource::X => true,
      USource::Y => true,
  } }
  open spec fn single(s: USource) -> bool { match s {
      USource::X => true,
      USource::Y => true,
  } }
  open spec fn mirror(s: USource) -> ULinkMirror { match s {
      USource::X => ULinkMirror::X,
      USource::Y => ULinkMirror::Y,
  } }
  open spec fn source(l: ULinkMirror) -> USource { match l {
      ULinkMirror::X => USource::X,
      ULinkMirror::Y => USource::Y,
  } }
  open spec fn is_vec(l: ULinkMirror) -> bool { match l {
      ULinkMirror::X => false,
      ULinkMirror::Y => false,
  } }
  open spec fn is_field(l: ULinkMirror) -> bool { true }
  open spec fn in_log(g: ULoGMirror, l: ULinkMirror) -> bool { match (g, l) {
    (ULoGMirror::X, ULinkMirror::X) => true,
    (ULoGMirror::Y, ULinkMirror::Y) => true,
    (ULoGMirror::G0, ULinkMirror::X) => true,
    (ULoGMirror::G1, ULinkMirror::Y) => true,
    _ => false,
  } }
  open spec fn has(&self, l: ULinkMirror, x: NodeIndex) -> bool { match l {
      ULinkMirror::X => self.x == x,
      ULinkMirror::Y => self.y == x,
  } }
  open spec fn cnt_of(&self, l: ULinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      ULinkMirror::X => if self.x == x { 1 } else { 0 },
      ULinkMirror::Y => if self.y == x { 1 } else { 0 },
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "g0"@ { self.cnt_of(ULinkMirror::X, x) } else if name == "g1"@ { self.cnt_of(ULinkMirror::Y, x) } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<ULinkMirror> { if name == "x"@ { Some(ULinkMirror::X) } else if name == "y"@ { Some(ULinkMirror::Y) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<ULoGMirror> { if name == "x"@ { Some(ULoGMirror::X) } else if name == "y"@ { Some(ULoGMirror::Y) } else if name == "g0"@ { Some(ULoGMirror::G0) } else if name == "g1"@ { Some(ULoGMirror::G1) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { if name == "v"@ { vf_any::<u8, T>(self.v) } else { None } }
  open spec fn names() -> Seq<&'static str> { seq!["x", "y"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Point, LinkType::Point] }
  open spec fn mirrors() -> Seq<ULinkMirror> { seq![ULinkMirror::X, ULinkMirror::Y] }
  open spec fn dnames() -> Seq<&'static str> { seq!["v"] }
  proof fn law_has(&self, l: ULinkMirror, x: NodeIndex) {
    if l is X && self.has(l, x) { assert(self.links().contains((x, USource::X))); }
    if l is Y && self.has(l, x) { assert(self.links().contains((x, USource::Y))); }
  }
}
impl USource {
/*@fn gen:gh.rs USource::to_link_mirror
#props C12
#ensures
  r == U::mirror(self),
@*/
}
impl ULinkMirror {
/*@fn gen:gh.rs ULinkMirror::to_source
#props C12
#requires[T]
  !U::is_vec(self),
#ensures
  r == U::source(self), !U::is_vec(self),
@*/
}
impl ULoGMirror {
/*@fn gen:gh.rs ULoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> U::in_log(self, #[trigger] r@[i]),
  forall|l: ULinkMirror| #[trigger] U::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is X { assert(vf_ret@.contains(ULinkMirror::X)); }
    if self is Y { assert(vf_ret@.contains(ULinkMirror::Y)); }
    if self is G0 { assert(vf_ret@.contains(ULinkMirror::X)); }
    if self is G1 { assert(vf_ret@.contains(ULinkMirror::Y)); }
  }
@*/
}
impl TypedNode for U {
/*@fn gen:gh.rs U as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#end
  proof {
    assert forall|p: (NodeIndex, USource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:gh.rs U as TypedNode::iter_links
#props C12 C07
#box id
@*/
/*@fn gen:gh.rs U as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if self.x.0 != 0 { assert(self.links().contains((self.x, USource::X))); }
    if self.y.0 != 0 { assert(self.links().contains((self.y, USource::Y))); }
  }
#end
  proof { assert forall|p: (NodeIndex, USource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == USource::X || q == USource::Y); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gh.rs U as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.x.0 != 0 { assert(self.links().contains((self.x, USource::X))); }
    if self.y.0 != 0 { assert(self.links().contains((self.y, USource::Y))); }
  }
#end
  proof { assert forall|p: (NodeIndex, USource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == USource::X || q == USource::Y); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:gh.rs U as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, USource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == USource::X || q == USource::Y); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:gh.rs U as TypedNode::contains_link
#props C12 C04
@*/
/*@fn gen:gh.rs U as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:gh.rs U as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:gh.rs U as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:gh.rs U as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:gh.rs U as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("g0"); reveal_strlit("g1"); reveal_strlit("v"); reveal_strlit("x"); reveal_strlit("y"); assert("g0"@[1] != "g1"@[1]); assert("g0"@.len() != "v"@.len()); assert("g0"@.len() != "x"@.len()); assert("g0"@.len() != "y"@.len()); assert("g1"@.len() != "v"@.len()); assert("g1"@.len() != "x"@.len()); assert("g1"@.len() != "y"@.len()); assert("v"@[0] != "x"@[0]); assert("v"@[0] != "y"@[0]); assert("x"@[0] != "y"@[0]); }
@*/
/*@fn gen:gh.rs U as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("g0"); reveal_strlit("g1"); reveal_strlit("v"); reveal_strlit("x"); reveal_strlit("y"); assert("g0"@[1] != "g1"@[1]); assert("g0"@.len() != "v"@.len()); assert("g0"@.len() != "x"@.len()); assert("g0"@.len() != "y"@.len()); assert("g1"@.len() != "v"@.len()); assert("g1"@.len() != "x"@.len()); assert("g1"@.len() != "y"@.len()); assert("v"@[0] != "x"@[0]); assert("v"@[0] != "y"@[0]); assert("x"@[0] != "y"@[0]); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gh.rs U as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("g0"); reveal_strlit("g1"); reveal_strlit("v"); reveal_strlit("x"); reveal_strlit("y"); assert("g0"@[1] != "g1"@[1]); assert("g0"@.len() != "v"@.len()); assert("g0"@.len() != "x"@.len()); assert("g0"@.len() != "y"@.len()); assert("g1"@.len() != "v"@.len()); assert("g1"@.len() != "x"@.len()); assert("g1"@.len() != "y"@.len()); assert("v"@[0] != "x"@[0]); assert("v"@[0] != "y"@[0]); assert("x"@[0] != "y"@[0]); }
@*/
/*@fn gen:gh.rs U as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("g0"); reveal_strlit("g1"); reveal_strlit("v"); reveal_strlit("x"); reveal_strlit("y"); assert("g0"@[1] != "g1"@[1]); assert("g0"@.len() != "v"@.len()); assert("g0"@.len() != "x"@.len()); assert("g0"@.len() != "y"@.len()); assert("g1"@.len() != "v"@.len()); assert("g1"@.len() != "x"@.len()); assert("g1"@.len() != "y"@.len()); assert("v"@[0] != "x"@[0]); assert("v"@[0] != "y"@[0]); assert("x"@[0] != "y"@[0]); }
@*/
/*@fn gen:gh.rs U as TypedNode::to_source
#props C12
@*/
/*@fn gen:gh.rs U as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:gh.rs U as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is X { assert(vf_ret@.contains(ULoGMirror::X)); assert(vf_ret@.contains(ULoGMirror::G0)); }
    if input is Y { assert(vf_ret@.contains(ULoGMirror::Y)); assert(vf_ret@.contains(ULoGMirror::G1)); }
  }
@*/
}
// ---------------- Gh ----------------
/*@enum gen:gh.rs Gh
@*/
/*@enum gen:gh.rs GhDiscriminant
#props C07 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gh.rs GhSourceEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gh.rs GhLinkMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gh.rs GhLoGMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_gh { pub use super::*; }
pub enum GhData { V1(WData), V2(UData), V3(UData), }
impl NodeDiscriminant for GhDiscriminant {
  open spec fn vf_first() -> Self { GhDiscriminant::V1 }
  open spec fn vf_succ(self) -> Option<Self> { match self { GhDiscriminant::V1 => Some(GhDiscriminant::V2), GhDiscriminant::V2 => Some(GhDiscriminant::V3), GhDiscriminant::V3 => None, } }
/*@fn gen:gh.rs GhDiscriminant as NodeDiscriminant::first
#props C07
@*/
/*@fn gen:gh.rs GhDiscriminant as NodeDiscriminant::next
#props C07
@*/
}
impl Discriminated<GhDiscriminant> for Gh {
  open spec fn disc(&self) -> GhDiscriminant { match self { Gh::V1(_) => GhDiscriminant::V1, Gh::V2(_) => GhDiscriminant::V2, Gh::V3(_) => GhDiscriminant::V3, } }
/*@fn gen:gh.rs Gh as Discriminated::discriminant
#props C07 C12
@*/
}
impl NodeSpec for Gh {
  type SourceEnum = GhSourceEnum;
  type LinkMirrorEnum = GhLinkMirrorEnum;
  type LoGMirrorEnum = GhLoGMirrorEnum;
  type Discriminant = GhDiscriminant;
  type DataT = GhData;
  open spec fn links(&self) -> ISet<(NodeIndex, GhSourceEnum)> {
    ISet::new(|p: (NodeIndex, GhSourceEnum)| match (*self, p.1) {
      (Gh::V1(x), GhSourceEnum::V1(s)) => x.links().contains((p.0, s)),
      (Gh::V2(x), GhSourceEnum::V2(s)) => x.links().contains((p.0, s)),
      (Gh::V3(x), GhSourceEnum::V3(s)) => x.links().contains((p.0, s)),
      _ => false,
    })
  }
  open spec fn data(&self) -> GhData { match self {
    Gh::V1(x) => GhData::V1(x.data()),
    Gh::V2(x) => GhData::V2(x.data()),
    Gh::V3(x) => GhData::V3(x.data()),
  } }
  open spec fn place_ok(d: GhData, s: GhSourceEnum) -> bool { match (d, s) {
    (GhData::V1(d), GhSourceEnum::V1(s)) => W::place_ok(d, s),
    (GhData::V2(d), GhSourceEnum::V2(s)) => U::place_ok(d, s),
    (GhData::V3(d), GhSourceEnum::V3(s)) => U::place_ok(d, s),
    _ => false,
  } }
  open spec fn single(s: GhSourceEnum) -> bool { match s {
    GhSourceEnum::V1(s) => W::single(s),
    GhSourceEnum::V2(s) => U::single(s),
    GhSourceEnum::V3(s) => U::single(s),
  } }
  open spec fn mirror(s: GhSourceEnum) -> GhLinkMirrorEnum { match s {
    GhSourceEnum::V1(s) => GhLinkMirrorEnum::V1(W::mirror(s)),
    GhSourceEnum::V2(s) => GhLinkMirrorEnum::V2(U::mirror(s)),
    GhSourceEnum::V3(s) => GhLinkMirrorEnum::V3(U::mirror(s)),
  } }
  open spec fn source(l: GhLinkMirrorEnum) -> GhSourceEnum { match l {
    GhLinkMirrorEnum::V1(l) => GhSourceEnum::V1(W::source(l)),
    GhLinkMirrorEnum::V2(l) => GhSourceEnum::V2(U::source(l)),
    GhLinkMirrorEnum::V3(l) => GhSourceEnum::V3(U::source(l)),
  } }
  open spec fn is_vec(l: GhLinkMirrorEnum) -> bool { match l {
    GhLinkMirrorEnum::V1(l) => W::is_vec(l),
    GhLinkMirrorEnum::V2(l) => U::is_vec(l),
    GhLinkMirrorEnum::V3(l) => U::is_vec(l),
  } }
  open spec fn is_field(l: GhLinkMirrorEnum) -> bool { match l {
    GhLinkMirrorEnum::V1(l) => W::is_field(l),
    GhLinkMirrorEnum::V2(l) => U::is_field(l),
    GhLinkMirrorEnum::V3(l) => U::is_field(l),
  } }
  open spec fn owner(l: GhLinkMirrorEnum) -> GhDiscriminant { match l {
    GhLinkMirrorEnum::V1(_) => GhDiscriminant::V1,
    GhLinkMirrorEnum::V2(_) => GhDiscriminant::V2,
    GhLinkMirrorEnum::V3(_) => GhDiscriminant::V3,
  } }
  open spec fn logs(l: GhLinkMirrorEnum) -> ISet<GhLoGMirrorEnum> {
    ISet::new(|g: GhLoGMirrorEnum| match (l, g) {
      (GhLinkMirrorEnum::V1(l), GhLoGMirrorEnum::V1(g)) => W::is_field(l) && W::in_log(g, l),
      (GhLinkMirrorEnum::V2(l), GhLoGMirrorEnum::V2(g)) => U::is_field(l) && U::in_log(g, l),
      (GhLinkMirrorEnum::V3(l), GhLoGMirrorEnum::V3(g)) => U::is_field(l) && U::in_log(g, l),
      _ => false,
    })
  }
  open spec fn bd_log(g: GhLoGMirrorEnum) -> ISet<GhLinkMirrorEnum> {
    ISet::new(|m: GhLinkMirrorEnum| match (g, m) {
      (GhLoGMirrorEnum::V1(WLoGMirror::F9), GhLinkMirrorEnum::V2(ULinkMirror::Y)) => true,
      (GhLoGMirrorEnum::V1(WLoGMirror::F9), GhLinkMirrorEnum::V3(ULinkMirror::Y)) => true,
      (GhLoGMirrorEnum::V2(ULoGMirror::Y), GhLinkMirrorEnum::V1(WLinkMirror::F9)) => true,
      (GhLoGMirrorEnum::V3(ULoGMirror::Y), GhLinkMirrorEnum::V1(WLinkMirror::F9)) => true,
      _ => false,
    })
  }
  open spec fn allowed_log(g: GhLoGMirrorEnum, d: GhDiscriminant) -> bool { match g {
    GhLoGMirrorEnum::V2(ULoGMirror::X) => d is V2 || d is V3 || d is V1,
    GhLoGMirrorEnum::V3(ULoGMirror::X) => d is V2 || d is V3 || d is V1,
    GhLoGMirrorEnum::V1(WLoGMirror::F3) => d is V2 || d is V3 || d is V1,
    GhLoGMirrorEnum::V1(WLoGMirror::G5) => d is V1 || d is V2 || d is V3,
    GhLoGMirrorEnum::V1(WLoGMirror::F0) => d is V3 || d is V2,
    _ => true,
  } }
  open spec fn member(d: GhDiscriminant, name: Seq<char>) -> bool { if name == "us"@ { d is V2 || d is V3 } else if name == "ends"@ { d is V1 || d is V3 } else { false } }
  proof fn law_links(&self, y: NodeIndex, s: GhSourceEnum) { }
  proof fn law_single(&self, y: NodeIndex, z: NodeIndex, s: GhSourceEnum) { }
  proof fn law_data(&self, o: &Self) { }
  proof fn law_mirror(l: GhLinkMirrorEnum, s: GhSourceEnum) { }
  proof fn law_bd(g: GhLoGMirrorEnum, m: GhLinkMirrorEnum) { }
}
/// field m belongs to link or group g
pub open spec fn covers(g: GhLoGMirrorEnum, m: GhLinkMirrorEnum) -> bool { match (g, m) {
    (GhLoGMirrorEnum::V1(g), GhLinkMirrorEnum::V1(m)) => W::in_log(g, m),
    (GhLoGMirrorEnum::V2(g), GhLinkMirrorEnum::V2(m)) => U::in_log(g, m),
    (GhLoGMirrorEnum::V3(g), GhLinkMirrorEnum::V3(m)) => U::in_log(g, m),
  _ => false,
} }
#[verifier::opaque]
pub open spec fn covered(s: Seq<GhLoGMirrorEnum>, n: nat, m: GhLinkMirrorEnum) -> bool decreases n { n > 0 && (covered(s, (n - 1) as nat, m) || covers(s[n - 1], m)) }
pub proof fn covered_none(s: Seq<GhLoGMirrorEnum>) ensures forall|m: GhLinkMirrorEnum| !#[trigger] covered(s, 0, m) { reveal(covered); }
pub proof fn covered_step(s: Seq<GhLoGMirrorEnum>, n: nat)
  requires n < s.len()
  ensures forall|m: GhLinkMirrorEnum| #[trigger] covered(s, n + 1, m) <==> covered(s, n, m) || covers(s[n as int], m)
{ reveal(covered); }
pub open spec fn cnt_in(n: Gh, l: GhLinkMirrorEnum, x: NodeIndex) -> nat { match (n, l) {
    (Gh::V1(n), GhLinkMirrorEnum::V1(l)) => n.cnt_of(l, x),
    (Gh::V2(n), GhLinkMirrorEnum::V2(l)) => n.cnt_of(l, x),
    (Gh::V3(n), GhLinkMirrorEnum::V3(l)) => n.cnt_of(l, x),
  _ => 0,
} }
pub proof fn has_link_is(n: Gh, l: GhLinkMirrorEnum, x: NodeIndex)
  requires x.0 != 0
  ensures has_link(n, l, x) == match (n, l) {
    (Gh::V1(n), GhLinkMirrorEnum::V1(l)) => n.has(l, x),
    (Gh::V2(n), GhLinkMirrorEnum::V2(l)) => n.has(l, x),
    (Gh::V3(n), GhLinkMirrorEnum::V3(l)) => n.has(l, x),
    _ => false,
  }
{
  match (n, l) {
    (Gh::V1(v), GhLinkMirrorEnum::V1(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: WSource| #[trigger] v.links().contains((x, s)) && W::mirror(s) == k; assert(n.links().contains((x, GhSourceEnum::V1(s)))); }
      if has_link(n, l, x) { let s = choose|s: GhSourceEnum| #[trigger] n.links().contains((x, s)) && Gh::mirror(s) == l; assert(v.links().contains((x, s->V1_0))); }
    },
    (Gh::V2(v), GhLinkMirrorEnum::V2(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: USource| #[trigger] v.links().contains((x, s)) && U::mirror(s) == k; assert(n.links().contains((x, GhSourceEnum::V2(s)))); }
      if has_link(n, l, x) { let s = choose|s: GhSourceEnum| #[trigger] n.links().contains((x, s)) && Gh::mirror(s) == l; assert(v.links().contains((x, s->V2_0))); }
    },
    (Gh::V3(v), GhLinkMirrorEnum::V3(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: USource| #[trigger] v.links().contains((x, s)) && U::mirror(s) == k; assert(n.links().contains((x, GhSourceEnum::V3(s)))); }
      if has_link(n, l, x) { let s = choose|s: GhSourceEnum| #[trigger] n.links().contains((x, s)) && Gh::mirror(s) == l; assert(v.links().contains((x, s->V3_0))); }
    },
    _ => { },
  }
}
impl NodeEnum for Gh {
/*@fn gen:gh.rs Gh as NodeEnum::iter_sources
#props C12 C02 C15 C14 C09
#box id
#loop @SourceEnum::V1
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GhSourceEnum::V1(vf_all$n[j].1)),
#loop @SourceEnum::V1 after
  proof { lift_sources::<WSource, GhSourceEnum>(self->V1_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: WSource| GhSourceEnum::V1(s), |t: GhSourceEnum| t->V1_0); }
#loop @SourceEnum::V2
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GhSourceEnum::V2(vf_all$n[j].1)),
#loop @SourceEnum::V2 after
  proof { lift_sources::<USource, GhSourceEnum>(self->V2_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: USource| GhSourceEnum::V2(s), |t: GhSourceEnum| t->V2_0); }
#loop @SourceEnum::V3
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GhSourceEnum::V3(vf_all$n[j].1)),
#loop @SourceEnum::V3 after
  proof { lift_sources::<USource, GhSourceEnum>(self->V3_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: USource| GhSourceEnum::V3(s), |t: GhSourceEnum| t->V3_0); }
@*/
/*@fn gen:gh.rs Gh as NodeEnum::modify_link
#props C12 C01 C02 C03 C04 C09
#ensures
  forall|m: GhLinkMirrorEnum| #[trigger] r.bd_link_mirrors@.contains(m) <==> bd_of::<Self>(Self::mirror(source)).contains(m),
#start
  proof {
    if *self is V1 && source is V1 { assert((*self)->V1_0.links().contains((old_idx, source->V1_0)) == self.links().contains((old_idx, source))); assert((*self)->V1_0.links().contains((new_idx, source->V1_0)) == self.links().contains((new_idx, source))); }
    if *self is V2 && source is V2 { assert((*self)->V2_0.links().contains((old_idx, source->V2_0)) == self.links().contains((old_idx, source))); assert((*self)->V2_0.links().contains((new_idx, source->V2_0)) == self.links().contains((new_idx, source))); }
    if *self is V3 && source is V3 { assert((*self)->V3_0.links().contains((old_idx, source->V3_0)) == self.links().contains((old_idx, source))); assert((*self)->V3_0.links().contains((new_idx, source->V3_0)) == self.links().contains((new_idx, source))); }
  }
#end
  proof { assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gh.rs Gh as NodeEnum::add_link
#props C12 C04
#start
  proof {
    if *self is V1 && link is V1 { assert(Self::single(Self::source(link)) == W::single(W::source(link->V1_0))); assert forall|z: NodeIndex| #[trigger] (*self)->V1_0.links().contains((z, W::source(link->V1_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is V2 && link is V2 { assert(Self::single(Self::source(link)) == U::single(U::source(link->V2_0))); assert forall|z: NodeIndex| #[trigger] (*self)->V2_0.links().contains((z, U::source(link->V2_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is V3 && link is V3 { assert(Self::single(Self::source(link)) == U::single(U::source(link->V3_0))); assert forall|z: NodeIndex| #[trigger] (*self)->V3_0.links().contains((z, U::source(link->V3_0))) implies self.links().contains((z, Self::source(link))) by { } }
  }
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); } }
@*/
/*@fn gen:gh.rs Gh as NodeEnum::remove_link
#props C12 C04
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); } }
@*/
/*@fn gen:gh.rs Gh as NodeEnum::contains_link
#props C12 C04
#start
  proof { if target.0 != 0 { has_link_is(*self, link, target); } }
@*/
/*@fn gen:gh.rs Gh as NodeEnum::in_group
#props C13 C07
#start
  proof { reveal_strlit("us"); reveal_strlit("ends"); assert("us"@.len() != "ends"@.len()); }
@*/
/*@fn gen:gh.rs Gh as NodeEnum::to_source_enum
#props C12
@*/
/*@fn gen:gh.rs Gh as NodeEnum::to_link_mirror_enum
#props C12
@*/
/*@fn gen:gh.rs Gh as NodeEnum::to_log_mirror_enums
#props C13 C04 C05
#loop @LoGMirrorEnum::V1
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GhLoGMirrorEnum::V1(*vf_all$n[j]),
#loop @LoGMirrorEnum::V1 after
  proof { assert forall|g: GhLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(W::in_log(*vf_all$n[j], input->V1_0)); }
    if Self::logs(input).contains(g) { assert(W::in_log(g->V1_0, input->V1_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->V1_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::V2
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GhLoGMirrorEnum::V2(*vf_all$n[j]),
#loop @LoGMirrorEnum::V2 after
  proof { assert forall|g: GhLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(U::in_log(*vf_all$n[j], input->V2_0)); }
    if Self::logs(input).contains(g) { assert(U::in_log(g->V2_0, input->V2_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->V2_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::V3
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GhLoGMirrorEnum::V3(*vf_all$n[j]),
#loop @LoGMirrorEnum::V3 after
  proof { assert forall|g: GhLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(U::in_log(*vf_all$n[j], input->V3_0)); }
    if Self::logs(input).contains(g) { assert(U::in_log(g->V3_0, input->V3_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->V3_0; assert(vf_acc$n@[j] == g); }
  } }
@*/
/*@fn gen:gh.rs Gh as NodeEnum::get_bidiretional_link_mirrors_of_log
#props C04 C13
#loop @].into_iter().Self::expand_link_groups before
  proof { covered_none(vf_all$n); }
#loop @].into_iter().Self::expand_link_groups
  forall|m: GhLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> covered(vf_all$n, vf_it$n.pos(), m),
#loop @].into_iter().Self::expand_link_groups begin
  proof { covered_step(vf_all$n, (vf_it$n.pos() - 1) as nat); }
#loop @].into_iter().Self::expand_link_groups after
  proof { assert forall|m: GhLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> Self::bd_log(link).contains(m) by { reveal_with_fuel(covered, 8); } }
#loop @expand_link_groups before
  let ghost vf_pre$n = vf_acc$p@;
  proof { take_none(vf_all$n); }
#loop @expand_link_groups
  forall|m: GhLinkMirrorEnum| #[trigger] vf_acc$p@.contains(m) <==> vf_pre$n.contains(m) || vf_all$n.take(vf_it$n.pos() as int).contains(m),
#loop @expand_link_groups begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @expand_link_groups after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gh.rs Gh as NodeEnum::check_link_type_by_group
#props C05 C13
@*/
/*@fn gen:gh.rs Gh as NodeEnum::match_bd_link_group
#props C04 C13
#loop @LinkMirrorEnum::V1 before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::V1
  forall|l: GhLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GhDiscriminant::V1,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::V1 begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::V1 after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::V2 before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::V2
  forall|l: GhLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GhDiscriminant::V2,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::V2 begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::V2 after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::V3 before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::V3
  forall|l: GhLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GhDiscriminant::V3,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::V3 begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::V3 after
  proof { take_all(vf_all$n); }
@*/
}
impl Gh {
/*@fn gen:gh.rs Gh as NodeEnum::iter_links
#props C12
#requires[T]
  Self::owner(link) == self.disc(),
#ensures
  Self::owner(link) == self.disc(), r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == cnt_in(*self, link, x),
#replace
  Self::SourceEnum =>> GhSourceEnum
  Self::LinkMirrorEnum =>> GhLinkMirrorEnum
  Self::LoGMirrorEnum =>> GhLoGMirrorEnum
@*/
/*@fn gen:gh.rs Gh as NodeEnum::check_link
#props C12
#ensures
  r == (Self::owner(link) == self.disc()),
#replace
  Self::SourceEnum =>> GhSourceEnum
  Self::LinkMirrorEnum =>> GhLinkMirrorEnum
  Self::LoGMirrorEnum =>> GhLoGMirrorEnum
@*/
/*@fn gen:gh.rs Gh as NodeEnum::get_links_by_name
#props C12 C13 C07
#ensures
  r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == (match self {
    Gh::V1(n) => match W::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    Gh::V2(n) => match U::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    Gh::V3(n) => match U::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
  }),
#replace
  Self::SourceEnum =>> GhSourceEnum
  Self::LinkMirrorEnum =>> GhLinkMirrorEnum
  Self::LoGMirrorEnum =>> GhLoGMirrorEnum
@*/
/*@fn gen:gh.rs Gh as NodeEnum::get_links_by_group
#props C13 C07
#ensures
  forall|x: NodeIndex| #[trigger] cnt(r@, x) == (match self {
    Gh::V1(n) => n.grp_cnt(name@, x),
    Gh::V2(n) => n.grp_cnt(name@, x),
    Gh::V3(n) => n.grp_cnt(name@, x),
  }),
#replace
  Self::SourceEnum =>> GhSourceEnum
  Self::LinkMirrorEnum =>> GhLinkMirrorEnum
  Self::LoGMirrorEnum =>> GhLoGMirrorEnum
@*/
/*@fn gen:gh.rs Gh as NodeEnum::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<T>(&self, name: &'static str) -> (r: Option<&T>)
#ensures
  r is Some == (match self {
    Gh::V1(n) => n.dref::<T>(name@),
    Gh::V2(n) => n.dref::<T>(name@),
    Gh::V3(n) => n.dref::<T>(name@),
  }) is Some,
  r is Some ==> Some(*r->0) == (match self {
    Gh::V1(n) => n.dref::<T>(name@),
    Gh::V2(n) => n.dref::<T>(name@),
    Gh::V3(n) => n.dref::<T>(name@),
  }),
#replace
  Self::SourceEnum =>> GhSourceEnum
  Self::LinkMirrorEnum =>> GhLinkMirrorEnum
  Self::LoGMirrorEnum =>> GhLoGMirrorEnum
@*/
/*@fn gen:gh.rs Gh as NodeEnum::expand_link_groups
#props C13 C04
#ensures
  forall|m: GhLinkMirrorEnum| (Self::is_field(m)) ==> (#[trigger] r@.contains(m) <==> covers(input, m)),
#loop @LinkMirrorEnum::V1
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GhLinkMirrorEnum::V1(*vf_all$n[j]),
#loop @LinkMirrorEnum::V1 after
  proof { assert forall|m: GhLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(W::in_log(input->V1_0, *vf_all$n[j]) || !W::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(W::in_log(input->V1_0, m->V1_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->V1_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::V2
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GhLinkMirrorEnum::V2(*vf_all$n[j]),
#loop @LinkMirrorEnum::V2 after
  proof { assert forall|m: GhLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(U::in_log(input->V2_0, *vf_all$n[j]) || !U::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(U::in_log(input->V2_0, m->V2_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->V2_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::V3
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GhLinkMirrorEnum::V3(*vf_all$n[j]),
#loop @LinkMirrorEnum::V3 after
  proof { assert forall|m: GhLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(U::in_log(input->V3_0, *vf_all$n[j]) || !U::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(U::in_log(input->V3_0, m->V3_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->V3_0; assert(vf_acc$n@[j] == m); }
  } }
#replace
  Self::SourceEnum =>> GhSourceEnum
  Self::LinkMirrorEnum =>> GhLinkMirrorEnum
  Self::LoGMirrorEnum =>> GhLoGMirrorEnum
@*/
}
// ---------------- GhArena ----------------
/*@struct gen:gh.rs GhArena
@*/
/*@struct gen:gh.rs GhIter
@*/
/*@struct gen:gh.rs GhIntoIter
@*/
impl ArenaSpec for GhArena {
  type V = Gh;
  type D = GhDiscriminant;
  open spec fn disp(&self) -> IMap<NodeIndex, GhDiscriminant> { self._dispatcher@ }
  open spec fn cont(&self, d: GhDiscriminant) -> IMap<usize, Gh> { match d { GhDiscriminant::V1 => self.v1@, GhDiscriminant::V2 => self.v2@, GhDiscriminant::V3 => self.v3@, } }
  open spec fn dist(&self) -> IdDistributer { self._id_distributer }
}
/// a type's container holds the nodes of that type, and no index is in two containers
pub proof fn parts(a: GhArena)
  requires arena_wf(a)
  ensures nodes_of(a) == lift(a.v1@).union_prefer_right(lift(a.v2@).union_prefer_right(lift(a.v3@))),
    lift(a.v1@).dom().disjoint(lift(a.v2@).dom()), lift(a.v1@).dom().disjoint(lift(a.v3@).dom()), lift(a.v2@).dom().disjoint(lift(a.v3@).dom()),
{
  reveal(arena_wf); reveal(nodes_of);
  assert forall|i: NodeIndex| #[trigger] lift(a.v1@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GhDiscriminant::V1 by { assert(lift(a.v1@).contains_key(i) == a.cont(GhDiscriminant::V1).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.v2@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GhDiscriminant::V2 by { assert(lift(a.v2@).contains_key(i) == a.cont(GhDiscriminant::V2).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.v3@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GhDiscriminant::V3 by { assert(lift(a.v3@).contains_key(i) == a.cont(GhDiscriminant::V3).contains_key(i.0)); }
  assert forall|i: NodeIndex| !(lift(a.v1@).dom().contains(i) && lift(a.v2@).dom().contains(i)) by { assert(lift(a.v1@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V1); assert(lift(a.v2@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V2); } assert forall|i: NodeIndex| !(lift(a.v1@).dom().contains(i) && lift(a.v3@).dom().contains(i)) by { assert(lift(a.v1@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V1); assert(lift(a.v3@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V3); } assert forall|i: NodeIndex| !(lift(a.v2@).dom().contains(i) && lift(a.v3@).dom().contains(i)) by { assert(lift(a.v2@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V2); assert(lift(a.v3@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V3); }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) == lift(a.v1@).union_prefer_right(lift(a.v2@).union_prefer_right(lift(a.v3@))).contains_key(i) by {
    assert(lift(a.v1@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V1); assert(lift(a.v2@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V2); assert(lift(a.v3@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V3);
  }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) implies nodes_of(a)[i] == lift(a.v1@).union_prefer_right(lift(a.v2@).union_prefer_right(lift(a.v3@)))[i] by {
    assert(lift(a.v1@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V1); assert(lift(a.v2@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V2); assert(lift(a.v3@).contains_key(i) ==> a.disp()[i] == GhDiscriminant::V3);
  }
  assert(nodes_of(a) =~= lift(a.v1@).union_prefer_right(lift(a.v2@).union_prefer_right(lift(a.v3@))));
}
impl<'a> GhIter<'a> {
  pub open spec fn ok(&self) -> bool { self.v1.pos() <= self.v1.all().len() && self.v2.pos() <= self.v2.all().len() && self.v3.pos() <= self.v3.all().len() && (self.stage() < 3 ==> self.v1.pos() == self.v1.all().len()) && (self.stage() < 2 ==> self.v2.pos() == self.v2.all().len()) && (self.stage() < 1 ==> self.v3.pos() == self.v3.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, &'a Gh)> { match self._iter_state {
    Some(GhDiscriminant::V1) => (left(self.v1) + (left(self.v2) + left(self.v3))), Some(GhDiscriminant::V2) => (left(self.v2) + left(self.v3)), Some(GhDiscriminant::V3) => left(self.v3),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GhDiscriminant::V1) => 3, Some(GhDiscriminant::V2) => 2, Some(GhDiscriminant::V3) => 1, None => 0 } }
/*@fn gen:gh.rs GhIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, &'a Gh)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GhDiscriminant::V1) && self.v1.pos() >= self.v1.all().len() { assert(left(self.v1).len() == 0); } if self._iter_state == Some(GhDiscriminant::V2) && self.v2.pos() >= self.v2.all().len() { assert(left(self.v2).len() == 0); } if self._iter_state == Some(GhDiscriminant::V3) && self.v3.pos() >= self.v3.all().len() { assert(left(self.v3).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GhDiscriminant::V1) && old(self).v1.pos() < old(self).v1.all().len() { assert(left(self.v1) =~= left(old(self).v1).skip(1)); assert(left(old(self).v1)[0] == vf_ret->0); } if old(self)._iter_state == Some(GhDiscriminant::V2) && old(self).v2.pos() < old(self).v2.all().len() { assert(left(self.v2) =~= left(old(self).v2).skip(1)); assert(left(old(self).v2)[0] == vf_ret->0); } if old(self)._iter_state == Some(GhDiscriminant::V3) && old(self).v3.pos() < old(self).v3.all().len() { assert(left(self.v3) =~= left(old(self).v3).skip(1)); assert(left(old(self).v3)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:gh.rs GhIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); hints_step(vf_all0, 2); assert(left(self.v1).len() == vf_all0[0].0); assert(left(self.v2).len() == vf_all0[1].0); assert(left(self.v3).len() == vf_all0[2].0); }
@*/
}
impl GhIntoIter {
  pub open spec fn ok(&self) -> bool { self.v1.pos() <= self.v1.all().len() && self.v2.pos() <= self.v2.all().len() && self.v3.pos() <= self.v3.all().len() && (self.stage() < 3 ==> self.v1.pos() == self.v1.all().len()) && (self.stage() < 2 ==> self.v2.pos() == self.v2.all().len()) && (self.stage() < 1 ==> self.v3.pos() == self.v3.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, Gh)> { match self._iter_state {
    Some(GhDiscriminant::V1) => (left_own(self.v1) + (left_own(self.v2) + left_own(self.v3))), Some(GhDiscriminant::V2) => (left_own(self.v2) + left_own(self.v3)), Some(GhDiscriminant::V3) => left_own(self.v3),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GhDiscriminant::V1) => 3, Some(GhDiscriminant::V2) => 2, Some(GhDiscriminant::V3) => 1, None => 0 } }
/*@fn gen:gh.rs GhIntoIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, Gh)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GhDiscriminant::V1) && self.v1.pos() >= self.v1.all().len() { assert(left_own(self.v1).len() == 0); } if self._iter_state == Some(GhDiscriminant::V2) && self.v2.pos() >= self.v2.all().len() { assert(left_own(self.v2).len() == 0); } if self._iter_state == Some(GhDiscriminant::V3) && self.v3.pos() >= self.v3.all().len() { assert(left_own(self.v3).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GhDiscriminant::V1) && old(self).v1.pos() < old(self).v1.all().len() { assert(left_own(self.v1) =~= left_own(old(self).v1).skip(1)); assert(left_own(old(self).v1)[0] == vf_ret->0); } if old(self)._iter_state == Some(GhDiscriminant::V2) && old(self).v2.pos() < old(self).v2.all().len() { assert(left_own(self.v2) =~= left_own(old(self).v2).skip(1)); assert(left_own(old(self).v2)[0] == vf_ret->0); } if old(self)._iter_state == Some(GhDiscriminant::V3) && old(self).v3.pos() < old(self).v3.all().len() { assert(left_own(self.v3) =~= left_own(old(self).v3).skip(1)); assert(left_own(old(self).v3)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:gh.rs GhIntoIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); hints_step(vf_all0, 2); assert(left_own(self.v1).len() == vf_all0[0].0); assert(left_own(self.v2).len() == vf_all0[1].0); assert(left_own(self.v3).len() == vf_all0[2].0); }
@*/
}
impl GhArena {
/*@fn gen:gh.rs GhArena as CateArena::iter
#props C07
#sig
fn gen_iter<'a>(&'a self) -> (r: GhIter<'a>)
#requires
  arena_wf(*self),
#ensures
  r.ok(), seq_of_map_kref(nodes_of(*self), r.rest()),
#start
  let ghost vf_a = *self;
#end
  proof { parts(vf_a); left_ok(vf_a.v1@, vf_ret.v1); left_ok(vf_a.v2@, vf_ret.v2); left_ok(vf_a.v3@, vf_ret.v3); cat_ok(lift(vf_a.v2@), left(vf_ret.v2), lift(vf_a.v3@), left(vf_ret.v3)); cat_ok(lift(vf_a.v1@), left(vf_ret.v1), lift(vf_a.v2@).union_prefer_right(lift(vf_a.v3@)), (left(vf_ret.v2) + left(vf_ret.v3))); }
#replace
  Self::IntoIter =>> GhIntoIter
  Self::Iter =>> GhIter
  Self::D =>> GhDiscriminant
@*/
/*@fn gen:gh.rs GhArena as CateArena::into_iter
#props C07 C10
#sig
fn gen_into_iter(self) -> (r: GhIntoIter)
#requires
  arena_wf(self),
#ensures
  r.ok(), seq_of_map(nodes_of(self), r.rest()),
#start
  let ghost vf_a = self;
#end
  proof { parts(vf_a); left_own_ok(vf_a.v1@, vf_ret.v1); left_own_ok(vf_a.v2@, vf_ret.v2); left_own_ok(vf_a.v3@, vf_ret.v3); cat_own_ok(lift(vf_a.v2@), left_own(vf_ret.v2), lift(vf_a.v3@), left_own(vf_ret.v3)); cat_own_ok(lift(vf_a.v1@), left_own(vf_ret.v1), lift(vf_a.v2@).union_prefer_right(lift(vf_a.v3@)), (left_own(vf_ret.v2) + left_own(vf_ret.v3))); }
#replace
  Self::IntoIter =>> GhIntoIter
  Self::Iter =>> GhIter
  Self::D =>> GhDiscriminant
@*/
}
impl CateArena for GhArena {
  // what a loop over the arena's iterator visits
  #[verifier::loop_isolation(true)]
  fn vf_iter<'a>(&'a self) -> VIter<(NodeIndex, &'a Gh)> {
    let mut it = self.gen_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
  #[verifier::loop_isolation(true)]
  fn vf_into_iter(self) -> VIter<(NodeIndex, Gh)> {
    let mut it = self.gen_into_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
/*@fn gen:gh.rs GhArena as CateArena::new
#props C07 C09
@*/
/*@fn gen:gh.rs GhArena as CateArena::new_from_iter
#props C07 C10
#start
  proof { reveal(arena_wf); reveal(nodes_of); }
#loop @* before
  proof { assert(nodes_of(result) =~= upto(vf_all$n, 0)); }
#loop @*
  arena_wf(result), result.dist() == id_distributer, nodes_of(result) == upto(vf_all$n, vf_it$n.pos()),
  forall|k: NodeIndex| #[trigger] result.disp().contains_key(k) <==> upto(vf_all$n, vf_it$n.pos()).contains_key(k),
#loop @* begin
  let ghost vf_pre = result;
  proof {
    upto_has(vf_all$n, (vf_it$n.pos() - 1) as nat);
    let ghost vf_i = vf_all$n[vf_it$n.pos() - 1].0;
    assert(NodeIndex(vf_i.0) == vf_i);
    assert(!result.cont(GhDiscriminant::V1).contains_key(vf_i.0)); assert(!result.cont(GhDiscriminant::V2).contains_key(vf_i.0)); assert(!result.cont(GhDiscriminant::V3).contains_key(vf_i.0));
  }
#loop @* end
  proof { assert forall|d: GhDiscriminant, k: usize| #[trigger] result.cont(d).contains_key(k) implies result.disp().contains_key(NodeIndex(k)) && result.disp()[NodeIndex(k)] == d && result.cont(d)[k].disc() == d by {
    assert(vf_pre.cont(d).contains_key(k) || NodeIndex(k) == vf_all$n[vf_it$n.pos() - 1].0);
  } }
  proof { assert(nodes_of(result) =~= upto(vf_all$n, vf_it$n.pos())); }
#loop @* after
  proof { upto_has(vf_all$n, vf_all$n.len()); }
@*/
/*@fn gen:gh.rs GhArena as CateArena::dispatch
#props C07
@*/
/*@fn gen:gh.rs GhArena as CateArena::get_container
#props C07
@*/
/*@fn gen:gh.rs GhArena as CateArena::get_container_mut
#props C07 C03
@*/
/*@fn gen:gh.rs GhArena as CateArena::alloc
#props C06 C08
#mode P
@*/
/*@fn gen:gh.rs GhArena as CateArena::alloc_untyped
#props C06 C08
@*/
/*@fn gen:gh.rs GhArena as CateArena::fill_back_untyped
#props C08 C07
#start
  proof {
    reveal(arena_wf); reveal(nodes_of); assert(NodeIndex(i.0) == i);
    assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GhDiscriminant::V1).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GhDiscriminant::V2).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GhDiscriminant::V3).contains_key(i.0));
  }
#end
  proof {
    assert forall|d: GhDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i); assert(NodeIndex(k) == i ==> !old(self).cont(d).contains_key(k));
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(i, item));
  }
@*/
/*@fn gen:gh.rs GhArena as CateArena::remove
#props C07 C03
#start
  proof { reveal(arena_wf); reveal(nodes_of); reveal(arena_wf_ex); }
#end
  proof {
    assert forall|d: GhDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i);
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).remove(i));
  }
@*/
/*@fn gen:gh.rs GhArena as CateArena::merge
#props C03 C07 C11
#start
  let ghost vf_o = other;
  proof { reveal(arena_wf); reveal(nodes_of); }
#end
  proof {
    assert forall|d: GhDiscriminant, i: usize| #[trigger] self.cont(d).contains_key(i) implies self.disp().contains_key(NodeIndex(i)) && self.disp()[NodeIndex(i)] == d && self.cont(d)[i].disc() == d by {
      assert(old(self).cont(d).contains_key(i) || vf_o.cont(d).contains_key(i));
      if vf_o.cont(d).contains_key(i) { assert(vf_o.disp().dom().contains(NodeIndex(i))); } else { assert(old(self).disp().dom().contains(NodeIndex(i))); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) == (nodes_of(*old(self)).contains_key(i) || nodes_of(vf_o).contains_key(i)) by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GhDiscriminant::V1).contains_key(i.0)); assert(!vf_o.cont(GhDiscriminant::V2).contains_key(i.0)); assert(!vf_o.cont(GhDiscriminant::V3).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GhDiscriminant::V1).contains_key(i.0)); assert(!old(self).cont(GhDiscriminant::V2).contains_key(i.0)); assert(!old(self).cont(GhDiscriminant::V3).contains_key(i.0)); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) implies nodes_of(*self)[i] == nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o))[i] by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GhDiscriminant::V1).contains_key(i.0)); assert(!vf_o.cont(GhDiscriminant::V2).contains_key(i.0)); assert(!vf_o.cont(GhDiscriminant::V3).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GhDiscriminant::V1).contains_key(i.0)); assert(!old(self).cont(GhDiscriminant::V2).contains_key(i.0)); assert(!old(self).cont(GhDiscriminant::V3).contains_key(i.0)); }
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o)));
  }
@*/
/*@fn gen:gh.rs GhArena as CateArena::len
#props C07
#end
  proof {
    parts(*self);
    lift_len(self.v1@); lift_len(self.v2@); lift_len(self.v3@);
    union_len(lift(self.v2@).dom(), lift(self.v3@).dom()); union_len(lift(self.v1@).dom(), lift(self.v2@).dom().union(lift(self.v3@).dom()));
    assert(nodes_of(*self).dom() =~= lift(self.v1@).dom().union(lift(self.v2@).dom().union(lift(self.v3@).dom())));
  }
@*/
}
fn main() {}
}
