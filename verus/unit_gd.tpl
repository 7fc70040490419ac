// Written by verus/gen_schemas.py. The expansion of the macros for gen/src/lib.rs, mod gd.
#![allow(unused, dead_code, non_camel_case_types)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
verus! {
/*@include prelude.rs@*/
/*@include-trusted base.inc@*/
/*@include typed.inc@*/
/*@replace
  Box<dyn std::iter::Iterator<Item = ttgraph::NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = (NodeIndex, Self::SourceEnum)>> =>> VIter<(NodeIndex, Self::SourceEnum)>
  std::vec::IntoIter< =>> VIter<
  ::alloc::vec::Vec =>> Vec
  ::ordermap::OrderSet =>> OrderSet
  ::indexmap::IndexSet =>> IndexSet
  std::collections::HashSet =>> HashSet
  std::collections::BTreeSet =>> BTreeSet
  impl std::iter::IntoIterator<Item = (ttgraph::NodeIndex, Self::V)> =>> Vec<(ttgraph::NodeIndex, Self::V)>
  <dyn std::any::Any>::downcast_ref::<TGDataRefT> =>> vf_downcast::<_, TGDataRefT>
  <Solo as ttgraph::TypedNode>::Source =>> SoloSource
  <Solo as ttgraph::TypedNode>::LinkMirror =>> SoloLinkMirror
  <Solo as ttgraph::TypedNode>::LoGMirror =>> SoloLoGMirror
  <self::super::Solo as ttgraph::TypedNode>::Source =>> SoloSource
  <self::super::Solo as ttgraph::TypedNode>::LinkMirror =>> SoloLinkMirror
  <self::super::Solo as ttgraph::TypedNode>::LoGMirror =>> SoloLoGMirror
  <Solo as TypedNode>::Source =>> SoloSource
  <Solo as TypedNode>::LinkMirror =>> SoloLinkMirror
  <Solo as TypedNode>::LoGMirror =>> SoloLoGMirror
  <self::super::Solo as TypedNode>::Source =>> SoloSource
  <self::super::Solo as TypedNode>::LinkMirror =>> SoloLinkMirror
  <self::super::Solo as TypedNode>::LoGMirror =>> SoloLoGMirror
@*/
// ---------------- Solo ----------------
/*@struct gen:gd.rs Solo
@*/
/*@enum gen:gd.rs SoloSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gd.rs SoloLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gd.rs SoloLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_solo { pub use super::*; }
pub struct SoloData { pub tag: u8, }
impl TypedSpec for Solo {
  type Source = SoloSource;
  type LinkMirror = SoloLinkMirror;
  type LoGMirror = SoloLoGMirror;
  type DataT = SoloData;
  open spec fn links(&self) -> ISet<(NodeIndex, SoloSource)> {
    ISet::new(|p: (NodeIndex, SoloSource)| p.0.0 != 0 && match p.1 {
      SoloSource::Next => self.next == p.0,
      SoloSource::Prev => self.prev == p.0,
    })
  }
  open spec fn data(&self) -> SoloData { SoloData { tag: self.tag, } }
  open spec fn place_ok(d: SoloData, s: SoloSource) -> bool { match s {
      SoloSource::Next => true,
      SoloSource::Prev => true,
  } }
  open spec fn single(s: SoloSource) -> bool { match s {
      SoloSource::Next => true,
      SoloSource::Prev => true,
  } }
  open spec fn mirror(s: SoloSource) -> SoloLinkMirror { match s {
      SoloSource::Next => SoloLinkMirror::Next,
      SoloSource::Prev => SoloLinkMirror::Prev,
  } }
  open spec fn source(l: SoloLinkMirror) -> SoloSource { match l {
      SoloLinkMirror::Next => SoloSource::Next,
      SoloLinkMirror::Prev => SoloSource::Prev,
  } }
  open spec fn is_vec(l: SoloLinkMirror) -> bool { match l {
      SoloLinkMirror::Next => false,
      SoloLinkMirror::Prev => false,
  } }
  open spec fn is_field(l: SoloLinkMirror) -> bool { true }
  open spec fn in_log(g: SoloLoGMirror, l: SoloLinkMirror) -> bool { match (g, l) {
    (SoloLoGMirror::Next, SoloLinkMirror::Next) => true,
    (SoloLoGMirror::Prev, SoloLinkMirror::Prev) => true,
    _ => false,
  } }
  open spec fn has(&self, l: SoloLinkMirror, x: NodeIndex) -> bool { match l {
      SoloLinkMirror::Next => self.next == x,
      SoloLinkMirror::Prev => self.prev == x,
  } }
  open spec fn cnt_of(&self, l: SoloLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      SoloLinkMirror::Next => if self.next == x { 1 } else { 0 },
      SoloLinkMirror::Prev => if self.prev == x { 1 } else { 0 },
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<SoloLinkMirror> { if name == "next"@ { Some(SoloLinkMirror::Next) } else if name == "prev"@ { Some(SoloLinkMirror::Prev) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<SoloLoGMirror> { if name == "next"@ { Some(SoloLoGMirror::Next) } else if name == "prev"@ { Some(SoloLoGMirror::Prev) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { if name == "tag"@ { vf_any::<u8, T>(self.tag) } else { None } }
  open spec fn names() -> Seq<&'static str> { seq!["next", "prev"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Point, LinkType::Point] }
  open spec fn mirrors() -> Seq<SoloLinkMirror> { seq![SoloLinkMirror::Next, SoloLinkMirror::Prev] }
  open spec fn dnames() -> Seq<&'static str> { seq!["tag"] }
  proof fn law_has(&self, l: SoloLinkMirror, x: NodeIndex) {
    if l is Next && self.has(l, x) { assert(self.links().contains((x, SoloSource::Next))); }
    if l is Prev && self.has(l, x) { assert(self.links().contains((x, SoloSource::Prev))); }
  }
}
impl SoloSource {
/*@fn gen:gd.rs SoloSource::to_link_mirror
#props C12
#ensures
  r == Solo::mirror(self),
@*/
}
impl SoloLinkMirror {
/*@fn gen:gd.rs SoloLinkMirror::to_source
#props C12
#requires[T]
  !Solo::is_vec(self),
#ensures
  r == Solo::source(self), !Solo::is_vec(self),
@*/
}
impl SoloLoGMirror {
/*@fn gen:gd.rs SoloLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> Solo::in_log(self, #[trigger] r@[i]),
  forall|l: SoloLinkMirror| #[trigger] Solo::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is Next { assert(vf_ret@.contains(SoloLinkMirror::Next)); }
    if self is Prev { assert(vf_ret@.contains(SoloLinkMirror::Prev)); }
  }
@*/
}
impl TypedNode for Solo {
/*@fn gen:gd.rs Solo as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#end
  proof {
    assert forall|p: (NodeIndex, SoloSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:gd.rs Solo as TypedNode::iter_links
#props C12 C07
#box id
@*/
/*@fn gen:gd.rs Solo as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if self.next.0 != 0 { assert(self.links().contains((self.next, SoloSource::Next))); }
    if self.prev.0 != 0 { assert(self.links().contains((self.prev, SoloSource::Prev))); }
  }
#end
  proof { assert forall|p: (NodeIndex, SoloSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == SoloSource::Next || q == SoloSource::Prev); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gd.rs Solo as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.next.0 != 0 { assert(self.links().contains((self.next, SoloSource::Next))); }
    if self.prev.0 != 0 { assert(self.links().contains((self.prev, SoloSource::Prev))); }
  }
#end
  proof { assert forall|p: (NodeIndex, SoloSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == SoloSource::Next || q == SoloSource::Prev); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:gd.rs Solo as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, SoloSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == SoloSource::Next || q == SoloSource::Prev); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:gd.rs Solo as TypedNode::contains_link
#props C12 C04
@*/
/*@fn gen:gd.rs Solo as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:gd.rs Solo as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:gd.rs Solo as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:gd.rs Solo as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:gd.rs Solo as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("next"); reveal_strlit("prev"); reveal_strlit("tag"); assert("next"@[0] != "prev"@[0]); assert("next"@.len() != "tag"@.len()); assert("prev"@.len() != "tag"@.len()); }
@*/
/*@fn gen:gd.rs Solo as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("next"); reveal_strlit("prev"); reveal_strlit("tag"); assert("next"@[0] != "prev"@[0]); assert("next"@.len() != "tag"@.len()); assert("prev"@.len() != "tag"@.len()); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gd.rs Solo as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("next"); reveal_strlit("prev"); reveal_strlit("tag"); assert("next"@[0] != "prev"@[0]); assert("next"@.len() != "tag"@.len()); assert("prev"@.len() != "tag"@.len()); }
@*/
/*@fn gen:gd.rs Solo as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("next"); reveal_strlit("prev"); reveal_strlit("tag"); assert("next"@[0] != "prev"@[0]); assert("next"@.len() != "tag"@.len()); assert("prev"@.len() != "tag"@.len()); }
@*/
/*@fn gen:gd.rs Solo as TypedNode::to_source
#props C12
@*/
/*@fn gen:gd.rs Solo as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:gd.rs Solo as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is Next { assert(vf_ret@.contains(SoloLoGMirror::Next)); }
    if input is Prev { assert(vf_ret@.contains(SoloLoGMirror::Prev)); }
  }
@*/
}
// ---------------- Gd ----------------
/*@enum gen:gd.rs Gd
@*/
/*@enum gen:gd.rs GdDiscriminant
#props C07 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gd.rs GdSourceEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gd.rs GdLinkMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gd.rs GdLoGMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_gd { pub use super::*; }
pub enum GdData { Solo(SoloData), }
impl NodeDiscriminant for GdDiscriminant {
  open spec fn vf_first() -> Self { GdDiscriminant::Solo }
  open spec fn vf_succ(self) -> Option<Self> { match self { GdDiscriminant::Solo => None, } }
/*@fn gen:gd.rs GdDiscriminant as NodeDiscriminant::first
#props C07
@*/
/*@fn gen:gd.rs GdDiscriminant as NodeDiscriminant::next
#props C07
@*/
}
impl Discriminated<GdDiscriminant> for Gd {
  open spec fn disc(&self) -> GdDiscriminant { match self { Gd::Solo(_) => GdDiscriminant::Solo, } }
/*@fn gen:gd.rs Gd as Discriminated::discriminant
#props C07 C12
@*/
}
impl NodeSpec for Gd {
  type SourceEnum = GdSourceEnum;
  type LinkMirrorEnum = GdLinkMirrorEnum;
  type LoGMirrorEnum = GdLoGMirrorEnum;
  type Discriminant = GdDiscriminant;
  type DataT = GdData;
  open spec fn links(&self) -> ISet<(NodeIndex, GdSourceEnum)> {
    ISet::new(|p: (NodeIndex, GdSourceEnum)| match (*self, p.1) {
      (Gd::Solo(x), GdSourceEnum::Solo(s)) => x.links().contains((p.0, s)),
      _ => false,
    })
  }
  open spec fn data(&self) -> GdData { match self {
    Gd::Solo(x) => GdData::Solo(x.data()),
  } }
  open spec fn place_ok(d: GdData, s: GdSourceEnum) -> bool { match (d, s) {
    (GdData::Solo(d), GdSourceEnum::Solo(s)) => Solo::place_ok(d, s),
    _ => false,
  } }
  open spec fn single(s: GdSourceEnum) -> bool { match s {
    GdSourceEnum::Solo(s) => Solo::single(s),
  } }
  open spec fn mirror(s: GdSourceEnum) -> GdLinkMirrorEnum { match s {
    GdSourceEnum::Solo(s) => GdLinkMirrorEnum::Solo(Solo::mirror(s)),
  } }
  open spec fn source(l: GdLinkMirrorEnum) -> GdSourceEnum { match l {
    GdLinkMirrorEnum::Solo(l) => GdSourceEnum::Solo(Solo::source(l)),
  } }
  open spec fn is_vec(l: GdLinkMirrorEnum) -> bool { match l {
    GdLinkMirrorEnum::Solo(l) => Solo::is_vec(l),
  } }
  open spec fn is_field(l: GdLinkMirrorEnum) -> bool { match l {
    GdLinkMirrorEnum::Solo(l) => Solo::is_field(l),
  } }
  open spec fn owner(l: GdLinkMirrorEnum) -> GdDiscriminant { match l {
    GdLinkMirrorEnum::Solo(_) => GdDiscriminant::Solo,
  } }
  open spec fn logs(l: GdLinkMirrorEnum) -> ISet<GdLoGMirrorEnum> {
    ISet::new(|g: GdLoGMirrorEnum| match (l, g) {
      (GdLinkMirrorEnum::Solo(l), GdLoGMirrorEnum::Solo(g)) => Solo::is_field(l) && Solo::in_log(g, l),
      _ => false,
    })
  }
  open spec fn bd_log(g: GdLoGMirrorEnum) -> ISet<GdLinkMirrorEnum> {
    ISet::new(|m: GdLinkMirrorEnum| match (g, m) {
      (GdLoGMirrorEnum::Solo(SoloLoGMirror::Next), GdLinkMirrorEnum::Solo(SoloLinkMirror::Prev)) => true,
      (GdLoGMirrorEnum::Solo(SoloLoGMirror::Prev), GdLinkMirrorEnum::Solo(SoloLinkMirror::Next)) => true,
      _ => false,
    })
  }
  open spec fn allowed_log(g: GdLoGMirrorEnum, d: GdDiscriminant) -> bool { match g {
    GdLoGMirrorEnum::Solo(SoloLoGMirror::Next) => d is Solo,
    _ => true,
  } }
  open spec fn member(d: GdDiscriminant, name: Seq<char>) -> bool { { false } }
  proof fn law_links(&self, y: NodeIndex, s: GdSourceEnum) { }
  proof fn law_single(&self, y: NodeIndex, z: NodeIndex, s: GdSourceEnum) { }
  proof fn law_data(&self, o: &Self) { }
  proof fn law_mirror(l: GdLinkMirrorEnum, s: GdSourceEnum) { }
  proof fn law_bd(g: GdLoGMirrorEnum, m: GdLinkMirrorEnum) { }
}
/// field m belongs to link or group g
pub open spec fn covers(g: GdLoGMirrorEnum, m: GdLinkMirrorEnum) -> bool { match (g, m) {
    (GdLoGMirrorEnum::Solo(g), GdLinkMirrorEnum::Solo(m)) => Solo::in_log(g, m),
  _ => false,
} }
#[verifier::opaque]
pub open spec fn covered(s: Seq<GdLoGMirrorEnum>, n: nat, m: GdLinkMirrorEnum) -> bool decreases n { n > 0 && (covered(s, (n - 1) as nat, m) || covers(s[n - 1], m)) }
pub proof fn covered_none(s: Seq<GdLoGMirrorEnum>) ensures forall|m: GdLinkMirrorEnum| !#[trigger] covered(s, 0, m) { reveal(covered); }
pub proof fn covered_step(s: Seq<GdLoGMirrorEnum>, n: nat)
  requires n < s.len()
  ensures forall|m: GdLinkMirrorEnum| #[trigger] covered(s, n + 1, m) <==> covered(s, n, m) || covers(s[n as int], m)
{ reveal(covered); }
pub open spec fn cnt_in(n: Gd, l: GdLinkMirrorEnum, x: NodeIndex) -> nat { match (n, l) {
    (Gd::Solo(n), GdLinkMirrorEnum::Solo(l)) => n.cnt_of(l, x),
  _ => 0,
} }
pub proof fn has_link_is(n: Gd, l: GdLinkMirrorEnum, x: NodeIndex)
  requires x.0 != 0
  ensures has_link(n, l, x) == match (n, l) {
    (Gd::Solo(n), GdLinkMirrorEnum::Solo(l)) => n.has(l, x),
    _ => false,
  }
{
  match (n, l) {
    (Gd::Solo(v), GdLinkMirrorEnum::Solo(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: SoloSource| #[trigger] v.links().contains((x, s)) && Solo::mirror(s) == k; assert(n.links().contains((x, GdSourceEnum::Solo(s)))); }
      if has_link(n, l, x) { let s = choose|s: GdSourceEnum| #[trigger] n.links().contains((x, s)) && Gd::mirror(s) == l; assert(v.links().contains((x, s->Solo_0))); }
    },
    _ => { },
  }
}
impl NodeEnum for Gd {
/*@fn gen:gd.rs Gd as NodeEnum::iter_sources
#props C12 C02 C15 C14 C09
#box id
#loop @SourceEnum::Solo
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GdSourceEnum::Solo(vf_all$n[j].1)),
#loop @SourceEnum::Solo after
  proof { lift_sources::<SoloSource, GdSourceEnum>(self->Solo_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: SoloSource| GdSourceEnum::Solo(s), |t: GdSourceEnum| t->Solo_0); }
@*/
/*@fn gen:gd.rs Gd as NodeEnum::modify_link
#props C12 C01 C02 C03 C04 C09
#ensures
  forall|m: GdLinkMirrorEnum| #[trigger] r.bd_link_mirrors@.contains(m) <==> bd_of::<Self>(Self::mirror(source)).contains(m),
#start
  proof {
    if *self is Solo && source is Solo { assert((*self)->Solo_0.links().contains((old_idx, source->Solo_0)) == self.links().contains((old_idx, source))); assert((*self)->Solo_0.links().contains((new_idx, source->Solo_0)) == self.links().contains((new_idx, source))); }
  }
#end
  proof { assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gd.rs Gd as NodeEnum::add_link
#props C12 C04
#start
  proof {
    if *self is Solo && link is Solo { assert(Self::single(Self::source(link)) == Solo::single(Solo::source(link->Solo_0))); assert forall|z: NodeIndex| #[trigger] (*self)->Solo_0.links().contains((z, Solo::source(link->Solo_0))) implies self.links().contains((z, Self::source(link))) by { } }
  }
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); } }
@*/
/*@fn gen:gd.rs Gd as NodeEnum::remove_link
#props C12 C04
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); } }
@*/
/*@fn gen:gd.rs Gd as NodeEnum::contains_link
#props C12 C04
#start
  proof { if target.0 != 0 { has_link_is(*self, link, target); } }
@*/
/*@fn gen:gd.rs Gd as NodeEnum::in_group
#props C13 C07

@*/
/*@fn gen:gd.rs Gd as NodeEnum::to_source_enum
#props C12
@*/
/*@fn gen:gd.rs Gd as NodeEnum::to_link_mirror_enum
#props C12
@*/
/*@fn gen:gd.rs Gd as NodeEnum::to_log_mirror_enums
#props C13 C04 C05
#loop @LoGMirrorEnum::Solo
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GdLoGMirrorEnum::Solo(*vf_all$n[j]),
#loop @LoGMirrorEnum::Solo after
  proof { assert forall|g: GdLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(Solo::in_log(*vf_all$n[j], input->Solo_0)); }
    if Self::logs(input).contains(g) { assert(Solo::in_log(g->Solo_0, input->Solo_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->Solo_0; assert(vf_acc$n@[j] == g); }
  } }
@*/
/*@fn gen:gd.rs Gd as NodeEnum::get_bidiretional_link_mirrors_of_log
#props C04 C13
#loop @].into_iter().Self::expand_link_groups before
  proof { covered_none(vf_all$n); }
#loop @].into_iter().Self::expand_link_groups
  forall|m: GdLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> covered(vf_all$n, vf_it$n.pos(), m),
#loop @].into_iter().Self::expand_link_groups begin
  proof { covered_step(vf_all$n, (vf_it$n.pos() - 1) as nat); }
#loop @].into_iter().Self::expand_link_groups after
  proof { assert forall|m: GdLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> Self::bd_log(link).contains(m) by { reveal_with_fuel(covered, 8); } }
#loop @expand_link_groups before
  let ghost vf_pre$n = vf_acc$p@;
  proof { take_none(vf_all$n); }
#loop @expand_link_groups
  forall|m: GdLinkMirrorEnum| #[trigger] vf_acc$p@.contains(m) <==> vf_pre$n.contains(m) || vf_all$n.take(vf_it$n.pos() as int).contains(m),
#loop @expand_link_groups begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @expand_link_groups after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gd.rs Gd as NodeEnum::check_link_type_by_group
#props C05 C13
@*/
/*@fn gen:gd.rs Gd as NodeEnum::match_bd_link_group
#props C04 C13
#loop @LinkMirrorEnum::Solo before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::Solo
  forall|l: GdLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GdDiscriminant::Solo,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::Solo begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::Solo after
  proof { take_all(vf_all$n); }
@*/
}
impl Gd {
/*@fn gen:gd.rs Gd as NodeEnum::iter_links
#props C12
#requires[T]
  Self::owner(link) == self.disc(),
#ensures
  Self::owner(link) == self.disc(), r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == cnt_in(*self, link, x),
#replace
  Self::SourceEnum =>> GdSourceEnum
  Self::LinkMirrorEnum =>> GdLinkMirrorEnum
  Self::LoGMirrorEnum =>> GdLoGMirrorEnum
@*/
/*@fn gen:gd.rs Gd as NodeEnum::check_link
#props C12
#ensures
  r == (Self::owner(link) == self.disc()),
#replace
  Self::SourceEnum =>> GdSourceEnum
  Self::LinkMirrorEnum =>> GdLinkMirrorEnum
  Self::LoGMirrorEnum =>> GdLoGMirrorEnum
@*/
/*@fn gen:gd.rs Gd as NodeEnum::get_links_by_name
#props C12 C13 C07
#ensures
  r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == (match self {
    Gd::Solo(n) => match Solo::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
  }),
#replace
  Self::SourceEnum =>> GdSourceEnum
  Self::LinkMirrorEnum =>> GdLinkMirrorEnum
  Self::LoGMirrorEnum =>> GdLoGMirrorEnum
@*/
/*@fn gen:gd.rs Gd as NodeEnum::get_links_by_group
#props C13 C07
#ensures
  forall|x: NodeIndex| #[trigger] cnt(r@, x) == (match self {
    Gd::Solo(n) => n.grp_cnt(name@, x),
  }),
#replace
  Self::SourceEnum =>> GdSourceEnum
  Self::LinkMirrorEnum =>> GdLinkMirrorEnum
  Self::LoGMirrorEnum =>> GdLoGMirrorEnum
@*/
/*@fn gen:gd.rs Gd as NodeEnum::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<T>(&self, name: &'static str) -> (r: Option<&T>)
#ensures
  r is Some == (match self {
    Gd::Solo(n) => n.dref::<T>(name@),
  }) is Some,
  r is Some ==> Some(*r->0) == (match self {
    Gd::Solo(n) => n.dref::<T>(name@),
  }),
#replace
  Self::SourceEnum =>> GdSourceEnum
  Self::LinkMirrorEnum =>> GdLinkMirrorEnum
  Self::LoGMirrorEnum =>> GdLoGMirrorEnum
@*/
/*@fn gen:gd.rs Gd as NodeEnum::expand_link_groups
#props C13 C04
#ensures
  forall|m: GdLinkMirrorEnum| (Self::is_field(m)) ==> (#[trigger] r@.contains(m) <==> covers(input, m)),
#loop @LinkMirrorEnum::Solo
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GdLinkMirrorEnum::Solo(*vf_all$n[j]),
#loop @LinkMirrorEnum::Solo after
  proof { assert forall|m: GdLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(Solo::in_log(input->Solo_0, *vf_all$n[j]) || !Solo::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(Solo::in_log(input->Solo_0, m->Solo_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->Solo_0; assert(vf_acc$n@[j] == m); }
  } }
#replace
  Self::SourceEnum =>> GdSourceEnum
  Self::LinkMirrorEnum =>> GdLinkMirrorEnum
  Self::LoGMirrorEnum =>> GdLoGMirrorEnum
@*/
}
// ---------------- GdArena ----------------
/*@struct gen:gd.rs GdArena
@*/
/*@struct gen:gd.rs GdIter
@*/
/*@struct gen:gd.rs GdIntoIter
@*/
impl ArenaSpec for GdArena {
  type V = Gd;
  type D = GdDiscriminant;
  open spec fn disp(&self) -> IMap<NodeIndex, GdDiscriminant> { self._dispatcher@ }
  open spec fn cont(&self, d: GdDiscriminant) -> IMap<usize, Gd> { match d { GdDiscriminant::Solo => self.solo@, } }
  open spec fn dist(&self) -> IdDistributer { self._id_distributer }
}
/// a type's container holds the nodes of that type, and no index is in two containers
pub proof fn parts(a: GdArena)
  requires arena_wf(a)
  ensures nodes_of(a) == lift(a.solo@),
    
{
  reveal(arena_wf); reveal(nodes_of);
  assert forall|i: NodeIndex| #[trigger] lift(a.solo@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GdDiscriminant::Solo by { assert(lift(a.solo@).contains_key(i) == a.cont(GdDiscriminant::Solo).contains_key(i.0)); }
  
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) == lift(a.solo@).contains_key(i) by {
    assert(lift(a.solo@).contains_key(i) ==> a.disp()[i] == GdDiscriminant::Solo);
  }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) implies nodes_of(a)[i] == lift(a.solo@)[i] by {
    assert(lift(a.solo@).contains_key(i) ==> a.disp()[i] == GdDiscriminant::Solo);
  }
  assert(nodes_of(a) =~= lift(a.solo@));
}
impl<'a> GdIter<'a> {
  pub open spec fn ok(&self) -> bool { self.solo.pos() <= self.solo.all().len() && (self.stage() < 1 ==> self.solo.pos() == self.solo.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, &'a Gd)> { match self._iter_state {
    Some(GdDiscriminant::Solo) => left(self.solo),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GdDiscriminant::Solo) => 1, None => 0 } }
/*@fn gen:gd.rs GdIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, &'a Gd)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GdDiscriminant::Solo) && self.solo.pos() >= self.solo.all().len() { assert(left(self.solo).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GdDiscriminant::Solo) && old(self).solo.pos() < old(self).solo.all().len() { assert(left(self.solo) =~= left(old(self).solo).skip(1)); assert(left(old(self).solo)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:gd.rs GdIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); assert(left(self.solo).len() == vf_all0[0].0); }
@*/
}
impl GdIntoIter {
  pub open spec fn ok(&self) -> bool { self.solo.pos() <= self.solo.all().len() && (self.stage() < 1 ==> self.solo.pos() == self.solo.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, Gd)> { match self._iter_state {
    Some(GdDiscriminant::Solo) => left_own(self.solo),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GdDiscriminant::Solo) => 1, None => 0 } }
/*@fn gen:gd.rs GdIntoIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, Gd)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GdDiscriminant::Solo) && self.solo.pos() >= self.solo.all().len() { assert(left_own(self.solo).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GdDiscriminant::Solo) && old(self).solo.pos() < old(self).solo.all().len() { assert(left_own(self.solo) =~= left_own(old(self).solo).skip(1)); assert(left_own(old(self).solo)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:gd.rs GdIntoIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); assert(left_own(self.solo).len() == vf_all0[0].0); }
@*/
}
impl GdArena {
/*@fn gen:gd.rs GdArena as CateArena::iter
#props C07
#sig
fn gen_iter<'a>(&'a self) -> (r: GdIter<'a>)
#requires
  arena_wf(*self),
#ensures
  r.ok(), seq_of_map_kref(nodes_of(*self), r.rest()),
#start
  let ghost vf_a = *self;
#end
  proof { parts(vf_a); left_ok(vf_a.solo@, vf_ret.solo); }
#replace
  Self::IntoIter =>> GdIntoIter
  Self::Iter =>> GdIter
  Self::D =>> GdDiscriminant
@*/
/*@fn gen:gd.rs GdArena as CateArena::into_iter
#props C07 C10
#sig
fn gen_into_iter(self) -> (r: GdIntoIter)
#requires
  arena_wf(self),
#ensures
  r.ok(), seq_of_map(nodes_of(self), r.rest()),
#start
  let ghost vf_a = self;
#end
  proof { parts(vf_a); left_own_ok(vf_a.solo@, vf_ret.solo); }
#replace
  Self::IntoIter =>> GdIntoIter
  Self::Iter =>> GdIter
  Self::D =>> GdDiscriminant
@*/
}
impl CateArena for GdArena {
  // what a loop over the arena's iterator visits
  #[verifier::loop_isolation(true)]
  fn vf_iter<'a>(&'a self) -> VIter<(NodeIndex, &'a Gd)> {
    let mut it = self.gen_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
  #[verifier::loop_isolation(true)]
  fn vf_into_iter(self) -> VIter<(NodeIndex, Gd)> {
    let mut it = self.gen_into_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
/*@fn gen:gd.rs GdArena as CateArena::new
#props C07 C09
@*/
/*@fn gen:gd.rs GdArena as CateArena::new_from_iter
#props C07 C10
#start
  proof { reveal(arena_wf); reveal(nodes_of); }
#loop @* before
  proof { assert(nodes_of(result) =~= upto(vf_all$n, 0)); }
#loop @*
  arena_wf(result), result.dist() == id_distributer, nodes_of(result) == upto(vf_all$n, vf_it$n.pos()),
  forall|k: NodeIndex| #[trigger] result.disp().contains_key(k) <==> upto(vf_all$n, vf_it$n.pos()).contains_key(k),
#loop @* begin
  let ghost vf_pre = result;
  proof {
    upto_has(vf_all$n, (vf_it$n.pos() - 1) as nat);
    let ghost vf_i = vf_all$n[vf_it$n.pos() - 1].0;
    assert(NodeIndex(vf_i.0) == vf_i);
    assert(!result.cont(GdDiscriminant::Solo).contains_key(vf_i.0));
  }
#loop @* end
  proof { assert forall|d: GdDiscriminant, k: usize| #[trigger] result.cont(d).contains_key(k) implies result.disp().contains_key(NodeIndex(k)) && result.disp()[NodeIndex(k)] == d && result.cont(d)[k].disc() == d by {
    assert(vf_pre.cont(d).contains_key(k) || NodeIndex(k) == vf_all$n[vf_it$n.pos() - 1].0);
  } }
  proof { assert(nodes_of(result) =~= upto(vf_all$n, vf_it$n.pos())); }
#loop @* after
  proof { upto_has(vf_all$n, vf_all$n.len()); }
@*/
/*@fn gen:gd.rs GdArena as CateArena::dispatch
#props C07
@*/
/*@fn gen:gd.rs GdArena as CateArena::get_container
#props C07
@*/
/*@fn gen:gd.rs GdArena as CateArena::get_container_mut
#props C07 C03
@*/
/*@fn gen:gd.rs GdArena as CateArena::alloc
#props C06 C08
#mode P
@*/
/*@fn gen:gd.rs GdArena as CateArena::alloc_untyped
#props C06 C08
@*/
/*@fn gen:gd.rs GdArena as CateArena::fill_back_untyped
#props C08 C07
#start
  proof {
    reveal(arena_wf); reveal(nodes_of); assert(NodeIndex(i.0) == i);
    assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GdDiscriminant::Solo).contains_key(i.0));
  }
#end
  proof {
    assert forall|d: GdDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i); assert(NodeIndex(k) == i ==> !old(self).cont(d).contains_key(k));
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(i, item));
  }
@*/
/*@fn gen:gd.rs GdArena as CateArena::remove
#props C07 C03
#start
  proof { reveal(arena_wf); reveal(nodes_of); reveal(arena_wf_ex); }
#end
  proof {
    assert forall|d: GdDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i);
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).remove(i));
  }
@*/
/*@fn gen:gd.rs GdArena as CateArena::merge
#props C03 C07 C11
#start
  let ghost vf_o = other;
  proof { reveal(arena_wf); reveal(nodes_of); }
#end
  proof {
    assert forall|d: GdDiscriminant, i: usize| #[trigger] self.cont(d).contains_key(i) implies self.disp().contains_key(NodeIndex(i)) && self.disp()[NodeIndex(i)] == d && self.cont(d)[i].disc() == d by {
      assert(old(self).cont(d).contains_key(i) || vf_o.cont(d).contains_key(i));
      if vf_o.cont(d).contains_key(i) { assert(vf_o.disp().dom().contains(NodeIndex(i))); } else { assert(old(self).disp().dom().contains(NodeIndex(i))); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) == (nodes_of(*old(self)).contains_key(i) || nodes_of(vf_o).contains_key(i)) by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GdDiscriminant::Solo).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GdDiscriminant::Solo).contains_key(i.0)); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) implies nodes_of(*self)[i] == nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o))[i] by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GdDiscriminant::Solo).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GdDiscriminant::Solo).contains_key(i.0)); }
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o)));
  }
@*/
/*@fn gen:gd.rs GdArena as CateArena::len
#props C07
#end
  proof {
    parts(*self);
    lift_len(self.solo@);
    
    assert(nodes_of(*self).dom() =~= lift(self.solo@).dom());
  }
@*/
}
fn main() {}
}
