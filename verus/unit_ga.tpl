// Written by verus/gen_schemas.py. The expansion of the macros for gen/src/lib.rs, mod ga.
#![allow(unused, dead_code, non_camel_case_types)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
verus! {
/*@include prelude.rs@*/
/*@include-trusted base.inc@*/
/*@include typed.inc@*/
/*@replace
  Box<dyn std::iter::Iterator<Item = ttgraph::NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = (NodeIndex, Self::SourceEnum)>> =>> VIter<(NodeIndex, Self::SourceEnum)>
  std::vec::IntoIter< =>> VIter<
  ::alloc::vec::Vec =>> Vec
  ::ordermap::OrderSet =>> OrderSet
  ::indexmap::IndexSet =>> IndexSet
  std::collections::HashSet =>> HashSet
  std::collections::BTreeSet =>> BTreeSet
  impl std::iter::IntoIterator<Item = (ttgraph::NodeIndex, Self::V)> =>> Vec<(ttgraph::NodeIndex, Self::V)>
  <dyn std::any::Any>::downcast_ref::<TGDataRefT> =>> vf_downcast::<_, TGDataRefT>
  <P as ttgraph::TypedNode>::Source =>> PSource
  <P as ttgraph::TypedNode>::LinkMirror =>> PLinkMirror
  <P as ttgraph::TypedNode>::LoGMirror =>> PLoGMirror
  <self::super::P as ttgraph::TypedNode>::Source =>> PSource
  <self::super::P as ttgraph::TypedNode>::LinkMirror =>> PLinkMirror
  <self::super::P as ttgraph::TypedNode>::LoGMirror =>> PLoGMirror
  <P as TypedNode>::Source =>> PSource
  <P as TypedNode>::LinkMirror =>> PLinkMirror
  <P as TypedNode>::LoGMirror =>> PLoGMirror
  <self::super::P as TypedNode>::Source =>> PSource
  <self::super::P as TypedNode>::LinkMirror =>> PLinkMirror
  <self::super::P as TypedNode>::LoGMirror =>> PLoGMirror
  <Q as ttgraph::TypedNode>::Source =>> QSource
  <Q as ttgraph::TypedNode>::LinkMirror =>> QLinkMirror
  <Q as ttgraph::TypedNode>::LoGMirror =>> QLoGMirror
  <self::super::Q as ttgraph::TypedNode>::Source =>> QSource
  <self::super::Q as ttgraph::TypedNode>::LinkMirror =>> QLinkMirror
  <self::super::Q as ttgraph::TypedNode>::LoGMirror =>> QLoGMirror
  <Q as TypedNode>::Source =>> QSource
  <Q as TypedNode>::LinkMirror =>> QLinkMirror
  <Q as TypedNode>::LoGMirror =>> QLoGMirror
  <self::super::Q as TypedNode>::Source =>> QSource
  <self::super::Q as TypedNode>::LinkMirror =>> QLinkMirror
  <self::super::Q as TypedNode>::LoGMirror =>> QLoGMirror
@*/
// ---------------- P ----------------
/*@struct gen:ga.rs P
@*/
/*@enum gen:ga.rs PSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ga.rs PLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ga.rs PLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_p { pub use super::*; }
pub struct PData { pub data: usize, pub n_many: nat, }
impl TypedSpec for P {
  type Source = PSource;
  type LinkMirror = PLinkMirror;
  type LoGMirror = PLoGMirror;
  type DataT = PData;
  open spec fn links(&self) -> ISet<(NodeIndex, PSource)> {
    ISet::new(|p: (NodeIndex, PSource)| p.0.0 != 0 && match p.1 {
      PSource::One => self.one == p.0,
      PSource::Many(i) => i < self.many@.len() && self.many@[i as int] == p.0,
      PSource::Hs => self.hs@.contains(p.0),
      PSource::Bs => self.bs@.contains(p.0),
    })
  }
  open spec fn data(&self) -> PData { PData { data: self.data, n_many: self.many@.len(), } }
  open spec fn place_ok(d: PData, s: PSource) -> bool { match s {
      PSource::One => true,
      PSource::Many(i) => i < d.n_many,
      PSource::Hs => true,
      PSource::Bs => true,
  } }
  open spec fn single(s: PSource) -> bool { match s {
      PSource::One => true,
      PSource::Many(i) => true,
      PSource::Hs => false,
      PSource::Bs => false,
  } }
  open spec fn mirror(s: PSource) -> PLinkMirror { match s {
      PSource::One => PLinkMirror::One,
      PSource::Many(i) => PLinkMirror::Many,
      PSource::Hs => PLinkMirror::Hs,
      PSource::Bs => PLinkMirror::Bs,
  } }
  open spec fn source(l: PLinkMirror) -> PSource { match l {
      PLinkMirror::One => PSource::One,
      PLinkMirror::Many => PSource::Many(0),
      PLinkMirror::Hs => PSource::Hs,
      PLinkMirror::Bs => PSource::Bs,
  } }
  open spec fn is_vec(l: PLinkMirror) -> bool { match l {
      PLinkMirror::One => false,
      PLinkMirror::Many => true,
      PLinkMirror::Hs => false,
      PLinkMirror::Bs => false,
  } }
  open spec fn is_field(l: PLinkMirror) -> bool { true }
  open spec fn in_log(g: PLoGMirror, l: PLinkMirror) -> bool { match (g, l) {
    (PLoGMirror::One, PLinkMirror::One) => true,
    (PLoGMirror::Many, PLinkMirror::Many) => true,
    (PLoGMirror::Hs, PLinkMirror::Hs) => true,
    (PLoGMirror::Bs, PLinkMirror::Bs) => true,
    (PLoGMirror::Lnk, PLinkMirror::One) => true,
    (PLoGMirror::Lnk, PLinkMirror::Many) => true,
    (PLoGMirror::Both, PLinkMirror::One) => true,
    _ => false,
  } }
  open spec fn has(&self, l: PLinkMirror, x: NodeIndex) -> bool { match l {
      PLinkMirror::One => self.one == x,
      PLinkMirror::Many => self.many@.contains(x),
      PLinkMirror::Hs => self.hs@.contains(x),
      PLinkMirror::Bs => self.bs@.contains(x),
  } }
  open spec fn cnt_of(&self, l: PLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      PLinkMirror::One => if self.one == x { 1 } else { 0 },
      PLinkMirror::Many => cnt(self.many@, x),
      PLinkMirror::Hs => if self.hs@.contains(x) { 1 } else { 0 },
      PLinkMirror::Bs => if self.bs@.contains(x) { 1 } else { 0 },
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "lnk"@ { self.cnt_of(PLinkMirror::One, x) + self.cnt_of(PLinkMirror::Many, x) } else if name == "both"@ { self.cnt_of(PLinkMirror::One, x) } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<PLinkMirror> { if name == "one"@ { Some(PLinkMirror::One) } else if name == "many"@ { Some(PLinkMirror::Many) } else if name == "hs"@ { Some(PLinkMirror::Hs) } else if name == "bs"@ { Some(PLinkMirror::Bs) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<PLoGMirror> { if name == "one"@ { Some(PLoGMirror::One) } else if name == "many"@ { Some(PLoGMirror::Many) } else if name == "hs"@ { Some(PLoGMirror::Hs) } else if name == "bs"@ { Some(PLoGMirror::Bs) } else if name == "lnk"@ { Some(PLoGMirror::Lnk) } else if name == "both"@ { Some(PLoGMirror::Both) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { if name == "data"@ { vf_any::<usize, T>(self.data) } else { None } }
  open spec fn names() -> Seq<&'static str> { seq!["one", "many", "hs", "bs"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Point, LinkType::Vec, LinkType::Set, LinkType::Set] }
  open spec fn mirrors() -> Seq<PLinkMirror> { seq![PLinkMirror::One, PLinkMirror::Many, PLinkMirror::Hs, PLinkMirror::Bs] }
  open spec fn dnames() -> Seq<&'static str> { seq!["data"] }
  proof fn law_has(&self, l: PLinkMirror, x: NodeIndex) {
    if l is One && self.has(l, x) { assert(self.links().contains((x, PSource::One))); }
    if l is Many && self.has(l, x) { let j = choose|j: int| 0 <= j < self.many@.len() && self.many@[j] == x; assert(self.many.len() == self.many@.len()); assert(self.links().contains((x, PSource::Many(j as usize)))); }
    if l is Many { assert forall|s: PSource| #[trigger] self.links().contains((x, s)) && Self::mirror(s) == l implies self.has(l, x) by { } }
    if l is Hs && self.has(l, x) { assert(self.links().contains((x, PSource::Hs))); }
    if l is Bs && self.has(l, x) { assert(self.links().contains((x, PSource::Bs))); }
  }
}
impl PSource {
/*@fn gen:ga.rs PSource::to_link_mirror
#props C12
#ensures
  r == P::mirror(self),
@*/
}
impl PLinkMirror {
/*@fn gen:ga.rs PLinkMirror::to_source
#props C12
#requires[T]
  !P::is_vec(self),
#ensures
  r == P::source(self), !P::is_vec(self),
@*/
}
impl PLoGMirror {
/*@fn gen:ga.rs PLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> P::in_log(self, #[trigger] r@[i]),
  forall|l: PLinkMirror| #[trigger] P::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is One { assert(vf_ret@.contains(PLinkMirror::One)); }
    if self is Many { assert(vf_ret@.contains(PLinkMirror::Many)); }
    if self is Hs { assert(vf_ret@.contains(PLinkMirror::Hs)); }
    if self is Bs { assert(vf_ret@.contains(PLinkMirror::Bs)); }
    if self is Lnk { assert(vf_ret@.contains(PLinkMirror::One)); assert(vf_ret@.contains(PLinkMirror::Many)); }
    if self is Both { assert(vf_ret@.contains(PLinkMirror::One)); }
  }
@*/
}
impl TypedNode for P {
/*@fn gen:ga.rs P as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.many before
  let ghost vf_pre$n = sources@;
#loop @self.many
  forall|p: (NodeIndex, PSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 is Many && p.1->Many_0 < vf_it$n.pos() && self.many@[p.1->Many_0 as int] == p.0),
  sources@.no_duplicates(),
#loop @self.hs before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.hs
  forall|p: (NodeIndex, PSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == PSource::Hs && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.hs begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.hs after
  proof { met_all(self.hs@, vf_all$n); }
#loop @self.bs before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.bs
  forall|p: (NodeIndex, PSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == PSource::Bs && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.bs begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.bs after
  proof { met_all(self.bs@, vf_all$n); }
#end
  proof {
    assert forall|p: (NodeIndex, PSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:ga.rs P as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.many before
  proof { take_none(self.many@); }
#loop @self.many
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 == 0 { 0 } else { cnt(self.many@.take(vf_it$n.pos() as int), x) }),
#loop @self.many begin
  proof { cnt_take(self.many@, vf_it$n.pos() - 1); }
#loop @self.many after
  proof { take_all(self.many@); }
#loop @self.hs before
  proof { met_none(vf_all$n); }
#loop @self.hs
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.hs begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.hs after
  proof { met_all(self.hs@, vf_all$n); }
#loop @self.bs before
  proof { met_none(vf_all$n); }
#loop @self.bs
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.bs begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.bs after
  proof { met_all(self.bs@, vf_all$n); }
@*/
/*@fn gen:ga.rs P as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if self.one.0 != 0 { assert(self.links().contains((self.one, PSource::One))); }
    if source is Many { let j = source->Many_0 as int; if self.many@[j].0 != 0 { assert(self.links().contains((self.many@[j], source))); } }
  }
#end
  proof { assert forall|p: (NodeIndex, PSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == PSource::One || q is Many || q == PSource::Hs || q == PSource::Bs); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:ga.rs P as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.one.0 != 0 { assert(self.links().contains((self.one, PSource::One))); }
  }
#end
  proof { assert forall|p: (NodeIndex, PSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == PSource::One || q is Many || q == PSource::Hs || q == PSource::Bs); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:ga.rs P as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, PSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == PSource::One || q is Many || q == PSource::Hs || q == PSource::Bs); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:ga.rs P as TypedNode::contains_link
#props C12 C04
#loop @self.many before
  proof { take_none(self.many@); }
#loop @self.many
  vf_acc$n == self.many@.take(vf_it$n.pos() as int).contains(target),
#loop @self.many begin
  proof { take_step(self.many@, vf_it$n.pos() - 1); }
#loop @self.many after
  proof { take_all(self.many@); }
@*/
/*@fn gen:ga.rs P as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:ga.rs P as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:ga.rs P as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:ga.rs P as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:ga.rs P as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("both"); reveal_strlit("bs"); reveal_strlit("data"); reveal_strlit("hs"); reveal_strlit("lnk"); reveal_strlit("many"); reveal_strlit("one"); assert("both"@.len() != "bs"@.len()); assert("both"@[0] != "data"@[0]); assert("both"@.len() != "hs"@.len()); assert("both"@.len() != "lnk"@.len()); assert("both"@[0] != "many"@[0]); assert("both"@.len() != "one"@.len()); assert("bs"@.len() != "data"@.len()); assert("bs"@[0] != "hs"@[0]); assert("bs"@.len() != "lnk"@.len()); assert("bs"@.len() != "many"@.len()); assert("bs"@.len() != "one"@.len()); assert("data"@.len() != "hs"@.len()); assert("data"@.len() != "lnk"@.len()); assert("data"@[0] != "many"@[0]); assert("data"@.len() != "one"@.len()); assert("hs"@.len() != "lnk"@.len()); assert("hs"@.len() != "many"@.len()); assert("hs"@.len() != "one"@.len()); assert("lnk"@.len() != "many"@.len()); assert("lnk"@[0] != "one"@[0]); assert("many"@.len() != "one"@.len()); }
@*/
/*@fn gen:ga.rs P as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("both"); reveal_strlit("bs"); reveal_strlit("data"); reveal_strlit("hs"); reveal_strlit("lnk"); reveal_strlit("many"); reveal_strlit("one"); assert("both"@.len() != "bs"@.len()); assert("both"@[0] != "data"@[0]); assert("both"@.len() != "hs"@.len()); assert("both"@.len() != "lnk"@.len()); assert("both"@[0] != "many"@[0]); assert("both"@.len() != "one"@.len()); assert("bs"@.len() != "data"@.len()); assert("bs"@[0] != "hs"@[0]); assert("bs"@.len() != "lnk"@.len()); assert("bs"@.len() != "many"@.len()); assert("bs"@.len() != "one"@.len()); assert("data"@.len() != "hs"@.len()); assert("data"@.len() != "lnk"@.len()); assert("data"@[0] != "many"@[0]); assert("data"@.len() != "one"@.len()); assert("hs"@.len() != "lnk"@.len()); assert("hs"@.len() != "many"@.len()); assert("hs"@.len() != "one"@.len()); assert("lnk"@.len() != "many"@.len()); assert("lnk"@[0] != "one"@[0]); assert("many"@.len() != "one"@.len()); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:ga.rs P as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("both"); reveal_strlit("bs"); reveal_strlit("data"); reveal_strlit("hs"); reveal_strlit("lnk"); reveal_strlit("many"); reveal_strlit("one"); assert("both"@.len() != "bs"@.len()); assert("both"@[0] != "data"@[0]); assert("both"@.len() != "hs"@.len()); assert("both"@.len() != "lnk"@.len()); assert("both"@[0] != "many"@[0]); assert("both"@.len() != "one"@.len()); assert("bs"@.len() != "data"@.len()); assert("bs"@[0] != "hs"@[0]); assert("bs"@.len() != "lnk"@.len()); assert("bs"@.len() != "many"@.len()); assert("bs"@.len() != "one"@.len()); assert("data"@.len() != "hs"@.len()); assert("data"@.len() != "lnk"@.len()); assert("data"@[0] != "many"@[0]); assert("data"@.len() != "one"@.len()); assert("hs"@.len() != "lnk"@.len()); assert("hs"@.len() != "many"@.len()); assert("hs"@.len() != "one"@.len()); assert("lnk"@.len() != "many"@.len()); assert("lnk"@[0] != "one"@[0]); assert("many"@.len() != "one"@.len()); }
@*/
/*@fn gen:ga.rs P as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("both"); reveal_strlit("bs"); reveal_strlit("data"); reveal_strlit("hs"); reveal_strlit("lnk"); reveal_strlit("many"); reveal_strlit("one"); assert("both"@.len() != "bs"@.len()); assert("both"@[0] != "data"@[0]); assert("both"@.len() != "hs"@.len()); assert("both"@.len() != "lnk"@.len()); assert("both"@[0] != "many"@[0]); assert("both"@.len() != "one"@.len()); assert("bs"@.len() != "data"@.len()); assert("bs"@[0] != "hs"@[0]); assert("bs"@.len() != "lnk"@.len()); assert("bs"@.len() != "many"@.len()); assert("bs"@.len() != "one"@.len()); assert("data"@.len() != "hs"@.len()); assert("data"@.len() != "lnk"@.len()); assert("data"@[0] != "many"@[0]); assert("data"@.len() != "one"@.len()); assert("hs"@.len() != "lnk"@.len()); assert("hs"@.len() != "many"@.len()); assert("hs"@.len() != "one"@.len()); assert("lnk"@.len() != "many"@.len()); assert("lnk"@[0] != "one"@[0]); assert("many"@.len() != "one"@.len()); }
@*/
/*@fn gen:ga.rs P as TypedNode::to_source
#props C12
@*/
/*@fn gen:ga.rs P as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:ga.rs P as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is One { assert(vf_ret@.contains(PLoGMirror::One)); assert(vf_ret@.contains(PLoGMirror::Lnk)); assert(vf_ret@.contains(PLoGMirror::Both)); }
    if input is Many { assert(vf_ret@.contains(PLoGMirror::Many)); assert(vf_ret@.contains(PLoGMirror::Lnk)); }
    if input is Hs { assert(vf_ret@.contains(PLoGMirror::Hs)); }
    if input is Bs { assert(vf_ret@.contains(PLoGMirror::Bs)); }
  }
@*/
}
// ---------------- Q ----------------
/*@struct gen:ga.rs Q
@*/
/*@enum gen:ga.rs QSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ga.rs QLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ga.rs QLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_q { pub use super::*; }
pub struct QData { pub s: String, }
impl TypedSpec for Q {
  type Source = QSource;
  type LinkMirror = QLinkMirror;
  type LoGMirror = QLoGMirror;
  type DataT = QData;
  open spec fn links(&self) -> ISet<(NodeIndex, QSource)> {
    ISet::new(|p: (NodeIndex, QSource)| p.0.0 != 0 && match p.1 {
      QSource::Back => self.back@.contains(p.0),
    })
  }
  open spec fn data(&self) -> QData { QData { s: self.s, } }
  open spec fn place_ok(d: QData, s: QSource) -> bool { match s {
      QSource::Back => true,
  } }
  open spec fn single(s: QSource) -> bool { match s {
      QSource::Back => false,
  } }
  open spec fn mirror(s: QSource) -> QLinkMirror { match s {
      QSource::Back => QLinkMirror::Back,
  } }
  open spec fn source(l: QLinkMirror) -> QSource { match l {
      QLinkMirror::Back => QSource::Back,
  } }
  open spec fn is_vec(l: QLinkMirror) -> bool { match l {
      QLinkMirror::Back => false,
  } }
  open spec fn is_field(l: QLinkMirror) -> bool { true }
  open spec fn in_log(g: QLoGMirror, l: QLinkMirror) -> bool { match (g, l) {
    (QLoGMirror::Back, QLinkMirror::Back) => true,
    (QLoGMirror::Rev, QLinkMirror::Back) => true,
    _ => false,
  } }
  open spec fn has(&self, l: QLinkMirror, x: NodeIndex) -> bool { match l {
      QLinkMirror::Back => self.back@.contains(x),
  } }
  open spec fn cnt_of(&self, l: QLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      QLinkMirror::Back => if self.back@.contains(x) { 1 } else { 0 },
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "rev"@ { self.cnt_of(QLinkMirror::Back, x) } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<QLinkMirror> { if name == "back"@ { Some(QLinkMirror::Back) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<QLoGMirror> { if name == "back"@ { Some(QLoGMirror::Back) } else if name == "rev"@ { Some(QLoGMirror::Rev) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { if name == "s"@ { vf_any::<String, T>(self.s) } else { None } }
  open spec fn names() -> Seq<&'static str> { seq!["back"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Set] }
  open spec fn mirrors() -> Seq<QLinkMirror> { seq![QLinkMirror::Back] }
  open spec fn dnames() -> Seq<&'static str> { seq!["s"] }
  proof fn law_has(&self, l: QLinkMirror, x: NodeIndex) {
    if l is Back && self.has(l, x) { assert(self.links().contains((x, QSource::Back))); }
  }
}
impl QSource {
/*@fn gen:ga.rs QSource::to_link_mirror
#props C12
#ensures
  r == Q::mirror(self),
@*/
}
impl QLinkMirror {
/*@fn gen:ga.rs QLinkMirror::to_source
#props C12
#requires[T]
  !Q::is_vec(self),
#ensures
  r == Q::source(self), !Q::is_vec(self),
@*/
}
impl QLoGMirror {
/*@fn gen:ga.rs QLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> Q::in_log(self, #[trigger] r@[i]),
  forall|l: QLinkMirror| #[trigger] Q::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is Back { assert(vf_ret@.contains(QLinkMirror::Back)); }
    if self is Rev { assert(vf_ret@.contains(QLinkMirror::Back)); }
  }
@*/
}
impl TypedNode for Q {
/*@fn gen:ga.rs Q as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.back before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.back
  forall|p: (NodeIndex, QSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == QSource::Back && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.back begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.back after
  proof { met_all(self.back@, vf_all$n); }
#end
  proof {
    assert forall|p: (NodeIndex, QSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:ga.rs Q as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.back before
  proof { met_none(vf_all$n); }
#loop @self.back
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.back begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.back after
  proof { met_all(self.back@, vf_all$n); }
@*/
/*@fn gen:ga.rs Q as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();

  }
#end
  proof { assert forall|p: (NodeIndex, QSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == QSource::Back); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:ga.rs Q as TypedNode::add_link
#props C12 C04
#start
  proof {

  }
#end
  proof { assert forall|p: (NodeIndex, QSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == QSource::Back); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:ga.rs Q as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, QSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == QSource::Back); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:ga.rs Q as TypedNode::contains_link
#props C12 C04
@*/
/*@fn gen:ga.rs Q as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:ga.rs Q as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:ga.rs Q as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:ga.rs Q as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:ga.rs Q as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("back"); reveal_strlit("rev"); reveal_strlit("s"); assert("back"@.len() != "rev"@.len()); assert("back"@.len() != "s"@.len()); assert("rev"@.len() != "s"@.len()); }
@*/
/*@fn gen:ga.rs Q as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("back"); reveal_strlit("rev"); reveal_strlit("s"); assert("back"@.len() != "rev"@.len()); assert("back"@.len() != "s"@.len()); assert("rev"@.len() != "s"@.len()); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:ga.rs Q as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("back"); reveal_strlit("rev"); reveal_strlit("s"); assert("back"@.len() != "rev"@.len()); assert("back"@.len() != "s"@.len()); assert("rev"@.len() != "s"@.len()); }
@*/
/*@fn gen:ga.rs Q as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("back"); reveal_strlit("rev"); reveal_strlit("s"); assert("back"@.len() != "rev"@.len()); assert("back"@.len() != "s"@.len()); assert("rev"@.len() != "s"@.len()); }
@*/
/*@fn gen:ga.rs Q as TypedNode::to_source
#props C12
@*/
/*@fn gen:ga.rs Q as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:ga.rs Q as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is Back { assert(vf_ret@.contains(QLoGMirror::Back)); assert(vf_ret@.contains(QLoGMirror::Rev)); }
  }
@*/
}
// ---------------- Ga ----------------
/*@enum gen:ga.rs Ga
@*/
/*@enum gen:ga.rs GaDiscriminant
#props C07 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ga.rs GaSourceEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ga.rs GaLinkMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ga.rs GaLoGMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_ga { pub use super::*; }
pub enum GaData { P(PData), Q(QData), }
impl NodeDiscriminant for GaDiscriminant {
  open spec fn vf_first() -> Self { GaDiscriminant::P }
  open spec fn vf_succ(self) -> Option<Self> { match self { GaDiscriminant::P => Some(GaDiscriminant::Q), GaDiscriminant::Q => None, } }
/*@fn gen:ga.rs GaDiscriminant as NodeDiscriminant::first
#props C07
@*/
/*@fn gen:ga.rs GaDiscriminant as NodeDiscriminant::next
#props C07
@*/
}
impl Discriminated<GaDiscriminant> for Ga {
  open spec fn disc(&self) -> GaDiscriminant { match self { Ga::P(_) => GaDiscriminant::P, Ga::Q(_) => GaDiscriminant::Q, } }
/*@fn gen:ga.rs Ga as Discriminated::discriminant
#props C07 C12
@*/
}
impl NodeSpec for Ga {
  type SourceEnum = GaSourceEnum;
  type LinkMirrorEnum = GaLinkMirrorEnum;
  type LoGMirrorEnum = GaLoGMirrorEnum;
  type Discriminant = GaDiscriminant;
  type DataT = GaData;
  open spec fn links(&self) -> ISet<(NodeIndex, GaSourceEnum)> {
    ISet::new(|p: (NodeIndex, GaSourceEnum)| match (*self, p.1) {
      (Ga::P(x), GaSourceEnum::P(s)) => x.links().contains((p.0, s)),
      (Ga::Q(x), GaSourceEnum::Q(s)) => x.links().contains((p.0, s)),
      _ => false,
    })
  }
  open spec fn data(&self) -> GaData { match self {
    Ga::P(x) => GaData::P(x.data()),
    Ga::Q(x) => GaData::Q(x.data()),
  } }
  open spec fn place_ok(d: GaData, s: GaSourceEnum) -> bool { match (d, s) {
    (GaData::P(d), GaSourceEnum::P(s)) => P::place_ok(d, s),
    (GaData::Q(d), GaSourceEnum::Q(s)) => Q::place_ok(d, s),
    _ => false,
  } }
  open spec fn single(s: GaSourceEnum) -> bool { match s {
    GaSourceEnum::P(s) => P::single(s),
    GaSourceEnum::Q(s) => Q::single(s),
  } }
  open spec fn mirror(s: GaSourceEnum) -> GaLinkMirrorEnum { match s {
    GaSourceEnum::P(s) => GaLinkMirrorEnum::P(P::mirror(s)),
    GaSourceEnum::Q(s) => GaLinkMirrorEnum::Q(Q::mirror(s)),
  } }
  open spec fn source(l: GaLinkMirrorEnum) -> GaSourceEnum { match l {
    GaLinkMirrorEnum::P(l) => GaSourceEnum::P(P::source(l)),
    GaLinkMirrorEnum::Q(l) => GaSourceEnum::Q(Q::source(l)),
  } }
  open spec fn is_vec(l: GaLinkMirrorEnum) -> bool { match l {
    GaLinkMirrorEnum::P(l) => P::is_vec(l),
    GaLinkMirrorEnum::Q(l) => Q::is_vec(l),
  } }
  open spec fn is_field(l: GaLinkMirrorEnum) -> bool { match l {
    GaLinkMirrorEnum::P(l) => P::is_field(l),
    GaLinkMirrorEnum::Q(l) => Q::is_field(l),
  } }
  open spec fn owner(l: GaLinkMirrorEnum) -> GaDiscriminant { match l {
    GaLinkMirrorEnum::P(_) => GaDiscriminant::P,
    GaLinkMirrorEnum::Q(_) => GaDiscriminant::Q,
  } }
  open spec fn logs(l: GaLinkMirrorEnum) -> ISet<GaLoGMirrorEnum> {
    ISet::new(|g: GaLoGMirrorEnum| match (l, g) {
      (GaLinkMirrorEnum::P(l), GaLoGMirrorEnum::P(g)) => P::is_field(l) && P::in_log(g, l),
      (GaLinkMirrorEnum::Q(l), GaLoGMirrorEnum::Q(g)) => Q::is_field(l) && Q::in_log(g, l),
      _ => false,
    })
  }
  open spec fn bd_log(g: GaLoGMirrorEnum) -> ISet<GaLinkMirrorEnum> {
    ISet::new(|m: GaLinkMirrorEnum| match (g, m) {
      (GaLoGMirrorEnum::P(PLoGMirror::One), GaLinkMirrorEnum::Q(QLinkMirror::Back)) => true,
      (GaLoGMirrorEnum::Q(QLoGMirror::Back), GaLinkMirrorEnum::P(PLinkMirror::One)) => true,
      _ => false,
    })
  }
  open spec fn allowed_log(g: GaLoGMirrorEnum, d: GaDiscriminant) -> bool { match g {
    GaLoGMirrorEnum::P(PLoGMirror::Many) => d is Q,
    _ => true,
  } }
  open spec fn member(d: GaDiscriminant, name: Seq<char>) -> bool { if name == "first"@ { d is P } else if name == "all"@ { d is P || d is Q } else { false } }
  proof fn law_links(&self, y: NodeIndex, s: GaSourceEnum) { }
  proof fn law_single(&self, y: NodeIndex, z: NodeIndex, s: GaSourceEnum) { }
  proof fn law_data(&self, o: &Self) { }
  proof fn law_mirror(l: GaLinkMirrorEnum, s: GaSourceEnum) { }
  proof fn law_bd(g: GaLoGMirrorEnum, m: GaLinkMirrorEnum) { }
}
/// field m belongs to link or group g
pub open spec fn covers(g: GaLoGMirrorEnum, m: GaLinkMirrorEnum) -> bool { match (g, m) {
    (GaLoGMirrorEnum::P(g), GaLinkMirrorEnum::P(m)) => P::in_log(g, m),
    (GaLoGMirrorEnum::Q(g), GaLinkMirrorEnum::Q(m)) => Q::in_log(g, m),
  _ => false,
} }
#[verifier::opaque]
pub open spec fn covered(s: Seq<GaLoGMirrorEnum>, n: nat, m: GaLinkMirrorEnum) -> bool decreases n { n > 0 && (covered(s, (n - 1) as nat, m) || covers(s[n - 1], m)) }
pub proof fn covered_none(s: Seq<GaLoGMirrorEnum>) ensures forall|m: GaLinkMirrorEnum| !#[trigger] covered(s, 0, m) { reveal(covered); }
pub proof fn covered_step(s: Seq<GaLoGMirrorEnum>, n: nat)
  requires n < s.len()
  ensures forall|m: GaLinkMirrorEnum| #[trigger] covered(s, n + 1, m) <==> covered(s, n, m) || covers(s[n as int], m)
{ reveal(covered); }
pub open spec fn cnt_in(n: Ga, l: GaLinkMirrorEnum, x: NodeIndex) -> nat { match (n, l) {
    (Ga::P(n), GaLinkMirrorEnum::P(l)) => n.cnt_of(l, x),
    (Ga::Q(n), GaLinkMirrorEnum::Q(l)) => n.cnt_of(l, x),
  _ => 0,
} }
pub proof fn has_link_is(n: Ga, l: GaLinkMirrorEnum, x: NodeIndex)
  requires x.0 != 0
  ensures has_link(n, l, x) == match (n, l) {
    (Ga::P(n), GaLinkMirrorEnum::P(l)) => n.has(l, x),
    (Ga::Q(n), GaLinkMirrorEnum::Q(l)) => n.has(l, x),
    _ => false,
  }
{
  match (n, l) {
    (Ga::P(v), GaLinkMirrorEnum::P(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: PSource| #[trigger] v.links().contains((x, s)) && P::mirror(s) == k; assert(n.links().contains((x, GaSourceEnum::P(s)))); }
      if has_link(n, l, x) { let s = choose|s: GaSourceEnum| #[trigger] n.links().contains((x, s)) && Ga::mirror(s) == l; assert(v.links().contains((x, s->P_0))); }
    },
    (Ga::Q(v), GaLinkMirrorEnum::Q(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: QSource| #[trigger] v.links().contains((x, s)) && Q::mirror(s) == k; assert(n.links().contains((x, GaSourceEnum::Q(s)))); }
      if has_link(n, l, x) { let s = choose|s: GaSourceEnum| #[trigger] n.links().contains((x, s)) && Ga::mirror(s) == l; assert(v.links().contains((x, s->Q_0))); }
    },
    _ => { },
  }
}
impl NodeEnum for Ga {
/*@fn gen:ga.rs Ga as NodeEnum::iter_sources
#props C12 C02 C15 C14 C09
#box id
#loop @SourceEnum::P
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GaSourceEnum::P(vf_all$n[j].1)),
#loop @SourceEnum::P after
  proof { lift_sources::<PSource, GaSourceEnum>(self->P_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: PSource| GaSourceEnum::P(s), |t: GaSourceEnum| t->P_0); }
#loop @SourceEnum::Q
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GaSourceEnum::Q(vf_all$n[j].1)),
#loop @SourceEnum::Q after
  proof { lift_sources::<QSource, GaSourceEnum>(self->Q_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: QSource| GaSourceEnum::Q(s), |t: GaSourceEnum| t->Q_0); }
@*/
/*@fn gen:ga.rs Ga as NodeEnum::modify_link
#props C12 C01 C02 C03 C04 C09
#ensures
  forall|m: GaLinkMirrorEnum| #[trigger] r.bd_link_mirrors@.contains(m) <==> bd_of::<Self>(Self::mirror(source)).contains(m),
#start
  proof {
    if *self is P && source is P { assert((*self)->P_0.links().contains((old_idx, source->P_0)) == self.links().contains((old_idx, source))); assert((*self)->P_0.links().contains((new_idx, source->P_0)) == self.links().contains((new_idx, source))); }
    if *self is Q && source is Q { assert((*self)->Q_0.links().contains((old_idx, source->Q_0)) == self.links().contains((old_idx, source))); assert((*self)->Q_0.links().contains((new_idx, source->Q_0)) == self.links().contains((new_idx, source))); }
  }
#end
  proof { assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:ga.rs Ga as NodeEnum::add_link
#props C12 C04
#start
  proof {
    if *self is P && link is P { assert(Self::single(Self::source(link)) == P::single(P::source(link->P_0))); assert forall|z: NodeIndex| #[trigger] (*self)->P_0.links().contains((z, P::source(link->P_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is Q && link is Q { assert(Self::single(Self::source(link)) == Q::single(Q::source(link->Q_0))); assert forall|z: NodeIndex| #[trigger] (*self)->Q_0.links().contains((z, Q::source(link->Q_0))) implies self.links().contains((z, Self::source(link))) by { } }
  }
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); } }
@*/
/*@fn gen:ga.rs Ga as NodeEnum::remove_link
#props C12 C04
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); } }
@*/
/*@fn gen:ga.rs Ga as NodeEnum::contains_link
#props C12 C04
#start
  proof { if target.0 != 0 { has_link_is(*self, link, target); } }
@*/
/*@fn gen:ga.rs Ga as NodeEnum::in_group
#props C13 C07
#start
  proof { reveal_strlit("first"); reveal_strlit("all"); assert("first"@.len() != "all"@.len()); }
@*/
/*@fn gen:ga.rs Ga as NodeEnum::to_source_enum
#props C12
@*/
/*@fn gen:ga.rs Ga as NodeEnum::to_link_mirror_enum
#props C12
@*/
/*@fn gen:ga.rs Ga as NodeEnum::to_log_mirror_enums
#props C13 C04 C05
#loop @LoGMirrorEnum::P
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GaLoGMirrorEnum::P(*vf_all$n[j]),
#loop @LoGMirrorEnum::P after
  proof { assert forall|g: GaLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(P::in_log(*vf_all$n[j], input->P_0)); }
    if Self::logs(input).contains(g) { assert(P::in_log(g->P_0, input->P_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->P_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::Q
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GaLoGMirrorEnum::Q(*vf_all$n[j]),
#loop @LoGMirrorEnum::Q after
  proof { assert forall|g: GaLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(Q::in_log(*vf_all$n[j], input->Q_0)); }
    if Self::logs(input).contains(g) { assert(Q::in_log(g->Q_0, input->Q_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->Q_0; assert(vf_acc$n@[j] == g); }
  } }
@*/
/*@fn gen:ga.rs Ga as NodeEnum::get_bidiretional_link_mirrors_of_log
#props C04 C13
#loop @].into_iter().Self::expand_link_groups before
  proof { covered_none(vf_all$n); }
#loop @].into_iter().Self::expand_link_groups
  forall|m: GaLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> covered(vf_all$n, vf_it$n.pos(), m),
#loop @].into_iter().Self::expand_link_groups begin
  proof { covered_step(vf_all$n, (vf_it$n.pos() - 1) as nat); }
#loop @].into_iter().Self::expand_link_groups after
  proof { assert forall|m: GaLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> Self::bd_log(link).contains(m) by { reveal_with_fuel(covered, 8); } }
#loop @expand_link_groups before
  let ghost vf_pre$n = vf_acc$p@;
  proof { take_none(vf_all$n); }
#loop @expand_link_groups
  forall|m: GaLinkMirrorEnum| #[trigger] vf_acc$p@.contains(m) <==> vf_pre$n.contains(m) || vf_all$n.take(vf_it$n.pos() as int).contains(m),
#loop @expand_link_groups begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @expand_link_groups after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:ga.rs Ga as NodeEnum::check_link_type_by_group
#props C05 C13
@*/
/*@fn gen:ga.rs Ga as NodeEnum::match_bd_link_group
#props C04 C13
#loop @LinkMirrorEnum::P before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::P
  forall|l: GaLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GaDiscriminant::P,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::P begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::P after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::Q before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::Q
  forall|l: GaLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GaDiscriminant::Q,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::Q begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::Q after
  proof { take_all(vf_all$n); }
@*/
}
impl Ga {
/*@fn gen:ga.rs Ga as NodeEnum::iter_links
#props C12
#requires[T]
  Self::owner(link) == self.disc(),
#ensures
  Self::owner(link) == self.disc(), r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == cnt_in(*self, link, x),
#replace
  Self::SourceEnum =>> GaSourceEnum
  Self::LinkMirrorEnum =>> GaLinkMirrorEnum
  Self::LoGMirrorEnum =>> GaLoGMirrorEnum
@*/
/*@fn gen:ga.rs Ga as NodeEnum::check_link
#props C12
#ensures
  r == (Self::owner(link) == self.disc()),
#replace
  Self::SourceEnum =>> GaSourceEnum
  Self::LinkMirrorEnum =>> GaLinkMirrorEnum
  Self::LoGMirrorEnum =>> GaLoGMirrorEnum
@*/
/*@fn gen:ga.rs Ga as NodeEnum::get_links_by_name
#props C12 C13 C07
#ensures
  r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == (match self {
    Ga::P(n) => match P::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    Ga::Q(n) => match Q::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
  }),
#replace
  Self::SourceEnum =>> GaSourceEnum
  Self::LinkMirrorEnum =>> GaLinkMirrorEnum
  Self::LoGMirrorEnum =>> GaLoGMirrorEnum
@*/
/*@fn gen:ga.rs Ga as NodeEnum::get_links_by_group
#props C13 C07
#ensures
  forall|x: NodeIndex| #[trigger] cnt(r@, x) == (match self {
    Ga::P(n) => n.grp_cnt(name@, x),
    Ga::Q(n) => n.grp_cnt(name@, x),
  }),
#replace
  Self::SourceEnum =>> GaSourceEnum
  Self::LinkMirrorEnum =>> GaLinkMirrorEnum
  Self::LoGMirrorEnum =>> GaLoGMirrorEnum
@*/
/*@fn gen:ga.rs Ga as NodeEnum::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<T>(&self, name: &'static str) -> (r: Option<&T>)
#ensures
  r is Some == (match self {
    Ga::P(n) => n.dref::<T>(name@),
    Ga::Q(n) => n.dref::<T>(name@),
  }) is Some,
  r is Some ==> Some(*r->0) == (match self {
    Ga::P(n) => n.dref::<T>(name@),
    Ga::Q(n) => n.dref::<T>(name@),
  }),
#replace
  Self::SourceEnum =>> GaSourceEnum
  Self::LinkMirrorEnum =>> GaLinkMirrorEnum
  Self::LoGMirrorEnum =>> GaLoGMirrorEnum
@*/
/*@fn gen:ga.rs Ga as NodeEnum::expand_link_groups
#props C13 C04
#ensures
  forall|m: GaLinkMirrorEnum| (Self::is_field(m)) ==> (#[trigger] r@.contains(m) <==> covers(input, m)),
#loop @LinkMirrorEnum::P
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GaLinkMirrorEnum::P(*vf_all$n[j]),
#loop @LinkMirrorEnum::P after
  proof { assert forall|m: GaLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(P::in_log(input->P_0, *vf_all$n[j]) || !P::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(P::in_log(input->P_0, m->P_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->P_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::Q
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GaLinkMirrorEnum::Q(*vf_all$n[j]),
#loop @LinkMirrorEnum::Q after
  proof { assert forall|m: GaLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(Q::in_log(input->Q_0, *vf_all$n[j]) || !Q::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(Q::in_log(input->Q_0, m->Q_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->Q_0; assert(vf_acc$n@[j] == m); }
  } }
#replace
  Self::SourceEnum =>> GaSourceEnum
  Self::LinkMirrorEnum =>> GaLinkMirrorEnum
  Self::LoGMirrorEnum =>> GaLoGMirrorEnum
@*/
}
// ---------------- GaArena ----------------
/*@struct gen:ga.rs GaArena
@*/
/*@struct gen:ga.rs GaIter
@*/
/*@struct gen:ga.rs GaIntoIter
@*/
impl ArenaSpec for GaArena {
  type V = Ga;
  type D = GaDiscriminant;
  open spec fn disp(&self) -> IMap<NodeIndex, GaDiscriminant> { self._dispatcher@ }
  open spec fn cont(&self, d: GaDiscriminant) -> IMap<usize, Ga> { match d { GaDiscriminant::P => self.p@, GaDiscriminant::Q => self.q@, } }
  open spec fn dist(&self) -> IdDistributer { self._id_distributer }
}
/// a type's container holds the nodes of that type, and no index is in two containers
pub proof fn parts(a: GaArena)
  requires arena_wf(a)
  ensures nodes_of(a) == lift(a.p@).union_prefer_right(lift(a.q@)),
    lift(a.p@).dom().disjoint(lift(a.q@).dom()),
{
  reveal(arena_wf); reveal(nodes_of);
  assert forall|i: NodeIndex| #[trigger] lift(a.p@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GaDiscriminant::P by { assert(lift(a.p@).contains_key(i) == a.cont(GaDiscriminant::P).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.q@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GaDiscriminant::Q by { assert(lift(a.q@).contains_key(i) == a.cont(GaDiscriminant::Q).contains_key(i.0)); }
  assert forall|i: NodeIndex| !(lift(a.p@).dom().contains(i) && lift(a.q@).dom().contains(i)) by { assert(lift(a.p@).contains_key(i) ==> a.disp()[i] == GaDiscriminant::P); assert(lift(a.q@).contains_key(i) ==> a.disp()[i] == GaDiscriminant::Q); }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) == lift(a.p@).union_prefer_right(lift(a.q@)).contains_key(i) by {
    assert(lift(a.p@).contains_key(i) ==> a.disp()[i] == GaDiscriminant::P); assert(lift(a.q@).contains_key(i) ==> a.disp()[i] == GaDiscriminant::Q);
  }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) implies nodes_of(a)[i] == lift(a.p@).union_prefer_right(lift(a.q@))[i] by {
    assert(lift(a.p@).contains_key(i) ==> a.disp()[i] == GaDiscriminant::P); assert(lift(a.q@).contains_key(i) ==> a.disp()[i] == GaDiscriminant::Q);
  }
  assert(nodes_of(a) =~= lift(a.p@).union_prefer_right(lift(a.q@)));
}
impl<'a> GaIter<'a> {
  pub open spec fn ok(&self) -> bool { self.p.pos() <= self.p.all().len() && self.q.pos() <= self.q.all().len() && (self.stage() < 2 ==> self.p.pos() == self.p.all().len()) && (self.stage() < 1 ==> self.q.pos() == self.q.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, &'a Ga)> { match self._iter_state {
    Some(GaDiscriminant::P) => (left(self.p) + left(self.q)), Some(GaDiscriminant::Q) => left(self.q),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GaDiscriminant::P) => 2, Some(GaDiscriminant::Q) => 1, None => 0 } }
/*@fn gen:ga.rs GaIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, &'a Ga)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GaDiscriminant::P) && self.p.pos() >= self.p.all().len() { assert(left(self.p).len() == 0); } if self._iter_state == Some(GaDiscriminant::Q) && self.q.pos() >= self.q.all().len() { assert(left(self.q).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GaDiscriminant::P) && old(self).p.pos() < old(self).p.all().len() { assert(left(self.p) =~= left(old(self).p).skip(1)); assert(left(old(self).p)[0] == vf_ret->0); } if old(self)._iter_state == Some(GaDiscriminant::Q) && old(self).q.pos() < old(self).q.all().len() { assert(left(self.q) =~= left(old(self).q).skip(1)); assert(left(old(self).q)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:ga.rs GaIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); assert(left(self.p).len() == vf_all0[0].0); assert(left(self.q).len() == vf_all0[1].0); }
@*/
}
impl GaIntoIter {
  pub open spec fn ok(&self) -> bool { self.p.pos() <= self.p.all().len() && self.q.pos() <= self.q.all().len() && (self.stage() < 2 ==> self.p.pos() == self.p.all().len()) && (self.stage() < 1 ==> self.q.pos() == self.q.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, Ga)> { match self._iter_state {
    Some(GaDiscriminant::P) => (left_own(self.p) + left_own(self.q)), Some(GaDiscriminant::Q) => left_own(self.q),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GaDiscriminant::P) => 2, Some(GaDiscriminant::Q) => 1, None => 0 } }
/*@fn gen:ga.rs GaIntoIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, Ga)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GaDiscriminant::P) && self.p.pos() >= self.p.all().len() { assert(left_own(self.p).len() == 0); } if self._iter_state == Some(GaDiscriminant::Q) && self.q.pos() >= self.q.all().len() { assert(left_own(self.q).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GaDiscriminant::P) && old(self).p.pos() < old(self).p.all().len() { assert(left_own(self.p) =~= left_own(old(self).p).skip(1)); assert(left_own(old(self).p)[0] == vf_ret->0); } if old(self)._iter_state == Some(GaDiscriminant::Q) && old(self).q.pos() < old(self).q.all().len() { assert(left_own(self.q) =~= left_own(old(self).q).skip(1)); assert(left_own(old(self).q)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:ga.rs GaIntoIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); assert(left_own(self.p).len() == vf_all0[0].0); assert(left_own(self.q).len() == vf_all0[1].0); }
@*/
}
impl GaArena {
/*@fn gen:ga.rs GaArena as CateArena::iter
#props C07
#sig
fn gen_iter<'a>(&'a self) -> (r: GaIter<'a>)
#requires
  arena_wf(*self),
#ensures
  r.ok(), seq_of_map_kref(nodes_of(*self), r.rest()),
#start
  let ghost vf_a = *self;
#end
  proof { parts(vf_a); left_ok(vf_a.p@, vf_ret.p); left_ok(vf_a.q@, vf_ret.q); cat_ok(lift(vf_a.p@), left(vf_ret.p), lift(vf_a.q@), left(vf_ret.q)); }
#replace
  Self::IntoIter =>> GaIntoIter
  Self::Iter =>> GaIter
  Self::D =>> GaDiscriminant
@*/
/*@fn gen:ga.rs GaArena as CateArena::into_iter
#props C07 C10
#sig
fn gen_into_iter(self) -> (r: GaIntoIter)
#requires
  arena_wf(self),
#ensures
  r.ok(), seq_of_map(nodes_of(self), r.rest()),
#start
  let ghost vf_a = self;
#end
  proof { parts(vf_a); left_own_ok(vf_a.p@, vf_ret.p); left_own_ok(vf_a.q@, vf_ret.q); cat_own_ok(lift(vf_a.p@), left_own(vf_ret.p), lift(vf_a.q@), left_own(vf_ret.q)); }
#replace
  Self::IntoIter =>> GaIntoIter
  Self::Iter =>> GaIter
  Self::D =>> GaDiscriminant
@*/
}
impl CateArena for GaArena {
  // what a loop over the arena's iterator visits
  #[verifier::loop_isolation(true)]
  fn vf_iter<'a>(&'a self) -> VIter<(NodeIndex, &'a Ga)> {
    let mut it = self.gen_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
  #[verifier::loop_isolation(true)]
  fn vf_into_iter(self) -> VIter<(NodeIndex, Ga)> {
    let mut it = self.gen_into_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
/*@fn gen:ga.rs GaArena as CateArena::new
#props C07 C09
@*/
/*@fn gen:ga.rs GaArena as CateArena::new_from_iter
#props C07 C10
#start
  proof { reveal(arena_wf); reveal(nodes_of); }
#loop @* before
  proof { assert(nodes_of(result) =~= upto(vf_all$n, 0)); }
#loop @*
  arena_wf(result), result.dist() == id_distributer, nodes_of(result) == upto(vf_all$n, vf_it$n.pos()),
  forall|k: NodeIndex| #[trigger] result.disp().contains_key(k) <==> upto(vf_all$n, vf_it$n.pos()).contains_key(k),
#loop @* begin
  let ghost vf_pre = result;
  proof {
    upto_has(vf_all$n, (vf_it$n.pos() - 1) as nat);
    let ghost vf_i = vf_all$n[vf_it$n.pos() - 1].0;
    assert(NodeIndex(vf_i.0) == vf_i);
    assert(!result.cont(GaDiscriminant::P).contains_key(vf_i.0)); assert(!result.cont(GaDiscriminant::Q).contains_key(vf_i.0));
  }
#loop @* end
  proof { assert forall|d: GaDiscriminant, k: usize| #[trigger] result.cont(d).contains_key(k) implies result.disp().contains_key(NodeIndex(k)) && result.disp()[NodeIndex(k)] == d && result.cont(d)[k].disc() == d by {
    assert(vf_pre.cont(d).contains_key(k) || NodeIndex(k) == vf_all$n[vf_it$n.pos() - 1].0);
  } }
  proof { assert(nodes_of(result) =~= upto(vf_all$n, vf_it$n.pos())); }
#loop @* after
  proof { upto_has(vf_all$n, vf_all$n.len()); }
@*/
/*@fn gen:ga.rs GaArena as CateArena::dispatch
#props C07
@*/
/*@fn gen:ga.rs GaArena as CateArena::get_container
#props C07
@*/
/*@fn gen:ga.rs GaArena as CateArena::get_container_mut
#props C07 C03
@*/
/*@fn gen:ga.rs GaArena as CateArena::alloc
#props C06 C08
#mode P
@*/
/*@fn gen:ga.rs GaArena as CateArena::alloc_untyped
#props C06 C08
@*/
/*@fn gen:ga.rs GaArena as CateArena::fill_back_untyped
#props C08 C07
#start
  proof {
    reveal(arena_wf); reveal(nodes_of); assert(NodeIndex(i.0) == i);
    assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GaDiscriminant::P).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GaDiscriminant::Q).contains_key(i.0));
  }
#end
  proof {
    assert forall|d: GaDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i); assert(NodeIndex(k) == i ==> !old(self).cont(d).contains_key(k));
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(i, item));
  }
@*/
/*@fn gen:ga.rs GaArena as CateArena::remove
#props C07 C03
#start
  proof { reveal(arena_wf); reveal(nodes_of); reveal(arena_wf_ex); }
#end
  proof {
    assert forall|d: GaDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i);
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).remove(i));
  }
@*/
/*@fn gen:ga.rs GaArena as CateArena::merge
#props C03 C07 C11
#start
  let ghost vf_o = other;
  proof { reveal(arena_wf); reveal(nodes_of); }
#end
  proof {
    assert forall|d: GaDiscriminant, i: usize| #[trigger] self.cont(d).contains_key(i) implies self.disp().contains_key(NodeIndex(i)) && self.disp()[NodeIndex(i)] == d && self.cont(d)[i].disc() == d by {
      assert(old(self).cont(d).contains_key(i) || vf_o.cont(d).contains_key(i));
      if vf_o.cont(d).contains_key(i) { assert(vf_o.disp().dom().contains(NodeIndex(i))); } else { assert(old(self).disp().dom().contains(NodeIndex(i))); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) == (nodes_of(*old(self)).contains_key(i) || nodes_of(vf_o).contains_key(i)) by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GaDiscriminant::P).contains_key(i.0)); assert(!vf_o.cont(GaDiscriminant::Q).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GaDiscriminant::P).contains_key(i.0)); assert(!old(self).cont(GaDiscriminant::Q).contains_key(i.0)); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) implies nodes_of(*self)[i] == nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o))[i] by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GaDiscriminant::P).contains_key(i.0)); assert(!vf_o.cont(GaDiscriminant::Q).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GaDiscriminant::P).contains_key(i.0)); assert(!old(self).cont(GaDiscriminant::Q).contains_key(i.0)); }
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o)));
  }
@*/
/*@fn gen:ga.rs GaArena as CateArena::len
#props C07
#end
  proof {
    parts(*self);
    lift_len(self.p@); lift_len(self.q@);
    union_len(lift(self.p@).dom(), lift(self.q@).dom());
    assert(nodes_of(*self).dom() =~= lift(self.p@).dom().union(lift(self.q@).dom()));
  }
@*/
}
fn main() {}
}
