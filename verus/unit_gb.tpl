// Written by verus/gen_schemas.py. The expansion of the macros for gen/src/lib.rs, mod gb.
#![allow(unused, dead_code, non_camel_case_types)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
verus! {
/*@include prelude.rs@*/
/*@include-trusted base.inc@*/
/*@include typed.inc@*/
/*@replace
  Box<dyn std::iter::Iterator<Item = ttgraph::NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = (NodeIndex, Self::SourceEnum)>> =>> VIter<(NodeIndex, Self::SourceEnum)>
  std::vec::IntoIter< =>> VIter<
  ::alloc::vec::Vec =>> Vec
  ::ordermap::OrderSet =>> OrderSet
  ::indexmap::IndexSet =>> IndexSet
  std::collections::HashSet =>> HashSet
  std::collections::BTreeSet =>> BTreeSet
  impl std::iter::IntoIterator<Item = (ttgraph::NodeIndex, Self::V)> =>> Vec<(ttgraph::NodeIndex, Self::V)>
  <dyn std::any::Any>::downcast_ref::<TGDataRefT> =>> vf_downcast::<_, TGDataRefT>
  <X as ttgraph::TypedNode>::Source =>> XSource
  <X as ttgraph::TypedNode>::LinkMirror =>> XLinkMirror
  <X as ttgraph::TypedNode>::LoGMirror =>> XLoGMirror
  <self::super::X as ttgraph::TypedNode>::Source =>> XSource
  <self::super::X as ttgraph::TypedNode>::LinkMirror =>> XLinkMirror
  <self::super::X as ttgraph::TypedNode>::LoGMirror =>> XLoGMirror
  <X as TypedNode>::Source =>> XSource
  <X as TypedNode>::LinkMirror =>> XLinkMirror
  <X as TypedNode>::LoGMirror =>> XLoGMirror
  <self::super::X as TypedNode>::Source =>> XSource
  <self::super::X as TypedNode>::LinkMirror =>> XLinkMirror
  <self::super::X as TypedNode>::LoGMirror =>> XLoGMirror
  <Y as ttgraph::TypedNode>::Source =>> YSource
  <Y as ttgraph::TypedNode>::LinkMirror =>> YLinkMirror
  <Y as ttgraph::TypedNode>::LoGMirror =>> YLoGMirror
  <self::super::Y as ttgraph::TypedNode>::Source =>> YSource
  <self::super::Y as ttgraph::TypedNode>::LinkMirror =>> YLinkMirror
  <self::super::Y as ttgraph::TypedNode>::LoGMirror =>> YLoGMirror
  <Y as TypedNode>::Source =>> YSource
  <Y as TypedNode>::LinkMirror =>> YLinkMirror
  <Y as TypedNode>::LoGMirror =>> YLoGMirror
  <self::super::Y as TypedNode>::Source =>> YSource
  <self::super::Y as TypedNode>::LinkMirror =>> YLinkMirror
  <self::super::Y as TypedNode>::LoGMirror =>> YLoGMirror
  <Z as ttgraph::TypedNode>::Source =>> ZSource
  <Z as ttgraph::TypedNode>::LinkMirror =>> ZLinkMirror
  <Z as ttgraph::TypedNode>::LoGMirror =>> ZLoGMirror
  <self::super::Z as ttgraph::TypedNode>::Source =>> ZSource
  <self::super::Z as ttgraph::TypedNode>::LinkMirror =>> ZLinkMirror
  <self::super::Z as ttgraph::TypedNode>::LoGMirror =>> ZLoGMirror
  <Z as TypedNode>::Source =>> ZSource
  <Z as TypedNode>::LinkMirror =>> ZLinkMirror
  <Z as TypedNode>::LoGMirror =>> ZLoGMirror
  <self::super::Z as TypedNode>::Source =>> ZSource
  <self::super::Z as TypedNode>::LinkMirror =>> ZLinkMirror
  <self::super::Z as TypedNode>::LoGMirror =>> ZLoGMirror
@*/
// ---------------- X ----------------
/*@struct gen:gb.rs X
@*/
/*@enum gen:gb.rs XSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gb.rs XLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gb.rs XLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_x { pub use super::*; }
pub struct XData { pub id: u32, pub name: String, pub n_loose: nat, }
impl TypedSpec for X {
  type Source = XSource;
  type LinkMirror = XLinkMirror;
  type LoGMirror = XLoGMirror;
  type DataT = XData;
  open spec fn links(&self) -> ISet<(NodeIndex, XSource)> {
    ISet::new(|p: (NodeIndex, XSource)| p.0.0 != 0 && match p.1 {
      XSource::A => self.a == p.0,
      XSource::B => self.b@.contains(p.0),
      XSource::Peer => self.peer@.contains(p.0),
      XSource::Loose(i) => i < self.loose@.len() && self.loose@[i as int] == p.0,
    })
  }
  open spec fn data(&self) -> XData { XData { id: self.id, name: self.name, n_loose: self.loose@.len(), } }
  open spec fn place_ok(d: XData, s: XSource) -> bool { match s {
      XSource::A => true,
      XSource::B => true,
      XSource::Peer => true,
      XSource::Loose(i) => i < d.n_loose,
  } }
  open spec fn single(s: XSource) -> bool { match s {
      XSource::A => true,
      XSource::B => false,
      XSource::Peer => false,
      XSource::Loose(i) => true,
  } }
  open spec fn mirror(s: XSource) -> XLinkMirror { match s {
      XSource::A => XLinkMirror::A,
      XSource::B => XLinkMirror::B,
      XSource::Peer => XLinkMirror::Peer,
      XSource::Loose(i) => XLinkMirror::Loose,
  } }
  open spec fn source(l: XLinkMirror) -> XSource { match l {
      XLinkMirror::A => XSource::A,
      XLinkMirror::B => XSource::B,
      XLinkMirror::Peer => XSource::Peer,
      XLinkMirror::Loose => XSource::Loose(0),
  } }
  open spec fn is_vec(l: XLinkMirror) -> bool { match l {
      XLinkMirror::A => false,
      XLinkMirror::B => false,
      XLinkMirror::Peer => false,
      XLinkMirror::Loose => true,
  } }
  open spec fn is_field(l: XLinkMirror) -> bool { true }
  open spec fn in_log(g: XLoGMirror, l: XLinkMirror) -> bool { match (g, l) {
    (XLoGMirror::A, XLinkMirror::A) => true,
    (XLoGMirror::B, XLinkMirror::B) => true,
    (XLoGMirror::Peer, XLinkMirror::Peer) => true,
    (XLoGMirror::Loose, XLinkMirror::Loose) => true,
    (XLoGMirror::Src, XLinkMirror::A) => true,
    (XLoGMirror::Src, XLinkMirror::B) => true,
    (XLoGMirror::Wide, XLinkMirror::B) => true,
    (XLoGMirror::Wide, XLinkMirror::Loose) => true,
    _ => false,
  } }
  open spec fn has(&self, l: XLinkMirror, x: NodeIndex) -> bool { match l {
      XLinkMirror::A => self.a == x,
      XLinkMirror::B => self.b@.contains(x),
      XLinkMirror::Peer => self.peer@.contains(x),
      XLinkMirror::Loose => self.loose@.contains(x),
  } }
  open spec fn cnt_of(&self, l: XLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      XLinkMirror::A => if self.a == x { 1 } else { 0 },
      XLinkMirror::B => if self.b@.contains(x) { 1 } else { 0 },
      XLinkMirror::Peer => if self.peer@.contains(x) { 1 } else { 0 },
      XLinkMirror::Loose => cnt(self.loose@, x),
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "src"@ { self.cnt_of(XLinkMirror::A, x) + self.cnt_of(XLinkMirror::B, x) } else if name == "wide"@ { self.cnt_of(XLinkMirror::B, x) + self.cnt_of(XLinkMirror::Loose, x) } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<XLinkMirror> { if name == "a"@ { Some(XLinkMirror::A) } else if name == "b"@ { Some(XLinkMirror::B) } else if name == "peer"@ { Some(XLinkMirror::Peer) } else if name == "loose"@ { Some(XLinkMirror::Loose) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<XLoGMirror> { if name == "a"@ { Some(XLoGMirror::A) } else if name == "b"@ { Some(XLoGMirror::B) } else if name == "peer"@ { Some(XLoGMirror::Peer) } else if name == "loose"@ { Some(XLoGMirror::Loose) } else if name == "src"@ { Some(XLoGMirror::Src) } else if name == "wide"@ { Some(XLoGMirror::Wide) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { if name == "id"@ { vf_any::<u32, T>(self.id) } else if name == "name"@ { vf_any::<String, T>(self.name) } else { None } }
  open spec fn names() -> Seq<&'static str> { seq!["a", "b", "peer", "loose"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Point, LinkType::Set, LinkType::Set, LinkType::Vec] }
  open spec fn mirrors() -> Seq<XLinkMirror> { seq![XLinkMirror::A, XLinkMirror::B, XLinkMirror::Peer, XLinkMirror::Loose] }
  open spec fn dnames() -> Seq<&'static str> { seq!["id", "name"] }
  proof fn law_has(&self, l: XLinkMirror, x: NodeIndex) {
    if l is A && self.has(l, x) { assert(self.links().contains((x, XSource::A))); }
    if l is B && self.has(l, x) { assert(self.links().contains((x, XSource::B))); }
    if l is Peer && self.has(l, x) { assert(self.links().contains((x, XSource::Peer))); }
    if l is Loose && self.has(l, x) { let j = choose|j: int| 0 <= j < self.loose@.len() && self.loose@[j] == x; assert(self.loose.len() == self.loose@.len()); assert(self.links().contains((x, XSource::Loose(j as usize)))); }
    if l is Loose { assert forall|s: XSource| #[trigger] self.links().contains((x, s)) && Self::mirror(s) == l implies self.has(l, x) by { } }
  }
}
impl XSource {
/*@fn gen:gb.rs XSource::to_link_mirror
#props C12
#ensures
  r == X::mirror(self),
@*/
}
impl XLinkMirror {
/*@fn gen:gb.rs XLinkMirror::to_source
#props C12
#requires[T]
  !X::is_vec(self),
#ensures
  r == X::source(self), !X::is_vec(self),
@*/
}
impl XLoGMirror {
/*@fn gen:gb.rs XLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> X::in_log(self, #[trigger] r@[i]),
  forall|l: XLinkMirror| #[trigger] X::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is A { assert(vf_ret@.contains(XLinkMirror::A)); }
    if self is B { assert(vf_ret@.contains(XLinkMirror::B)); }
    if self is Peer { assert(vf_ret@.contains(XLinkMirror::Peer)); }
    if self is Loose { assert(vf_ret@.contains(XLinkMirror::Loose)); }
    if self is Src { assert(vf_ret@.contains(XLinkMirror::A)); assert(vf_ret@.contains(XLinkMirror::B)); }
    if self is Wide { assert(vf_ret@.contains(XLinkMirror::B)); assert(vf_ret@.contains(XLinkMirror::Loose)); }
  }
@*/
}
impl TypedNode for X {
/*@fn gen:gb.rs X as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.b before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.b
  forall|p: (NodeIndex, XSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == XSource::B && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.b begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.b after
  proof { met_all(self.b@, vf_all$n); }
#loop @self.peer before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.peer
  forall|p: (NodeIndex, XSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == XSource::Peer && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.peer begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.peer after
  proof { met_all(self.peer@, vf_all$n); }
#loop @self.loose before
  let ghost vf_pre$n = sources@;
#loop @self.loose
  forall|p: (NodeIndex, XSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 is Loose && p.1->Loose_0 < vf_it$n.pos() && self.loose@[p.1->Loose_0 as int] == p.0),
  sources@.no_duplicates(),
#end
  proof {
    assert forall|p: (NodeIndex, XSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:gb.rs X as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.b before
  proof { met_none(vf_all$n); }
#loop @self.b
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.b begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.b after
  proof { met_all(self.b@, vf_all$n); }
#loop @self.peer before
  proof { met_none(vf_all$n); }
#loop @self.peer
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.peer begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.peer after
  proof { met_all(self.peer@, vf_all$n); }
#loop @self.loose before
  proof { take_none(self.loose@); }
#loop @self.loose
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 == 0 { 0 } else { cnt(self.loose@.take(vf_it$n.pos() as int), x) }),
#loop @self.loose begin
  proof { cnt_take(self.loose@, vf_it$n.pos() - 1); }
#loop @self.loose after
  proof { take_all(self.loose@); }
@*/
/*@fn gen:gb.rs X as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if self.a.0 != 0 { assert(self.links().contains((self.a, XSource::A))); }
    if source is Loose { let j = source->Loose_0 as int; if self.loose@[j].0 != 0 { assert(self.links().contains((self.loose@[j], source))); } }
  }
#end
  proof { assert forall|p: (NodeIndex, XSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == XSource::A || q == XSource::B || q == XSource::Peer || q is Loose); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gb.rs X as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.a.0 != 0 { assert(self.links().contains((self.a, XSource::A))); }
  }
#end
  proof { assert forall|p: (NodeIndex, XSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == XSource::A || q == XSource::B || q == XSource::Peer || q is Loose); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:gb.rs X as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, XSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == XSource::A || q == XSource::B || q == XSource::Peer || q is Loose); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:gb.rs X as TypedNode::contains_link
#props C12 C04
#loop @self.loose before
  proof { take_none(self.loose@); }
#loop @self.loose
  vf_acc$n == self.loose@.take(vf_it$n.pos() as int).contains(target),
#loop @self.loose begin
  proof { take_step(self.loose@, vf_it$n.pos() - 1); }
#loop @self.loose after
  proof { take_all(self.loose@); }
@*/
/*@fn gen:gb.rs X as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:gb.rs X as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:gb.rs X as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:gb.rs X as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:gb.rs X as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("id"); reveal_strlit("loose"); reveal_strlit("name"); reveal_strlit("peer"); reveal_strlit("src"); reveal_strlit("wide"); assert("a"@[0] != "b"@[0]); assert("a"@.len() != "id"@.len()); assert("a"@.len() != "loose"@.len()); assert("a"@.len() != "name"@.len()); assert("a"@.len() != "peer"@.len()); assert("a"@.len() != "src"@.len()); assert("a"@.len() != "wide"@.len()); assert("b"@.len() != "id"@.len()); assert("b"@.len() != "loose"@.len()); assert("b"@.len() != "name"@.len()); assert("b"@.len() != "peer"@.len()); assert("b"@.len() != "src"@.len()); assert("b"@.len() != "wide"@.len()); assert("id"@.len() != "loose"@.len()); assert("id"@.len() != "name"@.len()); assert("id"@.len() != "peer"@.len()); assert("id"@.len() != "src"@.len()); assert("id"@.len() != "wide"@.len()); assert("loose"@.len() != "name"@.len()); assert("loose"@.len() != "peer"@.len()); assert("loose"@.len() != "src"@.len()); assert("loose"@.len() != "wide"@.len()); assert("name"@[0] != "peer"@[0]); assert("name"@.len() != "src"@.len()); assert("name"@[0] != "wide"@[0]); assert("peer"@.len() != "src"@.len()); assert("peer"@[0] != "wide"@[0]); assert("src"@.len() != "wide"@.len()); }
@*/
/*@fn gen:gb.rs X as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("id"); reveal_strlit("loose"); reveal_strlit("name"); reveal_strlit("peer"); reveal_strlit("src"); reveal_strlit("wide"); assert("a"@[0] != "b"@[0]); assert("a"@.len() != "id"@.len()); assert("a"@.len() != "loose"@.len()); assert("a"@.len() != "name"@.len()); assert("a"@.len() != "peer"@.len()); assert("a"@.len() != "src"@.len()); assert("a"@.len() != "wide"@.len()); assert("b"@.len() != "id"@.len()); assert("b"@.len() != "loose"@.len()); assert("b"@.len() != "name"@.len()); assert("b"@.len() != "peer"@.len()); assert("b"@.len() != "src"@.len()); assert("b"@.len() != "wide"@.len()); assert("id"@.len() != "loose"@.len()); assert("id"@.len() != "name"@.len()); assert("id"@.len() != "peer"@.len()); assert("id"@.len() != "src"@.len()); assert("id"@.len() != "wide"@.len()); assert("loose"@.len() != "name"@.len()); assert("loose"@.len() != "peer"@.len()); assert("loose"@.len() != "src"@.len()); assert("loose"@.len() != "wide"@.len()); assert("name"@[0] != "peer"@[0]); assert("name"@.len() != "src"@.len()); assert("name"@[0] != "wide"@[0]); assert("peer"@.len() != "src"@.len()); assert("peer"@[0] != "wide"@[0]); assert("src"@.len() != "wide"@.len()); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gb.rs X as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("id"); reveal_strlit("loose"); reveal_strlit("name"); reveal_strlit("peer"); reveal_strlit("src"); reveal_strlit("wide"); assert("a"@[0] != "b"@[0]); assert("a"@.len() != "id"@.len()); assert("a"@.len() != "loose"@.len()); assert("a"@.len() != "name"@.len()); assert("a"@.len() != "peer"@.len()); assert("a"@.len() != "src"@.len()); assert("a"@.len() != "wide"@.len()); assert("b"@.len() != "id"@.len()); assert("b"@.len() != "loose"@.len()); assert("b"@.len() != "name"@.len()); assert("b"@.len() != "peer"@.len()); assert("b"@.len() != "src"@.len()); assert("b"@.len() != "wide"@.len()); assert("id"@.len() != "loose"@.len()); assert("id"@.len() != "name"@.len()); assert("id"@.len() != "peer"@.len()); assert("id"@.len() != "src"@.len()); assert("id"@.len() != "wide"@.len()); assert("loose"@.len() != "name"@.len()); assert("loose"@.len() != "peer"@.len()); assert("loose"@.len() != "src"@.len()); assert("loose"@.len() != "wide"@.len()); assert("name"@[0] != "peer"@[0]); assert("name"@.len() != "src"@.len()); assert("name"@[0] != "wide"@[0]); assert("peer"@.len() != "src"@.len()); assert("peer"@[0] != "wide"@[0]); assert("src"@.len() != "wide"@.len()); }
@*/
/*@fn gen:gb.rs X as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("id"); reveal_strlit("loose"); reveal_strlit("name"); reveal_strlit("peer"); reveal_strlit("src"); reveal_strlit("wide"); assert("a"@[0] != "b"@[0]); assert("a"@.len() != "id"@.len()); assert("a"@.len() != "loose"@.len()); assert("a"@.len() != "name"@.len()); assert("a"@.len() != "peer"@.len()); assert("a"@.len() != "src"@.len()); assert("a"@.len() != "wide"@.len()); assert("b"@.len() != "id"@.len()); assert("b"@.len() != "loose"@.len()); assert("b"@.len() != "name"@.len()); assert("b"@.len() != "peer"@.len()); assert("b"@.len() != "src"@.len()); assert("b"@.len() != "wide"@.len()); assert("id"@.len() != "loose"@.len()); assert("id"@.len() != "name"@.len()); assert("id"@.len() != "peer"@.len()); assert("id"@.len() != "src"@.len()); assert("id"@.len() != "wide"@.len()); assert("loose"@.len() != "name"@.len()); assert("loose"@.len() != "peer"@.len()); assert("loose"@.len() != "src"@.len()); assert("loose"@.len() != "wide"@.len()); assert("name"@[0] != "peer"@[0]); assert("name"@.len() != "src"@.len()); assert("name"@[0] != "wide"@[0]); assert("peer"@.len() != "src"@.len()); assert("peer"@[0] != "wide"@[0]); assert("src"@.len() != "wide"@.len()); }
@*/
/*@fn gen:gb.rs X as TypedNode::to_source
#props C12
@*/
/*@fn gen:gb.rs X as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:gb.rs X as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is A { assert(vf_ret@.contains(XLoGMirror::A)); assert(vf_ret@.contains(XLoGMirror::Src)); }
    if input is B { assert(vf_ret@.contains(XLoGMirror::B)); assert(vf_ret@.contains(XLoGMirror::Src)); assert(vf_ret@.contains(XLoGMirror::Wide)); }
    if input is Peer { assert(vf_ret@.contains(XLoGMirror::Peer)); }
    if input is Loose { assert(vf_ret@.contains(XLoGMirror::Loose)); assert(vf_ret@.contains(XLoGMirror::Wide)); }
  }
@*/
}
// ---------------- Y ----------------
/*@struct gen:gb.rs Y
@*/
/*@enum gen:gb.rs YSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gb.rs YLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gb.rs YLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_y { pub use super::*; }
pub struct YData { pub n_yv: nat, }
impl TypedSpec for Y {
  type Source = YSource;
  type LinkMirror = YLinkMirror;
  type LoGMirror = YLoGMirror;
  type DataT = YData;
  open spec fn links(&self) -> ISet<(NodeIndex, YSource)> {
    ISet::new(|p: (NodeIndex, YSource)| p.0.0 != 0 && match p.1 {
      YSource::YA => self.y_a@.contains(p.0),
      YSource::Yb => self.yb@.contains(p.0),
      YSource::Yv(i) => i < self.yv@.len() && self.yv@[i as int] == p.0,
      YSource::Par => self.par == p.0,
      YSource::Kids => self.kids@.contains(p.0),
    })
  }
  open spec fn data(&self) -> YData { YData { n_yv: self.yv@.len(), } }
  open spec fn place_ok(d: YData, s: YSource) -> bool { match s {
      YSource::YA => true,
      YSource::Yb => true,
      YSource::Yv(i) => i < d.n_yv,
      YSource::Par => true,
      YSource::Kids => true,
  } }
  open spec fn single(s: YSource) -> bool { match s {
      YSource::YA => false,
      YSource::Yb => false,
      YSource::Yv(i) => true,
      YSource::Par => true,
      YSource::Kids => false,
  } }
  open spec fn mirror(s: YSource) -> YLinkMirror { match s {
      YSource::YA => YLinkMirror::YA,
      YSource::Yb => YLinkMirror::Yb,
      YSource::Yv(i) => YLinkMirror::Yv,
      YSource::Par => YLinkMirror::Par,
      YSource::Kids => YLinkMirror::Kids,
  } }
  open spec fn source(l: YLinkMirror) -> YSource { match l {
      YLinkMirror::YA => YSource::YA,
      YLinkMirror::Yb => YSource::Yb,
      YLinkMirror::Yv => YSource::Yv(0),
      YLinkMirror::Par => YSource::Par,
      YLinkMirror::Kids => YSource::Kids,
  } }
  open spec fn is_vec(l: YLinkMirror) -> bool { match l {
      YLinkMirror::YA => false,
      YLinkMirror::Yb => false,
      YLinkMirror::Yv => true,
      YLinkMirror::Par => false,
      YLinkMirror::Kids => false,
  } }
  open spec fn is_field(l: YLinkMirror) -> bool { true }
  open spec fn in_log(g: YLoGMirror, l: YLinkMirror) -> bool { match (g, l) {
    (YLoGMirror::YA, YLinkMirror::YA) => true,
    (YLoGMirror::Yb, YLinkMirror::Yb) => true,
    (YLoGMirror::Yv, YLinkMirror::Yv) => true,
    (YLoGMirror::Par, YLinkMirror::Par) => true,
    (YLoGMirror::Kids, YLinkMirror::Kids) => true,
    (YLoGMirror::Dst, YLinkMirror::YA) => true,
    (YLoGMirror::Dst, YLinkMirror::Yb) => true,
    _ => false,
  } }
  open spec fn has(&self, l: YLinkMirror, x: NodeIndex) -> bool { match l {
      YLinkMirror::YA => self.y_a@.contains(x),
      YLinkMirror::Yb => self.yb@.contains(x),
      YLinkMirror::Yv => self.yv@.contains(x),
      YLinkMirror::Par => self.par == x,
      YLinkMirror::Kids => self.kids@.contains(x),
  } }
  open spec fn cnt_of(&self, l: YLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      YLinkMirror::YA => if self.y_a@.contains(x) { 1 } else { 0 },
      YLinkMirror::Yb => if self.yb@.contains(x) { 1 } else { 0 },
      YLinkMirror::Yv => cnt(self.yv@, x),
      YLinkMirror::Par => if self.par == x { 1 } else { 0 },
      YLinkMirror::Kids => if self.kids@.contains(x) { 1 } else { 0 },
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "dst"@ { self.cnt_of(YLinkMirror::YA, x) + self.cnt_of(YLinkMirror::Yb, x) } else if name == "wide"@ { 0 } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<YLinkMirror> { if name == "y_a"@ { Some(YLinkMirror::YA) } else if name == "yb"@ { Some(YLinkMirror::Yb) } else if name == "yv"@ { Some(YLinkMirror::Yv) } else if name == "par"@ { Some(YLinkMirror::Par) } else if name == "kids"@ { Some(YLinkMirror::Kids) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<YLoGMirror> { if name == "y_a"@ { Some(YLoGMirror::YA) } else if name == "yb"@ { Some(YLoGMirror::Yb) } else if name == "yv"@ { Some(YLoGMirror::Yv) } else if name == "par"@ { Some(YLoGMirror::Par) } else if name == "kids"@ { Some(YLoGMirror::Kids) } else if name == "dst"@ { Some(YLoGMirror::Dst) } else if name == "wide"@ { Some(YLoGMirror::Wide) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { { None } }
  open spec fn names() -> Seq<&'static str> { seq!["y_a", "yb", "yv", "par", "kids"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Set, LinkType::Set, LinkType::Vec, LinkType::Point, LinkType::Set] }
  open spec fn mirrors() -> Seq<YLinkMirror> { seq![YLinkMirror::YA, YLinkMirror::Yb, YLinkMirror::Yv, YLinkMirror::Par, YLinkMirror::Kids] }
  open spec fn dnames() -> Seq<&'static str> { seq![] }
  proof fn law_has(&self, l: YLinkMirror, x: NodeIndex) {
    if l is YA && self.has(l, x) { assert(self.links().contains((x, YSource::YA))); }
    if l is Yb && self.has(l, x) { assert(self.links().contains((x, YSource::Yb))); }
    if l is Yv && self.has(l, x) { let j = choose|j: int| 0 <= j < self.yv@.len() && self.yv@[j] == x; assert(self.yv.len() == self.yv@.len()); assert(self.links().contains((x, YSource::Yv(j as usize)))); }
    if l is Yv { assert forall|s: YSource| #[trigger] self.links().contains((x, s)) && Self::mirror(s) == l implies self.has(l, x) by { } }
    if l is Par && self.has(l, x) { assert(self.links().contains((x, YSource::Par))); }
    if l is Kids && self.has(l, x) { assert(self.links().contains((x, YSource::Kids))); }
  }
}
impl YSource {
/*@fn gen:gb.rs YSource::to_link_mirror
#props C12
#ensures
  r == Y::mirror(self),
@*/
}
impl YLinkMirror {
/*@fn gen:gb.rs YLinkMirror::to_source
#props C12
#requires[T]
  !Y::is_vec(self),
#ensures
  r == Y::source(self), !Y::is_vec(self),
@*/
}
impl YLoGMirror {
/*@fn gen:gb.rs YLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> Y::in_log(self, #[trigger] r@[i]),
  forall|l: YLinkMirror| #[trigger] Y::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is YA { assert(vf_ret@.contains(YLinkMirror::YA)); }
    if self is Yb { assert(vf_ret@.contains(YLinkMirror::Yb)); }
    if self is Yv { assert(vf_ret@.contains(YLinkMirror::Yv)); }
    if self is Par { assert(vf_ret@.contains(YLinkMirror::Par)); }
    if self is Kids { assert(vf_ret@.contains(YLinkMirror::Kids)); }
    if self is Dst { assert(vf_ret@.contains(YLinkMirror::YA)); assert(vf_ret@.contains(YLinkMirror::Yb)); }
    if self is Wide {  }
  }
@*/
}
impl TypedNode for Y {
/*@fn gen:gb.rs Y as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.y_a before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.y_a
  forall|p: (NodeIndex, YSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == YSource::YA && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.y_a begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.y_a after
  proof { met_all(self.y_a@, vf_all$n); }
#loop @self.yb before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.yb
  forall|p: (NodeIndex, YSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == YSource::Yb && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.yb begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.yb after
  proof { met_all(self.yb@, vf_all$n); }
#loop @self.yv before
  let ghost vf_pre$n = sources@;
#loop @self.yv
  forall|p: (NodeIndex, YSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 is Yv && p.1->Yv_0 < vf_it$n.pos() && self.yv@[p.1->Yv_0 as int] == p.0),
  sources@.no_duplicates(),
#loop @self.kids before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.kids
  forall|p: (NodeIndex, YSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == YSource::Kids && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.kids begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.kids after
  proof { met_all(self.kids@, vf_all$n); }
#end
  proof {
    assert forall|p: (NodeIndex, YSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:gb.rs Y as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.y_a before
  proof { met_none(vf_all$n); }
#loop @self.y_a
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.y_a begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.y_a after
  proof { met_all(self.y_a@, vf_all$n); }
#loop @self.yb before
  proof { met_none(vf_all$n); }
#loop @self.yb
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.yb begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.yb after
  proof { met_all(self.yb@, vf_all$n); }
#loop @self.yv before
  proof { take_none(self.yv@); }
#loop @self.yv
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 == 0 { 0 } else { cnt(self.yv@.take(vf_it$n.pos() as int), x) }),
#loop @self.yv begin
  proof { cnt_take(self.yv@, vf_it$n.pos() - 1); }
#loop @self.yv after
  proof { take_all(self.yv@); }
#loop @self.kids before
  proof { met_none(vf_all$n); }
#loop @self.kids
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.kids begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.kids after
  proof { met_all(self.kids@, vf_all$n); }
@*/
/*@fn gen:gb.rs Y as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if source is Yv { let j = source->Yv_0 as int; if self.yv@[j].0 != 0 { assert(self.links().contains((self.yv@[j], source))); } }
    if self.par.0 != 0 { assert(self.links().contains((self.par, YSource::Par))); }
  }
#end
  proof { assert forall|p: (NodeIndex, YSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == YSource::YA || q == YSource::Yb || q is Yv || q == YSource::Par || q == YSource::Kids); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gb.rs Y as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.par.0 != 0 { assert(self.links().contains((self.par, YSource::Par))); }
  }
#end
  proof { assert forall|p: (NodeIndex, YSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == YSource::YA || q == YSource::Yb || q is Yv || q == YSource::Par || q == YSource::Kids); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:gb.rs Y as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, YSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == YSource::YA || q == YSource::Yb || q is Yv || q == YSource::Par || q == YSource::Kids); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:gb.rs Y as TypedNode::contains_link
#props C12 C04
#loop @self.yv before
  proof { take_none(self.yv@); }
#loop @self.yv
  vf_acc$n == self.yv@.take(vf_it$n.pos() as int).contains(target),
#loop @self.yv begin
  proof { take_step(self.yv@, vf_it$n.pos() - 1); }
#loop @self.yv after
  proof { take_all(self.yv@); }
@*/
/*@fn gen:gb.rs Y as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:gb.rs Y as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:gb.rs Y as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:gb.rs Y as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:gb.rs Y as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("dst"); reveal_strlit("kids"); reveal_strlit("par"); reveal_strlit("wide"); reveal_strlit("y_a"); reveal_strlit("yb"); reveal_strlit("yv"); assert("dst"@.len() != "kids"@.len()); assert("dst"@[0] != "par"@[0]); assert("dst"@.len() != "wide"@.len()); assert("dst"@[0] != "y_a"@[0]); assert("dst"@.len() != "yb"@.len()); assert("dst"@.len() != "yv"@.len()); assert("kids"@.len() != "par"@.len()); assert("kids"@[0] != "wide"@[0]); assert("kids"@.len() != "y_a"@.len()); assert("kids"@.len() != "yb"@.len()); assert("kids"@.len() != "yv"@.len()); assert("par"@.len() != "wide"@.len()); assert("par"@[0] != "y_a"@[0]); assert("par"@.len() != "yb"@.len()); assert("par"@.len() != "yv"@.len()); assert("wide"@.len() != "y_a"@.len()); assert("wide"@.len() != "yb"@.len()); assert("wide"@.len() != "yv"@.len()); assert("y_a"@.len() != "yb"@.len()); assert("y_a"@.len() != "yv"@.len()); assert("yb"@[1] != "yv"@[1]); }
@*/
/*@fn gen:gb.rs Y as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("dst"); reveal_strlit("kids"); reveal_strlit("par"); reveal_strlit("wide"); reveal_strlit("y_a"); reveal_strlit("yb"); reveal_strlit("yv"); assert("dst"@.len() != "kids"@.len()); assert("dst"@[0] != "par"@[0]); assert("dst"@.len() != "wide"@.len()); assert("dst"@[0] != "y_a"@[0]); assert("dst"@.len() != "yb"@.len()); assert("dst"@.len() != "yv"@.len()); assert("kids"@.len() != "par"@.len()); assert("kids"@[0] != "wide"@[0]); assert("kids"@.len() != "y_a"@.len()); assert("kids"@.len() != "yb"@.len()); assert("kids"@.len() != "yv"@.len()); assert("par"@.len() != "wide"@.len()); assert("par"@[0] != "y_a"@[0]); assert("par"@.len() != "yb"@.len()); assert("par"@.len() != "yv"@.len()); assert("wide"@.len() != "y_a"@.len()); assert("wide"@.len() != "yb"@.len()); assert("wide"@.len() != "yv"@.len()); assert("y_a"@.len() != "yb"@.len()); assert("y_a"@.len() != "yv"@.len()); assert("yb"@[1] != "yv"@[1]); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gb.rs Y as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("dst"); reveal_strlit("kids"); reveal_strlit("par"); reveal_strlit("wide"); reveal_strlit("y_a"); reveal_strlit("yb"); reveal_strlit("yv"); assert("dst"@.len() != "kids"@.len()); assert("dst"@[0] != "par"@[0]); assert("dst"@.len() != "wide"@.len()); assert("dst"@[0] != "y_a"@[0]); assert("dst"@.len() != "yb"@.len()); assert("dst"@.len() != "yv"@.len()); assert("kids"@.len() != "par"@.len()); assert("kids"@[0] != "wide"@[0]); assert("kids"@.len() != "y_a"@.len()); assert("kids"@.len() != "yb"@.len()); assert("kids"@.len() != "yv"@.len()); assert("par"@.len() != "wide"@.len()); assert("par"@[0] != "y_a"@[0]); assert("par"@.len() != "yb"@.len()); assert("par"@.len() != "yv"@.len()); assert("wide"@.len() != "y_a"@.len()); assert("wide"@.len() != "yb"@.len()); assert("wide"@.len() != "yv"@.len()); assert("y_a"@.len() != "yb"@.len()); assert("y_a"@.len() != "yv"@.len()); assert("yb"@[1] != "yv"@[1]); }
@*/
/*@fn gen:gb.rs Y as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("dst"); reveal_strlit("kids"); reveal_strlit("par"); reveal_strlit("wide"); reveal_strlit("y_a"); reveal_strlit("yb"); reveal_strlit("yv"); assert("dst"@.len() != "kids"@.len()); assert("dst"@[0] != "par"@[0]); assert("dst"@.len() != "wide"@.len()); assert("dst"@[0] != "y_a"@[0]); assert("dst"@.len() != "yb"@.len()); assert("dst"@.len() != "yv"@.len()); assert("kids"@.len() != "par"@.len()); assert("kids"@[0] != "wide"@[0]); assert("kids"@.len() != "y_a"@.len()); assert("kids"@.len() != "yb"@.len()); assert("kids"@.len() != "yv"@.len()); assert("par"@.len() != "wide"@.len()); assert("par"@[0] != "y_a"@[0]); assert("par"@.len() != "yb"@.len()); assert("par"@.len() != "yv"@.len()); assert("wide"@.len() != "y_a"@.len()); assert("wide"@.len() != "yb"@.len()); assert("wide"@.len() != "yv"@.len()); assert("y_a"@.len() != "yb"@.len()); assert("y_a"@.len() != "yv"@.len()); assert("yb"@[1] != "yv"@[1]); }
@*/
/*@fn gen:gb.rs Y as TypedNode::to_source
#props C12
@*/
/*@fn gen:gb.rs Y as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:gb.rs Y as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is YA { assert(vf_ret@.contains(YLoGMirror::YA)); assert(vf_ret@.contains(YLoGMirror::Dst)); }
    if input is Yb { assert(vf_ret@.contains(YLoGMirror::Yb)); assert(vf_ret@.contains(YLoGMirror::Dst)); }
    if input is Yv { assert(vf_ret@.contains(YLoGMirror::Yv)); }
    if input is Par { assert(vf_ret@.contains(YLoGMirror::Par)); }
    if input is Kids { assert(vf_ret@.contains(YLoGMirror::Kids)); }
  }
@*/
}
// ---------------- Z ----------------
/*@struct gen:gb.rs Z
@*/
/*@enum gen:gb.rs ZSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gb.rs ZLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gb.rs ZLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_z { pub use super::*; }
pub struct ZData {  }
impl TypedSpec for Z {
  type Source = ZSource;
  type LinkMirror = ZLinkMirror;
  type LoGMirror = ZLoGMirror;
  type DataT = ZData;
  open spec fn links(&self) -> ISet<(NodeIndex, ZSource)> {
    ISet::new(|p: (NodeIndex, ZSource)| p.0.0 != 0 && match p.1 {
      ZSource::Zc => self.zc == p.0,
      ZSource::Zz => self.zz@.contains(p.0),
    })
  }
  open spec fn data(&self) -> ZData { ZData {  } }
  open spec fn place_ok(d: ZData, s: ZSource) -> bool { match s {
      ZSource::Zc => true,
      ZSource::Zz => true,
  } }
  open spec fn single(s: ZSource) -> bool { match s {
      ZSource::Zc => true,
      ZSource::Zz => false,
  } }
  open spec fn mirror(s: ZSource) -> ZLinkMirror { match s {
      ZSource::Zc => ZLinkMirror::Zc,
      ZSource::Zz => ZLinkMirror::Zz,
  } }
  open spec fn source(l: ZLinkMirror) -> ZSource { match l {
      ZLinkMirror::Zc => ZSource::Zc,
      ZLinkMirror::Zz => ZSource::Zz,
  } }
  open spec fn is_vec(l: ZLinkMirror) -> bool { match l {
      ZLinkMirror::Zc => false,
      ZLinkMirror::Zz => false,
  } }
  open spec fn is_field(l: ZLinkMirror) -> bool { true }
  open spec fn in_log(g: ZLoGMirror, l: ZLinkMirror) -> bool { match (g, l) {
    (ZLoGMirror::Zc, ZLinkMirror::Zc) => true,
    (ZLoGMirror::Zz, ZLinkMirror::Zz) => true,
    (ZLoGMirror::Wide, ZLinkMirror::Zc) => true,
    _ => false,
  } }
  open spec fn has(&self, l: ZLinkMirror, x: NodeIndex) -> bool { match l {
      ZLinkMirror::Zc => self.zc == x,
      ZLinkMirror::Zz => self.zz@.contains(x),
  } }
  open spec fn cnt_of(&self, l: ZLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      ZLinkMirror::Zc => if self.zc == x { 1 } else { 0 },
      ZLinkMirror::Zz => if self.zz@.contains(x) { 1 } else { 0 },
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "wide"@ { self.cnt_of(ZLinkMirror::Zc, x) } else if name == "dst"@ { 0 } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<ZLinkMirror> { if name == "zc"@ { Some(ZLinkMirror::Zc) } else if name == "zz"@ { Some(ZLinkMirror::Zz) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<ZLoGMirror> { if name == "zc"@ { Some(ZLoGMirror::Zc) } else if name == "zz"@ { Some(ZLoGMirror::Zz) } else if name == "wide"@ { Some(ZLoGMirror::Wide) } else if name == "dst"@ { Some(ZLoGMirror::Dst) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { { None } }
  open spec fn names() -> Seq<&'static str> { seq!["zc", "zz"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Point, LinkType::Set] }
  open spec fn mirrors() -> Seq<ZLinkMirror> { seq![ZLinkMirror::Zc, ZLinkMirror::Zz] }
  open spec fn dnames() -> Seq<&'static str> { seq![] }
  proof fn law_has(&self, l: ZLinkMirror, x: NodeIndex) {
    if l is Zc && self.has(l, x) { assert(self.links().contains((x, ZSource::Zc))); }
    if l is Zz && self.has(l, x) { assert(self.links().contains((x, ZSource::Zz))); }
  }
}
impl ZSource {
/*@fn gen:gb.rs ZSource::to_link_mirror
#props C12
#ensures
  r == Z::mirror(self),
@*/
}
impl ZLinkMirror {
/*@fn gen:gb.rs ZLinkMirror::to_source
#props C12
#requires[T]
  !Z::is_vec(self),
#ensures
  r == Z::source(self), !Z::is_vec(self),
@*/
}
impl ZLoGMirror {
/*@fn gen:gb.rs ZLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> Z::in_log(self, #[trigger] r@[i]),
  forall|l: ZLinkMirror| #[trigger] Z::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is Zc { assert(vf_ret@.contains(ZLinkMirror::Zc)); }
    if self is Zz { assert(vf_ret@.contains(ZLinkMirror::Zz)); }
    if self is Wide { assert(vf_ret@.contains(ZLinkMirror::Zc)); }
    if self is Dst {  }
  }
@*/
}
impl TypedNode for Z {
/*@fn gen:gb.rs Z as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.zz before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.zz
  forall|p: (NodeIndex, ZSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == ZSource::Zz && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.zz begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.zz after
  proof { met_all(self.zz@, vf_all$n); }
#end
  proof {
    assert forall|p: (NodeIndex, ZSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:gb.rs Z as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.zz before
  proof { met_none(vf_all$n); }
#loop @self.zz
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.zz begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.zz after
  proof { met_all(self.zz@, vf_all$n); }
@*/
/*@fn gen:gb.rs Z as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if self.zc.0 != 0 { assert(self.links().contains((self.zc, ZSource::Zc))); }
  }
#end
  proof { assert forall|p: (NodeIndex, ZSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == ZSource::Zc || q == ZSource::Zz); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gb.rs Z as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.zc.0 != 0 { assert(self.links().contains((self.zc, ZSource::Zc))); }
  }
#end
  proof { assert forall|p: (NodeIndex, ZSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == ZSource::Zc || q == ZSource::Zz); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:gb.rs Z as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, ZSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == ZSource::Zc || q == ZSource::Zz); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:gb.rs Z as TypedNode::contains_link
#props C12 C04
@*/
/*@fn gen:gb.rs Z as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:gb.rs Z as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:gb.rs Z as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:gb.rs Z as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:gb.rs Z as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("dst"); reveal_strlit("wide"); reveal_strlit("zc"); reveal_strlit("zz"); assert("dst"@.len() != "wide"@.len()); assert("dst"@.len() != "zc"@.len()); assert("dst"@.len() != "zz"@.len()); assert("wide"@.len() != "zc"@.len()); assert("wide"@.len() != "zz"@.len()); assert("zc"@[1] != "zz"@[1]); }
@*/
/*@fn gen:gb.rs Z as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("dst"); reveal_strlit("wide"); reveal_strlit("zc"); reveal_strlit("zz"); assert("dst"@.len() != "wide"@.len()); assert("dst"@.len() != "zc"@.len()); assert("dst"@.len() != "zz"@.len()); assert("wide"@.len() != "zc"@.len()); assert("wide"@.len() != "zz"@.len()); assert("zc"@[1] != "zz"@[1]); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gb.rs Z as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("dst"); reveal_strlit("wide"); reveal_strlit("zc"); reveal_strlit("zz"); assert("dst"@.len() != "wide"@.len()); assert("dst"@.len() != "zc"@.len()); assert("dst"@.len() != "zz"@.len()); assert("wide"@.len() != "zc"@.len()); assert("wide"@.len() != "zz"@.len()); assert("zc"@[1] != "zz"@[1]); }
@*/
/*@fn gen:gb.rs Z as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("dst"); reveal_strlit("wide"); reveal_strlit("zc"); reveal_strlit("zz"); assert("dst"@.len() != "wide"@.len()); assert("dst"@.len() != "zc"@.len()); assert("dst"@.len() != "zz"@.len()); assert("wide"@.len() != "zc"@.len()); assert("wide"@.len() != "zz"@.len()); assert("zc"@[1] != "zz"@[1]); }
@*/
/*@fn gen:gb.rs Z as TypedNode::to_source
#props C12
@*/
/*@fn gen:gb.rs Z as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:gb.rs Z as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is Zc { assert(vf_ret@.contains(ZLoGMirror::Zc)); assert(vf_ret@.contains(ZLoGMirror::Wide)); }
    if input is Zz { assert(vf_ret@.contains(ZLoGMirror::Zz)); }
  }
@*/
}
// ---------------- Gb ----------------
/*@enum gen:gb.rs Gb
@*/
/*@enum gen:gb.rs GbDiscriminant
#props C07 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gb.rs GbSourceEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gb.rs GbLinkMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gb.rs GbLoGMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_gb { pub use super::*; }
pub enum GbData { X(XData), Y(YData), Z(ZData), Twin(XData), }
impl NodeDiscriminant for GbDiscriminant {
  open spec fn vf_first() -> Self { GbDiscriminant::X }
  open spec fn vf_succ(self) -> Option<Self> { match self { GbDiscriminant::X => Some(GbDiscriminant::Y), GbDiscriminant::Y => Some(GbDiscriminant::Z), GbDiscriminant::Z => Some(GbDiscriminant::Twin), GbDiscriminant::Twin => None, } }
/*@fn gen:gb.rs GbDiscriminant as NodeDiscriminant::first
#props C07
@*/
/*@fn gen:gb.rs GbDiscriminant as NodeDiscriminant::next
#props C07
@*/
}
impl Discriminated<GbDiscriminant> for Gb {
  open spec fn disc(&self) -> GbDiscriminant { match self { Gb::X(_) => GbDiscriminant::X, Gb::Y(_) => GbDiscriminant::Y, Gb::Z(_) => GbDiscriminant::Z, Gb::Twin(_) => GbDiscriminant::Twin, } }
/*@fn gen:gb.rs Gb as Discriminated::discriminant
#props C07 C12
@*/
}
impl NodeSpec for Gb {
  type SourceEnum = GbSourceEnum;
  type LinkMirrorEnum = GbLinkMirrorEnum;
  type LoGMirrorEnum = GbLoGMirrorEnum;
  type Discriminant = GbDiscriminant;
  type DataT = GbData;
  open spec fn links(&self) -> ISet<(NodeIndex, GbSourceEnum)> {
    ISet::new(|p: (NodeIndex, GbSourceEnum)| match (*self, p.1) {
      (Gb::X(x), GbSourceEnum::X(s)) => x.links().contains((p.0, s)),
      (Gb::Y(x), GbSourceEnum::Y(s)) => x.links().contains((p.0, s)),
      (Gb::Z(x), GbSourceEnum::Z(s)) => x.links().contains((p.0, s)),
      (Gb::Twin(x), GbSourceEnum::Twin(s)) => x.links().contains((p.0, s)),
      _ => false,
    })
  }
  open spec fn data(&self) -> GbData { match self {
    Gb::X(x) => GbData::X(x.data()),
    Gb::Y(x) => GbData::Y(x.data()),
    Gb::Z(x) => GbData::Z(x.data()),
    Gb::Twin(x) => GbData::Twin(x.data()),
  } }
  open spec fn place_ok(d: GbData, s: GbSourceEnum) -> bool { match (d, s) {
    (GbData::X(d), GbSourceEnum::X(s)) => X::place_ok(d, s),
    (GbData::Y(d), GbSourceEnum::Y(s)) => Y::place_ok(d, s),
    (GbData::Z(d), GbSourceEnum::Z(s)) => Z::place_ok(d, s),
    (GbData::Twin(d), GbSourceEnum::Twin(s)) => X::place_ok(d, s),
    _ => false,
  } }
  open spec fn single(s: GbSourceEnum) -> bool { match s {
    GbSourceEnum::X(s) => X::single(s),
    GbSourceEnum::Y(s) => Y::single(s),
    GbSourceEnum::Z(s) => Z::single(s),
    GbSourceEnum::Twin(s) => X::single(s),
  } }
  open spec fn mirror(s: GbSourceEnum) -> GbLinkMirrorEnum { match s {
    GbSourceEnum::X(s) => GbLinkMirrorEnum::X(X::mirror(s)),
    GbSourceEnum::Y(s) => GbLinkMirrorEnum::Y(Y::mirror(s)),
    GbSourceEnum::Z(s) => GbLinkMirrorEnum::Z(Z::mirror(s)),
    GbSourceEnum::Twin(s) => GbLinkMirrorEnum::Twin(X::mirror(s)),
  } }
  open spec fn source(l: GbLinkMirrorEnum) -> GbSourceEnum { match l {
    GbLinkMirrorEnum::X(l) => GbSourceEnum::X(X::source(l)),
    GbLinkMirrorEnum::Y(l) => GbSourceEnum::Y(Y::source(l)),
    GbLinkMirrorEnum::Z(l) => GbSourceEnum::Z(Z::source(l)),
    GbLinkMirrorEnum::Twin(l) => GbSourceEnum::Twin(X::source(l)),
  } }
  open spec fn is_vec(l: GbLinkMirrorEnum) -> bool { match l {
    GbLinkMirrorEnum::X(l) => X::is_vec(l),
    GbLinkMirrorEnum::Y(l) => Y::is_vec(l),
    GbLinkMirrorEnum::Z(l) => Z::is_vec(l),
    GbLinkMirrorEnum::Twin(l) => X::is_vec(l),
  } }
  open spec fn is_field(l: GbLinkMirrorEnum) -> bool { match l {
    GbLinkMirrorEnum::X(l) => X::is_field(l),
    GbLinkMirrorEnum::Y(l) => Y::is_field(l),
    GbLinkMirrorEnum::Z(l) => Z::is_field(l),
    GbLinkMirrorEnum::Twin(l) => X::is_field(l),
  } }
  open spec fn owner(l: GbLinkMirrorEnum) -> GbDiscriminant { match l {
    GbLinkMirrorEnum::X(_) => GbDiscriminant::X,
    GbLinkMirrorEnum::Y(_) => GbDiscriminant::Y,
    GbLinkMirrorEnum::Z(_) => GbDiscriminant::Z,
    GbLinkMirrorEnum::Twin(_) => GbDiscriminant::Twin,
  } }
  open spec fn logs(l: GbLinkMirrorEnum) -> ISet<GbLoGMirrorEnum> {
    ISet::new(|g: GbLoGMirrorEnum| match (l, g) {
      (GbLinkMirrorEnum::X(l), GbLoGMirrorEnum::X(g)) => X::is_field(l) && X::in_log(g, l),
      (GbLinkMirrorEnum::Y(l), GbLoGMirrorEnum::Y(g)) => Y::is_field(l) && Y::in_log(g, l),
      (GbLinkMirrorEnum::Z(l), GbLoGMirrorEnum::Z(g)) => Z::is_field(l) && Z::in_log(g, l),
      (GbLinkMirrorEnum::Twin(l), GbLoGMirrorEnum::Twin(g)) => X::is_field(l) && X::in_log(g, l),
      _ => false,
    })
  }
  open spec fn bd_log(g: GbLoGMirrorEnum) -> ISet<GbLinkMirrorEnum> {
    ISet::new(|m: GbLinkMirrorEnum| match (g, m) {
      (GbLoGMirrorEnum::X(XLoGMirror::Src), GbLinkMirrorEnum::Y(YLinkMirror::YA)) => true,
      (GbLoGMirrorEnum::X(XLoGMirror::Src), GbLinkMirrorEnum::Y(YLinkMirror::Yb)) => true,
      (GbLoGMirrorEnum::Y(YLoGMirror::Dst), GbLinkMirrorEnum::X(XLinkMirror::A)) => true,
      (GbLoGMirrorEnum::Y(YLoGMirror::Dst), GbLinkMirrorEnum::X(XLinkMirror::B)) => true,
      (GbLoGMirrorEnum::Z(ZLoGMirror::Dst), GbLinkMirrorEnum::X(XLinkMirror::A)) => true,
      (GbLoGMirrorEnum::Z(ZLoGMirror::Dst), GbLinkMirrorEnum::X(XLinkMirror::B)) => true,
      (GbLoGMirrorEnum::X(XLoGMirror::Peer), GbLinkMirrorEnum::X(XLinkMirror::Peer)) => true,
      (GbLoGMirrorEnum::X(XLoGMirror::Peer), GbLinkMirrorEnum::Z(ZLinkMirror::Zc)) => true,
      (GbLoGMirrorEnum::Y(YLoGMirror::Par), GbLinkMirrorEnum::Y(YLinkMirror::Kids)) => true,
      (GbLoGMirrorEnum::Y(YLoGMirror::Kids), GbLinkMirrorEnum::Y(YLinkMirror::Par)) => true,
      (GbLoGMirrorEnum::Z(ZLoGMirror::Zc), GbLinkMirrorEnum::X(XLinkMirror::Peer)) => true,
      (GbLoGMirrorEnum::Twin(XLoGMirror::A), GbLinkMirrorEnum::Z(ZLinkMirror::Zz)) => true,
      (GbLoGMirrorEnum::Z(ZLoGMirror::Zz), GbLinkMirrorEnum::Twin(XLinkMirror::A)) => true,
      _ => false,
    })
  }
  open spec fn allowed_log(g: GbLoGMirrorEnum, d: GbDiscriminant) -> bool { match g {
    GbLoGMirrorEnum::X(XLoGMirror::Loose) => d is Y,
    GbLoGMirrorEnum::Y(YLoGMirror::Wide) => d is X || d is Twin,
    GbLoGMirrorEnum::Z(ZLoGMirror::Wide) => d is X || d is Twin,
    GbLoGMirrorEnum::Twin(XLoGMirror::Loose) => d is Y || d is Z || d is Twin,
    GbLoGMirrorEnum::Z(ZLoGMirror::Zz) => d is Twin,
    GbLoGMirrorEnum::X(XLoGMirror::Wide) => d is Y || d is Z || d is X,
    _ => true,
  } }
  open spec fn member(d: GbDiscriminant, name: Seq<char>) -> bool { if name == "yz"@ { d is Y || d is Z } else if name == "all"@ { d is X || d is Y || d is Z || d is Twin } else if name == "lone"@ { d is Twin } else { false } }
  proof fn law_links(&self, y: NodeIndex, s: GbSourceEnum) { }
  proof fn law_single(&self, y: NodeIndex, z: NodeIndex, s: GbSourceEnum) { }
  proof fn law_data(&self, o: &Self) { }
  proof fn law_mirror(l: GbLinkMirrorEnum, s: GbSourceEnum) { }
  proof fn law_bd(g: GbLoGMirrorEnum, m: GbLinkMirrorEnum) { }
}
/// field m belongs to link or group g
pub open spec fn covers(g: GbLoGMirrorEnum, m: GbLinkMirrorEnum) -> bool { match (g, m) {
    (GbLoGMirrorEnum::X(g), GbLinkMirrorEnum::X(m)) => X::in_log(g, m),
    (GbLoGMirrorEnum::Y(g), GbLinkMirrorEnum::Y(m)) => Y::in_log(g, m),
    (GbLoGMirrorEnum::Z(g), GbLinkMirrorEnum::Z(m)) => Z::in_log(g, m),
    (GbLoGMirrorEnum::Twin(g), GbLinkMirrorEnum::Twin(m)) => X::in_log(g, m),
  _ => false,
} }
#[verifier::opaque]
pub open spec fn covered(s: Seq<GbLoGMirrorEnum>, n: nat, m: GbLinkMirrorEnum) -> bool decreases n { n > 0 && (covered(s, (n - 1) as nat, m) || covers(s[n - 1], m)) }
pub proof fn covered_none(s: Seq<GbLoGMirrorEnum>) ensures forall|m: GbLinkMirrorEnum| !#[trigger] covered(s, 0, m) { reveal(covered); }
pub proof fn covered_step(s: Seq<GbLoGMirrorEnum>, n: nat)
  requires n < s.len()
  ensures forall|m: GbLinkMirrorEnum| #[trigger] covered(s, n + 1, m) <==> covered(s, n, m) || covers(s[n as int], m)
{ reveal(covered); }
pub open spec fn cnt_in(n: Gb, l: GbLinkMirrorEnum, x: NodeIndex) -> nat { match (n, l) {
    (Gb::X(n), GbLinkMirrorEnum::X(l)) => n.cnt_of(l, x),
    (Gb::Y(n), GbLinkMirrorEnum::Y(l)) => n.cnt_of(l, x),
    (Gb::Z(n), GbLinkMirrorEnum::Z(l)) => n.cnt_of(l, x),
    (Gb::Twin(n), GbLinkMirrorEnum::Twin(l)) => n.cnt_of(l, x),
  _ => 0,
} }
pub proof fn has_link_is(n: Gb, l: GbLinkMirrorEnum, x: NodeIndex)
  requires x.0 != 0
  ensures has_link(n, l, x) == match (n, l) {
    (Gb::X(n), GbLinkMirrorEnum::X(l)) => n.has(l, x),
    (Gb::Y(n), GbLinkMirrorEnum::Y(l)) => n.has(l, x),
    (Gb::Z(n), GbLinkMirrorEnum::Z(l)) => n.has(l, x),
    (Gb::Twin(n), GbLinkMirrorEnum::Twin(l)) => n.has(l, x),
    _ => false,
  }
{
  match (n, l) {
    (Gb::X(v), GbLinkMirrorEnum::X(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: XSource| #[trigger] v.links().contains((x, s)) && X::mirror(s) == k; assert(n.links().contains((x, GbSourceEnum::X(s)))); }
      if has_link(n, l, x) { let s = choose|s: GbSourceEnum| #[trigger] n.links().contains((x, s)) && Gb::mirror(s) == l; assert(v.links().contains((x, s->X_0))); }
    },
    (Gb::Y(v), GbLinkMirrorEnum::Y(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: YSource| #[trigger] v.links().contains((x, s)) && Y::mirror(s) == k; assert(n.links().contains((x, GbSourceEnum::Y(s)))); }
      if has_link(n, l, x) { let s = choose|s: GbSourceEnum| #[trigger] n.links().contains((x, s)) && Gb::mirror(s) == l; assert(v.links().contains((x, s->Y_0))); }
    },
    (Gb::Z(v), GbLinkMirrorEnum::Z(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: ZSource| #[trigger] v.links().contains((x, s)) && Z::mirror(s) == k; assert(n.links().contains((x, GbSourceEnum::Z(s)))); }
      if has_link(n, l, x) { let s = choose|s: GbSourceEnum| #[trigger] n.links().contains((x, s)) && Gb::mirror(s) == l; assert(v.links().contains((x, s->Z_0))); }
    },
    (Gb::Twin(v), GbLinkMirrorEnum::Twin(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: XSource| #[trigger] v.links().contains((x, s)) && X::mirror(s) == k; assert(n.links().contains((x, GbSourceEnum::Twin(s)))); }
      if has_link(n, l, x) { let s = choose|s: GbSourceEnum| #[trigger] n.links().contains((x, s)) && Gb::mirror(s) == l; assert(v.links().contains((x, s->Twin_0))); }
    },
    _ => { },
  }
}
impl NodeEnum for Gb {
/*@fn gen:gb.rs Gb as NodeEnum::iter_sources
#props C12 C02 C15 C14 C09
#box id
#loop @SourceEnum::X
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GbSourceEnum::X(vf_all$n[j].1)),
#loop @SourceEnum::X after
  proof { lift_sources::<XSource, GbSourceEnum>(self->X_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: XSource| GbSourceEnum::X(s), |t: GbSourceEnum| t->X_0); }
#loop @SourceEnum::Y
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GbSourceEnum::Y(vf_all$n[j].1)),
#loop @SourceEnum::Y after
  proof { lift_sources::<YSource, GbSourceEnum>(self->Y_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: YSource| GbSourceEnum::Y(s), |t: GbSourceEnum| t->Y_0); }
#loop @SourceEnum::Z
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GbSourceEnum::Z(vf_all$n[j].1)),
#loop @SourceEnum::Z after
  proof { lift_sources::<ZSource, GbSourceEnum>(self->Z_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: ZSource| GbSourceEnum::Z(s), |t: GbSourceEnum| t->Z_0); }
#loop @SourceEnum::Twin
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GbSourceEnum::Twin(vf_all$n[j].1)),
#loop @SourceEnum::Twin after
  proof { lift_sources::<XSource, GbSourceEnum>(self->Twin_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: XSource| GbSourceEnum::Twin(s), |t: GbSourceEnum| t->Twin_0); }
@*/
/*@fn gen:gb.rs Gb as NodeEnum::modify_link
#props C12 C01 C02 C03 C04 C09
#ensures
  forall|m: GbLinkMirrorEnum| #[trigger] r.bd_link_mirrors@.contains(m) <==> bd_of::<Self>(Self::mirror(source)).contains(m),
#start
  proof {
    if *self is X && source is X { assert((*self)->X_0.links().contains((old_idx, source->X_0)) == self.links().contains((old_idx, source))); assert((*self)->X_0.links().contains((new_idx, source->X_0)) == self.links().contains((new_idx, source))); }
    if *self is Y && source is Y { assert((*self)->Y_0.links().contains((old_idx, source->Y_0)) == self.links().contains((old_idx, source))); assert((*self)->Y_0.links().contains((new_idx, source->Y_0)) == self.links().contains((new_idx, source))); }
    if *self is Z && source is Z { assert((*self)->Z_0.links().contains((old_idx, source->Z_0)) == self.links().contains((old_idx, source))); assert((*self)->Z_0.links().contains((new_idx, source->Z_0)) == self.links().contains((new_idx, source))); }
    if *self is Twin && source is Twin { assert((*self)->Twin_0.links().contains((old_idx, source->Twin_0)) == self.links().contains((old_idx, source))); assert((*self)->Twin_0.links().contains((new_idx, source->Twin_0)) == self.links().contains((new_idx, source))); }
  }
#end
  proof { assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gb.rs Gb as NodeEnum::add_link
#props C12 C04
#start
  proof {
    if *self is X && link is X { assert(Self::single(Self::source(link)) == X::single(X::source(link->X_0))); assert forall|z: NodeIndex| #[trigger] (*self)->X_0.links().contains((z, X::source(link->X_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is Y && link is Y { assert(Self::single(Self::source(link)) == Y::single(Y::source(link->Y_0))); assert forall|z: NodeIndex| #[trigger] (*self)->Y_0.links().contains((z, Y::source(link->Y_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is Z && link is Z { assert(Self::single(Self::source(link)) == Z::single(Z::source(link->Z_0))); assert forall|z: NodeIndex| #[trigger] (*self)->Z_0.links().contains((z, Z::source(link->Z_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is Twin && link is Twin { assert(Self::single(Self::source(link)) == X::single(X::source(link->Twin_0))); assert forall|z: NodeIndex| #[trigger] (*self)->Twin_0.links().contains((z, X::source(link->Twin_0))) implies self.links().contains((z, Self::source(link))) by { } }
  }
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); } }
@*/
/*@fn gen:gb.rs Gb as NodeEnum::remove_link
#props C12 C04
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); } }
@*/
/*@fn gen:gb.rs Gb as NodeEnum::contains_link
#props C12 C04
#start
  proof { if target.0 != 0 { has_link_is(*self, link, target); } }
@*/
/*@fn gen:gb.rs Gb as NodeEnum::in_group
#props C13 C07
#start
  proof { reveal_strlit("yz"); reveal_strlit("all"); reveal_strlit("lone"); assert("yz"@.len() != "all"@.len()); assert("yz"@.len() != "lone"@.len()); assert("all"@.len() != "lone"@.len()); }
@*/
/*@fn gen:gb.rs Gb as NodeEnum::to_source_enum
#props C12
@*/
/*@fn gen:gb.rs Gb as NodeEnum::to_link_mirror_enum
#props C12
@*/
/*@fn gen:gb.rs Gb as NodeEnum::to_log_mirror_enums
#props C13 C04 C05
#loop @LoGMirrorEnum::X
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GbLoGMirrorEnum::X(*vf_all$n[j]),
#loop @LoGMirrorEnum::X after
  proof { assert forall|g: GbLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(X::in_log(*vf_all$n[j], input->X_0)); }
    if Self::logs(input).contains(g) { assert(X::in_log(g->X_0, input->X_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->X_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::Y
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GbLoGMirrorEnum::Y(*vf_all$n[j]),
#loop @LoGMirrorEnum::Y after
  proof { assert forall|g: GbLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(Y::in_log(*vf_all$n[j], input->Y_0)); }
    if Self::logs(input).contains(g) { assert(Y::in_log(g->Y_0, input->Y_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->Y_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::Z
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GbLoGMirrorEnum::Z(*vf_all$n[j]),
#loop @LoGMirrorEnum::Z after
  proof { assert forall|g: GbLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(Z::in_log(*vf_all$n[j], input->Z_0)); }
    if Self::logs(input).contains(g) { assert(Z::in_log(g->Z_0, input->Z_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->Z_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::Twin
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GbLoGMirrorEnum::Twin(*vf_all$n[j]),
#loop @LoGMirrorEnum::Twin after
  proof { assert forall|g: GbLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(X::in_log(*vf_all$n[j], input->Twin_0)); }
    if Self::logs(input).contains(g) { assert(X::in_log(g->Twin_0, input->Twin_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->Twin_0; assert(vf_acc$n@[j] == g); }
  } }
@*/
/*@fn gen:gb.rs Gb as NodeEnum::get_bidiretional_link_mirrors_of_log
#props C04 C13
#loop @].into_iter().Self::expand_link_groups before
  proof { covered_none(vf_all$n); }
#loop @].into_iter().Self::expand_link_groups
  forall|m: GbLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> covered(vf_all$n, vf_it$n.pos(), m),
#loop @].into_iter().Self::expand_link_groups begin
  proof { covered_step(vf_all$n, (vf_it$n.pos() - 1) as nat); }
#loop @].into_iter().Self::expand_link_groups after
  proof { assert forall|m: GbLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> Self::bd_log(link).contains(m) by { reveal_with_fuel(covered, 8); } }
#loop @expand_link_groups before
  let ghost vf_pre$n = vf_acc$p@;
  proof { take_none(vf_all$n); }
#loop @expand_link_groups
  forall|m: GbLinkMirrorEnum| #[trigger] vf_acc$p@.contains(m) <==> vf_pre$n.contains(m) || vf_all$n.take(vf_it$n.pos() as int).contains(m),
#loop @expand_link_groups begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @expand_link_groups after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gb.rs Gb as NodeEnum::check_link_type_by_group
#props C05 C13
@*/
/*@fn gen:gb.rs Gb as NodeEnum::match_bd_link_group
#props C04 C13
#loop @LinkMirrorEnum::X before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::X
  forall|l: GbLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GbDiscriminant::X,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::X begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::X after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::Y before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::Y
  forall|l: GbLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GbDiscriminant::Y,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::Y begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::Y after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::Z before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::Z
  forall|l: GbLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GbDiscriminant::Z,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::Z begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::Z after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::Twin before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::Twin
  forall|l: GbLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GbDiscriminant::Twin,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::Twin begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::Twin after
  proof { take_all(vf_all$n); }
@*/
}
impl Gb {
/*@fn gen:gb.rs Gb as NodeEnum::iter_links
#props C12
#requires[T]
  Self::owner(link) == self.disc(),
#ensures
  Self::owner(link) == self.disc(), r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == cnt_in(*self, link, x),
#replace
  Self::SourceEnum =>> GbSourceEnum
  Self::LinkMirrorEnum =>> GbLinkMirrorEnum
  Self::LoGMirrorEnum =>> GbLoGMirrorEnum
@*/
/*@fn gen:gb.rs Gb as NodeEnum::check_link
#props C12
#ensures
  r == (Self::owner(link) == self.disc()),
#replace
  Self::SourceEnum =>> GbSourceEnum
  Self::LinkMirrorEnum =>> GbLinkMirrorEnum
  Self::LoGMirrorEnum =>> GbLoGMirrorEnum
@*/
/*@fn gen:gb.rs Gb as NodeEnum::get_links_by_name
#props C12 C13 C07
#ensures
  r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == (match self {
    Gb::X(n) => match X::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    Gb::Y(n) => match Y::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    Gb::Z(n) => match Z::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    Gb::Twin(n) => match X::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
  }),
#replace
  Self::SourceEnum =>> GbSourceEnum
  Self::LinkMirrorEnum =>> GbLinkMirrorEnum
  Self::LoGMirrorEnum =>> GbLoGMirrorEnum
@*/
/*@fn gen:gb.rs Gb as NodeEnum::get_links_by_group
#props C13 C07
#ensures
  forall|x: NodeIndex| #[trigger] cnt(r@, x) == (match self {
    Gb::X(n) => n.grp_cnt(name@, x),
    Gb::Y(n) => n.grp_cnt(name@, x),
    Gb::Z(n) => n.grp_cnt(name@, x),
    Gb::Twin(n) => n.grp_cnt(name@, x),
  }),
#replace
  Self::SourceEnum =>> GbSourceEnum
  Self::LinkMirrorEnum =>> GbLinkMirrorEnum
  Self::LoGMirrorEnum =>> GbLoGMirrorEnum
@*/
/*@fn gen:gb.rs Gb as NodeEnum::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<T>(&self, name: &'static str) -> (r: Option<&T>)
#ensures
  r is Some == (match self {
    Gb::X(n) => n.dref::<T>(name@),
    Gb::Y(n) => n.dref::<T>(name@),
    Gb::Z(n) => n.dref::<T>(name@),
    Gb::Twin(n) => n.dref::<T>(name@),
  }) is Some,
  r is Some ==> Some(*r->0) == (match self {
    Gb::X(n) => n.dref::<T>(name@),
    Gb::Y(n) => n.dref::<T>(name@),
    Gb::Z(n) => n.dref::<T>(name@),
    Gb::Twin(n) => n.dref::<T>(name@),
  }),
#replace
  Self::SourceEnum =>> GbSourceEnum
  Self::LinkMirrorEnum =>> GbLinkMirrorEnum
  Self::LoGMirrorEnum =>> GbLoGMirrorEnum
@*/
/*@fn gen:gb.rs Gb as NodeEnum::expand_link_groups
#props C13 C04
#ensures
  forall|m: GbLinkMirrorEnum| (Self::is_field(m)) ==> (#[trigger] r@.contains(m) <==> covers(input, m)),
#loop @LinkMirrorEnum::X
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GbLinkMirrorEnum::X(*vf_all$n[j]),
#loop @LinkMirrorEnum::X after
  proof { assert forall|m: GbLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(X::in_log(input->X_0, *vf_all$n[j]) || !X::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(X::in_log(input->X_0, m->X_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->X_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::Y
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GbLinkMirrorEnum::Y(*vf_all$n[j]),
#loop @LinkMirrorEnum::Y after
  proof { assert forall|m: GbLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(Y::in_log(input->Y_0, *vf_all$n[j]) || !Y::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(Y::in_log(input->Y_0, m->Y_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->Y_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::Z
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GbLinkMirrorEnum::Z(*vf_all$n[j]),
#loop @LinkMirrorEnum::Z after
  proof { assert forall|m: GbLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(Z::in_log(input->Z_0, *vf_all$n[j]) || !Z::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(Z::in_log(input->Z_0, m->Z_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->Z_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::Twin
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GbLinkMirrorEnum::Twin(*vf_all$n[j]),
#loop @LinkMirrorEnum::Twin after
  proof { assert forall|m: GbLinkMirrorEnum| (Self::is_field(m)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(X::in_log(input->Twin_0, *vf_all$n[j]) || !X::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(X::in_log(input->Twin_0, m->Twin_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->Twin_0; assert(vf_acc$n@[j] == m); }
  } }
#replace
  Self::SourceEnum =>> GbSourceEnum
  Self::LinkMirrorEnum =>> GbLinkMirrorEnum
  Self::LoGMirrorEnum =>> GbLoGMirrorEnum
@*/
}
// ---------------- GbArena ----------------
/*@struct gen:gb.rs GbArena
@*/
/*@struct gen:gb.rs GbIter
@*/
/*@struct gen:gb.rs GbIntoIter
@*/
impl ArenaSpec for GbArena {
  type V = Gb;
  type D = GbDiscriminant;
  open spec fn disp(&self) -> IMap<NodeIndex, GbDiscriminant> { self._dispatcher@ }
  open spec fn cont(&self, d: GbDiscriminant) -> IMap<usize, Gb> { match d { GbDiscriminant::X => self.x@, GbDiscriminant::Y => self.y@, GbDiscriminant::Z => self.z@, GbDiscriminant::Twin => self.twin@, } }
  open spec fn dist(&self) -> IdDistributer { self._id_distributer }
}
/// a type's container holds the nodes of that type, and no index is in two containers
pub proof fn parts(a: GbArena)
  requires arena_wf(a)
  ensures nodes_of(a) == lift(a.x@).union_prefer_right(lift(a.y@).union_prefer_right(lift(a.z@).union_prefer_right(lift(a.twin@)))),
    lift(a.x@).dom().disjoint(lift(a.y@).dom()), lift(a.x@).dom().disjoint(lift(a.z@).dom()), lift(a.x@).dom().disjoint(lift(a.twin@).dom()), lift(a.y@).dom().disjoint(lift(a.z@).dom()), lift(a.y@).dom().disjoint(lift(a.twin@).dom()), lift(a.z@).dom().disjoint(lift(a.twin@).dom()),
{
  reveal(arena_wf); reveal(nodes_of);
  assert forall|i: NodeIndex| #[trigger] lift(a.x@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GbDiscriminant::X by { assert(lift(a.x@).contains_key(i) == a.cont(GbDiscriminant::X).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.y@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GbDiscriminant::Y by { assert(lift(a.y@).contains_key(i) == a.cont(GbDiscriminant::Y).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.z@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GbDiscriminant::Z by { assert(lift(a.z@).contains_key(i) == a.cont(GbDiscriminant::Z).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.twin@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GbDiscriminant::Twin by { assert(lift(a.twin@).contains_key(i) == a.cont(GbDiscriminant::Twin).contains_key(i.0)); }
  assert forall|i: NodeIndex| !(lift(a.x@).dom().contains(i) && lift(a.y@).dom().contains(i)) by { assert(lift(a.x@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::X); assert(lift(a.y@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Y); } assert forall|i: NodeIndex| !(lift(a.x@).dom().contains(i) && lift(a.z@).dom().contains(i)) by { assert(lift(a.x@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::X); assert(lift(a.z@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Z); } assert forall|i: NodeIndex| !(lift(a.x@).dom().contains(i) && lift(a.twin@).dom().contains(i)) by { assert(lift(a.x@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::X); assert(lift(a.twin@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Twin); } assert forall|i: NodeIndex| !(lift(a.y@).dom().contains(i) && lift(a.z@).dom().contains(i)) by { assert(lift(a.y@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Y); assert(lift(a.z@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Z); } assert forall|i: NodeIndex| !(lift(a.y@).dom().contains(i) && lift(a.twin@).dom().contains(i)) by { assert(lift(a.y@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Y); assert(lift(a.twin@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Twin); } assert forall|i: NodeIndex| !(lift(a.z@).dom().contains(i) && lift(a.twin@).dom().contains(i)) by { assert(lift(a.z@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Z); assert(lift(a.twin@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Twin); }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) == lift(a.x@).union_prefer_right(lift(a.y@).union_prefer_right(lift(a.z@).union_prefer_right(lift(a.twin@)))).contains_key(i) by {
    assert(lift(a.x@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::X); assert(lift(a.y@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Y); assert(lift(a.z@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Z); assert(lift(a.twin@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Twin);
  }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) implies nodes_of(a)[i] == lift(a.x@).union_prefer_right(lift(a.y@).union_prefer_right(lift(a.z@).union_prefer_right(lift(a.twin@))))[i] by {
    assert(lift(a.x@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::X); assert(lift(a.y@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Y); assert(lift(a.z@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Z); assert(lift(a.twin@).contains_key(i) ==> a.disp()[i] == GbDiscriminant::Twin);
  }
  assert(nodes_of(a) =~= lift(a.x@).union_prefer_right(lift(a.y@).union_prefer_right(lift(a.z@).union_prefer_right(lift(a.twin@)))));
}
impl<'a> GbIter<'a> {
  pub open spec fn ok(&self) -> bool { self.x.pos() <= self.x.all().len() && self.y.pos() <= self.y.all().len() && self.z.pos() <= self.z.all().len() && self.twin.pos() <= self.twin.all().len() && (self.stage() < 4 ==> self.x.pos() == self.x.all().len()) && (self.stage() < 3 ==> self.y.pos() == self.y.all().len()) && (self.stage() < 2 ==> self.z.pos() == self.z.all().len()) && (self.stage() < 1 ==> self.twin.pos() == self.twin.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, &'a Gb)> { match self._iter_state {
    Some(GbDiscriminant::X) => (left(self.x) + (left(self.y) + (left(self.z) + left(self.twin)))), Some(GbDiscriminant::Y) => (left(self.y) + (left(self.z) + left(self.twin))), Some(GbDiscriminant::Z) => (left(self.z) + left(self.twin)), Some(GbDiscriminant::Twin) => left(self.twin),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GbDiscriminant::X) => 4, Some(GbDiscriminant::Y) => 3, Some(GbDiscriminant::Z) => 2, Some(GbDiscriminant::Twin) => 1, None => 0 } }
/*@fn gen:gb.rs GbIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, &'a Gb)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GbDiscriminant::X) && self.x.pos() >= self.x.all().len() { assert(left(self.x).len() == 0); } if self._iter_state == Some(GbDiscriminant::Y) && self.y.pos() >= self.y.all().len() { assert(left(self.y).len() == 0); } if self._iter_state == Some(GbDiscriminant::Z) && self.z.pos() >= self.z.all().len() { assert(left(self.z).len() == 0); } if self._iter_state == Some(GbDiscriminant::Twin) && self.twin.pos() >= self.twin.all().len() { assert(left(self.twin).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GbDiscriminant::X) && old(self).x.pos() < old(self).x.all().len() { assert(left(self.x) =~= left(old(self).x).skip(1)); assert(left(old(self).x)[0] == vf_ret->0); } if old(self)._iter_state == Some(GbDiscriminant::Y) && old(self).y.pos() < old(self).y.all().len() { assert(left(self.y) =~= left(old(self).y).skip(1)); assert(left(old(self).y)[0] == vf_ret->0); } if old(self)._iter_state == Some(GbDiscriminant::Z) && old(self).z.pos() < old(self).z.all().len() { assert(left(self.z) =~= left(old(self).z).skip(1)); assert(left(old(self).z)[0] == vf_ret->0); } if old(self)._iter_state == Some(GbDiscriminant::Twin) && old(self).twin.pos() < old(self).twin.all().len() { assert(left(self.twin) =~= left(old(self).twin).skip(1)); assert(left(old(self).twin)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:gb.rs GbIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); hints_step(vf_all0, 2); hints_step(vf_all0, 3); assert(left(self.x).len() == vf_all0[0].0); assert(left(self.y).len() == vf_all0[1].0); assert(left(self.z).len() == vf_all0[2].0); assert(left(self.twin).len() == vf_all0[3].0); }
@*/
}
impl GbIntoIter {
  pub open spec fn ok(&self) -> bool { self.x.pos() <= self.x.all().len() && self.y.pos() <= self.y.all().len() && self.z.pos() <= self.z.all().len() && self.twin.pos() <= self.twin.all().len() && (self.stage() < 4 ==> self.x.pos() == self.x.all().len()) && (self.stage() < 3 ==> self.y.pos() == self.y.all().len()) && (self.stage() < 2 ==> self.z.pos() == self.z.all().len()) && (self.stage() < 1 ==> self.twin.pos() == self.twin.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, Gb)> { match self._iter_state {
    Some(GbDiscriminant::X) => (left_own(self.x) + (left_own(self.y) + (left_own(self.z) + left_own(self.twin)))), Some(GbDiscriminant::Y) => (left_own(self.y) + (left_own(self.z) + left_own(self.twin))), Some(GbDiscriminant::Z) => (left_own(self.z) + left_own(self.twin)), Some(GbDiscriminant::Twin) => left_own(self.twin),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GbDiscriminant::X) => 4, Some(GbDiscriminant::Y) => 3, Some(GbDiscriminant::Z) => 2, Some(GbDiscriminant::Twin) => 1, None => 0 } }
/*@fn gen:gb.rs GbIntoIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, Gb)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GbDiscriminant::X) && self.x.pos() >= self.x.all().len() { assert(left_own(self.x).len() == 0); } if self._iter_state == Some(GbDiscriminant::Y) && self.y.pos() >= self.y.all().len() { assert(left_own(self.y).len() == 0); } if self._iter_state == Some(GbDiscriminant::Z) && self.z.pos() >= self.z.all().len() { assert(left_own(self.z).len() == 0); } if self._iter_state == Some(GbDiscriminant::Twin) && self.twin.pos() >= self.twin.all().len() { assert(left_own(self.twin).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GbDiscriminant::X) && old(self).x.pos() < old(self).x.all().len() { assert(left_own(self.x) =~= left_own(old(self).x).skip(1)); assert(left_own(old(self).x)[0] == vf_ret->0); } if old(self)._iter_state == Some(GbDiscriminant::Y) && old(self).y.pos() < old(self).y.all().len() { assert(left_own(self.y) =~= left_own(old(self).y).skip(1)); assert(left_own(old(self).y)[0] == vf_ret->0); } if old(self)._iter_state == Some(GbDiscriminant::Z) && old(self).z.pos() < old(self).z.all().len() { assert(left_own(self.z) =~= left_own(old(self).z).skip(1)); assert(left_own(old(self).z)[0] == vf_ret->0); } if old(self)._iter_state == Some(GbDiscriminant::Twin) && old(self).twin.pos() < old(self).twin.all().len() { assert(left_own(self.twin) =~= left_own(old(self).twin).skip(1)); assert(left_own(old(self).twin)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:gb.rs GbIntoIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); hints_step(vf_all0, 2); hints_step(vf_all0, 3); assert(left_own(self.x).len() == vf_all0[0].0); assert(left_own(self.y).len() == vf_all0[1].0); assert(left_own(self.z).len() == vf_all0[2].0); assert(left_own(self.twin).len() == vf_all0[3].0); }
@*/
}
impl GbArena {
/*@fn gen:gb.rs GbArena as CateArena::iter
#props C07
#sig
fn gen_iter<'a>(&'a self) -> (r: GbIter<'a>)
#requires
  arena_wf(*self),
#ensures
  r.ok(), seq_of_map_kref(nodes_of(*self), r.rest()),
#start
  let ghost vf_a = *self;
#end
  proof { parts(vf_a); left_ok(vf_a.x@, vf_ret.x); left_ok(vf_a.y@, vf_ret.y); left_ok(vf_a.z@, vf_ret.z); left_ok(vf_a.twin@, vf_ret.twin); cat_ok(lift(vf_a.z@), left(vf_ret.z), lift(vf_a.twin@), left(vf_ret.twin)); cat_ok(lift(vf_a.y@), left(vf_ret.y), lift(vf_a.z@).union_prefer_right(lift(vf_a.twin@)), (left(vf_ret.z) + left(vf_ret.twin))); cat_ok(lift(vf_a.x@), left(vf_ret.x), lift(vf_a.y@).union_prefer_right(lift(vf_a.z@).union_prefer_right(lift(vf_a.twin@))), (left(vf_ret.y) + (left(vf_ret.z) + left(vf_ret.twin)))); }
#replace
  Self::IntoIter =>> GbIntoIter
  Self::Iter =>> GbIter
  Self::D =>> GbDiscriminant
@*/
/*@fn gen:gb.rs GbArena as CateArena::into_iter
#props C07 C10
#sig
fn gen_into_iter(self) -> (r: GbIntoIter)
#requires
  arena_wf(self),
#ensures
  r.ok(), seq_of_map(nodes_of(self), r.rest()),
#start
  let ghost vf_a = self;
#end
  proof { parts(vf_a); left_own_ok(vf_a.x@, vf_ret.x); left_own_ok(vf_a.y@, vf_ret.y); left_own_ok(vf_a.z@, vf_ret.z); left_own_ok(vf_a.twin@, vf_ret.twin); cat_own_ok(lift(vf_a.z@), left_own(vf_ret.z), lift(vf_a.twin@), left_own(vf_ret.twin)); cat_own_ok(lift(vf_a.y@), left_own(vf_ret.y), lift(vf_a.z@).union_prefer_right(lift(vf_a.twin@)), (left_own(vf_ret.z) + left_own(vf_ret.twin))); cat_own_ok(lift(vf_a.x@), left_own(vf_ret.x), lift(vf_a.y@).union_prefer_right(lift(vf_a.z@).union_prefer_right(lift(vf_a.twin@))), (left_own(vf_ret.y) + (left_own(vf_ret.z) + left_own(vf_ret.twin)))); }
#replace
  Self::IntoIter =>> GbIntoIter
  Self::Iter =>> GbIter
  Self::D =>> GbDiscriminant
@*/
}
impl CateArena for GbArena {
  // what a loop over the arena's iterator visits
  #[verifier::loop_isolation(true)]
  fn vf_iter<'a>(&'a self) -> VIter<(NodeIndex, &'a Gb)> {
    let mut it = self.gen_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
  #[verifier::loop_isolation(true)]
  fn vf_into_iter(self) -> VIter<(NodeIndex, Gb)> {
    let mut it = self.gen_into_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
/*@fn gen:gb.rs GbArena as CateArena::new
#props C07 C09
@*/
/*@fn gen:gb.rs GbArena as CateArena::new_from_iter
#props C07 C10
#start
  proof { reveal(arena_wf); reveal(nodes_of); }
#loop @* before
  proof { assert(nodes_of(result) =~= upto(vf_all$n, 0)); }
#loop @*
  arena_wf(result), result.dist() == id_distributer, nodes_of(result) == upto(vf_all$n, vf_it$n.pos()),
  forall|k: NodeIndex| #[trigger] result.disp().contains_key(k) <==> upto(vf_all$n, vf_it$n.pos()).contains_key(k),
#loop @* begin
  let ghost vf_pre = result;
  proof {
    upto_has(vf_all$n, (vf_it$n.pos() - 1) as nat);
    let ghost vf_i = vf_all$n[vf_it$n.pos() - 1].0;
    assert(NodeIndex(vf_i.0) == vf_i);
    assert(!result.cont(GbDiscriminant::X).contains_key(vf_i.0)); assert(!result.cont(GbDiscriminant::Y).contains_key(vf_i.0)); assert(!result.cont(GbDiscriminant::Z).contains_key(vf_i.0)); assert(!result.cont(GbDiscriminant::Twin).contains_key(vf_i.0));
  }
#loop @* end
  proof { assert forall|d: GbDiscriminant, k: usize| #[trigger] result.cont(d).contains_key(k) implies result.disp().contains_key(NodeIndex(k)) && result.disp()[NodeIndex(k)] == d && result.cont(d)[k].disc() == d by {
    assert(vf_pre.cont(d).contains_key(k) || NodeIndex(k) == vf_all$n[vf_it$n.pos() - 1].0);
  } }
  proof { assert(nodes_of(result) =~= upto(vf_all$n, vf_it$n.pos())); }
#loop @* after
  proof { upto_has(vf_all$n, vf_all$n.len()); }
@*/
/*@fn gen:gb.rs GbArena as CateArena::dispatch
#props C07
@*/
/*@fn gen:gb.rs GbArena as CateArena::get_container
#props C07
@*/
/*@fn gen:gb.rs GbArena as CateArena::get_container_mut
#props C07 C03
@*/
/*@fn gen:gb.rs GbArena as CateArena::alloc
#props C06 C08
#mode P
@*/
/*@fn gen:gb.rs GbArena as CateArena::alloc_untyped
#props C06 C08
@*/
/*@fn gen:gb.rs GbArena as CateArena::fill_back_untyped
#props C08 C07
#start
  proof {
    reveal(arena_wf); reveal(nodes_of); assert(NodeIndex(i.0) == i);
    assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GbDiscriminant::X).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GbDiscriminant::Y).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GbDiscriminant::Z).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GbDiscriminant::Twin).contains_key(i.0));
  }
#end
  proof {
    assert forall|d: GbDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i); assert(NodeIndex(k) == i ==> !old(self).cont(d).contains_key(k));
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(i, item));
  }
@*/
/*@fn gen:gb.rs GbArena as CateArena::remove
#props C07 C03
#start
  proof { reveal(arena_wf); reveal(nodes_of); reveal(arena_wf_ex); }
#end
  proof {
    assert forall|d: GbDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i);
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).remove(i));
  }
@*/
/*@fn gen:gb.rs GbArena as CateArena::merge
#props C03 C07 C11
#start
  let ghost vf_o = other;
  proof { reveal(arena_wf); reveal(nodes_of); }
#end
  proof {
    assert forall|d: GbDiscriminant, i: usize| #[trigger] self.cont(d).contains_key(i) implies self.disp().contains_key(NodeIndex(i)) && self.disp()[NodeIndex(i)] == d && self.cont(d)[i].disc() == d by {
      assert(old(self).cont(d).contains_key(i) || vf_o.cont(d).contains_key(i));
      if vf_o.cont(d).contains_key(i) { assert(vf_o.disp().dom().contains(NodeIndex(i))); } else { assert(old(self).disp().dom().contains(NodeIndex(i))); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) == (nodes_of(*old(self)).contains_key(i) || nodes_of(vf_o).contains_key(i)) by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GbDiscriminant::X).contains_key(i.0)); assert(!vf_o.cont(GbDiscriminant::Y).contains_key(i.0)); assert(!vf_o.cont(GbDiscriminant::Z).contains_key(i.0)); assert(!vf_o.cont(GbDiscriminant::Twin).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GbDiscriminant::X).contains_key(i.0)); assert(!old(self).cont(GbDiscriminant::Y).contains_key(i.0)); assert(!old(self).cont(GbDiscriminant::Z).contains_key(i.0)); assert(!old(self).cont(GbDiscriminant::Twin).contains_key(i.0)); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) implies nodes_of(*self)[i] == nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o))[i] by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GbDiscriminant::X).contains_key(i.0)); assert(!vf_o.cont(GbDiscriminant::Y).contains_key(i.0)); assert(!vf_o.cont(GbDiscriminant::Z).contains_key(i.0)); assert(!vf_o.cont(GbDiscriminant::Twin).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GbDiscriminant::X).contains_key(i.0)); assert(!old(self).cont(GbDiscriminant::Y).contains_key(i.0)); assert(!old(self).cont(GbDiscriminant::Z).contains_key(i.0)); assert(!old(self).cont(GbDiscriminant::Twin).contains_key(i.0)); }
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o)));
  }
@*/
/*@fn gen:gb.rs GbArena as CateArena::len
#props C07
#end
  proof {
    parts(*self);
    lift_len(self.x@); lift_len(self.y@); lift_len(self.z@); lift_len(self.twin@);
    union_len(lift(self.z@).dom(), lift(self.twin@).dom()); union_len(lift(self.y@).dom(), lift(self.z@).dom().union(lift(self.twin@).dom())); union_len(lift(self.x@).dom(), lift(self.y@).dom().union(lift(self.z@).dom().union(lift(self.twin@).dom())));
    assert(nodes_of(*self).dom() =~= lift(self.x@).dom().union(lift(self.y@).dom().union(lift(self.z@).dom().union(lift(self.twin@).dom()))));
  }
@*/
}
fn main() {}
}
