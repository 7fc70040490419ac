// Written by verus/gen_schemas.py. The expansion of the macros for gen/src/lib.rs, mod ge.
#![allow(unused, dead_code, non_camel_case_types)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
verus! {
/*@include prelude.rs@*/
/*@include-trusted base.inc@*/
/*@include typed.inc@*/
/*@replace
  Box<dyn std::iter::Iterator<Item = ttgraph::NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = (NodeIndex, Self::SourceEnum)>> =>> VIter<(NodeIndex, Self::SourceEnum)>
  std::vec::IntoIter< =>> VIter<
  ::alloc::vec::Vec =>> Vec
  ::ordermap::OrderSet =>> OrderSet
  ::indexmap::IndexSet =>> IndexSet
  std::collections::HashSet =>> HashSet
  std::collections::BTreeSet =>> BTreeSet
  impl std::iter::IntoIterator<Item = (ttgraph::NodeIndex, Self::V)> =>> Vec<(ttgraph::NodeIndex, Self::V)>
  <dyn std::any::Any>::downcast_ref::<TGDataRefT> =>> vf_downcast::<_, TGDataRefT>
  <HTTPNode as ttgraph::TypedNode>::Source =>> HTTPNodeSource
  <HTTPNode as ttgraph::TypedNode>::LinkMirror =>> HTTPNodeLinkMirror
  <HTTPNode as ttgraph::TypedNode>::LoGMirror =>> HTTPNodeLoGMirror
  <self::super::HTTPNode as ttgraph::TypedNode>::Source =>> HTTPNodeSource
  <self::super::HTTPNode as ttgraph::TypedNode>::LinkMirror =>> HTTPNodeLinkMirror
  <self::super::HTTPNode as ttgraph::TypedNode>::LoGMirror =>> HTTPNodeLoGMirror
  <HTTPNode as TypedNode>::Source =>> HTTPNodeSource
  <HTTPNode as TypedNode>::LinkMirror =>> HTTPNodeLinkMirror
  <HTTPNode as TypedNode>::LoGMirror =>> HTTPNodeLoGMirror
  <self::super::HTTPNode as TypedNode>::Source =>> HTTPNodeSource
  <self::super::HTTPNode as TypedNode>::LinkMirror =>> HTTPNodeLinkMirror
  <self::super::HTTPNode as TypedNode>::LoGMirror =>> HTTPNodeLoGMirror
  <B2 as ttgraph::TypedNode>::Source =>> B2Source
  <B2 as ttgraph::TypedNode>::LinkMirror =>> B2LinkMirror
  <B2 as ttgraph::TypedNode>::LoGMirror =>> B2LoGMirror
  <self::super::B2 as ttgraph::TypedNode>::Source =>> B2Source
  <self::super::B2 as ttgraph::TypedNode>::LinkMirror =>> B2LinkMirror
  <self::super::B2 as ttgraph::TypedNode>::LoGMirror =>> B2LoGMirror
  <B2 as TypedNode>::Source =>> B2Source
  <B2 as TypedNode>::LinkMirror =>> B2LinkMirror
  <B2 as TypedNode>::LoGMirror =>> B2LoGMirror
  <self::super::B2 as TypedNode>::Source =>> B2Source
  <self::super::B2 as TypedNode>::LinkMirror =>> B2LinkMirror
  <self::super::B2 as TypedNode>::LoGMirror =>> B2LoGMirror
  <Leaf as ttgraph::TypedNode>::Source =>> LeafSource
  <Leaf as ttgraph::TypedNode>::LinkMirror =>> LeafLinkMirror
  <Leaf as ttgraph::TypedNode>::LoGMirror =>> LeafLoGMirror
  <self::super::Leaf as ttgraph::TypedNode>::Source =>> LeafSource
  <self::super::Leaf as ttgraph::TypedNode>::LinkMirror =>> LeafLinkMirror
  <self::super::Leaf as ttgraph::TypedNode>::LoGMirror =>> LeafLoGMirror
  <Leaf as TypedNode>::Source =>> LeafSource
  <Leaf as TypedNode>::LinkMirror =>> LeafLinkMirror
  <Leaf as TypedNode>::LoGMirror =>> LeafLoGMirror
  <self::super::Leaf as TypedNode>::Source =>> LeafSource
  <self::super::Leaf as TypedNode>::LinkMirror =>> LeafLinkMirror
  <self::super::Leaf as TypedNode>::LoGMirror =>> LeafLoGMirror
  <Void as ttgraph::TypedNode>::Source =>> VoidSource
  <Void as ttgraph::TypedNode>::LinkMirror =>> VoidLinkMirror
  <Void as ttgraph::TypedNode>::LoGMirror =>> VoidLoGMirror
  <self::super::Void as ttgraph::TypedNode>::Source =>> VoidSource
  <self::super::Void as ttgraph::TypedNode>::LinkMirror =>> VoidLinkMirror
  <self::super::Void as ttgraph::TypedNode>::LoGMirror =>> VoidLoGMirror
  <Void as TypedNode>::Source =>> VoidSource
  <Void as TypedNode>::LinkMirror =>> VoidLinkMirror
  <Void as TypedNode>::LoGMirror =>> VoidLoGMirror
  <self::super::Void as TypedNode>::Source =>> VoidSource
  <self::super::Void as TypedNode>::LinkMirror =>> VoidLinkMirror
  <self::super::Void as TypedNode>::LoGMirror =>> VoidLoGMirror
@*/
// ---------------- HTTPNode ----------------
/*@struct gen:ge.rs HTTPNode
@*/
/*@enum gen:ge.rs HTTPNodeSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ge.rs HTTPNodeLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ge.rs HTTPNodeLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_http_node { pub use super::*; }
pub struct HTTPNodeData { pub port: u16, }
impl TypedSpec for HTTPNode {
  type Source = HTTPNodeSource;
  type LinkMirror = HTTPNodeLinkMirror;
  type LoGMirror = HTTPNodeLoGMirror;
  type DataT = HTTPNodeData;
  open spec fn links(&self) -> ISet<(NodeIndex, HTTPNodeSource)> {
    ISet::new(|p: (NodeIndex, HTTPNodeSource)| p.0.0 != 0 && match p.1 {
      HTTPNodeSource::To_2 => self.to_2@.contains(p.0),
      HTTPNodeSource::XYZ => self.x_y_z == p.0,
    })
  }
  open spec fn data(&self) -> HTTPNodeData { HTTPNodeData { port: self.port, } }
  open spec fn place_ok(d: HTTPNodeData, s: HTTPNodeSource) -> bool { match s {
      HTTPNodeSource::To_2 => true,
      HTTPNodeSource::XYZ => true,
  } }
  open spec fn single(s: HTTPNodeSource) -> bool { match s {
      HTTPNodeSource::To_2 => false,
      HTTPNodeSource::XYZ => true,
  } }
  open spec fn mirror(s: HTTPNodeSource) -> HTTPNodeLinkMirror { match s {
      HTTPNodeSource::To_2 => HTTPNodeLinkMirror::To_2,
      HTTPNodeSource::XYZ => HTTPNodeLinkMirror::XYZ,
  } }
  open spec fn source(l: HTTPNodeLinkMirror) -> HTTPNodeSource { match l {
      HTTPNodeLinkMirror::To_2 => HTTPNodeSource::To_2,
      HTTPNodeLinkMirror::XYZ => HTTPNodeSource::XYZ,
  } }
  open spec fn is_vec(l: HTTPNodeLinkMirror) -> bool { match l {
      HTTPNodeLinkMirror::To_2 => false,
      HTTPNodeLinkMirror::XYZ => false,
  } }
  open spec fn is_field(l: HTTPNodeLinkMirror) -> bool { true }
  open spec fn in_log(g: HTTPNodeLoGMirror, l: HTTPNodeLinkMirror) -> bool { match (g, l) {
    (HTTPNodeLoGMirror::To_2, HTTPNodeLinkMirror::To_2) => true,
    (HTTPNodeLoGMirror::XYZ, HTTPNodeLinkMirror::XYZ) => true,
    (HTTPNodeLoGMirror::Ring, HTTPNodeLinkMirror::To_2) => true,
    (HTTPNodeLoGMirror::Ring, HTTPNodeLinkMirror::XYZ) => true,
    (HTTPNodeLoGMirror::East, HTTPNodeLinkMirror::To_2) => true,
    (HTTPNodeLoGMirror::DeepEnd, HTTPNodeLinkMirror::XYZ) => true,
    _ => false,
  } }
  open spec fn has(&self, l: HTTPNodeLinkMirror, x: NodeIndex) -> bool { match l {
      HTTPNodeLinkMirror::To_2 => self.to_2@.contains(x),
      HTTPNodeLinkMirror::XYZ => self.x_y_z == x,
  } }
  open spec fn cnt_of(&self, l: HTTPNodeLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      HTTPNodeLinkMirror::To_2 => if self.to_2@.contains(x) { 1 } else { 0 },
      HTTPNodeLinkMirror::XYZ => if self.x_y_z == x { 1 } else { 0 },
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "ring"@ { self.cnt_of(HTTPNodeLinkMirror::To_2, x) + self.cnt_of(HTTPNodeLinkMirror::XYZ, x) } else if name == "east"@ { self.cnt_of(HTTPNodeLinkMirror::To_2, x) } else if name == "deep_end"@ { self.cnt_of(HTTPNodeLinkMirror::XYZ, x) } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<HTTPNodeLinkMirror> { if name == "to_2"@ { Some(HTTPNodeLinkMirror::To_2) } else if name == "x_y_z"@ { Some(HTTPNodeLinkMirror::XYZ) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<HTTPNodeLoGMirror> { if name == "to_2"@ { Some(HTTPNodeLoGMirror::To_2) } else if name == "x_y_z"@ { Some(HTTPNodeLoGMirror::XYZ) } else if name == "ring"@ { Some(HTTPNodeLoGMirror::Ring) } else if name == "east"@ { Some(HTTPNodeLoGMirror::East) } else if name == "deep_end"@ { Some(HTTPNodeLoGMirror::DeepEnd) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { if name == "port"@ { vf_any::<u16, T>(self.port) } else { None } }
  open spec fn names() -> Seq<&'static str> { seq!["to_2", "x_y_z"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Set, LinkType::Point] }
  open spec fn mirrors() -> Seq<HTTPNodeLinkMirror> { seq![HTTPNodeLinkMirror::To_2, HTTPNodeLinkMirror::XYZ] }
  open spec fn dnames() -> Seq<&'static str> { seq!["port"] }
  proof fn law_has(&self, l: HTTPNodeLinkMirror, x: NodeIndex) {
    if l is To_2 && self.has(l, x) { assert(self.links().contains((x, HTTPNodeSource::To_2))); }
    if l is XYZ && self.has(l, x) { assert(self.links().contains((x, HTTPNodeSource::XYZ))); }
  }
}
impl HTTPNodeSource {
/*@fn gen:ge.rs HTTPNodeSource::to_link_mirror
#props C12
#ensures
  r == HTTPNode::mirror(self),
@*/
}
impl HTTPNodeLinkMirror {
/*@fn gen:ge.rs HTTPNodeLinkMirror::to_source
#props C12
#requires[T]
  !HTTPNode::is_vec(self),
#ensures
  r == HTTPNode::source(self), !HTTPNode::is_vec(self),
@*/
}
impl HTTPNodeLoGMirror {
/*@fn gen:ge.rs HTTPNodeLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> HTTPNode::in_log(self, #[trigger] r@[i]),
  forall|l: HTTPNodeLinkMirror| #[trigger] HTTPNode::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is To_2 { assert(vf_ret@.contains(HTTPNodeLinkMirror::To_2)); }
    if self is XYZ { assert(vf_ret@.contains(HTTPNodeLinkMirror::XYZ)); }
    if self is Ring { assert(vf_ret@.contains(HTTPNodeLinkMirror::To_2)); assert(vf_ret@.contains(HTTPNodeLinkMirror::XYZ)); }
    if self is East { assert(vf_ret@.contains(HTTPNodeLinkMirror::To_2)); }
    if self is DeepEnd { assert(vf_ret@.contains(HTTPNodeLinkMirror::XYZ)); }
  }
@*/
}
impl TypedNode for HTTPNode {
/*@fn gen:ge.rs HTTPNode as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.to_2 before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.to_2
  forall|p: (NodeIndex, HTTPNodeSource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == HTTPNodeSource::To_2 && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.to_2 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.to_2 after
  proof { met_all(self.to_2@, vf_all$n); }
#end
  proof {
    assert forall|p: (NodeIndex, HTTPNodeSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.to_2 before
  proof { met_none(vf_all$n); }
#loop @self.to_2
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.to_2 begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.to_2 after
  proof { met_all(self.to_2@, vf_all$n); }
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if self.x_y_z.0 != 0 { assert(self.links().contains((self.x_y_z, HTTPNodeSource::XYZ))); }
  }
#end
  proof { assert forall|p: (NodeIndex, HTTPNodeSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == HTTPNodeSource::To_2 || q == HTTPNodeSource::XYZ); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.x_y_z.0 != 0 { assert(self.links().contains((self.x_y_z, HTTPNodeSource::XYZ))); }
  }
#end
  proof { assert forall|p: (NodeIndex, HTTPNodeSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == HTTPNodeSource::To_2 || q == HTTPNodeSource::XYZ); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, HTTPNodeSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == HTTPNodeSource::To_2 || q == HTTPNodeSource::XYZ); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::contains_link
#props C12 C04
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("deep_end"); reveal_strlit("east"); reveal_strlit("port"); reveal_strlit("ring"); reveal_strlit("to_2"); reveal_strlit("x_y_z"); assert("deep_end"@.len() != "east"@.len()); assert("deep_end"@.len() != "port"@.len()); assert("deep_end"@.len() != "ring"@.len()); assert("deep_end"@.len() != "to_2"@.len()); assert("deep_end"@.len() != "x_y_z"@.len()); assert("east"@[0] != "port"@[0]); assert("east"@[0] != "ring"@[0]); assert("east"@[0] != "to_2"@[0]); assert("east"@.len() != "x_y_z"@.len()); assert("port"@[0] != "ring"@[0]); assert("port"@[0] != "to_2"@[0]); assert("port"@.len() != "x_y_z"@.len()); assert("ring"@[0] != "to_2"@[0]); assert("ring"@.len() != "x_y_z"@.len()); assert("to_2"@.len() != "x_y_z"@.len()); }
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("deep_end"); reveal_strlit("east"); reveal_strlit("port"); reveal_strlit("ring"); reveal_strlit("to_2"); reveal_strlit("x_y_z"); assert("deep_end"@.len() != "east"@.len()); assert("deep_end"@.len() != "port"@.len()); assert("deep_end"@.len() != "ring"@.len()); assert("deep_end"@.len() != "to_2"@.len()); assert("deep_end"@.len() != "x_y_z"@.len()); assert("east"@[0] != "port"@[0]); assert("east"@[0] != "ring"@[0]); assert("east"@[0] != "to_2"@[0]); assert("east"@.len() != "x_y_z"@.len()); assert("port"@[0] != "ring"@[0]); assert("port"@[0] != "to_2"@[0]); assert("port"@.len() != "x_y_z"@.len()); assert("ring"@[0] != "to_2"@[0]); assert("ring"@.len() != "x_y_z"@.len()); assert("to_2"@.len() != "x_y_z"@.len()); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("deep_end"); reveal_strlit("east"); reveal_strlit("port"); reveal_strlit("ring"); reveal_strlit("to_2"); reveal_strlit("x_y_z"); assert("deep_end"@.len() != "east"@.len()); assert("deep_end"@.len() != "port"@.len()); assert("deep_end"@.len() != "ring"@.len()); assert("deep_end"@.len() != "to_2"@.len()); assert("deep_end"@.len() != "x_y_z"@.len()); assert("east"@[0] != "port"@[0]); assert("east"@[0] != "ring"@[0]); assert("east"@[0] != "to_2"@[0]); assert("east"@.len() != "x_y_z"@.len()); assert("port"@[0] != "ring"@[0]); assert("port"@[0] != "to_2"@[0]); assert("port"@.len() != "x_y_z"@.len()); assert("ring"@[0] != "to_2"@[0]); assert("ring"@.len() != "x_y_z"@.len()); assert("to_2"@.len() != "x_y_z"@.len()); }
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("deep_end"); reveal_strlit("east"); reveal_strlit("port"); reveal_strlit("ring"); reveal_strlit("to_2"); reveal_strlit("x_y_z"); assert("deep_end"@.len() != "east"@.len()); assert("deep_end"@.len() != "port"@.len()); assert("deep_end"@.len() != "ring"@.len()); assert("deep_end"@.len() != "to_2"@.len()); assert("deep_end"@.len() != "x_y_z"@.len()); assert("east"@[0] != "port"@[0]); assert("east"@[0] != "ring"@[0]); assert("east"@[0] != "to_2"@[0]); assert("east"@.len() != "x_y_z"@.len()); assert("port"@[0] != "ring"@[0]); assert("port"@[0] != "to_2"@[0]); assert("port"@.len() != "x_y_z"@.len()); assert("ring"@[0] != "to_2"@[0]); assert("ring"@.len() != "x_y_z"@.len()); assert("to_2"@.len() != "x_y_z"@.len()); }
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::to_source
#props C12
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:ge.rs HTTPNode as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is To_2 { assert(vf_ret@.contains(HTTPNodeLoGMirror::To_2)); assert(vf_ret@.contains(HTTPNodeLoGMirror::Ring)); assert(vf_ret@.contains(HTTPNodeLoGMirror::East)); }
    if input is XYZ { assert(vf_ret@.contains(HTTPNodeLoGMirror::XYZ)); assert(vf_ret@.contains(HTTPNodeLoGMirror::Ring)); assert(vf_ret@.contains(HTTPNodeLoGMirror::DeepEnd)); }
  }
@*/
}
// ---------------- B2 ----------------
/*@struct gen:ge.rs B2
@*/
/*@enum gen:ge.rs B2Source
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ge.rs B2LinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ge.rs B2LoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_b2 { pub use super::*; }
pub struct B2Data { pub n_w: nat, }
impl TypedSpec for B2 {
  type Source = B2Source;
  type LinkMirror = B2LinkMirror;
  type LoGMirror = B2LoGMirror;
  type DataT = B2Data;
  open spec fn links(&self) -> ISet<(NodeIndex, B2Source)> {
    ISet::new(|p: (NodeIndex, B2Source)| p.0.0 != 0 && match p.1 {
      B2Source::Up => self.up@.contains(p.0),
      B2Source::W(i) => i < self.w@.len() && self.w@[i as int] == p.0,
    })
  }
  open spec fn data(&self) -> B2Data { B2Data { n_w: self.w@.len(), } }
  open spec fn place_ok(d: B2Data, s: B2Source) -> bool { match s {
      B2Source::Up => true,
      B2Source::W(i) => i < d.n_w,
  } }
  open spec fn single(s: B2Source) -> bool { match s {
      B2Source::Up => false,
      B2Source::W(i) => true,
  } }
  open spec fn mirror(s: B2Source) -> B2LinkMirror { match s {
      B2Source::Up => B2LinkMirror::Up,
      B2Source::W(i) => B2LinkMirror::W,
  } }
  open spec fn source(l: B2LinkMirror) -> B2Source { match l {
      B2LinkMirror::Up => B2Source::Up,
      B2LinkMirror::W => B2Source::W(0),
  } }
  open spec fn is_vec(l: B2LinkMirror) -> bool { match l {
      B2LinkMirror::Up => false,
      B2LinkMirror::W => true,
  } }
  open spec fn is_field(l: B2LinkMirror) -> bool { true }
  open spec fn in_log(g: B2LoGMirror, l: B2LinkMirror) -> bool { match (g, l) {
    (B2LoGMirror::Up, B2LinkMirror::Up) => true,
    (B2LoGMirror::W, B2LinkMirror::W) => true,
    (B2LoGMirror::Ring, B2LinkMirror::Up) => true,
    (B2LoGMirror::DeepEnd, B2LinkMirror::W) => true,
    (B2LoGMirror::East, B2LinkMirror::W) => true,
    _ => false,
  } }
  open spec fn has(&self, l: B2LinkMirror, x: NodeIndex) -> bool { match l {
      B2LinkMirror::Up => self.up@.contains(x),
      B2LinkMirror::W => self.w@.contains(x),
  } }
  open spec fn cnt_of(&self, l: B2LinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      B2LinkMirror::Up => if self.up@.contains(x) { 1 } else { 0 },
      B2LinkMirror::W => cnt(self.w@, x),
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "ring"@ { self.cnt_of(B2LinkMirror::Up, x) } else if name == "deep_end"@ { self.cnt_of(B2LinkMirror::W, x) } else if name == "east"@ { self.cnt_of(B2LinkMirror::W, x) } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<B2LinkMirror> { if name == "up"@ { Some(B2LinkMirror::Up) } else if name == "w"@ { Some(B2LinkMirror::W) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<B2LoGMirror> { if name == "up"@ { Some(B2LoGMirror::Up) } else if name == "w"@ { Some(B2LoGMirror::W) } else if name == "ring"@ { Some(B2LoGMirror::Ring) } else if name == "deep_end"@ { Some(B2LoGMirror::DeepEnd) } else if name == "east"@ { Some(B2LoGMirror::East) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { { None } }
  open spec fn names() -> Seq<&'static str> { seq!["up", "w"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Set, LinkType::Vec] }
  open spec fn mirrors() -> Seq<B2LinkMirror> { seq![B2LinkMirror::Up, B2LinkMirror::W] }
  open spec fn dnames() -> Seq<&'static str> { seq![] }
  proof fn law_has(&self, l: B2LinkMirror, x: NodeIndex) {
    if l is Up && self.has(l, x) { assert(self.links().contains((x, B2Source::Up))); }
    if l is W && self.has(l, x) { let j = choose|j: int| 0 <= j < self.w@.len() && self.w@[j] == x; assert(self.w.len() == self.w@.len()); assert(self.links().contains((x, B2Source::W(j as usize)))); }
    if l is W { assert forall|s: B2Source| #[trigger] self.links().contains((x, s)) && Self::mirror(s) == l implies self.has(l, x) by { } }
  }
}
impl B2Source {
/*@fn gen:ge.rs B2Source::to_link_mirror
#props C12
#ensures
  r == B2::mirror(self),
@*/
}
impl B2LinkMirror {
/*@fn gen:ge.rs B2LinkMirror::to_source
#props C12
#requires[T]
  !B2::is_vec(self),
#ensures
  r == B2::source(self), !B2::is_vec(self),
@*/
}
impl B2LoGMirror {
/*@fn gen:ge.rs B2LoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> B2::in_log(self, #[trigger] r@[i]),
  forall|l: B2LinkMirror| #[trigger] B2::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is Up { assert(vf_ret@.contains(B2LinkMirror::Up)); }
    if self is W { assert(vf_ret@.contains(B2LinkMirror::W)); }
    if self is Ring { assert(vf_ret@.contains(B2LinkMirror::Up)); }
    if self is DeepEnd { assert(vf_ret@.contains(B2LinkMirror::W)); }
    if self is East { assert(vf_ret@.contains(B2LinkMirror::W)); }
  }
@*/
}
impl TypedNode for B2 {
/*@fn gen:ge.rs B2 as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.up before
  let ghost vf_pre$n = sources@;
  proof { met_none(vf_all$n); }
#loop @self.up
  forall|p: (NodeIndex, B2Source)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 == B2Source::Up && met(vf_all$n, vf_it$n.pos() as int, p.0)),
  sources@.no_duplicates(),
#loop @self.up begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.up after
  proof { met_all(self.up@, vf_all$n); }
#loop @self.w before
  let ghost vf_pre$n = sources@;
#loop @self.w
  forall|p: (NodeIndex, B2Source)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 is W && p.1->W_0 < vf_it$n.pos() && self.w@[p.1->W_0 as int] == p.0),
  sources@.no_duplicates(),
#end
  proof {
    assert forall|p: (NodeIndex, B2Source)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:ge.rs B2 as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.up before
  proof { met_none(vf_all$n); }
#loop @self.up
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) { 1nat } else { 0 }),
#loop @self.up begin
  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @self.up after
  proof { met_all(self.up@, vf_all$n); }
#loop @self.w before
  proof { take_none(self.w@); }
#loop @self.w
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 == 0 { 0 } else { cnt(self.w@.take(vf_it$n.pos() as int), x) }),
#loop @self.w begin
  proof { cnt_take(self.w@, vf_it$n.pos() - 1); }
#loop @self.w after
  proof { take_all(self.w@); }
@*/
/*@fn gen:ge.rs B2 as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if source is W { let j = source->W_0 as int; if self.w@[j].0 != 0 { assert(self.links().contains((self.w@[j], source))); } }
  }
#end
  proof { assert forall|p: (NodeIndex, B2Source)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == B2Source::Up || q is W); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:ge.rs B2 as TypedNode::add_link
#props C12 C04
#start
  proof {

  }
#end
  proof { assert forall|p: (NodeIndex, B2Source)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == B2Source::Up || q is W); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:ge.rs B2 as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, B2Source)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == B2Source::Up || q is W); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:ge.rs B2 as TypedNode::contains_link
#props C12 C04
#loop @self.w before
  proof { take_none(self.w@); }
#loop @self.w
  vf_acc$n == self.w@.take(vf_it$n.pos() as int).contains(target),
#loop @self.w begin
  proof { take_step(self.w@, vf_it$n.pos() - 1); }
#loop @self.w after
  proof { take_all(self.w@); }
@*/
/*@fn gen:ge.rs B2 as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:ge.rs B2 as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:ge.rs B2 as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:ge.rs B2 as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:ge.rs B2 as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("deep_end"); reveal_strlit("east"); reveal_strlit("ring"); reveal_strlit("up"); reveal_strlit("w"); assert("deep_end"@.len() != "east"@.len()); assert("deep_end"@.len() != "ring"@.len()); assert("deep_end"@.len() != "up"@.len()); assert("deep_end"@.len() != "w"@.len()); assert("east"@[0] != "ring"@[0]); assert("east"@.len() != "up"@.len()); assert("east"@.len() != "w"@.len()); assert("ring"@.len() != "up"@.len()); assert("ring"@.len() != "w"@.len()); assert("up"@.len() != "w"@.len()); }
@*/
/*@fn gen:ge.rs B2 as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("deep_end"); reveal_strlit("east"); reveal_strlit("ring"); reveal_strlit("up"); reveal_strlit("w"); assert("deep_end"@.len() != "east"@.len()); assert("deep_end"@.len() != "ring"@.len()); assert("deep_end"@.len() != "up"@.len()); assert("deep_end"@.len() != "w"@.len()); assert("east"@[0] != "ring"@[0]); assert("east"@.len() != "up"@.len()); assert("east"@.len() != "w"@.len()); assert("ring"@.len() != "up"@.len()); assert("ring"@.len() != "w"@.len()); assert("up"@.len() != "w"@.len()); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:ge.rs B2 as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("deep_end"); reveal_strlit("east"); reveal_strlit("ring"); reveal_strlit("up"); reveal_strlit("w"); assert("deep_end"@.len() != "east"@.len()); assert("deep_end"@.len() != "ring"@.len()); assert("deep_end"@.len() != "up"@.len()); assert("deep_end"@.len() != "w"@.len()); assert("east"@[0] != "ring"@[0]); assert("east"@.len() != "up"@.len()); assert("east"@.len() != "w"@.len()); assert("ring"@.len() != "up"@.len()); assert("ring"@.len() != "w"@.len()); assert("up"@.len() != "w"@.len()); }
@*/
/*@fn gen:ge.rs B2 as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("deep_end"); reveal_strlit("east"); reveal_strlit("ring"); reveal_strlit("up"); reveal_strlit("w"); assert("deep_end"@.len() != "east"@.len()); assert("deep_end"@.len() != "ring"@.len()); assert("deep_end"@.len() != "up"@.len()); assert("deep_end"@.len() != "w"@.len()); assert("east"@[0] != "ring"@[0]); assert("east"@.len() != "up"@.len()); assert("east"@.len() != "w"@.len()); assert("ring"@.len() != "up"@.len()); assert("ring"@.len() != "w"@.len()); assert("up"@.len() != "w"@.len()); }
@*/
/*@fn gen:ge.rs B2 as TypedNode::to_source
#props C12
@*/
/*@fn gen:ge.rs B2 as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:ge.rs B2 as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is Up { assert(vf_ret@.contains(B2LoGMirror::Up)); assert(vf_ret@.contains(B2LoGMirror::Ring)); }
    if input is W { assert(vf_ret@.contains(B2LoGMirror::W)); assert(vf_ret@.contains(B2LoGMirror::DeepEnd)); assert(vf_ret@.contains(B2LoGMirror::East)); }
  }
@*/
}
// ---------------- Leaf ----------------
/*@struct gen:ge.rs Leaf
@*/
/*@enum gen:ge.rs LeafSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ge.rs LeafLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ge.rs LeafLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_leaf { pub use super::*; }
pub struct LeafData { pub val: i64, }
impl TypedSpec for Leaf {
  type Source = LeafSource;
  type LinkMirror = LeafLinkMirror;
  type LoGMirror = LeafLoGMirror;
  type DataT = LeafData;
  open spec fn links(&self) -> ISet<(NodeIndex, LeafSource)> {
    ISet::new(|p: (NodeIndex, LeafSource)| p.0.0 != 0 && match p.1 {
      LeafSource::Up => self.up == p.0,
    })
  }
  open spec fn data(&self) -> LeafData { LeafData { val: self.val, } }
  open spec fn place_ok(d: LeafData, s: LeafSource) -> bool { match s {
      LeafSource::Up => true,
  } }
  open spec fn single(s: LeafSource) -> bool { match s {
      LeafSource::Up => true,
  } }
  open spec fn mirror(s: LeafSource) -> LeafLinkMirror { match s {
      LeafSource::Up => LeafLinkMirror::Up,
  } }
  open spec fn source(l: LeafLinkMirror) -> LeafSource { match l {
      LeafLinkMirror::Up => LeafSource::Up,
  } }
  open spec fn is_vec(l: LeafLinkMirror) -> bool { match l {
      LeafLinkMirror::Up => false,
  } }
  open spec fn is_field(l: LeafLinkMirror) -> bool { true }
  open spec fn in_log(g: LeafLoGMirror, l: LeafLinkMirror) -> bool { match (g, l) {
    (LeafLoGMirror::Up, LeafLinkMirror::Up) => true,
    (LeafLoGMirror::Ring, LeafLinkMirror::Up) => true,
    _ => false,
  } }
  open spec fn has(&self, l: LeafLinkMirror, x: NodeIndex) -> bool { match l {
      LeafLinkMirror::Up => self.up == x,
  } }
  open spec fn cnt_of(&self, l: LeafLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      LeafLinkMirror::Up => if self.up == x { 1 } else { 0 },
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { if name == "ring"@ { self.cnt_of(LeafLinkMirror::Up, x) } else if name == "east"@ { 0 } else { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<LeafLinkMirror> { if name == "up"@ { Some(LeafLinkMirror::Up) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<LeafLoGMirror> { if name == "up"@ { Some(LeafLoGMirror::Up) } else if name == "ring"@ { Some(LeafLoGMirror::Ring) } else if name == "east"@ { Some(LeafLoGMirror::East) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { if name == "val"@ { vf_any::<i64, T>(self.val) } else { None } }
  open spec fn names() -> Seq<&'static str> { seq!["up"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Point] }
  open spec fn mirrors() -> Seq<LeafLinkMirror> { seq![LeafLinkMirror::Up] }
  open spec fn dnames() -> Seq<&'static str> { seq!["val"] }
  proof fn law_has(&self, l: LeafLinkMirror, x: NodeIndex) {
    if l is Up && self.has(l, x) { assert(self.links().contains((x, LeafSource::Up))); }
  }
}
impl LeafSource {
/*@fn gen:ge.rs LeafSource::to_link_mirror
#props C12
#ensures
  r == Leaf::mirror(self),
@*/
}
impl LeafLinkMirror {
/*@fn gen:ge.rs LeafLinkMirror::to_source
#props C12
#requires[T]
  !Leaf::is_vec(self),
#ensures
  r == Leaf::source(self), !Leaf::is_vec(self),
@*/
}
impl LeafLoGMirror {
/*@fn gen:ge.rs LeafLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> Leaf::in_log(self, #[trigger] r@[i]),
  forall|l: LeafLinkMirror| #[trigger] Leaf::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is Up { assert(vf_ret@.contains(LeafLinkMirror::Up)); }
    if self is Ring { assert(vf_ret@.contains(LeafLinkMirror::Up)); }
    if self is East {  }
  }
@*/
}
impl TypedNode for Leaf {
/*@fn gen:ge.rs Leaf as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#end
  proof {
    assert forall|p: (NodeIndex, LeafSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by { assert(p.1 == LeafSource::Up); }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:ge.rs Leaf as TypedNode::iter_links
#props C12 C07
#box id
@*/
/*@fn gen:ge.rs Leaf as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if self.up.0 != 0 { assert(self.links().contains((self.up, LeafSource::Up))); }
  }
#end
  proof { assert forall|p: (NodeIndex, LeafSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == LeafSource::Up); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:ge.rs Leaf as TypedNode::add_link
#props C12 C04
#start
  proof {
    if self.up.0 != 0 { assert(self.links().contains((self.up, LeafSource::Up))); }
  }
#end
  proof { assert forall|p: (NodeIndex, LeafSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == LeafSource::Up); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:ge.rs Leaf as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, LeafSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == LeafSource::Up); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:ge.rs Leaf as TypedNode::contains_link
#props C12 C04
@*/
/*@fn gen:ge.rs Leaf as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:ge.rs Leaf as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:ge.rs Leaf as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:ge.rs Leaf as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:ge.rs Leaf as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("east"); reveal_strlit("ring"); reveal_strlit("up"); reveal_strlit("val"); assert("east"@[0] != "ring"@[0]); assert("east"@.len() != "up"@.len()); assert("east"@.len() != "val"@.len()); assert("ring"@.len() != "up"@.len()); assert("ring"@.len() != "val"@.len()); assert("up"@.len() != "val"@.len()); }
@*/
/*@fn gen:ge.rs Leaf as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("east"); reveal_strlit("ring"); reveal_strlit("up"); reveal_strlit("val"); assert("east"@[0] != "ring"@[0]); assert("east"@.len() != "up"@.len()); assert("east"@.len() != "val"@.len()); assert("ring"@.len() != "up"@.len()); assert("ring"@.len() != "val"@.len()); assert("up"@.len() != "val"@.len()); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:ge.rs Leaf as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("east"); reveal_strlit("ring"); reveal_strlit("up"); reveal_strlit("val"); assert("east"@[0] != "ring"@[0]); assert("east"@.len() != "up"@.len()); assert("east"@.len() != "val"@.len()); assert("ring"@.len() != "up"@.len()); assert("ring"@.len() != "val"@.len()); assert("up"@.len() != "val"@.len()); }
@*/
/*@fn gen:ge.rs Leaf as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("east"); reveal_strlit("ring"); reveal_strlit("up"); reveal_strlit("val"); assert("east"@[0] != "ring"@[0]); assert("east"@.len() != "up"@.len()); assert("east"@.len() != "val"@.len()); assert("ring"@.len() != "up"@.len()); assert("ring"@.len() != "val"@.len()); assert("up"@.len() != "val"@.len()); }
@*/
/*@fn gen:ge.rs Leaf as TypedNode::to_source
#props C12
@*/
/*@fn gen:ge.rs Leaf as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:ge.rs Leaf as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is Up { assert(vf_ret@.contains(LeafLoGMirror::Up)); assert(vf_ret@.contains(LeafLoGMirror::Ring)); }
  }
@*/
}
// ---------------- Void ----------------
/*@struct gen:ge.rs Void
@*/
/*@enum gen:ge.rs VoidSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ge.rs VoidLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ge.rs VoidLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_void { pub use super::*; }
pub struct VoidData {  }
impl TypedSpec for Void {
  type Source = VoidSource;
  type LinkMirror = VoidLinkMirror;
  type LoGMirror = VoidLoGMirror;
  type DataT = VoidData;
  open spec fn links(&self) -> ISet<(NodeIndex, VoidSource)> {
    ISet::new(|p: (NodeIndex, VoidSource)| p.0.0 != 0 && match p.1 {
      VoidSource::Empty => false,
    })
  }
  open spec fn data(&self) -> VoidData { VoidData {  } }
  open spec fn place_ok(d: VoidData, s: VoidSource) -> bool { match s {
      VoidSource::Empty => false,
  } }
  open spec fn single(s: VoidSource) -> bool { match s {
      VoidSource::Empty => true,
  } }
  open spec fn mirror(s: VoidSource) -> VoidLinkMirror { match s {
      VoidSource::Empty => VoidLinkMirror::Empty,
  } }
  open spec fn source(l: VoidLinkMirror) -> VoidSource { match l {
      VoidLinkMirror::Empty => VoidSource::Empty,
  } }
  open spec fn is_vec(l: VoidLinkMirror) -> bool { match l {
      VoidLinkMirror::Empty => false,
  } }
  open spec fn is_field(l: VoidLinkMirror) -> bool { false }
  open spec fn in_log(g: VoidLoGMirror, l: VoidLinkMirror) -> bool { match (g, l) {
    _ => false,
  } }
  open spec fn has(&self, l: VoidLinkMirror, x: NodeIndex) -> bool { match l {
      VoidLinkMirror::Empty => false,
  } }
  open spec fn cnt_of(&self, l: VoidLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      VoidLinkMirror::Empty => 0,
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<VoidLinkMirror> { { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<VoidLoGMirror> { { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { { None } }
  open spec fn names() -> Seq<&'static str> { seq![] }
  open spec fn kinds() -> Seq<LinkType> { seq![] }
  open spec fn mirrors() -> Seq<VoidLinkMirror> { seq![] }
  open spec fn dnames() -> Seq<&'static str> { seq![] }
  proof fn law_has(&self, l: VoidLinkMirror, x: NodeIndex) {
  }
}
impl VoidSource {
/*@fn gen:ge.rs VoidSource::to_link_mirror
#props C12
#ensures
  r == Void::mirror(self),
@*/
}
impl VoidLinkMirror {
/*@fn gen:ge.rs VoidLinkMirror::to_source
#props C12
#requires[T]
  !Void::is_vec(self),
#ensures
  r == Void::source(self), !Void::is_vec(self),
@*/
}
impl VoidLoGMirror {
/*@fn gen:ge.rs VoidLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> !Void::is_field(#[trigger] r@[i]),
  forall|l: VoidLinkMirror| #[trigger] Void::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {

  }
@*/
}
impl TypedNode for Void {
/*@fn gen:ge.rs Void as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#end
  proof {
    assert forall|p: (NodeIndex, VoidSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:ge.rs Void as TypedNode::iter_links
#props C12 C07
#box id
@*/
/*@fn gen:ge.rs Void as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();

  }
#end
  proof { assert forall|p: (NodeIndex, VoidSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == VoidSource::Empty); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:ge.rs Void as TypedNode::add_link
#props C12 C04
#start
  proof {

  }
#end
  proof { assert forall|p: (NodeIndex, VoidSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == VoidSource::Empty); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:ge.rs Void as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, VoidSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == VoidSource::Empty); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:ge.rs Void as TypedNode::contains_link
#props C12 C04
@*/
/*@fn gen:ge.rs Void as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:ge.rs Void as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:ge.rs Void as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:ge.rs Void as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:ge.rs Void as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("Void"); }
@*/
/*@fn gen:ge.rs Void as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("Void"); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:ge.rs Void as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("Void"); }
@*/
/*@fn gen:ge.rs Void as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("Void"); }
@*/
/*@fn gen:ge.rs Void as TypedNode::to_source
#props C12
@*/
/*@fn gen:ge.rs Void as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:ge.rs Void as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {

  }
@*/
}
// ---------------- GeTree ----------------
/*@enum gen:ge.rs GeTree
@*/
/*@enum gen:ge.rs GeTreeDiscriminant
#props C07 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ge.rs GeTreeSourceEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ge.rs GeTreeLinkMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:ge.rs GeTreeLoGMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_ge_tree { pub use super::*; }
pub enum GeTreeData { HTTPNode(HTTPNodeData), Leaf(LeafData), B2(B2Data), LeafAlt(LeafData), Void(VoidData), }
impl NodeDiscriminant for GeTreeDiscriminant {
  open spec fn vf_first() -> Self { GeTreeDiscriminant::HTTPNode }
  open spec fn vf_succ(self) -> Option<Self> { match self { GeTreeDiscriminant::HTTPNode => Some(GeTreeDiscriminant::Leaf), GeTreeDiscriminant::Leaf => Some(GeTreeDiscriminant::B2), GeTreeDiscriminant::B2 => Some(GeTreeDiscriminant::LeafAlt), GeTreeDiscriminant::LeafAlt => Some(GeTreeDiscriminant::Void), GeTreeDiscriminant::Void => None, } }
/*@fn gen:ge.rs GeTreeDiscriminant as NodeDiscriminant::first
#props C07
@*/
/*@fn gen:ge.rs GeTreeDiscriminant as NodeDiscriminant::next
#props C07
@*/
}
impl Discriminated<GeTreeDiscriminant> for GeTree {
  open spec fn disc(&self) -> GeTreeDiscriminant { match self { GeTree::HTTPNode(_) => GeTreeDiscriminant::HTTPNode, GeTree::Leaf(_) => GeTreeDiscriminant::Leaf, GeTree::B2(_) => GeTreeDiscriminant::B2, GeTree::LeafAlt(_) => GeTreeDiscriminant::LeafAlt, GeTree::Void(_) => GeTreeDiscriminant::Void, } }
/*@fn gen:ge.rs GeTree as Discriminated::discriminant
#props C07 C12
@*/
}
impl NodeSpec for GeTree {
  type SourceEnum = GeTreeSourceEnum;
  type LinkMirrorEnum = GeTreeLinkMirrorEnum;
  type LoGMirrorEnum = GeTreeLoGMirrorEnum;
  type Discriminant = GeTreeDiscriminant;
  type DataT = GeTreeData;
  open spec fn links(&self) -> ISet<(NodeIndex, GeTreeSourceEnum)> {
    ISet::new(|p: (NodeIndex, GeTreeSourceEnum)| match (*self, p.1) {
      (GeTree::HTTPNode(x), GeTreeSourceEnum::HTTPNode(s)) => x.links().contains((p.0, s)),
      (GeTree::Leaf(x), GeTreeSourceEnum::Leaf(s)) => x.links().contains((p.0, s)),
      (GeTree::B2(x), GeTreeSourceEnum::B2(s)) => x.links().contains((p.0, s)),
      (GeTree::LeafAlt(x), GeTreeSourceEnum::LeafAlt(s)) => x.links().contains((p.0, s)),
      (GeTree::Void(x), GeTreeSourceEnum::Void(s)) => x.links().contains((p.0, s)),
      _ => false,
    })
  }
  open spec fn data(&self) -> GeTreeData { match self {
    GeTree::HTTPNode(x) => GeTreeData::HTTPNode(x.data()),
    GeTree::Leaf(x) => GeTreeData::Leaf(x.data()),
    GeTree::B2(x) => GeTreeData::B2(x.data()),
    GeTree::LeafAlt(x) => GeTreeData::LeafAlt(x.data()),
    GeTree::Void(x) => GeTreeData::Void(x.data()),
  } }
  open spec fn place_ok(d: GeTreeData, s: GeTreeSourceEnum) -> bool { match (d, s) {
    (GeTreeData::HTTPNode(d), GeTreeSourceEnum::HTTPNode(s)) => HTTPNode::place_ok(d, s),
    (GeTreeData::Leaf(d), GeTreeSourceEnum::Leaf(s)) => Leaf::place_ok(d, s),
    (GeTreeData::B2(d), GeTreeSourceEnum::B2(s)) => B2::place_ok(d, s),
    (GeTreeData::LeafAlt(d), GeTreeSourceEnum::LeafAlt(s)) => Leaf::place_ok(d, s),
    (GeTreeData::Void(d), GeTreeSourceEnum::Void(s)) => Void::place_ok(d, s),
    _ => false,
  } }
  open spec fn single(s: GeTreeSourceEnum) -> bool { match s {
    GeTreeSourceEnum::HTTPNode(s) => HTTPNode::single(s),
    GeTreeSourceEnum::Leaf(s) => Leaf::single(s),
    GeTreeSourceEnum::B2(s) => B2::single(s),
    GeTreeSourceEnum::LeafAlt(s) => Leaf::single(s),
    GeTreeSourceEnum::Void(s) => Void::single(s),
  } }
  open spec fn mirror(s: GeTreeSourceEnum) -> GeTreeLinkMirrorEnum { match s {
    GeTreeSourceEnum::HTTPNode(s) => GeTreeLinkMirrorEnum::HTTPNode(HTTPNode::mirror(s)),
    GeTreeSourceEnum::Leaf(s) => GeTreeLinkMirrorEnum::Leaf(Leaf::mirror(s)),
    GeTreeSourceEnum::B2(s) => GeTreeLinkMirrorEnum::B2(B2::mirror(s)),
    GeTreeSourceEnum::LeafAlt(s) => GeTreeLinkMirrorEnum::LeafAlt(Leaf::mirror(s)),
    GeTreeSourceEnum::Void(s) => GeTreeLinkMirrorEnum::Void(Void::mirror(s)),
  } }
  open spec fn source(l: GeTreeLinkMirrorEnum) -> GeTreeSourceEnum { match l {
    GeTreeLinkMirrorEnum::HTTPNode(l) => GeTreeSourceEnum::HTTPNode(HTTPNode::source(l)),
    GeTreeLinkMirrorEnum::Leaf(l) => GeTreeSourceEnum::Leaf(Leaf::source(l)),
    GeTreeLinkMirrorEnum::B2(l) => GeTreeSourceEnum::B2(B2::source(l)),
    GeTreeLinkMirrorEnum::LeafAlt(l) => GeTreeSourceEnum::LeafAlt(Leaf::source(l)),
    GeTreeLinkMirrorEnum::Void(l) => GeTreeSourceEnum::Void(Void::source(l)),
  } }
  open spec fn is_vec(l: GeTreeLinkMirrorEnum) -> bool { match l {
    GeTreeLinkMirrorEnum::HTTPNode(l) => HTTPNode::is_vec(l),
    GeTreeLinkMirrorEnum::Leaf(l) => Leaf::is_vec(l),
    GeTreeLinkMirrorEnum::B2(l) => B2::is_vec(l),
    GeTreeLinkMirrorEnum::LeafAlt(l) => Leaf::is_vec(l),
    GeTreeLinkMirrorEnum::Void(l) => Void::is_vec(l),
  } }
  open spec fn is_field(l: GeTreeLinkMirrorEnum) -> bool { match l {
    GeTreeLinkMirrorEnum::HTTPNode(l) => HTTPNode::is_field(l),
    GeTreeLinkMirrorEnum::Leaf(l) => Leaf::is_field(l),
    GeTreeLinkMirrorEnum::B2(l) => B2::is_field(l),
    GeTreeLinkMirrorEnum::LeafAlt(l) => Leaf::is_field(l),
    GeTreeLinkMirrorEnum::Void(l) => Void::is_field(l),
  } }
  open spec fn owner(l: GeTreeLinkMirrorEnum) -> GeTreeDiscriminant { match l {
    GeTreeLinkMirrorEnum::HTTPNode(_) => GeTreeDiscriminant::HTTPNode,
    GeTreeLinkMirrorEnum::Leaf(_) => GeTreeDiscriminant::Leaf,
    GeTreeLinkMirrorEnum::B2(_) => GeTreeDiscriminant::B2,
    GeTreeLinkMirrorEnum::LeafAlt(_) => GeTreeDiscriminant::LeafAlt,
    GeTreeLinkMirrorEnum::Void(_) => GeTreeDiscriminant::Void,
  } }
  open spec fn logs(l: GeTreeLinkMirrorEnum) -> ISet<GeTreeLoGMirrorEnum> {
    ISet::new(|g: GeTreeLoGMirrorEnum| match (l, g) {
      (GeTreeLinkMirrorEnum::HTTPNode(l), GeTreeLoGMirrorEnum::HTTPNode(g)) => HTTPNode::is_field(l) && HTTPNode::in_log(g, l),
      (GeTreeLinkMirrorEnum::Leaf(l), GeTreeLoGMirrorEnum::Leaf(g)) => Leaf::is_field(l) && Leaf::in_log(g, l),
      (GeTreeLinkMirrorEnum::B2(l), GeTreeLoGMirrorEnum::B2(g)) => B2::is_field(l) && B2::in_log(g, l),
      (GeTreeLinkMirrorEnum::LeafAlt(l), GeTreeLoGMirrorEnum::LeafAlt(g)) => Leaf::is_field(l) && Leaf::in_log(g, l),
      (GeTreeLinkMirrorEnum::Void(l), GeTreeLoGMirrorEnum::Void(g)) => Void::is_field(l) && Void::in_log(g, l),
      _ => false,
    })
  }
  open spec fn bd_log(g: GeTreeLoGMirrorEnum) -> ISet<GeTreeLinkMirrorEnum> {
    ISet::new(|m: GeTreeLinkMirrorEnum| match (g, m) {
      (GeTreeLoGMirrorEnum::HTTPNode(HTTPNodeLoGMirror::Ring), GeTreeLinkMirrorEnum::B2(B2LinkMirror::Up)) => true,
      (GeTreeLoGMirrorEnum::HTTPNode(HTTPNodeLoGMirror::Ring), GeTreeLinkMirrorEnum::HTTPNode(HTTPNodeLinkMirror::To_2)) => true,
      (GeTreeLoGMirrorEnum::HTTPNode(HTTPNodeLoGMirror::Ring), GeTreeLinkMirrorEnum::HTTPNode(HTTPNodeLinkMirror::XYZ)) => true,
      (GeTreeLoGMirrorEnum::B2(B2LoGMirror::Ring), GeTreeLinkMirrorEnum::B2(B2LinkMirror::Up)) => true,
      (GeTreeLoGMirrorEnum::B2(B2LoGMirror::Ring), GeTreeLinkMirrorEnum::HTTPNode(HTTPNodeLinkMirror::To_2)) => true,
      (GeTreeLoGMirrorEnum::B2(B2LoGMirror::Ring), GeTreeLinkMirrorEnum::HTTPNode(HTTPNodeLinkMirror::XYZ)) => true,
      (GeTreeLoGMirrorEnum::B2(B2LoGMirror::Up), GeTreeLinkMirrorEnum::LeafAlt(LeafLinkMirror::Up)) => true,
      (GeTreeLoGMirrorEnum::Leaf(LeafLoGMirror::Up), GeTreeLinkMirrorEnum::LeafAlt(LeafLinkMirror::Up)) => true,
      (GeTreeLoGMirrorEnum::LeafAlt(LeafLoGMirror::Up), GeTreeLinkMirrorEnum::B2(B2LinkMirror::Up)) => true,
      (GeTreeLoGMirrorEnum::LeafAlt(LeafLoGMirror::Up), GeTreeLinkMirrorEnum::Leaf(LeafLinkMirror::Up)) => true,
      (GeTreeLoGMirrorEnum::LeafAlt(LeafLoGMirror::Up), GeTreeLinkMirrorEnum::LeafAlt(LeafLinkMirror::Up)) => true,
      _ => false,
    })
  }
  open spec fn allowed_log(g: GeTreeLoGMirrorEnum, d: GeTreeDiscriminant) -> bool { match g {
    GeTreeLoGMirrorEnum::HTTPNode(HTTPNodeLoGMirror::DeepEnd) => d is B2 || d is Leaf || d is LeafAlt,
    GeTreeLoGMirrorEnum::B2(B2LoGMirror::W) => d is HTTPNode || d is B2 || d is Leaf || d is LeafAlt,
    GeTreeLoGMirrorEnum::B2(B2LoGMirror::Up) => d is HTTPNode || d is Leaf || d is B2 || d is LeafAlt || d is Void,
    GeTreeLoGMirrorEnum::Leaf(LeafLoGMirror::Up) => d is HTTPNode || d is Leaf || d is B2 || d is LeafAlt || d is Void,
    GeTreeLoGMirrorEnum::LeafAlt(LeafLoGMirror::Up) => d is HTTPNode || d is Leaf || d is B2 || d is LeafAlt || d is Void,
    GeTreeLoGMirrorEnum::HTTPNode(HTTPNodeLoGMirror::Ring) => d is HTTPNode || d is B2,
    _ => true,
  } }
  open spec fn member(d: GeTreeDiscriminant, name: Seq<char>) -> bool { if name == "inner"@ { d is HTTPNode || d is B2 } else if name == "outer"@ { d is B2 || d is Leaf || d is LeafAlt } else if name == "all_of"@ { d is HTTPNode || d is Leaf || d is B2 || d is LeafAlt || d is Void } else if name == "void"@ { d is Void } else { false } }
  proof fn law_links(&self, y: NodeIndex, s: GeTreeSourceEnum) { }
  proof fn law_single(&self, y: NodeIndex, z: NodeIndex, s: GeTreeSourceEnum) { }
  proof fn law_data(&self, o: &Self) { }
  proof fn law_mirror(l: GeTreeLinkMirrorEnum, s: GeTreeSourceEnum) { }
  proof fn law_bd(g: GeTreeLoGMirrorEnum, m: GeTreeLinkMirrorEnum) { }
}
/// field m belongs to link or group g
pub open spec fn covers(g: GeTreeLoGMirrorEnum, m: GeTreeLinkMirrorEnum) -> bool { match (g, m) {
    (GeTreeLoGMirrorEnum::HTTPNode(g), GeTreeLinkMirrorEnum::HTTPNode(m)) => HTTPNode::in_log(g, m),
    (GeTreeLoGMirrorEnum::Leaf(g), GeTreeLinkMirrorEnum::Leaf(m)) => Leaf::in_log(g, m),
    (GeTreeLoGMirrorEnum::B2(g), GeTreeLinkMirrorEnum::B2(m)) => B2::in_log(g, m),
    (GeTreeLoGMirrorEnum::LeafAlt(g), GeTreeLinkMirrorEnum::LeafAlt(m)) => Leaf::in_log(g, m),
    (GeTreeLoGMirrorEnum::Void(g), GeTreeLinkMirrorEnum::Void(m)) => Void::in_log(g, m),
  _ => false,
} }
#[verifier::opaque]
pub open spec fn covered(s: Seq<GeTreeLoGMirrorEnum>, n: nat, m: GeTreeLinkMirrorEnum) -> bool decreases n { n > 0 && (covered(s, (n - 1) as nat, m) || covers(s[n - 1], m)) }
pub proof fn covered_none(s: Seq<GeTreeLoGMirrorEnum>) ensures forall|m: GeTreeLinkMirrorEnum| !#[trigger] covered(s, 0, m) { reveal(covered); }
pub proof fn covered_step(s: Seq<GeTreeLoGMirrorEnum>, n: nat)
  requires n < s.len()
  ensures forall|m: GeTreeLinkMirrorEnum| #[trigger] covered(s, n + 1, m) <==> covered(s, n, m) || covers(s[n as int], m)
{ reveal(covered); }
pub open spec fn cnt_in(n: GeTree, l: GeTreeLinkMirrorEnum, x: NodeIndex) -> nat { match (n, l) {
    (GeTree::HTTPNode(n), GeTreeLinkMirrorEnum::HTTPNode(l)) => n.cnt_of(l, x),
    (GeTree::Leaf(n), GeTreeLinkMirrorEnum::Leaf(l)) => n.cnt_of(l, x),
    (GeTree::B2(n), GeTreeLinkMirrorEnum::B2(l)) => n.cnt_of(l, x),
    (GeTree::LeafAlt(n), GeTreeLinkMirrorEnum::LeafAlt(l)) => n.cnt_of(l, x),
    (GeTree::Void(n), GeTreeLinkMirrorEnum::Void(l)) => n.cnt_of(l, x),
  _ => 0,
} }
pub proof fn has_link_is(n: GeTree, l: GeTreeLinkMirrorEnum, x: NodeIndex)
  requires x.0 != 0
  ensures has_link(n, l, x) == match (n, l) {
    (GeTree::HTTPNode(n), GeTreeLinkMirrorEnum::HTTPNode(l)) => n.has(l, x),
    (GeTree::Leaf(n), GeTreeLinkMirrorEnum::Leaf(l)) => n.has(l, x),
    (GeTree::B2(n), GeTreeLinkMirrorEnum::B2(l)) => n.has(l, x),
    (GeTree::LeafAlt(n), GeTreeLinkMirrorEnum::LeafAlt(l)) => n.has(l, x),
    (GeTree::Void(n), GeTreeLinkMirrorEnum::Void(l)) => n.has(l, x),
    _ => false,
  }
{
  match (n, l) {
    (GeTree::HTTPNode(v), GeTreeLinkMirrorEnum::HTTPNode(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: HTTPNodeSource| #[trigger] v.links().contains((x, s)) && HTTPNode::mirror(s) == k; assert(n.links().contains((x, GeTreeSourceEnum::HTTPNode(s)))); }
      if has_link(n, l, x) { let s = choose|s: GeTreeSourceEnum| #[trigger] n.links().contains((x, s)) && GeTree::mirror(s) == l; assert(v.links().contains((x, s->HTTPNode_0))); }
    },
    (GeTree::Leaf(v), GeTreeLinkMirrorEnum::Leaf(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: LeafSource| #[trigger] v.links().contains((x, s)) && Leaf::mirror(s) == k; assert(n.links().contains((x, GeTreeSourceEnum::Leaf(s)))); }
      if has_link(n, l, x) { let s = choose|s: GeTreeSourceEnum| #[trigger] n.links().contains((x, s)) && GeTree::mirror(s) == l; assert(v.links().contains((x, s->Leaf_0))); }
    },
    (GeTree::B2(v), GeTreeLinkMirrorEnum::B2(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: B2Source| #[trigger] v.links().contains((x, s)) && B2::mirror(s) == k; assert(n.links().contains((x, GeTreeSourceEnum::B2(s)))); }
      if has_link(n, l, x) { let s = choose|s: GeTreeSourceEnum| #[trigger] n.links().contains((x, s)) && GeTree::mirror(s) == l; assert(v.links().contains((x, s->B2_0))); }
    },
    (GeTree::LeafAlt(v), GeTreeLinkMirrorEnum::LeafAlt(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: LeafSource| #[trigger] v.links().contains((x, s)) && Leaf::mirror(s) == k; assert(n.links().contains((x, GeTreeSourceEnum::LeafAlt(s)))); }
      if has_link(n, l, x) { let s = choose|s: GeTreeSourceEnum| #[trigger] n.links().contains((x, s)) && GeTree::mirror(s) == l; assert(v.links().contains((x, s->LeafAlt_0))); }
    },
    (GeTree::Void(v), GeTreeLinkMirrorEnum::Void(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: VoidSource| #[trigger] v.links().contains((x, s)) && Void::mirror(s) == k; assert(n.links().contains((x, GeTreeSourceEnum::Void(s)))); }
      if has_link(n, l, x) { let s = choose|s: GeTreeSourceEnum| #[trigger] n.links().contains((x, s)) && GeTree::mirror(s) == l; assert(v.links().contains((x, s->Void_0))); }
    },
    _ => { },
  }
}
impl NodeEnum for GeTree {
/*@fn gen:ge.rs GeTree as NodeEnum::iter_sources
#props C12 C02 C15 C14 C09
#box id
#loop @SourceEnum::HTTPNode
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GeTreeSourceEnum::HTTPNode(vf_all$n[j].1)),
#loop @SourceEnum::HTTPNode after
  proof { lift_sources::<HTTPNodeSource, GeTreeSourceEnum>(self->HTTPNode_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: HTTPNodeSource| GeTreeSourceEnum::HTTPNode(s), |t: GeTreeSourceEnum| t->HTTPNode_0); }
#loop @SourceEnum::Leaf
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GeTreeSourceEnum::Leaf(vf_all$n[j].1)),
#loop @SourceEnum::Leaf after
  proof { lift_sources::<LeafSource, GeTreeSourceEnum>(self->Leaf_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: LeafSource| GeTreeSourceEnum::Leaf(s), |t: GeTreeSourceEnum| t->Leaf_0); }
#loop @SourceEnum::B2
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GeTreeSourceEnum::B2(vf_all$n[j].1)),
#loop @SourceEnum::B2 after
  proof { lift_sources::<B2Source, GeTreeSourceEnum>(self->B2_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: B2Source| GeTreeSourceEnum::B2(s), |t: GeTreeSourceEnum| t->B2_0); }
#loop @SourceEnum::LeafAlt
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GeTreeSourceEnum::LeafAlt(vf_all$n[j].1)),
#loop @SourceEnum::LeafAlt after
  proof { lift_sources::<LeafSource, GeTreeSourceEnum>(self->LeafAlt_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: LeafSource| GeTreeSourceEnum::LeafAlt(s), |t: GeTreeSourceEnum| t->LeafAlt_0); }
#loop @SourceEnum::Void
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GeTreeSourceEnum::Void(vf_all$n[j].1)),
#loop @SourceEnum::Void after
  proof { lift_sources::<VoidSource, GeTreeSourceEnum>(self->Void_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: VoidSource| GeTreeSourceEnum::Void(s), |t: GeTreeSourceEnum| t->Void_0); }
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::modify_link
#props C12 C01 C02 C03 C04 C09
#ensures
  forall|m: GeTreeLinkMirrorEnum| #[trigger] r.bd_link_mirrors@.contains(m) <==> bd_of::<Self>(Self::mirror(source)).contains(m),
#start
  proof {
    if *self is HTTPNode && source is HTTPNode { assert((*self)->HTTPNode_0.links().contains((old_idx, source->HTTPNode_0)) == self.links().contains((old_idx, source))); assert((*self)->HTTPNode_0.links().contains((new_idx, source->HTTPNode_0)) == self.links().contains((new_idx, source))); }
    if *self is Leaf && source is Leaf { assert((*self)->Leaf_0.links().contains((old_idx, source->Leaf_0)) == self.links().contains((old_idx, source))); assert((*self)->Leaf_0.links().contains((new_idx, source->Leaf_0)) == self.links().contains((new_idx, source))); }
    if *self is B2 && source is B2 { assert((*self)->B2_0.links().contains((old_idx, source->B2_0)) == self.links().contains((old_idx, source))); assert((*self)->B2_0.links().contains((new_idx, source->B2_0)) == self.links().contains((new_idx, source))); }
    if *self is LeafAlt && source is LeafAlt { assert((*self)->LeafAlt_0.links().contains((old_idx, source->LeafAlt_0)) == self.links().contains((old_idx, source))); assert((*self)->LeafAlt_0.links().contains((new_idx, source->LeafAlt_0)) == self.links().contains((new_idx, source))); }
    if *self is Void && source is Void { assert((*self)->Void_0.links().contains((old_idx, source->Void_0)) == self.links().contains((old_idx, source))); assert((*self)->Void_0.links().contains((new_idx, source->Void_0)) == self.links().contains((new_idx, source))); }
  }
#end
  proof { assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::add_link
#props C12 C04
#start
  proof {
    if *self is HTTPNode && link is HTTPNode { assert(Self::single(Self::source(link)) == HTTPNode::single(HTTPNode::source(link->HTTPNode_0))); assert forall|z: NodeIndex| #[trigger] (*self)->HTTPNode_0.links().contains((z, HTTPNode::source(link->HTTPNode_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is Leaf && link is Leaf { assert(Self::single(Self::source(link)) == Leaf::single(Leaf::source(link->Leaf_0))); assert forall|z: NodeIndex| #[trigger] (*self)->Leaf_0.links().contains((z, Leaf::source(link->Leaf_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is B2 && link is B2 { assert(Self::single(Self::source(link)) == B2::single(B2::source(link->B2_0))); assert forall|z: NodeIndex| #[trigger] (*self)->B2_0.links().contains((z, B2::source(link->B2_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is LeafAlt && link is LeafAlt { assert(Self::single(Self::source(link)) == Leaf::single(Leaf::source(link->LeafAlt_0))); assert forall|z: NodeIndex| #[trigger] (*self)->LeafAlt_0.links().contains((z, Leaf::source(link->LeafAlt_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is Void && link is Void { assert(Self::single(Self::source(link)) == Void::single(Void::source(link->Void_0))); assert forall|z: NodeIndex| #[trigger] (*self)->Void_0.links().contains((z, Void::source(link->Void_0))) implies self.links().contains((z, Self::source(link))) by { } }
  }
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); } }
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::remove_link
#props C12 C04
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); } }
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::contains_link
#props C12 C04
#start
  proof { if target.0 != 0 { has_link_is(*self, link, target); } }
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::in_group
#props C13 C07
#start
  proof { reveal_strlit("inner"); reveal_strlit("outer"); reveal_strlit("all_of"); reveal_strlit("void"); assert("inner"@[0] != "outer"@[0]); assert("inner"@.len() != "all_of"@.len()); assert("inner"@.len() != "void"@.len()); assert("outer"@.len() != "all_of"@.len()); assert("outer"@.len() != "void"@.len()); assert("all_of"@.len() != "void"@.len()); }
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::to_source_enum
#props C12
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::to_link_mirror_enum
#props C12
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::to_log_mirror_enums
#props C13 C04 C05
#loop @LoGMirrorEnum::HTTPNode
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GeTreeLoGMirrorEnum::HTTPNode(*vf_all$n[j]),
#loop @LoGMirrorEnum::HTTPNode after
  proof { assert forall|g: GeTreeLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(HTTPNode::in_log(*vf_all$n[j], input->HTTPNode_0)); }
    if Self::logs(input).contains(g) { assert(HTTPNode::in_log(g->HTTPNode_0, input->HTTPNode_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->HTTPNode_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::Leaf
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GeTreeLoGMirrorEnum::Leaf(*vf_all$n[j]),
#loop @LoGMirrorEnum::Leaf after
  proof { assert forall|g: GeTreeLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(Leaf::in_log(*vf_all$n[j], input->Leaf_0)); }
    if Self::logs(input).contains(g) { assert(Leaf::in_log(g->Leaf_0, input->Leaf_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->Leaf_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::B2
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GeTreeLoGMirrorEnum::B2(*vf_all$n[j]),
#loop @LoGMirrorEnum::B2 after
  proof { assert forall|g: GeTreeLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(B2::in_log(*vf_all$n[j], input->B2_0)); }
    if Self::logs(input).contains(g) { assert(B2::in_log(g->B2_0, input->B2_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->B2_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::LeafAlt
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GeTreeLoGMirrorEnum::LeafAlt(*vf_all$n[j]),
#loop @LoGMirrorEnum::LeafAlt after
  proof { assert forall|g: GeTreeLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(Leaf::in_log(*vf_all$n[j], input->LeafAlt_0)); }
    if Self::logs(input).contains(g) { assert(Leaf::in_log(g->LeafAlt_0, input->LeafAlt_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->LeafAlt_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::Void
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GeTreeLoGMirrorEnum::Void(*vf_all$n[j]),
#loop @LoGMirrorEnum::Void after
  proof { assert forall|g: GeTreeLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(Void::in_log(*vf_all$n[j], input->Void_0)); }
    if Self::logs(input).contains(g) { assert(Void::in_log(g->Void_0, input->Void_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->Void_0; assert(vf_acc$n@[j] == g); }
  } }
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::get_bidiretional_link_mirrors_of_log
#props C04 C13
#loop @].into_iter().Self::expand_link_groups before
  proof { covered_none(vf_all$n); }
#loop @].into_iter().Self::expand_link_groups
  forall|m: GeTreeLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> covered(vf_all$n, vf_it$n.pos(), m),
#loop @].into_iter().Self::expand_link_groups begin
  proof { covered_step(vf_all$n, (vf_it$n.pos() - 1) as nat); }
#loop @].into_iter().Self::expand_link_groups after
  proof { assert forall|m: GeTreeLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> Self::bd_log(link).contains(m) by { reveal_with_fuel(covered, 8); } }
#loop @expand_link_groups before
  let ghost vf_pre$n = vf_acc$p@;
  proof { take_none(vf_all$n); }
#loop @expand_link_groups
  forall|m: GeTreeLinkMirrorEnum| #[trigger] vf_acc$p@.contains(m) <==> vf_pre$n.contains(m) || vf_all$n.take(vf_it$n.pos() as int).contains(m),
#loop @expand_link_groups begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @expand_link_groups after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::check_link_type_by_group
#props C05 C13
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::match_bd_link_group
#props C04 C13
#loop @LinkMirrorEnum::HTTPNode before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::HTTPNode
  forall|l: GeTreeLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GeTreeDiscriminant::HTTPNode,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::HTTPNode begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::HTTPNode after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::Leaf before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::Leaf
  forall|l: GeTreeLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GeTreeDiscriminant::Leaf,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::Leaf begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::Leaf after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::B2 before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::B2
  forall|l: GeTreeLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GeTreeDiscriminant::B2,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::B2 begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::B2 after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::LeafAlt before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::LeafAlt
  forall|l: GeTreeLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GeTreeDiscriminant::LeafAlt,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::LeafAlt begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::LeafAlt after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::Void before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::Void
  forall|l: GeTreeLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GeTreeDiscriminant::Void,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::Void begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::Void after
  proof { take_all(vf_all$n); }
@*/
}
impl GeTree {
/*@fn gen:ge.rs GeTree as NodeEnum::iter_links
#props C12
#requires[T]
  Self::owner(link) == self.disc(),
#ensures
  Self::owner(link) == self.disc(), r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == cnt_in(*self, link, x),
#replace
  Self::SourceEnum =>> GeTreeSourceEnum
  Self::LinkMirrorEnum =>> GeTreeLinkMirrorEnum
  Self::LoGMirrorEnum =>> GeTreeLoGMirrorEnum
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::check_link
#props C12
#ensures
  r == (Self::owner(link) == self.disc()),
#replace
  Self::SourceEnum =>> GeTreeSourceEnum
  Self::LinkMirrorEnum =>> GeTreeLinkMirrorEnum
  Self::LoGMirrorEnum =>> GeTreeLoGMirrorEnum
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::get_links_by_name
#props C12 C13 C07
#ensures
  r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == (match self {
    GeTree::HTTPNode(n) => match HTTPNode::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    GeTree::Leaf(n) => match Leaf::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    GeTree::B2(n) => match B2::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    GeTree::LeafAlt(n) => match Leaf::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    GeTree::Void(n) => match Void::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
  }),
#replace
  Self::SourceEnum =>> GeTreeSourceEnum
  Self::LinkMirrorEnum =>> GeTreeLinkMirrorEnum
  Self::LoGMirrorEnum =>> GeTreeLoGMirrorEnum
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::get_links_by_group
#props C13 C07
#ensures
  forall|x: NodeIndex| #[trigger] cnt(r@, x) == (match self {
    GeTree::HTTPNode(n) => n.grp_cnt(name@, x),
    GeTree::Leaf(n) => n.grp_cnt(name@, x),
    GeTree::B2(n) => n.grp_cnt(name@, x),
    GeTree::LeafAlt(n) => n.grp_cnt(name@, x),
    GeTree::Void(n) => n.grp_cnt(name@, x),
  }),
#replace
  Self::SourceEnum =>> GeTreeSourceEnum
  Self::LinkMirrorEnum =>> GeTreeLinkMirrorEnum
  Self::LoGMirrorEnum =>> GeTreeLoGMirrorEnum
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<T>(&self, name: &'static str) -> (r: Option<&T>)
#ensures
  r is Some == (match self {
    GeTree::HTTPNode(n) => n.dref::<T>(name@),
    GeTree::Leaf(n) => n.dref::<T>(name@),
    GeTree::B2(n) => n.dref::<T>(name@),
    GeTree::LeafAlt(n) => n.dref::<T>(name@),
    GeTree::Void(n) => n.dref::<T>(name@),
  }) is Some,
  r is Some ==> Some(*r->0) == (match self {
    GeTree::HTTPNode(n) => n.dref::<T>(name@),
    GeTree::Leaf(n) => n.dref::<T>(name@),
    GeTree::B2(n) => n.dref::<T>(name@),
    GeTree::LeafAlt(n) => n.dref::<T>(name@),
    GeTree::Void(n) => n.dref::<T>(name@),
  }),
#replace
  Self::SourceEnum =>> GeTreeSourceEnum
  Self::LinkMirrorEnum =>> GeTreeLinkMirrorEnum
  Self::LoGMirrorEnum =>> GeTreeLoGMirrorEnum
@*/
/*@fn gen:ge.rs GeTree as NodeEnum::expand_link_groups
#props C13 C04
#ensures
  forall|m: GeTreeLinkMirrorEnum| (Self::is_field(m) || !(input is Void)) ==> (#[trigger] r@.contains(m) <==> covers(input, m)),
#loop @LinkMirrorEnum::HTTPNode
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GeTreeLinkMirrorEnum::HTTPNode(*vf_all$n[j]),
#loop @LinkMirrorEnum::HTTPNode after
  proof { assert forall|m: GeTreeLinkMirrorEnum| (Self::is_field(m) || !(input is Void)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(HTTPNode::in_log(input->HTTPNode_0, *vf_all$n[j]) || !HTTPNode::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(HTTPNode::in_log(input->HTTPNode_0, m->HTTPNode_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->HTTPNode_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::Leaf
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GeTreeLinkMirrorEnum::Leaf(*vf_all$n[j]),
#loop @LinkMirrorEnum::Leaf after
  proof { assert forall|m: GeTreeLinkMirrorEnum| (Self::is_field(m) || !(input is Void)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(Leaf::in_log(input->Leaf_0, *vf_all$n[j]) || !Leaf::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(Leaf::in_log(input->Leaf_0, m->Leaf_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->Leaf_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::B2
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GeTreeLinkMirrorEnum::B2(*vf_all$n[j]),
#loop @LinkMirrorEnum::B2 after
  proof { assert forall|m: GeTreeLinkMirrorEnum| (Self::is_field(m) || !(input is Void)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(B2::in_log(input->B2_0, *vf_all$n[j]) || !B2::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(B2::in_log(input->B2_0, m->B2_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->B2_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::LeafAlt
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GeTreeLinkMirrorEnum::LeafAlt(*vf_all$n[j]),
#loop @LinkMirrorEnum::LeafAlt after
  proof { assert forall|m: GeTreeLinkMirrorEnum| (Self::is_field(m) || !(input is Void)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(Leaf::in_log(input->LeafAlt_0, *vf_all$n[j]) || !Leaf::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(Leaf::in_log(input->LeafAlt_0, m->LeafAlt_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->LeafAlt_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::Void
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GeTreeLinkMirrorEnum::Void(*vf_all$n[j]),
#loop @LinkMirrorEnum::Void after
  proof { assert forall|m: GeTreeLinkMirrorEnum| (Self::is_field(m) || !(input is Void)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(Void::in_log(input->Void_0, *vf_all$n[j]) || !Void::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(Void::in_log(input->Void_0, m->Void_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->Void_0; assert(vf_acc$n@[j] == m); }
  } }
#replace
  Self::SourceEnum =>> GeTreeSourceEnum
  Self::LinkMirrorEnum =>> GeTreeLinkMirrorEnum
  Self::LoGMirrorEnum =>> GeTreeLoGMirrorEnum
@*/
}
// ---------------- GeTreeArena ----------------
/*@struct gen:ge.rs GeTreeArena
@*/
/*@struct gen:ge.rs GeTreeIter
@*/
/*@struct gen:ge.rs GeTreeIntoIter
@*/
impl ArenaSpec for GeTreeArena {
  type V = GeTree;
  type D = GeTreeDiscriminant;
  open spec fn disp(&self) -> IMap<NodeIndex, GeTreeDiscriminant> { self._dispatcher@ }
  open spec fn cont(&self, d: GeTreeDiscriminant) -> IMap<usize, GeTree> { match d { GeTreeDiscriminant::HTTPNode => self.http_node@, GeTreeDiscriminant::Leaf => self.leaf@, GeTreeDiscriminant::B2 => self.b2@, GeTreeDiscriminant::LeafAlt => self.leaf_alt@, GeTreeDiscriminant::Void => self.void@, } }
  open spec fn dist(&self) -> IdDistributer { self._id_distributer }
}
/// a type's container holds the nodes of that type, and no index is in two containers
pub proof fn parts(a: GeTreeArena)
  requires arena_wf(a)
  ensures nodes_of(a) == lift(a.http_node@).union_prefer_right(lift(a.leaf@).union_prefer_right(lift(a.b2@).union_prefer_right(lift(a.leaf_alt@).union_prefer_right(lift(a.void@))))),
    lift(a.http_node@).dom().disjoint(lift(a.leaf@).dom()), lift(a.http_node@).dom().disjoint(lift(a.b2@).dom()), lift(a.http_node@).dom().disjoint(lift(a.leaf_alt@).dom()), lift(a.http_node@).dom().disjoint(lift(a.void@).dom()), lift(a.leaf@).dom().disjoint(lift(a.b2@).dom()), lift(a.leaf@).dom().disjoint(lift(a.leaf_alt@).dom()), lift(a.leaf@).dom().disjoint(lift(a.void@).dom()), lift(a.b2@).dom().disjoint(lift(a.leaf_alt@).dom()), lift(a.b2@).dom().disjoint(lift(a.void@).dom()), lift(a.leaf_alt@).dom().disjoint(lift(a.void@).dom()),
{
  reveal(arena_wf); reveal(nodes_of);
  assert forall|i: NodeIndex| #[trigger] lift(a.http_node@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GeTreeDiscriminant::HTTPNode by { assert(lift(a.http_node@).contains_key(i) == a.cont(GeTreeDiscriminant::HTTPNode).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.leaf@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GeTreeDiscriminant::Leaf by { assert(lift(a.leaf@).contains_key(i) == a.cont(GeTreeDiscriminant::Leaf).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.b2@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GeTreeDiscriminant::B2 by { assert(lift(a.b2@).contains_key(i) == a.cont(GeTreeDiscriminant::B2).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.leaf_alt@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GeTreeDiscriminant::LeafAlt by { assert(lift(a.leaf_alt@).contains_key(i) == a.cont(GeTreeDiscriminant::LeafAlt).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.void@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GeTreeDiscriminant::Void by { assert(lift(a.void@).contains_key(i) == a.cont(GeTreeDiscriminant::Void).contains_key(i.0)); }
  assert forall|i: NodeIndex| !(lift(a.http_node@).dom().contains(i) && lift(a.leaf@).dom().contains(i)) by { assert(lift(a.http_node@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::HTTPNode); assert(lift(a.leaf@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Leaf); } assert forall|i: NodeIndex| !(lift(a.http_node@).dom().contains(i) && lift(a.b2@).dom().contains(i)) by { assert(lift(a.http_node@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::HTTPNode); assert(lift(a.b2@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::B2); } assert forall|i: NodeIndex| !(lift(a.http_node@).dom().contains(i) && lift(a.leaf_alt@).dom().contains(i)) by { assert(lift(a.http_node@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::HTTPNode); assert(lift(a.leaf_alt@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::LeafAlt); } assert forall|i: NodeIndex| !(lift(a.http_node@).dom().contains(i) && lift(a.void@).dom().contains(i)) by { assert(lift(a.http_node@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::HTTPNode); assert(lift(a.void@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Void); } assert forall|i: NodeIndex| !(lift(a.leaf@).dom().contains(i) && lift(a.b2@).dom().contains(i)) by { assert(lift(a.leaf@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Leaf); assert(lift(a.b2@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::B2); } assert forall|i: NodeIndex| !(lift(a.leaf@).dom().contains(i) && lift(a.leaf_alt@).dom().contains(i)) by { assert(lift(a.leaf@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Leaf); assert(lift(a.leaf_alt@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::LeafAlt); } assert forall|i: NodeIndex| !(lift(a.leaf@).dom().contains(i) && lift(a.void@).dom().contains(i)) by { assert(lift(a.leaf@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Leaf); assert(lift(a.void@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Void); } assert forall|i: NodeIndex| !(lift(a.b2@).dom().contains(i) && lift(a.leaf_alt@).dom().contains(i)) by { assert(lift(a.b2@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::B2); assert(lift(a.leaf_alt@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::LeafAlt); } assert forall|i: NodeIndex| !(lift(a.b2@).dom().contains(i) && lift(a.void@).dom().contains(i)) by { assert(lift(a.b2@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::B2); assert(lift(a.void@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Void); } assert forall|i: NodeIndex| !(lift(a.leaf_alt@).dom().contains(i) && lift(a.void@).dom().contains(i)) by { assert(lift(a.leaf_alt@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::LeafAlt); assert(lift(a.void@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Void); }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) == lift(a.http_node@).union_prefer_right(lift(a.leaf@).union_prefer_right(lift(a.b2@).union_prefer_right(lift(a.leaf_alt@).union_prefer_right(lift(a.void@))))).contains_key(i) by {
    assert(lift(a.http_node@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::HTTPNode); assert(lift(a.leaf@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Leaf); assert(lift(a.b2@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::B2); assert(lift(a.leaf_alt@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::LeafAlt); assert(lift(a.void@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Void);
  }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) implies nodes_of(a)[i] == lift(a.http_node@).union_prefer_right(lift(a.leaf@).union_prefer_right(lift(a.b2@).union_prefer_right(lift(a.leaf_alt@).union_prefer_right(lift(a.void@)))))[i] by {
    assert(lift(a.http_node@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::HTTPNode); assert(lift(a.leaf@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Leaf); assert(lift(a.b2@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::B2); assert(lift(a.leaf_alt@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::LeafAlt); assert(lift(a.void@).contains_key(i) ==> a.disp()[i] == GeTreeDiscriminant::Void);
  }
  assert(nodes_of(a) =~= lift(a.http_node@).union_prefer_right(lift(a.leaf@).union_prefer_right(lift(a.b2@).union_prefer_right(lift(a.leaf_alt@).union_prefer_right(lift(a.void@))))));
}
impl<'a> GeTreeIter<'a> {
  pub open spec fn ok(&self) -> bool { self.http_node.pos() <= self.http_node.all().len() && self.leaf.pos() <= self.leaf.all().len() && self.b2.pos() <= self.b2.all().len() && self.leaf_alt.pos() <= self.leaf_alt.all().len() && self.void.pos() <= self.void.all().len() && (self.stage() < 5 ==> self.http_node.pos() == self.http_node.all().len()) && (self.stage() < 4 ==> self.leaf.pos() == self.leaf.all().len()) && (self.stage() < 3 ==> self.b2.pos() == self.b2.all().len()) && (self.stage() < 2 ==> self.leaf_alt.pos() == self.leaf_alt.all().len()) && (self.stage() < 1 ==> self.void.pos() == self.void.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, &'a GeTree)> { match self._iter_state {
    Some(GeTreeDiscriminant::HTTPNode) => (left(self.http_node) + (left(self.leaf) + (left(self.b2) + (left(self.leaf_alt) + left(self.void))))), Some(GeTreeDiscriminant::Leaf) => (left(self.leaf) + (left(self.b2) + (left(self.leaf_alt) + left(self.void)))), Some(GeTreeDiscriminant::B2) => (left(self.b2) + (left(self.leaf_alt) + left(self.void))), Some(GeTreeDiscriminant::LeafAlt) => (left(self.leaf_alt) + left(self.void)), Some(GeTreeDiscriminant::Void) => left(self.void),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GeTreeDiscriminant::HTTPNode) => 5, Some(GeTreeDiscriminant::Leaf) => 4, Some(GeTreeDiscriminant::B2) => 3, Some(GeTreeDiscriminant::LeafAlt) => 2, Some(GeTreeDiscriminant::Void) => 1, None => 0 } }
/*@fn gen:ge.rs GeTreeIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, &'a GeTree)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GeTreeDiscriminant::HTTPNode) && self.http_node.pos() >= self.http_node.all().len() { assert(left(self.http_node).len() == 0); } if self._iter_state == Some(GeTreeDiscriminant::Leaf) && self.leaf.pos() >= self.leaf.all().len() { assert(left(self.leaf).len() == 0); } if self._iter_state == Some(GeTreeDiscriminant::B2) && self.b2.pos() >= self.b2.all().len() { assert(left(self.b2).len() == 0); } if self._iter_state == Some(GeTreeDiscriminant::LeafAlt) && self.leaf_alt.pos() >= self.leaf_alt.all().len() { assert(left(self.leaf_alt).len() == 0); } if self._iter_state == Some(GeTreeDiscriminant::Void) && self.void.pos() >= self.void.all().len() { assert(left(self.void).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GeTreeDiscriminant::HTTPNode) && old(self).http_node.pos() < old(self).http_node.all().len() { assert(left(self.http_node) =~= left(old(self).http_node).skip(1)); assert(left(old(self).http_node)[0] == vf_ret->0); } if old(self)._iter_state == Some(GeTreeDiscriminant::Leaf) && old(self).leaf.pos() < old(self).leaf.all().len() { assert(left(self.leaf) =~= left(old(self).leaf).skip(1)); assert(left(old(self).leaf)[0] == vf_ret->0); } if old(self)._iter_state == Some(GeTreeDiscriminant::B2) && old(self).b2.pos() < old(self).b2.all().len() { assert(left(self.b2) =~= left(old(self).b2).skip(1)); assert(left(old(self).b2)[0] == vf_ret->0); } if old(self)._iter_state == Some(GeTreeDiscriminant::LeafAlt) && old(self).leaf_alt.pos() < old(self).leaf_alt.all().len() { assert(left(self.leaf_alt) =~= left(old(self).leaf_alt).skip(1)); assert(left(old(self).leaf_alt)[0] == vf_ret->0); } if old(self)._iter_state == Some(GeTreeDiscriminant::Void) && old(self).void.pos() < old(self).void.all().len() { assert(left(self.void) =~= left(old(self).void).skip(1)); assert(left(old(self).void)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:ge.rs GeTreeIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); hints_step(vf_all0, 2); hints_step(vf_all0, 3); hints_step(vf_all0, 4); assert(left(self.http_node).len() == vf_all0[0].0); assert(left(self.leaf).len() == vf_all0[1].0); assert(left(self.b2).len() == vf_all0[2].0); assert(left(self.leaf_alt).len() == vf_all0[3].0); assert(left(self.void).len() == vf_all0[4].0); }
@*/
}
impl GeTreeIntoIter {
  pub open spec fn ok(&self) -> bool { self.http_node.pos() <= self.http_node.all().len() && self.leaf.pos() <= self.leaf.all().len() && self.b2.pos() <= self.b2.all().len() && self.leaf_alt.pos() <= self.leaf_alt.all().len() && self.void.pos() <= self.void.all().len() && (self.stage() < 5 ==> self.http_node.pos() == self.http_node.all().len()) && (self.stage() < 4 ==> self.leaf.pos() == self.leaf.all().len()) && (self.stage() < 3 ==> self.b2.pos() == self.b2.all().len()) && (self.stage() < 2 ==> self.leaf_alt.pos() == self.leaf_alt.all().len()) && (self.stage() < 1 ==> self.void.pos() == self.void.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, GeTree)> { match self._iter_state {
    Some(GeTreeDiscriminant::HTTPNode) => (left_own(self.http_node) + (left_own(self.leaf) + (left_own(self.b2) + (left_own(self.leaf_alt) + left_own(self.void))))), Some(GeTreeDiscriminant::Leaf) => (left_own(self.leaf) + (left_own(self.b2) + (left_own(self.leaf_alt) + left_own(self.void)))), Some(GeTreeDiscriminant::B2) => (left_own(self.b2) + (left_own(self.leaf_alt) + left_own(self.void))), Some(GeTreeDiscriminant::LeafAlt) => (left_own(self.leaf_alt) + left_own(self.void)), Some(GeTreeDiscriminant::Void) => left_own(self.void),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GeTreeDiscriminant::HTTPNode) => 5, Some(GeTreeDiscriminant::Leaf) => 4, Some(GeTreeDiscriminant::B2) => 3, Some(GeTreeDiscriminant::LeafAlt) => 2, Some(GeTreeDiscriminant::Void) => 1, None => 0 } }
/*@fn gen:ge.rs GeTreeIntoIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, GeTree)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GeTreeDiscriminant::HTTPNode) && self.http_node.pos() >= self.http_node.all().len() { assert(left_own(self.http_node).len() == 0); } if self._iter_state == Some(GeTreeDiscriminant::Leaf) && self.leaf.pos() >= self.leaf.all().len() { assert(left_own(self.leaf).len() == 0); } if self._iter_state == Some(GeTreeDiscriminant::B2) && self.b2.pos() >= self.b2.all().len() { assert(left_own(self.b2).len() == 0); } if self._iter_state == Some(GeTreeDiscriminant::LeafAlt) && self.leaf_alt.pos() >= self.leaf_alt.all().len() { assert(left_own(self.leaf_alt).len() == 0); } if self._iter_state == Some(GeTreeDiscriminant::Void) && self.void.pos() >= self.void.all().len() { assert(left_own(self.void).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GeTreeDiscriminant::HTTPNode) && old(self).http_node.pos() < old(self).http_node.all().len() { assert(left_own(self.http_node) =~= left_own(old(self).http_node).skip(1)); assert(left_own(old(self).http_node)[0] == vf_ret->0); } if old(self)._iter_state == Some(GeTreeDiscriminant::Leaf) && old(self).leaf.pos() < old(self).leaf.all().len() { assert(left_own(self.leaf) =~= left_own(old(self).leaf).skip(1)); assert(left_own(old(self).leaf)[0] == vf_ret->0); } if old(self)._iter_state == Some(GeTreeDiscriminant::B2) && old(self).b2.pos() < old(self).b2.all().len() { assert(left_own(self.b2) =~= left_own(old(self).b2).skip(1)); assert(left_own(old(self).b2)[0] == vf_ret->0); } if old(self)._iter_state == Some(GeTreeDiscriminant::LeafAlt) && old(self).leaf_alt.pos() < old(self).leaf_alt.all().len() { assert(left_own(self.leaf_alt) =~= left_own(old(self).leaf_alt).skip(1)); assert(left_own(old(self).leaf_alt)[0] == vf_ret->0); } if old(self)._iter_state == Some(GeTreeDiscriminant::Void) && old(self).void.pos() < old(self).void.all().len() { assert(left_own(self.void) =~= left_own(old(self).void).skip(1)); assert(left_own(old(self).void)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:ge.rs GeTreeIntoIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); hints_step(vf_all0, 2); hints_step(vf_all0, 3); hints_step(vf_all0, 4); assert(left_own(self.http_node).len() == vf_all0[0].0); assert(left_own(self.leaf).len() == vf_all0[1].0); assert(left_own(self.b2).len() == vf_all0[2].0); assert(left_own(self.leaf_alt).len() == vf_all0[3].0); assert(left_own(self.void).len() == vf_all0[4].0); }
@*/
}
impl GeTreeArena {
/*@fn gen:ge.rs GeTreeArena as CateArena::iter
#props C07
#sig
fn gen_iter<'a>(&'a self) -> (r: GeTreeIter<'a>)
#requires
  arena_wf(*self),
#ensures
  r.ok(), seq_of_map_kref(nodes_of(*self), r.rest()),
#start
  let ghost vf_a = *self;
#end
  proof { parts(vf_a); left_ok(vf_a.http_node@, vf_ret.http_node); left_ok(vf_a.leaf@, vf_ret.leaf); left_ok(vf_a.b2@, vf_ret.b2); left_ok(vf_a.leaf_alt@, vf_ret.leaf_alt); left_ok(vf_a.void@, vf_ret.void); cat_ok(lift(vf_a.leaf_alt@), left(vf_ret.leaf_alt), lift(vf_a.void@), left(vf_ret.void)); cat_ok(lift(vf_a.b2@), left(vf_ret.b2), lift(vf_a.leaf_alt@).union_prefer_right(lift(vf_a.void@)), (left(vf_ret.leaf_alt) + left(vf_ret.void))); cat_ok(lift(vf_a.leaf@), left(vf_ret.leaf), lift(vf_a.b2@).union_prefer_right(lift(vf_a.leaf_alt@).union_prefer_right(lift(vf_a.void@))), (left(vf_ret.b2) + (left(vf_ret.leaf_alt) + left(vf_ret.void)))); cat_ok(lift(vf_a.http_node@), left(vf_ret.http_node), lift(vf_a.leaf@).union_prefer_right(lift(vf_a.b2@).union_prefer_right(lift(vf_a.leaf_alt@).union_prefer_right(lift(vf_a.void@)))), (left(vf_ret.leaf) + (left(vf_ret.b2) + (left(vf_ret.leaf_alt) + left(vf_ret.void))))); }
#replace
  Self::IntoIter =>> GeTreeIntoIter
  Self::Iter =>> GeTreeIter
  Self::D =>> GeTreeDiscriminant
@*/
/*@fn gen:ge.rs GeTreeArena as CateArena::into_iter
#props C07 C10
#sig
fn gen_into_iter(self) -> (r: GeTreeIntoIter)
#requires
  arena_wf(self),
#ensures
  r.ok(), seq_of_map(nodes_of(self), r.rest()),
#start
  let ghost vf_a = self;
#end
  proof { parts(vf_a); left_own_ok(vf_a.http_node@, vf_ret.http_node); left_own_ok(vf_a.leaf@, vf_ret.leaf); left_own_ok(vf_a.b2@, vf_ret.b2); left_own_ok(vf_a.leaf_alt@, vf_ret.leaf_alt); left_own_ok(vf_a.void@, vf_ret.void); cat_own_ok(lift(vf_a.leaf_alt@), left_own(vf_ret.leaf_alt), lift(vf_a.void@), left_own(vf_ret.void)); cat_own_ok(lift(vf_a.b2@), left_own(vf_ret.b2), lift(vf_a.leaf_alt@).union_prefer_right(lift(vf_a.void@)), (left_own(vf_ret.leaf_alt) + left_own(vf_ret.void))); cat_own_ok(lift(vf_a.leaf@), left_own(vf_ret.leaf), lift(vf_a.b2@).union_prefer_right(lift(vf_a.leaf_alt@).union_prefer_right(lift(vf_a.void@))), (left_own(vf_ret.b2) + (left_own(vf_ret.leaf_alt) + left_own(vf_ret.void)))); cat_own_ok(lift(vf_a.http_node@), left_own(vf_ret.http_node), lift(vf_a.leaf@).union_prefer_right(lift(vf_a.b2@).union_prefer_right(lift(vf_a.leaf_alt@).union_prefer_right(lift(vf_a.void@)))), (left_own(vf_ret.leaf) + (left_own(vf_ret.b2) + (left_own(vf_ret.leaf_alt) + left_own(vf_ret.void))))); }
#replace
  Self::IntoIter =>> GeTreeIntoIter
  Self::Iter =>> GeTreeIter
  Self::D =>> GeTreeDiscriminant
@*/
}
impl CateArena for GeTreeArena {
  // what a loop over the arena's iterator visits
  #[verifier::loop_isolation(true)]
  fn vf_iter<'a>(&'a self) -> VIter<(NodeIndex, &'a GeTree)> {
    let mut it = self.gen_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
  #[verifier::loop_isolation(true)]
  fn vf_into_iter(self) -> VIter<(NodeIndex, GeTree)> {
    let mut it = self.gen_into_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
/*@fn gen:ge.rs GeTreeArena as CateArena::new
#props C07 C09
@*/
/*@fn gen:ge.rs GeTreeArena as CateArena::new_from_iter
#props C07 C10
#start
  proof { reveal(arena_wf); reveal(nodes_of); }
#loop @* before
  proof { assert(nodes_of(result) =~= upto(vf_all$n, 0)); }
#loop @*
  arena_wf(result), result.dist() == id_distributer, nodes_of(result) == upto(vf_all$n, vf_it$n.pos()),
  forall|k: NodeIndex| #[trigger] result.disp().contains_key(k) <==> upto(vf_all$n, vf_it$n.pos()).contains_key(k),
#loop @* begin
  let ghost vf_pre = result;
  proof {
    upto_has(vf_all$n, (vf_it$n.pos() - 1) as nat);
    let ghost vf_i = vf_all$n[vf_it$n.pos() - 1].0;
    assert(NodeIndex(vf_i.0) == vf_i);
    assert(!result.cont(GeTreeDiscriminant::HTTPNode).contains_key(vf_i.0)); assert(!result.cont(GeTreeDiscriminant::Leaf).contains_key(vf_i.0)); assert(!result.cont(GeTreeDiscriminant::B2).contains_key(vf_i.0)); assert(!result.cont(GeTreeDiscriminant::LeafAlt).contains_key(vf_i.0)); assert(!result.cont(GeTreeDiscriminant::Void).contains_key(vf_i.0));
  }
#loop @* end
  proof { assert forall|d: GeTreeDiscriminant, k: usize| #[trigger] result.cont(d).contains_key(k) implies result.disp().contains_key(NodeIndex(k)) && result.disp()[NodeIndex(k)] == d && result.cont(d)[k].disc() == d by {
    assert(vf_pre.cont(d).contains_key(k) || NodeIndex(k) == vf_all$n[vf_it$n.pos() - 1].0);
  } }
  proof { assert(nodes_of(result) =~= upto(vf_all$n, vf_it$n.pos())); }
#loop @* after
  proof { upto_has(vf_all$n, vf_all$n.len()); }
@*/
/*@fn gen:ge.rs GeTreeArena as CateArena::dispatch
#props C07
@*/
/*@fn gen:ge.rs GeTreeArena as CateArena::get_container
#props C07
@*/
/*@fn gen:ge.rs GeTreeArena as CateArena::get_container_mut
#props C07 C03
@*/
/*@fn gen:ge.rs GeTreeArena as CateArena::alloc
#props C06 C08
#mode P
@*/
/*@fn gen:ge.rs GeTreeArena as CateArena::alloc_untyped
#props C06 C08
@*/
/*@fn gen:ge.rs GeTreeArena as CateArena::fill_back_untyped
#props C08 C07
#start
  proof {
    reveal(arena_wf); reveal(nodes_of); assert(NodeIndex(i.0) == i);
    assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GeTreeDiscriminant::HTTPNode).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GeTreeDiscriminant::Leaf).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GeTreeDiscriminant::B2).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GeTreeDiscriminant::LeafAlt).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GeTreeDiscriminant::Void).contains_key(i.0));
  }
#end
  proof {
    assert forall|d: GeTreeDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i); assert(NodeIndex(k) == i ==> !old(self).cont(d).contains_key(k));
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(i, item));
  }
@*/
/*@fn gen:ge.rs GeTreeArena as CateArena::remove
#props C07 C03
#start
  proof { reveal(arena_wf); reveal(nodes_of); reveal(arena_wf_ex); }
#end
  proof {
    assert forall|d: GeTreeDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i);
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).remove(i));
  }
@*/
/*@fn gen:ge.rs GeTreeArena as CateArena::merge
#props C03 C07 C11
#start
  let ghost vf_o = other;
  proof { reveal(arena_wf); reveal(nodes_of); }
#end
  proof {
    assert forall|d: GeTreeDiscriminant, i: usize| #[trigger] self.cont(d).contains_key(i) implies self.disp().contains_key(NodeIndex(i)) && self.disp()[NodeIndex(i)] == d && self.cont(d)[i].disc() == d by {
      assert(old(self).cont(d).contains_key(i) || vf_o.cont(d).contains_key(i));
      if vf_o.cont(d).contains_key(i) { assert(vf_o.disp().dom().contains(NodeIndex(i))); } else { assert(old(self).disp().dom().contains(NodeIndex(i))); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) == (nodes_of(*old(self)).contains_key(i) || nodes_of(vf_o).contains_key(i)) by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GeTreeDiscriminant::HTTPNode).contains_key(i.0)); assert(!vf_o.cont(GeTreeDiscriminant::Leaf).contains_key(i.0)); assert(!vf_o.cont(GeTreeDiscriminant::B2).contains_key(i.0)); assert(!vf_o.cont(GeTreeDiscriminant::LeafAlt).contains_key(i.0)); assert(!vf_o.cont(GeTreeDiscriminant::Void).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GeTreeDiscriminant::HTTPNode).contains_key(i.0)); assert(!old(self).cont(GeTreeDiscriminant::Leaf).contains_key(i.0)); assert(!old(self).cont(GeTreeDiscriminant::B2).contains_key(i.0)); assert(!old(self).cont(GeTreeDiscriminant::LeafAlt).contains_key(i.0)); assert(!old(self).cont(GeTreeDiscriminant::Void).contains_key(i.0)); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) implies nodes_of(*self)[i] == nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o))[i] by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GeTreeDiscriminant::HTTPNode).contains_key(i.0)); assert(!vf_o.cont(GeTreeDiscriminant::Leaf).contains_key(i.0)); assert(!vf_o.cont(GeTreeDiscriminant::B2).contains_key(i.0)); assert(!vf_o.cont(GeTreeDiscriminant::LeafAlt).contains_key(i.0)); assert(!vf_o.cont(GeTreeDiscriminant::Void).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GeTreeDiscriminant::HTTPNode).contains_key(i.0)); assert(!old(self).cont(GeTreeDiscriminant::Leaf).contains_key(i.0)); assert(!old(self).cont(GeTreeDiscriminant::B2).contains_key(i.0)); assert(!old(self).cont(GeTreeDiscriminant::LeafAlt).contains_key(i.0)); assert(!old(self).cont(GeTreeDiscriminant::Void).contains_key(i.0)); }
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o)));
  }
@*/
/*@fn gen:ge.rs GeTreeArena as CateArena::len
#props C07
#end
  proof {
    parts(*self);
    lift_len(self.http_node@); lift_len(self.leaf@); lift_len(self.b2@); lift_len(self.leaf_alt@); lift_len(self.void@);
    union_len(lift(self.leaf_alt@).dom(), lift(self.void@).dom()); union_len(lift(self.b2@).dom(), lift(self.leaf_alt@).dom().union(lift(self.void@).dom())); union_len(lift(self.leaf@).dom(), lift(self.b2@).dom().union(lift(self.leaf_alt@).dom().union(lift(self.void@).dom()))); union_len(lift(self.http_node@).dom(), lift(self.leaf@).dom().union(lift(self.b2@).dom().union(lift(self.leaf_alt@).dom().union(lift(self.void@).dom()))));
    assert(nodes_of(*self).dom() =~= lift(self.http_node@).dom().union(lift(self.leaf@).dom().union(lift(self.b2@).dom().union(lift(self.leaf_alt@).dom().union(lift(self.void@).dom())))));
  }
@*/
}
fn main() {}
}
