// Written by verus/gen_schemas.py: the body of unit_gc.tpl
/*@replace
  Box<dyn std::iter::Iterator<Item = ttgraph::NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = NodeIndex> + '_> =>> VIter<NodeIndex>
  Box<dyn Iterator<Item = (NodeIndex, Self::SourceEnum)>> =>> VIter<(NodeIndex, Self::SourceEnum)>
  std::vec::IntoIter< =>> VIter<
  ::alloc::vec::Vec =>> Vec
  ::ordermap::OrderSet =>> OrderSet
  ::indexmap::IndexSet =>> IndexSet
  std::collections::HashSet =>> HashSet
  std::collections::BTreeSet =>> BTreeSet
  impl std::iter::IntoIterator<Item = (ttgraph::NodeIndex, Self::V)> =>> Vec<(ttgraph::NodeIndex, Self::V)>
  <dyn std::any::Any>::downcast_ref::<TGDataRefT> =>> vf_downcast::<_, TGDataRefT>
  <Nil as ttgraph::TypedNode>::Source =>> NilSource
  <Nil as ttgraph::TypedNode>::LinkMirror =>> NilLinkMirror
  <Nil as ttgraph::TypedNode>::LoGMirror =>> NilLoGMirror
  <self::super::Nil as ttgraph::TypedNode>::Source =>> NilSource
  <self::super::Nil as ttgraph::TypedNode>::LinkMirror =>> NilLinkMirror
  <self::super::Nil as ttgraph::TypedNode>::LoGMirror =>> NilLoGMirror
  <Nil as TypedNode>::Source =>> NilSource
  <Nil as TypedNode>::LinkMirror =>> NilLinkMirror
  <Nil as TypedNode>::LoGMirror =>> NilLoGMirror
  <self::super::Nil as TypedNode>::Source =>> NilSource
  <self::super::Nil as TypedNode>::LinkMirror =>> NilLinkMirror
  <self::super::Nil as TypedNode>::LoGMirror =>> NilLoGMirror
  <Only as ttgraph::TypedNode>::Source =>> OnlySource
  <Only as ttgraph::TypedNode>::LinkMirror =>> OnlyLinkMirror
  <Only as ttgraph::TypedNode>::LoGMirror =>> OnlyLoGMirror
  <self::super::Only as ttgraph::TypedNode>::Source =>> OnlySource
  <self::super::Only as ttgraph::TypedNode>::LinkMirror =>> OnlyLinkMirror
  <self::super::Only as ttgraph::TypedNode>::LoGMirror =>> OnlyLoGMirror
  <Only as TypedNode>::Source =>> OnlySource
  <Only as TypedNode>::LinkMirror =>> OnlyLinkMirror
  <Only as TypedNode>::LoGMirror =>> OnlyLoGMirror
  <self::super::Only as TypedNode>::Source =>> OnlySource
  <self::super::Only as TypedNode>::LinkMirror =>> OnlyLinkMirror
  <self::super::Only as TypedNode>::LoGMirror =>> OnlyLoGMirror
@*/
// ---------------- Nil ----------------
/*@struct gen:gc.rs Nil
@*/
/*@enum gen:gc.rs NilSource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gc.rs NilLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gc.rs NilLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_nil { pub use super::*; }
pub struct NilData { pub n: usize, }
impl TypedSpec for Nil {
  type Source = NilSource;
  type LinkMirror = NilLinkMirror;
  type LoGMirror = NilLoGMirror;
  type DataT = NilData;
  open spec fn links(&self) -> ISet<(NodeIndex, NilSource)> {
    ISet::new(|p: (NodeIndex, NilSource)| p.0.0 != 0 && match p.1 {
      NilSource::Empty => false,
    })
  }
  open spec fn data(&self) -> NilData { NilData { n: self.n, } }
  open spec fn place_ok(d: NilData, s: NilSource) -> bool { match s {
      NilSource::Empty => false,
  } }
  open spec fn single(s: NilSource) -> bool { match s {
      NilSource::Empty => true,
  } }
  open spec fn mirror(s: NilSource) -> NilLinkMirror { match s {
      NilSource::Empty => NilLinkMirror::Empty,
  } }
  open spec fn source(l: NilLinkMirror) -> NilSource { match l {
      NilLinkMirror::Empty => NilSource::Empty,
  } }
  open spec fn is_vec(l: NilLinkMirror) -> bool { match l {
      NilLinkMirror::Empty => false,
  } }
  open spec fn is_field(l: NilLinkMirror) -> bool { false }
  open spec fn in_log(g: NilLoGMirror, l: NilLinkMirror) -> bool { match (g, l) {
    _ => false,
  } }
  open spec fn has(&self, l: NilLinkMirror, x: NodeIndex) -> bool { match l {
      NilLinkMirror::Empty => false,
  } }
  open spec fn cnt_of(&self, l: NilLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      NilLinkMirror::Empty => 0,
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<NilLinkMirror> { { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<NilLoGMirror> { { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { if name == "n"@ { vf_any::<usize, T>(self.n) } else { None } }
  open spec fn names() -> Seq<&'static str> { seq![] }
  open spec fn kinds() -> Seq<LinkType> { seq![] }
  open spec fn mirrors() -> Seq<NilLinkMirror> { seq![] }
  open spec fn dnames() -> Seq<&'static str> { seq!["n"] }
  proof fn law_has(&self, l: NilLinkMirror, x: NodeIndex) {
  }
}
impl NilSource {
/*@fn gen:gc.rs NilSource::to_link_mirror
#props C12
#ensures
  r == Nil::mirror(self),
@*/
}
impl NilLinkMirror {
/*@fn gen:gc.rs NilLinkMirror::to_source
#props C12
#requires[T]
  !Nil::is_vec(self),
#ensures
  r == Nil::source(self), !Nil::is_vec(self),
@*/
}
impl NilLoGMirror {
/*@fn gen:gc.rs NilLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> !Nil::is_field(#[trigger] r@[i]),
  forall|l: NilLinkMirror| #[trigger] Nil::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {

  }
@*/
}
impl TypedNode for Nil {
/*@fn gen:gc.rs Nil as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#end
  proof {
    assert forall|p: (NodeIndex, NilSource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:gc.rs Nil as TypedNode::iter_links
#props C12 C07
#box id
@*/
/*@fn gen:gc.rs Nil as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();

  }
#end
  proof { assert forall|p: (NodeIndex, NilSource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q == NilSource::Empty); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gc.rs Nil as TypedNode::add_link
#props C12 C04
#start
  proof {

  }
#end
  proof { assert forall|p: (NodeIndex, NilSource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == NilSource::Empty); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:gc.rs Nil as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, NilSource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q == NilSource::Empty); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:gc.rs Nil as TypedNode::contains_link
#props C12 C04
@*/
/*@fn gen:gc.rs Nil as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:gc.rs Nil as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:gc.rs Nil as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:gc.rs Nil as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:gc.rs Nil as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("Nil"); reveal_strlit("n"); assert("Nil"@.len() != "n"@.len()); }
@*/
/*@fn gen:gc.rs Nil as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("Nil"); reveal_strlit("n"); assert("Nil"@.len() != "n"@.len()); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gc.rs Nil as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("Nil"); reveal_strlit("n"); assert("Nil"@.len() != "n"@.len()); }
@*/
/*@fn gen:gc.rs Nil as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("Nil"); reveal_strlit("n"); assert("Nil"@.len() != "n"@.len()); }
@*/
/*@fn gen:gc.rs Nil as TypedNode::to_source
#props C12
@*/
/*@fn gen:gc.rs Nil as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:gc.rs Nil as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {

  }
@*/
}
// ---------------- Only ----------------
/*@struct gen:gc.rs Only
@*/
/*@enum gen:gc.rs OnlySource
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gc.rs OnlyLinkMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gc.rs OnlyLoGMirror
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_only { pub use super::*; }
pub struct OnlyData { pub n_v: nat, }
impl TypedSpec for Only {
  type Source = OnlySource;
  type LinkMirror = OnlyLinkMirror;
  type LoGMirror = OnlyLoGMirror;
  type DataT = OnlyData;
  open spec fn links(&self) -> ISet<(NodeIndex, OnlySource)> {
    ISet::new(|p: (NodeIndex, OnlySource)| p.0.0 != 0 && match p.1 {
      OnlySource::V(i) => i < self.v@.len() && self.v@[i as int] == p.0,
    })
  }
  open spec fn data(&self) -> OnlyData { OnlyData { n_v: self.v@.len(), } }
  open spec fn place_ok(d: OnlyData, s: OnlySource) -> bool { match s {
      OnlySource::V(i) => i < d.n_v,
  } }
  open spec fn single(s: OnlySource) -> bool { match s {
      OnlySource::V(i) => true,
  } }
  open spec fn mirror(s: OnlySource) -> OnlyLinkMirror { match s {
      OnlySource::V(i) => OnlyLinkMirror::V,
  } }
  open spec fn source(l: OnlyLinkMirror) -> OnlySource { match l {
      OnlyLinkMirror::V => OnlySource::V(0),
  } }
  open spec fn is_vec(l: OnlyLinkMirror) -> bool { match l {
      OnlyLinkMirror::V => true,
  } }
  open spec fn is_field(l: OnlyLinkMirror) -> bool { true }
  open spec fn in_log(g: OnlyLoGMirror, l: OnlyLinkMirror) -> bool { match (g, l) {
    (OnlyLoGMirror::V, OnlyLinkMirror::V) => true,
    _ => false,
  } }
  open spec fn has(&self, l: OnlyLinkMirror, x: NodeIndex) -> bool { match l {
      OnlyLinkMirror::V => self.v@.contains(x),
  } }
  open spec fn cnt_of(&self, l: OnlyLinkMirror, x: NodeIndex) -> nat { if x.0 == 0 { 0 } else { match l {
      OnlyLinkMirror::V => cnt(self.v@, x),
  } } }
  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { { 0 } }
  open spec fn by_name(name: Seq<char>) -> Option<OnlyLinkMirror> { if name == "v"@ { Some(OnlyLinkMirror::V) } else { None } }
  open spec fn log_by_name(name: Seq<char>) -> Option<OnlyLoGMirror> { if name == "v"@ { Some(OnlyLoGMirror::V) } else { None } }
  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { { None } }
  open spec fn names() -> Seq<&'static str> { seq!["v"] }
  open spec fn kinds() -> Seq<LinkType> { seq![LinkType::Vec] }
  open spec fn mirrors() -> Seq<OnlyLinkMirror> { seq![OnlyLinkMirror::V] }
  open spec fn dnames() -> Seq<&'static str> { seq![] }
  proof fn law_has(&self, l: OnlyLinkMirror, x: NodeIndex) {
    if l is V && self.has(l, x) { let j = choose|j: int| 0 <= j < self.v@.len() && self.v@[j] == x; assert(self.v.len() == self.v@.len()); assert(self.links().contains((x, OnlySource::V(j as usize)))); }
    if l is V { assert forall|s: OnlySource| #[trigger] self.links().contains((x, s)) && Self::mirror(s) == l implies self.has(l, x) by { } }
  }
}
impl OnlySource {
/*@fn gen:gc.rs OnlySource::to_link_mirror
#props C12
#ensures
  r == Only::mirror(self),
@*/
}
impl OnlyLinkMirror {
/*@fn gen:gc.rs OnlyLinkMirror::to_source
#props C12
#requires[T]
  !Only::is_vec(self),
#ensures
  r == Only::source(self), !Only::is_vec(self),
@*/
}
impl OnlyLoGMirror {
/*@fn gen:gc.rs OnlyLoGMirror::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> Only::in_log(self, #[trigger] r@[i]),
  forall|l: OnlyLinkMirror| #[trigger] Only::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {
    if self is V { assert(vf_ret@.contains(OnlyLinkMirror::V)); }
  }
@*/
}
impl TypedNode for Only {
/*@fn gen:gc.rs Only as TypedNode::iter_sources
#props C12 C02 C15 C14 C09
#loop @self.v before
  let ghost vf_pre$n = sources@;
#loop @self.v
  forall|p: (NodeIndex, OnlySource)| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && p.1 is V && p.1->V_0 < vf_it$n.pos() && self.v@[p.1->V_0 as int] == p.0),
  sources@.no_duplicates(),
#end
  proof {
    assert forall|p: (NodeIndex, OnlySource)| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {  }
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by { assert(vf_ret.all().contains(vf_ret.all()[i])); }
  }
@*/
/*@fn gen:gc.rs Only as TypedNode::iter_links
#props C12 C07
#box id
#loop @self.v before
  proof { take_none(self.v@); }
#loop @self.v
  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 == 0 { 0 } else { cnt(self.v@.take(vf_it$n.pos() as int), x) }),
#loop @self.v begin
  proof { cnt_take(self.v@, vf_it$n.pos() - 1); }
#loop @self.v after
  proof { take_all(self.v@); }
@*/
/*@fn gen:gc.rs Only as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {
    let ghost vf_o = self.links();
    if source is V { let j = source->V_0 as int; if self.v@[j].0 != 0 { assert(self.links().contains((self.v@[j], source))); } }
  }
#end
  proof { assert forall|p: (NodeIndex, OnlySource)| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by { let q = p.1; assert(q is V); } assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gc.rs Only as TypedNode::add_link
#props C12 C04
#start
  proof {

  }
#end
  proof { assert forall|p: (NodeIndex, OnlySource)| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by { let q = p.1; assert(q is V); } assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }
@*/
/*@fn gen:gc.rs Only as TypedNode::remove_link
#props C12 C04
#end
  proof { assert forall|p: (NodeIndex, OnlySource)| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by { let q = p.1; assert(q is V); } assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }
@*/
/*@fn gen:gc.rs Only as TypedNode::contains_link
#props C12 C04
#loop @self.v before
  proof { take_none(self.v@); }
#loop @self.v
  vf_acc$n == self.v@.take(vf_it$n.pos() as int).contains(target),
#loop @self.v begin
  proof { take_step(self.v@, vf_it$n.pos() - 1); }
#loop @self.v after
  proof { take_all(self.v@); }
@*/
/*@fn gen:gc.rs Only as TypedNode::link_types
#props C12
#end
  proof { assert(vf_ret@ =~= Self::kinds()); }
@*/
/*@fn gen:gc.rs Only as TypedNode::link_mirrors
#props C12
#end
  proof { assert(vf_ret@ =~= Self::mirrors()); }
@*/
/*@fn gen:gc.rs Only as TypedNode::link_names
#props C12 C13
@*/
/*@fn gen:gc.rs Only as TypedNode::data_names
#props C12 C13
@*/
/*@fn gen:gc.rs Only as TypedNode::get_links_by_name
#props C12 C13 C07
#box id
#start
  proof { reveal_strlit("v"); }
@*/
/*@fn gen:gc.rs Only as TypedNode::get_links_by_group
#props C13 C07 C12
#start
  proof { reveal_strlit("v"); }
#loop @* before
  let ghost vf_pre$n = result@;
  proof { take_none(vf_all$n); }
#loop @*
  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),
#loop @* begin
  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }
#loop @* after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gc.rs Only as TypedNode::get_link_or_group_by_name
#props C13
#start
  proof { reveal_strlit("v"); }
@*/
/*@fn gen:gc.rs Only as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
#start
  proof { reveal_strlit("v"); }
@*/
/*@fn gen:gc.rs Only as TypedNode::to_source
#props C12
@*/
/*@fn gen:gc.rs Only as TypedNode::to_link_mirror
#props C12
@*/
/*@fn gen:gc.rs Only as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {
    if input is V { assert(vf_ret@.contains(OnlyLoGMirror::V)); }
  }
@*/
}
// ---------------- Gc ----------------
/*@enum gen:gc.rs Gc
@*/
/*@enum gen:gc.rs GcDiscriminant
#props C07 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gc.rs GcSourceEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gc.rs GcLinkMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
/*@enum gen:gc.rs GcLoGMirrorEnum
#props C12 C13
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord
#attr
#[derive(Copy, Clone)]
@*/
pub mod ttgraph_gen_gc { pub use super::*; }
pub enum GcData { Nil(NilData), Only(OnlyData), }
impl NodeDiscriminant for GcDiscriminant {
  open spec fn vf_first() -> Self { GcDiscriminant::Nil }
  open spec fn vf_succ(self) -> Option<Self> { match self { GcDiscriminant::Nil => Some(GcDiscriminant::Only), GcDiscriminant::Only => None, } }
/*@fn gen:gc.rs GcDiscriminant as NodeDiscriminant::first
#props C07
@*/
/*@fn gen:gc.rs GcDiscriminant as NodeDiscriminant::next
#props C07
@*/
}
impl Discriminated<GcDiscriminant> for Gc {
  open spec fn disc(&self) -> GcDiscriminant { match self { Gc::Nil(_) => GcDiscriminant::Nil, Gc::Only(_) => GcDiscriminant::Only, } }
/*@fn gen:gc.rs Gc as Discriminated::discriminant
#props C07 C12
@*/
}
impl NodeSpec for Gc {
  type SourceEnum = GcSourceEnum;
  type LinkMirrorEnum = GcLinkMirrorEnum;
  type LoGMirrorEnum = GcLoGMirrorEnum;
  type Discriminant = GcDiscriminant;
  type DataT = GcData;
  open spec fn links(&self) -> ISet<(NodeIndex, GcSourceEnum)> {
    ISet::new(|p: (NodeIndex, GcSourceEnum)| match (*self, p.1) {
      (Gc::Nil(x), GcSourceEnum::Nil(s)) => x.links().contains((p.0, s)),
      (Gc::Only(x), GcSourceEnum::Only(s)) => x.links().contains((p.0, s)),
      _ => false,
    })
  }
  open spec fn data(&self) -> GcData { match self {
    Gc::Nil(x) => GcData::Nil(x.data()),
    Gc::Only(x) => GcData::Only(x.data()),
  } }
  open spec fn place_ok(d: GcData, s: GcSourceEnum) -> bool { match (d, s) {
    (GcData::Nil(d), GcSourceEnum::Nil(s)) => Nil::place_ok(d, s),
    (GcData::Only(d), GcSourceEnum::Only(s)) => Only::place_ok(d, s),
    _ => false,
  } }
  open spec fn single(s: GcSourceEnum) -> bool { match s {
    GcSourceEnum::Nil(s) => Nil::single(s),
    GcSourceEnum::Only(s) => Only::single(s),
  } }
  open spec fn mirror(s: GcSourceEnum) -> GcLinkMirrorEnum { match s {
    GcSourceEnum::Nil(s) => GcLinkMirrorEnum::Nil(Nil::mirror(s)),
    GcSourceEnum::Only(s) => GcLinkMirrorEnum::Only(Only::mirror(s)),
  } }
  open spec fn source(l: GcLinkMirrorEnum) -> GcSourceEnum { match l {
    GcLinkMirrorEnum::Nil(l) => GcSourceEnum::Nil(Nil::source(l)),
    GcLinkMirrorEnum::Only(l) => GcSourceEnum::Only(Only::source(l)),
  } }
  open spec fn is_vec(l: GcLinkMirrorEnum) -> bool { match l {
    GcLinkMirrorEnum::Nil(l) => Nil::is_vec(l),
    GcLinkMirrorEnum::Only(l) => Only::is_vec(l),
  } }
  open spec fn is_field(l: GcLinkMirrorEnum) -> bool { match l {
    GcLinkMirrorEnum::Nil(l) => Nil::is_field(l),
    GcLinkMirrorEnum::Only(l) => Only::is_field(l),
  } }
  open spec fn owner(l: GcLinkMirrorEnum) -> GcDiscriminant { match l {
    GcLinkMirrorEnum::Nil(_) => GcDiscriminant::Nil,
    GcLinkMirrorEnum::Only(_) => GcDiscriminant::Only,
  } }
  open spec fn logs(l: GcLinkMirrorEnum) -> ISet<GcLoGMirrorEnum> {
    ISet::new(|g: GcLoGMirrorEnum| match (l, g) {
      (GcLinkMirrorEnum::Nil(l), GcLoGMirrorEnum::Nil(g)) => Nil::is_field(l) && Nil::in_log(g, l),
      (GcLinkMirrorEnum::Only(l), GcLoGMirrorEnum::Only(g)) => Only::is_field(l) && Only::in_log(g, l),
      _ => false,
    })
  }
  open spec fn bd_log(g: GcLoGMirrorEnum) -> ISet<GcLinkMirrorEnum> {
    ISet::new(|m: GcLinkMirrorEnum| match (g, m) {

      _ => false,
    })
  }
  open spec fn allowed_log(g: GcLoGMirrorEnum, d: GcDiscriminant) -> bool { match g {

    _ => true,
  } }
  open spec fn member(d: GcDiscriminant, name: Seq<char>) -> bool { { false } }
  proof fn law_links(&self, y: NodeIndex, s: GcSourceEnum) { }
  proof fn law_single(&self, y: NodeIndex, z: NodeIndex, s: GcSourceEnum) { }
  proof fn law_data(&self, o: &Self) { }
  proof fn law_mirror(l: GcLinkMirrorEnum, s: GcSourceEnum) { }
  proof fn law_bd(g: GcLoGMirrorEnum, m: GcLinkMirrorEnum) { }
}
/// field m belongs to link or group g
pub open spec fn covers(g: GcLoGMirrorEnum, m: GcLinkMirrorEnum) -> bool { match (g, m) {
    (GcLoGMirrorEnum::Nil(g), GcLinkMirrorEnum::Nil(m)) => Nil::in_log(g, m),
    (GcLoGMirrorEnum::Only(g), GcLinkMirrorEnum::Only(m)) => Only::in_log(g, m),
  _ => false,
} }
#[verifier::opaque]
pub open spec fn covered(s: Seq<GcLoGMirrorEnum>, n: nat, m: GcLinkMirrorEnum) -> bool decreases n { n > 0 && (covered(s, (n - 1) as nat, m) || covers(s[n - 1], m)) }
pub proof fn covered_none(s: Seq<GcLoGMirrorEnum>) ensures forall|m: GcLinkMirrorEnum| !#[trigger] covered(s, 0, m) { reveal(covered); }
pub proof fn covered_step(s: Seq<GcLoGMirrorEnum>, n: nat)
  requires n < s.len()
  ensures forall|m: GcLinkMirrorEnum| #[trigger] covered(s, n + 1, m) <==> covered(s, n, m) || covers(s[n as int], m)
{ reveal(covered); }
pub open spec fn cnt_in(n: Gc, l: GcLinkMirrorEnum, x: NodeIndex) -> nat { match (n, l) {
    (Gc::Nil(n), GcLinkMirrorEnum::Nil(l)) => n.cnt_of(l, x),
    (Gc::Only(n), GcLinkMirrorEnum::Only(l)) => n.cnt_of(l, x),
  _ => 0,
} }
pub proof fn has_link_is(n: Gc, l: GcLinkMirrorEnum, x: NodeIndex)
  requires x.0 != 0
  ensures has_link(n, l, x) == match (n, l) {
    (Gc::Nil(n), GcLinkMirrorEnum::Nil(l)) => n.has(l, x),
    (Gc::Only(n), GcLinkMirrorEnum::Only(l)) => n.has(l, x),
    _ => false,
  }
{
  match (n, l) {
    (Gc::Nil(v), GcLinkMirrorEnum::Nil(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: NilSource| #[trigger] v.links().contains((x, s)) && Nil::mirror(s) == k; assert(n.links().contains((x, GcSourceEnum::Nil(s)))); }
      if has_link(n, l, x) { let s = choose|s: GcSourceEnum| #[trigger] n.links().contains((x, s)) && Gc::mirror(s) == l; assert(v.links().contains((x, s->Nil_0))); }
    },
    (Gc::Only(v), GcLinkMirrorEnum::Only(k)) => {
      v.law_has(k, x);
      if v.has(k, x) { let s = choose|s: OnlySource| #[trigger] v.links().contains((x, s)) && Only::mirror(s) == k; assert(n.links().contains((x, GcSourceEnum::Only(s)))); }
      if has_link(n, l, x) { let s = choose|s: GcSourceEnum| #[trigger] n.links().contains((x, s)) && Gc::mirror(s) == l; assert(v.links().contains((x, s->Only_0))); }
    },
    _ => { },
  }
}
impl NodeEnum for Gc {
/*@fn gen:gc.rs Gc as NodeEnum::iter_sources
#props C12 C02 C15 C14 C09
#box id
#loop @SourceEnum::Nil
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GcSourceEnum::Nil(vf_all$n[j].1)),
#loop @SourceEnum::Nil after
  proof { lift_sources::<NilSource, GcSourceEnum>(self->Nil_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: NilSource| GcSourceEnum::Nil(s), |t: GcSourceEnum| t->Nil_0); }
#loop @SourceEnum::Only
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, GcSourceEnum::Only(vf_all$n[j].1)),
#loop @SourceEnum::Only after
  proof { lift_sources::<OnlySource, GcSourceEnum>(self->Only_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: OnlySource| GcSourceEnum::Only(s), |t: GcSourceEnum| t->Only_0); }
@*/
/*@fn gen:gc.rs Gc as NodeEnum::modify_link
#props C12 C01 C02 C03 C04 C09
#ensures
  forall|m: GcLinkMirrorEnum| #[trigger] r.bd_link_mirrors@.contains(m) <==> bd_of::<Self>(Self::mirror(source)).contains(m),
#start
  proof {
    if *self is Nil && source is Nil { assert((*self)->Nil_0.links().contains((old_idx, source->Nil_0)) == self.links().contains((old_idx, source))); assert((*self)->Nil_0.links().contains((new_idx, source->Nil_0)) == self.links().contains((new_idx, source))); }
    if *self is Only && source is Only { assert((*self)->Only_0.links().contains((old_idx, source->Only_0)) == self.links().contains((old_idx, source))); assert((*self)->Only_0.links().contains((new_idx, source->Only_0)) == self.links().contains((new_idx, source))); }
  }
#end
  proof { assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }
@*/
/*@fn gen:gc.rs Gc as NodeEnum::add_link
#props C12 C04
#start
  proof {
    if *self is Nil && link is Nil { assert(Self::single(Self::source(link)) == Nil::single(Nil::source(link->Nil_0))); assert forall|z: NodeIndex| #[trigger] (*self)->Nil_0.links().contains((z, Nil::source(link->Nil_0))) implies self.links().contains((z, Self::source(link))) by { } }
    if *self is Only && link is Only { assert(Self::single(Self::source(link)) == Only::single(Only::source(link->Only_0))); assert forall|z: NodeIndex| #[trigger] (*self)->Only_0.links().contains((z, Only::source(link->Only_0))) implies self.links().contains((z, Self::source(link))) by { } }
  }
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); } }
@*/
/*@fn gen:gc.rs Gc as NodeEnum::remove_link
#props C12 C04
#end
  proof { if Self::owner(link) == old(self).disc() { assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); } }
@*/
/*@fn gen:gc.rs Gc as NodeEnum::contains_link
#props C12 C04
#start
  proof { if target.0 != 0 { has_link_is(*self, link, target); } }
@*/
/*@fn gen:gc.rs Gc as NodeEnum::in_group
#props C13 C07

@*/
/*@fn gen:gc.rs Gc as NodeEnum::to_source_enum
#props C12
@*/
/*@fn gen:gc.rs Gc as NodeEnum::to_link_mirror_enum
#props C12
@*/
/*@fn gen:gc.rs Gc as NodeEnum::to_log_mirror_enums
#props C13 C04 C05
#loop @LoGMirrorEnum::Nil
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GcLoGMirrorEnum::Nil(*vf_all$n[j]),
#loop @LoGMirrorEnum::Nil after
  proof { assert forall|g: GcLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(Nil::in_log(*vf_all$n[j], input->Nil_0)); }
    if Self::logs(input).contains(g) { assert(Nil::in_log(g->Nil_0, input->Nil_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->Nil_0; assert(vf_acc$n@[j] == g); }
  } }
#loop @LoGMirrorEnum::Only
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GcLoGMirrorEnum::Only(*vf_all$n[j]),
#loop @LoGMirrorEnum::Only after
  proof { assert forall|g: GcLoGMirrorEnum| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {
    if vf_acc$n@.contains(g) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert(Only::in_log(*vf_all$n[j], input->Only_0)); }
    if Self::logs(input).contains(g) { assert(Only::in_log(g->Only_0, input->Only_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->Only_0; assert(vf_acc$n@[j] == g); }
  } }
@*/
/*@fn gen:gc.rs Gc as NodeEnum::get_bidiretional_link_mirrors_of_log
#props C04 C13
#loop @].into_iter().Self::expand_link_groups before
  proof { covered_none(vf_all$n); }
#loop @].into_iter().Self::expand_link_groups
  forall|m: GcLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> covered(vf_all$n, vf_it$n.pos(), m),
#loop @].into_iter().Self::expand_link_groups begin
  proof { covered_step(vf_all$n, (vf_it$n.pos() - 1) as nat); }
#loop @].into_iter().Self::expand_link_groups after
  proof { assert forall|m: GcLinkMirrorEnum| #[trigger] vf_acc$n@.contains(m) <==> Self::bd_log(link).contains(m) by { reveal_with_fuel(covered, 8); } }
#loop @expand_link_groups before
  let ghost vf_pre$n = vf_acc$p@;
  proof { take_none(vf_all$n); }
#loop @expand_link_groups
  forall|m: GcLinkMirrorEnum| #[trigger] vf_acc$p@.contains(m) <==> vf_pre$n.contains(m) || vf_all$n.take(vf_it$n.pos() as int).contains(m),
#loop @expand_link_groups begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @expand_link_groups after
  proof { take_all(vf_all$n); }
@*/
/*@fn gen:gc.rs Gc as NodeEnum::check_link_type_by_group
#props C05 C13
@*/
/*@fn gen:gc.rs Gc as NodeEnum::match_bd_link_group
#props C04 C13
#loop @LinkMirrorEnum::Nil before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::Nil
  forall|l: GcLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GcDiscriminant::Nil,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::Nil begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::Nil after
  proof { take_all(vf_all$n); }
#loop @LinkMirrorEnum::Only before
  proof { take_none(vf_all$n); }
#loop @LinkMirrorEnum::Only
  forall|l: GcLinkMirrorEnum| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == GcDiscriminant::Only,
  links@.no_duplicates() ==> result@.no_duplicates(),
#loop @LinkMirrorEnum::Only begin
  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }
#loop @LinkMirrorEnum::Only after
  proof { take_all(vf_all$n); }
@*/
}
impl Gc {
/*@fn gen:gc.rs Gc as NodeEnum::iter_links
#props C12
#requires[T]
  Self::owner(link) == self.disc(),
#ensures
  Self::owner(link) == self.disc(), r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == cnt_in(*self, link, x),
#replace
  Self::SourceEnum =>> GcSourceEnum
  Self::LinkMirrorEnum =>> GcLinkMirrorEnum
  Self::LoGMirrorEnum =>> GcLoGMirrorEnum
@*/
/*@fn gen:gc.rs Gc as NodeEnum::check_link
#props C12
#ensures
  r == (Self::owner(link) == self.disc()),
#replace
  Self::SourceEnum =>> GcSourceEnum
  Self::LinkMirrorEnum =>> GcLinkMirrorEnum
  Self::LoGMirrorEnum =>> GcLoGMirrorEnum
@*/
/*@fn gen:gc.rs Gc as NodeEnum::get_links_by_name
#props C12 C13 C07
#ensures
  r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == (match self {
    Gc::Nil(n) => match Nil::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
    Gc::Only(n) => match Only::by_name(name@) { Some(l) => n.cnt_of(l, x), None => 0 },
  }),
#replace
  Self::SourceEnum =>> GcSourceEnum
  Self::LinkMirrorEnum =>> GcLinkMirrorEnum
  Self::LoGMirrorEnum =>> GcLoGMirrorEnum
@*/
/*@fn gen:gc.rs Gc as NodeEnum::get_links_by_group
#props C13 C07
#ensures
  forall|x: NodeIndex| #[trigger] cnt(r@, x) == (match self {
    Gc::Nil(n) => n.grp_cnt(name@, x),
    Gc::Only(n) => n.grp_cnt(name@, x),
  }),
#replace
  Self::SourceEnum =>> GcSourceEnum
  Self::LinkMirrorEnum =>> GcLinkMirrorEnum
  Self::LoGMirrorEnum =>> GcLoGMirrorEnum
@*/
/*@fn gen:gc.rs Gc as NodeEnum::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<T>(&self, name: &'static str) -> (r: Option<&T>)
#ensures
  r is Some == (match self {
    Gc::Nil(n) => n.dref::<T>(name@),
    Gc::Only(n) => n.dref::<T>(name@),
  }) is Some,
  r is Some ==> Some(*r->0) == (match self {
    Gc::Nil(n) => n.dref::<T>(name@),
    Gc::Only(n) => n.dref::<T>(name@),
  }),
#replace
  Self::SourceEnum =>> GcSourceEnum
  Self::LinkMirrorEnum =>> GcLinkMirrorEnum
  Self::LoGMirrorEnum =>> GcLoGMirrorEnum
@*/
/*@fn gen:gc.rs Gc as NodeEnum::expand_link_groups
#props C13 C04
#ensures
  forall|m: GcLinkMirrorEnum| (Self::is_field(m) || !(input is Nil)) ==> (#[trigger] r@.contains(m) <==> covers(input, m)),
#loop @LinkMirrorEnum::Nil
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GcLinkMirrorEnum::Nil(*vf_all$n[j]),
#loop @LinkMirrorEnum::Nil after
  proof { assert forall|m: GcLinkMirrorEnum| (Self::is_field(m) || !(input is Nil)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(Nil::in_log(input->Nil_0, *vf_all$n[j]) || !Nil::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(Nil::in_log(input->Nil_0, m->Nil_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->Nil_0; assert(vf_acc$n@[j] == m); }
  } }
#loop @LinkMirrorEnum::Only
  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == GcLinkMirrorEnum::Only(*vf_all$n[j]),
#loop @LinkMirrorEnum::Only after
  proof { assert forall|m: GcLinkMirrorEnum| (Self::is_field(m) || !(input is Nil)) implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {
    if vf_acc$n@.contains(m) { let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert(Only::in_log(input->Only_0, *vf_all$n[j]) || !Only::is_field(*vf_all$n[j])); }
    if covers(input, m) { assert(Only::in_log(input->Only_0, m->Only_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->Only_0; assert(vf_acc$n@[j] == m); }
  } }
#replace
  Self::SourceEnum =>> GcSourceEnum
  Self::LinkMirrorEnum =>> GcLinkMirrorEnum
  Self::LoGMirrorEnum =>> GcLoGMirrorEnum
@*/
}
// ---------------- GcArena ----------------
/*@struct gen:gc.rs GcArena
@*/
/*@struct gen:gc.rs GcIter
@*/
/*@struct gen:gc.rs GcIntoIter
@*/
impl ArenaSpec for GcArena {
  type V = Gc;
  type D = GcDiscriminant;
  open spec fn disp(&self) -> IMap<NodeIndex, GcDiscriminant> { self._dispatcher@ }
  open spec fn cont(&self, d: GcDiscriminant) -> IMap<usize, Gc> { match d { GcDiscriminant::Nil => self.nil@, GcDiscriminant::Only => self.only@, } }
  open spec fn dist(&self) -> IdDistributer { self._id_distributer }
}
/// a type's container holds the nodes of that type, and no index is in two containers
pub proof fn parts(a: GcArena)
  requires arena_wf(a)
  ensures nodes_of(a) == lift(a.nil@).union_prefer_right(lift(a.only@)),
    lift(a.nil@).dom().disjoint(lift(a.only@).dom()),
{
  reveal(arena_wf); reveal(nodes_of);
  assert forall|i: NodeIndex| #[trigger] lift(a.nil@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GcDiscriminant::Nil by { assert(lift(a.nil@).contains_key(i) == a.cont(GcDiscriminant::Nil).contains_key(i.0)); } assert forall|i: NodeIndex| #[trigger] lift(a.only@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == GcDiscriminant::Only by { assert(lift(a.only@).contains_key(i) == a.cont(GcDiscriminant::Only).contains_key(i.0)); }
  assert forall|i: NodeIndex| !(lift(a.nil@).dom().contains(i) && lift(a.only@).dom().contains(i)) by { assert(lift(a.nil@).contains_key(i) ==> a.disp()[i] == GcDiscriminant::Nil); assert(lift(a.only@).contains_key(i) ==> a.disp()[i] == GcDiscriminant::Only); }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) == lift(a.nil@).union_prefer_right(lift(a.only@)).contains_key(i) by {
    assert(lift(a.nil@).contains_key(i) ==> a.disp()[i] == GcDiscriminant::Nil); assert(lift(a.only@).contains_key(i) ==> a.disp()[i] == GcDiscriminant::Only);
  }
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) implies nodes_of(a)[i] == lift(a.nil@).union_prefer_right(lift(a.only@))[i] by {
    assert(lift(a.nil@).contains_key(i) ==> a.disp()[i] == GcDiscriminant::Nil); assert(lift(a.only@).contains_key(i) ==> a.disp()[i] == GcDiscriminant::Only);
  }
  assert(nodes_of(a) =~= lift(a.nil@).union_prefer_right(lift(a.only@)));
}
impl<'a> GcIter<'a> {
  pub open spec fn ok(&self) -> bool { self.nil.pos() <= self.nil.all().len() && self.only.pos() <= self.only.all().len() && (self.stage() < 2 ==> self.nil.pos() == self.nil.all().len()) && (self.stage() < 1 ==> self.only.pos() == self.only.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, &'a Gc)> { match self._iter_state {
    Some(GcDiscriminant::Nil) => (left(self.nil) + left(self.only)), Some(GcDiscriminant::Only) => left(self.only),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GcDiscriminant::Nil) => 2, Some(GcDiscriminant::Only) => 1, None => 0 } }
/*@fn gen:gc.rs GcIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, &'a Gc)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GcDiscriminant::Nil) && self.nil.pos() >= self.nil.all().len() { assert(left(self.nil).len() == 0); } if self._iter_state == Some(GcDiscriminant::Only) && self.only.pos() >= self.only.all().len() { assert(left(self.only).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GcDiscriminant::Nil) && old(self).nil.pos() < old(self).nil.all().len() { assert(left(self.nil) =~= left(old(self).nil).skip(1)); assert(left(old(self).nil)[0] == vf_ret->0); } if old(self)._iter_state == Some(GcDiscriminant::Only) && old(self).only.pos() < old(self).only.all().len() { assert(left(self.only) =~= left(old(self).only).skip(1)); assert(left(old(self).only)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:gc.rs GcIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); assert(left(self.nil).len() == vf_all0[0].0); assert(left(self.only).len() == vf_all0[1].0); }
@*/
}
impl GcIntoIter {
  pub open spec fn ok(&self) -> bool { self.nil.pos() <= self.nil.all().len() && self.only.pos() <= self.only.all().len() && (self.stage() < 2 ==> self.nil.pos() == self.nil.all().len()) && (self.stage() < 1 ==> self.only.pos() == self.only.all().len()) }
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<(NodeIndex, Gc)> { match self._iter_state {
    Some(GcDiscriminant::Nil) => (left_own(self.nil) + left_own(self.only)), Some(GcDiscriminant::Only) => left_own(self.only),
    None => Seq::empty(),
  } }
  pub open spec fn stage(&self) -> nat { match self._iter_state { Some(GcDiscriminant::Nil) => 2, Some(GcDiscriminant::Only) => 1, None => 0 } }
/*@fn gen:gc.rs GcIntoIter as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<(NodeIndex, Gc)>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof { if self._iter_state == Some(GcDiscriminant::Nil) && self.nil.pos() >= self.nil.all().len() { assert(left_own(self.nil).len() == 0); } if self._iter_state == Some(GcDiscriminant::Only) && self.only.pos() >= self.only.all().len() { assert(left_own(self.only).len() == 0); } }
#end
  proof { if old(self).rest().len() > 0 {
    if old(self)._iter_state == Some(GcDiscriminant::Nil) && old(self).nil.pos() < old(self).nil.all().len() { assert(left_own(self.nil) =~= left_own(old(self).nil).skip(1)); assert(left_own(old(self).nil)[0] == vf_ret->0); } if old(self)._iter_state == Some(GcDiscriminant::Only) && old(self).only.pos() < old(self).only.all().len() { assert(left_own(self.only) =~= left_own(old(self).only).skip(1)); assert(left_own(old(self).only)[0] == vf_ret->0); }
    assert(self.rest() =~= old(self).rest().skip(1));
  } }
@*/
/*@fn gen:gc.rs GcIntoIter as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof { hints_none(vf_all0); }
#loop 0 begin
  proof { hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }
#loop 0 after
  proof { hints_step(vf_all0, 0); hints_step(vf_all0, 1); assert(left_own(self.nil).len() == vf_all0[0].0); assert(left_own(self.only).len() == vf_all0[1].0); }
@*/
}
impl GcArena {
/*@fn gen:gc.rs GcArena as CateArena::iter
#props C07
#sig
fn gen_iter<'a>(&'a self) -> (r: GcIter<'a>)
#requires
  arena_wf(*self),
#ensures
  r.ok(), seq_of_map_kref(nodes_of(*self), r.rest()),
#start
  let ghost vf_a = *self;
#end
  proof { parts(vf_a); left_ok(vf_a.nil@, vf_ret.nil); left_ok(vf_a.only@, vf_ret.only); cat_ok(lift(vf_a.nil@), left(vf_ret.nil), lift(vf_a.only@), left(vf_ret.only)); }
#replace
  Self::IntoIter =>> GcIntoIter
  Self::Iter =>> GcIter
  Self::D =>> GcDiscriminant
@*/
/*@fn gen:gc.rs GcArena as CateArena::into_iter
#props C07 C10
#sig
fn gen_into_iter(self) -> (r: GcIntoIter)
#requires
  arena_wf(self),
#ensures
  r.ok(), seq_of_map(nodes_of(self), r.rest()),
#start
  let ghost vf_a = self;
#end
  proof { parts(vf_a); left_own_ok(vf_a.nil@, vf_ret.nil); left_own_ok(vf_a.only@, vf_ret.only); cat_own_ok(lift(vf_a.nil@), left_own(vf_ret.nil), lift(vf_a.only@), left_own(vf_ret.only)); }
#replace
  Self::IntoIter =>> GcIntoIter
  Self::Iter =>> GcIter
  Self::D =>> GcDiscriminant
@*/
}
impl CateArena for GcArena {
  // what a loop over the arena's iterator visits
  #[verifier::loop_isolation(true)]
  fn vf_iter<'a>(&'a self) -> VIter<(NodeIndex, &'a Gc)> {
    let mut it = self.gen_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
  #[verifier::loop_isolation(true)]
  fn vf_into_iter(self) -> VIter<(NodeIndex, Gc)> {
    let mut it = self.gen_into_iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof { assert(acc@ + it.rest() =~= all); }
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {
        Some(x) => { acc.push(x); proof { assert(acc@ + it.rest() =~= a0 + pre); } },
        None => { proof { assert(acc@ =~= acc@ + it.rest()); } break; },
      }
    }
    acc.vf_into_iter()
  }
/*@fn gen:gc.rs GcArena as CateArena::new
#props C07 C09
@*/
/*@fn gen:gc.rs GcArena as CateArena::new_from_iter
#props C07 C10
#start
  proof { reveal(arena_wf); reveal(nodes_of); }
#loop @* before
  proof { assert(nodes_of(result) =~= upto(vf_all$n, 0)); }
#loop @*
  arena_wf(result), result.dist() == id_distributer, nodes_of(result) == upto(vf_all$n, vf_it$n.pos()),
  forall|k: NodeIndex| #[trigger] result.disp().contains_key(k) <==> upto(vf_all$n, vf_it$n.pos()).contains_key(k),
#loop @* begin
  let ghost vf_pre = result;
  proof {
    upto_has(vf_all$n, (vf_it$n.pos() - 1) as nat);
    let ghost vf_i = vf_all$n[vf_it$n.pos() - 1].0;
    assert(NodeIndex(vf_i.0) == vf_i);
    assert(!result.cont(GcDiscriminant::Nil).contains_key(vf_i.0)); assert(!result.cont(GcDiscriminant::Only).contains_key(vf_i.0));
  }
#loop @* end
  proof { assert forall|d: GcDiscriminant, k: usize| #[trigger] result.cont(d).contains_key(k) implies result.disp().contains_key(NodeIndex(k)) && result.disp()[NodeIndex(k)] == d && result.cont(d)[k].disc() == d by {
    assert(vf_pre.cont(d).contains_key(k) || NodeIndex(k) == vf_all$n[vf_it$n.pos() - 1].0);
  } }
  proof { assert(nodes_of(result) =~= upto(vf_all$n, vf_it$n.pos())); }
#loop @* after
  proof { upto_has(vf_all$n, vf_all$n.len()); }
@*/
/*@fn gen:gc.rs GcArena as CateArena::dispatch
#props C07
@*/
/*@fn gen:gc.rs GcArena as CateArena::get_container
#props C07
@*/
/*@fn gen:gc.rs GcArena as CateArena::get_container_mut
#props C07 C03
@*/
/*@fn gen:gc.rs GcArena as CateArena::alloc
#props C06 C08
#mode P
@*/
/*@fn gen:gc.rs GcArena as CateArena::alloc_untyped
#props C06 C08
@*/
/*@fn gen:gc.rs GcArena as CateArena::fill_back_untyped
#props C08 C07
#start
  proof {
    reveal(arena_wf); reveal(nodes_of); assert(NodeIndex(i.0) == i);
    assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GcDiscriminant::Nil).contains_key(i.0)); assert(!nodes_of(*self).contains_key(i) ==> !self.cont(GcDiscriminant::Only).contains_key(i.0));
  }
#end
  proof {
    assert forall|d: GcDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i); assert(NodeIndex(k) == i ==> !old(self).cont(d).contains_key(k));
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(i, item));
  }
@*/
/*@fn gen:gc.rs GcArena as CateArena::remove
#props C07 C03
#start
  proof { reveal(arena_wf); reveal(nodes_of); reveal(arena_wf_ex); }
#end
  proof {
    assert forall|d: GcDiscriminant, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i);
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).remove(i));
  }
@*/
/*@fn gen:gc.rs GcArena as CateArena::merge
#props C03 C07 C11
#start
  let ghost vf_o = other;
  proof { reveal(arena_wf); reveal(nodes_of); }
#end
  proof {
    assert forall|d: GcDiscriminant, i: usize| #[trigger] self.cont(d).contains_key(i) implies self.disp().contains_key(NodeIndex(i)) && self.disp()[NodeIndex(i)] == d && self.cont(d)[i].disc() == d by {
      assert(old(self).cont(d).contains_key(i) || vf_o.cont(d).contains_key(i));
      if vf_o.cont(d).contains_key(i) { assert(vf_o.disp().dom().contains(NodeIndex(i))); } else { assert(old(self).disp().dom().contains(NodeIndex(i))); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) == (nodes_of(*old(self)).contains_key(i) || nodes_of(vf_o).contains_key(i)) by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GcDiscriminant::Nil).contains_key(i.0)); assert(!vf_o.cont(GcDiscriminant::Only).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GcDiscriminant::Nil).contains_key(i.0)); assert(!old(self).cont(GcDiscriminant::Only).contains_key(i.0)); }
    }
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) implies nodes_of(*self)[i] == nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o))[i] by {
      if old(self).disp().dom().contains(i) { assert(!vf_o.disp().dom().contains(i)); assert(!vf_o.cont(GcDiscriminant::Nil).contains_key(i.0)); assert(!vf_o.cont(GcDiscriminant::Only).contains_key(i.0)); }
      if vf_o.disp().dom().contains(i) { assert(!old(self).cont(GcDiscriminant::Nil).contains_key(i.0)); assert(!old(self).cont(GcDiscriminant::Only).contains_key(i.0)); }
    }
    assert(nodes_of(*self) =~= nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o)));
  }
@*/
/*@fn gen:gc.rs GcArena as CateArena::len
#props C07
#end
  proof {
    parts(*self);
    lift_len(self.nil@); lift_len(self.only@);
    union_len(lift(self.nil@).dom(), lift(self.only@).dom());
    assert(nodes_of(*self).dom() =~= lift(self.nil@).dom().union(lift(self.only@).dom()));
  }
@*/
}
