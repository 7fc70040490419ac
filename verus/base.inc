/*@struct src/typed_graph.rs NodeIndex
#props C06 C07 C10 C12
#derives Copy Clone PartialEq Eq Hash PartialOrd Ord Serialize Deserialize
#attr
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
@*/
impl NodeIndex {
/*@fn src/typed_graph.rs NodeIndex::empty
#props C06 C12
#ensures
  r == NodeIndex(0),
@*/
/*@fn src/typed_graph.rs NodeIndex::is_empty
#props C06 C12
#ensures
  r == (*self == NodeIndex(0)),
@*/
}

// ---------------- identifiers ----------------
#[derive(Copy, Clone)]
pub enum Ordering { Relaxed, SeqCst, AcqRel, Acquire, Release }
/// std::sync::atomic::AtomicUsize. Its read-modify-writes are numbered by the modification order of the cell
/// (one number per executed operation), op(k) adds add(k) and returns what it found.
#[verifier::external_body]
pub struct AtomicUsize { k: usize }
impl AtomicUsize {
  pub uninterp spec fn init(&self) -> nat;
  pub uninterp spec fn add(&self, k: nat) -> nat;
  pub open spec fn found(&self, k: nat) -> nat decreases k {
    if k == 0 { self.init() } else { self.found((k - 1) as nat) + self.add((k - 1) as nat) }
  }
  #[verifier::external_body]
  pub fn new(v: usize) -> (r: AtomicUsize) ensures r.init() == v { unimplemented!() }
  /// assumed: the counter never reaches usize::MAX
  #[verifier::external_body]
  pub fn fetch_add(&self, n: usize, o: Ordering) -> (r: usize)
    ensures exists|k: nat| #[trigger] self.add(k) == n && r == self.found(k), r < usize::MAX
  { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering) -> (r: usize) { unimplemented!() }
  #[verifier::external_body]
  pub fn store(&self, n: usize, o: Ordering) { unimplemented!() }
}
use std::sync::Arc;
/*@struct src/id_distributer.rs IdDistributer
#props C06
#derives Clone
@*/
impl IdDistributer {
  /// i is an identifier drawn from this distributer by a counting step
  pub open spec fn drawn(&self, i: usize) -> bool {
    exists|k: nat| #[trigger] self.cnt.add(k) >= 1 && i == self.cnt.found(k) + 1
  }
  /// derive(Clone): Arc::clone shares the counter
  #[verifier::external_body]
  pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
/*@fn src/id_distributer.rs IdDistributer::new
#props C06
#ensures
  r.cnt.init() == 0,
@*/
/*@fn src/id_distributer.rs IdDistributer::alloc
#props C06
#ensures
  self.drawn(r), r != 0,
@*/
/*@fn src/id_distributer.rs IdDistributer::from_count
#props C06 C10
#ensures
  r.cnt.init() == cnt,
@*/
/*@fn src/id_distributer.rs IdDistributer as Default::default
#props C06
#ensures
  r.cnt.init() == 0,
@*/
}
/// found is monotone, so two drawings at different positions of the modification order differ
pub proof fn found_mono(c: &AtomicUsize, i: nat, j: nat)
  requires i < j
  ensures c.found(i) + c.add(i) <= c.found(j)
  decreases j
{
  if i + 1 < j { found_mono(c, i, (j - 1) as nat); }
}
/// C06: identifiers drawn by different operations are different, never empty, and larger than the start value
pub proof fn drawn_distinct(d: &IdDistributer, i: nat, j: nat)
  requires i != j, d.cnt.add(i) >= 1, d.cnt.add(j) >= 1
  ensures d.cnt.found(i) + 1 != d.cnt.found(j) + 1, d.cnt.found(i) + 1 > d.cnt.init(), d.cnt.found(i) + 1 != 0
{
  if i < j { found_mono(&d.cnt, i, j); } else { found_mono(&d.cnt, j, i); }
  if i > 0 { found_mono(&d.cnt, 0, i); }
}
pub proof fn drawn_above(d: &IdDistributer, i: usize)
  requires d.drawn(i)
  ensures i > d.cnt.init()
{
  let k = choose|k: nat| #[trigger] d.cnt.add(k) >= 1 && i == d.cnt.found(k) + 1;
  if k > 0 { found_mono(&d.cnt, 0, k); }
}

/*@struct src/typed_graph.rs Context
#props C06 C11
#derives Clone
@*/
impl Context {
/*@fn src/typed_graph.rs Context::new
#props C06 C11
#ensures
  is_v4(r.id), r.node_dist.cnt.init() == 0,
@*/
/*@fn src/typed_graph.rs Context::from_id
#props C06 C10
#ensures
  r.id == id, r.node_dist.cnt.init() == cnt,
@*/
/*@fn src/typed_graph.rs Context as Default::default
#props C06 C11
#ensures
  is_v4(r.id), r.node_dist.cnt.init() == 0,
@*/
}

// ---------------- nodes ----------------
pub trait NodeDiscriminant : Copy + Sized + 'static {
  spec fn vf_first() -> Self;
  spec fn vf_succ(self) -> Option<Self>;
  fn first() -> (r: Self) ensures r == Self::vf_first();
  fn next(&self) -> (r: Option<Self>) ensures r == self.vf_succ();
}
pub trait Discriminated<D: NodeDiscriminant> {
  spec fn disc(&self) -> D;
  fn discriminant(&self) -> (r: D) ensures r == self.disc();
}
/*@struct src/typed_graph/macro_traits.rs ModifyResult
@*/
/*@struct src/typed_graph.rs LinkTypeError
#replace
  NodeEnum + ?Sized =>> NodeEnum
  &'static [NodeT::Discriminant] =>> &'static [NodeT::Discriminant]
@*/
pub type LinkTypeCheckResult<NodeT> = Result<(), LinkTypeError<NodeT>>;

/// all links (target, place) after place s got `new` instead of `old`
pub open spec fn set_link<S>(links: ISet<(NodeIndex, S)>, s: S, single: bool, old: NodeIndex, new: NodeIndex) -> ISet<(NodeIndex, S)> {
  ISet::new(|p: (NodeIndex, S)| (links.contains(p) && !(p.1 == s && (single || p.0 == old))) || (p == (new, s) && new.0 != 0))
}
/// the fields of node a link leads from, with the node it leads to
pub open spec fn has_link<N: NodeSpec>(n: N, l: N::LinkMirrorEnum, y: NodeIndex) -> bool {
  exists|s: N::SourceEnum| #[trigger] n.links().contains((y, s)) && N::mirror(s) == l
}
pub open spec fn sources_ok<S>(links: ISet<(NodeIndex, S)>, v: Seq<(NodeIndex, S)>) -> bool {
  &&& forall|i: int| 0 <= i < v.len() ==> links.contains(#[trigger] v[i])
  &&& forall|p: (NodeIndex, S)| #[trigger] links.contains(p) ==> v.contains(p)
  &&& v.no_duplicates()
}
/// What the derive macros are checked against (units typed_*), and all that the graph relies on
pub trait NodeSpec : Sized + Discriminated<Self::Discriminant> {
  type SourceEnum: Copy;
  type LinkMirrorEnum: Copy;
  type LoGMirrorEnum: Copy + 'static;
  type Discriminant: NodeDiscriminant + 'static;
  type DataT;

  /// non-empty links with their place
  spec fn links(&self) -> ISet<(NodeIndex, Self::SourceEnum)>;
  /// everything else: type, data fields, lengths of vectors
  spec fn data(&self) -> Self::DataT;
  spec fn place_ok(d: Self::DataT, s: Self::SourceEnum) -> bool;
  spec fn single(s: Self::SourceEnum) -> bool;
  spec fn mirror(s: Self::SourceEnum) -> Self::LinkMirrorEnum;
  spec fn source(l: Self::LinkMirrorEnum) -> Self::SourceEnum;
  spec fn is_vec(l: Self::LinkMirrorEnum) -> bool;
  /// false only for the stand-in mirror of a type without links
  spec fn is_field(l: Self::LinkMirrorEnum) -> bool;
  /// the node type the field belongs to
  spec fn owner(l: Self::LinkMirrorEnum) -> Self::Discriminant;
  spec fn logs(l: Self::LinkMirrorEnum) -> ISet<Self::LoGMirrorEnum>;
  spec fn bd_log(g: Self::LoGMirrorEnum) -> ISet<Self::LinkMirrorEnum>;
  spec fn allowed_log(g: Self::LoGMirrorEnum, d: Self::Discriminant) -> bool;
  spec fn member(d: Self::Discriminant, name: Seq<char>) -> bool;

  proof fn law_links(&self, y: NodeIndex, s: Self::SourceEnum)
    requires self.links().contains((y, s))
    ensures y.0 != 0, Self::place_ok(self.data(), s), Self::owner(Self::mirror(s)) == self.disc();
  proof fn law_single(&self, y: NodeIndex, z: NodeIndex, s: Self::SourceEnum)
    requires self.links().contains((y, s)), self.links().contains((z, s)), Self::single(s)
    ensures y == z;
  proof fn law_data(&self, o: &Self)
    requires self.data() == o.data()
    ensures self.disc() == o.disc();
  proof fn law_mirror(l: Self::LinkMirrorEnum, s: Self::SourceEnum)
    requires !Self::is_vec(l)
    ensures Self::mirror(Self::source(l)) == l, Self::mirror(s) == l ==> s == Self::source(l);
  proof fn law_bd(g: Self::LoGMirrorEnum, m: Self::LinkMirrorEnum)
    requires Self::bd_log(g).contains(m)
    ensures Self::is_field(m);
}
/// partners of a link field: declared with the field or one of its groups
pub open spec fn bd_of<N: NodeSpec>(l: N::LinkMirrorEnum) -> ISet<N::LinkMirrorEnum> {
  ISet::new(|m: N::LinkMirrorEnum| exists|g: N::LoGMirrorEnum| N::logs(l).contains(g) && #[trigger] N::bd_log(g).contains(m))
}
pub proof fn bd_field<N: NodeSpec>(l: N::LinkMirrorEnum, m: N::LinkMirrorEnum)
  requires bd_of::<N>(l).contains(m)
  ensures N::is_field(m)
{
  let g = choose|g: N::LoGMirrorEnum| N::logs(l).contains(g) && #[trigger] N::bd_log(g).contains(m);
  N::law_bd(g, m);
}
pub open spec fn allowed<N: NodeSpec>(l: N::LinkMirrorEnum, d: N::Discriminant) -> bool {
  forall|g: N::LoGMirrorEnum| N::logs(l).contains(g) ==> #[trigger] N::allowed_log(g, d)
}

pub trait NodeEnum : NodeSpec {
  fn iter_sources(&self) -> (r: VIter<(NodeIndex, Self::SourceEnum)>)
    ensures r.pos() == 0, sources_ok(self.links(), r.all());
  fn modify_link(&mut self, source: Self::SourceEnum, old_idx: NodeIndex, new_idx: NodeIndex) -> (r: ModifyResult<Self::LinkMirrorEnum>)
    requires Self::place_ok(old(self).data(), source), Self::owner(Self::mirror(source)) == old(self).disc(), old_idx.0 != 0,
    ensures
      final(self).data() == old(self).data(), final(self).disc() == old(self).disc(),
      final(self).links() == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx),
      old(self).links().contains((old_idx, source)) && old_idx != new_idx ==>
        r.removed && r.added == (new_idx.0 != 0 && !old(self).links().contains((new_idx, source)));
  fn add_link(&mut self, link: Self::LinkMirrorEnum, target: NodeIndex) -> (r: bool)
    requires target.0 != 0, Self::is_field(link),
//[T]   Self::owner(link) == old(self).disc() ==> !Self::is_vec(link) && (Self::single(Self::source(link)) ==> forall|z: NodeIndex| #[trigger] old(self).links().contains((z, Self::source(link))) ==> z == target),
    ensures
      final(self).data() == old(self).data(), final(self).disc() == old(self).disc(),
      Self::owner(link) != old(self).disc() ==> !r && *final(self) == *old(self),
      Self::owner(link) == old(self).disc() ==> !Self::is_vec(link)
        && r == !old(self).links().contains((target, Self::source(link)))
        && final(self).links() == old(self).links().insert((target, Self::source(link)));
  fn remove_link(&mut self, link: Self::LinkMirrorEnum, target: NodeIndex) -> (r: bool)
    requires target.0 != 0,
//[T]   Self::owner(link) == old(self).disc() ==> !Self::is_vec(link),
    ensures
      final(self).data() == old(self).data(), final(self).disc() == old(self).disc(),
      Self::owner(link) != old(self).disc() ==> !r && *final(self) == *old(self),
      Self::owner(link) == old(self).disc() ==> !Self::is_vec(link)
        && r == old(self).links().contains((target, Self::source(link)))
        && final(self).links() == old(self).links().remove((target, Self::source(link)));
  fn contains_link(&self, link: Self::LinkMirrorEnum, target: NodeIndex) -> (r: bool)
    ensures target.0 != 0 ==> r == has_link(*self, link, target);
  fn in_group(&self, name: &'static str) -> (r: bool)
    ensures r == Self::member(self.disc(), name@);
  fn to_source_enum(input: Self::LinkMirrorEnum) -> (r: Self::SourceEnum)
//[T]   requires !Self::is_vec(input)
    ensures r == Self::source(input);
  fn to_link_mirror_enum(input: Self::SourceEnum) -> (r: Self::LinkMirrorEnum)
    ensures r == Self::mirror(input);
  fn to_log_mirror_enums(input: Self::LinkMirrorEnum) -> (r: Vec<Self::LoGMirrorEnum>)
    ensures forall|g: Self::LoGMirrorEnum| #[trigger] r@.contains(g) <==> Self::logs(input).contains(g);
  fn get_bidiretional_link_mirrors_of_log(&self, link: Self::LoGMirrorEnum) -> (r: Vec<Self::LinkMirrorEnum>)
    ensures forall|l: Self::LinkMirrorEnum| #[trigger] r@.contains(l) <==> Self::bd_log(link).contains(l);
  fn check_link_type_by_group(target: Self::Discriminant, link: Self::LoGMirrorEnum) -> (r: LinkTypeCheckResult<Self>)
    ensures r is Ok == Self::allowed_log(link, target);
  fn match_bd_link_group(&self, links: Vec<Self::LinkMirrorEnum>) -> (r: Vec<Self::LinkMirrorEnum>)
    ensures
      forall|l: Self::LinkMirrorEnum| #[trigger] r@.contains(l) <==> (links@.contains(l) && Self::owner(l) == self.disc()),
      links@.no_duplicates() ==> r@.no_duplicates();
/*@fn src/typed_graph/macro_traits.rs trait NodeEnum::get_bidiretional_link_mirrors_of
#props C04 C13
#ensures
  forall|l: Self::LinkMirrorEnum| #[trigger] r@.contains(l) <==> bd_of::<Self>(link).contains(l),
  r@.no_duplicates(),
#loop 0
  forall|l: Self::LinkMirrorEnum| #[trigger] vf_acc0@.contains(l) <==> exists|i: int| 0 <= i < vf_it0.pos() && Self::bd_log(#[trigger] vf_all0[i]).contains(l),
#loop 0 begin
  let ghost vf_pre = vf_acc0@;
  assert(vf_all0.contains(vf_all0[vf_it0.pos() - 1]));
#loop 0 end
  assert forall|l: Self::LinkMirrorEnum| #[trigger] vf_acc0@.contains(l) implies exists|i: int| 0 <= i < vf_it0.pos() && Self::bd_log(#[trigger] vf_all0[i]).contains(l) by {
    if !vf_pre.contains(l) { assert(vf_all1.contains(l)); assert(Self::bd_log(vf_all0[vf_it0.pos() - 1]).contains(l)); }
  }
  assert forall|l: Self::LinkMirrorEnum, i: int| 0 <= i < vf_it0.pos() && Self::bd_log(#[trigger] vf_all0[i]).contains(l) implies #[trigger] vf_acc0@.contains(l) by {
    if i == vf_it0.pos() - 1 { assert(vf_all1.contains(l)); let j = choose|j: int| 0 <= j < vf_all1.len() && vf_all1[j] == l; assert(vf_acc0@.contains(vf_all1[j])); } else { assert(vf_pre.contains(l)); }
  }
#loop 1
  forall|l: Self::LinkMirrorEnum| #[trigger] vf_acc0@.contains(l) ==> vf_pre.contains(l) || vf_all1.contains(l),
  forall|l: Self::LinkMirrorEnum| vf_pre.contains(l) ==> #[trigger] vf_acc0@.contains(l),
  forall|j: int| 0 <= j < vf_it1.pos() ==> vf_acc0@.contains(#[trigger] vf_all1[j]),
#loop 0 after
  assert forall|l: Self::LinkMirrorEnum| #[trigger] vf_acc0@.contains(l) <==> bd_of::<Self>(link).contains(l) by {
    if vf_acc0@.contains(l) {
      let i = choose|i: int| 0 <= i < vf_all0.len() && Self::bd_log(#[trigger] vf_all0[i]).contains(l);
      assert(vf_all0.contains(vf_all0[i]));
      assert(Self::logs(link).contains(vf_all0[i]));
    }
    if bd_of::<Self>(link).contains(l) {
      let g = choose|g: Self::LoGMirrorEnum| Self::logs(link).contains(g) && #[trigger] Self::bd_log(g).contains(l);
      assert(vf_all0.contains(g));
      let i = choose|i: int| 0 <= i < vf_all0.len() && vf_all0[i] == g;
      assert(Self::bd_log(vf_all0[i]).contains(l));
    }
  }
#loop 2
  forall|j: int| 0 <= j < vf_acc2@.len() ==> #[trigger] vf_acc2@[j] == vf_all2[j],
  vf_acc2@.len() == vf_it2.pos(),
#loop 2 after
  assert(vf_acc2@ =~= vf_all2);
  assert forall|l: Self::LinkMirrorEnum| #[trigger] vf_acc2@.contains(l) <==> links@.contains(l) by {
    if vf_acc2@.contains(l) { let j = choose|j: int| 0 <= j < vf_all2.len() && vf_all2[j] == l; assert(links@.contains(vf_all2[j])); }
  }
@*/
/*@fn src/typed_graph/macro_traits.rs trait NodeEnum::check_link_type
#props C05 C13
#ensures
  r is Ok == allowed::<Self>(link, target),
#loop 0
  forall|i: int| 0 <= i < vf_it0.pos() ==> Self::allowed_log(#[trigger] vf_all0[i], target),
#loop 0 begin
  assert(vf_all0.contains(vf_all0[vf_it0.pos() - 1]));
  assert(Self::logs(link).contains(vf_all0[vf_it0.pos() - 1]));
#loop 0 after
  assert forall|g: Self::LoGMirrorEnum| Self::logs(link).contains(g) implies #[trigger] Self::allowed_log(g, target) by {
    assert(vf_all0.contains(g));
    let i = choose|i: int| 0 <= i < vf_all0.len() && vf_all0[i] == g;
    assert(Self::allowed_log(vf_all0[i], target));
  }
@*/
}
// ---------------- arena ----------------
pub trait ArenaSpec : Sized {
  type V: NodeEnum + NodeSpec<Discriminant = Self::D>;
  type D: NodeDiscriminant;
  /// the type recorded for an index
  spec fn disp(&self) -> IMap<NodeIndex, Self::D>;
  /// the container of a type
  spec fn cont(&self, d: Self::D) -> IMap<usize, Self::V>;
  spec fn dist(&self) -> IdDistributer;
}
/// the nodes an arena holds
#[verifier::opaque]
pub open spec fn nodes_of<A: ArenaSpec>(a: A) -> IMap<NodeIndex, A::V> {
  IMap::new(|i: NodeIndex| a.disp().contains_key(i) && a.cont(a.disp()[i]).contains_key(i.0), |i: NodeIndex| a.cont(a.disp()[i])[i.0])
}
#[verifier::opaque]
pub open spec fn arena_wf<A: ArenaSpec>(a: A) -> bool {
  forall|d: A::D, i: usize| #[trigger] a.cont(d).contains_key(i) ==> a.disp().contains_key(NodeIndex(i)) && a.disp()[NodeIndex(i)] == d && a.cont(d)[i].disc() == d
}
/// arena_wf, but node i may be in the container of another type
#[verifier::opaque]
pub open spec fn arena_wf_ex<A: ArenaSpec>(a: A, x: NodeIndex) -> bool {
  forall|d: A::D, i: usize| #[trigger] a.cont(d).contains_key(i) ==> a.disp().contains_key(NodeIndex(i)) && a.disp()[NodeIndex(i)] == d && (NodeIndex(i) == x || a.cont(d)[i].disc() == d)
}
pub trait CateArena : ArenaSpec {
  fn new(id_distributer: IdDistributer) -> (r: Self)
    ensures r.disp() == IMap::<NodeIndex, Self::D>::empty(), forall|d: Self::D| #[trigger] r.cont(d) == IMap::<usize, Self::V>::empty(), r.dist() == id_distributer;
  fn new_from_iter(id_distributer: IdDistributer, iter: Vec<(NodeIndex, Self::V)>) -> (r: Self)
    requires forall|i: int, j: int| 0 <= i < j < iter@.len() ==> (#[trigger] iter@[i]).0 != (#[trigger] iter@[j]).0
    ensures arena_wf(r), seq_of_map(nodes_of(r), iter@), r.dist() == id_distributer;
  fn dispatch(&self, i: NodeIndex) -> (r: Option<Self::D>)
    ensures r == (if self.disp().contains_key(i) { Some(self.disp()[i]) } else { None });
  fn get_container<'a>(&'a self, d: Self::D) -> (r: &'a OrderMap<usize, Self::V>)
    ensures r@ == self.cont(d);
  fn get_container_mut<'a>(&'a mut self, d: Self::D) -> (r: &'a mut OrderMap<usize, Self::V>)
    ensures
      r@ == old(self).cont(d),
      forall|e: Self::D| #[trigger] final(self).cont(e) == (if e == d { final(r)@ } else { old(self).cont(e) }),
      final(self).disp() == old(self).disp(), final(self).dist() == old(self).dist();
  fn alloc(&mut self, d: Self::D) -> (r: NodeIndex)
    ensures
      r.0 != 0, old(self).dist().drawn(r.0), !old(self).disp().contains_key(r),
      final(self).disp() == old(self).disp().insert(r, d), forall|e: Self::D| #[trigger] final(self).cont(e) == old(self).cont(e),
      final(self).dist() == old(self).dist();
  fn alloc_untyped(&mut self) -> (r: NodeIndex)
    ensures
      r.0 != 0, old(self).dist().drawn(r.0),
      final(self).disp() == old(self).disp(), forall|e: Self::D| #![trigger final(self).cont(e)] #![trigger old(self).cont(e)] final(self).cont(e) == old(self).cont(e),
      final(self).dist() == old(self).dist();
  fn fill_back_untyped(&mut self, i: NodeIndex, item: Self::V)
    requires arena_wf(*old(self)),
//[T]   !nodes_of(*old(self)).contains_key(i),
    ensures
      arena_wf(*final(self)), !nodes_of(*old(self)).contains_key(i),
      nodes_of(*final(self)) == nodes_of(*old(self)).insert(i, item),
      final(self).disp() == old(self).disp().insert(i, item.disc()),
      final(self).dist() == old(self).dist();
  fn merge(&mut self, other: Self)
    requires arena_wf(*old(self)), arena_wf(other), old(self).disp().dom().disjoint(other.disp().dom())
    ensures
      arena_wf(*final(self)),
      nodes_of(*final(self)) == nodes_of(*old(self)).union_prefer_right(nodes_of(other)),
      final(self).disp() == old(self).disp().union_prefer_right(other.disp()),
      final(self).dist() == old(self).dist();
  fn remove(&mut self, i: NodeIndex) -> (r: Option<Self::V>)
    requires arena_wf(*old(self)) || arena_wf_ex(*old(self), i)
    ensures
      arena_wf(*final(self)),
      r == (if nodes_of(*old(self)).contains_key(i) { Some(nodes_of(*old(self))[i]) } else { None }),
      nodes_of(*final(self)) == nodes_of(*old(self)).remove(i),
      final(self).disp() == old(self).disp().remove(i),
      final(self).dist() == old(self).dist();
  fn len(&self) -> (r: usize)
    requires arena_wf(*self)
    ensures nodes_of(*self).dom().finite(), r as nat == nodes_of(*self).dom().len();
  fn vf_iter<'a>(&'a self) -> (r: VIter<(NodeIndex, &'a Self::V)>)
    requires arena_wf(*self)
    ensures seq_of_map_kref(nodes_of(*self), r.all()), r.pos() == 0;
  fn vf_into_iter(self) -> (r: VIter<(NodeIndex, Self::V)>)
    requires arena_wf(self)
    ensures seq_of_map(nodes_of(self), r.all()), r.pos() == 0;

/*@fn src/cate_arena.rs trait CateArena::insert
#props C06 C07 C03
#requires
  arena_wf(*old(self)),
#ensures
  arena_wf(*final(self)), r.0 != 0, old(self).dist().drawn(r.0),
  !nodes_of(*old(self)).contains_key(r), !old(self).disp().contains_key(r),
  nodes_of(*final(self)) == nodes_of(*old(self)).insert(r, item),
  final(self).disp() == old(self).disp().insert(r, item.disc()),
  final(self).dist() == old(self).dist(),
#start
  proof { reveal(arena_wf); reveal(nodes_of); }
#end
  proof {
    reveal(arena_wf); reveal(nodes_of);
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(vf_ret, item));
  }
@*/
/*@fn src/cate_arena.rs trait CateArena::fill_back
#props C08
#requires
  arena_wf(*old(self)),
#requires[T]
  old(self).disp().contains_key(i), old(self).disp()[i] == item.disc(), !nodes_of(*old(self)).contains_key(i),
#ensures
  arena_wf(*final(self)),
  old(self).disp().contains_key(i), old(self).disp()[i] == item.disc(), !nodes_of(*old(self)).contains_key(i),
  nodes_of(*final(self)) == nodes_of(*old(self)).insert(i, item),
  final(self).disp() == old(self).disp(),
  final(self).dist() == old(self).dist(),
#eq
#start
  proof { reveal(arena_wf); reveal(nodes_of); }
#end
  proof {
    reveal(arena_wf); reveal(nodes_of);
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(i, item));
  }
@*/
/*@fn src/cate_arena.rs trait CateArena::contains
#props C07
#ensures
  r == nodes_of(*self).contains_key(i),
#start
  proof { reveal(nodes_of); }
@*/
/*@fn src/cate_arena.rs trait CateArena::get
#props C07
#ensures
  nodes_of(*self).contains_key(i) ==> r == Some(&nodes_of(*self)[i]),
  !nodes_of(*self).contains_key(i) ==> r is None,
#start
  proof { reveal(nodes_of); }
@*/
/*@fn src/cate_arena.rs trait CateArena::get_mut
#props C07 C01
#requires
  arena_wf(*old(self)),
#ensures
  !nodes_of(*old(self)).contains_key(i) ==> r is None && nodes_of(*final(self)) == nodes_of(*old(self)) && arena_wf(*final(self)),
  nodes_of(*old(self)).contains_key(i) ==> r is Some && *r->0 == nodes_of(*old(self))[i]
    && nodes_of(*final(self)) == nodes_of(*old(self)).insert(i, *final(r->0))
    && (final(r->0).disc() == r->0.disc() ==> arena_wf(*final(self)))
    && arena_wf_ex(*final(self), i)
    && final(self).disp().contains_key(i) && final(self).disp()[i] == r->0.disc(),
  final(self).disp() == old(self).disp(),
  final(self).dist() == old(self).dist(),
#start
  proof { reveal(arena_wf); reveal(nodes_of); reveal(arena_wf_ex); }
@*/
/*@fn src/cate_arena.rs trait CateArena::update_with
#props C03 C07
#requires
  arena_wf(*old(self)) || arena_wf_ex(*old(self), i), forall|x: Self::V| f.requires((x,)),
#requires[T]
  nodes_of(*old(self)).contains_key(i),
#ensures
  arena_wf(*final(self)), nodes_of(*old(self)).contains_key(i),
  f.ensures((nodes_of(*old(self))[i],), nodes_of(*final(self))[i]),
  nodes_of(*final(self)) == nodes_of(*old(self)).insert(i, nodes_of(*final(self))[i]),
  final(self).disp() == old(self).disp().insert(i, nodes_of(*final(self))[i].disc()),
  final(self).dist() == old(self).dist(),
#end
  proof {
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(i, nodes_of(*self)[i]));
    assert(self.disp() =~= old(self).disp().insert(i, nodes_of(*self)[i].disc()));
  }
@*/
/*@fn src/cate_arena.rs trait CateArena::mutate_with
#props C03 C07
#requires
  arena_wf(*old(self)), forall|x: &mut Self::V| f.requires((x,)),
#requires[T]
  nodes_of(*old(self)).contains_key(i),
#ensures
  arena_wf(*final(self)), nodes_of(*old(self)).contains_key(i),
  exists|x: &mut Self::V| *x == nodes_of(*old(self))[i] && *final(x) == nodes_of(*final(self))[i] && #[trigger] f.ensures((x,), ()),
  nodes_of(*final(self)) == nodes_of(*old(self)).insert(i, nodes_of(*final(self))[i]),
  final(self).disp() == old(self).disp().insert(i, nodes_of(*final(self))[i].disc()),
  final(self).dist() == old(self).dist(),
#eq
#start
  proof { reveal(arena_wf); reveal(nodes_of); reveal(arena_wf_ex); }
#end
  proof {
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(i, nodes_of(*self)[i]));
    assert(self.disp() =~= old(self).disp().insert(i, nodes_of(*self)[i].disc()));
  }
@*/
}
