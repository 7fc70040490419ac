// ---------------- what the derive macros generate ----------------
pub mod ttgraph {
  pub use super::*;
  pub mod id_distributer { pub use super::super::IdDistributer; }
  pub mod ordermap {
    pub use super::super::OrderMap;
    pub mod map {
      pub type Iter<'a, K, V> = super::super::super::VIter<(&'a K, &'a V)>;
      pub type IntoIter<K, V> = super::super::super::VIter<(K, V)>;
    }
  }
}
// the other set types of a link field, with the contract of OrderSet
pub type HashSet<K> = OrderSet<K>;
pub type BTreeSet<K> = OrderSet<K>;
pub type IndexSet<K> = OrderSet<K>;
/*@enum src/typed_graph/macro_traits.rs LinkType
#attr
#[derive(Copy, Clone)]
@*/
impl<T> VfVec<T> for [T] {
  open spec fn vf_items_are<'a>(&'a self, s: Seq<&'a T>) -> bool {
    &&& s.len() == self@.len()
    &&& forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == self@[i]
    &&& forall|i: int| 0 <= i < s.len() ==> *s[i] == #[trigger] self@[i]
  }
  #[verifier::external_body]
  fn vf_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}
/// Any::downcast_ref: the value, if its type is T
pub uninterp spec fn vf_any<S, T>(s: S) -> Option<T>;
#[verifier::external_body]
pub fn vf_downcast<S, T>(s: &S) -> (r: Option<&T>)
  ensures r is Some == vf_any::<S, T>(*s) is Some, r is Some ==> Some(*r->0) == vf_any::<S, T>(*s)
{ unimplemented!() }

pub mod vf_lemmas {
use super::*;
/// how often x occurs in s
pub open spec fn cnt(s: Seq<NodeIndex>, x: NodeIndex) -> nat decreases s.len() {
  if s.len() == 0 { 0 } else { cnt(s.drop_last(), x) + (if s.last() == x { 1nat } else { 0 }) }
}
pub broadcast proof fn cnt_push(s: Seq<NodeIndex>, a: NodeIndex, x: NodeIndex)
  ensures #[trigger] cnt(s.push(a), x) == cnt(s, x) + (if a == x { 1nat } else { 0 })
{ assert(s.push(a).drop_last() =~= s); }
pub broadcast proof fn cnt_one(s: Seq<NodeIndex>, x: NodeIndex)
  requires s.len() == 1
  ensures #[trigger] cnt(s, x) == (if s[0] == x { 1nat } else { 0 })
{ assert(s.drop_last().len() == 0); reveal_with_fuel(cnt, 2); }
pub broadcast proof fn push_contains<A>(s: Seq<A>, a: A, x: A)
  ensures #[trigger] s.push(a).contains(x) <==> s.contains(x) || x == a
{
  if x == a { assert(s.push(a)[s.len() as int] == x); }
  if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(a)[i] == x); }
}
pub broadcast proof fn push_nodup<A>(s: Seq<A>, a: A)
  ensures #[trigger] s.push(a).no_duplicates() <==> s.no_duplicates() && !s.contains(a)
{
  let t = s.push(a);
  if t.no_duplicates() {
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(t[i] != t[j]); }
    if s.contains(a) { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(t[i] == t[s.len() as int]); }
  }
  if s.no_duplicates() && !s.contains(a) {
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
      if i < s.len() { assert(s.contains(s[i])); }
      if j < s.len() { assert(s.contains(s[j])); }
    }
  }
}
pub broadcast proof fn empty_contains<A>(x: A)
  ensures !(#[trigger] Seq::<A>::empty().contains(x))
{ }
pub broadcast proof fn empty_add<A>(a: Seq<A>, b: Seq<A>)
  requires a.len() == 0
  ensures #[trigger] (a + b) == b
{ assert(a + b =~= b); }
pub broadcast group vf_gen { cnt_push, cnt_one, push_contains, push_nodup, empty_contains, empty_add }
}
pub use vf_lemmas::*;
broadcast use vf_lemmas::vf_gen;
pub proof fn cnt_take(s: Seq<NodeIndex>, i: int)
  requires 0 <= i < s.len()
  ensures forall|x: NodeIndex| #[trigger] cnt(s.take(i + 1), x) == cnt(s.take(i), x) + (if s[i] == x { 1nat } else { 0 })
{ assert(s.take(i + 1) =~= s.take(i).push(s[i])); }

/// the first n items name x
#[verifier::opaque]
pub open spec fn met(all: Seq<&NodeIndex>, n: int, x: NodeIndex) -> bool { exists|j: int| 0 <= j < n && *#[trigger] all[j] == x }
pub proof fn met_none(all: Seq<&NodeIndex>)
  ensures forall|x: NodeIndex| !#[trigger] met(all, 0, x)
{ reveal(met); }
pub proof fn met_step(all: Seq<&NodeIndex>, n: int)
  requires 0 <= n < all.len(), forall|i: int, j: int| 0 <= i < j < all.len() ==> *#[trigger] all[i] != *#[trigger] all[j]
  ensures !met(all, n, *all[n]), forall|x: NodeIndex| #[trigger] met(all, n + 1, x) <==> met(all, n, x) || x == *all[n]
{
  reveal(met);
  assert forall|x: NodeIndex| met(all, n, x) || x == *all[n] implies #[trigger] met(all, n + 1, x) by {
    if met(all, n, x) { let j = choose|j: int| 0 <= j < n && *#[trigger] all[j] == x; assert(*all[j] == x); } else { assert(*all[n] == x); }
  }
}
pub proof fn met_all(m: ISet<NodeIndex>, all: Seq<&NodeIndex>)
  requires seq_of_set_ref(m, all)
  ensures forall|x: NodeIndex| #[trigger] met(all, all.len() as int, x) <==> m.contains(x)
{
  reveal(met);
  assert forall|x: NodeIndex| m.contains(x) implies #[trigger] met(all, all.len() as int, x) by {
    let j = choose|j: int| 0 <= j < all.len() && *#[trigger] all[j] == x; assert(*all[j] == x);
  }
}
pub proof fn take_step<A>(s: Seq<A>, n: int)
  requires 0 <= n < s.len()
  ensures forall|x: A| #[trigger] s.take(n + 1).contains(x) <==> s.take(n).contains(x) || x == s[n], s.no_duplicates() ==> !s.take(n).contains(s[n])
{
  assert(s.take(n + 1) =~= s.take(n).push(s[n]));
  if s.no_duplicates() && s.take(n).contains(s[n]) { let i = choose|i: int| 0 <= i < n && s.take(n)[i] == s[n]; assert(s[i] == s[n]); }
}
pub proof fn take_all<A>(s: Seq<A>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }
pub proof fn take_none<A>(s: Seq<A>) ensures forall|x: A| !#[trigger] s.take(0).contains(x), s.take(0).len() == 0 { }
/// the sources of a node from those of its variant
pub proof fn lift_sources<S, T>(la: ISet<(NodeIndex, S)>, a: Seq<(NodeIndex, S)>, lb: ISet<(NodeIndex, T)>, b: Seq<(NodeIndex, T)>, f: spec_fn(S) -> T, g: spec_fn(T) -> S)
  requires
    sources_ok(la, a), b.len() == a.len(), forall|j: int| 0 <= j < a.len() ==> #[trigger] b[j] == (a[j].0, f(a[j].1)),
    forall|s: S, t: S| #[trigger] f(s) == #[trigger] f(t) ==> s == t,
    forall|y: NodeIndex, s: S| #[trigger] la.contains((y, s)) == lb.contains((y, f(s))),
    forall|p: (NodeIndex, T)| #[trigger] lb.contains(p) ==> f(g(p.1)) == p.1,
  ensures sources_ok(lb, b)
{
  assert forall|i: int| 0 <= i < b.len() implies lb.contains(#[trigger] b[i]) by { assert(la.contains(a[i])); assert(la.contains((a[i].0, a[i].1))); }
  assert forall|p: (NodeIndex, T)| #[trigger] lb.contains(p) implies b.contains(p) by {
    let s = g(p.1);
    assert(la.contains((p.0, s)) == lb.contains((p.0, f(s))));
    assert(a.contains((p.0, s)));
    let j = choose|j: int| 0 <= j < a.len() && a[j] == (p.0, s);
    assert(b[j] == p);
  }
  assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by {
    assert(a[i] != a[j]);
    if b[i] == b[j] { assert(f(a[i].1) == f(a[j].1)); }
  }
}
/// what an arena holds after the first n pairs
pub open spec fn upto<V>(s: Seq<(NodeIndex, V)>, n: nat) -> IMap<NodeIndex, V> decreases n {
  if n == 0 { IMap::empty() } else { upto(s, (n - 1) as nat).insert(s[n - 1].0, s[n - 1].1) }
}
pub proof fn upto_has<V>(s: Seq<(NodeIndex, V)>, n: nat)
  requires n <= s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
  ensures
    forall|j: int| 0 <= j < n ==> upto(s, n).contains_key((#[trigger] s[j]).0) && upto(s, n)[s[j].0] == s[j].1,
    forall|k: NodeIndex| #[trigger] upto(s, n).contains_key(k) ==> exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k,
    n < s.len() ==> !upto(s, n).contains_key(s[n as int].0),
  decreases n
{
  if n > 0 {
    upto_has(s, (n - 1) as nat);
    assert forall|k: NodeIndex| #[trigger] upto(s, n).contains_key(k) implies exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k by {
      if k == s[n - 1].0 { assert(s[n - 1].0 == k); } else { assert(upto(s, (n - 1) as nat).contains_key(k)); }
    }
  }
}

/// the declaration of one node type
pub trait TypedSpec : Sized {
  type Source: Copy;
  type LinkMirror: Copy;
  type LoGMirror: Copy + 'static;
  type DataT;
  /// non-empty links with their place
  spec fn links(&self) -> ISet<(NodeIndex, Self::Source)>;
  /// everything else: data fields, lengths of vectors
  spec fn data(&self) -> Self::DataT;
  spec fn place_ok(d: Self::DataT, s: Self::Source) -> bool;
  spec fn single(s: Self::Source) -> bool;
  spec fn mirror(s: Self::Source) -> Self::LinkMirror;
  spec fn source(l: Self::LinkMirror) -> Self::Source;
  spec fn is_vec(l: Self::LinkMirror) -> bool;
  /// false only for the stand-in mirror of a type without links
  spec fn is_field(l: Self::LinkMirror) -> bool;
  /// g is field l or a group with field l in it
  spec fn in_log(g: Self::LoGMirror, l: Self::LinkMirror) -> bool;
  spec fn has(&self, l: Self::LinkMirror, x: NodeIndex) -> bool;
  /// how often field l names x, 0 for the empty index
  spec fn cnt_of(&self, l: Self::LinkMirror, x: NodeIndex) -> nat;
  spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat;
  spec fn by_name(name: Seq<char>) -> Option<Self::LinkMirror>;
  spec fn log_by_name(name: Seq<char>) -> Option<Self::LoGMirror>;
  spec fn dref<T>(&self, name: Seq<char>) -> Option<T>;
  spec fn names() -> Seq<&'static str>;
  spec fn kinds() -> Seq<LinkType>;
  spec fn mirrors() -> Seq<Self::LinkMirror>;
  spec fn dnames() -> Seq<&'static str>;
  proof fn law_has(&self, l: Self::LinkMirror, x: NodeIndex)
    requires x.0 != 0
    ensures self.has(l, x) == exists|s: Self::Source| #[trigger] self.links().contains((x, s)) && Self::mirror(s) == l;
}
pub open spec fn same_names(a: Seq<&'static str>, b: Seq<&'static str>) -> bool {
  a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i]@
}
pub trait TypedNode : TypedSpec {
  fn iter_sources(&self) -> (r: VIter<(NodeIndex, Self::Source)>)
    ensures r.pos() == 0, sources_ok(self.links(), r.all());
  fn iter_links(&self, link: Self::LinkMirror) -> (r: VIter<NodeIndex>)
    ensures r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == self.cnt_of(link, x);
  fn modify_link(&mut self, source: Self::Source, old_idx: NodeIndex, new_idx: NodeIndex) -> (r: (bool, bool))
    requires Self::place_ok(old(self).data(), source), old_idx.0 != 0,
    ensures
      final(self).data() == old(self).data(),
      final(self).links() == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx),
      Self::single(source) ==> r.0 == exists|z: NodeIndex| z != new_idx && #[trigger] old(self).links().contains((z, source)),
      !Self::single(source) && old_idx != new_idx ==> r.0 == old(self).links().contains((old_idx, source)),
      Self::single(source) || old_idx != new_idx ==> r.1 == (new_idx.0 != 0 && !old(self).links().contains((new_idx, source)));
  fn add_link(&mut self, link: Self::LinkMirror, target: NodeIndex) -> (r: bool)
    requires target.0 != 0, Self::is_field(link),
//[T]   !Self::is_vec(link) && (Self::single(Self::source(link)) ==> forall|z: NodeIndex| #[trigger] old(self).links().contains((z, Self::source(link))) ==> z == target),
    ensures
      final(self).data() == old(self).data(), !Self::is_vec(link),
      r == !old(self).links().contains((target, Self::source(link))),
      final(self).links() == old(self).links().insert((target, Self::source(link)));
  fn remove_link(&mut self, link: Self::LinkMirror, target: NodeIndex) -> (r: bool)
    requires target.0 != 0,
//[T]   !Self::is_vec(link),
    ensures
      final(self).data() == old(self).data(), !Self::is_vec(link),
      r == old(self).links().contains((target, Self::source(link))),
      final(self).links() == old(self).links().remove((target, Self::source(link)));
  fn contains_link(&self, link: Self::LinkMirror, target: NodeIndex) -> (r: bool)
    ensures target.0 != 0 ==> r == self.has(link, target);
  fn link_types() -> (r: &'static [LinkType])
    ensures r@ == Self::kinds();
  fn link_mirrors() -> (r: &'static [Self::LinkMirror])
    ensures r@ == Self::mirrors();
  fn link_names() -> (r: &'static [&'static str])
    ensures same_names(r@, Self::names());
  fn data_names() -> (r: &'static [&'static str])
    ensures same_names(r@, Self::dnames());
  fn get_links_by_name(&self, name: &'static str) -> (r: VIter<NodeIndex>)
    ensures r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == (match Self::by_name(name@) { Some(l) => self.cnt_of(l, x), None => 0 });
  fn get_links_by_group(&self, name: &'static str) -> (r: Vec<NodeIndex>)
    ensures forall|x: NodeIndex| #[trigger] cnt(r@, x) == self.grp_cnt(name@, x);
  fn get_link_or_group_by_name(name: &'static str) -> (r: Option<Self::LoGMirror>)
    ensures r == Self::log_by_name(name@);
  fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
    ensures r is Some == self.dref::<TGDataRefT>(name@) is Some, r is Some ==> Some(*r->0) == self.dref::<TGDataRefT>(name@);
  fn to_source(input: Self::LinkMirror) -> (r: Self::Source)
//[T]   requires !Self::is_vec(input)
    ensures r == Self::source(input), !Self::is_vec(input);
  fn to_link_mirror(input: Self::Source) -> (r: Self::LinkMirror)
    ensures r == Self::mirror(input);
  fn to_link_or_groups(input: Self::LinkMirror) -> (r: &'static [Self::LoGMirror])
    ensures
      forall|i: int| 0 <= i < r@.len() ==> Self::is_field(input) && Self::in_log(#[trigger] r@[i], input),
      forall|g: Self::LoGMirror| Self::is_field(input) && #[trigger] Self::in_log(g, input) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == g;
}

// ---------------- sizes and iteration of the arena ----------------
pub proof fn union_len<A>(a: ISet<A>, b: ISet<A>)
  requires a.finite(), b.finite(), a.disjoint(b)
  ensures a.union(b).finite(), a.union(b).len() == a.len() + b.len()
  decreases b.len()
{
  if b =~= ISet::empty() { assert(a.union(b) =~= a); }
  else {
    let x = b.choose();
    assert(b.contains(x));
    union_len(a, b.remove(x));
    assert(a.union(b) =~= a.union(b.remove(x)).insert(x));
  }
}
/// the container of one type, by node index
pub open spec fn lift<V>(c: IMap<usize, V>) -> IMap<NodeIndex, V> {
  IMap::new(|i: NodeIndex| c.contains_key(i.0), |i: NodeIndex| c[i.0])
}
pub proof fn lift_len<V>(c: IMap<usize, V>)
  requires c.dom().finite()
  ensures lift(c).dom().finite(), lift(c).dom().len() == c.dom().len()
  decreases c.dom().len()
{
  if c.dom() =~= ISet::empty() { assert(lift(c).dom() =~= ISet::empty()); }
  else {
    let x = c.dom().choose();
    assert(c.dom().contains(x));
    assert(c.remove(x).dom() =~= c.dom().remove(x));
    lift_len(c.remove(x));
    assert(lift(c).dom() =~= lift(c.remove(x)).dom().insert(NodeIndex(x)));
  }
}
/// the running sum of size hints
pub open spec fn hint_is(acc: Option<(usize, Option<usize>)>, s: Seq<(usize, Option<usize>)>, n: nat) -> bool {
  hints(s, n) <= n * (usize::MAX / 16) && if n == 0 { acc is None } else { acc is Some && (acc->0).0 as nat == hints(s, n) && (acc->0).1 == Some((acc->0).0) }
}
#[verifier::opaque]
pub open spec fn hints(s: Seq<(usize, Option<usize>)>, n: nat) -> nat decreases n { if n == 0 { 0 } else { hints(s, (n - 1) as nat) + s[n - 1].0 as nat } }
pub proof fn hints_none(s: Seq<(usize, Option<usize>)>) ensures hints(s, 0) == 0 { reveal(hints); }
pub proof fn hints_step(s: Seq<(usize, Option<usize>)>, n: nat)
  requires n < s.len()
  ensures hints(s, n + 1) == hints(s, n) + s[n as int].0,
    hints(s, n) <= n * (usize::MAX / 16) && s[n as int].0 <= usize::MAX / 16 && n < 16 ==> hints(s, n + 1) <= (n + 1) * (usize::MAX / 16) && hints(s, n + 1) <= usize::MAX
{
  reveal(hints);
  let m: int = usize::MAX as int / 16;
  assert((n + 1) * m == n * m + m) by (nonlinear_arith);
  assert(n < 16 ==> (n + 1) * m <= 16 * m) by (nonlinear_arith) requires m >= 0;
}
/// what an iterator over a container has left
pub open spec fn left<'a, V>(it: VIter<(&'a usize, &'a V)>) -> Seq<(NodeIndex, &'a V)> {
  Seq::new((it.all().len() - it.pos()) as nat, |i: int| (NodeIndex(*it.all()[it.pos() + i].0), it.all()[it.pos() + i].1))
}
pub open spec fn left_own<V>(it: VIter<(usize, V)>) -> Seq<(NodeIndex, V)> {
  Seq::new((it.all().len() - it.pos()) as nat, |i: int| (NodeIndex(it.all()[it.pos() + i].0), it.all()[it.pos() + i].1))
}
pub proof fn left_ok<V>(m: IMap<usize, V>, it: VIter<(&usize, &V)>)
  requires seq_of_map_ref(m, it.all()), it.pos() == 0
  ensures seq_of_map_kref(lift(m), left(it))
{
  let s = left(it);
  assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(*it.all()[i].0 != *it.all()[j].0); }
  assert forall|k: NodeIndex| #[trigger] lift(m).contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
    assert(m.contains_key(k.0));
    let i = choose|i: int| 0 <= i < it.all().len() && *(#[trigger] it.all()[i]).0 == k.0;
    assert(s[i].0 == k);
  }
}
pub proof fn left_own_ok<V>(m: IMap<usize, V>, it: VIter<(usize, V)>)
  requires seq_of_map(m, it.all()), it.pos() == 0
  ensures seq_of_map(lift(m), left_own(it))
{
  let s = left_own(it);
  assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(it.all()[i].0 != it.all()[j].0); }
  assert forall|k: NodeIndex| #[trigger] lift(m).contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
    assert(m.contains_key(k.0));
    let i = choose|i: int| 0 <= i < it.all().len() && (#[trigger] it.all()[i]).0 == k.0;
    assert(s[i].0 == k);
  }
}
pub proof fn cat_ok<V>(a: IMap<NodeIndex, V>, s: Seq<(NodeIndex, &V)>, b: IMap<NodeIndex, V>, t: Seq<(NodeIndex, &V)>)
  requires seq_of_map_kref(a, s), seq_of_map_kref(b, t), a.dom().disjoint(b.dom())
  ensures seq_of_map_kref(a.union_prefer_right(b), s + t)
{
  let m = a.union_prefer_right(b);
  let u = s + t;
  assert forall|i: int| 0 <= i < u.len() implies m.contains_key((#[trigger] u[i]).0) && m[u[i].0] == *u[i].1 by {
    if i < s.len() { assert(a.dom().contains(s[i].0)); assert(!b.dom().contains(s[i].0)); } else { assert(b.contains_key(t[i - s.len()].0)); }
  }
  assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).0 != (#[trigger] u[j]).0 by {
    if i < s.len() && j >= s.len() { assert(a.dom().contains(s[i].0)); assert(b.dom().contains(t[j - s.len()].0)); }
  }
  assert forall|k: NodeIndex| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0 == k by {
    if b.contains_key(k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(u[s.len() + i].0 == k); }
    else { assert(a.contains_key(k)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(u[i].0 == k); }
  }
}
pub proof fn cat_own_ok<V>(a: IMap<NodeIndex, V>, s: Seq<(NodeIndex, V)>, b: IMap<NodeIndex, V>, t: Seq<(NodeIndex, V)>)
  requires seq_of_map(a, s), seq_of_map(b, t), a.dom().disjoint(b.dom())
  ensures seq_of_map(a.union_prefer_right(b), s + t)
{
  let m = a.union_prefer_right(b);
  let u = s + t;
  assert forall|i: int| 0 <= i < u.len() implies m.contains_key((#[trigger] u[i]).0) && m[u[i].0] == u[i].1 by {
    if i < s.len() { assert(a.dom().contains(s[i].0)); assert(!b.dom().contains(s[i].0)); } else { assert(b.contains_key(t[i - s.len()].0)); }
  }
  assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).0 != (#[trigger] u[j]).0 by {
    if i < s.len() && j >= s.len() { assert(a.dom().contains(s[i].0)); assert(b.dom().contains(t[j - s.len()].0)); }
  }
  assert forall|k: NodeIndex| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0 == k by {
    if b.contains_key(k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(u[s.len() + i].0 == k); }
    else { assert(a.contains_key(k)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(u[i].0 == k); }
  }
}
