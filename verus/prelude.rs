// ---------------------------------------------------------------------------------------------
// Shims: contracts assumed for std, ordermap, uuid. Every external_body below is part of the
// trusted base and listed in the evidence.
// ---------------------------------------------------------------------------------------------

//[P] #[verifier::external_body] pub fn vf_panic() -> ! ensures false { panic!() }
//[T] #[verifier::external_body] pub fn vf_panic() -> ! requires false ensures false { panic!() }
#[verifier::external_body]
//[P] pub fn vf_unwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
//[T] pub fn vf_unwrap<T>(o: Option<T>) -> (r: T) requires o is Some ensures o == Some(r) { unimplemented!() }
pub fn vf_id<T>(x: T) -> (r: T) ensures r == x { x }
pub fn vf_drop<T>(x: T) { }
/// `==` of types that derive PartialEq (or implement it structurally)
#[verifier::external_body]
pub fn vf_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn vf_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { k: std::marker::PhantomData<T> }
impl<T> VIter<T> {
  pub uninterp spec fn all(&self) -> Seq<T>;
  pub uninterp spec fn pos(&self) -> nat;
  #[verifier::external_body]
  pub fn has_next(&self) -> (r: bool)
    requires self.pos() <= self.all().len()
    ensures r == (self.pos() < self.all().len())
  { unimplemented!() }
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: T)
    requires old(self).pos() < old(self).all().len()
    ensures final(self).all() == old(self).all(), final(self).pos() == old(self).pos() + 1, r == old(self).all()[old(self).pos() as int]
  { unimplemented!() }
  /// Iterator::next
  #[verifier::external_body]
  pub fn next_opt(&mut self) -> (r: Option<T>)
    requires old(self).pos() <= old(self).all().len()
    ensures
      final(self).all() == old(self).all(),
      old(self).pos() < old(self).all().len() ==> final(self).pos() == old(self).pos() + 1 && r == Some(old(self).all()[old(self).pos() as int]),
      old(self).pos() >= old(self).all().len() ==> final(self).pos() == old(self).pos() && r is None,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vf_index(&self) -> (r: usize)
    requires self.pos() < self.all().len()
    ensures r as nat == self.pos()
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vf_chain(self, o: VIter<T>) -> (r: VIter<T>)
    requires self.pos() == 0, o.pos() == 0
    ensures
      r.all() == self.all() + o.all(), r.pos() == 0,
      forall|i: int| 0 <= i < self.all().len() ==> #[trigger] self.all()[i] == r.all()[i],
      forall|i: int| 0 <= i < o.all().len() ==> #[trigger] o.all()[i] == r.all()[self.all().len() + i],
  { unimplemented!() }
  #[verifier::external_body]
  pub fn take(self, n: usize) -> (r: VIter<T>)
    requires self.pos() == 0
    ensures r.pos() == 0, r.all() == self.all().take(if n < self.all().len() { n as int } else { self.all().len() as int })
  { unimplemented!() }
  #[verifier::external_body]
  pub fn skip(self, n: usize) -> (r: VIter<T>)
    requires self.pos() == 0
    ensures r.pos() == 0, r.all() == self.all().skip(if n < self.all().len() { n as int } else { self.all().len() as int })
  { unimplemented!() }
  #[verifier::external_body]
  pub fn rev(self) -> (r: VIter<T>)
    requires self.pos() == 0
    ensures r.pos() == 0, r.all() == self.all().reverse()
  { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize)
    requires self.pos() <= self.all().len()
    ensures r as nat == self.all().len() - self.pos()
  { unimplemented!() }
  #[verifier::external_body]
  pub fn clone(&self) -> (r: Self)
    ensures r.all() == self.all(), r.pos() == self.pos()
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vf_to_vec(self) -> (r: Vec<T>)
    requires self.pos() == 0
    ensures r@ == self.all()
  { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_empty_iter<T>() -> (r: VIter<T>) ensures r.all() == Seq::<T>::empty(), r.pos() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vf_array_iter<T, const N: usize>(a: [T; N]) -> (r: VIter<T>) ensures r.all() == a@, r.pos() == 0 { unimplemented!() }

pub trait VfIntoIter : Sized {
  type Item;
  spec fn vf_rel(self, s: Seq<Self::Item>) -> bool;
  fn vf_into_iter(self) -> (r: VIter<Self::Item>) ensures self.vf_rel(r.all()), r.pos() == 0;
}
impl<T> VfIntoIter for VIter<T> {
  type Item = T;
  open spec fn vf_rel(self, s: Seq<T>) -> bool { s == self.all() }
  /// the identity; iterators are only passed on before their first element is taken
  #[verifier::external_body]
  fn vf_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<T> VfIntoIter for Vec<T> {
  type Item = T;
  open spec fn vf_rel(self, s: Seq<T>) -> bool { s == self@ }
  #[verifier::external_body]
  fn vf_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<'a, T> VfIntoIter for &'a Vec<T> {
  type Item = &'a T;
  open spec fn vf_rel(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == self@[i] }
  #[verifier::external_body]
  fn vf_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
pub trait VfVec<T> {
  fn vf_iter<'a>(&'a self) -> (r: VIter<&'a T>) ensures self.vf_items_are(r.all()), r.pos() == 0;
  spec fn vf_items_are<'a>(&'a self, s: Seq<&'a T>) -> bool;
}
impl<T> VfVec<T> for Vec<T> {
  open spec fn vf_items_are<'a>(&'a self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == self@[i] }
  #[verifier::external_body]
  fn vf_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}

// ---- ordermap::OrderSet (iteration order not modelled)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct OrderSet<K> { k: std::marker::PhantomData<K> }
impl<K> View for OrderSet<K> { type V = ISet<K>; uninterp spec fn view(&self) -> ISet<K>; }
pub open spec fn seq_of_set<K>(m: ISet<K>, s: Seq<K>) -> bool {
  &&& s.no_duplicates()
  &&& forall|i: int| 0 <= i < s.len() ==> m.contains(#[trigger] s[i])
  &&& forall|k: K| #[trigger] m.contains(k) ==> s.contains(k)
}
pub open spec fn seq_of_set_ref<K>(m: ISet<K>, s: Seq<&K>) -> bool {
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *#[trigger] s[i] != *#[trigger] s[j]
  &&& forall|i: int| 0 <= i < s.len() ==> m.contains(*#[trigger] s[i])
  &&& forall|k: K| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == k
}
impl<K> OrderSet<K> {
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == ISet::<K>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn default() -> (r: Self) ensures r@ == ISet::<K>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K) -> (r: bool)
    ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn swap_remove(&mut self, k: &K) -> (r: bool)
    ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) -> (r: bool)
    ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == ISet::<K>::empty()) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures self@.finite(), r as nat == self@.len(), (r == 0) == (self@ == ISet::<K>::empty()) { unimplemented!() }
  #[verifier::external_body]
  pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn set_eq(&self, o: &Self) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
  #[verifier::external_body]
  pub fn vf_iter<'a>(&'a self) -> (r: VIter<&'a K>) ensures seq_of_set_ref(self@, r.all()), r.pos() == 0 { unimplemented!() }
}
impl<K> VfIntoIter for OrderSet<K> {
  type Item = K;
  open spec fn vf_rel(self, s: Seq<K>) -> bool { seq_of_set(self@, s) }
  #[verifier::external_body]
  fn vf_into_iter(self) -> (r: VIter<K>) { unimplemented!() }
}
impl<'a, K> VfIntoIter for &'a OrderSet<K> {
  type Item = &'a K;
  open spec fn vf_rel(self, s: Seq<&'a K>) -> bool { seq_of_set_ref(self@, s) }
  #[verifier::external_body]
  fn vf_into_iter(self) -> (r: VIter<&'a K>) { unimplemented!() }
}

// ---- ordermap::OrderMap (iteration order not modelled)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct OrderMap<K, V> { k: std::marker::PhantomData<(K, V)> }
impl<K, V> View for OrderMap<K, V> { type V = IMap<K, V>; uninterp spec fn view(&self) -> IMap<K, V>; }
pub open spec fn seq_of_map<K, V>(m: IMap<K, V>, s: Seq<(K, V)>) -> bool {
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
  &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
  &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub open spec fn seq_of_map_ref<K, V>(m: IMap<K, V>, s: Seq<(&K, &V)>) -> bool {
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
  &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
  &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
}
pub open spec fn seq_of_map_kref<K, V>(m: IMap<K, V>, s: Seq<(K, &V)>) -> bool {
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
  &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == *s[i].1
  &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub open spec fn seq_of_keys_ref<K, V>(m: IMap<K, V>, s: Seq<&K>) -> bool {
  seq_of_set_ref(m.dom(), s)
}
impl<K, V> OrderMap<K, V> {
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == IMap::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &K) -> (r: Option<&V>)
    ensures
      !self@.contains_key(*k) ==> r is None,
      self@.contains_key(*k) ==> r == Some(&self@[*k]),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
    ensures
      !old(self)@.contains_key(*k) ==> r is None && final(self)@ == old(self)@,
      old(self)@.contains_key(*k) ==> r is Some && *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn swap_remove(&mut self, k: &K) -> (r: Option<V>)
    ensures
      final(self)@ == old(self)@.remove(*k),
      r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) -> (r: Option<V>)
    ensures
      final(self)@ == old(self)@.remove(*k),
      r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures
      final(self)@ == old(self)@.insert(k, v),
      r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn append(&mut self, o: &mut OrderMap<K, V>)
    ensures
      final(self)@ == old(self)@.union_prefer_right(old(o)@),
      final(o)@ == IMap::<K, V>::empty(),
  { unimplemented!() }
  #[verifier::external_body]
  /// an entry takes at least 8 bytes and an allocation at most isize::MAX
  pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r as nat == self@.dom().len(), (r == 0) == (self@ == IMap::<K, V>::empty()), r <= usize::MAX / 16 { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == IMap::<K, V>::empty()) { unimplemented!() }
  #[verifier::external_body]
  pub fn keys<'a>(&'a self) -> (r: VIter<&'a K>) ensures seq_of_keys_ref(self@, r.all()), r.pos() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn vf_iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>) ensures seq_of_map_ref(self@, r.all()), r.pos() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn vf_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
    ensures
      *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }),
      final(self)@ == old(self)@.insert(k, *final(r)),
  { unimplemented!() }
}
impl<K, T> OrderMap<K, OrderSet<T>> {
  #[verifier::external_body]
  pub fn vf_entry_or_default(&mut self, k: K) -> (r: &mut OrderSet<T>)
    ensures
      r@ == (if old(self)@.contains_key(k) { old(self)@[k]@ } else { ISet::empty() }),
      old(self)@.contains_key(k) ==> *r == old(self)@[k],
      final(self)@ == old(self)@.insert(k, *final(r)),
  { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_index<'a, K, V>(m: &'a OrderMap<K, V>, k: &K) -> (r: &'a V)
//[T]   requires m@.contains_key(*k)
  ensures m@.contains_key(*k), *r == m@[*k]
{ unimplemented!() }
impl<K, V> VfIntoIter for OrderMap<K, V> {
  type Item = (K, V);
  open spec fn vf_rel(self, s: Seq<(K, V)>) -> bool { seq_of_map(self@, s) }
  #[verifier::external_body]
  fn vf_into_iter(self) -> (r: VIter<(K, V)>) { unimplemented!() }
}
impl<'a, K, V> VfIntoIter for &'a OrderMap<K, V> {
  type Item = (&'a K, &'a V);
  open spec fn vf_rel(self, s: Seq<(&'a K, &'a V)>) -> bool { seq_of_map_ref(self@, s) }
  #[verifier::external_body]
  fn vf_into_iter(self) -> (r: VIter<(&'a K, &'a V)>) { unimplemented!() }
}

// ---- uuid::Uuid
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct Uuid(pub u128);
/// the id was made by Uuid::new_v4, whose results are assumed distinct
pub uninterp spec fn is_v4(u: Uuid) -> bool;
impl Uuid {
  #[verifier::external_body]
  pub fn new_v4() -> (r: Uuid) ensures is_v4(r) { unimplemented!() }
}

// ---- std::collections::BTreeMap (iteration order not modelled)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: std::marker::PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = IMap<K, V>; uninterp spec fn view(&self) -> IMap<K, V>; }
impl<K, V> BTreeMap<K, V> {
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == IMap::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures
      final(self)@ == old(self)@.insert(k, v),
      r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
  { unimplemented!() }
}
impl<V> BTreeMap<String, V> {
  #[verifier::external_body]
  pub fn remove(&mut self, k: &str) -> (r: Option<V>)
    ensures
      forall|x: String| #[trigger] final(self)@.contains_key(x) == (old(self)@.contains_key(x) && x@ != k@),
      forall|x: String| #[trigger] final(self)@.contains_key(x) ==> final(self)@[x] == old(self)@[x],
  { unimplemented!() }
}
impl<'a, K, V> VfIntoIter for &'a BTreeMap<K, V> {
  type Item = (&'a K, &'a V);
  open spec fn vf_rel(self, s: Seq<(&'a K, &'a V)>) -> bool { seq_of_map_ref(self@, s) }
  #[verifier::external_body]
  fn vf_into_iter(self) -> (r: VIter<(&'a K, &'a V)>) { unimplemented!() }
}
/// Box::new followed by the coercion to a trait object: the same closure
pub fn vf_box<T>(x: T) -> (r: T) ensures r == x { x }

/// one step of Iterator::max
pub fn vf_max(a: Option<usize>, b: usize) -> (r: Option<usize>)
  ensures r is Some, r->0 >= b, a is Some ==> r->0 >= a->0, r->0 == b || r == a
{ match a { None => Some(b), Some(x) => if x > b { Some(x) } else { Some(b) } } }

/// Iterator::size_hint of an iterator over a container: exact, and bounded like OrderMap::len
#[verifier::external_body]
pub fn vf_size_hint<T>(it: &VIter<T>) -> (r: (usize, Option<usize>))
  requires it.pos() <= it.all().len()
  ensures r.0 as nat == it.all().len() - it.pos(), r.1 == Some(r.0), r.0 <= usize::MAX / 16
{ unimplemented!() }
