
// ---------------- C09: relabelling ----------------
/// node a of n is node f[a] of m, with the same type and data
pub open spec fn renamed<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>) -> bool {
  &&& f.dom() == n.dom()
  &&& forall|a: NodeIndex| #[trigger] n.contains_key(a) ==> f.contains_key(a) && f[a].0 != 0 && m.contains_key(f[a]) && m[f[a]].data() == n[a].data() && m[f[a]].disc() == n[a].disc()
  &&& forall|a: NodeIndex, b: NodeIndex| #[trigger] n.contains_key(a) && #[trigger] n.contains_key(b) && f[a] == f[b] ==> a == b
  &&& forall|c: NodeIndex| #[trigger] m.contains_key(c) ==> exists|a: NodeIndex| #[trigger] n.contains_key(a) && f[a] == c
}
/// the links of n except those in done
#[verifier::opaque]
pub open spec fn cleared<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>, done: ISet<(NodeIndex, NodeIndex, N::SourceEnum)>) -> bool {
  &&& renamed(n, m, f)
  &&& forall|a: NodeIndex, e: NodeIndex, s: N::SourceEnum| #![trigger m[f[a]].links().contains((e, s))] #![trigger n[a].links().contains((e, s))] n.contains_key(a) ==> m[f[a]].links().contains((e, s)) == (n[a].links().contains((e, s)) && !done.contains((e, a, s)))
}
/// the links in done, renamed
#[verifier::opaque]
pub open spec fn written<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>, done: ISet<(NodeIndex, NodeIndex, N::SourceEnum)>) -> bool {
  &&& renamed(n, m, f)
  &&& forall|y: NodeIndex, a: NodeIndex, s: N::SourceEnum| #[trigger] done.contains((y, a, s)) ==> n.contains_key(a) && n.contains_key(y) && n[a].links().contains((y, s)) && m[f[a]].links().contains((f[y], s))
  &&& forall|a: NodeIndex, e: NodeIndex, s: N::SourceEnum| n.contains_key(a) && #[trigger] m[f[a]].links().contains((e, s)) ==> exists|y: NodeIndex| #[trigger] done.contains((y, a, s)) && f[y] == e
}
/// C09: the correspondence carries every link
pub open spec fn relab<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>) -> bool {
  &&& renamed(n, m, f)
  &&& forall|a: NodeIndex, y: NodeIndex, s: N::SourceEnum| n.contains_key(a) && #[trigger] n[a].links().contains((y, s)) ==> n.contains_key(y) && m[f[a]].links().contains((f[y], s))
  &&& forall|a: NodeIndex, e: NodeIndex, s: N::SourceEnum| n.contains_key(a) && #[trigger] m[f[a]].links().contains((e, s)) ==> exists|y: NodeIndex| #[trigger] n[a].links().contains((y, s)) && n.contains_key(y) && f[y] == e
}
pub open spec fn all_links<N: NodeSpec>(n: IMap<NodeIndex, N>) -> ISet<(NodeIndex, NodeIndex, N::SourceEnum)> {
  ISet::new(|p: (NodeIndex, NodeIndex, N::SourceEnum)| fwd(n, p.1, p.0, p.2))
}
proof fn clear_step<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, m2: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>, done: ISet<(NodeIndex, NodeIndex, N::SourceEnum)>, id: NodeIndex, y: NodeIndex, s: N::SourceEnum)
  requires
    cleared(n, m, f, done), n.contains_key(y), n[y].links().contains((id, s)),
    m2 == m.insert(f[y], m2[f[y]]), m2[f[y]].data() == m[f[y]].data(), m2[f[y]].disc() == m[f[y]].disc(),
    m2[f[y]].links() == set_link(m[f[y]].links(), s, N::single(s), id, NodeIndex(0)),
  ensures cleared(n, m2, f, done.insert((id, y, s)))
{
  reveal(cleared);
  let d2 = done.insert((id, y, s));
  assert forall|a: NodeIndex, e: NodeIndex, t: N::SourceEnum| n.contains_key(a) implies #[trigger] m2[f[a]].links().contains((e, t)) == (n[a].links().contains((e, t)) && !d2.contains((e, a, t))) by {
    assert(m[f[a]].links().contains((e, t)) == (n[a].links().contains((e, t)) && !done.contains((e, a, t))));
    if a == y {
      if t == s && N::single(s) && n[y].links().contains((e, s)) { n[y].law_single(e, id, s); }
    }
  }
}
proof fn write_step<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, m2: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>, done: ISet<(NodeIndex, NodeIndex, N::SourceEnum)>, id: NodeIndex, y: NodeIndex, s: N::SourceEnum)
  requires
    written(n, m, f, done), n.contains_key(y), n.contains_key(id), n[y].links().contains((id, s)),
    m2 == m.insert(f[y], m2[f[y]]), m2[f[y]].data() == m[f[y]].data(), m2[f[y]].disc() == m[f[y]].disc(),
    m2[f[y]].links() == set_link(m[f[y]].links(), s, N::single(s), f[id], f[id]),
  ensures written(n, m2, f, done.insert((id, y, s)))
{
  reveal(written);
  let d2 = done.insert((id, y, s));
  assert forall|z: NodeIndex, a: NodeIndex, t: N::SourceEnum| #[trigger] d2.contains((z, a, t)) implies n.contains_key(a) && n.contains_key(z) && n[a].links().contains((z, t)) && m2[f[a]].links().contains((f[z], t)) by {
    if (z, a, t) != (id, y, s) {
      assert(done.contains((z, a, t)));
      if a == y && t == s && N::single(s) { n[y].law_single(z, id, s); }
    }
  }
  assert forall|a: NodeIndex, e: NodeIndex, t: N::SourceEnum| n.contains_key(a) && #[trigger] m2[f[a]].links().contains((e, t)) implies exists|z: NodeIndex| #[trigger] d2.contains((z, a, t)) && f[z] == e by {
    if a == y && t == s && e == f[id] { assert(d2.contains((id, a, t))); }
    else {
      assert(m[f[a]].links().contains((e, t)));
      let z = choose|z: NodeIndex| #[trigger] done.contains((z, a, t)) && f[z] == e;
      assert(d2.contains((z, a, t)));
    }
  }
}
proof fn written_all<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>)
  requires written(n, m, f, all_links(n)), closed(n, n.dom())
  ensures relab(n, m, f)
{
  reveal(written); reveal(closed);
  assert forall|a: NodeIndex, y: NodeIndex, s: N::SourceEnum| n.contains_key(a) && #[trigger] n[a].links().contains((y, s)) implies n.contains_key(y) && m[f[a]].links().contains((f[y], s)) by {
    assert(into(n[a], n.dom())); assert(n.dom().contains(y));
    assert(fwd(n, a, y, s)); assert(all_links(n).contains((y, a, s)));
  }
  assert forall|a: NodeIndex, e: NodeIndex, s: N::SourceEnum| n.contains_key(a) && #[trigger] m[f[a]].links().contains((e, s)) implies exists|y: NodeIndex| #[trigger] n[a].links().contains((y, s)) && n.contains_key(y) && f[y] == e by {
    let y = choose|y: NodeIndex| #[trigger] all_links(n).contains((y, a, s)) && f[y] == e;
    assert(fwd(n, a, y, s)); assert(n[a].links().contains((y, s)));
  }
}
proof fn cleared_all<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>)
  requires cleared(n, m, f, all_links(n))
  ensures written(n, m, f, ISet::empty())
{
  reveal(written); reveal(cleared);
  assert forall|a: NodeIndex, e: NodeIndex, s: N::SourceEnum| n.contains_key(a) && #[trigger] m[f[a]].links().contains((e, s)) implies false by {
    assert(n[a].links().contains((e, s))); assert(fwd(n, a, e, s)); assert(all_links(n).contains((e, a, s)));
  }
}
/// every link with a partner field at its target has its partner
pub open spec fn bd_complete<N: NodeSpec>(n: IMap<NodeIndex, N>) -> bool {
  forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum, q: N::LinkMirrorEnum| #![trigger trip(n, x, y, l), partner(n, y, l, q)] trip(n, x, y, l) && n.contains_key(y) && partner(n, y, l, q) ==> linked_back(n, n, x, y, l)
}
pub open spec fn equal_links<N: NodeSpec>(m: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>) -> bool {
  same_shape(m, n2) && forall|a: NodeIndex, b: NodeIndex, s: N::SourceEnum| #[trigger] fwd(n2, a, b, s) == fwd(m, a, b, s)
}
/// completing a complete graph changes nothing
pub proof fn bd_nothing<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>)
  requires bd_applied(n, n2, ISet::<Trip<N>>::empty()), bd_complete(n)
  ensures equal_links(n, n2)
{
  reveal(bd_applied); reveal(bd_cut); reveal(bd_add);
  let t0 = ISet::<Trip<N>>::empty();
  let m = choose|m: IMap<NodeIndex, N>| #[trigger] bd_cut(n, m, t0) && bd_add(m, n2, t0);
  assert forall|a: NodeIndex, b: NodeIndex, s: N::SourceEnum| #[trigger] fwd(m, a, b, s) == fwd(n, a, b, s) by { }
  equal_links_trips(n, m);
  assert forall|a: NodeIndex, b: NodeIndex, s: N::SourceEnum| #[trigger] fwd(n2, a, b, s) implies fwd(m, a, b, s) by {
    if !fwd(m, a, b, s) {
      let q = N::mirror(s);
      assert(wanted(m, t0, a, b, q));
      let l = choose|l: N::LinkMirrorEnum| #[trigger] trip(m, b, a, l) && !t0.contains((b, a, l)) && partner(m, a, l, q) && forall|p: N::LinkMirrorEnum| #[trigger] partner(m, a, l, p) ==> p == q;
      assert(trip(n, b, a, l)); assert(partner(n, a, l, q));
      assert(linked_back(n, n, b, a, l));
      let p = choose|p: N::LinkMirrorEnum| partner(n, a, l, p) && #[trigger] trip(n, a, b, p);
      assert(partner(m, a, l, p)); assert(p == q);
      fwd_trips(n, a, b, q); N::law_mirror(q, s);
      assert(fwd(n, a, b, s));
    }
  }
}
pub proof fn equal_links_trips<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>)
  requires equal_links(n, m)
  ensures forall|a: NodeIndex, b: NodeIndex, l: N::LinkMirrorEnum| #[trigger] trip(m, a, b, l) == trip(n, a, b, l)
{
  assert forall|a: NodeIndex, b: NodeIndex, l: N::LinkMirrorEnum| #[trigger] trip(m, a, b, l) == trip(n, a, b, l) by {
    if trip(m, a, b, l) { let s = trip_of(m, a, b, l); assert(fwd(n, a, b, s)); }
    if trip(n, a, b, l) { let s = trip_of(n, a, b, l); assert(fwd(m, a, b, s)); }
  }
}

pub proof fn relab_trip<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>, a: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum)
  requires relab(n, m, f), n.contains_key(a), n.contains_key(y)
  ensures trip(m, f[a], f[y], l) == trip(n, a, y, l)
{
  if trip(m, f[a], f[y], l) {
    let s = trip_of(m, f[a], f[y], l);
    let z = choose|z: NodeIndex| #[trigger] n[a].links().contains((z, s)) && n.contains_key(z) && f[z] == f[y];
    assert(z == y);
  }
  if trip(n, a, y, l) { let s = trip_of(n, a, y, l); assert(n[a].links().contains((y, s))); assert(m[f[a]].links().contains((f[y], s))); }
}
pub proof fn relab_back<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>, c: NodeIndex, e: NodeIndex, l: N::LinkMirrorEnum) -> (r: (NodeIndex, NodeIndex))
  requires relab(n, m, f), trip(m, c, e, l)
  ensures n.contains_key(r.0), n.contains_key(r.1), f[r.0] == c, f[r.1] == e, trip(n, r.0, r.1, l)
{
  let a = choose|a: NodeIndex| #[trigger] n.contains_key(a) && f[a] == c;
  let s = trip_of(m, c, e, l);
  let y = choose|z: NodeIndex| #[trigger] n[a].links().contains((z, s)) && n.contains_key(z) && f[z] == e;
  (a, y)
}
pub proof fn relab_complete<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>)
  requires relab(n, m, f), bd_complete(n)
  ensures bd_complete(m)
{
  assert forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum, q: N::LinkMirrorEnum| #![trigger trip(m, x, y, l), partner(m, y, l, q)] trip(m, x, y, l) && m.contains_key(y) && partner(m, y, l, q) implies linked_back(m, m, x, y, l) by {
    let (a, b) = relab_back(n, m, f, x, y, l);
    assert(partner(n, b, l, q)); assert(linked_back(n, n, a, b, l));
    let p = choose|p: N::LinkMirrorEnum| partner(n, b, l, p) && #[trigger] trip(n, b, a, p);
    relab_trip(n, m, f, b, a, p);
    assert(partner(m, y, l, p)); assert(trip(m, y, x, p));
  }
}
pub open spec fn bd_no_vec<N: NodeSpec>() -> bool { forall|l: N::LinkMirrorEnum, q: N::LinkMirrorEnum| #[trigger] bd_of::<N>(l).contains(q) ==> !N::is_vec(q) }
/// a wanted link of a complete graph is there
proof fn wanted_there<N: NodeSpec>(m: IMap<NodeIndex, N>, y: NodeIndex, x: NodeIndex, q: N::LinkMirrorEnum)
  requires bd_complete(m), wanted(m, ISet::<Trip<N>>::empty(), y, x, q)
  ensures trip(m, y, x, q)
{
  let l = choose|l: N::LinkMirrorEnum| #[trigger] trip(m, x, y, l) && !ISet::<Trip<N>>::empty().contains((x, y, l)) && partner(m, y, l, q) && forall|p: N::LinkMirrorEnum| #[trigger] partner(m, y, l, p) ==> p == q;
  assert(linked_back(m, m, x, y, l));
}
proof fn one_target<N: NodeSpec>(m: IMap<NodeIndex, N>, y: NodeIndex, x: NodeIndex, z: NodeIndex, q: N::LinkMirrorEnum)
  requires trip(m, y, x, q), trip(m, y, z, q), N::single(N::source(q)), !N::is_vec(q)
  ensures x == z
{ fwd_trips(m, y, x, q); fwd_trips(m, y, z, q); m[y].law_single(x, z, N::source(q)); }
pub proof fn complete_decidable<N: NodeSpec>(n: IMap<NodeIndex, N>)
  requires bd_complete(n), bd_no_vec::<N>()
  ensures bd_decidable(n, ISet::<Trip<N>>::empty())
{
  let t0 = ISet::<Trip<N>>::empty();
  assert forall|m: IMap<NodeIndex, N>| #[trigger] bd_cut(n, m, t0) implies bd_choice(m, t0) by {
    reveal(bd_cut);
    assert forall|a: NodeIndex, b: NodeIndex, s: N::SourceEnum| #[trigger] fwd(m, a, b, s) == fwd(n, a, b, s) by { }
    equal_links_trips(n, m);
    assert(bd_complete(m)) by {
      assert forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum, q: N::LinkMirrorEnum| #![trigger trip(m, x, y, l), partner(m, y, l, q)] trip(m, x, y, l) && m.contains_key(y) && partner(m, y, l, q) implies linked_back(m, m, x, y, l) by {
        assert(n.dom().contains(y)); assert(trip(n, x, y, l)); assert(partner(n, y, l, q));
        assert(linked_back(n, n, x, y, l));
        let p = choose|p: N::LinkMirrorEnum| partner(n, y, l, p) && #[trigger] trip(n, y, x, p);
        assert(partner(m, y, l, p)); assert(trip(m, y, x, p));
      }
    }
    assert forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum, q: N::LinkMirrorEnum, p: N::LinkMirrorEnum| #![trigger trip(m, x, y, l), partner(m, y, l, q), partner(m, y, l, p)]
      trip(m, x, y, l) && !t0.contains((x, y, l)) && m.contains_key(y) && partner(m, y, l, q) && partner(m, y, l, p) implies p == q || linked_back(m, m, x, y, l) by { }
    assert forall|y: NodeIndex, x: NodeIndex, z: NodeIndex, q: N::LinkMirrorEnum| #![trigger wanted(m, t0, y, x, q), wanted(m, t0, y, z, q)] N::single(N::source(q)) && wanted(m, t0, y, x, q) && wanted(m, t0, y, z, q) implies x == z by {
      wanted_there(m, y, x, q); wanted_there(m, y, z, q); wanted_no_vec(m, y, x, q); one_target(m, y, x, z, q);
    }
    assert forall|y: NodeIndex, x: NodeIndex, z: NodeIndex, q: N::LinkMirrorEnum| #![trigger wanted(m, t0, y, x, q), trip(m, y, z, q)] N::single(N::source(q)) && wanted(m, t0, y, x, q) && trip(m, y, z, q) implies x == z by {
      wanted_there(m, y, x, q); wanted_no_vec(m, y, x, q); one_target(m, y, x, z, q);
    }
  }
}
proof fn wanted_no_vec<N: NodeSpec>(m: IMap<NodeIndex, N>, y: NodeIndex, x: NodeIndex, q: N::LinkMirrorEnum)
  requires wanted(m, ISet::<Trip<N>>::empty(), y, x, q), bd_no_vec::<N>()
  ensures !N::is_vec(q)
{
  let l = choose|l: N::LinkMirrorEnum| #[trigger] trip(m, x, y, l) && !ISet::<Trip<N>>::empty().contains((x, y, l)) && partner(m, y, l, q) && forall|p: N::LinkMirrorEnum| #[trigger] partner(m, y, l, p) ==> p == q;
  assert(bd_of::<N>(l).contains(q));
}
pub proof fn relab_same<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>)
  requires relab(n, m, f), equal_links(m, n2)
  ensures relab(n, n2, f)
{
  assert forall|c: NodeIndex| n2.contains_key(c) == m.contains_key(c) by { assert(n2.dom().contains(c) == m.dom().contains(c)); }
  assert forall|a: NodeIndex, y: NodeIndex, s: N::SourceEnum| n.contains_key(a) && #[trigger] n[a].links().contains((y, s)) implies n.contains_key(y) && n2[f[a]].links().contains((f[y], s)) by { assert(fwd(m, f[a], f[y], s)); assert(fwd(n2, f[a], f[y], s)); }
  assert forall|a: NodeIndex, e: NodeIndex, s: N::SourceEnum| n.contains_key(a) && #[trigger] n2[f[a]].links().contains((e, s)) implies m[f[a]].links().contains((e, s)) by { assert(fwd(n2, f[a], e, s)); assert(fwd(m, f[a], e, s)); }
}
pub proof fn relab_types<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>)
  requires relab(n, m, f), types_ok(n, ISet::<Trip<N>>::empty())
  ensures types_ok(m, ISet::<Trip<N>>::empty())
{
  reveal(types_ok);
  let t0 = ISet::<Trip<N>>::empty();
  assert forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] trip(m, x, y, l) && !t0.contains((x, y, l)) && m.contains_key(y) implies allowed::<N>(l, m[y].disc()) by {
    let (a, b) = relab_back(n, m, f, x, y, l);
    assert(!t0.contains((a, b, l))); assert(trip(n, a, b, l));
  }
}
/// the graph n2 is n relabelled by f, and completed
pub open spec fn switched<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>) -> bool {
  exists|m: IMap<NodeIndex, N>| #[trigger] relab(n, m, f) && bd_applied(m, n2, ISet::<Trip<N>>::empty())
}
/// C09
pub proof fn switch_keeps<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>)
  requires switched(n, n2, f), bd_complete(n)
  ensures relab(n, n2, f)
{
  let m = choose|m: IMap<NodeIndex, N>| #[trigger] relab(n, m, f) && bd_applied(m, n2, ISet::<Trip<N>>::empty());
  relab_complete(n, m, f); bd_nothing(m, n2); relab_same(n, m, n2, f);
}
/// nodes inserted so far
#[verifier::opaque]
pub open spec fn carry_k<N: NodeSpec>(all: Seq<(NodeIndex, N)>, k: nat, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>) -> bool {
  &&& forall|a: NodeIndex| #[trigger] f.contains_key(a) == seen(all, k, a)
  &&& forall|i: int| 0 <= i < k ==> f[(#[trigger] all[i]).0].0 != 0 && m.contains_key(f[all[i].0]) && m[f[all[i].0]] == all[i].1
  &&& forall|i: int, j: int| 0 <= i < j < k ==> f[(#[trigger] all[i]).0] != f[(#[trigger] all[j]).0]
  &&& forall|c: NodeIndex| #[trigger] m.contains_key(c) ==> exists|i: int| 0 <= i < k && f[(#[trigger] all[i]).0] == c
}
proof fn carry_step<N: NodeSpec>(all: Seq<(NodeIndex, N)>, k: nat, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>, n: IMap<NodeIndex, N>, c: NodeIndex)
  requires carry_k(all, k, m, f), k < all.len(), seq_of_map(n, all), !m.contains_key(c), c.0 != 0
  ensures carry_k(all, k + 1, m.insert(c, all[k as int].1), f.insert(all[k as int].0, c))
{
  reveal(carry_k);
  let f2 = f.insert(all[k as int].0, c); let m2 = m.insert(c, all[k as int].1);
  assert forall|a: NodeIndex| #[trigger] f2.contains_key(a) == seen(all, k + 1, a) by {
    if seen(all, k, a) { let i = choose|i: int| 0 <= i < k && (#[trigger] all[i]).0 == a; assert(all[i].0 == a); }
    if a == all[k as int].0 { assert(all[k as int].0 == a); }
    assert(f.contains_key(a) == seen(all, k, a));
  }
  assert forall|i: int, j: int| 0 <= i < j < k + 1 implies f2[(#[trigger] all[i]).0] != f2[(#[trigger] all[j]).0] by { assert(all[i].0 != all[j].0); if j == k { assert(m.contains_key(f[all[i].0])); } }
  assert forall|i: int| 0 <= i < k + 1 implies f2[(#[trigger] all[i]).0].0 != 0 && m2.contains_key(f2[all[i].0]) && m2[f2[all[i].0]] == all[i].1 by { if i < k { assert(all[i].0 != all[k as int].0); } }
  assert forall|e: NodeIndex| #[trigger] m2.contains_key(e) implies exists|i: int| 0 <= i < k + 1 && f2[(#[trigger] all[i]).0] == e by {
    if e == c { assert(f2[all[k as int].0] == e); } else {
      assert(m.contains_key(e));
      let i = choose|i: int| 0 <= i < k && f[(#[trigger] all[i]).0] == e;
      assert(all[i].0 != all[k as int].0); assert(f2[all[i].0] == e);
    }
  }
}
proof fn carry_all<N: NodeSpec>(all: Seq<(NodeIndex, N)>, m: IMap<NodeIndex, N>, f: IMap<NodeIndex, NodeIndex>, n: IMap<NodeIndex, N>)
  requires carry_k(all, all.len(), m, f), seq_of_map(n, all)
  ensures cleared(n, m, f, ISet::empty())
{
  reveal(carry_k); reveal(cleared);
  assert(f.dom() =~= n.dom()) by {
    assert forall|a: NodeIndex| #[trigger] f.dom().contains(a) == n.dom().contains(a) by {
      assert(f.contains_key(a) == seen(all, all.len(), a));
      if n.contains_key(a) { let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == a; assert(all[i].0 == a); }
    }
  }
  assert forall|a: NodeIndex| #[trigger] n.contains_key(a) implies f.contains_key(a) && f[a].0 != 0 && m.contains_key(f[a]) && m[f[a]] == n[a] by {
    let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == a; assert(all[i].0 == a);
  }
  assert forall|a: NodeIndex, b: NodeIndex| #[trigger] n.contains_key(a) && #[trigger] n.contains_key(b) && f[a] == f[b] implies a == b by {
    let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == a; let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0 == b;
    if i < j { assert(f[all[i].0] != f[all[j].0]); } else if j < i { assert(f[all[j].0] != f[all[i].0]); }
  }
  assert forall|c: NodeIndex| #[trigger] m.contains_key(c) implies exists|a: NodeIndex| #[trigger] n.contains_key(a) && f[a] == c by {
    let i = choose|i: int| 0 <= i < all.len() && f[(#[trigger] all[i]).0] == c;
    assert(n.contains_key(all[i].0));
  }
}
impl<NodeT, Arena> Graph<NodeT, Arena>
where NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>,
{
/*@fn src/typed_graph.rs Graph::switch_context
#props C09 C06 C15 C11
#index_map
#requires
  self.wf(), closed(self.n(), self.n().dom()), !self.n().contains_key(NodeIndex(0)),
#requires[T]
  bd_complete(self.n()), bd_no_vec::<NodeT>(), types_ok(self.n(), ISet::<Trip<NodeT>>::empty()),
#ensures
  r.wf(), r.ctx_id == new_ctx.id, r.nodes.dist() == new_ctx.node_dist,
  exists|f: IMap<NodeIndex, NodeIndex>| #[trigger] switched(self.n(), r.n(), f) && forall|a: NodeIndex| #[trigger] f.contains_key(a) ==> new_ctx.node_dist.drawn(f[a].0),
#start
  let ghost vf_n = self.n(); let ghost vf_b = self.b();
  let ghost mut vf_f = IMap::<NodeIndex, NodeIndex>::empty(); let ghost mut vf_mm = self.n();
  let ghost mut vf_done = ISet::<(NodeIndex, NodeIndex, NodeT::SourceEnum)>::empty();
#loop 0 before
  proof { reveal(carry_k); reveal(nodes_of); reveal(arena_wf); assert(nodes_of(new_nodes) =~= IMap::<NodeIndex, NodeT>::empty()); }
#loop 0
  arena_wf(new_nodes), new_nodes.dist() == new_ctx.node_dist, carry_k(vf_all0, vf_it0.pos(), nodes_of(new_nodes), id_map@),
  forall|a: NodeIndex| #[trigger] id_map@.contains_key(a) ==> new_ctx.node_dist.drawn(id_map@[a].0),
#loop 0 begin
  let ghost vf_m = nodes_of(new_nodes); let ghost vf_f0 = id_map@;
#loop 0 end
  proof { carry_step(vf_all0, (vf_it0.pos() - 1) as nat, vf_m, vf_f0, vf_n, id_map@[vf_all0[vf_it0.pos() - 1].0]); }
#loop 0 after
  proof { vf_f = id_map@; carry_all(vf_all0, nodes_of(new_nodes), vf_f, vf_n); reveal(inv); assert(renamed(vf_n, nodes_of(new_nodes), vf_f)) by { reveal(cleared); } }
#loop 1
  arena_wf(new_nodes), new_nodes.dist() == new_ctx.node_dist, cleared(vf_n, nodes_of(new_nodes), vf_f, vf_done),
  forall|e: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] vf_done.contains((e, a, s)) == (first_k(vf_all1, vf_it1.pos()).contains(e) && bk(vf_b, e, a, s)),
#loop 1 begin
  let ghost vf_d = vf_done; let ghost vf_id = *id;
  proof { assert(vf_f.dom().contains(*id)); assert(vf_n.dom().contains(*id)); }
  assert(!first_k(vf_all1, (vf_it1.pos() - 1) as nat).contains(*id));
#loop 1 end
  proof {
    assert forall|e: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] vf_done.contains((e, a, s)) == (first_k(vf_all1, vf_it1.pos()).contains(e) && bk(vf_b, e, a, s)) by {
      assert(vf_d.contains((e, a, s)) == (first_k(vf_all1, (vf_it1.pos() - 1) as nat).contains(e) && bk(vf_b, e, a, s)));
      assert(first_k(vf_all1, vf_it1.pos()).contains(e) == (first_k(vf_all1, (vf_it1.pos() - 1) as nat).contains(e) || e == vf_id)) by { assert(*vf_all1[vf_it1.pos() - 1] == vf_id); }
    }
  }
#loop 2
  arena_wf(new_nodes), new_nodes.dist() == new_ctx.node_dist, cleared(vf_n, nodes_of(new_nodes), vf_f, vf_done),
  forall|e: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] vf_done.contains((e, a, s)) == (vf_d.contains((e, a, s)) || (e == vf_id && first_k(vf_all2, vf_it2.pos()).contains((a, s)))),
#loop 2 begin
  let ghost vf_m = nodes_of(new_nodes);
  proof {
    let p = *vf_all2[vf_it2.pos() - 1]; assert(vf_b[vf_id]@.contains(p)); assert(p == (*y, *s));
    assert(bk(vf_b, vf_id, *y, *s)); assert(fwd(vf_n, *y, vf_id, *s)); assert(vf_n.dom().contains(*y)); assert(vf_f.dom().contains(*y));
    vf_n[*y].law_links(vf_id, *s);
    assert(renamed(vf_n, vf_m, vf_f)) by { reveal(cleared); }
  }
#loop 2 end
  proof {
    clear_step(vf_n, vf_m, nodes_of(new_nodes), vf_f, vf_done, vf_id, *y, *s);
    vf_done = vf_done.insert((vf_id, *y, *s));
    assert forall|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] first_k(vf_all2, vf_it2.pos()).contains((a, t)) == (first_k(vf_all2, (vf_it2.pos() - 1) as nat).contains((a, t)) || (a, t) == (*y, *s)) by { assert(*vf_all2[vf_it2.pos() - 1] == (*y, *s)); }
  }
#loop 2 after
  proof {
    assert forall|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] first_k(vf_all2, vf_all2.len()).contains((a, t)) == bk(vf_b, vf_id, a, t) by {
      if bk(vf_b, vf_id, a, t) { assert(vf_b[vf_id]@.contains((a, t))); }
    }
  }
#loop 1 after
  proof {
    assert(vf_done =~= all_links(vf_n)) by {
      assert forall|p: (NodeIndex, NodeIndex, NodeT::SourceEnum)| #[trigger] vf_done.contains(p) == all_links(vf_n).contains(p) by {
        assert(p == (p.0, p.1, p.2)); let q = (p.0, p.1, p.2);
        assert(vf_done.contains(q) == (first_k(vf_all1, vf_all1.len()).contains(p.0) && bk(vf_b, p.0, p.1, p.2)));
        assert(fwd(vf_n, p.1, p.0, p.2) == bk(vf_b, p.0, p.1, p.2));
        if fwd(vf_n, p.1, p.0, p.2) { closed_get(vf_n, vf_n.dom(), p.1); assert(vf_n[p.1].links().contains((p.0, p.2))); assert(vf_f.dom().contains(p.0)); assert(id_map@.dom().contains(p.0)); }
      }
    }
    cleared_all(vf_n, nodes_of(new_nodes), vf_f);
    vf_done = ISet::empty();
  }
#loop 3
  arena_wf(new_nodes), new_nodes.dist() == new_ctx.node_dist, written(vf_n, nodes_of(new_nodes), vf_f, vf_done),
  forall|e: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] vf_done.contains((e, a, s)) == (keys_k(vf_all3, vf_it3.pos(), e) && bk(vf_b, e, a, s)),
#loop 3 begin
  let ghost vf_d = vf_done; let ghost vf_id = *id; let ghost vf_nid = *new_id;
  proof { assert(vf_f.contains_key(*vf_all3[vf_it3.pos() - 1].0)); assert(vf_f.dom().contains(*id)); assert(vf_n.dom().contains(*id)); assert(vf_f[*id] == *new_id);
   assert(renamed(vf_n, nodes_of(new_nodes), vf_f)) by { reveal(written); } assert(vf_n.contains_key(*id)); }
#loop 3 end
  proof {
    assert forall|e: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] vf_done.contains((e, a, s)) == (keys_k(vf_all3, vf_it3.pos(), e) && bk(vf_b, e, a, s)) by {
      assert(vf_d.contains((e, a, s)) == (keys_k(vf_all3, (vf_it3.pos() - 1) as nat, e) && bk(vf_b, e, a, s)));
      assert(keys_k(vf_all3, vf_it3.pos(), e) == (keys_k(vf_all3, (vf_it3.pos() - 1) as nat, e) || e == vf_id)) by { assert(*vf_all3[vf_it3.pos() - 1].0 == vf_id); }
    }
  }
#loop 4
  arena_wf(new_nodes), new_nodes.dist() == new_ctx.node_dist, written(vf_n, nodes_of(new_nodes), vf_f, vf_done),
  forall|e: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] vf_done.contains((e, a, s)) == (vf_d.contains((e, a, s)) || (e == vf_id && first_k(vf_all4, vf_it4.pos()).contains((a, s)))),
#loop 4 begin
  let ghost vf_m = nodes_of(new_nodes);
  proof {
    let p = *vf_all4[vf_it4.pos() - 1]; assert(vf_b[vf_id]@.contains(p)); assert(p == (*y, *s));
    assert(bk(vf_b, vf_id, *y, *s)); assert(fwd(vf_n, *y, vf_id, *s)); assert(vf_n.dom().contains(*y)); assert(vf_f.dom().contains(*y));
    vf_n[*y].law_links(vf_id, *s);
    assert(renamed(vf_n, vf_m, vf_f)) by { reveal(written); }
  }
#loop 4 end
  proof {
    write_step(vf_n, vf_m, nodes_of(new_nodes), vf_f, vf_done, vf_id, *y, *s);
    vf_done = vf_done.insert((vf_id, *y, *s));
    assert forall|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] first_k(vf_all4, vf_it4.pos()).contains((a, t)) == (first_k(vf_all4, (vf_it4.pos() - 1) as nat).contains((a, t)) || (a, t) == (*y, *s)) by { assert(*vf_all4[vf_it4.pos() - 1] == (*y, *s)); }
  }
#loop 4 after
  proof {
    assert forall|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] first_k(vf_all4, vf_all4.len()).contains((a, t)) == bk(vf_b, vf_id, a, t) by {
      if bk(vf_b, vf_id, a, t) { assert(vf_b[vf_id]@.contains((a, t))); }
    }
  }
#loop 3 after
  proof {
    assert(vf_done =~= all_links(vf_n)) by {
      assert forall|p: (NodeIndex, NodeIndex, NodeT::SourceEnum)| #[trigger] vf_done.contains(p) == all_links(vf_n).contains(p) by {
        assert(p == (p.0, p.1, p.2)); let q = (p.0, p.1, p.2);
        assert(vf_done.contains(q) == (keys_k(vf_all3, vf_all3.len(), p.0) && bk(vf_b, p.0, p.1, p.2)));
        assert(fwd(vf_n, p.1, p.0, p.2) == bk(vf_b, p.0, p.1, p.2));
        if fwd(vf_n, p.1, p.0, p.2) { closed_get(vf_n, vf_n.dom(), p.1); assert(vf_n[p.1].links().contains((p.0, p.2))); assert(vf_f.dom().contains(p.0)); assert(id_map@.contains_key(p.0)); }
      }
    }
    written_all(vf_n, nodes_of(new_nodes), vf_f);
    vf_mm = nodes_of(new_nodes);
  }
#before_call merge_nodes 0
  proof {
    reveal(inv); reveal(nodes_of); reveal(arena_wf); assert(result.n() =~= IMap::<NodeIndex, NodeT>::empty());
    rec_start(result.n()); assert(trips(result.n()) =~= ISet::<Trip<NodeT>>::empty());
  }
#after_call merge_nodes 0
  proof {
    assert(result.n() =~= vf_mm);
    rec_base(result.n(), lcr.adds@, lcr.removes@, ISet::<Trip<NodeT>>::empty());
    if vf_mm.contains_key(NodeIndex(0)) { let a = choose|a: NodeIndex| #[trigger] vf_n.contains_key(a) && vf_f[a] == NodeIndex(0); }
//[T]  relab_complete(vf_n, vf_mm, vf_f); complete_decidable(vf_mm);
  }
#after_call apply_bidirectional_links 0
  proof {
    rec_base(result.n(), lcr.adds@, lcr.removes@, ISet::<Trip<NodeT>>::empty());
    assert(switched(vf_n, result.n(), vf_f));
//[T]  switch_keeps(vf_n, result.n(), vf_f); relab_types(vf_n, result.n(), vf_f);
  }
@*/
}
pub open spec fn keys_k<K, V>(s: Seq<(&K, &V)>, k: nat, a: K) -> bool { exists|i: int| 0 <= i < k && *(#[trigger] s[i]).0 == a }

// ---------------- C15, C07, C10 ----------------
/// what the built-in consistency check decides
pub open spec fn backlinks_ok<N: NodeSpec>(n: IMap<NodeIndex, N>, b: IMap<NodeIndex, OrderSet<(NodeIndex, N::SourceEnum)>>) -> bool {
  &&& forall|x: NodeIndex| #[trigger] n.contains_key(x) ==> b.contains_key(x)
  &&& forall|x: NodeIndex, y: NodeIndex, s: N::SourceEnum| #[trigger] fwd(n, x, y, s) ==> bk(b, y, x, s)
  &&& forall|x: NodeIndex, y: NodeIndex, s: N::SourceEnum| n.contains_key(y) && #[trigger] bk(b, y, x, s) ==> fwd(n, x, y, s)
}
pub open spec fn seq_of_group<'a, N: NodeSpec>(m: IMap<NodeIndex, N>, s: Seq<(NodeIndex, &'a N)>, name: Seq<char>) -> bool {
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
  &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == *s[i].1 && N::member(s[i].1.disc(), name)
  &&& forall|k: NodeIndex| #[trigger] m.contains_key(k) && N::member(m[k].disc(), name) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub open spec fn distinct_keys<V>(s: Seq<(NodeIndex, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn map_of<V>(s: Seq<(NodeIndex, V)>) -> IMap<NodeIndex, V> {
  IMap::new(|k: NodeIndex| seen(s, s.len(), k), |k: NodeIndex| s[choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k].1)
}
pub proof fn map_of_is<V>(m: IMap<NodeIndex, V>, s: Seq<(NodeIndex, V)>)
  requires seq_of_map(m, s)
  ensures m == map_of(s)
{
  assert forall|k: NodeIndex| m.contains_key(k) == #[trigger] map_of(s).contains_key(k) by { if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(s[i].0 == k); } }
  assert(m =~= map_of(s));
}
/// acc is all[..k] without the nodes outside the group
#[verifier::opaque]
pub open spec fn picked<'a, N: NodeSpec>(all: Seq<(NodeIndex, &'a N)>, k: nat, acc: Seq<(NodeIndex, &'a N)>, name: Seq<char>) -> bool decreases k {
  if k == 0 { acc == Seq::<(NodeIndex, &'a N)>::empty() }
  else if N::member(all[k - 1].1.disc(), name) { acc.len() > 0 && acc.last() == all[k - 1] && picked(all, (k - 1) as nat, acc.drop_last(), name) }
  else { picked(all, (k - 1) as nat, acc, name) }
}
pub proof fn picked_step<'a, N: NodeSpec>(all: Seq<(NodeIndex, &'a N)>, k: nat, acc: Seq<(NodeIndex, &'a N)>, name: Seq<char>)
  requires picked(all, k, acc, name), k < all.len()
  ensures N::member(all[k as int].1.disc(), name) ==> picked(all, k + 1, acc.push(all[k as int]), name), !N::member(all[k as int].1.disc(), name) ==> picked(all, k + 1, acc, name)
{ reveal_with_fuel(picked, 2); assert(acc.push(all[k as int]).drop_last() =~= acc); }
proof fn picked_in<'a, N: NodeSpec>(all: Seq<(NodeIndex, &'a N)>, k: nat, acc: Seq<(NodeIndex, &'a N)>, name: Seq<char>)
  requires picked(all, k, acc, name), k <= all.len(), distinct_keys(all)
  ensures
    distinct_keys(acc),
    forall|j: int| 0 <= j < acc.len() ==> N::member((#[trigger] acc[j]).1.disc(), name) && was_in(all, k, acc[j]),
    forall|i: int| 0 <= i < k && N::member((#[trigger] all[i]).1.disc(), name) ==> was_in(acc, acc.len(), all[i]),
  decreases k
{
  reveal_with_fuel(picked, 2);
  if k > 0 {
    if N::member(all[k - 1].1.disc(), name) {
      let a = acc.drop_last();
      picked_in(all, (k - 1) as nat, a, name);
      assert forall|j: int| 0 <= j < acc.len() implies N::member((#[trigger] acc[j]).1.disc(), name) && was_in(all, k, acc[j]) by {
        if j < a.len() { assert(a[j] == acc[j]); let i = choose|i: int| 0 <= i < k - 1 && #[trigger] all[i] == a[j]; assert(all[i] == acc[j]); } else { assert(all[k - 1] == acc[j]); }
      }
      assert forall|i: int, j: int| 0 <= i < j < acc.len() implies (#[trigger] acc[i]).0 != (#[trigger] acc[j]).0 by {
        if j < a.len() { assert(a[i] == acc[i] && a[j] == acc[j]); } else { assert(a[i] == acc[i]); assert(was_in(all, (k - 1) as nat, a[i])); let p = choose|p: int| 0 <= p < k - 1 && #[trigger] all[p] == a[i]; assert(all[p].0 != all[k - 1].0); }
      }
      assert forall|i: int| 0 <= i < k && N::member((#[trigger] all[i]).1.disc(), name) implies was_in(acc, acc.len(), all[i]) by {
        if i < k - 1 { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == all[i]; assert(acc[j] == all[i]); } else { assert(acc[acc.len() - 1] == all[i]); }
      }
    } else {
      picked_in(all, (k - 1) as nat, acc, name);
      assert forall|j: int| 0 <= j < acc.len() implies was_in(all, k, #[trigger] acc[j]) by { let i = choose|i: int| 0 <= i < k - 1 && #[trigger] all[i] == acc[j]; assert(all[i] == acc[j]); }
    }
  }
}
pub open spec fn was_in<T>(s: Seq<T>, k: nat, x: T) -> bool { exists|i: int| 0 <= i < k && #[trigger] s[i] == x }
pub proof fn picked_all<'a, N: NodeSpec>(m: IMap<NodeIndex, N>, all: Seq<(NodeIndex, &'a N)>, acc: Seq<(NodeIndex, &'a N)>, name: Seq<char>)
  requires picked(all, all.len(), acc, name), seq_of_map_kref(m, all)
  ensures seq_of_group(m, acc, name)
{
  assert(distinct_keys(all));
  picked_in(all, all.len(), acc, name);
  assert forall|i: int| 0 <= i < acc.len() implies m.contains_key((#[trigger] acc[i]).0) && m[acc[i].0] == *acc[i].1 by { let k = choose|k: int| 0 <= k < all.len() && #[trigger] all[k] == acc[i]; assert(m.contains_key(all[k].0)); }
  assert forall|k: NodeIndex| #[trigger] m.contains_key(k) && N::member(m[k].disc(), name) implies exists|i: int| 0 <= i < acc.len() && (#[trigger] acc[i]).0 == k by {
    let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k;
    assert(was_in(acc, acc.len(), all[i]));
    let j = choose|j: int| 0 <= j < acc.len() && #[trigger] acc[j] == all[i];
    assert(acc[j].0 == k);
  }
}
impl<NodeT, Arena> Graph<NodeT, Arena>
where NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>,
{
/*@fn src/typed_graph.rs Graph::check_backlinks
#props C15
#requires
  arena_wf(self.nodes),
#requires[T]
  self.wf(),
#ensures
  backlinks_ok(self.n(), self.b()),
#start
  let ghost vf_n = self.n();
  proof { reveal(inv); }
#loop 0
  forall|y: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(back_links@, y, a, t) == (seen(vf_all0, vf_it0.pos(), a) && vf_n[a].links().contains((y, t))),
  forall|k: NodeIndex| #[trigger] back_links@.contains_key(k) ==> seen(vf_all0, vf_it0.pos(), k) || exists|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(back_links@, k, a, t),
  forall|i: int| 0 <= i < vf_it0.pos() ==> back_links@.contains_key((#[trigger] vf_all0[i]).0),
#loop 0 begin
  let ghost vf_b0 = back_links@; let ghost vf_x = x;
  proof { assert(vf_n.contains_key(vf_all0[vf_it0.pos() - 1].0) && vf_n[vf_all0[vf_it0.pos() - 1].0] == *n); }
  assert forall|a: NodeIndex| #[trigger] seen(vf_all0, vf_it0.pos(), a) == (seen(vf_all0, (vf_it0.pos() - 1) as nat, a) || a == x) by {
    assert(vf_all0[vf_it0.pos() - 1].0 == x);
    if seen(vf_all0, (vf_it0.pos() - 1) as nat, a) { let i = choose|i: int| 0 <= i < vf_it0.pos() - 1 && (#[trigger] vf_all0[i]).0 == a; assert(vf_all0[i].0 == a); }
  }
  assert(!seen(vf_all0, (vf_it0.pos() - 1) as nat, x));
#loop 1 after
  proof {
    assert forall|y: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(back_links@, y, a, t) == (seen(vf_all0, vf_it0.pos(), a) && vf_n[a].links().contains((y, t))) by {
      assert(bk(vf_b0, y, a, t) == (seen(vf_all0, (vf_it0.pos() - 1) as nat, a) && vf_n[a].links().contains((y, t))));
      if a == vf_x && vf_n[a].links().contains((y, t)) { assert(vf_all1.contains((y, t))); let i = choose|i: int| 0 <= i < vf_all1.len() && vf_all1[i] == (y, t); assert(vf_all1[i] == (y, t)); }
    }
    assert forall|k: NodeIndex| #[trigger] back_links@.contains_key(k) implies seen(vf_all0, vf_it0.pos(), k) || exists|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(back_links@, k, a, t) by {
      if vf_b0.contains_key(k) && !seen(vf_all0, (vf_it0.pos() - 1) as nat, k) {
        let (a, t) = choose|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(vf_b0, k, a, t);
        assert(bk(back_links@, k, a, t));
      }
    }
  }
#loop 1
  forall|y: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(back_links@, y, a, t) == (bk(vf_b0, y, a, t) || (a == vf_x && had(vf_all1, vf_it1.pos(), (y, t)))),
  forall|k: NodeIndex| #[trigger] back_links@.contains_key(k) ==> vf_b0.contains_key(k) || k == vf_x || exists|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(back_links@, k, a, t),
  forall|k: NodeIndex| vf_b0.contains_key(k) || k == vf_x ==> #[trigger] back_links@.contains_key(k),
#loop 1 begin
  let ghost vf_b1 = back_links@;
  proof {
    let p = vf_all1[vf_it1.pos() - 1]; assert(p == (y, s)); assert(vf_n[vf_x].links().contains(p)); assert(fwd(vf_n, vf_x, y, s));
//[T] assert(bk(self.b(), y, vf_x, s));
    assert forall|q: (NodeIndex, NodeT::SourceEnum)| #[trigger] had(vf_all1, vf_it1.pos(), q) == (had(vf_all1, (vf_it1.pos() - 1) as nat, q) || q == p) by {
      if had(vf_all1, (vf_it1.pos() - 1) as nat, q) { let i = choose|i: int| 0 <= i < vf_it1.pos() - 1 && #[trigger] vf_all1[i] == q; assert(vf_all1[i] == q); }
      if q == p { assert(vf_all1[vf_it1.pos() - 1] == q); }
    }
  }
#loop 1 end
  proof {
    assert forall|c: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(back_links@, c, a, t) == (bk(vf_b1, c, a, t) || (c == y && a == vf_x && t == s)) by { }
    assert(bk(back_links@, y, vf_x, s));
    assert forall|k: NodeIndex| #[trigger] back_links@.contains_key(k) implies vf_b0.contains_key(k) || k == vf_x || exists|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(back_links@, k, a, t) by {
      if vf_b1.contains_key(k) && !vf_b0.contains_key(k) && k != vf_x { let (a, t) = choose|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(vf_b1, k, a, t); assert(bk(back_links@, k, a, t)); }
    }
  }
#loop 0 after
  proof {
    assert forall|x: NodeIndex| #[trigger] vf_n.contains_key(x) implies seen(vf_all0, vf_all0.len(), x) && back_links@.contains_key(x) by { let i = choose|i: int| 0 <= i < vf_all0.len() && (#[trigger] vf_all0[i]).0 == x; assert(vf_all0[i].0 == x); }
    assert forall|x: NodeIndex| #[trigger] seen(vf_all0, vf_all0.len(), x) implies vf_n.contains_key(x) by { let i = choose|i: int| 0 <= i < vf_all0.len() && (#[trigger] vf_all0[i]).0 == x; assert(vf_n.contains_key(vf_all0[i].0)); }
    assert forall|y: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(back_links@, y, a, t) == fwd(vf_n, a, y, t) by { }
    assert forall|k: NodeIndex| #[trigger] back_links@.contains_key(k) implies vf_n.contains_key(k) || exists|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(back_links@, k, a, t) by { }
  }
#loop 2
  forall|i: int| 0 <= i < vf_it2.pos() ==> self.b().contains_key(*(#[trigger] vf_all2[i]).0) && self.b()[*vf_all2[i].0]@ == vf_all2[i].1@,
#loop 2 begin
  proof { assert(back_links@.contains_key(*vf_all2[vf_it2.pos() - 1].0));
//[T] if !vf_n.contains_key(*k) { let (a, t) = choose|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(back_links@, *k, a, t); assert(fwd(vf_n, a, *k, t)); assert(bk(self.b(), *k, a, t)); }
//[T] assert(self.b().contains_key(*k));
//[T] assert(self.b()[*k]@ =~= v@) by { assert forall|p: (NodeIndex, NodeT::SourceEnum)| #[trigger] self.b()[*k]@.contains(p) == v@.contains(p) by { assert(p == (p.0, p.1)); assert(bk(self.b(), *k, p.0, p.1) == bk(back_links@, *k, p.0, p.1)) by { assert(fwd(vf_n, p.0, *k, p.1) == bk(self.b(), *k, p.0, p.1)); } } }
  }
#loop 2 after
  proof {
    assert forall|k: NodeIndex| #[trigger] back_links@.contains_key(k) implies self.b().contains_key(k) && self.b()[k]@ == back_links@[k]@ by { let i = choose|i: int| 0 <= i < vf_all2.len() && *(#[trigger] vf_all2[i]).0 == k; assert(*vf_all2[i].0 == k); }
    assert forall|x: NodeIndex, y: NodeIndex, s: NodeT::SourceEnum| #[trigger] fwd(vf_n, x, y, s) implies bk(self.b(), y, x, s) by { assert(bk(back_links@, y, x, s)); assert(back_links@.contains_key(y)); }
    assert forall|x: NodeIndex, y: NodeIndex, s: NodeT::SourceEnum| vf_n.contains_key(y) && #[trigger] bk(self.b(), y, x, s) implies fwd(vf_n, x, y, s) by { assert(back_links@.contains_key(y)); assert(bk(back_links@, y, x, s)); }
  }
@*/
/*@fn src/typed_graph.rs Graph::check_integrity
#props C09 C15
#requires
  arena_wf(self.nodes),
#requires[T]
  closed(self.n(), self.n().dom()),
#ensures
  closed(self.n(), self.n().dom()),
#start
  proof { reveal(closed); }
#loop 0
  forall|i: int| 0 <= i < vf_it0.pos() ==> into(*(#[trigger] vf_all0[i]).1, self.n().dom()),
#loop 0 begin
  let ghost vf_v = *node;
  proof { assert(self.n().contains_key(vf_all0[vf_it0.pos() - 1].0)); }
#loop 1 after
  proof { assert forall|y: NodeIndex, s: NodeT::SourceEnum| #[trigger] vf_v.links().contains((y, s)) implies self.n().dom().contains(y) by { assert(vf_all1.contains((y, s))); let i = choose|i: int| 0 <= i < vf_all1.len() && vf_all1[i] == (y, s); assert(self.n().dom().contains(vf_all1[i].0)); } }
#loop 1
  forall|i: int| 0 <= i < vf_it1.pos() ==> self.n().dom().contains((#[trigger] vf_all1[i]).0),
#loop 1 begin
  proof { let p = vf_all1[vf_it1.pos() - 1]; assert(p == (p.0, p.1)); assert(vf_v.links().contains((p.0, p.1))); }
@*/
/*@fn src/typed_graph.rs Graph::do_deserialize
#props C10 C15 C04
#requires
  distinct_keys(nodes@), forall|i: int| 0 <= i < nodes@.len() ==> (#[trigger] nodes@[i]).0.0 != 0,
#requires[T]
  bd_complete(map_of(nodes@)), bd_no_vec::<NodeT>(),
#ensures
  r.wf(), r.ctx_id == ctx.id, r.nodes.dist() == ctx.node_dist,
  bd_applied(map_of(nodes@), r.n(), ISet::<Trip<NodeT>>::empty()),
#start
  let ghost vf_s = nodes@;
#after_call new_from_iter 0
  proof { map_of_is(nodes_of(arena), vf_s); }
#before_call merge_nodes 0
  proof { rec_start(graph.n()); assert(trips(graph.n()) =~= ISet::<Trip<NodeT>>::empty()); }
#after_call merge_nodes 0
  proof {
    assert(graph.n() =~= map_of(vf_s)); rec_base(graph.n(), lcr.adds@, lcr.removes@, ISet::<Trip<NodeT>>::empty());
    if graph.n().contains_key(NodeIndex(0)) { let i = choose|i: int| 0 <= i < vf_s.len() && (#[trigger] vf_s[i]).0 == NodeIndex(0); assert(vf_s[i].0.0 == 0); }
//[T] complete_decidable(graph.n());
  }
@*/
/*@fn src/typed_graph.rs Graph::iter
#props C07
#replace
  Arena::Iter<'_> =>> VIter<(NodeIndex, &'_ NodeT)>
#requires
  self.wf(),
#ensures
  seq_of_map_kref(self.n(), r.all()), r.pos() == 0,
@*/
/*@fn src/typed_graph.rs Graph::iter_group
#props C07 C13
#replace
  impl Iterator<Item =(NodeIndex, &NodeT)> =>> VIter<(NodeIndex, &NodeT)>
#requires
  self.wf(),
#ensures
  seq_of_group(self.n(), r.all(), name@), r.pos() == 0,
#loop 0 before
  proof { reveal(picked); }
#loop 0
  picked::<NodeT>(vf_all0, vf_it0.pos(), vf_acc0@, name@),
#loop 0 begin
  let ghost vf_pre = vf_acc0@;
#loop 0 end
  proof { picked_step(vf_all0, (vf_it0.pos() - 1) as nat, vf_pre, name@); }
#loop 0 after
  proof { picked_all(self.n(), vf_all0, vf_acc0@, name@); }
@*/
}

// ---------------- iteration, serialization ----------------
/// the nodes of one type, as a container sequence
pub open spec fn seq_of_type<N: NodeSpec>(m: IMap<NodeIndex, N>, s: Seq<(&usize, &N)>, d: N::Discriminant) -> bool {
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
  &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(NodeIndex(*(#[trigger] s[i]).0)) && m[NodeIndex(*s[i].0)] == *s[i].1 && s[i].1.disc() == d
  &&& forall|k: NodeIndex| #[trigger] m.contains_key(k) && m[k].disc() == d ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k.0
}
pub proof fn type_seq<A: ArenaSpec>(a: A, s: Seq<(&usize, &A::V)>, d: A::D)
  requires arena_wf(a), seq_of_map_ref(a.cont(d), s)
  ensures seq_of_type(nodes_of(a), s, d)
{
  reveal(arena_wf); reveal(nodes_of);
  assert forall|i: int| 0 <= i < s.len() implies nodes_of(a).contains_key(NodeIndex(*(#[trigger] s[i]).0)) && nodes_of(a)[NodeIndex(*s[i].0)] == *s[i].1 && s[i].1.disc() == d by {
    assert(a.cont(d).contains_key(*s[i].0));
  }
  assert forall|k: NodeIndex| #[trigger] nodes_of(a).contains_key(k) && nodes_of(a)[k].disc() == d implies exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k.0 by {
    assert(a.cont(a.disp()[k]).contains_key(k.0));
    assert(NodeIndex(k.0) == k);
    assert(a.cont(d).contains_key(k.0));
  }
}
/*@struct src/typed_graph.rs NodeIterator
#attr
#[verifier::reject_recursive_types(V)]
#replace
  <'a, V, I> =>> <'a, V>
  I : Iterator<Item =(& 'a usize, & 'a V)> + ExactSizeIterator + FusedIterator, =>> V: 'a,
  iter : I =>> iter: VIter<(&'a usize, &'a V)>
@*/
impl<'a, V> NodeIterator<'a, V>
where V: NodeEnum + 'static,
{
/*@fn src/typed_graph.rs NodeIterator as Iterator::next
#props C07
#replace
  Option<Self::Item> =>> Option<(NodeIndex, &'a V)>
  self.iter.next() =>> self.iter.next_opt()
#requires
  old(self).iter.pos() <= old(self).iter.all().len(),
#ensures
  final(self).iter.all() == old(self).iter.all(), final(self).iter.pos() <= final(self).iter.all().len(),
  old(self).iter.pos() < old(self).iter.all().len() ==> final(self).iter.pos() == old(self).iter.pos() + 1
    && r == Some((NodeIndex(*old(self).iter.all()[old(self).iter.pos() as int].0), old(self).iter.all()[old(self).iter.pos() as int].1)),
  old(self).iter.pos() >= old(self).iter.all().len() ==> r is None && final(self).iter.pos() == old(self).iter.pos(),
@*/
/*@fn src/typed_graph.rs NodeIterator as Iterator::size_hint
#props C07
#replace
  self.iter.size_hint() =>> vf_size_hint(&self.iter)
#requires
  self.iter.pos() <= self.iter.all().len(),
#ensures
  r.0 as nat == self.iter.all().len() - self.iter.pos(), r.1 == Some(r.0),
@*/
}
impl<NodeT, Arena> Graph<NodeT, Arena>
where NodeT: NodeEnum + 'static, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>,
{
/*@fn src/typed_graph.rs Graph::iter_type
#props C07
#replace
  NodeIterator<'a, NodeT, ordermap::map::Iter<'a, usize, NodeT>> =>> NodeIterator<'a, NodeT>
#requires
  self.wf(),
#ensures
  seq_of_type(self.n(), r.iter.all(), d), r.iter.pos() == 0,
#end
  proof { type_seq(self.nodes, vf_ret.iter.all(), d); }
@*/
/*@fn src/typed_graph.rs &Graph as IntoIterator::into_iter
#props C07
#name into_iter_ref
#sig
  fn into_iter_ref<'a>(&'a self) -> (r: VIter<(NodeIndex, &'a NodeT)>)
#requires
  self.wf(),
#ensures
  seq_of_map_kref(self.n(), r.all()), r.pos() == 0,
@*/
}
impl<NodeT, Arena> Graph<NodeT, Arena>
where NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>,
{
/*@fn src/typed_graph.rs Graph as IntoIterator::into_iter
#props C07 C10
#replace
  Self::IntoIter =>> VIter<(NodeIndex, NodeT)>
#requires
  self.wf(),
#ensures
  seq_of_map(self.n(), r.all()), r.pos() == 0,
@*/
}
/*@struct src/typed_graph/serialize.rs GraphSerializer
#props C10
#derives Serialize Deserialize
#attr
#[verifier::reject_recursive_types(NodeT)]
@*/
impl<NodeT> GraphSerializer<NodeT> where NodeT: NodeEnum {
/*@fn src/typed_graph/serialize.rs GraphSerializer as From::from
#props C10
#generics Arena: CateArena<V = NodeT, D = NodeT::Discriminant>
#requires
  value.wf(),
#ensures
  r.ctx_id == value.ctx_id, seq_of_map(value.n(), r.nodes@),
#loop 0
  vf_acc0@ == vf_all0.take(vf_it0.pos() as int),
#loop 0 end
  assert(vf_acc0@ =~= vf_all0.take(vf_it0.pos() as int));
#loop 0 after
  assert(vf_all0.take(vf_all0.len() as int) =~= vf_all0);
@*/
}
/// serde as far as a graph uses it: what a serializer was told
pub ghost enum Doc { Leaf(int), List(Seq<Doc>), Pair(Box<Doc>, Box<Doc>), Record(Seq<char>, Seq<(Seq<char>, Doc)>) }
pub uninterp spec fn out<O>(o: O) -> Doc;
pub trait SerSpec { spec fn doc(&self) -> Doc; }
impl SerSpec for Uuid { uninterp spec fn doc(&self) -> Doc; }
impl SerSpec for NodeIndex { uninterp spec fn doc(&self) -> Doc; }
impl<'a, N: SerSpec> SerSpec for (NodeIndex, &'a N) { open spec fn doc(&self) -> Doc { Doc::Pair(Box::new(self.0.doc()), Box::new(self.1.doc())) } }
pub trait SerializeSeq : Sized {
  type Ok; type Error;
  spec fn items(&self) -> Seq<Doc>;
  spec fn said(&self) -> Option<usize>;
  fn serialize_element<T: SerSpec>(&mut self, v: &T) -> (r: Result<(), Self::Error>)
    ensures r is Ok ==> final(self).items() == old(self).items().push(v.doc()) && final(self).said() == old(self).said();
  /// a format that writes the length first needs it to be right
  fn end(self) -> (r: Result<Self::Ok, Self::Error>)
    requires self.said() is Some ==> self.said()->0 as nat == self.items().len()
    ensures r is Ok ==> out(r->Ok_0) == Doc::List(self.items());
}
pub trait SerializeStruct : Sized {
  type Ok; type Error;
  spec fn name(&self) -> Seq<char>;
  spec fn items(&self) -> Seq<(Seq<char>, Doc)>;
  spec fn said(&self) -> usize;
  fn serialize_field<T: SerSpec>(&mut self, k: &str, v: &T) -> (r: Result<(), Self::Error>)
    ensures r is Ok ==> final(self).items() == old(self).items().push((k@, v.doc())) && final(self).said() == old(self).said() && final(self).name() == old(self).name();
  fn end(self) -> (r: Result<Self::Ok, Self::Error>)
    requires self.said() as nat == self.items().len()
    ensures r is Ok ==> out(r->Ok_0) == Doc::Record(self.name(), self.items());
}
pub trait Serializer : Sized {
  type Ok; type Error;
  type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
  type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
  fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>)
    ensures r is Ok ==> r->Ok_0.items() == Seq::<Doc>::empty() && r->Ok_0.said() == len;
  fn serialize_struct(self, name: &str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
    ensures r is Ok ==> r->Ok_0.items() == Seq::<(Seq<char>, Doc)>::empty() && r->Ok_0.said() == len && r->Ok_0.name() == name@;
}
pub open spec fn docs<'a, N: SerSpec>(s: Seq<(NodeIndex, &'a N)>) -> Seq<Doc> { s.map_values(|p: (NodeIndex, &'a N)| p.doc()) }
#[verifier::reject_recursive_types(NodeT)]
pub struct NodeSerialize<'a, NodeT>(pub VIter<(NodeIndex, &'a NodeT)>);
impl<'a, NodeT: SerSpec> SerSpec for NodeSerialize<'a, NodeT> {
  open spec fn doc(&self) -> Doc { Doc::List(docs(self.0.all())) }
}
impl<'a, NodeT: NodeEnum + SerSpec> NodeSerialize<'a, NodeT> {
/// C10: the node list is written completely and in order, with its length announced correctly
/*@fn src/typed_graph/serialize.rs NodeSerialize as Serialize::serialize
#props C10
#sig
  fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>)
#requires
  self.0.pos() == 0,
#ensures
  r is Ok ==> out(r->Ok_0) == self.doc(),
#loop 0
  nodes.said() == Some(vf_all0.len() as usize), vf_all0 == self.0.all(), vf_all0.len() <= usize::MAX,
  nodes.items() == docs(vf_all0).take(vf_it0.pos() as int),
#loop 0 end
  assert(nodes.items() =~= docs(vf_all0).take(vf_it0.pos() as int));
#loop 0 after
  assert(docs(vf_all0).take(vf_all0.len() as int) =~= docs(vf_all0));
@*/
}
impl<NodeT, Arena> Graph<NodeT, Arena> where NodeT: NodeEnum + SerSpec, Arena: CateArena<V = NodeT, D = NodeT::Discriminant> {
/// C10: a graph is written as its context and its nodes, each once: the fields of GraphSerializer
/*@fn src/typed_graph/serialize.rs Graph as Serialize::serialize
#props C10
#sig
  fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>)
#requires
  self.wf(),
#ensures
  r is Ok ==> exists|s: Seq<(NodeIndex, &NodeT)>| seq_of_map_kref(self.n(), s) && out(r->Ok_0) == Doc::Record("Graph"@, seq![("ctx_id"@, self.ctx_id.doc()), ("nodes"@, Doc::List(#[trigger] docs(s)))]),
#before_call end 0
  proof { assert(graph.items() =~= seq![graph.items()[0], graph.items()[1]]); }
#replace
  NodeSerialize::<NodeT, Arena> =>> NodeSerialize::<NodeT>
@*/
}
/// C10: the context of a deserialized graph starts above every index of the graph
/*@fn src/typed_graph/serialize.rs ::deserialize_graph
#props C10 C06
#sig
  fn deserialize_graph<NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>>(input: GraphSerializer<NodeT>) -> (r: (Context, Graph<NodeT, Arena>))
#requires
  distinct_keys(input.nodes@), forall|i: int| 0 <= i < input.nodes@.len() ==> (#[trigger] input.nodes@[i]).0.0 != 0,
#requires[T]
  bd_complete(map_of(input.nodes@)), bd_no_vec::<NodeT>(),
#ensures
  r.1.wf(), r.1.ctx_id == r.0.id, r.0.id == input.ctx_id, r.1.nodes.dist() == r.0.node_dist,
  bd_applied(map_of(input.nodes@), r.1.n(), ISet::<Trip<NodeT>>::empty()),
  forall|i: int| 0 <= i < input.nodes@.len() ==> (#[trigger] input.nodes@[i]).0.0 <= r.0.node_dist.cnt.init(),
#loop 0
  vf_it0.pos() > 0 ==> vf_acc0 is Some,
  forall|i: int| 0 <= i < vf_it0.pos() ==> vf_acc0 is Some && (#[trigger] input.nodes@[i]).0.0 <= vf_acc0->0,
@*/
/// C10: what GraphSerializer::from wrote and deserialize_graph rebuilt has the same indices, types, data and links,
/// and its context hands out none of the indices in use
pub proof fn round_trip<NodeT: NodeEnum>(n: IMap<NodeIndex, NodeT>, s: Seq<(NodeIndex, NodeT)>, n2: IMap<NodeIndex, NodeT>, d: IdDistributer)
  requires
    seq_of_map(n, s), bd_complete(n), bd_applied(map_of(s), n2, ISet::<Trip<NodeT>>::empty()),
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.0 <= d.cnt.init(),
  ensures equal_links(n, n2), forall|i: usize| #[trigger] d.drawn(i) ==> !n2.contains_key(NodeIndex(i))
{
  map_of_is(n, s); bd_nothing(n, n2);
  assert forall|i: usize| #[trigger] d.drawn(i) implies !n2.contains_key(NodeIndex(i)) by {
    drawn_above(&d, i);
    if n2.contains_key(NodeIndex(i)) { assert(n.contains_key(NodeIndex(i))); let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == NodeIndex(i); assert(s[k].0.0 <= d.cnt.init()); }
  }
}
