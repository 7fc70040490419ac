// ---------------- the graph ----------------
pub type Trip<N> = (NodeIndex, NodeIndex, <N as NodeSpec>::LinkMirrorEnum);
pub open spec fn bk<S>(b: IMap<NodeIndex, OrderSet<(NodeIndex, S)>>, y: NodeIndex, x: NodeIndex, s: S) -> bool {
  b.contains_key(y) && b[y]@.contains((x, s))
}
pub open spec fn fwd<N: NodeSpec>(n: IMap<NodeIndex, N>, x: NodeIndex, y: NodeIndex, s: N::SourceEnum) -> bool {
  n.contains_key(x) && n[x].links().contains((y, s))
}
/// x links to y through field l
pub open spec fn trip<N: NodeSpec>(n: IMap<NodeIndex, N>, x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum) -> bool {
  n.contains_key(x) && has_link(n[x], l, y)
}
pub open spec fn trips<N: NodeSpec>(n: IMap<NodeIndex, N>) -> ISet<Trip<N>> {
  ISet::new(|p: Trip<N>| trip(n, p.0, p.1, p.2))
}
/// C15: the back links are exactly the links stored in the nodes
#[verifier::opaque]
pub open spec fn inv<N: NodeSpec>(n: IMap<NodeIndex, N>, b: IMap<NodeIndex, OrderSet<(NodeIndex, N::SourceEnum)>>) -> bool {
  &&& forall|x: NodeIndex| #[trigger] n.contains_key(x) ==> b.contains_key(x)
  &&& forall|x: NodeIndex, y: NodeIndex, s: N::SourceEnum| #![trigger fwd(n, x, y, s)] #![trigger bk(b, y, x, s)] fwd(n, x, y, s) == bk(b, y, x, s)
}
/// a recorder that holds exactly the difference between the links t0 and those of n
#[verifier::opaque]
pub open spec fn rec<N: NodeSpec>(n: IMap<NodeIndex, N>, adds: ISet<Trip<N>>, removes: ISet<Trip<N>>, t0: ISet<Trip<N>>) -> bool {
  &&& forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] adds.contains((x, y, l)) == (trip(n, x, y, l) && !t0.contains((x, y, l)))
  &&& forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] removes.contains((x, y, l)) == (!trip(n, x, y, l) && t0.contains((x, y, l)))
}
/// the links before, from the links now and the recorded changes
pub open spec fn base<N: NodeSpec>(n: IMap<NodeIndex, N>, adds: ISet<Trip<N>>, removes: ISet<Trip<N>>) -> ISet<Trip<N>> {
  ISet::new(|p: Trip<N>| (trip(n, p.0, p.1, p.2) && !adds.contains(p)) || removes.contains(p))
}
pub proof fn rec_base<N: NodeSpec>(n: IMap<NodeIndex, N>, adds: ISet<Trip<N>>, removes: ISet<Trip<N>>, t0: ISet<Trip<N>>)
  requires rec(n, adds, removes, t0)
  ensures base(n, adds, removes) == t0
{
  reveal(rec);
  assert forall|p: Trip<N>| base(n, adds, removes).contains(p) == t0.contains(p) by {
    let q = (p.0, p.1, p.2); assert(q == p);
    assert(adds.contains(q) == (trip(n, p.0, p.1, p.2) && !t0.contains(q)));
    assert(removes.contains(q) == (!trip(n, p.0, p.1, p.2) && t0.contains(q)));
  }
  assert(base(n, adds, removes) =~= t0);
}

/*@struct src/typed_graph.rs LinkChangeRecorder
#attr
#[verifier::reject_recursive_types(NodeT)]
@*/
impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
  pub open spec fn rec(&self, n: IMap<NodeIndex, NodeT>, t0: ISet<Trip<NodeT>>) -> bool { rec(n, self.adds@, self.removes@, t0) }
  pub open spec fn base(&self, n: IMap<NodeIndex, NodeT>) -> ISet<Trip<NodeT>> { base(n, self.adds@, self.removes@) }
  pub open spec fn ok(&self, n: IMap<NodeIndex, NodeT>) -> bool { self.rec(n, self.base(n)) }
/*@fn src/typed_graph.rs LinkChangeRecorder as Default::default
#props C05 C14
#ensures
  r.nodes@ == ISet::<NodeIndex>::empty(), r.adds@ == ISet::<Trip<NodeT>>::empty(), r.removes@ == ISet::<Trip<NodeT>>::empty(),
@*/
/*@fn src/typed_graph.rs LinkChangeRecorder::add_link
#props C04 C05 C14
#ensures
  final(self).nodes@ == old(self).nodes@,
  y.0 == 0 ==> *final(self) == *old(self),
  y.0 != 0 && old(self).removes@.contains((x, y, l)) ==> final(self).adds@ == old(self).adds@ && final(self).removes@ == old(self).removes@.remove((x, y, l)),
  y.0 != 0 && !old(self).removes@.contains((x, y, l)) ==> final(self).adds@ == old(self).adds@.insert((x, y, l)) && final(self).removes@ == old(self).removes@,
@*/
/*@fn src/typed_graph.rs LinkChangeRecorder::remove_link
#props C04 C05 C14
#ensures
  final(self).nodes@ == old(self).nodes@,
  y.0 == 0 ==> *final(self) == *old(self),
  y.0 != 0 && old(self).adds@.contains((x, y, l)) ==> final(self).removes@ == old(self).removes@ && final(self).adds@ == old(self).adds@.remove((x, y, l)),
  y.0 != 0 && !old(self).adds@.contains((x, y, l)) ==> final(self).removes@ == old(self).removes@.insert((x, y, l)) && final(self).adds@ == old(self).adds@,
@*/
/*@fn src/typed_graph.rs LinkChangeRecorder::add_links
#props C04 C05 C14
#ensures
  final(self).nodes@ == old(self).nodes@.insert(x),
  forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] final(self).adds@.contains((a, y, l)) == (old(self).adds@.contains((a, y, l)) || (a == x && has_link(*n, l, y) && !old(self).removes@.contains((a, y, l)))),
  forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] final(self).removes@.contains((a, y, l)) == (old(self).removes@.contains((a, y, l)) && !(a == x && has_link(*n, l, y))),
#loop 0
  self.adds@ == old(self).adds@, self.removes@ == old(self).removes@, self.nodes@ == old(self).nodes@.insert(x),
  forall|y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] vf_acc0@.contains((y, l)) == (exists|i: int| 0 <= i < vf_it0.pos() && (#[trigger] vf_all0[i]).0 == y && NodeT::mirror(vf_all0[i].1) == l),
#loop 0 after
  assert forall|y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] vf_acc0@.contains((y, l)) == has_link(*n, l, y) by {
    if has_link(*n, l, y) {
      let s = choose|s: NodeT::SourceEnum| #[trigger] n.links().contains((y, s)) && NodeT::mirror(s) == l;
      assert(vf_all0.contains((y, s)));
      let i = choose|i: int| 0 <= i < vf_all0.len() && vf_all0[i] == (y, s);
      assert(vf_all0[i].0 == y);
    }
    if vf_acc0@.contains((y, l)) {
      let i = choose|i: int| 0 <= i < vf_it0.pos() && (#[trigger] vf_all0[i]).0 == y && NodeT::mirror(vf_all0[i].1) == l;
      assert(n.links().contains(vf_all0[i]));
      assert(n.links().contains((y, vf_all0[i].1)));
    }
  }
#loop 1
  self.nodes@ == old(self).nodes@.insert(x),
  forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] self.adds@.contains((a, y, l)) == (old(self).adds@.contains((a, y, l)) || (a == x && !old(self).removes@.contains((a, y, l)) && exists|i: int| 0 <= i < vf_it1.pos() && vf_all1[i] == (y, l))),
  forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] self.removes@.contains((a, y, l)) == (old(self).removes@.contains((a, y, l)) && !(a == x && exists|i: int| 0 <= i < vf_it1.pos() && vf_all1[i] == (y, l))),
#loop 1 begin
  assert(links@.contains(vf_all1[vf_it1.pos() - 1]));
  let ghost vf_s = choose|s: NodeT::SourceEnum| #[trigger] n.links().contains((y, s)) && NodeT::mirror(s) == l;
  proof { n.law_links(y, vf_s); }
#loop 1 after
  assert forall|y: NodeIndex, l: NodeT::LinkMirrorEnum| has_link(*n, l, y) == (exists|i: int| 0 <= i < vf_all1.len() && vf_all1[i] == (y, l)) by {
    assert(links@.contains((y, l)) == has_link(*n, l, y));
    if has_link(*n, l, y) { assert(vf_all1.contains((y, l))); }
    if exists|i: int| 0 <= i < vf_all1.len() && vf_all1[i] == (y, l) {
      let i = choose|i: int| 0 <= i < vf_all1.len() && vf_all1[i] == (y, l);
      assert(links@.contains(vf_all1[i]));
    }
  }
@*/
/*@fn src/typed_graph.rs LinkChangeRecorder::remove_links
#props C04 C05 C14
#ensures
  final(self).nodes@ == old(self).nodes@,
  forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] final(self).removes@.contains((a, y, l)) == (old(self).removes@.contains((a, y, l)) || (a == x && has_link(*n, l, y) && !old(self).adds@.contains((a, y, l)))),
  forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] final(self).adds@.contains((a, y, l)) == (old(self).adds@.contains((a, y, l)) && !(a == x && has_link(*n, l, y))),
#loop 0
  self.adds@ == old(self).adds@, self.removes@ == old(self).removes@, self.nodes@ == old(self).nodes@,
  forall|y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] vf_acc0@.contains((y, l)) == (exists|i: int| 0 <= i < vf_it0.pos() && (#[trigger] vf_all0[i]).0 == y && NodeT::mirror(vf_all0[i].1) == l),
#loop 0 after
  assert forall|y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] vf_acc0@.contains((y, l)) == has_link(*n, l, y) by {
    if has_link(*n, l, y) {
      let s = choose|s: NodeT::SourceEnum| #[trigger] n.links().contains((y, s)) && NodeT::mirror(s) == l;
      assert(vf_all0.contains((y, s)));
      let i = choose|i: int| 0 <= i < vf_all0.len() && vf_all0[i] == (y, s);
      assert(vf_all0[i].0 == y);
    }
    if vf_acc0@.contains((y, l)) {
      let i = choose|i: int| 0 <= i < vf_it0.pos() && (#[trigger] vf_all0[i]).0 == y && NodeT::mirror(vf_all0[i].1) == l;
      assert(n.links().contains(vf_all0[i]));
      assert(n.links().contains((y, vf_all0[i].1)));
    }
  }
#loop 1
  self.nodes@ == old(self).nodes@,
  forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] self.removes@.contains((a, y, l)) == (old(self).removes@.contains((a, y, l)) || (a == x && !old(self).adds@.contains((a, y, l)) && exists|i: int| 0 <= i < vf_it1.pos() && vf_all1[i] == (y, l))),
  forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] self.adds@.contains((a, y, l)) == (old(self).adds@.contains((a, y, l)) && !(a == x && exists|i: int| 0 <= i < vf_it1.pos() && vf_all1[i] == (y, l))),
#loop 1 begin
  assert(links@.contains(vf_all1[vf_it1.pos() - 1]));
  let ghost vf_s = choose|s: NodeT::SourceEnum| #[trigger] n.links().contains((y, s)) && NodeT::mirror(s) == l;
  proof { n.law_links(y, vf_s); }
#loop 1 after
  assert forall|y: NodeIndex, l: NodeT::LinkMirrorEnum| has_link(*n, l, y) == (exists|i: int| 0 <= i < vf_all1.len() && vf_all1[i] == (y, l)) by {
    assert(links@.contains((y, l)) == has_link(*n, l, y));
    if has_link(*n, l, y) { assert(vf_all1.contains((y, l))); }
    if exists|i: int| 0 <= i < vf_all1.len() && vf_all1[i] == (y, l) {
      let i = choose|i: int| 0 <= i < vf_all1.len() && vf_all1[i] == (y, l);
      assert(links@.contains(vf_all1[i]));
    }
  }
@*/
}
// ---- single steps of the recorder
pub proof fn rec_same<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, a: ISet<Trip<N>>, r: ISet<Trip<N>>, t0: ISet<Trip<N>>)
  requires rec(n, a, r, t0), forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] trip(n2, x, y, l) == trip(n, x, y, l)
  ensures rec(n2, a, r, t0)
{ reveal(rec); }
pub proof fn rec_add<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, a: ISet<Trip<N>>, r: ISet<Trip<N>>, a2: ISet<Trip<N>>, r2: ISet<Trip<N>>, t0: ISet<Trip<N>>, x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum)
  requires
    rec(n, a, r, t0), !trip(n, x, y, l),
    forall|b: NodeIndex, c: NodeIndex, k: N::LinkMirrorEnum| #[trigger] trip(n2, b, c, k) == (trip(n, b, c, k) || (b, c, k) == (x, y, l)),
    r.contains((x, y, l)) ==> a2 == a && r2 == r.remove((x, y, l)),
    !r.contains((x, y, l)) ==> a2 == a.insert((x, y, l)) && r2 == r,
  ensures rec(n2, a2, r2, t0)
{ reveal(rec); }
pub proof fn rec_del<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, a: ISet<Trip<N>>, r: ISet<Trip<N>>, a2: ISet<Trip<N>>, r2: ISet<Trip<N>>, t0: ISet<Trip<N>>, x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum)
  requires
    rec(n, a, r, t0), trip(n, x, y, l),
    forall|b: NodeIndex, c: NodeIndex, k: N::LinkMirrorEnum| #[trigger] trip(n2, b, c, k) == (trip(n, b, c, k) && (b, c, k) != (x, y, l)),
    a.contains((x, y, l)) ==> r2 == r && a2 == a.remove((x, y, l)),
    !a.contains((x, y, l)) ==> r2 == r.insert((x, y, l)) && a2 == a,
  ensures rec(n2, a2, r2, t0)
{ reveal(rec); }
/// modify_link of a link that is there
pub proof fn mod_links<N: NodeSpec>(n: N, n2: N, s: N::SourceEnum, o: NodeIndex, w: NodeIndex)
  requires n.links().contains((o, s)), n2.links() == set_link(n.links(), s, N::single(s), o, w),
  ensures
    forall|y: NodeIndex, t: N::SourceEnum| #![trigger n2.links().contains((y, t))] #![trigger n.links().contains((y, t))] n2.links().contains((y, t)) == ((n.links().contains((y, t)) && (y, t) != (o, s)) || (y == w && t == s && w.0 != 0)),
    forall|y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] has_link(n2, l, y) ==> has_link(n, l, y) || (y == w && l == N::mirror(s) && w.0 != 0),
    forall|y: NodeIndex, l: N::LinkMirrorEnum| has_link(n, l, y) && (y != o || l != N::mirror(s)) ==> #[trigger] has_link(n2, l, y),
    w.0 != 0 ==> has_link(n2, N::mirror(s), w),
{
  assert forall|y: NodeIndex, t: N::SourceEnum| #![trigger n2.links().contains((y, t))] #![trigger n.links().contains((y, t))] n2.links().contains((y, t)) == ((n.links().contains((y, t)) && (y, t) != (o, s)) || (y == w && t == s && w.0 != 0)) by {
    if n.links().contains((y, t)) && t == s && N::single(s) { n.law_single(y, o, s); }
  }
  assert forall|y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] has_link(n2, l, y) implies has_link(n, l, y) || (y == w && l == N::mirror(s) && w.0 != 0) by {
    let t = choose|t: N::SourceEnum| #[trigger] n2.links().contains((y, t)) && N::mirror(t) == l;
    if n.links().contains((y, t)) { } else { }
  }
  assert forall|y: NodeIndex, l: N::LinkMirrorEnum| has_link(n, l, y) && (y != o || l != N::mirror(s)) implies #[trigger] has_link(n2, l, y) by {
    let t = choose|t: N::SourceEnum| #[trigger] n.links().contains((y, t)) && N::mirror(t) == l;
    assert(n2.links().contains((y, t)));
  }
  if w.0 != 0 { assert(n2.links().contains((w, s))); }
}

pub proof fn rec_unlink<N: NodeSpec>(n: IMap<NodeIndex, N>, a: ISet<Trip<N>>, r: ISet<Trip<N>>, a2: ISet<Trip<N>>, r2: ISet<Trip<N>>, t0: ISet<Trip<N>>, x: NodeIndex)
  requires
    rec(n, a, r, t0), n.contains_key(x),
    forall|b: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] r2.contains((b, y, l)) == (r.contains((b, y, l)) || (b == x && has_link(n[x], l, y) && !a.contains((b, y, l)))),
    forall|b: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] a2.contains((b, y, l)) == (a.contains((b, y, l)) && !(b == x && has_link(n[x], l, y))),
  ensures rec(n.remove(x), a2, r2, t0)
{ reveal(rec); }
pub proof fn rec_relink<N: NodeSpec>(n: IMap<NodeIndex, N>, a: ISet<Trip<N>>, r: ISet<Trip<N>>, a2: ISet<Trip<N>>, r2: ISet<Trip<N>>, t0: ISet<Trip<N>>, x: NodeIndex, v: N)
  requires
    rec(n, a, r, t0), !n.contains_key(x),
    forall|b: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] a2.contains((b, y, l)) == (a.contains((b, y, l)) || (b == x && has_link(v, l, y) && !r.contains((b, y, l)))),
    forall|b: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] r2.contains((b, y, l)) == (r.contains((b, y, l)) && !(b == x && has_link(v, l, y))),
  ensures rec(n.insert(x, v), a2, r2, t0)
{ reveal(rec);
  assert forall|b: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] trip(n.insert(x, v), b, y, l) == (if b == x { has_link(v, l, y) } else { trip(n, b, y, l) }) by { }
}
/// a node without link changes in the step from n to n2
pub open spec fn rm_step<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, x: NodeIndex) -> bool {
  &&& n.contains_key(x) && n2.dom() == n.dom().remove(x)
  &&& forall|a: NodeIndex| #[trigger] n2.contains_key(a) ==> n2[a].data() == n[a].data() && n2[a].disc() == n[a].disc()
  &&& forall|a: NodeIndex, y: NodeIndex, s: N::SourceEnum| #[trigger] fwd(n2, a, y, s) == (a != x && y != x && fwd(n, a, y, s))
}
pub open spec fn mv_step<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, o: NodeIndex, w: NodeIndex) -> bool {
  &&& n2.dom() == n.dom()
  &&& forall|a: NodeIndex| #[trigger] n2.contains_key(a) ==> n2[a].data() == n[a].data() && n2[a].disc() == n[a].disc()
  &&& forall|a: NodeIndex, y: NodeIndex, s: N::SourceEnum| #[trigger] fwd(n2, a, y, s) == ((y != o && fwd(n, a, y, s)) || (y == w && w.0 != 0 && fwd(n, a, o, s)))
}
pub proof fn rec_move<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, a: ISet<Trip<N>>, r: ISet<Trip<N>>, a2: ISet<Trip<N>>, r2: ISet<Trip<N>>, t0: ISet<Trip<N>>, p: Trip<N>, q: Trip<N>, add: bool, del: bool)
  requires
    rec(n, a, r, t0), p != q, add ==> !trip(n, p.0, p.1, p.2), del ==> trip(n, q.0, q.1, q.2),
    forall|b: NodeIndex, c: NodeIndex, k: N::LinkMirrorEnum| #[trigger] trip(n2, b, c, k) == ((trip(n, b, c, k) || (add && (b, c, k) == p)) && !(del && (b, c, k) == q)),
    forall|t: Trip<N>| #[trigger] a2.contains(t) == ((a.contains(t) || (add && t == p && !r.contains(p))) && !(del && t == q && a.contains(q))),
    forall|t: Trip<N>| #[trigger] r2.contains(t) == ((r.contains(t) || (del && t == q && !a.contains(q))) && !(add && t == p && r.contains(p))),
  ensures rec(n2, a2, r2, t0)
{ reveal(rec); assert(p == (p.0, p.1, p.2)); assert(q == (q.0, q.1, q.2)); }

/*@struct src/typed_graph.rs Graph
#attr
#[verifier::reject_recursive_types(NodeT)]
@*/
impl<NodeT, Arena> Graph<NodeT, Arena>
where NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>,
{
  #[verifier::inline]
  pub open spec fn n(&self) -> IMap<NodeIndex, NodeT> { nodes_of(self.nodes) }
  #[verifier::inline]
  pub open spec fn b(&self) -> IMap<NodeIndex, OrderSet<(NodeIndex, NodeT::SourceEnum)>> { self.back_links@ }
  pub open spec fn wf(&self) -> bool { arena_wf(self.nodes) && inv(self.n(), self.b()) }
/*@fn src/typed_graph.rs Graph::new
#props C11 C07 C15
#ensures
  r.wf(), r.n() == IMap::<NodeIndex, NodeT>::empty(), r.nodes.disp() == IMap::<NodeIndex, NodeT::Discriminant>::empty(), r.ctx_id == context.id, r.nodes.dist() == context.node_dist,
#end
  proof { reveal(arena_wf); reveal(nodes_of); reveal(inv); assert(vf_ret.n() =~= IMap::<NodeIndex, NodeT>::empty()); }
@*/
/*@fn src/typed_graph.rs Graph::get
#props C07
#ensures
  self.n().contains_key(idx) ==> r == Some(&self.n()[idx]),
  !self.n().contains_key(idx) ==> r is None,
@*/
/*@fn src/typed_graph.rs Graph::len
#props C07
#requires
  self.wf(),
#ensures
  self.n().dom().finite(), r as nat == self.n().dom().len(),
@*/
/*@fn src/typed_graph.rs Graph::is_empty
#props C07
#requires
  self.wf(),
#ensures
  r == (self.n() =~= IMap::<NodeIndex, NodeT>::empty()),
#end
  proof {
    if vf_ret { assert(self.n().dom() =~= ISet::empty()); assert(self.n() =~= IMap::<NodeIndex, NodeT>::empty()); }
    else { if self.n() =~= IMap::<NodeIndex, NodeT>::empty() { assert(self.n().dom() =~= ISet::empty()); } }
  }
@*/
/*@fn src/typed_graph.rs Graph::add_back_link
#props C15
#ensures
  final(self).nodes == old(self).nodes, final(self).ctx_id == old(self).ctx_id,
  forall|k: NodeIndex| #[trigger] final(self).b().contains_key(k) == (old(self).b().contains_key(k) || k == y),
  forall|c: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] bk(final(self).b(), c, a, s) == (bk(old(self).b(), c, a, s) || (c == y && a == x && s == src)),
@*/
/*@fn src/typed_graph.rs Graph::remove_back_link
#props C15
#requires[T]
  old(self).b().contains_key(y),
#ensures
  final(self).nodes == old(self).nodes, final(self).ctx_id == old(self).ctx_id,
  forall|k: NodeIndex| #[trigger] final(self).b().contains_key(k) == old(self).b().contains_key(k),
  forall|c: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] bk(final(self).b(), c, a, s) == (bk(old(self).b(), c, a, s) && !(c == y && a == x && s == src)),
@*/
/*@fn src/typed_graph.rs Graph::add_back_links
#props C15
#ensures
  final(self).nodes == old(self).nodes, final(self).ctx_id == old(self).ctx_id,
  final(self).b().contains_key(x),
  forall|k: NodeIndex| old(self).b().contains_key(k) ==> #[trigger] final(self).b().contains_key(k),
  forall|c: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] bk(final(self).b(), c, a, s) == (bk(old(self).b(), c, a, s) || (a == x && n.links().contains((c, s)))),
#loop 0
  self.nodes == old(self).nodes, self.ctx_id == old(self).ctx_id,
  self.b().contains_key(x),
  forall|k: NodeIndex| old(self).b().contains_key(k) ==> #[trigger] self.b().contains_key(k),
  forall|c: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, s) == (bk(old(self).b(), c, a, s) || (a == x && had(vf_all0, vf_it0.pos(), (c, s)))),
#loop 0 begin
  let ghost vf_cur = vf_all0[vf_it0.pos() - 1]; let ghost (vf_y, vf_s) = vf_cur; let ghost vf_b = self.b();
  assert forall|c: NodeIndex, vf_s: NodeT::SourceEnum| #[trigger] had(vf_all0, vf_it0.pos(), (c, vf_s)) == (had(vf_all0, (vf_it0.pos() - 1) as nat, (c, vf_s)) || (c, vf_s) == vf_all0[vf_it0.pos() - 1]) by {
    if (c, vf_s) == vf_all0[vf_it0.pos() - 1] { }
  }
#loop 0 end
  assert forall|c: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, t) == (bk(old(self).b(), c, a, t) || (a == x && had(vf_all0, vf_it0.pos(), (c, t)))) by {
    assert(bk(self.b(), c, a, t) == (bk(vf_b, c, a, t) || (a == x && (c, t) == vf_cur)));
    assert(had(vf_all0, vf_it0.pos(), (c, t)) == (had(vf_all0, (vf_it0.pos() - 1) as nat, (c, t)) || (c, t) == vf_all0[vf_it0.pos() - 1]));
  }
#loop 0 after
  assert forall|c: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, s) == (bk(old(self).b(), c, a, s) || (a == x && n.links().contains((c, s)))) by {
    if a == x && n.links().contains((c, s)) { assert(vf_all0.contains((c, s))); }
    if a == x && bk(self.b(), c, a, s) && !bk(old(self).b(), c, a, s) {
      let i = choose|i: int| 0 <= i < vf_all0.len() && vf_all0[i] == (c, s);
      assert(n.links().contains(vf_all0[i]));
    }
  }
@*/
/*@fn src/typed_graph.rs Graph::remove_back_links
#props C15
#requires[T]
  forall|c: NodeIndex, s: NodeT::SourceEnum| #[trigger] n.links().contains((c, s)) ==> old(self).b().contains_key(c),
#ensures
  final(self).nodes == old(self).nodes, final(self).ctx_id == old(self).ctx_id,
  forall|k: NodeIndex| #[trigger] final(self).b().contains_key(k) == old(self).b().contains_key(k),
  forall|c: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] bk(final(self).b(), c, a, s) == (bk(old(self).b(), c, a, s) && !(a == x && n.links().contains((c, s)))),
#loop 0
  self.nodes == old(self).nodes, self.ctx_id == old(self).ctx_id,
  forall|k: NodeIndex| #[trigger] self.b().contains_key(k) == old(self).b().contains_key(k),
  forall|c: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, s) == (bk(old(self).b(), c, a, s) && !(a == x && had(vf_all0, vf_it0.pos(), (c, s)))),
#loop 0 begin
  let ghost vf_cur = vf_all0[vf_it0.pos() - 1]; let ghost (vf_y, vf_s) = vf_cur; let ghost vf_b = self.b();
  assert(n.links().contains(vf_all0[vf_it0.pos() - 1]));
  assert forall|c: NodeIndex, vf_s: NodeT::SourceEnum| #[trigger] had(vf_all0, vf_it0.pos(), (c, vf_s)) == (had(vf_all0, (vf_it0.pos() - 1) as nat, (c, vf_s)) || (c, vf_s) == vf_all0[vf_it0.pos() - 1]) by {
    if (c, vf_s) == vf_all0[vf_it0.pos() - 1] { }
  }
#loop 0 end
  assert(vf_b.contains_key(vf_y) == vf_b.dom().contains(vf_y)); assert(self.b().dom() =~= vf_b.dom());
  assert forall|k: NodeIndex| #[trigger] self.b().contains_key(k) == vf_b.contains_key(k) by { assert(self.b().dom().contains(k) == vf_b.dom().contains(k)); }
  assert forall|c: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, t) == (bk(old(self).b(), c, a, t) && !(a == x && had(vf_all0, vf_it0.pos(), (c, t)))) by {
    assert(bk(self.b(), c, a, t) == (bk(vf_b, c, a, t) && !(a == x && (c, t) == vf_cur)));
    assert(had(vf_all0, vf_it0.pos(), (c, t)) == (had(vf_all0, (vf_it0.pos() - 1) as nat, (c, t)) || (c, t) == vf_all0[vf_it0.pos() - 1]));
  }
#loop 0 after
  assert forall|c: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, s) == (bk(old(self).b(), c, a, s) && !(a == x && n.links().contains((c, s)))) by {
    if a == x && n.links().contains((c, s)) { assert(vf_all0.contains((c, s))); }
    if a == x && !bk(self.b(), c, a, s) && bk(old(self).b(), c, a, s) {
      let i = choose|i: int| 0 <= i < vf_all0.len() && vf_all0[i] == (c, s);
      assert(n.links().contains(vf_all0[i]));
    }
  }
@*/
/*@fn src/typed_graph.rs Graph::merge_nodes
#props C03 C05 C06 C11 C14 C15
#requires
  old(self).wf(), arena_wf(nodes), old(self).nodes.disp().dom().disjoint(nodes.disp().dom()), old(lcr).ok(old(self).n()),
#ensures
  final(self).wf(), final(self).ctx_id == old(self).ctx_id, final(self).nodes.dist() == old(self).nodes.dist(),
  final(self).n() == old(self).n().union_prefer_right(nodes_of(nodes)),
  final(self).n().dom() == old(self).n().dom().union(nodes_of(nodes).dom()),
  old(self).n().dom().disjoint(nodes_of(nodes).dom()),
  final(self).nodes.disp() == old(self).nodes.disp().union_prefer_right(nodes.disp()),
  final(lcr).rec(final(self).n(), old(lcr).base(old(self).n())),
  final(lcr).nodes@ == old(lcr).nodes@.union(nodes_of(nodes).dom()),
#start
  let ghost vf_t0 = lcr.base(self.n());
  let ghost vf_m = nodes_of(nodes);
  let ghost vf_n0 = self.n();
  proof {
    reveal(nodes_of); reveal(inv); reveal(rec);
    assert forall|k: NodeIndex| #[trigger] vf_m.contains_key(k) implies !vf_n0.contains_key(k) by { assert(nodes.disp().dom().contains(k)); assert(!self.nodes.disp().dom().contains(k)); }
  }
#loop 0
  self.nodes == old(self).nodes, self.ctx_id == old(self).ctx_id,
  forall|k: NodeIndex| old(self).b().contains_key(k) ==> #[trigger] self.b().contains_key(k),
  forall|i: int| 0 <= i < vf_it0.pos() ==> self.b().contains_key((#[trigger] vf_all0[i]).0),
  forall|c: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, s) == (bk(old(self).b(), c, a, s) || (seen(vf_all0, vf_it0.pos(), a) && vf_m[a].links().contains((c, s)))),
  forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] lcr.adds@.contains((a, y, l)) == (old(lcr).adds@.contains((a, y, l)) || (seen(vf_all0, vf_it0.pos(), a) && has_link(vf_m[a], l, y) && !vf_t0.contains((a, y, l)))),
  forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] lcr.removes@.contains((a, y, l)) == (old(lcr).removes@.contains((a, y, l)) && !(seen(vf_all0, vf_it0.pos(), a) && has_link(vf_m[a], l, y))),
  forall|a: NodeIndex| #[trigger] lcr.nodes@.contains(a) == (old(lcr).nodes@.contains(a) || seen(vf_all0, vf_it0.pos(), a)),
#loop 0 begin
  assert(vf_m.contains_key(vf_all0[vf_it0.pos() - 1].0) && vf_m[vf_all0[vf_it0.pos() - 1].0] == *vf_all0[vf_it0.pos() - 1].1);
  assert forall|a: NodeIndex| #[trigger] seen(vf_all0, vf_it0.pos(), a) == (seen(vf_all0, (vf_it0.pos() - 1) as nat, a) || a == x) by {
    if a == x { assert(vf_all0[vf_it0.pos() - 1].0 == a); }
  }
  assert(!seen(vf_all0, (vf_it0.pos() - 1) as nat, x));
#loop 0 after
  assert forall|a: NodeIndex| #[trigger] seen(vf_all0, vf_all0.len(), a) == vf_m.contains_key(a) by { }
  assert forall|k: NodeIndex| #[trigger] vf_m.contains_key(k) implies self.b().contains_key(k) by { assert(seen(vf_all0, vf_all0.len(), k)); }
  assert forall|c: NodeIndex, a: NodeIndex, s: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, s) == (bk(old(self).b(), c, a, s) || (vf_m.contains_key(a) && vf_m[a].links().contains((c, s)))) by { assert(seen(vf_all0, vf_all0.len(), a) == vf_m.contains_key(a)); }
  assert forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] lcr.adds@.contains((a, y, l)) == (old(lcr).adds@.contains((a, y, l)) || (vf_m.contains_key(a) && has_link(vf_m[a], l, y) && !vf_t0.contains((a, y, l)))) by { assert(seen(vf_all0, vf_all0.len(), a) == vf_m.contains_key(a)); }
  assert forall|a: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] lcr.removes@.contains((a, y, l)) == (old(lcr).removes@.contains((a, y, l)) && !(vf_m.contains_key(a) && has_link(vf_m[a], l, y))) by { assert(seen(vf_all0, vf_all0.len(), a) == vf_m.contains_key(a)); }
  assert forall|a: NodeIndex| #[trigger] lcr.nodes@.contains(a) == (old(lcr).nodes@.contains(a) || vf_m.contains_key(a)) by { assert(seen(vf_all0, vf_all0.len(), a) == vf_m.contains_key(a)); }
#end
  proof {
    reveal(inv); reveal(rec); reveal(nodes_of);
    let nn = self.n();
    assert forall|k: NodeIndex| #[trigger] nn.contains_key(k) implies self.b().contains_key(k) by {
      if vf_m.contains_key(k) { } else { assert(vf_n0.contains_key(k)); assert(old(self).b().contains_key(k)); }
    }
    assert forall|x: NodeIndex, y: NodeIndex, s: NodeT::SourceEnum| fwd(nn, x, y, s) == #[trigger] bk(self.b(), y, x, s) by {
      assert(fwd(vf_n0, x, y, s) == bk(old(self).b(), y, x, s));
      assert(bk(self.b(), y, x, s) == (bk(old(self).b(), y, x, s) || (vf_m.contains_key(x) && vf_m[x].links().contains((y, s)))));
      assert(nn.contains_key(x) == (vf_n0.contains_key(x) || vf_m.contains_key(x)));
      if vf_m.contains_key(x) { assert(nn[x] == vf_m[x]); assert(!vf_n0.contains_key(x)); }
      else if vf_n0.contains_key(x) { assert(nn[x] == vf_n0[x]); }
    }
    assert(lcr.nodes@ =~= old(lcr).nodes@.union(vf_m.dom()));
    assert(nn.dom() =~= vf_n0.dom().union(vf_m.dom()));
  }
@*/
/*@fn src/typed_graph.rs Graph::remove_node
#props C01 C03 C05 C14 C15
#requires
  old(self).wf(), old(lcr).ok(old(self).n()),
#requires[T]
  old(self).n().contains_key(x),
#ensures
  final(self).wf(), final(self).ctx_id == old(self).ctx_id, final(self).nodes.dist() == old(self).nodes.dist(),
  rm_step(old(self).n(), final(self).n(), x),
  final(lcr).rec(final(self).n(), old(lcr).base(old(self).n())), final(lcr).nodes@ == old(lcr).nodes@,
#start
  let ghost vf_t0 = lcr.base(self.n());
  let ghost vf_n0 = self.n();
  let ghost vf_n1 = self.n().remove(x);
  let ghost vf_b0 = self.b();
  proof { reveal(inv); }
#before_call remove_back_links 0
  assert forall|c: NodeIndex, s: NodeT::SourceEnum| #[trigger] n.links().contains((c, s)) implies vf_b0.contains_key(c) by { assert(fwd(vf_n0, x, c, s)); assert(bk(vf_b0, c, x, s)); }
#before_call swap_remove 0
  let ghost vf_b1 = self.b();
  proof {
    rec_unlink(vf_n0, old(lcr).adds@, old(lcr).removes@, lcr.adds@, lcr.removes@, vf_t0, x);
    assert forall|a: NodeIndex, y: NodeIndex, s: NodeT::SourceEnum| #[trigger] fwd(vf_n1, a, y, s) == bk(vf_b1, y, a, s) by {
      assert(fwd(vf_n0, a, y, s) == bk(vf_b0, y, a, s));
    }
    assert(vf_b0.contains_key(x)); assert(vf_b1.contains_key(x));
    assert(self.n() == vf_n1);
  }
#loop 0
  arena_wf(self.nodes), self.b() == vf_b1.remove(x), self.ctx_id == old(self).ctx_id, self.nodes.dist() == old(self).nodes.dist(),
  self.n().dom() == vf_n1.dom(), lcr.rec(self.n(), vf_t0), lcr.nodes@ == old(lcr).nodes@,
  forall|a: NodeIndex| #[trigger] self.n().contains_key(a) ==> self.n()[a].data() == vf_n1[a].data() && self.n()[a].disc() == vf_n1[a].disc(),
  forall|a: NodeIndex, y: NodeIndex, s: NodeT::SourceEnum| #[trigger] fwd(self.n(), a, y, s) == (fwd(vf_n1, a, y, s) && !(y == x && had(vf_all0, vf_it0.pos(), (a, s)))),
#loop 0 begin
  let ghost vf_c = self.n(); let ghost vf_ad = lcr.adds@; let ghost vf_re = lcr.removes@; let ghost (vf_y, vf_s) = vf_all0[vf_it0.pos() - 1];
  proof {
    assert(vf_b1[x]@.contains(vf_all0[vf_it0.pos() - 1]));
    assert(bk(vf_b1, x, vf_y, vf_s));
    assert(fwd(vf_n1, vf_y, x, vf_s));
    assert(!had(vf_all0, (vf_it0.pos() - 1) as nat, (vf_y, vf_s)));
    assert(fwd(vf_c, vf_y, x, vf_s));
    assert(vf_c.contains_key(vf_y));
    vf_c[vf_y].law_links(x, vf_s);
  }
#loop 0 end
  proof {
    let c2 = self.n();
    let l = NodeT::mirror(vf_s);
    mod_links(vf_c[vf_y], c2[vf_y], vf_s, x, NodeIndex(0));
    assert(has_link(vf_c[vf_y], l, x));
    assert(c2 =~= vf_c.insert(vf_y, c2[vf_y]));
    assert forall|a: NodeIndex, k: NodeIndex, t: NodeT::SourceEnum| #[trigger] fwd(c2, a, k, t) == (fwd(vf_n1, a, k, t) && !(k == x && had(vf_all0, vf_it0.pos(), (a, t)))) by {
      assert(had(vf_all0, vf_it0.pos(), (a, t)) == (had(vf_all0, (vf_it0.pos() - 1) as nat, (a, t)) || (a, t) == vf_all0[vf_it0.pos() - 1]));
      assert(fwd(vf_c, a, k, t) == (fwd(vf_n1, a, k, t) && !(k == x && had(vf_all0, (vf_it0.pos() - 1) as nat, (a, t)))));
    }
    assert forall|b: NodeIndex, c: NodeIndex, k: NodeT::LinkMirrorEnum| #[trigger] trip(c2, b, c, k) == (trip(vf_c, b, c, k) && !((b, c, k) == (vf_y, x, l) && !has_link(c2[vf_y], l, x))) by { }
    if has_link(c2[vf_y], l, x) { rec_same(vf_c, c2, vf_ad, vf_re, vf_t0); }
    else { rec_del(vf_c, c2, vf_ad, vf_re, lcr.adds@, lcr.removes@, vf_t0, vf_y, x, l); }
  }
#loop 0 after
  proof {
    assert forall|a: NodeIndex, y: NodeIndex, s: NodeT::SourceEnum| #[trigger] fwd(self.n(), a, y, s) == (a != x && y != x && fwd(vf_n0, a, y, s)) by {
      assert(fwd(self.n(), a, y, s) == (fwd(vf_n1, a, y, s) && !(y == x && had(vf_all0, vf_it0.pos(), (a, s)))));
      if y == x && fwd(vf_n1, a, x, s) { assert(bk(vf_b1, x, a, s)); assert(vf_b1[x]@.contains((a, s))); assert(vf_all0.contains((a, s))); }
    }
    assert forall|a: NodeIndex, y: NodeIndex, s: NodeT::SourceEnum| fwd(self.n(), a, y, s) == #[trigger] bk(self.b(), y, a, s) by {
      assert(fwd(vf_n1, a, y, s) == bk(vf_b1, y, a, s));
    }
    assert(rm_step(vf_n0, self.n(), x));
    assert(inv(self.n(), self.b())) by {
      reveal(inv);
      assert forall|k: NodeIndex| #[trigger] self.n().contains_key(k) implies self.b().contains_key(k) by { assert(vf_n1.dom().contains(k)); assert(vf_n0.contains_key(k)); assert(vf_b0.contains_key(k)); }
    }
  }
@*/
/*@fn src/typed_graph.rs Graph::modify_node
#props C03 C05 C14 C15
#requires
  old(self).wf(), old(lcr).ok(old(self).n()), forall|v: &mut NodeT| f.requires((v,)),
#requires[T]
  old(self).n().contains_key(x),
  forall|v: &mut NodeT, y: NodeIndex, s: NodeT::SourceEnum| *v == old(self).n()[x] && f.ensures((v,), ()) && #[trigger] final(v).links().contains((y, s)) ==> old(self).b().contains_key(y),
#ensures
  final(self).wf(), final(self).ctx_id == old(self).ctx_id, final(self).nodes.dist() == old(self).nodes.dist(),
  mut_step(old(self).n(), final(self).n(), x, f),
  final(self).nodes.disp() == old(self).nodes.disp().insert(x, final(self).n()[x].disc()),
  final(lcr).rec(final(self).n(), old(lcr).base(old(self).n())), final(lcr).nodes@ == old(lcr).nodes@.insert(x),
#start
  let ghost vf_t0 = lcr.base(self.n());
  let ghost vf_n0 = self.n();
  let ghost vf_n1 = self.n().remove(x);
  let ghost vf_b0 = self.b();
  let ghost mut vf_b1 = self.b();
  proof { reveal(inv); }
#after_call remove_links 0
  proof { rec_unlink(vf_n0, old(lcr).adds@, old(lcr).removes@, lcr.adds@, lcr.removes@, vf_t0, x); }
#loop 0
  self.nodes == old(self).nodes, self.ctx_id == old(self).ctx_id,
  self.b().dom() == vf_b0.dom(),
  forall|c: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, t) == (bk(vf_b0, c, a, t) && !(a == x && had(vf_all0, vf_it0.pos(), (c, t)))),
#loop 0 begin
  let ghost vf_cur = vf_all0[vf_it0.pos() - 1]; let ghost (vf_y, vf_s) = vf_cur; let ghost vf_b = self.b();
  assert(self.n()[x].links().contains(vf_all0[vf_it0.pos() - 1]));
  assert(fwd(vf_n0, x, vf_y, vf_s)); assert(bk(vf_b0, vf_y, x, vf_s)); assert(vf_b0.dom().contains(vf_y)); assert(self.b().contains_key(vf_y));
#loop 0 end
  assert(vf_b.contains_key(vf_y) == vf_b.dom().contains(vf_y)); assert(self.b().dom() =~= vf_b.dom());
  assert forall|c: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, t) == (bk(vf_b0, c, a, t) && !(a == x && had(vf_all0, vf_it0.pos(), (c, t)))) by {
    assert(bk(self.b(), c, a, t) == (bk(vf_b, c, a, t) && !(a == x && (c, t) == vf_cur)));
    assert(had(vf_all0, vf_it0.pos(), (c, t)) == (had(vf_all0, (vf_it0.pos() - 1) as nat, (c, t)) || (c, t) == vf_all0[vf_it0.pos() - 1]));
  }
#loop 0 after
  proof {
    vf_b1 = self.b();
    assert forall|a: NodeIndex, y: NodeIndex, t: NodeT::SourceEnum| fwd(vf_n1, a, y, t) == #[trigger] bk(vf_b1, y, a, t) by {
      assert(fwd(vf_n0, a, y, t) == bk(vf_b0, y, a, t));
      if a == x && fwd(vf_n0, a, y, t) { assert(vf_n0[x].links().contains((y, t))); assert(vf_all0.contains((y, t))); assert(had(vf_all0, vf_it0.pos(), (y, t))); }
    }
  }
#after_call add_links 0
  proof { rec_relink(vf_n1, vf_ad, vf_re, lcr.adds@, lcr.removes@, vf_t0, x, self.n()[x]); assert(self.n() =~= vf_n1.insert(x, self.n()[x]));  }
#after_call mutate_with 0
  let ghost vf_ad = lcr.adds@; let ghost vf_re = lcr.removes@;
  let ghost vf_nodes = self.nodes;
#loop 1
  self.nodes == vf_nodes, self.ctx_id == old(self).ctx_id,
  self.b().dom() == vf_b0.dom(),
  forall|c: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, t) == (bk(vf_b1, c, a, t) || (a == x && had(vf_all1, vf_it1.pos(), (c, t)))),
#loop 1 begin
  let ghost vf_cur = vf_all1[vf_it1.pos() - 1]; let ghost (vf_y, vf_s) = vf_cur; let ghost vf_b = self.b();
  assert(self.n()[x].links().contains(vf_all1[vf_it1.pos() - 1]));
//[T]   assert(vf_b0.contains_key(vf_y)) by { let v = choose|v: &mut NodeT| *v == vf_n0[x] && *final(v) == self.n()[x] && #[trigger] f.ensures((v,), ()); assert(final(v).links().contains((vf_y, vf_s))); }
  assert(self.b().dom().contains(vf_y) == vf_b0.dom().contains(vf_y));
#loop 1 end
  assert(vf_b.contains_key(vf_y) == vf_b.dom().contains(vf_y)); assert(self.b().dom() =~= vf_b.dom());
  assert forall|c: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, t) == (bk(vf_b1, c, a, t) || (a == x && had(vf_all1, vf_it1.pos(), (c, t)))) by {
    assert(bk(self.b(), c, a, t) == (bk(vf_b, c, a, t) || (a == x && (c, t) == vf_cur)));
    assert(had(vf_all1, vf_it1.pos(), (c, t)) == (had(vf_all1, (vf_it1.pos() - 1) as nat, (c, t)) || (c, t) == vf_all1[vf_it1.pos() - 1]));
  }
#loop 1 after
  proof {
    assert forall|a: NodeIndex, y: NodeIndex, t: NodeT::SourceEnum| fwd(self.n(), a, y, t) == #[trigger] bk(self.b(), y, a, t) by {
      assert(fwd(vf_n1, a, y, t) == bk(vf_b1, y, a, t));
      assert(bk(self.b(), y, a, t) == (bk(vf_b1, y, a, t) || (a == x && had(vf_all1, vf_it1.pos(), (y, t)))));
      if a == x && fwd(self.n(), a, y, t) { assert(self.n()[x].links().contains((y, t))); assert(vf_all1.contains((y, t))); }
      if a == x && had(vf_all1, vf_it1.pos(), (y, t)) { let i = choose|i: int| 0 <= i < vf_it1.pos() && #[trigger] vf_all1[i] == (y, t); assert(self.n()[x].links().contains(vf_all1[i])); }
    }
    assert(inv(self.n(), self.b())) by {
      reveal(inv);
      assert forall|k: NodeIndex| #[trigger] self.n().contains_key(k) implies self.b().contains_key(k) by { assert(vf_n0.contains_key(k)); assert(vf_b0.dom().contains(k)); assert(self.b().dom().contains(k)); }
    }
  }
@*/
/*@fn src/typed_graph.rs Graph::update_node
#props C03 C05 C14 C15
#requires
  old(self).wf(), old(lcr).ok(old(self).n()), forall|v: NodeT| f.requires((v,)),
#requires[T]
  old(self).n().contains_key(x),
  forall|v: NodeT, y: NodeIndex, s: NodeT::SourceEnum| f.ensures((old(self).n()[x],), v) && (#[trigger] v.links().contains((y, s))) ==> old(self).b().contains_key(y),
#ensures
  final(self).wf(), final(self).ctx_id == old(self).ctx_id, final(self).nodes.dist() == old(self).nodes.dist(),
  upd_step(old(self).n(), final(self).n(), x, f),
  final(self).nodes.disp() == old(self).nodes.disp().insert(x, final(self).n()[x].disc()),
  final(lcr).rec(final(self).n(), old(lcr).base(old(self).n())), final(lcr).nodes@ == old(lcr).nodes@.insert(x),
#start
  let ghost vf_t0 = lcr.base(self.n());
  let ghost vf_n0 = self.n();
  let ghost vf_n1 = self.n().remove(x);
  let ghost vf_b0 = self.b();
  let ghost mut vf_b1 = self.b();
  proof { reveal(inv); }
#after_call remove_links 0
  proof { rec_unlink(vf_n0, old(lcr).adds@, old(lcr).removes@, lcr.adds@, lcr.removes@, vf_t0, x); }
#loop 0
  self.nodes == old(self).nodes, self.ctx_id == old(self).ctx_id,
  self.b().dom() == vf_b0.dom(),
  forall|c: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, t) == (bk(vf_b0, c, a, t) && !(a == x && had(vf_all0, vf_it0.pos(), (c, t)))),
#loop 0 begin
  let ghost vf_cur = vf_all0[vf_it0.pos() - 1]; let ghost (vf_y, vf_s) = vf_cur; let ghost vf_b = self.b();
  assert(self.n()[x].links().contains(vf_all0[vf_it0.pos() - 1]));
  assert(fwd(vf_n0, x, vf_y, vf_s)); assert(bk(vf_b0, vf_y, x, vf_s)); assert(vf_b0.dom().contains(vf_y)); assert(self.b().contains_key(vf_y));
#loop 0 end
  assert(vf_b.contains_key(vf_y) == vf_b.dom().contains(vf_y)); assert(self.b().dom() =~= vf_b.dom());
  assert forall|c: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, t) == (bk(vf_b0, c, a, t) && !(a == x && had(vf_all0, vf_it0.pos(), (c, t)))) by {
    assert(bk(self.b(), c, a, t) == (bk(vf_b, c, a, t) && !(a == x && (c, t) == vf_cur)));
    assert(had(vf_all0, vf_it0.pos(), (c, t)) == (had(vf_all0, (vf_it0.pos() - 1) as nat, (c, t)) || (c, t) == vf_all0[vf_it0.pos() - 1]));
  }
#loop 0 after
  proof {
    vf_b1 = self.b();
    assert forall|a: NodeIndex, y: NodeIndex, t: NodeT::SourceEnum| fwd(vf_n1, a, y, t) == #[trigger] bk(vf_b1, y, a, t) by {
      assert(fwd(vf_n0, a, y, t) == bk(vf_b0, y, a, t));
      if a == x && fwd(vf_n0, a, y, t) { assert(vf_n0[x].links().contains((y, t))); assert(vf_all0.contains((y, t))); assert(had(vf_all0, vf_it0.pos(), (y, t))); }
    }
  }
#after_call add_links 0
  proof { rec_relink(vf_n1, vf_ad, vf_re, lcr.adds@, lcr.removes@, vf_t0, x, self.n()[x]); assert(self.n() =~= vf_n1.insert(x, self.n()[x]));  }
#after_call update_with 0
  let ghost vf_ad = lcr.adds@; let ghost vf_re = lcr.removes@;
  let ghost vf_nodes = self.nodes;
#loop 1
  self.nodes == vf_nodes, self.ctx_id == old(self).ctx_id,
  self.b().dom() == vf_b0.dom(),
  forall|c: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, t) == (bk(vf_b1, c, a, t) || (a == x && had(vf_all1, vf_it1.pos(), (c, t)))),
#loop 1 begin
  let ghost vf_cur = vf_all1[vf_it1.pos() - 1]; let ghost (vf_y, vf_s) = vf_cur; let ghost vf_b = self.b();
  assert(self.n()[x].links().contains(vf_all1[vf_it1.pos() - 1]));
//[T]   assert(vf_b0.contains_key(vf_y)) by { assert(f.ensures((vf_n0[x],), self.n()[x])); }
  assert(self.b().dom().contains(vf_y) == vf_b0.dom().contains(vf_y));
#loop 1 end
  assert(vf_b.contains_key(vf_y) == vf_b.dom().contains(vf_y)); assert(self.b().dom() =~= vf_b.dom());
  assert forall|c: NodeIndex, a: NodeIndex, t: NodeT::SourceEnum| #[trigger] bk(self.b(), c, a, t) == (bk(vf_b1, c, a, t) || (a == x && had(vf_all1, vf_it1.pos(), (c, t)))) by {
    assert(bk(self.b(), c, a, t) == (bk(vf_b, c, a, t) || (a == x && (c, t) == vf_cur)));
    assert(had(vf_all1, vf_it1.pos(), (c, t)) == (had(vf_all1, (vf_it1.pos() - 1) as nat, (c, t)) || (c, t) == vf_all1[vf_it1.pos() - 1]));
  }
#loop 1 after
  proof {
    assert forall|a: NodeIndex, y: NodeIndex, t: NodeT::SourceEnum| fwd(self.n(), a, y, t) == #[trigger] bk(self.b(), y, a, t) by {
      assert(fwd(vf_n1, a, y, t) == bk(vf_b1, y, a, t));
      assert(bk(self.b(), y, a, t) == (bk(vf_b1, y, a, t) || (a == x && had(vf_all1, vf_it1.pos(), (y, t)))));
      if a == x && fwd(self.n(), a, y, t) { assert(self.n()[x].links().contains((y, t))); assert(vf_all1.contains((y, t))); }
      if a == x && had(vf_all1, vf_it1.pos(), (y, t)) { let i = choose|i: int| 0 <= i < vf_it1.pos() && #[trigger] vf_all1[i] == (y, t); assert(self.n()[x].links().contains(vf_all1[i])); }
    }
    assert(inv(self.n(), self.b())) by {
      reveal(inv);
      assert forall|k: NodeIndex| #[trigger] self.n().contains_key(k) implies self.b().contains_key(k) by { assert(vf_n0.contains_key(k)); assert(vf_b0.dom().contains(k)); assert(self.b().dom().contains(k)); }
    }
  }
@*/
/*@fn src/typed_graph.rs Graph::redirect_links
#props C02 C03 C05 C14 C15
#requires
  old(self).wf(), old(lcr).ok(old(self).n()), old_node != new_node,
#requires[T]
  old(self).b().contains_key(old_node),
#ensures
  final(self).wf(), final(self).ctx_id == old(self).ctx_id, final(self).nodes.dist() == old(self).nodes.dist(), final(self).nodes.disp() == old(self).nodes.disp(),
  mv_step(old(self).n(), final(self).n(), old_node, new_node),
  forall|k: NodeIndex| old(self).b().contains_key(k) ==> #[trigger] final(self).b().contains_key(k),
  final(lcr).rec(final(self).n(), old(lcr).base(old(self).n())), final(lcr).nodes@ == old(lcr).nodes@,
#start
  let ghost vf_t0 = lcr.base(self.n());
  let ghost vf_n0 = self.n();
  let ghost vf_b0 = self.b();
  proof { reveal(inv); }
#after_call or_default 0
  let ghost vf_fin = *final(new_link);
  let ghost vf_nl = new_link@;
  proof {
    assert forall|a: NodeIndex, s: NodeT::SourceEnum| #[trigger] vf_nl.contains((a, s)) == fwd(vf_n0, a, new_node, s) by {
      assert(fwd(vf_n0, a, new_node, s) == bk(vf_b0, new_node, a, s));
    }
  }
#loop 0
  *final(new_link) == vf_fin, seq_of_set(vf_b0[old_node]@, vf_all0), vf_b0.contains_key(old_node), old_node != new_node,
  forall|a: NodeIndex, s: NodeT::SourceEnum| #[trigger] vf_nl.contains((a, s)) == fwd(vf_n0, a, new_node, s),
  forall|a: NodeIndex, s: NodeT::SourceEnum| #[trigger] fwd(vf_n0, a, old_node, s) == vf_b0[old_node]@.contains((a, s)),
  forall|a: NodeIndex, s: NodeT::SourceEnum| #[trigger] new_link@.contains((a, s)) == (vf_nl.contains((a, s)) || (new_node.0 != 0 && had(vf_all0, vf_it0.pos(), (a, s)))),
  arena_wf(self.nodes), self.ctx_id == old(self).ctx_id, self.nodes.dist() == old(self).nodes.dist(), self.nodes.disp() == old(self).nodes.disp(),
  nodes_of(self.nodes).dom() == vf_n0.dom(), lcr.rec(nodes_of(self.nodes), vf_t0), lcr.nodes@ == old(lcr).nodes@,
  forall|a: NodeIndex| #[trigger] nodes_of(self.nodes).contains_key(a) ==> nodes_of(self.nodes)[a].data() == vf_n0[a].data() && nodes_of(self.nodes)[a].disc() == vf_n0[a].disc(),
  forall|a: NodeIndex, y: NodeIndex, s: NodeT::SourceEnum| #[trigger] fwd(nodes_of(self.nodes), a, y, s) == ((fwd(vf_n0, a, y, s) && !(y == old_node && had(vf_all0, vf_it0.pos(), (a, s)))) || (y == new_node && new_node.0 != 0 && had(vf_all0, vf_it0.pos(), (a, s)))),
#loop 0 begin
  let ghost vf_c = nodes_of(self.nodes); let ghost vf_ad = lcr.adds@; let ghost vf_re = lcr.removes@; let ghost vf_s = s; let ghost vf_l = NodeT::mirror(s); let ghost vf_y = y;
  let ghost vf_k = new_link@;
  proof {
    assert(vf_b0[old_node]@.contains(vf_all0[vf_it0.pos() - 1]));
    assert(fwd(vf_n0, y, old_node, s));
    assert(!had(vf_all0, (vf_it0.pos() - 1) as nat, (y, s)));
    assert(fwd(vf_c, y, old_node, s));
    assert(vf_c.contains_key(y));
    vf_c[y].law_links(old_node, s);
    assert(has_link(vf_c[y], vf_l, old_node));
  }
#loop 0 end
  proof {
    let c2 = nodes_of(self.nodes);
    let l = vf_l; let y = vf_y;
    mod_links(vf_c[y], c2[y], vf_s, old_node, new_node);
    assert(c2 =~= vf_c.insert(y, c2[y]));
    assert forall|a: NodeIndex, t: NodeT::SourceEnum| #[trigger] had(vf_all0, vf_it0.pos(), (a, t)) == (had(vf_all0, (vf_it0.pos() - 1) as nat, (a, t)) || (a, t) == vf_all0[vf_it0.pos() - 1]) by {
      assert(vf_all0[vf_it0.pos() - 1] == vf_all0[vf_it0.pos() - 1]);
    }
    assert forall|a: NodeIndex, k: NodeIndex, t: NodeT::SourceEnum| #[trigger] fwd(c2, a, k, t) == ((fwd(vf_n0, a, k, t) && !(k == old_node && had(vf_all0, vf_it0.pos(), (a, t)))) || (k == new_node && new_node.0 != 0 && had(vf_all0, vf_it0.pos(), (a, t)))) by {
      assert(had(vf_all0, vf_it0.pos(), (a, t)) == (had(vf_all0, (vf_it0.pos() - 1) as nat, (a, t)) || (a, t) == vf_all0[vf_it0.pos() - 1]));
      assert(fwd(vf_c, a, k, t) == ((fwd(vf_n0, a, k, t) && !(k == old_node && had(vf_all0, (vf_it0.pos() - 1) as nat, (a, t)))) || (k == new_node && new_node.0 != 0 && had(vf_all0, (vf_it0.pos() - 1) as nat, (a, t)))));
    }
    assert forall|a: NodeIndex, s: NodeT::SourceEnum| #[trigger] new_link@.contains((a, s)) == (vf_nl.contains((a, s)) || (new_node.0 != 0 && had(vf_all0, vf_it0.pos(), (a, s)))) by {
      assert(vf_k.contains((a, s)) == (vf_nl.contains((a, s)) || (new_node.0 != 0 && had(vf_all0, (vf_it0.pos() - 1) as nat, (a, s)))));
      assert(had(vf_all0, vf_it0.pos(), (a, s)) == (had(vf_all0, (vf_it0.pos() - 1) as nat, (a, s)) || (a, s) == vf_all0[vf_it0.pos() - 1]));
    }
    let add = new_node.0 != 0 && !has_link(vf_c[y], l, new_node);
    let del = !has_link(c2[y], l, old_node);
    assert forall|b: NodeIndex, c: NodeIndex, k: NodeT::LinkMirrorEnum| #[trigger] trip(c2, b, c, k) == ((trip(vf_c, b, c, k) || (add && (b, c, k) == (y, new_node, l))) && !(del && (b, c, k) == (y, old_node, l))) by { }
    rec_move(vf_c, c2, vf_ad, vf_re, lcr.adds@, lcr.removes@, vf_t0, (y, new_node, l), (y, old_node, l), add, del);
  }
#loop 0 after
  proof {
    let c2 = nodes_of(self.nodes);
    assert forall|a: NodeIndex, y: NodeIndex, s: NodeT::SourceEnum| #[trigger] fwd(c2, a, y, s) == ((y != old_node && fwd(vf_n0, a, y, s)) || (y == new_node && new_node.0 != 0 && fwd(vf_n0, a, old_node, s))) by {
      assert(fwd(vf_n0, a, old_node, s) == had(vf_all0, vf_it0.pos(), (a, s))) by { if fwd(vf_n0, a, old_node, s) { assert(vf_all0.contains((a, s))); } }
    }
    assert(mv_step(vf_n0, c2, old_node, new_node));
  }
#end
  proof {
    let c2 = self.n();
    assert(inv(c2, self.b())) by {
      reveal(inv);
      assert forall|k: NodeIndex| #[trigger] c2.contains_key(k) implies self.b().contains_key(k) by { assert(vf_n0.dom().contains(k)); assert(vf_n0.contains_key(k)); assert(vf_b0.contains_key(k)); }
      assert forall|a: NodeIndex, y: NodeIndex, s: NodeT::SourceEnum| fwd(c2, a, y, s) == #[trigger] bk(self.b(), y, a, s) by {
        assert(fwd(vf_n0, a, y, s) == bk(vf_b0, y, a, s));
        assert(fwd(c2, a, y, s) == ((y != old_node && fwd(vf_n0, a, y, s)) || (y == new_node && new_node.0 != 0 && fwd(vf_n0, a, old_node, s))));
      }
    }
  }
@*/
/*@fn src/typed_graph.rs Graph::redirect_links_vec
#props C02 C03 C05 C14 C15
#requires
  old(self).wf(), old(lcr).ok(old(self).n()), olds_unique(replacements@),
#requires[T]
  exists|rank: spec_fn(NodeIndex) -> nat| acyclic(replacements@, rank),
  forall|i: int| 0 <= i < replacements@.len() ==> old(self).b().contains_key((#[trigger] replacements@[i]).0),
#ensures
  final(self).wf(), final(self).ctx_id == old(self).ctx_id, final(self).nodes.dist() == old(self).nodes.dist(), final(self).nodes.disp() == old(self).nodes.disp(),
  redirected(old(self).n(), final(self).n(), replacements@),
  forall|k: NodeIndex| old(self).b().contains_key(k) ==> #[trigger] final(self).b().contains_key(k),
  final(lcr).rec(final(self).n(), old(lcr).base(old(self).n())), final(lcr).nodes@ == old(lcr).nodes@,
#index_map
#start
  let ghost vf_r = replacements@;
  let ghost vf_t0 = lcr.base(self.n());
  let ghost vf_n0 = self.n();
  let ghost mut vf_g: spec_fn(NodeIndex) -> NodeIndex = |y: NodeIndex| y;
  let ghost mut vf_f: spec_fn(NodeIndex) -> nat = |y: NodeIndex| 0nat;
  let ghost mut vf_k: spec_fn(NodeIndex) -> nat = |y: NodeIndex| 0nat;
  let ghost vf_top: spec_fn(NodeIndex) -> nat = choose|rank: spec_fn(NodeIndex) -> nat| acyclic(vf_r, rank);
#loop 0
  *self == *old(self), *lcr == *old(lcr), replacements@ == vf_r,
  forall|x: NodeIndex| #[trigger] fa@.contains_key(x) ==> fa@[x] == x,
  forall|i: int| 0 <= i < vf_it0.pos() ==> fa@.contains_key((#[trigger] vf_r[i]).0) && fa@.contains_key(vf_r[i].1),
#loop 1 before
  proof { uf_0(fa@, vf_r.take(0), vf_g, vf_f); assert(vf_f == vf_k); }
#loop 1
  *self == *old(self), *lcr == *old(lcr), replacements@ == vf_r,
  forall|i: int| 0 <= i < vf_r.len() ==> fa@.contains_key((#[trigger] vf_r[i]).0) && fa@.contains_key(vf_r[i].1),
  uf(fa@, vf_r.take(vf_it1.pos() as int), vf_g, vf_f), chains(vf_r.take(vf_it1.pos() as int), vf_g), acyclic(vf_r.take(vf_it1.pos() as int), vf_k),
//[T]   acyclic(vf_r, vf_top), forall|y: NodeIndex| vf_top(#[trigger] vf_g(y)) <= vf_top(y),
#loop 1 begin
  let ghost vf_p = vf_r.take(vf_it1.pos() - 1); let ghost vf_fa0 = fa@;
  assert(vf_r[vf_it1.pos() - 1] == (*old, *new));
  assert(vf_r.take(vf_it1.pos() as int) =~= vf_p.push((*old, *new)));
#loop 1 end
  proof {
    assert forall|i: int| 0 <= i < vf_p.len() implies (#[trigger] vf_p[i]).0 != *old by { assert(vf_r[i] == vf_p[i]); assert(vf_r[vf_it1.pos() - 1].0 == *old); }
    uf_step(vf_fa0, vf_p, vf_g, vf_f, vf_k, *old, *new);
    let g = vf_g; let f = vf_f; let k = vf_k;
    assert(fa@ =~= vf_fa0.insert(*old, x));
    vf_g = g_step(g, *old, x);
    vf_f = r_step(f, g, *old, x);
    vf_k = r_step(k, g, *old, *new);
//[T]     assert forall|y: NodeIndex| vf_top(#[trigger] vf_g(y)) <= vf_top(y) by { assert(vf_top(g(y)) <= vf_top(y)); assert(vf_top(g(*new)) <= vf_top(*new)); acyclic_at(vf_r, vf_top, vf_it1.pos() - 1); }
  }
#loop 2
  fa@ == vf_fa0, fa@.contains_key(x), vf_g(x) == vf_g(*new), uf(fa@, vf_p, vf_g, vf_f), chains(vf_p, vf_g),
#loop 2 decreases
  vf_f(x)
#loop 2 begin
  proof { uf_get(fa@, vf_p, vf_g, vf_f, x); }
#loop 2 after
  proof { uf_get(fa@, vf_p, vf_g, vf_f, x); chain_end(vf_p, vf_g, x); }
//[T]   proof { acyclic_at(vf_r, vf_top, vf_it1.pos() - 1); assert(vf_top(vf_g(*new)) <= vf_top(*new)); assert(vf_g(*new) == x); }
#loop 3 before
  proof { assert(vf_r.take(vf_r.len() as int) =~= vf_r); assert(moved(vf_n0, self.n(), vf_g, vf_r.take(0))) by { moved_0(vf_n0, vf_g, vf_r.take(0)); } }
#loop 3
  self.wf(), self.ctx_id == old(self).ctx_id, self.nodes.dist() == old(self).nodes.dist(), self.nodes.disp() == old(self).nodes.disp(), replacements@ == vf_r,
  forall|k: NodeIndex| old(self).b().contains_key(k) ==> #[trigger] self.b().contains_key(k),
  lcr.rec(self.n(), vf_t0), lcr.nodes@ == old(lcr).nodes@,
  forall|i: int| 0 <= i < vf_r.len() ==> fa@.contains_key((#[trigger] vf_r[i]).0) && fa@.contains_key(vf_r[i].1),
  uf(fa@, vf_r, vf_g, vf_f), chains(vf_r, vf_g), acyclic(vf_r, vf_k),
  moved(vf_n0, self.n(), vf_g, vf_r.take(vf_it3.pos() as int)),
#loop 3 begin
  let ghost vf_p = vf_r.take(vf_it3.pos() - 1); let ghost vf_n = self.n();
  assert(vf_r[vf_it3.pos() - 1] == (*old, *new));
  assert(vf_r.take(vf_it3.pos() as int) =~= vf_p.push((*old, *new)));
  proof { rec_base(self.n(), lcr.adds@, lcr.removes@, vf_t0); }
#loop 4
  fa@.contains_key(x), y == fa@[x], vf_g(x) == vf_g(*new), uf(fa@, vf_r, vf_g, vf_f), chains(vf_r, vf_g),
#loop 4 decreases
  vf_f(x)
#loop 4 begin
  proof { uf_get(fa@, vf_r, vf_g, vf_f, x); }
#loop 4 after
  proof { uf_get(fa@, vf_r, vf_g, vf_f, x); chain_end(vf_r, vf_g, x); chain_edge(vf_r, vf_g, vf_it3.pos() - 1); }
#after_call redirect_links 0
  proof {
    assert forall|z: NodeIndex| #[trigger] is_old(vf_p, z) implies is_old(vf_r, z) && z != *old by {
      let i = choose|i: int| 0 <= i < vf_p.len() && (#[trigger] vf_p[i]).0 == z; assert(vf_r[i].0 == z); assert(vf_r[vf_it3.pos() - 1].0 == *old);
    }
    moved_step(vf_n0, vf_n, self.n(), vf_g, vf_p, vf_r, *old, *new);
  }
#loop 5
  fa@.contains_key(x), vf_g(x) == y, uf(fa@, vf_r, vf_g, vf_f), chains(vf_r, vf_g), vf_g(y) == y, fa@.contains_key(y), fa@[y] == y,
  forall|i: int| 0 <= i < vf_r.len() ==> fa@.contains_key((#[trigger] vf_r[i]).0) && fa@.contains_key(vf_r[i].1),
#loop 5 begin
  let ghost vf_x = x; let ghost vf_fb = fa@;
  proof { uf_get(fa@, vf_r, vf_g, vf_f, x); chain_end(vf_r, vf_g, x); uf_set(fa@, vf_r, vf_g, vf_f, x); uf_get(fa@, vf_r, vf_g, vf_f, fa@[x]); }
#loop 5 end
  proof { assert(fa@ =~= vf_fb.insert(vf_x, y)); }
#loop 5 decreases
  vf_f(x)
#loop 3 after
  proof {
    assert(vf_r.take(vf_r.len() as int) =~= vf_r);
    moved_all(vf_n0, self.n(), vf_g, vf_k, vf_r);
  }
@*/
/*@fn src/typed_graph.rs Graph::apply_bidirectional_links
#props C04 C03 C05 C14 C15
#requires
  old(self).wf(), old(lcr).ok(old(self).n()), !old(self).n().contains_key(NodeIndex(0)),
#requires[T]
  bd_decidable(old(self).n(), old(lcr).base(old(self).n())),
#ensures
  final(self).wf(), final(self).ctx_id == old(self).ctx_id, final(self).nodes.dist() == old(self).nodes.dist(), final(self).nodes.disp() == old(self).nodes.disp(),
  bd_applied(old(self).n(), final(self).n(), old(lcr).base(old(self).n())),
  forall|k: NodeIndex| old(self).b().contains_key(k) ==> #[trigger] final(self).b().contains_key(k),
  final(lcr).rec(final(self).n(), old(lcr).base(old(self).n())), final(lcr).nodes@ == old(lcr).nodes@,
#start
  let ghost vf_t0 = lcr.base(self.n());
  let ghost vf_n0 = self.n();
#loop 0 before
  proof { bd_a0(vf_n0, vf_all0); }
#loop 0
  self.wf(), lcr.rec(self.n(), vf_t0), lcr.nodes@ == old(lcr).nodes@, self.ctx_id == old(self).ctx_id, self.nodes.dist() == old(self).nodes.dist(), self.nodes.disp() == old(self).nodes.disp(),
  forall|k: NodeIndex| old(self).b().contains_key(k) ==> #[trigger] self.b().contains_key(k),
  bd_a(vf_n0, self.n(), vf_all0, vf_it0.pos(), Seq::<NodeT::LinkMirrorEnum>::empty(), 0),
#loop 0 after
  proof {
    assert(seq_of_set(old(lcr).removes@, vf_all0));
    bd_a_all(vf_n0, self.n(), vf_all0, old(lcr).adds@, old(lcr).removes@, vf_t0);
    assert(self.n().dom() == vf_n0.dom()) by { reveal(bd_a); }
    assert(!self.n().dom().contains(NodeIndex(0)));
  }
#loop 2 before
  let ghost vf_m = self.n(); let ghost vf_adds = lcr.adds@;
  proof { bd_b0(vf_m, vf_t0, vf_all2); reveal(rec); }
#loop 2
  self.wf(), lcr.rec(self.n(), vf_t0), lcr.nodes@ == old(lcr).nodes@, self.ctx_id == old(self).ctx_id, self.nodes.dist() == old(self).nodes.dist(), self.nodes.disp() == old(self).nodes.disp(),
  forall|k: NodeIndex| old(self).b().contains_key(k) ==> #[trigger] self.b().contains_key(k),
  bd_b(vf_m, self.n(), vf_t0, vf_all2, vf_it2.pos()),
  forall|i: int| 0 <= i < vf_all2.len() ==> trip(vf_m, (#[trigger] vf_all2[i]).0, vf_all2[i].1, vf_all2[i].2) && !t0_has(vf_t0, vf_all2[i]),
#loop 2 begin
  let ghost vf_c = self.n(); let ghost vf_b = self.b(); let ghost vf_ad = lcr.adds@; let ghost vf_re = lcr.removes@;
  let ghost vf_x = x; let ghost vf_y = y; let ghost vf_l = l;
  proof { reveal(bd_b); bd_b_next(vf_m, vf_c, vf_t0, vf_all2, (vf_it2.pos() - 1) as nat); assert(trip(vf_m, x, y, l)); assert(vf_c.dom() == vf_m.dom()); assert(vf_c.contains_key(x) ==> x.0 != 0) by { if x.0 == 0 { assert(x == NodeIndex(0)); } } }
#after_call match_bd_link_group 1
  assert forall|q: NodeT::LinkMirrorEnum| #[trigger] partner(vf_m, y, l, q) == bds@.contains(q) by { }
#loop 3
  vf_acc3 == (exists|i: int| 0 <= i < vf_it3.pos() && has_link(*node, *#[trigger] vf_all3[i], x)),
#loop 3 begin
  let ghost vf_was = vf_acc3;
#loop 3 end
  proof { assert(has_link(*node, *vf_all3[vf_it3.pos() - 1], x) ==> vf_acc3); }
#loop 3 after
  proof {
    assert(vf_acc3 == linked_back(vf_m, vf_c, x, y, l)) by {
      if vf_acc3 { let i = choose|i: int| 0 <= i < vf_it3.pos() && has_link(*node, *#[trigger] vf_all3[i], x); assert(bds@.contains(bds@[i])); assert(trip(vf_c, y, x, bds@[i])); }
      if linked_back(vf_m, vf_c, x, y, l) {
        let q = choose|q: NodeT::LinkMirrorEnum| partner(vf_m, y, l, q) && #[trigger] trip(vf_c, y, x, q);
        assert(bds@.contains(q)); let i = choose|i: int| 0 <= i < bds@.len() && bds@[i] == q; assert(*vf_all3[i] == q); assert(has_link(*node, *vf_all3[i], x));
      }
    }
//[T]     assert(bd_choice(vf_m, vf_t0));
//[T]     if !vf_acc3 && bds@.len() > 1 {
//[T]       assert(bds@.contains(bds@[0])); assert(bds@.contains(bds@[1])); assert(partner(vf_m, y, l, bds@[0])); assert(partner(vf_m, y, l, bds@[1]));
//[T]       assert(!t0_has(vf_t0, vf_all2[vf_it2.pos() - 1]));
//[T]       assert(linked_back(vf_m, vf_m, x, y, l));
//[T]       let q = choose|q: NodeT::LinkMirrorEnum| partner(vf_m, y, l, q) && #[trigger] trip(vf_m, y, x, q);
//[T]       let t = trip_of(vf_m, y, x, q); assert(fwd(vf_c, y, x, t)) by { reveal(bd_b); } trip_is(vf_c, y, x, t);
//[T]       assert(false);
//[T]     }
  }
#before_call first 0
  proof {
    let q = bds@[0];
    assert(bds@.contains(q)); assert(partner(vf_m, y, l, q)); assert(bd_of::<NodeT>(l).contains(q)); bd_field::<NodeT>(l, q);
    assert forall|p: NodeT::LinkMirrorEnum| #[trigger] partner(vf_m, y, l, p) implies p == q by { assert(bds@.contains(p)); }
    assert(!trip(vf_c, y, x, q));
    if !NodeT::is_vec(q) { NodeT::law_mirror(q, NodeT::source(q)); if fwd(vf_c, y, x, NodeT::source(q)) { trip_is(vf_c, y, x, NodeT::source(q)); } }
    assert(wanted(vf_m, vf_t0, y, x, q)) by { assert(trip(vf_m, x, y, l)); assert(!t0_has(vf_t0, vf_all2[vf_it2.pos() - 1])); }
//[T]     bd_free(vf_n0, vf_m, vf_c, vf_t0, vf_all2, (vf_it2.pos() - 1) as nat, q);
//[T]     assert(bd_of::<NodeT>(l).contains(q)); assert(!NodeT::is_vec(q));
//[T]     assert forall|z: NodeIndex| #[trigger] vf_c[y].links().contains((z, NodeT::source(q))) && NodeT::single(NodeT::source(q)) implies z == x by { assert(fwd(vf_c, y, z, NodeT::source(q))); }
  }
#after_call add_link 1
  proof { add_link_step(vf_c, self.n(), vf_b, self.b(), vf_ad, vf_re, lcr.adds@, lcr.removes@, vf_t0, y, x, *link); bd_b_add(vf_m, vf_c, self.n(), vf_t0, vf_all2, (vf_it2.pos() - 1) as nat, *link); }
#loop 2 after
  proof {
    bd_b_all(vf_m, self.n(), vf_t0, vf_all2, vf_adds);
    assert(bd_applied(vf_n0, self.n(), vf_t0)) by { reveal(bd_applied); }
  }
#loop 0 begin
  proof { bd_a_next(vf_n0, self.n(), vf_all0, (vf_it0.pos() - 1) as nat); }
#loop 1
  self.wf(), lcr.rec(self.n(), vf_t0), lcr.nodes@ == old(lcr).nodes@, self.ctx_id == old(self).ctx_id, self.nodes.dist() == old(self).nodes.dist(), self.nodes.disp() == old(self).nodes.disp(),
  forall|k: NodeIndex| old(self).b().contains_key(k) ==> #[trigger] self.b().contains_key(k),
  bd_a(vf_n0, self.n(), vf_all0, (vf_it0.pos() - 1) as nat, vf_all1, vf_it1.pos()),
#loop 1 after
  proof { bd_a_done(vf_n0, self.n(), vf_all0, (vf_it0.pos() - 1) as nat, vf_all1); }
#loop 1 begin
  let ghost vf_c = self.n(); let ghost vf_b = self.b(); let ghost vf_ad = lcr.adds@; let ghost vf_re = lcr.removes@;
  proof { reveal(bd_a); assert(vf_all1.contains(link)); assert(vf_c.dom() == vf_n0.dom()); assert(self.b().contains_key(x)) by { reveal(inv); assert(vf_c.contains_key(x)); } assert(x.0 != 0) by { if x.0 == 0 { assert(x == NodeIndex(0)); } } }
#loop 1 end
  proof {
    let c2 = self.n();
    if fwd(vf_c, y, x, NodeT::source(link)) {
      del_link(vf_c, c2, vf_b, self.b(), vf_ad, vf_re, lcr.adds@, lcr.removes@, vf_t0, y, x, link);
    } else {
      same_links(vf_c, c2, vf_b, vf_ad, vf_re, vf_t0, y);
      not_linked(vf_c, y, x, link);
    }
    bd_a_step(vf_n0, vf_c, c2, vf_all0, (vf_it0.pos() - 1) as nat, vf_all1, (vf_it1.pos() - 1) as nat);
  }
@*/
}
pub open spec fn had<V>(s: Seq<V>, k: nat, a: V) -> bool { exists|i: int| 0 <= i < k && #[trigger] s[i] == a }
pub open spec fn seen<V>(s: Seq<(NodeIndex, V)>, k: nat, a: NodeIndex) -> bool { exists|i: int| 0 <= i < k && (#[trigger] s[i]).0 == a }
/// C03: a mutation closure ran once on the node at x
#[verifier::prophetic]
pub open spec fn mut_step<N: NodeSpec, F: FnOnce(&mut N)>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, x: NodeIndex, f: F) -> bool {
  &&& n.contains_key(x) && n2 == n.insert(x, n2[x])
  &&& exists|v: &mut N| *v == n[x] && *final(v) == n2[x] && #[trigger] f.ensures((v,), ())
}
pub open spec fn upd_step<N: NodeSpec, F: FnOnce(N) -> N>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, x: NodeIndex, f: F) -> bool {
  &&& n.contains_key(x) && n2 == n.insert(x, n2[x])
  &&& f.ensures((n[x],), n2[x])
}

// ---- C02: chains of redirections
pub open spec fn is_old(r: Seq<(NodeIndex, NodeIndex)>, y: NodeIndex) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == y }
pub open spec fn olds_unique(r: Seq<(NodeIndex, NodeIndex)>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0 }
/// no chain of redirections runs in a circle
#[verifier::opaque]
pub open spec fn acyclic(r: Seq<(NodeIndex, NodeIndex)>, rank: spec_fn(NodeIndex) -> nat) -> bool {
  forall|i: int| 0 <= i < r.len() ==> rank((#[trigger] r[i]).1) < rank(r[i].0)
}
/// g(y) is the end of the chain of redirections starting at y
#[verifier::opaque]
pub open spec fn chains(r: Seq<(NodeIndex, NodeIndex)>, g: spec_fn(NodeIndex) -> NodeIndex) -> bool {
  &&& forall|y: NodeIndex| !is_old(r, y) ==> #[trigger] g(y) == y
  &&& forall|i: int| 0 <= i < r.len() ==> g((#[trigger] r[i]).0) == g(r[i].1)
  &&& forall|y: NodeIndex| !is_old(r, #[trigger] g(y))
}
/// every link leads to the end of its chain, nothing else changes
#[verifier::opaque]
pub open spec fn redirected<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, r: Seq<(NodeIndex, NodeIndex)>) -> bool {
  exists|g: spec_fn(NodeIndex) -> NodeIndex, rank: spec_fn(NodeIndex) -> nat| #[trigger] chains(r, g) && #[trigger] acyclic(r, rank) && retargeted(n, n2, g)
}
#[verifier::opaque]
pub open spec fn retargeted<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, g: spec_fn(NodeIndex) -> NodeIndex) -> bool {
  &&& n2.dom() == n.dom()
  &&& forall|a: NodeIndex| #[trigger] n2.contains_key(a) ==> n2[a].data() == n[a].data() && n2[a].disc() == n[a].disc()
  &&& forall|a: NodeIndex, e: NodeIndex, s: N::SourceEnum| #[trigger] fwd(n2, a, e, s) == (e.0 != 0 && exists|y: NodeIndex| #[trigger] fwd(n, a, y, s) && g(y) == e)
}
/// the end of a chain is unique
pub proof fn chains_unique(r: Seq<(NodeIndex, NodeIndex)>, g: spec_fn(NodeIndex) -> NodeIndex, h: spec_fn(NodeIndex) -> NodeIndex, rank: spec_fn(NodeIndex) -> nat, y: NodeIndex)
  requires chains(r, g), chains(r, h), acyclic(r, rank)
  ensures g(y) == h(y)
  decreases rank(y)
{
  reveal(chains); reveal(acyclic);
  if is_old(r, y) {
    let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == y;
    chains_unique(r, g, h, rank, r[i].1);
  }
}
/// the union-find table fa for the redirections r
#[verifier::opaque]
pub open spec fn uf(fa: IMap<NodeIndex, NodeIndex>, r: Seq<(NodeIndex, NodeIndex)>, g: spec_fn(NodeIndex) -> NodeIndex, f: spec_fn(NodeIndex) -> nat) -> bool {
  &&& forall|x: NodeIndex| #[trigger] fa.contains_key(x) ==> fa.contains_key(fa[x]) && g(fa[x]) == g(x) && ((fa[x] == x) == !is_old(r, x)) && (fa[x] != x ==> f(fa[x]) < f(x)) && f(g(x)) <= f(x)
}
pub proof fn uf_0(fa: IMap<NodeIndex, NodeIndex>, r: Seq<(NodeIndex, NodeIndex)>, g: spec_fn(NodeIndex) -> NodeIndex, f: spec_fn(NodeIndex) -> nat)
  requires r.len() == 0, forall|x: NodeIndex| #[trigger] fa.contains_key(x) ==> fa[x] == x, forall|x: NodeIndex| #[trigger] g(x) == x
  ensures uf(fa, r, g, f), chains(r, g), acyclic(r, f)
{ reveal(uf); reveal(chains); reveal(acyclic); }
pub proof fn uf_get(fa: IMap<NodeIndex, NodeIndex>, r: Seq<(NodeIndex, NodeIndex)>, g: spec_fn(NodeIndex) -> NodeIndex, f: spec_fn(NodeIndex) -> nat, x: NodeIndex)
  requires uf(fa, r, g, f), fa.contains_key(x)
  ensures fa.contains_key(fa[x]) && g(fa[x]) == g(x) && ((fa[x] == x) == !is_old(r, x)) && (fa[x] != x ==> f(fa[x]) < f(x)) && f(g(x)) <= f(x)
{ reveal(uf); }
pub proof fn uf_set(fa: IMap<NodeIndex, NodeIndex>, r: Seq<(NodeIndex, NodeIndex)>, g: spec_fn(NodeIndex) -> NodeIndex, f: spec_fn(NodeIndex) -> nat, x: NodeIndex)
  requires uf(fa, r, g, f), chains(r, g), fa.contains_key(x), fa.contains_key(g(x)), fa[x] != x
  ensures uf(fa.insert(x, g(x)), r, g, f)
{ reveal(uf); reveal(chains); assert(fa.contains_key(fa[x])); assert(g(g(x)) == g(x)); assert(!is_old(r, g(x))); assert(f(g(fa[x])) <= f(fa[x])); }
pub proof fn acyclic_at(r: Seq<(NodeIndex, NodeIndex)>, rank: spec_fn(NodeIndex) -> nat, i: int)
  requires acyclic(r, rank), 0 <= i < r.len()
  ensures rank(r[i].1) < rank(r[i].0)
{ reveal(acyclic); }
pub proof fn chain_end(r: Seq<(NodeIndex, NodeIndex)>, g: spec_fn(NodeIndex) -> NodeIndex, y: NodeIndex)
  requires chains(r, g)
  ensures !is_old(r, g(y)), g(g(y)) == g(y), !is_old(r, y) ==> g(y) == y
{ reveal(chains); }
pub proof fn chain_edge(r: Seq<(NodeIndex, NodeIndex)>, g: spec_fn(NodeIndex) -> NodeIndex, i: int)
  requires chains(r, g), 0 <= i < r.len()
  ensures g(r[i].0) == g(r[i].1), is_old(r, r[i].0)
{ reveal(chains); assert(r[i].0 == r[i].0); }
pub open spec fn g_step(g: spec_fn(NodeIndex) -> NodeIndex, old: NodeIndex, x: NodeIndex) -> spec_fn(NodeIndex) -> NodeIndex {
  |y: NodeIndex| if g(y) == old { x } else { g(y) }
}
pub open spec fn r_step(f: spec_fn(NodeIndex) -> nat, g: spec_fn(NodeIndex) -> NodeIndex, old: NodeIndex, x: NodeIndex) -> spec_fn(NodeIndex) -> nat {
  |y: NodeIndex| if g(y) == old { f(y) + 1 + f(x) } else { f(y) }
}
pub proof fn uf_step(fa: IMap<NodeIndex, NodeIndex>, r: Seq<(NodeIndex, NodeIndex)>, g: spec_fn(NodeIndex) -> NodeIndex, f: spec_fn(NodeIndex) -> nat, k: spec_fn(NodeIndex) -> nat, old: NodeIndex, new: NodeIndex)
  requires
    uf(fa, r, g, f), chains(r, g), acyclic(r, k), !is_old(r, old), g(new) != old, fa.contains_key(old), fa.contains_key(new), fa.contains_key(g(new)),
  ensures
    uf(fa.insert(old, g(new)), r.push((old, new)), g_step(g, old, g(new)), r_step(f, g, old, g(new))),
    chains(r.push((old, new)), g_step(g, old, g(new))),
    acyclic(r.push((old, new)), r_step(k, g, old, new)),
{
  reveal(chains); reveal(acyclic); reveal(uf);
  let x = g(new);
  let r2 = r.push((old, new));
  let g2 = g_step(g, old, x);
  assert(g(old) == old);
  assert(!is_old(r, x)); assert(g(x) == x);
  assert forall|y: NodeIndex| #[trigger] is_old(r2, y) == (is_old(r, y) || y == old) by {
    if is_old(r, y) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == y; assert(r2[i].0 == y); }
    if is_old(r2, y) && y != old { let i = choose|i: int| 0 <= i < r2.len() && (#[trigger] r2[i]).0 == y; assert(r[i].0 == y); }
    assert(r2[r.len() as int].0 == old);
  }
  assert forall|i: int| 0 <= i < r2.len() implies g2((#[trigger] r2[i]).0) == g2(r2[i].1) by {
    if i < r.len() { assert(r2[i] == r[i]); assert(g(r[i].0) == g(r[i].1)); }
  }
  assert forall|y: NodeIndex| !is_old(r2, y) implies #[trigger] g2(y) == y by { assert(g(y) == y); }
  assert forall|y: NodeIndex| !is_old(r2, #[trigger] g2(y)) by { assert(!is_old(r, g(y))); }
  let k2 = r_step(k, g, old, new);
  assert forall|i: int| 0 <= i < r2.len() implies k2((#[trigger] r2[i]).1) < k2(r2[i].0) by {
    if i < r.len() { assert(r2[i] == r[i]); assert(g(r[i].0) == g(r[i].1)); assert(k(r[i].1) < k(r[i].0)); }
  }
  let fa2 = fa.insert(old, x); let f2 = r_step(f, g, old, x);
  assert forall|y: NodeIndex| #[trigger] fa2.contains_key(y) implies fa2.contains_key(fa2[y]) && g2(fa2[y]) == g2(y) && ((fa2[y] == y) == !is_old(r2, y)) && (fa2[y] != y ==> f2(fa2[y]) < f2(y)) && f2(g2(y)) <= f2(y) by {
    assert(fa.contains_key(y)); assert(fa.contains_key(x));
    if y != old { assert(fa2[y] == fa[y]); assert(fa.contains_key(fa[y])); }
  }
}
/// the redirections p of r are carried out
#[verifier::opaque]
pub open spec fn moved<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, g: spec_fn(NodeIndex) -> NodeIndex, p: Seq<(NodeIndex, NodeIndex)>) -> bool {
  &&& n2.dom() == n.dom()
  &&& forall|a: NodeIndex| #[trigger] n2.contains_key(a) ==> n2[a].data() == n[a].data() && n2[a].disc() == n[a].disc()
  &&& forall|a: NodeIndex, e: NodeIndex, s: N::SourceEnum| #[trigger] fwd(n2, a, e, s) == ((!is_old(p, e) && fwd(n, a, e, s)) || (e.0 != 0 && exists|y: NodeIndex| #[trigger] fwd(n, a, y, s) && is_old(p, y) && g(y) == e))
}
pub proof fn moved_0<N: NodeSpec>(n: IMap<NodeIndex, N>, g: spec_fn(NodeIndex) -> NodeIndex, p: Seq<(NodeIndex, NodeIndex)>)
  requires p.len() == 0
  ensures moved(n, n, g, p)
{ reveal(moved); }
pub proof fn moved_step<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, m2: IMap<NodeIndex, N>, g: spec_fn(NodeIndex) -> NodeIndex, p: Seq<(NodeIndex, NodeIndex)>, r: Seq<(NodeIndex, NodeIndex)>, old: NodeIndex, new: NodeIndex)
  requires
    moved(n, m, g, p), mv_step(m, m2, old, g(old)), chains(r, g), is_old(r, old), !is_old(p, old),
    forall|y: NodeIndex| #[trigger] is_old(p, y) ==> is_old(r, y),
  ensures moved(n, m2, g, p.push((old, new)))
{
  reveal(chains); reveal(moved);
  let p2 = p.push((old, new));
  assert forall|y: NodeIndex| #[trigger] is_old(p2, y) == (is_old(p, y) || y == old) by {
    if is_old(p, y) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == y; assert(p2[i].0 == y); }
    if is_old(p2, y) && y != old { let i = choose|i: int| 0 <= i < p2.len() && (#[trigger] p2[i]).0 == y; assert(p[i].0 == y); }
    assert(p2[p.len() as int].0 == old);
  }
  assert forall|a: NodeIndex| #[trigger] m2.contains_key(a) implies m2[a].data() == n[a].data() && m2[a].disc() == n[a].disc() by { assert(m2.dom().contains(a)); assert(m.contains_key(a)); }
  assert forall|a: NodeIndex, e: NodeIndex, s: N::SourceEnum| #[trigger] fwd(m2, a, e, s) == ((!is_old(p2, e) && fwd(n, a, e, s)) || (e.0 != 0 && exists|y: NodeIndex| #[trigger] fwd(n, a, y, s) && is_old(p2, y) && g(y) == e)) by {
    assert(fwd(m2, a, e, s) == ((e != old && fwd(m, a, e, s)) || (e == g(old) && e.0 != 0 && fwd(m, a, old, s))));
    // nothing was moved to old: it is itself redirected
    assert forall|y: NodeIndex| #[trigger] g(y) != old by { assert(!is_old(r, g(y))); }
    assert(fwd(m, a, old, s) == fwd(n, a, old, s));
    if fwd(n, a, old, s) && e == g(old) && e.0 != 0 { assert(is_old(p2, old)); }
    if exists|y: NodeIndex| #[trigger] fwd(n, a, y, s) && is_old(p2, y) && g(y) == e {
      let y = choose|y: NodeIndex| #[trigger] fwd(n, a, y, s) && is_old(p2, y) && g(y) == e;
      assert(is_old(p, y) || y == old);
      assert(e != old);
    }
  }
}
pub proof fn moved_all<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, g: spec_fn(NodeIndex) -> NodeIndex, rank: spec_fn(NodeIndex) -> nat, r: Seq<(NodeIndex, NodeIndex)>)
  requires moved(n, n2, g, r), chains(r, g), acyclic(r, rank)
  ensures redirected(n, n2, r)
{
  reveal(chains); reveal(moved); reveal(redirected); reveal(retargeted);
  assert forall|a: NodeIndex, e: NodeIndex, s: N::SourceEnum| #[trigger] fwd(n2, a, e, s) == (e.0 != 0 && exists|y: NodeIndex| #[trigger] fwd(n, a, y, s) && g(y) == e) by {
    if !is_old(r, e) && fwd(n, a, e, s) { n[a].law_links(e, s); assert(g(e) == e); }
    if e.0 != 0 && exists|y: NodeIndex| #[trigger] fwd(n, a, y, s) && g(y) == e {
      let y = choose|y: NodeIndex| #[trigger] fwd(n, a, y, s) && g(y) == e;
      if !is_old(r, y) { assert(g(y) == y); }
    }
  }
  assert(retargeted(n, n2, g));
}

// ---- C04: bidirectional links
/// field q of node y is a declared partner of field l of a node linking to y
pub open spec fn partner<N: NodeSpec>(n: IMap<NodeIndex, N>, y: NodeIndex, l: N::LinkMirrorEnum, q: N::LinkMirrorEnum) -> bool {
  bd_of::<N>(l).contains(q) && N::owner(q) == n[y].disc()
}
pub open spec fn same_shape<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>) -> bool {
  &&& n2.dom() == n.dom()
  &&& forall|a: NodeIndex| #[trigger] n2.contains_key(a) ==> n2[a].data() == n[a].data() && n2[a].disc() == n[a].disc()
}
/// y linked back to x through q, and x does not link to y any more
pub open spec fn cut<N: NodeSpec>(n: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, y: NodeIndex, x: NodeIndex, q: N::LinkMirrorEnum) -> bool {
  n.contains_key(x) && n.contains_key(y) && exists|l: N::LinkMirrorEnum| #[trigger] t0.contains((x, y, l)) && !trip(n, x, y, l) && partner(n, y, l, q)
}
#[verifier::opaque]
pub open spec fn bd_cut<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, t0: ISet<Trip<N>>) -> bool {
  &&& same_shape(n, m)
  &&& forall|a: NodeIndex, b: NodeIndex, s: N::SourceEnum| #[trigger] fwd(m, a, b, s) == (fwd(n, a, b, s) && !cut(n, t0, a, b, N::mirror(s)))
}
/// x newly links to y through l, whose only partner at y is q
pub open spec fn wanted<N: NodeSpec>(m: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, y: NodeIndex, x: NodeIndex, q: N::LinkMirrorEnum) -> bool {
  m.contains_key(x) && m.contains_key(y) && exists|l: N::LinkMirrorEnum| #[trigger] trip(m, x, y, l) && !t0.contains((x, y, l)) && partner(m, y, l, q) && forall|p: N::LinkMirrorEnum| #[trigger] partner(m, y, l, p) ==> p == q
}
pub open spec fn linked_back<N: NodeSpec>(m: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum) -> bool {
  exists|q: N::LinkMirrorEnum| partner(m, y, l, q) && #[trigger] trip(n2, y, x, q)
}
#[verifier::opaque]
pub open spec fn bd_add<N: NodeSpec>(m: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, t0: ISet<Trip<N>>) -> bool {
  &&& same_shape(m, n2)
  &&& forall|a: NodeIndex, b: NodeIndex, s: N::SourceEnum| fwd(m, a, b, s) ==> #[trigger] fwd(n2, a, b, s)
  &&& forall|a: NodeIndex, b: NodeIndex, s: N::SourceEnum| #[trigger] fwd(n2, a, b, s) && !fwd(m, a, b, s) ==> wanted(m, t0, a, b, N::mirror(s)) && !N::is_vec(N::mirror(s))
  &&& forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum, q: N::LinkMirrorEnum| #![trigger trip(m, x, y, l), partner(m, y, l, q)] trip(m, x, y, l) && !t0.contains((x, y, l)) && m.contains_key(y) && partner(m, y, l, q) ==> linked_back(m, n2, x, y, l)
}
/// the partners of links that went away go away, the partners of new links appear
#[verifier::opaque]
pub open spec fn bd_applied<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, t0: ISet<Trip<N>>) -> bool {
  exists|m: IMap<NodeIndex, N>| #[trigger] bd_cut(n, m, t0) && bd_add(m, n2, t0)
}
/// every needed partner is determined and its field is free
pub open spec fn bd_decidable<N: NodeSpec>(n: IMap<NodeIndex, N>, t0: ISet<Trip<N>>) -> bool {
  &&& forall|l: N::LinkMirrorEnum, q: N::LinkMirrorEnum| #[trigger] bd_of::<N>(l).contains(q) ==> !N::is_vec(q)
  &&& forall|m: IMap<NodeIndex, N>| #[trigger] bd_cut(n, m, t0) ==> bd_choice(m, t0)
}
pub open spec fn bd_choice<N: NodeSpec>(m: IMap<NodeIndex, N>, t0: ISet<Trip<N>>) -> bool {
  &&& forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum, q: N::LinkMirrorEnum, p: N::LinkMirrorEnum| #![trigger trip(m, x, y, l), partner(m, y, l, q), partner(m, y, l, p)]
    trip(m, x, y, l) && !t0.contains((x, y, l)) && m.contains_key(y) && partner(m, y, l, q) && partner(m, y, l, p) ==> p == q || linked_back(m, m, x, y, l)
  &&& forall|y: NodeIndex, x: NodeIndex, z: NodeIndex, q: N::LinkMirrorEnum| #![trigger wanted(m, t0, y, x, q), wanted(m, t0, y, z, q)] N::single(N::source(q)) && wanted(m, t0, y, x, q) && wanted(m, t0, y, z, q) ==> x == z
  &&& forall|y: NodeIndex, x: NodeIndex, z: NodeIndex, q: N::LinkMirrorEnum| #![trigger wanted(m, t0, y, x, q), trip(m, y, z, q)] N::single(N::source(q)) && wanted(m, t0, y, x, q) && trip(m, y, z, q) ==> x == z
}
pub open spec fn cut_k<N: NodeSpec>(n: IMap<NodeIndex, N>, s: Seq<Trip<N>>, k: nat, y: NodeIndex, x: NodeIndex, q: N::LinkMirrorEnum) -> bool {
  n.contains_key(x) && n.contains_key(y) && exists|i: int| 0 <= i < k && (#[trigger] s[i]).0 == x && s[i].1 == y && partner(n, y, s[i].2, q)
}
/// the first k removed links are handled, and of the next one the first j partners in bds
#[verifier::opaque]
pub open spec fn bd_a<N: NodeSpec>(n: IMap<NodeIndex, N>, c: IMap<NodeIndex, N>, s: Seq<Trip<N>>, k: nat, bds: Seq<N::LinkMirrorEnum>, j: nat) -> bool {
  &&& same_shape(n, c)
  &&& forall|a: NodeIndex, b: NodeIndex, t: N::SourceEnum| #[trigger] fwd(c, a, b, t) == (fwd(n, a, b, t) && !cut_k(n, s, k, a, b, N::mirror(t)) && !(j > 0 && a == s[k as int].1 && b == s[k as int].0 && had(bds, j, N::mirror(t))))
}
pub proof fn bd_a0<N: NodeSpec>(n: IMap<NodeIndex, N>, s: Seq<Trip<N>>)
  ensures bd_a(n, n, s, 0, Seq::<N::LinkMirrorEnum>::empty(), 0)
{ reveal(bd_a); }
/// nothing to do, or the start of the inner loop
pub proof fn bd_a_next<N: NodeSpec>(n: IMap<NodeIndex, N>, c: IMap<NodeIndex, N>, s: Seq<Trip<N>>, k: nat)
  requires bd_a(n, c, s, k, Seq::<N::LinkMirrorEnum>::empty(), 0), k < s.len()
  ensures
    !(n.contains_key(s[k as int].0) && n.contains_key(s[k as int].1)) ==> bd_a(n, c, s, k + 1, Seq::<N::LinkMirrorEnum>::empty(), 0),
    forall|bds: Seq<N::LinkMirrorEnum>| #[trigger] bd_a(n, c, s, k, bds, 0),
    same_shape(n, c),
{
  reveal(bd_a);
  if !(n.contains_key(s[k as int].0) && n.contains_key(s[k as int].1)) {
    assert forall|a: NodeIndex, b: NodeIndex, q: N::LinkMirrorEnum| #[trigger] cut_k(n, s, k + 1, a, b, q) == cut_k(n, s, k, a, b, q) by {
      if cut_k(n, s, k + 1, a, b, q) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] s[i]).0 == b && s[i].1 == a && partner(n, a, s[i].2, q); assert(i < k); }
    }
  }
}
pub proof fn bd_a_done<N: NodeSpec>(n: IMap<NodeIndex, N>, c: IMap<NodeIndex, N>, s: Seq<Trip<N>>, k: nat, bds: Seq<N::LinkMirrorEnum>)
  requires
    bd_a(n, c, s, k, bds, bds.len()), k < s.len(), n.contains_key(s[k as int].0), n.contains_key(s[k as int].1),
    forall|q: N::LinkMirrorEnum| #[trigger] bds.contains(q) == partner(n, s[k as int].1, s[k as int].2, q),
  ensures bd_a(n, c, s, k + 1, Seq::<N::LinkMirrorEnum>::empty(), 0)
{
  reveal(bd_a);
  let p = s[k as int];
  assert forall|a: NodeIndex, b: NodeIndex, q: N::LinkMirrorEnum| #[trigger] cut_k(n, s, k + 1, a, b, q) == (cut_k(n, s, k, a, b, q) || (a == p.1 && b == p.0 && had(bds, bds.len(), q))) by {
    assert(had(bds, bds.len(), q) == bds.contains(q)) by { if bds.contains(q) { let i = choose|i: int| 0 <= i < bds.len() && bds[i] == q; assert(bds[i] == q); } }
    if cut_k(n, s, k + 1, a, b, q) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] s[i]).0 == b && s[i].1 == a && partner(n, a, s[i].2, q); if i == k { } else { assert(cut_k(n, s, k, a, b, q)); } }
    if cut_k(n, s, k, a, b, q) { let i = choose|i: int| 0 <= i < k && (#[trigger] s[i]).0 == b && s[i].1 == a && partner(n, a, s[i].2, q); assert(i < k + 1); }
    if a == p.1 && b == p.0 && had(bds, bds.len(), q) { assert(s[k as int].0 == b); }
  }
  assert(bds.len() == 0 ==> forall|q: N::LinkMirrorEnum| !had(bds, bds.len(), q));
}
pub proof fn bd_a_step<N: NodeSpec>(n: IMap<NodeIndex, N>, c: IMap<NodeIndex, N>, c2: IMap<NodeIndex, N>, s: Seq<Trip<N>>, k: nat, bds: Seq<N::LinkMirrorEnum>, j: nat)
  requires
    bd_a(n, c, s, k, bds, j), j < bds.len(), same_shape(c, c2),
    forall|a: NodeIndex, b: NodeIndex, t: N::SourceEnum| #[trigger] fwd(c2, a, b, t) == (fwd(c, a, b, t) && !(a == s[k as int].1 && b == s[k as int].0 && N::mirror(t) == bds[j as int])),
  ensures bd_a(n, c2, s, k, bds, j + 1)
{
  reveal(bd_a);
  assert forall|a: NodeIndex| #[trigger] c2.contains_key(a) implies c2[a].data() == n[a].data() && c2[a].disc() == n[a].disc() by { assert(c2.dom().contains(a)); assert(c.contains_key(a)); }
  assert forall|q: N::LinkMirrorEnum| #[trigger] had(bds, j + 1, q) == (had(bds, j, q) || q == bds[j as int]) by {
    if had(bds, j, q) { let i = choose|i: int| 0 <= i < j && #[trigger] bds[i] == q; assert(bds[i] == q && i < j + 1); }
    assert(bds[j as int] == bds[j as int]);
  }
}
/// the link of y to x through the non-vector field q is gone
pub proof fn del_link<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, b: IMap<NodeIndex, OrderSet<(NodeIndex, N::SourceEnum)>>, b2: IMap<NodeIndex, OrderSet<(NodeIndex, N::SourceEnum)>>,
    a: ISet<Trip<N>>, r: ISet<Trip<N>>, a2: ISet<Trip<N>>, r2: ISet<Trip<N>>, t0: ISet<Trip<N>>, y: NodeIndex, x: NodeIndex, q: N::LinkMirrorEnum)
  requires
    inv(n, b), rec(n, a, r, t0), n.contains_key(y), !N::is_vec(q), fwd(n, y, x, N::source(q)),
    n2 == n.insert(y, n2[y]), n2[y].links() == n[y].links().remove((x, N::source(q))), n2[y].data() == n[y].data(), n2[y].disc() == n[y].disc(),
    forall|k: NodeIndex| #[trigger] b2.contains_key(k) == b.contains_key(k),
    forall|c: NodeIndex, d: NodeIndex, s: N::SourceEnum| #[trigger] bk(b2, c, d, s) == (bk(b, c, d, s) && !(c == x && d == y && s == N::source(q))),
    a.contains((y, x, q)) ==> r2 == r && a2 == a.remove((y, x, q)),
    !a.contains((y, x, q)) ==> r2 == r.insert((y, x, q)) && a2 == a,
  ensures
    inv(n2, b2), rec(n2, a2, r2, t0), same_shape(n, n2),
    forall|c: NodeIndex, d: NodeIndex, t: N::SourceEnum| #[trigger] fwd(n2, c, d, t) == (fwd(n, c, d, t) && !(c == y && d == x && N::mirror(t) == q)),
{
  reveal(inv);
  let z = N::source(q);
  N::law_mirror(q, z);
  assert(n2.dom() =~= n.dom());
  assert forall|c: NodeIndex, d: NodeIndex, t: N::SourceEnum| #[trigger] fwd(n2, c, d, t) == (fwd(n, c, d, t) && !(c == y && d == x && t == z)) by { }
  assert forall|c: NodeIndex, d: NodeIndex, t: N::SourceEnum| fwd(n2, c, d, t) == (fwd(n, c, d, t) && !(c == y && d == x && N::mirror(t) == q)) by { N::law_mirror(q, t); }
  assert(has_link(n[y], q, x));
  assert forall|c: NodeIndex, d: NodeIndex, k: N::LinkMirrorEnum| #[trigger] trip(n2, c, d, k) == (trip(n, c, d, k) && (c, d, k) != (y, x, q)) by {
    if trip(n, c, d, k) && (c, d, k) != (y, x, q) { let t = choose|t: N::SourceEnum| #[trigger] n[c].links().contains((d, t)) && N::mirror(t) == k; assert(fwd(n, c, d, t)); assert(fwd(n2, c, d, t)); assert(n2[c].links().contains((d, t))); }
    if trip(n2, c, d, k) { let t = choose|t: N::SourceEnum| #[trigger] n2[c].links().contains((d, t)) && N::mirror(t) == k; assert(fwd(n2, c, d, t)); assert(fwd(n, c, d, t)); assert(n[c].links().contains((d, t))); }
  }
  rec_del(n, n2, a, r, a2, r2, t0, y, x, q);
}
pub proof fn same_links<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, b: IMap<NodeIndex, OrderSet<(NodeIndex, N::SourceEnum)>>, a: ISet<Trip<N>>, r: ISet<Trip<N>>, t0: ISet<Trip<N>>, y: NodeIndex)
  requires
    inv(n, b), rec(n, a, r, t0), n.contains_key(y),
    n2 == n.insert(y, n2[y]), n2[y].links() =~= n[y].links(), n2[y].data() == n[y].data(), n2[y].disc() == n[y].disc(),
  ensures
    inv(n2, b), rec(n2, a, r, t0), same_shape(n, n2),
    forall|c: NodeIndex, d: NodeIndex, t: N::SourceEnum| #[trigger] fwd(n2, c, d, t) == fwd(n, c, d, t),
{
  reveal(inv);
  assert(n2.dom() =~= n.dom());
  assert forall|c: NodeIndex, d: NodeIndex, k: N::LinkMirrorEnum| #[trigger] trip(n2, c, d, k) == trip(n, c, d, k) by { }
  rec_same(n, n2, a, r, t0);
}
pub proof fn not_linked<N: NodeSpec>(n: IMap<NodeIndex, N>, y: NodeIndex, x: NodeIndex, q: N::LinkMirrorEnum)
  requires !N::is_vec(q), !fwd(n, y, x, N::source(q))
  ensures forall|t: N::SourceEnum| #[trigger] fwd(n, y, x, t) ==> N::mirror(t) != q
{ assert forall|t: N::SourceEnum| #[trigger] fwd(n, y, x, t) implies N::mirror(t) != q by { N::law_mirror(q, t); } }

pub proof fn bd_a_all<N: NodeSpec>(n: IMap<NodeIndex, N>, c: IMap<NodeIndex, N>, s: Seq<Trip<N>>, a: ISet<Trip<N>>, r: ISet<Trip<N>>, t0: ISet<Trip<N>>)
  requires bd_a(n, c, s, s.len(), Seq::<N::LinkMirrorEnum>::empty(), 0), seq_of_set(r, s), rec(n, a, r, t0)
  ensures bd_cut(n, c, t0)
{
  reveal(bd_a); reveal(bd_cut); reveal(rec);
  assert forall|y: NodeIndex, x: NodeIndex, q: N::LinkMirrorEnum| #[trigger] cut_k(n, s, s.len(), y, x, q) == cut(n, t0, y, x, q) by {
    if cut_k(n, s, s.len(), y, x, q) {
      let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x && s[i].1 == y && partner(n, y, s[i].2, q);
      assert(r.contains(s[i])); assert(s[i] == (x, y, s[i].2)); assert(t0.contains((x, y, s[i].2)));
    }
    if cut(n, t0, y, x, q) {
      let l = choose|l: N::LinkMirrorEnum| #[trigger] t0.contains((x, y, l)) && !trip(n, x, y, l) && partner(n, y, l, q);
      assert(r.contains((x, y, l))); assert(s.contains((x, y, l)));
      let i = choose|i: int| 0 <= i < s.len() && s[i] == (x, y, l);
      assert(s[i].0 == x);
    }
  }
}
pub open spec fn t0_has<N>(t0: ISet<N>, p: N) -> bool { t0.contains(p) }
#[verifier::opaque]
pub open spec fn bd_b<N: NodeSpec>(m: IMap<NodeIndex, N>, c: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, s: Seq<Trip<N>>, k: nat) -> bool {
  &&& same_shape(m, c)
  &&& forall|a: NodeIndex, b: NodeIndex, t: N::SourceEnum| fwd(m, a, b, t) ==> #[trigger] fwd(c, a, b, t)
  &&& forall|a: NodeIndex, b: NodeIndex, t: N::SourceEnum| #[trigger] fwd(c, a, b, t) && !fwd(m, a, b, t) ==> wanted(m, t0, a, b, N::mirror(t)) && !N::is_vec(N::mirror(t))
  &&& forall|i: int, q: N::LinkMirrorEnum| 0 <= i < k && m.contains_key((#[trigger] s[i]).0) && m.contains_key(s[i].1) && #[trigger] partner(m, s[i].1, s[i].2, q) ==> linked_back(m, c, s[i].0, s[i].1, s[i].2)
}
pub proof fn bd_b0<N: NodeSpec>(m: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, s: Seq<Trip<N>>)
  ensures bd_b(m, m, t0, s, 0)
{ reveal(bd_b); }
pub proof fn bd_b_next<N: NodeSpec>(m: IMap<NodeIndex, N>, c: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, s: Seq<Trip<N>>, k: nat)
  requires bd_b(m, c, t0, s, k), k < s.len()
  ensures
    !(m.contains_key(s[k as int].0) && m.contains_key(s[k as int].1)) ==> bd_b(m, c, t0, s, k + 1),
    (forall|q: N::LinkMirrorEnum| !#[trigger] partner(m, s[k as int].1, s[k as int].2, q)) ==> bd_b(m, c, t0, s, k + 1),
    linked_back(m, c, s[k as int].0, s[k as int].1, s[k as int].2) ==> bd_b(m, c, t0, s, k + 1),
{ reveal(bd_b); }
pub proof fn trip_of<N: NodeSpec>(n: IMap<NodeIndex, N>, x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum) -> (t: N::SourceEnum)
  requires trip(n, x, y, l)
  ensures fwd(n, x, y, t), N::mirror(t) == l
{ choose|t: N::SourceEnum| #[trigger] n[x].links().contains((y, t)) && N::mirror(t) == l }
pub proof fn trip_is<N: NodeSpec>(n: IMap<NodeIndex, N>, x: NodeIndex, y: NodeIndex, t: N::SourceEnum)
  requires fwd(n, x, y, t)
  ensures trip(n, x, y, N::mirror(t))
{ }
pub proof fn bd_b_add<N: NodeSpec>(m: IMap<NodeIndex, N>, c: IMap<NodeIndex, N>, c2: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, s: Seq<Trip<N>>, k: nat, q: N::LinkMirrorEnum)
  requires
    bd_b(m, c, t0, s, k), k < s.len(), m.contains_key(s[k as int].0), m.contains_key(s[k as int].1), !N::is_vec(q),
    trip(m, s[k as int].0, s[k as int].1, s[k as int].2), !t0.contains(s[k as int]),
    partner(m, s[k as int].1, s[k as int].2, q), forall|p: N::LinkMirrorEnum| #[trigger] partner(m, s[k as int].1, s[k as int].2, p) ==> p == q,
    same_shape(c, c2),
    forall|a: NodeIndex, b: NodeIndex, t: N::SourceEnum| #[trigger] fwd(c2, a, b, t) == (fwd(c, a, b, t) || (a == s[k as int].1 && b == s[k as int].0 && t == N::source(q))),
  ensures bd_b(m, c2, t0, s, k + 1)
{
  reveal(bd_b);
  let p = s[k as int]; let x = p.0; let y = p.1;
  assert(p == (x, y, p.2));
  N::law_mirror(q, N::source(q));
  assert forall|a: NodeIndex| #[trigger] c2.contains_key(a) implies c2[a].data() == m[a].data() && c2[a].disc() == m[a].disc() by { assert(c2.dom().contains(a)); assert(c.contains_key(a)); }
  assert(wanted(m, t0, y, x, q));
  assert forall|i: int, r: N::LinkMirrorEnum| 0 <= i < k + 1 && m.contains_key((#[trigger] s[i]).0) && m.contains_key(s[i].1) && #[trigger] partner(m, s[i].1, s[i].2, r) implies linked_back(m, c2, s[i].0, s[i].1, s[i].2) by {
    if i < k {
      assert(linked_back(m, c, s[i].0, s[i].1, s[i].2));
      let z = choose|z: N::LinkMirrorEnum| partner(m, s[i].1, s[i].2, z) && #[trigger] trip(c, s[i].1, s[i].0, z);
      let t = trip_of(c, s[i].1, s[i].0, z);
      assert(fwd(c2, s[i].1, s[i].0, t));
      trip_is(c2, s[i].1, s[i].0, t);
    } else {
      assert(fwd(c2, y, x, N::source(q))); trip_is(c2, y, x, N::source(q));
    }
  }
}
pub proof fn bd_b_all<N: NodeSpec>(m: IMap<NodeIndex, N>, c: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, s: Seq<Trip<N>>, adds: ISet<Trip<N>>)
  requires bd_b(m, c, t0, s, s.len()), seq_of_set(adds, s), forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] adds.contains((x, y, l)) == (trip(m, x, y, l) && !t0.contains((x, y, l)))
  ensures bd_add(m, c, t0)
{
  reveal(bd_b); reveal(bd_add);
  assert forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum, q: N::LinkMirrorEnum| #![trigger trip(m, x, y, l), partner(m, y, l, q)] trip(m, x, y, l) && !t0.contains((x, y, l)) && m.contains_key(y) && partner(m, y, l, q) implies linked_back(m, c, x, y, l) by {
    assert(adds.contains((x, y, l))); assert(s.contains((x, y, l)));
    let i = choose|i: int| 0 <= i < s.len() && s[i] == (x, y, l);
    assert(partner(m, s[i].1, s[i].2, q));
  }
}
/// y now links to x through the non-vector field q
pub proof fn add_link_step<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, b: IMap<NodeIndex, OrderSet<(NodeIndex, N::SourceEnum)>>, b2: IMap<NodeIndex, OrderSet<(NodeIndex, N::SourceEnum)>>,
    a: ISet<Trip<N>>, r: ISet<Trip<N>>, a2: ISet<Trip<N>>, r2: ISet<Trip<N>>, t0: ISet<Trip<N>>, y: NodeIndex, x: NodeIndex, q: N::LinkMirrorEnum)
  requires
    inv(n, b), rec(n, a, r, t0), n.contains_key(y), !N::is_vec(q), !trip(n, y, x, q),
    n2 == n.insert(y, n2[y]), n2[y].links() == n[y].links().insert((x, N::source(q))), n2[y].data() == n[y].data(), n2[y].disc() == n[y].disc(),
    forall|k: NodeIndex| #[trigger] b2.contains_key(k) == (b.contains_key(k) || k == x),
    forall|c: NodeIndex, d: NodeIndex, s: N::SourceEnum| #[trigger] bk(b2, c, d, s) == (bk(b, c, d, s) || (c == x && d == y && s == N::source(q))),
    r.contains((y, x, q)) ==> a2 == a && r2 == r.remove((y, x, q)),
    !r.contains((y, x, q)) ==> a2 == a.insert((y, x, q)) && r2 == r,
  ensures
    inv(n2, b2), rec(n2, a2, r2, t0), same_shape(n, n2),
    forall|c: NodeIndex, d: NodeIndex, t: N::SourceEnum| #[trigger] fwd(n2, c, d, t) == (fwd(n, c, d, t) || (c == y && d == x && t == N::source(q))),
{
  reveal(inv);
  let z = N::source(q);
  N::law_mirror(q, z);
  assert(n2.dom() =~= n.dom());
  assert forall|c: NodeIndex, d: NodeIndex, t: N::SourceEnum| #[trigger] fwd(n2, c, d, t) == (fwd(n, c, d, t) || (c == y && d == x && t == z)) by { }
  assert forall|c: NodeIndex, d: NodeIndex, k: N::LinkMirrorEnum| #[trigger] trip(n2, c, d, k) == (trip(n, c, d, k) || (c, d, k) == (y, x, q)) by {
    if trip(n, c, d, k) { let t = trip_of(n, c, d, k); assert(fwd(n2, c, d, t)); trip_is(n2, c, d, t); }
    if (c, d, k) == (y, x, q) { assert(fwd(n2, y, x, z)); trip_is(n2, y, x, z); }
    if trip(n2, c, d, k) { let t = trip_of(n2, c, d, k); if fwd(n, c, d, t) { trip_is(n, c, d, t); } else { } }
  }
  rec_add(n, n2, a, r, a2, r2, t0, y, x, q);
}
/// the field of a wanted partner is free
pub proof fn bd_free<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, c: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, s: Seq<Trip<N>>, k: nat, q: N::LinkMirrorEnum)
  requires
    bd_b(m, c, t0, s, k), k < s.len(), bd_choice(m, t0), wanted(m, t0, s[k as int].1, s[k as int].0, q),
  ensures N::single(N::source(q)) && !N::is_vec(q) ==> forall|z: NodeIndex| #[trigger] fwd(c, s[k as int].1, z, N::source(q)) ==> z == s[k as int].0
{
  reveal(bd_b);
  let y = s[k as int].1;
  if N::single(N::source(q)) && !N::is_vec(q) {
    N::law_mirror(q, N::source(q));
    assert forall|z: NodeIndex| #[trigger] fwd(c, y, z, N::source(q)) implies z == s[k as int].0 by {
      if fwd(m, y, z, N::source(q)) { trip_is(m, y, z, N::source(q)); } else { assert(wanted(m, t0, y, z, q)); }
    }
  }
}
