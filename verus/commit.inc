// ---------------- C04: symmetry is kept ----------------
/// l and m are declared partners, and for the two types that own them neither has another partner
pub open spec fn good_pair<N: NodeSpec>(l: N::LinkMirrorEnum, m: N::LinkMirrorEnum) -> bool {
  &&& !N::is_vec(l) && !N::is_vec(m)
  &&& forall|q: N::LinkMirrorEnum| N::owner(q) == N::owner(m) ==> (#[trigger] bd_of::<N>(l).contains(q) <==> q == m)
  &&& forall|q: N::LinkMirrorEnum| N::owner(q) == N::owner(l) ==> (#[trigger] bd_of::<N>(m).contains(q) <==> q == l)
  // a declaration makes both fields partners of each other
  &&& forall|p: N::LinkMirrorEnum, q: N::LinkMirrorEnum| #![trigger bd_of::<N>(p).contains(q)] bd_of::<N>(p).contains(q) == bd_of::<N>(q).contains(p)
}
/// between nodes of the two types, a link through l and one back through m go together
pub open spec fn symmetric<N: NodeSpec>(n: IMap<NodeIndex, N>, t: ISet<Trip<N>>, l: N::LinkMirrorEnum, m: N::LinkMirrorEnum) -> bool {
  forall|x: NodeIndex, y: NodeIndex| #![trigger t.contains((x, y, l))] #![trigger t.contains((y, x, m))] n.contains_key(x) && n.contains_key(y) && n[x].disc() == N::owner(l) && n[y].disc() == N::owner(m)
    ==> t.contains((x, y, l)) == t.contains((y, x, m))
}
/// no node changed its type
pub open spec fn typed_base<N: NodeSpec>(n: IMap<NodeIndex, N>, t0: ISet<Trip<N>>) -> bool {
  forall|x: NodeIndex, y: NodeIndex, k: N::LinkMirrorEnum| #[trigger] t0.contains((x, y, k)) && n.contains_key(x) ==> N::owner(k) == n[x].disc()
}
pub proof fn fwd_trips<N: NodeSpec>(n: IMap<NodeIndex, N>, x: NodeIndex, y: NodeIndex, q: N::LinkMirrorEnum)
  requires !N::is_vec(q)
  ensures trip(n, x, y, q) == fwd(n, x, y, N::source(q)), N::mirror(N::source(q)) == q
{
  N::law_mirror(q, N::source(q));
  if trip(n, x, y, q) { let t = trip_of(n, x, y, q); N::law_mirror(q, t); }
}
/// one direction: a link through l in the result has its partner
proof fn bd_half<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, l: N::LinkMirrorEnum, q: N::LinkMirrorEnum, x: NodeIndex, y: NodeIndex)
  requires
    bd_cut(n, m, t0), bd_add(m, n2, t0), good_pair::<N>(l, q), symmetric(n, t0, l, q), symmetric(n, t0, q, l),
    n.contains_key(x), n.contains_key(y), n[x].disc() == N::owner(l), n[y].disc() == N::owner(q), trip(n2, x, y, l), typed_base(n, t0),
  ensures trip(n2, y, x, q)
{
  reveal(bd_cut); reveal(bd_add);
  assert(m.dom().contains(x) && m.dom().contains(y)); assert(m.contains_key(x) && m.contains_key(y));
  fwd_trips(n2, x, y, l); fwd_trips(m, x, y, l); fwd_trips(n, x, y, l);
  fwd_trips(n2, y, x, q); fwd_trips(m, y, x, q); fwd_trips(n, y, x, q);
  assert(partner(n, y, l, q)) by { assert(bd_of::<N>(l).contains(q)); }
  assert(partner(m, y, l, q));
  assert(partner(n, x, q, l)) by { assert(bd_of::<N>(q).contains(l)); }
  if trip(m, x, y, l) {
    assert(fwd(n, x, y, N::source(l)));
    if t0.contains((x, y, l)) {
      assert(t0.contains((y, x, q)));
      // the partner was there: had it gone, x's link would have been cut
      if !trip(n, y, x, q) { assert(cut(n, t0, x, y, l)); assert(false); }
      // it is not cut either: that needs a lost link of x to y whose partner is q, and that is l
      if cut(n, t0, y, x, q) {
        let k = choose|k: N::LinkMirrorEnum| #[trigger] t0.contains((x, y, k)) && !trip(n, x, y, k) && partner(n, y, k, q);
        assert(bd_of::<N>(k).contains(q)); assert(bd_of::<N>(q).contains(k));
        assert(false) by { assert(N::owner(k) == N::owner(l)); assert(k == l); }
      }
      assert(fwd(m, y, x, N::source(q)));
    } else {
      assert(linked_back(m, n2, x, y, l));
      let z = choose|z: N::LinkMirrorEnum| partner(m, y, l, z) && #[trigger] trip(n2, y, x, z);
      assert(bd_of::<N>(l).contains(z));
      assert(z == q);
    }
  } else {
    assert(fwd(n2, x, y, N::source(l)) && !fwd(m, x, y, N::source(l)));
    assert(wanted(m, t0, x, y, l));
    let k = choose|k: N::LinkMirrorEnum| #[trigger] trip(m, y, x, k) && !t0.contains((y, x, k)) && partner(m, x, k, l) && forall|p: N::LinkMirrorEnum| #[trigger] partner(m, x, k, p) ==> p == l;
    assert(bd_of::<N>(k).contains(l)); assert(bd_of::<N>(l).contains(k));
    let s = trip_of(m, y, x, k);
    m[y].law_links(x, s);
    assert(k == q);
    assert(fwd(m, y, x, N::source(q)));
  }
}
/// C04: completing the links keeps the pair symmetric
pub proof fn bd_keeps_symmetric<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, l: N::LinkMirrorEnum, q: N::LinkMirrorEnum)
  requires bd_applied(n, n2, t0), good_pair::<N>(l, q), symmetric(n, t0, l, q), typed_base(n, t0)
  ensures symmetric(n2, trips(n2), l, q)
{
  reveal(bd_applied);
  let m = choose|m: IMap<NodeIndex, N>| #[trigger] bd_cut(n, m, t0) && bd_add(m, n2, t0);
  assert(same_shape(n, n2)) by {
    reveal(bd_cut); reveal(bd_add);
    assert forall|a: NodeIndex| #[trigger] n2.contains_key(a) implies n2[a].data() == n[a].data() && n2[a].disc() == n[a].disc() by { assert(n2.dom().contains(a)); assert(m.contains_key(a)); }
  }
  assert(good_pair::<N>(q, l));
  assert(symmetric(n, t0, q, l));
  assert forall|x: NodeIndex, y: NodeIndex| n2.contains_key(x) && n2.contains_key(y) && n2[x].disc() == N::owner(l) && n2[y].disc() == N::owner(q)
    implies #[trigger] trips(n2).contains((x, y, l)) == #[trigger] trips(n2).contains((y, x, q)) by {
    assert(n2.dom().contains(x) && n2.dom().contains(y)); assert(n.contains_key(x) && n.contains_key(y));
    if trip(n2, x, y, l) { bd_half(n, m, n2, t0, l, q, x, y); }
    if trip(n2, y, x, q) { bd_half(n, m, n2, t0, q, l, y, x); }
  }
}

// ---------------- C03: what a commit does ----------------
/// the closures fs[..k] ran, in order, each on the current value of its node
#[verifier::prophetic] pub open spec fn muts<N: NodeSpec, F: FnOnce(&mut N)>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, fs: Seq<(NodeIndex, F)>, k: nat) -> bool decreases k {
  if k == 0 { n2 == n } else { exists|m: IMap<NodeIndex, N>| muts(n, m, fs, (k - 1) as nat) && #[trigger] mut_step(m, n2, fs[k - 1].0, fs[k - 1].1) }
}
pub open spec fn upds<N: NodeSpec, F: FnOnce(N) -> N>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, fs: Seq<(NodeIndex, F)>, k: nat) -> bool decreases k {
  if k == 0 { n2 == n } else { exists|m: IMap<NodeIndex, N>| upds(n, m, fs, (k - 1) as nat) && #[trigger] upd_step(m, n2, fs[k - 1].0, fs[k - 1].1) }
}
pub proof fn muts_step<N: NodeSpec, F: FnOnce(&mut N)>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, fs: Seq<(NodeIndex, F)>, k: nat)
  requires muts(n, m, fs, k), k < fs.len(), mut_step(m, n2, fs[k as int].0, fs[k as int].1)
  ensures muts(n, n2, fs, k + 1)
{ assert(muts(n, m, fs, ((k + 1) - 1) as nat)); }
pub proof fn upds_step<N: NodeSpec, F: FnOnce(N) -> N>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, fs: Seq<(NodeIndex, F)>, k: nat)
  requires upds(n, m, fs, k), k < fs.len(), upd_step(m, n2, fs[k as int].0, fs[k as int].1)
  ensures upds(n, n2, fs, k + 1)
{ assert(upds(n, m, fs, ((k + 1) - 1) as nat)); }
pub open spec fn idx_in<F>(fs: Seq<(NodeIndex, F)>, k: nat, a: NodeIndex) -> bool { exists|i: int| 0 <= i < k && (#[trigger] fs[i]).0 == a }
pub proof fn idx_next<F>(fs: Seq<(NodeIndex, F)>, k: nat)
  requires k < fs.len()
  ensures forall|a: NodeIndex| #[trigger] idx_in(fs, k + 1, a) == (idx_in(fs, k, a) || a == fs[k as int].0)
{
  assert forall|a: NodeIndex| #[trigger] idx_in(fs, k + 1, a) == (idx_in(fs, k, a) || a == fs[k as int].0) by {
    if idx_in(fs, k, a) { let i = choose|i: int| 0 <= i < k && (#[trigger] fs[i]).0 == a; assert(fs[i].0 == a); }
    if a == fs[k as int].0 { assert(fs[k as int].0 == a); }
  }
}
/// the nodes d are gone, with every link to them; nothing else changed
#[verifier::opaque]
pub open spec fn removed<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, d: ISet<NodeIndex>) -> bool {
  &&& d.subset_of(n.dom()) && n2.dom() == n.dom().difference(d)
  &&& forall|a: NodeIndex| #[trigger] n2.contains_key(a) ==> n2[a].data() == n[a].data() && n2[a].disc() == n[a].disc()
  &&& forall|a: NodeIndex, y: NodeIndex, s: N::SourceEnum| #[trigger] fwd(n2, a, y, s) == (!d.contains(a) && !d.contains(y) && fwd(n, a, y, s))
}
pub proof fn removed_0<N: NodeSpec>(n: IMap<NodeIndex, N>)
  ensures removed(n, n, ISet::empty())
{ reveal(removed); assert(n.dom() =~= n.dom().difference(ISet::empty())); }
pub proof fn removed_step<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, d: ISet<NodeIndex>, x: NodeIndex)
  requires removed(n, m, d), rm_step(m, n2, x)
  ensures removed(n, n2, d.insert(x)), !d.contains(x)
{
  reveal(removed);
  assert(m.dom().contains(x));
  assert(n2.dom() =~= n.dom().difference(d.insert(x)));
  assert forall|a: NodeIndex| #[trigger] n2.contains_key(a) implies n2[a].data() == n[a].data() && n2[a].disc() == n[a].disc() by { assert(n2.dom().contains(a)); assert(m.contains_key(a)); }
  assert forall|a: NodeIndex| #[trigger] d.insert(x).contains(a) implies n.dom().contains(a) by { }
}
pub proof fn removed_dom<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, d: ISet<NodeIndex>)
  requires removed(n, n2, d)
  ensures n2.dom() == n.dom().difference(d), d.subset_of(n.dom())
{ reveal(removed); }
pub proof fn redirected_dom<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, r: Seq<(NodeIndex, NodeIndex)>)
  requires redirected(n, n2, r)
  ensures n2.dom() == n.dom(), forall|a: NodeIndex| #[trigger] n2.contains_key(a) ==> n2[a].data() == n[a].data() && n2[a].disc() == n[a].disc()
{ reveal(redirected); reveal(retargeted); }
pub open spec fn first_k<K>(s: Seq<&K>, k: nat) -> ISet<K> { ISet::new(|a: K| exists|i: int| 0 <= i < k && *(#[trigger] s[i]) == a) }

/*@struct src/typed_graph/transaction.rs Transaction
#attr
#[verifier::reject_recursive_types(NodeT)]
#[verifier::reject_recursive_types(Arena)]
#[verifier::reject_recursive_types(MF)]
#[verifier::reject_recursive_types(UF)]
#replace
  Transaction<'a, NodeT, Arena> =>> Transaction<NodeT, Arena, MF, UF>
  MutFunc<'a, NodeT> =>> MF
  UpdateFunc<'a, NodeT> =>> UF
@*/
/// the stages of a commit up to the removals
#[verifier::opaque]
#[verifier::prophetic] pub open spec fn staged<N: NodeSpec, MF: FnOnce(&mut N), UF: FnOnce(N) -> N>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>,
    rl: Seq<(NodeIndex, NodeIndex)>, inc: IMap<NodeIndex, N>, ms: Seq<(NodeIndex, MF)>, us: Seq<(NodeIndex, UF)>, ra: Seq<(NodeIndex, NodeIndex)>, dec: ISet<NodeIndex>) -> bool
{
  exists|n1: IMap<NodeIndex, N>, n3: IMap<NodeIndex, N>, n4: IMap<NodeIndex, N>, n5: IMap<NodeIndex, N>|
    #[trigger] redirected(n, n1, rl) && n1.dom().disjoint(inc.dom())
    && #[trigger] muts(n1.union_prefer_right(inc), n3, ms, ms.len())
    && #[trigger] upds(n3, n4, us, us.len())
    && #[trigger] redirected(n4, n5, ra)
    && removed(n5, n2, dec)
}
pub proof fn staged_is<N: NodeSpec, MF: FnOnce(&mut N), UF: FnOnce(N) -> N>(n: IMap<NodeIndex, N>, n1: IMap<NodeIndex, N>, n3: IMap<NodeIndex, N>, n4: IMap<NodeIndex, N>, n5: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>,
    rl: Seq<(NodeIndex, NodeIndex)>, inc: IMap<NodeIndex, N>, ms: Seq<(NodeIndex, MF)>, us: Seq<(NodeIndex, UF)>, ra: Seq<(NodeIndex, NodeIndex)>, dec: ISet<NodeIndex>)
  requires redirected(n, n1, rl), n1.dom().disjoint(inc.dom()), muts(n1.union_prefer_right(inc), n3, ms, ms.len()), upds(n3, n4, us, us.len()), redirected(n4, n5, ra), removed(n5, n2, dec)
  ensures staged(n, n2, rl, inc, ms, us, ra, dec)
{ reveal(staged); }

impl<NodeT, Arena, MF, UF> Transaction<NodeT, Arena, MF, UF>
where NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>, MF: FnOnce(&mut NodeT), UF: FnOnce(NodeT) -> NodeT,
{
  #[verifier::prophetic] pub open spec fn staged(&self, n: IMap<NodeIndex, NodeT>, n2: IMap<NodeIndex, NodeT>) -> bool {
    staged(n, n2, self.redirect_links_vec@, nodes_of(self.inc_nodes), self.mut_nodes@, self.update_nodes@, self.redirect_all_links_vec@, self.dec_nodes@)
  }
  /// C03: the effect of a commit on the nodes
  #[verifier::prophetic] pub open spec fn committed(&self, n: IMap<NodeIndex, NodeT>, n2: IMap<NodeIndex, NodeT>) -> bool {
    exists|m: IMap<NodeIndex, NodeT>| #[trigger] self.staged(n, m) && bd_applied(m, n2, trips(n))
  }
  /// every caller keeps these: indices are drawn once, a node is redirected once per kind, closures accept any node
  pub open spec fn fits(&self, g: &Graph<NodeT, Arena>) -> bool {
    &&& arena_wf(self.inc_nodes) && g.nodes.disp().dom().disjoint(self.inc_nodes.disp().dom())
    &&& olds_unique(self.redirect_links_vec@) && olds_unique(self.redirect_all_links_vec@)
    &&& !g.n().contains_key(NodeIndex(0)) && !nodes_of(self.inc_nodes).contains_key(NodeIndex(0))
    &&& forall|i: int, v: &mut NodeT| 0 <= i < self.mut_nodes@.len() ==> #[trigger] self.mut_nodes@[i].1.requires((v,))
    &&& forall|i: int, v: NodeT| 0 <= i < self.update_nodes@.len() ==> #[trigger] self.update_nodes@[i].1.requires((v,))
  }
  pub open spec fn touched(&self) -> ISet<NodeIndex> {
    ISet::new(|a: NodeIndex| nodes_of(self.inc_nodes).contains_key(a) || idx_in(self.mut_nodes@, self.mut_nodes@.len(), a) || idx_in(self.update_nodes@, self.update_nodes@.len(), a))
  }
  /// all indices there are after the insertions
  pub open spec fn known(&self, g: &Graph<NodeT, Arena>) -> ISet<NodeIndex> { g.n().dom().union(nodes_of(self.inc_nodes).dom()) }
  /// C15: a valid transaction for the graph
  #[verifier::prophetic] pub open spec fn valid(&self, g: &Graph<NodeT, Arena>) -> bool {
    &&& self.ctx_id == g.ctx_id && self.alloc_nodes@ == ISet::<NodeIndex>::empty()
    &&& closed(g.n(), self.known(g)) && closed(nodes_of(self.inc_nodes), self.known(g))
    &&& valid_redirects(self.redirect_links_vec@, g.n().dom(), self.known(g))
    &&& valid_redirects(self.redirect_all_links_vec@, self.known(g), self.known(g))
    &&& forall|i: int| 0 <= i < self.mut_nodes@.len() ==> self.known(g).contains((#[trigger] self.mut_nodes@[i]).0)
    &&& forall|i: int| 0 <= i < self.update_nodes@.len() ==> self.known(g).contains((#[trigger] self.update_nodes@[i]).0)
    &&& forall|i: int, v: &mut NodeT| 0 <= i < self.mut_nodes@.len() && into(*v, self.known(g)) && #[trigger] self.mut_nodes@[i].1.ensures((v,), ()) ==> into(*final(v), self.known(g))
    &&& forall|i: int, v: NodeT, w: NodeT| 0 <= i < self.update_nodes@.len() && into(v, self.known(g)) && #[trigger] self.update_nodes@[i].1.ensures((v,), w) ==> into(w, self.known(g))
    &&& self.dec_nodes@.subset_of(self.known(g))
    &&& forall|m: IMap<NodeIndex, NodeT>| #[trigger] self.staged(g.n(), m) ==> bd_decidable(m, trips(g.n()))
  }
}
pub open spec fn into<N: NodeSpec>(v: N, d: ISet<NodeIndex>) -> bool { forall|y: NodeIndex, s: N::SourceEnum| #[trigger] v.links().contains((y, s)) ==> d.contains(y) }
/// all links lead into d
#[verifier::opaque]
pub open spec fn closed<N: NodeSpec>(n: IMap<NodeIndex, N>, d: ISet<NodeIndex>) -> bool { forall|x: NodeIndex| #[trigger] n.contains_key(x) ==> into(n[x], d) }
pub open spec fn valid_redirects(r: Seq<(NodeIndex, NodeIndex)>, from: ISet<NodeIndex>, to: ISet<NodeIndex>) -> bool {
  &&& exists|rank: spec_fn(NodeIndex) -> nat| acyclic(r, rank)
  &&& forall|i: int| 0 <= i < r.len() ==> from.contains((#[trigger] r[i]).0) && (to.contains(r[i].1) || r[i].1 == NodeIndex(0))
}
pub proof fn chain_in(r: Seq<(NodeIndex, NodeIndex)>, g: spec_fn(NodeIndex) -> NodeIndex, rank: spec_fn(NodeIndex) -> nat, d: ISet<NodeIndex>, y: NodeIndex)
  requires chains(r, g), acyclic(r, rank), d.contains(y) || y == NodeIndex(0), forall|i: int| 0 <= i < r.len() ==> d.contains((#[trigger] r[i]).1) || r[i].1 == NodeIndex(0)
  ensures d.contains(g(y)) || g(y) == NodeIndex(0)
  decreases rank(y)
{
  reveal(chains); reveal(acyclic);
  if is_old(r, y) {
    let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == y;
    chain_in(r, g, rank, d, r[i].1);
  }
}
pub proof fn closed_redirect<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, r: Seq<(NodeIndex, NodeIndex)>, from: ISet<NodeIndex>, d: ISet<NodeIndex>)
  requires closed(n, d), redirected(n, n2, r), valid_redirects(r, from, d)
  ensures closed(n2, d)
{
  reveal(closed); reveal(redirected); reveal(retargeted);
  let (g, rank) = choose|g: spec_fn(NodeIndex) -> NodeIndex, rank: spec_fn(NodeIndex) -> nat| #[trigger] chains(r, g) && #[trigger] acyclic(r, rank) && retargeted(n, n2, g);
  assert forall|x: NodeIndex| #[trigger] n2.contains_key(x) implies into(n2[x], d) by {
    assert forall|e: NodeIndex, s: N::SourceEnum| #[trigger] n2[x].links().contains((e, s)) implies d.contains(e) by {
      assert(fwd(n2, x, e, s));
      let y = choose|y: NodeIndex| #[trigger] fwd(n, x, y, s) && g(y) == e;
      assert(n.contains_key(x)); assert(n[x].links().contains((y, s)));
      chain_in(r, g, rank, d, y);
    }
  }
}
pub proof fn closed_union<N: NodeSpec>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, d: ISet<NodeIndex>)
  requires closed(n, d), closed(m, d)
  ensures closed(n.union_prefer_right(m), d)
{ reveal(closed);
  assert forall|x: NodeIndex| #[trigger] n.union_prefer_right(m).contains_key(x) implies into(n.union_prefer_right(m)[x], d) by { if m.contains_key(x) { } else { assert(n.contains_key(x)); } }
}
pub proof fn closed_insert<N: NodeSpec>(n: IMap<NodeIndex, N>, n2: IMap<NodeIndex, N>, d: ISet<NodeIndex>, x: NodeIndex)
  requires closed(n, d), n2 == n.insert(x, n2[x]), into(n2[x], d)
  ensures closed(n2, d)
{ reveal(closed);
  assert forall|y: NodeIndex| #[trigger] n2.contains_key(y) implies into(n2[y], d) by { if y != x { assert(n.contains_key(y)); } }
}
pub proof fn closed_get<N: NodeSpec>(n: IMap<NodeIndex, N>, d: ISet<NodeIndex>, x: NodeIndex)
  requires closed(n, d), n.contains_key(x)
  ensures into(n[x], d)
{ reveal(closed); }
pub proof fn inv_keys<N: NodeSpec>(n: IMap<NodeIndex, N>, b: IMap<NodeIndex, OrderSet<(NodeIndex, N::SourceEnum)>>)
  requires inv(n, b)
  ensures forall|k: NodeIndex| #[trigger] n.contains_key(k) ==> b.contains_key(k)
{ reveal(inv); }
pub proof fn rec_start<N: NodeSpec>(n: IMap<NodeIndex, N>)
  ensures rec(n, ISet::<Trip<N>>::empty(), ISet::<Trip<N>>::empty(), trips(n)), base(n, ISet::<Trip<N>>::empty(), ISet::<Trip<N>>::empty()) == trips(n)
{ reveal(rec); rec_base(n, ISet::<Trip<N>>::empty(), ISet::<Trip<N>>::empty(), trips(n)); }

impl<NodeT, Arena> Graph<NodeT, Arena>
where NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>,
{
/*@fn src/typed_graph.rs Graph::do_commit
#props C01 C02 C03 C04 C05 C08 C11 C14 C15
#generics
  MF: FnOnce(&mut NodeT), UF: FnOnce(NodeT) -> NodeT
#replace
  Transaction<NodeT, Arena> =>> Transaction<NodeT, Arena, MF, UF>
#requires
  old(self).wf(), t.fits(old(self)),
#requires[T]
  t.valid(old(self)),
#ensures
  final(self).wf(), final(self).ctx_id == old(self).ctx_id, final(self).nodes.dist() == old(self).nodes.dist(),
  t.ctx_id == old(self).ctx_id, t.alloc_nodes@ == ISet::<NodeIndex>::empty(),
  t.committed(old(self).n(), final(self).n()),
  r.rec(final(self).n(), trips(old(self).n())), r.nodes@ == t.touched(),
#start
  let ghost vf_n0 = self.n();
  let ghost vf_d = t.known(self);
  let ghost vf_t0 = trips(self.n());
  let ghost vf_t = t;
  let ghost mut vf_n3 = self.n(); let ghost mut vf_n4 = self.n();
  proof { rec_start(vf_n0); inv_keys(self.n(), self.b()); }
#after_call redirect_links_vec 0
  let ghost vf_n1 = self.n();
  proof {
    rec_base(vf_n1, lcr.adds@, lcr.removes@, vf_t0); redirected_dom(vf_n0, vf_n1, t.redirect_links_vec@);
//[T]  closed_redirect(vf_n0, vf_n1, vf_t.redirect_links_vec@, vf_n0.dom(), vf_d);
  }
#after_call merge_nodes 0
  let ghost vf_n2 = self.n();
  proof {
    rec_base(vf_n2, lcr.adds@, lcr.removes@, vf_t0); assert(vf_n2.dom() == vf_d);
//[T]  closed_union(vf_n1, nodes_of(vf_t.inc_nodes), vf_d);
  }
#loop 0 before
  assert(muts(vf_n2, vf_n2, vf_t.mut_nodes@, 0));
#loop 0
  self.wf(), self.ctx_id == old(self).ctx_id, self.nodes.dist() == old(self).nodes.dist(), self.n().dom() == vf_d,
  lcr.rec(self.n(), vf_t0), muts(vf_n2, self.n(), vf_t.mut_nodes@, vf_it0.pos()),
  forall|a: NodeIndex| #[trigger] lcr.nodes@.contains(a) == (nodes_of(vf_t.inc_nodes).contains_key(a) || idx_in(vf_t.mut_nodes@, vf_it0.pos(), a)),
//[T]  closed(self.n(), vf_d),
#loop 0 begin
  let ghost vf_m = self.n(); let ghost vf_i = i; let ghost vf_f = f;
  proof {
    rec_base(vf_m, lcr.adds@, lcr.removes@, vf_t0); inv_keys(vf_m, self.b());
    idx_next(vf_t.mut_nodes@, (vf_it0.pos() - 1) as nat);
    assert(vf_t.mut_nodes@[vf_it0.pos() - 1].1 == f);
//[T]  assert(vf_d.contains(vf_t.mut_nodes@[vf_it0.pos() - 1].0));
//[T]  assert(vf_m.dom().contains(i)); closed_get(vf_m, vf_d, i);
//[T]  assert forall|v: &mut NodeT, y: NodeIndex, s: NodeT::SourceEnum| *v == vf_m[i] && f.ensures((v,), ()) && #[trigger] final(v).links().contains((y, s)) implies self.b().contains_key(y) by { assert(into(*final(v), vf_d)); assert(vf_m.dom().contains(y)); }
  }
#loop 0 end
  proof {
    muts_step(vf_n2, vf_m, self.n(), vf_t.mut_nodes@, (vf_it0.pos() - 1) as nat);
    assert(self.n().dom() =~= vf_m.dom());
//[T]  let v = choose|v: &mut NodeT| *v == vf_m[vf_i] && *final(v) == self.n()[vf_i] && #[trigger] vf_f.ensures((v,), ());
//[T]  assert(into(*final(v), vf_d)); closed_insert(vf_m, self.n(), vf_d, vf_i);
  }
#loop 0 after
  proof { vf_n3 = self.n(); }
  assert(upds(vf_n3, vf_n3, vf_t.update_nodes@, 0));
#loop 1
  self.wf(), self.ctx_id == old(self).ctx_id, self.nodes.dist() == old(self).nodes.dist(), self.n().dom() == vf_d,
  lcr.rec(self.n(), vf_t0), upds(vf_n3, self.n(), vf_t.update_nodes@, vf_it1.pos()),
  forall|a: NodeIndex| #[trigger] lcr.nodes@.contains(a) == (nodes_of(vf_t.inc_nodes).contains_key(a) || idx_in(vf_t.mut_nodes@, vf_t.mut_nodes@.len(), a) || idx_in(vf_t.update_nodes@, vf_it1.pos(), a)),
//[T]  closed(self.n(), vf_d),
#loop 1 begin
  let ghost vf_m = self.n(); let ghost vf_i = i; let ghost vf_f = f;
  proof {
    rec_base(vf_m, lcr.adds@, lcr.removes@, vf_t0); inv_keys(vf_m, self.b());
    idx_next(vf_t.update_nodes@, (vf_it1.pos() - 1) as nat);
    assert(vf_t.update_nodes@[vf_it1.pos() - 1].1 == f);
//[T]  assert(vf_d.contains(vf_t.update_nodes@[vf_it1.pos() - 1].0));
//[T]  assert(vf_m.dom().contains(i)); closed_get(vf_m, vf_d, i);
//[T]  assert forall|v: NodeT, y: NodeIndex, s: NodeT::SourceEnum| f.ensures((vf_m[i],), v) && (#[trigger] v.links().contains((y, s))) implies self.b().contains_key(y) by { assert(into(v, vf_d)); assert(vf_m.dom().contains(y)); }
  }
#loop 1 end
  proof {
    upds_step(vf_n3, vf_m, self.n(), vf_t.update_nodes@, (vf_it1.pos() - 1) as nat);
    assert(self.n().dom() =~= vf_m.dom());
//[T]  assert(into(self.n()[vf_i], vf_d)); closed_insert(vf_m, self.n(), vf_d, vf_i);
  }
#loop 1 after
  proof { vf_n4 = self.n(); }
  proof { rec_base(vf_n4, lcr.adds@, lcr.removes@, vf_t0); inv_keys(vf_n4, self.b()); 
//[T]  assert forall|i: int| 0 <= i < vf_t.redirect_all_links_vec@.len() implies self.b().contains_key((#[trigger] vf_t.redirect_all_links_vec@[i]).0) by { assert(vf_n4.dom().contains(vf_t.redirect_all_links_vec@[i].0)); }
  }
#after_call redirect_links_vec 1
  let ghost vf_n5 = self.n();
  proof { redirected_dom(vf_n4, vf_n5, vf_t.redirect_all_links_vec@); removed_0(vf_n5); }
#loop 2 before
  assert(first_k(vf_all2, 0) =~= ISet::<NodeIndex>::empty());
#loop 2
  self.wf(), self.ctx_id == old(self).ctx_id, self.nodes.dist() == old(self).nodes.dist(),
  lcr.rec(self.n(), vf_t0), removed(vf_n5, self.n(), first_k(vf_all2, vf_it2.pos())), lcr.nodes@ == vf_t.touched(),
#loop 2 begin
  let ghost vf_m = self.n(); let ghost vf_n = *n;
  proof {
    rec_base(vf_m, lcr.adds@, lcr.removes@, vf_t0); removed_dom(vf_n5, vf_m, first_k(vf_all2, (vf_it2.pos() - 1) as nat));
    assert(vf_t.dec_nodes@.contains(*vf_all2[vf_it2.pos() - 1]));
    assert(!first_k(vf_all2, (vf_it2.pos() - 1) as nat).contains(*n));
//[T]  assert(vf_n5.dom().contains(*n)); assert(vf_m.dom().contains(*n));
  }
#loop 2 end
  proof {
    removed_step(vf_n5, vf_m, self.n(), first_k(vf_all2, (vf_it2.pos() - 1) as nat), vf_n);
    assert(first_k(vf_all2, vf_it2.pos()) =~= first_k(vf_all2, (vf_it2.pos() - 1) as nat).insert(vf_n)) by {
      assert(*vf_all2[vf_it2.pos() - 1] == vf_n);
    }
  }
#loop 2 after
  let ghost vf_n6 = self.n();
  proof {
    assert(first_k(vf_all2, vf_all2.len()) =~= vf_t.dec_nodes@);
    removed_dom(vf_n5, vf_n6, vf_t.dec_nodes@);
    rec_base(vf_n6, lcr.adds@, lcr.removes@, vf_t0);
    staged_is(vf_n0, vf_n1, vf_n3, vf_n4, vf_n5, vf_n6, vf_t.redirect_links_vec@, nodes_of(vf_t.inc_nodes), vf_t.mut_nodes@, vf_t.update_nodes@, vf_t.redirect_all_links_vec@, vf_t.dec_nodes@);
    assert(vf_t.staged(vf_n0, vf_n6));
    assert(!vf_n6.dom().contains(NodeIndex(0)));
  }
@*/
}
// ---------------- C05, C14: checks ----------------
/// every link of n that t0 does not have and that leads to a node of n is allowed
#[verifier::opaque]
pub open spec fn types_ok<N: NodeSpec>(n: IMap<NodeIndex, N>, t0: ISet<Trip<N>>) -> bool {
  forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] trip(n, x, y, l) && !t0.contains((x, y, l)) && n.contains_key(y) ==> allowed::<N>(l, n[y].disc())
}
pub type CheckResult = Result<(), ()>;
/*@struct src/typed_graph/check.rs GraphCheck
#attr
#[verifier::reject_recursive_types(NodeT)]
#[verifier::reject_recursive_types(NC)]
#[verifier::reject_recursive_types(LA)]
#[verifier::reject_recursive_types(LR)]
#replace
  GraphCheck<NodeT : NodeEnum> { =>> GraphCheck<NodeT : NodeEnum, NC, LA, LR> { pub vf_p: std::marker::PhantomData<NodeT>,
  NodeCheckFunc<NodeT> =>> NC
  link_add_checks : BTreeMap < String, LinkCheckFunc<NodeT> > =>> link_add_checks: BTreeMap<String, LA>
  link_remove_checks : BTreeMap < String, LinkCheckFunc<NodeT> > =>> link_remove_checks: BTreeMap<String, LR>
@*/
/// nodes with a link in only one of a and n
pub open spec fn relinked<N: NodeSpec>(n: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, x: NodeIndex) -> bool {
  exists|y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] trip(n, x, y, l) != t0.contains((x, y, l))
}
pub open spec fn changed<N: NodeSpec>(n: IMap<NodeIndex, N>, t0: ISet<Trip<N>>, touched: ISet<NodeIndex>) -> ISet<NodeIndex> {
  ISet::new(|x: NodeIndex| touched.contains(x) || relinked(n, t0, x))
}
pub open spec fn opt_node<'a, N>(n: IMap<NodeIndex, N>, y: NodeIndex) -> Option<&'a N> { if n.contains_key(y) { Some(&n[y]) } else { None } }
/// check c answers e for some changed node
pub open spec fn node_answer<N: NodeSpec, C: Fn(NodeIndex, &N) -> CheckResult>(n: IMap<NodeIndex, N>, ch: ISet<NodeIndex>, c: C, x: NodeIndex, ok: bool) -> bool {
  ch.contains(x) && n.contains_key(x) && exists|e: CheckResult| #[trigger] c.ensures((x, &n[x]), e) && e is Ok == ok
}
pub open spec fn link_answer<N: NodeSpec, C: Fn(NodeIndex, NodeIndex, &N, Option<&N>) -> CheckResult>(n: IMap<NodeIndex, N>, ts: ISet<Trip<N>>, c: C, x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum, ok: bool) -> bool {
  ts.contains((x, y, l)) && n.contains_key(x) && exists|e: CheckResult| #[trigger] c.ensures((x, y, &n[x], opt_node(n, y)), e) && e is Ok == ok
}
pub open spec fn added<N: NodeSpec>(n: IMap<NodeIndex, N>, t0: ISet<Trip<N>>) -> ISet<Trip<N>> { ISet::new(|p: Trip<N>| trip(n, p.0, p.1, p.2) && !t0.contains(p)) }
pub open spec fn dropped<N: NodeSpec>(n: IMap<NodeIndex, N>, t0: ISet<Trip<N>>) -> ISet<Trip<N>> { ISet::new(|p: Trip<N>| !trip(n, p.0, p.1, p.2) && t0.contains(p)) }
pub open spec fn nodes_pass<N: NodeSpec, C: Fn(NodeIndex, &N) -> CheckResult>(n: IMap<NodeIndex, N>, ch: ISet<NodeIndex>, c: C) -> bool {
  forall|x: NodeIndex| ch.contains(x) && n.contains_key(x) ==> #[trigger] node_answer(n, ch, c, x, true)
}
pub open spec fn nodes_fail<N: NodeSpec, C: Fn(NodeIndex, &N) -> CheckResult>(n: IMap<NodeIndex, N>, ch: ISet<NodeIndex>, c: C) -> bool {
  exists|x: NodeIndex| #[trigger] node_answer(n, ch, c, x, false)
}
pub open spec fn links_pass<N: NodeSpec, C: Fn(NodeIndex, NodeIndex, &N, Option<&N>) -> CheckResult>(n: IMap<NodeIndex, N>, ts: ISet<Trip<N>>, c: C) -> bool {
  forall|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| ts.contains((x, y, l)) && n.contains_key(x) ==> #[trigger] link_answer(n, ts, c, x, y, l, true)
}
pub open spec fn links_fail<N: NodeSpec, C: Fn(NodeIndex, NodeIndex, &N, Option<&N>) -> CheckResult>(n: IMap<NodeIndex, N>, ts: ISet<Trip<N>>, c: C) -> bool {
  exists|x: NodeIndex, y: NodeIndex, l: N::LinkMirrorEnum| #[trigger] link_answer(n, ts, c, x, y, l, false)
}
pub proof fn rec_sets<N: NodeSpec>(n: IMap<NodeIndex, N>, a: ISet<Trip<N>>, r: ISet<Trip<N>>, t0: ISet<Trip<N>>)
  requires rec(n, a, r, t0)
  ensures a == added(n, t0), r == dropped(n, t0)
{
  reveal(rec);
  assert forall|p: Trip<N>| #[trigger] a.contains(p) == added(n, t0).contains(p) by { assert(p == (p.0, p.1, p.2)); }
  assert forall|p: Trip<N>| #[trigger] r.contains(p) == dropped(n, t0).contains(p) by { assert(p == (p.0, p.1, p.2)); }
  assert(a =~= added(n, t0)); assert(r =~= dropped(n, t0));
}
impl<NodeT: NodeEnum, NC: Fn(NodeIndex, &NodeT) -> CheckResult, LA: Fn(NodeIndex, NodeIndex, &NodeT, Option<&NodeT>) -> CheckResult, LR: Fn(NodeIndex, NodeIndex, &NodeT, Option<&NodeT>) -> CheckResult> GraphCheck<NodeT, NC, LA, LR> {
  /// the checks may be applied to anything
  pub open spec fn total(&self) -> bool {
    &&& forall|k: String, x: NodeIndex, v: &NodeT| self.node_checks@.contains_key(k) ==> #[trigger] self.node_checks@[k].requires((x, v))
    &&& forall|k: String, x: NodeIndex, y: NodeIndex, v: &NodeT, w: Option<&NodeT>| self.link_add_checks@.contains_key(k) ==> #[trigger] self.link_add_checks@[k].requires((x, y, v, w))
    &&& forall|k: String, x: NodeIndex, y: NodeIndex, v: &NodeT, w: Option<&NodeT>| self.link_remove_checks@.contains_key(k) ==> #[trigger] self.link_remove_checks@[k].requires((x, y, v, w))
  }
  pub open spec fn pass(&self, n: IMap<NodeIndex, NodeT>, t0: ISet<Trip<NodeT>>, touched: ISet<NodeIndex>) -> bool {
    &&& forall|k: String| #[trigger] self.node_checks@.contains_key(k) ==> nodes_pass(n, changed(n, t0, touched), self.node_checks@[k])
    &&& forall|k: String| #[trigger] self.link_add_checks@.contains_key(k) ==> links_pass(n, added(n, t0), self.link_add_checks@[k])
    &&& forall|k: String| #[trigger] self.link_remove_checks@.contains_key(k) ==> links_pass(n, dropped(n, t0), self.link_remove_checks@[k])
  }
  pub open spec fn fail(&self, n: IMap<NodeIndex, NodeT>, t0: ISet<Trip<NodeT>>, touched: ISet<NodeIndex>) -> bool {
    ||| exists|k: String| #[trigger] self.node_checks@.contains_key(k) && nodes_fail(n, changed(n, t0, touched), self.node_checks@[k])
    ||| exists|k: String| #[trigger] self.link_add_checks@.contains_key(k) && links_fail(n, added(n, t0), self.link_add_checks@[k])
    ||| exists|k: String| #[trigger] self.link_remove_checks@.contains_key(k) && links_fail(n, dropped(n, t0), self.link_remove_checks@[k])
  }
}
impl<NodeT, Arena> Graph<NodeT, Arena>
where NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>,
{
/*@fn src/typed_graph.rs Graph::check_link_type
#props C05 C13
#requires
  lcr.ok(self.n()),
#requires[T]
  types_ok(self.n(), lcr.base(self.n())),
#ensures
  types_ok(self.n(), lcr.base(self.n())),
#start
  let ghost vf_t0 = lcr.base(self.n());
  proof { rec_sets(self.n(), lcr.adds@, lcr.removes@, vf_t0); reveal(types_ok); }
#loop 0
  forall|i: int| 0 <= i < vf_it0.pos() && self.n().contains_key((#[trigger] vf_all0[i]).1) ==> allowed::<NodeT>(vf_all0[i].2, self.n()[vf_all0[i].1].disc()),
#loop 0 begin
  proof { let p = *vf_all0[vf_it0.pos() - 1]; assert(lcr.adds@.contains(p)); assert(trip(self.n(), p.0, p.1, p.2)); assert(p == (p.0, p.1, p.2)); }
#loop 0 after
  proof {
    assert forall|x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] trip(self.n(), x, y, l) && !vf_t0.contains((x, y, l)) && self.n().contains_key(y) implies allowed::<NodeT>(l, self.n()[y].disc()) by {
      assert(lcr.adds@.contains((x, y, l)));
      let i = choose|i: int| 0 <= i < vf_all0.len() && *#[trigger] vf_all0[i] == (x, y, l);
      assert(vf_all0[i].1 == y);
    }
  }
@*/
/*@fn src/typed_graph.rs Graph::commit
#props C01 C02 C03 C04 C05 C08 C11 C15
#generics
  MF: FnOnce(&mut NodeT), UF: FnOnce(NodeT) -> NodeT
#replace
  Transaction<NodeT, Arena> =>> Transaction<NodeT, Arena, MF, UF>
#requires
  old(self).wf(), t.fits(old(self)),
#requires[T]
  t.valid(old(self)), forall|n2: IMap<NodeIndex, NodeT>| #[trigger] t.committed(old(self).n(), n2) ==> types_ok(n2, trips(old(self).n())),
#ensures
  final(self).wf(), final(self).ctx_id == old(self).ctx_id, final(self).nodes.dist() == old(self).nodes.dist(),
  t.ctx_id == old(self).ctx_id, t.alloc_nodes@ == ISet::<NodeIndex>::empty(),
  t.committed(old(self).n(), final(self).n()), types_ok(final(self).n(), trips(old(self).n())),
#after_call do_commit 0
  proof { rec_base(self.n(), lcr.adds@, lcr.removes@, trips(old(self).n())); }
@*/
/*@fn src/typed_graph.rs Graph::check_change
#props C14
#attr
#[verifier::allow_complex_invariants]
#generics
  NC: Fn(NodeIndex, &NodeT) -> CheckResult, LA: Fn(NodeIndex, NodeIndex, &NodeT, Option<&NodeT>) -> CheckResult, LR: Fn(NodeIndex, NodeIndex, &NodeT, Option<&NodeT>) -> CheckResult
#replace
  GraphCheck<NodeT> =>> GraphCheck<NodeT, NC, LA, LR>
  check_func( =>> (*check_func)(
#requires
  lcr.ok(self.n()), checks.total(),
#ensures
  r@.len() == 0 ==> checks.pass(self.n(), lcr.base(self.n()), lcr.nodes@),
  r@.len() > 0 ==> checks.fail(self.n(), lcr.base(self.n()), lcr.nodes@),
#start
  let ghost vf_n = self.n(); let ghost vf_t0 = lcr.base(self.n()); let ghost vf_ch = changed(vf_n, vf_t0, lcr.nodes@); let ghost vf_bad = checks.fail(vf_n, vf_t0, lcr.nodes@);
  proof { rec_sets(self.n(), lcr.adds@, lcr.removes@, vf_t0); }
#loop 0
  forall|a: NodeIndex| #[trigger] changed_nodes@.contains(a) == (lcr.nodes@.contains(a) || exists|i: int| 0 <= i < vf_it0.pos() && (#[trigger] vf_all0[i]).0 == a),
#loop 0 after
  proof {
  assert(changed_nodes@ =~= vf_ch) by {
    assert forall|a: NodeIndex| #[trigger] changed_nodes@.contains(a) == vf_ch.contains(a) by {
      if relinked(vf_n, vf_t0, a) {
        let (y, l) = choose|y: NodeIndex, l: NodeT::LinkMirrorEnum| #[trigger] trip(vf_n, a, y, l) != vf_t0.contains((a, y, l));
        if trip(vf_n, a, y, l) { assert(lcr.adds@.contains((a, y, l))); } else { assert(lcr.removes@.contains((a, y, l))); }
      }
      if changed_nodes@.contains(a) && !lcr.nodes@.contains(a) {
        let i = choose|i: int| 0 <= i < vf_all0.len() && (#[trigger] vf_all0[i]).0 == a;
        let p = *vf_all0[i];
        assert(p == (p.0, p.1, p.2));
        assert(lcr.adds@.contains(p) || lcr.removes@.contains(p));
        assert(trip(vf_n, a, p.1, p.2) != vf_t0.contains((a, p.1, p.2)));
      }
    }
  }
  }
#loop 1
  failed@.len() > 0 ==> vf_bad,
  failed@.len() == 0 ==> forall|i: int| 0 <= i < vf_it1.pos() ==> nodes_pass(vf_n, vf_ch, *(#[trigger] vf_all1[i]).1),
#loop 1 begin
  let ghost vf_f = failed@; let ghost vf_cf = *check_func;
  proof { assert(checks.node_checks@.contains_key(*vf_all1[vf_it1.pos() - 1].0)); assert(checks.node_checks@[*vf_all1[vf_it1.pos() - 1].0] == *check_func); }
#loop 1 end
  proof { if failed@.len() > 0 && vf_f.len() == 0 { let k = *vf_all1[vf_it1.pos() - 1].0; assert(checks.node_checks@.contains_key(k) && nodes_fail(vf_n, vf_ch, checks.node_checks@[k])); } assert(failed@.len() == 0 ==> nodes_pass(vf_n, vf_ch, *vf_all1[vf_it1.pos() - 1].1)); }
#loop 1 after
  proof {
    if failed@.len() == 0 {
      assert forall|k: String| #[trigger] checks.node_checks@.contains_key(k) implies nodes_pass(vf_n, vf_ch, checks.node_checks@[k]) by {
        let i = choose|i: int| 0 <= i < vf_all1.len() && *(#[trigger] vf_all1[i]).0 == k;
        assert(checks.node_checks@[*vf_all1[i].0] == *vf_all1[i].1);
      }
    }
  }
#loop 2 except_break
  failed@ == vf_f,
  forall|i: int| 0 <= i < vf_it2.pos() ==> vf_n.contains_key(*#[trigger] vf_all2[i]) ==> node_answer(vf_n, vf_ch, vf_cf, *vf_all2[i], true),
#loop 2 ensures
  failed@.len() > 0 ==> vf_f.len() > 0 || nodes_fail(vf_n, vf_ch, vf_cf),
  failed@.len() == 0 ==> vf_f.len() == 0 && nodes_pass(vf_n, vf_ch, vf_cf),
#after_call push 0
  proof { assert(node_answer(vf_n, vf_ch, vf_cf, *x, false)); }
#loop 2 begin
  proof { assert(vf_ch.contains(*vf_all2[vf_it2.pos() - 1])); }
#loop 3
  failed@.len() > 0 ==> vf_bad,
  failed@.len() == 0 ==> forall|k: String| #[trigger] checks.node_checks@.contains_key(k) ==> nodes_pass(vf_n, vf_ch, checks.node_checks@[k]),
  failed@.len() == 0 ==> forall|i: int| 0 <= i < vf_it3.pos() ==> links_pass(vf_n, added(vf_n, vf_t0), *(#[trigger] vf_all3[i]).1),
#loop 3 begin
  let ghost vf_f = failed@; let ghost vf_cf = *check_func;
  proof { assert(checks.link_add_checks@.contains_key(*vf_all3[vf_it3.pos() - 1].0)); assert(checks.link_add_checks@[*vf_all3[vf_it3.pos() - 1].0] == *check_func); }
#loop 3 end
  proof { if failed@.len() > 0 && vf_f.len() == 0 { let k = *vf_all3[vf_it3.pos() - 1].0; assert(checks.link_add_checks@.contains_key(k) && links_fail(vf_n, added(vf_n, vf_t0), checks.link_add_checks@[k])); } assert(failed@.len() == 0 ==> links_pass(vf_n, added(vf_n, vf_t0), *vf_all3[vf_it3.pos() - 1].1)); }
#loop 3 after
  proof {
    if failed@.len() == 0 {
      assert forall|k: String| #[trigger] checks.link_add_checks@.contains_key(k) implies links_pass(vf_n, added(vf_n, vf_t0), checks.link_add_checks@[k]) by {
        let i = choose|i: int| 0 <= i < vf_all3.len() && *(#[trigger] vf_all3[i]).0 == k;
        assert(checks.link_add_checks@[*vf_all3[i].0] == *vf_all3[i].1);
      }
    }
  }
#loop 4 except_break
  failed@ == vf_f,
  forall|i: int| 0 <= i < vf_it4.pos() ==> vf_n.contains_key((#[trigger] vf_all4[i]).0) ==> link_answer(vf_n, added(vf_n, vf_t0), vf_cf, vf_all4[i].0, vf_all4[i].1, vf_all4[i].2, true),
#loop 4 ensures
  failed@.len() > 0 ==> vf_f.len() > 0 || links_fail(vf_n, added(vf_n, vf_t0), vf_cf),
  failed@.len() == 0 ==> vf_f.len() == 0 && links_pass(vf_n, added(vf_n, vf_t0), vf_cf),
#after_call push 1
  proof { let p = *vf_all4[vf_it4.pos() - 1]; assert(link_answer(vf_n, added(vf_n, vf_t0), vf_cf, p.0, p.1, p.2, false)); }
#loop 4 begin
  proof { let p = *vf_all4[vf_it4.pos() - 1]; assert(added(vf_n, vf_t0).contains(p)); assert(p == (p.0, p.1, p.2)); assert(added(vf_n, vf_t0).contains((p.0, p.1, p.2))); }
#loop 5
  failed@.len() > 0 ==> vf_bad,
  failed@.len() == 0 ==> forall|k: String| #[trigger] checks.node_checks@.contains_key(k) ==> nodes_pass(vf_n, vf_ch, checks.node_checks@[k]),
  failed@.len() == 0 ==> forall|k: String| #[trigger] checks.link_add_checks@.contains_key(k) ==> links_pass(vf_n, added(vf_n, vf_t0), checks.link_add_checks@[k]),
  failed@.len() == 0 ==> forall|i: int| 0 <= i < vf_it5.pos() ==> links_pass(vf_n, dropped(vf_n, vf_t0), *(#[trigger] vf_all5[i]).1),
#loop 5 begin
  let ghost vf_f = failed@; let ghost vf_cf = *check_func;
  proof { assert(checks.link_remove_checks@.contains_key(*vf_all5[vf_it5.pos() - 1].0)); assert(checks.link_remove_checks@[*vf_all5[vf_it5.pos() - 1].0] == *check_func); }
#loop 5 end
  proof { if failed@.len() > 0 && vf_f.len() == 0 { let k = *vf_all5[vf_it5.pos() - 1].0; assert(checks.link_remove_checks@.contains_key(k) && links_fail(vf_n, dropped(vf_n, vf_t0), checks.link_remove_checks@[k])); } assert(failed@.len() == 0 ==> links_pass(vf_n, dropped(vf_n, vf_t0), *vf_all5[vf_it5.pos() - 1].1)); }
#loop 5 after
  proof {
    if failed@.len() == 0 {
      assert forall|k: String| #[trigger] checks.link_remove_checks@.contains_key(k) implies links_pass(vf_n, dropped(vf_n, vf_t0), checks.link_remove_checks@[k]) by {
        let i = choose|i: int| 0 <= i < vf_all5.len() && *(#[trigger] vf_all5[i]).0 == k;
        assert(checks.link_remove_checks@[*vf_all5[i].0] == *vf_all5[i].1);
      }
    }
  }
#loop 6 except_break
  failed@ == vf_f,
  forall|i: int| 0 <= i < vf_it6.pos() ==> vf_n.contains_key((#[trigger] vf_all6[i]).0) ==> link_answer(vf_n, dropped(vf_n, vf_t0), vf_cf, vf_all6[i].0, vf_all6[i].1, vf_all6[i].2, true),
#loop 6 ensures
  failed@.len() > 0 ==> vf_f.len() > 0 || links_fail(vf_n, dropped(vf_n, vf_t0), vf_cf),
  failed@.len() == 0 ==> vf_f.len() == 0 && links_pass(vf_n, dropped(vf_n, vf_t0), vf_cf),
#after_call push 2
  proof { let p = *vf_all6[vf_it6.pos() - 1]; assert(link_answer(vf_n, dropped(vf_n, vf_t0), vf_cf, p.0, p.1, p.2, false)); }
#loop 6 begin
  proof { let p = *vf_all6[vf_it6.pos() - 1]; assert(dropped(vf_n, vf_t0).contains(p)); assert(p == (p.0, p.1, p.2)); assert(dropped(vf_n, vf_t0).contains((p.0, p.1, p.2))); }
@*/
}
// ---------------- C01, C04 for a whole commit ----------------
/// C01: a removed node is gone and nothing links to it; every other node is what the stages made of it, up to partners
pub proof fn commit_removes<NodeT, Arena, MF, UF>(t: Transaction<NodeT, Arena, MF, UF>, n: IMap<NodeIndex, NodeT>, n2: IMap<NodeIndex, NodeT>, x: NodeIndex)
  where NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>, MF: FnOnce(&mut NodeT), UF: FnOnce(NodeT) -> NodeT
  requires t.committed(n, n2), t.dec_nodes@.contains(x)
  ensures !n2.contains_key(x), forall|a: NodeIndex, s: NodeT::SourceEnum| !#[trigger] fwd(n2, a, x, s)
{
  let m6 = choose|m: IMap<NodeIndex, NodeT>| #[trigger] t.staged(n, m) && bd_applied(m, n2, trips(n));
  reveal(staged); reveal(removed); reveal(bd_applied); reveal(bd_cut); reveal(bd_add);
  let m7 = choose|m: IMap<NodeIndex, NodeT>| #[trigger] bd_cut(m6, m, trips(n)) && bd_add(m, n2, trips(n));
  assert(!m6.dom().contains(x)); assert(!m7.dom().contains(x)); assert(!n2.dom().contains(x));
  assert forall|a: NodeIndex, s: NodeT::SourceEnum| !#[trigger] fwd(n2, a, x, s) by {
    if fwd(n2, a, x, s) {
      assert(!fwd(m6, a, x, s)); assert(!fwd(m7, a, x, s));
      assert(wanted(m7, trips(n), a, x, NodeT::mirror(s)));
    }
  }
}
/// C04: a commit keeps a symmetric pair symmetric
pub proof fn commit_symmetric<NodeT, Arena, MF, UF>(t: Transaction<NodeT, Arena, MF, UF>, n: IMap<NodeIndex, NodeT>, n2: IMap<NodeIndex, NodeT>, l: NodeT::LinkMirrorEnum, q: NodeT::LinkMirrorEnum)
  where NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>, MF: FnOnce(&mut NodeT), UF: FnOnce(NodeT) -> NodeT
  requires
    t.committed(n, n2), good_pair::<NodeT>(l, q), symmetric(n, trips(n), l, q), closed(n, n.dom()),
    // no node changes its type
    forall|a: NodeIndex| #[trigger] n.contains_key(a) && n2.contains_key(a) ==> n2[a].disc() == n[a].disc(),
  ensures symmetric(n2, trips(n2), l, q)
{
  let t0 = trips(n);
  let m = choose|m: IMap<NodeIndex, NodeT>| #[trigger] t.staged(n, m) && bd_applied(m, n2, t0);
  assert(same_shape(m, n2)) by {
    reveal(bd_applied); reveal(bd_cut); reveal(bd_add);
    let k = choose|k: IMap<NodeIndex, NodeT>| #[trigger] bd_cut(m, k, t0) && bd_add(k, n2, t0);
    assert forall|a: NodeIndex| #[trigger] n2.contains_key(a) implies n2[a].data() == m[a].data() && n2[a].disc() == m[a].disc() by { assert(n2.dom().contains(a)); assert(k.contains_key(a)); }
  }
  assert forall|x: NodeIndex| #[trigger] m.contains_key(x) && n.contains_key(x) implies m[x].disc() == n[x].disc() by { assert(m.dom().contains(x)); assert(n2.contains_key(x)); }
  assert(typed_base(m, t0)) by {
    assert forall|x: NodeIndex, y: NodeIndex, k: NodeT::LinkMirrorEnum| #[trigger] t0.contains((x, y, k)) && m.contains_key(x) implies NodeT::owner(k) == m[x].disc() by {
      let s = trip_of(n, x, y, k); n[x].law_links(y, s);
    }
  }
  assert(symmetric(m, t0, l, q)) by {
    reveal(closed);
    assert forall|x: NodeIndex, y: NodeIndex| #![trigger t0.contains((x, y, l))] #![trigger t0.contains((y, x, q))] m.contains_key(x) && m.contains_key(y) && m[x].disc() == NodeT::owner(l) && m[y].disc() == NodeT::owner(q)
      implies t0.contains((x, y, l)) == t0.contains((y, x, q)) by {
      if trip(n, x, y, l) { let s = trip_of(n, x, y, l); assert(into(n[x], n.dom())); assert(n[x].links().contains((y, s))); assert(n.dom().contains(y)); }
      if trip(n, y, x, q) { let s = trip_of(n, y, x, q); assert(into(n[y], n.dom())); assert(n[y].links().contains((x, s))); assert(n.dom().contains(x)); }
    }
  }
  bd_keeps_symmetric(m, n2, t0, l, q);
}
