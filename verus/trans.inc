impl<NodeT, Arena> Graph<NodeT, Arena>
where NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>,
{
/*@fn src/typed_graph.rs Graph::commit_checked
#props C14 C01 C02 C03 C04 C05 C08 C11 C15
#generics
  MF: FnOnce(&mut NodeT), UF: FnOnce(NodeT) -> NodeT, NC: Fn(NodeIndex, &NodeT) -> CheckResult, LA: Fn(NodeIndex, NodeIndex, &NodeT, Option<&NodeT>) -> CheckResult, LR: Fn(NodeIndex, NodeIndex, &NodeT, Option<&NodeT>) -> CheckResult
#replace
  Transaction<NodeT, Arena> =>> Transaction<NodeT, Arena, MF, UF>
  GraphCheck<NodeT> =>> GraphCheck<NodeT, NC, LA, LR>
#requires
  old(self).wf(), t.fits(old(self)), checks.total(),
#requires[T]
  t.valid(old(self)), forall|n2: IMap<NodeIndex, NodeT>| #[trigger] t.committed(old(self).n(), n2) ==> types_ok(n2, trips(old(self).n())) && !checks.fail(n2, trips(old(self).n()), t.touched()),
#ensures
  final(self).wf(), final(self).ctx_id == old(self).ctx_id, final(self).nodes.dist() == old(self).nodes.dist(),
  t.ctx_id == old(self).ctx_id, t.alloc_nodes@ == ISet::<NodeIndex>::empty(),
  t.committed(old(self).n(), final(self).n()), types_ok(final(self).n(), trips(old(self).n())),
  checks.pass(final(self).n(), trips(old(self).n()), t.touched()),
#after_call do_commit 0
  proof { rec_base(self.n(), lcr.adds@, lcr.removes@, trips(old(self).n())); }
@*/
}
impl<NodeT: NodeEnum, NC: Fn(NodeIndex, &NodeT) -> CheckResult, LA: Fn(NodeIndex, NodeIndex, &NodeT, Option<&NodeT>) -> CheckResult, LR: Fn(NodeIndex, NodeIndex, &NodeT, Option<&NodeT>) -> CheckResult> GraphCheck<NodeT, NC, LA, LR> {
/*@fn src/typed_graph/check.rs GraphCheck::new
#props C14
#replace
  GraphCheck { =>> GraphCheck { vf_p: std::marker::PhantomData,
#ensures
  r.node_checks@ == IMap::<String, NC>::empty(), r.link_add_checks@ == IMap::<String, LA>::empty(), r.link_remove_checks@ == IMap::<String, LR>::empty(),
@*/
/*@fn src/typed_graph/check.rs GraphCheck::insert_node_check
#props C14
#box fn
#replace
  impl Fn(NodeIndex, &NodeT) -> CheckResult + 'static =>> NC
#ensures
  final(self).node_checks@ == old(self).node_checks@.insert(name, func), final(self).link_add_checks@ == old(self).link_add_checks@, final(self).link_remove_checks@ == old(self).link_remove_checks@,
@*/
/*@fn src/typed_graph/check.rs GraphCheck::insert_link_add_check
#props C14
#box fn
#replace
  impl Fn(NodeIndex, NodeIndex, &NodeT, Option<&NodeT>) -> CheckResult + 'static =>> LA
#ensures
  final(self).link_add_checks@ == old(self).link_add_checks@.insert(name, func), final(self).node_checks@ == old(self).node_checks@, final(self).link_remove_checks@ == old(self).link_remove_checks@,
@*/
/*@fn src/typed_graph/check.rs GraphCheck::insert_link_remove_check
#props C14
#box fn
#replace
  impl Fn(NodeIndex, NodeIndex, &NodeT, Option<&NodeT>) -> CheckResult + 'static =>> LR
#ensures
  final(self).link_remove_checks@ == old(self).link_remove_checks@.insert(name, func), final(self).node_checks@ == old(self).node_checks@, final(self).link_add_checks@ == old(self).link_add_checks@,
@*/
/*@fn src/typed_graph/check.rs GraphCheck::remove_node_check
#props C14
#ensures
  without(old(self).node_checks@, final(self).node_checks@, name@), final(self).link_add_checks@ == old(self).link_add_checks@, final(self).link_remove_checks@ == old(self).link_remove_checks@,
@*/
/*@fn src/typed_graph/check.rs GraphCheck::remove_link_add_check
#props C14
#ensures
  without(old(self).link_add_checks@, final(self).link_add_checks@, name@), final(self).node_checks@ == old(self).node_checks@, final(self).link_remove_checks@ == old(self).link_remove_checks@,
@*/
/*@fn src/typed_graph/check.rs GraphCheck::remove_link_remove_check
#props C14
#ensures
  without(old(self).link_remove_checks@, final(self).link_remove_checks@, name@), final(self).node_checks@ == old(self).node_checks@, final(self).link_add_checks@ == old(self).link_add_checks@,
@*/
/*@fn src/typed_graph/check.rs GraphCheck as Default::default
#props C14
#ensures
  r.node_checks@ == IMap::<String, NC>::empty(), r.link_add_checks@ == IMap::<String, LA>::empty(), r.link_remove_checks@ == IMap::<String, LR>::empty(),
@*/
}
/// the check of that name is gone, the others stay
pub open spec fn without<F>(a: IMap<String, F>, b: IMap<String, F>, name: Seq<char>) -> bool {
  &&& forall|x: String| #[trigger] b.contains_key(x) == (a.contains_key(x) && x@ != name)
  &&& forall|x: String| #[trigger] b.contains_key(x) ==> b[x] == a[x]
}

// ---------------- C08, C03, C11: recording operations ----------------
pub proof fn no_nodes<K, V>(m: IMap<K, V>)
  requires m.dom().finite()
  ensures (m.dom().len() == 0) == (m == IMap::<K, V>::empty())
{
  if m.dom().len() == 0 { assert(m.dom() =~= ISet::<K>::empty()); assert(m =~= IMap::<K, V>::empty()); }
}
impl<NodeT, Arena, MF, UF> Transaction<NodeT, Arena, MF, UF>
where NodeT: NodeEnum, Arena: CateArena<V = NodeT, D = NodeT::Discriminant>, MF: FnOnce(&mut NodeT), UF: FnOnce(NodeT) -> NodeT,
{
  /// all that a transaction will do, apart from its new nodes
  pub open spec fn rest(&self) -> (ISet<NodeIndex>, Seq<(NodeIndex, MF)>, Seq<(NodeIndex, UF)>, Seq<(NodeIndex, NodeIndex)>, Seq<(NodeIndex, NodeIndex)>) {
    (self.dec_nodes@, self.mut_nodes@, self.update_nodes@, self.redirect_all_links_vec@, self.redirect_links_vec@)
  }
  pub open spec fn i(&self) -> IMap<NodeIndex, NodeT> { nodes_of(self.inc_nodes) }
  pub open spec fn same_home(&self, o: &Self) -> bool { self.ctx_id == o.ctx_id && self.inc_nodes.dist() == o.inc_nodes.dist() }
/*@fn src/typed_graph/transaction.rs Transaction::new
#props C08 C06 C11
#ensures
  r.ctx_id == context.id, r.inc_nodes.dist() == context.node_dist, arena_wf(r.inc_nodes),
  r.alloc_nodes@ == ISet::<NodeIndex>::empty(), r.i() == IMap::<NodeIndex, NodeT>::empty(), r.inc_nodes.disp() == IMap::<NodeIndex, NodeT::Discriminant>::empty(),
  r.rest() == (ISet::<NodeIndex>::empty(), Seq::<(NodeIndex, MF)>::empty(), Seq::<(NodeIndex, UF)>::empty(), Seq::<(NodeIndex, NodeIndex)>::empty(), Seq::<(NodeIndex, NodeIndex)>::empty()),
#end
  proof { reveal(nodes_of); reveal(arena_wf); assert(vf_ret.i() =~= IMap::<NodeIndex, NodeT>::empty()); }
@*/
/*@fn src/typed_graph/transaction.rs Transaction::alloc
#props C08 C06
#requires
  arena_wf(old(self).inc_nodes),
#ensures
  arena_wf(final(self).inc_nodes), final(self).same_home(old(self)), final(self).rest() == old(self).rest(), final(self).i() == old(self).i(),
  r.0 != 0, old(self).inc_nodes.dist().drawn(r.0), !old(self).inc_nodes.disp().contains_key(r),
  final(self).alloc_nodes@ == old(self).alloc_nodes@.insert(r), final(self).inc_nodes.disp() == old(self).inc_nodes.disp().insert(r, d),
#end
  proof { reveal(nodes_of); reveal(arena_wf); assert(self.i() =~= old(self).i()); }
@*/
/*@fn src/typed_graph/transaction.rs Transaction::alloc_untyped
#props C08 C06
#requires
  arena_wf(old(self).inc_nodes),
#ensures
  arena_wf(final(self).inc_nodes), final(self).same_home(old(self)), final(self).rest() == old(self).rest(), final(self).i() == old(self).i(),
  r.0 != 0, old(self).inc_nodes.dist().drawn(r.0),
  final(self).alloc_nodes@ == old(self).alloc_nodes@.insert(r), final(self).inc_nodes.disp() == old(self).inc_nodes.disp(),
#end
  proof { reveal(nodes_of); reveal(arena_wf); assert(self.i() =~= old(self).i()); }
@*/
/*@fn src/typed_graph/transaction.rs Transaction::fill_back
#props C08 C03
#requires
  arena_wf(old(self).inc_nodes),
#requires[T]
  old(self).inc_nodes.disp().contains_key(idx), old(self).inc_nodes.disp()[idx] == data.disc(), !old(self).i().contains_key(idx),
#ensures
  arena_wf(final(self).inc_nodes), final(self).same_home(old(self)), final(self).rest() == old(self).rest(),
  !old(self).i().contains_key(idx), old(self).inc_nodes.disp().contains_key(idx), old(self).inc_nodes.disp()[idx] == data.disc(),
  final(self).i() == old(self).i().insert(idx, data), final(self).alloc_nodes@ == old(self).alloc_nodes@.remove(idx), final(self).inc_nodes.disp() == old(self).inc_nodes.disp(),
@*/
/*@fn src/typed_graph/transaction.rs Transaction::fill_back_untyped
#props C08 C03
#requires
  arena_wf(old(self).inc_nodes),
#requires[T]
  !old(self).i().contains_key(idx),
#ensures
  arena_wf(final(self).inc_nodes), final(self).same_home(old(self)), final(self).rest() == old(self).rest(),
  !old(self).i().contains_key(idx),
  final(self).i() == old(self).i().insert(idx, data), final(self).alloc_nodes@ == old(self).alloc_nodes@.remove(idx), final(self).inc_nodes.disp() == old(self).inc_nodes.disp().insert(idx, data.disc()),
@*/
/*@fn src/typed_graph/transaction.rs Transaction::insert
#props C03 C06 C08
#requires
  arena_wf(old(self).inc_nodes),
#ensures
  arena_wf(final(self).inc_nodes), final(self).same_home(old(self)), final(self).rest() == old(self).rest(), final(self).alloc_nodes@ == old(self).alloc_nodes@,
  r.0 != 0, old(self).inc_nodes.dist().drawn(r.0), !old(self).i().contains_key(r),
  final(self).i() == old(self).i().insert(r, data),
@*/
/*@fn src/typed_graph/transaction.rs Transaction::remove
#props C08 C03 C01
#requires
  arena_wf(old(self).inc_nodes),
#ensures
  arena_wf(final(self).inc_nodes), final(self).same_home(old(self)), final(self).i() == old(self).i().remove(node),
  final(self).mut_nodes@ == old(self).mut_nodes@, final(self).update_nodes@ == old(self).update_nodes@, final(self).redirect_all_links_vec@ == old(self).redirect_all_links_vec@, final(self).redirect_links_vec@ == old(self).redirect_links_vec@,
  old(self).i().contains_key(node) ==> final(self).alloc_nodes@ == old(self).alloc_nodes@ && final(self).dec_nodes@ == old(self).dec_nodes@,
  !old(self).i().contains_key(node) && old(self).alloc_nodes@.contains(node) ==> final(self).alloc_nodes@ == old(self).alloc_nodes@.remove(node) && final(self).dec_nodes@ == old(self).dec_nodes@,
  !old(self).i().contains_key(node) && !old(self).alloc_nodes@.contains(node) ==> final(self).alloc_nodes@ == old(self).alloc_nodes@ && final(self).dec_nodes@ == old(self).dec_nodes@.insert(node),
#end
  proof { if !old(self).alloc_nodes@.contains(node) { assert(old(self).alloc_nodes@.remove(node) =~= old(self).alloc_nodes@); } }
@*/
/*@fn src/typed_graph/transaction.rs Transaction::mutate
#props C03 C08
#box fn
#replace
  <F>( =>> (
  func: F =>> func: MF
#where
  where NodeT: Sized
#requires
  arena_wf(old(self).inc_nodes), forall|x: &mut NodeT| func.requires((x,)),
#ensures
  arena_wf(final(self).inc_nodes), final(self).same_home(old(self)), final(self).alloc_nodes@ == old(self).alloc_nodes@,
  final(self).dec_nodes@ == old(self).dec_nodes@, final(self).update_nodes@ == old(self).update_nodes@, final(self).redirect_all_links_vec@ == old(self).redirect_all_links_vec@, final(self).redirect_links_vec@ == old(self).redirect_links_vec@,
  old(self).i().contains_key(node) ==> mut_step(old(self).i(), final(self).i(), node, func) && final(self).mut_nodes@ == old(self).mut_nodes@,
  !old(self).i().contains_key(node) ==> final(self).i() == old(self).i() && final(self).mut_nodes@ == old(self).mut_nodes@.push((node, func)),
@*/
/*@fn src/typed_graph/transaction.rs Transaction::update
#props C03 C08
#box fn
#replace
  <F>( =>> (
  func: F =>> func: UF
#where
  where NodeT: Sized
#requires
  arena_wf(old(self).inc_nodes), forall|x: NodeT| func.requires((x,)),
#ensures
  arena_wf(final(self).inc_nodes), final(self).same_home(old(self)), final(self).alloc_nodes@ == old(self).alloc_nodes@,
  final(self).dec_nodes@ == old(self).dec_nodes@, final(self).mut_nodes@ == old(self).mut_nodes@, final(self).redirect_all_links_vec@ == old(self).redirect_all_links_vec@, final(self).redirect_links_vec@ == old(self).redirect_links_vec@,
  old(self).i().contains_key(node) ==> upd_step(old(self).i(), final(self).i(), node, func) && final(self).update_nodes@ == old(self).update_nodes@,
  !old(self).i().contains_key(node) ==> final(self).i() == old(self).i() && final(self).update_nodes@ == old(self).update_nodes@.push((node, func)),
@*/
/*@fn src/typed_graph/transaction.rs Transaction::redirect_all_links
#props C02 C03
#ensures
  final(self).inc_nodes == old(self).inc_nodes, final(self).ctx_id == old(self).ctx_id, final(self).alloc_nodes@ == old(self).alloc_nodes@,
  final(self).rest() == (old(self).dec_nodes@, old(self).mut_nodes@, old(self).update_nodes@, old(self).redirect_all_links_vec@.push((old_node, new_node)), old(self).redirect_links_vec@),
@*/
/*@fn src/typed_graph/transaction.rs Transaction::redirect_links
#props C02 C03
#ensures
  final(self).inc_nodes == old(self).inc_nodes, final(self).ctx_id == old(self).ctx_id, final(self).alloc_nodes@ == old(self).alloc_nodes@,
  final(self).rest() == (old(self).dec_nodes@, old(self).mut_nodes@, old(self).update_nodes@, old(self).redirect_all_links_vec@, old(self).redirect_links_vec@.push((old_node, new_node))),
@*/
/*@fn src/typed_graph/transaction.rs Transaction::merge
#props C11
#requires
  arena_wf(old(self).inc_nodes), graph.wf(), old(self).inc_nodes.disp().dom().disjoint(graph.nodes.disp().dom()),
#requires[T]
  old(self).ctx_id == graph.ctx_id,
#ensures
  old(self).ctx_id == graph.ctx_id, arena_wf(final(self).inc_nodes), final(self).same_home(old(self)), final(self).rest() == old(self).rest(), final(self).alloc_nodes@ == old(self).alloc_nodes@,
  final(self).i() == old(self).i().union_prefer_right(graph.n()),
@*/
/*@fn src/typed_graph/transaction.rs Transaction::is_empty
#props C08
#requires
  arena_wf(self.inc_nodes),
#ensures
  r == (self.alloc_nodes@ == ISet::<NodeIndex>::empty() && self.i() == IMap::<NodeIndex, NodeT>::empty()
    && self.rest() == (ISet::<NodeIndex>::empty(), Seq::<(NodeIndex, MF)>::empty(), Seq::<(NodeIndex, UF)>::empty(), Seq::<(NodeIndex, NodeIndex)>::empty(), Seq::<(NodeIndex, NodeIndex)>::empty())),
#start
  proof {
    if self.i().dom().finite() { no_nodes(self.i()); }
    assert(self.mut_nodes@.len() == 0 ==> self.mut_nodes@ =~= Seq::<(NodeIndex, MF)>::empty());
    assert(self.update_nodes@.len() == 0 ==> self.update_nodes@ =~= Seq::<(NodeIndex, UF)>::empty());
    assert(self.redirect_links_vec@.len() == 0 ==> self.redirect_links_vec@ =~= Seq::<(NodeIndex, NodeIndex)>::empty());
    assert(self.redirect_all_links_vec@.len() == 0 ==> self.redirect_all_links_vec@ =~= Seq::<(NodeIndex, NodeIndex)>::empty());
  }
@*/
/*@fn src/typed_graph/transaction.rs Transaction as Extend::extend
#props C03
#sig
  fn extend(&mut self, iter: VIter<NodeT>)
#requires
  arena_wf(old(self).inc_nodes), iter.pos() == 0,
#ensures
  arena_wf(final(self).inc_nodes), final(self).same_home(old(self)), final(self).rest() == old(self).rest(), final(self).alloc_nodes@ == old(self).alloc_nodes@,
  exists|ids: Seq<NodeIndex>| #[trigger] all_added(old(self).i(), final(self).i(), ids, iter.all(), iter.all().len()),
#start
  let ghost vf_src = iter.all();
  let ghost mut vf_ids = Seq::<NodeIndex>::empty();
#loop 0
  arena_wf(self.inc_nodes), self.same_home(old(self)), self.rest() == old(self).rest(), self.alloc_nodes@ == old(self).alloc_nodes@,
  vf_all0 == vf_src, all_added(old(self).i(), self.i(), vf_ids, vf_src, vf_it0.pos()),
#loop 0 begin
  let ghost vf_pre = self.i(); let ghost vf_x = x;
#loop 0 end
  proof {
    let r = choose|r: NodeIndex| r.0 != 0 && !vf_pre.contains_key(r) && self.i() == vf_pre.insert(r, vf_x);
    assert(r.0 != 0 && !vf_pre.contains_key(r) && self.i() == vf_pre.insert(r, vf_x));
    let ids2 = vf_ids.push(r);
    assert forall|k: NodeIndex| #[trigger] self.i().contains_key(k) == (old(self).i().contains_key(k) || ids2.contains(k)) by {
      if vf_ids.contains(k) { let j = choose|j: int| 0 <= j < vf_ids.len() && vf_ids[j] == k; assert(ids2[j] == k); }
      if k == r { assert(ids2[vf_ids.len() as int] == r); }
      if ids2.contains(k) && k != r { let j = choose|j: int| 0 <= j < ids2.len() && ids2[j] == k; assert(vf_ids[j] == k); }
      assert(vf_pre.contains_key(k) == (old(self).i().contains_key(k) || vf_ids.contains(k)));
    }
    assert forall|j: int| 0 <= j < ids2.len() implies (#[trigger] ids2[j]).0 != 0 && !old(self).i().contains_key(ids2[j]) && self.i()[ids2[j]] == vf_src[j] by {
      if j < vf_ids.len() { assert(ids2[j] == vf_ids[j]); assert(vf_ids.contains(vf_ids[j])); assert(vf_pre.contains_key(vf_ids[j])); }
    }
    assert forall|j: int, k: int| 0 <= j < k < ids2.len() implies ids2[j] != ids2[k] by {
      if k == vf_ids.len() { assert(vf_ids.contains(vf_ids[j])); assert(vf_pre.contains_key(vf_ids[j])); } else { assert(vf_ids[j] != vf_ids[k]); }
    }
    vf_ids = ids2;
  }
@*/
}
/// m is n with the first k of vs under the new indices ids
pub open spec fn all_added<N>(n: IMap<NodeIndex, N>, m: IMap<NodeIndex, N>, ids: Seq<NodeIndex>, vs: Seq<N>, k: nat) -> bool {
  &&& ids.len() == k && ids.no_duplicates()
  &&& forall|j: int| 0 <= j < k ==> (#[trigger] ids[j]).0 != 0 && !n.contains_key(ids[j]) && m[ids[j]] == vs[j]
  &&& forall|c: NodeIndex| #[trigger] m.contains_key(c) == (n.contains_key(c) || ids.contains(c))
  &&& forall|c: NodeIndex| #[trigger] n.contains_key(c) ==> m[c] == n[c]
}
