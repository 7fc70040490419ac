// ---------------- the exported macro_rules macros, on the declaration gc ----------------
// A closure that a macro makes is passed on as a parameter of the calling function; its own body is a function of its own.
#[verifier::prophetic] pub open spec fn recorded_mut<MF: FnOnce(&mut Gc), UF: FnOnce(Gc) -> Gc>(a: &Transaction<Gc, GcArena, MF, UF>, b: &Transaction<Gc, GcArena, MF, UF>, i: NodeIndex, f: MF) -> bool {
  &&& arena_wf(b.inc_nodes) && b.same_home(a) && b.alloc_nodes@ == a.alloc_nodes@ && b.dec_nodes@ == a.dec_nodes@ && b.update_nodes@ == a.update_nodes@ && b.redirect_all_links_vec@ == a.redirect_all_links_vec@ && b.redirect_links_vec@ == a.redirect_links_vec@
  &&& a.i().contains_key(i) ==> mut_step(a.i(), b.i(), i, f) && b.mut_nodes@ == a.mut_nodes@
  &&& !a.i().contains_key(i) ==> b.i() == a.i() && b.mut_nodes@ == a.mut_nodes@.push((i, f))
}
pub open spec fn recorded_upd<MF: FnOnce(&mut Gc), UF: FnOnce(Gc) -> Gc>(a: &Transaction<Gc, GcArena, MF, UF>, b: &Transaction<Gc, GcArena, MF, UF>, i: NodeIndex, f: UF) -> bool {
  &&& arena_wf(b.inc_nodes) && b.same_home(a) && b.alloc_nodes@ == a.alloc_nodes@ && b.dec_nodes@ == a.dec_nodes@ && b.mut_nodes@ == a.mut_nodes@ && b.redirect_all_links_vec@ == a.redirect_all_links_vec@ && b.redirect_links_vec@ == a.redirect_links_vec@
  &&& a.i().contains_key(i) ==> upd_step(a.i(), b.i(), i, f) && b.update_nodes@ == a.update_nodes@
  &&& !a.i().contains_key(i) ==> b.i() == a.i() && b.update_nodes@ == a.update_nodes@.push((i, f))
}
/*@fn gen:mac.rs ::m_get
#props C07
#sig
  pub fn m_get<'a>(g: &'a Graph<Gc, GcArena>, i: NodeIndex) -> (r: Option<&'a Only>)
#ensures
  r is Some == (g.n().contains_key(i) && g.n()[i] is Only),
  r is Some ==> g.n()[i] == Gc::Only(*(r->0)),
@*/
impl<'a, V> NodeIterator<'a, V>
where V: NodeEnum + 'static,
{
  #[verifier::loop_isolation(true)]
  fn vf_into_iter(self) -> (r: VIter<(NodeIndex, &'a V)>)
    requires self.iter.pos() <= self.iter.all().len(),
    ensures node_items(self.iter.all(), self.iter.pos(), r.all()), r.pos() == 0,
  {
    let mut it = self;
    let ghost all = it.iter.all();
    let ghost p0 = it.iter.pos();
    let mut acc: Vec<(NodeIndex, &'a V)> = Vec::new();
    loop
      invariant it.iter.all() == all, p0 == self.iter.pos(), p0 <= it.iter.pos() <= all.len(), acc@.len() == it.iter.pos() - p0,
        forall|i: int| 0 <= i < acc@.len() ==> #[trigger] acc@[i] == (NodeIndex(*all[p0 + i].0), all[p0 + i].1),
      ensures it.iter.pos() == all.len()
      decreases all.len() - it.iter.pos()
    {
      match it.next() {
        Some(x) => { acc.push(x); },
        None => { break; },
      }
    }
    acc.vf_into_iter()
  }
}
pub open spec fn node_items<'a, V>(all: Seq<(&'a usize, &'a V)>, p: nat, s: Seq<(NodeIndex, &'a V)>) -> bool {
  &&& s.len() == all.len() - p
  &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (NodeIndex(*all[p + i].0), all[p + i].1)
  &&& forall|j: int| p <= j < all.len() ==> s[j - p] == (NodeIndex(*(#[trigger] all[j]).0), all[j].1)
}
pub open spec fn m_items<'a>(all: Seq<(NodeIndex, &'a Gc)>, s: Seq<(NodeIndex, &'a Nil)>, p: nat) -> bool {
  &&& s.len() == p
  &&& forall|i: int| 0 <= i < p ==> (#[trigger] s[i]).0 == all[i].0 && *all[i].1 == Gc::Nil(*s[i].1)
  &&& forall|i: int| 0 <= i < p ==> s[i].0 == (#[trigger] all[i]).0
}
/*@fn gen:mac.rs ::m_iter
#props C07
#sig
  pub fn m_iter<'a>(g: &'a Graph<Gc, GcArena>) -> (r: Vec<(NodeIndex, &'a Nil)>)
#requires
  g.wf(),
#ensures
  forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
  forall|i: int| 0 <= i < r@.len() ==> g.n().contains_key((#[trigger] r@[i]).0) && g.n()[r@[i].0] == Gc::Nil(*r@[i].1),
  forall|k: NodeIndex| #[trigger] g.n().contains_key(k) && g.n()[k] is Nil ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
#loop @*
  m_items(vf_all$n, vf_acc$n@, vf_it$n.pos()),
@*/
/*@fn gen:mac.rs ::m_alloc
#props C06 C08
#sig
  pub fn m_alloc<MF: FnOnce(&mut Gc), UF: FnOnce(Gc) -> Gc>(t: &mut Transaction<Gc, GcArena, MF, UF>) -> (r: NodeIndex)
#requires
  arena_wf(old(t).inc_nodes),
#ensures
  final(t).inc_nodes.disp().contains_key(r), final(t).inc_nodes.disp()[r] == GcDiscriminant::Only, final(t).alloc_nodes@ == old(t).alloc_nodes@.insert(r), final(t).i() == old(t).i(),
@*/
/*@fn gen:mac.rs ::m_mut_plain
#props C03 C08
#closure_arg
#sig
  pub fn m_mut_plain<MF: FnOnce(&mut Gc), UF: FnOnce(Gc) -> Gc>(t: &mut Transaction<Gc, GcArena, MF, UF>, i: NodeIndex, vf_closure: MF)
#requires
  arena_wf(old(t).inc_nodes), forall|x: &mut Gc| vf_closure.requires((x,)),
#ensures
  recorded_mut(old(t), final(t), i, vf_closure),
@*/
/*@fn gen:mac.rs ::m_mut_plain
#props C03
#name m_mut_plain_closure
#closure_body
#sig
  pub fn m_mut_plain_closure(vf_x0: &mut Gc)
#requires[T]
  *old(vf_x0) is Nil,
#ensures
  *old(vf_x0) is Nil, *final(vf_x0) == Gc::Nil(Nil { n: ((*old(vf_x0))->Nil_0.n / 2) as usize }),
@*/
/*@fn gen:mac.rs ::m_mut_bars
#props C03 C08
#closure_arg
#sig
  pub fn m_mut_bars<MF: FnOnce(&mut Gc), UF: FnOnce(Gc) -> Gc>(t: &mut Transaction<Gc, GcArena, MF, UF>, i: NodeIndex, vf_closure: MF)
#requires
  arena_wf(old(t).inc_nodes), forall|x: &mut Gc| vf_closure.requires((x,)),
#ensures
  recorded_mut(old(t), final(t), i, vf_closure),
@*/
/*@fn gen:mac.rs ::m_mut_bars
#props C03
#name m_mut_bars_closure
#closure_body
#sig
  pub fn m_mut_bars_closure(vf_x0: &mut Gc)
#requires[T]
  *old(vf_x0) is Nil,
#ensures
  *old(vf_x0) is Nil, *final(vf_x0) == Gc::Nil(Nil { n: ((*old(vf_x0))->Nil_0.n / 2) as usize }),
@*/
/*@fn gen:mac.rs ::m_mut_move
#props C03 C08
#closure_arg
#sig
  pub fn m_mut_move<MF: FnOnce(&mut Gc), UF: FnOnce(Gc) -> Gc>(t: &mut Transaction<Gc, GcArena, MF, UF>, i: NodeIndex, vf_closure: MF)
#requires
  arena_wf(old(t).inc_nodes), forall|x: &mut Gc| vf_closure.requires((x,)),
#ensures
  recorded_mut(old(t), final(t), i, vf_closure),
@*/
/*@fn gen:mac.rs ::m_mut_move
#props C03
#name m_mut_move_closure
#closure_body
#sig
  pub fn m_mut_move_closure(vf_x0: &mut Gc, k: usize)
#requires[T]
  *old(vf_x0) is Nil,
#ensures
  *old(vf_x0) is Nil, *final(vf_x0) == Gc::Nil(Nil { n: k }),
@*/
/*@fn gen:mac.rs ::m_upd_plain
#props C03 C08
#closure_arg
#sig
  pub fn m_upd_plain<MF: FnOnce(&mut Gc), UF: FnOnce(Gc) -> Gc>(t: &mut Transaction<Gc, GcArena, MF, UF>, i: NodeIndex, vf_closure: UF)
#requires
  arena_wf(old(t).inc_nodes), forall|x: Gc| vf_closure.requires((x,)),
#ensures
  recorded_upd(old(t), final(t), i, vf_closure),
@*/
/*@fn gen:mac.rs ::m_upd_plain
#props C03
#name m_upd_plain_closure
#closure_body
#sig
  pub fn m_upd_plain_closure(vf_x0: Gc) -> (r: Gc)
#requires[T]
  vf_x0 is Nil,
#ensures
  vf_x0 is Nil, r == Gc::Nil(Nil { n: (vf_x0->Nil_0.n / 2) as usize }),
@*/
/*@fn gen:mac.rs ::m_upd_bars
#props C03 C08
#closure_arg
#sig
  pub fn m_upd_bars<MF: FnOnce(&mut Gc), UF: FnOnce(Gc) -> Gc>(t: &mut Transaction<Gc, GcArena, MF, UF>, i: NodeIndex, vf_closure: UF)
#requires
  arena_wf(old(t).inc_nodes), forall|x: Gc| vf_closure.requires((x,)),
#ensures
  recorded_upd(old(t), final(t), i, vf_closure),
@*/
/*@fn gen:mac.rs ::m_upd_bars
#props C03
#name m_upd_bars_closure
#closure_body
#sig
  pub fn m_upd_bars_closure(vf_x0: Gc) -> (r: Gc)
#requires[T]
  vf_x0 is Nil,
#ensures
  vf_x0 is Nil, r == Gc::Nil(Nil { n: (vf_x0->Nil_0.n / 2) as usize }),
@*/
/*@fn gen:mac.rs ::m_upd_move
#props C03 C08
#closure_arg
#sig
  pub fn m_upd_move<MF: FnOnce(&mut Gc), UF: FnOnce(Gc) -> Gc>(t: &mut Transaction<Gc, GcArena, MF, UF>, i: NodeIndex, vf_closure: UF)
#requires
  arena_wf(old(t).inc_nodes), forall|x: Gc| vf_closure.requires((x,)),
#ensures
  recorded_upd(old(t), final(t), i, vf_closure),
@*/
/*@fn gen:mac.rs ::m_upd_move
#props C03
#name m_upd_move_closure
#closure_body
#sig
  pub fn m_upd_move_closure(vf_x0: Gc, k: usize) -> (r: Gc)
#requires[T]
  vf_x0 is Nil,
#ensures
  vf_x0 is Nil, r == Gc::Nil(Nil { n: k }),
@*/
