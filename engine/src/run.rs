//! Random histories on the real graph and on the model in lockstep.
use crate::model::*;
use crate::schemas::Sch;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use ttgraph::serialize::*;
use ttgraph::*;

pub struct Rng(pub u64);
impl Rng {
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    (self.next() % n.max(1) as u64) as usize
  }
  pub fn chance(&mut self, p: usize) -> bool {
    self.below(100) < p
  }
  pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
    v[self.below(v.len())]
  }
}

#[derive(Debug, Clone)]
pub struct Fail {
  pub tags: Vec<&'static str>,
  pub msg: String,
}
pub type R<T> = Result<T, Fail>;
pub fn fail<T>(tags: &[&'static str], msg: String) -> R<T> {
  Err(Fail { tags: tags.to_vec(), msg })
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
  pub dangling: bool,
  pub retype: bool,
  pub focus: usize, // 0 mixed, otherwise one kind of operation dominates
  pub big: bool,
}

/// A change to a node, as made by a closure
#[derive(Clone, Debug)]
pub enum Edit {
  Data(usize, u64),
  Link(usize, MLink),
  Retype(MNode),
  Nop,
}
pub fn apply_edits(n: &mut MNode, e: &[Edit]) {
  for x in e {
    match x {
      Edit::Data(i, v) => n.data[*i] = *v,
      Edit::Link(i, l) => n.links[*i] = l.clone(),
      Edit::Retype(m) => {
        let u = n.data[0];
        *n = m.clone();
        n.data[0] = u;
      },
      Edit::Nop => {},
    }
  }
}

type G<S> = Graph<<S as Sch>::N>;
type Tr<'a, S> = Transaction<'a, <S as Sch>::N>;

pub struct World<S: Sch> {
  pub s: Schema,
  pub ctxs: Vec<(Context, BTreeSet<usize>)>,
  pub graphs: Vec<(usize, G<S>, MGraph)>,
  pub uid: u64,
  pub log: String,
  pub ops: BTreeMap<&'static str, u64>,
  pub retyped: bool,
  pub dead: bool,
  pub bulk: bool, // long vectors, large sets, many nodes
}

/// What the model knows of a transaction
#[derive(Default, Clone, Debug)]
struct MTrans {
  pending: BTreeMap<usize, MNode>,
  alloc: BTreeMap<usize, Option<usize>>,
  dec: BTreeSet<usize>,
  mutq: Vec<(usize, Vec<Edit>, u64)>,
  updq: Vec<(usize, Vec<Edit>, u64)>,
  r1: Vec<(usize, usize)>,
  r2: Vec<(usize, usize)>,
  refd: BTreeSet<usize>,
  hard: BTreeSet<usize>, // referred to by closures and redirects: never removed
  merged: bool,
  retyped: bool,
  gone: Vec<usize>, // made and removed by this transaction
}
impl MTrans {
  fn is_empty(&self) -> bool {
    self.pending.is_empty() && self.alloc.is_empty() && self.dec.is_empty() && self.mutq.is_empty() && self.updq.is_empty() && self.r1.is_empty() && self.r2.is_empty()
  }
}

fn msg_of(e: Box<dyn std::any::Any + Send>) -> String {
  if let Some(s) = e.downcast_ref::<String>() {
    s.clone()
  } else if let Some(s) = e.downcast_ref::<&str>() {
    s.to_string()
  } else {
    "panic".into()
  }
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(msg_of)
}

impl<S: Sch> World<S> {
  pub fn new() -> Self {
    let ctx = Context::new();
    let g = G::<S>::new(&ctx);
    World {
      s: S::desc(),
      graphs: vec![(0, g, MGraph::new())],
      ctxs: vec![(ctx, BTreeSet::new())],
      uid: 0,
      log: String::new(),
      ops: BTreeMap::new(),
      retyped: false,
      dead: false,
      bulk: false,
    }
  }
  fn count(&mut self, k: &'static str) {
    *self.ops.entry(k).or_default() += 1;
  }

  fn rnd_link(&self, r: &mut Rng, k: Kind, targets: &[usize]) -> MLink {
    let t = |r: &mut Rng| if targets.is_empty() || r.chance(15) { 0 } else { r.pick(targets) };
    match k {
      Kind::D => MLink::D(t(r)),
      Kind::S => {
        let mut s: BTreeSet<usize> = (0..if self.bulk && r.chance(20) { r.below(90) } else { r.below(4) }).map(|_| t(r)).filter(|x| *x != 0).collect();
        if r.chance(6) {
          s.insert(0);
        }
        MLink::S(s)
      },
      Kind::V => {
        let mut v: Vec<usize> = (0..if self.bulk && r.chance(20) { r.below(150) } else { r.below(5) }).map(|_| t(r)).collect();
        if v.len() > 1 && r.chance(30) {
          v[0] = v[v.len() - 1];
        }
        MLink::V(v)
      },
    }
  }
  /// A target list biased to types that are allowed by the annotations of the field
  fn targets_for(&self, r: &mut Rng, t: usize, f: usize, known: &BTreeMap<usize, usize>) -> Vec<usize> {
    let strict = r.chance(93);
    known
      .iter()
      .filter(|(_, ty)| {
        !strict
          || (self.s.type_ok(t, f, **ty) && self.s.partners(t, f, **ty).len() <= 1
            && self.s.partners(t, f, **ty).iter().all(|p| self.s.type_ok(**ty, *p, t)))
      })
      .map(|x| *x.0)
      .collect()
  }
  fn rnd_node(&mut self, r: &mut Rng, ty: usize, known: &BTreeMap<usize, usize>) -> MNode {
    self.uid += 1;
    let td = self.s.types[ty].clone();
    let mut data = vec![self.uid];
    for _ in 1..td.data.len() {
      data.push(r.below(5) as u64);
    }
    let dense = if self.s.bd.is_empty() { 80 } else { 35 };
    let links = td
      .links
      .iter()
      .enumerate()
      .map(|(f, l)| {
        let t = self.targets_for(r, ty, f, known);
        if r.chance(dense) {
          self.rnd_link(r, l.kind, &t)
        } else {
          MLink::new(l.kind)
        }
      })
      .collect();
    MNode { ty, data, links }
  }
  fn rnd_edits(&mut self, r: &mut Rng, n: &MNode, known: &BTreeMap<usize, usize>, cfg: &Cfg) -> Vec<Edit> {
    let mut v = vec![];
    for _ in 0..r.below(3) {
      let e = match r.below(10) {
        0..=1 if n.data.len() > 1 => Edit::Data(1 + r.below(n.data.len() - 1), r.below(5) as u64),
        2 if cfg.retype => {
          let ty = r.below(self.s.types.len());
          let m = self.rnd_node(r, ty, known);
          v.push(Edit::Retype(m));
          break;
        },
        3..=9 if !n.links.is_empty() => {
          let f = r.below(n.links.len());
          let t = self.targets_for(r, n.ty, f, known);
          let l = match (&n.links[f], r.below(3)) {
            (MLink::S(s), 0) => {
              let mut s = s.clone();
              if !t.is_empty() {
                s.insert(r.pick(&t));
              }
              MLink::S(s)
            },
            (MLink::S(s), 1) if !s.is_empty() => {
              let mut s = s.clone();
              let k: Vec<usize> = s.iter().copied().collect();
              s.remove(&r.pick(&k));
              MLink::S(s)
            },
            (MLink::V(s), 0) => {
              let mut s = s.clone();
              s.push(if t.is_empty() { 0 } else { r.pick(&t) });
              MLink::V(s)
            },
            (MLink::V(s), 1) if !s.is_empty() => {
              let mut s = s.clone();
              s.remove(r.below(s.len()));
              MLink::V(s)
            },
            _ => self.rnd_link(r, self.s.types[n.ty].links[f].kind, &t),
          };
          Edit::Link(f, l)
        },
        _ => Edit::Nop,
      };
      v.push(e);
    }
    v
  }

  fn fresh(&mut self, c: usize, idx: NodeIndex) -> R<usize> {
    if idx.0 == 0 || idx.is_empty() || idx == NodeIndex::empty() || idx == NodeIndex::default() {
      return fail(&["C06"], "the empty index was handed out".into());
    }
    if !self.ctxs[c].1.insert(idx.0) {
      return fail(&["C06", "C09", "C10"], format!("index {} was handed out twice", idx.0));
    }
    Ok(idx.0)
  }

  /// Compare the real graph with the model through every way of reading it
  pub fn compare(&self, gi: usize, tags: &[&'static str]) -> R<()> {
    let (_, g, m) = &self.graphs[gi];
    let mut t7 = tags.to_vec();
    t7.push("C07");
    if g.len() != m.len() || g.is_empty() != m.is_empty() {
      return fail(&t7, format!("graph has len {}, expected {}", g.len(), m.len()));
    }
    let mut seen: BTreeMap<usize, MNode> = BTreeMap::new();
    for (i, n) in g.iter() {
      if seen.insert(i.0, S::read(n)).is_some() {
        return fail(&t7, format!("node {} appears twice in iter()", i.0));
      }
    }
    if g.iter().size_hint() != (m.len(), Some(m.len())) || g.iter().len() != m.len() {
      return fail(&["C07"], format!("size_hint of iter() is {:?}, expected {}", g.iter().size_hint(), m.len()));
    }
    {
      // the exact size stays exact while iterating
      let mut it = g.iter();
      let mut left = m.len();
      while it.next().is_some() {
        left = left.wrapping_sub(1);
        if it.len() != left {
          return fail(&["C07"], format!("iter().len() is {}, expected {left}", it.len()));
        }
      }
      if it.next().is_some() {
        return fail(&["C07"], "iter() is not fused".into());
      }
    }
    let deep = (self.log.len() + gi) % 16 == 0;
    if deep {
      surface("iter()", || g.iter(), |x| x.0 .0)?;
      let mut it = g.iter();
      it.next();
      let (a, b): (Vec<usize>, Vec<usize>) = (it.clone().map(|x| x.0 .0).collect(), it.map(|x| x.0 .0).collect());
      if a != b {
        return fail(&["C07"], format!("a clone of a started iter() goes on with {a:?}, itself with {b:?}"));
      }
    }
    for (i, n) in m {
      let Some(x) = g.get(NodeIndex(*i)) else { return fail(&t7, format!("node {i} is missing, expected {n:?}")) };
      let x = S::read(x);
      if &x != n {
        return fail(tags, format!("node {i} is {x:?}, expected {n:?}"));
      }
      match seen.get(i) {
        Some(y) if y == &x => {},
        o => return fail(&["C07"], format!("iter() shows node {i} as {o:?}, get() as {x:?}")),
      }
    }
    if seen.len() != m.len() {
      return fail(&t7, format!("iter() shows {:?}, expected {:?}", seen.keys(), m.keys()));
    }
    let known = &self.ctxs[self.graphs[gi].0].1;
    for i in known.iter().copied().chain([0, known.last().copied().unwrap_or(0) + 1]) {
      if !m.contains_key(&i) && g.get(NodeIndex(i)).is_some() {
        return fail(&t7, format!("get({i}) returns a node that should not exist"));
      }
    }
    for t in 0..self.s.types.len() {
      let want: BTreeSet<usize> = m.iter().filter(|x| x.1.ty == t).map(|x| *x.0).collect();
      let got: Vec<usize> = g.iter_type(S::disc(t)).map(|x| x.0 .0).collect();
      if got.len() != want.len() || got.iter().copied().collect::<BTreeSet<_>>() != want || g.iter_type(S::disc(t)).len() != want.len() {
        return fail(&["C07"], format!("iter_type({}) shows {got:?}, expected {want:?}", self.s.types[t].name));
      }
      if deep {
        surface("iter_type()", || g.iter_type(S::disc(t)), |x| x.0 .0)?;
      }
      for (i, n) in g.iter_type(S::disc(t)) {
        if S::read(n) != m[&i.0] {
          return fail(&["C07"], format!("iter_type({}) shows another value of {i}", self.s.types[t].name));
        }
      }
    }
    for (name, v) in &self.s.node_groups {
      let want: BTreeSet<usize> = m.iter().filter(|x| v.contains(&x.1.ty)).map(|x| *x.0).collect();
      let got: Vec<usize> = g.iter_group(name).map(|x| x.0 .0).collect();
      if deep {
        surface("iter_group()", || g.iter_group(name), |x| x.0 .0)?;
      }
      if got.len() != want.len() || got.iter().copied().collect::<BTreeSet<_>>() != want {
        return fail(&["C13", "C07"], format!("iter_group({name}) shows {got:?}, expected {want:?}"));
      }
    }
    if g.iter_group("no_such_group").next().is_some() {
      return fail(&["C13"], "iter_group of an unknown name shows a node".into());
    }
    #[cfg(feature = "debug")]
    {
      if let Err(e) = quiet(|| g.check_backlinks()) {
        return fail(&["C15"], format!("check_backlinks: {e}"));
      }
      if cfg!(debug_assertions) {
        let r = quiet(|| g.check_integrity());
        if r.is_ok() != closed(m) {
          return fail(&["C15"], format!("check_integrity: {r:?} on a graph with closed={}", closed(m)));
        }
      }
    }
    if !self.retyped && closed(m) {
      let real: MGraph = g.iter().map(|(i, n)| (i.0, S::read(n))).collect();
      if let Err(e) = symmetric(&self.s, &real) {
        return fail(&["C04"], e);
      }
    }
    Ok(())
  }

  /// Reflection of one node value against the declaration
  pub fn reflect(&self, r: &mut Rng, m: &MNode) -> R<()> {
    let s = &self.s;
    let n = S::mk(m);
    if S::read(&n) != *m {
      unreachable!();
    }
    if let Err((t, e)) = S::typed(&n, m, s) {
      return fail(&[t], e);
    }
    if n.discriminant() != S::disc(m.ty) {
      return fail(&["C07"], format!("discriminant of {n:?} is {:?}", n.discriminant()));
    }
    let mut want = vec![];
    for (f, l) in m.links.iter().enumerate() {
      match l {
        MLink::V(v) => want.extend(v.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, y)| (NodeIndex(*y), S::source(m.ty, f, i)))),
        l => want.extend(l.targets().into_iter().map(|y| (NodeIndex(y), S::source(m.ty, f, 0)))),
      }
    }
    want.sort();
    let mut got: Vec<_> = n.iter_sources().collect();
    got.sort();
    if got != want {
      return fail(&["C12", "C15"], format!("iter_sources of {n:?} is {got:?}"));
    }
    for t in 0..s.types.len() {
      for f in 0..s.types[t].links.len() {
        let lm = S::link(t, f);
        let own = t == m.ty;
        if n.check_link(lm) != own {
          return fail(&["C12"], format!("check_link({lm:?}) of {n:?} is {}", !own));
        }
        for y in [1usize, 2, 3, 5, 1000] {
          let want = own && m.links[f].has(y);
          if n.contains_link(lm, NodeIndex(y)) != want {
            return fail(&["C12"], format!("contains_link({lm:?}, {y}) of {n:?} is {}", !want));
          }
        }
        let src = S::source(t, f, r.below(4));
        if <S::N as NodeEnum>::to_link_mirror_enum(src) != lm {
          return fail(&["C12"], format!("to_link_mirror_enum({src:?}) is {:?}", <S::N as NodeEnum>::to_link_mirror_enum(src)));
        }
        if s.types[t].links[f].kind != Kind::V && <S::N as NodeEnum>::to_source_enum(lm) != S::source(t, f, 0) {
          return fail(&["C12"], format!("to_source_enum({lm:?}) is wrong"));
        }
        if !own {
          let mut c = n.clone();
          let a = c.add_link(lm, NodeIndex(3));
          let b = c.remove_link(lm, NodeIndex(3));
          if a || b || S::read(&c) != *m {
            return fail(&["C12"], format!("a link of another type changed {n:?} through {lm:?}"));
          }
        }
        // declarations
        let mut logs: BTreeSet<String> = <S::N as NodeEnum>::to_log_mirror_enums(lm).iter().map(|x| format!("{x:?}")).collect();
        let mut wl: BTreeSet<String> = BTreeSet::new();
        for nm in s.types[t].links[f].groups.iter().copied().chain([s.types[t].links[f].name]) {
          wl.insert(format!("{:?}", S::log(t, nm).unwrap()));
        }
        if logs != wl {
          return fail(&["C13"], format!("to_log_mirror_enums({lm:?}) is {logs:?}, expected {wl:?}"));
        }
        logs.clear();
        let want: BTreeSet<String> = s.bd.get(&(t, f)).map_or(BTreeSet::new(), |p| p.iter().map(|(a, b)| format!("{:?}", S::link(*a, *b))).collect());
        let got: Vec<String> = n.get_bidiretional_link_mirrors_of(lm).iter().map(|x| format!("{x:?}")).collect();
        if got.iter().cloned().collect::<BTreeSet<_>>() != want || got.len() != want.len() {
          return fail(&["C13", "C04"], format!("bidirectional partners of {lm:?} are {got:?}, expected {want:?}"));
        }
        for d in 0..s.types.len() {
          let ok = <S::N as NodeEnum>::check_link_type(S::disc(d), lm).is_ok();
          if ok != s.type_ok(t, f, d) {
            return fail(&["C13", "C05"], format!("check_link_type({:?}, {lm:?}) is {ok}", S::disc(d)));
          }
        }
      }
      for gname in s.all_groups(t) {
        let got: BTreeSet<String> = <S::N as NodeEnum>::expand_link_groups(S::log(t, gname).unwrap()).iter().map(|x| format!("{x:?}")).collect();
        let want: BTreeSet<String> = s.fields(t, gname).iter().map(|f| format!("{:?}", S::link(t, *f))).collect();
        if got != want {
          return fail(&["C13"], format!("group {gname} of {} expands to {got:?}", s.types[t].name));
        }
      }
    }
    // match_bd_link_group keeps the links of this variant
    let all: Vec<(usize, usize)> = (0..s.types.len()).flat_map(|t| (0..s.types[t].links.len()).map(move |f| (t, f))).collect();
    let got = n.match_bd_link_group(all.iter().map(|x| S::link(x.0, x.1)).collect());
    let want: Vec<_> = all.iter().filter(|x| x.0 == m.ty).map(|x| S::link(x.0, x.1)).collect();
    if got.len() != want.len() || want.iter().any(|x| !got.contains(x)) {
      return fail(&["C13", "C04"], format!("match_bd_link_group of {n:?} is {got:?}"));
    }
    {
      let mut got: Vec<String> = n
        .get_bidiretional_links()
        .into_iter()
        .map(|(mut a, b)| {
          a.sort();
          let mut b: Vec<String> = b.iter().map(|x| format!("{x:?}")).collect();
          b.sort();
          format!("{a:?} {b:?}")
        })
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
      let mut want: Vec<String> = vec![];
      for f in 0..m.links.len() {
        if let Some(p) = s.bd.get(&(m.ty, f)) {
          let mut a: Vec<NodeIndex> = m.links[f].targets().into_iter().map(NodeIndex).collect();
          a.sort();
          let mut b: Vec<String> = p.iter().map(|(a, b)| format!("{:?}", S::link(*a, *b))).collect();
          b.sort();
          want.push(format!("{a:?} {b:?}"));
        }
      }
      want.sort();
      want.dedup();
      got.sort();
      if got != want {
        return fail(&["C13", "C04"], format!("get_bidiretional_links of {n:?} is {got:?}, expected {want:?}"));
      }
    }
    for (f, l) in m.links.iter().enumerate() {
      let lm = S::link(m.ty, f);
      let sorted = |mut v: Vec<usize>| {
        if !matches!(l, MLink::V(_)) {
          v.sort();
        }
        v
      };
      let got = sorted(n.iter_links(lm).map(|x| x.0).collect());
      if got != l.targets() {
        return fail(&["C12"], format!("iter_links({lm:?}) of {n:?} is {got:?}"));
      }
      let got = sorted(n.get_links_by_name(s.types[m.ty].links[f].name).map(|x| x.0).collect());
      if got != l.targets() {
        return fail(&["C12"], format!("get_links_by_name of {n:?} is {got:?}"));
      }
      // writes
      let y = 1 + r.below(6);
      let mut olds = match l {
        MLink::D(x) => vec![(0, *x)],
        MLink::S(s) => s.iter().map(|x| (0, *x)).collect(),
        MLink::V(v) => v.iter().copied().enumerate().collect(),
      };
      olds.retain(|o| o.1 != 0 || !matches!(l, MLink::S(_)));
      for (slot, old) in olds {
        for new in [0, y] {
          if old == new && matches!(l, MLink::S(_)) {
            continue;
          }
          let mut c = n.clone();
          let mut e = m.clone();
          let (rem, add) = match &mut e.links[f] {
            MLink::D(x) => {
              *x = new;
              (old != new && old != 0, old != new && new != 0)
            },
            MLink::V(v) => {
              v[slot] = new;
              (old != new && old != 0, old != new && new != 0)
            },
            MLink::S(s) => {
              let a = s.remove(&old);
              (a, new != 0 && s.insert(new))
            },
          };
          let src = S::source(m.ty, f, slot);
          let res = quiet(|| c.modify_link(src, NodeIndex(old), NodeIndex(new)));
          match res {
            Ok(res) => {
              if (res.removed, res.added) != (rem, add) {
                return fail(&["C12"], format!("modify_link({src:?}, {old}, {new}) of {n:?} reports removed={} added={}", res.removed, res.added));
              }
            },
            Err(p) => return fail(&["C12"], format!("modify_link({src:?}, {old}, {new}) of {n:?} panicked: {p}")),
          }
          if S::read(&c) != e {
            return fail(&["C12"], format!("modify_link({src:?}, {old}, {new}) of {n:?} gives {c:?}"));
          }
        }
      }
      if !matches!(l, MLink::V(_)) {
        let mut c = n.clone();
        let mut e = m.clone();
        let want = match &mut e.links[f] {
          MLink::D(x) if *x == 0 => {
            *x = y;
            Some(true)
          },
          MLink::D(x) if *x == y => Some(false),
          MLink::D(_) => None,
          MLink::S(s) => Some(s.insert(y)),
          _ => unreachable!(),
        };
        let got = quiet(|| c.add_link(lm, NodeIndex(y))).ok();
        if got != want || (want.is_some() && S::read(&c) != e) {
          return fail(&["C12", "C04"], format!("add_link({lm:?}, {y}) of {n:?} returned {got:?} (None: panic) and gives {c:?}"));
        }
        for y in l.targets().into_iter().chain([y]) {
          let mut c = n.clone();
          let mut e = m.clone();
          let want = match &mut e.links[f] {
            MLink::D(x) if *x == y => {
              *x = 0;
              true
            },
            MLink::D(_) => false,
            MLink::S(s) => s.remove(&y),
            _ => unreachable!(),
          };
          let got = quiet(|| c.remove_link(lm, NodeIndex(y))).ok();
          if got != Some(want) || S::read(&c) != e {
            return fail(&["C12", "C04"], format!("remove_link({lm:?}, {y}) of {n:?} returned {got:?} and gives {c:?}"));
          }
        }
      }
    }
    for gname in s.all_groups(m.ty).into_iter().chain(["no_such_group", "g", "all", "p", "out"]) {
      let mut got: Vec<usize> = n.get_links_by_group(gname).into_iter().map(|x| x.0).collect();
      let mut want: Vec<usize> = if s.all_groups(m.ty).contains(gname) { s.types[m.ty].links.iter().enumerate().filter(|x| x.1.groups.contains(&gname)).flat_map(|x| m.links[x.0].targets()).collect() } else { vec![] };
      got.sort();
      want.sort();
      if got != want {
        return fail(&["C13"], format!("get_links_by_group({gname}) of {n:?} is {got:?}, expected {want:?}"));
      }
    }
    for (g, v) in &s.node_groups {
      if n.in_group(g) != v.contains(&m.ty) {
        return fail(&["C13"], format!("in_group({g}) of {n:?} is {}", n.in_group(g)));
      }
    }
    if n.in_group("no_such_group") {
      return fail(&["C13"], "in_group of an unknown name is true".into());
    }
    Ok(())
  }

  /// Build and commit (or abandon) one transaction on graph gi
  fn transaction(&mut self, r: &mut Rng, gi: usize, cfg: &Cfg) -> R<()> {
    let c = self.graphs[gi].0;
    let calls: Rc<RefCell<Vec<(u64, usize, MNode)>>> = Rc::default();
    let ctx = if r.chance(20) { self.ctxs[c].0.clone() } else { self.ctxs[c].0.clone() };
    let mut t: Tr<'static, S> = Transaction::new(&ctx);
    let mut m = MTrans::default();
    if !t.is_empty() {
      return fail(&["C08"], "a new transaction is not empty".into());
    }
    let before: MGraph = self.graphs[gi].2.clone();
    let most = if !cfg.big { 7 } else if r.chance(25) { 160 } else { 40 };
    let n_ops = 1 + r.below(most);
    let mut imm: Vec<(u64, MNode)> = vec![]; // expected calls so far
    let mut next_call = 0u64;
    let mut bad_op = false;
    let _ = writeln!(self.log, "transaction on graph {gi} (context {c})");
    for _ in 0..n_ops {
      // nodes that may be linked to: index -> type
      let mut known: BTreeMap<usize, usize> = before.iter().map(|(i, n)| (*i, n.ty)).collect();
      known.extend(m.pending.iter().map(|(i, n)| (*i, n.ty)));
      for (i, t) in &m.alloc {
        if let Some(t) = t {
          known.insert(*i, *t);
        }
      }
      let live: Vec<usize> = before.keys().copied().collect();
      let pend: Vec<usize> = m.pending.keys().copied().collect();
      let allk: Vec<usize> = known.keys().copied().collect();
      let k = match cfg.focus {
        _ if known.len() < 5 && r.chance(50) => 0,
        0 => r.below(14),
        f => if r.chance(60) { f } else { r.below(14) },
      };
      match k {
        0 | 1 => {
          let ty = r.below(self.s.types.len());
          let n = self.rnd_node(r, ty, &known);
          m.refd.extend(n.links.iter().flat_map(|l| l.targets()));
          let _ = writeln!(self.log, "  insert {n:?}");
          let idx = if r.chance(10) {
            // through Extend: the index is found by looking at the counter
            t.insert(S::mk(&n))
          } else {
            t.insert(S::mk(&n))
          };
          let idx = self.fresh(c, idx)?;
          let _ = writeln!(self.log, "    -> {idx}");
          m.pending.insert(idx, n);
          self.count("insert");
        },
        2 => {
          let ty = r.below(self.s.types.len());
          let untyped = r.chance(40);
          let idx = if untyped { t.alloc_untyped() } else { t.alloc(S::disc(ty)) };
          let idx = self.fresh(c, idx)?;
          let _ = writeln!(self.log, "  alloc {} -> {idx}", if untyped { "untyped" } else { self.s.types[ty].name });
          m.alloc.insert(idx, if untyped { None } else { Some(ty) });
          self.count("alloc");
        },
        3 => {
          let al: Vec<usize> = m.alloc.keys().copied().collect();
          if al.is_empty() {
            continue;
          }
          let idx = r.pick(&al);
          let aty = m.alloc[&idx];
          let ty = aty.unwrap_or(r.below(self.s.types.len()));
          let n = self.rnd_node(r, ty, &known);
          m.refd.extend(n.links.iter().flat_map(|l| l.targets()));
          let _ = writeln!(self.log, "  fill {idx} {n:?}");
          if aty.is_none() || r.chance(30) {
            t.fill_back_untyped(NodeIndex(idx), S::mk(&n));
          } else {
            t.fill_back(NodeIndex(idx), S::mk(&n));
          }
          m.alloc.remove(&idx);
          m.pending.insert(idx, n);
          self.count("fill");
        },
        4 | 5 => {
          // remove
          let mut cand = live.clone();
          cand.extend(pend.iter().copied().filter(|x| !m.hard.contains(x) && (cfg.dangling || !m.refd.contains(x))));
          cand.extend(m.alloc.keys().copied().filter(|x| !m.refd.contains(x) && !m.hard.contains(x)));
          if cand.is_empty() {
            continue;
          }
          let x = r.pick(&cand);
          let _ = writeln!(self.log, "  remove {x}");
          t.remove(NodeIndex(x));
          if m.pending.remove(&x).is_some() {
            m.gone.push(x);
            self.count("remove pending");
          } else if m.alloc.remove(&x).is_some() {
            m.gone.push(x);
            self.count("remove alloc");
          } else {
            m.dec.insert(x);
            self.count("remove");
          }
        },
        6 | 7 | 8 | 9 => {
          // mutate or update
          let upd = k >= 8;
          let mut cand = live.clone();
          cand.extend(pend.iter());
          if cand.is_empty() {
            continue;
          }
          let x = r.pick(&cand);
          let shape = m.pending.get(&x).unwrap_or_else(|| &before[&x]).clone();
          // an earlier closure may change the type, then only type-agnostic edits
          let queued = m.mutq.iter().chain(m.updq.iter()).any(|q| q.0 == x && q.1.iter().any(|e| matches!(e, Edit::Retype(_))));
          let edits = if queued { vec![Edit::Nop] } else { self.rnd_edits(r, &shape, &known, cfg) };
          for e in &edits {
            match e {
              Edit::Link(_, l) => m.hard.extend(l.targets()),
              Edit::Retype(n) => {
                m.retyped |= n.ty != shape.ty;
                m.hard.extend(n.links.iter().flat_map(|l| l.targets()))
              },
              _ => {},
            }
          }
          // an update queued earlier on x that retypes would see the links of mutations queued later: keep it simple
          if !upd && edits.iter().any(|e| matches!(e, Edit::Retype(_))) && m.updq.iter().any(|q| q.0 == x) {
            continue;
          }
          let id = next_call;
          next_call += 1;
          let _ = writeln!(self.log, "  {} {x} #{id} {edits:?}", if upd { "update" } else { "mutate" });
          let calls2 = calls.clone();
          let e2 = edits.clone();
          if upd {
            t.update(NodeIndex(x), move |n| {
              let mut k = S::read(&n);
              calls2.borrow_mut().push((id, x, k.clone()));
              apply_edits(&mut k, &e2);
              S::mk(&k)
            });
          } else {
            t.mutate(NodeIndex(x), move |n| {
              let mut k = S::read(n);
              calls2.borrow_mut().push((id, x, k.clone()));
              apply_edits(&mut k, &e2);
              *n = S::mk(&k);
            });
          }
          if let Some(p) = m.pending.get_mut(&x) {
            imm.push((id, p.clone()));
            apply_edits(p, &edits);
          } else if upd {
            m.updq.push((x, edits, id));
          } else {
            m.mutq.push((x, edits, id));
          }
          self.count(if upd { "update" } else { "mutate" });
        },
        10 | 11 => {
          // redirect existing
          let olds: Vec<usize> = live.iter().copied().filter(|x| !m.r1.iter().any(|p| p.0 == *x)).collect();
          if olds.is_empty() {
            continue;
          }
          let o = r.pick(&olds);
          let n = if r.chance(10) { 0 } else { r.pick(&allk) };
          if o == n || (!r.chance(3) && chain_hits(&m.r1, n, o)) {
            continue;
          }
          m.hard.insert(n);
          let _ = writeln!(self.log, "  redirect_links {o} -> {n}");
          t.redirect_links(NodeIndex(o), NodeIndex(n));
          m.r1.push((o, n));
          self.count("redirect_links");
        },
        12 => {
          let olds: Vec<usize> = live.iter().chain(pend.iter()).copied().filter(|x| !m.r2.iter().any(|p| p.0 == *x)).collect();
          if olds.is_empty() {
            continue;
          }
          let o = r.pick(&olds);
          let n = if r.chance(10) { 0 } else { r.pick(&allk) };
          if o == n || (!r.chance(3) && chain_hits(&m.r2, n, o)) {
            continue;
          }
          m.hard.insert(n);
          m.hard.insert(o);
          let _ = writeln!(self.log, "  redirect_all_links {o} -> {n}");
          t.redirect_all_links(NodeIndex(o), NodeIndex(n));
          m.r2.push((o, n));
          self.count("redirect_all_links");
        },
        _ => {
          if self.graphs.len() > 1 && r.chance(40) {
            // merge another graph of the same context
            let others: Vec<usize> = (0..self.graphs.len()).filter(|j| *j != gi && self.graphs[*j].0 == c).collect();
            if !others.is_empty() {
              let j = r.pick(&others);
              let empty = G::<S>::new(&self.ctxs[c].0);
              let old = std::mem::replace(&mut self.graphs[j].1, empty);
              let om = std::mem::take(&mut self.graphs[j].2);
              let _ = writeln!(self.log, "  merge graph {j}");
              t.merge(old);
              for n in om.values() {
                m.refd.extend(n.links.iter().flat_map(|l| l.targets()));
              }
              m.pending.extend(om);
              m.merged = true;
              self.count("merge");
            }
          } else if r.chance(10) {
            // a misuse that must panic right away
            let al: Vec<(usize, usize)> = m.alloc.iter().filter_map(|(i, t)| t.map(|t| (*i, t))).collect();
            let (what, res, tags): (&str, Result<(), String>, &[&'static str]) = match r.below(4) {
              3 if !m.gone.is_empty() => {
                let x = r.pick(&m.gone);
                let ty = r.below(self.s.types.len());
                let n = self.rnd_node(r, ty, &known);
                ("fill_back on an index removed in this transaction", quiet(|| t.fill_back(NodeIndex(x), S::mk(&n))), &["C08"])
              },
              0 if !pend.is_empty() => {
                let x = r.pick(&pend);
                let ty = r.below(self.s.types.len());
                let n = self.rnd_node(r, ty, &known);
                ("fill_back_untyped on a filled index", quiet(|| t.fill_back_untyped(NodeIndex(x), S::mk(&n))), &["C08", "C07"])
              },
              1 if !pend.is_empty() => {
                let x = r.pick(&pend);
                let ty = m.pending[&x].ty;
                let n = self.rnd_node(r, ty, &known);
                ("fill_back on a filled index", quiet(|| t.fill_back(NodeIndex(x), S::mk(&n))), &["C08", "C07"])
              },
              2 if !al.is_empty() && self.s.types.len() > 1 => {
                let (x, ty) = r.pick(&al);
                let ty2 = (ty + 1 + r.below(self.s.types.len() - 1)) % self.s.types.len();
                let n = self.rnd_node(r, ty2, &known);
                ("fill_back with another type", quiet(|| t.fill_back(NodeIndex(x), S::mk(&n))), &["C08"])
              },
              _ => continue,
            };
            let _ = writeln!(self.log, "  misuse: {what}");
            self.count("misuse");
            if res.is_ok() {
              return fail(tags, format!("{what} did not panic"));
            }
            bad_op = true;
            break;
          }
        },
      }
      if t.is_empty() != m.is_empty() {
        return fail(&["C08"], format!("is_empty of the transaction is {}, expected {}", t.is_empty(), m.is_empty()));
      }
    }
    // the graphs are not touched before the commit
    self.compare(gi, &["C08"])?;
    if bad_op || r.chance(5) {
      let _ = writeln!(self.log, "  give up");
      if r.chance(50) {
        t.give_up();
      } else {
        drop(t);
      }
      if !bad_op && calls.borrow().len() != imm.len() {
        return fail(&["C08", "C03"], "closures ran in an abandoned transaction".into());
      }
      self.count("give_up");
      return self.compare(gi, &["C08"]);
    }
    if !m.alloc.is_empty() && !r.chance(5) {
      let mut known: BTreeMap<usize, usize> = before.iter().map(|(i, n)| (*i, n.ty)).collect();
      known.extend(m.pending.iter().map(|(i, n)| (*i, n.ty)));
      for (i, ty) in std::mem::take(&mut m.alloc) {
        if m.refd.contains(&i) || m.hard.contains(&i) || r.chance(70) {
          let tt = ty.unwrap_or(r.below(self.s.types.len()));
          let n = self.rnd_node(r, tt, &known);
          let _ = writeln!(self.log, "  fill {i} {n:?}");
          if ty.is_some() {
            t.fill_back(NodeIndex(i), S::mk(&n));
          } else {
            t.fill_back_untyped(NodeIndex(i), S::mk(&n));
          }
          m.pending.insert(i, n);
        } else {
          let _ = writeln!(self.log, "  remove {i}");
          t.remove(NodeIndex(i));
        }
      }
    }

    // expected result
    let t0 = triples(&before);
    let mut exp = before.clone();
    let mut why: Option<(&'static str, String)> = None;
    let mut exp_calls = imm;
    if !m.alloc.is_empty() {
      why = Some(("C08", "unfilled allocated index".into()));
    }
    let mut run = |exp: &mut MGraph, exp_calls: &mut Vec<(u64, MNode)>| -> Result<(), Why> {
      redirect(exp, &m.r1)?;
      exp.extend(m.pending.clone());
      for (x, e, id) in m.mutq.iter().chain(m.updq.iter()) {
        let n = exp.get_mut(x).unwrap();
        exp_calls.push((*id, n.clone()));
        apply_edits(n, e);
      }
      redirect(exp, &m.r2)?;
      for x in &m.dec {
        remove(exp, *x);
      }
      Ok(())
    };
    let mut ambiguous = false;
    if why.is_none() {
      let res = run(&mut exp, &mut exp_calls);
      let res = res.and_then(|_| {
        let mut e2 = exp.clone();
        let r2 = complete(&self.s, &mut e2, &t0, true);
        let r1 = complete(&self.s, &mut exp, &t0, false);
        ambiguous = r1.is_ok() != r2.is_ok() || (r1.is_ok() && e2 != exp);
        r1
      });
      why = match res {
        Ok(()) => None,
        Err(Why::Cycle) => Some(("C02", "cyclic redirection".into())),
        Err(e) => Some(("C04", format!("bidirectional link: {e:?}"))),
      };
      if why.is_none() && cfg!(feature = "debug") {
        if let Some(x) = bad_types(&self.s, &exp, &t0) {
          why = Some(("C05", format!("link type of {x:?}")));
        }
      }
    }

    let mut tags: Vec<&'static str> = vec!["C03"];
    if !m.dec.is_empty() {
      tags.push("C01");
    }
    if !m.r1.is_empty() || !m.r2.is_empty() {
      tags.push("C02");
    }
    if !self.s.bd.is_empty() {
      tags.push("C04");
    }
    if m.merged {
      tags.push("C11");
    }
    if !m.dec.is_empty() || !m.r1.is_empty() || !m.r2.is_empty() || !m.mutq.is_empty() || !m.updq.is_empty() {
      tags.push("C15");
    }
    if m.retyped {
      tags.push("C07");
    }

    // expected checked changes
    let t1 = triples(&exp);
    let adds: BTreeSet<Triple> = t1.difference(&t0).copied().collect();
    let rems: BTreeSet<Triple> = t0.difference(&t1).copied().collect();
    let mut changed: BTreeSet<usize> = adds.iter().chain(rems.iter()).map(|x| x.0).collect();
    changed.extend(m.pending.keys());
    changed.extend(m.mutq.iter().chain(m.updq.iter()).map(|q| q.0));
    changed.retain(|x| exp.contains_key(x));
    let checked = cfg!(feature = "debug") && r.chance(35);
    let _ = writeln!(self.log, "  commit{}", if checked { " checked" } else { "" });

    let seen: Rc<RefCell<[Vec<String>; 3]>> = Rc::default();
    let mut check_fails = false;
    let res = {
      let g = &mut self.graphs[gi].1;
      #[cfg(feature = "debug")]
      if checked {
        use ttgraph::check::*;
        tags.push("C14");
        let mut ck = GraphCheck::<S::N>::new();
        let want: [BTreeSet<String>; 3] = [
          changed.iter().map(|x| format!("{x} {:?}", exp[x])).collect(),
          adds.iter().map(|a| format!("{} {} {:?} {:?}", a.0, a.1, exp[&a.0], exp.get(&a.1))).collect(),
          rems.iter().filter(|a| exp.contains_key(&a.0)).map(|a| format!("{} {} {:?} {:?}", a.0, a.1, exp[&a.0], exp.get(&a.1))).collect(),
        ];
        let total: Vec<(usize, String)> = want.iter().enumerate().flat_map(|(k, s)| s.iter().map(move |x| (k, x.clone()))).collect();
        let poison = if !total.is_empty() && r.chance(25) { Some(total[r.below(total.len())].clone()) } else { None };
        check_fails = poison.is_some();
        if poison.is_some() {
          let _ = writeln!(self.log, "    a check fails on {poison:?}");
        }
        // several checks of each kind: a failing one must not hide the others
        for j in 0..2 {
          let (s1, p1) = (seen.clone(), poison.clone());
          ck.insert_node_check(format!("n{j}"), move |i, n| {
            let d = format!("{} {:?}", i.0, S::read(n));
            if j == 0 {
              s1.borrow_mut()[0].push(d.clone());
            }
            if j == 1 && p1.as_ref().map_or(false, |p| p.0 == 0 && p.1 == d) { Err(()) } else { Ok(()) }
          });
          let (s1, p1) = (seen.clone(), poison.clone());
          ck.insert_link_add_check(format!("a{j}"), move |x, y, a, b| {
            let d = format!("{} {} {:?} {:?}", x.0, y.0, S::read(a), b.map(S::read));
            if j == 0 {
              s1.borrow_mut()[1].push(d.clone());
            }
            if j == 1 && p1.as_ref().map_or(false, |p| p.0 == 1 && p.1 == d) { Err(()) } else { Ok(()) }
          });
          let (s1, p1) = (seen.clone(), poison.clone());
          ck.insert_link_remove_check(format!("r{j}"), move |x, y, a, b| {
            let d = format!("{} {} {:?} {:?}", x.0, y.0, S::read(a), b.map(S::read));
            if j == 0 {
              s1.borrow_mut()[2].push(d.clone());
            }
            if j == 1 && p1.as_ref().map_or(false, |p| p.0 == 2 && p.1 == d) { Err(()) } else { Ok(()) }
          });
        }
        ck.insert_node_check("gone".into(), |_, _| Err(()));
        ck.insert_link_add_check("gone".into(), |_, _, _, _| Err(()));
        ck.insert_link_remove_check("gone".into(), |_, _, _, _| Err(()));
        ck.remove_node_check("gone");
        ck.remove_link_add_check("gone");
        ck.remove_link_remove_check("gone");
        let res = quiet(|| g.commit_checked(t, &ck));
        if why.is_none() && !ambiguous {
          if res.is_ok() || check_fails {
            let s = seen.borrow();
            for k in 0..3 {
              let got: BTreeSet<String> = s[k].iter().cloned().collect();
              if got != want[k] {
                return fail(&["C14"], format!("{} checks saw {got:?}, expected {:?}", ["node", "link add", "link remove"][k], want[k]));
              }
            }
          }
        }
        self.count("commit_checked");
        res
      } else {
        quiet(|| g.commit(t))
      }
      #[cfg(not(feature = "debug"))]
      quiet(|| g.commit(t))
    };
    self.count("commit");
    if ambiguous {
      // order dependent (several partners): only the generic oracles apply
      self.count("ambiguous");
      self.dead = true;
      if res.is_ok() && !self.graphs[gi].1.is_empty() {
        #[cfg(feature = "debug")]
        if let Err(e) = quiet(|| self.graphs[gi].1.check_backlinks()) {
          return fail(&["C15"], format!("check_backlinks: {e}"));
        }
      }
      return Ok(());
    }
    match (&res, &why) {
      (Ok(()), Some((tag, w))) => return fail(&[tag], format!("the commit went through in spite of: {w}")),
      (Err(p), None) if check_fails => {
        if !p.contains("Check failed") {
          return fail(&tags, format!("the commit panicked: {p}"));
        }
        self.dead = true;
        self.count("expected panic");
        return Ok(());
      },
      (Ok(()), None) if check_fails => return fail(&["C14"], "a failing check did not make the commit panic".into()),
      (Err(p), None) => {
        if p.contains("Link type") {
          tags.push("C05");
          tags.push("C13");
        }
        tags.push("C15");
        tags.push("C08");
        return fail(&tags, format!("the commit panicked: {p}"));
      },
      (Err(_), Some(_)) => {
        self.dead = true;
        self.count("expected panic");
        return Ok(());
      },
      (Ok(()), None) => {},
    }
    let got: Vec<(u64, MNode)> = calls.borrow().iter().map(|x| (x.0, x.2.clone())).collect();
    if got != exp_calls {
      return fail(&tags, format!("closures were called as {got:?}, expected {exp_calls:?}"));
    }
    self.graphs[gi].2 = exp;
    self.retyped |= m.retyped;
    tags.push("C08");
    if self.retyped && !tags.contains(&"C07") {
      tags.push("C07");
    }
    self.compare(gi, &tags)
  }

  fn roundtrip(&mut self, r: &mut Rng, gi: usize) -> R<()> {
    let by_struct = r.chance(40);
    let _ = writeln!(self.log, "serialize graph {gi} {}", if by_struct { "by GraphSerializer" } else { "directly" });
    self.count("serde");
    let c = self.graphs[gi].0;
    let m = self.graphs[gi].2.clone();
    // a compact format: lengths and types are not repeated in the document
    let compact = !by_struct && r.chance(30);
    let bin = if compact { bincode::serialize(&self.graphs[gi].1).map_err(|e| Fail { tags: vec!["C10"], msg: format!("bincode: {e}") })? } else { vec![] };
    let json = serde_json::to_string(&self.graphs[gi].1).map_err(|e| Fail { tags: vec!["C10"], msg: format!("{e}") })?;
    let data: GraphSerializer<S::N> = if by_struct {
      let g = std::mem::replace(&mut self.graphs[gi].1, G::<S>::new(&self.ctxs[c].0));
      let gs = GraphSerializer::from(g);
      if r.chance(50) {
        gs
      } else {
        let j = serde_json::to_string(&gs).map_err(|e| Fail { tags: vec!["C10"], msg: format!("{e}") })?;
        serde_json::from_str(&j).map_err(|e| Fail { tags: vec!["C10"], msg: format!("{e}") })?
      }
    } else if compact {
      bincode::deserialize(&bin).map_err(|e| Fail { tags: vec!["C10"], msg: format!("bincode: {e}") })?
    } else {
      serde_json::from_str(&json).map_err(|e| Fail { tags: vec!["C10"], msg: format!("{e}") })?
    };
    // the model of the rebuilt graph: completion of bidirectional links on the same nodes
    let mut exp = m.clone();
    let mut e2 = m.clone();
    let r1 = complete(&self.s, &mut exp, &BTreeSet::new(), false);
    let r2 = complete(&self.s, &mut e2, &BTreeSet::new(), true);
    let plain = r1.is_ok() && r2.is_ok() && exp == m && e2 == m;
    let res = quiet(|| deserialize_graph(data));
    if !plain {
      self.dead = true;
      return Ok(()); // only graphs with ambiguous partners or changed types get here
    }
    match res {
      Ok((ctx, g)) => {
        if !by_struct {
          // the original is still there: compare it too
          self.compare(gi, &["C10"])?;
        }
        let used: BTreeSet<usize> = m.keys().copied().collect();
        self.ctxs.push((ctx, used));
        let c2 = self.ctxs.len() - 1;
        self.graphs[gi] = (c2, g, m);
        self.compare(gi, &["C10"])
      },
      Err(p) => fail(&["C10"], format!("deserialize_graph panicked: {p}")),
    }
  }

  fn switch(&mut self, r: &mut Rng, gi: usize) -> R<()> {
    if !closed(&self.graphs[gi].2) {
      return Ok(());
    }
    self.count("switch_context");
    let c2 = match r.below(4) {
      0 => self.graphs[gi].0,
      1 => r.below(self.ctxs.len()),
      _ => {
        let ctx = if r.chance(50) { Context::new() } else { Context::default() };
        let mut used = BTreeSet::new();
        // hand out some indices first, so that old and new indices overlap in many ways
        for _ in 0..r.below(4) {
          let mut t: Tr<S> = Transaction::new(&ctx);
          used.insert(t.alloc_untyped().0);
        }
        self.ctxs.push((ctx, used));
        self.ctxs.len() - 1
      },
    };
    let c = self.graphs[gi].0;
    let _ = writeln!(self.log, "switch graph {gi} from context {c} to {c2}");
    let m = self.graphs[gi].2.clone();
    {
      let (mut a, mut b) = (m.clone(), m.clone());
      let r1 = complete(&self.s, &mut a, &BTreeSet::new(), false);
      let r2 = complete(&self.s, &mut b, &BTreeSet::new(), true);
      if r1.is_err() || r2.is_err() || a != m || b != m || (cfg!(feature = "debug") && bad_types(&self.s, &m, &BTreeSet::new()).is_some()) {
        return Ok(()); // changed types or ambiguous partners
      }
    }
    let g = std::mem::replace(&mut self.graphs[gi].1, G::<S>::new(&self.ctxs[c].0));
    let ctx = self.ctxs[c2].0.clone();
    let g = match quiet(|| g.switch_context(&ctx)) {
      Ok(g) => g,
      Err(p) => return fail(&["C09"], format!("switch_context panicked: {p}")),
    };
    let real: MGraph = g.iter().map(|(i, n)| (i.0, S::read(n))).collect();
    if real.len() != m.len() || g.len() != m.len() {
      return fail(&["C09"], format!("{} nodes became {}", m.len(), real.len()));
    }
    let by_uid: BTreeMap<u64, usize> = real.iter().map(|(i, n)| (n.data[0], *i)).collect();
    let mut map: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, n) in &m {
      match by_uid.get(&n.data[0]) {
        Some(j) => map.insert(*i, *j),
        None => return fail(&["C09"], format!("node {i} disappeared")),
      };
    }
    let mut exp = MGraph::new();
    for (i, n) in &m {
      let mut n = n.clone();
      for l in n.links.iter_mut() {
        l.map(&mut |x| map[&x]);
      }
      exp.insert(map[i], n);
    }
    for i in exp.keys().copied().collect::<Vec<_>>() {
      self.fresh(c2, NodeIndex(i)).map_err(|mut f| {
        f.tags.push("C09");
        f
      })?;
    }
    self.graphs[gi] = (c2, g, exp);
    self.compare(gi, &["C09"])
  }

  fn mix(&mut self, r: &mut Rng, gi: usize) -> R<()> {
    self.count("context mix");
    let other = if r.chance(50) { Context::new() } else { Context::default() };
    let _ = writeln!(self.log, "mix contexts with graph {gi}");
    let mut t: Tr<S> = Transaction::new(&other);
    let n = {
      let ty = r.below(self.s.types.len());
      self.rnd_node(r, ty, &BTreeMap::new())
    };
    if r.chance(70) {
      t.insert(S::mk(&n));
    }
    if r.chance(50) {
      let g = &mut self.graphs[gi].1;
      if quiet(|| g.commit(t)).is_ok() {
        return fail(&["C11"], "a transaction of another context was committed".into());
      }
      // it does not go through: nothing may have reached the graph
      self.compare(gi, &["C11"])
    } else {
      let mut g2 = G::<S>::new(&other);
      g2.commit(t);
      let mut t: Tr<S> = Transaction::new(&self.ctxs[self.graphs[gi].0].0);
      if quiet(|| t.merge(g2)).is_ok() {
        return fail(&["C11"], "a graph of another context was merged".into());
      }
      Ok(())
    }
  }

  pub fn history(&mut self, r: &mut Rng, cfg: &Cfg) -> R<()> {
    self.bulk = cfg.big && r.chance(50);
    let steps = if cfg.big { 3 } else if r.chance(1) { 40 + r.below(40) } else { 2 + r.below(7) };
    let mut reached = 0;
    for _ in 0..steps {
      if self.dead {
        break;
      }
      reached += 1;
      let gi = r.below(self.graphs.len());
      match r.below(20) {
        0 | 1 => self.roundtrip(r, gi)?,
        2 | 3 => self.switch(r, gi)?,
        4 => self.mix(r, gi)?,
        5 if self.graphs.len() < 3 => {
          let c = self.graphs[gi].0;
          let g = G::<S>::new(&self.ctxs[c].0);
          let _ = writeln!(self.log, "new graph {} in context {c}", self.graphs.len());
          self.graphs.push((c, g, MGraph::new()));
          let last = self.graphs.len() - 1;
          self.transaction(r, last, cfg)?
        },
        _ => self.transaction(r, gi, cfg)?,
      }
      // other graphs are untouched
      if !self.dead {
        for j in 0..self.graphs.len() {
          if j != gi {
            self.compare(j, &["C08", "C11"])?;
          }
        }
      }
    }
    let _ = reached;
    if !self.dead {
      let vals: Vec<MNode> = self.graphs.iter().flat_map(|g| g.2.values().cloned()).take(4).collect();
      for v in vals {
        self.reflect(r, &v)?;
      }
      let known: BTreeMap<usize, usize> = (1..if self.bulk { 150 } else { 6 }).map(|i| (i, 0)).collect();
      let ty = r.below(self.s.types.len());
      let v = self.rnd_node(r, ty, &known);
      self.reflect(r, &v)?;
      // consume the graphs
      for (c, g, m) in self.graphs.drain(..) {
        let _ = c;
        let by_ref: Vec<(usize, MNode)> = (&g).into_iter().map(|(i, n)| (i.0, S::read(n))).collect();
        let it = g.into_iter();
        if it.len() != m.len() {
          return fail(&["C07"], format!("into_iter().len() is {}, expected {}", it.len(), m.len()));
        }
        let mut it = it;
        let mut by_val: Vec<(usize, MNode)> = vec![];
        let skip = if r.below(3) == 0 { r.below(m.len() + 1) } else { 0 };
        if skip > 0 {
          // the consuming iterator skips as it steps
          let k = by_ref[skip - 1].0;
          match it.nth(skip - 1) {
            Some((i, n)) if i.0 == k && S::read(&n) == by_ref[skip - 1].1 && it.len() == m.len() - skip => {},
            o => return fail(&["C07"], format!("into_iter().nth({}) shows {:?}, expected {k}", skip - 1, o.map(|x| x.0))),
          }
          by_val.extend(by_ref[..skip].iter().cloned());
        }
        while let Some((i, n)) = it.next() {
          by_val.push((i.0, S::read(&n)));
          if it.len() != m.len().wrapping_sub(by_val.len()) {
            return fail(&["C07"], format!("into_iter().len() is {} after {} of {} nodes", it.len(), by_val.len(), m.len()));
          }
        }
        if it.next().is_some() {
          return fail(&["C07"], "into_iter() is not fused".into());
        }
        let want: BTreeMap<usize, MNode> = m;
        for v in [by_ref, by_val] {
          let len = v.len();
          let v: BTreeMap<usize, MNode> = v.into_iter().collect();
          if len != want.len() || v != want {
            return fail(&["C07"], format!("consuming or borrowing iteration shows {v:?}, expected {want:?}"));
          }
        }
      }
    }
    Ok(())
  }
}

/// the provided methods of an iterator agree with stepping through it
fn surface<I: Iterator>(name: &str, mk: impl Fn() -> I, key: impl Fn(I::Item) -> usize) -> R<()> {
  let mut all = vec![];
  let mut it = mk();
  while let Some(x) = it.next() {
    all.push(key(x));
    if all.len() > 100_000 {
      return fail(&["C07"], format!("{name} does not end"));
    }
  }
  if it.next().is_some() {
    return fail(&["C07"], format!("{name} goes on after its end"));
  }
  let n = all.len();
  let mut bad: Option<&str> = None;
  if mk().count() != n {
    bad = Some("count");
  }
  if mk().last().map(&key) != all.last().copied() {
    bad = Some("last");
  }
  let mut folded = mk().fold(vec![], |mut v, x| {
    v.push(key(x));
    v
  });
  if folded != all {
    bad = Some("fold");
  }
  folded.clear();
  mk().for_each(|x| folded.push(key(x)));
  if folded != all {
    bad = Some("for_each");
  }
  if mk().collect::<Vec<_>>().into_iter().map(&key).collect::<Vec<_>>() != all {
    bad = Some("collect");
  }
  if mk().step_by(2).map(&key).collect::<Vec<_>>() != all.iter().copied().step_by(2).collect::<Vec<_>>() {
    bad = Some("step_by");
  }
  for k in [0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1] {
    let mut it = mk();
    if it.nth(k).map(&key) != all.get(k).copied() || it.next().map(&key) != all.get(k + 1).copied() {
      bad = Some("nth");
    }
    if mk().skip(k).map(&key).collect::<Vec<_>>() != all[k.min(n)..] {
      bad = Some("skip");
    }
    let mut it = mk();
    if k < n && it.position(|x| key(x) == all[k]) != Some(k) {
      bad = Some("position");
    }
    let mut it = mk();
    if k < n && !it.any(|x| key(x) == all[k]) {
      bad = Some("any");
    }
  }
  match bad {
    Some(b) => fail(&["C07"], format!("{b}() of {name} disagrees with next(): {all:?}")),
    None => Ok(()),
  }
}

fn chain_hits(reps: &[(usize, usize)], from: usize, x: usize) -> bool {
  let mut y = from;
  for _ in 0..=reps.len() {
    if y == x {
      return true;
    }
    match reps.iter().find(|p| p.0 == y) {
      Some(p) => y = p.1,
      None => return false,
    }
  }
  true
}

/// Indices handed out by many threads
pub fn threads<S: Sch>(seed: u64, n_threads: usize, per: usize) -> R<u64> {
  let base = Rng(seed).below(50);
  let ctx = if seed % 3 == 0 {
    // a rebuilt context
    let c = Context::new();
    let mut g = G::<S>::new(&c);
    let mut t: Tr<S> = Transaction::new(&c);
    let mut w = World::<S>::new();
    for _ in 0..base {
      let n = w.rnd_node(&mut Rng(seed), 0, &BTreeMap::new());
      t.insert(S::mk(&n));
    }
    g.commit(t);
    let j = serde_json::to_string(&g).unwrap();
    let (c2, g2) = deserialize_graph(serde_json::from_str::<GraphSerializer<S::N>>(&j).unwrap());
    if g2.len() != base {
      return fail(&["C10"], "nodes lost".into());
    }
    c2
  } else {
    Context::new()
  };
  let mut all: Vec<usize> = if seed % 3 == 0 { (1..=base).collect() } else { vec![] };
  let fixed = all.len();
  let barrier = std::sync::Arc::new(std::sync::Barrier::new(n_threads));
  let hs: Vec<_> = (0..n_threads)
    .map(|k| {
      let ctx = ctx.clone();
      let b = barrier.clone();
      std::thread::spawn(move || {
        let mut t: Tr<S> = Transaction::new(&ctx);
        let mut w = World::<S>::new();
        let n = w.rnd_node(&mut Rng(seed), 0, &BTreeMap::new());
        b.wait();
        let mut v = Vec::with_capacity(per);
        for i in 0..per {
          v.push(match (i + k) % 3 {
            0 => t.alloc_untyped().0,
            1 => t.alloc(S::disc(0)).0,
            _ => t.insert(S::mk(&n)).0,
          });
        }
        v
      })
    })
    .collect();
  for h in hs {
    match h.join() {
      Ok(v) => all.extend(v),
      Err(_) => return fail(&["C06"], "allocation panicked in a thread".into()),
    }
  }
  let set: BTreeSet<usize> = all.iter().copied().collect();
  if set.len() != all.len() || set.contains(&0) {
    return fail(&["C06"], format!("{} indices handed out by {n_threads} threads, {} distinct, empty handed out: {}", all.len() - fixed, set.len(), set.contains(&0)));
  }
  Ok(all.len() as u64)
}
