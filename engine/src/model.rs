//! The oracle: an executable model of a typed graph, written from the property statements only.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
  D,
  S,
  V,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MLink {
  D(usize),
  S(BTreeSet<usize>),
  V(Vec<usize>),
}
impl MLink {
  pub fn new(k: Kind) -> MLink {
    match k {
      Kind::D => MLink::D(0),
      Kind::S => MLink::S(BTreeSet::new()),
      Kind::V => MLink::V(vec![]),
    }
  }
  /// The targets, empty entries skipped
  pub fn targets(&self) -> Vec<usize> {
    match self {
      MLink::D(x) => Some(*x).into_iter().filter(|x| *x != 0).collect(),
      MLink::S(s) => s.iter().copied().filter(|x| *x != 0).collect(),
      MLink::V(v) => v.iter().copied().filter(|x| *x != 0).collect(),
    }
  }
  pub fn has(&self, t: usize) -> bool {
    t != 0 && self.targets().contains(&t)
  }
  /// Replace every entry by f(entry); entries of a set that become empty disappear
  pub fn map(&mut self, f: &mut dyn FnMut(usize) -> usize) {
    match self {
      MLink::D(x) => {
        if *x != 0 {
          *x = f(*x)
        }
      },
      MLink::S(s) => {
        let mut n = BTreeSet::new();
        for &x in s.iter() {
          if x == 0 {
            n.insert(0);
          } else {
            let y = f(x);
            if y != 0 {
              n.insert(y);
            }
          }
        }
        *s = n;
      },
      MLink::V(v) => {
        for x in v.iter_mut() {
          if *x != 0 {
            *x = f(*x)
          }
        }
      },
    }
  }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MNode {
  pub ty: usize,
  pub data: Vec<u64>, // data[0] is a label that identifies the node for ever
  pub links: Vec<MLink>,
}

pub type MGraph = BTreeMap<usize, MNode>;

#[derive(Clone, Debug)]
pub struct LinkDesc {
  pub name: &'static str,
  pub kind: Kind,
  pub groups: Vec<&'static str>,
}
#[derive(Clone, Debug)]
pub struct TypeDesc {
  pub name: &'static str,
  pub data: Vec<&'static str>,
  pub links: Vec<LinkDesc>,
}
#[derive(Clone, Debug)]
pub struct Schema {
  pub name: &'static str,
  pub types: Vec<TypeDesc>,
  pub node_groups: Vec<(&'static str, Vec<usize>)>,
  /// declared: (variant or node group, field or field group) x 2
  pub bd_decl: Vec<(&'static str, &'static str, &'static str, &'static str)>,
  pub anno_decl: Vec<(&'static str, &'static str, Vec<&'static str>)>,
  // derived
  pub bd: BTreeMap<(usize, usize), BTreeSet<(usize, usize)>>,
  pub anno: BTreeMap<(usize, usize), Vec<BTreeSet<usize>>>,
}
impl Schema {
  pub fn vars(&self, n: &str) -> Vec<usize> {
    if let Some((_, v)) = self.node_groups.iter().find(|g| g.0 == n) {
      return v.clone();
    }
    self.types.iter().enumerate().filter(|(_, t)| t.name == n).map(|x| x.0).collect()
  }
  pub fn fields(&self, t: usize, n: &str) -> Vec<usize> {
    let l = &self.types[t].links;
    if let Some(i) = l.iter().position(|x| x.name == n) {
      return vec![i];
    }
    l.iter().enumerate().filter(|(_, x)| x.groups.contains(&n)).map(|x| x.0).collect()
  }
  pub fn derive(mut self) -> Self {
    for (v1, l1, v2, l2) in self.bd_decl.clone() {
      for t1 in self.vars(v1) {
        for f1 in self.fields(t1, l1) {
          for t2 in self.vars(v2) {
            for f2 in self.fields(t2, l2) {
              self.bd.entry((t1, f1)).or_default().insert((t2, f2));
              self.bd.entry((t2, f2)).or_default().insert((t1, f1));
            }
          }
        }
      }
    }
    for (v, l, vs) in self.anno_decl.clone() {
      let allowed: BTreeSet<usize> = vs.iter().flat_map(|x| self.vars(x)).collect();
      for t in self.vars(v) {
        for f in self.fields(t, l) {
          self.anno.entry((t, f)).or_default().push(allowed.clone());
        }
      }
    }
    self
  }
  /// partner fields of field (t, f) in nodes of type t2
  pub fn partners(&self, t: usize, f: usize, t2: usize) -> Vec<usize> {
    self.bd.get(&(t, f)).map_or(vec![], |s| s.iter().filter(|p| p.0 == t2).map(|p| p.1).collect())
  }
  pub fn type_ok(&self, t: usize, f: usize, target: usize) -> bool {
    self.anno.get(&(t, f)).map_or(true, |v| v.iter().all(|s| s.contains(&target)))
  }
  pub fn all_groups(&self, t: usize) -> BTreeSet<&'static str> {
    self.types[t].links.iter().flat_map(|l| l.groups.iter().copied()).collect()
  }
  /// (t,f) and its partners have no other partner between the same two types
  pub fn single_pair(&self, t: usize, f: usize, t2: usize) -> Option<usize> {
    let p = self.partners(t, f, t2);
    if p.len() != 1 {
      return None;
    }
    let q = self.partners(t2, p[0], t);
    if q == vec![f] {
      Some(p[0])
    } else {
      None
    }
  }
}

pub type Triple = (usize, usize, (usize, usize)); // (source, target, (type of source, field))
pub fn triples(g: &MGraph) -> BTreeSet<Triple> {
  let mut r = BTreeSet::new();
  for (&x, n) in g {
    for (f, l) in n.links.iter().enumerate() {
      for y in l.targets() {
        r.insert((x, y, (n.ty, f)));
      }
    }
  }
  r
}
pub fn closed(g: &MGraph) -> bool {
  triples(g).iter().all(|t| g.contains_key(&t.1))
}
pub fn symmetric(s: &Schema, g: &MGraph) -> Result<(), String> {
  for (x, y, (_, f)) in triples(g) {
    let (Some(a), Some(b)) = (g.get(&x), g.get(&y)) else { continue };
    if let Some(p) = s.single_pair(a.ty, f, b.ty) {
      if !b.links[p].has(x) {
        return Err(format!(
          "node {x}.{} -> {y} but {y}.{} does not lead back",
          s.types[a.ty].links[f].name, s.types[b.ty].links[p].name
        ));
      }
    }
  }
  Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Why {
  Cycle,
  Choice,
  Occupied,
  BdVec,
  LinkType(Triple),
}

pub fn redirect(g: &mut MGraph, reps: &[(usize, usize)]) -> Result<(), Why> {
  let m: BTreeMap<usize, usize> = reps.iter().copied().collect();
  let mut end = BTreeMap::new();
  for &o in m.keys() {
    let mut x = o;
    let mut n = 0;
    while let Some(&y) = m.get(&x) {
      x = y;
      n += 1;
      if n > m.len() {
        return Err(Why::Cycle);
      }
    }
    end.insert(o, x);
  }
  for n in g.values_mut() {
    for l in n.links.iter_mut() {
      l.map(&mut |x| *end.get(&x).unwrap_or(&x));
    }
  }
  Ok(())
}

pub fn remove(g: &mut MGraph, x: usize) {
  g.remove(&x);
  for n in g.values_mut() {
    for l in n.links.iter_mut() {
      l.map(&mut |y| if y == x { 0 } else { y });
    }
  }
}

/// Complete declared bidirectional links, given the links before the commit
pub fn complete(s: &Schema, g: &mut MGraph, before: &BTreeSet<Triple>, rev: bool) -> Result<(), Why> {
  let order = |v: BTreeSet<Triple>| -> Vec<Triple> {
    let mut v: Vec<_> = v.into_iter().collect();
    if rev {
      v.reverse();
    }
    v
  };
  let now = triples(g);
  for (x, y, (t, f)) in order(before.difference(&now).copied().collect()) {
    if !g.contains_key(&x) || !g.contains_key(&y) {
      continue;
    }
    for p in s.partners(t, f, g[&y].ty) {
      match &mut g.get_mut(&y).unwrap().links[p] {
        MLink::D(t) => {
          if *t == x {
            *t = 0
          }
        },
        MLink::S(t) => {
          t.remove(&x);
        },
        MLink::V(_) => return Err(Why::BdVec),
      }
    }
  }
  let now = triples(g);
  for (x, y, (t, f)) in order(now.difference(before).copied().collect()) {
    if !g.contains_key(&y) {
      continue;
    }
    let ps = s.partners(t, f, g[&y].ty);
    if ps.is_empty() || ps.iter().any(|p| g[&y].links[*p].has(x)) {
      continue;
    }
    if ps.len() > 1 {
      return Err(Why::Choice);
    }
    match &mut g.get_mut(&y).unwrap().links[ps[0]] {
      MLink::D(t) => {
        if *t == 0 {
          *t = x
        } else {
          return Err(Why::Occupied);
        }
      },
      MLink::S(t) => {
        t.insert(x);
      },
      MLink::V(_) => return Err(Why::BdVec),
    }
  }
  Ok(())
}

pub fn bad_types(s: &Schema, g: &MGraph, before: &BTreeSet<Triple>) -> Option<Triple> {
  for t in triples(g).difference(before) {
    if let Some(y) = g.get(&t.1) {
      if !s.type_ok(t.2 .0, t.2 .1, y.ty) {
        return Some(*t);
      }
    }
  }
  None
}
