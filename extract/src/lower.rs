//! Lowers the Rust of the repository to the dialect Verus accepts, statement by statement.
//!
//! What it changes (and nothing else):
//!   * `for P in E` becomes `let mut it = (E).vf_into_iter(); while it.has_next() { let P = it.next(); .. }`
//!   * iterator pipelines become such loops, closures given to iterator adaptors and to Option
//!     combinators are inlined at their only call
//!   * unwrap/expect, panicking macros, map indexing, entry().or_*() become calls of contracted shims
//!   * `match` on string literals becomes an if chain over vf_str_eq
//!   * loop annotations and proof text of the template are inserted
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default, Clone)]
pub struct Opts {
  pub index_map: bool,
  pub eq_shim: bool,
  pub box_mode: String, // "id": drop Box::new, "fn": vf_box
  pub call_shim: Vec<String>,
}

pub struct Lower<'a> {
  pub sec: &'a BTreeMap<String, String>,
  pub opts: Opts,
  pub texts: Vec<String>,
  pub nloops: usize,
  pub ntmp: usize,
  pub used: Vec<String>,
  pub unsupported: Vec<String>,
  /// what collect() builds, from the type annotation of the let
  collect_to: Option<String>,
  loop_stack: Vec<(usize, bool)>,
  /// loop number -> the `@text` of the template section it belongs to
  alias: BTreeMap<usize, String>,
  /// loop number -> the loop around it
  parent: BTreeMap<usize, usize>,
  nest: Vec<usize>,
}

fn id(s: &str) -> Ident {
  Ident::new(s, Span::call_site())
}

fn last_seg(p: &Path) -> String {
  p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

const SOURCES: &[&str] = &["iter", "into_iter", "vf_iter", "vf_into_iter", "iter_sources", "keys", "values", "iter_links", "iter_type", "get_links_by_name", "iter_mut", "vf_iter_mut"];
const ADAPT: &[&str] = &["map", "filter", "filter_map", "flat_map", "cloned", "copied", "chain", "enumerate", "by_ref"];

pub fn is_iter(e: &Expr) -> bool {
  match e {
    Expr::MethodCall(m) => {
      let n = m.method.to_string();
      if n == "vf_into_iter" || n == "vf_iter" {
        return true;
      }
      if SOURCES.contains(&n.as_str()) {
        return true;
      }
      ADAPT.contains(&n.as_str()) && is_iter(&m.receiver)
    },
    Expr::Call(c) => {
      if let Expr::Path(p) = &*c.func {
        SOURCES.contains(&last_seg(&p.path).as_str())
      } else {
        false
      }
    },
    Expr::Paren(p) => is_iter(&p.expr),
    _ => false,
  }
}

fn has_adaptor(e: &Expr) -> bool {
  match e {
    Expr::MethodCall(m) => {
      let n = m.method.to_string();
      ADAPT.contains(&n.as_str()) && is_iter(&m.receiver)
    },
    Expr::Paren(p) => has_adaptor(&p.expr),
    _ => false,
  }
}

enum Stage {
  Map(Pat, Expr),
  MapFn(Expr),
  Filter(Pat, Expr),
  FilterMap(Pat, Expr),
  FlatMap(Pat, Expr),
  Deref,
  Enumerate,
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
  if let Expr::Closure(c) = e {
    if c.inputs.len() == 1 {
      let mut p = c.inputs[0].clone();
      if let Pat::Type(t) = p {
        p = *t.pat;
      }
      return Some((p, (*c.body).clone()));
    }
  }
  None
}

/// `let p = e` where `&x` patterns become a dereference
fn bind(p: &Pat, e: TokenStream) -> TokenStream {
  match p {
    Pat::Reference(r) => {
      let q = &r.pat;
      bind(q, quote!((*#e)))
    },
    Pat::Paren(q) => bind(&q.pat, e),
    _ => quote!(let #p = #e;),
  }
}

fn closure2(e: &Expr) -> Option<(Pat, Pat, Expr)> {
  if let Expr::Closure(c) = e {
    if c.inputs.len() == 2 {
      let pat = |p: &Pat| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() };
      return Some((pat(&c.inputs[0]), pat(&c.inputs[1]), (*c.body).clone()));
    }
  }
  None
}

fn closure0(e: &Expr) -> Option<Expr> {
  if let Expr::Closure(c) = e {
    if c.inputs.is_empty() {
      return Some((*c.body).clone());
    }
  }
  None
}

/// Counts calls of each name directly in a statement, not in nested blocks
struct Calls(Vec<String>);
impl<'ast> Visit<'ast> for Calls {
  fn visit_block(&mut self, _: &'ast Block) {}
  fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
  fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
    visit::visit_expr_method_call(self, m);
    self.0.push(m.method.to_string());
  }
  fn visit_expr_call(&mut self, c: &'ast ExprCall) {
    visit::visit_expr_call(self, c);
    if let Expr::Path(p) = &*c.func {
      self.0.push(last_seg(&p.path));
    }
  }
}

impl<'a> Lower<'a> {
  pub fn new(sec: &'a BTreeMap<String, String>, opts: Opts) -> Self {
    Lower {
      sec,
      opts,
      texts: vec![],
      nloops: 0,
      ntmp: 0,
      used: vec![],
      unsupported: vec![],
      collect_to: None,
      loop_stack: vec![],
      alias: BTreeMap::new(),
      parent: BTreeMap::new(),
      nest: vec![],
    }
  }
  fn get(&mut self, k: &str) -> Option<String> {
    let r = self.sec.get(k).cloned();
    if r.is_some() {
      self.used.push(k.to_string());
      return r;
    }
    // `loop @text ..`: the loop whose source contains text
    let mut w = k.splitn(3, ' ');
    if w.next() == Some("loop") {
      let n: usize = w.next()?.parse().ok()?;
      let a = self.alias.get(&n)?.clone();
      let key = match w.next() {
        Some(x) => format!("loop @{a} {x}"),
        None => format!("loop @{a}"),
      };
      let r = self.sec.get(&key).cloned()?;
      self.used.push(key);
      let p = self.parent.get(&n).copied().unwrap_or(n);
      return Some(r.replace("$n", &n.to_string()).replace("$p", &p.to_string()));
    }
    None
  }
  /// find the `@text` section for loop n with this source
  fn set_alias(&mut self, n: usize, src: &str) {
    if let Some(p) = self.nest.last() {
      self.parent.insert(n, *p);
    }
    let strip = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    let wc = |c: char| c.is_alphanumeric() || c == '_';
    let src = strip(src);
    let mut best: Option<String> = None;
    for k in self.sec.keys() {
      let Some(k) = k.strip_prefix("loop @") else { continue };
      let a = k.split_whitespace().next().unwrap_or("").to_string();
      let hit = a == "*" || src.match_indices(&a).any(|(i, _)| {
        let l = src[..i].chars().last();
        let r = src[i + a.len()..].chars().next();
        !(l.is_some_and(wc) && a.chars().next().is_some_and(wc)) && !(r.is_some_and(wc) && a.chars().last().is_some_and(wc))
      });
      if hit && best.as_ref().is_none_or(|b| b == "*" || (a != "*" && a.len() > b.len())) {
        best = Some(a);
      }
    }
    if let Some(b) = best {
      self.alias.insert(n, b);
    } else if self.sec.keys().any(|k| k.starts_with("loop @")) && !self.sec.contains_key(&format!("loop {n}")) {
      self.unsupported.push(format!("no invariant is known for the loop over {src}"));
    }
  }
  pub fn text(&mut self, s: String) -> usize {
    self.texts.push(s);
    self.texts.len() - 1
  }
  fn mark_opt(&mut self, k: &str) -> TokenStream {
    match self.get(k) {
      Some(t) => self.mark(t),
      None => quote!(),
    }
  }
  fn mark(&mut self, t: String) -> TokenStream {
    let n = self.text(t);
    let n = proc_macro2::Literal::usize_unsuffixed(n);
    quote!(__vf_mark!(#n);)
  }
  fn inv(&mut self, t: String) -> TokenStream {
    let n = self.text(t);
    let n = proc_macro2::Literal::usize_unsuffixed(n);
    quote!(__vf_inv!(#n);)
  }
  fn tmp(&mut self, p: &str) -> Ident {
    self.ntmp += 1;
    format_ident!("vf_{}{}", p, self.ntmp)
  }

  /// Insert the after_call / before_call texts, on the code as written
  pub fn place_hints(&mut self, b: &mut Block) {
    let mut counts: BTreeMap<String, usize> = BTreeMap::new();
    self.hints_block(b, &mut counts);
  }
  fn hints_block(&mut self, b: &mut Block, counts: &mut BTreeMap<String, usize>) {
    let mut out: Vec<Stmt> = vec![];
    let n = b.stmts.len();
    for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
      let mut c = Calls(vec![]);
      c.visit_stmt(&s);
      let mut before = vec![];
      let mut after = vec![];
      for name in c.0 {
        let k = counts.entry(name.clone()).or_default();
        let kk = *k;
        *k += 1;
        if let Some(t) = self.get(&format!("before_call {name} {kk}")) {
          before.push(t);
        }
        if let Some(t) = self.get(&format!("after_call {name} {kk}")) {
          after.push(t);
        }
      }
      // nested blocks
      struct Nested<'b, 'a>(&'b mut Lower<'a>, &'b mut BTreeMap<String, usize>);
      impl<'b, 'a> VisitMut for Nested<'b, 'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
          self.0.hints_block(b, self.1);
        }
      }
      Nested(self, counts).visit_stmt_mut(&mut s);
      for t in before {
        let m = self.mark(t);
        out.push(parse_quote!(#m));
      }
      let is_tail = i + 1 == n && matches!(&s, Stmt::Expr(_, None));
      out.push(s);
      if !after.is_empty() && is_tail {
        self.unsupported.push("proof hint after a tail expression".into());
      }
      for t in after {
        let m = self.mark(t);
        out.push(parse_quote!(#m));
      }
    }
    b.stmts = out;
  }

  fn collect_stages(&mut self, e: &Expr, stages: &mut Vec<Stage>) -> Option<Expr> {
    match e {
      Expr::Paren(p) => self.collect_stages(&p.expr, stages),
      Expr::MethodCall(m) if ADAPT.contains(&m.method.to_string().as_str()) && is_iter(&m.receiver) => {
        let n = m.method.to_string();
        let src = self.collect_stages(&m.receiver, stages)?;
        match n.as_str() {
          "map" => {
            if let Some((p, b)) = closure1(&m.args[0]) {
              stages.push(Stage::Map(p, b));
            } else {
              stages.push(Stage::MapFn(m.args[0].clone()));
            }
          },
          "filter" => {
            let (p, b) = closure1(&m.args[0])?;
            stages.push(Stage::Filter(p, b));
          },
          "filter_map" => {
            let (p, b) = closure1(&m.args[0])?;
            stages.push(Stage::FilterMap(p, b));
          },
          "flat_map" => {
            if let Some((p, b)) = closure1(&m.args[0]) {
              stages.push(Stage::FlatMap(p, b));
            } else {
              let f = &m.args[0];
              stages.push(Stage::FlatMap(parse_quote!(vf_fm), parse_quote!(#f(vf_fm))));
            }
          },
          "cloned" | "copied" => stages.push(Stage::Deref),
          "enumerate" => {
            if !stages.is_empty() {
              return None;
            }
            stages.push(Stage::Enumerate)
          },
          "by_ref" => {},
          "chain" => {
            if !stages.is_empty() {
              return None;
            }
            let b = &m.args[0];
            return Some(parse_quote!((#src).vf_into_iter().vf_chain((#b).vf_into_iter())));
          },
          _ => return None,
        }
        Some(src)
      },
      _ => Some(e.clone()),
    }
  }

  /// Build the loop over `src` through `stages`, `sink` makes the innermost statement from the item
  fn build(&mut self, mut src: Expr, mut stages: std::collections::VecDeque<Stage>, sink: &mut dyn FnMut(&mut Self, Ident) -> TokenStream) -> TokenStream {
    let mut txt = src.to_token_stream().to_string();
    for s in &stages {
      match s {
        Stage::Map(_, b) | Stage::Filter(_, b) | Stage::FilterMap(_, b) | Stage::FlatMap(_, b) | Stage::MapFn(b) => {
          txt.push_str(" . ");
          txt.push_str(&b.to_token_stream().to_string())
        },
        _ => {},
      }
    }
    self.visit_expr_mut(&mut src);
    let n = self.nloops;
    self.nloops += 1;
    self.set_alias(n, &txt);
    let it = format_ident!("vf_it{}", n);
    let cur = self.tmp("c");
    let enumerate = matches!(stages.front(), Some(Stage::Enumerate));
    if enumerate {
      stages.pop_front();
    }
    let ghost = self.mark(format!("let ghost vf_all{n} = vf_it{n}.all();"));
    let before = self.mark_opt(&format!("loop {n} before"));
    let inv = self.for_inv(n);
    let begin = self.mark_opt(&format!("loop {n} begin"));
    self.nest.push(n);
    let inner = self.stages(cur.clone(), stages, sink);
    self.nest.pop();
    let end = self.mark_opt(&format!("loop {n} end"));
    let after = self.mark_opt(&format!("loop {n} after"));
    let bind = if enumerate {
      quote!(let vf_idx = #it.vf_index(); let #cur = (vf_idx, #it.next());)
    } else {
      quote!(let #cur = #it.next();)
    };
    quote! {
      let mut #it = (#src).vf_into_iter();
      #ghost
      #before
      while #it.has_next() { #inv #bind #begin #inner #end }
      #after
    }
  }
  fn for_inv(&mut self, n: usize) -> TokenStream {
    let inv = self.get(&format!("loop {n}")).unwrap_or_default();
    let exc = self.get(&format!("loop {n} except_break")).map(|t| format!("invariant_except_break {t}\n")).unwrap_or_default();
    let ens = self.get(&format!("loop {n} ensures")).map(|t| format!("ensures {t}\n")).unwrap_or_default();
    self.inv(format!(
      "{exc}invariant vf_it{n}.all() == vf_all{n}, 0 <= vf_it{n}.pos() <= vf_all{n}.len(),\n{inv}\n{ens}decreases vf_all{n}.len() - vf_it{n}.pos()"
    ))
  }
  fn stages(&mut self, cur: Ident, mut st: std::collections::VecDeque<Stage>, sink: &mut dyn FnMut(&mut Self, Ident) -> TokenStream) -> TokenStream {
    match st.pop_front() {
      None => sink(self, cur),
      Some(Stage::Map(p, mut b)) => {
        self.visit_expr_mut(&mut b);
        let nx = self.tmp("c");
        let rest = self.stages(nx.clone(), st, sink);
        let bd = bind(&p, quote!(#cur));
        quote!(let #nx = { #bd #b }; #rest)
      },
      Some(Stage::MapFn(f)) => {
        let nx = self.tmp("c");
        let rest = self.stages(nx.clone(), st, sink);
        quote!(let #nx = #f(#cur); #rest)
      },
      Some(Stage::Deref) => {
        let nx = self.tmp("c");
        let rest = self.stages(nx.clone(), st, sink);
        quote!(let #nx = *#cur; #rest)
      },
      Some(Stage::Filter(p, mut b)) => {
        self.visit_expr_mut(&mut b);
        let keep = self.tmp("k");
        let rest = self.stages(cur.clone(), st, sink);
        let bd = bind(&p, quote!((&#cur)));
        quote!(let #keep = { #bd #b }; if #keep { #rest })
      },
      Some(Stage::FilterMap(p, mut b)) => {
        self.visit_expr_mut(&mut b);
        let o = self.tmp("o");
        let nx = self.tmp("c");
        let rest = self.stages(nx.clone(), st, sink);
        let bd = bind(&p, quote!(#cur));
        quote!(let #o = { #bd #b }; if let Some(#nx) = #o { #rest })
      },
      Some(Stage::FlatMap(p, b)) => {
        let mut more = vec![];
        let src = match self.collect_stages(&b, &mut more) {
          Some(s) => s,
          None => {
            self.unsupported.push("flat_map".into());
            b.clone()
          },
        };
        more.extend(st);
        let inner = self.build(src, more.into(), sink);
        { let bd = bind(&p, quote!(#cur)); quote!(#bd #inner) }
      },
      Some(Stage::Enumerate) => {
        self.unsupported.push("enumerate not at the source".into());
        quote!()
      },
    }
  }

  fn lower_collect(&mut self, e: &Expr, to: &str) -> Expr {
    let mut stages = vec![];
    let Some(src) = self.collect_stages(e, &mut stages) else {
      self.unsupported.push(format!("iterator pipeline {}", e.to_token_stream()));
      return e.clone();
    };
    if to == "VIter" && stages.is_empty() {
      let mut s2 = src.clone();
      if s2 != *e {
        self.visit_expr_mut(&mut s2);
        return s2;
      }
    }
    let acc = format_ident!("vf_acc{}", self.nloops);
    let (mk, op) = if to == "OrderSet" || to == "BTreeSet" || to == "HashSet" || to == "IndexSet" {
      (id(to), quote!(insert))
    } else {
      (id("Vec"), quote!(push))
    };
    let acc2 = acc.clone();
    let mut sink = move |_: &mut Self, c: Ident| quote!(#acc2.#op(#c););
    let body = self.build(src, stages.into(), &mut sink);
    let wrap = if to == "VIter" { quote!(#acc.vf_into_iter()) } else { quote!(#acc) };
    parse_quote!({ let mut #acc = #mk::new(); #body #wrap })
  }

  fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
    let name = m.method.to_string();
    let recv = &*m.receiver;
    let nargs = m.args.len();
    match name.as_str() {
      "collect" if nargs == 0 && is_iter(recv) => {
        let mut to = self.collect_to.clone().unwrap_or("Vec".into());
        if let Some(t) = &m.turbofish {
          let s = t.to_token_stream().to_string();
          for k in ["OrderSet", "BTreeSet", "HashSet", "IndexSet"] {
            if s.contains(k) {
              to = k.into();
            }
          }
        }
        return Some(self.lower_collect(recv, &to));
      },
      "any" | "all" if nargs == 1 && is_iter(recv) => {
        let (p, b) = closure1(&m.args[0])?;
        let mut stages = vec![];
        let src = self.collect_stages(recv, &mut stages)?;
        let acc = format_ident!("vf_acc{}", self.nloops);
        let acc2 = acc.clone();
        let any = name == "any";
        let mut sink = move |s: &mut Self, c: Ident| {
          let mut b = b.clone();
          s.visit_expr_mut(&mut b);
          let k = s.tmp("k");
          let bd = bind(&p, quote!(#c));
          if any {
            quote!(let #k = { #bd #b }; if #k { #acc2 = true; })
          } else {
            quote!(let #k = { #bd #b }; if !#k { #acc2 = false; })
          }
        };
        let body = self.build(src, stages.into(), &mut sink);
        let init = if any { quote!(false) } else { quote!(true) };
        return Some(parse_quote!({ let mut #acc = #init; #body #acc }));
      },
      "max" if nargs == 0 && is_iter(recv) => {
        let mut stages = vec![];
        let src = self.collect_stages(recv, &mut stages)?;
        let acc = format_ident!("vf_acc{}", self.nloops);
        let acc2 = acc.clone();
        let mut sink = move |_: &mut Self, c: Ident| quote!(#acc2 = vf_max(#acc2, #c););
        let body = self.build(src, stages.into(), &mut sink);
        return Some(parse_quote!({ let mut #acc = None; #body #acc }));
      },
      "reduce" if nargs == 1 && is_iter(recv) => {
        let (p, q, b) = closure2(&m.args[0])?;
        let mut stages = vec![];
        let src = self.collect_stages(recv, &mut stages)?;
        let acc = format_ident!("vf_acc{}", self.nloops);
        let acc2 = acc.clone();
        let mut sink = move |s: &mut Self, c: Ident| {
          let mut b = b.clone();
          s.visit_expr_mut(&mut b);
          let bd = bind(&q, quote!(#c));
          quote!(#acc2 = match #acc2 { None => Some(#c), Some(#p) => { #bd Some(#b) } };)
        };
        let body = self.build(src, stages.into(), &mut sink);
        return Some(parse_quote!({ let mut #acc = None; #body #acc }));
      },
      "for_each" if nargs == 1 && is_iter(recv) => {
        let (p, b) = closure1(&m.args[0])?;
        let mut stages = vec![];
        let src = self.collect_stages(recv, &mut stages)?;
        let mut sink = move |s: &mut Self, c: Ident| {
          let mut b = b.clone();
          s.visit_expr_mut(&mut b);
          let bd = bind(&p, quote!(#c));
          quote!(#bd #b;)
        };
        let body = self.build(src, stages.into(), &mut sink);
        return Some(parse_quote!({ #body }));
      },
      "extend" if nargs == 1 && is_iter(&m.args[0]) => {
        let mut stages = vec![];
        let src = self.collect_stages(&m.args[0], &mut stages)?;
        let mut r = recv.clone();
        self.visit_expr_mut(&mut r);
        let mut sink = move |_: &mut Self, c: Ident| quote!(#r.push(#c););
        let body = self.build(src, stages.into(), &mut sink);
        return Some(parse_quote!({ #body }));
      },
      _ => {},
    }
    if has_adaptor(&Expr::MethodCall(m.clone())) {
      return Some(self.lower_collect(&Expr::MethodCall(m.clone()), "VIter"));
    }
    // Option combinators
    let mut r = recv.clone();
    match name.as_str() {
      "unwrap" | "expect" => {
        self.visit_expr_mut(&mut r);
        Some(parse_quote!(vf_unwrap(#r)))
      },
      "and_then" | "map" => {
        let (p, mut b) = closure1(&m.args[0])?;
        self.visit_expr_mut(&mut r);
        self.visit_expr_mut(&mut b);
        Some(if name == "map" {
          parse_quote!(match #r { Some(#p) => Some(#b), None => None, })
        } else {
          parse_quote!(match #r { Some(#p) => #b, None => None, })
        })
      },
      "map_or" => {
        let (p, mut b) = closure1(&m.args[1])?;
        let mut d = m.args[0].clone();
        self.visit_expr_mut(&mut r);
        self.visit_expr_mut(&mut d);
        self.visit_expr_mut(&mut b);
        Some(parse_quote!(match #r { Some(#p) => #b, None => #d, }))
      },
      "is_some_and" => {
        let (p, mut b) = closure1(&m.args[0])?;
        self.visit_expr_mut(&mut r);
        self.visit_expr_mut(&mut b);
        Some(parse_quote!(match #r { Some(#p) => #b, None => false, }))
      },
      "is_none_or" => {
        let (p, mut b) = closure1(&m.args[0])?;
        self.visit_expr_mut(&mut r);
        self.visit_expr_mut(&mut b);
        Some(parse_quote!(match #r { Some(#p) => #b, None => true, }))
      },
      "unwrap_or_else" => {
        let mut b = closure0(&m.args[0])?;
        self.visit_expr_mut(&mut r);
        self.visit_expr_mut(&mut b);
        Some(parse_quote!(match #r { Some(vf_u) => vf_u, None => #b, }))
      },
      "unwrap_or" => {
        let mut b = m.args[0].clone();
        self.visit_expr_mut(&mut r);
        self.visit_expr_mut(&mut b);
        Some(parse_quote!(match #r { Some(vf_u) => vf_u, None => #b, }))
      },
      "or_default" | "or_insert" => {
        if let Expr::MethodCall(en) = recv {
          if en.method == "entry" {
            let mut base = (*en.receiver).clone();
            let mut k = en.args[0].clone();
            self.visit_expr_mut(&mut base);
            self.visit_expr_mut(&mut k);
            return Some(if name == "or_default" {
              parse_quote!(#base.vf_entry_or_default(#k))
            } else {
              let mut v = m.args[0].clone();
              self.visit_expr_mut(&mut v);
              parse_quote!(#base.vf_entry_or_insert(#k, #v))
            });
          }
        }
        None
      },
      "iter" | "into_iter" | "iter_mut" if nargs == 0 => {
        if let Expr::Array(a) = recv {
          if a.elems.is_empty() {
            return Some(parse_quote!(vf_empty_iter()));
          }
          let mut r2 = r.clone();
          self.visit_expr_mut(&mut r2);
          return Some(parse_quote!(vf_array_iter(#r2)));
        }
        self.visit_expr_mut(&mut r);
        let mm = format_ident!("vf_{}", name);
        Some(parse_quote!(#r.#mm()))
      },
      _ => None,
    }
  }

  fn mac(&mut self, mac: &Macro) -> Option<Expr> {
    let n = last_seg(&mac.path);
    match n.as_str() {
      "panic" | "unreachable" | "unimplemented" | "todo" => Some(parse_quote!(vf_panic())),
      "assert" | "debug_assert" => {
        let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let mut c = args[0].clone();
        self.visit_expr_mut(&mut c);
        Some(parse_quote!(if !(#c) { vf_panic() }))
      },
      "assert_eq" | "debug_assert_eq" => {
        let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let (a, b) = (args[0].clone(), args[1].clone());
        let mut c: Expr = parse_quote!(#a == #b);
        self.visit_expr_mut(&mut c);
        Some(parse_quote!(if !(#c) { vf_panic() }))
      },
      "assert_ne" | "debug_assert_ne" => {
        let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let (a, b) = (args[0].clone(), args[1].clone());
        let mut c: Expr = parse_quote!(#a != #b);
        self.visit_expr_mut(&mut c);
        Some(parse_quote!(if !(#c) { vf_panic() }))
      },
      "vec" if mac.tokens.is_empty() => Some(parse_quote!(Vec::new())),
      "format" => Some(parse_quote!(vf_format())),
      "matches" => {
        struct M(Expr, Pat, Option<Expr>);
        impl parse::Parse for M {
          fn parse(i: parse::ParseStream) -> Result<Self> {
            let e = i.parse()?;
            i.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) {
              i.parse::<Token![if]>()?;
              Some(i.parse()?)
            } else {
              None
            };
            Ok(M(e, p, g))
          }
        }
        let M(mut e, p, g) = mac.parse_body().ok()?;
        self.visit_expr_mut(&mut e);
        match g {
          None => Some(parse_quote!(match #e { #p => true, _ => false, })),
          Some(mut g) => {
            self.visit_expr_mut(&mut g);
            Some(parse_quote!(match #e { #p if #g => true, _ => false, }))
          },
        }
      },
      "__vf_mark" | "__vf_inv" => None,
      _ => {
        self.unsupported.push(format!("macro {n}!"));
        None
      },
    }
  }

  /// loops with a body written in the source
  fn source_loop(&mut self, body: &mut Block, n: usize) {
    self.loop_stack.push((n, true));
    self.visit_block_mut(body);
    self.loop_stack.pop();
  }

  fn while_inv(&mut self, n: usize) -> TokenStream {
    let inv = self.get(&format!("loop {n}")).map(|t| format!("invariant {t}\n")).unwrap_or_default();
    let exc = self.get(&format!("loop {n} except_break")).map(|t| format!("invariant_except_break {t}\n")).unwrap_or_default();
    let ens = self.get(&format!("loop {n} ensures")).map(|t| format!("ensures {t}\n")).unwrap_or_default();
    let dec = self.get(&format!("loop {n} decreases")).map(|t| format!("decreases {t}\n")).unwrap_or_default();
    self.inv(format!("{exc}{inv}{ens}{dec}"))
  }
}

impl<'a> VisitMut for Lower<'a> {
  fn visit_local_mut(&mut self, l: &mut Local) {
    let saved = self.collect_to.take();
    if let Pat::Type(t) = &l.pat {
      if let Type::Path(p) = &*t.ty {
        self.collect_to = Some(last_seg(&p.path));
      }
    }
    visit_mut::visit_local_mut(self, l);
    self.collect_to = saved;
  }

  fn visit_stmt_mut(&mut self, s: &mut Stmt) {
    if let Stmt::Macro(m) = s {
      if let Some(e) = self.mac(&m.mac) {
        *s = if m.semi_token.is_some() { Stmt::Expr(e, Some(Default::default())) } else { Stmt::Expr(e, None) };
        return;
      }
    }
    visit_mut::visit_stmt_mut(self, s);
  }

  fn visit_expr_mut(&mut self, e: &mut Expr) {
    // the associated types of NodeEnum are declared in the specification trait NodeSpec
    if let Expr::Path(p) = e {
      if let Some(q) = &p.qself {
        if let Some(s) = p.path.segments.iter_mut().take(q.position).last() {
          if s.ident == "NodeEnum" {
            s.ident = id("NodeSpec");
          }
        }
      }
    }
    match e {
      Expr::ForLoop(f) => {
        let mut src = (*f.expr).clone();
        let txt = format!("{} | {} | {}", f.pat.to_token_stream(), f.expr.to_token_stream(), f.body.to_token_stream());
        // enumerate() at the source is the position of the iterator
        let mut enumerate = false;
        if let Expr::MethodCall(m) = &src {
          if m.method == "enumerate" && m.args.is_empty() && is_iter(&m.receiver) && !has_adaptor(&m.receiver) {
            src = (*m.receiver).clone();
            enumerate = true;
          }
        }
        self.visit_expr_mut(&mut src);
        let n = self.nloops;
        self.nloops += 1;
        self.set_alias(n, &txt);
        let it = format_ident!("vf_it{}", n);
        let ghost = self.mark(format!("let ghost vf_all{n} = vf_it{n}.all();"));
        let before = self.mark_opt(&format!("loop {n} before"));
        let inv = self.for_inv(n);
        let begin = self.mark_opt(&format!("loop {n} begin"));
        let mut body = f.body.clone();
        self.source_loop(&mut body, n);
        let end = self.mark_opt(&format!("loop {n} end"));
        let after = self.mark_opt(&format!("loop {n} after"));
        let bd = if enumerate { bind(&f.pat, quote!((#it.vf_index(), #it.next()))) } else { bind(&f.pat, quote!(#it.next())) };
        let label = &f.label;
        let stmts = &body.stmts;
        let semi = match stmts.last() {
          Some(Stmt::Expr(Expr::While(_) | Expr::If(_) | Expr::Block(_) | Expr::Match(_), None)) | None => quote!(),
          Some(Stmt::Expr(_, None)) => quote!(;),
          _ => quote!(),
        };
        *e = parse_quote!({
          let mut #it = (#src).vf_into_iter();
          #ghost #before
          #label while #it.has_next() { #inv #bd #begin #(#stmts)* #semi #end }
          #after
        });
        return;
      },
      Expr::While(w) => {
        if matches!(&*w.cond, Expr::MethodCall(m) if m.method == "has_next") {
          return;
        }
        self.visit_expr_mut(&mut w.cond);
        let n = self.nloops;
        self.nloops += 1;
        let before = self.mark_opt(&format!("loop {n} before"));
        let inv = self.while_inv(n);
        let begin = self.mark_opt(&format!("loop {n} begin"));
        let mut body = w.body.clone();
        self.source_loop(&mut body, n);
        let end = self.mark_opt(&format!("loop {n} end"));
        let after = self.mark_opt(&format!("loop {n} after"));
        let (cond, label, stmts) = (&w.cond, &w.label, &body.stmts);
        *e = parse_quote!({ #before #label while #cond { #inv #begin #(#stmts)* #end } #after });
        return;
      },
      Expr::Loop(w) => {
        let n = self.nloops;
        self.nloops += 1;
        let before = self.mark_opt(&format!("loop {n} before"));
        let inv = self.while_inv(n);
        let begin = self.mark_opt(&format!("loop {n} begin"));
        let mut body = w.body.clone();
        self.source_loop(&mut body, n);
        let end = self.mark_opt(&format!("loop {n} end"));
        let (label, stmts) = (&w.label, &body.stmts);
        *e = parse_quote!({ #before #label loop { #inv #begin #(#stmts)* #end } });
        return;
      },
      Expr::Continue(_) => {
        if let Some((n, _)) = self.loop_stack.last().copied() {
          if let Some(t) = self.get(&format!("loop {n} end")) {
            let m = self.mark(t);
            *e = parse_quote!({ #m continue; });
          }
        }
        return;
      },
      Expr::MethodCall(m) => {
        let m = m.clone();
        if let Some(n) = self.method(&m) {
          *e = n;
          return;
        }
      },
      Expr::Macro(m) => {
        let m = m.mac.clone();
        if let Some(n) = self.mac(&m) {
          *e = n;
          return;
        }
      },
      Expr::Call(c) => {
        if let Expr::Path(p) = &*c.func {
          let s = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
          if s.ends_with("panicking::panic_fmt") || s.ends_with("panicking::panic") {
            *e = parse_quote!(vf_panic());
            return;
          }
          if s.ends_with("Vec::from_iter") && is_iter(&c.args[0]) {
            let a = c.args[0].clone();
            *e = self.lower_collect(&a, "Vec");
            return;
          }
          if s == "Vec::from_iter" {
            let mut a = c.args[0].clone();
            self.visit_expr_mut(&mut a);
            *e = parse_quote!((#a).vf_into_iter().vf_to_vec());
            return;
          }
          if s == "Box::new" && self.opts.box_mode == "id" {
            let mut a = c.args[0].clone();
            self.visit_expr_mut(&mut a);
            *e = a;
            return;
          }
          if s == "Box::new" && self.opts.box_mode == "fn" {
            let mut a = c.args[0].clone();
            self.visit_expr_mut(&mut a);
            *e = parse_quote!(vf_box(#a));
            return;
          }
          if s.ends_with("Iterator::next") && c.args.len() == 1 {
            if let Expr::Reference(r) = &c.args[0] {
              let mut a = (*r.expr).clone();
              self.visit_expr_mut(&mut a);
              *e = parse_quote!(#a.next_opt());
              return;
            }
          }
          if s == "drop" {
            let mut a = c.args[0].clone();
            self.visit_expr_mut(&mut a);
            *e = parse_quote!(vf_drop(#a));
            return;
          }
          if self.opts.call_shim.contains(&s) {
            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
            for a in &mut args {
              self.visit_expr_mut(a);
            }
            let f = &c.func;
            *e = parse_quote!(#f.vf_call((#(#args),*)));
            return;
          }
        }
      },
      Expr::Closure(c) => {
        // |x| x
        if c.inputs.len() == 1 && c.inputs[0].to_token_stream().to_string() == c.body.to_token_stream().to_string() {
          *e = parse_quote!(vf_id);
        } else {
          self.unsupported.push(format!("closure {}", c.to_token_stream()));
        }
        return;
      },
      Expr::Index(i) if self.opts.index_map => {
        let (mut a, mut k) = ((*i.expr).clone(), (*i.index).clone());
        self.visit_expr_mut(&mut a);
        self.visit_expr_mut(&mut k);
        *e = parse_quote!((*vf_index(&#a, #k)));
        return;
      },
      Expr::Binary(b) if self.opts.eq_shim && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
        let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
        self.visit_expr_mut(&mut l);
        self.visit_expr_mut(&mut r);
        *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(vf_eq(&(#l), &(#r))) } else { parse_quote!((!vf_eq(&(#l), &(#r)))) };
        return;
      },
      Expr::Match(m) => {
        let has_str = m.arms.iter().any(|a| matches!(&a.pat, Pat::Lit(PatLit { lit: Lit::Str(_), .. })) || matches!(&a.pat, Pat::Or(o) if o.cases.iter().any(|c| matches!(c, Pat::Lit(PatLit { lit: Lit::Str(_), .. })))));
        let only_wild_str = false;
        if has_str || only_wild_str {
          let scrut = m.expr.clone();
          let mut arms = m.arms.clone();
          let mut out: Option<TokenStream> = None;
          for a in arms.iter_mut() {
            self.visit_expr_mut(&mut a.body);
          }
          for a in arms.iter().rev() {
            let body = &a.body;
            let lits: Vec<&Lit> = match &a.pat {
              Pat::Lit(l) => vec![&l.lit],
              Pat::Or(o) => o.cases.iter().filter_map(|c| if let Pat::Lit(l) = c { Some(&l.lit) } else { None }).collect(),
              _ => vec![],
            };
            if lits.is_empty() {
              out = Some(quote!({ #body }));
            } else {
              let els = out.take();
              let els = match els {
                Some(t) => quote!(else #t),
                None => quote!(),
              };
              out = Some(quote!(if #(vf_str_eq(#scrut, #lits))||* { #body } #els));
            }
          }
          let t = out.unwrap();
          *e = match syn::parse2::<Expr>(quote!({ #t })) {
            Ok(x) => x,
            Err(_) => {
              self.unsupported.push("string match".into());
              return;
            },
          };
          return;
        }
      },
      _ => {},
    }
    visit_mut::visit_expr_mut(self, e);
  }
}
