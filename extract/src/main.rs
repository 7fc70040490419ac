//! extract --repo R --gen DIR --template T --out O.rs --side S.json --mode P|T [--degrade name,name] [--baseline B --write-baseline]
//!
//! Expands the `/*@fn FILE SELECTOR ... @*/`, `/*@struct ...@*/` and `/*@enum ..@*/` blocks of a template with the
//! code of the repository (FILE relative to --repo; `gen:x` relative to --gen), lowered by lower.rs.
mod lower;
mod print;
use lower::*;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::*;

fn cfg_ok(attrs: &[Attribute]) -> bool {
  fn eval(m: &Meta) -> bool {
    match m {
      Meta::List(l) if l.path.is_ident("not") => !l.parse_args::<Meta>().map(|m| eval(&m)).unwrap_or(false),
      Meta::List(l) if l.path.is_ident("all") => l
        .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
        .map(|v| v.iter().all(eval))
        .unwrap_or(true),
      Meta::List(l) if l.path.is_ident("any") => l
        .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
        .map(|v| v.iter().any(eval))
        .unwrap_or(true),
      Meta::NameValue(n) if n.path.is_ident("feature") => n.value.to_token_stream().to_string().contains("debug"),
      Meta::Path(p) if p.is_ident("test") => false,
      Meta::Path(p) if p.is_ident("debug_assertions") => true,
      _ => true,
    }
  }
  attrs.iter().all(|a| {
    if a.path().is_ident("cfg") {
      a.parse_args::<Meta>().map(|m| eval(&m)).unwrap_or(true)
    } else {
      true
    }
  })
}

fn ty_name(t: &Type) -> String {
  match t {
    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
    Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
    _ => String::new(),
  }
}

struct Found {
  sig: Signature,
  block: Option<Block>,
}

fn find_fn(items: &[Item], sel: &str) -> Vec<Found> {
  // "Type::name", "Type as Trait::name", "trait Trait::name", "::name"
  let (head, name) = sel.rsplit_once("::").unwrap();
  let mut out = vec![];
  for it in items {
    match it {
      Item::Fn(f) if head.is_empty() && f.sig.ident == name && cfg_ok(&f.attrs) => {
        out.push(Found { sig: f.sig.clone(), block: Some((*f.block).clone()) })
      },
      Item::Impl(i) if cfg_ok(&i.attrs) => {
        let tn = ty_name(&i.self_ty);
        let h = match &i.trait_ {
          Some((_, p, _)) => format!("{} as {}", tn, p.segments.last().unwrap().ident),
          None => tn,
        };
        if h == head {
          for x in &i.items {
            if let ImplItem::Fn(f) = x {
              if f.sig.ident == name && cfg_ok(&f.attrs) {
                out.push(Found { sig: f.sig.clone(), block: Some(f.block.clone()) });
              }
            }
          }
        }
      },
      Item::Trait(t) if head == format!("trait {}", t.ident) => {
        for x in &t.items {
          if let TraitItem::Fn(f) = x {
            if f.sig.ident == name && cfg_ok(&f.attrs) {
              out.push(Found { sig: f.sig.clone(), block: f.default.clone() });
            }
          }
        }
      },
      Item::Mod(m) => {
        if let Some((_, its)) = &m.content {
          out.extend(find_fn(its, sel));
        }
      },
      Item::Const(c) => {
        // `const _: () = { .. }` wrappers of derives
        if let Expr::Block(b) = &*c.expr {
          let its: Vec<Item> = b.block.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
          out.extend(find_fn(&its, sel));
        }
      },
      _ => {},
    }
  }
  out
}

fn find_data(items: &[Item], name: &str) -> Option<Item> {
  for it in items {
    match it {
      Item::Struct(s) if s.ident == name => return Some(it.clone()),
      Item::Enum(s) if s.ident == name => return Some(it.clone()),
      Item::Mod(m) => {
        if let Some((_, its)) = &m.content {
          if let Some(r) = find_data(its, name) {
            return Some(r);
          }
        }
      },
      _ => {},
    }
  }
  None
}

/// which of the traits are not derived for the type (their meaning is assumed to be the derived one). In expanded code a
/// derive shows as an impl marked automatically_derived.
fn not_derived(items: &[Item], it: &Item, want: &[&str]) -> Vec<String> {
  let (attrs, name, fields): (&[Attribute], &Ident, Vec<&Field>) = match it {
    Item::Struct(s) => (&s.attrs, &s.ident, s.fields.iter().collect()),
    Item::Enum(s) => (&s.attrs, &s.ident, s.variants.iter().flat_map(|v| v.fields.iter()).collect()),
    _ => return vec![],
  };
  let mut have: Vec<String> = vec![];
  for a in attrs {
    if a.path().is_ident("derive") {
      let _ = a.parse_nested_meta(|m| {
        have.push(m.path.segments.last().unwrap().ident.to_string());
        Ok(())
      });
    }
  }
  fn impls(items: &[Item], name: &Ident, have: &mut Vec<String>) {
    for i in items {
      match i {
        Item::Impl(i) if i.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) => {
          if let (Some((_, t, _)), Type::Path(p)) = (&i.trait_, &*i.self_ty) {
            if p.path.segments.last().unwrap().ident == *name {
              have.push(t.segments.last().unwrap().ident.to_string());
            }
          }
        },
        Item::Mod(m) => {
          if let Some((_, x)) = &m.content {
            impls(x, name, have);
          }
        },
        _ => {},
      }
    }
  }
  impls(items, name, &mut have);
  let serde = attrs.iter().chain(fields.iter().flat_map(|f| f.attrs.iter())).any(|a| a.path().is_ident("serde"));
  want.iter().filter(|w| !have.iter().any(|h| h == *w) || serde && w.ends_with("erialize")).map(|w| w.to_string()).collect()
}

/// takes the first closure out of a block and puts a name in its place
struct Closure1(Option<ExprClosure>);
impl syn::visit_mut::VisitMut for Closure1 {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let (Expr::Closure(c), None) = (&*e, &self.0) {
      self.0 = Some(c.clone());
      *e = parse_quote!(vf_closure);
    } else {
      syn::visit_mut::visit_expr_mut(self, e);
    }
  }
}

/// (head as in a selector, method names) of every impl of a trait and every trait, and of the inherent impls
fn surfaces(items: &[Item], out: &mut BTreeMap<String, BTreeSet<String>>) {
  for it in items {
    match it {
      Item::Impl(i) if cfg_ok(&i.attrs) => {
        let tn = ty_name(&i.self_ty);
        let h = match &i.trait_ {
          Some((_, p, _)) => format!("{} as {}", tn, p.segments.last().unwrap().ident),
          None => tn,
        };
        let e = out.entry(h).or_default();
        for x in &i.items {
          if let ImplItem::Fn(f) = x {
            if cfg_ok(&f.attrs) {
              e.insert(f.sig.ident.to_string());
            }
          }
        }
      },
      Item::Mod(m) => {
        if let Some((_, its)) = &m.content {
          surfaces(its, out);
        }
      },
      Item::Const(c) => {
        if let Expr::Block(b) = &*c.expr {
          let its: Vec<Item> = b.block.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
          surfaces(&its, out);
        }
      },
      _ => {},
    }
  }
}

/// names bound in a function, in order of appearance
struct Binders(Vec<String>);
impl<'ast> Visit<'ast> for Binders {
  fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
    self.0.push(p.ident.to_string());
    visit::visit_pat_ident(self, p);
  }
}

fn rename_words(text: &str, map: &BTreeMap<String, String>) -> String {
  let mut out = String::new();
  let mut w = String::new();
  let b: Vec<char> = text.chars().collect();
  let mut i = 0;
  while i <= b.len() {
    let c = if i < b.len() { b[i] } else { ' ' };
    if c.is_alphanumeric() || c == '_' {
      w.push(c);
    } else {
      if !w.is_empty() {
        out.push_str(map.get(&w).unwrap_or(&w));
        w.clear();
      }
      if i < b.len() {
        out.push(c);
      }
    }
    i += 1;
  }
  out
}

fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn norm_ws(s: &str) -> String {
  s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// replace `from` by `to` in text, where white space in `from` matches any white space or none
fn replace_loose(text: &str, from: &str, to: &str) -> (String, usize) {
  let pat: Vec<char> = from.chars().filter(|c| !c.is_whitespace()).collect();
  let t: Vec<char> = text.chars().collect();
  let mut out = String::new();
  let mut i = 0;
  let mut cnt = 0;
  'o: while i < t.len() {
    if t[i] == pat[0] {
      let (mut a, mut b) = (i, 0);
      while b < pat.len() {
        if a >= t.len() {
          out.push(t[i]);
          i += 1;
          continue 'o;
        }
        if t[a] == pat[b] {
          a += 1;
          b += 1;
        } else if t[a].is_whitespace() && b > 0 {
          a += 1;
        } else {
          out.push(t[i]);
          i += 1;
          continue 'o;
        }
      }
      // word boundaries
      let wc = |c: char| c.is_alphanumeric() || c == '_';
      let left_ok = i == 0 || !wc(pat[0]) || !wc(t[i - 1]);
      let right_ok = a >= t.len() || !wc(pat[pat.len() - 1]) || !wc(t[a]);
      if left_ok && right_ok {
        out.push_str(to);
        cnt += 1;
        i = a;
        continue;
      }
    }
    out.push(t[i]);
    i += 1;
  }
  (out, cnt)
}

struct Args {
  repo: String,
  gen: String,
  mode: String,
  degrade: BTreeSet<String>,
  baseline: BTreeMap<String, (Vec<String>, usize)>,
}

struct FnOut {
  text: String,
  name: String,
  file: String,
  line: usize,
  props: Vec<String>,
  state: String,
  note: String,
  binders: Vec<String>,
  loops: usize,
  hash: String,
}

fn sections(body: &str) -> BTreeMap<String, String> {
  let mut m: BTreeMap<String, String> = BTreeMap::new();
  let mut cur = String::new();
  for l in body.lines() {
    let t = l.trim_start();
    if t.starts_with('#') && !t.starts_with("#[") && !t.starts_with("#!") {
      let rest = &t[1..];
      let (k, v) = match rest.find(" :: ") {
        Some(p) => (rest[..p].trim().to_string(), rest[p + 4..].to_string()),
        None => {
          let (k, v) = rest.trim().split_once(' ').unwrap_or((rest.trim(), ""));
          if ["props", "derives", "name", "ret", "mode", "box", "call", "rename", "generics"].contains(&k) {
            (k.to_string(), v.to_string())
          } else {
            (rest.trim().to_string(), String::new())
          }
        },
      };
      cur = k;
      let e = m.entry(cur.clone()).or_default();
      e.push_str(&v);
      e.push('\n');
    } else if !cur.is_empty() {
      let e = m.get_mut(&cur).unwrap();
      e.push_str(l);
      e.push('\n');
    }
  }
  m
}

fn clause(kw: &str, t: &str) -> String {
  if t.trim().is_empty() {
    String::new()
  } else {
    format!("  {kw}\n{}\n", t.trim_end())
  }
}

fn do_fn(a: &Args, files: &mut BTreeMap<String, std::result::Result<Vec<Item>, String>>, head: &str, body: &str, globals: &[(String, String)]) -> FnOut {
  let mut hp = head.split_whitespace();
  let file = hp.next().unwrap().to_string();
  let sel = hp.collect::<Vec<_>>().join(" ");
  let mut sec = sections(body);
  let take = |sec: &mut BTreeMap<String, String>, k: &str| sec.remove(k).unwrap_or_default();
  let props: Vec<String> = take(&mut sec, "props").split_whitespace().map(|s| s.to_string()).collect();
  let ret = take(&mut sec, "ret").trim().to_string();
  let ret = if ret.is_empty() { "r".to_string() } else { ret };
  let mut name = sel.replace(' ', "_");
  if let Some(n) = sec.remove("name") {
    name = n.trim().to_string();
  }
  let modes = take(&mut sec, "mode");
  let attr = take(&mut sec, "attr");
  let generics_add = take(&mut sec, "generics");
  let where_override = sec.remove("where");
  let sig_override = sec.remove("sig");
  let rename = sec.remove("rename");
  let opts = Opts {
    index_map: sec.remove("index_map").is_some(),
    eq_shim: sec.remove("eq").is_some(),
    box_mode: take(&mut sec, "box").trim().to_string(),
    call_shim: take(&mut sec, "call").split_whitespace().map(|s| s.to_string()).collect(),
  };
  let mut repl: Vec<(String, String)> = globals.to_vec();
  if let Some(r) = sec.remove("replace") {
    for l in r.lines() {
      if let Some((x, y)) = l.split_once("=>>") {
        repl.push((x.trim().to_string(), y.trim().to_string()));
      }
    }
  }
  let mut out = FnOut { text: String::new(), name: name.clone(), file: file.clone(), line: 0, props, state: "verified".into(), note: String::new(), binders: vec![], loops: 0, hash: String::new() };
  let path = if let Some(g) = file.strip_prefix("gen:") { format!("{}/{}", a.gen, g) } else { format!("{}/{}", a.repo, file) };
  let items = files.entry(path.clone()).or_insert_with(|| {
    let t = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
    syn::parse_file(&t).map(|f| f.items).map_err(|e| format!("{path}: {e}"))
  });
  let mut degrade = a.degrade.contains(&name) || a.degrade.contains("*");
  let mut why = if degrade { "not accepted by the verifier's front end in its current form".to_string() } else { String::new() };
  let found = match items {
    Ok(items) => find_fn(items, &sel),
    Err(e) => {
      why = e.clone();
      degrade = true;
      vec![]
    },
  };
  let mut sig_text = sig_override.clone().map(|s| norm_ws(&s));
  let mut block = None;
  let mut params: Vec<String> = vec![];
  if found.len() != 1 {
    degrade = true;
    if why.is_empty() {
      why = format!("{} definitions of {sel} found in {file}", found.len());
    }
    if let Some(s) = sec.get("lost_sig") {
      sig_text = Some(norm_ws(s));
    }
  } else {
    let f = &found[0];
    for p in &f.sig.inputs {
      if let FnArg::Typed(t) = p {
        let mut b = Binders(vec![]);
        b.visit_pat(&t.pat);
        params.extend(b.0);
      }
    }
    out.binders.extend(params.clone());
    if let Some(b) = &f.block {
      let mut bs = Binders(vec![]);
      bs.visit_block(b);
      out.binders.extend(bs.0);
    }
    if sig_text.is_none() {
      let mut sig = f.sig.clone();
      sig.constness = None;
      sig.unsafety = None;
      let retty = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(t.to_token_stream()),
      };
      if let Some(r) = &rename {
        sig.ident = syn::parse_str(r.trim()).unwrap();
      } else if ["iter", "into_iter", "iter_mut"].contains(&sig.ident.to_string().as_str()) {
        sig.ident = quote::format_ident!("vf_{}", sig.ident);
      }
      let wh = sig.generics.where_clause.take();
      sig.output = ReturnType::Default;
      let mut s = print::Printer::print(&[], sig.to_token_stream());
      if !generics_add.trim().is_empty() {
        // add generic parameters
        let p = s.find(&sig.ident.to_string()).unwrap() + sig.ident.to_string().len();
        let rest = s[p..].trim_start().to_string();
        if let Some(r) = rest.strip_prefix('<') {
          s = format!("{}<{}, {}", &s[..p], generics_add.trim(), r);
        } else {
          s = format!("{}<{}>{}", &s[..p], generics_add.trim(), rest);
        }
      }
      if let Some(t) = retty {
        s.push_str(&format!(" -> ({ret}: {})", print::Printer::print(&[], t)));
      }
      match &where_override {
        Some(w) => s.push_str(&format!("\n{}", w.trim())),
        None => {
          if let Some(w) = wh {
            s.push_str(&format!("\n{}", print::Printer::print(&[], w.to_token_stream())));
          }
        },
      }
      sig_text = Some(s);
    }
    block = f.block.clone();
    let arg = sec.remove("closure_arg").is_some();
    let body = sec.remove("closure_body").is_some();
    if arg || body {
      // the first closure of the function becomes a parameter, or the body to verify
      let mut c = Closure1(None);
      if let Some(b) = block.as_mut() {
        syn::visit_mut::VisitMut::visit_block_mut(&mut c, b);
      }
      match c.0 {
        Some(c) if body => {
          let e = &c.body;
          let lets = c.inputs.iter().enumerate().map(|(i, p)| {
            let v = quote::format_ident!("vf_x{}", i);
            quote!(let #p = #v;)
          });
          block = Some(parse_quote!({ #(#lets)* #e }));
        },
        Some(_) => {},
        None => {
          degrade = true;
          why = "no closure in the function".into();
        },
      }
    }
  }
  // renamed binders
  let mut ren: BTreeMap<String, String> = BTreeMap::new();
  if let Some((base, _)) = a.baseline.get(&name) {
    if base.len() == out.binders.len() {
      let mut all: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
      for (x, y) in base.iter().zip(&out.binders) {
        all.entry(x.clone()).or_default().insert(y.clone());
      }
      for (x, ys) in all {
        let y = ys.iter().next().unwrap();
        if ys.len() > 1 {
          let text: String = sec.values().cloned().collect::<Vec<_>>().join("\n");
          if rename_words(&text, &BTreeMap::from([(x.clone(), "vf_gone".to_string())])) != text {
            degrade = true;
            why = format!("locals named {x} were given different names");
          }
        } else if *y != x {
          ren.insert(x, y.clone());
        }
      }
    }
  }
  if !ren.is_empty() {
    for v in sec.values_mut() {
      *v = rename_words(v, &ren);
    }
    let keys: Vec<String> = sec.keys().cloned().collect();
    for k in keys {
      let _ = k;
    }
  }
  let Some(mut sig_text) = sig_text else {
    // the function is gone: callers that still use it will not compile and are degraded in turn
    out.state = "lost".into();
    out.note = why;
    return out;
  };
  let mut req = take(&mut sec, "requires");
  if let Some(r) = sec.remove(&format!("requires[{}]", a.mode)) {
    req.push_str(&r);
  }
  sec.remove("requires[T]");
  sec.remove("requires[P]");
  let mut ens = take(&mut sec, "ensures");
  if let Some(r) = sec.remove(&format!("ensures[{}]", a.mode)) {
    ens.push_str(&r);
  }
  sec.remove("ensures[T]");
  sec.remove("ensures[P]");
  sec.remove("lost_sig");
  let dec = take(&mut sec, "decreases");
  let mut trusted = sec.remove("other-unit").is_some();
  if !modes.trim().is_empty() && !modes.split_whitespace().any(|m| m == a.mode) {
    trusted = true;
  }
  let mut body_text = String::new();
  let mut has_body = true;
  if found.len() == 1 && block.is_none() {
    has_body = false; // required trait method
    if !degrade {
      out.state = "required".into();
    }
  }
  if let Some(mut b) = block {
    out.hash = {
      use std::hash::{Hash, Hasher};
      #[allow(deprecated)]
      let mut h = std::hash::SipHasher::new();
      b.to_token_stream().to_string().hash(&mut h);
      format!("{:016x}", h.finish())
    };
    let mut lw = Lower::new(&sec, opts);
    lw.place_hints(&mut b);
    use syn::visit_mut::VisitMut;
    lw.visit_block_mut(&mut b);
    // cfg-ed statements
    out.loops = lw.nloops;
    if !lw.unsupported.is_empty() {
      degrade = true;
      why = lw.unsupported.join("; ");
    }
    if let Some((_, n)) = a.baseline.get(&name) {
      if *n != lw.nloops && !degrade && !sec.keys().any(|k| k.starts_with("loop @")) {
        degrade = true;
        why = format!("the number of loops changed from {n} to {}", lw.nloops);
      }
    }
    let start = sec.get("start").cloned();
    let end = sec.get("end").cloned();
    let mut used: BTreeSet<String> = lw.used.iter().cloned().collect();
    used.insert("start".into());
    used.insert("end".into());
    let unused: Vec<String> = sec.keys().filter(|k| !used.contains(*k) && !k.starts_with("loop @")).cloned().collect();
    if !unused.is_empty() && !degrade {
      degrade = true;
      why = format!("proof text has no place in the current code: {}", unused.join(", "));
    }
    let mut texts = lw.texts;
    let mut stmts = b.stmts.clone();
    let mut pre = quote!();
    if let Some(s) = start {
      texts.push(s);
      let n = proc_macro2::Literal::usize_unsuffixed(texts.len() - 1);
      pre = quote!(__vf_mark!(#n););
    }
    let mut post = quote!();
    if let Some(s) = end {
      texts.push(s);
      let n = proc_macro2::Literal::usize_unsuffixed(texts.len() - 1);
      // the proof text at the end also belongs to every earlier way out
      let opt = match found.first().map(|f| &f.sig.output) {
        Some(ReturnType::Type(_, t)) => matches!(&**t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Option")),
        _ => false,
      };
      let mut exits = Exits { mark: quote!(__vf_mark!(#n);), opt };
      for s in stmts.iter_mut() {
        syn::visit_mut::VisitMut::visit_stmt_mut(&mut exits, s);
      }
      if let Some(Stmt::Expr(_, None)) = stmts.last() {
        let unit = matches!(stmts.last(), Some(Stmt::Expr(Expr::Block(_) | Expr::If(_), None))) && !sig_text.contains("->");
        if !unit && sig_text.contains("->") {
          let Some(Stmt::Expr(e, None)) = stmts.pop() else { unreachable!() };
          // a reference may be coerced at the return: keep its type
          let ty = match found.first().map(|f| &f.sig.output) {
            Some(ReturnType::Type(_, t)) if matches!(**t, Type::Reference(_)) && sig_override.is_none() => quote!(: #t),
            _ => quote!(),
          };
          post = quote!(let vf_ret #ty = #e; __vf_mark!(#n); vf_ret);
        } else {
          post = quote!(; __vf_mark!(#n););
        }
      } else {
        post = quote!(__vf_mark!(#n););
      }
    }
    body_text = print::Printer::print(&texts, quote!({ #pre #(#stmts)* #post }));
  }
  for (x, y) in &repl {
    sig_text = replace_loose(&sig_text, x, y).0;
    body_text = replace_loose(&body_text, x, y).0;
  }
  let mut t = String::new();
  t.push_str(&attr);
  if degrade || trusted {
    t.push_str("#[verifier::external_body]\n");
  }
  let nopub = sec.contains_key("nopub");
  let _ = nopub;
  t.push_str(&format!("{}\n{}{}{}", sig_text, clause("requires", &req), clause("ensures", &ens), clause("decreases", &dec)));
  if !has_body {
    t.push_str(";\n");
  } else if degrade || trusted {
    t.push_str("{ unimplemented!() }\n");
  } else {
    t.push_str(&body_text);
  }
  if degrade {
    out.state = "degraded".into();
    out.note = why;
  } else if trusted {
    out.state = "other-mode".into();
  }
  out.text = t;
  out
}

struct Exits {
  mark: proc_macro2::TokenStream,
  opt: bool,
}
impl syn::visit_mut::VisitMut for Exits {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Expr::Closure(_) = e {
      return;
    }
    syn::visit_mut::visit_expr_mut(self, e);
    let mark = self.mark.clone();
    match e {
      Expr::Return(r) => {
        let r = r.expr.clone();
        *e = match r {
          Some(x) => parse_quote!({ let vf_ret = #x; #mark return vf_ret; }),
          None => parse_quote!({ #mark return; }),
        };
      }
      Expr::Try(x) if self.opt => {
        let x = &x.expr;
        *e = parse_quote!(match #x { Some(vf_v) => vf_v, None => { let vf_ret = None; #mark return vf_ret; } });
      }
      _ => {}
    }
  }
  fn visit_item_mut(&mut self, _: &mut Item) {}
}

fn main() {
  let argv: Vec<String> = std::env::args().collect();
  let get = |k: &str| argv.iter().position(|x| x == k).map(|i| argv[i + 1].clone());
  let mut baseline = BTreeMap::new();
  if let Some(b) = get("--baseline") {
    if let Ok(t) = std::fs::read_to_string(&b) {
      for l in t.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        if p.len() >= 3 {
          baseline.insert(p[0].to_string(), (p[2].split_whitespace().map(|s| s.to_string()).collect(), p[1].parse().unwrap()));
        }
      }
    }
  }
  let a = Args {
    repo: get("--repo").unwrap(),
    gen: get("--gen").unwrap_or_default(),
    mode: get("--mode").unwrap_or("P".into()),
    degrade: get("--degrade").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    baseline,
  };
  let tpath = get("--template").unwrap();
  let mut tpl = std::fs::read_to_string(&tpath).unwrap();
  let dir = std::path::Path::new(&tpath).parent().unwrap().to_path_buf();
  while let Some(p) = tpl.find("/*@include") {
    let e = tpl[p..].find("@*/").unwrap() + p;
    let d = tpl[p + 10..e].to_string();
    let (trusted, f) = match d.strip_prefix("-trusted ") {
      Some(f) => (true, f.trim().to_string()),
      None => (false, d.trim().to_string()),
    };
    let f = f.replace("$GEN", &get("--gen").unwrap_or_default());
    let path = if f.starts_with('/') { std::path::PathBuf::from(&f) } else { dir.join(&f) };
    let mut t = std::fs::read_to_string(path).unwrap();
    if trusted {
      t = t.replace("/*@fn ", "/*@fn-trusted ");
    }
    tpl = format!("{}{}{}", &tpl[..p], t, &tpl[e + 3..]);
  }
  let mut files: BTreeMap<String, std::result::Result<Vec<Item>, String>> = BTreeMap::new();
  let mut heads: BTreeMap<String, BTreeSet<String>> = BTreeMap::new(); // "X as T" or "X" -> properties
  let mut methods: BTreeSet<String> = BTreeSet::new();
  let mut out = String::new();
  let mut fns: Vec<(FnOut, usize, usize)> = vec![];
  let mut globals: Vec<(String, String)> = vec![];
  let mut rest = tpl.as_str();
  // mode-dependent text: `//[P] text` lines
  let pre: String = rest
    .lines()
    .map(|l| {
      let t = l.trim_start();
      if let Some(x) = t.strip_prefix("//[P]") {
        if a.mode == "P" { format!("{x}\n") } else { "\n".into() }
      } else if let Some(x) = t.strip_prefix("//[T]") {
        if a.mode == "T" { format!("{x}\n") } else { "\n".into() }
      } else {
        format!("{l}\n")
      }
    })
    .collect();
  rest = &pre;
  while let Some(p) = rest.find("/*@") {
    out.push_str(&rest[..p]);
    let e = rest[p..].find("@*/").expect("unterminated directive") + p;
    let d = &rest[p + 3..e];
    rest = &rest[e + 3..];
    let (head, body) = d.split_once('\n').unwrap_or((d, ""));
    let (kind, head) = head.trim().split_once(' ').unwrap_or((head.trim(), ""));
    match kind {
      "fn" | "fn-trusted" => {
        let mut body = body.to_string();
        if kind == "fn-trusted" {
          body.push_str("\n#other-unit\n");
        }
        let f = do_fn(&a, &mut files, head, &body, &globals);
        if kind == "fn" {
          let sel = head.split_whitespace().skip(1).collect::<Vec<_>>().join(" ");
          let (h, m) = sel.rsplit_once("::").unwrap();
          heads.entry(h.to_string()).or_default().extend(f.props.iter().cloned());
          if h.contains(" as ") || h.starts_with("trait ") {
            methods.insert(m.to_string());
          }
        }
        if !out.ends_with('\n') {
          out.push('\n');
        }
        let l0 = out.matches('\n').count() + 1;
        out.push_str(&format!("// from {} {} [{}]\n", head, f.state, f.note.replace('\n', " ")));
        out.push_str(&f.text);
        let l1 = out.matches('\n').count();
        fns.push((f, l0, l1));
      },
      "replace" => {
        for l in body.lines() {
          if let Some((x, y)) = l.split_once("=>>") {
            globals.push((x.trim().to_string(), y.trim().to_string()));
          }
        }
      },
      "struct" | "enum" => {
        let mut hp = head.split_whitespace();
        let file = hp.next().unwrap();
        let name = hp.next().unwrap();
        let mut sec = sections(body);
        let path = if let Some(g) = file.strip_prefix("gen:") { format!("{}/{}", a.gen, g) } else { format!("{}/{}", a.repo, file) };
        let items = files.entry(path.clone()).or_insert_with(|| {
          let t = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
          syn::parse_file(&t).map(|f| f.items).map_err(|e| format!("{path}: {e}"))
        });
        let it = match items {
          Ok(i) => find_data(i, name),
          Err(e) => {
            eprintln!("{e}");
            None
          },
        };
        let Some(it) = it else {
          eprintln!("LOST {name} in {file}");
          std::process::exit(3);
        };
        if let Some(d) = sec.remove("derives") {
          let gone = not_derived(items.as_ref().unwrap(), &it, &d.split_whitespace().collect::<Vec<_>>());
          if !gone.is_empty() {
            let l = out.matches('\n').count() + 1;
            let props = sec.remove("props").unwrap_or_default().split_whitespace().map(|x| x.to_string()).collect();
            let f = FnOut { text: String::new(), name: format!("derived traits of {name}"), file: file.to_string(), line: 0, props, state: "lost".into(), note: format!("no longer derived as assumed: {}", gone.join(" ")), binders: vec![], loops: 0, hash: String::new() };
            fns.push((f, l, l));
          }
        }
        sec.remove("props");
        let ts = match it {
          Item::Struct(mut s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
              f.attrs.clear();
              f.vis = parse_quote!(pub);
            }
            for g in s.generics.params.iter_mut() {
              if let GenericParam::Type(t) = g {
                t.eq_token = None;
                t.default = None;
              }
            }
            s.to_token_stream()
          },
          Item::Enum(mut s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
              v.attrs.clear();
            }
            s.to_token_stream()
          },
          _ => unreachable!(),
        };
        let mut t = print::Printer::print(&[], ts);
        for (x, y) in &globals {
          t = replace_loose(&t, x, y).0;
        }
        if let Some(r) = sec.remove("replace") {
          for l in r.lines() {
            if let Some((x, y)) = l.split_once("=>>") {
              t = replace_loose(&t, x.trim(), y.trim()).0;
            }
          }
        }
        out.push_str(&sec.remove("attr").unwrap_or_default());
        out.push_str(&t);
        out.push('\n');
      },
      _ => panic!("unknown directive {kind}"),
    }
  }
  out.push_str(rest);
  std::fs::write(get("--out").unwrap(), &out).unwrap();
  // What the contracts do not see: a method of an impl under contract that replaces a provided one, an inherent method
  // that hides one of a trait, a Drop impl.
  let mut all: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
  for f in files.values().flatten() {
    surfaces(f, &mut all);
  }
  let mut surf: Vec<(String, String)> = vec![];
  for (h, ms) in &all {
    let ty = h.split(" as ").next().unwrap();
    let Some(props) = heads.get(h).or_else(|| heads.iter().find(|(k, _)| k.split(" as ").next() == Some(ty)).map(|x| x.1)) else { continue };
    let ms: Vec<&String> = if h.ends_with(" as Drop") || heads.contains_key(h) && h.contains(" as ") {
      ms.iter().collect()
    } else if !h.contains(" as ") {
      ms.iter().filter(|m| methods.contains(*m)).collect()
    } else {
      continue;
    };
    let key = format!("impl:{h}");
    let known = a.baseline.get(&key).map(|x| x.0.clone()).unwrap_or_default();
    let new: Vec<String> = ms.iter().filter(|m| !known.contains(m)).map(|m| m.to_string()).collect();
    if !new.is_empty() && !a.baseline.is_empty() && get("--write-baseline").is_none() {
      let f = FnOut { text: String::new(), name: format!("other methods of {h}"), file: String::new(), line: 0, props: props.iter().cloned().collect(), state: "lost".into(), note: format!("methods without contract: {}", new.join(" ")), binders: vec![], loops: 0, hash: String::new() };
      fns.push((f, 1, 1));
    }
    surf.push((key, ms.iter().map(|s| s.as_str()).collect::<Vec<_>>().join(" ")));
  }
  let mut j = String::from("{\"fns\": [\n");
  for (i, (f, l0, l1)) in fns.iter().enumerate() {
    if i > 0 {
      j.push_str(",\n");
    }
    j.push_str(&format!(
      "{{\"name\": {}, \"file\": {}, \"state\": {}, \"note\": {}, \"props\": [{}], \"l0\": {}, \"l1\": {}, \"loops\": {}, \"hash\": {}}}",
      json_str(&f.name), json_str(&f.file), json_str(&f.state), json_str(&f.note),
      f.props.iter().map(|p| json_str(p)).collect::<Vec<_>>().join(", "), l0, l1, f.loops, json_str(&f.hash)
    ));
    let _ = f.line;
  }
  j.push_str("\n]}\n");
  std::fs::write(get("--side").unwrap(), j).unwrap();
  if let Some(b) = get("--write-baseline") {
    let mut t = String::new();
    for (f, _, _) in &fns {
      t.push_str(&format!("{}\t{}\t{}\n", f.name, f.loops, f.binders.join(" ")));
    }
    for (k, v) in &surf {
      t.push_str(&format!("{k}\t0\t{v}\n"));
    }
    std::fs::write(b, t).unwrap();
  }
}
