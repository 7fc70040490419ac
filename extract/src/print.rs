//! Prints a token stream, one statement per line, replacing the marker macros by their text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
  pub texts: &'a [String],
  out: String,
  joint: bool,
}

/// `__vf_mark ! (N)` / `__vf_inv ! (N)` at position i
fn marker(ts: &[TokenTree], i: usize, name: &str) -> Option<usize> {
  if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) =
    (ts.get(i), ts.get(i + 1), ts.get(i + 2))
  {
    if id == name && p.as_char() == '!' {
      return g.stream().to_string().trim().parse().ok();
    }
  }
  None
}

impl<'a> Printer<'a> {
  pub fn print(texts: &'a [String], ts: TokenStream) -> String {
    let mut p = Printer { texts, out: String::new(), joint: true };
    p.stream(ts);
    p.out
  }
  fn sp(&mut self) {
    if !self.joint && !self.out.ends_with('\n') && !self.out.ends_with(' ') {
      self.out.push(' ');
    }
    self.joint = false;
  }
  fn stream(&mut self, ts: TokenStream) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
      if let Some(n) = marker(&v, i, "__vf_mark") {
        self.out.push('\n');
        self.out.push_str(&self.texts[n]);
        self.out.push('\n');
        i += 3;
        if let Some(TokenTree::Punct(p)) = v.get(i) {
          if p.as_char() == ';' {
            i += 1;
          }
        }
        continue;
      }
      match &v[i] {
        TokenTree::Group(g) => {
          let (o, c) = match g.delimiter() {
            Delimiter::Parenthesis => ("(", ")"),
            Delimiter::Brace => ("{", "}"),
            Delimiter::Bracket => ("[", "]"),
            Delimiter::None => ("", ""),
          };
          let inner: Vec<TokenTree> = g.stream().into_iter().collect();
          let mut rest = g.stream();
          if g.delimiter() == Delimiter::Brace {
            if let Some(n) = marker(&inner, 0, "__vf_inv") {
              self.out.push('\n');
              self.out.push_str(&self.texts[n]);
              self.out.push('\n');
              let mut k = 3;
              if let Some(TokenTree::Punct(p)) = inner.get(3) {
                if p.as_char() == ';' {
                  k = 4;
                }
              }
              rest = inner[k..].iter().cloned().collect();
            }
          }
          if g.delimiter() == Delimiter::Brace {
            self.sp();
            self.out.push_str("{\n");
          } else {
            self.out.push_str(o);
          }
          self.joint = true;
          self.stream(rest);
          if g.delimiter() == Delimiter::Brace {
            if !self.out.ends_with('\n') {
              self.out.push('\n');
            }
            self.out.push_str("}\n");
          } else {
            self.out.push_str(c);
          }
          self.joint = false;
        },
        TokenTree::Ident(id) => {
          self.sp();
          self.out.push_str(&id.to_string());
        },
        TokenTree::Literal(l) => {
          self.sp();
          self.out.push_str(&l.to_string());
        },
        TokenTree::Punct(p) => {
          let c = p.as_char();
          if c == ';' {
            self.out.push_str(";\n");
            self.joint = true;
          } else if c == ',' {
            self.out.push_str(",");
            self.joint = false;
          } else {
            self.sp();
            self.out.push(c);
            self.joint = p.spacing() == Spacing::Joint || c == '\'';
          }
        },
      }
      i += 1;
    }
  }
}
