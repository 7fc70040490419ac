#!/usr/bin/env python3
"""Writes gen/src/lib.rs (declarations whose macro expansion is verified) and verus/unit_g*.tpl (the contracts of that
expansion). The contracts come from the declarations below, not from the macros."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# kind: D single link, V vector, S:<type> set, anything else: data of that type
SCHEMAS = {
  "ga": dict(name="Ga",
    structs={
      "P": dict(fields=[("data", "usize", []), ("one", "D", ["lnk", "both"]), ("many", "V", ["lnk"]), ("hs", "S:HashSet", []), ("bs", "S:BTreeSet", [])]),
      "Q": dict(fields=[("back", "S:OrderSet", ["rev"]), ("s", "String", [])]),
    },
    variants=[("P", "P"), ("Q", "Q")],
    groups=[("first", ["P"]), ("all", ["P", "Q"])],
    bd=[("P.one", "Q.back")],
    lt=[("P.many", ["Q"])]),
  "gb": dict(name="Gb",
    structs={
      "X": dict(fields=[("id", "u32", []), ("a", "D", ["src"]), ("b", "S:IndexSet", ["src", "wide"]), ("peer", "S:HashSet", []), ("loose", "V", ["wide"]), ("name", "String", [])]),
      "Y": dict(fields=[("y_a", "S:OrderSet", ["dst"]), ("yb", "S:BTreeSet", ["dst"]), ("yv", "V", []), ("par", "D", []), ("kids", "S:OrderSet", [])], phantom=["wide"]),
      "Z": dict(fields=[("zc", "D", ["wide"]), ("zz", "S:HashSet", [])], phantom=["dst"]),
    },
    variants=[("X", "X"), ("Y", "Y"), ("Z", "Z"), ("Twin", "X")],
    groups=[("yz", ["Y", "Z"]), ("all", ["X", "Y", "Z", "Twin"]), ("lone", ["Twin"])],
    bd=[("X.src", "yz.dst"), ("X.peer", "X.peer"), ("Y.par", "Y.kids"), ("Z.zc", "X.peer"), ("Twin.a", "Z.zz")],
    lt=[("X.loose", ["Y"]), ("yz.wide", ["X", "Twin"]), ("Twin.loose", ["yz", "Twin"]), ("Z.zz", ["lone"]), ("X.wide", ["yz", "X"])]),
  "gc": dict(name="Gc",
    structs={"Nil": dict(fields=[("n", "usize", [])]), "Only": dict(fields=[("v", "V", [])])},
    variants=[("Nil", "Nil"), ("Only", "Only")], groups=[], bd=[], lt=[]),
  "gd": dict(name="Gd",
    structs={"Solo": dict(fields=[("next", "D", []), ("prev", "D", []), ("tag", "u8", [])])},
    variants=[("Solo", "Solo")], groups=[], bd=[("Solo.next", "Solo.prev")], lt=[("Solo.next", ["Solo"])]),
  # the checks written before the groups and in two pieces, a group linked to itself, overlapping groups, a field in several groups, more variants than groups, names of unusual shape
  "ge": dict(name="GeTree", order=["lt", "bd", "groups"],
    structs={
      "HTTPNode": dict(fields=[("to_2", "S:BTreeSet", ["ring", "east"]), ("x_y_z", "D", ["ring", "deep_end"]), ("port", "u16", [])]),
      "B2": dict(fields=[("up", "S:IndexSet", ["ring"]), ("w", "V", ["deep_end", "east"])]),
      "Leaf": dict(fields=[("val", "i64", []), ("up", "D", ["ring"])], phantom=["east"]),
      "Void": dict(fields=[]),
    },
    variants=[("HTTPNode", "HTTPNode"), ("Leaf", "Leaf"), ("B2", "B2"), ("LeafAlt", "Leaf"), ("Void", "Void")],
    groups=[("inner", ["HTTPNode", "B2"]), ("outer", ["B2", "Leaf", "LeafAlt"]), ("all_of", ["HTTPNode", "Leaf", "B2", "LeafAlt", "Void"]), ("void", ["Void"])],
    bd=[("inner.ring", "inner.ring"), ("outer.up", "LeafAlt.up")],
    lt=[("HTTPNode.deep_end", ["outer"]), ("B2.w", ["HTTPNode", "outer"]), ("outer.up", ["all_of"]), ("HTTPNode.ring", ["inner"])]),
}

SCHEMAS["gf"] = dict(name="Gf", order=["lt", "bd", "groups"],
  # names that differ in a digit, an underscore or case; names shared between fields, groups and types; variants named like the type of another variant
  structs={
    "Aab": dict(fields=[("n", "usize", []), ("n_", "usize", []), ("_n", "usize", []), ("l", "D", ["ll", "l_l", "n"]), ("l11", "S:HashSet", ["g11", "g1", "n"]), ("x_y", "String", []), ("xy", "String", []), ("ln", "V", ["g", "gg"])]),
    "AaB": dict(fields=[("l", "u64", []), ("next", "D", ["g", "l11", "n_ext"]), ("next1", "D", ["n_ext"]), ("nex", "S:BTreeSet", ["g1", "g"]), ("t", "D", [])]),
    "A": dict(fields=[("aab", "D", []), ("aa_b", "D", ["next", "g"]), ("aa_bs", "S:OrderSet", [])], phantom=["n_ext"]),
  },
  variants=[("AaB", "Aab"), ("Aab", "AaB"), ("A", "A"), ("Aa", "A")],
  groups=[("aa", ["A", "Aa"]), ("AA", ["Aa", "A"]), ("every", ["AaB", "Aab", "A"]), ("aA", ["Aab"])],
  bd=[("AaB.ll", "AA.aa_bs"), ("Aab.t", "A.aab"), ("Aab.next", "Aa.aab")],
  lt=[("AaB.l11", ["aa"]), ("every.g", ["AA", "aa"]), ("A.n_ext", ["aa"]), ("Aab.next1", ["AaB"])])

# many fields and groups, a long annotation list
SCHEMAS["gh"] = dict(name="Gh",
  structs={
    "W": dict(fields=[("f0", "D", ["g0"]), ("f1", "D", ["g0", "g1"]), ("d0", "u16", []), ("f2", "D", ["g1"]), ("f3", "V", ["g2"]), ("f4", "V", ["g2", "g3"]), ("f5", "S:BTreeSet", ["g3", "g4"]), ("f6", "S:HashSet", ["g4", "g5"]), ("d1", "String", []), ("f7", "S:OrderSet", ["g5", "g0"]), ("f8", "D", []), ("f9", "S:IndexSet", ["g5"]), ("d2", "u16", [])]),
    "U": dict(fields=[("x", "D", ["g0"]), ("v", "u8", []), ("y", "D", ["g1"])]),
  },
  variants=[("V1", "W"), ("V2", "U"), ("V3", "U")],
  groups=[("us", ["V2", "V3"]), ("ends", ["V1", "V3"])],
  bd=[("V1.f9", "us.y")],
  lt=[("us.x", ["us", "ends"]), ("V1.f3", ["us", "V1"]), ("V1.g5", ["V1", "us"]), ("V1.f0", ["V3", "V2"])])

def camel(s):
    return "".join(("_" if w[:1].isdigit() else "") + w[:1].upper() + w[1:] for w in s.split("_"))
def snake(s):
    return "".join(("_" if i and c.isupper() and (not s[i - 1].isupper() or s[i + 1:i + 2].islower()) else "") + c.lower() for i, c in enumerate(s))
def is_link(k):
    return k in ("D", "V") or k.startswith("S:")

def rust_ty(k):
    if k == "D": return "NodeIndex"
    if k == "V": return "Vec<NodeIndex>"
    if k == "S:OrderSet": return "::ordermap::OrderSet<NodeIndex>"
    if k == "S:IndexSet": return "::indexmap::IndexSet<NodeIndex>"
    if k.startswith("S:"): return "std::collections::" + k[2:] + "<NodeIndex>"
    return k

def lib():
    o = ["// Written by verus/gen_schemas.py: the declarations whose macro expansion is verified.", "#![allow(dead_code, unused)]"]
    for m, s in SCHEMAS.items():
        o.append(f"pub mod {m} {{\n  use ttgraph::*;")
        for n, st in s["structs"].items():
            o.append("  #[derive(TypedNode)]")
            if st.get("phantom"):
                o.append(f"  #[phantom_group({', '.join(st['phantom'])})]")
            o.append(f"  pub struct {n} {{")
            for f, k, g in st["fields"]:
                if g:
                    o.append(f"    #[group({', '.join(g)})]")
                o.append(f"    pub {f}: {rust_ty(k)},")
            o.append("  }")
        o.append("  node_enum! {")
        o.append(f"    pub enum {s['name']} {{ {', '.join(f'{v}({t})' for v, t in s['variants'])} }}")
        for k in s.get("order", ["groups", "bd", "lt"]):
            if k == "groups" and s["groups"]:
                o.append("    group! { " + ", ".join(f"{g} {{ {', '.join(m)} }}" for g, m in s["groups"]) + " }")
            if k == "bd" and s["bd"]:
                o.append("    bidirectional! { " + ", ".join(f"{a} <-> {b}" for a, b in s["bd"]) + " }")
            if k == "lt" and s["lt"]:
                o.append("    link_type! { " + ", ".join(f"{a}: {l[0] if len(l) == 1 else '{ ' + ', '.join(l) + ' }'}" for a, l in s["lt"]) + " }")
        o.append("  }\n}")
    return "\n".join(o) + "\n"

class St:
    def __init__(self, n, d):
        self.n, self.d = n, d
        self.links = [(f, k, g) for f, k, g in d["fields"] if is_link(k)]
        self.datas = [(f, k) for f, k, g in d["fields"] if not is_link(k)]
        gs = []
        for f, k, g in d["fields"]:
            for x in g:
                if x not in gs: gs.append(x)
        for x in d.get("phantom", []):
            if x not in gs: gs.append(x)
        self.groups = gs
        self.empty = not self.links
    def members(self, log):
        """fields of a link or group name"""
        for f, k, g in self.links:
            if f == log: return [f]
        return [f for f, k, g in self.links if log in g]
    def logs(self):
        return [f for f, k, g in self.links] + self.groups

def distinct(names):
    """facts that tell the string literals apart"""
    o = [f'reveal_strlit("{n}");' for n in names]
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            if len(a) != len(b):
                o.append(f'assert("{a}"@.len() != "{b}"@.len());')
            else:
                k = next(j for j in range(len(a)) if a[j] != b[j])
                o.append(f'assert("{a}"@[{k}] != "{b}"@[{k}]);')
    return " ".join(o)

def chain(pairs, els):
    return "".join(f'if name == "{n}"@ {{ {e} }} else ' for n, e in pairs) + f"{{ {els} }}"

def struct_tpl(m, st):
    n = st.n
    G = f"gen:{m}.rs"
    S, L, O = f"{n}Source", f"{n}LinkMirror", f"{n}LoGMirror"
    o = []
    w = o.append
    w(f"// ---------------- {n} ----------------")
    w(f"/*@struct {G} {n}\n@*/")
    for e in (S, L, O):
        w(f"/*@enum {G} {e}\n#props C12 C13\n#derives Copy Clone PartialEq Eq Hash PartialOrd Ord\n#attr\n#[derive(Copy, Clone)]\n@*/")
    w(f"pub mod ttgraph_gen_{snake(n)} {{ pub use super::*; }}")
    w(f"pub struct {n}Data {{ " + " ".join([f"pub {f}: {k}," for f, k in st.datas] + [f"pub n_{f}: nat," for f, k, g in st.links if k == "V"]) + " }")
    F = st.links
    def place(f, k): return f"{S}::{camel(f)}" + ("(i)" if k == "V" else "")
    w(f"""impl TypedSpec for {n} {{
  type Source = {S};
  type LinkMirror = {L};
  type LoGMirror = {O};
  type DataT = {n}Data;""")
    def arms(fn, e):
        if st.empty: return e
        return "\n".join("      " + fn(f, k) for f, k, g in F)
    w(f"""  open spec fn links(&self) -> ISet<(NodeIndex, {S})> {{
    ISet::new(|p: (NodeIndex, {S})| p.0.0 != 0 && match p.1 {{
{arms(lambda f, k: place(f, k) + " => " + (f"self.{f} == p.0," if k == "D" else f"i < self.{f}@.len() && self.{f}@[i as int] == p.0," if k == "V" else f"self.{f}@.contains(p.0),"), f"      {S}::Empty => false,")}
    }})
  }}""")
    w(f"  open spec fn data(&self) -> {n}Data {{ {n}Data {{ " + " ".join([f"{f}: self.{f}," for f, k in st.datas] + [f"n_{f}: self.{f}@.len()," for f, k, g in F if k == "V"]) + " } }")
    w(f"  open spec fn place_ok(d: {n}Data, s: {S}) -> bool {{ match s {{\n{arms(lambda f, k: place(f, k) + (f' => i < d.n_{f},' if k == 'V' else ' => true,'), f'      {S}::Empty => false,')}\n  }} }}")
    w(f"  open spec fn single(s: {S}) -> bool {{ match s {{\n{arms(lambda f, k: place(f, k) + (' => false,' if k.startswith('S') else ' => true,'), f'      {S}::Empty => true,')}\n  }} }}")
    w(f"  open spec fn mirror(s: {S}) -> {L} {{ match s {{\n{arms(lambda f, k: place(f, k) + f' => {L}::{camel(f)},', f'      {S}::Empty => {L}::Empty,')}\n  }} }}")
    w(f"  open spec fn source(l: {L}) -> {S} {{ match l {{\n{arms(lambda f, k: f'{L}::{camel(f)} => {S}::{camel(f)}' + ('(0),' if k == 'V' else ','), f'      {L}::Empty => {S}::Empty,')}\n  }} }}")
    w(f"  open spec fn is_vec(l: {L}) -> bool {{ match l {{\n{arms(lambda f, k: f'{L}::{camel(f)} => ' + ('true,' if k == 'V' else 'false,'), f'      {L}::Empty => false,')}\n  }} }}")
    w(f"  open spec fn is_field(l: {L}) -> bool {{ {'false' if st.empty else 'true'} }}")
    logarms = "".join(f"    ({O}::{camel(g)}, {L}::{camel(f)}) => true,\n" for g in st.logs() for f in st.members(g))
    w(f"  open spec fn in_log(g: {O}, l: {L}) -> bool {{ match (g, l) {{\n{logarms}    _ => false,\n  }} }}")
    w(f"  open spec fn has(&self, l: {L}, x: NodeIndex) -> bool {{ match l {{\n{arms(lambda f, k: f'{L}::{camel(f)} => ' + (f'self.{f} == x,' if k == 'D' else f'self.{f}@.contains(x),'), f'      {L}::Empty => false,')}\n  }} }}")
    w(f"  open spec fn cnt_of(&self, l: {L}, x: NodeIndex) -> nat {{ if x.0 == 0 {{ 0 }} else {{ match l {{\n{arms(lambda f, k: f'{L}::{camel(f)} => ' + (f'if self.{f} == x {{ 1 }} else {{ 0 }},' if k == 'D' else f'cnt(self.{f}@, x),' if k == 'V' else f'if self.{f}@.contains(x) {{ 1 }} else {{ 0 }},'), f'      {L}::Empty => 0,')}\n  }} }} }}")
    w("  open spec fn grp_cnt(&self, name: Seq<char>, x: NodeIndex) -> nat { " + chain([(g, " + ".join(f"self.cnt_of({L}::{camel(f)}, x)" for f in st.members(g)) or "0") for g in st.groups], "0") + " }")
    w(f"  open spec fn by_name(name: Seq<char>) -> Option<{L}> {{ " + chain([(f, f"Some({L}::{camel(f)})") for f, k, g in F], "None") + " }")
    w(f"  open spec fn log_by_name(name: Seq<char>) -> Option<{O}> {{ " + chain([(g, f"Some({O}::{camel(g)})") for g in st.logs()], "None") + " }")
    w("  open spec fn dref<T>(&self, name: Seq<char>) -> Option<T> { " + chain([(f, f"vf_any::<{k}, T>(self.{f})") for f, k in st.datas], "None") + " }")
    w("  open spec fn names() -> Seq<&'static str> { seq![" + ", ".join(f'"{f}"' for f, k, g in F) + "] }")
    w("  open spec fn kinds() -> Seq<LinkType> { seq![" + ", ".join("LinkType::" + {"D": "Point", "V": "Vec"}.get(k, "Set") for f, k, g in F) + "] }")
    w(f"  open spec fn mirrors() -> Seq<{L}> {{ seq![" + ", ".join(f"{L}::{camel(f)}" for f, k, g in F) + "] }")
    w("  open spec fn dnames() -> Seq<&'static str> { seq![" + ", ".join(f'"{f}"' for f, k in st.datas) + "] }")
    w(f"  proof fn law_has(&self, l: {L}, x: NodeIndex) {{")
    for f, k, g in F:
        if k == "V":
            w(f"    if l is {camel(f)} && self.has(l, x) {{ let j = choose|j: int| 0 <= j < self.{f}@.len() && self.{f}@[j] == x; assert(self.{f}.len() == self.{f}@.len()); assert(self.links().contains((x, {S}::{camel(f)}(j as usize)))); }}")
            w(f"    if l is {camel(f)} {{ assert forall|s: {S}| #[trigger] self.links().contains((x, s)) && Self::mirror(s) == l implies self.has(l, x) by {{ }} }}")
        else:
            w(f"    if l is {camel(f)} && self.has(l, x) {{ assert(self.links().contains((x, {S}::{camel(f)}))); }}")
    w("  }\n}")
    # conversions
    w(f"""impl {S} {{
/*@fn {G} {S}::to_link_mirror
#props C12
#ensures
  r == {n}::mirror(self),
@*/
}}
impl {L} {{
/*@fn {G} {L}::to_source
#props C12
#requires[T]
  !{n}::is_vec(self),
#ensures
  r == {n}::source(self), !{n}::is_vec(self),
@*/
}}
impl {O} {{
/*@fn {G} {O}::to_links
#props C12 C13 C04
#ensures
  forall|i: int| 0 <= i < r@.len() ==> {'!' + n + '::is_field(#[trigger] r@[i])' if st.empty else n + '::in_log(self, #[trigger] r@[i])'},
  forall|l: {L}| #[trigger] {n}::in_log(self, l) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == l,
#end
  proof {{
{chr(10).join(f"    if self is {camel(g)} {{ " + " ".join(f"assert(vf_ret@.contains({L}::{camel(f)}));" for f in st.members(g)) + " }" for g in st.logs())}
  }}
@*/
}}""")
    # the node
    anyof = " || ".join(f"q is {camel(f)}" if k == "V" else f"q == {S}::{camel(f)}" for f, k, g in F) or f"q == {S}::Empty"
    w(f"impl TypedNode for {n} {{")
    t = [f"/*@fn {G} {n} as TypedNode::iter_sources", "#props C12 C02 C15 C14 C09"]
    for f, k, g in F:
        if k == "D": continue
        t += [f"#loop @self.{f} before", f"  let ghost vf_pre$n = sources@;"]
        if k == "V":
            body = f"p.1 is {camel(f)} && p.1->{camel(f)}_0 < vf_it$n.pos() && self.{f}@[p.1->{camel(f)}_0 as int] == p.0"
        else:
            body = f"p.1 == {S}::{camel(f)} && met(vf_all$n, vf_it$n.pos() as int, p.0)"
            t += ["  proof { met_none(vf_all$n); }"]
        t += [f"#loop @self.{f}",
              f"  forall|p: (NodeIndex, {S})| #[trigger] sources@.contains(p) <==> vf_pre$n.contains(p) || (p.0.0 != 0 && {body}),",
              "  sources@.no_duplicates(),"]
        if k != "V":
            t += [f"#loop @self.{f} begin", "  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }",
                  f"#loop @self.{f} after", f"  proof {{ met_all(self.{f}@, vf_all$n); }}"]
    t += ["#end", f"""  proof {{
    assert forall|p: (NodeIndex, {S})| #[trigger] vf_ret.all().contains(p) <==> self.links().contains(p) by {{ {f"assert(p.1 == {S}::{camel(F[0][0])});" if len(F) == 1 and F[0][1] == "D" else ""} }}
    assert forall|i: int| 0 <= i < vf_ret.all().len() implies self.links().contains(#[trigger] vf_ret.all()[i]) by {{ assert(vf_ret.all().contains(vf_ret.all()[i])); }}
  }}"""]
    t += ["@*/"]
    o += t
    t = [f"/*@fn {G} {n} as TypedNode::iter_links", "#props C12 C07", "#box id"]
    for f, k, g in F:
        if k == "V":
            t += [f"#loop @self.{f} before", f"  proof {{ take_none(self.{f}@); }}",
                  f"#loop @self.{f}", f"  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 == 0 {{ 0 }} else {{ cnt(self.{f}@.take(vf_it$n.pos() as int), x) }}),",
                  f"#loop @self.{f} begin", f"  proof {{ cnt_take(self.{f}@, vf_it$n.pos() - 1); }}",
                  f"#loop @self.{f} after", f"  proof {{ take_all(self.{f}@); }}"]
        elif k != "D":
            t += [f"#loop @self.{f} before", "  proof { met_none(vf_all$n); }",
                  f"#loop @self.{f}", f"  forall|x: NodeIndex| #[trigger] cnt(vf_acc$n@, x) == (if x.0 != 0 && met(vf_all$n, vf_it$n.pos() as int, x) {{ 1nat }} else {{ 0 }}),",
                  f"#loop @self.{f} begin", "  proof { met_step(vf_all$n, vf_it$n.pos() - 1); }",
                  f"#loop @self.{f} after", f"  proof {{ met_all(self.{f}@, vf_all$n); }}"]
    o += t + ["@*/"]
    o.append(f"""/*@fn {G} {n} as TypedNode::modify_link
#props C12 C01 C02 C03 C09
#start
  proof {{
    let ghost vf_o = self.links();
{chr(10).join(f"    if self.{f}.0 != 0 {{ assert(self.links().contains((self.{f}, {S}::{camel(f)}))); }}" if k == "D" else f"    if source is {camel(f)} {{ let j = source->{camel(f)}_0 as int; if self.{f}@[j].0 != 0 {{ assert(self.links().contains((self.{f}@[j], source))); }} }}" for f, k, g in F if k in "DV")}
  }}
#end
  proof {{ assert forall|p: (NodeIndex, {S})| #[trigger] self.links().contains(p) == set_link(old(self).links(), source, Self::single(source), old_idx, new_idx).contains(p) by {{ let q = p.1; assert({anyof}); }} assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }}
@*/
/*@fn {G} {n} as TypedNode::add_link
#props C12 C04
#start
  proof {{
{chr(10).join(f"    if self.{f}.0 != 0 {{ assert(self.links().contains((self.{f}, {S}::{camel(f)}))); }}" for f, k, g in F if k == "D")}
  }}
#end
  proof {{ assert forall|p: (NodeIndex, {S})| #[trigger] self.links().contains(p) == old(self).links().insert((target, Self::source(link))).contains(p) by {{ let q = p.1; assert({anyof}); }} assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }}
@*/
/*@fn {G} {n} as TypedNode::remove_link
#props C12 C04
#end
  proof {{ assert forall|p: (NodeIndex, {S})| #[trigger] self.links().contains(p) == old(self).links().remove((target, Self::source(link))).contains(p) by {{ let q = p.1; assert({anyof}); }} assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }}
@*/""")
    t = [f"/*@fn {G} {n} as TypedNode::contains_link", "#props C12 C04"]
    for f, k, g in F:
        if k == "V":
            t += [f"#loop @self.{f} before", f"  proof {{ take_none(self.{f}@); }}",
                  f"#loop @self.{f}", f"  vf_acc$n == self.{f}@.take(vf_it$n.pos() as int).contains(target),",
                  f"#loop @self.{f} begin", f"  proof {{ take_step(self.{f}@, vf_it$n.pos() - 1); }}",
                  f"#loop @self.{f} after", f"  proof {{ take_all(self.{f}@); }}"]
    o += t + ["@*/"]
    for fn, sp, ty in (("link_types", "kinds", "C12"), ("link_mirrors", "mirrors", "C12")):
        o.append(f"/*@fn {G} {n} as TypedNode::{fn}\n#props {ty}\n#end\n  proof {{ assert(vf_ret@ =~= Self::{sp}()); }}\n@*/")
    for fn in ("link_names", "data_names"):
        o.append(f"/*@fn {G} {n} as TypedNode::{fn}\n#props C12 C13\n@*/")
    alln = st.logs() + [f for f, k in st.datas]
    D = distinct(sorted(set(alln + ([n] if st.empty else []))))
    st_hint = f"#start\n  proof {{ {D} }}" if D else ""
    o.append(f"/*@fn {G} {n} as TypedNode::get_links_by_name\n#props C12 C13 C07\n#box id\n{st_hint}\n@*/")
    t = [f"/*@fn {G} {n} as TypedNode::get_links_by_group", "#props C13 C07 C12"] + ([st_hint] if st_hint else [])
    t += ["#loop @* before", "  let ghost vf_pre$n = result@;", "  proof { take_none(vf_all$n); }",
          "#loop @*", "  forall|x: NodeIndex| #[trigger] cnt(result@, x) == cnt(vf_pre$n, x) + cnt(vf_all$n.take(vf_it$n.pos() as int), x),",
          "#loop @* begin", "  proof { cnt_take(vf_all$n, vf_it$n.pos() - 1); }",
          "#loop @* after", "  proof { take_all(vf_all$n); }", "@*/"]
    o += t
    o.append(f"/*@fn {G} {n} as TypedNode::get_link_or_group_by_name\n#props C13\n{st_hint}\n@*/")
    o.append(f"""/*@fn {G} {n} as TypedNode::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<TGDataRefT>(&self, name: &'static str) -> (r: Option<&TGDataRefT>)
{st_hint}
@*/
/*@fn {G} {n} as TypedNode::to_source
#props C12
@*/
/*@fn {G} {n} as TypedNode::to_link_mirror
#props C12
@*/
/*@fn {G} {n} as TypedNode::to_link_or_groups
#props C12 C13 C04 C05
#end
  proof {{
{chr(10).join(f"    if input is {camel(f)} {{ " + " ".join(f"assert(vf_ret@.contains({O}::{camel(x)}));" for x in st.logs() if f in st.members(x)) + " }" for f, k, g in F)}
  }}
@*/
}}""")
    return "\n".join(x for x in o if x != "")

def node_tpl(m, s, sts):
    N = s["name"]
    G = f"gen:{m}.rs"
    S, L, O, D = f"{N}SourceEnum", f"{N}LinkMirrorEnum", f"{N}LoGMirrorEnum", f"{N}Discriminant"
    VS = s["variants"]
    groups = dict(s["groups"])
    def vmembers(v): return [x for x, _ in VS if x == v] or groups[v]
    def ty(v): return sts[dict(VS)[v]]
    o = []
    w = o.append
    w(f"// ---------------- {N} ----------------")
    w(f"/*@enum {G} {N}\n@*/")
    w(f"/*@enum {G} {D}\n#props C07 C13\n#derives Copy Clone PartialEq Eq Hash PartialOrd Ord\n#attr\n#[derive(Copy, Clone)]\n@*/")
    for e in (S, L, O):
        w(f"/*@enum {G} {e}\n#props C12 C13\n#derives Copy Clone PartialEq Eq Hash PartialOrd Ord\n#attr\n#[derive(Copy, Clone)]\n@*/")
    w(f"pub mod ttgraph_gen_{snake(N)} {{ pub use super::*; }}")
    w(f"pub enum {N}Data {{ " + " ".join(f"{v}({t}Data)," for v, t in VS) + " }")
    nx = [v for v, _ in VS]
    w(f"""impl NodeDiscriminant for {D} {{
  open spec fn vf_first() -> Self {{ {D}::{nx[0]} }}
  open spec fn vf_succ(self) -> Option<Self> {{ match self {{ {" ".join(f"{D}::{a} => " + (f"Some({D}::{nx[i + 1]})," if i + 1 < len(nx) else "None,") for i, a in enumerate(nx))} }} }}
/*@fn {G} {D} as NodeDiscriminant::first
#props C07
@*/
/*@fn {G} {D} as NodeDiscriminant::next
#props C07
@*/
}}
impl Discriminated<{D}> for {N} {{
  open spec fn disc(&self) -> {D} {{ match self {{ {" ".join(f"{N}::{v}(_) => {D}::{v}," for v in nx)} }} }}
/*@fn {G} {N} as Discriminated::discriminant
#props C07 C12
@*/
}}""")
    # bidirectional partners: field or group -> fields
    bd = {}
    for a, b in s["bd"]:
        for x, y in ((a, b), (b, a)):
            (xv, xl), (yv, yl) = x.split("."), y.split(".")
            for v in vmembers(xv):
                for u in vmembers(yv):
                    for f in ty(u).members(yl):
                        bd.setdefault((v, xl), set()).add((u, f))
    lt = {}
    for a, l in s["lt"]:
        v, x = a.split(".")
        al = []
        for y in l:
            for u in vmembers(y):
                if u not in al: al.append(u)
        for u in vmembers(v):
            lt[(u, x)] = al
    def va(fn): return "\n".join("    " + fn(v, t) for v, t in VS)
    w(f"""impl NodeSpec for {N} {{
  type SourceEnum = {S};
  type LinkMirrorEnum = {L};
  type LoGMirrorEnum = {O};
  type Discriminant = {D};
  type DataT = {N}Data;
  open spec fn links(&self) -> ISet<(NodeIndex, {S})> {{
    ISet::new(|p: (NodeIndex, {S})| match (*self, p.1) {{
{va(lambda v, t: f"  ({N}::{v}(x), {S}::{v}(s)) => x.links().contains((p.0, s)),")}
      _ => false,
    }})
  }}
  open spec fn data(&self) -> {N}Data {{ match self {{
{va(lambda v, t: f"{N}::{v}(x) => {N}Data::{v}(x.data()),")}
  }} }}
  open spec fn place_ok(d: {N}Data, s: {S}) -> bool {{ match (d, s) {{
{va(lambda v, t: f"({N}Data::{v}(d), {S}::{v}(s)) => {t}::place_ok(d, s),")}
    _ => false,
  }} }}
  open spec fn single(s: {S}) -> bool {{ match s {{
{va(lambda v, t: f"{S}::{v}(s) => {t}::single(s),")}
  }} }}
  open spec fn mirror(s: {S}) -> {L} {{ match s {{
{va(lambda v, t: f"{S}::{v}(s) => {L}::{v}({t}::mirror(s)),")}
  }} }}
  open spec fn source(l: {L}) -> {S} {{ match l {{
{va(lambda v, t: f"{L}::{v}(l) => {S}::{v}({t}::source(l)),")}
  }} }}
  open spec fn is_vec(l: {L}) -> bool {{ match l {{
{va(lambda v, t: f"{L}::{v}(l) => {t}::is_vec(l),")}
  }} }}
  open spec fn is_field(l: {L}) -> bool {{ match l {{
{va(lambda v, t: f"{L}::{v}(l) => {t}::is_field(l),")}
  }} }}
  open spec fn owner(l: {L}) -> {D} {{ match l {{
{va(lambda v, t: f"{L}::{v}(_) => {D}::{v},")}
  }} }}
  open spec fn logs(l: {L}) -> ISet<{O}> {{
    ISet::new(|g: {O}| match (l, g) {{
{va(lambda v, t: f"  ({L}::{v}(l), {O}::{v}(g)) => {t}::is_field(l) && {t}::in_log(g, l),")}
      _ => false,
    }})
  }}
  open spec fn bd_log(g: {O}) -> ISet<{L}> {{
    ISet::new(|m: {L}| match (g, m) {{
{chr(10).join(f"      ({O}::{v}({dict(VS)[v]}LoGMirror::{camel(x)}), {L}::{u}({dict(VS)[u]}LinkMirror::{camel(f)})) => true," for (v, x), l in bd.items() for u, f in sorted(l))}
      _ => false,
    }})
  }}
  open spec fn allowed_log(g: {O}, d: {D}) -> bool {{ match g {{
{chr(10).join(f"    {O}::{v}({dict(VS)[v]}LoGMirror::{camel(x)}) => {' || '.join(f'd is {u}' for u in l)}," for (v, x), l in lt.items())}
    _ => true,
  }} }}
  open spec fn member(d: {D}, name: Seq<char>) -> bool {{ {chain([(g, ' || '.join(f'd is {u}' for u in l)) for g, l in s["groups"]], "false")} }}
  proof fn law_links(&self, y: NodeIndex, s: {S}) {{ }}
  proof fn law_single(&self, y: NodeIndex, z: NodeIndex, s: {S}) {{ }}
  proof fn law_data(&self, o: &Self) {{ }}
  proof fn law_mirror(l: {L}, s: {S}) {{ }}
  proof fn law_bd(g: {O}, m: {L}) {{ }}
}}
/// field m belongs to link or group g
pub open spec fn covers(g: {O}, m: {L}) -> bool {{ match (g, m) {{
{va(lambda v, t: f"({O}::{v}(g), {L}::{v}(m)) => {t}::in_log(g, m)" + ",")}
  _ => false,
}} }}
#[verifier::opaque]
pub open spec fn covered(s: Seq<{O}>, n: nat, m: {L}) -> bool decreases n {{ n > 0 && (covered(s, (n - 1) as nat, m) || covers(s[n - 1], m)) }}
pub proof fn covered_none(s: Seq<{O}>) ensures forall|m: {L}| !#[trigger] covered(s, 0, m) {{ reveal(covered); }}
pub proof fn covered_step(s: Seq<{O}>, n: nat)
  requires n < s.len()
  ensures forall|m: {L}| #[trigger] covered(s, n + 1, m) <==> covered(s, n, m) || covers(s[n as int], m)
{{ reveal(covered); }}
pub open spec fn cnt_in(n: {N}, l: {L}, x: NodeIndex) -> nat {{ match (n, l) {{
{va(lambda v, t: f"({N}::{v}(n), {L}::{v}(l)) => n.cnt_of(l, x),")}
  _ => 0,
}} }}
pub proof fn has_link_is(n: {N}, l: {L}, x: NodeIndex)
  requires x.0 != 0
  ensures has_link(n, l, x) == match (n, l) {{
{va(lambda v, t: f"({N}::{v}(n), {L}::{v}(l)) => n.has(l, x),")}
    _ => false,
  }}
{{
  match (n, l) {{
{va(lambda v, t: f'''({N}::{v}(v), {L}::{v}(k)) => {{
      v.law_has(k, x);
      if v.has(k, x) {{ let s = choose|s: {t}Source| #[trigger] v.links().contains((x, s)) && {t}::mirror(s) == k; assert(n.links().contains((x, {S}::{v}(s)))); }}
      if has_link(n, l, x) {{ let s = choose|s: {S}| #[trigger] n.links().contains((x, s)) && {N}::mirror(s) == l; assert(v.links().contains((x, s->{v}_0))); }}
    }},''')}
    _ => {{ }},
  }}
}}""")
    REP = "" 
    w(f"impl NodeEnum for {N} {{")
    t = [f"/*@fn {G} {N} as NodeEnum::iter_sources", "#props C12 C02 C15 C14 C09", "#box id"]
    for v, ts in VS:
        t += [f"#loop @SourceEnum::{v}", f"  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == (vf_all$n[j].0, {S}::{v}(vf_all$n[j].1)),",
              f"#loop @SourceEnum::{v} after", f"  proof {{ lift_sources::<{ts}Source, {S}>(self->{v}_0.links(), vf_all$n, self.links(), vf_acc$n@, |s: {ts}Source| {S}::{v}(s), |t: {S}| t->{v}_0); }}"]
    o += t + ["@*/"]
    w(f"""/*@fn {G} {N} as NodeEnum::modify_link
#props C12 C01 C02 C03 C04 C09
#ensures
  forall|m: {L}| #[trigger] r.bd_link_mirrors@.contains(m) <==> bd_of::<Self>(Self::mirror(source)).contains(m),
#start
  proof {{
{va(lambda v, t: f"if *self is {v} && source is {v} {{ assert((*self)->{v}_0.links().contains((old_idx, source->{v}_0)) == self.links().contains((old_idx, source))); assert((*self)->{v}_0.links().contains((new_idx, source->{v}_0)) == self.links().contains((new_idx, source))); }}")}
  }}
#end
  proof {{ assert(self.links() =~= set_link(old(self).links(), source, Self::single(source), old_idx, new_idx)); }}
@*/
/*@fn {G} {N} as NodeEnum::add_link
#props C12 C04
#start
  proof {{
{va(lambda v, t: f"if *self is {v} && link is {v} {{ assert(Self::single(Self::source(link)) == {t}::single({t}::source(link->{v}_0))); assert forall|z: NodeIndex| #[trigger] (*self)->{v}_0.links().contains((z, {t}::source(link->{v}_0))) implies self.links().contains((z, Self::source(link))) by {{ }} }}")}
  }}
#end
  proof {{ if Self::owner(link) == old(self).disc() {{ assert(self.links() =~= old(self).links().insert((target, Self::source(link)))); }} }}
@*/
/*@fn {G} {N} as NodeEnum::remove_link
#props C12 C04
#end
  proof {{ if Self::owner(link) == old(self).disc() {{ assert(self.links() =~= old(self).links().remove((target, Self::source(link)))); }} }}
@*/
/*@fn {G} {N} as NodeEnum::contains_link
#props C12 C04
#start
  proof {{ if target.0 != 0 {{ has_link_is(*self, link, target); }} }}
@*/
/*@fn {G} {N} as NodeEnum::in_group
#props C13 C07
{"#start" + chr(10) + "  proof { " + distinct([g for g, _ in s["groups"]]) + " }" if s["groups"] else ""}
@*/
/*@fn {G} {N} as NodeEnum::to_source_enum
#props C12
@*/
/*@fn {G} {N} as NodeEnum::to_link_mirror_enum
#props C12
@*/""")
    t = [f"/*@fn {G} {N} as NodeEnum::to_log_mirror_enums", "#props C13 C04 C05"]
    for v, ts in VS:
        k = f"#loop @LoGMirrorEnum::{v}"
        t += [k, f"  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == {O}::{v}(*vf_all$n[j]),",
              k + " after", f"""  proof {{ assert forall|g: {O}| #[trigger] vf_acc$n@.contains(g) <==> Self::logs(input).contains(g) by {{
    if vf_acc$n@.contains(g) {{ let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == g; assert({ts}::in_log(*vf_all$n[j], input->{v}_0)); }}
    if Self::logs(input).contains(g) {{ assert({ts}::in_log(g->{v}_0, input->{v}_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == g->{v}_0; assert(vf_acc$n@[j] == g); }}
  }} }}"""]
    o += t + ["@*/"]
    w(f"""/*@fn {G} {N} as NodeEnum::get_bidiretional_link_mirrors_of_log
#props C04 C13
#loop @].into_iter().Self::expand_link_groups before
  proof {{ covered_none(vf_all$n); }}
#loop @].into_iter().Self::expand_link_groups
  forall|m: {L}| #[trigger] vf_acc$n@.contains(m) <==> covered(vf_all$n, vf_it$n.pos(), m),
#loop @].into_iter().Self::expand_link_groups begin
  proof {{ covered_step(vf_all$n, (vf_it$n.pos() - 1) as nat); }}
#loop @].into_iter().Self::expand_link_groups after
  proof {{ assert forall|m: {L}| #[trigger] vf_acc$n@.contains(m) <==> Self::bd_log(link).contains(m) by {{ reveal_with_fuel(covered, 8); }} }}
#loop @expand_link_groups before
  let ghost vf_pre$n = vf_acc$p@;
  proof {{ take_none(vf_all$n); }}
#loop @expand_link_groups
  forall|m: {L}| #[trigger] vf_acc$p@.contains(m) <==> vf_pre$n.contains(m) || vf_all$n.take(vf_it$n.pos() as int).contains(m),
#loop @expand_link_groups begin
  proof {{ take_step(vf_all$n, vf_it$n.pos() - 1); }}
#loop @expand_link_groups after
  proof {{ take_all(vf_all$n); }}
@*/
/*@fn {G} {N} as NodeEnum::check_link_type_by_group
#props C05 C13
@*/""")
    t = [f"/*@fn {G} {N} as NodeEnum::match_bd_link_group", "#props C04 C13"]
    for v, ts in VS:
        k = f"#loop @LinkMirrorEnum::{v}"
        t += [k + " before", "  proof { take_none(vf_all$n); }",
              k, f"  forall|l: {L}| #[trigger] result@.contains(l) <==> vf_all$n.take(vf_it$n.pos() as int).contains(l) && Self::owner(l) == {D}::{v},",
              "  links@.no_duplicates() ==> result@.no_duplicates(),",
              k + " begin", "  proof { take_step(vf_all$n, vf_it$n.pos() - 1); }",
              k + " after", "  proof { take_all(vf_all$n); }"]
    o += t + ["@*/", "}"]
    # functions of NodeEnum the graph itself does not call
    w(f"impl {N} {{")
    base = len(o)
    w(f"""/*@fn {G} {N} as NodeEnum::iter_links
#props C12
#requires[T]
  Self::owner(link) == self.disc(),
#ensures
  Self::owner(link) == self.disc(), r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == cnt_in(*self, link, x),
@*/
/*@fn {G} {N} as NodeEnum::check_link
#props C12
#ensures
  r == (Self::owner(link) == self.disc()),
@*/
/*@fn {G} {N} as NodeEnum::get_links_by_name
#props C12 C13 C07
#ensures
  r.pos() == 0, forall|x: NodeIndex| #[trigger] cnt(r.all(), x) == (match self {{
{va(lambda v, t: f"{N}::{v}(n) => match {t}::by_name(name@) {{ Some(l) => n.cnt_of(l, x), None => 0 }},")}
  }}),
@*/
/*@fn {G} {N} as NodeEnum::get_links_by_group
#props C13 C07
#ensures
  forall|x: NodeIndex| #[trigger] cnt(r@, x) == (match self {{
{va(lambda v, t: f"{N}::{v}(n) => n.grp_cnt(name@, x),")}
  }}),
@*/
/*@fn {G} {N} as NodeEnum::data_ref_by_name
#props C12 C13
#sig
fn data_ref_by_name<T>(&self, name: &'static str) -> (r: Option<&T>)
#ensures
  r is Some == (match self {{
{va(lambda v, t: f"{N}::{v}(n) => n.dref::<T>(name@),")}
  }}) is Some,
  r is Some ==> Some(*r->0) == (match self {{
{va(lambda v, t: f"{N}::{v}(n) => n.dref::<T>(name@),")}
  }}),
@*/""")
    emp = [v for v, ts in VS if sts[ts].empty]
    def isf(x): return "(" + " || ".join([x] + (["!(" + " || ".join(f"input is {v}" for v in emp) + ")"] if emp else [])) + ")"
    t = [f"/*@fn {G} {N} as NodeEnum::expand_link_groups", "#props C13 C04", "#ensures", f"  forall|m: {L}| {isf('Self::is_field(m)')} ==> (#[trigger] r@.contains(m) <==> covers(input, m)),"]
    for v, ts in VS:
        k = f"#loop @LinkMirrorEnum::{v}"
        t += [k, f"  vf_acc$n@.len() == vf_it$n.pos(), forall|j: int| 0 <= j < vf_it$n.pos() ==> #[trigger] vf_acc$n@[j] == {L}::{v}(*vf_all$n[j]),",
              k + " after", f"""  proof {{ assert forall|m: {L}| {isf('Self::is_field(m)')} implies (#[trigger] vf_acc$n@.contains(m) <==> covers(input, m)) by {{
    if vf_acc$n@.contains(m) {{ let j = choose|j: int| 0 <= j < vf_acc$n@.len() && vf_acc$n@[j] == m; assert({ts}::in_log(input->{v}_0, *vf_all$n[j]) || !{ts}::is_field(*vf_all$n[j])); }}
    if covers(input, m) {{ assert({ts}::in_log(input->{v}_0, m->{v}_0)); let j = choose|j: int| 0 <= j < vf_all$n.len() && *(#[trigger] vf_all$n[j]) == m->{v}_0; assert(vf_acc$n@[j] == m); }}
  }} }}"""]
    o += t + ["@*/", "}"]
    inh = "\n".join(o[base:]).replace("\n@*/", f"\n#replace\n  Self::SourceEnum =>> {S}\n  Self::LinkMirrorEnum =>> {L}\n  Self::LoGMirrorEnum =>> {O}\n@*/")
    return "\n".join(x for x in o[:base] + [inh] if x != "")

def arena_tpl(m, s, sts):
    N = s["name"]
    G = f"gen:{m}.rs"
    A, D = f"{N}Arena", f"{N}Discriminant"
    VS = [v for v, _ in s["variants"]]
    FS = [snake(v) for v in VS]
    o = []
    w = o.append
    def fold(xs, op):
        r = xs[-1]
        for x in reversed(xs[:-1]): r = op(x, r)
        return r
    def union(a): return fold([f"lift({a}.{f}@)" for f in FS], lambda x, r: f"{x}.union_prefer_right({r})")
    w(f"// ---------------- {A} ----------------")
    w(f"/*@struct {G} {A}\n@*/\n/*@struct {G} {N}Iter\n@*/\n/*@struct {G} {N}IntoIter\n@*/")
    w(f"""impl ArenaSpec for {A} {{
  type V = {N};
  type D = {D};
  open spec fn disp(&self) -> IMap<NodeIndex, {D}> {{ self._dispatcher@ }}
  open spec fn cont(&self, d: {D}) -> IMap<usize, {N}> {{ match d {{ {" ".join(f"{D}::{v} => self.{f}@," for v, f in zip(VS, FS))} }} }}
  open spec fn dist(&self) -> IdDistributer {{ self._id_distributer }}
}}
/// a type's container holds the nodes of that type, and no index is in two containers
pub proof fn parts(a: {A})
  requires arena_wf(a)
  ensures nodes_of(a) == {union("a")},
    {" ".join(f"lift(a.{f}@).dom().disjoint(lift(a.{g}@).dom())," for i, f in enumerate(FS) for g in FS[i + 1:])}
{{
  reveal(arena_wf); reveal(nodes_of);
  {" ".join(f"assert forall|i: NodeIndex| #[trigger] lift(a.{f}@).contains_key(i) implies a.disp().contains_key(i) && a.disp()[i] == {D}::{v} by {{ assert(lift(a.{f}@).contains_key(i) == a.cont({D}::{v}).contains_key(i.0)); }}" for v, f in zip(VS, FS))}
  {" ".join(f"assert forall|i: NodeIndex| !(lift(a.{f}@).dom().contains(i) && lift(a.{g}@).dom().contains(i)) by {{ assert(lift(a.{f}@).contains_key(i) ==> a.disp()[i] == {D}::{VS[FS.index(f)]}); assert(lift(a.{g}@).contains_key(i) ==> a.disp()[i] == {D}::{VS[FS.index(g)]}); }}" for i, f in enumerate(FS) for g in FS[i + 1:])}
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) == {union("a")}.contains_key(i) by {{
    {" ".join(f"assert(lift(a.{f}@).contains_key(i) ==> a.disp()[i] == {D}::{v});" for v, f in zip(VS, FS))}
  }}
  assert forall|i: NodeIndex| #[trigger] nodes_of(a).contains_key(i) implies nodes_of(a)[i] == {union("a")}[i] by {{
    {" ".join(f"assert(lift(a.{f}@).contains_key(i) ==> a.disp()[i] == {D}::{v});" for v, f in zip(VS, FS))}
  }}
  assert(nodes_of(a) =~= {union("a")});
}}""")
    for own in (False, True):
        I = f"{N}IntoIter" if own else f"{N}Iter<'a>"
        B = "" if own else "<'a>"
        item = f"(NodeIndex, {N})" if own else f"(NodeIndex, &'a {N})"
        lf = "left_own" if own else "left"
        w(f"""impl{B} {I} {{
  pub open spec fn ok(&self) -> bool {{ {" && ".join([f"self.{f}.pos() <= self.{f}.all().len()" for f in FS] + [f"(self.stage() < {len(FS) - i} ==> self.{f}.pos() == self.{f}.all().len())" for i, f in enumerate(FS)])} }}
  /// what is still to come
  pub open spec fn rest(&self) -> Seq<{item}> {{ match self._iter_state {{
    {" ".join(f"Some({D}::{v}) => " + fold([f"{lf}(self.{f})" for f in FS[i:]], lambda x, r: f"({x} + {r})") + "," for i, v in enumerate(VS))}
    None => Seq::empty(),
  }} }}
  pub open spec fn stage(&self) -> nat {{ match self._iter_state {{ {" ".join(f"Some({D}::{v}) => {len(VS) - i}," for i, v in enumerate(VS))} None => 0 }} }}
/*@fn {G} {N}{"IntoIter" if own else "Iter"} as Iterator::next
#props C07
#sig
fn next(&mut self) -> (r: Option<{item}>)
#requires
  old(self).ok(),
#ensures
  final(self).ok(),
  old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
  old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
#decreases
  old(self).stage()
#start
  proof {{ {" ".join(f"if self._iter_state == Some({D}::{v}) && self.{f}.pos() >= self.{f}.all().len() {{ assert({lf}(self.{f}).len() == 0); }}" for v, f in zip(VS, FS))} }}
#end
  proof {{ if old(self).rest().len() > 0 {{
    {" ".join(f"if old(self)._iter_state == Some({D}::{v}) && old(self).{f}.pos() < old(self).{f}.all().len() {{ assert({lf}(self.{f}) =~= {lf}(old(self).{f}).skip(1)); assert({lf}(old(self).{f})[0] == vf_ret->0); }}" for v, f in zip(VS, FS))}
    assert(self.rest() =~= old(self).rest().skip(1));
  }} }}
@*/
/*@fn {G} {N}{"IntoIter" if own else "Iter"} as Iterator::size_hint
#props C07 C10
#requires
  self.ok(),
#ensures
  r.0 as nat == self.rest().len(), r.1 == Some(r.0),
#replace
  std::iter::Iterator::size_hint =>> vf_size_hint
#loop 0
  hint_is(vf_acc0, vf_all0, vf_it0.pos()),
#loop 0 before
  proof {{ hints_none(vf_all0); }}
#loop 0 begin
  proof {{ hints_step(vf_all0, (vf_it0.pos() - 1) as nat); assert(vf_all0[vf_it0.pos() - 1].0 <= usize::MAX / 16); }}
#loop 0 after
  proof {{ {" ".join(f"hints_step(vf_all0, {i});" for i in range(len(FS)))} {" ".join(f"assert({lf}(self.{f}).len() == vf_all0[{i}].0);" for i, f in enumerate(FS))} }}
@*/
}}""")
    w(f"impl {A} {{")
    for own in (False, True):
        lf = "left_own" if own else "left"
        cat = "cat_own_ok" if own else "cat_ok"
        steps = [f"{lf}_ok(vf_a.{f}@, vf_ret.{f});" for f in FS]
        for i in range(len(FS) - 2, -1, -1):
            mu = fold([f"lift(vf_a.{f}@)" for f in FS[i + 1:]], lambda x, r: f"{x}.union_prefer_right({r})")
            su = fold([f"{lf}(vf_ret.{f})" for f in FS[i + 1:]], lambda x, r: f"({x} + {r})")
            steps.append(f"{cat}(lift(vf_a.{FS[i]}@), {lf}(vf_ret.{FS[i]}), {mu}, {su});")
        w(f"""/*@fn {G} {A} as CateArena::{"into_iter" if own else "iter"}
#props C07{" C10" if own else ""}
#sig
fn {"gen_into_iter(self) -> (r: " + N + "IntoIter)" if own else "gen_iter<'a>(&'a self) -> (r: " + N + "Iter<'a>)"}
#requires
  arena_wf({"self" if own else "*self"}),
#ensures
  r.ok(), seq_of_map{"" if own else "_kref"}(nodes_of({"self" if own else "*self"}), r.rest()),
#start
  let ghost vf_a = {"self" if own else "*self"};
#end
  proof {{ parts(vf_a); {" ".join(steps)} }}
#replace
  Self::IntoIter =>> {N}IntoIter
  Self::Iter =>> {N}Iter
  Self::D =>> {D}
@*/""")
    w("}")
    def loop(own):
        q = "self" if own else "*self"
        return f"""{{
    let mut it = self.gen_{"into_" if own else ""}iter();
    let ghost all = it.rest();
    let mut acc = Vec::new();
    proof {{ assert(acc@ + it.rest() =~= all); }}
    loop
      invariant_except_break it.ok(), acc@ + it.rest() == all
      ensures acc@ == all
      decreases it.rest().len()
    {{
      let ghost pre = it.rest(); let ghost a0 = acc@;
      match it.next() {{
        Some(x) => {{ acc.push(x); proof {{ assert(acc@ + it.rest() =~= a0 + pre); }} }},
        None => {{ proof {{ assert(acc@ =~= acc@ + it.rest()); }} break; }},
      }}
    }}
    acc.vf_into_iter()
  }}"""
    w(f"""impl CateArena for {A} {{
  // what a loop over the arena's iterator visits
  #[verifier::loop_isolation(true)]
  fn vf_iter<'a>(&'a self) -> VIter<(NodeIndex, &'a {N})> {loop(False)}
  #[verifier::loop_isolation(true)]
  fn vf_into_iter(self) -> VIter<(NodeIndex, {N})> {loop(True)}
/*@fn {G} {A} as CateArena::new
#props C07 C09
@*/
/*@fn {G} {A} as CateArena::new_from_iter
#props C07 C10
#start
  proof {{ reveal(arena_wf); reveal(nodes_of); }}
#loop @* before
  proof {{ assert(nodes_of(result) =~= upto(vf_all$n, 0)); }}
#loop @*
  arena_wf(result), result.dist() == id_distributer, nodes_of(result) == upto(vf_all$n, vf_it$n.pos()),
  forall|k: NodeIndex| #[trigger] result.disp().contains_key(k) <==> upto(vf_all$n, vf_it$n.pos()).contains_key(k),
#loop @* begin
  let ghost vf_pre = result;
  proof {{
    upto_has(vf_all$n, (vf_it$n.pos() - 1) as nat);
    let ghost vf_i = vf_all$n[vf_it$n.pos() - 1].0;
    assert(NodeIndex(vf_i.0) == vf_i);
    {" ".join(f"assert(!result.cont({D}::{v}).contains_key(vf_i.0));" for v in VS)}
  }}
#loop @* end
  proof {{ assert forall|d: {D}, k: usize| #[trigger] result.cont(d).contains_key(k) implies result.disp().contains_key(NodeIndex(k)) && result.disp()[NodeIndex(k)] == d && result.cont(d)[k].disc() == d by {{
    assert(vf_pre.cont(d).contains_key(k) || NodeIndex(k) == vf_all$n[vf_it$n.pos() - 1].0);
  }} }}
  proof {{ assert(nodes_of(result) =~= upto(vf_all$n, vf_it$n.pos())); }}
#loop @* after
  proof {{ upto_has(vf_all$n, vf_all$n.len()); }}
@*/
/*@fn {G} {A} as CateArena::dispatch
#props C07
@*/
/*@fn {G} {A} as CateArena::get_container
#props C07
@*/
/*@fn {G} {A} as CateArena::get_container_mut
#props C07 C03
@*/
/*@fn {G} {A} as CateArena::alloc
#props C06 C08
#mode P
@*/
/*@fn {G} {A} as CateArena::alloc_untyped
#props C06 C08
@*/
/*@fn {G} {A} as CateArena::fill_back_untyped
#props C08 C07
#start
  proof {{
    reveal(arena_wf); reveal(nodes_of); assert(NodeIndex(i.0) == i);
    {" ".join(f"assert(!nodes_of(*self).contains_key(i) ==> !self.cont({D}::{v}).contains_key(i.0));" for v in VS)}
  }}
#end
  proof {{
    assert forall|d: {D}, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {{
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i); assert(NodeIndex(k) == i ==> !old(self).cont(d).contains_key(k));
    }}
    assert(nodes_of(*self) =~= nodes_of(*old(self)).insert(i, item));
  }}
@*/
/*@fn {G} {A} as CateArena::remove
#props C07 C03
#start
  proof {{ reveal(arena_wf); reveal(nodes_of); reveal(arena_wf_ex); }}
#end
  proof {{
    assert forall|d: {D}, k: usize| #[trigger] self.cont(d).contains_key(k) implies self.disp().contains_key(NodeIndex(k)) && self.disp()[NodeIndex(k)] == d && self.cont(d)[k].disc() == d by {{
      assert(NodeIndex(i.0) == i); assert(old(self).cont(d).contains_key(k) || NodeIndex(k) == i);
    }}
    assert(nodes_of(*self) =~= nodes_of(*old(self)).remove(i));
  }}
@*/
/*@fn {G} {A} as CateArena::merge
#props C03 C07 C11
#start
  let ghost vf_o = other;
  proof {{ reveal(arena_wf); reveal(nodes_of); }}
#end
  proof {{
    assert forall|d: {D}, i: usize| #[trigger] self.cont(d).contains_key(i) implies self.disp().contains_key(NodeIndex(i)) && self.disp()[NodeIndex(i)] == d && self.cont(d)[i].disc() == d by {{
      assert(old(self).cont(d).contains_key(i) || vf_o.cont(d).contains_key(i));
      if vf_o.cont(d).contains_key(i) {{ assert(vf_o.disp().dom().contains(NodeIndex(i))); }} else {{ assert(old(self).disp().dom().contains(NodeIndex(i))); }}
    }}
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) == (nodes_of(*old(self)).contains_key(i) || nodes_of(vf_o).contains_key(i)) by {{
      if old(self).disp().dom().contains(i) {{ assert(!vf_o.disp().dom().contains(i)); {" ".join(f"assert(!vf_o.cont({D}::{v}).contains_key(i.0));" for v in VS)} }}
      if vf_o.disp().dom().contains(i) {{ {" ".join(f"assert(!old(self).cont({D}::{v}).contains_key(i.0));" for v in VS)} }}
    }}
    assert forall|i: NodeIndex| #[trigger] nodes_of(*self).contains_key(i) implies nodes_of(*self)[i] == nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o))[i] by {{
      if old(self).disp().dom().contains(i) {{ assert(!vf_o.disp().dom().contains(i)); {" ".join(f"assert(!vf_o.cont({D}::{v}).contains_key(i.0));" for v in VS)} }}
      if vf_o.disp().dom().contains(i) {{ {" ".join(f"assert(!old(self).cont({D}::{v}).contains_key(i.0));" for v in VS)} }}
    }}
    assert(nodes_of(*self) =~= nodes_of(*old(self)).union_prefer_right(nodes_of(vf_o)));
  }}
@*/
/*@fn {G} {A} as CateArena::len
#props C07
#end
  proof {{
    parts(*self);
    {" ".join(f"lift_len(self.{f}@);" for f in FS)}
    {" ".join(f"union_len(lift(self.{FS[i]}@).dom(), " + fold([f"lift(self.{f}@).dom()" for f in FS[i + 1:]], lambda x, r: f"{x}.union({r})") + ");" for i in range(len(FS) - 2, -1, -1))}
    assert(nodes_of(*self).dom() =~= {fold([f"lift(self.{f}@).dom()" for f in FS], lambda x, r: f"{x}.union({r})")});
  }}
@*/
}}""")
    return "\n".join(o)

def tpl(m, s):
    sts = {n: St(n, d) for n, d in s["structs"].items()}
    N = s["name"]
    rep = ["Box<dyn std::iter::Iterator<Item = ttgraph::NodeIndex> + '_> =>> VIter<NodeIndex>",
           "Box<dyn Iterator<Item = NodeIndex> + '_> =>> VIter<NodeIndex>",
           "Box<dyn Iterator<Item = (NodeIndex, Self::SourceEnum)>> =>> VIter<(NodeIndex, Self::SourceEnum)>",
           "std::vec::IntoIter< =>> VIter<",
           "::alloc::vec::Vec =>> Vec",
           "::ordermap::OrderSet =>> OrderSet", "::indexmap::IndexSet =>> IndexSet", "std::collections::HashSet =>> HashSet", "std::collections::BTreeSet =>> BTreeSet",
           "impl std::iter::IntoIterator<Item = (ttgraph::NodeIndex, Self::V)> =>> Vec<(ttgraph::NodeIndex, Self::V)>",
           "<dyn std::any::Any>::downcast_ref::<TGDataRefT> =>> vf_downcast::<_, TGDataRefT>"]
    for n in sts:
        for a in ("ttgraph::TypedNode", "TypedNode"):
            for q in (n, f"self::super::{n}"):
                for k in ("Source", "LinkMirror", "LoGMirror"):
                    rep.append(f"<{q} as {a}>::{k} =>> {n}{k}")
    return f"""// Written by verus/gen_schemas.py. The expansion of the macros for gen/src/lib.rs, mod {m}.
#![allow(unused, dead_code, non_camel_case_types)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
verus! {{
/*@include prelude.rs@*/
/*@include-trusted base.inc@*/
/*@include typed.inc@*/
/*@replace
{chr(10).join("  " + r for r in rep)}
@*/
""" + "\n".join(struct_tpl(m, st) for st in sts.values()) + "\n" + node_tpl(m, s, sts) + "\n" + arena_tpl(m, s, sts) + "\nfn main() {}\n}\n"

# one function per form of the exported macro_rules macros (unit mac)
MAC = """pub mod mac {
  use super::gc::*;
  use ttgraph::*;
  pub fn m_get<'a>(g: &'a Graph<Gc>, i: NodeIndex) -> Option<&'a Only> {
    get_node!(g, Gc::Only, i)
  }
  pub fn m_iter<'a>(g: &'a Graph<Gc>) -> Vec<(NodeIndex, &'a Nil)> {
    iter_nodes!(g, Gc::Nil).collect()
  }
  pub fn m_alloc(t: &mut Transaction<'_, Gc>) -> NodeIndex {
    alloc_node!(t, Gc::Only)
  }
  pub fn m_mut_plain<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex) {
    mut_node!(t, Gc::Nil, i, node, { node.n = node.n / 2 })
  }
  pub fn m_mut_bars<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex) {
    mut_node!(t, Gc::Nil, i, |node| { node.n = node.n / 2 })
  }
  pub fn m_mut_move<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex, k: usize) {
    mut_node!(t, Gc::Nil, i, move |node| { node.n = k })
  }
  pub fn m_upd_plain<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex) {
    update_node!(t, Gc::Nil, i, node, { Nil { n: node.n / 2 } })
  }
  pub fn m_upd_bars<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex) {
    update_node!(t, Gc::Nil, i, |node| { Nil { n: node.n / 2 } })
  }
  pub fn m_upd_move<'a>(t: &mut Transaction<'a, Gc>, i: NodeIndex, k: usize) {
    update_node!(t, Gc::Nil, i, move |node| { Nil { n: k } })
  }
}
"""
HEAD = """#![allow(unused, dead_code, non_camel_case_types)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
verus! {
/*@include prelude.rs@*/
"""
os.makedirs(f"{V}/gen/src", exist_ok=True)
open(f"{V}/gen/src/lib.rs", "w").write(lib() + MAC)
for m, s in SCHEMAS.items():
    open(f"{V}/verus/unit_{m}.tpl", "w").write(("// modes: P\n" if m in ("gf", "gh") else "") + tpl(m, s))
# the functions of one schema as an include, to compose it with the graph (unit mac)
t = tpl("gc", SCHEMAS["gc"])
t = t[t.index("/*@include typed.inc@*/") + len("/*@include typed.inc@*/\n"):t.index("fn main()")]
open(f"{V}/verus/gc.inc", "w").write("// Written by verus/gen_schemas.py: the body of unit_gc.tpl\n" + t)
open(f"{V}/verus/unit_mac.tpl", "w").write(HEAD + "".join(f"/*@include-trusted {x}.inc@*/\n" for x in ["base", "typed", "graph", "commit", "switch", "trans", "gc"]) + "/*@include mac.inc@*/\nfn main() {}\n}\n")
