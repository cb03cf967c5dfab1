//! Reader for the textual LLVM IR that rustc emits for the current source tree.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
  Void,
  Int(u32),
  Ptr,
  F32,
  F64,
  Arr(u64, Rc<Ty>),
  Struct(Rc<Vec<Ty>>, bool),
  Named(Rc<str>),
  Other,
}

#[derive(Clone, Debug)]
pub enum Opd {
  Reg(Rc<str>),
  Int(u128),
  Float(u64),
  Null,
  Undef,
  Zero,
  Global(Rc<str>),
  /// constant expression: pointer plus byte offset
  Gep(Ty, Box<Opd>, Vec<(Ty, Opd)>),
  IntToPtr(Box<Opd>),
  Agg(Vec<(Ty, Opd)>),
  Bytes(Rc<Vec<u8>>),
}

#[derive(Clone, Debug)]
pub enum Ins {
  Alloca(Ty),
  Load(Ty, Opd),
  Store(Ty, Opd, Opd),
  Gep(Ty, Opd, Vec<(Ty, Opd)>),
  Bin(Rc<str>, Ty, Opd, Opd),
  FNeg(Ty, Opd),
  Icmp(Rc<str>, Ty, Opd, Opd),
  Fcmp(Rc<str>, Ty, Opd, Opd),
  Cast(Rc<str>, Ty, Opd, Ty),
  Select(Opd, Ty, Opd, Opd),
  Phi(Ty, Vec<(Opd, Rc<str>)>),
  Call(Ty, Opd, Vec<(Ty, Opd, bool)>),
  Extract(Ty, Opd, Vec<usize>),
  Insert(Ty, Opd, Ty, Opd, Vec<usize>),
  Freeze(Ty, Opd),
  Br(Rc<str>),
  CondBr(Opd, Rc<str>, Rc<str>),
  Switch(Ty, Opd, Rc<str>, Vec<(u128, Rc<str>)>),
  Ret(Option<(Ty, Opd)>),
  Unreachable,
  Nop,
}

pub struct Func {
  pub name: Rc<str>,
  pub ret: Ty,
  pub params: Vec<(Ty, Rc<str>)>,
  pub blocks: HashMap<Rc<str>, Rc<Vec<(Option<Rc<str>>, Ins)>>>,
  pub entry: Rc<str>,
}

pub struct Module {
  lines: Vec<String>,
  pub types: HashMap<Rc<str>, Ty>,
  funcs: HashMap<String, (usize, usize)>,
  pub globals: HashMap<String, usize>,
}

// ---------------------------------------------------------------- tokens
#[derive(Clone, Debug, PartialEq)]
enum Tok {
  Reg(Rc<str>),
  Global(Rc<str>),
  Word(Rc<str>),
  Num(Rc<str>),
  Str(Rc<Vec<u8>>),
  P(char),
  Meta,
}

fn lex(s: &str) -> Vec<Tok> {
  let b = s.as_bytes();
  let mut o = vec![];
  let mut i = 0;
  let quoted = |i: &mut usize| -> String {
    // at the opening quote
    *i += 1;
    let st = *i;
    while b[*i] != b'"' {
      *i += 1
    }
    let r = s[st..*i].to_string();
    *i += 1;
    r
  };
  let word = |i: &mut usize| -> String {
    let st = *i;
    while *i < b.len() && (b[*i].is_ascii_alphanumeric() || matches!(b[*i], b'_' | b'.' | b'$' | b'-')) {
      *i += 1
    }
    s[st..*i].to_string()
  };
  while i < b.len() {
    let c = b[i];
    match c {
      b' ' | b'\t' => i += 1,
      b';' => break,
      b'%' | b'@' => {
        i += 1;
        let n = if b[i] == b'"' { quoted(&mut i) } else { word(&mut i) };
        o.push(if c == b'%' { Tok::Reg(n.into()) } else { Tok::Global(n.into()) });
      }
      b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
        i += 1;
        let t = quoted(&mut i);
        let t = t.as_bytes();
        let mut v = vec![];
        let mut j = 0;
        while j < t.len() {
          if t[j] == b'\\' {
            v.push(u8::from_str_radix(std::str::from_utf8(&t[j + 1..j + 3]).unwrap(), 16).unwrap());
            j += 3
          } else {
            v.push(t[j]);
            j += 1
          }
        }
        o.push(Tok::Str(Rc::new(v)));
      }
      b'"' => {
        let _ = quoted(&mut i);
        o.push(Tok::Meta)
      }
      b'!' => {
        i += 1;
        if i < b.len() && b[i] == b'{' {
          while b[i] != b'}' {
            i += 1
          }
          i += 1
        } else {
          word(&mut i);
        }
        o.push(Tok::Meta)
      }
      b'#' => {
        i += 1;
        word(&mut i);
        o.push(Tok::Meta)
      }
      b'0'..=b'9' | b'-' => {
        let st = i;
        i += 1;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && matches!(b[i - 1], b'e' | b'E'))) {
          i += 1
        }
        o.push(Tok::Num(s[st..i].into()))
      }
      c if c.is_ascii_alphabetic() || c == b'_' => {
        let w = word(&mut i);
        o.push(Tok::Word(w.into()))
      }
      c => {
        o.push(Tok::P(c as char));
        i += 1
      }
    }
  }
  o
}

struct P {
  t: Vec<Tok>,
  i: usize,
}
impl P {
  fn new(s: &str) -> P {
    P { t: lex(s), i: 0 }
  }
  fn peek(&self) -> Option<&Tok> {
    self.t.get(self.i)
  }
  fn next(&mut self) -> Tok {
    let t = self.t.get(self.i).cloned().unwrap_or(Tok::P('\n'));
    self.i += 1;
    t
  }
  fn eat(&mut self, c: char) -> bool {
    if self.peek() == Some(&Tok::P(c)) {
      self.i += 1;
      true
    } else {
      false
    }
  }
  fn word_is(&self, w: &str) -> bool {
    matches!(self.peek(), Some(Tok::Word(x)) if &**x == w)
  }
  fn eat_word(&mut self, w: &str) -> bool {
    if self.word_is(w) {
      self.i += 1;
      true
    } else {
      false
    }
  }
  fn skip_parens(&mut self) {
    if self.eat('(') {
      let mut d = 1;
      while d > 0 {
        match self.next() {
          Tok::P('(') => d += 1,
          Tok::P(')') => d -= 1,
          Tok::P('\n') => return,
          _ => {}
        }
      }
    }
  }
  /// true when the parameter carries sret
  fn skip_attrs(&mut self) -> bool {
    let mut sret = false;
    loop {
      match self.peek() {
        Some(Tok::Word(w)) => {
          let w = w.to_string();
          if parse_prim(&w).is_some() || is_value_word(&w) {
            return sret;
          }
          if w == "sret" {
            sret = true
          }
          self.i += 1;
          if w == "align" && matches!(self.peek(), Some(Tok::Num(_))) {
            self.i += 1
          }
          self.skip_parens();
        }
        Some(Tok::Meta) => self.i += 1,
        _ => return sret,
      }
    }
  }
  fn ty(&mut self) -> Ty {
    match self.next() {
      Tok::Word(w) => parse_prim(&w).unwrap_or(Ty::Other),
      Tok::Reg(n) => Ty::Named(n),
      Tok::P('[') => {
        let n: u64 = match self.next() {
          Tok::Num(n) => n.parse().unwrap(),
          t => panic!("array type {t:?}"),
        };
        assert!(self.eat_word("x"));
        let t = self.ty();
        assert!(self.eat(']'));
        Ty::Arr(n, Rc::new(t))
      }
      Tok::P('{') => {
        let mut v = vec![];
        while !self.eat('}') {
          v.push(self.ty());
          self.eat(',');
        }
        Ty::Struct(Rc::new(v), false)
      }
      Tok::P('<') => {
        if self.eat('{') {
          let mut v = vec![];
          while !self.eat('}') {
            v.push(self.ty());
            self.eat(',');
          }
          assert!(self.eat('>'));
          Ty::Struct(Rc::new(v), true)
        } else {
          while !self.eat('>') {
            self.next();
          }
          Ty::Other
        }
      }
      t => panic!("type {t:?} in {:?}", self.t),
    }
  }
  fn opd(&mut self, ty: &Ty) -> Opd {
    match self.next() {
      Tok::Reg(r) => Opd::Reg(r),
      Tok::Global(g) => Opd::Global(g),
      Tok::Num(n) => match ty {
        Ty::F32 | Ty::F64 => {
          if let Some(h) = n.strip_prefix("0x") {
            Opd::Float(u64::from_str_radix(h, 16).unwrap())
          } else {
            Opd::Float(n.parse::<f64>().unwrap().to_bits())
          }
        }
        Ty::Int(w) => {
          let v: u128 = if let Some(m) = n.strip_prefix('-') {
            (m.parse::<u128>().unwrap()).wrapping_neg()
          } else {
            n.parse().unwrap()
          };
          Opd::Int(mask(v, *w))
        }
        _ => panic!("number of type {ty:?}"),
      },
      Tok::Str(s) => Opd::Bytes(s),
      Tok::Word(w) => match &*w {
        "true" => Opd::Int(1),
        "false" => Opd::Int(0),
        "null" => Opd::Null,
        "undef" | "poison" => Opd::Undef,
        "zeroinitializer" => Opd::Zero,
        "getelementptr" => {
          while matches!(self.peek(), Some(Tok::Word(_))) {
            self.i += 1;
            self.skip_parens_if_attr();
          }
          assert!(self.eat('('));
          let t = self.ty();
          assert!(self.eat(','));
          let _ = self.ty();
          let p = self.opd(&Ty::Ptr);
          let mut ix = vec![];
          while self.eat(',') {
            let _ = self.eat_word("inrange");
            let t = self.ty();
            let o = self.opd(&t);
            ix.push((t, o));
          }
          assert!(self.eat(')'));
          Opd::Gep(t, Box::new(p), ix)
        }
        "inttoptr" => {
          assert!(self.eat('('));
          let t = self.ty();
          let o = self.opd(&t);
          while !self.eat(')') {
            self.next();
          }
          Opd::IntToPtr(Box::new(o))
        }
        _ => panic!("operand word {w} in {:?}", self.t),
      },
      Tok::P('{') => self.agg('}'),
      Tok::P('[') => self.agg(']'),
      Tok::P('<') => {
        assert!(self.eat('{'));
        let r = self.agg('}');
        assert!(self.eat('>'));
        r
      }
      t => panic!("operand {t:?} in {:?}", self.t),
    }
  }
  fn skip_parens_if_attr(&mut self) {}
  fn agg(&mut self, end: char) -> Opd {
    let mut v = vec![];
    while !self.eat(end) {
      let t = self.ty();
      let o = self.opd(&t);
      v.push((t, o));
      self.eat(',');
    }
    Opd::Agg(v)
  }
  fn label(&mut self) -> Rc<str> {
    assert!(self.eat_word("label"));
    match self.next() {
      Tok::Reg(r) => r,
      t => panic!("label {t:?}"),
    }
  }
}
fn is_value_word(w: &str) -> bool {
  matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr")
}
fn parse_prim(w: &str) -> Option<Ty> {
  Some(match w {
    "void" => Ty::Void,
    "ptr" => Ty::Ptr,
    "float" => Ty::F32,
    "double" => Ty::F64,
    "metadata" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other,
    _ => {
      let n = w.strip_prefix('i')?;
      if n.is_empty() || !n.bytes().all(|c| c.is_ascii_digit()) {
        return None;
      }
      Ty::Int(n.parse().ok()?)
    }
  })
}
pub fn mask(v: u128, w: u32) -> u128 {
  if w >= 128 {
    v
  } else {
    v & ((1u128 << w) - 1)
  }
}

impl Module {
  pub fn load(path: &std::path::Path) -> Module {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let (mut types, mut funcs, mut globals) = (HashMap::new(), HashMap::new(), HashMap::new());
    let mut i = 0;
    while i < lines.len() {
      let l = &lines[i];
      if l.starts_with("define") {
        let at = l.find('@').unwrap();
        let name = if l.as_bytes()[at + 1] == b'"' {
          let e = l[at + 2..].find('"').unwrap();
          l[at + 2..at + 2 + e].to_string()
        } else {
          let e = l[at + 1..].find('(').unwrap();
          l[at + 1..at + 1 + e].to_string()
        };
        let st = i;
        while lines[i] != "}" {
          i += 1
        }
        funcs.insert(name, (st, i));
      } else if l.starts_with('%') {
        if let Some(k) = l.find(" = type ") {
          let n = l[1..k].trim_matches('"');
          if !l.ends_with("opaque") {
            let t = P::new(&l[k + 8..]).ty();
            types.insert(Rc::from(n), t);
          }
        }
      } else if l.starts_with('@') {
        if let Some(k) = l.find(" = ") {
          globals.insert(l[1..k].trim_matches('"').to_string(), i);
        }
      }
      i += 1;
    }
    Module { lines, types, funcs, globals }
  }
  pub fn has(&self, f: &str) -> bool {
    self.funcs.contains_key(f)
  }
  pub fn func_names(&self) -> impl Iterator<Item = &String> {
    self.funcs.keys()
  }
  pub fn global(&self, g: &str) -> Option<(Ty, Opd)> {
    let l = &self.lines[*self.globals.get(g)?];
    let k = l.find(" = ").unwrap();
    let mut p = P::new(&l[k + 3..]);
    loop {
      match p.next() {
        Tok::Word(w) if &*w == "constant" || &*w == "global" => break,
        Tok::P('\n') => return None,
        Tok::Word(w) if &*w == "external" => return None,
        _ => {}
      }
    }
    let t = p.ty();
    let o = p.opd(&t);
    Some((t, o))
  }
  pub fn parse(&self, name: &str) -> Option<Func> {
    let (st, en) = *self.funcs.get(name)?;
    let mut p = P::new(&self.lines[st]);
    p.next();
    p.skip_attrs();
    let ret = p.ty();
    assert!(matches!(p.peek(), Some(Tok::Global(_))), "{}", self.lines[st]);
    let at = p.i;
    p.i = at + 1;
    assert!(p.eat('('));
    let mut params = vec![];
    while !p.eat(')') {
      if p.eat('.') {
        continue;
      }
      let t = p.ty();
      p.skip_attrs();
      let n = match p.next() {
        Tok::Reg(r) => r,
        t => panic!("param {t:?}"),
      };
      params.push((t, n));
      p.eat(',');
    }
    let mut blocks = HashMap::new();
    let mut cur: Option<(Rc<str>, Vec<(Option<Rc<str>>, Ins)>)> = None;
    let mut entry: Option<Rc<str>> = None;
    let mut i = st + 1;
    while i < en {
      let l = self.lines[i].clone();
      i += 1;
      let t = l.trim_start();
      if t.is_empty() || t.starts_with(';') {
        continue;
      }
      if !l.starts_with(' ') {
        if let Some((n, b)) = cur.take() {
          blocks.insert(n, Rc::new(b));
        }
        let e = l.find(':').unwrap();
        let n: Rc<str> = l[..e].trim_matches('"').into();
        entry.get_or_insert(n.clone());
        cur = Some((n, vec![]));
        continue;
      }
      let mut full = t.to_string();
      if full.starts_with("switch") {
        while !full.contains(']') {
          full.push(' ');
          full.push_str(self.lines[i].trim());
          i += 1
        }
      }
      let ins = parse_ins(&full);
      if cur.is_none() {
        let n: Rc<str> = "0".into();
        entry.get_or_insert(n.clone());
        cur = Some((n, vec![]));
      }
      cur.as_mut().unwrap().1.push(ins);
    }
    if let Some((n, b)) = cur.take() {
      blocks.insert(n, Rc::new(b));
    }
    Some(Func { name: name.into(), ret, params, blocks, entry: entry.unwrap() })
  }
}

fn parse_ins(l: &str) -> (Option<Rc<str>>, Ins) {
  let mut p = P::new(l);
  let mut dst = None;
  if let (Some(Tok::Reg(r)), Some(Tok::P('='))) = (p.t.first().cloned(), p.t.get(1).cloned()) {
    dst = Some(r);
    p.i = 2;
  }
  let op = match p.next() {
    Tok::Word(w) => w,
    t => panic!("instruction {t:?}: {l}"),
  };
  let ins = match &*op {
    "alloca" => Ins::Alloca(p.ty()),
    "load" => {
      let _ = p.eat_word("volatile");
      let t = p.ty();
      p.eat(',');
      let _ = p.ty();
      Ins::Load(t, p.opd(&Ty::Ptr))
    }
    "store" => {
      let _ = p.eat_word("volatile");
      let t = p.ty();
      let v = p.opd(&t);
      p.eat(',');
      let _ = p.ty();
      Ins::Store(t, v, p.opd(&Ty::Ptr))
    }
    "getelementptr" => {
      while matches!(p.peek(), Some(Tok::Word(w)) if parse_prim(w).is_none()) {
        p.i += 1;
      }
      let t = p.ty();
      p.eat(',');
      let _ = p.ty();
      let b = p.opd(&Ty::Ptr);
      let mut ix = vec![];
      while p.eat(',') {
        if matches!(p.peek(), Some(Tok::Meta)) {
          break;
        }
        let t = p.ty();
        let o = p.opd(&t);
        ix.push((t, o));
      }
      Ins::Gep(t, b, ix)
    }
    "icmp" | "fcmp" => {
      let mut c = p.next();
      // fast-math or samesign flags
      while matches!(&c, Tok::Word(w) if matches!(&**w, "samesign"|"fast"|"nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc")) {
        c = p.next()
      }
      let Tok::Word(c) = c else { panic!("{l}") };
      let t = p.ty();
      let a = p.opd(&t);
      p.eat(',');
      let b = p.opd(&t);
      if &*op == "icmp" {
        Ins::Icmp(c, t, a, b)
      } else {
        Ins::Fcmp(c, t, a, b)
      }
    }
    "fneg" => {
      let t = p.ty();
      Ins::FNeg(t.clone(), p.opd(&t))
    }
    "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
      while matches!(p.peek(), Some(Tok::Word(w)) if parse_prim(w).is_none()) {
        p.i += 1;
      }
      let t = p.ty();
      let a = p.opd(&t);
      p.eat(',');
      let b = p.opd(&t);
      Ins::Bin(op, t, a, b)
    }
    "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fpext" | "fptrunc" | "sitofp" | "uitofp" | "fptosi" | "fptoui" => {
      while matches!(p.peek(), Some(Tok::Word(w)) if parse_prim(w).is_none()) {
        p.i += 1;
      }
      let t = p.ty();
      let a = p.opd(&t);
      assert!(p.eat_word("to"), "{l}");
      Ins::Cast(op, t, a, p.ty())
    }
    "select" => {
      let t = p.ty();
      let c = p.opd(&t);
      p.eat(',');
      let t = p.ty();
      let a = p.opd(&t);
      p.eat(',');
      let t2 = p.ty();
      let b = p.opd(&t2);
      Ins::Select(c, t, a, b)
    }
    "phi" => {
      let t = p.ty();
      let mut v = vec![];
      loop {
        if !p.eat('[') {
          break;
        }
        let o = p.opd(&t);
        p.eat(',');
        let Tok::Reg(r) = p.next() else { panic!("{l}") };
        assert!(p.eat(']'));
        v.push((o, r));
        if !p.eat(',') {
          break;
        }
      }
      Ins::Phi(t, v)
    }
    "tail" | "musttail" | "notail" | "call" => {
      if &*op != "call" {
        p.eat_word("call");
      }
      p.skip_attrs();
      let t = p.ty();
      // a function type instead of a return type: skip the parameter list
      let mut t = t;
      if matches!(p.peek(), Some(Tok::P('('))) {
        p.skip_parens();
      }
      if matches!(t, Ty::Other) {
        t = Ty::Void
      }
      let f = match p.next() {
        Tok::Global(g) => Opd::Global(g),
        Tok::Reg(r) => Opd::Reg(r),
        Tok::Word(w) if &*w == "asm" => return (dst, Ins::Nop),
        t => panic!("callee {t:?}: {l}"),
      };
      assert!(p.eat('('), "{l}");
      let mut args = vec![];
      while !p.eat(')') {
        let t = p.ty();
        if matches!(t, Ty::Other) {
          // metadata argument
          while !matches!(p.peek(), Some(Tok::P(',')) | Some(Tok::P(')'))) {
            p.i += 1
          }
          p.eat(',');
          continue;
        }
        let sret = p.skip_attrs();
        let o = p.opd(&t);
        args.push((t, o, sret));
        p.eat(',');
      }
      Ins::Call(t, f, args)
    }
    "extractvalue" => {
      let t = p.ty();
      let a = p.opd(&t);
      let mut ix = vec![];
      while p.eat(',') {
        if let Tok::Num(n) = p.next() {
          ix.push(n.parse().unwrap())
        }
      }
      Ins::Extract(t, a, ix)
    }
    "insertvalue" => {
      let t = p.ty();
      let a = p.opd(&t);
      p.eat(',');
      let t2 = p.ty();
      let b = p.opd(&t2);
      let mut ix = vec![];
      while p.eat(',') {
        if let Tok::Num(n) = p.next() {
          ix.push(n.parse().unwrap())
        }
      }
      Ins::Insert(t, a, t2, b, ix)
    }
    "freeze" => {
      let t = p.ty();
      Ins::Freeze(t.clone(), p.opd(&t))
    }
    "br" => {
      if p.word_is("label") {
        Ins::Br(p.label())
      } else {
        let _ = p.ty();
        let c = p.opd(&Ty::Int(1));
        p.eat(',');
        let a = p.label();
        p.eat(',');
        Ins::CondBr(c, a, p.label())
      }
    }
    "switch" => {
      let t = p.ty();
      let v = p.opd(&t);
      p.eat(',');
      let d = p.label();
      assert!(p.eat('['));
      let mut cs = vec![];
      while !p.eat(']') {
        let t = p.ty();
        let Opd::Int(k) = p.opd(&t) else { panic!("{l}") };
        p.eat(',');
        cs.push((k, p.label()));
      }
      Ins::Switch(t, v, d, cs)
    }
    "ret" => {
      let t = p.ty();
      if t == Ty::Void {
        Ins::Ret(None)
      } else {
        let o = p.opd(&t);
        Ins::Ret(Some((t, o)))
      }
    }
    "unreachable" | "resume" => Ins::Unreachable,
    "fence" => Ins::Nop,
    w => panic!("instruction {w}: {l}"),
  };
  (dst, ins)
}

/// `_ZN..E` symbol to a readable path without the hash.
pub fn demangle(s: &str) -> String {
  let Some(mut r) = s.strip_prefix("_ZN") else { return s.to_string() };
  let mut parts = vec![];
  while let Some(c) = r.bytes().next() {
    if !c.is_ascii_digit() {
      break;
    }
    let e = r.find(|c: char| !c.is_ascii_digit()).unwrap();
    let n: usize = r[..e].parse().unwrap();
    parts.push(r[e..e + n].to_string());
    r = &r[e + n..];
  }
  if parts.last().is_some_and(|p| p.len() == 17 && p.starts_with('h')) {
    parts.pop();
  }
  let mut s = parts.join("::");
  for (a, b) in [
    ("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$C$", ","), ("$u20$", " "), ("$u5b$", "["), ("$u5d$", "]"), ("$u3b$", ";"),
    ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*"), ("$u27$", "'"), ("$u3d$", "="), ("..", "::"),
  ] {
    s = s.replace(a, b)
  }
  s.replace("_<", "<")
}
