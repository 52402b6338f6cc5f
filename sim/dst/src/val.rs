//! The item type that flows through every generated pipeline.
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum K {
  U,
  B(bool),
  I(i64),
  L(Vec<K>),
  /// materialized notifications
  N(Box<K>),
  E(u32),
  C,
}
impl K {
  pub fn num(&self) -> i64 {
    match self {
      K::U => 0,
      K::B(b) => *b as i64,
      K::I(i) => *i,
      K::L(l) => l.iter().fold(l.len() as i64, |a, x| a.wrapping_add(x.num())),
      K::N(k) => k.num().wrapping_add(1),
      K::E(c) => *c as i64,
      K::C => 7,
    }
  }
}
impl std::fmt::Display for K {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self {
      K::U => write!(f, "()"),
      K::B(b) => write!(f, "{}", b),
      K::I(i) => write!(f, "{}", i),
      K::L(l) => {
        write!(f, "[")?;
        for (i, x) in l.iter().enumerate() {
          write!(f, "{}{}", if i > 0 { "," } else { "" }, x)?;
        }
        write!(f, "]")
      }
      K::N(k) => write!(f, "N({})", k),
      K::E(c) => write!(f, "E{}", c),
      K::C => write!(f, "C"),
    }
  }
}

/// A destructor-counted token.
pub struct Tok(pub &'static str);

thread_local! {
  /// clones of items made so far
  pub static CLONES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub struct V {
  pub k: K,
  /// stamp of the source emission this item stems from
  pub born: u64,
  pub tok: Option<Arc<Tok>>,
}
impl Clone for V {
  fn clone(&self) -> V {
    CLONES.with(|c| c.set(c.get() + 1));
    V { k: self.k.clone(), born: self.born, tok: self.tok.clone() }
  }
}
impl V {
  pub fn new(k: K) -> V {
    V { k, born: 0, tok: None }
  }
  pub fn with(&self, k: K) -> V {
    V { k, born: self.born, tok: self.tok.clone() }
  }
}
impl PartialEq for V {
  fn eq(&self, o: &V) -> bool {
    self.k == o.k
  }
}
impl Eq for V {}
impl PartialOrd for V {
  fn partial_cmp(&self, o: &V) -> Option<std::cmp::Ordering> {
    self.k.partial_cmp(&o.k)
  }
}
impl std::hash::Hash for V {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
    self.k.hash(h)
  }
}
impl std::fmt::Debug for V {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{}", self.k)
  }
}
pub fn kadd(a: &K, b: &K) -> K {
  match (a, b) {
    (K::I(x), K::I(y)) => K::I(x.wrapping_add(*y)),
    _ => K::I(a.num().wrapping_mul(31).wrapping_add(b.num())),
  }
}
impl std::ops::Add for V {
  type Output = V;
  fn add(self, o: V) -> V {
    V { k: kadd(&self.k, &o.k), born: self.born.max(o.born), tok: self.tok }
  }
}

/// Error payload; compared by the downcast value.
pub struct ErrTok {
  pub code: u32,
  /// stamp of its emission
  pub born: u64,
  pub tok: Option<Arc<Tok>>,
}
impl std::fmt::Debug for ErrTok {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "ErrTok({})", self.code)
  }
}
impl std::fmt::Display for ErrTok {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "error {}", self.code)
  }
}
impl std::error::Error for ErrTok {}
/// Error code logged when the payload is not ours.
pub const FOREIGN: u32 = u32::MAX;
/// In a model log: any error.
pub const ANY: u32 = u32::MAX - 1;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
  N(K),
  E(u32),
  C,
}
impl std::fmt::Display for Ev {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self {
      Ev::N(k) => write!(f, "{}", k),
      Ev::E(ANY) => write!(f, "ERR(any)"),
      Ev::E(FOREIGN) => write!(f, "ERR(foreign payload)"),
      Ev::E(c) => write!(f, "ERR({})", c),
      Ev::C => write!(f, "|"),
    }
  }
}
pub fn show(l: &[(i32, Ev)]) -> String {
  l.iter().map(|(s, e)| format!("{}@{}", e, s)).collect::<Vec<_>>().join(" ")
}
pub fn show_ev(l: &[Ev]) -> String {
  l.iter().map(|e| format!("{}", e)).collect::<Vec<_>>().join(" ")
}
