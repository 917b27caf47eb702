//! Values, types, statements and responses as the harness sees them.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum V {
    N,
    B(bool),
    U(u64),
    S(i64),
    /// f64 as text (shortest round-trip form)
    F(String),
    X(Vec<u8>),
    T(String),
    L(Vec<V>),
}
pub fn fl(x: f64) -> V {
    V::F(x.to_string())
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum T0 {
    Bool,
    U8,
    U16,
    U32,
    U64,
    S8,
    S16,
    S32,
    S64,
    F32,
    F64,
    Bin,
    Str,
}
pub const ALL_T0: [T0; 13] = [
    T0::Bool,
    T0::U8,
    T0::U16,
    T0::U32,
    T0::U64,
    T0::S8,
    T0::S16,
    T0::S32,
    T0::S64,
    T0::F32,
    T0::F64,
    T0::Bin,
    T0::Str,
];
impl std::fmt::Debug for T0 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use T0::*;
        f.write_str(match self {
            Bool => "Bool",
            U8 => "UInt8",
            U16 => "UInt16",
            U32 => "UInt32",
            U64 => "UInt64",
            S8 => "SInt8",
            S16 => "SInt16",
            S32 => "SInt32",
            S64 => "SInt64",
            F32 => "Float32",
            F64 => "Float64",
            Bin => "Binary",
            Str => "String",
        })
    }
}
impl T0 {
    pub fn name(self) -> &'static str {
        use T0::*;
        match self {
            Bool => "bool",
            U8 => "uint8",
            U16 => "uint16",
            U32 => "uint32",
            U64 => "uint64",
            S8 => "sint8",
            S16 => "sint16",
            S32 => "sint32",
            S64 => "sint64",
            F32 => "float32",
            F64 => "float64",
            Bin => "binary",
            Str => "string",
        }
    }
    /// 0 bool 1 uint 2 sint 3 float 4 bin 5 str
    pub fn class(self) -> u8 {
        use T0::*;
        match self {
            Bool => 0,
            U8 | U16 | U32 | U64 => 1,
            S8 | S16 | S32 | S64 => 2,
            F32 | F64 => 3,
            Bin => 4,
            Str => 5,
        }
    }
    pub fn rank(self) -> u8 {
        self as u8
    }
    pub fn accepts(self, v: &V) -> bool {
        use T0::*;
        match (self, v) {
            (Bool, V::B(_)) | (Bin, V::X(_)) | (Str, V::T(_)) | (U64, V::U(_)) | (S64, V::S(_)) => true,
            (U8, V::U(x)) => *x <= u8::MAX as u64,
            (U16, V::U(x)) => *x <= u16::MAX as u64,
            (U32, V::U(x)) => *x <= u32::MAX as u64,
            (S8, V::S(x)) => *x >= i8::MIN as i64 && *x <= i8::MAX as i64,
            (S16, V::S(x)) => *x >= i16::MIN as i64 && *x <= i16::MAX as i64,
            (S32, V::S(x)) => *x >= i32::MIN as i64 && *x <= i32::MAX as i64,
            (F64, V::F(_)) => true,
            (F32, V::F(s)) => {
                let x: f64 = s.parse().unwrap();
                (f32::MIN as f64..=f32::MAX as f64).contains(&x)
            }
            _ => false,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Ty {
    /// nesting depth of lists around the base type
    pub list: u8,
    pub base: T0,
}
pub fn ty(base: T0) -> Ty {
    Ty { list: 0, base }
}
impl Ty {
    pub fn decl(&self) -> String {
        let n = self.list as usize;
        format!("{}{:?}{}", "[".repeat(n), self.base, "]".repeat(n))
    }
    pub fn ddl(&self) -> String {
        let mut s = self.base.name().to_string();
        for _ in 0..self.list {
            s = format!("list {{ type: {s} }}");
        }
        s
    }
    pub fn class(&self) -> u8 {
        if self.list > 0 {
            6
        } else {
            self.base.class()
        }
    }
    pub fn accepts(&self, v: &V) -> bool {
        if self.list == 0 {
            return self.base.accepts(v);
        }
        match v {
            V::L(l) => {
                let inner = Ty { list: self.list - 1, base: self.base };
                l.iter().all(|x| inner.accepts(x))
            }
            _ => false,
        }
    }
}
pub fn vclass(v: &V) -> u8 {
    match v {
        V::N => 255,
        V::B(_) => 0,
        V::U(_) => 1,
        V::S(_) => 2,
        V::F(_) => 3,
        V::X(_) => 4,
        V::T(_) => 5,
        V::L(_) => 6,
    }
}

/// a model, optionally relative to the current space
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Ent(pub Option<String>, pub String);
impl Ent {
    pub fn sql(&self) -> String {
        match &self.0 {
            Some(s) => format!("{s}.{}", self.1),
            None => self.1.clone(),
        }
    }
}
pub fn ent(s: &str, m: &str) -> Ent {
    Ent(Some(s.into()), m.into())
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct FieldDef {
    pub name: String,
    pub ty: Ty,
    pub null: bool,
    pub pk: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum AOp {
    Set,
    Add,
    Sub,
    Mul,
    Div,
}
pub type Env = Vec<(String, V)>;
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum St {
    CreateSpace { s: String, ine: bool, env: Option<Env> },
    AlterSpace { s: String, env: Option<Env> },
    DropSpace { s: String, force: bool, ie: bool },
    CreateModel { m: Ent, ine: bool, f: Vec<FieldDef> },
    AlterAdd { m: Ent, f: Vec<FieldDef> },
    AlterRemove { m: Ent, f: Vec<String> },
    AlterUpdate { m: Ent, f: Vec<FieldDef> },
    DropModel { m: Ent, force: bool, ie: bool },
    Insert { m: Ent, v: Vec<V> },
    InsertMap { m: Ent, v: Vec<(String, V)> },
    Select { m: Ent, f: Option<Vec<String>>, k: String, v: V },
    SelectAll { m: Ent, f: Option<Vec<String>>, limit: u64 },
    Update { m: Ent, set: Vec<(String, AOp, V)>, k: String, v: V },
    Delete { m: Ent, k: String, v: V },
    InspectGlobal,
    InspectSpace(String),
    InspectModel(Ent),
    Use(Option<String>),
    UseCurrent,
    CreateUser { u: String, p: String },
    AlterUser { u: String, p: String },
    DropUser { u: String },
    Status,
    /// the server was started with this password for root
    RootPw(String),
    /// a new connection logs in (this is the handshake, not a statement)
    Login { u: String, p: String },
    /// text that is not a statement: must be answered with an error
    Junk(String),
    /// text and parameters that are nearly a statement: must be answered with an error and have no effect
    Bad(String, Vec<u8>),
    /// text and parameters of a statement that has no effect, whatever it is answered with
    Odd(String, Vec<u8>),
}
pub struct Q {
    pub text: String,
    pub params: Vec<u8>,
    /// values may be written as calls of the functions that yield them
    pub calls: bool,
}
/// what the functions yield in a build with debug assertions
pub const TIMESEC: u64 = 1673187839;
pub const UUID: &str = "4593264b-0231-43e9-b0aa-50784f14e204";
pub fn uuid_bytes() -> Vec<u8> {
    let h: Vec<u8> = UUID.bytes().filter(|b| *b != b'-').collect();
    h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
impl Q {
    fn lit(&mut self, v: &V) {
        match v {
            V::L(l) => {
                self.text.push('[');
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        self.text.push_str(", ");
                    }
                    self.lit(x);
                }
                self.text.push(']');
            }
            V::N => self.text.push_str("null"),
            V::B(true) => self.text.push_str("true"),
            V::U(TIMESEC) if self.calls => self.text.push_str("@timesec()"),
            V::T(s) if self.calls && s == UUID => self.text.push_str("@uuidstr()"),
            V::X(b) if self.calls && b.len() == 16 && *b == uuid_bytes() => self.text.push_str("@uuidbin()"),
            _ => {
                self.text.push('?');
                self.param(v);
            }
        }
    }
    fn param(&mut self, v: &V) {
        let p = &mut self.params;
        match v {
            V::N => p.push(0),
            V::B(b) => p.extend([1, *b as u8]),
            V::U(x) => {
                p.push(2);
                p.extend(format!("{x}\n").as_bytes())
            }
            V::S(x) => {
                p.push(3);
                p.extend(format!("{x}\n").as_bytes())
            }
            V::F(x) => {
                p.push(4);
                p.extend(format!("{x}\n").as_bytes())
            }
            V::X(b) => {
                p.push(5);
                p.extend(format!("{}\n", b.len()).as_bytes());
                p.extend(b)
            }
            V::T(s) => {
                p.push(6);
                p.extend(format!("{}\n", s.len()).as_bytes());
                p.extend(s.as_bytes())
            }
            V::L(_) => unreachable!(),
        }
    }
}
fn fdef(f: &FieldDef) -> String {
    format!(
        "{}{}{}: {}",
        if f.pk { "primary " } else { "" },
        if f.null { "null " } else { "" },
        f.name,
        f.ty.ddl()
    )
}
fn fdef_alt(f: &FieldDef) -> String {
    format!(
        "{} {{ type: {}{} }}",
        f.name,
        f.ty.ddl(),
        if f.null { ", nullable: true" } else { "" }
    )
}
impl St {
    pub fn query(&self) -> Q {
        let mut q = Q { text: String::new(), params: vec![], calls: false };
        let yes = |b: bool, s: &'static str| if b { s } else { "" };
        match self {
            St::CreateSpace { s, ine, env } => {
                q.text = format!("create space {}{s}", yes(*ine, "if not exists "));
                if let Some(e) = env {
                    q.text.push_str(" with ");
                    env_sql(&mut q, e);
                }
            }
            St::AlterSpace { s, env } => {
                q.text = format!("alter space {s} with ");
                match env {
                    Some(e) => env_sql(&mut q, e),
                    None => q.text.push_str("{ env: null }"),
                }
            }
            St::DropSpace { s, force, ie } => {
                q.text = format!(
                    "drop space {}{}{s}",
                    yes(*ie, "if exists "),
                    yes(*force, "allow not empty ")
                )
            }
            St::CreateModel { m, ine, f } => {
                q.text = format!(
                    "create model {}{}({})",
                    yes(*ine, "if not exists "),
                    m.sql(),
                    f.iter().map(fdef).collect::<Vec<_>>().join(", ")
                )
            }
            St::AlterAdd { m, f } => {
                q.text = if f.len() == 1 {
                    format!("alter model {} add {}", m.sql(), fdef_alt(&f[0]))
                } else {
                    format!(
                        "alter model {} add ({})",
                        m.sql(),
                        f.iter().map(fdef_alt).collect::<Vec<_>>().join(", ")
                    )
                }
            }
            St::AlterUpdate { m, f } => {
                q.text = if f.len() == 1 {
                    format!("alter model {} update {}", m.sql(), fdef_alt(&f[0]))
                } else {
                    format!(
                        "alter model {} update ({})",
                        m.sql(),
                        f.iter().map(fdef_alt).collect::<Vec<_>>().join(", ")
                    )
                }
            }
            St::AlterRemove { m, f } => {
                q.text = if f.len() == 1 {
                    format!("alter model {} remove {}", m.sql(), f[0])
                } else {
                    format!("alter model {} remove ({})", m.sql(), f.join(", "))
                }
            }
            St::DropModel { m, force, ie } => {
                q.text = format!(
                    "drop model {}{}{}",
                    yes(*ie, "if exists "),
                    yes(*force, "allow not empty "),
                    m.sql()
                )
            }
            St::Insert { m, v } => {
                q.text = format!("insert into {}(", m.sql());
                q.calls = true;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        q.text.push_str(", ");
                    }
                    q.lit(x);
                }
                q.text.push(')');
            }
            St::InsertMap { m, v } => {
                q.text = format!("insert into {}{{", m.sql());
                q.calls = true;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        q.text.push_str(", ");
                    }
                    q.text.push_str(k);
                    q.text.push_str(": ");
                    q.lit(x);
                }
                q.text.push('}');
            }
            St::Select { m, f, k, v } => {
                let fs = f.as_ref().map(|f| f.join(", ")).unwrap_or("*".into());
                q.text = format!("select {fs} from {} where {k} = ", m.sql());
                q.lit(v);
            }
            St::SelectAll { m, f, limit } => {
                let fs = f.as_ref().map(|f| f.join(", ")).unwrap_or("*".into());
                q.text = format!("select all {fs} from {} limit ", m.sql());
                q.lit(&V::U(*limit));
            }
            St::Update { m, set, k, v } => {
                q.text = format!("update {} set ", m.sql());
                for (i, (f, o, x)) in set.iter().enumerate() {
                    if i > 0 {
                        q.text.push_str(", ");
                    }
                    let o = match o {
                        AOp::Set => "=",
                        AOp::Add => "+=",
                        AOp::Sub => "-=",
                        AOp::Mul => "*=",
                        AOp::Div => "/=",
                    };
                    q.text.push_str(&format!("{f} {o} "));
                    q.lit(x);
                }
                q.text.push_str(&format!(" where {k} = "));
                q.lit(v);
            }
            St::Delete { m, k, v } => {
                q.text = format!("delete from {} where {k} = ", m.sql());
                q.lit(v);
            }
            St::InspectGlobal => q.text = "inspect global".into(),
            St::InspectSpace(s) => q.text = format!("inspect space {s}"),
            St::InspectModel(m) => q.text = format!("inspect model {}", m.sql()),
            St::Use(Some(s)) => q.text = format!("use {s}"),
            St::Use(None) => q.text = "use null".into(),
            St::UseCurrent => q.text = "use $current".into(),
            St::CreateUser { u, p } => {
                q.text = format!("sysctl create user {u} with {{ password: ? }}");
                q.param(&V::T(p.clone()));
            }
            St::AlterUser { u, p } => {
                q.text = format!("sysctl alter user {u} with {{ password: ? }}");
                q.param(&V::T(p.clone()));
            }
            St::DropUser { u } => q.text = format!("sysctl drop user {u}"),
            St::Status => q.text = "sysctl report status".into(),
            St::Login { .. } | St::RootPw(_) => unreachable!(),
            St::Junk(s) => q.text = s.clone(),
            St::Odd(s, p) | St::Bad(s, p) => {
                q.text = s.clone();
                q.params = p.clone();
            }
        }
        if !matches!(self, St::Junk(_) | St::Odd(..) | St::Bad(..)) {
            q.text = restyle(&q.text);
        }
        q
    }
    pub fn packet(&self) -> Vec<u8> {
        let q = self.query();
        let win = format!("{}\n", q.text.len());
        let total = win.len() + q.text.len() + q.params.len();
        let mut p = format!("S{total}\n{win}{}", q.text).into_bytes();
        p.extend(q.params);
        p
    }
    pub fn is_write(&self) -> bool {
        !matches!(
            self,
            St::Select { .. }
                | St::SelectAll { .. }
                | St::InspectGlobal
                | St::InspectSpace(_)
                | St::InspectModel(_)
                | St::Use(_)
                | St::UseCurrent
                | St::Status
                | St::Login { .. }
                | St::Junk(_)
                | St::Bad(..)
                | St::Odd(..)
        )
    }
    pub fn is_dml(&self) -> bool {
        matches!(
            self,
            St::Insert { .. } | St::InsertMap { .. } | St::Update { .. } | St::Delete { .. }
        )
    }
    /// schema, space or user change
    pub fn is_ddl(&self) -> bool {
        self.is_write() && !self.is_dml()
    }
}
/// the words whose case does not matter
const KEYWORDS: [&str; 29] = [
    "sysctl", "create", "alter", "drop", "use", "inspect", "insert", "select", "update", "delete", "exists", "model",
    "space", "type", "add", "remove", "set", "limit", "all", "with", "from", "into", "if", "not", "where", "allow",
    "null", "primary", "true",
];
/// the same statement written in another way: the case of keywords and the white space mean nothing (which way is
/// chosen depends on the text alone, so that a statement in a replay file is always sent as the same bytes)
fn restyle(t: &str) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut next = move |n: u64| {
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (h >> 33) % n
    };
    if next(2) == 0 {
        return t.to_string();
    }
    let (kw, ws, comma) = (next(4), next(4), next(2) == 0);
    let env = t.contains("{ env: ");
    let b: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_alphanumeric() || c == '_' {
            let mut w = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                w.push(b[i]);
                i += 1;
            }
            let name = matches!(o.chars().last(), Some('.' | '@' | '$'));
            if !name && KEYWORDS.contains(&w.as_str()) {
                w = match kw {
                    0 => w,
                    1 => w.to_uppercase(),
                    2 => w[..1].to_uppercase() + &w[1..],
                    _ => w.chars().map(|c| if next(2) == 0 { c.to_ascii_uppercase() } else { c }).collect(),
                };
            }
            o.push_str(&w);
            continue;
        }
        i += 1;
        match c {
            ' ' if ws > 0 => {
                let tight = |c: Option<&char>| c.is_some_and(|c| "(){}[],:=".contains(*c));
                let prev = o.chars().last();
                if ws == 1 && (tight(prev.as_ref()) || tight(b.get(i))) {
                    continue;
                }
                for _ in 0..=next(ws) {
                    o.push([' ', ' ', '\n', '\t'][next(4) as usize]);
                }
            }
            '(' | ')' | '{' | '}' | '[' | ']' | ',' | ':' if ws > 1 && !t.contains('@') => {
                if c == '}' && env && comma && !matches!(o.trim_end().chars().last(), Some('{' | ',')) && next(3) == 0 {
                    o.push(',');
                }
                if next(4) == 0 {
                    o.push([' ', '\n', '\t'][next(3) as usize]);
                }
                o.push(c);
                if next(4) == 0 {
                    o.push([' ', '\n', '\t'][next(3) as usize]);
                }
            }
            _ => o.push(c),
        }
    }
    o
}
fn env_sql(q: &mut Q, e: &Env) {
    q.text.push_str("{ env: ");
    dict_sql(q, e);
    q.text.push_str(" }");
}
fn dict_sql(q: &mut Q, e: &Env) {
    q.text.push('{');
    for (i, (k, v)) in e.iter().enumerate() {
        if i > 0 {
            q.text.push_str(", ");
        }
        q.text.push_str(k);
        q.text.push_str(": ");
        match v {
            V::L(_) => dict_sql(q, &env_of(v)),
            _ => q.lit(v),
        }
    }
    q.text.push('}');
}
/// (a dictionary in an environment is kept as a list of pairs)
pub fn env_of(v: &V) -> Env {
    let V::L(l) = v else { unreachable!() };
    l.iter()
        .map(|p| match p {
            V::L(p) => match &p[0] {
                V::T(k) => (k.clone(), p[1].clone()),
                _ => unreachable!(),
            },
            _ => unreachable!(),
        })
        .collect()
}
pub fn of_env(e: impl IntoIterator<Item = (String, V)>) -> V {
    V::L(e.into_iter().map(|(k, v)| V::L(vec![V::T(k), v])).collect())
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum R {
    Empty,
    Null,
    Bool(bool),
    Str(String),
    Err(u16),
    Row(Vec<V>),
    Rows(u64, Vec<Vec<V>>),
}
pub enum Parse<T> {
    More,
    Bad(String),
    Done(T, usize),
}
struct Rd<'a> {
    b: &'a [u8],
    i: usize,
}
enum E {
    More,
    Bad(String),
}
impl<'a> Rd<'a> {
    fn u8(&mut self) -> Result<u8, E> {
        let x = *self.b.get(self.i).ok_or(E::More)?;
        self.i += 1;
        Ok(x)
    }
    fn line(&mut self) -> Result<&'a str, E> {
        let rest = &self.b[self.i..];
        match rest.iter().position(|x| *x == b'\n') {
            None if rest.len() > 400 => Err(E::Bad("no newline".into())),
            None => Err(E::More),
            Some(n) => {
                self.i += n + 1;
                std::str::from_utf8(&rest[..n]).map_err(|_| E::Bad("not utf-8".into()))
            }
        }
    }
    fn num<T: std::str::FromStr>(&mut self) -> Result<T, E> {
        let l = self.line()?;
        l.parse().map_err(|_| E::Bad(format!("bad number {l:?}")))
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], E> {
        if self.b.len() - self.i < n {
            return Err(E::More);
        }
        self.i += n;
        Ok(&self.b[self.i - n..self.i])
    }
    fn cell(&mut self) -> Result<V, E> {
        Ok(match self.u8()? {
            0 => V::N,
            1 => match self.u8()? {
                0 => V::B(false),
                1 => V::B(true),
                x => return Err(E::Bad(format!("bad bool {x}"))),
            },
            t @ 2..=5 => {
                let x: u64 = self.num()?;
                let lim = [u8::MAX as u64, u16::MAX as u64, u32::MAX as u64, u64::MAX][t as usize - 2];
                if x > lim {
                    return Err(E::Bad(format!("{x} out of range of tag {t}")));
                }
                V::U(x)
            }
            6..=9 => V::S(self.num()?),
            10 | 11 => {
                let x: f64 = self.num()?;
                fl(x)
            }
            12 => {
                let n: usize = self.num()?;
                V::X(self.take(n)?.to_vec())
            }
            13 => {
                let n: usize = self.num()?;
                V::T(
                    String::from_utf8(self.take(n)?.to_vec())
                        .map_err(|_| E::Bad("string is not utf-8".into()))?,
                )
            }
            14 => {
                let n: usize = self.num()?;
                if n > 1 << 20 {
                    return Err(E::Bad("list too long".into()));
                }
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.cell()?);
                }
                V::L(v)
            }
            t => return Err(E::Bad(format!("bad cell tag {t:#x}"))),
        })
    }
    fn resp(&mut self) -> Result<R, E> {
        Ok(match self.u8()? {
            0x12 => R::Empty,
            0x00 => R::Null,
            0x01 => R::Bool(self.u8()? != 0),
            0x10 => {
                let b = self.take(2)?;
                R::Err(u16::from_le_bytes([b[0], b[1]]))
            }
            0x0D => {
                let n: usize = self.num()?;
                R::Str(
                    String::from_utf8(self.take(n)?.to_vec())
                        .map_err(|_| E::Bad("string is not utf-8".into()))?,
                )
            }
            0x11 => {
                let n: usize = self.num()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.cell()?);
                }
                R::Row(v)
            }
            0x13 => {
                let n: u64 = self.num()?;
                let c: u64 = self.num()?;
                let mut rows = vec![];
                for _ in 0..n {
                    let mut v = vec![];
                    for _ in 0..c {
                        v.push(self.cell()?);
                    }
                    rows.push(v);
                }
                R::Rows(c, rows)
            }
            t => return Err(E::Bad(format!("bad response tag {t:#x}"))),
        })
    }
}
pub fn parse_resp(b: &[u8]) -> Parse<R> {
    let mut r = Rd { b, i: 0 };
    match r.resp() {
        Ok(x) => Parse::Done(x, r.i),
        Err(E::More) => Parse::More,
        Err(E::Bad(s)) => Parse::Bad(s),
    }
}
