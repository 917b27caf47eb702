//! Sequential reference model of the database.
use crate::val::*;
use std::{
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

pub type Row = BTreeMap<String, V>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Mdl {
    pub fields: Vec<FieldDef>,
    pub pk: String,
    /// primary key -> other fields
    pub rows: BTreeMap<V, Row>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Db {
    pub spaces: BTreeMap<String, BTreeMap<String, V>>,
    pub models: BTreeMap<(String, String), Rc<Mdl>>,
    pub users: BTreeMap<String, String>,
    /// current space of each session
    pub cs: BTreeMap<u32, String>,
    /// spaces whose environment is not known (it can not be read, only changed)
    pub fuzzy: BTreeSet<String>,
}
/// what the model says a statement returns
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Is(R),
    /// any error
    Err,
    /// success or any error
    Any,
    /// any answer
    Whatever,
    /// these rows in any order, cut to `limit`
    Rows { cols: u64, rows: BTreeMap<V, Vec<V>>, limit: u64, pkcol: Option<usize> },
    Global { spaces: BTreeSet<String>, users: Option<BTreeSet<String>> },
    Space { models: BTreeSet<String> },
}
pub const ROOT: &str = "root";

impl Want {
    pub fn ok(&self) -> bool {
        !matches!(self, Want::Err | Want::Is(R::Err(_)))
    }
    /// `upd`: keys updated while the statement ran, `ch`: number of inserts and deletes while it ran
    pub fn matches(&self, r: &R, upd: &[&V], ch: u64) -> bool {
        match (self, r) {
            (Want::Err, R::Err(_)) => true,
            (Want::Any, R::Err(_) | R::Empty) => true,
            (Want::Whatever, _) => true,
            // the row count that inspect reports is exact only while nobody inserts or deletes
            (Want::Is(R::Str(a)), R::Str(b)) if ch > 0 && a != b => match (parse_model(a), parse_model(b)) {
                (Some((d1, n1)), Some((d2, n2))) => d1 == d2 && n1.abs_diff(n2) <= ch,
                _ => false,
            },
            // the set of rows is a snapshot, but each row is read on its own
            (Want::Rows { cols, rows, limit, pkcol }, R::Rows(c, got)) if !upd.is_empty() => {
                let n = (*limit).min(rows.len() as u64);
                if c != cols || got.len() as u64 != n {
                    return false;
                }
                let Some(pk) = pkcol else { return true };
                let mut keys = BTreeSet::new();
                got.iter().all(|g| {
                    keys.insert(&g[*pk])
                        && rows.get(&g[*pk]).map_or(false, |want| want == g || upd.contains(&&g[*pk]))
                })
            }
            (Want::Is(a), b) => a == b,
            (Want::Rows { cols, rows, limit, .. }, R::Rows(c, got)) => {
                if c != cols || got.len() as u64 != (*limit).min(rows.len() as u64) {
                    return false;
                }
                // multiset inclusion
                let mut pool: BTreeMap<&Vec<V>, usize> = BTreeMap::new();
                for r in rows.values() {
                    *pool.entry(r).or_insert(0) += 1;
                }
                got.iter().all(|g| match pool.get_mut(g) {
                    Some(n) if *n > 0 => {
                        *n -= 1;
                        true
                    }
                    _ => false,
                })
            }
            (Want::Global { spaces, users }, R::Str(s)) => match parse_global(s) {
                Some((sp, us)) => &sp == spaces && &us == users,
                None => false,
            },
            (Want::Space { models }, R::Str(s)) => parse_space(s).as_ref() == Some(models),
            _ => false,
        }
    }
}
fn strs(v: &serde_json::Value) -> Option<BTreeSet<String>> {
    let mut r = BTreeSet::new();
    for x in v.as_array()? {
        if !r.insert(x.as_str()?.to_string()) {
            return None;
        }
    }
    Some(r)
}
pub fn parse_global(s: &str) -> Option<(BTreeSet<String>, Option<BTreeSet<String>>)> {
    let v: serde_json::Value = serde_json::from_str(s).ok()?;
    let sp = strs(v.get("spaces")?)?;
    let us = match v.get("users") {
        Some(u) => Some(strs(u)?),
        None => None,
    };
    Some((sp, us))
}
pub fn parse_space(s: &str) -> Option<BTreeSet<String>> {
    let v: serde_json::Value = serde_json::from_str(s).ok()?;
    strs(v.get("models")?)
}
pub fn parse_model(s: &str) -> Option<(String, u64)> {
    let v: serde_json::Value = serde_json::from_str(s).ok()?;
    Some((v.get("decl")?.as_str()?.into(), v.get("rows")?.as_u64()?))
}

impl Mdl {
    pub fn decl(&self) -> String {
        let f: Vec<String> = self
            .fields
            .iter()
            .map(|f| {
                let c = if f.name == self.pk {
                    '*'
                } else if f.null {
                    '?'
                } else {
                    '!'
                };
                format!("{c}{}:{}", f.name, f.ty.decl())
            })
            .collect();
        format!("{{{}}}", f.join(","))
    }
    pub fn field(&self, n: &str) -> Option<&FieldDef> {
        self.fields.iter().find(|f| f.name == n)
    }
    pub fn inspect(&self) -> String {
        format!("{{\"decl\":\"{}\",\"rows\":{},\"properties\":{{}}}}", self.decl(), self.rows.len())
    }
    fn key_ok(&self, k: &str, v: &V) -> bool {
        k == self.pk && self.field(k).map_or(false, |f| f.ty.class() == vclass(v))
    }
    pub fn cells(&self, k: &V, row: &Row) -> Vec<V> {
        self.fields
            .iter()
            .map(|f| if f.name == self.pk { k.clone() } else { row.get(&f.name).cloned().unwrap_or(V::N) })
            .collect()
    }
}

fn arith(f: &FieldDef, cur: &V, op: AOp, rhs: &V) -> Option<V> {
    if f.ty.list > 0 {
        // append an element
        if op != AOp::Add {
            return None;
        }
        let V::L(l) = cur else { return None };
        if f.ty.list != 1 || !f.ty.base.accepts(rhs) {
            return None;
        }
        let mut l = l.clone();
        l.push(rhs.clone());
        return Some(V::L(l));
    }
    if f.ty.class() != vclass(rhs) {
        return None;
    }
    let v = match (op, cur, rhs) {
        (AOp::Set, _, r) => r.clone(),
        (AOp::Add, V::T(a), V::T(b)) => V::T(format!("{a}{b}")),
        (AOp::Add, V::X(a), V::X(b)) => V::X([&a[..], &b[..]].concat()),
        (AOp::Add, V::U(a), V::U(b)) => V::U(a.checked_add(*b)?),
        (AOp::Sub, V::U(a), V::U(b)) => V::U(a.checked_sub(*b)?),
        (AOp::Mul, V::U(a), V::U(b)) => V::U(a.checked_mul(*b)?),
        (AOp::Div, V::U(a), V::U(b)) => V::U(a.checked_div(*b)?),
        (AOp::Add, V::S(a), V::S(b)) => V::S(a.checked_add(*b)?),
        (AOp::Sub, V::S(a), V::S(b)) => V::S(a.checked_sub(*b)?),
        (AOp::Mul, V::S(a), V::S(b)) => V::S(a.checked_mul(*b)?),
        (AOp::Div, V::S(a), V::S(b)) => V::S(a.checked_div(*b)?),
        (o, V::F(a), V::F(b)) => {
            let (a, b): (f64, f64) = (a.parse().unwrap(), b.parse().unwrap());
            let r = match o {
                AOp::Add => a + b,
                AOp::Sub => a - b,
                AOp::Mul => a * b,
                AOp::Div => a / b,
                AOp::Set => b,
            };
            if !r.is_finite() {
                return None;
            }
            fl(r)
        }
        _ => return None,
    };
    if f.ty.accepts(&v) {
        Some(v)
    } else {
        None
    }
}

fn env_ok(cur: &BTreeMap<String, V>, new: &[(String, V)]) -> bool {
    new.iter().all(|(k, v)| match (cur.get(k), v) {
        (None, _) | (_, V::N) => true,
        (Some(c @ V::L(_)), V::L(_)) => env_ok(&env_of(c).into_iter().collect(), &env_of(v)),
        (Some(c), _) => vclass(c) == vclass(v),
    })
}
fn env_apply(cur: &mut BTreeMap<String, V>, new: &[(String, V)]) {
    for (k, v) in new {
        match v {
            V::N => {
                cur.remove(k);
            }
            V::L(_) => {
                let mut c: BTreeMap<String, V> = cur.get(k).map(|c| env_of(c).into_iter().collect()).unwrap_or_default();
                env_apply(&mut c, &env_of(v));
                cur.insert(k.clone(), of_env(c));
            }
            _ => {
                cur.insert(k.clone(), v.clone());
            }
        }
    }
}
impl Db {
    pub fn fresh(root_pwd: &str) -> Db {
        let mut d = Db::default();
        d.users.insert(ROOT.into(), root_pwd.into());
        d
    }
    fn ent(&self, client: u32, m: &Ent) -> Option<(String, String)> {
        let s = match &m.0 {
            Some(s) => s.clone(),
            None => self.cs.get(&client)?.clone(),
        };
        Some((s, m.1.clone()))
    }
    fn full(m: &Ent) -> Option<(String, String)> {
        Some((m.0.clone()?, m.1.clone()))
    }
    /// execute one statement; the database changes only if it succeeds
    pub fn apply(&mut self, client: u32, user: &str, st: &St) -> Want {
        let root = user == ROOT;
        if st.is_ddl() && !root {
            return Want::Err;
        }
        let done = |b: bool, yes: bool| if b { Want::Is(R::Bool(yes)) } else { Want::Is(R::Empty) };
        match st {
            St::CreateSpace { s, ine, env } => {
                if self.spaces.contains_key(s) {
                    return if *ine { Want::Is(R::Bool(false)) } else { Want::Err };
                }
                let mut e = BTreeMap::new();
                env_apply(&mut e, env.as_deref().unwrap_or(&[]));
                self.spaces.insert(s.clone(), e);
                done(*ine, true)
            }
            St::AlterSpace { s, env } => {
                let Some(cur) = self.spaces.get_mut(s) else { return Want::Err };
                match env {
                    None => {
                        self.fuzzy.remove(s);
                        cur.clear()
                    }
                    Some(_) if self.fuzzy.contains(s) => return Want::Any,
                    Some(e) => {
                        if !env_ok(cur, e) {
                            return Want::Err;
                        }
                        env_apply(cur, e);
                    }
                }
                Want::Is(R::Empty)
            }
            St::DropSpace { s, force, ie } => {
                if !self.spaces.contains_key(s) {
                    return if *ie { Want::Is(R::Bool(false)) } else { Want::Err };
                }
                let has = self.models.keys().any(|(x, _)| x == s);
                if has && !*force {
                    return Want::Err;
                }
                self.spaces.remove(s);
                self.fuzzy.remove(s);
                self.models.retain(|(x, _), _| x != s);
                done(*ie, true)
            }
            St::CreateModel { m, ine, f } => {
                let Some(k) = Self::full(m) else { return Want::Err };
                let names: BTreeSet<_> = f.iter().map(|f| &f.name).collect();
                if f.is_empty() || names.len() != f.len() || f.iter().filter(|f| f.pk).count() > 1 {
                    return Want::Err;
                }
                let pk = f.iter().find(|f| f.pk).unwrap_or(&f[0]);
                if pk.null || !matches!(pk.ty.class(), 1 | 2 | 4 | 5) {
                    return Want::Err;
                }
                if !self.spaces.contains_key(&k.0) {
                    return Want::Err;
                }
                if self.models.contains_key(&k) {
                    return if *ine { Want::Is(R::Bool(false)) } else { Want::Err };
                }
                let mut fields = f.clone();
                let pk = pk.name.clone();
                for f in &mut fields {
                    f.pk = f.name == pk;
                }
                self.models.insert(k, Rc::new(Mdl { fields, pk, rows: BTreeMap::new() }));
                done(*ine, true)
            }
            St::AlterAdd { m, f } => {
                let Some(k) = Self::full(m) else { return Want::Err };
                let Some(md) = self.models.get_mut(&k) else { return Want::Err };
                let names: BTreeSet<_> = f.iter().map(|f| &f.name).collect();
                if names.len() != f.len() || f.iter().any(|f| md.field(&f.name).is_some()) {
                    return Want::Err;
                }
                let md = Rc::make_mut(md);
                for x in f {
                    let mut x = x.clone();
                    x.pk = false;
                    for r in md.rows.values_mut() {
                        r.insert(x.name.clone(), V::N);
                    }
                    md.fields.push(x);
                }
                Want::Is(R::Empty)
            }
            St::AlterRemove { m, f } => {
                let Some(k) = Self::full(m) else { return Want::Err };
                let Some(md) = self.models.get_mut(&k) else { return Want::Err };
                let names: BTreeSet<_> = f.iter().collect();
                if names.len() != f.len() || f.iter().any(|f| *f == md.pk || md.field(f).is_none()) {
                    return Want::Err;
                }
                let md = Rc::make_mut(md);
                md.fields.retain(|x| !f.contains(&x.name));
                for r in md.rows.values_mut() {
                    r.retain(|k, _| !f.contains(k));
                }
                Want::Is(R::Empty)
            }
            St::AlterUpdate { m, f } => {
                let Some(k) = Self::full(m) else { return Want::Err };
                let Some(md) = self.models.get_mut(&k) else { return Want::Err };
                let names: BTreeSet<_> = f.iter().map(|f| &f.name).collect();
                if names.len() != f.len() {
                    return Want::Err;
                }
                for x in f {
                    let Some(c) = md.field(&x.name) else { return Want::Err };
                    if x.name == md.pk || (c.null && !x.null) || c.ty.list != x.ty.list {
                        return Want::Err;
                    }
                    let (a, b) = (c.ty.base, x.ty.base);
                    if a != b && !(a.class() == b.class() && (1..=3).contains(&a.class()) && b > a) {
                        return Want::Err;
                    }
                }
                let md = Rc::make_mut(md);
                for x in f {
                    for c in md.fields.iter_mut() {
                        if c.name == x.name {
                            c.ty = x.ty;
                            c.null = x.null;
                        }
                    }
                }
                Want::Is(R::Empty)
            }
            St::DropModel { m, force, ie } => {
                let Some(k) = Self::full(m) else { return Want::Err };
                if !self.spaces.contains_key(&k.0) {
                    return Want::Err;
                }
                match self.models.get(&k) {
                    None => return if *ie { Want::Is(R::Bool(false)) } else { Want::Err },
                    Some(md) if !md.rows.is_empty() && !*force => return Want::Err,
                    _ => {}
                }
                self.models.remove(&k);
                done(*ie, true)
            }
            St::Insert { m, v } => {
                let Some(md) = self.ent(client, m).and_then(|k| self.models.get_mut(&k)) else {
                    return Want::Err;
                };
                if v.len() != md.fields.len() {
                    return Want::Err;
                }
                let pairs: Vec<(String, V)> =
                    md.fields.iter().map(|f| f.name.clone()).zip(v.iter().cloned()).collect();
                Self::insert(md, pairs)
            }
            St::InsertMap { m, v } => {
                let Some(md) = self.ent(client, m).and_then(|k| self.models.get_mut(&k)) else {
                    return Want::Err;
                };
                Self::insert(md, v.clone())
            }
            St::Select { m, f, k, v } => {
                let Some(md) = self.ent(client, m).and_then(|k| self.models.get(&k)) else {
                    return Want::Err;
                };
                if !md.key_ok(k, v) {
                    return Want::Err;
                }
                let Some(row) = md.rows.get(v) else { return Want::Err };
                match f {
                    None => Want::Is(R::Row(md.cells(v, row))),
                    Some(f) => {
                        let mut out = vec![];
                        for n in f {
                            if *n == md.pk {
                                out.push(v.clone())
                            } else if md.field(n).is_some() {
                                out.push(row.get(n).cloned().unwrap_or(V::N))
                            } else {
                                return Want::Err;
                            }
                        }
                        Want::Is(R::Row(out))
                    }
                }
            }
            St::SelectAll { m, f, limit } => {
                let Some(md) = self.ent(client, m).and_then(|k| self.models.get(&k)) else {
                    return Want::Err;
                };
                let names: Vec<String> = match f {
                    None => md.fields.iter().map(|f| f.name.clone()).collect(),
                    Some(f) => {
                        if f.len() > md.fields.len() || f.iter().any(|n| md.field(n).is_none()) {
                            return Want::Err;
                        }
                        f.clone()
                    }
                };
                let rows = md
                    .rows
                    .iter()
                    .map(|(k, r)| {
                        (
                            k.clone(),
                            names
                                .iter()
                                .map(|n| if *n == md.pk { k.clone() } else { r.get(n).cloned().unwrap_or(V::N) })
                                .collect(),
                        )
                    })
                    .collect();
                Want::Rows {
                    cols: names.len() as u64,
                    rows,
                    limit: *limit,
                    pkcol: names.iter().position(|n| *n == md.pk),
                }
            }
            St::Update { m, set, k, v } => {
                let Some(md) = self.ent(client, m).and_then(|k| self.models.get_mut(&k)) else {
                    return Want::Err;
                };
                if !md.key_ok(k, v) {
                    return Want::Err;
                }
                let Some(row) = md.rows.get(v) else { return Want::Err };
                let mut new = row.clone();
                for (f, o, x) in set {
                    if *f == md.pk {
                        return Want::Err;
                    }
                    let Some(fd) = md.field(f) else { return Want::Err };
                    let cur = new.get(f).cloned().unwrap_or(V::N);
                    if cur == V::N && *o != AOp::Set {
                        return Want::Err;
                    }
                    match arith(fd, &cur, *o, x) {
                        Some(n) => {
                            new.insert(f.clone(), n);
                        }
                        None => return Want::Err,
                    }
                }
                let md = Rc::make_mut(md);
                md.rows.insert(v.clone(), new);
                Want::Is(R::Empty)
            }
            St::Delete { m, k, v } => {
                let Some(md) = self.ent(client, m).and_then(|k| self.models.get_mut(&k)) else {
                    return Want::Err;
                };
                if !md.key_ok(k, v) || !md.rows.contains_key(v) {
                    return Want::Err;
                }
                Rc::make_mut(md).rows.remove(v);
                Want::Is(R::Empty)
            }
            St::InspectGlobal => Want::Global {
                spaces: self.spaces.keys().cloned().collect(),
                users: if root { Some(self.users.keys().cloned().collect()) } else { None },
            },
            St::InspectSpace(s) => {
                if !self.spaces.contains_key(s) {
                    return Want::Err;
                }
                Want::Space {
                    models: self.models.keys().filter(|(x, _)| x == s).map(|(_, m)| m.clone()).collect(),
                }
            }
            St::InspectModel(m) => match self.ent(client, m).and_then(|k| self.models.get(&k)) {
                Some(md) => Want::Is(R::Str(md.inspect())),
                None => Want::Err,
            },
            St::Use(None) => {
                self.cs.remove(&client);
                Want::Is(R::Empty)
            }
            St::Use(Some(s)) => {
                if !self.spaces.contains_key(s) {
                    return Want::Err;
                }
                self.cs.insert(client, s.clone());
                Want::Is(R::Empty)
            }
            St::UseCurrent => match self.cs.get(&client).cloned() {
                None => Want::Is(R::Null),
                Some(s) if self.spaces.contains_key(&s) => Want::Is(R::Str(s)),
                Some(_) => {
                    self.cs.remove(&client);
                    Want::Err
                }
            },
            St::CreateUser { u, p } => {
                if self.users.contains_key(u) || !password_ok(p) {
                    return Want::Err;
                }
                self.users.insert(u.clone(), p.clone());
                Want::Is(R::Empty)
            }
            // (root's own password comes from the configuration)
            St::AlterUser { u, p } => {
                if u == ROOT || !password_ok(p) {
                    return Want::Err;
                }
                match self.users.get_mut(u) {
                    Some(x) => {
                        *x = p.clone();
                        Want::Is(R::Empty)
                    }
                    None => Want::Err,
                }
            }
            St::DropUser { u } => {
                if u == user || self.users.remove(u).is_none() {
                    return Want::Err;
                }
                Want::Is(R::Empty)
            }
            St::RootPw(p) => {
                self.users.insert(ROOT.into(), p.clone());
                Want::Is(R::Empty)
            }
            St::Status => Want::Is(R::Empty),
            St::Login { u, p } => {
                self.cs.remove(&client);
                if self.users.get(u) == Some(p) {
                    Want::Is(R::Empty)
                } else {
                    Want::Err
                }
            }
            St::Junk(_) | St::Bad(..) => Want::Err,
            St::Odd(..) => Want::Whatever,
        }
    }
    fn insert(md: &mut Rc<Mdl>, pairs: Vec<(String, V)>) -> Want {
        if pairs.len() != md.fields.len() {
            return Want::Err;
        }
        let mut row = Row::new();
        let mut key = None;
        for (n, v) in pairs {
            let Some(f) = md.field(&n) else { return Want::Err };
            if !(v == V::N && f.null || f.ty.accepts(&v)) {
                return Want::Err;
            }
            if n == md.pk {
                key = Some(v);
            } else {
                row.insert(n, v);
            }
        }
        let Some(key) = key else { return Want::Err };
        if row.len() + 1 != md.fields.len() || md.rows.contains_key(&key) {
            return Want::Err;
        }
        Rc::make_mut(md).rows.insert(key, row);
        Want::Is(R::Empty)
    }
}
/// what the password hash can tell apart
pub fn password_ok(p: &str) -> bool {
    !p.is_empty() && !p.contains('\0') && p.len() <= 72
}
