//! Generates plans. Everything is drawn from one PRNG seeded by (profile, seed).
use crate::{model::*, plan::*, val::*};
use simrt::rng::{mix2, Rng};

pub const ROOTP: &str = crate::exec::ROOT_PWD;
const MS: u64 = 1_000_000;
const SEC: u64 = 1_000_000_000;

/// relative weights of statement kinds
#[derive(Clone, Default)]
pub struct W {
    pub space: u32,
    pub model: u32,
    pub drop: u32,
    pub alter: u32,
    pub insert: u32,
    pub update: u32,
    pub delete: u32,
    pub select: u32,
    pub select_all: u32,
    pub inspect: u32,
    pub use_: u32,
    pub user: u32,
    pub junk: u32,
    pub status: u32,
}

pub struct G {
    pub r: Rng,
    pub db: Db,
    uniq: u64,
    /// probability of a deliberately wrong statement
    pub wrong: f64,
    /// number of keys per model, and who may write which: key % nwriters == writer
    pub keys: u64,
    pub nwriters: u64,
    pub nspaces: u64,
    pub nmodels: u64,
    pub max_fields: u64,
    pub lists: bool,
    /// do not declare fields of these shapes
    /// some values are longer than the buffers
    pub big: bool,
    pub plain: bool,
    /// users and passwords that were named so far
    pws: Vec<(String, String)>,
}

fn h(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3))
}

impl G {
    fn new(profile: &str, seed: u64) -> G {
        let mut r = Rng::new(mix2(h(profile), seed));
        let db = Db::fresh(ROOTP);
        let keys = 2 + r.below(8);
        G {
            r,
            db,
            uniq: 0,
            wrong: 0.05,
            keys,
            nwriters: 1,
            nspaces: 2,
            nmodels: 3,
            max_fields: 5,
            big: false,
            lists: true,
            plain: false,
            pws: vec![],
        }
    }
    fn u(&mut self) -> u64 {
        self.uniq += 1;
        self.uniq
    }
    fn ch(&mut self, p: f64) -> bool {
        self.r.chance(p)
    }
    fn text(&mut self) -> String {
        let n = self.u();
        if self.ch(0.02) {
            return UUID.into();
        }
        if self.big && self.ch(0.1) {
            let l = self.big_len();
            return format!("{n}-").repeat(l)[..l].into();
        }
        match self.r.below(12) {
            0 => String::new(),
            1 => format!("line\nbreak {n}"),
            2 => format!("ünï→{n}"),
            3 => format!("{n}").repeat(1 + self.r.idx(80)),
            _ => format!("v{n}"),
        }
    }
    /// around the size of the buffers
    fn big_len(&mut self) -> usize {
        match self.r.below(4) {
            0 => 8185 + self.r.idx(16),
            1 => 8000 + self.r.idx(400),
            2 => 16370 + self.r.idx(20),
            _ => 1000 + self.r.idx(30000),
        }
    }
    pub fn val0(&mut self, t: T0) -> V {
        let n = self.u();
        let edge = self.ch(0.12);
        match t {
            T0::U32 | T0::U64 if self.ch(0.02) => V::U(TIMESEC),
            T0::Bin if self.ch(0.02) => V::X(uuid_bytes()),
            T0::Bin if self.big && self.ch(0.1) => {
                let l = self.big_len();
                V::X(n.to_le_bytes().repeat(l / 8 + 1)[..l].to_vec())
            }
            T0::Bool => V::B(self.r.below(2) == 0),
            T0::U8 => V::U(if edge { *self.r.pick(&[0, 255]) } else { n % 256 }),
            T0::U16 => V::U(if edge { *self.r.pick(&[0, 65535, 256]) } else { n % 65536 }),
            T0::U32 => V::U(if edge { *self.r.pick(&[0, u32::MAX as u64, 65536]) } else { n }),
            T0::U64 => V::U(if edge { *self.r.pick(&[0, u64::MAX, 1 << 32]) } else { n }),
            T0::S8 => V::S(if edge { *self.r.pick(&[0, -128, 127]) } else { (n % 256) as i64 - 128 }),
            T0::S16 => V::S(if edge { *self.r.pick(&[0, -32768, 32767]) } else { (n % 60000) as i64 - 30000 }),
            T0::S32 => V::S(if edge {
                *self.r.pick(&[0, i32::MIN as i64, i32::MAX as i64])
            } else {
                n as i64 - 1000
            }),
            T0::S64 => V::S(if edge { *self.r.pick(&[0, i64::MIN, i64::MAX]) } else { n as i64 - 1000 }),
            T0::F32 => fl(n as f64 * 0.25 - 50.0),
            T0::F64 => {
                if edge {
                    fl(*self.r.pick(&[0.0, 1e300, -1e-300, f64::MAX]))
                } else {
                    fl(n as f64 * 0.5 - 100.0)
                }
            }
            T0::Bin => {
                let mut v = n.to_le_bytes()[..1 + self.r.idx(4)].to_vec();
                if edge {
                    v.extend([10, 0, 255, 13]);
                }
                V::X(v)
            }
            T0::Str => V::T(self.text()),
        }
    }
    pub fn val(&mut self, t: Ty) -> V {
        if t.list == 0 {
            return self.val0(t.base);
        }
        let inner = Ty { list: t.list - 1, base: t.base };
        let n = if self.ch(0.1) { self.r.below(12) } else { self.r.below(4) };
        V::L((0..n).map(|_| self.val(inner)).collect())
    }
    fn bad_val(&mut self, f: &FieldDef) -> V {
        // out of range or of another type
        match (f.ty.list, f.ty.base, self.r.below(3)) {
            (0, T0::U8, 0 | 1) => V::U(256),
            (0, T0::U16, 0 | 1) => V::U(65536),
            (0, T0::U32, 0 | 1) => V::U(1 << 32),
            (0, T0::S8, 0 | 1) => V::S(128),
            (0, T0::S16, 0 | 1) => V::S(-32769),
            (0, T0::S32, 0 | 1) => V::S(1 << 31),
            (l, b, 0) if l > 0 && b != T0::Str => V::L(vec![V::T("x".into())]),
            (_, _, 1) if !f.null => V::N,
            _ => {
                let t = *self.r.pick(&ALL_T0);
                self.val0(t)
            }
        }
    }
    pub fn key(&mut self, t: T0, writer: u64) -> V {
        let n = self.nwriters.max(1);
        let slots = (self.keys / n).max(1);
        let i = self.r.below(slots) * n + writer % n;
        key_of(t, i)
    }
    fn ty(&mut self, lists: bool) -> Ty {
        let base = *self.r.pick(&ALL_T0);
        let list = if lists && self.ch(0.15) { 1 + self.ch(0.2) as u8 } else { 0 };
        Ty { list, base }
    }
    fn sp(&mut self) -> String {
        format!("s{}", self.r.below(self.nspaces))
    }
    fn m(&mut self) -> String {
        format!("m{}", self.r.below(self.nmodels))
    }
    pub fn any_model(&mut self) -> Option<(String, String)> {
        let ks: Vec<_> = self.db.models.keys().cloned().collect();
        if ks.is_empty() {
            None
        } else {
            Some(self.r.pick(&ks).clone())
        }
    }
    fn env(&mut self) -> Env {
        let n = self.r.below(3);
        self.dict(n, 0)
    }
    fn dict(&mut self, n: u64, depth: u32) -> Env {
        let mut e: Env = vec![];
        for _ in 0..n {
            let k = format!("p{}", self.r.below(3));
            if e.iter().any(|x| x.0 == k) {
                continue;
            }
            let t = *self.r.pick(&[T0::Str, T0::U64, T0::Bool, T0::Str, T0::S64, T0::F64, T0::Bin]);
            let v = if self.ch(0.15) {
                V::N
            } else if depth < 3 && self.ch(0.2) {
                let n = self.r.below(4);
                of_env(self.dict(n, depth + 1))
            } else {
                self.val0(t)
            };
            e.push((k, v));
        }
        e
    }
    pub fn fields(&mut self) -> Vec<FieldDef> {
        let n = 2 + self.r.below(self.max_fields - 1);
        let pkpos = if self.ch(0.6) { 0 } else { self.r.below(n) };
        (0..n)
            .map(|i| {
                let pk = i == pkpos;
                let lists = self.lists;
                let ty = if pk { ty(*self.r.pick(&PKT)) } else { self.ty(lists) };
                FieldDef {
                    name: if pk { "k".into() } else { format!("f{i}") },
                    ty,
                    null: !pk && self.ch(0.35),
                    pk: pk && !(i == 0 && self.ch(0.5)),
                }
            })
            .collect()
    }
    fn ent(&mut self, client: u32, k: &(String, String), ddl: bool) -> Ent {
        if !ddl && self.db.cs.get(&client) == Some(&k.0) && self.ch(0.7) {
            Ent(None, k.1.clone())
        } else {
            ent(&k.0, &k.1)
        }
    }
    pub fn stmt(&mut self, client: u32, user: &str, w: &W, writer: u64) -> St {
        let st = self.stmt0(client, w, writer);
        self.db.apply(client, user, &st);
        st
    }
    fn stmt0(&mut self, client: u32, w: &W, writer: u64) -> St {
        let ws = [
            w.space, w.model, w.drop, w.alter, w.insert, w.update, w.delete, w.select, w.select_all, w.inspect,
            w.use_, w.user, w.junk, w.status,
        ];
        let total: u32 = ws.iter().sum();
        let mut x = self.r.below(total.max(1) as u64) as u32;
        let mut kind = 0;
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                kind = i;
                break;
            }
            x -= w;
        }
        // data statements need a model
        if (3..=8).contains(&kind) && self.db.models.is_empty() && !self.ch(0.1) {
            if w.model == 0 {
                return St::Status;
            }
            kind = 1;
        }
        if kind == 1 && self.db.spaces.is_empty() && w.space > 0 {
            kind = 0;
        }
        let wrong = self.ch(self.wrong);
        match kind {
            0 => {
                let s = self.sp();
                let env = if self.ch(0.4) { Some(self.env()) } else { None };
                if self.db.spaces.contains_key(&s) && self.ch(0.7) && !wrong {
                    if self.ch(0.1) {
                        return St::AlterSpace { s, env: None };
                    }
                    return St::AlterSpace { s, env: Some(self.env()) };
                }
                St::CreateSpace { s, ine: self.ch(0.3), env }
            }
            1 => {
                let sps: Vec<String> = self.db.spaces.keys().cloned().collect();
                let s = if sps.is_empty() || wrong { self.sp() } else { self.r.pick(&sps).clone() };
                let m = self.m();
                let mut f = self.fields();
                if wrong {
                    match self.r.below(4) {
                        0 => f.push(f[0].clone()),
                        1 => {
                            for x in &mut f {
                                x.pk = true
                            }
                        }
                        2 => {
                            for x in &mut f {
                                x.null = true
                            }
                        }
                        _ => {
                            for x in &mut f {
                                x.ty = ty(T0::Bool)
                            }
                        }
                    }
                }
                St::CreateModel { m: ent(&s, &m), ine: self.ch(0.25), f }
            }
            2 => {
                if self.ch(0.3) {
                    let s = self.sp();
                    return St::DropSpace { s, force: self.ch(0.5), ie: self.ch(0.3) };
                }
                let (s, m) = if wrong { (self.sp(), self.m()) } else { self.any_model().unwrap_or(("s0".into(), "m0".into())) };
                St::DropModel { m: ent(&s, &m), force: self.ch(0.6), ie: self.ch(0.3) }
            }
            3 => {
                let Some(k) = self.any_model() else { return St::AlterRemove { m: ent("s0", "m0"), f: vec!["f0".into()] } };
                self.alter(&k, wrong)
            }
            9 => match self.r.below(4) {
                0 => St::InspectGlobal,
                1 => St::InspectSpace(self.sp()),
                _ => {
                    let k = self.any_model().unwrap_or(("s0".into(), "m0".into()));
                    if wrong {
                        St::InspectModel(ent("s0", "m9"))
                    } else {
                        St::InspectModel(self.ent(client, &k, false))
                    }
                }
            },
            10 => match self.r.below(5) {
                0 => St::UseCurrent,
                _ if self.db.cs.get(&client).map_or(false, |s| !self.db.spaces.contains_key(s)) && self.ch(0.6) => St::UseCurrent,
                1 if self.ch(0.5) => St::Use(None),
                _ => {
                    let s = self.sp();
                    St::Use(Some(s))
                }
            },
            11 => {
                let u = format!("u{}", self.r.below(3));
                match self.r.below(6) {
                    4 | 5 => St::AlterUser { u: if wrong { "root".into() } else { u }, p: self.password("changed") },
                    0 | 1 => St::DropUser { u: if wrong { "root".into() } else { u } },
                    _ => {
                        let p = self.password("password");
                        St::CreateUser { u, p }
                    }
                }
            }
            12 if self.ch(0.25) => {
                // a good statement which ends too early, or goes on after its end
                let Some(k) = self.any_model() else { return St::Junk(self.junk()) };
                let st = self.dml(client, 4, &k, false, writer);
                let q = st.query();
                let mut t = q.text.trim_end().to_string();
                match self.r.below(4) {
                    0 => t.push_str(" zz"),
                    x => {
                        t.pop();
                        if x == 1 && matches!(st, St::Insert { .. } | St::InsertMap { .. }) {
                            t.push(',');
                        }
                    }
                }
                St::Bad(t, q.params)
            }
            12 => match self.r.below(10) {
                0 | 1 => St::Junk(self.junk()),
                2..=4 => self.refused(),
                _ => self.odd(),
            },
            13 => St::Status,
            _ => {
                let Some(k) = self.any_model() else {
                    return St::Select { m: ent("s0", "m0"), f: None, k: "k".into(), v: V::U(1) };
                };
                self.dml(client, kind, &k, wrong, writer)
            }
        }
    }
    /// well-formed statements that ask for something that can't be
    fn refused(&mut self) -> St {
        const S: &[u8] = b"\x066\nabcdef";
        const I: &[u8] = b"\x025\n";
        let t: [(&str, &[&[u8]]); 32] = [
            ("sysctl create user zq with { password: ?, more: ? }", &[S, I]),
            ("sysctl create user zq with { more: ?, password: ? }", &[I, S]),
            ("sysctl create user zq with { password: ? }", &[I]),
            ("sysctl create user zq with { password: { a: ? } }", &[S]),
            ("sysctl create user zq with { }", &[]),
            ("sysctl create user zq", &[]),
            ("sysctl create user zq with { passwort: ? }", &[S]),
            ("sysctl alter user root with { password: ? }", &[S]),
            ("sysctl create user root with { password: ? }", &[S]),
            ("sysctl drop user root", &[]),
            ("create space zq with { other: ? }", &[I]),
            ("create space zq with { env: ? }", &[I]),
            ("create space zq with { env: { }, other: null }", &[]),
            ("create space if not exists zq with { other: { } }", &[]),
            ("create model s0.zq(primary k: uint64, k: string)", &[]),
            ("create model s0.zq(k: uint64, f: string, f: string)", &[]),
            ("create model s0.zq(k: float32, f: string)", &[]),
            ("create model s0.zq(primary k: bool, f: string)", &[]),
            ("create model s0.zq(f: string, primary k: list { type: string })", &[]),
            ("create model s0.zq(primary k: uint64, primary f: string)", &[]),
            ("create model s0.zq(primary k: uint128, f: string)", &[]),
            ("create model s0.zq(primary k: uint64, f: list)", &[]),
            ("create model s0.zq(primary k: uint64, f: string { type: string })", &[]),
            ("create model s0.zq(primary k: uint64, f: list { type: string, other: ? })", &[I]),
            ("create model s0.zq(primary k: uint64, f: string) with { a: ? }", &[I]),
            ("create model if not exists s0.zq(primary k: uint64, primary f: string)", &[]),
            ("alter space s0 with { other: ? }", &[I]),
            ("alter space s0 with { env: ? }", &[I]),
            ("alter model s0.m0 add k { type: string }", &[]),
            ("alter model s0.m0 remove k", &[]),
            ("alter model s0.m0 update k { type: uint64 }", &[]),
            ("alter model s0.m0 add f8 { type: string, nullable: ? }", &[I]),
        ];
        let (q, p) = t[self.r.idx(t.len())];
        St::Bad(q.into(), p.concat())
    }
    pub fn junk(&mut self) -> String {
        let t = [
            "",
            "selec",
            "create",
            "create model",
            "drop space",
            "insert into s0.m0",
            "insert into s0.m0(",
            "select * from",
            "select all * from s0.m0",
            "update s0.m0 set",
            "delete from s0.m0",
            "delete from s0.m0 where",
            "alter model s0.m0 add",
            "alter model s0.m0 remove (",
            "create space 1",
            "use",
            "use 5",
            "inspect",
            "inspect model",
            "sysctl",
            "sysctl report",
            "sysctl create user",
            "((((((((",
            "insert into s0.m0(?, ?, ?)",
            "select * from s0.m0 where k = ?",
            "create model s0.x(primary: string)",
            "\u{7f}\u{1}",
            "üñí",
            "create space s0 with { env: { a: { } } } }",
            "use s0 use s0",
            "inspect global global",
            "begin",
        ];
        self.r.pick(&t).to_string()
    }
    /// a statement with its tokens mixed up; it names only things that do not exist
    pub fn odd(&mut self) -> St {
        let t = [
            "select * from zz . q where k = ?",
            "select k , f1 from zz . q where k = ?",
            "select * from q where k = ?",
            "select all * from zz . q limit ?",
            "select all k , f0 from q limit 5",
            "insert into zz . q ( ? , [ ? , 4 , [ ] ] , null , 'abc' , true , - 5 , 1.5 )",
            "insert into zz . q { k : ? , f0 : [ ? ] , f1 : null }",
            "insert into q ( ? )",
            "update zz . q set f0 = ? , f1 += 5 , f2 -= 1.5 where k = ?",
            "update q set f0 = [ ] where k = ?",
            "delete from zz . q where k = ?",
            "delete from q where k = 5",
            "create model zz . q ( primary k : uint64 , null f0 : list { type : list { type : string } } , f1 : string ) with { a : 1 }",
            "create model if not exists zz . q ( k : string , null f0 : uint8 , f1 : bool )",
            "alter model zz . q add f5 { type : string , nullable : true }",
            "alter model zz . q add ( f5 { type : string } , f6 { type : list { type : uint8 } , nullable : false } )",
            "alter model zz . q update f5 { nullable : true , type : uint64 }",
            "alter model zz . q remove ( f1 , f2 )",
            "alter space zz with { env : { a : 1 , b : { c : 'x' , d : [ 1 ] } } }",
            "drop space if exists allow not empty zz",
            "drop model if exists allow not empty zz . q",
            "inspect model zz . q",
            "inspect space zz",
            "inspect global",
            "sysctl report status",
            "sysctl drop user zz",
            "sysctl alter user zz with { password : 'abcdefghijklmnopqrstuvwxyz' }",
        ];
        let pool = [
            ".", ",", "(", ")", "{", "}", "[", "]", ":", "=", "?", "*", "+=", "-=", "-", "where", "from", "into", "set", "limit", "null", "primary",
            "type", "list", "uint8", "true", "0", "-1", "1.5", "'s'", "\"s\"", "'", "\"", "`b`", "18446744073709551616", "99999999999999999999999999", "zz", "q",
            "k", "f0", "if", "not", "exists", "allow", "empty", "model", "all", "@", "$", "!", ";", "\\", "\u{0}", "ü", "-", "--", "/", "1e5", ".5", "0x1", "'\\n'", "'\\",
        ];
        let src = self.r.pick(&t).to_string();
        let mut w: Vec<String> = src.split(' ').map(|x| x.to_string()).collect();
        for _ in 0..self.r.below(4) {
            if w.len() < 2 {
                break;
            }
            // (the first word stays)
            let i = 1 + self.r.idx(w.len() - 1);
            match self.r.below(6) {
                0 | 1 => w.truncate(i.max(1)),
                2 => {
                    w.remove(i);
                }
                3 => w[i] = self.r.pick(&pool).to_string(),
                4 => {
                    let x = self.r.pick(&pool).to_string();
                    w.insert(i, x);
                }
                _ => {
                    let j = 1 + self.r.idx(w.len() - 1);
                    w.swap(i, j);
                }
            }
        }
        let sep = if self.ch(0.2) { "" } else { " " };
        let mut text = w[0].clone();
        for x in &w[1..] {
            let glue = sep == "" && (text.ends_with(|c: char| !c.is_alphanumeric()) || x.starts_with(|c: char| !c.is_alphanumeric()));
            if !glue {
                text.push(' ');
            }
            text.push_str(x);
        }
        let mut p = vec![];
        let n = if self.ch(0.7) { src.matches('?').count() } else { self.r.idx(4) };
        for _ in 0..n {
            let c: [&[u8]; 9] = [b"\x025\n", b"\x03-5\n", b"\x061\nx", b"\x060\n", b"\x051\nx", b"\x00", b"\x01\x01", b"\x041.5\n", b"\x0218446744073709551615\n"];
            p.extend_from_slice(c[self.r.idx(c.len())]);
        }
        if self.ch(0.03) && !p.is_empty() {
            p.pop();
        }
        if w[0] == "create" && w.get(1).map_or(true, |x| x != "model") {
            return St::Junk("create".into());
        }
        St::Odd(text, p)
    }
    fn alter(&mut self, k: &(String, String), wrong: bool) -> St {
        let md = self.db.models[k].clone();
        let m = ent(&k.0, &k.1);
        let non: Vec<FieldDef> = md.fields.iter().filter(|f| f.name != md.pk).cloned().collect();
        match self.r.below(3) {
            0 => {
                let mut f = vec![];
                let n = 1 + self.ch(0.3) as u64;
                for _ in 0..n {
                    let free: Vec<u64> = (0..9)
                        .filter(|i| {
                            let n = format!("f{i}");
                            md.field(&n).is_none() && !f.iter().any(|x: &FieldDef| x.name == n)
                        })
                        .collect();
                    if free.is_empty() {
                        break;
                    }
                    let i = *self.r.pick(&free);
                    let lists = self.lists;
                    let ty = self.ty(lists);
                    f.push(FieldDef { name: format!("f{i}"), ty, null: self.ch(0.7), pk: false });
                }
                if wrong && !non.is_empty() {
                    f.push(self.r.pick(&non).clone());
                }
                if f.is_empty() {
                    return St::AlterRemove { m, f: vec!["f9".into()] };
                }
                St::AlterAdd { m, f }
            }
            1 => {
                let mut f: Vec<String> = vec![];
                for x in &non {
                    if self.ch(0.3) {
                        f.push(x.name.clone());
                    }
                }
                if f.is_empty() && !non.is_empty() {
                    f.push(self.r.pick(&non).name.clone());
                }
                if wrong || f.is_empty() {
                    f.push(if self.ch(0.5) { md.pk.clone() } else { "nope".into() });
                }
                if self.ch(0.5) {
                    f.reverse();
                }
                St::AlterRemove { m, f }
            }
            _ => {
                if non.is_empty() {
                    return St::AlterUpdate {
                        m,
                        f: vec![FieldDef { name: "nope".into(), ty: ty(T0::Str), null: true, pk: false }],
                    };
                }
                let mut f = vec![];
                let first = self.r.idx(non.len());
                for (i, x) in non.iter().enumerate() {
                    if i != first && !self.ch(0.2) {
                        continue;
                    }
                    let mut x = x.clone();
                    x.pk = false;
                    if wrong && self.ch(0.5) {
                        x.ty = self.ty(true);
                        x.null = self.ch(0.5);
                    } else {
                        // widen
                        let wider: Vec<T0> = ALL_T0
                            .iter()
                            .cloned()
                            .filter(|t| t.class() == x.ty.base.class() && (1..=3).contains(&t.class()) && *t > x.ty.base)
                            .collect();
                        if !wider.is_empty() {
                            x.ty.base = *self.r.pick(&wider);
                        } else {
                            x.null = true;
                        }
                        if self.ch(0.3) {
                            x.null = true;
                        }
                    }
                    f.push(x);
                }
                St::AlterUpdate { m, f }
            }
        }
    }
    fn row(&mut self, md: &Mdl, writer: u64, wrong: bool) -> Vec<(String, V)> {
        let bad = if wrong { self.r.idx(md.fields.len()) } else { usize::MAX };
        let fs = md.fields.clone();
        let mut v: Vec<(String, V)> = fs
            .iter()
            .enumerate()
            .map(|(i, f)| {
                let x = if f.name == md.pk {
                    if i == bad && self.ch(0.5) {
                        self.bad_val(f)
                    } else {
                        self.key(f.ty.base, writer)
                    }
                } else if i == bad {
                    self.bad_val(f)
                } else if f.null && self.ch(0.25) {
                    V::N
                } else {
                    self.val(f.ty)
                };
                (f.name.clone(), x)
            })
            .collect();
        if wrong && self.ch(0.2) {
            v.pop();
        }
        v
    }
    pub fn dml(&mut self, client: u32, kind: usize, k: &(String, String), wrong: bool, writer: u64) -> St {
        let md = self.db.models[k].clone();
        let m = self.ent(client, k, false);
        let pkt = md.field(&md.pk).unwrap().ty.base;
        let any_writer = self.r.below(self.nwriters.max(1));
        // mostly existing keys for reads and changes
        let existing: Vec<V> = md
            .rows
            .keys()
            .filter(|x| (0..self.keys).any(|i| i % self.nwriters.max(1) == writer % self.nwriters.max(1) && key_of(pkt, i) == **x))
            .cloned()
            .collect();
        match kind {
            4 => {
                let mut v = self.row(&md, writer, wrong);
                if self.ch(0.4) && !v.is_empty() {
                    let n = v.len();
                    if self.ch(0.5) {
                        v.rotate_left(self.r.idx(n));
                    }
                    St::InsertMap { m, v }
                } else {
                    St::Insert { m, v: v.into_iter().map(|x| x.1).collect() }
                }
            }
            5 => {
                let non: Vec<FieldDef> = md.fields.iter().filter(|f| f.name != md.pk).cloned().collect();
                let key = if !existing.is_empty() && self.ch(0.85) {
                    self.r.pick(&existing).clone()
                } else {
                    self.key(pkt, writer)
                };
                if non.is_empty() {
                    return St::Delete { m, k: md.pk.clone(), v: key };
                }
                let cur = md.rows.get(&key).cloned().unwrap_or_default();
                let n = 1 + if self.ch(0.35) { self.r.idx(3) } else { 0 };
                let mut set = vec![];
                for i in 0..n {
                    let f = self.r.pick(&non).clone();
                    let c = cur.get(&f.name).cloned().unwrap_or(V::N);
                    let bad = wrong && (i == n - 1 || self.ch(0.3));
                    if bad && self.ch(0.2) {
                        set.push((if self.ch(0.5) { md.pk.clone() } else { "nope".into() }, AOp::Set, self.val(f.ty)));
                        continue;
                    }
                    if bad {
                        let op = *self.r.pick(&[AOp::Set, AOp::Add, AOp::Sub, AOp::Mul, AOp::Div]);
                        let v = if f.ty.list > 0 { self.val0(T0::Bool) } else { self.bad_val(&f) };
                        set.push((f.name.clone(), op, if v == V::N { V::U(1 << 40) } else { v }));
                        continue;
                    }
                    if f.ty.list > 0 {
                        if c == V::N || f.ty.list > 1 {
                            continue;
                        }
                        set.push((f.name.clone(), AOp::Add, self.val0(f.ty.base)));
                        continue;
                    }
                    let op = if c == V::N || self.ch(0.5) {
                        AOp::Set
                    } else {
                        match f.ty.class() {
                            0 => AOp::Set,
                            1 | 2 => *self.r.pick(&[AOp::Add, AOp::Sub, AOp::Mul, AOp::Div]),
                            3 => *self.r.pick(&[AOp::Add, AOp::Sub]),
                            _ => AOp::Add,
                        }
                    };
                    let v = if op == AOp::Set {
                        self.val(f.ty)
                    } else {
                        match f.ty.class() {
                            1 => V::U(1 + self.r.below(5)),
                            2 => V::S(1 + self.r.below(5) as i64),
                            3 => fl(self.r.below(9) as f64 * 0.5),
                            4 => V::X(vec![self.r.below(256) as u8]),
                            _ => V::T(format!("+{}", self.u())),
                        }
                    };
                    set.push((f.name.clone(), op, v));
                }
                if set.is_empty() {
                    return St::Select { m, f: None, k: md.pk.clone(), v: key };
                }
                St::Update { m, set, k: md.pk.clone(), v: key }
            }
            6 => {
                let key = if !existing.is_empty() && self.ch(0.8) {
                    self.r.pick(&existing).clone()
                } else {
                    self.key(pkt, writer)
                };
                St::Delete { m, k: md.pk.clone(), v: key }
            }
            7 => {
                let all: Vec<V> = md.rows.keys().cloned().collect();
                let key = if !all.is_empty() && self.ch(0.8) { self.r.pick(&all).clone() } else { self.key(pkt, any_writer) };
                let f = self.proj(&md, wrong);
                if wrong && self.ch(0.3) {
                    let t = *self.r.pick(&ALL_T0);
                    return St::Select { m, f, k: md.pk.clone(), v: self.val0(t) };
                }
                let k = if wrong && self.ch(0.3) { "nope".into() } else { md.pk.clone() };
                St::Select { m, f, k, v: key }
            }
            _ => {
                let f = self.proj(&md, wrong);
                let limit = if self.ch(0.7) { 1000 } else { self.r.below(5) };
                St::SelectAll { m, f, limit }
            }
        }
    }
    fn proj(&mut self, md: &Mdl, wrong: bool) -> Option<Vec<String>> {
        if self.ch(0.6) {
            return None;
        }
        let mut v: Vec<String> = md.fields.iter().map(|f| f.name.clone()).collect();
        let n = v.len();
        if self.ch(0.5) {
            v.rotate_left(self.r.idx(n));
        }
        v.truncate(1 + self.r.idx(n));
        if self.ch(0.1) {
            // the same field more than once, possibly more fields than there are
            for _ in 0..1 + self.r.idx(n + 1) {
                let x = self.r.pick(&v).clone();
                v.push(x);
            }
        }
        if wrong {
            v[0] = "nope".into();
        }
        Some(v)
    }

    /* -------------------------------------------------------- knobs */

    pub fn sched(&mut self, max_steps: u64) -> Sched {
        let seed = self.r.next();
        let mut p = [0.0; 7];
        for x in p.iter_mut() {
            *x = *self.r.pick(&[0.0, 0.01, 0.05, 0.2, 0.5]);
        }
        // never run without any preemption of tasks and I/O
        p[4] = f64::max(p[4], 0.05);
        p[5] = f64::max(p[5], 0.1);
        p[6] = f64::max(p[6], 0.1);
        let pct = self.ch(0.35);
        Sched {
            seed,
            p,
            pct_depth: if pct { 1 + self.r.below(8) as u32 } else { 0 },
            pct_len: *self.r.pick(&[500, 3000, 20000]),
            tick: *self.r.pick(&[100, 1000, 20_000]),
            max_steps,
            p_stall: if self.ch(0.3) { *self.r.pick(&[0.01, 0.05, 0.2]) } else { 0.0 },
            stall_len: *self.r.pick(&[0, 50, 500, 5000]),
        }
    }
    pub fn calm(&mut self) -> Sched {
        let seed = self.r.next();
        Sched { seed, p: [0.0, 0.0, 0.0, 0.0, 0.1, 0.1, 0.2], pct_depth: 0, pct_len: 1, tick: 1000, max_steps: 6_000_000, p_stall: 0.0, stall_len: 0 }
    }
    pub fn net(&mut self) -> NetP {
        let frag = self.ch(0.2);
        NetP {
            delay: *self.r.pick(&[1000, 50_000, MS]),
            p_frag: if frag { 0.2 } else { 0.0 },
            cap: *self.r.pick(&[65536, 4096]),
            cut: if frag { 0.3 } else { 0.0 },
            gap: 10_000,
        }
    }
    pub fn boot(&mut self) -> Boot {
        let slow = self.ch(0.2);
        Boot {
            tls: *self.r.pick(&[0, 0, 0, 0, 2]),
            window: 1 + self.r.below(3),
            free_ram: if self.ch(0.3) { *self.r.pick(&[1_000, 8_000, 30_000, 100_000]) } else { 8 << 30 },
            p_slow: if slow { 0.05 } else { 0.0 },
            slow_ns: if slow { *self.r.pick(&[100_000, 5 * MS, 100 * MS]) } else { 0 },
            p_short: if self.ch(0.15) { 0.1 } else { 0.0 },
            workers: if self.ch(0.3) { 1 + self.r.idx(4) } else { 0 },
        }
    }
    pub fn phase(&mut self, mut clients: Vec<Client>, end: End) -> Phase {
        for c in &mut clients {
            self.add_logins(c);
        }
        Phase {
            clients,
            faults: vec![],
            arm_boot: false,
            timed: vec![],
            settle: 0,
            arm_end: false,
            end,
            probe: false,
            second: false,
            rootp: None,
            tamper: vec![],
            v1: vec![],
        }
    }
    fn v1(&mut self) -> Vec<bool> {
        let p = *self.r.pick(&[0.0, 0.2, 0.6]);
        (0..7).map(|_| self.ch(p)).collect()
    }
    /// try who can log in after the statements that change it
    fn add_logins(&mut self, c: &mut Client) {
        let mut ops = vec![];
        for o in std::mem::take(&mut c.ops) {
            let mut who = None;
            if let Op::Q(st) = &o {
                match st {
                    St::CreateUser { u, p } | St::AlterUser { u, p } => {
                        self.pws.push((u.clone(), p.clone()));
                        who = Some(u.clone());
                    }
                    St::DropUser { u } => who = Some(u.clone()),
                    _ => {}
                }
            }
            ops.push(o);
            let Some(u) = who else { continue };
            while self.ch(0.4) {
                let known: Vec<_> = self.pws.iter().filter(|x| x.0 == u || self.pws.len() < 3).cloned().collect();
                if known.is_empty() {
                    break;
                }
                // most of the time the newest one
                let i = if self.ch(0.5) { known.len() - 1 } else { self.r.idx(known.len()) };
                ops.push(Op::Login(known[i].0.clone(), known[i].1.clone()));
            }
        }
        c.ops = ops;
    }
    pub fn root(&mut self, ops: Vec<Op>) -> Client {
        Client { user: ROOT.into(), pwd: ROOTP.into(), tls: self.ch(0.5), delay: 0, ops }
    }
    /// spaces and models to work with, made by one client
    pub fn setup_ops(&mut self, client: u32, nsp: u64, nm: u64, rows: u64) -> Vec<Op> {
        let mut v = vec![];
        for s in 0..nsp {
            let st = St::CreateSpace { s: format!("s{s}"), ine: false, env: None };
            self.db.apply(client, ROOT, &st);
            v.push(Op::Q(st));
        }
        for m in 0..nm {
            let s = format!("s{}", m % nsp);
            let f = self.fields();
            let st = St::CreateModel { m: ent(&s, &format!("m{m}")), ine: false, f };
            self.db.apply(client, ROOT, &st);
            v.push(Op::Q(st));
        }
        let w = W { insert: 1, ..W::default() };
        for i in 0..rows {
            let o = self.wrong;
            self.wrong = 0.0;
            let st = self.stmt(client, ROOT, &w, i);
            self.wrong = o;
            v.push(Op::Q(st));
        }
        v
    }
    /// several clients, generated in an interleaved fashion
    pub fn clients(&mut self, phase: u32, n: u64, ops: u64, w: &W, sleepy: f64) -> Vec<Client> {
        let mut cl: Vec<Client> = (0..n)
            .map(|_| {
                let mut c = self.root(vec![]);
                c.delay = if self.ch(0.5) { self.r.below(MS) } else { 0 };
                c
            })
            .collect();
        for _ in 0..ops {
            let i = self.r.idx(n as usize);
            if self.ch(sleepy) {
                cl[i].ops.push(self.pause());
            }
            if self.ch(0.02) {
                cl[i].ops.push(Op::Reconnect);
                self.db.cs.remove(&(phase * 100 + i as u32));
            }
            let st = self.stmt(phase * 100 + i as u32, ROOT, w, i as u64);
            cl[i].ops.push(Op::Q(st));
        }
        cl
    }
    /// let clients send some statements at once, so that no round trip lies between them
    fn pipe_up(&mut self, cl: &mut [Client], p: f64) {
        for c in cl.iter_mut() {
            let mut ops = vec![];
            let mut pipe = vec![];
            for o in c.ops.drain(..) {
                match o {
                    Op::Q(st) => {
                        pipe.push(st);
                        if self.ch(p) {
                            continue;
                        }
                    }
                    o => {
                        if !pipe.is_empty() {
                            ops.push(Op::Pipe(std::mem::take(&mut pipe)));
                        }
                        ops.push(o);
                        continue;
                    }
                }
                if pipe.len() == 1 {
                    ops.push(Op::Q(pipe.pop().unwrap()));
                } else {
                    ops.push(Op::Pipe(std::mem::take(&mut pipe)));
                }
            }
            if !pipe.is_empty() {
                ops.push(Op::Pipe(pipe));
            }
            c.ops = ops;
        }
    }
    /// a crash point: the nth operation of some kind
    pub fn crash_fault(&mut self, max: u64) -> Fault {
        let op = *self.r.pick(&["any", "any", "write", "fsync", "create", "trunc", "rename", "mkdir", "unlink"]);
        let path = *self.r.pick(&["", "", "", "gns", "btlog", "data"]);
        let m = match op {
            "any" => max,
            "write" => max / 2,
            "fsync" => max / 4,
            _ => max / 10,
        };
        let nth = 1 + self.r.below(m.max(2)) as u32;
        let power = self.ch(0.75);
        let kind = match self.r.below(3) {
            0 => FK::CrashBefore(power),
            1 => FK::CrashMid(power),
            _ => FK::CrashAfter(power),
        };
        Fault { op: op.into(), path: path.into(), nth, repeat: 1, kind }
    }
    /// an error of the disk
    pub fn io_fault(&mut self, max: u64) -> Fault {
        let op = *self.r.pick(&["any", "write", "write", "write", "fsync", "fsync", "create", "open", "trunc", "mkdir", "unlink", "rmdir", "rename"]);
        let path = *self.r.pick(&["", "", "gns", "btlog", "mdl_m0", "mdl_m1"]);
        let m = match op {
            "any" => max,
            "write" => max / 2,
            "fsync" => max / 4,
            _ => max / 12,
        };
        let nth = 1 + self.r.below(m.max(2)) as u32;
        let e = *self.r.pick(&[5, 28, 28, 122]);
        let kind = match (op, self.r.below(6)) {
            ("write", 0 | 1) => FK::Torn(e),
            ("write", 2) => FK::Short,
            ("fsync", 0) => FK::SyncLost,
            ("any", 0) => FK::Slow(self.r.below(5 * SEC)),
            _ => FK::Err(e),
        };
        let repeat = *self.r.pick(&[1, 1, 1, 2, 3, 8, 50, 100_000]);
        Fault { op: op.into(), path: path.into(), nth, repeat, kind }
    }
    /// bytes for a logged in session that no statement is made of
    pub fn garbage(&mut self) -> Vec<u8> {
        let base = match self.r.below(6) {
            0 => (0..1 + self.r.idx(60)).map(|_| self.r.below(256) as u8).collect(),
            1 => b"S99999999999999999999\n5\nabc".to_vec(),
            2 => {
                let n = *self.r.pick(&["0", "1", "2", "3", "18446744073709551615", "9223372036854775807", "4294967296", "-1", "", "00005"]);
                let m = *self.r.pick(&["0", "1", "4", "99", "18446744073709551615", "-5", ""]);
                format!("S{n}\n{m}\nselect * from s0.m0").into_bytes()
            }
            3 => if self.ch(0.3) { St::Junk(self.junk()).packet() } else { self.odd().packet() },
            4 => {
                // parameters that do not fit
                let q = "select * from s0.m0 where k = ?";
                let p: Vec<u8> = self.r.pick(&[
                    &b"\x02"[..], b"\x0299999999999999999999999\n", b"\x05", b"\x0599999999999\nab", b"\x06-1\n", b"\x07", b"\xff\xff", b"\x01", b"\x01\x05",
                    b"\x03-\n", b"\x04nan\n", b"\x04inf\n", b"\x0218446744073709551615\n", b"\x0518446744073709551615\nx", b"\x02\n", b"\x00\x00",
                ]).to_vec();
                let inner = format!("{}\n{q}", q.len());
                let mut v = format!("S{}\n{inner}", inner.len() + p.len()).into_bytes();
                v.extend(p);
                v
            }
            _ => St::Status.packet(),
        };
        // (a statement that is wrong may be put right by a change)
        let has = |w: &[u8]| base.windows(w.len()).any(|x| x.eq_ignore_ascii_case(w));
        if [&b"create"[..], b"alter", b"drop", b"insert", b"update", b"delete", b"sysctl"].iter().any(|w| has(w)) && !has(b"report") {
            return base;
        }
        self.mutate(base)
    }
    /// a packet like the one of this statement that can't be taken for it
    pub fn wrong_packet(&mut self, st: &St) -> Option<Vec<u8>> {
        let q = st.query();
        let mut total = format!("{}", format!("{}\n", q.text.len()).len() + q.text.len() + q.params.len());
        let mut win = format!("{}", q.text.len());
        let mut text = q.text.clone();
        let mut params = q.params.clone();
        let big = |n: &str| n.parse::<u128>().map(|n| format!("{}", n + (1u128 << 64))).unwrap_or_default();
        let spoil = |g: &mut G, n: &str| {
            let mut n = n.to_string();
            match g.r.below(3) {
                0 => n = big(&n),
                1 => n.insert(0, *g.r.pick(&['-', '+', ' ', 'x'])),
                _ => n.push(*g.r.pick(&['.', ' ', '-', 'a', '\r', '\0'])),
            }
            n
        };
        match self.r.below(5) {
            0 => total = spoil(self, &total),
            1 => win = spoil(self, &win),
            2 => {
                // the text ends behind the packet
                let l = win.len() + 1 + q.text.len() + q.params.len() + self.r.idx(3);
                win = format!("{l}");
                if win.len() != format!("{}", q.text.len()).len() {
                    return None;
                }
            }
            _ => {
                // where the parameters are
                let mut at: Vec<(usize, usize, u8)> = vec![];
                let mut i = 0;
                while i < params.len() {
                    let ty = params[i];
                    let nl = params[i..].iter().position(|b| *b == b'\n').map(|x| i + x);
                    let end = match ty {
                        0 => i + 1,
                        1 => i + 2,
                        2..=4 => nl? + 1,
                        _ => nl? + 1 + std::str::from_utf8(&params[i + 1..nl?]).ok()?.parse::<usize>().ok()?,
                    };
                    at.push((i, end, ty));
                    i = end;
                }
                if at.is_empty() {
                    return None;
                }
                let (i, end, ty) = at[self.r.idx(at.len())];
                let mut p = params[i..end].to_vec();
                match (ty, self.r.below(3)) {
                    (_, 0) => p[0] = *self.r.pick(&[7, 8, 255, b'"']),
                    (2 | 5 | 6, _) => {
                        let nl = p.iter().position(|b| *b == b'\n')?;
                        let n = big(std::str::from_utf8(&p[1..nl]).ok()?);
                        p.splice(1..nl, n.bytes());
                    }
                    (3, _) => {
                        let nl = p.iter().position(|b| *b == b'\n')?;
                        let n: i128 = std::str::from_utf8(&p[1..nl]).ok()?.parse().ok()?;
                        let n = format!("{}", if n < 0 { n - (1i128 << 64) } else { n + (1i128 << 64) });
                        p.splice(1..nl, n.bytes());
                    }
                    (1, _) => p[1] = 2 + self.r.below(250) as u8,
                    (4, _) => p.insert(p.len() - 1, b'z'),
                    _ => return None,
                }
                params.splice(i..end, p);
                total = format!("{}", win.len() + 1 + text.len() + params.len());
            }
        }
        let mut b = format!("S{total}\n{win}\n").into_bytes();
        b.append(&mut std::mem::take(&mut text).into_bytes());
        b.extend(params);
        Some(b)
    }
    fn mutate(&mut self, mut b: Vec<u8>) -> Vec<u8> {
        if self.ch(0.4) || b.is_empty() {
            return b;
        }
        for _ in 0..1 + self.r.below(3) {
            let i = self.r.idx(b.len());
            match self.r.below(5) {
                0 => b[i] = self.r.below(256) as u8,
                1 => b[i] ^= 1 << self.r.below(8),
                2 => {
                    b.truncate(i.max(1));
                }
                3 => b.insert(i, *self.r.clone().pick(&[b'\n', b'0', b'9', 0, 255])),
                _ => {
                    b.remove(i);
                    if b.is_empty() {
                        b.push(0);
                    }
                }
            }
        }
        b
    }
    /// a password, now and then one at the edge of what is possible
    pub fn password(&mut self, what: &str) -> String {
        let mut p = format!("{what}-number-{}", self.u());
        if self.ch(0.8) {
            return p;
        }
        match self.r.below(8) {
            0 => p.clear(),
            1 => p.insert(self.r.idx(p.len()), '\0'),
            2 => p.push('\0'),
            3 => p = p.replace('-', "ü€"),
            4 => p.insert_str(0, *self.r.pick(&[" ", "\t", "  "])),
            5 => p.push_str(*self.r.pick(&[" ", "\n", "\r\n", "  "])),
            n => {
                // as long as it may be, or more
                let l = if n == 6 { 72 } else { 73 + self.r.idx(200) };
                while p.len() < l {
                    p.push((b'a' + p.len() as u8 % 26) as char);
                }
            }
        }
        p
    }
    /// a connection that does not behave
    pub fn raw_op(&mut self) -> Op {
        let mut hs = true;
        let b = match self.r.below(8) {
            0 => vec![],
            1 => {
                hs = false;
                if self.ch(0.5) { vec![] } else { b"TL".to_vec() }
            }
            2 => {
                let b = crate::client::handshake_bytes(ROOT.as_bytes(), b"not-the-password-at-all");
                let mut b = b;
                // not to be executed
                b.extend(St::DropSpace { s: "s0".into(), force: true, ie: false }.packet());
                b
            }
            3 => {
                let b = crate::client::handshake_bytes(ROOT.as_bytes(), ROOTP.as_bytes());
                let n = self.r.idx(b.len());
                b[..n].to_vec()
            }
            4 => {
                let n = *self.r.pick(&["99999999999999999999", "18446744073709551615", "4294967296", "-1", "", "x", "0"]);
                let m = *self.r.pick(&["99999999999999999999", "18446744073709551615", "5", "", "0"]);
                let mut v = vec![b'H', 0, 0, 0, 0, 0];
                if self.ch(0.4) {
                    // (right but for lengths that don't fit in 64 bits)
                    let (a, b) = *self.r.pick(&[(true, false), (false, true), (true, true)]);
                    let x = |o: bool, l: usize| l as u128 + if o { 1u128 << 64 } else { 0 };
                    v.extend(format!("{}\n{}\n{ROOT}{ROOTP}", x(a, ROOT.len()), x(b, ROOTP.len())).as_bytes());
                } else {
                    v.extend(format!("{n}\n{m}\nabc").as_bytes());
                }
                v
            }
            5 => (0..1 + self.r.idx(80)).map(|_| self.r.below(256) as u8).collect(),
            6 => {
                let x = crate::client::handshake_bytes(b"ro\xffot", b"abc");
                self.mutate(x)
            }
            _ => {
                let mut x = vec![b'H', 0, 0, 0, 0, 0];
                let i = 1 + self.r.idx(5);
                x[i] = self.r.below(256) as u8;
                x.extend(b"4\n3\nrootabc");
                x
            }
        };
        let end = self.r.below(4) as u8;
        Op::Raw(b, end, hs)
    }
    pub fn kill_mode(&mut self) -> u32 {
        *self.r.pick(&[0, 0, 1, 2, 2, 2])
    }
    pub fn crash_end(&mut self, ph: &mut Phase) {
        match self.r.below(10) {
            0..=3 => {
                let f = self.crash_fault(200);
                ph.faults.push(f);
                ph.end = End::Kill(self.kill_mode());
                ph.settle = if self.ch(0.5) { 0 } else { self.r.below(4 * SEC) };
            }
            4 => {
                // while starting
                let f = self.crash_fault(40);
                ph.faults.push(f);
                if self.ch(0.3) {
                    let f = self.crash_fault(40);
                    ph.faults.push(f);
                }
                ph.arm_boot = true;
                ph.end = End::Kill(self.kill_mode());
            }
            5 => {
                // while stopping
                let f = self.crash_fault(30);
                ph.faults.push(f);
                ph.arm_end = true;
                ph.end = End::Term;
            }
            6 | 7 => {
                let t = self.r.below(*self.r.clone().pick(&[10 * MS, SEC, 8 * SEC]));
                ph.timed.push((t, Ev::Kill(self.kill_mode())));
                ph.end = End::Term;
            }
            _ => {
                ph.end = End::Kill(self.kill_mode());
                ph.settle = *self.r.pick(&[0, MS, SEC, 3 * SEC, 8 * SEC, 16 * SEC]);
            }
        }
    }
    pub fn pause(&mut self) -> Op {
        match self.r.below(4) {
            0 => Op::Sleep(self.r.below(2 * SEC)),
            1 => Op::Sleep(self.r.below(MS)),
            _ => {
                let o = *self.r.pick(&[0, 0, 1000, 100_000, 1_000_000]);
                let off = self.r.below(2 * o + 1) as i64 - o as i64;
                Op::Tick(1, off)
            }
        }
    }
    pub fn plan(&mut self, profile: &str, seed: u64, mode: Mode, sched: Sched, net: NetP, boot: Boot, mut phases: Vec<Phase>) -> Plan {
        // (the wall clock is not what any of this may depend on)
        if self.ch(0.15) {
            let ph = self.r.idx(phases.len());
            let d = *self.r.pick(&[3600, 400 * 86400, 5]) * SEC as i64;
            let d = if self.ch(0.5) { -d } else { d };
            let t = self.r.below(*self.r.clone().pick(&[MS, 4 * SEC]));
            phases[ph].timed.push((t, Ev::ClockJump(d)));
        }
        if phases.len() > 1 && profile != "second" && self.ch(if profile == "authz" { 0.3 } else { 0.08 }) {
            for i in 1..phases.len() {
                if self.ch(0.6) {
                    phases[i].rootp = Some(self.r.below(3) as u32);
                }
            }
        }
        Plan { profile: profile.into(), seed, mode, sched, net, boot, phases, expect: None }
    }
}
/// seconds after which an error of the disk must be forgotten
fn heal_s(_g: &G) -> u64 {
    6 * 3 + 60 + 10
}
const PKT: [T0; 10] =
    [T0::U8, T0::U16, T0::U32, T0::U64, T0::S8, T0::S32, T0::S64, T0::Str, T0::Str, T0::Bin];
pub fn key_of(t: T0, i: u64) -> V {
    match t.class() {
        1 => V::U(i),
        2 => V::S(i as i64 - 2),
        4 if i == 3 => V::X(vec![i as u8; 300]),
        4 => V::X(vec![i as u8, 10, 0]),
        _ => {
            if i == 1 {
                V::T("".into())
            } else if i == 3 {
                V::T("long key ".repeat(40))
            } else {
                V::T(format!("key {i}"))
            }
        }
    }
}
fn crash_w() -> W {
    W { user: 4, space: 5, model: 6, drop: 4, alter: 8, insert: 20, update: 16, delete: 8, ..all_w() }
}
fn all_w() -> W {
    W {
        space: 4,
        model: 6,
        drop: 3,
        alter: 8,
        insert: 22,
        update: 22,
        delete: 8,
        select: 12,
        select_all: 8,
        inspect: 5,
        use_: 4,
        user: 3,
        junk: 3,
        status: 1,
    }
}
fn dml_w() -> W {
    W { insert: 25, update: 25, delete: 14, select: 18, select_all: 8, inspect: 3, ..W::default() }
}

pub const PROFILES: &[&str] = &["seq", "conc", "snap", "ddlconc", "restart", "crash", "ioerr", "term", "frag", "evil", "authz", "tamper", "second", "upgrade", "upcrash"];
pub fn plan(profile: &str, seed: u64) -> Plan {
    let mut g = G::new(profile, seed);
    g.big = g.ch(0.12);
    match profile {
        "seq" => {
            let n = 20 + g.r.below(120);
            g.wrong = *g.r.pick(&[0.0, 0.1, 0.25]);
            let w = all_w();
            let mut cl = g.clients(0, 1, n, &w, 0.03);
            cl[0].delay = 0;
            let mut ph = g.phase(cl, End::Keep);
            ph.probe = true;
            let (s, nt, b) = (g.calm(), g.net(), g.boot());
            g.plan(profile, seed, Mode::Lin, s, nt, b, vec![ph])
        }
        "conc" => {
            g.keys = 1 + g.r.below(4);
            g.max_fields = 3;
            let (nsp, nm) = (1, 1 + g.r.below(2));
            let ops = g.setup_ops(0, nsp, nm, 2);
            let c = g.root(ops);
            let p0 = g.phase(vec![c], End::Keep);
            let n = 2 + g.r.below(3);
            let k = 8 + g.r.below(40);
            let w = dml_w();
            let mut cl = g.clients(1, n, k, &w, 0.1);
            if g.ch(0.4) {
                let p = *g.r.pick(&[0.3, 0.7]);
                g.pipe_up(&mut cl, p);
            }
            let mut p1 = g.phase(cl, End::Keep);
            p1.probe = true;
            let (s, nt, b) = (g.sched(4_000_000), g.net(), g.boot());
            g.plan(profile, seed, Mode::Lin, s, nt, b, vec![p0, p1])
        }
        "snap" => {
            // reads of everything against bursts of changes
            g.keys = 3 + g.r.below(8);
            g.max_fields = 2;
            g.wrong = 0.0;
            let rows = 2 + g.r.below(5);
            let ops = g.setup_ops(0, 1, 1, rows);
            let c = g.root(ops);
            let p0 = g.phase(vec![c], End::Keep);
            let (nw, nr) = (1 + g.r.below(2), 1 + g.r.below(2));
            let n = 10 + g.r.below(30);
            let up = *g.r.pick(&[0, 3]);
            let w = W { insert: 10, delete: 10, update: up, ..W::default() };
            let mut cl = g.clients(1, nw, n, &w, 0.0);
            g.pipe_up(&mut cl, 0.7);
            let w = W { select_all: 8, select: 1, inspect: 1, ..W::default() };
            for i in 0..nr {
                let mut c = g.root(vec![]);
                for _ in 0..4 + g.r.below(12) {
                    let st = g.stmt(100 + (nw + i) as u32, ROOT, &w, 0);
                    c.ops.push(Op::Q(st));
                }
                cl.push(c);
            }
            let mut p1 = g.phase(cl, End::Keep);
            p1.probe = true;
            let (mut s, nt, b) = (g.sched(4_000_000), g.net(), g.boot());
            s.p[3] = *g.r.pick(&[0.05, 0.2]);
            s.p_stall = *g.r.pick(&[0.05, 0.2, 0.5]);
            s.stall_len = *g.r.pick(&[100, 500, 3000]);
            g.plan(profile, seed, Mode::Lin, s, nt, b, vec![p0, p1])
        }
        "ddlconc" => {
            g.keys = 1 + g.r.below(4);
            g.max_fields = 4;
            let ops = g.setup_ops(0, 2, 2, 3);
            let c = g.root(ops);
            let p0 = g.phase(vec![c], End::Keep);
            let n = 2 + g.r.below(3);
            let k = 8 + g.r.below(30);
            let mut w = all_w();
            w.user = 1;
            w.junk = 0;
            if g.ch(0.4) {
                // schema changes against data changes only
                w.space = 0;
                w.model = 1;
                w.drop = 1;
                w.alter = 15;
            }
            let mut cl = g.clients(1, n, k, &w, 0.05);
            if g.ch(0.4) {
                let p = *g.r.pick(&[0.3, 0.7]);
                g.pipe_up(&mut cl, p);
            }
            let mut p1 = g.phase(cl, End::Keep);
            p1.probe = true;
            let (s, nt, b) = (g.sched(4_000_000), g.net(), g.boot());
            g.plan(profile, seed, Mode::Lin, s, nt, b, vec![p0, p1])
        }
        "restart" => {
            g.keys = 2 + g.r.below(6);
            let mut phases = vec![];
            let np = 2 + g.r.below(3);
            let w = all_w();
            for i in 0..np {
                let n = 1 + g.r.below(2);
                let k = 5 + g.r.below(25);
                let mut cl = g.clients(i as u32, n, k, &w, 0.08);
                if g.ch(0.15) {
                    // much to clean up at the last moment
                    let mut v: Vec<St> = vec![];
                    for _ in 0..1 + g.r.below(4) {
                        let x = g.u();
                        let s = format!("burst{x}");
                        v.push(St::CreateSpace { s: s.clone(), ine: false, env: None });
                        v.push(St::DropSpace { s, force: g.ch(0.5), ie: false });
                    }
                    let all: Vec<_> = g.db.models.keys().cloned().collect();
                    for k in all {
                        if g.ch(0.5) {
                            let st = St::DropModel { m: ent(&k.0, &k.1), force: true, ie: false };
                            g.db.apply(0, ROOT, &st);
                            v.push(st);
                        }
                    }
                    let c = cl.len() - 1;
                    cl[c].ops.push(Op::Pipe(v));
                }
                let mut ph = g.phase(cl, End::Term);
                ph.probe = g.ch(0.3);
                g.db.cs.clear();
                phases.push(ph);
            }
            let mut last = g.phase(vec![], End::Term);
            last.probe = true;
            phases.push(last);
            let (s, nt, b) = (if g.ch(0.5) { g.calm() } else { g.sched(6_000_000) }, g.net(), g.boot());
            g.plan(profile, seed, Mode::Lin, s, nt, b, phases)
        }
        "crash" => {
            let mut phases = vec![];
            let np = 1 + g.r.below(4);
            let w = if g.ch(0.5) { crash_w() } else { W { space: 1, model: 2, drop: 1, alter: 2, ..dml_w() } };
            g.keys = 2 + g.r.below(8);
            g.max_fields = 4;
            // now and then everyone is after the same row
            let hot = g.ch(0.25);
            if hot {
                g.keys = 1 + g.r.below(2);
            }
            let w = if hot { dml_w() } else { w };
            for i in 0..np {
                let n = if hot { 3 + g.r.below(2) } else { 1 + g.r.below(3) };
                g.nwriters = n;
                let k = 4 + g.r.below(if hot { 60 } else { 30 });
                let sleepy = *g.r.pick(&[0.0, 0.1, 0.3]);
                let mut cl = if i == 0 && g.ch(0.7) {
                    let nm = 1 + g.r.below(2);
                    let ops = g.setup_ops(0, 1, nm, 2);
                    let mut c = g.root(ops);
                    let more = g.clients(0, 1, k, &w, sleepy);
                    c.ops.extend(more.into_iter().next().unwrap().ops);
                    vec![c]
                } else {
                    g.clients(i as u32, n, k, &w, sleepy)
                };
                if i == 0 && cl.len() > 1 && !hot {
                    cl.truncate(2);
                }
                let mut ph = g.phase(cl, End::Keep);
                g.crash_end(&mut ph);
                ph.probe = g.ch(0.1);
                g.db.cs.clear();
                phases.push(ph);
            }
            let (s, nt, b) = (if g.ch(0.4) { g.calm() } else { g.sched(6_000_000) }, g.net(), g.boot());
            g.plan(profile, seed, Mode::Crash, s, nt, b, phases)
        }
        "ioerr" => {
            let mut phases = vec![];
            let np = 1 + g.r.below(3);
            g.keys = 2 + g.r.below(8);
            g.max_fields = 4;
            let w = if g.ch(0.15) {
                W { user: 40, status: 4, ..crash_w() }
            } else if g.ch(0.5) {
                W { status: 4, ..crash_w() }
            } else { W { space: 1, model: 2, drop: 1, alter: 2, status: 4, ..dml_w() } };
            for i in 0..np {
                let n = 1 + g.r.below(3);
                g.nwriters = n;
                let k = 6 + g.r.below(40);
                let sleepy = *g.r.pick(&[0.05, 0.2, 0.4]);
                let cl = if i == 0 {
                    let nm = 1 + g.r.below(2);
                    let ops = g.setup_ops(0, 1, nm, 2);
                    let mut c = g.root(ops);
                    let more = g.clients(0, 1, k, &w, sleepy);
                    c.ops.extend(more.into_iter().next().unwrap().ops);
                    vec![c]
                } else {
                    g.clients(i as u32, n, k, &w, sleepy)
                };
                let mut ph = g.phase(cl, End::Keep);
                if i > 0 && g.ch(0.2) {
                    // the files of one model stay out of order; what is stored in the others must not suffer
                    let op = *g.r.pick(&["any", "write", "fsync"]);
                    let path = *g.r.pick(&["mdl_m0", "mdl_m1", "mdl_m0", "mdl_m1", "gns"]);
                    let nth = 1 + g.r.below(4) as u32;
                    let e = *g.r.pick(&[5, 28]);
                    ph.faults.push(Fault { op: op.into(), path: path.into(), nth, repeat: 1_000_000, kind: FK::Err(e) });
                    ph.settle = *g.r.pick(&[0, 8 * SEC, 20 * SEC, 60 * SEC]);
                    ph.end = if g.ch(0.3) { End::Term } else { End::Kill(g.kill_mode()) };
                    g.db.cs.clear();
                    phases.push(ph);
                    continue;
                }
                let nf = 1 + g.r.below(3);
                for _ in 0..nf {
                    let f = g.io_fault(150);
                    ph.faults.push(f);
                }
                match g.r.below(10) {
                    0..=3 => {
                        // faults stop, then there is time to recover
                        ph.settle = (heal_s(&g) + 5) * SEC;
                        let x = g.r.below(4 * SEC);
                        ph.timed.push((x, Ev::Disarm));
                        ph.probe = true;
                        if g.ch(0.7) {
                            // everything works again
                            g.db.cs.clear();
                            phases.push(ph);
                            let k = 2 + g.r.below(12);
                            let mut cl = g.clients(i as u32 + 50, 1, k, &w, 0.1);
                            cl[0].delay = 0;
                            let x = g.u();
                            cl[0].ops.splice(
                                0..0,
                                [
                                    Op::Q(St::Status),
                                    Op::Q(St::CreateSpace { s: format!("healed{x}"), ine: false, env: None }),
                                    Op::Q(St::DropSpace { s: format!("healed{x}"), force: false, ie: false }),
                                ],
                            );
                            ph = g.phase(cl, End::Keep);
                            ph.settle = *g.r.pick(&[0, 0, 8 * SEC]);
                        }
                        ph.end = if g.ch(0.5) { End::Term } else { End::Kill(g.kill_mode()) };
                    }
                    4 => {
                        // right after the faults, or while they go on
                        ph.settle = *g.r.pick(&[0, 0, 20 * SEC]);
                        ph.end = if g.ch(0.5) { End::Term } else { End::Kill(g.kill_mode()) };
                    }
                    5 => {
                        // while stopping
                        ph.arm_end = true;
                        ph.end = End::Term;
                    }
                    6 => {
                        ph.arm_boot = true;
                        ph.end = End::Term;
                    }
                    7 => {
                        let f = g.crash_fault(200);
                        ph.faults.push(f);
                        ph.end = End::Kill(g.kill_mode());
                    }
                    _ => {
                        ph.settle = *g.r.pick(&[0, SEC, 5 * SEC, 40 * SEC]);
                        ph.end = End::Keep;
                    }
                }
                g.db.cs.clear();
                phases.push(ph);
            }
            let (s, nt, b) = (if g.ch(0.5) { g.calm() } else { g.sched(8_000_000) }, g.net(), g.boot());
            g.plan(profile, seed, Mode::Crash, s, nt, b, phases)
        }
        "term" => {
            let mut phases = vec![];
            let np = 1 + g.r.below(3);
            g.keys = 2 + g.r.below(8);
            g.max_fields = 4;
            let w = if g.ch(0.5) { crash_w() } else { W { space: 1, model: 2, drop: 1, alter: 2, ..dml_w() } };
            for i in 0..np {
                let n = 1 + g.r.below(4);
                g.nwriters = n;
                let k = 6 + g.r.below(40);
                let sleepy = *g.r.pick(&[0.0, 0.05, 0.2]);
                let mut cl = if i == 0 {
                    let nm = 1 + g.r.below(2);
                    let ops = g.setup_ops(0, 1, nm, 2);
                    let mut c = g.root(ops);
                    let more = g.clients(0, 1, k, &w, sleepy);
                    c.ops.extend(more.into_iter().next().unwrap().ops);
                    vec![c]
                } else {
                    g.clients(i as u32, n, k, &w, sleepy)
                };
                if g.ch(0.25) {
                    let (a, b) = (g.r.below(300 * MS), 40 + g.r.below(400) as u32);
                    let mut c = g.root(vec![Op::Stall(b, 20 * SEC)]);
                    c.delay = a;
                    cl.push(c);
                }
                // connections that are in the way of a shutdown
                if g.ch(0.3) {
                    let mut c = g.root(vec![]);
                    c.delay = g.r.below(MS);
                    let raw = g.raw_op();
                    c.ops.push(match raw {
                        Op::Raw(b, _, hs) => Op::Raw(b, 3, hs),
                        o => o,
                    });
                    c.ops.push(Op::Sleep(20 * SEC));
                    cl.push(c);
                }
                let mut ph = g.phase(cl, End::Term);
                let m = *g.r.pick(&[5 * MS, 50 * MS, SEC, 8 * SEC]);
                let t = g.r.below(m);
                ph.timed.push((t, Ev::Term));
                if g.ch(0.2) {
                    let f = g.io_fault(60);
                    ph.faults.push(f);
                    ph.arm_end = g.ch(0.5);
                }
                g.db.cs.clear();
                phases.push(ph);
            }
            let (s, nt, b) = (if g.ch(0.3) { g.calm() } else { g.sched(8_000_000) }, g.net(), g.boot());
            g.plan(profile, seed, Mode::Crash, s, nt, b, phases)
        }
        "frag" => {
            g.keys = 2 + g.r.below(5);
            g.max_fields = 4;
            g.wrong = 0.1;
            let ops = g.setup_ops(0, 1, 2, 3);
            let c = g.root(ops);
            let p0 = g.phase(vec![c], End::Keep);
            let n = 1 + g.r.below(3);
            let k = 10 + g.r.below(40);
            let w = W { space: 1, model: 2, drop: 1, alter: 3, junk: 5, status: 3, ..dml_w() };
            let mut cl = g.clients(1, n, k, &w, 0.02);
            for (i, c) in cl.iter_mut().enumerate() {
                let mut ops: Vec<Op> = vec![];
                let mut pipe: Vec<St> = vec![];
                for o in c.ops.drain(..) {
                    match o {
                        Op::Q(st) => {
                            if g.ch(0.35) {
                                pipe.push(st);
                                continue;
                            }
                            if !pipe.is_empty() {
                                if g.ch(0.3) {
                                    ops.push(Op::Reconnect);
                                }
                                ops.push(Op::Pipe(std::mem::take(&mut pipe)));
                            }
                            match g.r.below(12) {
                                0 => {
                                    let pct = if g.ch(0.4) { 100 } else { g.r.below(100) as u32 };
                                    ops.push(Op::Abort(st, pct))
                                }
                                1 if g.ch(0.3) => ops.push(Op::Stall(10 + g.r.below(300) as u32, g.r.below(5 * SEC))),
                                1 => ops.push(Op::SlowRead(st, g.r.below(3 * SEC))),
                                2 => {
                                    ops.push(Op::Q(st));
                                    ops.push(Op::Q(St::Junk("x".repeat(1 + g.r.idx(9000)))));
                                }
                                _ => ops.push(Op::Q(st)),
                            }
                        }
                        o => ops.push(o),
                    }
                }
                if !pipe.is_empty() {
                    ops.push(Op::Pipe(pipe));
                }
                c.ops = ops;
                let _ = i;
            }
            let mut p1 = g.phase(cl, End::Keep);
            p1.probe = true;
            let s = if g.ch(0.5) { g.calm() } else { g.sched(8_000_000) };
            let nt = NetP {
                delay: *g.r.pick(&[1000, 50_000, 5 * MS]),
                p_frag: *g.r.pick(&[0.0, 0.3, 0.8]),
                cap: *g.r.pick(&[1, 7, 64, 4096, 65536]),
                cut: *g.r.pick(&[0.0, 0.3, 0.9]),
                gap: *g.r.pick(&[0, 10_000, 10 * MS]),
            };
            let b = g.boot();
            g.plan(profile, seed, Mode::Lin, s, nt, b, vec![p0, p1])
        }
        "evil" => {
            g.keys = 2 + g.r.below(5);
            g.max_fields = 4;
            let ops = g.setup_ops(0, 1, 2, 3);
            let c = g.root(ops);
            let p0 = g.phase(vec![c], End::Keep);
            let n = 1 + g.r.below(3);
            let k = 6 + g.r.below(25);
            let w = W { space: 1, model: 1, drop: 1, alter: 2, junk: 2, status: 2, ..dml_w() };
            let mut cl = g.clients(1, n, k, &w, 0.1);
            let ne = 1 + g.r.below(4);
            for _ in 0..ne {
                let mut c = g.root(vec![]);
                c.delay = g.r.below(2 * MS);
                let m = 1 + g.r.below(6);
                for _ in 0..m {
                    let o = match g.r.below(6) {
                        0 | 1 => g.raw_op(),
                        2 | 3 => Op::Garbage(g.garbage()),
                        4 => {
                            let wt = dml_w();
                            let st = g.stmt0(1, &wt, 1);
                            match g.wrong_packet(&st) {
                                Some(b) => Op::Wrong(b),
                                None => Op::Q(St::Status),
                            }
                        }
                        _ => {
                            if g.ch(0.5) {
                                c.ops.push(Op::Q(St::Use(Some("s0".into()))));
                            }
                            if g.ch(0.15) {
                                let n = *g.r.pick(&[3, 100, 150, 1000, 20_000, 60_000]);
                                let (a, b, z) = *g.r.pick(&[
                                    ("insert into zz.q(null, ", "[", ")"),
                                    ("insert into zz.q { f0: ", "[", "}"),
                                    ("create model zz.q(primary k: string, f: ", "list { type: ", ")"),
                                    ("alter model zz.q add f { type: ", "list { type: ", "}"),
                                    ("alter space zz with { env: ", "{ a: ", "}"),
                                    ("select * from zz.q where k = ", "(", ""),
                                ]);
                                let close = if b == "[" { "]" } else { "}" };
                                let m = *g.r.pick(&[0, n / 2, n, n + 1]);
                                c.ops.push(Op::Q(St::Odd(format!("{a}{}null{}{z}", b.repeat(n), close.repeat(m)), vec![])));
                            }
                            for _ in 0..g.r.below(12) {
                                let st = g.odd();
                                c.ops.push(Op::Q(st));
                            }
                            Op::Q(St::Status)
                        }
                    };
                    c.ops.push(o);
                    if g.ch(0.2) {
                        c.ops.push(Op::Sleep(g.r.below(SEC)));
                    }
                }
                cl.push(c);
            }
            let mut p1 = g.phase(cl, End::Keep);
            for i in 0..g.r.below(3) {
                let t = g.r.below(*g.r.clone().pick(&[5 * MS, SEC]));
                // (the listener takes a minute before it gives up on seven failures in a row)
                let n = if i == 0 { *g.r.pick(&[1, 1, 1, 2, 7, 8, 15]) } else { 1 };
                let tls = g.ch(0.5);
                p1.timed.push((t, Ev::AcceptErr(n, tls)));
            }
            if g.ch(0.15) {
                let t = g.r.below(*g.r.clone().pick(&[5 * MS, SEC]));
                p1.timed.push((t, Ev::ResetAll));
            }
            p1.probe = true;
            let (s, nt) = (if g.ch(0.4) { g.calm() } else { g.sched(8_000_000) }, g.net());
            let mut b = g.boot();
            b.tls = *g.r.pick(&[0, 1, 2, 2]);
            let mut last = g.phase(vec![], End::Term);
            last.probe = true;
            g.plan(profile, seed, Mode::Lin, s, nt, b, vec![p0, p1, last])
        }
        "authz" => {
            g.keys = 2 + g.r.below(4);
            g.max_fields = 4;
            g.wrong = 0.1;
            let mut ops = g.setup_ops(0, 2, 2, 3);
            let mut pw: Vec<(String, String)> = vec![];
            for i in 0..3 {
                let (u, p) = (format!("u{i}"), g.password("password"));
                if i < 2 {
                    let st = St::CreateUser { u: u.clone(), p: p.clone() };
                    g.db.apply(0, ROOT, &st);
                    ops.push(Op::Q(st));
                }
                pw.push((u.clone(), p));
                if g.ch(0.5) {
                    let p = g.password("other");
                    pw.push((u, p));
                }
            }
            let c = g.root(ops);
            let p0 = g.phase(vec![c], End::Keep);
            let np = 1 + g.r.below(2);
            let mut phases = vec![p0];
            for ph in 1..=np as u32 {
                let n = 2 + g.r.below(4);
                let k = 8 + g.r.below(30);
                let mut w = all_w();
                w.user = 14;
                w.space = 8;
                w.drop = 6;
                let who: Vec<(String, String)> = (0..n)
                    .map(|i| {
                        if i == 0 || g.ch(0.15) {
                            let p = if g.ch(0.08) { format!("root-password-number-{}", 1 + g.r.below(2)) } else { ROOTP.to_string() };
                            return (ROOT.to_string(), p);
                        }
                        let (u, p) = g.r.pick(&pw).clone();
                        match g.r.below(8) {
                            0 => {
                                // a password that is nearly right
                                let mut q = p.clone();
                                match g.r.below(7) {
                                    0 => {
                                        q.pop();
                                    }
                                    5 => q.push('\0'),
                                    6 => q.insert(if g.ch(0.5) { 0 } else { q.len() }, if g.ch(0.5) { '\0' } else { 'é' }),
                                    1 => q.push('x'),
                                    2 => q = q.to_uppercase(),
                                    3 => q.clear(),
                                    _ => q = ROOTP.into(),
                                }
                                (u, q)
                            }
                            1 => (ROOT.to_string(), p),
                            2 => (format!("{u}x"), p),
                            3 => ("nobody".into(), ROOTP.into()),
                            _ => (u, p),
                        }
                    })
                    .collect();
                let mut cl: Vec<Client> = who
                    .iter()
                    .map(|(u, p)| Client { user: u.clone(), pwd: p.clone(), tls: g.ch(0.5), delay: g.r.below(MS), ops: vec![] })
                    .collect();
                for _ in 0..k {
                    let i = g.r.idx(n as usize);
                    let id = ph * 100 + i as u32;
                    if g.ch(0.06) {
                        cl[i].ops.push(Op::Reconnect);
                        g.db.cs.remove(&id);
                    }
                    let user = who[i].0.clone();
                    let st = if g.ch(0.08) {
                        // one of the known users again
                        let (u, p) = g.r.pick(&pw).clone();
                        match g.r.below(5) {
                            0 | 1 => St::CreateUser { u, p },
                            2 | 3 => St::AlterUser { u, p },
                            _ => St::DropUser { u },
                        }
                    } else {
                        g.stmt0(id, &w, i as u64)
                    };
                    g.db.apply(id, &user, &st);
                    cl[i].ops.push(Op::Q(st));
                }
                if g.ch(0.3) {
                    g.pipe_up(&mut cl, 0.4);
                }
                let end = if g.ch(0.5) { End::Term } else { End::Keep };
                let mut p = g.phase(cl, end);
                p.probe = true;
                g.db.cs.clear();
                phases.push(p);
            }
            let s = if g.ch(0.5) { g.calm() } else { g.sched(6_000_000) };
            let (nt, b) = (g.net(), g.boot());
            g.plan(profile, seed, Mode::Lin, s, nt, b, phases)
        }
        "tamper" => {
            let mut phases = vec![];
            g.keys = 2 + g.r.below(8);
            g.max_fields = 4;
            let np = 1 + g.r.below(3);
            let ddl = g.ch(0.4);
            let w = if ddl { W { user: 12, space: 12, model: 12, drop: 8, alter: 25, insert: 8, ..crash_w() } } else { crash_w() };
            for i in 0..np {
                let k = 5 + g.r.below(25);
                let cl = g.clients(i as u32, 1, k, &w, 0.1);
                let end = if g.ch(0.4) { End::Kill(g.r.below(3) as u32) } else { End::Term };
                let mut ph = g.phase(cl, end);
                if g.ch(0.5) {
                    // enough for what was written to get to the files
                    ph.settle = 3_000_000_000 + g.r.below(8_000_000_000);
                }
                g.db.cs.clear();
                phases.push(ph);
            }
            let mut ph = g.phase(vec![], End::Term);
            ph.probe = true;
            let path = if ddl && g.ch(0.8) { "gns".to_string() } else { g.r.pick(&["gns", "btlog", "btlog", "db-"]).to_string() };
            ph.tamper.push(Tamper {
                path,
                nth: g.r.below(4) as u32,
                pos: g.r.below(10_000) as u32,
                kind: *g.r.pick(&[0, 0, 0, 0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 13, 13]),
                arg: g.r.below(256) as u32,
            });
            phases.push(ph);
            let s = g.calm();
            let (nt, b) = (g.net(), g.boot());
            g.plan(profile, seed, Mode::Crash, s, nt, b, phases)
        }
        "upgrade" => {
            g.keys = 2 + g.r.below(6);
            let mut phases = vec![];
            let np = 2 + g.r.below(3);
            let w = all_w();
            for i in 0..np {
                let n = 1 + g.r.below(2);
                let k = 5 + g.r.below(25);
                let cl = g.clients(i as u32, n, k, &w, 0.08);
                let mut ph = g.phase(cl, End::Term);
                ph.probe = g.ch(0.3);
                if i > 0 && g.ch(0.7) {
                    ph.v1 = g.v1();
                    ph.probe |= g.ch(0.5);
                }
                g.db.cs.clear();
                phases.push(ph);
            }
            let mut last = g.phase(vec![], End::Term);
            if g.ch(0.5) {
                last.v1 = g.v1();
            }
            last.probe = true;
            phases.push(last);
            let (s, nt, b) = (if g.ch(0.5) { g.calm() } else { g.sched(6_000_000) }, g.net(), g.boot());
            g.plan(profile, seed, Mode::Lin, s, nt, b, phases)
        }
        "upcrash" => {
            let mut phases = vec![];
            let np = 2 + g.r.below(3);
            let w = if g.ch(0.5) { crash_w() } else { W { space: 1, model: 2, drop: 1, alter: 2, ..dml_w() } };
            g.keys = 2 + g.r.below(8);
            g.max_fields = 4;
            for i in 0..np {
                let n = 1 + g.r.below(2);
                g.nwriters = n;
                let k = 4 + g.r.below(25);
                let cl = if i == 0 {
                    let nm = 1 + g.r.below(3);
                    let ops = g.setup_ops(0, 1, nm, 2);
                    let mut c = g.root(ops);
                    let more = g.clients(0, 1, k, &w, 0.1);
                    c.ops.extend(more.into_iter().next().unwrap().ops);
                    vec![c]
                } else {
                    g.clients(i as u32, n, k, &w, 0.1)
                };
                let mut ph = g.phase(cl, End::Term);
                if i > 0 {
                    if g.ch(0.8) {
                        ph.v1 = g.v1();
                    }
                    ph.arm_boot = true;
                    let nf = 1 + g.r.below(3);
                    for _ in 0..nf {
                        let m = *g.r.pick(&[8, 30, 100]);
                        let f = if g.ch(0.7) { g.crash_fault(m) } else { g.io_fault(m) };
                        ph.faults.push(f);
                    }
                    if g.ch(0.2) {
                        ph.end = End::Kill(g.kill_mode());
                    }
                }
                g.db.cs.clear();
                phases.push(ph);
            }
            let (s, nt, b) = (if g.ch(0.5) { g.calm() } else { g.sched(6_000_000) }, g.net(), g.boot());
            g.plan(profile, seed, Mode::Crash, s, nt, b, phases)
        }
        "second" => {
            g.keys = 2 + g.r.below(5);
            let ops = g.setup_ops(0, 1, 1, 2);
            let c = g.root(ops);
            let end = if g.ch(0.5) { End::Keep } else { End::Term };
            let p0 = g.phase(vec![c], end);
            let mut phases = vec![p0];
            let np = 1 + g.r.below(3);
            for i in 1..=np {
                let n = g.r.below(3);
                let k = 4 + g.r.below(20);
                let cl = if n == 0 { vec![] } else { g.clients(i as u32, n, k, &dml_w(), 0.2) };
                let end = if g.ch(0.5) { End::Term } else { End::Keep };
                let mut ph = g.phase(cl, end);
                ph.second = true;
                ph.probe = true;
                phases.push(ph);
            }
            let s = if g.ch(0.5) { g.calm() } else { g.sched(6_000_000) };
            let (nt, b) = (g.net(), g.boot());
            g.plan(profile, seed, Mode::Lin, s, nt, b, phases)
        }
        _ => panic!("unknown profile {profile}"),
    }
}
