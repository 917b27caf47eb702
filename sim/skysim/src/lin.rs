//! Linearizability of a history against the reference model (Wing & Gong with memoisation).
use crate::{model::*, val::*};
use std::collections::{hash_map::DefaultHasher, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub struct HEv {
    pub client: u32,
    pub user: String,
    pub st: St,
    /// positions in the total order of the run
    pub inv: u64,
    pub ret: u64,
    pub resp: Option<R>,
    pub t_inv: u64,
    pub t_ret: u64,
    pub phase: usize,
    /// an answer "server error" is acceptable (and then nothing may have changed)
    pub tolerant: bool,
    /// `inv` of the statement that was sent just before on the same connection (0: none)
    pub after: u64,
}
pub enum Lin {
    /// a witness: order of events (unknown ones only if they took effect) and the state after each
    Ok { order: Vec<usize>, states: Vec<Db> },
    Fail(String, usize),
    Unknown,
}
struct Ck<'a> {
    ev: &'a [HEv],
    seen: HashSet<(Vec<u64>, u64, u64)>,
    /// tell apart orders of row changes relative to schema changes
    paths: bool,
    budget: u64,
    best: usize,
    best_info: String,
    best_phase: usize,
    order: Vec<usize>,
    states: Vec<Db>,
    must: usize,
    accept: &'a mut dyn FnMut(&[usize], &[Db]) -> bool,
    rejected: u32,
}
fn hash_db(d: &Db) -> u64 {
    let mut h = DefaultHasher::new();
    d.hash(&mut h);
    h.finish()
}
impl<'a> Ck<'a> {
    fn overlap(&self, i: usize) -> (Vec<&'a V>, u64) {
        let e = &self.ev[i];
        let (mut upd, mut ch) = (vec![], 0);
        if matches!(e.st, St::SelectAll { .. } | St::InspectModel(_)) {
            for o in self.ev.iter().filter(|o| o.inv < e.ret && o.ret > e.inv) {
                match &o.st {
                    St::Update { v, .. } => upd.push(v),
                    St::Insert { .. } | St::InsertMap { .. } | St::Delete { .. } => ch += 1,
                    _ => {}
                }
            }
        }
        (upd, ch)
    }
    /// 1 found, 0 no, -1 out of budget
    fn go(&mut self, done: &mut Vec<u64>, ndone: usize, db: &Db, path: u64) -> i32 {
        if ndone == self.must {
            // (answered ones are done; the caller decides about the rest)
            if (self.accept)(&self.order, &self.states) {
                return 1;
            }
            self.rejected += 1;
            return if self.rejected > 3000 { -1 } else { 0 };
        }
        if self.budget == 0 {
            return -1;
        }
        self.budget -= 1;
        if !self.seen.insert((done.clone(), hash_db(db), path)) {
            return 0;
        }
        let is = |d: &Vec<u64>, i: usize| d[i / 64] >> (i % 64) & 1 == 1;
        let mut lim = u64::MAX;
        let mut cand: Vec<usize> = vec![];
        for (i, e) in self.ev.iter().enumerate() {
            if e.inv > lim {
                break;
            }
            if !is(done, i) {
                cand.push(i);
                lim = lim.min(e.ret);
            }
        }
        cand.retain(|i| self.ev[*i].inv < lim);
        // statements sent at once are executed in that order
        cand.retain(|i| {
            let a = self.ev[*i].after;
            a == 0 || !self.ev.iter().enumerate().any(|(j, e)| e.inv == a && e.resp.is_some() && !is(done, j))
        });
        cand.sort_by_key(|i| (self.ev[*i].resp.is_none(), self.ev[*i].ret));
        let mut info = vec![];
        for i in cand {
            let e = &self.ev[i];
            let mut nx = db.clone();
            let mut sure = 1;
            match &e.resp {
                Some(R::Err(0)) if e.tolerant => {}
                Some(r) => {
                    let w = nx.apply(e.client, &e.user, &e.st);
                    let (upd, ch) = self.overlap(i);
                    if !w.matches(r, &upd, ch) {
                        if ndone >= self.best {
                            info.push(format!(
                                "client {} ({}) [{}..{}] `{}` answered {} but the model says {}",
                                e.client,
                                e.user,
                                e.inv,
                                e.ret,
                                show(&e.st),
                                show_r(r),
                                show_w(&w)
                            ));
                        }
                        continue;
                    }
                }
                None => {
                    sure = 0;
                    let w = nx.apply(e.client, &e.user, &e.st);
                    if !w.ok() || nx == *db {
                        continue;
                    }
                }
            }
            done[i / 64] |= 1 << (i % 64);
            self.order.push(i);
            self.states.push(nx);
            let nx = self.states.last().unwrap().clone();
            let mut np = path;
            if self.paths && matches!(e.st, St::CreateModel { .. } | St::DropModel { .. } | St::DropSpace { .. } | St::AlterAdd { .. } | St::AlterRemove { .. } | St::AlterUpdate { .. })
            {
                let mut h = DefaultHasher::new();
                (path, i, &*done).hash(&mut h);
                np = h.finish();
            }
            let r = self.go(done, ndone + sure, &nx, np);
            if r != 0 {
                return r;
            }
            self.order.pop();
            self.states.pop();
            done[i / 64] &= !(1 << (i % 64));
        }
        if ndone >= self.best && !info.is_empty() {
            if ndone > self.best {
                self.best_info.clear();
            }
            self.best = ndone;
            if self.best_info.len() < 1500 {
                self.best_info = info.join(" | ");
            }
            self.best_phase = self
                .ev
                .iter()
                .enumerate()
                .filter(|(i, e)| !is(done, *i) && e.resp.is_some())
                .map(|(_, e)| e.phase)
                .min()
                .unwrap_or(0);
        }
        0
    }
}
pub fn show(s: &St) -> String {
    if let St::Login { u, p } = s {
        return format!("<login {u}/{p}>");
    }
    if let St::RootPw(p) = s {
        return format!("<start with root password {p}>");
    }
    let q = s.query();
    if q.params.is_empty() {
        q.text
    } else {
        format!("{} <- {}", q.text, String::from_utf8_lossy(&q.params).escape_debug())
    }
}
pub fn show_r(r: &R) -> String {
    let s = format!("{r:?}");
    cut(&s, 600)
}
pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        format!("{}...", s.chars().take(n).collect::<String>())
    } else {
        s.to_string()
    }
}
fn show_w(w: &Want) -> String {
    cut(&format!("{w:?}"), 600)
}
pub fn check(init: &Db, ev: &[HEv], budget: u64) -> Lin {
    check0(init, ev, budget, &mut |_, _| true, false)
}
/// look for a witness which the caller accepts
pub fn check_with(init: &Db, ev: &[HEv], budget: u64, accept: &mut dyn FnMut(&[usize], &[Db]) -> bool) -> Lin {
    check0(init, ev, budget, accept, true)
}
fn check0(
    init: &Db,
    ev: &[HEv],
    budget: u64,
    accept: &mut dyn FnMut(&[usize], &[Db]) -> bool,
    paths: bool,
) -> Lin {
    debug_assert!(ev.windows(2).all(|w| w[0].inv <= w[1].inv));
    let must = ev.iter().filter(|e| e.resp.is_some()).count();
    let mut ck = Ck {
        ev,
        seen: HashSet::new(),
        paths,
        budget,
        best: 0,
        best_info: String::new(),
        best_phase: 0,
        order: vec![],
        states: vec![],
        must,
        accept,
        rejected: 0,
    };
    let mut done = vec![0u64; ev.len() / 64 + 1];
    match ck.go(&mut done, 0, init, 0) {
        1 => Lin::Ok { order: ck.order, states: ck.states },
        -1 => Lin::Unknown,
        _ => Lin::Fail(ck.best_info, ck.best_phase),
    }
}
