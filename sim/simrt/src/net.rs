//! Simulated TCP: ordered byte streams with delay, fragmentation, back-pressure, stalls and resets.
use crate::sched::{self, Action, Group, Pt};
use std::{
    collections::VecDeque,
    io,
    task::{Context, Poll, Waker},
};

#[derive(Clone, Debug)]
pub struct NetCfg {
    /// maximum one-way delay
    pub max_delay: u64,
    /// probability (2^32) that a read by the server is cut short
    pub p_frag: u32,
    /// send buffer capacity per direction
    pub cap: usize,
}
impl Default for NetCfg {
    fn default() -> Self {
        Self {
            max_delay: 50_000,
            p_frag: 0,
            cap: 1 << 20,
        }
    }
}

pub type ConnId = usize;

#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    inflight: VecDeque<(u64, Option<Vec<u8>>)>,
    inflight_bytes: usize,
    last_at: u64,
    fin: bool,
    /// nothing is delivered before this time
    stalled_until: u64,
    rd_waker: Option<Waker>,
    wr_waker: Option<Waker>,
    rd_tids: Vec<usize>,
    wr_tids: Vec<usize>,
    fin_sent: bool,
}
pub struct Conn {
    pub group: Group,
    c2s: Pipe,
    s2c: Pipe,
    pub rst: bool,
    pub bytes_c2s: u64,
    pub bytes_s2c: u64,
}
pub struct Listener {
    pub group: Group,
    pub port: u16,
    pub backlog: VecDeque<ConnId>,
    pub errors: VecDeque<io::ErrorKind>,
    waker: Option<Waker>,
    open: bool,
}
#[derive(Default)]
pub struct Net {
    pub conns: Vec<Conn>,
    pub listeners: Vec<Listener>,
    pub cfg: Option<NetCfg>,
    pub frags: u64,
    pub delays: u64,
    pub resets: u64,
    pub accept_errs: u64,
}
static mut NET: Option<Net> = None;
#[allow(static_mut_refs)]
pub fn net() -> &'static mut Net {
    unsafe {
        if NET.is_none() {
            NET = Some(Net::default());
        }
        NET.as_mut().unwrap()
    }
}
fn cfg() -> NetCfg {
    net().cfg.clone().unwrap_or_default()
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dir {
    C2S,
    S2C,
}
fn pipe(c: ConnId, d: Dir) -> &'static mut Pipe {
    let c = &mut net().conns[c];
    match d {
        Dir::C2S => &mut c.c2s,
        Dir::S2C => &mut c.s2c,
    }
}
fn wake_rd(p: &mut Pipe) {
    if let Some(w) = p.rd_waker.take() {
        w.wake()
    }
    for t in std::mem::take(&mut p.rd_tids) {
        sched::wake(t)
    }
}
fn wake_wr(p: &mut Pipe) {
    if let Some(w) = p.wr_waker.take() {
        w.wake()
    }
    for t in std::mem::take(&mut p.wr_tids) {
        sched::wake(t)
    }
}
fn deliver(c: ConnId, d: Dir) {
    if net().conns[c].rst {
        return;
    }
    let now = sched::now();
    let p = pipe(c, d);
    let mut any = false;
    while let Some((at, _)) = p.inflight.front() {
        if *at > now {
            break;
        }
        match p.inflight.pop_front().unwrap().1 {
            Some(b) => {
                p.inflight_bytes -= b.len();
                p.buf.extend(b)
            }
            None => p.fin = true,
        }
        any = true;
    }
    if any {
        wake_rd(p);
    }
}
fn push(c: ConnId, d: Dir, data: Option<Vec<u8>>) {
    let cf = cfg();
    let p = pipe(c, d);
    let delay = if cf.max_delay > 0 {
        sched::rng().below(cf.max_delay)
    } else {
        0
    };
    net().delays += (delay > 0) as u64;
    let at = (sched::now() + delay).max(p.last_at).max(p.stalled_until);
    p.last_at = at;
    if let Some(b) = &data {
        p.inflight_bytes += b.len();
    }
    p.inflight.push_back((at, data));
    sched::add_timer(at, Action::Call(Box::new(move || deliver(c, d))));
}

/* ---- server side ---- */
pub fn bind(port: u16) -> io::Result<usize> {
    if net().listeners.iter().any(|l| l.open && l.port == port) {
        return Err(io::ErrorKind::AddrInUse.into());
    }
    net().listeners.push(Listener {
        group: sched::cur_group(),
        port,
        backlog: VecDeque::new(),
        errors: VecDeque::new(),
        waker: None,
        open: true,
    });
    Ok(net().listeners.len() - 1)
}
pub fn close_listener(l: usize) {
    let ls = &mut net().listeners[l];
    ls.open = false;
    let backlog = std::mem::take(&mut ls.backlog);
    for c in backlog {
        reset(c);
    }
}
pub fn poll_accept(l: usize, cx: &mut Context<'_>) -> Poll<io::Result<ConnId>> {
    let ls = &mut net().listeners[l];
    if let Some(e) = ls.errors.pop_front() {
        net().accept_errs += 1;
        return Poll::Ready(Err(e.into()));
    }
    if let Some(c) = ls.backlog.pop_front() {
        return Poll::Ready(Ok(c));
    }
    ls.waker = Some(cx.waker().clone());
    Poll::Pending
}
pub fn poll_read(c: ConnId, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<io::Result<usize>> {
    if net().conns[c].rst {
        return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
    }
    let p = pipe(c, Dir::C2S);
    if p.buf.is_empty() {
        if p.fin {
            return Poll::Ready(Ok(0));
        }
        p.rd_waker = Some(cx.waker().clone());
        return Poll::Pending;
    }
    let mut n = p.buf.len().min(out.len());
    let cf = cfg();
    if n > 1 && cf.p_frag > 0 && sched::rng().chance32(cf.p_frag) {
        n = 1 + sched::rng().idx(n - 1);
        net().frags += 1;
    }
    for x in out[..n].iter_mut() {
        *x = p.buf.pop_front().unwrap();
    }
    wake_wr(p);
    Poll::Ready(Ok(n))
}
pub fn poll_write(c: ConnId, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
    if net().conns[c].rst {
        return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
    }
    let cf = cfg();
    let p = pipe(c, Dir::S2C);
    if p.fin_sent {
        return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
    }
    let room = cf.cap.saturating_sub(p.buf.len() + p.inflight_bytes);
    if room == 0 {
        p.wr_waker = Some(cx.waker().clone());
        return Poll::Pending;
    }
    let mut n = data.len().min(room);
    if n > 1 && cf.p_frag > 0 && sched::rng().chance32(cf.p_frag) {
        n = 1 + sched::rng().idx(n - 1);
        net().frags += 1;
    }
    push(c, Dir::S2C, Some(data[..n].to_vec()));
    net().conns[c].bytes_s2c += n as u64;
    Poll::Ready(Ok(n))
}
pub fn server_shutdown(c: ConnId) {
    let p = pipe(c, Dir::S2C);
    if !p.fin_sent {
        p.fin_sent = true;
        push(c, Dir::S2C, None);
    }
}
/// the server dropped its socket
pub fn server_close(c: ConnId) {
    if net().conns[c].rst {
        return;
    }
    if !pipe(c, Dir::C2S).buf.is_empty() {
        // like TCP: unread data on close turns into a reset
        // (data already sent is still delivered by our network first)
    }
    server_shutdown(c);
}
pub fn close_group(g: Group) {
    for l in 0..net().listeners.len() {
        if net().listeners[l].group == g && net().listeners[l].open {
            close_listener(l);
        }
    }
    for c in 0..net().conns.len() {
        if net().conns[c].group == g {
            server_close(c);
        }
    }
}

/* ---- client side (blocking) ---- */
pub fn connect(port: u16) -> io::Result<ConnId> {
    sched::yield_point(Pt::Net);
    let Some(l) = net()
        .listeners
        .iter()
        .position(|l| l.open && l.port == port)
    else {
        return Err(io::ErrorKind::ConnectionRefused.into());
    };
    let g = net().listeners[l].group;
    net().conns.push(Conn {
        group: g,
        c2s: Pipe::default(),
        s2c: Pipe::default(),
        rst: false,
        bytes_c2s: 0,
        bytes_s2c: 0,
    });
    let id = net().conns.len() - 1;
    let ls = &mut net().listeners[l];
    ls.backlog.push_back(id);
    if let Some(w) = ls.waker.take() {
        w.wake();
    }
    Ok(id)
}
pub fn inject_accept_error(port: u16, k: io::ErrorKind) {
    if let Some(l) = net()
        .listeners
        .iter_mut()
        .find(|l| l.open && l.port == port)
    {
        l.errors.push_back(k);
        if let Some(w) = l.waker.take() {
            w.wake();
        }
    }
}
pub fn client_send(c: ConnId, data: &[u8]) -> io::Result<()> {
    sched::yield_point(Pt::Net);
    if net().conns[c].rst || pipe(c, Dir::C2S).fin_sent {
        return Err(io::ErrorKind::BrokenPipe.into());
    }
    net().conns[c].bytes_c2s += data.len() as u64;
    push(c, Dir::C2S, Some(data.to_vec()));
    Ok(())
}
/// the peer does not see anything sent on this connection for a while
pub fn stall(c: ConnId, d: Dir, ns: u64) {
    let p = pipe(c, d);
    p.stalled_until = sched::now() + ns;
}
/// receive some bytes; Ok(empty) = end of stream; Err(TimedOut) = deadline
pub fn client_recv(c: ConnId, deadline: u64) -> io::Result<Vec<u8>> {
    loop {
        if net().conns[c].rst {
            return Err(io::ErrorKind::ConnectionReset.into());
        }
        let p = pipe(c, Dir::S2C);
        if !p.buf.is_empty() {
            let v: Vec<u8> = p.buf.drain(..).collect();
            wake_wr(p);
            return Ok(v);
        }
        if p.fin {
            return Ok(vec![]);
        }
        if sched::now() >= deadline {
            return Err(io::ErrorKind::TimedOut.into());
        }
        p.rd_tids.push(sched::cur());
        sched::block("client recv", Some(deadline));
    }
}
pub fn client_fin(c: ConnId) {
    let p = pipe(c, Dir::C2S);
    if !p.fin_sent {
        p.fin_sent = true;
        push(c, Dir::C2S, None);
    }
}
pub fn reset(c: ConnId) {
    let k = &mut net().conns[c];
    if k.rst {
        return;
    }
    k.rst = true;
    net().resets += 1;
    for d in [Dir::C2S, Dir::S2C] {
        let p = pipe(c, d);
        wake_rd(p);
        wake_wr(p);
    }
}
pub fn listening(port: u16) -> bool {
    net().listeners.iter().any(|l| l.open && l.port == port)
}
