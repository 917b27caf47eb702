//! A Skyhash client over the simulated network.
use crate::val::*;
use simrt::{net, sched};

pub struct Cl {
    pub c: net::ConnId,
    buf: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum CE {
    Refused,
    Closed,
    Timeout,
    /// error code in answer to the handshake
    Denied(u8),
    Proto(String),
}
pub const PORT: u16 = 2003;
pub const TLS_PORT: u16 = 2004;

/// how a client cuts what it sends into pieces
#[derive(Clone, Debug, Default)]
pub struct Cut {
    pub p: f64,
    pub gap: u64,
    pub rng: u64,
}
impl Cut {
    fn next(&mut self) -> u64 {
        simrt::rng::splitmix(&mut self.rng)
    }
}

pub fn handshake_bytes(u: &[u8], p: &[u8]) -> Vec<u8> {
    let mut v = vec![b'H', 0, 0, 0, 0, 0];
    v.extend(format!("{}\n{}\n", u.len(), p.len()).as_bytes());
    v.extend(u);
    v.extend(p);
    v
}

impl Cl {
    pub fn raw(tls: bool) -> Result<Cl, CE> {
        match net::connect(if tls { TLS_PORT } else { PORT }) {
            Ok(c) => Ok(Cl { c, buf: vec![] }),
            Err(_) => Err(CE::Refused),
        }
    }
    pub fn login(tls: bool, u: &str, p: &str, cut: &mut Cut, deadline: u64) -> Result<Cl, CE> {
        Self::login_with(tls, u, p, &[], cut, deadline)
    }
    /// log in and send this right behind the handshake
    pub fn login_with(tls: bool, u: &str, p: &str, extra: &[u8], cut: &mut Cut, deadline: u64) -> Result<Cl, CE> {
        let mut me = Self::raw(tls)?;
        if tls {
            me.send(b"TLSH", cut)?;
            while me.buf.len() < 4 {
                me.fill(deadline)?;
            }
            if &me.buf[..4] != b"tlsh" {
                return Err(CE::Proto("bad TLS reply".into()));
            }
            me.buf.drain(..4);
        }
        let mut hs = handshake_bytes(u.as_bytes(), p.as_bytes());
        hs.extend(extra);
        let sent = me.send(&hs, cut);
        if extra.is_empty() {
            sent?;
        }
        while me.buf.len() < 4 {
            me.fill(deadline)?;
        }
        let r: Vec<u8> = me.buf.drain(..4).collect();
        if r == [b'H', 0, 0, 0] {
            if extra.is_empty() && !me.buf.is_empty() {
                return Err(CE::Proto("unsolicited data after handshake".into()));
            }
            return Ok(me);
        }
        if r[0] == b'H' && r[2] == 1 {
            me.close();
            return Err(CE::Denied(r[3]));
        }
        Err(CE::Proto(format!("bad handshake reply {r:?}")))
    }
    pub fn send(&mut self, b: &[u8], cut: &mut Cut) -> Result<(), CE> {
        let mut i = 0;
        while i < b.len() {
            let mut n = b.len() - i;
            if cut.p > 0.0 && n > 1 && (cut.next() % 1000) as f64 <= cut.p * 1000.0 {
                n = 1 + (cut.next() % (n as u64 - 1)) as usize;
                if cut.next() % 4 == 0 {
                    n = 1;
                }
            }
            net::client_send(self.c, &b[i..i + n]).map_err(|_| CE::Closed)?;
            i += n;
            if i < b.len() && cut.gap > 0 {
                sched::sleep_ns(cut.next() % cut.gap);
            }
        }
        Ok(())
    }
    fn fill(&mut self, deadline: u64) -> Result<(), CE> {
        match net::client_recv(self.c, deadline) {
            Ok(b) if b.is_empty() => Err(CE::Closed),
            Ok(b) => {
                self.buf.extend(b);
                Ok(())
            }
            Err(e) if e.kind() == std::io::ErrorKind::TimedOut => Err(CE::Timeout),
            Err(_) => Err(CE::Closed),
        }
    }
    pub fn response(&mut self, deadline: u64) -> Result<R, CE> {
        loop {
            match parse_resp(&self.buf) {
                Parse::Done(r, n) => {
                    self.buf.drain(..n);
                    return Ok(r);
                }
                Parse::Bad(s) => return Err(CE::Proto(s)),
                Parse::More => self.fill(deadline)?,
            }
        }
    }
    /// bytes that nobody asked for
    pub fn leftover(&self) -> usize {
        self.buf.len()
    }
    pub fn query(&mut self, st: &St, cut: &mut Cut, deadline: u64) -> Result<R, CE> {
        self.send(&st.packet(), cut)?;
        let r = self.response(deadline)?;
        if !self.buf.is_empty() {
            return Err(CE::Proto(format!("{} bytes after the response", self.buf.len())));
        }
        Ok(r)
    }
    /// read until the other side closes or the deadline; returns what came
    pub fn drain(&mut self, deadline: u64) -> (Vec<u8>, bool) {
        loop {
            match self.fill(deadline) {
                Ok(()) => {}
                Err(CE::Timeout) => return (std::mem::take(&mut self.buf), false),
                Err(_) => return (std::mem::take(&mut self.buf), true),
            }
        }
    }
    pub fn close(&mut self) {
        net::client_fin(self.c);
    }
    pub fn rst(&mut self) {
        net::reset(self.c);
    }
}
