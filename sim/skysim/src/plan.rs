//! A plan is everything that determines one simulated run. It is also the replay file.
use crate::val::St;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub seed: u64,
    /// preemption probability (percent) at: lock unlock atomic epoch io net task
    pub p: [f64; 7],
    pub pct_depth: u32,
    pub pct_len: u64,
    pub tick: u64,
    pub max_steps: u64,
    pub p_stall: f64,
    pub stall_len: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetP {
    pub delay: u64,
    pub p_frag: f64,
    pub cap: usize,
    /// clients send in pieces with this probability and gap
    pub cut: f64,
    pub gap: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Boot {
    /// 0 tcp only, 1 tls only, 2 both
    pub tls: u8,
    pub window: u64,
    pub free_ram: u64,
    pub p_slow: f64,
    pub slow_ns: u64,
    pub p_short: f64,
    /// threads that poll the tasks of the server (0: one for each)
    #[serde(default)]
    pub workers: usize,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum FK {
    Err(i32),
    Short,
    Torn(i32),
    SyncLost,
    CrashBefore(bool),
    CrashMid(bool),
    CrashAfter(bool),
    Slow(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub op: String,
    pub path: String,
    pub nth: u32,
    pub repeat: u32,
    pub kind: FK,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Q(St),
    Sleep(u64),
    /// sleep until the nth-from-now multiple of the flush window, plus an offset
    Tick(u32, i64),
    Reconnect,
    /// log in as this user with this password on a connection of its own
    Login(String, String),
    /// send this part (percent) of the packet, then reset the connection
    Abort(St, u32),
    /// send these bytes on a fresh connection (after the TLS handshake if the last flag is set), then
    /// 0 close, 1 reset, 2 wait for the peer, 3 stay silent until the end of the phase
    Raw(Vec<u8>, u8, bool),
    /// send these bytes on the logged in session and read what comes back
    Garbage(Vec<u8>),
    /// send these bytes, which are no valid packet, on the logged in session: they must be refused
    Wrong(Vec<u8>),
    /// send these statements at once, then read the answers
    Pipe(Vec<St>),
    /// stop reading for this long while a response is on its way
    SlowRead(St, u64),
    /// send this many statements on a session of its own and never read the answers, until the server stops or this long
    Stall(u32, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Client {
    pub user: String,
    pub pwd: String,
    pub tls: bool,
    pub delay: u64,
    /// the login of this client is part of the history (it may fail)
    pub ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Term,
    /// 0 everything volatile is lost, 1 only the process dies, 2 a random part survives
    Kill(u32),
    ClockJump(i64),
    ResetAll,
    /// this many accepts fail in a row (on the TLS listener, if there are two)
    AcceptErr(u32, bool),
    Disarm,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Keep,
    Term,
    Kill(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Phase {
    pub clients: Vec<Client>,
    pub faults: Vec<Fault>,
    /// faults are armed before the server is started (if it has to be)
    pub arm_boot: bool,
    pub timed: Vec<(u64, Ev)>,
    pub settle: u64,
    /// faults stay armed while the phase ends
    pub arm_end: bool,
    pub end: End,
    /// read the whole database when the clients are done
    pub probe: bool,
    /// the configured password of root from the next start on
    #[serde(default)]
    pub rootp: Option<u32>,
    /// start a second server on the same directory meanwhile
    #[serde(default)]
    pub second: bool,
    /// offline changes to the disk before the next boot (corruption)
    #[serde(default)]
    pub tamper: Vec<Tamper>,
    /// the directory is that of the previous storage engine (if the server was stopped cleanly before): how its files were
    /// closed and reopened
    #[serde(default)]
    pub v1: Vec<bool>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tamper {
    /// nth file (mod number of files) whose path contains this
    pub path: String,
    pub nth: u32,
    /// position in the file, out of 10000
    pub pos: u32,
    /// 0 flip a bit, 1 cut here, 2 zero a block, 3 remove a byte, 4 insert a byte, 5 remove the file, 6 write garbage,
    /// 7 write another block here, 8 flip two bits, 9 reverse a block
    pub kind: u8,
    pub arg: u32,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    /// clients may write the same rows; no crashes; one linearizable history across clean restarts
    Lin,
    /// every row has one writer; crashes; durability is judged at every restart
    Crash,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub profile: String,
    pub seed: u64,
    pub mode: Mode,
    pub sched: Sched,
    pub net: NetP,
    pub boot: Boot,
    pub phases: Vec<Phase>,
    /// filled in when this is a replay file
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub expect: Option<Expect>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Expect {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub trace_hash: u64,
}
impl Plan {
    pub fn n_ops(&self) -> usize {
        self.phases.iter().map(|p| p.clients.iter().map(|c| c.ops.len()).sum::<usize>()).sum()
    }
}
