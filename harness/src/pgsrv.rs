//! A PostgreSQL server for one case: the wire protocol over the loopback, transactions, a log of
//! what clients did, and faults on request. What statements do is decided by `sqldb`.
use crate::ddl::*;
use crate::query::*;
use crate::sqldb::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    Connect { conn: usize, user: String, db: String, ok: bool },
    /// a statement executed (or refused when it was prepared)
    Stmt { conn: usize, sql: String, params: Vec<V>, result: Result<String, String> },
    Begin { conn: usize },
    Commit { conn: usize },
    Rollback { conn: usize },
    End { conn: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// an error in answer to the message
    Error(&'static str),
    /// an error that ends the session
    Fatal(&'static str),
    /// the connection ends before the message takes effect
    Drop,
    /// the connection ends in the middle of the answer (a commit does not take effect)
    DropAfter,
}

#[derive(Clone, Debug)]
pub struct DbState {
    pub engine: Engine,
    rev: u64,
}

#[derive(Clone, Debug, Default)]
pub struct State {
    pub dbs: BTreeMap<String, DbState>,
    pub password: Option<String>,
    /// ask for a password, take any, and keep it
    pub ask: bool,
    pub given: Vec<String>,
    pub log: Vec<Event>,
    /// at the n-th message of clients (counted from 0, after the start-up)
    pub fault: Option<(usize, Fault)>,
    /// refuse connections with this error
    pub refuse: Option<&'static str>,
    /// send notices and parameter changes that mean nothing
    pub noise: bool,
    /// how far the clock of the server goes from one connection to the next, in turn; it may go back
    pub ticks: Vec<i64>,
    /// the order in which messages of several clients are handled
    pub sched: Option<Sched>,
    pub turn: usize,
    /// messages seen
    pub steps: usize,
    pub fired: bool,
    /// kinds of the messages seen, with a word on what they carried
    pub kinds: Vec<String>,
    conns: usize,
    live: usize,
}

impl State {
    pub fn stmts(&self) -> Vec<(String, bool)> {
        self.log
            .iter()
            .filter_map(|e| match e {
                Event::Stmt { sql, result, .. } => Some((sql.clone(), result.is_ok())),
                _ => None,
            })
            .collect()
    }
    pub fn db(&self, n: &str) -> &Engine {
        &self.dbs[n].engine
    }
    pub fn db_mut(&mut self, n: &str) -> &mut Engine {
        &mut self.dbs.get_mut(n).unwrap().engine
    }
    pub fn put_db(&mut self, n: &str, e: Engine) {
        self.dbs.insert(n.into(), DbState { engine: e, rev: 0 });
    }
    pub fn connects(&self) -> Vec<(String, String)> {
        self.log
            .iter()
            .filter_map(|e| match e {
                Event::Connect { user, db, .. } => Some((user.clone(), db.clone())),
                _ => None,
            })
            .collect()
    }
    /// Forgets the log and the fault; the databases stay.
    pub fn fresh(&mut self) {
        self.log.clear();
        self.given.clear();
        self.kinds.clear();
        self.steps = 0;
        self.fault = None;
        self.fired = false;
    }
}

/// Clients, told apart by the digit their user's name ends in, whose messages are handled one at a time, in an order chosen beforehand.
#[derive(Clone, Debug, Default)]
pub struct Sched {
    pub parties: usize,
    pub order: Vec<u64>,
    pos: usize,
    waiting: std::collections::BTreeSet<usize>,
    gone: std::collections::BTreeSet<usize>,
    turn: Option<usize>,
    /// who was let on, one after the other
    pub taken: Vec<usize>,
    /// who has committed changes
    pub wrote: std::collections::BTreeSet<usize>,
}
impl Sched {
    pub fn new(parties: usize, order: Vec<u64>) -> Sched {
        Sched { parties, order, ..Default::default() }
    }
    /// Lets the next one on, once it is known of everyone what they are at.
    fn choose(&mut self) {
        if self.turn.is_some() || self.waiting.is_empty() || self.waiting.len() + self.gone.len() < self.parties {
            return;
        }
        let k = if self.order.is_empty() { 0 } else { self.order[self.pos % self.order.len()] as usize };
        self.pos += 1;
        let who = *self.waiting.iter().nth(k % self.waiting.len()).unwrap();
        self.turn = Some(who);
        self.taken.push(who);
    }
    fn leave(&mut self, who: usize) {
        self.waiting.remove(&who);
        self.gone.insert(who);
        if self.turn == Some(who) {
            self.turn = None;
        }
        self.choose();
    }
}

struct Shared {
    m: Mutex<State>,
    cv: Condvar,
    stop: AtomicBool,
}

pub struct Server {
    pub port: u16,
    sh: Arc<Shared>,
    accept: Option<std::thread::JoinHandle<()>>,
}

const BARRIER: u32 = 0x7654_3210;

impl Server {
    pub fn new() -> Server {
        if crate::probe::outside().is_some() {
            panic!("{}", crate::probe::OUTSIDE);
        }
        Server::plain()
    }
    pub fn plain() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("bind");
        let port = l.local_addr().expect("addr").port();
        let sh = Arc::new(Shared { m: Mutex::new(State::default()), cv: Condvar::new(), stop: AtomicBool::new(false) });
        let s2 = sh.clone();
        let accept = std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn(move || {
                for c in l.incoming() {
                    if s2.stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let c = match c {
                        Ok(c) => c,
                        Err(_) => continue,
                    };
                    let n = {
                        let mut st = s2.m.lock().unwrap();
                        st.live += 1;
                        st.conns += 1;
                        st.conns
                    };
                    let s3 = s2.clone();
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn(move || {
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                let mut k = Conn::new(n, c, s3.clone());
                                let _ = k.serve();
                                let who = k.who;
                                if let (Some(w), Some(q)) = (who, &mut s3.m.lock().unwrap_or_else(|e| e.into_inner()).sched) {
                                    q.leave(w);
                                }
                                if k.started {
                                    s3.m.lock().unwrap_or_else(|e| e.into_inner()).log.push(Event::End { conn: n });
                                }
                            }));
                            let mut st = s3.m.lock().unwrap_or_else(|e| e.into_inner());
                            if r.is_err() {
                                st.log.push(Event::Stmt { conn: n, sql: "(the server model failed)".into(), params: vec![], result: Err("XX000".into()) });
                            }
                            st.live -= 1;
                            s3.cv.notify_all();
                        })
                        .expect("thread");
                }
            })
            .expect("thread");
        Server { port, sh, accept: Some(accept) }
    }
    pub fn state(&self) -> MutexGuard<'_, State> {
        self.sh.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// The process of a client has ended.
    pub fn gone(&self, who: usize) {
        if let Some(q) = &mut self.state().sched {
            q.leave(who);
        }
        self.sh.cv.notify_all();
    }
    pub fn url_as(&self, user: &str, db: &str) -> String {
        format!("postgresql://{user}@127.0.0.1:{}/{db}", self.port)
    }
    pub fn url(&self, db: &str) -> String {
        format!("postgresql://postgres@127.0.0.1:{}/{db}", self.port)
    }
    /// Waits until every connection made so far has come to its end.
    pub fn settle(&self) {
        if let Ok(mut c) = TcpStream::connect(("127.0.0.1", self.port)) {
            let mut b = vec![0, 0, 0, 8];
            b.extend(BARRIER.to_be_bytes());
            let _ = c.write_all(&b);
            let mut x = [0u8; 1];
            let _ = c.read(&mut x);
        }
        let t0 = Instant::now();
        let mut st = self.state();
        while st.live > 0 && t0.elapsed() < Duration::from_secs(10) {
            st = self.sh.cv.wait_timeout(st, Duration::from_millis(100)).unwrap_or_else(|e| e.into_inner()).0;
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.sh.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
        if let Some(h) = self.accept.take() {
            let _ = h.join();
        }
    }
}

struct Tx {
    engine: Engine,
    rev: u64,
    writes: Vec<(Prepared, Vec<V>, String)>,
    saves: Vec<(String, Engine, usize)>,
    failed: bool,
    implicit: bool,
    /// sees the database as it was when it first looked
    fixed: bool,
    looked: bool,
}

struct Portal {
    stmt: Prepared,
    params: Vec<V>,
    formats: Vec<i16>,
    done: bool,
}

struct Conn {
    n: usize,
    s: TcpStream,
    sh: Arc<Shared>,
    out: Vec<u8>,
    db: String,
    tx: Option<Tx>,
    stmts: BTreeMap<String, Prepared>,
    portals: BTreeMap<String, Portal>,
    started: bool,
    skip: bool,
    who: Option<usize>,
}

type Io<T> = std::io::Result<T>;
fn gone<T>() -> Io<T> {
    Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "gone"))
}

struct Rd<'a>(&'a [u8], usize);
impl Rd<'_> {
    fn take(&mut self, n: usize) -> Io<&[u8]> {
        if self.1 + n > self.0.len() {
            return gone();
        }
        self.1 += n;
        Ok(&self.0[self.1 - n..self.1])
    }
    fn i16(&mut self) -> Io<i16> {
        Ok(i16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn i32(&mut self) -> Io<i32> {
        Ok(i32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u8(&mut self) -> Io<u8> {
        Ok(self.take(1)?[0])
    }
    fn cstr(&mut self) -> Io<String> {
        let e = match self.0[self.1..].iter().position(|b| *b == 0) {
            Some(e) => e,
            None => return gone(),
        };
        let s = String::from_utf8_lossy(&self.0[self.1..self.1 + e]).into_owned();
        self.1 += e + 1;
        Ok(s)
    }
}

fn be(v: &mut Vec<u8>, n: i32) {
    v.extend(n.to_be_bytes());
}
fn be16(v: &mut Vec<u8>, n: i16) {
    v.extend(n.to_be_bytes());
}
fn cs(v: &mut Vec<u8>, s: &str) {
    v.extend(s.as_bytes());
    v.push(0);
}

/// A value in the binary form of its type.
pub fn encode(v: &V, ty: Ty) -> Vec<u8> {
    match v {
        V::Null => vec![],
        V::Bool(b) => vec![*b as u8],
        V::Int(n) => match ty {
            INT2 => (*n as i16).to_be_bytes().to_vec(),
            INT8 | TIMESTAMP | TIMESTAMPTZ => n.to_be_bytes().to_vec(),
            FLOAT8 => (*n as f64).to_be_bytes().to_vec(),
            t if is_text(t) => n.to_string().into_bytes(),
            _ => (*n as i32).to_be_bytes().to_vec(),
        },
        V::Text(s) => match ty {
            JSONB => {
                let mut b = vec![1];
                b.extend(s.as_bytes());
                b
            }
            CHAR => vec![s.as_bytes().first().copied().unwrap_or(0)],
            _ => s.clone().into_bytes(),
        },
        V::Arr(a) => {
            let e = elem_of(ty).unwrap_or(TEXT);
            let mut b = vec![];
            be(&mut b, if a.is_empty() { 0 } else { 1 });
            be(&mut b, a.iter().any(|x| x.is_null()) as i32);
            be(&mut b, e as i32);
            if !a.is_empty() {
                be(&mut b, a.len() as i32);
                be(&mut b, if matches!(ty, INT2VECTOR | OIDVECTOR) { 0 } else { 1 });
            }
            for x in a {
                if x.is_null() {
                    be(&mut b, -1);
                } else {
                    let x = encode(x, e);
                    be(&mut b, x.len() as i32);
                    b.extend(x);
                }
            }
            b
        }
    }
}

fn text_of(v: &V, ty: Ty) -> Vec<u8> {
    match v {
        V::Null => vec![],
        V::Bool(b) => vec![if *b { b't' } else { b'f' }],
        V::Int(n) => {
            if matches!(ty, TIMESTAMP | TIMESTAMPTZ) {
                return b"2023-11-14 22:13:20".to_vec();
            }
            n.to_string().into_bytes()
        }
        V::Text(s) => s.clone().into_bytes(),
        V::Arr(a) => {
            let mut o = String::from("{");
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                match x {
                    V::Null => o.push_str("NULL"),
                    x => {
                        let s = String::from_utf8_lossy(&text_of(x, elem_of(ty).unwrap_or(TEXT))).into_owned();
                        o.push('"');
                        o.push_str(&s.replace('\\', "\\\\").replace('"', "\\\""));
                        o.push('"');
                    }
                }
            }
            o.push('}');
            o.into_bytes()
        }
    }
}

pub fn decode(b: &[u8], ty: Ty) -> R<V> {
    let bad = || PgErr { code: "22P03", msg: "incorrect binary data format in bind parameter".into() };
    let utf = |b: &[u8]| String::from_utf8(b.to_vec()).map_err(|_| PgErr { code: "22021", msg: "invalid byte sequence for encoding \"UTF8\"".into() });
    Ok(match ty {
        BOOL => V::Bool(*b.first().ok_or_else(bad)? != 0),
        CHAR => V::Text((*b.first().ok_or_else(bad)? as char).to_string()),
        INT2 => V::Int(i16::from_be_bytes(b.try_into().map_err(|_| bad())?) as i64),
        INT8 | TIMESTAMP | TIMESTAMPTZ => V::Int(i64::from_be_bytes(b.try_into().map_err(|_| bad())?)),
        JSONB => V::Text(utf(b.get(1..).ok_or_else(bad)?)?),
        t if is_int(t) => V::Int(i32::from_be_bytes(b.try_into().map_err(|_| bad())?) as i64),
        t if elem_of(t).is_some() => {
            let mut r = Rd(b, 0);
            let mut go = || -> Io<Vec<Option<Vec<u8>>>> {
                let nd = r.i32()?;
                r.i32()?;
                r.i32()?;
                let mut v = vec![];
                if nd > 0 {
                    let n = r.i32()?;
                    r.i32()?;
                    for _ in 0..n {
                        let l = r.i32()?;
                        v.push(if l < 0 { None } else { Some(r.take(l as usize)?.to_vec()) });
                    }
                }
                Ok(v)
            };
            let v = go().map_err(|_| bad())?;
            let e = elem_of(t).unwrap();
            V::Arr(v.into_iter().map(|x| x.map(|x| decode(&x, e)).unwrap_or(Ok(V::Null))).collect::<R<Vec<V>>>()?)
        }
        _ => V::Text(utf(b)?),
    })
}

impl Conn {
    fn new(n: usize, s: TcpStream, sh: Arc<Shared>) -> Conn {
        let _ = s.set_nodelay(true);
        Conn { n, s, sh, out: vec![], db: String::new(), tx: None, stmts: BTreeMap::new(), portals: BTreeMap::new(), started: false, skip: false, who: None }
    }
    fn st(&self) -> MutexGuard<'_, State> {
        self.sh.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn put(&mut self, t: u8, body: &[u8]) {
        self.out.push(t);
        be(&mut self.out, body.len() as i32 + 4);
        self.out.extend(body);
    }
    fn flush(&mut self) -> Io<()> {
        let o = std::mem::take(&mut self.out);
        self.s.write_all(&o)
    }
    fn err(&mut self, sev: &str, code: &str, msg: &str) {
        let mut b = vec![];
        for (k, v) in [(b'S', sev), (b'V', sev), (b'C', code), (b'M', msg)] {
            b.push(k);
            cs(&mut b, v);
        }
        b.push(0);
        self.put(b'E', &b);
    }
    fn ready(&mut self) {
        let s = match &self.tx {
            Some(t) if t.implicit => b'I',
            Some(t) if t.failed => b'E',
            Some(_) => b'T',
            None => b'I',
        };
        self.put(b'Z', &[s]);
    }
    fn noise(&mut self) {
        if !self.st().noise {
            return;
        }
        let mut b = vec![];
        for (k, v) in [(b'S', "NOTICE"), (b'V', "NOTICE"), (b'C', "00000"), (b'M', "nothing to see here")] {
            b.push(k);
            cs(&mut b, v);
        }
        b.push(0);
        self.put(b'N', &b);
        let mut p = vec![];
        cs(&mut p, "application_name");
        cs(&mut p, "x");
        self.put(b'S', &p);
    }
    fn read_n(&mut self, n: usize) -> Io<Vec<u8>> {
        let mut b = vec![0; n];
        self.s.read_exact(&mut b)?;
        Ok(b)
    }

    fn serve(&mut self) -> Io<()> {
        let params = loop {
            let n = u32::from_be_bytes(self.read_n(4)?.try_into().unwrap()) as usize;
            if !(8..=100_000).contains(&n) {
                return gone();
            }
            let b = self.read_n(n - 4)?;
            let code = u32::from_be_bytes(b[..4].try_into().unwrap());
            match code {
                80877103 | 80877104 => self.s.write_all(b"N")?,
                BARRIER => {
                    self.s.write_all(b"B")?;
                    return Ok(());
                }
                196608 => break b[4..].to_vec(),
                _ => return gone(),
            }
        };
        let mut r = Rd(&params, 0);
        let mut m = BTreeMap::new();
        loop {
            let k = r.cstr()?;
            if k.is_empty() {
                break;
            }
            let v = r.cstr()?;
            m.insert(k, v);
        }
        let user = m.get("user").cloned().unwrap_or_default();
        let db = m.get("database").cloned().unwrap_or(user.clone());
        let (refuse, pw, ask) = {
            let s = self.st();
            (s.refuse, s.password.clone(), s.ask)
        };
        let connect = |c: &Conn, ok: bool| c.st().log.push(Event::Connect { conn: c.n, user: user.clone(), db: db.clone(), ok });
        if let Some(code) = refuse {
            connect(self, false);
            self.err("FATAL", code, "the server does not take connections");
            return self.flush();
        }
        if ask {
            self.put(b'R', &3i32.to_be_bytes());
            self.flush()?;
            let (t, b) = self.message()?;
            let given = if t == b'p' { Rd(&b, 0).cstr()? } else { String::new() };
            self.st().given.push(given);
        }
        if let Some(pw) = pw {
            self.put(b'R', &3i32.to_be_bytes());
            self.flush()?;
            let (t, b) = self.message()?;
            let given = if t == b'p' { Rd(&b, 0).cstr()? } else { String::new() };
            if given != pw {
                connect(self, false);
                self.err("FATAL", "28P01", "password authentication failed");
                return self.flush();
            }
        }
        if !self.st().dbs.contains_key(&db) {
            connect(self, false);
            let msg = format!("database \"{db}\" does not exist");
            self.err("FATAL", "3D000", &msg);
            return self.flush();
        }
        connect(self, true);
        {
            let mut st = self.st();
            if !st.ticks.is_empty() {
                let by = st.ticks[st.turn % st.ticks.len()];
                st.turn += 1;
                st.db_mut(&db).clock += by;
            }
        }
        self.started = true;
        self.who = user.chars().last().and_then(|c| c.to_digit(10)).map(|d| d as usize);
        self.db = db;
        self.put(b'R', &0i32.to_be_bytes());
        for (k, v) in [("server_version", "16.4"), ("server_encoding", "UTF8"), ("client_encoding", "UTF8"), ("DateStyle", "ISO, MDY"), ("TimeZone", "UTC"), ("integer_datetimes", "on"), ("standard_conforming_strings", "on")] {
            let mut b = vec![];
            cs(&mut b, k);
            cs(&mut b, v);
            self.put(b'S', &b);
        }
        let mut k = vec![];
        be(&mut k, self.n as i32);
        be(&mut k, 4711);
        self.put(b'K', &k);
        self.ready();
        self.flush()?;
        let r = self.messages();
        if self.tx.take().is_some() {
            let n = self.n;
            self.st().log.push(Event::Rollback { conn: n });
        }
        r
    }

    fn message(&mut self) -> Io<(u8, Vec<u8>)> {
        let h = self.read_n(5)?;
        let n = u32::from_be_bytes(h[1..].try_into().unwrap()) as usize;
        if !(4..=256 << 20).contains(&n) {
            return gone();
        }
        Ok((h[0], self.read_n(n - 4)?))
    }

    fn messages(&mut self) -> Io<()> {
        loop {
            let (t, b) = self.message()?;
            if t == b'X' {
                return Ok(());
            }
            if matches!(t, b'Q' | b'P' | b'B') {
                self.turn();
            }
            let fault = {
                let mut s = self.st();
                let k = s.steps;
                s.steps += 1;
                let word = match t {
                    b'Q' => format!("Q {}", String::from_utf8_lossy(&b[..b.len().min(30)])),
                    b'P' => {
                        let z = b.iter().position(|x| *x == 0).map(|x| x + 1).unwrap_or(0);
                        format!("P {}", String::from_utf8_lossy(&b[z..b.len().min(z + 30)]))
                    }
                    t => (t as char).to_string(),
                };
                s.kinds.push(word);
                match s.fault.clone() {
                    Some((n, f)) if n == k => {
                        s.fired = true;
                        Some(f)
                    }
                    _ => None,
                }
            };
            match fault {
                Some(Fault::Drop) => return gone(),
                Some(Fault::Fatal(code)) => {
                    self.err("FATAL", code, "terminating connection due to administrator command");
                    return self.flush();
                }
                Some(Fault::Error(code)) => {
                    if matches!(t, b'S' | b'C' | b'H') {
                        // nothing fails at these: lose the connection instead
                        return gone();
                    }
                    let is_commit = t == b'Q' && {
                        let s = Rd(&b, 0).cstr()?.trim().to_lowercase();
                        s.starts_with("commit") || s.starts_with("end")
                    };
                    if is_commit {
                        self.finish(false);
                    }
                    self.error(code, "an error the server was told to report");
                    if t == b'Q' {
                        self.skip = false;
                        self.ready();
                        self.flush()?;
                    }
                    continue;
                }
                Some(Fault::DropAfter) => {
                    let commit = match t {
                        b'Q' => {
                            let s = Rd(&b, 0).cstr()?.to_lowercase();
                            s.contains("commit") || s.trim().starts_with("end")
                        }
                        b'E' | b'S' => match &self.tx {
                            Some(t) => t.implicit,
                            None => true,
                        },
                        _ => false,
                    };
                    if !commit {
                        self.handle(t, &b)?;
                        let n = self.out.len() / 2;
                        let o = self.out[..n].to_vec();
                        let _ = self.s.write_all(&o);
                    }
                    return gone();
                }
                None => {}
            }
            self.handle(t, &b)?;
        }
    }

    /// Waits until it is this client's turn.
    fn turn(&mut self) {
        let who = match self.who {
            Some(w) => w,
            None => return,
        };
        let sh = self.sh.clone();
        let mut st = sh.m.lock().unwrap_or_else(|e| e.into_inner());
        match &mut st.sched {
            Some(q) if who < q.parties => {
                if q.turn == Some(who) {
                    // the one before is dealt with
                    q.turn = None;
                }
                q.waiting.insert(who);
                q.choose();
            }
            _ => return,
        }
        sh.cv.notify_all();
        let t0 = Instant::now();
        loop {
            match &mut st.sched {
                Some(q) if q.turn == Some(who) => {
                    q.waiting.remove(&who);
                    return;
                }
                None => return,
                _ => {}
            }
            if t0.elapsed() > Duration::from_secs(20) {
                st.sched = None;
                return;
            }
            st = sh.cv.wait_timeout(st, Duration::from_millis(200)).unwrap_or_else(|e| e.into_inner()).0;
        }
    }

    fn error(&mut self, code: &str, msg: &str) {
        self.err("ERROR", code, msg);
        match &mut self.tx {
            Some(t) if t.implicit => {
                self.tx = None;
                let n = self.n;
                self.st().log.push(Event::Rollback { conn: n });
            }
            Some(t) => t.failed = true,
            None => {}
        }
        self.skip = true;
    }

    fn handle(&mut self, t: u8, b: &[u8]) -> Io<()> {
        if self.skip && !matches!(t, b'S' | b'Q') {
            return Ok(());
        }
        let mut r = Rd(b, 0);
        match t {
            b'Q' => {
                let sql = r.cstr()?;
                self.skip = false;
                self.noise();
                self.simple(&sql);
                self.skip = false;
                self.ready();
                self.flush()
            }
            b'P' => {
                let (name, sql) = (r.cstr()?, r.cstr()?);
                let n = r.i16()?;
                let mut given = vec![];
                for _ in 0..n {
                    given.push(r.i32()? as u32);
                }
                match self.prepare(&sql) {
                    Ok(mut p) => {
                        for (i, g) in given.into_iter().enumerate() {
                            if g != 0 && i < p.params.len() {
                                p.params[i] = g;
                            }
                        }
                        self.stmts.insert(name, p);
                        self.put(b'1', &[]);
                    }
                    Err(e) => {
                        self.log_stmt(&sql, &[], Err(e.code.to_string()));
                        self.error(e.code, &e.msg);
                    }
                }
                Ok(())
            }
            b'D' => {
                let kind = r.u8()?;
                let name = r.cstr()?;
                let (p, f) = if kind == b'S' {
                    match self.stmts.get(&name) {
                        Some(p) => (p.clone(), vec![]),
                        None => {
                            self.error("26000", "prepared statement does not exist");
                            return Ok(());
                        }
                    }
                } else {
                    match self.portals.get(&name) {
                        Some(p) => (p.stmt.clone(), p.formats.clone()),
                        None => {
                            self.error("34000", "portal does not exist");
                            return Ok(());
                        }
                    }
                };
                if kind == b'S' {
                    let mut d = vec![];
                    be16(&mut d, p.params.len() as i16);
                    for t in &p.params {
                        be(&mut d, *t as i32);
                    }
                    self.put(b't', &d);
                }
                match &p.cols {
                    Some(c) => self.row_desc(c, &f),
                    None => self.put(b'n', &[]),
                }
                Ok(())
            }
            b'B' => {
                let (portal, stmt) = (r.cstr()?, r.cstr()?);
                let p = match self.stmts.get(&stmt) {
                    Some(p) => p.clone(),
                    None => {
                        self.error("26000", "prepared statement does not exist");
                        return Ok(());
                    }
                };
                let nf = r.i16()?;
                let mut pf = vec![];
                for _ in 0..nf {
                    pf.push(r.i16()?);
                }
                let np = r.i16()? as usize;
                let mut params = vec![];
                let mut bad = None;
                for i in 0..np {
                    let l = r.i32()?;
                    if l < 0 {
                        params.push(V::Null);
                        continue;
                    }
                    let raw = r.take(l as usize)?.to_vec();
                    let ty = p.params.get(i).copied().unwrap_or(TEXT);
                    let f = match pf.len() {
                        0 => 0,
                        1 => pf[0],
                        _ => pf.get(i).copied().unwrap_or(0),
                    };
                    let v = if f == 1 { decode(&raw, ty) } else { from_text(&String::from_utf8_lossy(&raw), ty) };
                    match v {
                        Ok(v) => params.push(v),
                        Err(e) => {
                            bad = Some(e);
                            break;
                        }
                    }
                }
                if let Some(e) = bad {
                    self.log_stmt(&p.sql, &params, Err(e.code.to_string()));
                    self.error(e.code, &e.msg);
                    return Ok(());
                }
                if np != p.params.len() {
                    let m = format!("bind message supplies {np} parameters, but prepared statement requires {}", p.params.len());
                    self.error("08P01", &m);
                    return Ok(());
                }
                let n = r.i16()?;
                let mut formats = vec![];
                for _ in 0..n {
                    formats.push(r.i16()?);
                }
                self.portals.insert(portal, Portal { stmt: p, params, formats, done: false });
                self.put(b'2', &[]);
                Ok(())
            }
            b'E' => {
                let name = r.cstr()?;
                let (p, params, formats) = match self.portals.get_mut(&name) {
                    Some(x) if !x.done => {
                        x.done = true;
                        (x.stmt.clone(), x.params.clone(), x.formats.clone())
                    }
                    Some(_) => {
                        self.error("55000", "portal cannot be run");
                        return Ok(());
                    }
                    None => {
                        self.error("34000", "portal does not exist");
                        return Ok(());
                    }
                };
                if p.stmt.is_none() {
                    self.put(b'I', &[]);
                    return Ok(());
                }
                if self.tx.is_none() && !is_control(&p) {
                    self.begin(true);
                }
                match self.run(&p, params) {
                    Ok(d) => {
                        if let Some(c) = &p.cols {
                            let c = c.clone();
                            for row in &d.rows {
                                self.data_row(row, &c, &formats);
                            }
                        }
                        self.tag(&d.tag);
                    }
                    Err(e) => self.error(e.code, &e.msg),
                }
                Ok(())
            }
            b'S' => {
                self.skip = false;
                if self.tx.as_ref().map(|t| t.implicit) == Some(true) {
                    if let Err(e) = self.commit() {
                        self.err("ERROR", e.code, &e.msg);
                    }
                }
                self.noise();
                self.ready();
                self.flush()
            }
            b'C' => {
                let k = r.u8()?;
                let n = r.cstr()?;
                if k == b'S' {
                    self.stmts.remove(&n);
                } else {
                    self.portals.remove(&n);
                }
                self.put(b'3', &[]);
                Ok(())
            }
            b'H' => self.flush(),
            _ => {
                self.error("08P01", "unexpected message");
                Ok(())
            }
        }
    }

    fn tag(&mut self, t: &str) {
        let mut b = vec![];
        cs(&mut b, t);
        self.put(b'C', &b);
    }
    fn row_desc(&mut self, cols: &[(String, Ty)], f: &[i16]) {
        let mut b = vec![];
        be16(&mut b, cols.len() as i16);
        for (i, (n, t)) in cols.iter().enumerate() {
            cs(&mut b, n);
            be(&mut b, 0);
            be16(&mut b, 0);
            let t = if *t == UNKNOWN { TEXT } else { *t };
            be(&mut b, t as i32);
            be16(&mut b, -1);
            be(&mut b, -1);
            be16(&mut b, fmt(f, i));
        }
        self.put(b'T', &b);
    }
    fn data_row(&mut self, row: &[V], cols: &[(String, Ty)], f: &[i16]) {
        let mut b = vec![];
        be16(&mut b, row.len() as i16);
        for (i, v) in row.iter().enumerate() {
            if v.is_null() {
                be(&mut b, -1);
                continue;
            }
            let x = if fmt(f, i) == 1 { encode(v, cols[i].1) } else { text_of(v, cols[i].1) };
            be(&mut b, x.len() as i32);
            b.extend(x);
        }
        self.put(b'D', &b);
    }

    fn log_stmt(&self, sql: &str, params: &[V], result: Result<String, String>) {
        let n = self.n;
        self.st().log.push(Event::Stmt { conn: n, sql: sql.to_string(), params: params.to_vec(), result });
    }

    fn begin(&mut self, implicit: bool) {
        let (engine, rev) = {
            let s = self.st();
            let d = &s.dbs[&self.db];
            (d.engine.clone(), d.rev)
        };
        self.tx = Some(Tx { engine, rev, writes: vec![], saves: vec![], failed: false, implicit, fixed: false, looked: false });
        if !implicit {
            let n = self.n;
            self.st().log.push(Event::Begin { conn: n });
        }
    }
    /// Brings a transaction up to date with what others have committed.
    fn rebase(&mut self, ending: bool) -> R<()> {
        if let Some(t) = &mut self.tx {
            if t.fixed && t.looked {
                let now = self.sh.m.lock().unwrap_or_else(|e| e.into_inner()).dbs[&self.db].rev;
                if ending && now != t.rev && !t.writes.is_empty() {
                    return err("40001", "could not serialize access due to concurrent update");
                }
                return Ok(());
            }
            t.looked = true;
        }
        let cur = {
            let s = self.st();
            let d = &s.dbs[&self.db];
            match &self.tx {
                Some(t) if t.rev != d.rev => Some((d.engine.clone(), d.rev)),
                _ => None,
            }
        };
        if let (Some((mut e, rev)), Some(t)) = (cur, &mut self.tx) {
            for (p, v, tag) in &t.writes {
                // the other would have had to wait for this one, which then ends here
                if e.execute(p, v.clone())?.tag != *tag {
                    return err("40P01", "deadlock detected");
                }
            }
            t.engine = e;
            t.rev = rev;
        }
        Ok(())
    }
    fn finish(&mut self, commit: bool) {
        if let Some(t) = self.tx.take() {
            let n = self.n;
            let db = self.db.clone();
            let mut s = self.st();
            if let (true, false, Some(w), Some(q)) = (commit, t.writes.is_empty(), self.who, &mut s.sched) {
                q.wrote.insert(w);
            }
            let d = s.dbs.get_mut(&db).unwrap();
            if commit {
                if !t.writes.is_empty() {
                    d.engine = t.engine;
                    d.rev += 1;
                }
            } else {
                // serials are not turned back
                for (k, v) in t.engine.serials {
                    let c = d.engine.serials.entry(k).or_insert(0);
                    *c = (*c).max(v);
                }
            }
            if !t.implicit || !t.writes.is_empty() {
                s.log.push(if commit { Event::Commit { conn: n } } else { Event::Rollback { conn: n } });
            }
        }
    }
    fn commit(&mut self) -> R<()> {
        if let Err(e) = self.rebase(true) {
            self.finish(false);
            return Err(e);
        }
        self.finish(true);
        Ok(())
    }

    fn engine(&self) -> Engine {
        match &self.tx {
            Some(t) => t.engine.clone(),
            None => self.st().dbs[&self.db].engine.clone(),
        }
    }

    fn prepare(&mut self, sql: &str) -> R<Prepared> {
        if !matches!(&self.tx, Some(t) if t.failed) {
            self.rebase(false)?;
        }
        let p = match &self.tx {
            Some(t) => t.engine.prepare(sql)?,
            None => self.engine().prepare(sql)?,
        };
        if matches!(&self.tx, Some(t) if t.failed) && !matches!(p.stmt, Some(Stmt::Commit | Stmt::Rollback | Stmt::RollbackTo(_))) {
            return err("25P02", "current transaction is aborted, commands ignored until end of transaction block");
        }
        Ok(p)
    }

    fn run(&mut self, p: &Prepared, params: Vec<V>) -> R<Done> {
        let done = |t: &str| Ok(Done { tag: t.into(), rows: vec![] });
        let stmt = match &p.stmt {
            None => return done(""),
            Some(s) => s,
        };
        let failed = matches!(&self.tx, Some(t) if t.failed);
        match stmt {
            Stmt::Begin => {
                if let Some(t) = &mut self.tx {
                    if t.implicit {
                        t.implicit = false;
                        let n = self.n;
                        self.st().log.push(Event::Begin { conn: n });
                    }
                    // there is already a transaction in progress: a warning
                    return done("BEGIN");
                }
                self.begin(false);
                self.tx.as_mut().unwrap().fixed = isolated(&p.sql);
                return done("BEGIN");
            }
            Stmt::Commit => {
                if failed {
                    self.finish(false);
                    return done("ROLLBACK");
                }
                self.commit()?;
                return done("COMMIT");
            }
            Stmt::Rollback => {
                self.finish(false);
                return done("ROLLBACK");
            }
            _ => {}
        }
        if failed {
            if let Stmt::RollbackTo(n) = stmt {
                let t = self.tx.as_mut().unwrap();
                if let Some(i) = t.saves.iter().rposition(|s| s.0 == *n) {
                    t.saves.truncate(i + 1);
                    t.engine = t.saves[i].1.clone();
                    t.writes.truncate(t.saves[i].2);
                    t.failed = false;
                    return done("ROLLBACK");
                }
            }
            return err("25P02", "current transaction is aborted, commands ignored until end of transaction block");
        }
        self.rebase(false)?;
        let t = match &mut self.tx {
            Some(t) => t,
            None => return err("25P01", "there is no transaction in progress"),
        };
        match stmt {
            Stmt::Savepoint(n) => {
                t.saves.push((n.clone(), t.engine.clone(), t.writes.len()));
                return done("SAVEPOINT");
            }
            Stmt::Release(n) => {
                return match t.saves.iter().rposition(|s| s.0 == *n) {
                    Some(i) => {
                        t.saves.truncate(i);
                        done("RELEASE")
                    }
                    None => err("3B001", "savepoint does not exist"),
                };
            }
            Stmt::RollbackTo(n) => {
                return match t.saves.iter().rposition(|s| s.0 == *n) {
                    Some(i) => {
                        t.saves.truncate(i + 1);
                        t.engine = t.saves[i].1.clone();
                        t.writes.truncate(t.saves[i].2);
                        done("ROLLBACK")
                    }
                    None => err("3B001", "savepoint does not exist"),
                };
            }
            _ => {}
        }
        if matches!(stmt, Stmt::Set) && isolated(&p.sql) {
            t.fixed = true;
            t.looked = false;
        }
        let r = t.engine.execute(p, params.clone());
        if let (Ok(d), false) = (&r, matches!(stmt, Stmt::Select(_) | Stmt::Show(_) | Stmt::Set | Stmt::Lock)) {
            t.writes.push((p.clone(), params.clone(), d.tag.clone()));
        }
        self.log_stmt(&p.sql, &params, r.as_ref().map(|d| d.tag.clone()).map_err(|e| e.code.to_string()));
        r
    }

    fn simple(&mut self, sql: &str) {
        let parts = match statements(sql) {
            Ok(p) => p,
            Err(e) => {
                self.log_stmt(sql, &[], Err(e.code.to_string()));
                return self.error(e.code, &e.msg);
            }
        };
        if parts.is_empty() {
            return self.put(b'I', &[]);
        }
        for p in &parts {
            let text = crate::sqltext::raw(p);
            let p = match self.prepare(&text) {
                Ok(p) => p,
                Err(e) => {
                    self.log_stmt(&text, &[], Err(e.code.to_string()));
                    return self.error(e.code, &e.msg);
                }
            };
            if self.tx.is_none() && !is_control(&p) {
                self.begin(true);
            }
            match self.run(&p, vec![]) {
                Ok(d) => {
                    if let Some(c) = &p.cols {
                        let c = c.clone();
                        self.row_desc(&c, &[]);
                        for row in &d.rows {
                            self.data_row(row, &c, &[]);
                        }
                    }
                    self.tag(&d.tag);
                }
                Err(e) => return self.error(e.code, &e.msg),
            }
        }
        if self.tx.as_ref().map(|t| t.implicit) == Some(true) {
            if let Err(e) = self.commit() {
                self.err("ERROR", e.code, &e.msg);
            }
        }
    }
}

/// Asks for one state of the database to the end of the transaction.
fn isolated(sql: &str) -> bool {
    let q = sql.to_lowercase();
    q.contains("repeatable read") || q.contains("serializable")
}
fn is_control(p: &Prepared) -> bool {
    matches!(p.stmt, Some(Stmt::Begin | Stmt::Commit | Stmt::Rollback))
}
fn fmt(f: &[i16], i: usize) -> i16 {
    match f.len() {
        0 => 0,
        1 => f[0],
        _ => f.get(i).copied().unwrap_or(0),
    }
}
fn from_text(s: &str, ty: Ty) -> R<V> {
    Ok(match ty {
        BOOL => V::Bool(s.starts_with('t')),
        t if is_int(t) => match s.parse() {
            Ok(n) => V::Int(n),
            Err(_) => return err("22P02", "invalid input syntax"),
        },
        _ => V::t(s),
    })
}
