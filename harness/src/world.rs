//! A scratch project per case, and podo run in it as an unprivileged process that is watched.
use crate::model::*;
use crate::pbt::{self, fail, Fail, Src};
use crate::refchange::RChange;
use crate::yaml::{self, Style};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io::Read;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

const NOBODY: u32 = 65534;
const WALL: Duration = Duration::from_secs(20);

struct Shared {
    bin: PathBuf,
    shim: PathBuf,
    base: PathBuf,
    unprivileged: bool,
}

/// Copies of podo and the shim that the unprivileged process can reach, and a place for the projects.
fn shared() -> &'static Shared {
    static S: OnceLock<Shared> = OnceLock::new();
    S.get_or_init(|| {
        let base = pbt::scratch_dir();
        let mode = |p: &Path, m| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).expect("chmod");
        mode(&base, 0o755);
        let copy = |var: &str, name: &str| {
            let from = std::env::var(var).unwrap_or_else(|_| panic!("{var} is not set"));
            let to = base.join(name);
            std::fs::copy(&from, &to).unwrap_or_else(|e| panic!("copy {from}: {e}"));
            mode(&to, 0o755);
            to
        };
        let bin = copy("PODO_BIN", "podo");
        let shim = copy("PODO_SHIM", "shim.so");
        let unprivileged = unsafe { libc::geteuid() } == 0 && {
            let mut c = Command::new("/bin/true");
            unsafe {
                c.pre_exec(|| {
                    if libc::setgid(NOBODY) != 0 || libc::setuid(NOBODY) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    Ok(())
                });
            }
            c.status().map(|s| s.success()).unwrap_or(false)
        };
        let cases = base.join("w");
        std::fs::create_dir(&cases).expect("mkdir");
        mode(&cases, if unprivileged { 0o777 } else { 0o755 });
        Shared { bin, shim, base: cases, unprivileged }
    })
}

/// Whether podo runs without the right to read and write everything.
pub fn unprivileged() -> bool {
    shared().unprivileged || unsafe { libc::geteuid() } != 0
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Entry {
    Dir,
    File(Vec<u8>),
    Link(PathBuf),
    Other,
}

pub type Tree = BTreeMap<Vec<u8>, Entry>;

pub struct World {
    pub dir: PathBuf,
    pub clock: Cell<i64>,
    pub seed: Cell<u64>,
    /// Variables that are none of podo's business.
    around: Vec<(String, OsString)>,
    runs: Cell<u32>,
}

#[derive(Clone, Default)]
pub struct How {
    pub cwd: Option<PathBuf>,
    pub env: Vec<(String, OsString)>,
    pub fault: Option<(usize, &'static str)>,
    /// From which write on the standard output fails, and how.
    pub out: Option<(usize, &'static str)>,
    pub log: bool,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub args: Vec<String>,
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub ops: Vec<String>,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn show(&self) -> String {
        format!("podo {} => {} out {:?} err {:?}", self.args.join(" "), self.status(), self.out, self.err)
    }
    fn status(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "no end".into(),
        }
    }
    /// Succeeded, or a failure of the property.
    pub fn good(&self, what: &str) -> Result<(), Fail> {
        if self.ok() {
            return Ok(());
        }
        fail("refused", format!("{what}: {}", self.show()))
    }
    /// Ended with an error as errors are to be reported.
    pub fn bad(&self, what: &str) -> Result<(), Fail> {
        if self.ok() {
            return fail("no-error", format!("{what}: no error is reported: {}", self.show()));
        }
        self.proper(what)
    }
    fn whole(self, killed: bool) -> Result<Out, Fail> {
        if let Some(sig) = self.signal {
            if !(sig == libc::SIGKILL && killed) {
                return fail("crash", format!("podo crashes: {}", self.show()));
            }
        }
        if self.code == Some(101) || self.err.contains("panicked at") {
            return fail("panic", format!("podo panics: {}", self.show()));
        }
        Ok(self)
    }
    /// Either succeeded or reported an error.
    pub fn proper(&self, what: &str) -> Result<(), Fail> {
        if !self.ok() && self.err.trim().is_empty() {
            return fail("silent", format!("{what}: fails without a message on standard error: {}", self.show()));
        }
        Ok(())
    }
}

/// The environment of a user: what podo does depends on nothing of it, unless the project file refers to it.
fn around(s: &mut Src, dir: &Path) -> Vec<(String, OsString)> {
    let root = dir.join("p");
    let mut v: Vec<(String, OsString)> = vec![];
    if !s.chance(35) {
        return v;
    }
    for _ in 0..s.range(1, 5) {
        let (n, x): (&str, OsString) = match s.n(10) {
            0 | 1 => {
                let at = *s.pick(&["", "one", "one/two", "side", "database", "..", "../..", "one/two/three"]);
                let at = if at.is_empty() { root.clone() } else if at == ".." { dir.to_path_buf() } else { root.join(at) };
                (*s.pick(&["HOME", "HOME", "HOME", "PWD", "OLDPWD", "XDG_CONFIG_HOME", "TMPDIR", "GIT_DIR", "CARGO_MANIFEST_DIR", "INIT_CWD"]), at.into())
            }
            2 => (*s.pick(&["HOME", "PWD", "TMPDIR", "XDG_CONFIG_HOME"]), (*s.pick(&["", "/", "/nonexistent", ".", "relative"])).into()),
            3 => (*s.pick(&["LANG", "LC_ALL", "LC_CTYPE"]), (*s.pick(&["C", "POSIX", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.EUC-JP", "en_US.UTF-8"])).into()),
            4 => (*s.pick(&["NO_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "CI", "DEBUG", "VERBOSE", "QUIET", "RUST_LOG", "DRY_RUN", "TERM", "COLUMNS"]), (*s.pick(&["1", "0", "", "true", "dumb", "trace"])).into()),
            5 => (*s.pick(&["PGHOST", "PGUSER", "PGDATABASE", "PGPASSWORD", "PGOPTIONS", "PGSERVICE"]), (*s.pick(&["nowhere.invalid", "nobody", "other", "", "-c search_path=other"])).into()),
            6 => (*s.pick(&["PGPORT", "PGCONNECT_TIMEOUT"]), "1".into()),
            7 => (*s.pick(&["DATABASE_URL", "PODO_DATABASE_URL"]), "postgres://nobody@nowhere.invalid:1/none".into()),
            8 => (*s.pick(&["PODO_PROFILE", "PROFILE", "ENV", "APP_ENV", "PODO_ENV", "USER", "LOGNAME"]), (*s.pick(&["other", "staging", "production", "postgres"])).into()),
            _ => (*s.pick(&["EDITOR", "SHELL", "PATH", "PAGER", "VISUAL"]), (*s.pick(&["/bin/false", "", "/nonexistent"])).into()),
        };
        v.push((n.into(), x));
    }
    v
}

impl World {
    pub fn new(s: &mut Src) -> World {
        let sh = shared();
        if sh.unprivileged {
            // the files the case makes belong to the user podo runs as
            unsafe {
                libc::setfsgid(NOBODY);
                libc::setfsuid(NOBODY);
            }
        }
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let dir = sh.base.join(format!("c{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir(&dir).expect("mkdir");
        World { clock: Cell::new(1_700_000_000 + s.below(1 << 20) as i64), seed: Cell::new(s.below(1 << 20)), around: around(s, &dir), runs: Cell::new(0), dir }
    }

    pub fn podo(&self, args: &[&str]) -> Result<Out, Fail> {
        self.run(args, &How::default())
    }

    /// Runs podo; a crash (a signal, a panic) or no end is a failure in itself.
    pub fn run(&self, args: &[&str], how: &How) -> Result<Out, Fail> {
        self.run_raw(args, how)?.whole(matches!(how.fault, Some((_, "kill" | "torn"))))
    }

    fn run_raw(&self, args: &[&str], how: &How) -> Result<Out, Fail> {
        self.start(args, how).end()
    }

    /// Starts podo; what comes of it is for `Started` to tell.
    pub fn start(&self, args: &[&str], how: &How) -> Started {
        let sh = shared();
        self.runs.set(self.runs.get() + 1);
        let log = self.dir.join(format!("ops-{}.log", self.runs.get()));
        let root = self.dir.join("p");
        let mut c = Command::new(&sh.bin);
        c.args(args)
            .env_clear()
            .env("LD_PRELOAD", &sh.shim)
            .env("PVS_ROOT", &root)
            .env("PVS_SEED", self.seed.get().to_string())
            .env("PVS_CLOCK", self.clock.get().to_string())
            .env("TZ", "UTC")
            .envs(self.around.iter().map(|(k, v)| (k, v)))
            .envs(how.env.iter().map(|(k, v)| (k, v)))
            .current_dir(how.cwd.as_ref().unwrap_or(&root))
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        self.seed.set(self.seed.get().wrapping_add(1));
        if how.log {
            c.env("PVS_LOG", &log);
        }
        if let Some((n, m)) = how.fault {
            c.env("PVS_FAULT", format!("{n}:{m}"));
        }
        if let Some((n, m)) = how.out {
            c.env("PVS_OUT", format!("{n}:{m}"));
        }
        let drop_user = sh.unprivileged;
        unsafe {
            c.pre_exec(move || {
                if drop_user && (libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(NOBODY) != 0 || libc::setuid(NOBODY) != 0) {
                    return Err(std::io::Error::last_os_error());
                }
                let lim = |r, v: u64| {
                    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                    libc::setrlimit(r, &l);
                };
                lim(libc::RLIMIT_CPU, 10);
                lim(libc::RLIMIT_AS, 4 << 30);
                lim(libc::RLIMIT_CORE, 0);
                lim(libc::RLIMIT_FSIZE, 256 << 20);
                libc::umask(0o022);
                Ok(())
            });
        }
        Started { child: c.spawn().expect("podo starts"), log: if how.log { Some(log) } else { None }, args: args.iter().map(|s| s.to_string()).collect() }
    }

    pub fn root(&self) -> PathBuf {
        self.dir.join("p")
    }

    /// A project with one profile, laid out as init lays it out, made without podo.
    pub fn project(&self, url: &str) -> Proj {
        let root = self.root();
        let p = Proj { history: root.join("database/history"), definitions: root.join("database/definitions"), root };
        std::fs::create_dir_all(&p.history).expect("mkdir");
        std::fs::create_dir_all(&p.definitions).expect("mkdir");
        put(&p.root.join(".podo.yaml"), config(&[("database", url, "database/history", "database/definitions", "podo_meta")]));
        p.write_version(&RVersion::init());
        p.write_version(&RVersion::stage("init"));
        put(&p.definitions.join("public.yaml"), "schema public: {}\n");
        p
    }
}

/// A podo that runs.
pub struct Started {
    child: std::process::Child,
    log: Option<PathBuf>,
    args: Vec<String>,
}

impl Started {
    fn end(self) -> Result<Out, Fail> {
        let Started { mut child, log, args } = self;
        let t0 = Instant::now();
        let mut so = child.stdout.take().unwrap();
        let mut se = child.stderr.take().unwrap();
        let (mut out, mut err) = (vec![], vec![]);
        let (mut eo, mut ee) = (false, false);
        use std::os::fd::AsRawFd;
        let mut hung = false;
        while !(eo && ee) {
            let left = WALL.saturating_sub(t0.elapsed());
            if left.is_zero() {
                hung = true;
                break;
            }
            let mut p = [
                libc::pollfd { fd: if eo { -1 } else { so.as_raw_fd() }, events: libc::POLLIN, revents: 0 },
                libc::pollfd { fd: if ee { -1 } else { se.as_raw_fd() }, events: libc::POLLIN, revents: 0 },
            ];
            unsafe { libc::poll(p.as_mut_ptr(), 2, left.as_millis().min(1000) as i32) };
            let mut b = [0u8; 65536];
            if p[0].revents != 0 {
                match so.read(&mut b) {
                    Ok(0) | Err(_) => eo = true,
                    Ok(n) => out.extend_from_slice(&b[..n]),
                }
            }
            if p[1].revents != 0 {
                match se.read(&mut b) {
                    Ok(0) | Err(_) => ee = true,
                    Ok(n) => err.extend_from_slice(&b[..n]),
                }
            }
            if out.len() + err.len() > 64 << 20 {
                hung = true;
                break;
            }
        }
        let st = loop {
            if hung {
                let _ = child.kill();
                break child.wait().expect("wait");
            }
            match child.try_wait().expect("wait") {
                Some(s) => break s,
                None if t0.elapsed() > WALL => hung = true,
                None => std::thread::sleep(Duration::from_micros(200)),
            }
        };
        let text = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
        let mut ops = vec![];
        if let Some(log) = log {
            ops = std::fs::read_to_string(&log).unwrap_or_default().lines().map(|s| s.to_string()).collect();
            let _ = std::fs::remove_file(&log);
        }
        let o = Out {
            args: args.clone(),
            code: st.code(),
            signal: st.signal(),
            out: text(out),
            err: text(err),
            ops,
        };
        if hung {
            return fail("hang", format!("podo does not end (or its output does not): podo {}", args.join(" ")));
        }
        Ok(o)
    }

    /// Waits for the end; a crash or no end is a failure in itself.
    pub fn finish(self) -> Result<Out, Fail> {
        self.end()?.whole(false)
    }
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub fn put(p: &Path, b: impl AsRef<[u8]>) {
    if let Some(d) = p.parent() {
        std::fs::create_dir_all(d).unwrap_or_else(|e| panic!("mkdir {d:?}: {e}"));
    }
    std::fs::write(p, b).unwrap_or_else(|e| panic!("write {p:?}: {e}"));
}

/// A project file for profiles given as (name, address, history, definitions, metadata schema).
pub fn config(profiles: &[(&str, &str, &str, &str, &str)]) -> String {
    let mut m = serde_yaml::Mapping::new();
    for (n, u, h, d, ms) in profiles {
        let mut p = serde_yaml::Mapping::new();
        for (k, v) in [("database_url", u), ("history", h), ("definitions", d), ("metadata_schema", ms)] {
            p.insert(k.into(), v.to_string().into());
        }
        m.insert(n.to_string().into(), p.into());
    }
    let mut top = serde_yaml::Mapping::new();
    top.insert("profiles".into(), m.into());
    serde_yaml::to_string(&top).expect("yaml")
}

#[derive(Clone)]
pub struct Proj {
    pub root: PathBuf,
    pub history: PathBuf,
    pub definitions: PathBuf,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RVersion {
    pub name: String,
    pub previous: Option<String>,
    pub changes: Vec<RChange>,
    pub up: Vec<String>,
    pub down: Vec<String>,
}

impl RVersion {
    pub fn init() -> RVersion {
        RVersion {
            name: "init".into(),
            previous: None,
            changes: vec![RChange::CreateSchema { schema_name: "public".into() }],
            up: vec!["CREATE SCHEMA public;".into()],
            down: vec!["DROP SCHEMA public;".into()],
        }
    }
    pub fn stage(previous: &str) -> RVersion {
        RVersion { name: "stage".into(), previous: Some(previous.into()), changes: vec![], up: vec![], down: vec![] }
    }
    pub fn is_empty(&self) -> bool {
        self.changes.is_empty() && self.up.is_empty() && self.down.is_empty()
    }
}

/// The versions of a history in order, the stage last, with their files' bytes.
#[derive(Clone, Debug, PartialEq)]
pub struct Hist {
    pub versions: Vec<RVersion>,
    pub bytes: BTreeMap<String, Vec<u8>>,
}

impl Hist {
    pub fn stage(&self) -> &RVersion {
        self.versions.last().unwrap()
    }
    pub fn made(&self) -> &[RVersion] {
        &self.versions[..self.versions.len() - 1]
    }
    pub fn last_made(&self) -> &RVersion {
        &self.versions[self.versions.len() - 2]
    }
    /// What the changes of the first n versions amount to.
    pub fn replay(&self, n: usize) -> Result<Db, String> {
        let mut d = Db::default();
        for v in &self.versions[..n] {
            for c in &v.changes {
                c.apply(&mut d).map_err(|e| format!("version {:?}: {c:?} does not apply: {} {}", v.name, e.name, e.why))?;
            }
        }
        Ok(d)
    }
}

impl Proj {
    pub fn write_version(&self, v: &RVersion) {
        put(&self.history.join(format!("{}.yaml", v.name)), serde_yaml::to_string(v).expect("yaml"));
    }
    /// The directory as the documentation has it: one chain of complete versions from init to stage.
    pub fn read_history(&self) -> Result<Hist, String> {
        let (chain, bytes) = read_chain(&self.history)?;
        Ok(Hist { versions: chain, bytes })
    }
    pub fn hist(&self, what: &str) -> Result<Hist, Fail> {
        match self.read_history() {
            Ok(h) => Ok(h),
            Err(e) => fail("history", format!("{what}: the history is no longer in order: {e}")),
        }
    }
    pub fn write_defs(&self, s: &mut Src, style: &Style, db: &Db) {
        put(&self.definitions.join("public.yaml"), yaml::document(s, style, db));
    }
    pub fn tree(&self) -> Tree {
        tree(&self.root)
    }
}

pub fn read_chain(dir: &Path) -> Result<(Vec<RVersion>, BTreeMap<String, Vec<u8>>), String> {
    let mut vs = BTreeMap::new();
    let mut bytes = BTreeMap::new();
    for e in std::fs::read_dir(dir).map_err(|e| e.to_string())? {
        let e = e.map_err(|e| e.to_string())?;
        let n = e.file_name();
        let n = match n.to_str() {
            Some(n) if n.ends_with(".yaml") && !e.path().is_dir() => n[..n.len() - 5].to_string(),
            _ => continue,
        };
        let b = std::fs::read(e.path()).map_err(|e| e.to_string())?;
        let v: RVersion = serde_yaml::from_slice(&b).map_err(|e| format!("{n}: {e}"))?;
        if v.name != n {
            return Err(format!("the file of {n:?} holds version {:?}", v.name));
        }
        bytes.insert(n.clone(), b);
        vs.insert(n, v);
    }
    let mut chain: Vec<RVersion> = vec![];
    let mut cur = "stage".to_string();
    loop {
        let v = vs.remove(&cur).ok_or(format!("version {cur:?} is missing or repeated"))?;
        let p = v.previous.clone();
        let first = v.name == "init";
        chain.push(v);
        match p {
            Some(p) if !first => cur = p,
            None if first => break,
            p => return Err(format!("version {cur:?} follows {p:?}")),
        }
    }
    if let Some(n) = vs.keys().next() {
        return Err(format!("version {n:?} is not on the chain"));
    }
    chain.reverse();
    Ok((chain, bytes))
}

pub fn tree(root: &Path) -> Tree {
    let mut t = Tree::new();
    walk(root, root, &mut t);
    t
}
fn walk(root: &Path, d: &Path, t: &mut Tree) {
    if let Ok(es) = std::fs::read_dir(d) {
        for e in es.flatten() {
            let p = e.path();
            let k = p.strip_prefix(root).unwrap().as_os_str().as_bytes().to_vec();
            match e.file_type() {
                Ok(f) if f.is_dir() => {
                    t.insert(k, Entry::Dir);
                    walk(root, &p, t);
                }
                Ok(f) if f.is_symlink() => {
                    t.insert(k, Entry::Link(std::fs::read_link(&p).unwrap_or_default()));
                }
                Ok(f) if f.is_file() => {
                    // a file made unreadable on purpose counts by its name alone
                    t.insert(k, std::fs::read(&p).map(Entry::File).unwrap_or(Entry::Other));
                }
                _ => {
                    t.insert(k, Entry::Other);
                }
            }
        }
    }
}

/// How two trees differ, or nothing.
pub fn tree_diff(a: &Tree, b: &Tree) -> Option<String> {
    let mut out = vec![];
    let n = |k: &Vec<u8>| String::from_utf8_lossy(k).into_owned();
    for (k, x) in a {
        match b.get(k) {
            None => out.push(format!("{} is gone", n(k))),
            Some(y) if x != y => out.push(format!("{} is changed: {} -> {}", n(k), brief(x), brief(y))),
            _ => {}
        }
    }
    for (k, y) in b {
        if !a.contains_key(k) {
            out.push(format!("{} is new: {}", n(k), brief(y)));
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out.join("; "))
    }
}
fn brief(e: &Entry) -> String {
    match e {
        Entry::File(b) => {
            let t = String::from_utf8_lossy(b);
            format!("{:?}", t.chars().take(600).collect::<String>())
        }
        o => format!("{o:?}"),
    }
}

pub fn unchanged(before: &Tree, after: &Tree, what: &str) -> Result<(), Fail> {
    match tree_diff(before, after) {
        None => Ok(()),
        Some(d) => fail("files-changed", format!("{what}: the files are not as before: {d}")),
    }
}

pub fn os(b: &[u8]) -> OsString {
    OsString::from_vec(b.to_vec())
}
pub fn os_ref(b: &[u8]) -> &OsStr {
    OsStr::from_bytes(b)
}

impl RVersion {
    /// What the initial version amounts to.
    pub fn init_db() -> Db {
        let mut d = Db::default();
        d.schemas.insert("public".into(), Schema::default());
        d
    }
}
