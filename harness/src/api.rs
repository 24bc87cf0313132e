//! Calls into the library under test.
use crate::tree::*;
use crate::val::{to_val, Val};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone, PartialEq)]
pub enum Out<T> {
    Ok(T),
    Err(PErr),
    /// the call panicked
    Panic(String),
    /// the call returned something that is not of the documented form
    Malformed(String),
}

impl<T> Out<T> {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "error",
            Out::Panic(_) => "panic",
            Out::Malformed(_) => "malformed",
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Err(e) => format!("error at {}:{} {:?}", e.line, e.col, e.msg),
            Out::Panic(m) => format!("panic: {}", m),
            Out::Malformed(m) => format!("malformed output: {}", m),
        }
    }
}

fn perr(v: &Val) -> Result<PErr, String> {
    let int = |k: &str| match v.get(k) {
        Some(Val::Int(i)) if *i >= 0 => Ok(*i as u64),
        other => Err(format!("error.{} is {:?}", k, other)),
    };
    Ok(PErr {
        line: int("line")?,
        col: int("column")?,
        msg: match v.get("message") {
            Some(Val::Str(s)) => s.clone(),
            other => return Err(format!("error.message is {:?}", other)),
        },
    })
}

pub fn decode<T>(
    r: Result<Result<Val, Val>, String>,
    f: impl Fn(&Val) -> Result<T, String>,
) -> Out<T> {
    match r {
        Err(p) => Out::Panic(p),
        Ok(Ok(v)) => match f(&v) {
            Ok(t) => Out::Ok(t),
            Err(e) => Out::Malformed(e),
        },
        Ok(Err(v)) => match perr(&v) {
            Ok(e) => Out::Err(e),
            Err(e) => Out::Malformed(e),
        },
    }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

thread_local! {
    static SLOT: std::cell::RefCell<Option<std::fs::File>> = const { std::cell::RefCell::new(None) };
    static BUSY: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
/// when each thread entered the library, in milliseconds since the start; 0: not in the library
pub static SINCE: [std::sync::atomic::AtomicU64; 64] = [const { std::sync::atomic::AtomicU64::new(0) }; 64];

pub fn now_ms() -> u64 {
    static T: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    T.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}

/// where a thread notes the text it is working on, so that a crash or a hang can be traced to it
pub fn slot_path(t: usize) -> Option<std::path::PathBuf> {
    std::env::var_os("CHECK_SCRATCH").map(|d| std::path::Path::new(&d).join(format!("w{}", t)))
}

pub fn slot(t: usize) {
    if let Some(p) = slot_path(t) {
        SLOT.with(|s| *s.borrow_mut() = std::fs::File::create(p).ok());
    }
    BUSY.with(|b| b.set(t));
}

pub fn enter(code: &str) {
    use std::os::unix::fs::FileExt;
    SLOT.with(|s| {
        if let Some(f) = &*s.borrow() {
            let mut b = (code.len() as u64).to_le_bytes().to_vec();
            b.extend_from_slice(code.as_bytes());
            let _ = f.write_all_at(&b, 0);
        }
    });
    BUSY.with(|b| {
        if b.get() < 64 {
            SINCE[b.get()].store(now_ms(), std::sync::atomic::Ordering::Relaxed);
        }
    });
}

pub fn idle() {
    BUSY.with(|b| {
        if b.get() < 64 {
            SINCE[b.get()].store(0, std::sync::atomic::Ordering::Relaxed);
        }
    });
}

pub fn read_slot(t: usize) -> Option<String> {
    let b = std::fs::read(slot_path(t)?).ok()?;
    let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
    String::from_utf8(b.get(8..8 + n)?.to_vec()).ok()
}

pub fn parse(code: &str) -> Out<Vec<N>> {
    enter(code);
    let r = parse_(code);
    idle();
    r
}

fn parse_(code: &str) -> Out<Vec<N>> {
    let code = code.to_string();
    let r = catch_unwind(AssertUnwindSafe(|| match bq2cst::verif::parse(code) {
        Ok(t) => Ok(to_val(&t).expect("serialize")),
        Err(e) => Err(to_val(&e).expect("serialize")),
    }))
    .map_err(panic_text);
    decode(r, N::list)
}

pub fn tokenize(code: &str) -> Out<Vec<Tok>> {
    enter(code);
    let r = tokenize_(code);
    idle();
    r
}

fn tokenize_(code: &str) -> Out<Vec<Tok>> {
    let code = code.to_string();
    let r = catch_unwind(AssertUnwindSafe(|| match bq2cst::verif::tokenize(code) {
        Ok(t) => Ok(to_val(&t).expect("serialize")),
        Err(e) => Err(to_val(&e).expect("serialize")),
    }))
    .map_err(panic_text);
    decode(r, Tok::list)
}

/// parses and throws the tree away; the number of allocations
pub fn raw_parse(code: &str) -> (u64, Out<()>) {
    enter(code);
    let text = code.to_string();
    let a = crate::work::allocations();
    let r = catch_unwind(AssertUnwindSafe(|| bq2cst::verif::parse(text))).map_err(panic_text);
    let n = crate::work::allocations() - a;
    idle();
    let o = match r {
        Err(p) => Out::Panic(p),
        Ok(Ok(_)) => Out::Ok(()),
        Ok(Err(e)) => match decode::<()>(Ok(Err(to_val(&e).expect("serialize"))), |_| Ok(())) {
            Out::Err(e) => Out::Err(e),
            o => o,
        },
    };
    (n, o)
}

/// what to say when the harness itself panics
pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Panics of the library are outcomes here; keep them off stderr.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap() = i.to_string();
    }));
}
