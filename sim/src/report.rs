//! What happens when something is violated

use crate::run::Sched;
use std::any::Any;
use std::io::Write;
use std::sync::Mutex;

pub const EXIT_VIOLATION: i32 = 77;

extern "C" {
    fn _exit(code: i32) -> !;
}

/// where the record goes, and which run is being executed
pub static SINK: Mutex<(Option<std::path::PathBuf>, u64)> = Mutex::new((None, 0));
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

#[derive(Clone, Debug, Default)]
pub struct Record {
    pub class: String,
    pub message: String,
    pub at: String,
    pub index: u64,
    pub sched: Option<Sched>,
    pub alloc: u64,
}

impl Record {
    pub fn text(&self) -> String {
        let one = |s: &str| s.replace('\n', " ");
        let mut s = format!(
            "class {}\nmessage {}\nat {}\nindex {}\nalloc {}\n",
            one(&self.class),
            one(&self.message),
            one(&self.at),
            self.index,
            self.alloc
        );
        if let Some(Sched::List { switches, stale }) = &self.sched {
            s += "schedule list\n";
            for (a, b) in switches {
                s += &format!("switch-at {a} {b}\n");
            }
            for (a, b) in stale {
                s += &format!("stale-at {a} {b}\n");
            }
        }
        s
    }
    pub fn parse(t: &str) -> Record {
        let mut r = Record::default();
        for l in t.lines() {
            let (w, rest) = l.split_once(' ').unwrap_or((l, ""));
            let n: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
            match w {
                "class" => r.class = rest.into(),
                "message" => r.message = rest.into(),
                "at" => r.at = rest.into(),
                "index" => r.index = n.first().copied().unwrap_or(0),
                "alloc" => r.alloc = n.first().copied().unwrap_or(0),
                "schedule" => {
                    r.sched = Some(Sched::List {
                        switches: vec![],
                        stale: vec![],
                    })
                }
                "switch-at" | "stale-at" if n.len() == 2 => {
                    if let Some(Sched::List { switches, stale }) = &mut r.sched {
                        let v = if w == "switch-at" { switches } else { stale };
                        v.push((n[0], n[1] as u32));
                    }
                }
                _ => {}
            }
        }
        r
    }
}

pub fn violated(class: &str, message: &str, at: &str) -> ! {
    crate::oom::disarm();
    if crate::oom::is_child() {
        let _ = writeln!(std::io::stderr(), "VIOLATED {class}: {message}");
        unsafe { _exit(EXIT_VIOLATION) }
    }
    let sink = SINK.lock().map(|s| s.clone()).unwrap_or((None, 0));
    let r = Record {
        class: class.into(),
        message: message.into(),
        at: at.into(),
        index: sink.1,
        sched: crate::threads::realised(),
        alloc: crate::oom::failed_at(),
    };
    match &sink.0 {
        Some(p) => {
            let _ = std::fs::write(p, r.text());
        }
        None => {
            let _ = std::io::stdout().write_all(r.text().as_bytes());
            let _ = std::io::stdout().flush();
        }
    }
    unsafe { _exit(EXIT_VIOLATION) }
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    let t = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if p.downcast_ref::<crate::ctx::Injected>().is_some() {
        "injected fault".into()
    } else {
        "unknown panic".into()
    };
    let at = LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default();
    format!("{t} ({at})")
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<crate::ctx::Injected>().is_some() {
            return;
        }
        if let (Some(l), Ok(mut s)) = (i.location(), LAST_PANIC.lock()) {
            let f = l.file();
            // the path of the tree under test differs between machines
            let f = f.rfind("/src/").map(|i| &f[i + 1..]).unwrap_or(f);
            *s = format!("{}:{}", f, l.line());
        }
    }));
}
