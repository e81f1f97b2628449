//! One simulated execution, isolated on a thread of its own.

use crate::alloc;
use crate::disk::*;
use crate::exec::*;
use crate::trace::*;
use crate::vfs::{self, Vfs};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Debug)]
pub enum Problem {
    Violation(Violation),
    Harness(String),
}

pub struct Outcome {
    pub result: Result<(), Problem>,
    pub hash: u64,
    pub calls: u64,
    pub n: [u64; 5],
    pub fired: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub checks: u64,
    pub accepted: u64,
    pub shape: u64,
    pub explored: bool,
}
impl Outcome {
    pub fn add(&self, fired: &mut BTreeMap<String, u64>, probes: &mut BTreeMap<String, u64>) {
        for (k, v) in &self.fired {
            *fired.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in &self.probes {
            *probes.entry(k.to_string()).or_insert(0) += v;
        }
    }
}

thread_local! {
    static LAST: RefCell<Option<(String, u32, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        alloc::disarm();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let (f, l) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        LAST.with(|x| {
            let mut x = x.borrow_mut();
            if x.is_none() {
                *x = Some((f, l, msg));
            }
        });
    }));
}

/// The deterministic randomness of std's hash maps in the thread of a run.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, n: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    std::ptr::write_bytes(buf as *mut u8, 0x5a, n);
    n as libc::ssize_t
}

fn ctx_run(t: &Trace, disk: &DiskRef) -> (Result<(), Problem>, Option<Stats>) {
    let mut c = Ctx::new(t, disk);
    let r = if t.prop == "C16" || t.path > 0 {
        let b = Vfs::new(disk, t.prop != "C16" && t.path == 1);
        c.probe("runs_by_path");
        let r = c.run(&b, &t.steps);
        if let Some(u) = vfs::unsupported() {
            return (Err(Problem::Harness(format!("the code under test makes a file call the simulator lacks: {u}"))), None);
        }
        match r {
            Ok(()) if vfs::open_handles() != 0 => viol("handle-leak", format!("{} file handles are left open", vfs::open_handles())),
            Ok(()) => match c.soft.take() {
                Some(v) => Err(v),
                None => Ok(()),
            },
            r => r,
        }
    } else {
        c.run(&Sim(disk.clone()), &t.steps)
    };
    (r.map_err(Problem::Violation), Some(c.st))
}

fn without_refused(t: &Trace) -> Trace {
    let mut t = t.clone();
    for s in t.steps.iter_mut() {
        if let Step::Sess(ops) = s {
            ops.retain(|o| !matches!(o, Op::NoChannels { .. } | Op::BadLen { .. } | Op::NoValues { .. } | Op::Strings { .. } | Op::TooLong { .. } | Op::Twice { .. }));
        }
    }
    t
}

fn inner(t: &Trace) -> Outcome {
    let disk = Disk::new(t.delivery);
    let (mut result, st) = ctx_run(t, &disk);
    if t.prop == "C13" && result.is_ok() {
        let d2 = Disk::new(t.delivery);
        let (r2, _) = ctx_run(&without_refused(t), &d2);
        result = match r2 {
            Ok(()) => {
                let (a, b) = (disk.borrow(), d2.borrow());
                if a.data == b.data {
                    Ok(())
                } else {
                    let at = a.data.iter().zip(b.data.iter()).position(|(x, y)| x != y).unwrap_or(a.data.len().min(b.data.len()));
                    Err(Problem::Violation(Violation {
                        class: "stored-bytes".into(),
                        msg: format!(
                            "the stored bytes differ from those of the same history without the refused calls ({} and {} bytes, first difference at {at})",
                            a.data.len(),
                            b.data.len()
                        ),
                    }))
                }
            }
            r => r,
        };
    }
    let d = disk.borrow();
    let explored = t.steps.iter().any(|s| matches!(s, Step::Explore { .. }));
    let st = st.unwrap_or(Stats { probes: BTreeMap::new(), checks: 0, accepted: 0, shape: 0 });
    Outcome {
        result,
        hash: d.hash,
        calls: d.calls,
        n: d.n,
        fired: d.fired.clone(),
        probes: st.probes,
        checks: st.checks,
        accepted: st.accepted,
        shape: st.shape,
        explored,
    }
}

pub fn run_trace(t: &Trace) -> Outcome {
    let t = t.clone();
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inner(&t))) {
            Ok(o) => o,
            Err(_) => {
                alloc::disarm();
                let (f, l, m) = LAST.with(|x| x.borrow_mut().take()).unwrap_or_default();
                let m = crate::exec::short(m);
                let harness = f.starts_with("src/") && m != BUDGET_MSG;
                let result = if harness {
                    // The simulator trips over what the library handed it: also that is a wrong result.
                    Err(Problem::Violation(Violation { class: format!("panic in the check at {f}:{l}"), msg: format!("the check itself panics at {f}:{l}: {m}") }))
                } else if m == BUDGET_MSG {
                    Err(Problem::Violation(Violation {
                        class: "unbounded-access".into(),
                        msg: "more storage accesses than the size of the file and the request explain".into(),
                    }))
                } else {
                    Err(Problem::Violation(Violation { class: format!("panic at {f}:{l}"), msg: format!("panic at {f}:{l}: {m}") }))
                };
                Outcome {
                    result,
                    hash: 0,
                    calls: 0,
                    n: [0; 5],
                    fired: BTreeMap::new(),
                    probes: BTreeMap::new(),
                    checks: 0,
                    accepted: 0,
                    shape: 0,
                    explored: false,
                }
            }
        }
    });
    match h.map(|h| h.join()) {
        Ok(Ok(o)) => o,
        _ => panic!("cannot run a thread"),
    }
}
