//! C22: calls in places where programs seldom make them.

use crate::props::pure::{fingerprint, Case};
use crate::props::space::{call, CALLS};
use crate::run::{self, bad, Ctx, Kind, Res};
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

fn some(ctx: &mut Ctx) -> Vec<Case> {
    let n = ctx.rng.range(1, 5) as usize;
    let l: Vec<Case> = (0..n)
        .map(|_| {
            let which = ctx.rng.below(CALLS.len() as u64) as usize;
            Case::new(ctx, which, 3000)
        })
        .collect();
    let names: Vec<String> = l.iter().map(|c| c.name()).collect();
    ctx.tr(|| names.join(", "));
    l
}

fn all(l: &[Case]) -> Vec<u8> {
    let mut v = vec![];
    for c in l {
        let mut u = c.subject();
        call(&mut u, c.which, c.d);
        v.extend(fingerprint(&mut u));
    }
    v
}

/// The call, and what it gave there.
struct There {
    cases: Arc<Vec<Case>>,
    result: Arc<Mutex<Option<Vec<u8>>>>,
}

impl Drop for There {
    fn drop(&mut self) {
        let v = all(&self.cases);
        if let Ok(mut r) = self.result.lock() {
            *r = Some(v);
        }
    }
}

fn same(ctx: &mut Ctx, place: &str, want: &[u8], got: Option<Vec<u8>>) -> Res {
    ctx.add("calls_in_odd_places", 1);
    match got {
        None => bad(format!("calls did not return {place}")),
        Some(v) if v != want => bad(format!("calls give something else {place}")),
        _ => {
            ctx.observe(want);
            Ok(())
        }
    }
}

/// In a destructor while a panic of somebody else's unwinds the stack.
fn unwinding(ctx: &mut Ctx) -> Res {
    let cases = Arc::new(some(ctx));
    let want = all(&cases);
    let result = Arc::new(Mutex::new(None));
    let there = There { cases, result: result.clone() };
    let r = run::quiet(|| {
        let _ = catch_unwind(AssertUnwindSafe(move || {
            let _there = there;
            // (Does not go through the panic hook.)
            resume_unwind(Box::new("somebody else's panic"));
        }));
    });
    if let Err(p) = r {
        assert!(!p.harness, "{}", p.text);
        return bad(format!("panic while a stack is unwound: {}", p.text));
    }
    let got = result.lock().ok().and_then(|mut r| r.take());
    same(ctx, "while a stack is unwound", &want, got)
}

thread_local! {
    static FIRST: RefCell<Option<There>> = const { RefCell::new(None) };
    static LAST: RefCell<Option<There>> = const { RefCell::new(None) };
}

/// While a thread ends, after and before anything else that belongs to the thread is dropped.
fn ending(ctx: &mut Ctx) -> Res {
    let cases = Arc::new(some(ctx));
    let want = all(&cases);
    let results = [Arc::new(Mutex::new(None)), Arc::new(Mutex::new(None))];
    let [a, b] = results.clone();
    let idx = ctx.idx;
    let t = std::thread::Builder::new()
        .spawn(move || {
            crate::sys::set_kind(0, "while-a-thread-ends");
            crate::sys::set_case(0, idx);
            // What is registered first is dropped last.
            FIRST.with(|f| *f.borrow_mut() = Some(There { cases: cases.clone(), result: a }));
            let v = all(&cases);
            LAST.with(|f| *f.borrow_mut() = Some(There { cases: cases.clone(), result: b }));
            v
        })
        .expect("thread");
    let Ok(mid) = t.join() else { return bad("calls on a new thread panicked".into()) };
    same(ctx, "on a new thread", &want, Some(mid))?;
    for r in &results {
        let got = r.lock().ok().and_then(|mut r| r.take());
        same(ctx, "while a thread ends", &want, got)?;
    }
    Ok(())
}

pub fn c22() -> Vec<Kind> {
    vec![
        Kind { name: "while-unwinding", total: 0, quick: 6_000, thorough: 200_000, miri: 0, f: unwinding },
        Kind { name: "while-a-thread-ends", total: 0, quick: 6_000, thorough: 200_000, miri: 0, f: ending },
    ]
}
