//! Lazy cells: stateful model of clones and overlapping borrows.
use super::Prop;
use crate::run::{okl, Ctx, Info};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, Ref};
use std::rc::Rc;
use validate_btc_header::util::lazy::LazyCell;

pub const PROP: Prop = Prop {
    id: "C21",
    rule: "Random sequences of up to 24 operations (clone, borrow and keep, borrow and drop, release a kept borrow, drop a clone) on cells made from a closure or from a value; the model is one optional value and a call counter, checked after every operation. Non-trivial: at least two borrows alive at once.",
    assumptions: &["the closure does not borrow its own cell"],
    run,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct S {
    from_value: bool,
    value: u64,
    ops: Vec<(u8, u8)>,
}
fn history(c: &S) -> Result<Info, String> {
    let calls = Rc::new(Cell::new(0u32));
    let k = calls.clone();
    let v = c.value;
    let f = move || {
        k.set(k.get() + 1);
        // a second computation would be visible in the value
        v ^ ((k.get() as u64 - 1) << 32)
    };
    fn cell_from<F: FnOnce() -> u64>(_: &F, v: u64) -> LazyCell<u64, F> {
        LazyCell::from(v)
    }
    let first = if c.from_value { cell_from(&f, v) } else { LazyCell::new(f) };
    // cells are leaked boxes owned here, so that borrows can outlive list edits
    let mut cells: Vec<Rc<_>> = vec![Rc::new(first)];
    let keep: Vec<Rc<_>> = vec![];
    let mut keep = { let mut k = keep; k.push(cells[0].clone()); k };
    let mut live: Vec<(Ref<'static, u64>, usize)> = vec![];
    let mut borrowed = false;
    let mut most = 0;
    let mut result = Ok(());
    for (i, (op, x)) in c.ops.iter().enumerate() {
        let at = *x as usize % cells.len();
        match op % 6 {
            0 => {
                let n = Rc::new((*cells[at]).clone());
                keep.push(n.clone());
                cells.push(n);
            }
            1 | 2 | 3 => {
                // SAFETY: every cell stays in `keep` until all borrows in `live` are dropped below
                let r: &'static LazyCell<u64, _> = unsafe { &*Rc::as_ptr(&cells[at]) };
                let b = r.borrow();
                borrowed = true;
                if *b != v {
                    result = Err(format!("operation {}: borrowed {} instead of {}", i, *b, v));
                }
                if op % 6 != 3 {
                    live.push((b, at));
                }
            }
            4 => {
                if !live.is_empty() {
                    live.swap_remove(*x as usize % live.len());
                }
            }
            _ => {
                if cells.len() > 1 {
                    cells.swap_remove(at);
                }
            }
        }
        most = most.max(live.len());
        let want = u32::from(borrowed && !c.from_value);
        if calls.get() != want {
            result = Err(format!("operation {}: closure ran {} times, expected {}", i, calls.get(), want));
        }
        for (b, _) in &live {
            if **b != v {
                result = Err(format!("operation {}: a live borrow shows {}", i, **b));
            }
        }
        if result.is_err() {
            break;
        }
    }
    live.clear();
    drop(cells);
    keep.clear();
    result?;
    okl(most >= 2, &[if c.from_value { "value" } else { "closure" }])
}

fn run(ctx: &Ctx) {
    ctx.check("histories", ctx.n(3 * 60000), || (any::<bool>(), 0u64..1 << 30, prop::collection::vec((0u8..6, any::<u8>()), 1..25)).prop_map(|(from_value, value, ops)| S { from_value, value, ops }), history);
}
