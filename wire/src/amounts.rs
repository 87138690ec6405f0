//! C16: decimal trimming, evaluated on the full product of boundary amounts and
//! all pairs of decimals.

use ntt_messages::trimmed_amount::TrimmedAmount;
use nttmc::explore::*;

fn p10(n: u32) -> u128 {
    10u128.pow(n)
}

/// floor(amount * 10^(to - from)), None if it does not fit 64 bits.
fn scaled(amount: u64, from: u8, to: u8) -> Option<u64> {
    if from >= to {
        let d = (from - to) as u32;
        if d > 38 {
            return Some(0);
        }
        return Some((amount as u128 / p10(d)) as u64);
    }
    let d = (to - from) as u32;
    if amount == 0 {
        return Some(0);
    }
    if d > 19 {
        return None;
    }
    u64::try_from(amount as u128 * p10(d)).ok()
}

/// Whether an error is an acceptable answer: the result or the factor exceeds 64 bits.
fn may_fail(amount: u64, from: u8, to: u8) -> bool {
    scaled(amount, from, to).is_none() || from.abs_diff(to) > 19
}

fn domain(thorough: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=12).collect();
    v.extend([99, 100, 101, 255, 256, 257, 65535, 65536, 123_456_789_012_345_678]);
    for e in 0..20u32 {
        let p = p10(e);
        for m in if thorough { (1..=20u128).collect::<Vec<_>>() } else { vec![1, 5, 9] } {
            for d in -1i128..=1 {
                v.push((m as i128 * p as i128 + d).clamp(0, u64::MAX as i128) as u64);
            }
        }
        let q = u64::MAX / p as u64;
        v.extend([q.saturating_sub(1), q, q.saturating_add(1)]);
    }
    for b in 0..64 {
        v.extend([1u64 << b, (1u64 << b) - 1, (1u64 << b).wrapping_add(1)]);
    }
    v.extend([u64::MAX, u64::MAX - 1, u64::MAX - 9, u64::MAX - 10, i64::MAX as u64, i64::MAX as u64 + 1]);
    if thorough {
        v.extend(0..2048);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Runs code that must not panic.
fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

pub fn c16(r: &mut Run) {
    r.focus(&["*"]);
    std::panic::set_hook(Box::new(|_| {}));
    let dom = domain(r.thorough);
    let n = dom.len();
    // one case: one pair of decimals, all amounts in ascending order
    r.sweep("decimals-pairs", 65536, |i| {
        let (from, to) = ((i / 256) as u8, (i % 256) as u8);
        let mut c = Case::new(move || format!("decimals {from} -> {to}, {n} amounts"));
        let keep = 8.min(from).min(to);
        let mut last: Option<u64> = None;
        for &a in &dom {
            let at = || format!("amount {a}, decimals {from} -> {to}");
            // trim
            let Some(t) = call(|| TrimmedAmount::trim(a, from, to)) else {
                c.fail("trim", "panic", format!("{}: panics", at()));
                return c;
            };
            let want = scaled(a, from, keep);
            match &t {
                Ok(t) => {
                    if t.decimals != keep || Some(t.amount) != want || t.amount() != t.amount {
                        c.fail("trim", "value", format!("{}: {t:?}, expected {want:?} with {keep} decimals", at()));
                    }
                    if last.is_some_and(|l| t.amount < l) {
                        c.fail("trim", "monotone", format!("{}: {} after {last:?}", at(), t.amount));
                    }
                    last = Some(t.amount);
                }
                Err(_) if may_fail(a, from, keep) => {}
                Err(e) => c.fail("trim", "rejected", format!("{}: {e:?}, expected {want:?}", at())),
            }
            c.steps += 1;
            // removing dust
            let mut left = a;
            let Some(d) = call(|| TrimmedAmount::remove_dust(&mut left, from, to)) else {
                c.fail("remove_dust", "panic", format!("{}: panics", at()));
                return c;
            };
            c.steps += 1;
            match (&d, &t) {
                (Ok(d), Ok(t)) => {
                    // unit of the kept decimals, larger than any amount if it does not fit
                    let unit = p10(((from - keep) as u32).min(38));
                    let largest = (a as u128 / unit * unit) as u64;
                    if d.amount != t.amount || d.decimals != keep || left != largest {
                        c.fail("remove_dust", "value", format!("{}: {left} and {d:?}, expected {largest}", at()));
                    }
                    // the trimmed amount scaled back is exactly what was kept
                    match call(|| d.untrim(from)) {
                        Some(Ok(b)) if b == left => {}
                        x => c.fail("untrim", "round-trip", format!("{}: {x:?} instead of {left}", at())),
                    }
                    // idempotent
                    match call(|| TrimmedAmount::trim(left, from, to)) {
                        Some(Ok(x)) if x.amount == d.amount && x.decimals == d.decimals => {}
                        x => c.fail("trim", "idempotent", format!("{}: {x:?} instead of {d:?}", at())),
                    }
                    // to the other side and back
                    if let Some(Ok(there)) = call(|| d.untrim(to)) {
                        match call(|| TrimmedAmount::trim(there, to, from)) {
                            Some(Ok(x)) if x.amount == d.amount && x.decimals == keep => {}
                            x => c.fail("trim", "return", format!("{}: {x:?} instead of {d:?}", at())),
                        }
                        c.steps += 1;
                    }
                    c.steps += 3;
                    c.accepted += 1;
                }
                (Err(_), Err(_)) => c.rejected += 1,
                _ => c.fail("remove_dust", "agrees", format!("{}: {d:?}, but trim gives {t:?}", at())),
            }
            // scaling any stored amount to any decimals
            let stored = TrimmedAmount::new(a, from);
            if stored.amount != a || stored.decimals != from {
                c.fail("new", "value", format!("{}: {stored:?}", at()));
            }
            let want = scaled(a, from, to);
            match call(|| stored.untrim(to)) {
                Some(Ok(x)) if Some(x) == want => {}
                Some(Err(_)) if may_fail(a, from, to) => {}
                x => c.fail("untrim", "value", format!("{}: {x:?}, expected {want:?}", at())),
            }
            match call(|| stored.change_decimals(to)) {
                Some(Ok(x)) if Some(x.amount) == want && x.decimals == to => {}
                Some(Err(_)) if may_fail(a, from, to) => {}
                x => c.fail("change_decimals", "value", format!("{}: {x:?}, expected {want:?}", at())),
            }
            c.steps += 2;
            if c.divs.len() > 4 {
                return c;
            }
        }
        let mut h = KeyHasher::new();
        h.add(&(from, to));
        c.key.push(h.finish());
        c
    });
}
