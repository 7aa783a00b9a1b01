//! Driver of Dates.tla.

use crate::common::*;
use plotline_plugin_interval::{
    date::{BigEndianDate, Date, LittleEndianDate},
    Interval, IntervalSearchTree,
};
use serde_json::{json, Value};
use std::{
    cmp::Ordering,
    collections::BTreeSet,
    mem::size_of,
    panic::{catch_unwind, AssertUnwindSafe},
};

pub fn run(steps: &[Value]) -> Vec<Value> {
    let kind = steps[0].get("kind").and_then(Value::as_str).unwrap_or("u8");
    match kind {
        "u8" => sized(steps, |v| v as u8),
        "i64" => sized(steps, |v| if v > 2 { i64::MAX - 100 + v as i64 } else { i64::MIN + v as i64 - 1 }),
        "negative" => sized(steps, |v| v as i32 - 1000),
        "str" => {
            static TEXT: &str = "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb";
            sized(steps, |v| &TEXT[..v as usize])
        }
        "reverse" => sized(steps, |v| std::cmp::Reverse(200 - v as u8)),
        "pair" => sized(steps, |v| (v as u8 / 3, v as i8 % 3 - 1)),
        "bool" => sized(steps, |v| v > 1),
        other => panic!("HARNESS: kind {other}"),
    }
}

fn sized<C: Copy + Ord>(steps: &[Value], map: impl Fn(u32) -> C) -> Vec<Value> {
    match num(&steps[0], "n") {
        0 => endian::<0, C>(steps, map),
        1 => endian::<1, C>(steps, map),
        2 => endian::<2, C>(steps, map),
        3 => endian::<3, C>(steps, map),
        4 => endian::<4, C>(steps, map),
        5 => endian::<5, C>(steps, map),
        6 => endian::<6, C>(steps, map),
        7 => endian::<7, C>(steps, map),
        8 => endian::<8, C>(steps, map),
        9 => endian::<9, C>(steps, map),
        12 => endian::<12, C>(steps, map),
        17 => endian::<17, C>(steps, map),
        n => panic!("HARNESS: length {n}"),
    }
}

fn endian<const N: usize, C: Copy + Ord>(steps: &[Value], map: impl Fn(u32) -> C) -> Vec<Value> {
    let array = |d: &[u32]| -> [C; N] {
        let v: Vec<C> = d.iter().map(|v| map(*v)).collect();
        v.try_into().unwrap_or_else(|_| panic!("HARNESS: date"))
    };
    match text(&steps[0], "endian") {
        "big" => perform(steps, |d| date::<N, C, BigEndianDate<N, C>>(array(d))),
        _ => perform(steps, |d| date::<N, C, LittleEndianDate<N, C>>(array(d))),
    }
}

/// Dates cannot be made in any other way: the type has no constructor. It holds its components and
/// nothing else.
fn date<const N: usize, C: Copy, D: Copy>(components: [C; N]) -> D {
    assert_eq!(size_of::<[C; N]>(), size_of::<D>(), "HARNESS: a date is more than its components");
    unsafe { std::mem::transmute_copy(&components) }
}

/// A period between two dates.
#[derive(PartialEq)]
struct Period<D>(D, D);
impl<D: Copy + Ord> Interval for Period<D> {
    type Bound = D;
    fn lo(&self) -> D {
        self.0
    }
    fn hi(&self) -> D {
        self.1
    }
}

fn order<D: Ord>(a: &D, b: &D) -> Value {
    let c = a.cmp(b);
    let agree = a.partial_cmp(b) == Some(c)
        && (a == b) == c.is_eq()
        && (a != b) == c.is_ne()
        && (a < b) == c.is_lt()
        && (a <= b) == c.is_le()
        && (a > b) == c.is_gt()
        && (a >= b) == c.is_ge()
        && (a.max(b) == a) == (c.is_ge())
        && (a.min(b) == a) == (c.is_le());
    match c {
        _ if !agree => json!("comparisons disagree"),
        Ordering::Less => json!(-1),
        Ordering::Equal => json!(0),
        Ordering::Greater => json!(1),
    }
}

fn perform<const N: usize, C: Copy + Ord, E: Copy>(
    steps: &[Value],
    make: impl Fn(&[u32]) -> Date<N, C, E>,
) -> Vec<Value>
where
    Date<N, C, E>: Ord + Copy + Interval<Bound = Date<N, C, E>>,
{
    let mut dates: Vec<Date<N, C, E>> = vec![];
    let mut codes: Vec<Vec<u32>> = vec![];
    let mut out = vec![];
    for step in steps {
        let mut entry = step.clone();
        entry.as_object_mut().expect("HARNESS: step").remove("x");
        let done = catch_unwind(AssertUnwindSafe(|| {
            match text(step, "a") {
                "Init" => {}
                "Add" => {
                    let code = nums(&step["d"]);
                    dates.push(make(&code));
                    codes.push(code);
                }
                other => panic!("HARNESS: action {other}"),
            }
            let all = 0..dates.len();
            let c: Vec<Vec<Value>> =
                all.clone().map(|i| all.clone().map(|j| order(&dates[i], &dates[j])).collect()).collect();
            let mut at: Vec<usize> = all.clone().collect();
            at.sort_by_key(|i| dates[*i]);
            let mut s = json!(at.iter().map(|i| codes[*i].clone()).collect::<Vec<_>>());
            let distinct: BTreeSet<&Vec<u32>> = codes.iter().collect();
            if dates.iter().collect::<BTreeSet<_>>().len() != distinct.len() {
                s = json!("a set of dates disagrees with their equality");
            }
            let mut points = IntervalSearchTree::default();
            let mut periods = IntervalSearchTree::default();
            for date in &dates {
                points.insert(*date);
                periods.insert(Period(*date, *date));
            }
            let p: Vec<Value> = all
                .clone()
                .map(|i| {
                    let date = dates[i];
                    if date.lo() != date || date.hi() != date {
                        return json!("a date is not the interval of itself");
                    }
                    let mut n = 0;
                    let mut same = true;
                    points.for_each_intersection(&date, |hit| {
                        n += 1;
                        same &= *hit == date;
                    });
                    if same && points.intersects(&date) { json!(n) } else { json!("a date meets another") }
                })
                .collect();
            let b: Vec<Vec<usize>> = all
                .clone()
                .map(|i| {
                    all.clone()
                        .map(|j| {
                            let mut n = 0;
                            if c[i][j] != json!(1) {
                                periods.for_each_intersection(&Period(dates[i], dates[j]), |_| n += 1);
                            }
                            n
                        })
                        .collect()
                })
                .collect();
            json!({"c": c, "s": s, "p": p, "b": b})
        }));
        match done {
            Ok(x) => {
                entry["x"] = x;
                out.push(entry);
            }
            Err(p) => {
                entry["unexpected"] = json!(describe(&*p));
                out.push(entry);
                break;
            }
        }
    }
    out
}
