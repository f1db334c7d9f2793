//! C01 prime fields, C02 rationals, C03 heap columns.
use core_checks::raw::*;
use core_checks::tf::*;
use mc::la::Sc;
use mc::*;
use ordered_float::NotNan;
use phlite::columns::{BHCol, ColumnEntry};
use phlite::fields::*;
use phlite::matrices::FiltrationValue;
use std::cmp::Reverse;
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------------------------------- C01

fn chk_opt<F: TF>(got: Option<F>, want: Sc, what: &str) -> Res {
    ensure_eq!(sc_opt(got), want, "{what}");
    // one representation per element
    ensure!(got == F::of_opt(want), "{what}: result is not identical to the canonical element {:?}", want);
    Ok(())
}

fn field_laws<F: TF>(mc: &mut Mc) {
    let p = F::P as i64;
    let el = |k: i64| F::int(k).unwrap();
    let s = |k: i64| Sc::int(k as i128, F::P);
    mc.family(&format!("{}-unary", F::NAME), "every element: inverse, negation, sum with nothing, multiples of one", |fam| {
        for a in 1..p {
            fam.case(
                || format!("{} element {a}", F::NAME),
                |r| {
                    let x = el(a);
                    r.state(&(F::NAME, a));
                    // multiples of one are pairwise different and reach nothing exactly at p
                    for b in 1..p {
                        ensure!((x == el(b)) == (a == b), "elements {a} and {b} equal: {}", x == el(b));
                    }
                    chk_opt(F::one() + x, s(a + 1), &format!("1 + {a}"))?;
                    chk_opt(x + None, s(a), &format!("{a} + nothing"))?;
                    ensure_eq!(x.additive_inverse().sc(), s(-a), "-({a})");
                    ensure_eq!(x.additive_inverse(), el(-a), "-({a})");
                    ensure_eq!(x.mult_inverse().sc(), s(a).inv(), "1/({a})");
                    ensure_eq!(x * x.mult_inverse(), F::one(), "{a} * 1/{a}");
                    ensure_eq!(x.mult_inverse() * x, F::one(), "1/{a} * {a}");
                    ensure_eq!(x + x.additive_inverse(), None, "{a} - {a}");
                    ensure_eq!(x.additive_inverse() + x, None, "-{a} + {a}");
                    ensure_eq!(x * F::one(), x, "{a} * 1");
                    ensure_eq!(F::one() * x, x, "1 * {a}");
                    ensure_eq!(x.mult_inverse().mult_inverse(), x, "double inverse of {a}");
                    ensure_eq!(x.additive_inverse().additive_inverse(), x, "double negation of {a}");
                    r.step(13);
                    Ok(())
                },
            );
        }
    });
    mc.family(&format!("{}-pairs", F::NAME), "every ordered pair: + and *, plain and optional operand", |fam| {
        for a in 1..p {
            for b in 1..p {
                fam.case(
                    || format!("{} pair {a},{b}", F::NAME),
                    |r| {
                        let (x, y) = (el(a), el(b));
                        r.state(&(F::NAME, a, b));
                        chk_opt(x + y, s(a + b), &format!("{a} + {b}"))?;
                        chk_opt(x + Some(y), s(a + b), &format!("{a} + Some({b})"))?;
                        ensure_eq!((x * y).sc(), s(a * b), "{a} * {b}");
                        ensure_eq!(x * y, el(a * b), "{a} * {b}");
                        chk_opt(x + y.additive_inverse(), s(a - b), &format!("{a} - {b}"))?;
                        ensure_eq!((x * y.mult_inverse()).sc(), s(a).mul(s(b).inv()), "{a} / {b}");
                        ensure_eq!((x * y).mult_inverse(), x.mult_inverse() * y.mult_inverse(), "1/({a}*{b})");
                        r.step(7);
                        Ok(())
                    },
                );
            }
        }
    });
    mc.family(&format!("{}-triples", F::NAME), "every ordered triple: associativity, distributivity", |fam| {
        let add = |x: Option<F>, y: Option<F>| match (x, y) {
            (None, y) => y,
            (Some(x), y) => x + y,
        };
        for a in 1..p {
            for b in 1..p {
                fam.case(
                    || format!("{} triples {a},{b},*", F::NAME),
                    |r| {
                        for c in 1..p {
                            let (x, y, z) = (el(a), el(b), el(c));
                            chk_opt(add(add(Some(x), Some(y)), Some(z)), s(a + b + c), &format!("({a}+{b})+{c}"))?;
                            chk_opt(add(Some(x), add(Some(y), Some(z))), s(a + b + c), &format!("{a}+({b}+{c})"))?;
                            ensure_eq!((x * y) * z, el(a * b * c), "({a}*{b})*{c}");
                            ensure_eq!(x * (y * z), el(a * b * c), "{a}*({b}*{c})");
                            chk_opt((y + z).map(|t| x * t), s(a * (b + c)), &format!("{a}*({b}+{c})"))?;
                            chk_opt(x * y + x * z, s(a * (b + c)), &format!("{a}*{b}+{a}*{c}"))?;
                            r.state(&(F::NAME, a, b, c));
                            r.step(6);
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

pub fn c01(mc: &mut Mc) {
    field_laws::<Z2>(mc);
    field_laws::<Z3>(mc);
    field_laws::<Z5>(mc);
    field_laws::<Z7>(mc);
    field_laws::<Z11>(mc);
    field_laws::<Z13>(mc);
}

// ------------------------------------------------------------------------------------------------------------- C02

fn q_chk(got: Option<Q>, want: Sc, what: &str) -> Res {
    match got {
        None => ensure!(want.is_zero(), "{what}: got nothing, expected {:?}", want),
        Some(g) => {
            ensure!(!want.is_zero(), "{what}: got {:?}, expected nothing", g);
            ensure!(g == Q::of(want), "{what}: got {:?}, expected {:?}", g, want);
        }
    }
    Ok(())
}

fn q_pair(a: Sc, b: Sc) -> Res {
    let (x, y) = (Q::of(a), Q::of(b));
    q_chk(x + y, a.add(b), &format!("{a:?} + {b:?}"))?;
    q_chk(x + Some(y), a.add(b), &format!("{a:?} + Some({b:?})"))?;
    q_chk(x + y.additive_inverse(), a.add(b.neg()), &format!("{a:?} - {b:?}"))?;
    q_chk(Some(x * y), a.mul(b), &format!("{a:?} * {b:?}"))?;
    q_chk(Some(x * y.mult_inverse()), a.mul(b.inv()), &format!("{a:?} / {b:?}"))?;
    ensure!((x == y) == (a == b), "{a:?} == {b:?} answered {}", x == y);
    Ok(())
}

pub fn c02(mc: &mut Mc) {
    let n: i128 = if mc.thorough { 80 } else { 40 };
    let mut all = vec![];
    for d in 1..=n {
        for k in 1..=n {
            for s in [k, -k] {
                if la::gcd(k, d) == 1 {
                    all.push(Sc::new(s, d, 0));
                }
            }
        }
    }
    mc.family("q-unary", &format!("all a/b with |a|,b <= {n}: inverse, negation, uniqueness of representation"), |fam| {
        for &a in &all {
            fam.case(
                || format!("rational {a:?}"),
                |r| {
                    let x = Q::of(a);
                    r.state(&a);
                    q_chk(Some(x), a, "construction")?;
                    q_chk(Some(x.mult_inverse()), a.inv(), &format!("1/({a:?})"))?;
                    q_chk(Some(x.additive_inverse()), a.neg(), &format!("-({a:?})"))?;
                    q_chk(x + None, a, &format!("{a:?} + nothing"))?;
                    ensure_eq!(x * x.mult_inverse(), Q::one(), "x * 1/x for {a:?}");
                    ensure_eq!(x + x.additive_inverse(), None, "x - x for {a:?}");
                    ensure_eq!(x.mult_inverse().mult_inverse(), x, "double inverse of {a:?}");
                    // the same number reached through other fractions
                    for k in [2i64, 3, -1, -6] {
                        let num = Q::int(a.n as i64 * k).unwrap();
                        let den = Q::int(a.d as i64 * k).unwrap();
                        ensure_eq!(num * den.mult_inverse(), x, "{}/{} against {a:?}", a.n * k as i128, a.d * k as i128);
                        ensure_eq!(den.mult_inverse() * num, x, "1/{} * {} against {a:?}", a.d * k as i128, a.n * k as i128);
                    }
                    r.step(15);
                    Ok(())
                },
            );
        }
    });
    mc.family("q-pairs", &format!("all ordered pairs of a/b with |a|,b <= {n}: +, -, *, /, =="), |fam| {
        for &a in &all {
            fam.case(
                || format!("pairs {a:?}, *"),
                |r| {
                    for &b in &all {
                        q_pair(a, b)?;
                        r.state(&(a, b));
                        r.step(6);
                    }
                    Ok(())
                },
            );
        }
    });
    mc.family("q-large", "pairs of large fractions whose cross products fit in a machine word", |fam| {
        let mut big: Vec<Sc> = vec![];
        let ks: Vec<i128> = vec![
            1, 2, 3, 7, 12, 255, 256, 65_535, 65_536, 1_000_003, 16_777_217, (1 << 31) - 1, 1 << 31, (1 << 31) + 11, 1 << 32,
            (1 << 32) + 15, (1 << 53) + 1, 1 << 60, (1 << 61) - 1, 1 << 61,
        ];
        for &a in &ks {
            for &b in &ks {
                for s in [1, -1] {
                    let x = Sc::new(s * a, b, 0);
                    if !big.contains(&x) {
                        big.push(x);
                    }
                }
            }
        }
        let lim = (1i128 << 63) - 1;
        for &a in &big {
            fam.case(
                || format!("large pairs {a:?}, *"),
                |r| {
                    for &b in &big {
                        let fits = |x: i128| x.abs() <= lim;
                        if !(fits(a.n * b.d)
                            && fits(b.n * a.d)
                            && fits(a.d * b.d)
                            && fits(a.n * b.n)
                            && fits(a.n * b.d + b.n * a.d)
                            && fits(a.n * b.d - b.n * a.d))
                        {
                            continue;
                        }
                        q_pair(a, b)?;
                        r.state(&(a, b));
                        r.step(6);
                    }
                    Ok(())
                },
            );
        }
    });
    let depth = if mc.thorough { 7 } else { 6 };
    mc.family("q-histories", &format!("all operation sequences of length <= {depth} on an accumulator and a saved value, from one"), |fam| {
        // ops: 0 acc+1, 1 acc-1, 2 acc*2, 3 1/acc, 4 -acc, 5 save, 6 acc+saved, 7 acc*saved, 8 acc/saved
        words_upto(9, depth, |w| {
            let w = w.to_vec();
            fam.case(
                || format!("operations {w:?}"),
                |r| {
                    let (mut a, mut s) = (Sc::int(1, 0), Sc::int(1, 0));
                    let (mut x, mut y) = (Q::one(), Q::one());
                    for &op in &w {
                        let (na, nx) = match op {
                            0 => (a.add(Sc::int(1, 0)), x + Q::one()),
                            1 => (a.add(Sc::int(-1, 0)), x + Q::one().additive_inverse()),
                            2 => (a.add(a), x + x),
                            3 => (a.inv(), Some(x.mult_inverse())),
                            4 => (a.neg(), Some(x.additive_inverse())),
                            5 => {
                                s = a;
                                y = x;
                                (a, Some(x))
                            }
                            6 => (a.add(s), x + y),
                            7 => (a.mul(s), Some(x * y)),
                            _ => (a.mul(s.inv()), Some(x * y.mult_inverse())),
                        };
                        q_chk(nx, na, &format!("after operation {op} of {w:?}"))?;
                        r.step(1);
                        let Some(nx) = nx else { return Ok(()) };
                        a = na;
                        x = nx;
                        r.state(&(a, s));
                    }
                    Ok(())
                },
            );
        });
    });
}

// ------------------------------------------------------------------------------------------------------------- C03

#[derive(Clone, Copy, Debug)]
enum Op {
    Add(usize, Sc),
    /// batch of (row, coefficient) pairs; variant selects the method and the kind of iterator
    Batch(&'static [(usize, i64)], u8),
    Pop,
    ClonePivot,
    Drain(usize),
    DrainDropped,
}

type Model = BTreeMap<usize, Sc>;

fn m_add(m: &mut Model, r: usize, c: Sc) {
    let e = m.entry(r).or_insert(Sc::zero(c.p));
    *e = e.add(c);
    if e.is_zero() {
        m.remove(&r);
    }
}
fn m_top(m: &Model, f: &[usize]) -> Option<(usize, Sc)> {
    m.iter().max_by_key(|(r, _)| (f[**r], **r)).map(|(r, c)| (*r, *c))
}
fn m_pop(m: &mut Model, f: &[usize]) -> Option<(usize, Sc)> {
    let t = m_top(m, f)?;
    m.remove(&t.0);
    Some(t)
}

fn show<FT: FiltrationValue, F: TF>(e: Option<&ColumnEntry<FT, usize, F>>, unf: &impl Fn(&FT) -> usize) -> Option<(usize, Sc, usize)> {
    e.map(|e| (e.row_index, e.coeff.sc(), unf(&e.filtration_value)))
}

/// One step on implementation and model.
fn apply<FT: FiltrationValue, F: TF>(
    op: Op,
    col: &mut BHCol<FT, usize, F>,
    m: &mut Model,
    f: &[usize],
    fil: &impl Fn(usize) -> FT,
    unf: &impl Fn(&FT) -> usize,
) -> Res {
    let want = |t: Option<(usize, Sc)>| t.map(|(r, c)| (r, c, f[r]));
    match op {
        Op::Add(r, c) => {
            if c.n % 2 == 0 {
                col.add_tuple((F::of(c), r, fil(r)));
            } else {
                col.add_entry((F::of(c), r, fil(r)).into());
            }
            m_add(m, r, c);
        }
        Op::Batch(terms, kind) => {
            let list: Vec<(F, usize, FT)> =
                terms.iter().filter_map(|(r, c)| Some((F::int(*c)?, *r, fil(*r)))).collect();
            match kind {
                0 => col.add_tuples(list),
                1 => col.add_entries(list.into_iter().map(ColumnEntry::from)),
                // no lower size bound
                _ => col.add_entries(list.into_iter().map(ColumnEntry::from).filter(|_| true)),
            }
            for (r, c) in terms {
                let c = Sc::int(*c as i128, F::P);
                if !c.is_zero() {
                    m_add(m, *r, c);
                }
            }
        }
        Op::Pop => {
            let g = col.pop_pivot();
            ensure_eq!(show(g.as_ref(), unf), want(m_pop(m, f)), "pop_pivot (row, coefficient, filtration)");
        }
        Op::ClonePivot => {
            let w = want(m_top(m, f));
            let g = col.clone_pivot();
            ensure_eq!(show(g.as_ref(), unf), w, "clone_pivot (row, coefficient, filtration)");
            if w.is_some() {
                let p = show(col.peek_pivot(), unf);
                ensure_eq!(p, w, "peek_pivot after clone_pivot");
            }
        }
        Op::Drain(k) => {
            let g: Vec<_> = col.drain_sorted().take(k).map(|e| show(Some(&e), unf).unwrap()).collect();
            let w: Vec<_> = (0..k).map_while(|_| want(m_pop(m, f))).collect();
            ensure_eq!(g, w, "first {k} of drain_sorted");
        }
        Op::DrainDropped => {
            let d = col.drain_sorted();
            drop(d);
        }
    }
    Ok(())
}

fn final_check<FT: FiltrationValue, F: TF>(
    col: &BHCol<FT, usize, F>,
    m: &Model,
    f: &[usize],
    unf: &impl Fn(&FT) -> usize,
    via_vec: bool,
) -> Res {
    let mut m = m.clone();
    let mut w = vec![];
    while let Some((r, c)) = m_pop(&mut m, f) {
        w.push((r, c, f[r]));
    }
    let g: Vec<_> = if via_vec {
        col.clone().to_sorted_vec().iter().map(|e| show(Some(e), unf).unwrap()).collect()
    } else {
        let mut c = col.clone();
        let g = c.drain_sorted().map(|e| show(Some(&e), unf).unwrap()).collect();
        ensure!(c.pop_pivot().is_none(), "pop_pivot after a full drain still finds a term");
        g
    };
    ensure_eq!(g, w, "remaining terms in decreasing order");
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn dfs<FT: FiltrationValue, F: TF>(
    ops: &[Op],
    depth: usize,
    hist: &mut Vec<Op>,
    col: &BHCol<FT, usize, F>,
    m: &Model,
    f: &[usize],
    fil: &impl Fn(usize) -> FT,
    unf: &impl Fn(&FT) -> usize,
    r: &mut Rec,
) -> Res {
    for &op in ops {
        let mut c2 = col.clone();
        let mut m2 = m.clone();
        hist.push(op);
        r.step(1);
        apply(op, &mut c2, &mut m2, f, fil, unf).map_err(|e| format!("history {hist:?}: {e}"))?;
        if depth <= 1 {
            final_check(&c2, &m2, f, unf, hist.len() % 2 == 0).map_err(|e| format!("history {hist:?}: {e}"))?;
            r.trace(1);
        } else {
            r.state(&(F::NAME, f, format!("{m2:?}"), hist.len()));
            dfs(ops, depth - 1, hist, &c2, &m2, f, fil, unf, r)?;
        }
        hist.pop();
    }
    Ok(())
}

const B1: &[(usize, i64)] = &[(0, 1), (2, 1), (0, 1)];
const B2: &[(usize, i64)] = &[(2, 1), (1, 1), (2, -1)];
const B3: &[(usize, i64)] = &[(1, 2), (1, 1), (1, 1), (0, -1)];
const B4: &[(usize, i64)] = &[(2, 1), (1, 1), (0, 1), (0, -1), (1, -1), (2, -1)];
const B5: &[(usize, i64)] = &[];

fn heap_histories<F: TF, FT: FiltrationValue>(
    mc: &mut Mc,
    ftname: &str,
    depth: usize,
    coeffs: &[Sc],
    weak: bool,
    fil: impl Fn(usize) -> FT + Copy,
    unf: impl Fn(&FT) -> usize + Copy,
    fixed: Option<Vec<usize>>,
) {
    let mut ops = vec![];
    for r in 0..3 {
        for c in coeffs {
            ops.push(Op::Add(r, *c));
        }
    }
    ops.extend([Op::Pop, Op::ClonePivot, Op::Drain(2), Op::DrainDropped]);
    for (i, b) in [B1, B2, B3, B4, B5].into_iter().enumerate() {
        ops.push(Op::Batch(b, (i % 3) as u8));
    }
    let name = format!("heap-{}-{}", F::NAME, ftname);
    let bound = format!("all sequences of {depth} out of {} operations on 3 rows, {}", ops.len(), if weak { "13 filtrations" } else { "one filtration" });
    mc.family(&name, &bound, |fam| {
        let mut go = |f: &[usize]| {
            for &a in &ops {
                for &b in &ops {
                    let f = f.to_vec();
                    let ops = &ops;
                    fam.case(
                        || format!("{} heap, row filtration {f:?}, histories starting {a:?}, {b:?}", F::NAME),
                        |r| {
                            let lift = |row: usize| fil(f[row]);
                            let mut col: BHCol<FT, usize, F> = BHCol::default();
                            let mut m = Model::new();
                            let mut hist = vec![];
                            for op in [a, b] {
                                hist.push(op);
                                apply(op, &mut col, &mut m, &f, &lift, &unf).map_err(|e| format!("history {hist:?}: {e}"))?;
                                r.step(1);
                            }
                            dfs(ops, depth - 2, &mut hist, &col, &m, &f, &lift, &unf, r)
                        },
                    );
                }
            }
        };
        if let Some(f) = fixed {
            go(&f)
        } else if weak {
            weak_orders(3, |f| go(f));
        } else {
            go(&[1, 0, 1]);
        }
    });
}


fn tall_heap<F: TF>(mc: &mut Mc, sizes: &[usize]) {
    let name = format!("tall-{}", F::NAME);
    mc.family(&name, &format!("heaps of up to {} rows, 4 insertion orders, 5 cancellation patterns, 3 filtrations", sizes.last().unwrap()), |fam| {
        for &n in sizes {
            for order in 0..4 {
                for pat in 0..5 {
                    for fk in 0..3 {
                        fam.case(
                            || format!("{} tall heap n={n} order={order} pattern={pat} filtration={fk}", F::NAME),
                            |r| {
                                let f: Vec<usize> = (0..n)
                                    .map(|i| match fk {
                                        0 => 0,
                                        1 => n - i,
                                        _ => (i * 7) % 5,
                                    })
                                    .collect();
                                let rows = tall_order(n, order);
                                let mut m = Model::new();
                                let mut col: BHCol<usize, usize, F> = BHCol::default();
                                let p = if F::P > 0 { F::P as usize } else { 4 };
                                let mut put = |r: usize, c: i64, col: &mut BHCol<usize, usize, F>| {
                                    if let Some(x) = F::int(c) {
                                        col.add_tuple((x, r, f[r]));
                                        m_add(&mut m, r, Sc::int(c as i128, F::P));
                                    }
                                };
                                for (i, &row) in rows.iter().enumerate() {
                                    match pat {
                                        // every row once
                                        0 => put(row, 1, &mut col),
                                        // all cancel
                                        1 => {
                                            put(row, 1, &mut col);
                                            put(rows[n - 1 - i], -1, &mut col);
                                        }
                                        // all cancel but the least
                                        2 => {
                                            put(row, 1, &mut col);
                                            if row != 0 {
                                                put(row, -1, &mut col);
                                            }
                                        }
                                        // p copies cancel, p+1 do not
                                        3 => {
                                            for _ in 0..(p + (row % 3 == 0) as usize) {
                                                put(row, 1, &mut col);
                                            }
                                            if F::P == 0 {
                                                put(row, -(p as i64), &mut col);
                                            }
                                        }
                                        // two interleaved passes
                                        _ => {
                                            put(row, (i % 3) as i64 + 1, &mut col);
                                            put((row * 3 + 1) % n, 1, &mut col);
                                        }
                                    }
                                }
                                let top = m_top(&m, &f).map(|(r, c)| (r, c, f[r]));
                                let unf = |x: &usize| *x;
                                let mut c2 = col.clone();
                                ensure_eq!(show(c2.clone_pivot().as_ref(), &unf), top, "clone_pivot");
                                if top.is_some() {
                                    ensure_eq!(show(c2.peek_pivot(), &unf), top, "peek_pivot after clone_pivot");
                                }
                                final_check(&c2, &m, &f, &unf, false)?;
                                final_check(&col, &m, &f, &unf, true)?;
                                r.step(n + 2);
                                r.state(&(n, order, pat, fk, F::NAME));
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    });
}

/// Heaps with very many terms: counters of any width below the number of terms would show.
fn huge_heap<F: TF>(mc: &mut Mc, sizes: &[usize]) {
    mc.family(
        &format!("huge-{}", F::NAME),
        &format!("heaps of up to {} terms: 7 shapes (one row, two rows, all rows, many copies, cancelling pairs, runs), pivots cloned and popped one by one or drained, column cloned or not", sizes.last().unwrap()),
        |fam| {
            for &n in sizes {
                for shape in 0..7usize {
                    for way in 0..4usize {
                        fam.case(
                            || format!("{} huge heap n={n} shape={shape} way={way}", F::NAME),
                            |r| {
                                let terms: Vec<(usize, i64)> = (0..n)
                                    .map(|i| match shape {
                                        0 => (3, 1),
                                        1 => (i % 2, 1 + (i / 2 % 2) as i64),
                                        2 => (i, 1),
                                        3 => (i / 256, 1),
                                        4 => (i / 2 * 2, if i % 2 == 0 { 1 } else { -1 }),
                                        5 => (n - i, 1),
                                        // one long run below a few single rows
                                        _ => (if i < 3 { n + i } else { 5 }, 1),
                                    })
                                    .collect();
                                let filt = |row: usize| if shape == 2 { row % 3 } else { row };
                                let mut tot: std::collections::HashMap<usize, i64> = Default::default();
                                let mut col: BHCol<usize, usize, F> = BHCol::default();
                                let list = terms.iter().filter_map(|(row, c)| {
                                    let x = F::int(*c)?;
                                    *tot.entry(*row).or_insert(0) += c;
                                    Some((x, *row, filt(*row)))
                                });
                                match way {
                                    0 => col.add_tuples(list),
                                    1 => list.for_each(|t| col.add_tuple(t)),
                                    2 => col.add_entries(list.map(ColumnEntry::from)),
                                    _ => {
                                        // in two batches, pivot asked in between
                                        let l: Vec<_> = list.collect();
                                        col.add_tuples(l[..n / 2].iter().cloned());
                                        let _ = col.clone_pivot();
                                        col.add_tuples(l[n / 2..].iter().cloned());
                                    }
                                }
                                let mut want: Vec<_> = tot
                                    .into_iter()
                                    .map(|(row, c)| (filt(row), row, Sc::int(c as i128, F::P)))
                                    .filter(|t| !t.2.is_zero())
                                    .collect();
                                want.sort();
                                want.reverse();
                                let e3 = |e: &ColumnEntry<usize, usize, F>| (e.filtration_value, e.row_index, e.coeff.sc());
                                let got: Vec<_> = match way {
                                    0 => {
                                        let mut v = vec![];
                                        loop {
                                            let c = col.clone_pivot().as_ref().map(e3);
                                            let p = col.pop_pivot().as_ref().map(e3);
                                            ensure_eq!(c, p, "clone_pivot and pop_pivot");
                                            let Some(p) = p else { break v };
                                            v.push(p);
                                        }
                                    }
                                    1 => col.drain_sorted().map(|e| e3(&e)).collect(),
                                    2 => col.clone().to_sorted_vec().iter().map(e3).collect(),
                                    _ => {
                                        let c2 = col.clone();
                                        let mut v: Vec<_> = col.drain_sorted().take(2).map(|e| e3(&e)).collect();
                                        v.extend(col.to_sorted_vec().iter().map(e3));
                                        ensure_eq!(c2.to_sorted_vec().len(), want.len(), "number of terms of the clone");
                                        v
                                    }
                                };
                                ensure_eq!(got.len(), want.len(), "number of terms");
                                for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                                    ensure_eq!(g, w, "term {i} (filtration, row, coefficient)");
                                }
                                r.step(got.len() + 1);
                                r.state(&(F::NAME, n, shape, way));
                                Ok(())
                            },
                        );
                    }
                }
            }
        },
    );
}

/// An iterator whose size hint is correct and as loose as wanted.
struct Hinted<I> {
    it: I,
    left: usize,
    lo: usize,
    slack: Option<usize>,
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.it.next()?;
        self.left -= 1;
        self.lo = self.lo.saturating_sub(1);
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo.min(self.left), self.slack.map(|s| self.left.saturating_add(s)))
    }
}

fn hinted_batches<F: TF>(mc: &mut Mc, sizes: &[usize]) {
    mc.family(
        &format!("batches-{}", F::NAME),
        &format!("batches of 0 to {} terms (5 shapes) from iterators whose size hint is exact, absent, or off by one, half or all but one, added to an empty or filled column by either method", sizes.last().unwrap()),
        |fam| {
            for &n in sizes {
                for shape in 0..5usize {
                    fam.case(
                        || format!("{} batch of {n} terms shape={shape}", F::NAME),
                        |r| {
                            let mut los = vec![0, 1, n / 2, n.saturating_sub(1), n, 33, 65];
                            los.retain(|l| *l <= n);
                            los.sort();
                            los.dedup();
                            for &lo in &los {
                                for slack in [None, Some(0), Some(1), Some(usize::MAX)] {
                                    for pre in 0..3usize {
                                        for entries in [false, true] {
                                            let terms: Vec<(usize, i64)> = (0..n)
                                                .map(|i| match shape {
                                                    0 => (i, 1),
                                                    1 => (n - i, 1),
                                                    2 => (i / 3, 1),
                                                    3 => (i / 2, if i % 2 == 0 { 1 } else { -1 }),
                                                    _ => (i * 7 % 11, 1),
                                                })
                                                .collect();
                                            let mut m = Model::new();
                                            let f: Vec<usize> = (0..n + 12).map(|i| i % 4).collect();
                                            let mut col: BHCol<usize, usize, F> = BHCol::default();
                                            for (row, c) in [(0usize, 1i64), (n + 5, 1)].into_iter().take(pre) {
                                                col.add_tuple((F::int(c).unwrap(), row, f[row]));
                                                m_add(&mut m, row, Sc::int(c as i128, F::P));
                                            }
                                            let list: Vec<(F, usize, usize)> = terms.iter().filter_map(|(row, c)| Some((F::int(*c)?, *row, f[*row]))).collect();
                                            for (row, c) in &terms {
                                                let c = Sc::int(*c as i128, F::P);
                                                if !c.is_zero() {
                                                    m_add(&mut m, *row, c);
                                                }
                                            }
                                            let it = Hinted { left: list.len(), it: list.into_iter(), lo, slack };
                                            if entries {
                                                // keeps the hint
                                                col.add_entries(it.map(ColumnEntry::from));
                                            } else {
                                                col.add_tuples(it);
                                            }
                                            final_check(&col, &m, &f, &|x: &usize| *x, entries)
                                                .map_err(|e| format!("size hint at least {lo}, slack {slack:?}, {pre} terms before, entries={entries}: {e}"))?;
                                            r.step(1);
                                        }
                                    }
                                }
                            }
                            r.state(&(F::NAME, n, shape));
                            Ok(())
                        },
                    );
                }
            }
        },
    );
}

pub fn c03(mc: &mut Mc) {
    let t = mc.thorough as usize;
    let mut batches: Vec<usize> = (0..=70).chain([99, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 512, 513, 514]).collect();
    if t == 1 {
        batches = (0..=530).chain([1023, 1024, 1025, 1030, 2049, 4097, 4100]).collect();
    }
    hinted_batches::<Z2>(mc, &batches);
    hinted_batches::<Z3>(mc, &batches);
    hinted_batches::<Q>(mc, &batches);
    hinted_batches::<Wide>(mc, &batches);
    let mut huge: Vec<usize> = vec![];
    for k in [9u32, 10, 11, 12, 13, 14, 15, 16, 17] {
        huge.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    huge.extend([100_000, 200_000]);
    if t == 1 {
        huge.extend([(1 << 18) + 1, 500_000, (1 << 20) + 1]);
    }
    huge_heap::<Z2>(mc, &huge);
    huge_heap::<Z3>(mc, &huge);
    huge_heap::<Z13>(mc, &huge);
    huge_heap::<Q>(mc, &huge);
    let k = |v: &[i128], p: i128| v.iter().map(|x| Sc::int(*x, p)).collect::<Vec<_>>();
    let id = |x: usize| x;
    let un = |x: &usize| *x;
    heap_histories::<Z2, usize>(mc, "usize", 6 + t, &k(&[1], 2), true, id, un, None);
    heap_histories::<Z3, usize>(mc, "usize", 5 + t, &k(&[1, 2], 3), true, id, un, None);
    heap_histories::<Z7, usize>(mc, "usize", 5 + t, &k(&[1, 3, 6], 7), false, id, un, None);
    heap_histories::<Z13, usize>(mc, "usize", 5 + t, &k(&[1, 12], 13), false, id, un, None);
    heap_histories::<Q, usize>(mc, "usize", 5 + t, &[Sc::int(1, 0), Sc::int(-1, 0), Sc::new(1, 2, 0)], false, id, un, None);
    heap_histories::<Wide, usize>(mc, "usize", 4 + t, &k(&[1, 65_536, 256], 65_537), true, id, un, None);
    heap_histories::<Z2, Reverse<usize>>(mc, "reversed", 5 + t, &k(&[1], 2), false, |x| Reverse(5 - x), |x| 5 - x.0, None);
    heap_histories::<Z3, NotNan<f64>>(
        mc,
        "f64",
        4,
        &k(&[1, 2], 3),
        true,
        |x| NotNan::new(x as f64 * 0.125 - 1.0).unwrap(),
        |x| ((x.into_inner() + 1.0) * 8.0) as usize,
        None,
    );
    heap_histories::<Z3, ()>(mc, "trivial", 4, &k(&[1, 2], 3), false, |_| (), |_| 0, Some(vec![0, 0, 0]));
    heap_histories::<Z2, isize>(mc, "isize", 5 + t, &k(&[1], 2), true, |x| x as isize - 1, |x| (*x + 1) as usize, None);
    let mut sizes: Vec<usize> = (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).collect();
    if mc.thorough {
        sizes = (1..=300).chain([511, 512, 513, 1000, 5000]).collect();
    }
    tall_heap::<Z2>(mc, &sizes);
    tall_heap::<Z3>(mc, &sizes);
    tall_heap::<Q>(mc, &sizes);
}

fn main() {
    mc::main(&[("C01", c01), ("C02", c02), ("C03", c03)]);
}
