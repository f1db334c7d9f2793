//! V05: the command line tool.
use crate::oracle::*;
use crate::v::{structured, KINDS};
use mc::*;
use std::io::Write;
use std::process::{Command, Stdio};

fn exe() -> String {
    std::env::var("PHLITE_RIPS_CLI").expect("PHLITE_RIPS_CLI names the tool built from /repo")
}

struct Report {
    sizes: Vec<(usize, usize)>,
    ess: Vec<(usize, Ord64)>,
    pairs: Vec<(usize, Ord64, Ord64)>,
}

fn number_after(s: &str, key: &str) -> Option<usize> {
    let t = &s[s.find(key)? + key.len()..];
    let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}

fn parse(out: &str) -> Result<Report, String> {
    let mut r = Report { sizes: vec![], ess: vec![], pairs: vec![] };
    let mut section = 0;
    for line in out.lines() {
        let l = line.trim();
        if l.is_empty() {
            continue;
        }
        if l.starts_with("Basis sizes") {
            section = 1;
        } else if l.starts_with("Essential") {
            section = 2;
        } else if l.starts_with("Pairings") {
            section = 3;
        } else if section == 1 {
            let d = number_after(l, "Dimension ").ok_or(format!("cannot read line {l:?}"))?;
            let n = l.rsplit(':').next().and_then(|x| x.trim().parse().ok()).ok_or(format!("cannot read line {l:?}"))?;
            r.sizes.push((d, n));
        } else {
            let d = number_after(l, "dim=").ok_or(format!("cannot read line {l:?}"))?;
            let f = l.rfind("f=(").ok_or(format!("cannot read line {l:?}"))?;
            let body = l[f + 3..].trim_end_matches(')');
            let mut it = body.split(',').map(|x| x.trim());
            let b: f64 = it.next().and_then(|x| x.parse().ok()).ok_or(format!("cannot read line {l:?}"))?;
            let e = it.next().ok_or(format!("cannot read line {l:?}"))?;
            if section == 2 {
                if e != "∞" {
                    return Err(format!("essential class with death {e}"));
                }
                r.ess.push((d, Ord64(b)));
            } else if section == 3 {
                let e: f64 = e.parse().map_err(|_| format!("cannot read line {l:?}"))?;
                r.pairs.push((d, Ord64(b), Ord64(e)));
            } else {
                return Err(format!("line outside any section: {l:?}"));
            }
        }
    }
    r.sizes.sort();
    r.ess.sort();
    r.pairs.sort();
    Ok(r)
}

fn csv(d: &Dist, style: usize) -> String {
    let num = |x: f64| match style {
        1 => format!("{x:e}"),
        2 => format!("{x:.6}"),
        3 => format!("\"{x}\""),
        4 => format!("+{x:?}"),
        5 => format!("{x:E}"),
        _ => format!("{x}"),
    };
    let rows: Vec<String> = d.iter().map(|r| r.iter().map(|x| num(*x)).collect::<Vec<_>>().join(",")).collect();
    match style {
        1 => rows.join("\r\n") + "\r\n",
        2 => rows.join("\n"),
        _ => rows.iter().map(|r| format!("{r}\n")).collect(),
    }
}

fn one(d: &Dist, arg: Option<usize>, style: usize, r: &mut Rec) -> Res {
    let mut c = Command::new(exe());
    if let Some(a) = arg {
        c.arg(a.to_string());
    }
    let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("start the tool");
    let _ = ch.stdin.take().unwrap().write_all(csv(d, style).as_bytes());
    let o = ch.wait_with_output().expect("run the tool");
    let what = format!("argument {arg:?}, csv style {style}");
    ensure!(o.status.success(), "{what}: the tool failed: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr));
    let rep = parse(&String::from_utf8_lossy(&o.stdout)).map_err(|e| format!("{what}: {e}"))?;
    let max_dim = arg.unwrap_or(1);
    let want_sizes: Vec<(usize, usize)> = (0..=max_dim).map(|k| (k, simplices(d.len(), k).len())).collect();
    ensure_eq!(rep.sizes, want_sizes, "{what}: basis sizes");
    let bars = if d.len() <= 5 { barcode(d, max_dim, 2) } else { barcode_sparse(d, max_dim, 2) };
    let mut ess = vec![];
    let mut pairs = vec![];
    for ((k, b, e), m) in bars {
        for _ in 0..m {
            match e {
                None => ess.push((k, b)),
                Some(e) if e.0 - b.0 > 0.01 => pairs.push((k, b, e)),
                _ => {}
            }
        }
    }
    ess.sort();
    pairs.sort();
    ensure_eq!(rep.ess, ess, "{what}: essential classes");
    ensure_eq!(rep.pairs, pairs, "{what}: finite pairs with persistence above 0.01");
    r.step(1);
    r.trace(1);
    Ok(())
}

pub fn v05(mc: &mut Mc) {
    let t = mc.thorough;
    let mut spaces: Vec<(usize, Vec<f64>)> = vec![
        (1, vec![]),
        (2, vec![0.0, 0.005, 0.01, 0.0101, 0.02, 1.0, 2.5, 1e9, f64::INFINITY]),
        (2, vec![0.1, 0.7, 1.1, 1.3, 2.3, 0.30000000000000004, 123456.789, 16777217.0, 1e22, 1e-300, 5e-324, 1.7976931348623157e308]),
        (3, vec![0.0, 0.01, 0.5, 1.0, 1.005, 2.0]),
        (3, vec![0.1, 1.1, 2.3, 0.30000000000000004, 16777217.0, 1.7976931348623157e308]),
        (4, vec![1.0, 1.5, 3.25]),
        (4, vec![1.1, 1.1000001, 3.3]),
        (5, vec![1.0, 2.0]),
    ];
    if t {
        spaces.push((4, vec![0.0, 0.5, 1.0, 1.006]));
        spaces.push((4, vec![0.1, 1.1, 1.1000000000000003, 1e9]));
        spaces.push((5, vec![0.7, 1.1, 2.3]));
    }
    for (n, vals) in spaces {
        mc.family(
            &format!("n{n}-{vals:?}"),
            &format!("all symmetric matrices on {n} points with entries {vals:?} as CSV on standard input, dimension argument absent and 0..=3, the tool built from /repo as a process"),
            |fam| {
                words(vals.len(), n * n.saturating_sub(1) / 2, |w| {
                    let make = || dist(n, &w.iter().map(|i| vals[*i]).collect::<Vec<_>>());
                    fam.case(
                        || format!("{:?}", make()),
                        |r| {
                            let d = make();
                            r.state(&d.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>());
                            for arg in [None, Some(0), Some(1), Some(2)] {
                                one(&d, arg, 0, r)?;
                            }
                            if n <= 3 {
                                one(&d, Some(3), 0, r)?;
                                if d.iter().flatten().all(|x| x.is_finite()) {
                                    for style in [1, 4, 5] {
                                        one(&d, Some(1), style, r)?;
                                    }
                                    one(&d, None, 3, r)?;
                                }
                            }
                            Ok(())
                        },
                    );
                });
            },
        );
    }
    mc.family("empty", "no points at all", |fam| {
        for arg in [None, Some(0), Some(1), Some(2), Some(5)] {
            fam.case(
                || format!("argument {arg:?}"),
                |r| {
                    r.state(&arg);
                    one(&vec![], arg, 0, r)
                },
            );
        }
    });
    mc.family("larger", "points on a line and on a circle, 6..=9 points, dimension argument absent, 0, 1, 2; 10 structured metrics on up to 20 points (dimension 2), 80 and 129 points (1), 400 points (0)", |fam| {
        for n in 6..=if t { 12 } else { 9 } {
            for kind in 0..3usize {
                fam.case(
                    || format!("n={n} shape {kind}"),
                    |r| {
                        let d: Dist = (0..n)
                            .map(|i: usize| {
                                (0..n)
                                    .map(|j| {
                                        let k = i.abs_diff(j);
                                        match kind {
                                            0 => k as f64 * 0.75,
                                            1 => k.min(n - k) as f64 + 0.125,
                                            _ => 0.5 * (k as f64).sqrt().floor(),
                                        }
                                    } * ((i != j) as usize as f64))
                                    .collect()
                            })
                            .collect();
                        r.state(&(n, kind));
                        for arg in [None, Some(0), Some(1), Some(2)] {
                            one(&d, arg, 0, r)?;
                        }
                        Ok(())
                    },
                );
            }
        }
        for (n, dims) in [(10usize, 2usize), (16, 2), (20, 2), (24, 1), (33, 1), (63, 1), (64, 1), (65, 1), (80, 1), (129, 1), (130, 0), (257, 0), (400, 0)] {
            for kind in 0..KINDS {
                if n == 129 && !(t || kind % 3 == 1) {
                    continue;
                }
                fam.case(
                    || format!("n={n} metric {kind} dimension {dims}"),
                    |r| {
                        let d = structured(n, kind);
                        r.state(&(n, kind, dims));
                        one(&d, Some(dims), if kind == 9 { 0 } else { [0, 1, 3, 4, 5][kind % 5] }, r)?;
                        if dims == 1 {
                            one(&d, None, 0, r)?;
                        }
                        Ok(())
                    },
                );
            }
        }
        for n in [20usize, 40, 60] {
            fam.case(
                || format!("n={n} on a line, dimension 0"),
                |r| {
                    let d: Dist = (0..n).map(|i| (0..n).map(|j| (i as f64 - j as f64).abs() * 0.02).collect()).collect();
                    r.state(&n);
                    one(&d, Some(0), 2, r)
                },
            );
        }
    });
}
