//! P01..P05: readers, sample statistics, cross validation, label validation.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use miniboosts::prelude::*;
use miniboosts::{CrossValidation, Feature};
use polars::prelude::{DataFrame, NamedFrom, Series};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A finite f64 given exactly by its bits or by a small decimal.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Num {
    Dec(i32, u8),  // value / 10^k
    Bits(u64),     // any finite
}
impl Num {
    pub fn v(self) -> f64 {
        match self {
            Num::Dec(a, k) => a as f64 / 10f64.powi(k as i32),
            Num::Bits(b) => {
                let f = f64::from_bits(b);
                if f.is_finite() {
                    f
                } else {
                    f64::from_bits(b & !(1 << 62))
                }
            }
        }
    }
}
fn num() -> BoxedStrategy<Num> {
    prop_oneof![
        6 => (-1000i32..1000, 0u8..4).prop_map(|(a, k)| Num::Dec(a, k)),
        2 => (-3i32..4).prop_map(|a| Num::Dec(a, 0)),
        1 => any::<u64>().prop_map(Num::Bits),
    ]
    .boxed()
}

// ------------------------------------------------------------------ P01 CSV

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Csv {
    rows: Vec<Vec<Num>>,
    names: Vec<String>,
    header: bool,
    target: usize,
    pad: Vec<u8>,
    sci: bool,
    crlf: bool,
    trailing_newline: bool,
    rename: bool,
    second_target: Option<usize>,
    /// positive numbers carry a plus sign; the dataframe is assembled from two parts
    #[serde(default)]
    plus: bool,
    #[serde(default)]
    chunk: Option<usize>,
    #[serde(default)]
    dots: bool,
}
fn csv_case() -> BoxedStrategy<Csv> {
    csv_sized(1..9, 2..7)
}
fn csv_sized(m: std::ops::Range<usize>, n: std::ops::Range<usize>) -> BoxedStrategy<Csv> {
    (m, n)
        .prop_flat_map(|(m, n)| {
            (
                prop::collection::vec(prop::collection::vec(num(), n), m),
                if n < 10 {
                    prop::collection::btree_set("[A-Za-z_\\[\\].0-9#:;\\-]([A-Za-z0-9 _.\\-]{0,6}[A-Za-z0-9])?", n..=n).boxed()
                } else {
                    // distinct by construction
                    prop::collection::vec(0u16..1000, n).prop_map(|v| v.iter().enumerate().map(|(i, k)| format!("{k} c{i}")).collect::<std::collections::BTreeSet<String>>()).boxed()
                },
                any::<u64>(),
                any::<bool>(),
                0..n,
                prop::collection::vec(0u8..6, n),
                any::<bool>(),
                any::<bool>(),
                (any::<bool>(), any::<bool>(), prop::bool::weighted(0.2), prop::option::weighted(0.3, 1..m.max(2)), prop::bool::weighted(0.2)),
                prop::option::of(0usize..n),
            )
        })
        .prop_map(|(rows, names, rot, header, target, pad, sci, trailing_newline, (rename, crlf, plus, chunk, dots), second_target)| {
            let mut names: Vec<String> = names.into_iter().collect();
            let k = names.len();
            names.rotate_left((rot % k as u64) as usize);
            Csv { rows, names, header, target, pad, sci, crlf, trailing_newline, rename, second_target, plus, chunk, dots }
        })
        .boxed()
}
fn fmt_num(x: f64, sci: bool) -> String {
    if sci {
        format!("{x:e}")
    } else {
        format!("{x}")
    }
}
fn fmt_plus(x: f64, sci: bool, plus: bool) -> String {
    let t = fmt_num(x, sci);
    if plus && x >= 0.0 && !t.starts_with('-') {
        format!("+{t}")
    } else {
        t
    }
}
impl Csv {
    fn text(&self) -> String {
        let eol = if self.crlf { "\r\n" } else { "\n" };
        let mut lines = vec![];
        if self.header {
            lines.push(self.names.join(","));
        }
        for r in &self.rows {
            let cells: Vec<String> = r
                .iter()
                .zip(&self.pad)
                .map(|(x, p)| {
                    let s = fmt_plus(x.v(), self.sci, self.plus);
                    match p {
                        1 => format!(" {s}"),
                        2 => format!("{s} "),
                        3 => format!("\t{s}"),
                        _ => s,
                    }
                })
                .collect();
            lines.push(cells.join(","));
        }
        let mut t = lines.join(eol);
        if self.trailing_newline {
            t.push_str(eol);
        }
        t
    }
}
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// Checks a sample against the reference matrix (columns in order) and target.
fn check_sample(s: &Sample, cols: &[(String, Vec<f64>)], target: &[f64]) -> Res {
    let m = target.len();
    ensure!(s.shape() == (m, cols.len()), "shape {:?}, expected {:?}", s.shape(), (m, cols.len()));
    ensure!(s.target().len() == m, "target has {} entries for {m} rows", s.target().len());
    for i in 0..m {
        ensure!(same(s.target()[i], target[i]), "target[{i}] = {}, file has {}", s.target()[i], target[i]);
    }
    ensure!(s.features().len() == cols.len(), "{} features, expected {}", s.features().len(), cols.len());
    for (j, (name, c)) in cols.iter().enumerate() {
        let f = &s.features()[j];
        ensure!(f.name() == name, "feature {j} is named {:?}, expected {:?}", f.name(), name);
        for i in 0..m {
            ensure!(same(f[i], c[i]), "feature {j} row {i} = {}, file has {}", f[i], c[i]);
        }
        let g = must("lookup by name", || &s[name.as_str()])?;
        ensure!(g.name() == name, "lookup of {:?} returned {:?}", name, g.name());
        for i in 0..m {
            ensure!(same(g[i], c[i]), "lookup of {name:?} row {i} = {}, expected {}", g[i], c[i]);
        }
    }
    for i in 0..m {
        let (x, y) = s.at(i);
        ensure!(x.len() == cols.len(), "at({i}) has {} values", x.len());
        ensure!(same(y, target[i]), "at({i}) label {y}, expected {}", target[i]);
        for j in 0..x.len() {
            ensure!(same(x[j], cols[j].1[i]), "at({i})[{j}] = {}, expected {}", x[j], cols[j].1[i]);
        }
    }
    let mut u: Vec<f64> = target.to_vec();
    u.sort_by(|a, b| a.partial_cmp(b).unwrap());
    u.dedup();
    ensure!(s.unique_target() == u, "unique_target {:?}, expected {:?}", s.unique_target(), u);
    Ok(())
}
fn check_csv(c: &Csv, o: &mut Obs) -> Res {
    let n = c.names.len();
    let f = Scratch::new(if c.dots { "v1.svmlight.csv" } else { "csv" }, c.text().as_bytes());
    let names: Vec<String> = if c.header { c.names.clone() } else { (1..=n).map(|k| format!("Feat. [{k}]")).collect() };
    let s = must("reading a well formed CSV file", || {
        SampleReader::default().file(f.0.clone()).has_header(c.header).target_feature(names[c.target].as_str()).read()
    })?
    .map_err(|e| format!("read error {e}"))?;
    let mut cols: Vec<(String, Vec<f64>)> =
        (0..n).map(|j| (names[j].clone(), c.rows.iter().map(|r| r[j].v()).collect())).collect();
    let t = cols.remove(c.target);
    check_sample(&s, &cols, &t.1)?;
    for ft in s.features() {
        let Feature::Dense(dense) = ft else { return Err("a CSV column is not dense".into()) };
        ensure!(dense.iter().copied().eq((0..c.rows.len()).map(|i| ft[i])), "iterating over {} does not give its values", ft.name());
        ensure!(ft.len() == c.rows.len() && !ft.is_empty(), "dense feature length {}", ft.len());
    }
    // the dataframe entry point gives the same sample
    let cn: Vec<String> = cols.iter().map(|c| c.0.clone()).collect();
    let cv: Vec<Vec<f64>> = cols.iter().map(|c| c.1.clone()).collect();
    let mut d = must("from_dataframe", || dense_sample(&cv, &cn, &t.1))?;
    check_sample(&d, &cols, &t.1)?;
    if let Some(k) = c.chunk {
        // the same frame put together from two parts, which keeps them as separate chunks
        let k = k.min(t.1.len());
        let part = |a: usize, b: usize| DataFrame::new(cv.iter().zip(&cn).map(|(v, n)| Series::new(n.as_str(), v[a..b].to_vec())).collect::<Vec<_>>()).unwrap();
        let e = must("from_dataframe on a stacked frame", || {
            let df = part(0, k).vstack(&part(k, t.1.len())).unwrap();
            let mut y = Series::new("target", t.1[..k].to_vec());
            y.append(&Series::new("target", t.1[k..].to_vec())).unwrap();
            Sample::from_dataframe(df, y)
        })?
        .map_err(|e| format!("{e}"))?;
        check_sample(&e, &cols, &t.1)?;
        o.label("stacked frame");
    }
    if c.rename {
        let new: Vec<String> = (0..cols.len()).map(|k| format!("renamed-{}", (k * 7 + 3) % 11 * 100 + k)).collect();
        let old = must("replace_names", || d.replace_names(&new))?;
        ensure!(old == cn, "replace_names returned {old:?}, expected {cn:?}");
        let cols2: Vec<_> = new.iter().cloned().zip(cv.iter().cloned()).collect();
        check_sample(&d, &cols2, &t.1)?;
        ensure!(catch(|| d[cn[0].as_str()].len()).is_err() || new.contains(&cn[0]), "old name still resolves");
        let short = &new[..new.len() - 1];
        ensure!(catch(|| d.clone().replace_names(short)).is_err(), "replace_names accepted too few names");
    }
    // a second set_target moves another column and forgets the previous target
    if let Some(k) = c.second_target {
        if cols.len() >= 2 {
            let k = k % cols.len();
            let s2 = must("set_target", || s.clone().set_target(cols[k].0.as_str()))?;
            let mut cols3 = cols.clone();
            let t3 = cols3.remove(k);
            check_sample(&s2, &cols3, &t3.1)?;
            o.label("second set_target");
        }
    }
    // unknown target is refused
    let bad = catch(|| SampleReader::default().file(f.0.clone()).has_header(c.header).target_feature("no such column").read());
    ensure!(!matches!(bad, Ok(Ok(_))), "an unknown target column was accepted");
    // a missing file is an error
    let mut missing = f.0.clone();
    missing.set_extension("absent.csv");
    let e = must("reading a missing file", || {
        SampleReader::default().file(missing.clone()).has_header(c.header).target_feature("x").read()
    })?;
    ensure!(e.is_err(), "a missing file was read");
    o.nt(c.rows.len() >= 2 && n >= 3);
    o.label(if c.header { "header" } else { "no header" });
    o.label_if(c.target + 1 < n, "target not last");
    o.label_if(c.sci, "scientific");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct BadCsv {
    rows: usize,
    cols: usize,
    at: (usize, usize),
    junk: String,
    header: bool,
    wide: bool,
    /// drop a cell instead of adding one
    #[serde(default)]
    cut: bool,
}
fn bad_csv() -> BoxedStrategy<BadCsv> {
    (1usize..6, 2usize..5, any::<(u8, u8)>(), prop_oneof![Just("abc".to_string()), Just("".into()), Just("1.2.3".into()), Just("--4".into()), "[a-z?]{1,4}".prop_filter("not a number", |s| s.parse::<f64>().is_err())], any::<bool>(), any::<bool>(), any::<bool>())
        .prop_map(|(rows, cols, (a, b), junk, header, wide, cut)| BadCsv {
            rows,
            cols,
            at: (a as usize % rows, b as usize % cols),
            junk,
            header,
            wide,
            cut,
        })
        .boxed()
}
fn check_bad_csv(c: &BadCsv, o: &mut Obs) -> Res {
    let mut t = String::new();
    if c.header {
        t += &(0..c.cols).map(|j| format!("c{j}")).collect::<Vec<_>>().join(",");
        t.push('\n');
    }
    for i in 0..c.rows {
        let mut cells: Vec<String> = (0..c.cols).map(|j| format!("{}", i * 10 + j)).collect();
        if !c.wide {
            if i == c.at.0 {
                cells[c.at.1] = c.junk.clone();
            }
        } else if i == c.at.0 && (c.header || i > 0) {
            if c.cut {
                cells.remove(c.at.1);
            } else {
                cells.push("5".into());
            }
        }
        t += &cells.join(",");
        t.push('\n');
    }
    if c.wide && !c.header && c.at.0 == 0 {
        return Ok(());
    }
    let f = Scratch::new("csv", t.as_bytes());
    let name = if c.header { "c0" } else { "Feat. [1]" };
    let r = catch(|| SampleReader::default().file(f.0.clone()).has_header(c.header).target_feature(name).read());
    ensure!(!matches!(r, Ok(Ok(_))), "a malformed CSV file was read without any error: {t:?}");
    o.nt(c.rows > 1);
    o.label(if !c.wide { "junk" } else if c.cut { "missing cell" } else { "surplus cell" });
    Ok(())
}


/// A dataframe that is not a complete numeric table, or whose target has another length.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct BadFrame {
    rows: usize,
    cols: usize,
    at: (usize, usize),
    /// 0: missing target, 1: missing cell, 2: target too short, 3: target too long,
    /// 4: textual column, 5: textual target, 6: integers, 7: single precision, 8: nothing wrong
    kind: u8,
}
fn bad_frame() -> BoxedStrategy<BadFrame> {
    (prop_oneof![9 => 1usize..8, 1 => 8usize..300], 1usize..5, any::<(u16, u8)>(), 0u8..9)
        .prop_map(|(rows, cols, (a, b), kind)| BadFrame { rows, cols, at: (a as usize % rows, b as usize % cols), kind })
        .boxed()
}
fn check_bad_frame(c: &BadFrame, o: &mut Obs) -> Res {
    let v = |i: usize, j: usize| (i * 10 + j) as f64;
    let y: Vec<f64> = (0..c.rows).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
    let cols: Vec<(String, Vec<f64>)> = (0..c.cols).map(|j| (format!("c{j}"), (0..c.rows).map(|i| v(i, j)).collect())).collect();
    let mut series: Vec<Series> = cols.iter().map(|(n, x)| Series::new(n, x.clone())).collect();
    let mut target = Series::new("t", y.clone());
    let k = c.at.1;
    match c.kind {
        0 => target = Series::new("t", (0..c.rows).map(|i| (i != c.at.0).then_some(y[i])).collect::<Vec<Option<f64>>>()),
        1 => series[k] = Series::new(&cols[k].0, (0..c.rows).map(|i| (i != c.at.0).then_some(v(i, k))).collect::<Vec<Option<f64>>>()),
        2 => target = Series::new("t", y[..c.at.0].to_vec()),
        3 => target = Series::new("t", y.iter().copied().chain((0..=c.at.0).map(|_| 1.0)).collect::<Vec<f64>>()),
        4 => series[k] = Series::new(&cols[k].0, (0..c.rows).map(|i| format!("a{i}")).collect::<Vec<String>>()),
        5 => target = Series::new("t", (0..c.rows).map(|i| format!("{i}")).collect::<Vec<String>>()),
        6 => series[k] = Series::new(&cols[k].0, (0..c.rows).map(|i| v(i, k) as i64).collect::<Vec<i64>>()),
        7 => series[k] = Series::new(&cols[k].0, (0..c.rows).map(|i| v(i, k) as f32).collect::<Vec<f32>>()),
        _ => {}
    }
    let df = DataFrame::new(series).map_err(|e| format!("{e}"))?;
    let r = catch(|| Sample::from_dataframe(df, target));
    match (c.kind, r) {
        // labels of another number than the rows are left to the check of the labels
        (2 | 3, _) => {}
        (0..=5, Ok(Ok(s))) => {
            return Err(format!("a frame of {} rows that is no complete table (kind {}) was accepted: shape {:?}, {} labels", c.rows, c.kind, s.shape(), s.target().len()))
        }
        (6.., Ok(Ok(s))) => check_sample(&s, &cols, &y)?,
        (8, _) => return Err("a complete frame was refused".into()),
        _ => {}
    }
    o.nt(c.rows > 1);
    o.label(match c.kind { 0 => "missing label", 1 => "missing cell", 2 | 3 => "target of another length", 4 | 5 => "text", 6 | 7 => "other number type", _ => "complete" });
    Ok(())
}

// ------------------------------------------------------------------ P02 svmlight

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Svm {
    /// (label, entries index->value)
    rows: Vec<(Num, Vec<(u16, Num)>)>,
    base: u8,
    tabs: bool,
    sci: bool,
    trailing: bool,
    ext: u8,
    /// this column becomes the target afterwards
    #[serde(default)]
    retarget: Option<u16>,
    #[serde(default)]
    rename: bool,
    #[serde(default)]
    plus: bool,
    /// the entries of a row are listed in another order
    #[serde(default)]
    stir: u8,
}
fn svm_case() -> BoxedStrategy<Svm> {
    svm_sized(1..10)
}
fn svm_sized(rows: std::ops::Range<usize>) -> BoxedStrategy<Svm> {
    svm_wide(prop_oneof![6 => 1u16..8, 2 => 8u16..20, 1 => 40u16..300].boxed(), rows)
}
fn svm_wide(width: BoxedStrategy<u16>, rows: std::ops::Range<usize>) -> BoxedStrategy<Svm> {
    let entry = |w: u16| {
        prop::collection::btree_map(0..w, prop_oneof![8 => num(), 1 => Just(Num::Dec(0, 0))], if w < 1000 { 0..=(w as usize).min(10) } else { 0..=400 })
            .prop_map(|m| m.into_iter().collect::<Vec<_>>())
    };
    width
        .prop_flat_map(move |w| (prop::collection::vec((num(), entry(w)), rows.clone()), 0u8..3, any::<bool>(), any::<bool>(), any::<bool>(), 0u8..6, prop::option::weighted(0.3, 0u16..300), any::<bool>(), prop::bool::weighted(0.3), prop_oneof![2 => Just(0u8), 1 => 1u8..8]))
        .prop_map(|(rows, base, tabs, sci, trailing, ext, retarget, rename, plus, stir)| Svm { rows, base, tabs, sci, trailing, ext, retarget, rename, plus, stir })
        .boxed()
}
fn check_svm(c: &Svm, o: &mut Obs) -> Res {
    let sep = if c.tabs { "\t" } else { " " };
    let mut lines = vec![];
    for (y, es) in &c.rows {
        let mut l = fmt_plus(y.v(), c.sci, c.plus);
        let mut es: Vec<_> = es.iter().collect();
        if c.stir > 0 && !es.is_empty() {
            let k = c.stir as usize % es.len();
            es.rotate_left(k);
            if c.stir % 2 == 1 {
                es.reverse();
            }
        }
        for (i, x) in es {
            l += &format!("{sep}{}:{}", *i as usize + c.base as usize, fmt_plus(x.v(), c.sci, c.plus));
        }
        if c.trailing {
            l.push(' ');
        }
        lines.push(l);
    }
    let ext = ["svmlight", "txt", "libsvm", "csv.txt", "noncsv", "csv.svmlight"][c.ext as usize];
    let f = Scratch::new(ext, (lines.join("\n") + "\n").as_bytes());
    let s = must("reading a well formed svmlight file", || SampleReader::<_, String>::default().file(f.0.clone()).read())?
        .map_err(|e| format!("read error {e}"))?;
    let m = c.rows.len();
    let target: Vec<f64> = c.rows.iter().map(|r| r.0.v()).collect();
    let width = c.rows.iter().flat_map(|r| r.1.iter().map(|e| e.0 as usize + c.base as usize + 1)).max().unwrap_or(0);
    let mut cols = vec![];
    let mut listed = vec![];
    for j in 0..width {
        let mut col = vec![0.0; m];
        let mut any = false;
        let mut count = 0;
        for (i, (_, es)) in c.rows.iter().enumerate() {
            for (k, x) in es {
                if *k as usize + c.base as usize == j {
                    col[i] = x.v();
                    any = true;
                    count += 1;
                }
            }
        }
        if any {
            cols.push((format!("Feat. [{}]", j + 1), col));
            listed.push(count);
        }
    }
    // A column that is listed only with explicit zeros may be kept or dropped.
    let got: Vec<&str> = s.features().iter().map(|f| f.name()).collect();
    let cols: Vec<_> = cols
        .into_iter()
        .zip(listed)
        .filter(|((n, c), _)| c.iter().any(|x| *x != 0.0) || got.contains(&n.as_str()))
        .collect();
    let counts: Vec<usize> = cols.iter().map(|c| c.1).collect();
    let cols: Vec<_> = cols.into_iter().map(|c| c.0).collect();
    check_sample(&s, &cols, &target)?;
    for (ft, cnt) in s.features().iter().zip(&counts) {
        match ft {
            Feature::Sparse(sp) => {
                ensure!(ft.len() == *cnt, "sparse feature {} stores {} entries, the file lists {cnt}", ft.name(), ft.len());
                ensure!(sp.has_zero() == (*cnt < m), "has_zero of {}", ft.name());
                ensure!(sp.zero_counts() == m - cnt, "zero_counts of {} is {}", ft.name(), sp.zero_counts());
                let mut listed: Vec<(usize, f64)> = sp.iter().copied().filter(|e| e.1 != 0.0).collect();
                listed.sort_by_key(|e| e.0);
                let want: Vec<(usize, f64)> = (0..m).filter(|&i| ft[i] != 0.0).map(|i| (i, ft[i])).collect();
                ensure!(listed == want, "iterating over {} gives {listed:?}, its non-zero values are {want:?}", ft.name());
            }
            Feature::Dense(_) => return Err("an svmlight column is not sparse".into()),
        }
    }
    if c.rename && !cols.is_empty() {
        let new: Vec<String> = (0..cols.len()).map(|k| format!("renamed-{}", (k * 7 + 3) % 11 * 1000 + k)).collect();
        let mut d = s.clone();
        let old = must("replace_names", || d.replace_names(&new))?;
        ensure!(old.iter().eq(cols.iter().map(|c| &c.0)), "replace_names returned {old:?}");
        let cols2: Vec<_> = new.into_iter().zip(cols.iter().map(|c| c.1.clone())).collect();
        check_sample(&d, &cols2, &target)?;
        o.label("renamed");
    }
    if let (Some(k), true) = (c.retarget, cols.len() >= 2) {
        let k = k as usize % cols.len();
        let d = must("set_target", || s.clone().set_target(cols[k].0.as_str()))?;
        let mut cols3 = cols.clone();
        let t3 = cols3.remove(k);
        check_sample(&d, &cols3, &t3.1)?;
        o.label("another target");
    }
    // the same matrix in CSV gives the same numbers
    if !cols.is_empty() && c.rows.iter().all(|r| r.0.v() == r.0.v()) {
        let mut t = cols.iter().map(|c| c.0.clone()).collect::<Vec<_>>().join(",") + ",label\n";
        for i in 0..m {
            t += &cols.iter().map(|c| format!("{}", c.1[i])).collect::<Vec<_>>().join(",");
            t += &format!(",{}\n", target[i]);
        }
        let g = Scratch::new("csv", t.as_bytes());
        let d = must("csv twin", || SampleReader::default().file(g.0.clone()).has_header(true).target_feature("label").read())?
            .map_err(|e| format!("csv twin: {e}"))?;
        for i in 0..m {
            ensure!(d.at(i) == s.at(i), "row {i}: csv {:?}, svmlight {:?}", d.at(i), s.at(i));
        }
    }
    o.nt(m >= 2 && cols.len() >= 2 && counts.iter().any(|k| *k < m));
    o.label_if(cols.len() < width, "empty column dropped");
    o.label_if(c.rows.iter().any(|r| r.1.is_empty()), "empty row");
    o.label_if(c.rows.last().unwrap().1.is_empty(), "last row empty");
    Ok(())
}

// ------------------------------------------------------------------ P03 statistics

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Table2 {
    pub cols: Vec<Vec<i16>>,
    pub div: u8,
    pub labels: Vec<i8>,
    pub weights: Vec<u16>,
    /// P03: the unit of the numbers, and of the weights of the first row's label
    #[serde(default)]
    pub exp: i8,
    #[serde(default)]
    pub rare: i8,
}
fn table3(rows: std::ops::RangeInclusive<usize>, max_n: usize) -> BoxedStrategy<Table2> {
    let exp = prop_oneof![4 => Just(0i8), 1 => -9i8..=9, 1 => -40i8..=40];
    (table2_sized(rows, max_n), exp, prop_oneof![4 => Just(0i8), 1 => -9i8..0, 1 => -60i8..0])
        .prop_map(|(t, exp, rare)| Table2 { exp, rare, ..t })
        .boxed()
}
pub fn table2(max_m: usize, max_n: usize) -> BoxedStrategy<Table2> {
    table2_sized(1..=max_m, max_n)
}
pub fn table2_sized(rows: std::ops::RangeInclusive<usize>, max_n: usize) -> BoxedStrategy<Table2> {
    (rows, 1..=max_n, 0u8..3, 1u8..5)
        .prop_flat_map(|(m, n, div, zeros)| {
            let cell = prop_oneof![zeros as u32 => Just(0i16), 4 => -50i16..50, 1 => -3000i16..3000];
            (
                prop::collection::vec(prop::collection::vec(cell, m), n),
                Just(div),
                prop::collection::vec(prop_oneof![4 => Just(1i8), 4 => Just(-1i8), 1 => Just(0i8), 1 => Just(2i8)], m),
                prop::collection::vec(prop_oneof![1 => Just(0u16), 5 => 1u16..1000], m),
            )
        })
        .prop_map(|(cols, div, labels, mut weights)| {
            if weights.iter().all(|w| *w == 0) {
                weights[0] = 1;
            }
            Table2 { cols, div, labels, weights, exp: 0, rare: 0 }
        })
        .boxed()
}
impl Table2 {
    pub fn cols_f(&self) -> Vec<Vec<f64>> {
        let d = 10f64.powi(self.div as i32);
        let u = 10f64.powi(self.exp as i32);
        self.cols.iter().map(|c| c.iter().map(|x| *x as f64 / d * u).collect()).collect()
    }
    pub fn dist(&self) -> Vec<f64> {
        let u = 10f64.powi(self.rare as i32);
        let w: Vec<f64> = self.weights.iter().zip(&self.labels).map(|(w, l)| *w as f64 * if *l == self.labels[0] { u } else { 1.0 }).collect();
        let s: f64 = w.iter().sum();
        w.iter().map(|w| w / s).collect()
    }
    pub fn target(&self) -> Vec<f64> {
        self.labels.iter().map(|l| *l as f64).collect()
    }
}
fn check_stats(c: &Table2, o: &mut Obs) -> Res {
    let cols = c.cols_f();
    let names = default_names(cols.len());
    let y = c.target();
    let d = c.dist();
    let m = y.len();
    let dense = dense_sample(&cols, &names, &y);
    let sparse = sparse_sample(&cols, &y);
    // columns surviving in the sparse sample
    let live: Vec<usize> = (0..cols.len()).filter(|&j| cols[j].iter().any(|x| *x != 0.0)).collect();
    ensure!(sparse.shape() == (m, live.len()), "sparse shape {:?}", sparse.shape());
    // errors are judged in units of the column's largest entry
    let unit: Vec<f64> = cols.iter().map(|v| v.iter().fold(f64::MIN_POSITIVE, |a, x| a.max(x.abs()))).collect();
    let close = |a: f64, b: f64, u: f64| (a - b).abs() <= 1e-9 * (u + b.abs());
    for (kind, s, ix) in [("dense", &dense, (0..cols.len()).collect::<Vec<_>>()), ("sparse", &sparse, live.clone())] {
        let mv = must("weighted_mean_and_variance", || s.weighted_mean_and_variance(&d))?;
        let me = must("weighted_mean", || s.weighted_mean(&d))?;
        ensure!(mv.len() == ix.len() && me.len() == ix.len(), "{kind}: one entry per feature expected");
        for (k, &j) in ix.iter().enumerate() {
            let mean: f64 = (0..m).map(|i| d[i] * cols[j][i]).sum();
            let var: f64 = (0..m).map(|i| d[i] * (cols[j][i] - mean).powi(2)).sum();
            ensure!(close(me[k], mean, unit[j]), "{kind}: weighted mean of column {j} is {}, expected {mean}", me[k]);
            ensure!(close(mv[k].0, mean, unit[j]), "{kind}: mean of column {j} is {}, expected {mean}", mv[k].0);
            ensure!(close(mv[k].1, var, unit[j].powi(2)), "{kind}: variance of column {j} is {}, expected {var}", mv[k].1);
        }
        for lab in s.unique_target() {
            let wsum: f64 = (0..m).filter(|&i| y[i] == lab).map(|i| d[i]).sum();
            if wsum == 0.0 {
                o.label("label without weight");
                continue;
            }
            // here any non-negative weights are allowed
            let z = [1.0, 8.0, 0.125, 1000.0][(m + c.cols.len()) % 4];
            let e: Vec<f64> = d.iter().map(|x| x * z).collect();
            let me = must("weighted_mean_for_label", || s.weighted_mean_for_label(lab, &e))?;
            let mv = must("weighted_mean_and_variance_for_label", || s.weighted_mean_and_variance_for_label(lab, &e))?;
            ensure!(mv.len() == ix.len() && me.len() == ix.len(), "{kind}: one entry per feature expected");
            for (k, &j) in ix.iter().enumerate() {
                let mean: f64 = (0..m).filter(|&i| y[i] == lab).map(|i| d[i] * cols[j][i]).sum::<f64>() / wsum;
                let var: f64 = (0..m).filter(|&i| y[i] == lab).map(|i| d[i] * (cols[j][i] - mean).powi(2)).sum::<f64>() / wsum;
                ensure!(close(me[k], mean, unit[j]), "{kind}: mean of column {j} for label {lab} is {}, expected {mean}", me[k]);
                ensure!(close(mv[k].0, mean, unit[j]), "{kind}: mean of column {j} for label {lab} is {}, expected {mean}", mv[k].0);
                ensure!(close(mv[k].1, var, unit[j].powi(2)), "{kind}: variance of column {j} for label {lab} is {}, expected {var}", mv[k].1);
            }
        }
    }
    o.nt(m >= 3 && !live.is_empty() && dense.unique_target().len() >= 2);
    o.label_if(c.exp != 0, "other unit");
    o.label_if(c.rare != 0, "light label");
    o.label_if(cols.iter().flatten().any(|x| *x == 0.0), "has zeros");
    Ok(())
}

// ------------------------------------------------------------------ P04 cross validation

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Cv {
    t: Table2,
    sparse: bool,
    ratio: Option<u8>, // percent
    /// thousandths added to the ratio
    #[serde(default)]
    milli: u8,
    folds: Option<u8>,
    seed: Option<u32>,
    shuffle: bool,
    verbose: bool,
    /// all columns but the first have the same name
    #[serde(default)]
    twins: bool,
}
fn cv_case() -> BoxedStrategy<Cv> {
    (table2(24, 4), any::<bool>(), prop::option::of(1u8..100), prop::option::of(1u8..9), prop::option::of(any::<u32>()), any::<bool>(), any::<bool>(), prop_oneof![1 => Just(0u8), 1 => 0u8..10], prop::bool::weighted(0.05))
        .prop_map(|(t, sparse, ratio, folds, seed, shuffle, verbose, milli, twins)| Cv { t, sparse, ratio, milli, folds, seed, shuffle, verbose, twins })
        .boxed()
}
fn cv_large() -> BoxedStrategy<Cv> {
    (table2_sized(80..=1200, 3), any::<bool>(), prop::option::of(1u8..100), prop::option::of(1u8..60), prop::option::of(any::<u32>()), any::<bool>(), 0u8..10)
        .prop_map(|(t, sparse, ratio, folds, seed, shuffle, milli)| Cv { t, sparse, ratio, milli, folds, seed, shuffle, verbose: false, twins: false })
        .boxed()
}
fn check_cv(c: &Cv, o: &mut Obs) -> Res {
    // column 0 is the row id (from 1), so that every row can be recognised
    let m = c.t.labels.len();
    let mut cols = c.t.cols_f();
    cols.insert(0, (0..m).map(|i| (i + 1) as f64).collect());
    let names = default_names(cols.len());
    let y = c.t.target();
    let mut s = if c.sparse { sparse_sample(&cols, &y) } else { dense_sample(&cols, &names, &y) };
    if c.twins {
        let k = s.shape().1;
        s.replace_names((0..k).map(|j| if j == 0 { "id" } else { "twin" }).collect::<Vec<_>>());
        o.label_if(k > 2, "columns of one name");
    }
    let build = || {
        let mut cv = CrossValidation::new(&s).verbose(c.verbose);
        if let Some(r) = c.ratio {
            cv = cv.train_ratio(r as f64 / 100.0 + c.milli as f64 / 1000.0);
        }
        if let Some(f) = c.folds {
            cv = cv.n_folds(f as usize);
        }
        if let Some(sd) = c.seed {
            cv = cv.seed(sd as u64);
        }
        if c.shuffle {
            cv = cv.shuffle();
        }
        cv
    };
    let folds: Vec<(Sample, Sample)> = must("cross validation", || build().take(64).collect())?;
    let n_folds = c.folds.unwrap_or(5) as usize;
    let ratio = c.ratio.map_or(0.8, |r| r as f64 / 100.0 + c.milli as f64 / 1000.0);
    ensure!(folds.len() <= n_folds, "{} folds, {n_folds} requested", folds.len());
    let mut seen = vec![false; m];
    let mut tsize = 0;
    let mut order: Vec<Vec<usize>> = vec![];
    let mut used = 0;
    for (k, (train, test)) in folds.iter().enumerate() {
        let mut count = vec![0; m];
        let mut ids_of = vec![];
        for (what, part) in [("train", train), ("test", test)] {
            let (r, nf) = part.shape();
            ensure!(nf == s.shape().1, "fold {k} {what}: {nf} features");
            ensure!(part.target().len() == r, "fold {k} {what}: {} targets for {r} rows", part.target().len());
            let mut ids = vec![];
            for (j, (a, b)) in part.features().iter().zip(s.features()).enumerate() {
                ensure!(a.name() == b.name(), "fold {k} {what}: feature {j} is {:?}, expected {:?}", a.name(), b.name());
                ensure!(
                    matches!(a, Feature::Sparse(_)) == matches!(b, Feature::Sparse(_)),
                    "fold {k} {what}: feature {j} changed representation"
                );
                let nm = b.name().to_string();
                let l = must("lookup", || part[nm.as_str()].name().to_string())?;
                ensure!(l == nm, "fold {k} {what}: lookup of {nm} gives {l}");
                if let Feature::Dense(f) = a {
                    ensure!(f.len() == r, "fold {k} {what}: dense column of length {} for {r} rows", f.len());
                }
                if let Feature::Sparse(f) = a {
                    ensure!(f.len() <= r, "fold {k} {what}: sparse column stores {} entries for {r} rows", f.len());
                    let nz = (0..r).filter(|&i| a[i] != 0.0).count();
                    ensure!(f.len() == nz && f.zero_counts() == r - nz, "fold {k} {what}: column {j} reports {} non-zeros and {} zeros, it has {nz} of {r}", f.len(), f.zero_counts());
                }
            }
            for i in 0..r {
                let (x, yy) = must("at", || part.at(i))?;
                let id = x[0];
                ensure!(id >= 1.0 && id <= m as f64 && id.fract() == 0.0, "fold {k} {what} row {i}: not a row of the sample: {x:?}");
                let id = id as usize - 1;
                let (x0, y0) = s.at(id);
                ensure!(x == x0, "fold {k} {what} row {i}: {x:?}, original row {id} is {x0:?}");
                ensure!(yy == y0, "fold {k} {what} row {i}: label {yy}, original {y0}");
                count[id] += 1;
                ids.push(id);
            }
            // statistics of the part agree with its rows (uniform weights)
            if r > 0 {
                let w = vec![1.0 / r as f64; r];
                let mv = must("statistics of a fold", || part.weighted_mean_and_variance(&w))?;
                for (j, (a, v)) in mv.iter().enumerate() {
                    let xs: Vec<f64> = ids.iter().map(|&i| s.features()[j][i]).collect();
                    let mean = xs.iter().sum::<f64>() / r as f64;
                    let var = xs.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / r as f64;
                    ensure!(close(*a, mean, 1e-9) && close(*v, var, 1e-9), "fold {k} {what}: statistics of column {j} are ({a},{v}), rows give ({mean},{var})");
                }
            }
            ids_of.push(ids);
        }
        ensure!(count.iter().all(|c| *c == 1), "fold {k}: rows appear {count:?} times in train+test");
        let test_ids = ids_of[1].clone();
        for &i in &test_ids {
            ensure!(!seen[i], "fold {k}: row {i} was already a test row of an earlier fold");
            seen[i] = true;
        }
        if k == 0 {
            tsize = test_ids.len();
            let want = (1.0 - ratio) * m as f64;
            ensure!((tsize as f64 - want).abs() <= 1.0 + 1e-9, "test size {tsize}, expected about {want}");
        }
        used += test_ids.len();
        ensure!(test_ids.len() == tsize || used == m, "fold {k}: test size {} (first fold {tsize})", test_ids.len());
        if !c.shuffle {
            ensure!(ids_of[0].windows(2).all(|w| w[0] < w[1]), "fold {k}: unshuffled train rows out of order");
            ensure!(test_ids.windows(2).all(|w| w[0] + 1 == w[1]), "fold {k}: unshuffled test rows not consecutive");
        }
        order.push(ids_of[0].clone());
        order.push(test_ids);
    }
    ensure!(folds.len() == n_folds || used == m || tsize == 0, "only {} of {n_folds} folds although rows remain", folds.len());
    // same configuration, same folds
    let again: Vec<(Sample, Sample)> = must("cross validation", || build().take(64).collect())?;
    ensure!(again.len() == folds.len(), "a second run gives another number of folds");
    for (a, b) in again.iter().zip(&folds) {
        ensure!(a.0.features()[0].len() == b.0.features()[0].len(), "a second run differs");
        for i in 0..a.0.shape().0 {
            ensure!(a.0.at(i) == b.0.at(i), "a second run with the same seed differs");
        }
        for i in 0..a.1.shape().0 {
            ensure!(a.1.at(i) == b.1.at(i), "a second run with the same seed differs");
        }
    }
    // the folds do not depend on when the settings were given, nor on values overwritten later
    if c.shuffle {
        let ids = |cv: CrossValidation| -> Vec<(Vec<usize>, Vec<usize>)> {
            let id = |x: &Sample| (0..x.shape().0).map(|i| x.at(i).0[0] as usize - 1).collect::<Vec<_>>();
            cv.take(64).map(|(a, b)| (id(&a), id(&b))).collect()
        };
        let seed = c.seed.map_or(1234, |x| x as u64);
        let rest = |cv: CrossValidation<'_>| -> Vec<(Vec<usize>, Vec<usize>)> {
            let cv = match c.ratio {
                Some(_) => cv.train_ratio(ratio),
                None => cv,
            };
            ids(match c.folds {
                Some(f) => cv.n_folds(f as usize),
                None => cv,
            })
        };
        let want: Vec<(Vec<usize>, Vec<usize>)> = order.chunks(2).map(|x| (x[0].clone(), x[1].clone())).collect();
        let new = || CrossValidation::new(&s);
        let late = must("cross validation", || rest(new().shuffle().seed(seed)))?;
        ensure!(late == want, "the seed {seed} given after the shuffle gives {late:?}, given before {want:?}");
        let twice = must("cross validation", || rest(new().seed(seed ^ 5).shuffle().seed(seed).shuffle()))?;
        ensure!(twice == want, "the seed {} overwritten by {seed} gives {twice:?}, the seed {seed} alone {want:?}", seed ^ 5);
        if m >= 25 && tsize > 0 {
            // one in 25! orders
            ensure!(want[0].0.windows(2).chain(want[0].1.windows(2)).any(|w| w[0] > w[1]) || want[0].1.windows(2).any(|w| w[0] + 1 != w[1]), "the shuffled rows are in their order");
            for other in [seed ^ 1, seed ^ (1 << 40)] {
                let o = must("cross validation", || rest(new().seed(other).shuffle()))?;
                ensure!(o[0] != want[0] || (want[0].0.len() + 4 > m || tsize + 4 > m), "the seeds {seed} and {other} give the same fold {:?}", want[0]);
            }
        }
    }
    o.nt(m >= 4 && folds.len() >= 2 && tsize > 0);
    o.label(if c.sparse { "sparse" } else { "dense" });
    o.label_if(c.shuffle, "shuffled");
    o.label_if(used == m, "all rows tested");
    o.label_if(folds.len() < n_folds, "ran out of rows");
    Ok(())
}

// ------------------------------------------------------------------ P05 binary labels

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Labels {
    tenths: Vec<i64>,
    drop_target: bool,
    /// one label is off by 10^-k
    #[serde(default)]
    nudge: Option<(usize, i8)>,
    /// one label is not a number (0), or infinite
    #[serde(default)]
    odd: Option<(usize, i8)>,
}
fn labels_case() -> BoxedStrategy<Labels> {
    let two = (prop_oneof![Just((1, -1)), Just((0, 1)), Just((1, 2)), (-5i64..6, -5i64..6), (-100000i64..100000, -5i64..6), (-10i64..10, -10i64..10).prop_map(|(a, b)| (a << 32, b << 31)), (3000000000i64..9000000000, -9000000000i64..9000000000)], 1usize..12)
        .prop_flat_map(|((a, b), m)| prop::collection::vec(any::<bool>(), m).prop_map(move |v| v.into_iter().map(|k| if k { a * 10 } else { b * 10 }).collect::<Vec<i64>>()));
    let many = prop::collection::vec((-3i64..4).prop_map(|x| x * 10), 1..8);
    let frac = prop::collection::vec(prop_oneof![6 => Just(10), 6 => Just(-10), 1 => Just(5), 1 => Just(-15), 1 => Just(9), 1 => Just(11), 1 => Just(-1)], 1..9);
    let nudge = prop::option::weighted(0.15, (any::<usize>(), prop_oneof![1i8..=12, -12i8..=-1]));
    let odd = prop::option::weighted(0.05, (any::<usize>(), -1i8..=1));
    (prop_oneof![4 => two.boxed(), 2 => many.boxed(), 3 => frac.boxed()], prop::bool::weighted(0.1), nudge, odd)
        .prop_map(|(tenths, drop_target, nudge, odd)| Labels { tenths, drop_target, nudge, odd })
        .boxed()
}
/// Long label vectors, one of them possibly out of place.
fn labels_long() -> BoxedStrategy<Labels> {
    (prop_oneof![Just((1i64, -1i64)), Just((0, 1)), Just((1, 2)), (-5i64..6, -5i64..6)], 100usize..3000, 0u8..4)
        .prop_flat_map(|((a, b), m, odd)| {
            let y = prop::collection::vec(any::<bool>(), m).prop_map(move |v| v.into_iter().map(|k| if k { a * 10 } else { b * 10 }).collect::<Vec<i64>>());
            (y, 0..m, -30i64..30, Just(odd))
        })
        .prop_map(|(mut y, at, v, odd)| {
            if odd == 0 {
                y[at] = v;
            }
            if odd == 1 {
                // a single example of the second label
                let k = y[0];
                y.iter_mut().for_each(|x| *x = k);
                y[at] = k + 10;
            }
            Labels { tenths: y, drop_target: false, nudge: None, odd: None }
        })
        .boxed()
}
fn check_labels(c: &Labels, o: &mut Obs) -> Res {
    let mut y: Vec<f64> = c.tenths.iter().map(|t| *t as f64 / 10.0).collect();
    let m = y.len();
    if let Some((i, k)) = c.nudge {
        y[i % m] += 10f64.powi(-(k.abs() as i32)) * k.signum() as f64;
    }
    if let Some((i, k)) = c.odd {
        y[i % m] = if k == 0 { f64::NAN } else { f64::INFINITY * k as f64 };
        o.label("not finite");
    }
    let x: Vec<f64> = (0..m).map(|i| i as f64).collect();
    let s = if c.drop_target {
        dense_sample(&[x], &default_names(1), &y[..m - 1])
    } else {
        dense_sample(&[x], &default_names(1), &y)
    };
    let mut u = c.tenths.clone();
    u.sort();
    u.dedup();
    let (valid, integers) = if c.nudge.is_some() || c.odd.is_some() {
        let mut v = y.clone();
        v.sort_by(|a, b| a.total_cmp(b));
        v.dedup();
        let ints = y.iter().all(|y| y.is_finite() && y.fract() == 0.0);
        (!c.drop_target && ints && v.len() == 2, ints)
    } else {
        let ints = c.tenths.iter().all(|t| t % 10 == 0);
        (!c.drop_target && ints && u.len() == 2, ints)
    };
    let r = catch(|| s.is_valid_binary_instance());
    ensure!(r.is_ok() == valid, "labels {y:?} (target missing: {}): accepted={}, expected {}", c.drop_target, r.is_ok(), valid);
    o.nt(m >= 2);
    o.label(if valid { "valid" } else { "invalid" });
    o.label_if(!integers, "fractional");
    o.label_if(c.nudge.is_some() && c.odd.is_none(), "nearly");
    o.label_if(u.len() == 1, "one kind");
    o.label_if(u.len() > 2, "many kinds");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Dummy {
    n: usize,
}
fn check_dummy(c: &Dummy, o: &mut Obs) -> Res {
    let s = must("dummy", || Sample::dummy(c.n))?;
    ensure!(s.shape() == (c.n, 1), "dummy shape {:?}", s.shape());
    ensure!(s.target().len() == c.n, "dummy target length");
    for i in 0..c.n {
        let want = if i < c.n / 2 { 1.0 } else { -1.0 };
        ensure!(s.target()[i] == want, "dummy label {i}");
    }
    if c.n >= 2 {
        must("a dummy sample is a valid binary instance", || s.is_valid_binary_instance())?;
    }
    o.nt(c.n >= 2);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            rule: "CSV texts built from a generated table (decimals, integers, arbitrary finite bit patterns; header or not; padding, CRLF, scientific notation; any target column), compared cell by cell with that table; non-trivial: >=2 rows and >=3 columns. Malformed texts (non-numeric cell, too many cells) must not be read successfully, nor dataframes with missing or textual entries or a target of another length; non-trivial: >1 row.",
            assumptions: &["column names are distinct and contain no comma, line break or surrounding blanks"],
            subs: vec![sub("csv", 450000, 3000000, csv_case, check_csv), sub("malformed", 180000, 1000000, bad_csv, check_bad_csv), sub("frames", 90000, 500000, bad_frame, check_bad_frame),
                sub("large", 7500, 50000, || prop_oneof![csv_sized(60..400, 2..6), csv_sized(1000..3000, 2..4), csv_sized(1..20, 20..80)].boxed(), check_csv)],
        },
        Prop {
            id: "P02",
            rule: "svmlight texts built from a generated sparse matrix (0-, 1- or 2-based indices, gaps, empty rows, explicit zeros), compared cell by cell with that matrix and with its CSV twin; non-trivial: >=2 rows, >=2 columns, some cell absent.",
            assumptions: &["a row lists an index at most once"],
            subs: vec![sub("svmlight", 600000, 4000000, svm_case, check_svm), sub("large", 12000, 80000, || svm_sized(60..500), check_svm), sub("wide", 300, 3000, || svm_wide((1000u16..9000).boxed(), 1..12), check_svm)],
        },
        Prop {
            id: "P03",
            rule: "generated tables with probability weights (zero weights and zero cells included), each loaded densely and sparsely; mean/variance per feature and per label compared with the defining sums; non-trivial: >=3 rows, >=2 labels, a non-zero column.",
            assumptions: &["weights form a probability vector (documented precondition)"],
            subs: vec![sub("stats", 900000, 8000000, || table3(1..=14, 4), check_stats), sub("large", 18000, 120000, || table3(80..=1500, 3), check_stats)],
        },
        Prop {
            id: "P04",
            rule: "generated samples (dense and sparse) with a row-id column, every configuration of ratio, folds, seed, shuffle; each fold compared with the original rows; non-trivial: >=4 rows, >=2 folds, non-empty test part.",
            assumptions: &[],
            subs: vec![sub("cv", 360000, 3000000, cv_case, check_cv), sub("large", 9000, 60000, cv_large, check_cv)],
        },
        Prop {
            id: "P05",
            rule: "label vectors with one, two or more kinds, fractional values, or a missing target; acceptance compared with the definition; non-trivial: >=2 labels.",
            assumptions: &["labels fit in 64-bit integers"],
            subs: vec![
                sub("labels", 1500000, 6000000, labels_case, check_labels),
                sub("long", 20000, 80000, labels_long, check_labels),
                sub("dummy", 2000, 8000, || (0usize..200).prop_map(|n| Dummy { n }).boxed(), check_dummy),
            ],
        },
    ]
}
