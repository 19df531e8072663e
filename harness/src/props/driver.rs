//! C01 merge, C02 range, C04 headers, C05 filters
use super::graph::{build, gen_graph, gen_sources, Graph, Node};
use crate::cli::{self, CliOut};
use crate::model::*;
use crate::probes::*;
use crate::rng::Rng;
use crate::run::{Bad, Ctx, Prop, Res, Tier};
use crate::{dc, ensure, viol};
use chopper::chopper::chopper::{ChopperDriver, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, TimestampRange};
use chopper::driver::driver::Driver;
use chopper::driver::merge_join::MergeJoin;
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;
use chopper::filter::row_filter_equal_value::RowFilterEqualValue;
use chopper::filter::row_filter_greater_value::RowFilterGreaterValue;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "a case is 1 to 400 generated inputs (tied, bursty, constant, extreme timestamps; empty inputs) merged by the real driver in process into a recording sink, or by the command line tool out of csv, dc or mixed files; some inputs have the same rows as others, and some files are named more than once; delivered rows are compared with a stable sort; one case in nine has inputs out of order, whose rows are compared input by input. nontrivial: at least two inputs with rows; distinct by input sizes and timestamps",
            assumptions: &[],
            cases: (24_000, 600_000),
            budget: (30, 420),
            run: c01,
            must_observe: &["rows_delivered", "ties_across_inputs", "cli_runs", "runs_with_over_16_inputs", "cases_over_65000_rows", "steps_back_in_time", "inputs_named_twice", "identical_neighbours"],
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "as C01, with begin and end on, next to and far from row timestamps, inverted and missing, and inputs that are empty, end early or start late; also split of an interval in two; one case in nine has inputs out of order, each of which is compared on its own. nontrivial: at least one row selected and at least one left out; distinct by timestamps and bounds",
            assumptions: &[],
            cases: (24_000, 600_000),
            budget: (30, 420),
            run: c02,
            must_observe: &["rows_selected", "rows_left_out", "empty_selections", "cli_runs", "bound_equals_row", "cases_over_65000_rows", "steps_back_in_time", "inputs_named_twice"],
        },
        Prop {
            id: "C04",
            level: "exploration",
            rule: "a case is either a set of inputs with equal headers (which must merge) or one with a difference in one column name, type, position or the count (which must be rejected before any row), through the library with in-memory sources and through the command line tool with csv and dc files; or a graph with too few chains; or a real csv, dc or directory source whose rows are checked against its header. nontrivial: all; distinct by headers and difference",
            assumptions: &[],
            cases: (16_000, 400_000),
            budget: (30, 420),
            run: c04,
            must_observe: &["mismatches_rejected", "equal_headers_merged", "too_few_chains_rejected", "rows_checked_against_header", "graph_rows_checked_against_header", "mismatches_within_graphs_rejected", "splits_of_different_headers_rejected", "cli_runs", "cases_over_65000_rows", "tables_over_4000_columns"],
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "a case is a table and a chain of one to three filters or deletions in front of a recording sink, or in a program of its own whose exit status and output file are looked at; the oracle evaluates them on the model. nontrivial: the filter's outcome is not the same for all rows, or a column is deleted; distinct by header, filter chain and rows",
            assumptions: &["boolean and byte buffer columns are not compared (documented as unsupported)"],
            cases: (60_000, 1_500_000),
            budget: (25, 420),
            run: c05,
            must_observe: &["rows_passed", "rows_dropped", "unknown_names_rejected", "null_values_met", "columns_deleted", "texts_equal_for_long", "cases_over_65000_rows", "programs_failed_over_types", "programs_succeeded", "tables_over_4000_columns"],
        },
    ]
}

/// headers of all inputs equal
fn gen_inputs(ctx: &mut Ctx) -> (Hdr, Vec<Vec<MRow>>) {
    let long = ctx.long(3001);
    let (r, tier) = (&mut ctx.rng, ctx.tier);
    let k = match r.below(20) {
        0 => 1,
        1..=8 => 2,
        9..=13 => r.urange(3, 5),
        14..=16 => r.urange(6, 12),
        17 | 18 => *r.pick(&[15usize, 16, 17, 18, 24, 31, 32, 33]),
        _ if r.one_in(5) => *r.pick(&[127usize, 128, 129, 255, 256, 257, 300, 400]),
        _ => *r.pick(&[40usize, 63, 64, 65, 66, 100, 120]),
    };
    let k = if long.is_some() { k.min(3) } else { k };
    let cols = if long.is_some() { r.urange(1, 2) } else { r.urange(1, 4) };
    let mut hdr = gen_hdr(r, cols);
    hdr.types[0] = FieldType::String;
    let big = r.one_in(if tier == Tier::Quick { 250 } else { 150 });
    let dom = r.below(6);
    let base = match r.below(6) {
        0 => 0,
        1 => u64::MAX - 12,
        2 => i64::MAX as u64 - 5,
        3 => u32::MAX as u64 - 5,
        _ => 1_600_000_000_000_000_000 + r.below(1000),
    };
    let mut inputs = Vec::new();
    for i in 0..k {
        let n = if let (Some(n), true) = (long, i == 0 || r.one_in(4)) { n } else if big { r.us(6000) } else if k > 12 { r.size(8) } else if r.one_in(6) { 0 } else { r.size(40) };
        let mut ts: Vec<u64> = match dom {
            // few distinct times: lots of ties
            0 | 1 => (0..n).map(|_| base.saturating_add(r.below(6))).collect(),
            2 => vec![base; n],
            3 => (0..n).map(|_| base.saturating_add(r.below(1000))).collect(),
            // interleaved without ties
            4 => (0..n).map(|j| base.saturating_add((j * k + i) as u64)).collect(),
            _ => (0..n).map(|_| if r.one_in(4) { *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 63]) } else { r.next() }).collect(),
        };
        ts.sort();
        let rows: Vec<MRow> = ts
            .into_iter()
            .enumerate()
            .map(|(j, ts)| {
                let mut v = vec![Val::Str(format!("i{}r{}", i, j))];
                for c in 1..cols {
                    v.push(if r.one_in(6) { Val::Null } else { gen_val(r, hdr.types[c], 6) });
                }
                MRow { ts, v }
            })
            .collect();
        inputs.push(rows);
    }
    // inputs with the same rows, or with rows that are the same as some of other inputs
    if ctx.idx % 9 != 4 && k > 1 && r.one_in(4) {
        for _ in 0..1 + r.us(3.min(k)) {
            let (a, b) = (r.us(k), r.us(k));
            let b = if r.bool() { (a + 1) % k } else { b };
            inputs[b] = inputs[a].clone();
        }
        if r.bool() {
            for row in inputs.iter_mut().flatten() {
                row.v = vec![Val::Null; cols];
                row.v[0] = Val::Str(["i0r0", "i1r0", "i0r0"][(row.ts % 3) as usize].to_string());
            }
        }
    }
    (hdr, inputs)
}

fn stable_merge(inputs: &[Vec<MRow>]) -> Vec<MRow> {
    let mut all: Vec<(u64, usize, usize)> = Vec::new();
    for (i, rows) in inputs.iter().enumerate() {
        for (j, r) in rows.iter().enumerate() {
            all.push((r.ts, i, j));
        }
    }
    all.sort();
    all.into_iter().map(|(_, i, j)| inputs[i][j].clone()).collect()
}

/// moves some rows of some inputs to other places, so that timestamps go back and forth
fn disorder(r: &mut Rng, inputs: &mut Vec<Vec<MRow>>) {
    for rows in inputs.iter_mut() {
        if rows.len() < 2 || r.one_in(4) {
            continue;
        }
        for _ in 0..1 + r.us(3 + rows.len() / 3) {
            let (a, b) = (r.us(rows.len()), r.us(rows.len()));
            rows.swap(a, b);
        }
    }
}

/// the rows that come from each of the inputs, which are told by their first column
fn by_input(rows: &[MRow], k: usize) -> Vec<Vec<MRow>> {
    let mut per = vec![Vec::new(); k];
    for row in rows {
        if let Val::Str(s) = &row.v[0] {
            if let Some(i) = s[1..].split('r').next().and_then(|n| n.parse::<usize>().ok()) {
                if i < k {
                    per[i].push(row.clone());
                }
            }
        }
    }
    per
}

/// what is left of an input that is not in order: its rows up to the first one past the end, without those before the begin
fn select_unordered(rows: &[MRow], b: Option<u64>, e: Option<u64>) -> Vec<MRow> {
    rows.iter().take_while(|r| e.map(|e| r.ts < e).unwrap_or(true)).filter(|r| b.map(|b| r.ts >= b).unwrap_or(true)).cloned().collect()
}

fn unordered(ctx: &mut Ctx, hdr: &Hdr, mut inputs: Vec<Vec<MRow>>, b: Option<u64>, e: Option<u64>) -> Res {
    disorder(&mut ctx.rng, &mut inputs);
    let k = inputs.len();
    let want: Vec<Vec<MRow>> = inputs.iter().map(|rows| select_unordered(rows, b, e)).collect();
    let back: usize = want.iter().map(|rows| rows.windows(2).filter(|w| w[1].ts < w[0].ts).count()).sum();
    ctx.count("steps_back_in_time", back as u64);
    ctx.shape(back > 0, &format!("{} {:?} {:?}", shape_of(&inputs), b, e));
    let what = format!("inputs out of order, begin {:?} end {:?}, sizes {:?}, timestamps {}", b, e, inputs.iter().map(|r| r.len()).collect::<Vec<_>>(), short(&shape_of(&inputs)));
    if k == 1 && inputs[0].len() <= 3000 && ctx.rng.one_in(3) {
        let inputs = simple_inputs(&inputs);
        let kind = ctx.rng.below(3);
        let paths = write_inputs(ctx, &inputs, kind);
        let (bs, es) = (b.map(iso), e.map(iso));
        let mut args: Vec<&str> = CSV_ARGS.to_vec();
        if let Some(s) = &bs {
            args.extend(["-b", s]);
        }
        if let Some(s) = &es {
            args.extend(["--end", s]);
        }
        args.extend(paths.iter().map(|s| s.as_str()));
        ctx.describe(format!("command line {:?}, {}", args, what));
        let out = cli::chop_simple(&args)?;
        ctx.count("cli_runs", 1);
        return check_cli(&out, &cli_expected(&select_unordered(&inputs[0], b, e)));
    }
    ctx.describe(format!("in process, {}", what));
    let (res, log) = drive_mem(&vec![hdr.clone(); k], &inputs, TimestampRange { begin: b, end: e });
    if let Err(e) = res {
        viol!("run failed: {}", e);
    }
    let got = rows_of(&log, 0);
    ctx.count("rows_delivered", got.len() as u64);
    let per = by_input(&got, k);
    for i in 0..k {
        if let Some(d) = diff_rows(&per[i], &want[i]) {
            viol!("rows of input {} of {}, which is out of order, differ: {}", i, k, d);
        }
    }
    let n: usize = want.iter().map(|w| w.len()).sum();
    ensure!(got.len() == n, "{} rows instead of {}", got.len(), n);
    Ok(())
}

fn in_range(ts: u64, b: Option<u64>, e: Option<u64>) -> bool {
    b.map(|b| ts >= b).unwrap_or(true) && e.map(|e| ts < e).unwrap_or(true)
}

pub fn merge_graph(k: usize, sink: Box<dyn HeaderSink>) -> HeaderGraph {
    if k == 1 {
        return HeaderGraph::new(vec![HeaderChain::new(vec![HeaderNode::HeaderSink(sink)])]);
    }
    let mut chains: Vec<HeaderChain> = (0..k).map(|_| HeaderChain::new(vec![HeaderNode::Merge(k)])).collect();
    let m = MergeJoin::new(k).expect("CHOPPER REFUSED a merge of one or more");
    let t = m.get_new_header_count_tracker();
    chains.push(HeaderChain::new(vec![HeaderNode::MergeHeaderSink(m, t), HeaderNode::HeaderSink(sink)]));
    HeaderGraph::new(chains)
}

/// drives in-memory sources into one probe
fn drive_mem(hdrs: &[Hdr], inputs: &[Vec<MRow>], range: TimestampRange) -> (Result<(), String>, SLog) {
    let log = new_log();
    let sources: Vec<Box<dyn Source>> = inputs
        .iter()
        .enumerate()
        .map(|(i, rows)| Box::new(MemSource::new(1000 + i, &hdrs[i], rows.clone(), &log)) as Box<dyn Source>)
        .collect();
    let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
    let graph = merge_graph(inputs.len(), Probe::new(0, Act::Pass, &log));
    let res = match Driver::new(sources, graph, range, headers) {
        Ok(mut d) => ChopperDriver::drive(&mut d).map_err(|e| e.to_string()),
        Err(e) => Err(e.to_string()),
    };
    (res, log)
}

/// printable table for the command line tool: strings only, nothing that needs quoting
fn simple_inputs(inputs: &[Vec<MRow>]) -> Vec<Vec<MRow>> {
    inputs
        .iter()
        .map(|rows| rows.iter().map(|r| MRow { ts: r.ts, v: vec![r.v[0].clone(), Val::Str(format!("x{}", r.ts % 7))] }).collect())
        .collect()
}

/// writes inputs as files of the given kinds, which read as the same header: timestamp,a,b for csv; dc has the
/// timestamp as a string column too
fn write_inputs(ctx: &mut Ctx, inputs: &[Vec<MRow>], kind: u64) -> Vec<String> {
    let mut paths: Vec<String> = Vec::new();
    for (i, rows) in inputs.iter().enumerate() {
        // the same file may be named more than once
        if let Some(same) = inputs[..i].iter().position(|other| other == rows) {
            if !rows.is_empty() && ctx.rng.below(4) > 0 {
                paths.push(paths[same].clone());
                ctx.count("inputs_named_twice", 1);
                continue;
            }
        }
        let csv = match kind {
            0 => true,
            1 => false,
            _ => ctx.rng.bool(),
        };
        if csv {
            let mut s = String::from("ts,a,b\n");
            for r in rows {
                s += &format!("{},{},{}\n", r.ts, txt(&r.v[0]), txt(&r.v[1]));
            }
            paths.push(ctx.write(&format!("in{}.csv", i), s.as_bytes()));
        } else {
            let t = Table {
                hdr: Hdr { names: vec!["ts".into(), "a".into(), "b".into()], types: vec![FieldType::String; 3] },
                rows: rows.iter().map(|r| MRow { ts: r.ts, v: vec![Val::Str(r.ts.to_string()), r.v[0].clone(), r.v[1].clone()] }).collect(),
            };
            paths.push(ctx.write(&format!("in{}.dc", i), &dc::encode(&t)));
        }
    }
    paths
}

fn txt(v: &Val) -> String {
    match v {
        Val::Str(s) => s.clone(),
        _ => String::new(),
    }
}

fn cli_expected(rows: &[MRow]) -> Vec<u8> {
    let mut s = String::from("timestampNanos,ts,a,b\n");
    for r in rows {
        s += &format!("{},{},{},{}\n", r.ts, r.ts, txt(&r.v[0]), txt(&r.v[1]));
    }
    s.into_bytes()
}

fn check_cli(out: &CliOut, want: &[u8]) -> Res {
    ensure!(out.ok(), "command line tool failed: {}", out.brief());
    if out.out != want {
        let g = String::from_utf8_lossy(&out.out).into_owned();
        let w = String::from_utf8_lossy(want).into_owned();
        let gl: Vec<&str> = g.lines().collect();
        let wl: Vec<&str> = w.lines().collect();
        let i = (0..gl.len().max(wl.len())).find(|&i| gl.get(i) != wl.get(i)).unwrap_or(0);
        viol!("output line {}: got {:?} expected {:?} ({} lines, expected {})", i, gl.get(i), wl.get(i), gl.len(), wl.len());
    }
    Ok(())
}

const CSV_ARGS: [&str; 8] = ["-E", "--csv-in-has-header", "yes", "--csv-in-ts-col", "ts", "--csv-in-epoch", "ns", "--csv-in-delimiter=,"];

fn shape_of(inputs: &[Vec<MRow>]) -> String {
    inputs.iter().map(|r| r.iter().take(30).map(|x| x.ts.to_string()).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("|")
}

fn c01(ctx: &mut Ctx) -> Res {
    let (hdr, inputs) = gen_inputs(ctx);
    let k = inputs.len();
    if ctx.idx % 9 == 4 {
        return unordered(ctx, &hdr, inputs, None, None);
    }
    let nonempty = inputs.iter().filter(|r| !r.is_empty()).count();
    ctx.shape(nonempty >= 2, &shape_of(&inputs));
    let total: usize = inputs.iter().map(|r| r.len()).sum();
    ctx.max("inputs", k as u64);
    if k > 16 {
        ctx.count("runs_with_over_16_inputs", 1);
    }
    let want = stable_merge(&inputs);
    let ties = want.windows(2).filter(|w| w[0].ts == w[1].ts && w[0].v[0] != w[1].v[0]).count();
    ctx.count("ties_across_inputs", ties as u64);
    ctx.count("identical_neighbours", want.windows(2).filter(|w| w[0] == w[1]).count() as u64);
    ctx.count("empty_inputs", (k - nonempty) as u64);
    if ctx.idx % 12 == 5 && total <= 3000 {
        let inputs = simple_inputs(&inputs);
        let kind = ctx.rng.below(3);
        let paths = write_inputs(ctx, &inputs, kind);
        ctx.describe(format!("command line, {} files of kind {}, sizes {:?}, timestamps {}", k, kind, inputs.iter().map(|r| r.len()).collect::<Vec<_>>(), short(&shape_of(&inputs))));
        let mut args: Vec<&str> = CSV_ARGS.to_vec();
        args.extend(paths.iter().map(|s| s.as_str()));
        let out = cli::chop_simple(&args)?;
        ctx.count("cli_runs", 1);
        ctx.count("rows_delivered", want.len() as u64);
        return check_cli(&out, &cli_expected(&stable_merge(&inputs)));
    }
    ctx.describe(format!("in process, {} inputs, sizes {:?}, timestamps {}", k, inputs.iter().map(|r| r.len()).collect::<Vec<_>>(), short(&shape_of(&inputs))));
    let (res, log) = drive_mem(&vec![hdr; k], &inputs, TimestampRange { begin: None, end: None });
    if let Err(e) = res {
        viol!("run failed: {}", e);
    }
    let got = rows_of(&log, 0);
    ctx.count("rows_delivered", got.len() as u64);
    if let Some(d) = diff_rows(&got, &want) {
        viol!("merged rows differ from stable merge: {}", d);
    }
    Ok(())
}

fn iso(ns: u64) -> String {
    let c = crate::civil::civil((ns / 1_000_000_000) as i64);
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}+00:00", c.y, c.mo, c.d, c.h, c.mi, c.s, ns % 1_000_000_000)
}

fn c02(ctx: &mut Ctx) -> Res {
    let (hdr, mut inputs) = gen_inputs(ctx);
    let k = inputs.len();
    // make some inputs lie entirely before or after the rest
    if ctx.rng.one_in(3) {
        let i = ctx.rng.us(k);
        let shift = 2000;
        let up = ctx.rng.bool();
        for r in inputs[i].iter_mut() {
            r.ts = if up { r.ts.saturating_add(shift) } else { r.ts.saturating_sub(shift) };
        }
    }
    let mut all: Vec<u64> = inputs.iter().flatten().map(|r| r.ts).collect();
    all.sort();
    let bound = |r: &mut Rng| -> Option<u64> {
        match r.below(8) {
            0 => None,
            1 => Some(*r.pick(&[0, 1, u64::MAX, u64::MAX - 1, i64::MAX as u64])),
            2 => Some(r.next()),
            _ if all.is_empty() => None,
            _ => {
                let t = match r.below(4) {
                    0 => all[0],
                    1 => all[all.len() - 1],
                    _ => *r.pick(&all),
                };
                Some(match r.below(4) {
                    0 => t.saturating_add(1),
                    1 => t.saturating_sub(1),
                    _ => t,
                })
            }
        }
    };
    let mut b = bound(&mut ctx.rng);
    let mut e = bound(&mut ctx.rng);
    if let (Some(x), Some(y)) = (b, e) {
        if x > y && !ctx.rng.one_in(5) {
            b = Some(y);
            e = Some(x);
        }
    }
    // all but the last ones of very many rows, or all but the first ones
    if inputs[0].len() > 1 << 20 {
        let n = ctx.rng.us(20);
        let v = &inputs[0];
        if ctx.idx / 3001 % 2 == 0 {
            b = Some(v[v.len() - 1 - n].ts);
            e = None;
        } else {
            b = None;
            e = Some(v[n].ts.saturating_add(1));
        }
    } else if ctx.idx % 9 == 4 {
        return unordered(ctx, &hdr, inputs, b, e);
    }
    let want: Vec<MRow> = stable_merge(&inputs).into_iter().filter(|r| in_range(r.ts, b, e)).collect();
    let left = all.len() - want.len();
    ctx.shape(!want.is_empty() && left > 0, &format!("{} {:?} {:?}", shape_of(&inputs), b, e));
    ctx.count("rows_selected", want.len() as u64);
    ctx.count("rows_left_out", left as u64);
    if want.is_empty() {
        ctx.count("empty_selections", 1);
    }
    if all.iter().any(|t| Some(*t) == b || Some(*t) == e) {
        ctx.count("bound_equals_row", 1);
    }
    if ctx.idx % 12 == 5 && all.len() <= 3000 {
        let inputs = simple_inputs(&inputs);
        let kind = ctx.rng.below(3);
        let paths = write_inputs(ctx, &inputs, kind);
        let (bs, es) = (b.map(iso), e.map(iso));
        let mut args: Vec<&str> = CSV_ARGS.to_vec();
        if let Some(s) = &bs {
            args.extend(["-b", s]);
        }
        if let Some(s) = &es {
            args.extend(["--end", s]);
        }
        args.extend(paths.iter().map(|s| s.as_str()));
        ctx.describe(format!("command line {:?}, timestamps {}", args, short(&shape_of(&inputs))));
        let out = cli::chop_simple(&args)?;
        ctx.count("cli_runs", 1);
        let want: Vec<MRow> = stable_merge(&inputs).into_iter().filter(|r| in_range(r.ts, b, e)).collect();
        return check_cli(&out, &cli_expected(&want));
    }
    ctx.describe(format!("in process, begin {:?} end {:?}, {} inputs, timestamps {}", b, e, k, short(&shape_of(&inputs))));
    let run = |b, e| -> Result<Vec<MRow>, Bad> {
        let (res, log) = drive_mem(&vec![hdr.clone(); k], &inputs, TimestampRange { begin: b, end: e });
        if let Err(e) = res {
            viol!("run failed: {}", e);
        }
        let flushed = log.borrow().events.iter().any(|e| *e == Ev::Flush(0));
        ensure!(flushed, "sink was not flushed");
        Ok(rows_of(&log, 0))
    };
    let got = run(b, e)?;
    if let Some(d) = diff_rows(&got, &want) {
        viol!("rows in range differ: {}", d);
    }
    // selections of two adjacent intervals add up
    if ctx.idx % 7 == 0 && !all.is_empty() {
        let m = *ctx.rng.pick(&all);
        if b.map(|b| b <= m).unwrap_or(true) && e.map(|e| m <= e).unwrap_or(true) {
            let mut both = run(b, Some(m))?;
            both.extend(run(Some(m), e)?);
            if let Some(d) = diff_rows(&both, &want) {
                viol!("rows of [{:?}, {}) and [{}, {:?}) do not add up: {}", b, m, m, e, d);
            }
            ctx.count("interval_splits", 1);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

fn differ(r: &mut Rng, h: &Hdr, types: bool) -> (Hdr, String) {
    let mut d = h.clone();
    let n = d.len();
    loop {
        match r.below(6) {
            0 if n > 0 => {
                let i = r.us(n);
                d.names[i].push('x');
                return (d, format!("name of column {}", i));
            }
            1 if n > 0 => {
                let i = r.us(n);
                let up: String = d.names[i].chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                if up != d.names[i] {
                    d.names[i] = up;
                    return (d, format!("case of column {}", i));
                }
            }
            2 if n > 0 && types => {
                let i = r.us(n);
                let t = *r.pick(&TYPES);
                if t != d.types[i] {
                    d.types[i] = t;
                    return (d, format!("type of column {}", i));
                }
            }
            3 if n > 1 => {
                let i = r.us(n - 1);
                if d.names[i] != d.names[i + 1] {
                    d.names.swap(i, i + 1);
                    d.types.swap(i, i + 1);
                    return (d, format!("order of columns {} and {}", i, i + 1));
                }
            }
            4 => {
                d.names.push("extra".into());
                d.types.push(FieldType::String);
                return (d, "extra column at the end".into());
            }
            5 if n > 1 => {
                d.names.pop();
                d.types.pop();
                return (d, "last column missing".into());
            }
            _ => {}
        }
    }
}

fn c04(ctx: &mut Ctx) -> Res {
    match ctx.idx % 16 {
        0..=6 => c04_lib(ctx),
        7 => c04_chains(ctx),
        8 | 9 => c04_cli(ctx),
        10 | 11 => c04_graph(ctx),
        _ => c04_sources(ctx),
    }
}

fn c04_lib(ctx: &mut Ctx) -> Res {
    let wide = super::formats::widths(ctx);
    let cols = wide.unwrap_or_else(|| gen_cols(&mut ctx.rng, 40).max(1));
    let h = gen_hdr(&mut ctx.rng, cols);
    let k = ctx.rng.urange(2, if wide.is_some() { 3 } else { 6 });
    let mut hdrs = vec![h.clone(); k];
    let equal = ctx.rng.one_in(4);
    let mut what = String::from("equal");
    if !equal {
        let i = ctx.rng.us(k);
        let (d, w) = differ(&mut ctx.rng, &h, true);
        hdrs[i] = d;
        what = format!("input {} of {}: {}", i, k, w);
    }
    let inputs: Vec<Vec<MRow>> = hdrs.iter().map(|h| { let n = ctx.rng.urange(0, 3); gen_rows(&mut ctx.rng, h, n, 4) }).collect();
    ctx.shape(true, &format!("{:?} {}", h, what));
    ctx.describe(format!("library merge, {} columns, {}", cols, what));
    let (res, log) = drive_mem(&hdrs, &inputs, TimestampRange { begin: None, end: None });
    let rows = rows_of(&log, 0);
    if equal {
        ensure!(res.is_ok(), "inputs with equal headers were rejected: {:?}", res);
        ensure!(rows.len() == inputs.iter().map(|r| r.len()).sum::<usize>(), "rows lost");
        for e in &log.borrow().events {
            if let Ev::Header(0, g) = e {
                if let Some(d) = diff_hdr(g, &h) {
                    viol!("merged header: {}", d);
                }
            }
        }
        ctx.count("equal_headers_merged", 1);
    } else {
        ensure!(res.is_err(), "mismatched headers were merged ({}), {} rows delivered", what, rows.len());
        ensure!(rows.is_empty(), "{} rows delivered before mismatch was reported ({})", rows.len(), what);
        ctx.count("mismatches_rejected", 1);
    }
    Ok(())
}

fn c04_chains(ctx: &mut Ctx) -> Res {
    let k = ctx.rng.urange(1, 8);
    let have = ctx.rng.us(k);
    let h = gen_hdr(&mut ctx.rng, 2);
    ctx.shape(true, &format!("{} {}", k, have));
    ctx.describe(format!("{} sources, {} chains", k, have));
    let log = new_log();
    let sources: Vec<Box<dyn Source>> = (0..k).map(|i| Box::new(MemSource::new(i, &h, gen_rows(&mut ctx.rng, &h, 3, 3), &log)) as Box<dyn Source>).collect();
    let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
    let chains = (0..have).map(|i| HeaderChain::new(vec![HeaderNode::HeaderSink(Probe::new(i, Act::Pass, &log))])).collect();
    let ok = match Driver::new(sources, HeaderGraph::new(chains), TimestampRange { begin: None, end: None }, headers) {
        Ok(mut d) => ChopperDriver::drive(&mut d).is_ok(),
        Err(_) => false,
    };
    ensure!(!ok, "graph with {} chains was accepted for {} sources", have, k);
    ensure!(!log.borrow().events.iter().any(|e| matches!(e, Ev::Row(..))), "rows delivered before the missing chain was reported");
    ctx.count("too_few_chains_rejected", 1);
    Ok(())
}

fn c04_cli(ctx: &mut Ctx) -> Res {
    let dcf = ctx.rng.bool();
    let cols = ctx.rng.urange(1, 12);
    let mut h = Hdr { names: (0..cols).map(|i| format!("n{}", i)).collect(), types: (0..cols).map(|_| *ctx.rng.pick(&TYPES)).collect() };
    if !dcf {
        h.types = vec![FieldType::String; cols];
    }
    let k = ctx.rng.urange(2, 4);
    let mut hdrs = vec![h.clone(); k];
    let equal = ctx.rng.one_in(4);
    let mut what = String::from("equal");
    if !equal {
        let i = ctx.rng.us(k);
        let (mut d, mut w) = differ(&mut ctx.rng, &h, dcf);
        // timestamp column of csv stays first
        if !dcf && d.names[0] != h.names[0] && d.len() == h.len() {
            d = h.clone();
            d.names[cols - 1].push('y');
            w = "name of last column".into();
        }
        hdrs[i] = d;
        what = format!("input {} of {}: {}", i, k, w);
    }
    let mut paths = Vec::new();
    let mut n = 0;
    for (i, h) in hdrs.iter().enumerate() {
        let rows = ctx.rng.urange(0, 4);
        n += rows;
        if dcf {
            let t = Table { hdr: h.clone(), rows: gen_rows(&mut ctx.rng, h, rows, 0) };
            paths.push(ctx.write(&format!("f{}.dc", i), &dc::encode(&t)));
        } else {
            let mut s = h.names.join(",") + "\n";
            for j in 0..rows {
                s += &(0..h.len()).map(|c| format!("{}", j * 100 + c)).collect::<Vec<_>>().join(",");
                s.push('\n');
            }
            paths.push(ctx.write(&format!("f{}.csv", i), s.as_bytes()));
        }
    }
    ctx.shape(true, &format!("{} {:?} {}", dcf, h, what));
    ctx.describe(format!("command line merge of {} files, {} columns, {}", if dcf { "dc" } else { "csv" }, cols, what));
    let mut args = vec!["-E", "--csv-in-has-header", "yes", "--csv-in-epoch", "ns", "--csv-in-ts-col", "0", "--csv-in-delimiter=,"];
    args.extend(paths.iter().map(|s| s.as_str()));
    let out = cli::chop_simple(&args)?;
    ctx.count("cli_runs", 1);
    if equal {
        ensure!(out.ok(), "equal headers were rejected: {}", out.brief());
        let l = cli::lines(&out.out).unwrap_or_default();
        ensure!(l.len() == n + 1, "{} lines of output, expected {}", l.len(), n + 1);
        ensure!(l[0] == format!("timestampNanos,{}", h.names.join(",")), "header line {:?}", l[0]);
        ctx.count("equal_headers_merged", 1);
    } else {
        ensure!(!out.ok() && !out.panicked() && out.signal.is_none(), "mismatched headers ({}): {}", what, out.brief());
        ensure!(cli::lines(&out.out).map(|l| l.len() <= 1).unwrap_or(true), "rows were delivered before mismatch was reported: {}", out.brief());
        ensure!(!out.err.trim().is_empty(), "no message for mismatch");
        ctx.count("mismatches_rejected", 1);
    }
    Ok(())
}

/// headers that reach each merge, in any order; name of a counter if they differ somewhere
fn merges_agree(g: &Graph, src: &[Hdr]) -> Option<&'static str> {
    let mut heads: std::collections::HashMap<usize, Vec<Hdr>> = std::collections::HashMap::new();
    let mut todo: Vec<(usize, Hdr)> = Vec::new();
    for (i, h) in src.iter().enumerate() {
        match g.chains[i].first() {
            Some(Node::Head(_)) => heads.entry(i).or_default().push(h.clone()),
            _ => todo.push((i, h.clone())),
        }
    }
    let mut done: Vec<usize> = Vec::new();
    // chains that don't begin with a merge may be led to from several places, with one and the same header
    let mut plain: std::collections::HashMap<usize, Hdr> = std::collections::HashMap::new();
    loop {
        let (chain, mut h) = match todo.pop() {
            Some((c, h)) if matches!(g.chains[c].first(), Some(Node::Head(_))) => {
                heads.entry(c).or_default().push(h);
                continue;
            }
            Some((c, h)) => match plain.get(&c) {
                Some(p) if diff_hdr(&h, p).is_some() => return Some("splits_of_different_headers_rejected"),
                Some(_) => continue,
                None => {
                    plain.insert(c, h.clone());
                    (c, h)
                }
            },
            None => {
                let full = heads.iter().find(|(c, v)| !done.contains(c) && matches!(g.chains[**c].first(), Some(Node::Head(n)) if *n == v.len())).map(|(c, v)| (*c, v[0].clone()));
                match full {
                    Some((c, h)) => {
                        done.push(c);
                        (c, h)
                    }
                    None => break,
                }
            }
        };
        for n in &g.chains[chain] {
            match n {
                Node::Head(_) => {}
                Node::Step(_, a) => a.header(&mut h),
                Node::Split(t) => todo.extend(t.iter().map(|t| (*t, h.clone()))),
                Node::Merge(t) => heads.entry(*t).or_default().push(h.clone()),
            }
        }
    }
    if heads.values().any(|v| v.iter().any(|h| diff_hdr(h, &v[0]).is_some())) {
        return Some("mismatches_within_graphs_rejected");
    }
    None
}

/// graphs with steps that change the header, in chains, branches and behind merges; and such ones where the headers
/// that meet in a merge have come to differ
fn c04_graph(ctx: &mut Ctx) -> Res {
    let (hdrs, mut inputs) = gen_sources(&mut ctx.rng);
    for i in inputs.iter_mut() {
        i.truncate(4);
    }
    let mut g = gen_graph(&mut ctx.rng, &hdrs);
    let r = &mut ctx.rng;
    if r.bool() {
        // another step in front of some merge or split
        let at: Vec<(usize, usize)> = g.chains.iter().enumerate().flat_map(|(c, n)| n.iter().enumerate().filter(|(_, n)| matches!(n, Node::Merge(_) | Node::Split(_))).map(move |(k, _)| (c, k)).collect::<Vec<_>>()).collect();
        if !at.is_empty() {
            let (c, k) = *r.pick(&at);
            let id = 900;
            let act = if r.bool() { Act::AddCol(5) } else { Act::DelCol };
            g.chains[c].insert(k, Node::Step(id, act));
        }
    }
    let differ = merges_agree(&g, &hdrs);
    let agree = differ.is_none();
    let mut budget = 20_000i64;
    {
        let mut seen = std::collections::HashMap::new();
        let mut out = Vec::new();
        for (i, rows) in inputs.iter().enumerate() {
            for row in rows {
                super::graph::model_row(&g, i, 0, row, &mut seen, &mut out, &mut budget);
            }
        }
    }
    if budget < 0 {
        return Ok(());
    }
    ctx.describe(format!("chains {:?}; sources {} headers that meet are equal: {}", g.chains, short(&inputs), agree));
    ctx.shape(true, &format!("{:?} {:?}", g.chains, hdrs));
    let log = new_log();
    let sources: Vec<Box<dyn Source>> = inputs.iter().enumerate().map(|(i, rows)| Box::new(MemSource::new(10_000 + i, &hdrs[i], rows.clone(), &log)) as Box<dyn Source>).collect();
    let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
    let res = match Driver::new(sources, build(&g, &log), TimestampRange { begin: None, end: None }, headers) {
        Ok(mut d) => ChopperDriver::drive(&mut d).map_err(|e| e.to_string()),
        Err(e) => Err(e.to_string()),
    };
    let log = log.borrow();
    if let Some(counter) = differ {
        ensure!(res.is_err(), "headers that differ were merged");
        ensure!(!log.events.iter().any(|e| matches!(e, Ev::Row(..))), "rows were delivered before the mismatch was reported");
        ctx.count(counter, 1);
        return Ok(());
    }
    ensure!(res.is_ok(), "graph was rejected: {:?}", res);
    let mut got: std::collections::HashMap<usize, Hdr> = std::collections::HashMap::new();
    let mut n = 0;
    for e in &log.events {
        match e {
            Ev::Header(id, h) => {
                got.insert(*id, h.clone());
            }
            Ev::Row(id, row) => {
                let h = match got.get(id) {
                    Some(h) => h,
                    None => viol!("step {} got a row before its header", id),
                };
                ensure!(h.len() == row.v.len(), "step {} was told of columns {:?} and got a row with values {:?}", id, h.names, row.v);
                // columns of sources are named by their number; those added have values of their own
                for (c, v) in row.v.iter().enumerate() {
                    if let (Val::Str(s), Some(k)) = (v, h.names[c].strip_prefix("added")) {
                        let s: &str = s.split('|').next().unwrap_or("");
                        ensure!(!s.starts_with('s') && (!s.starts_with('a') || s == format!("a{}", k)), "step {}: value {:?} under column {:?}", id, v, h.names[c]);
                    } else if let Val::Str(s) = v {
                        let s: &str = s.split('|').next().unwrap_or("");
                        if let (true, Some((_, c1)), Some((_, c2))) = (s.starts_with('s'), s.rsplit_once('c'), h.names[c].rsplit_once('c')) {
                            ensure!(c1 == c2, "step {}: value {:?} under column {:?}", id, v, h.names[c]);
                        } else {
                            ensure!(!s.starts_with('a'), "step {}: value {:?} under column {:?}", id, v, h.names[c]);
                        }
                    }
                }
                n += 1;
            }
            _ => {}
        }
    }
    ctx.count("graph_rows_checked_against_header", n);
    Ok(())
}

/// real sources: every row is as wide as the header, and values are under their own columns
fn c04_sources(ctx: &mut Ctx) -> Res {
    let cols = gen_cols(&mut ctx.rng, 60).max(1);
    let nrows = match ctx.long(999) {
        Some(n) if cols < 10 => n,
        _ => ctx.rng.size(30),
    };
    let mode = ctx.rng.below(3);
    let names: Vec<String> = (0..cols).map(|i| format!("n{}", i)).collect();
    // value tells its column
    let (path, opt) = match mode {
        0 => {
            let mut s = names.join(",") + "\n";
            for j in 0..nrows {
                let w = if ctx.rng.one_in(3) { ctx.rng.urange(1, cols) } else { cols };
                s += &(0..w).map(|c| if c == 0 { format!("{}", j) } else { format!("n{}.{}", c, j) }).collect::<Vec<_>>().join(",");
                s.push('\n');
            }
            (ctx.write("t.csv", s.as_bytes()), CsvOpt::nanos(true, 0, ","))
        }
        1 => {
            let rows = (0..nrows)
                .map(|j| MRow { ts: j as u64, v: (0..cols).map(|c| if ctx.rng.one_in(5) { Val::Null } else { Val::Str(format!("n{}.{}", c, j)) }).collect() })
                .collect();
            let t = Table { hdr: Hdr { names: names.clone(), types: vec![FieldType::String; cols] }, rows };
            (ctx.write("t.dc", &dc::encode(&t)), CsvOpt::default())
        }
        _ => {
            for f in 0..ctx.rng.urange(1, 4) {
                let mut order: Vec<usize> = (1..cols).collect();
                ctx.rng.shuffle(&mut order);
                order.insert(ctx.rng.us(order.len() + 1).min(if f == 0 { 0 } else { order.len() }), 0);
                let extra = if f > 0 { ctx.rng.us(3) } else { 0 };
                let mut head: Vec<String> = order.iter().map(|c| names[*c].clone()).collect();
                head.extend((0..extra).map(|e| format!("e{}", e)));
                let mut s = head.join(",") + "\n";
                for j in 0..nrows {
                    let mut cells: Vec<String> = order.iter().map(|c| if *c == 0 { format!("{}", f * 1_000_000 + j) } else { format!("n{}.{}", c, j) }).collect();
                    cells.extend((0..extra).map(|e| format!("e{}.{}", e, j)));
                    s += &(cells.join(",") + "\n");
                }
                ctx.write(&format!("d/f{}.csv", f), s.as_bytes());
            }
            let mut o = CsvOpt::nanos(true, 0, ",");
            o.col = chopper::source::csv_configs::TimestampColConfig::Name("n0".into());
            (ctx.path_str("d"), o)
        }
    };
    ctx.shape(nrows > 0, &format!("{} {} {}", mode, cols, nrows));
    ctx.describe(format!("{} input, {} columns, {} rows", ["csv", "dc", "directory"][mode as usize], cols, nrows));
    let log = new_log();
    let src = match open_path(&path, None, &opt) {
        Ok(s) => s,
        Err(e) => viol!("cannot open: {}", e),
    };
    let headers = vec![src.header().clone()];
    let graph = merge_graph(1, Probe::new(0, Act::Pass, &log));
    let mut d = Driver::new(vec![src], graph, TimestampRange { begin: None, end: None }, headers).map_err(|e| Bad::Violation(e.to_string()))?;
    if let Err(e) = ChopperDriver::drive(&mut d) {
        viol!("run failed: {}", e);
    }
    let log = log.borrow();
    let mut head: Option<Hdr> = None;
    let mut n = 0;
    for e in &log.events {
        match e {
            Ev::Header(_, h) => head = Some(h.clone()),
            Ev::Row(_, r) => {
                let h = match &head {
                    Some(h) => h,
                    None => viol!("row before header"),
                };
                ensure!(r.v.len() == h.len(), "row {} has {} values, header has {} columns", n, r.v.len(), h.len());
                for (c, v) in r.v.iter().enumerate() {
                    if let Val::Str(s) = v {
                        if s.contains('.') {
                            ensure!(s.split('.').next() == Some(h.names[c].as_str()), "row {}: value {:?} is under column {:?}", n, s, h.names[c]);
                        }
                    }
                }
                n += 1;
            }
            _ => {}
        }
    }
    ctx.count("rows_checked_against_header", n);
    Ok(())
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug)]
enum Flt {
    Eq(String, Val),
    Gt(String, Val),
    Del(String),
}

fn ascii_eq(a: &str, b: &str) -> bool {
    a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| x.to_ascii_lowercase() == y.to_ascii_lowercase())
}

fn val_eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Double(x), Val::Double(y)) => f64::from_bits(*x) == f64::from_bits(*y),
        (Val::Float(x), Val::Float(y)) => f32::from_bits(*x) == f32::from_bits(*y),
        _ => a == b,
    }
}
fn val_gt(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Byte(x), Val::Byte(y)) => x > y,
        (Val::Char(x), Val::Char(y)) => x > y,
        (Val::Short(x), Val::Short(y)) => x > y,
        (Val::Int(x), Val::Int(y)) => x > y,
        (Val::Long(x), Val::Long(y)) => x > y,
        (Val::Double(x), Val::Double(y)) => f64::from_bits(*x) > f64::from_bits(*y),
        (Val::Float(x), Val::Float(y)) => f32::from_bits(*x) > f32::from_bits(*y),
        (Val::Str(x), Val::Str(y)) => x.as_bytes() > y.as_bytes(),
        _ => false,
    }
}

fn val_spec(v: &Val) -> String {
    match v {
        Val::Null => "null:".into(),
        Val::Bool(x) => format!("bool:{}", *x as u8),
        Val::Buf(x) => format!("buf:{}", String::from_utf8_lossy(x)),
        Val::Byte(x) => format!("byte:{}", x),
        Val::Char(x) => format!("char:{}", x),
        Val::Short(x) => format!("short:{}", x),
        Val::Int(x) => format!("int:{}", x),
        Val::Long(x) => format!("long:{}", x),
        Val::Float(x) => format!("float:{}", x),
        Val::Double(x) => format!("double:{}", x),
        Val::Str(x) => format!("str:{}", x),
    }
}

/// a program of its own that filters a file: its exit status tells whether the rows that it wrote are all
fn c05_program(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let cols = r.urange(1, 5);
    let mut h = gen_hdr(r, cols);
    h.names = (0..cols).map(|i| format!("c{}", i)).collect();
    let n = r.urange(1, 12);
    let rows = gen_rows(r, &h, n, 1);
    let c = r.us(cols);
    let name = format!("c{}", c);
    let (kind, v) = match r.below(6) {
        0 | 1 => ("gt", { let t = *r.pick(&TYPES); gen_val(r, t, 1) }),
        2 => ("gt", r.pick(&[Val::Null, Val::Bool(true), Val::Buf(vec![65])]).clone()),
        3 => ("gt", gen_val(r, h.types[c], 1)),
        4 => ("eq", { let t = *r.pick(&TYPES); gen_val(r, t, 1) }),
        _ => ("eq", rows[r.us(n)].v[c].clone()),
    };
    let bare = |v: &Val| matches!(v, Val::Str(s) if s.contains('\0'));
    if bare(&v) {
        return Ok(());
    }
    // rows in front of the first one that can't be compared
    let same = |a: &Val, b: &Val| std::mem::discriminant(a) == std::mem::discriminant(b);
    let stop = if kind == "gt" { rows.iter().position(|w| w.v[c] != Val::Null && !same(&w.v[c], &v)) } else { None };
    let pass: Vec<MRow> = rows[..stop.unwrap_or(n)].iter().filter(|w| if kind == "gt" { val_gt(&w.v[c], &v) } else { val_eq(&w.v[c], &v) }).cloned().collect();
    let t = Table { hdr: h.clone(), rows: rows.clone() };
    ctx.write("in.dc", &dc::encode(&t));
    let (i, o) = (ctx.path_str("in.dc"), ctx.path_str("out.dc"));
    ctx.shape(true, &format!("program {} {:?} {:?}", kind, v, h.types));
    ctx.describe(format!("program with filter {} {} {:?} over header {} and rows {}", kind, name, v, short(&h), short(&rows)));
    let spec = val_spec(&v);
    let out = cli::exec(&cli::bin("embed"), &["--filters", &o, &i, kind, &name, &spec], cli::In::Null, cli::Env::default())?;
    ensure!(!out.panicked() && out.signal.is_none(), "program crashed: {}", out.brief());
    ensure!(out.out.is_empty(), "stdout holds something else than data: {}", out.brief());
    if stop.is_some() {
        ensure!(!out.ok(), "comparison of different types passed for success: {}", out.brief());
        ensure!(!out.err.trim().is_empty(), "failure without a message: {}", out.brief());
        ctx.count("programs_failed_over_types", 1);
        return Ok(());
    }
    ensure!(out.ok(), "program failed: {}", out.brief());
    let got = dc::decode(&std::fs::read(&o).map_err(|e| Bad::Violation(format!("no output file: {}", e)))?).map_err(|e| Bad::Violation(format!("output file: {}", e)))?;
    if let Some(d) = diff_rows(&got.rows, &pass) {
        viol!("rows in the program's output: {}", d);
    }
    ctx.count("programs_succeeded", 1);
    Ok(())
}

fn c05(ctx: &mut Ctx) -> Res {
    if ctx.rng.one_in(25) {
        return c05_program(ctx);
    }
    let long = ctx.long(9001);
    let wide = if long.is_some() { None } else { super::formats::widths(ctx) };
    let r = &mut ctx.rng;
    let cols = if let Some(n) = wide { n } else if long.is_some() { r.urange(1, 3) } else if r.one_in(6) { gen_cols(r, 300).max(1) } else { r.urange(1, 8) };
    let mut h = gen_hdr(r, cols);
    // repeated names, differing in case or not at all
    if cols > 1 && r.one_in(3) {
        let (a, b) = (r.us(cols), r.us(cols));
        h.names[a] = if r.bool() { h.names[b].to_ascii_uppercase() } else { h.names[b].clone() };
    }
    if r.one_in(5) {
        let a = r.us(cols);
        h.names[a] = (*r.pick(&["É", "é", "İ", "ı", "K", "ſ", "", " x", "A[", "a{"])).to_string();
    }
    let nrows = if wide.is_some() { r.urange(1, 8) } else { long.unwrap_or_else(|| r.size(40)) };
    let mut rows = gen_rows(r, &h, nrows, 3);
    // few distinct values, so that filters select some
    for c in 0..cols {
        let mut pool: Vec<Val> = (0..r.urange(1, 4)).map(|_| gen_val(r, h.types[c], 2)).collect();
        if h.types[c] == FieldType::String && r.one_in(3) {
            // texts that are the same for a long way, or start with one another
            let l = *r.pick(&[1usize, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1000, 5000]);
            let base: String = gen_text(r, 30).chars().chain("a common beginning ".chars()).cycle().take(l).collect();
            let tails = ["", "a", "b", "A", "\0", " ", "é", "aa", "ab", "\u{10ffff}"];
            pool = (0..r.urange(2, 5)).map(|_| Val::Str(format!("{}{}", base, r.pick(&tails)))).collect();
            *ctx.ev.entry("texts_equal_for_long".into()).or_insert(0) += 1;
        }
        if r.bool() {
            for row in rows.iter_mut() {
                if row.v[c] != Val::Null {
                    row.v[c] = r.pick(&pool).clone();
                }
            }
        }
    }
    // model
    let mut flts = Vec::new();
    let mut mh = h.clone();
    let mut mrows = rows.clone();
    let mut unknown = false;
    let mut nulls = 0;
    let mut dropped = 0;
    let mut deleted = 0;
    for _ in 0..r.urange(1, 3) {
        if mh.len() == 0 {
            break;
        }
        // the last ones of very many
        let target = if wide.is_some() && r.bool() { mh.len() - 1 - r.us(mh.len().min(10)) } else { r.us(mh.len()) };
        let mut name = mh.names[target].clone();
        match r.below(8) {
            0 => name = name.to_ascii_uppercase(),
            1 => name = name.to_ascii_lowercase(),
            2 => name = name.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            3 if r.one_in(3) => name = name.to_uppercase(),
            4 if r.one_in(3) => name.push('?'),
            _ => {}
        }
        let found = mh.names.iter().position(|n| ascii_eq(n, &name));
        let f = match (r.below(5), found) {
            (0 | 1, i) => {
                let i = i.unwrap_or(0);
                let v = match r.below(6) {
                    0 => Val::Null,
                    1 => { let t = *r.pick(&TYPES); gen_val(r, t, 2) }
                    2..=4 if !mrows.is_empty() => mrows[r.us(mrows.len())].v[i].clone(),
                    _ => gen_val(r, mh.types[i], 2),
                };
                Flt::Eq(name, v)
            }
            (2 | 3, i) => {
                let i = i.unwrap_or(0);
                let mut v = if !mrows.is_empty() && r.bool() { mrows[r.us(mrows.len())].v[i].clone() } else { gen_val(r, mh.types[i], 2) };
                if v == Val::Null {
                    v = gen_val(r, mh.types[i], 2);
                }
                Flt::Gt(name, v)
            }
            _ => Flt::Del(name),
        };
        match (&f, found) {
            (_, None) => unknown = true,
            (Flt::Eq(_, v), Some(i)) => {
                nulls += mrows.iter().filter(|m| m.v[i] == Val::Null).count();
                let n = mrows.len();
                mrows.retain(|m| val_eq(&m.v[i], v));
                dropped += n - mrows.len();
            }
            (Flt::Gt(_, v), Some(i)) => {
                nulls += mrows.iter().filter(|m| m.v[i] == Val::Null).count();
                let n = mrows.len();
                mrows.retain(|m| val_gt(&m.v[i], v));
                dropped += n - mrows.len();
            }
            (Flt::Del(_), Some(i)) => {
                mh.names.remove(i);
                mh.types.remove(i);
                for m in mrows.iter_mut() {
                    m.v.remove(i);
                }
                deleted += 1;
            }
        }
        flts.push(f);
        if unknown {
            break;
        }
    }
    ctx.shape(deleted > 0 || dropped > 0 && !mrows.is_empty(), &format!("{:?} {:?} {}", h.names, flts, short(&rows)));
    ctx.describe(format!("filters {} over header {} and rows {}", short(&flts), short(&h), short(&rows)));
    let log = new_log();
    let src = Box::new(MemSource::new(100, &h, rows, &log)) as Box<dyn Source>;
    let headers = vec![src.header().clone()];
    let mut nodes: Vec<HeaderNode> = flts
        .iter()
        .map(|f| {
            HeaderNode::HeaderSink(match f {
                Flt::Eq(n, v) => RowFilterEqualValue::new(n, v.to()),
                Flt::Gt(n, v) => RowFilterGreaterValue::new(n, v.to()),
                Flt::Del(n) => ColumnFilterDelete::new(n),
            })
        })
        .collect();
    let _: Option<FieldValue> = None;
    nodes.push(HeaderNode::HeaderSink(Probe::new(0, Act::Pass, &log)));
    let res = match Driver::new(vec![src], HeaderGraph::new(vec![HeaderChain::new(nodes)]), TimestampRange { begin: None, end: None }, headers) {
        Ok(mut d) => ChopperDriver::drive(&mut d).map_err(|e| e.to_string()),
        Err(e) => Err(e.to_string()),
    };
    let got = rows_of(&log, 0);
    if unknown {
        ensure!(res.is_err(), "unknown column was accepted");
        ensure!(got.is_empty(), "rows delivered before unknown column was reported");
        ctx.count("unknown_names_rejected", 1);
        return Ok(());
    }
    ensure!(res.is_ok(), "run failed: {:?}", res);
    for e in &log.borrow().events {
        if let Ev::Header(0, g) = e {
            if let Some(d) = diff_hdr(g, &mh) {
                viol!("header behind filters: {}", d);
            }
        }
    }
    if let Some(d) = diff_rows(&got, &mrows) {
        viol!("rows behind filters: {}", d);
    }
    ctx.count("rows_passed", got.len() as u64);
    ctx.count("rows_dropped", dropped as u64);
    ctx.count("null_values_met", nulls as u64);
    ctx.count("columns_deleted", deleted);
    Ok(())
}
