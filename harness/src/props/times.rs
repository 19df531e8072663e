//! C11 csv timestamps, C12 printed times, C13 begin and end, C26 zone configuration
use super::driver::merge_graph;
use crate::civil::{self, Civil};
use crate::cli;
use crate::dc;
use crate::model::*;
use crate::probes::*;
use crate::rng::Rng;
use crate::run::{Bad, Ctx, Prop, Res};
use crate::tz::{self, Tz};
use crate::{ensure, viol};
use chopper::chopper::chopper::{ChopperDriver, Source};
use chopper::chopper::types::{FieldType, TimestampRange};
use chopper::driver::driver::Driver;
use chopper::source::csv_configs::{CSVOutputConfig, TimestampColConfig, TimestampFmtConfig, TimestampStyle};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::tz::ChopperTz;
use chopper::write::factory;
use std::collections::HashMap;

const MAX_SEC: i64 = 18446744073;
const NS: u64 = 1_000_000_000;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            level: "exploration",
            rule: "a case is a csv input whose timestamp texts are rendered by the harness from chosen UTC instants (biased to zone transitions, range ends, leap days) under a format given by the user, implied by column names or recognised from the first row, in any of the built-in zones, some with one text that denotes no time or a time in a gap or overlap. The delivered timestamps have to be the chosen instants, errors have to be reported. nontrivial: at least one row; distinct by format, zone and texts",
            assumptions: &["offsets from UTC at given instants in chrono-tz' zone data are right"],
            cases: (400_000, 10_000_000),
            budget: (30, 420),
            run: c11,
            must_observe: &["rows_checked", "bad_rows_reported", "gaps_or_overlaps_reported", "mode_user_format", "mode_auto_format", "mode_epoch_given", "mode_epoch_from_name", "mode_epoch_auto", "mode_split_user", "mode_split_auto", "out_of_range_reported", "cli_runs", "rows_near_transitions"],
        },
        Prop {
            id: "C12",
            level: "exploration",
            rule: "a case is a table of up to 60 rows with timestamps over all of u64 (biased to zone transitions, range ends, fractions with leading zeros or all nines) written as csv by library or tool with a random style, unit and zone; every printed time is compared with the harness' own rendering. nontrivial: at least one row; distinct by style, unit, zone and timestamps",
            assumptions: &["offsets from UTC at given instants in chrono-tz' zone data are right"],
            cases: (160_000, 3_500_000),
            budget: (30, 420),
            run: c12,
            must_observe: &["human_times", "epoch_times", "cli_runs", "times_after_2262", "times_with_daylight_saving"],
        },
        Prop {
            id: "C13",
            level: "exploration",
            rule: "a case is a begin or end text rendered by the harness from a chosen instant in every accepted layout, epoch unit and partial date, or one that denotes nothing; the parsed value has to be that instant (or the nearest end of range) or an error; for some the tool selects from rows at instant - 1, instant and instant + 1. nontrivial: all; distinct by text and zone",
            assumptions: &["offsets from UTC at given instants in chrono-tz' zone data are right"],
            cases: (1_200_000, 30_000_000),
            budget: (30, 420),
            run: c13,
            must_observe: &["instants_checked", "rejected", "clamped", "gaps_or_overlaps_reported", "cli_runs", "layouts_local", "layouts_iso", "layouts_epoch", "layouts_partial"],
        },
        Prop {
            id: "C26",
            level: "exploration",
            rule: "a case configures a zone by option, environment variable, custom map, several of these or none, and then reads or writes times that do or do not depend on the zone, through the library, the tool and an embedding program; results have to be those of the configured zone, or an error where one is missing or unknown. nontrivial: all; distinct by configuration and use",
            assumptions: &["offsets from UTC at given instants in chrono-tz' zone data are right"],
            cases: (30_000, 700_000),
            budget: (30, 420),
            run: c26,
            must_observe: &["zone_from_option", "zone_from_env", "option_over_env", "zone_from_map", "map_over_builtin", "unknown_zones_rejected", "environment_not_text", "unneeded_zone_missing", "needed_zone_missing", "cli_runs", "embedded_runs"],
        },
    ]
}

// ------------------------------------------------------------------ C11

const USER_FMTS: [&str; 18] = [
    "%Y%m%d.%H%M%S",
    "%Y-%m-%d %H:%M:%S",
    "%Y-%m-%dT%H:%M:%S%.f",
    "%d/%m/%Y %H:%M:%S%.3f",
    "%Y%m%d-%H%M%S%.6f",
    "%Y%m%d-%H:%M:%S%.9f",
    "%H:%M:%S %d.%m.%Y",
    "%m/%d/%Y %I:%M:%S %p",
    "%Y-%j %H:%M:%S",
    "%b %d %Y %H:%M:%S",
    "%d %B %Y %T",
    "%y%m%d %H%M%S",
    "%F %T",
    "%Y/%m/%d %H:%M:%S%z",
    "%Y-%m-%dT%H:%M:%S%.f%:z",
    "%+",
    "%Y%m%d_%H%M%S_%f",
    "%s",
];
const USER_DATES: [&str; 5] = ["%Y-%m-%d", "%d.%m.%Y", "%Y%m%d", "%b %d %Y", "%Y/%j"];
const AUTO_FMTS: [&str; 5] = ["%+", "%Y%m%d.%H%M%S", "%Y%m%d %H%M%S", "%Y%m%d %H:%M:%S", "%Y/%m/%d-%H:%M:%S"];
/// (date, time)
const AUTO_SPLIT: [(&str, &str); 4] = [("%Y%m%d", "%H%M%S%3f"), ("%Y%m%d", "%H%M%S"), ("%Y%m%d", "%H:%M:%S"), ("%Y%m%d", "%-H:%M")];
const USER_SPLIT: [(&str, &str); 5] = [("%Y-%m-%d", "%H:%M:%S"), ("%d/%m/%Y", "%H%M%S"), ("%Y%m%d", "%H:%M:%S%.f"), ("%Y%m%d", "%H:%M:%S%.3f"), ("%b %d %Y", "%I:%M %p")];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    UserFormat,
    AutoFormat,
    UserDate,
    AutoDate,
    EpochGiven,
    EpochName,
    EpochAuto,
    SplitUser,
    SplitAuto,
}
use Mode::*;

const UNITS: [(&str, &str, TimestampUnits, u64); 4] = [
    ("s", "seconds", TimestampUnits::Seconds, 1_000_000_000),
    ("ms", "millis", TimestampUnits::Millis, 1_000_000),
    ("us", "micros", TimestampUnits::Micros, 1_000),
    ("ns", "nanos", TimestampUnits::Nanos, 1),
];

/// timestamp cells of one row and what they mean
struct Cell {
    a: String,
    b: Option<String>,
    /// None: has to be an error
    ts: Option<u64>,
    kind: &'static str,
}

fn trunc_nanos(nanos: u32, digits: usize) -> u32 {
    let p = 10u32.pow(9 - digits as u32);
    nanos / p * p
}

/// nanoseconds since epoch of an instant, None if out of range
fn nanos_of(secs: i64, n: u32) -> Option<u64> {
    if secs < 0 {
        return None;
    }
    (secs as u64).checked_mul(NS)?.checked_add(n as u64)
}

fn resolve(tz: Tz, local: i64, n: u32) -> (Option<u64>, &'static str) {
    match tz::from_local(tz, local).as_slice() {
        [u] => match nanos_of(*u, n) {
            Some(t) => (Some(t), "ok"),
            None => (None, "range"),
        },
        _ => (None, "gap"),
    }
}

/// text for pattern of an instant; local time, offset and precision as the pattern has it
fn cell_at(r: &mut Rng, pats: (&str, Option<&str>), tz: Tz, utc: i64, nanos: u32) -> Cell {
    let whole = match pats.1 {
        None => pats.0.to_string(),
        Some(b) => format!("{}#{}", pats.0, b),
    };
    let digits = tz::precision(&whole).unwrap_or_else(|| r.us(10));
    let n = trunc_nanos(nanos, digits);
    let date_only = !whole.contains("%H") && !whole.contains("%I") && !whole.contains("%T") && !whole.contains("%+") && !whole.contains("%s") && !whole.contains("%-H");
    let no_secs = !date_only && !whole.contains("%S") && !whole.contains("%T") && !whole.contains("%+") && !whole.contains("%s");
    let (local, offset, ts, kind);
    if tz::has_zone(&whole) {
        // any offset will do in texts, in whole minutes
        offset = if whole.contains("%s") { 0 } else { *r.pick(&[0i64, 3600, -18000, 20700, 45900, -34200, 50400, -43200]) };
        local = utc + offset;
        ts = nanos_of(utc, n);
        kind = if ts.is_some() { "ok" } else { "range" };
    } else {
        offset = 0;
        let mut l = utc + tz::off(tz, utc);
        if date_only {
            l = l.div_euclid(86400) * 86400;
        } else if no_secs {
            l = l.div_euclid(60) * 60;
        } else if r.one_in(12) {
            // local times that may not exist
            l += *r.pick(&[1800i64, 3600, -1800, 5400]);
        }
        local = l;
        let x = resolve(tz, local, if date_only || no_secs { 0 } else { n });
        ts = x.0;
        kind = x.1;
    }
    let c = civil::civil(local);
    let a = tz::render(pats.0, &c, n, offset, utc, digits);
    let b = pats.1.map(|p| tz::render(p, &c, n, offset, utc, digits));
    Cell { a, b, ts, kind }
}

/// text that does not follow the pattern
fn spoil(r: &mut Rng, cell: &mut Cell, mode: Mode) {
    let epoch = matches!(mode, EpochGiven | EpochName | EpochAuto);
    let second = cell.b.is_some() && r.bool();
    let t = if second { cell.b.as_mut().unwrap() } else { &mut cell.a };
    match r.below(if epoch { 9 } else { 6 }) {
        0 => t.clear(),
        1 => t.push('x'),
        2 => *t = format!("x{}", t),
        3 => *t = "garbage".into(),
        4 => t.push_str(" 1 2"),
        5 => *t = "99999999999999999999999999".into(),
        6 => *t = format!("-{}", t),
        7 => t.push_str(".5"),
        _ => *t = u64::MAX.to_string() + "0",
    }
    cell.ts = None;
    cell.kind = "bad";
}

fn gen_name_around(r: &mut Rng, core: &str) -> String {
    let mut s: String = core.to_string();
    match r.below(3) {
        0 => {}
        1 => s = s.to_uppercase(),
        _ => {
            let mut c = s.chars();
            let f = c.next().unwrap();
            s = f.to_uppercase().collect::<String>() + c.as_str();
        }
    }
    s
}

fn c11(ctx: &mut Ctx) -> Res {
    let mode = [UserFormat, UserFormat, AutoFormat, UserDate, AutoDate, EpochGiven, EpochName, EpochAuto, SplitUser, SplitAuto][(ctx.idx % 10) as usize];
    let r = &mut ctx.rng;
    let zone = tz::gen_zone(r);
    let (pa, pb): (String, Option<String>) = match mode {
        UserFormat => (r.pick(&USER_FMTS).to_string(), None),
        UserDate => (r.pick(&USER_DATES).to_string(), None),
        AutoDate => ("%Y%m%d".into(), None),
        AutoFormat => (r.pick(&AUTO_FMTS).to_string(), None),
        SplitUser => {
            let p = *r.pick(&USER_SPLIT);
            (p.0.into(), Some(p.1.into()))
        }
        SplitAuto => {
            let p = *r.pick(&AUTO_SPLIT);
            (p.0.into(), Some(p.1.into()))
        }
        _ => (String::new(), None),
    };
    let unit = *r.pick(&UNITS);
    let n = 1 + r.size(12);
    // two-digit years are those of 1970 to 2069
    let max = if pa.contains("%y") { 3_100_000_000 } else { MAX_SEC - 90_000 };
    let mut cells: Vec<Cell> = Vec::new();
    for k in 0..n {
        let mut c = match mode {
            EpochGiven | EpochName | EpochAuto => {
                let limit = u64::MAX / unit.3;
                let v = if mode == EpochAuto && k == 0 {
                    let lo = 630_000_000 * (NS / unit.3);
                    let hi = 2_000_000_000 * (NS / unit.3);
                    match r.below(4) {
                        0 => lo,
                        1 => hi - 1,
                        2 if unit.0 != "ns" && !r.bool() => lo + r.below(1000),
                        _ => r.range(lo, hi - 1),
                    }
                } else {
                    match r.below(7) {
                        0 => r.below(100),
                        // what would be a present-day time in any of the units
                        6 => r.range(630_000_000, 1_999_999_999) * (NS / r.pick(&UNITS).3),
                        1 => limit - r.below(3),
                        2 if unit.3 > 1 => limit + 1 + r.below(1000),
                        3 => limit >> r.below(40),
                        _ => r.below(2_000_000_000) * (NS / unit.3) + r.below(NS / unit.3),
                    }
                };
                let ts = v.checked_mul(unit.3);
                Cell { a: v.to_string(), b: None, ts, kind: if ts.is_some() { "ok" } else { "range" } }
            }
            _ => {
                let mut utc = tz::gen_instant(r, zone, max);
                if r.one_in(25) && !pa.contains("%y") {
                    // out of range
                    utc = if r.bool() { -1 - r.irange(0, 100_000_000) } else { MAX_SEC + 100_000 + r.irange(0, 1_000_000_000) };
                }
                if pa.contains("%s") {
                    utc = utc.max(0);
                }
                if pa.contains("%y") {
                    utc = utc.max(100_000); // local year is 1970 or later
                }
                let nanos = match r.below(5) {
                    0 => 0,
                    1 => 999_999_999,
                    2 => r.below(1000) as u32 * 1_000_000,
                    3 => r.below(2000) as u32,
                    _ => r.below(NS) as u32,
                };
                cell_at(r, (&pa, pb.as_deref()), zone, utc, nanos)
            }
        };
        if r.one_in(40) {
            spoil(r, &mut c, mode);
        }
        cells.push(c);
    }
    // a text in another recognised format after the first row is an error, too
    if mode == AutoFormat && n > 1 && r.one_in(20) {
        let other = *r.pick(&AUTO_FMTS);
        // blanks match nothing at all, too
        if other != pa && !(other.contains(' ') && pa.contains(' ')) {
            let k = r.urange(1, n - 1);
            let mut c = cell_at(r, (other, None), zone, 1_400_000_000, 0);
            if r.one_in(3) {
                // nor is a number a time of that format
                c.a = (r.range(630_000_000, 1_999_999_999) * (NS / r.pick(&UNITS).3)).to_string();
                *ctx.ev.entry("numbers_among_texts".into()).or_insert(0) += 1;
            }
            c.ts = None;
            c.kind = "bad";
            cells[k] = c;
        }
    }
    // columns
    let ncols = r.urange(if pb.is_some() { 2 } else { 1 }, 5);
    let mut names: Vec<String> = (0..ncols).map(|i| format!("v{}", i)).collect();
    let ia = r.us(ncols);
    let ib = if pb.is_some() { (ia + r.urange(1, ncols - 1)) % ncols } else { ia };
    let by_name = r.bool();
    let mut opt = CsvOpt { delim: Some("|".into()), has_header: chopper::cli::util::YesNoAuto::Yes, ..CsvOpt::default() };
    let mut args: Vec<String> = vec!["--csv-in-has-header=yes".into(), "--csv-in-delimiter=|".into(), "-z".into(), zone.name().into()];
    match mode {
        UserFormat | UserDate | AutoFormat | AutoDate | EpochGiven | EpochAuto => match r.below(3) {
            0 => {
                let core = if mode == UserDate && r.bool() { "date" } else { "time" };
                names[ia] = gen_name_around(r, core);
                opt.col = TimestampColConfig::Auto;
            }
            1 => {
                names[ia] = "when".into();
                opt.col = TimestampColConfig::Name("when".into());
                args.push("--csv-in-ts-col".into());
                args.push("when".into());
            }
            _ => {
                opt.col = TimestampColConfig::Index(ia);
                args.push("--csv-in-ts-col".into());
                args.push(ia.to_string());
            }
        },
        EpochName => match r.below(4) {
            0 => {
                names[ia] = gen_name_around(r, &format!("time{}", unit.1));
                opt.col = TimestampColConfig::Auto;
            }
            1 => {
                names[ia] = gen_name_around(r, &format!("tradetime{}", unit.1));
                opt.col = TimestampColConfig::Auto;
            }
            2 => {
                names[ia] = format!("x{}", unit.1);
                opt.col = TimestampColConfig::Name(names[ia].clone());
                args.push("--csv-in-ts-col".into());
                args.push(names[ia].clone());
            }
            _ => {
                names[ia] = format!("y {}", unit.1);
                opt.col = TimestampColConfig::Index(ia);
                args.push("--csv-in-ts-col".into());
                args.push(ia.to_string());
            }
        },
        SplitUser | SplitAuto => {
            let m = r.below(3);
            if m == 0 {
                let p = if r.bool() { "" } else { "x" };
                names[ia] = gen_name_around(r, &format!("{}date", p));
                names[ib] = gen_name_around(r, &format!("{}time", p));
                opt.col = TimestampColConfig::Auto;
            } else {
                names[ia] = "day".into();
                names[ib] = "hour".into();
                opt.col = if by_name { TimestampColConfig::DateTimeName("day".into(), "hour".into()) } else { TimestampColConfig::DateTimeIndex(ia, ib) };
                args.extend(["--csv-in-ts-col-date".into(), if by_name { "day".into() } else { ia.to_string() }]);
                args.extend(["--csv-in-ts-col-time".into(), if by_name { "hour".into() } else { ib.to_string() }]);
            }
        }
    }
    match mode {
        UserFormat | UserDate => {
            opt.fmt = TimestampFmtConfig::Explicit(pa.clone());
            args.extend(["--csv-in-ts-fmt".into(), pa.clone()]);
        }
        SplitUser => {
            opt.fmt = TimestampFmtConfig::DateTimeExplicit(pa.clone(), pb.clone().unwrap());
            args.extend(["--csv-in-ts-fmt-date".into(), pa.clone(), "--csv-in-ts-fmt-time".into(), pb.clone().unwrap()]);
        }
        EpochGiven => {
            opt.fmt = TimestampFmtConfig::Epoch(unit.2);
            args.extend(["--csv-in-epoch".into(), unit.0.into()]);
        }
        _ => {}
    }
    opt.tz = ChopperTz::from(zone);
    // text
    let mut s = names.join("|") + "\n";
    let mut want: Vec<MRow> = Vec::new();
    let mut bad: Option<(usize, &'static str)> = None;
    for (k, c) in cells.iter_mut().enumerate() {
        if ncols == 1 && c.a.is_empty() {
            c.a.push('x'); // blank lines are no records
        }
        let mut f: Vec<String> = (0..ncols).map(|i| format!("r{}c{}", k, i)).collect();
        f[ia] = c.a.clone();
        if let Some(b) = &c.b {
            f[ib] = b.clone();
        }
        // a row that ends before its timestamp
        let mut kind = c.kind;
        let mut ts = c.ts;
        if ia > 0 && r.one_in(60) {
            f.truncate(ia);
            kind = "missing";
            ts = None;
            if f.concat().is_empty() {
                f[0].push('x');
            }
        }
        s += &f.join("|");
        s.push('\n');
        match ts {
            Some(ts) if bad.is_none() => want.push(MRow { ts, v: f.iter().map(|x| Val::Str(x.trim().into())).collect() }),
            None if bad.is_none() => bad = Some((k, kind)),
            _ => {}
        }
    }
    let shown = if ctx.verbose { s.clone() } else { short(&s) };
    ctx.describe(format!("{:?} zone {} formats {:?} {:?} unit {} col {:?} ({:?}) expected timestamps {:?} then {:?}: {}", mode, zone.name(), pa, pb, unit.0, ia, opt.col, want.iter().map(|r| r.ts).collect::<Vec<_>>(), bad, shown));
    ctx.shape(true, &format!("{:?} {} {}", mode, zone.name(), s));
    let p = ctx.write("in.csv", s.as_bytes());
    let (rows, end) = if ctx.idx % 30 >= 28 && !pa.starts_with('-') {
        args.extend(["-E".into(), "-g".into(), "ns".into(), "--delimiter=|".into(), p]);
        let out = cli::chop_simple(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
        ctx.count("cli_runs", 1);
        ensure!(!out.panicked(), "tool panics: {}", out.brief());
        let mut rows = Vec::new();
        let text = out.out_s();
        for l in text.lines().skip(1) {
            let mut it = l.split('|');
            let ts = it.next().unwrap_or("").parse::<u64>().map_err(|e| Bad::Violation(format!("time cell in {:?}: {}", l, e)))?;
            rows.push(MRow { ts, v: it.map(|x| Val::Str(x.into())).collect() });
        }
        (rows, if out.ok() { End::Ok } else { End::Err(out.err.clone()) })
    } else {
        let o = read_path(&p, None, &opt);
        (o.rows, o.end)
    };
    if let End::Panic(l, m) = &end {
        viol!("panic at {}: {}", l, m);
    }
    match bad {
        None => {
            ensure!(end == End::Ok, "valid timestamps rejected: {:?} after {} of {} rows", end, rows.len(), want.len());
            if let Some(d) = diff_rows(&rows, &want) {
                viol!("{}", d);
            }
        }
        Some((k, kind)) => {
            ensure!(matches!(end, End::Err(_)), "row {} denotes no valid timestamp ({}) and is no error; rows {}", k, kind, short(&rows));
            ensure!(rows.len() <= k, "{} rows delivered, row {} is bad", rows.len(), k);
            if let Some(d) = diff_rows(&rows, &want[..rows.len()]) {
                viol!("{}", d);
            }
            match kind {
                "gap" => ctx.count("gaps_or_overlaps_reported", 1),
                "range" => ctx.count("out_of_range_reported", 1),
                _ => ctx.count("bad_rows_reported", 1),
            }
        }
    }
    let near = want.iter().filter(|m| {
        let t = (m.ts / NS) as i64;
        t > 90000 && t < 4_000_000_000 && tz::off(zone, t - 7200) != tz::off(zone, t + 7200)
    }).count();
    ctx.count("rows_near_transitions", near as u64);
    ctx.count("rows_checked", rows.len() as u64);
    ctx.count(match mode {
        UserFormat => "mode_user_format",
        UserDate => "mode_user_date",
        AutoFormat => "mode_auto_format",
        AutoDate => "mode_auto_date",
        EpochGiven => "mode_epoch_given",
        EpochName => "mode_epoch_from_name",
        EpochAuto => "mode_epoch_auto",
        SplitUser => "mode_split_user",
        SplitAuto => "mode_split_auto",
    }, 1);
    Ok(())
}

// ------------------------------------------------------------------ C12

pub fn human(tz: Tz, ts: u64, digits: usize) -> String {
    let utc = (ts / NS) as i64;
    let o = tz::off(tz, utc);
    let c = civil::civil(utc + o);
    let pat = match digits {
        0 => "%Y-%m-%dT%H:%M:%S%:z",
        3 => "%Y-%m-%dT%H:%M:%S%.3f%:z",
        6 => "%Y-%m-%dT%H:%M:%S%.6f%:z",
        _ => "%Y-%m-%dT%H:%M:%S%.9f%:z",
    };
    tz::render(pat, &c, (ts % NS) as u32, o, utc, 0)
}

pub fn csv_config(delim: &str, print: bool, name: Option<&str>, epoch: bool, unit: TimestampUnits, tz: Option<Tz>) -> CSVOutputConfig {
    CSVOutputConfig::new(
        delim,
        print,
        name.map(|s| s.to_string()),
        if epoch { TimestampStyle::Epoch } else { TimestampStyle::HumanReadable },
        unit,
        tz.map(ChopperTz::from).unwrap_or_else(ChopperTz::new_always_fails),
    )
}

/// writes a table as csv through driver and sink of the library
pub fn lib_write_csv(t: &Table, path: &str, config: CSVOutputConfig) -> Result<(), String> {
    let log = new_log();
    let src: Box<dyn Source> = Box::new(MemSource::new(0, &t.hdr, t.rows.clone(), &log));
    let headers = vec![src.header().clone()];
    let sink = factory::new_header_sink(Some(path), Some(config)).map_err(|e| e.to_string())?;
    let mut d = Driver::new(vec![src], merge_graph(1, sink), TimestampRange { begin: None, end: None }, headers).map_err(|e| e.to_string())?;
    ChopperDriver::drive(&mut d).map_err(|e| e.to_string())
}

fn c12(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let zone = tz::gen_zone(r);
    let unit = *r.pick(&UNITS);
    let epoch = r.one_in(4);
    let digits = match unit.0 {
        "s" => 0,
        "ms" => 3,
        "us" => 6,
        _ => 9,
    };
    let n = r.urange(1, 60);
    let mut ts: Vec<u64> = (0..n)
        .map(|_| match r.below(6) {
            0 => gen_bits64(r),
            1 => u64::MAX - r.below(3 * NS),
            2 => r.below(3 * NS),
            _ => {
                let s = tz::gen_instant(r, zone, MAX_SEC - 1) as u64;
                let f = match r.below(6) {
                    0 => 0,
                    1 => 999_999_999,
                    2 => r.below(10),
                    3 => 999_000_000 + r.below(1_000_000),
                    4 => r.below(1000) * 1_000_000 + 999_999,
                    _ => r.below(NS),
                };
                s * NS + f
            }
        })
        .collect();
    ts.sort();
    let t = Table {
        hdr: Hdr { names: vec!["i".into()], types: vec![FieldType::Int] },
        rows: ts.iter().enumerate().map(|(i, t)| MRow { ts: *t, v: vec![Val::Int(i as i32)] }).collect(),
    };
    ctx.describe(format!("zone {} unit {} epoch {} timestamps {:?}", zone.name(), unit.0, epoch, ts));
    ctx.shape(true, &ctx.desc.clone());
    let p = ctx.path_str("out.csv");
    if ctx.idx % 40 == 1 {
        let i = ctx.write("in.dc", &dc::encode(&t));
        let mut a = vec![i.as_str(), "-o", &p, "-g", unit.0, "-z", zone.name()];
        if epoch {
            a.push("-E");
        } else if ctx.idx % 80 == 1 {
            a.push("-H");
        }
        let out = cli::chop_simple(&a)?;
        ctx.count("cli_runs", 1);
        ensure!(out.ok(), "tool failed: {}", out.brief());
    } else {
        let cfg = csv_config(",", true, None, epoch, unit.2, Some(zone));
        lib_write_csv(&t, &p, cfg).map_err(|e| Bad::Violation(format!("writing failed: {}", e)))?;
    }
    let text = std::fs::read(&p).map_err(|e| Bad::Violation(format!("no output: {}", e)))?;
    let lines = cli::lines(&text).ok_or(Bad::Violation("output does not end with a line feed".into()))?;
    let name = if epoch { format!("timestamp{}", ["Seconds", "Millis", "Micros", "Nanos"][digits / 3]) } else { "time".into() };
    ensure!(lines[0] == format!("{},i", name), "header line {:?}", lines[0]);
    ensure!(lines.len() == n + 1, "{} lines for {} rows", lines.len(), n);
    for (i, t) in ts.iter().enumerate() {
        let want = if epoch { (t / unit.3).to_string() } else { human(zone, *t, digits) };
        let got = lines[i + 1].strip_suffix(&format!(",{}", i)).unwrap_or(&lines[i + 1]);
        if !epoch && tz::off(zone, (t / NS) as i64) % 60 != 0 {
            // the text cannot give that offset exactly
            ctx.count("offsets_with_seconds", 1);
            let cut = |s: &str| s[..s.len().saturating_sub(6)].to_string();
            ensure!(cut(got) == cut(&want), "timestamp {} printed as {:?}, expected {:?}", t, got, want);
            continue;
        }
        ensure!(got == want, "timestamp {} printed as {:?}, expected {:?} (zone {})", t, got, want, zone.name());
    }
    ctx.count(if epoch { "epoch_times" } else { "human_times" }, n as u64);
    ctx.count("times_after_2262", ts.iter().filter(|t| **t > i64::MAX as u64).count() as u64);
    if !epoch {
        let dst = ts.iter().filter(|t| {
            let s = (**t / NS) as i64;
            s < 2_100_000_000 && tz::off(zone, s) != tz::off(zone, s + 182 * 86400)
        });
        ctx.count("times_with_daylight_saving", dst.count() as u64);
    }
    Ok(())
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, PartialEq)]
enum Bound {
    At(u64),
    Error(&'static str),
}

fn clamp(secs: i64, n: u32) -> u64 {
    if secs < 0 {
        0
    } else {
        (secs as u64).saturating_mul(NS).saturating_add(n as u64)
    }
}

fn wide_instant(r: &mut Rng, zone: Tz) -> i64 {
    match r.below(12) {
        0 => civil::days_from_civil(r.irange(1, 1969), r.range(1, 12) as u32, 1) * 86400 + r.irange(0, 86399),
        1 => civil::days_from_civil(r.irange(2555, 9998), r.range(1, 12) as u32, 1) * 86400 + r.irange(0, 86399),
        2 => r.irange(-100_000, 100_000),
        3 => MAX_SEC + r.irange(-100_000, 100_000),
        _ => tz::gen_instant(r, zone, MAX_SEC),
    }
}

/// text, meaning, kind
fn gen_bound(r: &mut Rng, zone: Option<Tz>) -> (String, Bound, &'static str) {
    let z = zone.unwrap_or(Tz::UTC);
    let nanos = match r.below(4) {
        0 => 0,
        1 => 999_999_999,
        _ => r.below(NS) as u32,
    };
    let local_bound = |local: i64, n: u32| -> Bound {
        if zone.is_none() {
            return Bound::Error("no zone");
        }
        match tz::from_local(z, local).as_slice() {
            [u] => Bound::At(clamp(*u, n)),
            _ => Bound::Error("gap"),
        }
    };
    match r.below(10) {
        0..=3 => {
            let d = *r.pick(&["%Y%m%d", "%Y/%m/%d", "%Y-%m-%d"]);
            let s = *r.pick(&[" ", "-", "T"]);
            let t = *r.pick(&["%H:%M:%S", "%H%M%S"]);
            let f = *r.pick(&["", "%.f"]);
            let pat = format!("{}{}{}{}", d, s, t, f);
            let digits = if f.is_empty() { 0 } else { r.us(10) };
            let n = trunc_nanos(nanos, digits);
            let utc = wide_instant(r, z);
            let mut local = utc + tz::off(z, utc);
            if r.one_in(8) {
                local += *r.pick(&[1800i64, 3600, -3600]);
            }
            let local = local.clamp(civil::days_from_civil(1, 1, 1) * 86400, civil::days_from_civil(9999, 12, 31) * 86400);
            (tz::render(&pat, &civil::civil(local), n, 0, 0, digits), local_bound(local, n), "layouts_local")
        }
        4 | 5 => {
            let digits = r.us(10);
            let n = trunc_nanos(nanos, digits);
            let utc = wide_instant(r, z);
            let o = *r.pick(&[0i64, 3600, -18000, 20700, 45900, -34200, 50400, -43200]);
            let local = (utc + o).clamp(civil::days_from_civil(1, 1, 1) * 86400, civil::days_from_civil(9999, 12, 31) * 86400);
            let mut s = tz::render("%+", &civil::civil(local), n, o, utc, digits);
            if o == 0 && r.bool() {
                s = s.replace("+00:00", "Z");
            }
            (s, Bound::At(clamp(local - o, n)), "layouts_iso")
        }
        6 => {
            let u = *r.pick(&UNITS);
            let per = NS / u.3;
            let (lo, hi) = (630_000_000 * per, 2_000_000_000 * per);
            let v = match r.below(4) {
                0 => lo,
                1 => hi - 1,
                _ => r.range(lo, hi - 1),
            };
            (v.to_string(), Bound::At(v * u.3), "layouts_epoch")
        }
        7 => {
            let y = r.irange(1, 9999);
            let y = if r.bool() { r.irange(1960, 2560) } else { y };
            let m = r.range(1, 12) as u32;
            let d = r.range(1, 28) as u32;
            let (s, c) = match r.below(3) {
                0 => (format!("{:04}", y), (y, 1, 1)),
                1 => (format!("{:04}{:02}", y, m), (y, m, 1)),
                _ => (format!("{:04}{:02}{:02}", y, m, d), (y, m, d)),
            };
            (s, local_bound(civil::days_from_civil(c.0, c.1, c.2) * 86400, 0), "layouts_partial")
        }
        8 => {
            // just outside of the epoch ranges, with a number of digits that is no partial date
            let u = *r.pick(&UNITS);
            let per = NS / u.3;
            let v = if r.bool() { 630_000_000 * per - 1 - r.below(1000) } else { 2_000_000_000 * per + r.below(1000) };
            (v.to_string(), Bound::Error("epoch"), "bad_texts")
        }
        _ => {
            let y = r.irange(1990, 2030);
            let c = Civil { y, mo: r.range(1, 12) as u32, d: r.range(1, 28) as u32, h: r.below(24) as u32, mi: r.below(60) as u32, s: r.below(60) as u32 };
            let good = tz::render("%Y%m%d-%H:%M:%S", &c, 0, 0, 0, 0);
            let s = match r.below(21) {
                17 => format!("{}{}", r.pick(&["+", "-", " ", "\t", "０", "'"]), r.pick(&["1500000000", "1500000000000", "2019", "201903", "20190304"])),
                18 => format!("{}{}", r.pick(&["1500000000", "1500000000000", "2019", "201903", "20190304"]), r.pick(&[" ", "\n", ".", "٣", "e0", "_", "s", "ms"])),
                19 => r.pick(&["0x59682f00", "1_500_000_000", "1,500,000,000", "1.5e9", "１５００００００００", "15000 00000", "now", "today", "inf", "NaN"]).to_string(),
                20 => r.pick(&["99999999999999999999999", "18446744073709551616", "18446744073709551615"]).to_string(),
                0 => String::new(),
                1 => "garbage".into(),
                2 => good.clone() + "x",
                3 => "x".to_string() + &good,
                4 => tz::render("%Y%m%d-%H:%M:%S", &Civil { mo: 13, ..c }, 0, 0, 0, 0),
                5 => tz::render("%Y%m%d-%H:%M:%S", &Civil { d: 32, ..c }, 0, 0, 0, 0),
                6 => tz::render("%Y%m%d-%H:%M:%S", &Civil { h: 24, ..c }, 0, 0, 0, 0),
                7 => tz::render("%Y%m%d-%H:%M:%S", &Civil { mi: 60, ..c }, 0, 0, 0, 0),
                8 => tz::render("%Y%m%d-%H:%M:%S", &Civil { y: 2019, mo: 2, d: 29, ..c }, 0, 0, 0, 0),
                9 => tz::render("%Y-%m-%d", &c, 0, 0, 0, 0),
                10 => tz::render("%H:%M:%S", &c, 0, 0, 0, 0),
                11 => tz::render("%Y-%m-%dT%H:%M:%S", &c, 0, 0, 0, 0) + "+99",
                12 => "12345".into(),
                13 => "-1500000000".into(),
                14 => "1500000000.5".into(),
                15 => format!("{:04}13", y),
                _ => good + " 1",
            };
            (s, Bound::Error("text"), "bad_texts")
        }
    }
}

fn c13(ctx: &mut Ctx) -> Res {
    let r = &mut ctx.rng;
    let zone = if r.one_in(6) { None } else { Some(tz::gen_zone(r)) };
    let (text, want, kind) = gen_bound(r, zone);
    let ctz = zone.map(ChopperTz::from).unwrap_or_else(ChopperTz::new_always_fails);
    let is_begin = r.bool();
    ctx.describe(format!("{} {:?} zone {:?}, expected {:?}", if is_begin { "begin" } else { "end" }, text, zone.map(|z| z.name()), want));
    ctx.shape(true, &ctx.desc.clone());
    let got = if is_begin { TimestampRange::new(Some(&text), None, &ctz) } else { TimestampRange::new(None, Some(&text), &ctz) };
    match (&got, &want) {
        (Ok(t), Bound::At(w)) => {
            let (set, other) = if is_begin { (t.begin, t.end) } else { (t.end, t.begin) };
            ensure!(other.is_none(), "other end of range is set: {:?}", other);
            ensure!(set == Some(*w), "parsed as {:?}, expected {}", set, w);
            ctx.count("instants_checked", 1);
            if *w == 0 || *w == u64::MAX {
                ctx.count("clamped", 1);
            }
        }
        (Err(_), Bound::Error(k)) => ctx.count(if *k == "gap" { "gaps_or_overlaps_reported" } else { "rejected" }, 1),
        (Ok(t), Bound::Error(k)) => viol!("accepted as {:?} {:?}, expected an error ({})", t.begin, t.end, k),
        (Err(e), Bound::At(w)) => viol!("rejected with {}, expected {}", e, w),
    }
    ctx.count(kind, 1);
    if ctx.idx % 300 == 2 {
        ctx.count("cli_runs", 1);
        let w = match want {
            Bound::At(w) => w,
            _ => 5,
        };
        let mut ts = vec![w.saturating_sub(1), w, w.saturating_add(1)];
        ts.dedup();
        let t = Table { hdr: Hdr { names: vec!["a".into()], types: vec![FieldType::Int] }, rows: ts.iter().map(|t| MRow { ts: *t, v: vec![Val::Int(1)] }).collect() };
        let i = ctx.write("in.dc", &dc::encode(&t));
        let o = if is_begin { format!("--begin={}", text) } else { format!("--end={}", text) };
        let mut a = vec![i.as_str(), "-E", &o];
        if let Some(z) = zone {
            a.push("-z");
            a.push(z.name());
        }
        let out = cli::chop_simple(&a)?;
        match want {
            Bound::Error(_) => {
                ensure!(!out.ok() && !out.err.trim().is_empty() && !out.panicked(), "tool accepts it: {}", out.brief());
            }
            Bound::At(w) => {
                ensure!(out.ok(), "tool rejects it: {}", out.brief());
                let exp: String = "timestampNanos,a\n".to_string() + &ts.iter().filter(|t| if is_begin { **t >= w } else { **t < w }).map(|t| format!("{},1\n", t)).collect::<String>();
                ensure!(out.out_s() == exp, "tool selects {:?}, expected {:?}", out.out_s(), exp);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C26

#[derive(Clone, Copy, Debug, PartialEq)]
enum Use {
    ReadLocal,
    WriteHuman,
    BoundLocal,
    // do not depend on a zone
    ReadIso,
    EpochBoth,
    DcToDc,
    DcToEpoch,
    NoTimeCol,
    BoundIso,
    BoundEpoch,
}

fn c26(ctx: &mut Ctx) -> Res {
    use Use::*;
    let r = &mut ctx.rng;
    let use_ = [ReadLocal, WriteHuman, BoundLocal, ReadIso, EpochBoth, DcToDc, DcToEpoch, NoTimeCol, BoundIso, BoundEpoch][(ctx.idx % 10) as usize];
    let needs = matches!(use_, ReadLocal | WriteHuman | BoundLocal);
    // how it is run: 0 library, 1 tool, 2 embedding program with a custom map
    let how = if ctx.idx % 3 == 0 { 0 } else { 1 + r.below(2) };
    let map: Vec<(&str, Tz)> = vec![("desk", Tz::America__New_York), ("UTC", Tz::Asia__Tokyo), ("Europe/London", Tz::Asia__Kathmandu), ("not a zone", Tz::Australia__Eucla)];
    let with_map = how == 2 || how == 0 && r.bool();
    let pick_name = |r: &mut Rng| -> String {
        match r.below(8) {
            0 => "desk".into(),
            1 => "UTC".into(),
            2 => "Europe/London".into(),
            3 => "not a zone".into(),
            4 => {
                // no zone has such a name: neither the first ones nor those with something around or another case
                let n = *r.pick(&["Nowhere/City", "", "EST5", "utc+1", "+02:00", "America"]);
                let z = if r.bool() { "UTC" } else { tz::gen_zone(r).name() };
                match r.below(12) {
                    // stands for a byte that is no text, in the environment
                    7 => format!("{}\u{fffd}", z),
                    8 => "\u{fffd}".into(),
                    0 => format!(" {}", z),
                    1 => format!("{} ", z),
                    2 => format!("{}\n", z),
                    3 => z.to_lowercase(),
                    4 => z.to_uppercase(),
                    5 => z.replace('/', "\\"),
                    6 => format!("\"{}\"", z),
                    9 => format!("{}/", z),
                    _ => n.to_string(),
                }
            },
            _ => tz::gen_zone(r).name().into(),
        }
    };
    let opt: Option<String> = if r.one_in(3) { None } else { Some(pick_name(r)) };
    let env: Option<String> = if r.bool() { None } else if r.one_in(15) { Some(String::new()) } else { Some(pick_name(r)) };
    // the tool does not take an empty option value for granted, nor does the environment
    let name = opt.clone().or(env.clone());
    let zone: Result<Option<Tz>, ()> = match &name {
        None => Ok(None),
        Some(n) => match map.iter().find(|m| with_map && m.0 == n) {
            Some(m) => Ok(Some(m.1)),
            None => match chrono_tz::TZ_VARIANTS.iter().find(|z| z.name() == n) {
                Some(z) => Ok(Some(*z)),
                None => Err(()),
            },
        },
    };
    let mut utc = r.irange(900_000_000, 1_900_000_000);
    let z = zone.ok().flatten().unwrap_or(Tz::UTC);
    let mut local = utc + tz::off(z, utc);
    // midnight, which may be written without a time
    let whole_day = r.one_in(3);
    if whole_day {
        local -= local.rem_euclid(86400);
        match tz::from_local(z, local)[..] {
            [u] => utc = u,
            _ => {
                ctx.count("skipped", 1);
                return Ok(());
            }
        }
    }
    if tz::from_local(z, local).len() != 1 {
        ctx.count("skipped", 1);
        return Ok(());
    }
    let c = civil::civil(local);
    let local_text = if !whole_day {
        tz::render("%Y%m%d %H:%M:%S", &c, 0, 0, 0, 0)
    } else if use_ == BoundLocal && r.bool() {
        tz::render("%Y%m%d", &c, 0, 0, 0, 0)
    } else {
        r.pick(&[tz::render("%Y%m%d", &c, 0, 0, 0, 0), tz::render("%Y%m%d %H:%M:%S", &c, 0, 0, 0, 0)]).clone()
    };
    let iso = tz::render("%+", &civil::civil(utc), 0, 0, utc, 0);
    let ns = utc as u64 * NS;
    ctx.describe(format!("{:?} via {} option {:?} env {:?} map {} zone {:?} instant {} local {}", use_, how, opt, env, with_map, zone.map(|z| z.map(|z| z.name())), utc, local_text));
    ctx.shape(true, &ctx.desc.clone());
    let table = |ts: &[u64]| Table { hdr: Hdr { names: vec!["a".into()], types: vec![FieldType::Int] }, rows: ts.iter().map(|t| MRow { ts: *t, v: vec![Val::Int(7)] }).collect() };
    if opt.is_none() && name.as_ref().map(|n| n.contains('\u{fffd}')).unwrap_or(false) {
        ctx.count("environment_not_text", 1);
    }
    let must_fail = zone.is_err() || zone == Ok(None) && needs;
    let observed;
    if how == 0 {
        match &env {
            Some(e) => std::env::set_var("CHOPPER_TZ", cli::not_text(e)),
            None => std::env::remove_var("CHOPPER_TZ"),
        }
        let m: Option<HashMap<&str, Tz>> = if with_map { Some(map.iter().cloned().collect()) } else { None };
        let res = ChopperTz::new_from_cli_arg(opt.as_deref(), m);
        std::env::remove_var("CHOPPER_TZ");
        observed = match res {
            Err(_) => Err(String::from("zone rejected")),
            Ok(ctz) => {
                if zone.is_err() {
                    viol!("unknown zone accepted as {:?}", ctz);
                }
                match use_ {
                    ReadLocal | ReadIso => {
                        let text = if use_ == ReadLocal { &local_text } else { &iso };
                        let p = ctx.write("in.csv", format!("time|b\n{}|1\n", text).as_bytes());
                        let o = CsvOpt { delim: Some("|".into()), has_header: chopper::cli::util::YesNoAuto::Yes, tz: ctz, ..CsvOpt::default() };
                        let out = read_path(&p, None, &o);
                        match out.end {
                            End::Ok => Ok(out.rows.iter().map(|r| r.ts.to_string()).collect::<Vec<_>>().join(" ")),
                            End::Err(e) => Err(e),
                            End::Panic(l, m) => viol!("panic at {}: {}", l, m),
                        }
                    }
                    BoundLocal | BoundIso | BoundEpoch => {
                        let text = match use_ {
                            BoundLocal => local_text.clone(),
                            BoundIso => iso.clone(),
                            _ => utc.to_string(),
                        };
                        TimestampRange::new(Some(&text), None, &ctz).map(|t| t.begin.map(|b| b.to_string()).unwrap_or_default()).map_err(|e| e.to_string())
                    }
                    _ => {
                        let p = ctx.path_str("out.csv");
                        let human_style = use_ == WriteHuman || use_ == NoTimeCol;
                        let cfg = CSVOutputConfig::new(",", use_ != NoTimeCol, None, if human_style { TimestampStyle::HumanReadable } else { TimestampStyle::Epoch }, TimestampUnits::Seconds, ctz);
                        lib_write_csv(&table(&[ns]), &p, cfg).map(|_| std::fs::read_to_string(&p).unwrap_or_default().lines().nth(1).unwrap_or("").to_string())
                    }
                }
            }
        };
    } else {
        let mut a: Vec<String> = Vec::new();
        if let Some(o) = &opt {
            a.push(format!("--timezone={}", o));
        }
        let csv = |text: &str| format!("time|b\n{}|1\n", text).into_bytes();
        let csv_args = ["--csv-in-delimiter=|".to_string(), "--csv-in-has-header=yes".into()];
        let dcs = ["-E", "-g", "s"].map(|s| s.to_string());
        let file;
        match use_ {
            ReadLocal => {
                file = ctx.write("in.csv", &csv(&local_text));
                a.extend(csv_args);
                a.extend(["-E".into(), "-g".into(), "ns".into()]);
            }
            ReadIso => {
                file = ctx.write("in.csv", &csv(&iso));
                a.extend(csv_args);
                a.extend(["-E".into(), "-g".into(), "ns".into()]);
            }
            EpochBoth => {
                file = ctx.write("in.csv", &csv(&utc.to_string()));
                a.extend(csv_args);
                a.extend(dcs.clone());
            }
            BoundLocal | BoundIso | BoundEpoch => {
                file = ctx.write("in.dc", &dc::encode(&table(&[ns - 1, ns])));
                let text = match use_ {
                    BoundLocal => local_text.clone(),
                    BoundIso => iso.clone(),
                    _ => utc.to_string(),
                };
                a.extend(["-E".into(), "-b".into(), text]);
            }
            WriteHuman => {
                file = ctx.write("in.dc", &dc::encode(&table(&[ns])));
                a.extend(["-g".into(), "s".into()]);
            }
            DcToDc => {
                file = ctx.write("in.dc", &dc::encode(&table(&[ns])));
                a.extend(["-o".into(), ctx.path_str("out.dc")]);
            }
            DcToEpoch => {
                file = ctx.write("in.dc", &dc::encode(&table(&[ns])));
                a.extend(dcs.clone());
            }
            NoTimeCol => {
                file = ctx.write("in.dc", &dc::encode(&table(&[ns])));
                a.extend(["--print-time".into(), "no".into()]);
            }
        }
        a.push(file);
        let args: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        let e = cli::Env { tz: env.as_deref(), ..cli::Env::default() };
        let out = cli::exec(&cli::bin(if how == 2 { "embed" } else { "chop" }), &args, cli::In::Null, e)?;
        ctx.count(if how == 2 { "embedded_runs" } else { "cli_runs" }, 1);
        ensure!(!out.panicked(), "panic: {}", out.brief());
        observed = if out.ok() {
            if use_ == DcToDc {
                let got = std::fs::read(ctx.path("out.dc")).unwrap_or_default();
                ensure!(got == dc::encode(&table(&[ns])), "copied dc file differs");
            }
            Ok(out.out_s().lines().nth(1).unwrap_or("").split(',').next().unwrap_or("").to_string())
        } else {
            ensure!(!out.err.trim().is_empty(), "fails without message: {}", out.brief());
            Err(out.err.clone())
        };
    }
    match &observed {
        Err(e) => ensure!(must_fail, "failed although the zone is known or not needed: {}", e),
        Ok(got) => {
            ensure!(!must_fail, "accepted, result {:?}", got);
            let want = match (use_, how) {
                (ReadLocal, _) | (ReadIso, _) | (BoundLocal, _) | (BoundIso, _) | (BoundEpoch, _) => ns.to_string(),
                (WriteHuman, 0) => human(z, ns, 0) + ",7",
                (WriteHuman, _) => human(z, ns, 0),
                (NoTimeCol, _) => "7".into(),
                (DcToDc, 1) | (DcToDc, 2) => String::new(),
                (_, 0) => format!("{},7", utc),
                _ => utc.to_string(),
            };
            ensure!(*got == want, "result {:?}, expected {:?}", got, want);
        }
    }
    if zone.is_err() {
        ctx.count("unknown_zones_rejected", 1);
    } else if zone == Ok(None) {
        ctx.count(if needs { "needed_zone_missing" } else { "unneeded_zone_missing" }, 1);
    } else if needs {
        ctx.count(if opt.is_some() { "zone_from_option" } else { "zone_from_env" }, 1);
        if opt.is_some() && env.is_some() && opt != env {
            ctx.count("option_over_env", 1);
        }
        if with_map && map.iter().any(|m| Some(m.0) == name.as_deref()) {
            ctx.count(if name.as_deref() == Some("UTC") || name.as_deref() == Some("Europe/London") { "map_over_builtin" } else { "zone_from_map" }, 1);
        }
    }
    Ok(())
}
