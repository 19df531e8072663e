//! C29 what a run depends on and what it touches
use super::tool::{arrange, failed, gen_job, refs, spell, Job};
use crate::cli::{self, CliOut, Env, In};
use crate::model::short;
use crate::rng::{fnv, Rng};
use crate::run::{Bad, Ctx, Prop, Res};
use crate::{dc, ensure, viol};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        level: "exploration",
        rule: "a case is a job of the tool (1 to 4 inputs, dc or csv, plain, compressed or within a directory, or standard input; any options) that runs several times, from different working directories, with absolute and relative names, different environment variables (also every one that an earlier run was seen to look up), clocks and former contents of the output, while a preloaded library records every file that is opened or altered, program started and connection made; or a job that cannot start because of an input; or one whose output is one of its inputs under the same or another spelling. Before and after every run all files around are compared (bytes, permissions, owner, modification time, inode), and the directories' modification times. Outputs are compared with the prediction and among the runs. nontrivial: all; distinct by arguments and data",
        assumptions: &["calls that alter files, start programs or connect are made through libc", "values are written to csv without quoting, so generated ones need none"],
        cases: (9_000, 120_000),
        budget: (30, 400),
        run: c29,
        must_observe: &["inputs_named_twice", "runs", "files_compared", "relative_names", "directories_read", "stdin_runs", "new_outputs", "overwritten_outputs", "outputs_through_links", "outputs_kept", "outputs_that_are_inputs", "of_a_directory", "through_a_link", "other_spelling", "failed_runs", "clocks_set", "repeated_outputs", "names_traced"],
    }]
}

#[derive(PartialEq, Clone, Debug)]
struct Entry {
    mode: u32,
    owner: (u32, u32),
    inode: u64,
    links: u64,
    mtime: (i64, i64),
    size: u64,
    hash: u64,
}

const TRACE: &str = "trace";

fn snapshot(root: &Path) -> BTreeMap<PathBuf, Entry> {
    fn walk(dir: &Path, m: &mut BTreeMap<PathBuf, Entry>) {
        for e in fs::read_dir(dir).unwrap().flatten() {
            let p = e.path();
            let md = fs::symlink_metadata(&p).unwrap();
            let hash = if md.is_file() {
                fnv(&fs::read(&p).unwrap())
            } else if md.file_type().is_symlink() {
                fnv(fs::read_link(&p).unwrap().as_os_str().as_encoded_bytes())
            } else {
                0
            };
            m.insert(p.clone(), Entry { mode: md.mode(), owner: (md.uid(), md.gid()), inode: md.ino(), links: md.nlink(), mtime: (md.mtime(), md.mtime_nsec()), size: if md.is_dir() { 0 } else { md.size() }, hash });
            if md.is_dir() {
                walk(&p, m);
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(root, &mut m);
    m
}

fn umask() -> u32 {
    let s = fs::read_to_string("/proc/self/status").unwrap_or_default();
    s.lines().find_map(|l| l.strip_prefix("Umask:")).and_then(|v| u32::from_str_radix(v.trim(), 8).ok()).unwrap_or(0o022)
}

/// path as seen from a directory next to its own, or the same path written differently
fn spelled(r: &mut Rng, root: &Path, p: &str, relative: bool) -> String {
    let rel = Path::new(p).strip_prefix(root).unwrap().to_str().unwrap().to_string();
    if relative {
        // the working directory is root/cwd
        r.pick(&["../", "./../", "../home/../", ".././"]).to_string() + &rel
    } else {
        format!("{}{}{}", root.to_str().unwrap(), r.pick(&["/", "/./", "//", "/cwd/../"]), rel)
    }
}

struct World {
    /// environment variables that earlier runs have asked for
    asked: std::cell::RefCell<std::collections::BTreeSet<String>>,
    root: PathBuf,
    /// what may be read
    inputs: Vec<PathBuf>,
}

/// things that nobody has asked for
fn decoys(ctx: &mut Ctx, r: &mut Rng) {
    for d in ["cwd", "home", "home/.config", "tmp", "out"] {
        fs::create_dir_all(ctx.path(d)).unwrap();
    }
    for f in ["cwd/chopper.toml", "cwd/.chopper", "cwd/in0.csv", "cwd/in0.dc", "cwd/o.csv", "home/.chopperrc", "home/.config/chopper", "tmp/chopper.tmp"] {
        if r.bool() {
            ctx.write(f, b"delimiter = ';'\ntimezone = Asia/Tokyo\n1,2\n");
        }
    }
}

fn environment(ctx: &mut Ctx, r: &mut Rng, w: &World, env: &mut Env) {
    let home = ctx.path_str("home");
    let mut set = |k: &str, v: &str| env.vars.push((k.to_string(), v.to_string()));
    set("LD_PRELOAD", &cli::shim());
    set("SHIM_TRACE", &ctx.path_str(TRACE));
    if r.bool() {
        set("HOME", &home);
        set("XDG_CONFIG_HOME", &format!("{}/.config", home));
    }
    if r.bool() {
        set("TMPDIR", r.pick(&[ctx.path_str("tmp").as_str(), "/nonexistent", ""]));
    }
    for (k, vs) in [
        ("LC_ALL", &["de_DE.UTF-8", "C.UTF-8", "tr_TR", ""][..]),
        ("LANG", &["fr_FR.UTF-8", "en_US.ISO-8859-1"]),
        ("LC_NUMERIC", &["de_DE.UTF-8"]),
        ("TZ", &["Asia/Tokyo", "America/New_York", ":/etc/localtime", "nonsense"]),
        ("TERM", &["xterm", "dumb"]),
        ("COLUMNS", &["20", "0"]),
        ("NO_COLOR", &["1"]),
        ("CLICOLOR_FORCE", &["1"]),
        ("PATH", &["", "/nonexistent"]),
        ("http_proxy", &["http://127.0.0.1:9"]),
        ("ALL_PROXY", &["socks5://127.0.0.1:9"]),
        ("RUST_LOG", &["trace"]),
        ("RUST_BACKTRACE", &["1", "full"]),
        ("RUST_MIN_STACK", &["4000000"]),
        ("USER", &["nobody"]),
        ("CHOPPER_DELIMITER", &[";"]),
        ("CHOPPER_FORMAT", &["dc"]),
        ("TIMEZONE", &["Asia/Tokyo"]),
        ("SOURCE_DATE_EPOCH", &["0"]),
        ("POSIXLY_CORRECT", &["1"]),
    ] {
        if r.one_in(4) {
            set(k, *r.pick(vs));
        }
    }
    // whatever the program has looked up, other than what it is meant to
    for k in w.asked.borrow().iter() {
        if r.bool() {
            let v = *r.pick(&[";", "|", "\\t", "dc", "csv", ".gz", "auto", "0", "1", "yes", "no", "true", "Asia/Tokyo", "UTC", "s", "ms", "ns", "2001", "x", "", "%Y", "1000000", &home]);
            env.vars.retain(|(name, _)| name != k);
            env.vars.push((k.clone(), v.to_string()));
            ctx.count("asked_variables_set", 1);
        }
    }
    let mut set = |k: &str, v: &str| env.vars.push((k.to_string(), v.to_string()));
    if r.bool() {
        ctx.count("clocks_set", 1);
        set("SHIM_NOW", &r.pick(&[0u64, 1, 86_399, 951_782_400, 1_709_164_800, 1_999_999_999, 2_147_483_648, 4_102_444_800, 7_258_118_400]).to_string());
    }
}

/// runs, and checks that nothing but `out` has been touched
fn watched(ctx: &mut Ctx, r: &mut Rng, w: &World, args: &[String], job: &Job, stdin: bool, relative: bool, out: Option<&Path>, what: &str) -> Result<CliOut, Bad> {
    let trace = ctx.path(TRACE);
    let _ = fs::remove_file(&trace);
    // made before the snapshot, as making it alters the directory
    fs::write(&trace, b"").unwrap();
    let mut env = Env { tz: job.zone_env.as_deref(), ..Env::default() };
    environment(ctx, r, w, &mut env);
    let cwd = ctx.path("cwd");
    let home = ctx.path("home");
    env.cwd = Some(if relative || r.bool() { &cwd } else { &home });
    let input = match stdin {
        false => In::Null,
        true if r.bool() => In::File(Path::new(&w.inputs[0])),
        true => In::Bytes(&job.stdin.as_ref().unwrap().0, *r.pick(&[1usize, 7, 100_000])),
    };
    let before = snapshot(&w.root);
    ctx.count("runs", 1);
    let got = cli::chop(&refs(args), input, env)?;
    let mut after = snapshot(&w.root);
    let mut before = before;
    before.remove(&trace);
    after.remove(&trace);
    // what the output is a link to may change, and so may the directory where it appears
    let target = out.map(|o| fs::canonicalize(o).unwrap_or(o.to_path_buf()));
    ctx.count("files_compared", before.len() as u64);
    let all: std::collections::BTreeSet<&PathBuf> = before.keys().chain(after.keys()).collect();
    for p in all {
        if Some(p) == target.as_ref() {
            continue;
        }
        let (b, a) = (before.get(p), after.get(p));
        let is_parent = target.as_ref().map(|t| t.parent() == Some(p) && !before.contains_key(t)).unwrap_or(false);
        if is_parent {
            continue;
        }
        match (b, a) {
            (Some(b), Some(a)) => ensure!(a == b, "{}: {:?} has been altered: {:?} before, {:?} after; {}", what, p, b, a, got.brief()),
            (Some(_), None) => viol!("{}: {:?} is gone; {}", what, p, got.brief()),
            (None, Some(_)) => viol!("{}: {:?} has been left behind; {}", what, p, got.brief()),
            _ => unreachable!(),
        }
    }
    if let Some(t) = &target {
        match (before.get(t), after.get(t)) {
            (Some(b), Some(a)) => ensure!((b.mode, b.owner, b.inode, b.links) == (a.mode, a.owner, a.inode, a.links), "{}: existing output was replaced or altered beyond its content: {:?} before, {:?} after", what, b, a),
            (None, Some(a)) => ensure!(a.mode & 0o7777 == 0o666 & !umask(), "{}: new output has mode {:o}", what, a.mode),
            (Some(_), None) => viol!("{}: the output is gone; {}", what, got.brief()),
            _ => (),
        }
    }
    // what was recorded while it ran
    let base = env_dir(&cwd, &home, relative);
    for l in fs::read_to_string(&trace).unwrap_or_default().lines() {
        let (k, p) = (l.as_bytes().first().copied().unwrap_or(b'?'), l.get(2..).unwrap_or(""));
        if k == b'E' {
            if !["CHOPPER_TZ", "RUST_", "LD_", "SHIM_", "LLVM_", "ASAN_"].iter().any(|x| p.starts_with(x)) && !p.is_empty() {
                w.asked.borrow_mut().insert(p.to_string());
            }
            ctx.count("variables_asked", 1);
            continue;
        }
        ctx.count("names_traced", 1);
        let full: Vec<PathBuf> = base.iter().map(|b| b.join(p)).map(|f| fs::canonicalize(&f).unwrap_or(f)).collect();
        match k {
            b'W' => ensure!(full.iter().any(|f| target.as_ref() == Some(f)) || p == "/dev/null", "{}: {:?} was opened for writing; {}", what, p, got.brief()),
            b'R' => ensure!(
                ["/proc", "/sys", "/usr", "/lib", "/etc", "/dev"].iter().any(|s| p.starts_with(s)) || full.iter().any(|f| w.inputs.iter().any(|i| f.starts_with(i)) || Some(f) == target.as_ref() || f.parent() == cli::bin("chop").parent()),
                "{}: {:?} was opened, which is no input; {}", what, p, got.brief()
            ),
            b'M' => viol!("{}: {:?} was altered; {}", what, p, got.brief()),
            b'N' => viol!("{}: network was used: {}", what, p),
            b'X' => viol!("{}: program was started: {}", what, p),
            _ => (),
        }
    }
    Ok(got)
}

fn env_dir(cwd: &Path, home: &Path, relative: bool) -> Vec<PathBuf> {
    if relative {
        vec![cwd.to_path_buf()]
    } else {
        vec![cwd.to_path_buf(), home.to_path_buf()]
    }
}

/// inputs as they are named on the command line; may put the only one into a directory
fn world(ctx: &mut Ctx, r: &mut Rng, job: &mut Job) -> World {
    let root = ctx.path("");
    let root = fs::canonicalize(&root).unwrap_or(root);
    decoys(ctx, r);
    let mut inputs: Vec<PathBuf> = Vec::new();
    let names = job.files.clone();
    for i in 0..names.len() {
        if let Some(j) = names[..i].iter().position(|n| *n == names[i]) {
            job.files[i] = job.files[j].clone();
            inputs.push(inputs[j].clone());
            continue;
        }
        let f = &mut job.files[i];
        if r.one_in(4) {
            let d = ctx.path_str(&format!("dir{}", i));
            fs::create_dir_all(&d).unwrap();
            let to = format!("{}/{}", d, f.rsplit('/').next().unwrap());
            fs::rename(&f, &to).unwrap();
            *f = if job.stdin.is_some() && r.bool() { to } else { d };
        }
        inputs.push(fs::canonicalize(&f).unwrap());
    }
    for i in &inputs {
        if i.is_file() && r.bool() {
            // written long ago, by its permissions not writable
            fs::set_permissions(i, fs::Permissions::from_mode(*r.pick(&[0o444, 0o600, 0o644, 0o755]))).unwrap();
        }
    }
    World { asked: Default::default(), root, inputs }
}

fn args_for(r: &mut Rng, w: &World, job: &Job, stdin: bool, relative: bool, out: Option<&str>) -> Vec<String> {
    let mut opts = job.opts.clone();
    if let Some(o) = out {
        opts.push(spell(r, "output", Some('o'), o));
    }
    let files: Vec<String> = if stdin { Vec::new() } else { job.files.iter().map(|f| spelled(r, &w.root, f, relative)).collect() };
    arrange(r, &opts, &files).0
}

fn valid(ctx: &mut Ctx) -> Res {
    let mut job = gen_job(ctx);
    let mut r = Rng::new(ctx.rng.next());
    let w = world(ctx, &mut r, &mut job);
    ctx.describe(format!("env {:?} options {:?} inputs {:?}", job.zone_env, job.opts, w.inputs));
    ctx.shape(true, &format!("{:?} {:?} {:?}", job.zone_env, job.opts, job.dc.rows));
    if w.inputs.iter().any(|i| i.is_dir()) {
        ctx.count("directories_read", 1);
    }
    let mut dcs: Option<Vec<u8>> = None;
    let n = r.urange(2, 5);
    for i in 0..n {
        let stdin = job.stdin.is_some() && w.inputs[0].is_file() && r.one_in(4);
        let relative = r.bool();
        if relative {
            ctx.count("relative_names", 1);
        }
        if stdin {
            ctx.count("stdin_runs", 1);
        }
        let kind = r.below(3);
        let out = match kind {
            0 => None,
            1 => Some(ctx.path(&format!("out/{}", r.pick(&["o.csv", "x.csv", "o.x.csv"])))),
            _ => Some(ctx.path(&format!("out/{}", r.pick(&["o.dc", "x.dc"])))),
        };
        let mut former = String::new();
        if let Some(o) = &out {
            if r.one_in(3) {
                let _ = fs::remove_file(o);
                ctx.count("new_outputs", 1);
            } else if r.one_in(4) {
                let _ = fs::remove_file(o);
                let t = ctx.path("tmp/elsewhere");
                if r.bool() || !t.exists() {
                    fs::write(&t, r.bytes(300)).unwrap();
                }
                symlink(&t, o).unwrap();
                former = "a link to a file".into();
                ctx.count("outputs_through_links", 1);
            } else {
                if !o.exists() || r.bool() {
                    let n = *r.pick(&[0usize, 10, 3000, 100_000]);
                    let b = r.bytes(n);
                    fs::write(o, b).unwrap();
                    fs::set_permissions(o, fs::Permissions::from_mode(*r.pick(&[0o600, 0o644, 0o666]))).unwrap();
                }
                former = format!("a file of {} bytes", fs::metadata(o).map(|m| m.len()).unwrap_or(0));
                ctx.count("overwritten_outputs", 1);
            }
        }
        let o_str = out.as_ref().map(|o| spelled(&mut r, &ctx.path(""), o.to_str().unwrap(), relative));
        let args = args_for(&mut r, &w, &job, stdin, relative, o_str.as_deref());
        let what = format!("run {} {:?}{}{}", i, args, if stdin { " < input" } else { "" }, if former.is_empty() { String::new() } else { format!(" where the output is {}", former) });
        let got = watched(ctx, &mut r, &w, &args, &job, stdin, relative, out.as_deref(), &what)?;
        if job.fails && kind != 2 {
            failed(&got, &what)?;
            ctx.count("failed_runs", 1);
            continue;
        }
        ensure!(got.ok() && got.err.is_empty(), "{}: failed: {}", what, got.brief());
        let bytes = match &out {
            None => got.out.clone(),
            Some(o) => {
                ensure!(got.out.is_empty(), "{}: standard output used: {}", what, got.brief());
                fs::read(o).unwrap_or_default()
            }
        };
        if kind != 2 {
            ensure!(bytes == job.csv_text.as_bytes(), "{}: output {}, expected {}", what, short(&String::from_utf8_lossy(&bytes)), short(&job.csv_text));
        } else {
            match &dcs {
                Some(d) => {
                    ctx.count("repeated_outputs", 1);
                    ensure!(d == &bytes, "{}: dc output differs from that of an earlier run of the same: {:?} / {:?}", what, dc::decode(&bytes), dc::decode(d));
                }
                None => dcs = Some(bytes),
            }
        }
    }
    Ok(())
}

/// one of the inputs can't be opened: what is at the output's name stays
fn cannot_start(ctx: &mut Ctx) -> Res {
    let mut job = gen_job(ctx);
    let mut r = Rng::new(ctx.rng.next());
    let mut w = world(ctx, &mut r, &mut job);
    let k = r.us(job.files.len());
    let bad;
    match r.below(3) {
        0 => {
            bad = "is missing";
            job.files[k] = ctx.path_str("tmp/nothing.dc");
        }
        1 => {
            bad = "is a link to nothing";
            job.files[k] = ctx.path_str("tmp/link.csv");
            symlink("nothing", &job.files[k]).unwrap();
        }
        _ => {
            bad = "is no dc";
            let p = ctx.write("tmp/bad.dc", b"DC\nnonsense");
            job.opts.retain(|o| !o[0].starts_with("--format") && !o[0].starts_with("-f"));
            w.inputs.push(fs::canonicalize(&p).unwrap());
            job.files[k] = p;
        }
    }
    let relative = r.bool();
    let out = ctx.path(r.pick(&["out/o.csv", "out/o.dc"]));
    let existing = !r.one_in(4);
    let b = r.bytes(500);
    if existing {
        fs::write(&out, &b).unwrap();
    }
    let o_str = spelled(&mut r, &ctx.path(""), out.to_str().unwrap(), relative);
    let args = args_for(&mut r, &w, &job, false, relative, Some(&o_str));
    let what = format!("input {} {}: {:?}", k, bad, args);
    ctx.describe(what.clone());
    ctx.shape(true, &what);
    // nothing at all may change
    let got = watched(ctx, &mut r, &w, &args, &job, false, relative, None, &what)?;
    failed(&got, &what)?;
    ctx.count("failed_runs", 1);
    ctx.count("outputs_kept", 1);
    Ok(())
}

/// the output is one of the inputs
fn in_place(ctx: &mut Ctx) -> Res {
    let mut job = gen_job(ctx);
    let mut r = Rng::new(ctx.rng.next());
    let w = world(ctx, &mut r, &mut job);
    let k = r.us(job.files.len());
    let mut target = PathBuf::from(&job.files[k]);
    let mut how = "under the same name";
    if target.is_dir() {
        how = "within the directory that is input";
        target = fs::read_dir(&target).unwrap().flatten().next().unwrap().path();
        ctx.count("of_a_directory", 1);
    }
    // an input of that name can be an output
    let ext = if target.to_str().unwrap().contains(".dc") { "dc" } else { "csv" };
    let plain = target.extension().map(|e| e == ext).unwrap_or(false);
    let mut name = target.clone();
    if !plain || r.one_in(4) {
        // a link with a name that outputs can have
        name = ctx.path(&format!("out/link.{}", r.pick(&["csv", "dc"])));
        symlink(&target, &name).unwrap();
        how = "through a link";
        ctx.count("through_a_link", 1);
        if r.bool() && !job.files[k].ends_with("dir0") && Path::new(&job.files[k]).is_file() && plain {
            // the input is the link, and the output the file
            let l = ctx.path_str(&format!("tmp/in.{}", ext));
            symlink(&target, &l).unwrap();
            job.files[k] = l;
            name = target.clone();
        }
    }
    let relative = r.bool();
    let o_str = if r.bool() {
        ctx.count("other_spelling", 1);
        spelled(&mut r, &ctx.path(""), name.to_str().unwrap(), relative)
    } else {
        name.to_str().unwrap().to_string()
    };
    let args = args_for(&mut r, &w, &job, false, relative, Some(&o_str));
    let what = format!("output is input {} {}: {:?}", k, how, args);
    ctx.describe(what.clone());
    ctx.shape(true, &format!("{} {:?}", what, job.dc.rows));
    let got = watched(ctx, &mut r, &w, &args, &job, false, relative, None, &what)?;
    failed(&got, &what)?;
    ensure!(got.out.is_empty(), "{}: standard output used: {}", what, got.brief());
    ctx.count("outputs_that_are_inputs", 1);
    Ok(())
}

fn c29(ctx: &mut Ctx) -> Res {
    match ctx.idx % 10 {
        0..=5 => valid(ctx),
        6 | 7 => cannot_start(ctx),
        _ => in_place(ctx),
    }
}
