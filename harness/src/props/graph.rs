//! C03: graphs of chains
use crate::model::*;
use crate::probes::*;
use crate::rng::Rng;
use crate::run::{Ctx, Prop, Res};
use crate::{ensure, viol};
use chopper::chopper::chopper::{ChopperDriver, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, Header, TimestampRange};
use chopper::driver::driver::Driver;
use chopper::driver::merge_join::MergeJoin;
use chopper::driver::split::Split;
use std::collections::{BTreeMap, HashMap, VecDeque};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C03",
        level: "exploration",
        rule: "a case is a random graph (1 to 5 sources, splits, merges, merges into source chains, side branches, steps that drop, multiply, change, widen, narrow or replace rows) over random rows; the complete sequence of row events at all steps is compared with a recursive model, headers and flushes are checked per step; an eighth of the cases are graphs that would lose rows (merges with too few headers, chains that don't exist, are empty or lead to themselves), which must be rejected. nontrivial: the graph has a split or merge and at least one row was delivered; distinct by graph and timestamps",
        assumptions: &["all inputs of a merge are reached by a source, as header processing requires"],
        cases: (40_000, 1_000_000),
        budget: (30, 420),
        run: c03,
        must_observe: &["row_events", "splits", "merges", "multi_row_outputs", "rows_after_a_merge_in_same_chain", "chains_that_several_lead_to", "bad_graphs_rejected", "graphs_of_thousands_of_steps_or_rows"],
    }]
}

#[derive(Clone, Debug)]
pub enum Node {
    Step(usize, Act),
    Split(Vec<usize>),
    Merge(usize),
    /// start of a merge chain, with number of headers
    Head(usize),
}

#[derive(Clone, Debug)]
pub struct Graph {
    pub chains: Vec<Vec<Node>>,
    pub sources: usize,
    /// header that each step gets
    pub step_hdr: BTreeMap<usize, Hdr>,
}

struct Group {
    chain: usize,
    hdr: Hdr,
    count: usize,
}

pub fn gen_act(r: &mut Rng) -> Act {
    match r.below(14) {
        0..=3 => Act::Pass,
        4 => Act::DropMod(r.range(2, 4), r.below(4)),
        5 => Act::Dup(r.urange(2, 4)),
        6 => Act::VarDup(r.range(1, 4)),
        7 | 8 => Act::Mark(r.us(9)),
        9 => Act::AddCol(r.us(3)),
        10 => Act::DelCol,
        11 => Act::Replace(r.us(9)),
        _ => Act::Mark(10 + r.us(9)),
    }
}

pub fn gen_graph(r: &mut Rng, src_hdrs: &[Hdr]) -> Graph {
    let s = src_hdrs.len();
    let max_chains = s + r.urange(1, 12);
    let mut g = Graph { chains: vec![Vec::new(); s], sources: s, step_hdr: BTreeMap::new() };
    let mut queue: VecDeque<(usize, Hdr)> = VecDeque::new();
    let mut open: Vec<Group> = Vec::new();
    let mut steps = 0;
    for i in 0..s {
        // a source chain may itself be the target of merges
        if s > 1 && r.one_in(5) {
            open.push(Group { chain: i, hdr: src_hdrs[i].clone(), count: 1 });
        } else {
            queue.push_back((i, src_hdrs[i].clone()));
        }
    }
    loop {
        let (chain, hdr, head) = match queue.pop_front() {
            Some((c, h)) => (c, h, None),
            None if !open.is_empty() => {
                let k = r.us(open.len());
                let gr = open.remove(k);
                (gr.chain, gr.hdr, Some(gr.count))
            }
            None => break,
        };
        let mut h = hdr;
        let mut nodes = Vec::new();
        if let Some(n) = head {
            nodes.push(Node::Head(n));
        }
        let want = r.urange(1, 5);
        for _ in 0..want {
            match r.below(10) {
                0 | 1 if g.chains.len() < max_chains => {
                    let n = r.urange(1, 3);
                    let mut t = Vec::new();
                    for _ in 0..n {
                        // the same chain once more
                        if !t.is_empty() && r.one_in(10) {
                            let c = *r.pick(&t);
                            if let Some(o) = open.iter_mut().find(|o| o.chain == c) {
                                o.count += 1;
                            }
                            t.push(c);
                            continue;
                        }
                        // a chain that others lead to as well
                        if r.one_in(4) {
                            let c: Vec<usize> = queue.iter().filter(|(_, x)| *x == h).map(|(c, _)| *c).filter(|c| !t.contains(c)).collect();
                            let m: Vec<usize> = (0..open.len()).filter(|&i| open[i].hdr == h).collect();
                            if !c.is_empty() {
                                t.push(*r.pick(&c));
                                continue;
                            } else if !m.is_empty() {
                                let i = *r.pick(&m);
                                if !t.contains(&open[i].chain) {
                                    open[i].count += 1;
                                    t.push(open[i].chain);
                                    continue;
                                }
                            }
                        }
                        if g.chains.len() >= max_chains {
                            break;
                        }
                        g.chains.push(Vec::new());
                        t.push(g.chains.len() - 1);
                        queue.push_back((g.chains.len() - 1, h.clone()));
                    }
                    nodes.push(Node::Split(t));
                }
                2 | 3 => {
                    // merge into an open group with the same header, or a new one
                    let c: Vec<usize> = (0..open.len()).filter(|&i| open[i].hdr == h).collect();
                    if !c.is_empty() && !r.one_in(4) {
                        let i = *r.pick(&c);
                        open[i].count += 1;
                        nodes.push(Node::Merge(open[i].chain));
                    } else if g.chains.len() < max_chains {
                        g.chains.push(Vec::new());
                        open.push(Group { chain: g.chains.len() - 1, hdr: h.clone(), count: 1 });
                        nodes.push(Node::Merge(g.chains.len() - 1));
                    }
                }
                _ => {
                    let act = gen_act(r);
                    g.step_hdr.insert(steps, h.clone());
                    act.header(&mut h);
                    nodes.push(Node::Step(steps, act));
                    steps += 1;
                }
            }
        }
        if nodes.len() == head.is_some() as usize || r.one_in(2) {
            g.step_hdr.insert(steps, h.clone());
            nodes.push(Node::Step(steps, Act::Pass));
            steps += 1;
        }
        g.chains[chain] = nodes;
    }
    // numbers of chains that aren't fed by sources are arbitrary
    let n = g.chains.len();
    let mut perm: Vec<usize> = (s..n).collect();
    r.shuffle(&mut perm);
    let map = |c: usize| if c < s { c } else { perm[c - s] };
    let mut chains = vec![Vec::new(); n];
    for (i, c) in g.chains.iter().enumerate() {
        chains[map(i)] = c
            .iter()
            .map(|nd| match nd {
                Node::Split(t) => Node::Split(t.iter().map(|x| map(*x)).collect()),
                Node::Merge(t) => Node::Merge(map(*t)),
                x => x.clone(),
            })
            .collect();
    }
    g.chains = chains;
    g
}

/// hundreds of chains: the first source is split into all of them, and some merge again
fn gen_wide(r: &mut Rng, src_hdrs: &[Hdr]) -> Graph {
    let s = src_hdrs.len();
    let n = r.urange(250, 700);
    let mut g = Graph { chains: vec![Vec::new(); s + n + 1], sources: s, step_hdr: BTreeMap::new() };
    let mut order: Vec<usize> = (s..s + n).collect();
    r.shuffle(&mut order);
    let merge = s + n;
    let mut merged = 0;
    for (i, c) in order.iter().enumerate() {
        g.step_hdr.insert(i, src_hdrs[0].clone());
        g.chains[*c].push(Node::Step(i, if r.one_in(3) { Act::Mark(r.us(9)) } else { Act::Pass }));
        if r.one_in(4) {
            g.chains[*c].push(Node::Merge(merge));
            merged += 1;
        }
    }
    g.chains[merge] = vec![Node::Head(merged), Node::Step(n, Act::Pass)];
    if merged == 0 {
        g.chains[merge].remove(0);
    }
    g.step_hdr.insert(n, src_hdrs[0].clone());
    g.chains[0].push(Node::Split(order));
    for i in 1..s {
        g.step_hdr.insert(n + i, src_hdrs[i].clone());
        g.chains[i].push(Node::Step(n + i, Act::Pass));
    }
    g
}

/// thousands of steps, chains that lead one to the next, or steps that give very many rows
fn gen_long(r: &mut Rng, src_hdrs: &[Hdr]) -> Graph {
    let s = src_hdrs.len();
    let mut g = Graph { chains: vec![Vec::new(); s], sources: s, step_hdr: BTreeMap::new() };
    let mut step = 0;
    let mut add = |g: &mut Graph, c: usize, act: Act, h: &Hdr| {
        g.step_hdr.insert(step, h.clone());
        g.chains[c].push(Node::Step(step, act));
        step += 1;
    };
    let (kind, n) = match r.below(4) {
        0 => (0, r.urange(250, 5000)),
        1 => (1, r.urange(50, 300)),
        _ => (2, 0),
    };
    for i in 0..s {
        let h = &src_hdrs[i];
        if i > 0 {
            add(&mut g, i, Act::Pass, h);
            continue;
        }
        match kind {
            0 => {
                let marks = r.urange(20, 300) as u64;
                for _ in 0..n {
                    let act = if r.one_in(marks) { Act::Mark(r.us(9)) } else { Act::Pass };
                    add(&mut g, 0, act, h);
                }
            }
            1 => {
                let mut c = 0;
                for _ in 0..n {
                    if r.bool() {
                        add(&mut g, c, if r.one_in(9) { Act::Mark(r.us(9)) } else { Act::Pass }, h);
                    }
                    g.chains.push(Vec::new());
                    let next = g.chains.len() - 1;
                    g.chains[c].push(Node::Split(vec![next]));
                    if r.bool() {
                        add(&mut g, c, Act::Mark(r.us(9)), h);
                    }
                    c = next;
                }
                add(&mut g, c, Act::Pass, h);
            }
            _ => {
                let n = *r.pick(&[255usize, 256, 257, 1000, 4098, 65_538, 70_000, 70_001]);
                add(&mut g, 0, Act::Dup(n), h);
                if r.bool() {
                    add(&mut g, 0, Act::DropMod(r.range(2, 4), 0), h);
                }
                add(&mut g, 0, Act::Mark(r.us(9)), h);
            }
        }
    }
    g
}

pub fn build(g: &Graph, log: &SLog) -> HeaderGraph {
    HeaderGraph::new(
        g.chains
            .iter()
            .map(|c| {
                HeaderChain::new(
                    c.iter()
                        .map(|n| match n {
                            Node::Step(id, act) => HeaderNode::HeaderSink(Probe::new(*id, act.clone(), log)),
                            Node::Split(t) => {
                                let s = Split::new(t.clone());
                                let k = s.get_new_header_count_tracker();
                                HeaderNode::SplitHeaderSink(s, k)
                            }
                            Node::Merge(t) => HeaderNode::Merge(*t),
                            Node::Head(n) => {
                                let m = MergeJoin::new(*n).expect("CHOPPER REFUSED a merge of one or more");
                                let k = m.get_new_header_count_tracker();
                                HeaderNode::MergeHeaderSink(m, k)
                            }
                        })
                        .collect(),
                )
            })
            .collect(),
    )
}

/// model: passes a row to node n of a chain and everything behind it; false if a step fails
pub fn model_row(g: &Graph, chain: usize, n: usize, row: &MRow, seen: &mut HashMap<usize, u64>, out: &mut Vec<Ev>, budget: &mut i64) -> bool {
    *budget -= 1;
    if *budget < 0 {
        return true;
    }
    if n >= g.chains[chain].len() {
        return true;
    }
    match &g.chains[chain][n] {
        Node::Head(_) => model_row(g, chain, n + 1, row, seen, out, budget),
        Node::Step(id, act) => {
            out.push(Ev::Row(*id, row.clone()));
            let k = seen.entry(*id).or_insert(0);
            let nth = *k;
            *k += 1;
            match act.rows(*id, row, nth) {
                None => false,
                Some(rows) => rows.iter().all(|r| model_row(g, chain, n + 1, r, seen, out, budget)),
            }
        }
        Node::Merge(t) => model_row(g, *t, 0, row, seen, out, budget) && model_row(g, chain, n + 1, row, seen, out, budget),
        Node::Split(ts) => ts.iter().all(|t| model_row(g, *t, 0, row, seen, out, budget)) && model_row(g, chain, n + 1, row, seen, out, budget),
    }
}

pub fn reach(g: &Graph, chain: usize, steps: &mut Vec<usize>, seen: &mut Vec<usize>) {
    if seen.contains(&chain) {
        return;
    }
    seen.push(chain);
    for n in &g.chains[chain] {
        match n {
            Node::Step(id, _) => steps.push(*id),
            Node::Merge(t) => reach(g, *t, steps, seen),
            Node::Split(ts) => ts.iter().for_each(|t| reach(g, *t, steps, seen)),
            Node::Head(_) => {}
        }
    }
}

pub fn gen_sources(r: &mut Rng) -> (Vec<Hdr>, Vec<Vec<MRow>>) {
    let s = match r.below(6) {
        0..=2 => 1,
        3 => 2,
        4 => 3,
        _ => r.urange(2, 5),
    };
    let cols = r.urange(1, 3);
    let h = Hdr { names: (0..cols).map(|i| format!("c{}", i)).collect(), types: vec![FieldType::String; cols] };
    let hdrs: Vec<Hdr> = (0..s)
        .map(|i| {
            if r.one_in(3) {
                let c = r.urange(1, 3);
                Hdr { names: (0..c).map(|k| format!("s{}c{}", i, k)).collect(), types: vec![FieldType::String; c] }
            } else {
                h.clone()
            }
        })
        .collect();
    let rows = (0..s)
        .map(|i| {
            let n = if r.one_in(6) { 0 } else { r.size(12) };
            let mut ts: Vec<u64> = (0..n).map(|_| 100 + r.below(12)).collect();
            ts.sort();
            ts.iter().enumerate().map(|(j, t)| MRow { ts: *t, v: (0..hdrs[i].len()).map(|c| Val::Str(format!("s{}r{}c{}", i, j, c))).collect() }).collect()
        })
        .collect();
    (hdrs, rows)
}

/// graphs that would lose rows: chains that don't exist, have no steps or lead to themselves, merges that get too few
/// headers; too many are just not to crash
fn c03_bad(ctx: &mut Ctx) -> Res {
    let (hdrs, inputs) = gen_sources(&mut ctx.rng);
    let mut g = gen_graph(&mut ctx.rng, &hdrs);
    let r = &mut ctx.rng;
    let mut reached = Vec::new();
    for i in 0..g.sources {
        reach(&g, i, &mut Vec::new(), &mut reached);
    }
    let heads: Vec<usize> = reached.iter().copied().filter(|c| matches!(g.chains[*c].first(), Some(Node::Head(_)))).collect();
    let at = *r.pick(&reached);
    let n = g.chains.len();
    let end = g.chains[at].len();
    let start = matches!(g.chains[at].first(), Some(Node::Head(_))) as usize;
    let what = match r.below(6) {
        0 if !heads.is_empty() => {
            let c = *r.pick(&heads);
            if let Node::Head(k) = &mut g.chains[c][0] {
                *k += r.urange(1, 3);
            }
            "a merge that gets too few headers"
        }
        1 if !heads.is_empty() => {
            let c = *r.pick(&heads);
            match &mut g.chains[c][0] {
                Node::Head(k) if *k > 1 => *k -= 1,
                _ => return Ok(()),
            }
            "a merge that gets too many headers"
        }
        2 => {
            g.chains[at].insert(r.urange(start, end), Node::Split(vec![n + r.us(3)]));
            "a split into a chain that doesn't exist"
        }
        3 => {
            g.chains[at].insert(r.urange(start, end), Node::Merge(n + r.us(3)));
            "a merge into a chain that doesn't exist"
        }
        4 => {
            g.chains[at].insert(r.urange(start, end), if r.bool() { Node::Split(vec![at]) } else { Node::Merge(at) });
            "a chain that leads to itself"
        }
        _ => {
            g.chains.push(Vec::new());
            g.chains[at].insert(r.urange(start, end), Node::Split(vec![n]));
            "a split into a chain without steps"
        }
    };
    ctx.describe(format!("{}: chains {:?}; sources {}", what, g.chains, short(&inputs)));
    ctx.shape(true, &format!("{} {:?}", what, g.chains));
    let log = new_log();
    let sources: Vec<Box<dyn Source>> = inputs.iter().enumerate().map(|(i, rows)| Box::new(MemSource::new(10_000 + i, &hdrs[i], rows.clone(), &log)) as Box<dyn Source>).collect();
    let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
    let res = Driver::new(sources, build(&g, &log), TimestampRange { begin: None, end: None }, headers);
    if what == "a merge that gets too many headers" {
        // no row is lost
        return Ok(());
    }
    ensure!(res.is_err(), "a graph with {} was accepted", what);
    ensure!(!log.borrow().events.iter().any(|e| matches!(e, Ev::Row(..))), "rows were delivered");
    ctx.count("bad_graphs_rejected", 1);
    Ok(())
}

fn c03(ctx: &mut Ctx) -> Res {
    if ctx.rng.one_in(8) {
        return c03_bad(ctx);
    }
    let (hdrs, mut inputs) = gen_sources(&mut ctx.rng);
    let long = ctx.rng.one_in(200);
    let g = if long { gen_long(&mut ctx.rng, &hdrs) } else if ctx.rng.one_in(300) { gen_wide(&mut ctx.rng, &hdrs) } else { gen_graph(&mut ctx.rng, &hdrs) };
    let (b, e) = if ctx.rng.one_in(4) { (Some(100 + ctx.rng.below(6)), Some(103 + ctx.rng.below(12))) } else { (None, None) };
    // model
    let mut order: Vec<(u64, usize, usize)> = Vec::new();
    for (i, rows) in inputs.iter().enumerate() {
        for (j, r) in rows.iter().enumerate() {
            if b.map(|b| r.ts >= b).unwrap_or(true) && e.map(|e| r.ts < e).unwrap_or(true) {
                order.push((r.ts, i, j));
            }
        }
    }
    order.sort();
    let mut want = Vec::new();
    let mut seen = HashMap::new();
    if long {
        inputs.iter_mut().for_each(|i| i.truncate(5));
        order.retain(|(_, _, j)| *j < 5);
        ctx.count("graphs_of_thousands_of_steps_or_rows", 1);
    }
    let mut budget = if long { 3_000_000i64 } else { 60_000 };
    for (_, i, j) in &order {
        model_row(&g, *i, 0, &inputs[*i][*j], &mut seen, &mut want, &mut budget);
    }
    if budget < 0 {
        ctx.count("skipped_explosions", 1);
        return Ok(());
    }
    let nsplit = g.chains.iter().flatten().filter(|n| matches!(n, Node::Split(_))).count();
    let mut fed: HashMap<usize, usize> = (0..g.sources).map(|i| (i, 1)).collect();
    g.chains.iter().flatten().for_each(|n| {
        if let Node::Split(t) = n {
            t.iter().for_each(|t| *fed.entry(*t).or_insert(0) += 1)
        }
    });
    let nshared = fed.values().filter(|n| **n > 1).count();
    let nmerge = g.chains.iter().flatten().filter(|n| matches!(n, Node::Merge(_))).count();
    ctx.shape(nsplit + nmerge > 0 && !want.is_empty(), &format!("{:?} {:?}", g.chains, order));
    ctx.describe(format!("chains {:?}; sources {} begin {:?} end {:?}", g.chains, short(&inputs), b, e));
    // reality
    let log = new_log();
    let sources: Vec<Box<dyn Source>> =
        inputs.iter().enumerate().map(|(i, rows)| Box::new(MemSource::new(10_000 + i, &hdrs[i], rows.clone(), &log)) as Box<dyn Source>).collect();
    let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
    let mut d = match Driver::new(sources, build(&g, &log), TimestampRange { begin: b, end: e }, headers) {
        Ok(d) => d,
        Err(e) => viol!("graph was rejected: {}", e),
    };
    let nhead = log.borrow().events.len();
    if let Err(e) = ChopperDriver::drive(&mut d) {
        viol!("run failed: {}", e);
    }
    let log = log.borrow();
    // headers: once per reachable step, the right one, before anything else
    let mut got_hdr: BTreeMap<usize, Hdr> = BTreeMap::new();
    for (k, e) in log.events.iter().enumerate() {
        if let Ev::Header(id, h) = e {
            ensure!(k < nhead, "step {} got its header after the start of the run", id);
            ensure!(got_hdr.insert(*id, h.clone()).is_none(), "step {} got its header twice", id);
        }
    }
    let mut steps = Vec::new();
    let mut seen = Vec::new();
    for i in 0..g.sources {
        reach(&g, i, &mut steps, &mut seen);
    }
    for s in &steps {
        match got_hdr.get(s) {
            None => viol!("step {} got no header", s),
            Some(h) => {
                if let Some(d) = diff_hdr(h, &g.step_hdr[s]) {
                    viol!("step {}: {}", s, d);
                }
            }
        }
    }
    // rows: whole sequence
    let got: Vec<&Ev> = log.events.iter().filter(|e| matches!(e, Ev::Row(..))).collect();
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) if **g == *w => {}
            (g, w) => viol!("row event {}: got {} expected {} ({} events, expected {})", i, short(&g), short(&w), got.len(), want.len()),
        }
    }
    // flush after the last row
    let mut last: HashMap<usize, bool> = HashMap::new();
    for e in &log.events {
        match e {
            Ev::Row(id, _) => {
                last.insert(*id, false);
            }
            Ev::Flush(id) => {
                last.insert(*id, true);
            }
            _ => {}
        }
    }
    for s in &steps {
        ensure!(last.get(s) == Some(&true), "step {} was not flushed after its last row", s);
    }
    ctx.count("row_events", want.len() as u64);
    ctx.count("splits", nsplit as u64);
    ctx.count("merges", nmerge as u64);
    ctx.count("chains_that_several_lead_to", nshared as u64);
    ctx.count("steps_flushed", steps.len() as u64);
    ctx.count("multi_row_outputs", g.chains.iter().flatten().filter(|n| matches!(n, Node::Step(_, Act::Dup(_) | Act::VarDup(_)))).count() as u64);
    ctx.count(
        "rows_after_a_merge_in_same_chain",
        g.chains.iter().filter(|c| c.iter().position(|n| matches!(n, Node::Merge(_))).map(|p| p + 1 < c.len()).unwrap_or(false)).count() as u64,
    );
    ctx.max("chains", g.chains.len() as u64);
    Ok(())
}
