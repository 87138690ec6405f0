//! Exhaustive exploration: breadth-first search of all operation sequences
//! (explicit states, duplicates merged), and sweeps over finite products of
//! inputs. Both run on all cores and are deterministic: the violation reported
//! is the first one in (depth, position) order.

use crate::model::Div;
use crate::svm::World;
use std::{
    collections::{hash_map::DefaultHasher, BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    io::Write,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Mutex,
    },
    time::Instant,
};

pub trait Model: Sync {
    type S: Clone + Send + Sync;
    type O: Clone + Debug + Send + Sync;
    /// What is stored of a state between expansions.
    type P: Clone + Send + Sync;
    fn pack(&self, s: Self::S) -> Self::P;
    fn unpack(&self, p: &Self::P) -> Self::S;
    fn init(&self) -> Vec<(String, Self::S)>;
    fn ops(&self, s: &Self::S) -> Vec<Self::O>;
    /// Executes `o` on the implementation; successor and divergences.
    fn step(&self, s: &Self::S, o: &Self::O) -> (Option<Self::S>, Vec<Div>);
    fn key(&self, s: &Self::S) -> u128;
    /// State invariants.
    fn check(&self, _s: &Self::S) -> Vec<Div> {
        vec![]
    }
    fn op_name(&self, o: &Self::O) -> String;
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub init: usize,
    pub path: Vec<usize>,
    pub trace: Vec<String>,
    pub div: Div,
}

#[derive(Default, Clone, Debug)]
pub struct Cover {
    pub name: String,
    pub kind: &'static str,
    pub bound: String,
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub depth: usize,
    pub complete: bool,
    pub by_op: BTreeMap<String, (u64, u64)>,
}

pub struct Replay {
    pub scenario: String,
    pub init: usize,
    pub path: Vec<usize>,
}

/// One run of one property's check.
pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub focus: Vec<String>,
    pub known: Vec<String>,
    pub known_hit: Vec<String>,
    pub covers: Vec<Cover>,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
    pub replay: Option<Replay>,
    pub off_focus: BTreeMap<String, u64>,
    pub t0: Instant,
    /// safety net: exploration stops (and says so) after this many seconds
    pub budget: f64,
}

fn glob(p: &str, s: &str) -> bool {
    match p.strip_suffix('*') {
        Some(p) => s.starts_with(p),
        None => p == s,
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get())
}

/// Applies `f` to 0..n on all cores; results in order.
pub fn par<R: Send>(n: usize, f: impl Fn(usize) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, Vec<R>)>> = Mutex::new(vec![]);
    let chunk = (n / (threads() * 16)).clamp(1, 256);
    let work = || loop {
        let a = next.fetch_add(chunk, Ordering::SeqCst);
        if a >= n {
            break;
        }
        let b = (a + chunk).min(n);
        let v: Vec<R> = (a..b).map(&f).collect();
        out.lock().unwrap().push((a, v));
    };
    if n <= 2 {
        work();
    } else {
        std::thread::scope(|s| {
            for _ in 0..threads() {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, &work)
                    .unwrap();
            }
        });
    }
    let mut o = out.into_inner().unwrap();
    o.sort_by_key(|x| x.0);
    o.into_iter().flat_map(|x| x.1).collect()
}

fn rss_gb() -> f64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1)?.parse::<f64>().ok())
        .map_or(0.0, |p| p * 4096.0 / (1u64 << 30) as f64)
}

pub struct KeyHasher(DefaultHasher, DefaultHasher);
impl Default for KeyHasher {
    fn default() -> Self {
        Self::new()
    }
}
impl KeyHasher {
    pub fn new() -> Self {
        let mut b = DefaultHasher::new();
        b.write_u64(0x9e37_79b9_7f4a_7c15);
        KeyHasher(DefaultHasher::new(), b)
    }
    pub fn add<T: Hash>(&mut self, t: &T) {
        t.hash(&mut self.0);
        t.hash(&mut self.1);
    }
    pub fn finish(&self) -> u128 {
        ((self.0.finish() as u128) << 64) | self.1.finish() as u128
    }
}

/// Identity of a world, ignoring the lamports of the fee payer.
pub fn world_key(h: &mut KeyHasher, w: &World) {
    let payer = crate::client::k("payer");
    h.add(&w.now);
    for (k, a) in w.iter() {
        h.add(&k.to_bytes());
        h.add(&a.owner.to_bytes());
        if *k != payer {
            h.add(&a.lamports);
        }
        h.add(&a.data);
    }
}

impl Run {
    pub fn new(id: &str, thorough: bool) -> Run {
        Run {
            id: id.into(),
            thorough,
            focus: vec![],
            known: vec![],
            known_hit: vec![],
            covers: vec![],
            samples: vec![],
            violation: None,
            replay: None,
            off_focus: BTreeMap::new(),
            t0: Instant::now(),
            budget: if thorough { 7200.0 } else { 600.0 },
        }
    }

    /// Which divergences concern this property: patterns "op/aspect", `*` at the end.
    pub fn focus(&mut self, pats: &[&str]) {
        self.focus = pats.iter().map(|s| s.to_string()).collect();
    }

    fn relevant(&self, d: &Div) -> bool {
        let s = format!("{}/{}", d.op, d.aspect);
        // an operation may be written as `*` in front
        self.focus.iter().any(|p| match p.strip_prefix("*/") {
            Some(a) => glob(a, &d.aspect),
            None => glob(p, &s),
        })
    }

    fn known(&self, d: &Div, scenario: &str) -> Option<String> {
        let s = format!("{scenario}: {}/{}: {}", d.op, d.aspect, d.detail);
        self.known.iter().find(|k| s.contains(k.split(" ## ").next().unwrap())).cloned()
    }

    pub fn done(&self) -> bool {
        self.violation.is_some()
    }

    fn pick(&mut self, scenario: &str, divs: &[Div]) -> Option<Div> {
        for d in divs {
            if !self.relevant(d) {
                *self
                    .off_focus
                    .entry(format!("{}/{}", d.op, d.aspect))
                    .or_default() += 1;
                continue;
            }
            if let Some(k) = self.known(d, scenario) {
                if !self.known_hit.contains(&k) {
                    self.known_hit.push(k);
                }
                continue;
            }
            return Some(d.clone());
        }
        None
    }

    pub fn pick_pub(&mut self, scenario: &str, divs: &[Div]) -> Option<Div> {
        self.pick(scenario, divs)
    }

    /// A failure to even set the scenario up through honest instructions.
    pub fn setup<T>(&mut self, name: &str, r: Result<T, String>) -> Option<T> {
        match r {
            Ok(t) => Some(t),
            Err(e) => {
                if self.violation.is_none() {
                    self.violation = Some(Violation {
                        scenario: name.into(),
                        init: 0,
                        path: vec![],
                        trace: vec![],
                        div: Div {
                            op: "setup".into(),
                            aspect: "rejected".into(),
                            detail: e,
                        },
                    });
                }
                None
            }
        }
    }

    fn out_of_time(&self) -> bool {
        self.t0.elapsed().as_secs_f64() > self.budget
    }

    /// Breadth-first exploration of `m` up to `depth` operations (or to the
    /// fixed point, if earlier).
    pub fn bfs<M: Model>(&mut self, name: &str, m: &M, depth: usize) {
        if self.done() {
            return;
        }
        let init = m.init();
        if let Some(r) = &self.replay {
            if r.scenario != name {
                return;
            }
            let (label, mut s) = init[r.init].clone();
            println!("scenario {name}, start: {label}");
            let mut divs = m.check(&s);
            for (i, p) in r.path.iter().enumerate() {
                let o = m.ops(&s)[*p].clone();
                let (n, d) = m.step(&s, &o);
                println!("  {:2}. {:?}\n      -> {}", i + 1, o, if n.is_some() { "accepted" } else { "rejected" });
                divs.extend(d);
                if let Some(n) = n {
                    divs.extend(m.check(&n));
                    s = n;
                }
            }
            for d in divs {
                let rel = self.relevant(&d);
                println!("  {} {} {}: {}", if rel { "!!" } else { "  " }, d.op, d.aspect, d.detail);
                if rel && self.violation.is_none() {
                    self.violation = Some(Violation {
                        scenario: name.into(),
                        init: 0,
                        path: vec![],
                        trace: vec![],
                        div: d,
                    });
                }
            }
            return;
        }
        let t = Instant::now();
        let mut cov = Cover {
            name: name.into(),
            kind: "bfs",
            bound: format!("depth {depth}"),
            complete: true,
            ..Cover::default()
        };
        // node: (parent, op index)
        let mut nodes: Vec<(u32, u16)> = vec![];
        let mut seen: HashSet<u128> = HashSet::new();
        let mut frontier: Vec<(u32, M::P)> = vec![];
        let mut starts: Vec<(String, M::S)> = vec![];
        for (label, s) in init {
            let div = self.pick(name, &m.check(&s));
            if let Some(div) = div {
                self.violation = Some(Violation {
                    scenario: name.into(),
                    init: starts.len(),
                    path: vec![],
                    trace: vec![label],
                    div,
                });
                return;
            }
            if seen.insert(m.key(&s)) {
                nodes.push((u32::MAX, starts.len() as u16));
                frontier.push((nodes.len() as u32 - 1, m.pack(s.clone())));
            }
            starts.push((label, s));
        }
        let path_of = |nodes: &Vec<(u32, u16)>, mut i: u32| -> (usize, Vec<usize>) {
            let mut p = vec![];
            while nodes[i as usize].0 != u32::MAX {
                p.push(nodes[i as usize].1 as usize);
                i = nodes[i as usize].0;
            }
            p.reverse();
            (nodes[i as usize].1 as usize, p)
        };
        let trace_of = |init: usize, path: &[usize]| -> Vec<String> {
            let (label, mut s) = starts[init].clone();
            let mut t = vec![format!("start: {label}")];
            for p in path {
                let o = m.ops(&s)[*p].clone();
                let (n, _) = m.step(&s, &o);
                t.push(format!(
                    "{:?} -> {}",
                    o,
                    if n.is_some() { "accepted" } else { "rejected" }
                ));
                if let Some(n) = n {
                    s = n;
                }
            }
            t
        };
        cov.states = frontier.len() as u64;
        let mut deepest = 0u32;
        'levels: for level in 0..depth {
            if frontier.is_empty() {
                break;
            }
            if self.out_of_time() || rss_gb() > 22.0 {
                cov.complete = false;
                cov.bound = format!("depth {level} (time or memory budget), planned {depth}");
                break;
            }
            let mut next: Vec<(u32, M::P)> = vec![];
            let mut from = 0;
            while from < frontier.len() {
            if from > 0 && (self.out_of_time() || rss_gb() > 22.0) {
                cov.complete = false;
                cov.bound = format!("depth {level} and {from} of {} states of the next level (time or memory budget), planned {depth}", frontier.len());
                break 'levels;
            }
            let upto = (from + 8192).min(frontier.len());
            let seen_ref = &seen;
            let fr = &frontier[from..upto];
            let res = par(fr.len(), |i| {
                let s = &m.unpack(&fr[i].1);
                let mut out: Vec<(u16, String, Option<(u128, Option<M::P>)>, Vec<Div>)> = vec![];
                let ops = m.ops(s);
                assert!(ops.len() < 65536);
                for (j, o) in ops.iter().enumerate() {
                    let (n, mut d) = m.step(s, o);
                    let n = n.map(|n| {
                        let k = m.key(&n);
                        if seen_ref.contains(&k) {
                            (k, None)
                        } else {
                            d.extend(m.check(&n));
                            (k, Some(m.pack(n)))
                        }
                    });
                    out.push((j as u16, m.op_name(o), n, d));
                }
                out
            });
            for (i, outs) in res.into_iter().enumerate() {
                let parent = frontier[from + i].0;
                for (j, opn, n, divs) in outs {
                    cov.transitions += 1;
                    let e = cov.by_op.entry(opn).or_default();
                    if n.is_some() {
                        cov.accepted += 1;
                        e.0 += 1;
                    } else {
                        cov.rejected += 1;
                        e.1 += 1;
                    }
                    if !divs.is_empty() {
                        if let Some(div) = self.pick(name, &divs) {
                            let (init, mut path) = path_of(&nodes, parent);
                            path.push(j as usize);
                            let trace = trace_of(init, &path);
                            self.violation = Some(Violation {
                                scenario: name.into(),
                                init,
                                path,
                                trace,
                                div,
                            });
                            cov.complete = false;
                            self.covers.push(cov);
                            return;
                        }
                    }
                    if let Some((k, Some(s))) = n {
                        if seen.insert(k) {
                            nodes.push((parent, j));
                            deepest = nodes.len() as u32 - 1;
                            next.push((deepest, s));
                            cov.states += 1;
                        }
                    }
                }
            }
            from = upto;
            }
            frontier = next;
            cov.depth = level + 1;
        }
        if frontier.is_empty() && cov.complete {
            cov.bound = format!("fixed point at depth {}", cov.depth);
        }
        if self.samples.len() < 3 && !nodes.is_empty() {
            let (init, path) = path_of(&nodes, deepest);
            self.samples
                .push(format!("{name}: {}", trace_of(init, &path).join("; ")));
        }
        if std::env::var("NTTMC_VERBOSE").is_ok() {
            eprintln!(
                "  bfs {name}: {} states, {} transitions ({} accepted), {}, {:.1}s {:?}",
                cov.states,
                cov.transitions,
                cov.accepted,
                cov.bound,
                t.elapsed().as_secs_f64(),
                cov.by_op
            );
        }
        self.covers.push(cov);
    }

    /// Every case 0..n of a finite product: `f` returns a description, whether
    /// the implementation accepted, and the divergences.
    pub fn sweep(&mut self, name: &str, n: usize, f: impl Fn(usize) -> Case + Sync) {
        if self.done() {
            return;
        }
        if let Some(r) = &self.replay {
            if r.scenario != name {
                return;
            }
            let c = f(r.path[0]);
            println!("scenario {name}, case {}: {} -> {}", r.path[0], (c.what)(), c.steps);
            for d in c.divs {
                let rel = self.relevant(&d);
                println!("  {} {} {}: {}", if rel { "!!" } else { "  " }, d.op, d.aspect, d.detail);
                if rel && self.violation.is_none() {
                    self.violation = Some(Violation {
                        scenario: name.into(),
                        init: 0,
                        path: vec![],
                        trace: vec![],
                        div: d,
                    });
                }
            }
            return;
        }
        let t = Instant::now();
        let mut cov = Cover {
            name: name.into(),
            kind: "sweep",
            bound: format!("{n} cases (full product)"),
            complete: true,
            ..Cover::default()
        };
        let mut states: HashSet<u128> = HashSet::new();
        let block = 1 << 14;
        let mut a = 0;
        while a < n {
            if self.out_of_time() {
                cov.complete = false;
                cov.bound = format!("{a} of {n} cases (time budget)");
                break;
            }
            let b = (a + block).min(n);
            let res = par(b - a, |i| {
                let c = f(a + i);
                let what = if c.divs.is_empty() && !(a == 0 && i == (b - a) / 2) {
                    None
                } else {
                    Some((c.what)())
                };
                (c.accepted, c.rejected, c.steps, c.key, c.divs, what)
            });
            for (i, (acc, rej, steps, key, divs, what)) in res.into_iter().enumerate() {
                cov.transitions += steps as u64;
                cov.accepted += acc as u64;
                cov.rejected += rej as u64;
                states.extend(key);
                if a == 0 && i == (b - a) / 2 && self.samples.len() < 3 {
                    self.samples
                        .push(format!("{name}: {}", what.clone().unwrap_or_default()));
                }
                if let Some(div) = self.pick(name, &divs) {
                    self.violation = Some(Violation {
                        scenario: name.into(),
                        init: 0,
                        path: vec![a + i],
                        trace: vec![what.unwrap_or_default()],
                        div,
                    });
                    cov.complete = false;
                    cov.states = states.len() as u64;
                    self.covers.push(cov);
                    return;
                }
            }
            a = b;
        }
        cov.states = states.len() as u64;
        if std::env::var("NTTMC_VERBOSE").is_ok() {
            eprintln!(
                "  sweep {name}: {n} cases, {} states, {} transitions ({} accepted) {:.1}s",
                cov.states,
                cov.transitions,
                cov.accepted,
                t.elapsed().as_secs_f64()
            );
        }
        self.covers.push(cov);
    }
}

pub struct Case {
    pub what: Box<dyn Fn() -> String>,
    pub steps: usize,
    pub accepted: usize,
    pub rejected: usize,
    /// identities of the states reached
    pub key: Vec<u128>,
    pub divs: Vec<Div>,
}

impl Case {
    pub fn new(what: impl Fn() -> String + 'static) -> Case {
        Case {
            what: Box::new(what),
            steps: 0,
            accepted: 0,
            rejected: 0,
            key: vec![],
            divs: vec![],
        }
    }
    /// Records one executed transition.
    pub fn did(&mut self, next: Option<&World>) {
        self.steps += 1;
        match next {
            Some(w) => {
                self.accepted += 1;
                let mut h = KeyHasher::new();
                world_key(&mut h, w);
                self.key.push(h.finish());
            }
            None => self.rejected += 1,
        }
    }
    /// Records an evaluation of library code with the given outcome.
    pub fn eval<T: Hash>(&mut self, ok: bool, t: &T) {
        self.steps += 1;
        if ok {
            self.accepted += 1
        } else {
            self.rejected += 1
        }
        let mut h = KeyHasher::new();
        h.add(t);
        self.key.push(h.finish());
    }
    pub fn fail(&mut self, op: &str, aspect: &str, detail: String) {
        self.divs.push(Div {
            op: op.into(),
            aspect: aspect.into(),
            detail,
        });
    }
}

/// Mixed-radix decoding of a case index.
pub struct Ix(pub usize);
impl Ix {
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let r = &v[self.0 % v.len()];
        self.0 /= v.len();
        r
    }
}

// ------------------------------------------------------------- reporting

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut i = n;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}...", &s[..i])
    }
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

impl Run {
    /// Writes evidence (and a replay file), prints the verdict, returns the exit code.
    pub fn finish(self, dir: &str, assumptions: &[&str]) -> i32 {
        let wall = self.t0.elapsed().as_secs_f64();
        let sum = |f: fn(&Cover) -> u64| self.covers.iter().map(f).sum::<u64>();
        let (st, tr) = (sum(|c| c.states), sum(|c| c.transitions));
        let complete = self.covers.iter().all(|c| c.complete) && self.violation.is_none();
        let sc: Vec<String> = self
            .covers
            .iter()
            .map(|c| {
                format!(
                    "{{\"name\":{},\"kind\":{},\"bound\":{},\"states\":{},\"transitions\":{},\"accepted\":{},\"rejected\":{},\"complete\":{},\"by_op\":{{{}}}}}",
                    esc(&c.name), esc(c.kind), esc(&c.bound), c.states, c.transitions, c.accepted, c.rejected, c.complete,
                    c.by_op.iter().map(|(k,v)| format!("{}:[{},{}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let samples: Vec<String> = self.samples.iter().map(|s| short(s, 3000)).collect();
        let mut viol = String::from("[]");
        let tier = if self.thorough { "thorough" } else { "quick" };
        let replay = format!("{dir}/replays/{}-{tier}.json", self.id);
        if let Some(v) = &self.violation {
            viol = format!("[{}]", esc(&short(&format!("{}: {}/{}: {}", v.scenario, v.div.op, v.div.aspect, v.div.detail), 2000)));
        }
        let off: Vec<String> = self.off_focus.iter().map(|(k, v)| format!("{k} x{v}")).collect();
        let json = format!(
            "{{\"property\":{},\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":{st},\"transitions\":{tr},\"traces_validated_against_impl\":{tr},\"validation\":\"every transition counted was executed on the real program code in the mini-SVM and its outcome compared with the reference model\",\"accepted\":{},\"rejected\":{},\"exhaustive\":{complete},\"scenarios\":[{}],\"samples\":{},\"other_divergences_seen\":{}}},\"assumptions\":{},\"violations\":{},\"violation_reports\":{viol},\"wall_s\":{wall:.2}}}\n",
            esc(&self.id), sum(|c| c.accepted), sum(|c| c.rejected), sc.join(","), list(&samples), list(&off),
            list(&assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
            self.violation.is_some() as u8
        );
        std::fs::create_dir_all(dir).unwrap();
        std::fs::write(format!("{dir}/{}.json", self.id), json).unwrap();
        for k in &self.known_hit {
            println!("KNOWN-FINDING: property={} {}", self.id, k.replace(" ## ", " "));
        }
        println!(
            "{} {tier}: {} scenarios, {st} states, {tr} transitions ({} accepted), {} in {wall:.1}s",
            self.id,
            self.covers.len(),
            sum(|c| c.accepted),
            if complete { "exhaustive within bounds" } else { "NOT exhaustive" },
        );
        if let Some(v) = &self.violation {
            std::fs::create_dir_all(format!("{dir}/replays")).unwrap();
            let p: Vec<String> = v.path.iter().map(|x| x.to_string()).collect();
            let mut f = std::fs::File::create(&replay).unwrap();
            write!(
                f,
                "{{\"property\":{},\n\"tier\":\"{tier}\",\n\"scenario\":{},\n\"init\":{},\n\"path\":[{}],\n\"trace\":{},\n\"op\":{},\"aspect\":{},\n\"detail\":{}}}\n",
                esc(&self.id), esc(&v.scenario), v.init, p.join(","), list(&v.trace), esc(&v.div.op), esc(&v.div.aspect), esc(&v.div.detail)
            )
            .unwrap();
            println!("  {}: {}/{}", v.scenario, v.div.op, v.div.aspect);
            for t in &v.trace {
                println!("    {}", short(t, 600));
            }
            println!("  {}", short(&v.div.detail, 1500));
            println!("VIOLATION property={} replay={replay}", self.id);
            return 1;
        }
        if self.known_hit.is_empty() && tr == 0 {
            println!("nothing explored");
            return 2;
        }
        0
    }
}
