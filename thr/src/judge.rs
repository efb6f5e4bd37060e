//! The orchestrator: runs scenarios in fresh processes, judges what they did, minimises.
use crate::area::*;
use crate::scen::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::ffi::CStr;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use ysim::prng::mix;

struct Server {
    spent: u64,
    requests: u64,
    area: *mut Area,
    child: Child,
}

impl Server {
    fn new(exe: &std::path::Path) -> Server {
        unsafe {
            let fd = libc::memfd_create(b"ythr\0".as_ptr() as *const _, 0);
            assert!(fd >= 0, "memfd");
            assert!(libc::ftruncate(fd, size() as i64) == 0);
            let area = map(fd);
            let child = Command::new(exe)
                .arg("serve")
                .arg(format!("{fd}"))
                .env_clear()
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("server");
            drop(std::fs::File::from_raw_fd(fd));
            Server { area, child, spent: 0, requests: 0 }
        }
    }
    /// Returns the wait status of the process.
    fn request(&mut self, how: u64, text: &str) -> i32 {
        unsafe {
            let a = &mut *self.area;
            assert!(text.len() <= TEXT_MAX, "scenario too long");
            a.text[..text.len()].copy_from_slice(text.as_bytes());
            a.len = text.len() as u64;
            a.how = how;
            // the rows the previous request used
            let n = (a.high as usize).min(MAX_THREADS + 1) * MAX_IDS;
            std::ptr::write_bytes(a.res.as_mut_ptr(), 0, n);
            a.high = 0;
            a.at = [0; MAX_THREADS + 1];
            a.trailer = 0;
            rt_shared_reset(shared(self.area));
        }
        let t0 = Instant::now();
        self.child.stdin.as_mut().unwrap().write_all(b"x").expect("server gone");
        let mut b = [0u8; 4];
        self.child.stdout.as_mut().unwrap().read_exact(&mut b).expect("server gone");
        self.spent += t0.elapsed().as_micros() as u64;
        self.requests += 1;
        i32::from_le_bytes(b)
    }
    fn res(&self, t: usize, id: usize) -> Res {
        unsafe { (&(*self.area).res)[t * MAX_IDS + id] }
    }
    fn stat(&self, i: usize) -> u64 {
        unsafe { rt_stat(shared(self.area), i as i32) }
    }
    fn msg(&self) -> String {
        unsafe { CStr::from_ptr(rt_msg(shared(self.area))).to_string_lossy().into_owned() }
    }
    fn decs(&self) -> Vec<Dec> {
        unsafe {
            let s = shared(self.area);
            (0..rt_ndec(s))
                .map(|i| {
                    let d = *rt_dec(s, i);
                    Dec { t: d.t, next: d.next, kind: d.kind, steps: d.steps }
                })
                .collect()
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Judge {
    sim: Server,
    reference: Server,
    elsewhere: Server,
    alone_memo: HashMap<String, Vec<Res>>,
    state_memo: HashMap<(String, u32), Res>,
    pub stats: BTreeMap<&'static str, u64>,
    pub modes: [u64; 6],
    pub compared: u64,
    pub procs: u64,
    pub crashes: [u64; 2],
    pub bad_calls: u64,
    pub distinct: HashSet<u64>,
    pub digest: u64,
}

pub struct Outcome {
    pub violation: Option<(String, String)>,
    pub decs: Vec<Vec<Dec>>,
}

impl Judge {
    pub fn new() -> Judge {
        unsafe {
            libc::personality(0x0040000);
        }
        let exe = std::fs::read_link("/proc/self/exe").expect("exe");
        let dir = exe.parent().unwrap();
        let (a, b) = (dir.join("ythr"), dir.join("ythr_np"));
        Judge {
            sim: Server::new(&a),
            reference: Server::new(&a),
            elsewhere: Server::new(&b),
            alone_memo: HashMap::new(),
            state_memo: HashMap::new(),
            stats: BTreeMap::new(),
            modes: [0; 6],
            compared: 0,
            procs: 0,
            crashes: [0; 2],
            bad_calls: 0,
            distinct: HashSet::new(),
            digest: 0,
        }
    }

    /// What the program answers when nothing else happens in its process.
    fn alone(&mut self, prog: &Prog, elsewhere: bool) -> Vec<Res> {
        let text: String = prog
            .iter()
            .map(|(id, op)| format!("{} {}\n", id.map(|x| x.to_string()).unwrap_or("-".into()), op.text()))
            .collect();
        let k = format!("{elsewhere}{text}");
        if let Some(r) = self.alone_memo.get(&k) {
            return r.clone();
        }
        let s = if elsewhere { &mut self.elsewhere } else { &mut self.reference };
        let st = s.request(1, &text);
        let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
        let n = prog.iter().filter_map(|x| x.0).max().map(|x| x + 1).unwrap_or(0);
        // a program that fails even alone is nobody's fault here: no answers to compare
        let r: Vec<Res> = if ok { (0..n).map(|i| s.res(0, i)).collect() } else { vec![Res { status: 0, pad: 0, c: [0; COMPS] }; n] };
        if self.alone_memo.len() > 2000 {
            self.alone_memo.clear();
        }
        self.alone_memo.insert(k, r.clone());
        r
    }

    fn of_state(&mut self, sfen: &str, mask: u32) -> Res {
        let k = (sfen.to_string(), mask);
        if let Some(r) = self.state_memo.get(&k) {
            return *r;
        }
        let st = self.elsewhere.request(1, &format!("0 new 0 {sfen}\n1 ask 0 {mask}\n"));
        let mut r = self.elsewhere.res(0, 1);
        if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
            r.status = 0;
        }
        if self.state_memo.len() > 5000 {
            self.state_memo.clear();
        }
        self.state_memo.insert(k, r);
        r
    }

    pub fn evaluate(&mut self, sc: &Scen, want_decs: bool) -> Outcome {
        let mut decs = vec![];
        let c12 = sc.prop == "C12";
        self.digest = 0;
        for (pi, p) in sc.procs.iter().enumerate() {
            let pl = Plan::make(p);
            let races = sc.prop == "C09" || sc.prop == "C10";
            let text = Scen { prop: if races { "races".into() } else { "calm".into() }, procs: vec![p.clone()] }.text();
            let st = self.sim.request(0, &text);
            self.procs += 1;
            self.modes[p.env.mode.min(5) as usize] += 1;
            for (i, n) in STATS.iter().enumerate().filter(|x| x.0 != 20) {
                *self.stats.entry(n).or_insert(0) += self.sim.stat(i);
            }
            let hash = self.sim.stat(20);
            if self.distinct.len() < 4_000_000 {
                self.distinct.insert(mix(hash ^ mix(self.sim.stat(0))));
            }
            self.digest = mix(self.digest ^ hash ^ mix(st as u64));
            decs.push(if want_decs { self.sim.decs() } else { vec![] });
            let done = |v: Option<(String, String)>, d: Vec<Vec<Dec>>| Outcome { violation: v, decs: d };
            let wher = |s: &Judge| {
                (0..pl.progs.len())
                    .filter_map(|t| {
                        let at = unsafe { (*s.sim.area).at[t] };
                        if at == 0 {
                            return None;
                        }
                        let op = pl.progs[t].iter().find(|x| x.0 == Some(at as usize - 1))?;
                        Some(format!("thread {t} in `{}`", op.1.text()))
                    })
                    .collect::<Vec<_>>()
                    .join(", ")
            };
            if libc::WIFEXITED(st) {
                match libc::WEXITSTATUS(st) {
                    0 => {}
                    40 => return done(Some(("race".into(), format!("process {pi}: {} ({})", self.sim.msg(), wher(self)))), decs),
                    41 => return done(Some(("blocked".into(), format!("process {pi}: {} ({})", self.sim.msg(), wher(self)))), decs),
                    42 => return done(Some(("livelock".into(), format!("process {pi}: no end in sight: {} ({})", self.sim.msg(), wher(self)))), decs),
                    43 => self.crashes[0] += 1,
                    x => {
                        println!("INTERNAL process {pi} ended with status {x}: {}", self.sim.msg());
                        std::process::exit(3);
                    }
                }
            } else {
                let sig = libc::WTERMSIG(st);
                if sig == libc::SIGABRT && self.sim.stat(14) > 0 {
                    // the injected allocation failure ended the process
                    self.crashes[1] += 1;
                } else if sig == libc::SIGALRM {
                    return done(Some(("hang".into(), format!("process {pi} does not end ({})", wher(self)))), decs);
                } else {
                    return done(Some(("died".into(), format!("process {pi} was ended by signal {sig} ({})", wher(self)))), decs);
                }
            }
            let rows: Vec<Vec<(usize, Res)>> = (0..pl.progs.len())
                .map(|t| pl.progs[t].iter().filter_map(|x| x.0).map(|id| (id, self.sim.res(t, id))).collect())
                .collect();
            for (t, row) in rows.iter().enumerate() {
                if row.iter().all(|x| x.1.status != 1 && x.1.status != 2) {
                    continue;
                }
                let al = self.alone(&pl.alone[t], c12);
                for (id, r) in row {
                    for c in r.c {
                        self.digest = mix(self.digest ^ c);
                    }
                    let op = || pl.progs[t].iter().find(|x| x.0 == Some(*id)).map(|x| x.1.text()).unwrap_or_default();
                    let a = al.get(*id).copied().unwrap_or(Res { status: 0, pad: 0, c: [0; COMPS] });
                    if r.status != 1 && r.status != 2 {
                        continue;
                    }
                    if matches!(pl.progs[t].iter().find(|x| x.0 == Some(*id)).map(|x| &x.1), Some(Op::Bad(..)) | Some(Op::Die(..))) {
                        self.bad_calls += 1;
                    }
                    if a.status == 1 || a.status == 2 {
                        self.compared += 1;
                        if r.status == 2 && a.status == 1 {
                            return done(Some(("panic".into(), format!("process {pi} thread {t}: `{}` panicked; alone it does not", op()))), decs);
                        }
                        if r.status != a.status || r.c != a.c {
                            let c = (0..COMPS).find(|i| r.c[*i] != a.c[*i]);
                            let n = c.map(|i| COMP_NAMES[i]).unwrap_or("outcome");
                            return done(
                                Some(("answer".into(), format!("process {pi} thread {t}: `{}`: {n} differ from what the same calls answer alone", op()))),
                                decs,
                            );
                        }
                    }
                    if c12 && r.status == 1 {
                        if let Some((sfen, mask)) = pl.asked.get(&(t, *id)) {
                            let s = self.of_state(sfen, *mask);
                            if s.status == 1 {
                                self.compared += 1;
                                if let Some(i) = (0..7).find(|i| r.c[*i] != s.c[*i]) {
                                    return done(
                                        Some((
                                            "recovery".into(),
                                            format!("process {pi} thread {t}: `{}`: {} differ from those of a fresh process given the snapshot {sfen}", op(), COMP_NAMES[i]),
                                        )),
                                        decs,
                                    );
                                }
                            }
                        }
                    }
                }
            }
            if unsafe { (*self.sim.area).trailer } != 0 && sc.prop != "C12" {
                return done(Some(("panic".into(), format!("process {pi}: dropping the positions of a thread panicked"))), decs);
            }
        }
        Outcome { violation: None, decs }
    }

    fn shows(&mut self, sc: &Scen, class: &str) -> Option<String> {
        if sc.procs.is_empty() {
            return None;
        }
        match self.evaluate(sc, false).violation {
            Some((c, d)) if c == class => Some(d),
            _ => None,
        }
    }

    /// A smaller scenario that shows the same class of violation.
    pub fn minimise(&mut self, sc: &Scen, class: &str, limit: Duration) -> Scen {
        let end = Instant::now() + limit;
        let mut best = sc.clone();
        // whole processes and threads
        let mut i = 0;
        while i < best.procs.len() && best.procs.len() > 1 {
            let mut c = best.clone();
            c.procs.remove(i);
            if self.shows(&c, class).is_some() {
                best = c;
            } else {
                i += 1;
            }
        }
        for p in 0..best.procs.len() {
            let mut t = 0;
            while t < best.procs[p].threads.len() && best.procs[p].threads.len() > 1 && Instant::now() < end {
                let mut c = best.clone();
                c.procs[p].threads.remove(t);
                if self.shows(&c, class).is_some() {
                    best = c;
                } else {
                    t += 1;
                }
            }
        }
        // the environment
        for p in 0..best.procs.len() {
            for f in 0..7 {
                if Instant::now() > end {
                    break;
                }
                let mut c = best.clone();
                let can = Env::canonical();
                let e = &mut c.procs[p].env;
                match f {
                    0 if e.mode < 3 || e.mode == 5 => {
                        e.mode = 4;
                        e.pct.clear();
                    }
                    1 if e.spurious > 0.0 => e.spurious = 0.0,
                    2 if e.pad > 0 => e.pad = 0,
                    3 if e.clock != can.clock || e.rate != can.rate => {
                        e.clock = can.clock;
                        e.rate = can.rate;
                    }
                    4 if e.entropy != can.entropy => e.entropy = can.entropy,
                    6 if e.host != 0 => e.host = 0,
                    5 if e.pid != can.pid => e.pid = can.pid,
                    _ => continue,
                }
                if self.shows(&c, class).is_some() {
                    best = c;
                }
            }
        }
        // operations
        let list = |s: &Scen| {
            let mut v = vec![];
            for (p, q) in s.procs.iter().enumerate() {
                for i in 0..q.main.len() {
                    v.push((p, usize::MAX, i));
                }
                for (t, th) in q.threads.iter().enumerate() {
                    for i in 0..th.len() {
                        v.push((p, t, i));
                    }
                }
            }
            v
        };
        let without = |s: &Scen, gone: &HashSet<(usize, usize, usize)>| {
            let mut c = s.clone();
            for (p, q) in c.procs.iter_mut().enumerate() {
                let mut i = 0;
                q.main.retain(|_| {
                    i += 1;
                    !gone.contains(&(p, usize::MAX, i - 1))
                });
                for (t, th) in q.threads.iter_mut().enumerate() {
                    let mut i = 0;
                    th.retain(|_| {
                        i += 1;
                        !gone.contains(&(p, t, i - 1))
                    });
                }
            }
            c
        };
        let mut size = (best.ops() / 2).max(1);
        loop {
            let mut any = false;
            let mut i = 0;
            loop {
                let l = list(&best);
                if i >= l.len() || Instant::now() > end {
                    break;
                }
                let gone: HashSet<_> = l[i..(i + size).min(l.len())].iter().copied().collect();
                let c = without(&best, &gone);
                if self.shows(&c, class).is_some() {
                    best = c;
                    any = true;
                } else {
                    i += size;
                }
            }
            if Instant::now() > end || (size == 1 && !any) {
                break;
            }
            if !any || size > 1 {
                size = (size / 2).max(1);
            }
        }
        // the schedule, as a list of decisions
        let o = self.evaluate(&best, true);
        let mut c = best.clone();
        for (p, d) in o.decs.iter().enumerate() {
            if d.len() < 390_000 {
                c.procs[p].decs = d.clone();
                c.procs[p].env.mode = 3;
                c.procs[p].env.pct.clear();
            }
        }
        if self.shows(&c, class).is_some() {
            best = c;
            for p in 0..best.procs.len() {
                if best.procs[p].decs.is_empty() {
                    continue;
                }
                let mut n = best.procs[p].decs.len();
                loop {
                    let mut i = 0;
                    let mut any = false;
                    while i < best.procs[p].decs.len() && Instant::now() < end {
                        let mut c = best.clone();
                        let hi = (i + n).min(c.procs[p].decs.len());
                        c.procs[p].decs.drain(i..hi);
                        if self.shows(&c, class).is_some() {
                            best = c;
                            any = true;
                        } else {
                            i += n;
                        }
                    }
                    if Instant::now() > end || (n == 1 && !any) {
                        break;
                    }
                    if n > 1 {
                        n /= 2;
                    }
                }
            }
        }
        best
    }
}

fn arg(a: &[String], n: &str) -> Option<String> {
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned())
}
fn num(a: &[String], n: &str, d: u64) -> u64 {
    arg(a, n).map(|x| x.parse().unwrap()).unwrap_or(d)
}

fn static_violation(prop: &str) -> Option<(String, String)> {
    let (send, sync) = crate::child::send_sync();
    if prop == "C10" && !(send && sync) {
        return Some(("not-shareable".into(), format!("Position: Send {send}, Sync {sync}")));
    }
    None
}

fn print_script(s: &str) {
    println!("BEGIN-SCRIPT");
    print!("{s}");
    println!("END-SCRIPT");
}

pub fn run(a: &[String]) {
    let prop = arg(a, "--prop").unwrap();
    let (seed, from, step) = (num(a, "--seed", 1), num(a, "--from", 0), num(a, "--step", 1));
    let (count, ms) = (num(a, "--count", u64::MAX), num(a, "--ms", u64::MAX));
    let show = a.iter().any(|x| x == "--script");
    let digest = a.iter().any(|x| x == "--digest");
    let t0 = Instant::now();
    if let Some((c, d)) = static_violation(&prop) {
        println!("RUN {from}\nVIOLATION {c} {d}");
        print_script(&crate::gen::scenario(&prop, seed, from).text());
        std::process::exit(1);
    }
    let mut j = Judge::new();
    let (mut i, mut runs, mut ops) = (from, 0u64, 0u64);
    let mut faults: BTreeMap<&str, u64> = BTreeMap::new();
    let mut threads = [0u64; MAX_THREADS + 1];
    let mut samples = vec![];
    let mut faulty = 0u64;
    while runs < count && (t0.elapsed().as_millis() as u64) < ms {
        println!("RUN {i}");
        let sc = crate::gen::scenario(&prop, seed, i);
        ops += sc.ops() as u64;
        let mut f = false;
        for p in &sc.procs {
            threads[p.threads.len().min(MAX_THREADS)] += 1;
            f |= p.env.spurious > 0.0;
            for o in p.main.iter().chain(p.threads.iter().flatten()) {
                let n = match o {
                    Op::Fault(Fault::Stall, ..) => "stalls planned",
                    Op::Fault(Fault::Stop, ..) => "stops planned",
                    Op::Fault(Fault::Crash, ..) => "crashes planned",
                    Op::Fault(Fault::Oom, ..) => "allocation failures planned",
                    Op::Fault(Fault::Leap, ..) => "clock leaps planned",
                    Op::Bad(..) => "nonsensical calls",
                    Op::Die(..) => "threads ended by a panic",
                    Op::Send(..) => "hand-overs",
                    Op::Recv(..) => "hand-overs received",
                    _ => continue,
                };
                f |= !n.starts_with("hand");
                *faults.entry(n).or_insert(0) += 1;
            }
        }
        faulty += f as u64;
        let o = j.evaluate(&sc, false);
        runs += 1;
        if digest {
            println!("DIGEST {i} {:016x}", j.digest);
        }
        if show {
            print_script(&sc.text());
        }
        if samples.len() < 2 && sc.text().len() < 1200 {
            samples.push(format!("run {i}: {}", sc.text().replace('\n', " | ")));
        }
        if let Some((c, d)) = o.violation {
            println!("VIOLATION {c} {d}");
            print_script(&sc.text());
            std::process::exit(1);
        }
        i += step;
    }
    if let Some(f) = arg(a, "--distinct") {
        let mut o = std::io::BufWriter::new(std::fs::File::create(f).unwrap());
        for x in &j.distinct {
            o.write_all(&x.to_le_bytes()).unwrap();
        }
    }
    for (n, s) in [("scheduled", &j.sim), ("alone", &j.reference), ("alone elsewhere", &j.elsewhere)] {
        eprintln!("{n}: {} requests, {} us each", s.requests, s.spent / s.requests.max(1));
    }
    let esc = |s: &str| s.replace('\\', "/").replace('"', "'");
    let obj = |v: Vec<(String, u64)>| format!("{{{}}}", v.iter().map(|(k, x)| format!("\"{k}\":{x}")).collect::<Vec<_>>().join(","));
    println!(
        "STATS {{\"runs\":{runs},\"faulty_runs\":{faulty},\"processes\":{},\"ops\":{ops},\"judged\":{},\"crashed\":{},\"aborted_by_allocation_failure\":{},\"distinct\":{},\"faults\":{},\"seams\":{},\"modes\":{},\"threads\":{},\"samples\":[{}]}}",
        j.procs,
        j.compared,
        j.crashes[0],
        j.crashes[1],
        j.distinct.len(),
        obj(faults.iter().map(|(k, v)| (k.to_string(), *v)).collect()),
        obj(j.stats.iter().map(|(k, v)| (k.to_string(), *v)).collect()),
        obj(["random slices", "priorities with change points", "switches at atomics", "replay", "run to completion", "switches at atomics the threads write"]
            .iter()
            .zip(j.modes)
            .map(|(k, v)| (k.to_string(), v))
            .collect()),
        obj(threads.iter().enumerate().filter(|x| *x.1 > 0).map(|(k, v)| (k.to_string(), *v)).collect()),
        samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
    );
}

fn load(a: &[String]) -> Scen {
    let t = std::fs::read_to_string(&a[2]).unwrap();
    match Scen::parse(&t) {
        Some(s) => s,
        None => {
            eprintln!("cannot parse {}", a[2]);
            std::process::exit(2);
        }
    }
}

pub fn exec(a: &[String]) {
    let sc = load(a);
    let v = static_violation(&sc.prop);
    let v = if v.is_some() {
        v
    } else {
        let mut j = Judge::new();
        let o = j.evaluate(&sc, false);
        println!("DIGEST 0 {:016x}", j.digest);
        o.violation
    };
    if let Some((c, d)) = v {
        println!("VIOLATION {c} {d}");
        std::process::exit(1);
    }
    println!("held");
}

pub fn min(a: &[String]) {
    let sc = load(a);
    let secs = num(a, "--seconds", 60);
    if let Some((c, d)) = static_violation(&sc.prop) {
        println!("VIOLATION {c} {d}");
        print_script(&Scen { prop: sc.prop.clone(), procs: vec![Proc { env: Env::canonical(), main: vec![], threads: vec![], decs: vec![] }] }.text());
        std::process::exit(1);
    }
    let mut j = Judge::new();
    let Some((c, d)) = j.evaluate(&sc, false).violation else {
        println!("held");
        return;
    };
    let m = j.minimise(&sc, &c, Duration::from_secs(secs));
    let d = j.shows(&m, &c).unwrap_or(d);
    println!("VIOLATION {c} {d}");
    print_script(&m.text());
    std::process::exit(1);
}
