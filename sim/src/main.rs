#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
pub use funcmap_simcore::{alloc, fam, gen, node, rt, tok};

mod derived;
mod fams;
mod laws;
mod modes;

use modes::*;
use rt::*;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn build_name() -> &'static str {
    match (cfg!(feature = "std"), cfg!(feature = "alloc"), cfg!(debug_assertions)) {
        (true, _, false) if funcmap_simcore::rt::EDGES_ON.load(std::sync::atomic::Ordering::Relaxed) => "std-edges",
        (true, _, true) => "std-debug",
        (true, _, false) if option_env!("SIM_PLAIN").is_some() => "std-plain",
        (true, _, false) => "std-release",
        (_, true, true) => "alloc-debug",
        (_, true, false) => "alloc-release",
        (_, _, true) => "core-debug",
        _ => "core-release",
    }
}

struct Opts(HashMap<String, String>);
impl Opts {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map_or(d, |v| v.parse().expect("number"))
    }
}

pub struct Replay {
    pub head: Vec<(String, String)>,
    pub tapes: Option<HashMap<u64, Vec<u32>>>,
}

fn read_replay(p: &str) -> Replay {
    let mut r = Replay { head: vec![], tapes: None };
    for l in std::fs::read_to_string(p).expect("replay file").lines() {
        if l.starts_with('#') || l.trim().is_empty() {
            continue;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        if k == "tape" {
            let mut it = v.split_whitespace().map(|x| x.parse::<u64>().expect("tape"));
            let s = it.next().expect("stream");
            r.tapes.get_or_insert_with(HashMap::default).insert(s, it.map(|x| x as u32).collect());
        } else if k == "tapes" {
            r.tapes.get_or_insert_with(HashMap::default);
        } else {
            r.head.push((k.into(), v.into()));
        }
    }
    r
}

fn write_replay(p: &str, head: &[(String, String)], tapes: &HashMap<u64, Vec<u32>>, notes: &[String]) {
    let mut s = String::new();
    for n in notes {
        for l in n.lines() {
            s += &format!("# {l}\n");
        }
    }
    for (k, v) in head {
        s += &format!("{k} {v}\n");
    }
    s += "tapes\n";
    let mut ks: Vec<_> = tapes.keys().collect();
    ks.sort();
    for k in ks {
        if !tapes[k].is_empty() {
            s += &format!("tape {k} {}\n", tapes[k].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
    }
    std::fs::write(p, s).expect("write replay");
}

fn world(focus: &str, mode: &str, tier: u8) -> World {
    let built = if cfg!(feature = "std") { 2 } else { cfg!(feature = "alloc") as u8 };
    if mode == "cost" {
        alloc::count_moves();
    }
    World::new(fams::table(), laws::commuting(), focus, mode, tier.min(built))
}

/// violations that count for the property in focus
fn relevant<'a>(o: &'a RunOut, focus: &str) -> Vec<&'a Viol> {
    o.viols.iter().filter(|v| focus == "ALL" || props_of(v).contains(&focus)).collect()
}

fn main() {
    std::alloc::set_alloc_error_hook(|l| {
        let o = Out::enter();
        if !o.lib() || alloc::unwinding() {
            eprintln!("harness: out of memory ({} bytes)", l.size());
            std::process::abort();
        }
        alloc::THROWN.set(true);
        std::panic::resume_unwind(Box::new(OomPayload))
    });
    std::panic::set_hook(Box::new(|i| {
        let o = Out::enter();
        if !o.lib() && std::env::var_os("SIM_PANICS").is_some() {
            eprintln!("{i}");
        }
        if let Some(l) = i.location() {
            let p = i.payload();
            let text = p.downcast_ref::<String>().map(String::as_str).or(p.downcast_ref::<&str>().copied());
            let planned = text.is_none_or(|s| s.starts_with("a callback of"));
            if l.file().contains("sim/src") || l.file().starts_with("src/") || l.file().starts_with("core/src/") && !planned {
                eprintln!("harness panic: {i}");
            }
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    let mut o = HashMap::default();
    let mut pos = vec![];
    for a in &args[2..] {
        match a.strip_prefix("--").and_then(|a| a.split_once('=')) {
            Some((k, v)) => {
                o.insert(k.to_string(), v.to_string());
            }
            None => pos.push(a.clone()),
        }
    }
    let o = Opts(o);
    if let Ok(p) = std::env::var("SIM_TAPE_LOG") {
        *lock(&TAPE_LOG) = Some(std::fs::File::create(p).expect("tape log"));
        TAPE_LOG_ON.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    match cmd {
        "run" => run_batch(&o),
        "digest" => digests(&o),
        "replay" => std::process::exit(replay(&pos[0], &o)),
        "shrink" => shrink_file(&pos[0], &pos[1], &o),
        "list" => list(&o),
        _ => {
            eprintln!("usage: funcmap_sim run|digest|replay|shrink|list");
            std::process::exit(2);
        }
    }
}

fn list(o: &Opts) {
    let f = o.get("focus", "C03");
    let w = world(&f, default_mode(&f), 2);
    for i in w.std_c.iter().chain(&w.der_c).chain(&w.long_c) {
        println!("{} {:?}", w.table[*i].ops.len(), w.table[*i].info);
    }
}

#[derive(Default)]
struct Stats {
    runs: u64,
    ops: u64,
    ok: u64,
    err: u64,
    panic: u64,
    events: u64,
    nested: u64,
    deepest: u64,
    threads: u64,
    switches: u64,
    fired: [u64; 10],
    nontrivial: u64,
}

struct Bits(Vec<u64>);
impl Bits {
    fn new() -> Bits {
        Bits(vec![0; 1 << 18])
    }
    fn add(&mut self, h: u64) {
        let b = (mix(h, 3) >> 40) as usize;
        self.0[b >> 6] |= 1 << (b & 63);
    }
    fn write(&self, p: &str) {
        let v = unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.0.len() * 8) };
        let _ = std::fs::write(p, v);
    }
}

/// What is kept of a run.
#[derive(Default)]
struct Summary {
    counts: [u64; 19],
    sigs: Vec<u64>,
    sched: u64,
    hist: u64,
    viols: Vec<(String, String, String)>,
    tapes: HashMap<u64, Vec<u32>>,
}

fn summary(w: &World, t: &std::sync::Arc<Tapes>, focus: &str, loghash: bool) -> Summary {
    let r = run(w, t);
    let mut s = Summary { sched: r.sched, ..Default::default() };
    let c = &mut s.counts;
    let mut hist = 0;
    for a in &r.actors {
        for (i, x) in [a.ops, a.op_ok, a.op_err, a.op_panic, a.events, (a.depth > 0) as u64].into_iter().enumerate() {
            c[i] += x;
        }
        c[7] |= (a.events > 6) as u64;
        c[18] = c[18].max(a.depth as u64);
        for i in 0..10 {
            c[8 + i] += a.fired[i];
        }
        for x in &a.sigs {
            s.sigs.push(*x);
            hist = mix(hist, *x);
        }
        if loghash {
            for e in &a.log {
                hist = mix(hist, fam::hash_str(&format!("{e:?}")));
            }
        }
        hist = mix(hist, mix(a.events, a.tape_pos()));
    }
    c[6] = r.switches;
    s.hist = mix(hist, r.sched);
    for v in relevant(&r, focus) {
        s.viols.push((v.class.to_string(), v.fam.replace(' ', "_"), v.msg.replace(['\n', '\t'], " ")));
    }
    drop(r);
    s.tapes = std::mem::take(&mut *lock(&t.recs));
    s
}

impl Summary {
    fn text(&self, tapes: bool) -> String {
        let nums = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let mut t = format!("{}\n{}\n{} {}\n", nums(&self.counts), nums(&self.sigs), self.sched, self.hist);
        for v in &self.viols {
            t += &format!("V\t{}\t{}\t{}\n", v.0, v.1, v.2);
        }
        if tapes {
            for (k, v) in &self.tapes {
                t += &format!("T\t{k}\t{}\n", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            }
        }
        t + "end\n"
    }
    fn parse(t: &str) -> Option<Summary> {
        let nums = |l: &str| l.split_whitespace().map(|x| x.parse::<u64>().ok()).collect::<Option<Vec<u64>>>();
        let mut s = Summary::default();
        let mut it = t.strip_suffix("end\n")?.lines();
        s.counts = nums(it.next()?)?.try_into().ok()?;
        s.sigs = nums(it.next()?)?;
        let x = nums(it.next()?)?;
        (s.sched, s.hist) = (x[0], x[1]);
        for l in it {
            let f: Vec<&str> = l.splitn(4, '\t').collect();
            match f[0] {
                "V" => s.viols.push((f[1].into(), f[2].into(), f[3].into())),
                _ => {
                    s.tapes.insert(f[1].parse().ok()?, nums(f[2])?.into_iter().map(|x| x as u32).collect());
                }
            }
        }
        Some(s)
    }
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn prctl(op: i32, ...) -> i32;
    fn _exit(code: i32) -> !;
}

/// Runs `f` in a child process: nothing it leaves behind reaches later runs. `None` if the child dies.
fn apart(tapes: bool, f: impl FnOnce() -> Summary) -> Option<Summary> {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "harness: pipe");
        let pid = fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            prctl(1, 9); // ends with its parent
            close(fds[0]);
            let s = f().text(tapes);
            let mut p = std::fs::File::from_raw_fd(fds[1]);
            let _ = p.write_all(s.as_bytes());
            drop(p);
            _exit(0);
        }
        close(fds[1]);
        let mut t = String::new();
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut t);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        if status != 0 {
            return None;
        }
        Summary::parse(&t)
    }
}

/// runs seeds seed0, seed0+step, ... and reports violations as they happen
fn run_batch(o: &Opts) {
    let focus = o.get("focus", "C03");
    let mode = o.get("mode", default_mode(&focus));
    let w = world(&focus, &mode, o.num("tier", 2) as u8);
    let (seed0, step, count) = (o.num("seed0", 1), o.num("step", 1), o.num("count", u64::MAX));
    let deadline = Instant::now() + Duration::from_millis((o.get("time", "1e9").parse::<f64>().unwrap() * 1000.0) as u64);
    let out = o.get("out", "");
    let prog = (!out.is_empty()).then(|| std::fs::File::create(format!("{out}.prog")).expect("progress file"));
    let max_viols = o.num("max-viols", 3);
    let stop = o.get("stop", "");
    // every run in a process of its own, in which nothing ran before
    let forks = o.num("fork", 0) == 1;
    let loghash = o.num("loghash", 0) == 1;
    let mut st = Stats::default();
    let mut sigs = Bits::new();
    let mut inter = Bits::new();
    // recorded findings: class, family, part of the message
    let known: Vec<Vec<String>> = match o.0.get("known") {
        Some(p) => std::fs::read_to_string(p).expect("known").lines().map(|l| l.split('\t').map(String::from).collect()).collect(),
        None => vec![],
    };
    let mut known_seen = vec![0u64; known.len()];
    let mut seen: Vec<String> = vec![];
    let mut hist = 0u64;
    let start = Instant::now();
    let mut seed = seed0;
    let mut samples: Vec<String> = vec![];
    let mut slowest = (0, 0);
    let mut n = 0;
    while n < count && Instant::now() < deadline {
        if let Some(p) = &prog {
            let _ = p.write_all_at(&seed.to_le_bytes(), 0);
        }
        let began = Instant::now();
        let r = if forks {
            match apart(false, || summary(&w, &Tapes::new(seed, None), &focus, loghash)) {
                Some(r) => r,
                None => std::process::abort(),
            }
        } else {
            summary(&w, &Tapes::new(seed, None), &focus, loghash)
        };
        slowest = slowest.max((began.elapsed().as_millis() as u64, seed));
        n += 1;
        let c = &r.counts;
        st.runs += 1;
        st.ops += c[0];
        st.ok += c[1];
        st.err += c[2];
        st.panic += c[3];
        st.events += c[4];
        st.nested += c[5];
        st.deepest = st.deepest.max(c[18]);
        st.switches += c[6];
        for i in 0..10 {
            st.fired[i] += c[8 + i];
        }
        let interesting = c[7] > 0;
        st.nontrivial += interesting as u64;
        r.sigs.iter().for_each(|s| sigs.add(*s));
        if c[6] > 0 {
            st.threads += 1;
            inter.add(mix(r.sched, 1));
        }
        hist = mix(hist, r.hist);
        if samples.len() < 2 && interesting && seed % 7 == 3 {
            samples.push(format!(
                "seed {seed}: {} calls, {} callbacks, {} thread switches, outcomes ok/err/panic {}/{}/{}",
                c[0], c[4], c[6], c[1], c[2], c[3]
            ));
        }
        for (class, fam, msg) in &r.viols {
            if let Some(i) = known.iter().position(|k| k[0] == *class && k[1] == *fam && msg.contains(&k[2])) {
                if known_seen[i] == 0 {
                    println!("K {i} {seed} {msg}");
                }
                known_seen[i] += 1;
                continue;
            }
            let key = format!("{class}|{fam}");
            if seen.contains(&key) || seen.len() as u64 >= max_viols {
                continue;
            }
            seen.push(key);
            println!("V {seed} {class} {fam} {msg}");
            let _ = std::io::stdout().flush();
        }
        if seen.len() as u64 >= max_viols || (n % 64 == 0 && !stop.is_empty() && std::path::Path::new(&stop).exists()) {
            break;
        }
        seed += step;
    }
    if !out.is_empty() {
        sigs.write(&format!("{out}.sigs"));
        inter.write(&format!("{out}.inter"));
    }
    let faults: Vec<String> = FAULTS.iter().zip(st.fired).map(|(n, c)| format!("\"{n}\":{c}")).collect();
    let samples: Vec<String> = samples.iter().map(|s| format!("{s:?}")).collect();
    println!(
        "S {{\"build\":\"{}\",\"runs\":{},\"ops\":{},\"ok\":{},\"err\":{},\"panic\":{},\"events\":{},\"nested\":{},\"deepest\":{},\"multi_thread_runs\":{},\"switches\":{},\"nontrivial\":{},\"hist\":\"{:016x}\",\"secs\":{:.3},\"last_seed\":{},\"slowest\":[{},{}],\"types\":{},\"families\":{},\"faults\":{{{}}},\"samples\":[{}]}}",
        build_name(), st.runs, st.ops, st.ok, st.err, st.panic, st.events, st.nested, st.deepest, st.threads, st.switches, st.nontrivial,
        hist, start.elapsed().as_secs_f64(), seed, slowest.0, slowest.1, derived::TYPES, w.table.len(), faults.join(","), samples.join(",")
    );
}

/// semantic digests of blocks of runs, to be compared between builds
fn digests(o: &Opts) {
    let w = world("C12", "config", o.num("tier", 0) as u8);
    let (seed0, count, block) = (o.num("seed0", 1), o.num("count", 1000), o.num("block", 100));
    let out = o.get("out", "");
    let prog = (!out.is_empty()).then(|| std::fs::File::create(format!("{out}.prog")).expect("progress file"));
    let mut st = Stats::default();
    let mut sigs = Bits::new();
    let start = Instant::now();
    let mut d = 0;
    for i in 0..count {
        if let Some(p) = &prog {
            let _ = p.write_all_at(&(seed0 + i).to_le_bytes(), 0);
        }
        let t = Tapes::new(seed0 + i, None);
        let r = run(&w, &t);
        d = mix(d, r.digest);
        st.runs += 1;
        for a in &r.actors {
            st.ops += a.ops;
            st.ok += a.op_ok;
            st.err += a.op_err;
            st.panic += a.op_panic;
            st.events += a.events;
            st.nontrivial += (a.events > 6) as u64;
            for k in 0..10 {
                st.fired[k] += a.fired[k];
            }
            a.sigs.iter().for_each(|s| sigs.add(*s));
        }
        if (i + 1) % block == 0 || i + 1 == count {
            println!("D {} {:016x}", seed0 + i + 1 - (i % block + 1), d);
            d = 0;
        }
    }
    if !out.is_empty() {
        sigs.write(&format!("{out}.sigs"));
    }
    let faults: Vec<String> = FAULTS.iter().zip(st.fired).map(|(n, c)| format!("\"{n}\":{c}")).collect();
    println!(
        "S {{\"build\":\"{}\",\"runs\":{},\"ops\":{},\"ok\":{},\"err\":{},\"panic\":{},\"events\":{},\"nontrivial\":{},\"secs\":{:.3},\"types\":{},\"families\":{},\"faults\":{{{}}}}}",
        build_name(), st.runs, st.ops, st.ok, st.err, st.panic, st.events, st.nontrivial, start.elapsed().as_secs_f64(), derived::TYPES,
        w.table.len(), faults.join(",")
    );
}

fn head(r: &Replay, k: &str, d: &str) -> String {
    r.head.iter().find(|x| x.0 == k).map_or(d.to_string(), |x| x.1.clone())
}

/// exit status 1 if the violation the file describes happens
fn replay(p: &str, o: &Opts) -> i32 {
    let r = read_replay(p);
    let focus = head(&r, "property", "ALL");
    let mode = head(&r, "mode", "direct");
    let class = head(&r, "class", "");
    let w = world(&focus, &mode, head(&r, "tier", "2").parse().unwrap());
    let seed: u64 = head(&r, "seed", "0").parse().unwrap();
    let from: u64 = head(&r, "from", &seed.to_string()).parse().unwrap();
    let step: u64 = head(&r, "step", "1").parse().unwrap();
    let mut s = from;
    while s < seed {
        // what ran before in the same process
        run(&w, &Tapes::new(s, None));
        s += step;
    }
    let t = Tapes::new(seed, r.tapes.clone());
    let out = run(&w, &t);
    println!("D {:016x}", out.digest);
    let mut hit = false;
    for v in &out.viols {
        let mine = props_of(v).contains(&focus.as_str()) || focus == "ALL";
        println!("{} {} {} {}", if mine { "V" } else { "other" }, v.class, v.fam.replace(' ', "_"), v.msg.replace('\n', " "));
        hit |= mine && (class.is_empty() || v.class == class);
    }
    if o.num("log", 0) == 1 {
        for a in &out.actors {
            println!("caller {} (depth {}): {:?}", a.serial, a.depth, a.log);
        }
    }
    if let Some(out) = o.0.get("tapes-out") {
        let recs = lock(&t.recs).clone();
        write_replay(out, &r.head, &recs, &[]);
    }
    hit as i32
}

/// reduces the choices of a failing run while it keeps failing in the same way
fn shrink_file(p: &str, to: &str, o: &Opts) {
    let mut r = read_replay(p);
    let focus = head(&r, "property", "ALL");
    let mode = head(&r, "mode", "direct");
    let class = head(&r, "class", "");
    let fam = head(&r, "fam", "");
    let tier: u8 = head(&r, "tier", "2").parse().unwrap();
    let seed: u64 = head(&r, "seed", "0").parse().unwrap();
    let sub = o.num("sub", 0) == 1;
    let w = world(&focus, &mode, tier);
    let deadline = Instant::now() + Duration::from_secs_f64(o.get("time", "20").parse().unwrap());
    let tmp = format!("{to}.try");
    let hd = r.head.clone();
    let mut tries = 0u64;
    let mut last_msg = String::new();
    let mut test = |tapes: &HashMap<u64, Vec<u32>>| -> Option<HashMap<u64, Vec<u32>>> {
        tries += 1;
        if sub {
            write_replay(&tmp, &hd, tapes, &[]);
            let mut c = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["replay", &tmp])
                .env_remove("SIM_TAPE_LOG")
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn()
                .ok()?;
            let t0 = Instant::now();
            loop {
                if let Some(s) = c.try_wait().ok()? {
                    use std::os::unix::process::ExitStatusExt;
                    return (s.signal().is_some() && class == "CRASH" || class != "CRASH" && s.code() == Some(1)).then(|| tapes.clone());
                }
                if t0.elapsed() > Duration::from_secs(5) {
                    let _ = c.kill();
                    let _ = c.wait();
                    return (class == "HANG").then(|| tapes.clone());
                }
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        let out = apart(true, || summary(&w, &Tapes::new(seed, Some(tapes.clone())), &focus, false))?;
        let v = out.viols.iter().find(|v| v.0 == class && (fam.is_empty() || v.1 == fam))?;
        last_msg = v.2.clone();
        Some(out.tapes)
    };
    if r.tapes.is_none() {
        let s = if sub { None } else { apart(true, || summary(&w, &Tapes::new(seed, None), &focus, false)) };
        r.tapes = Some(s.map_or_else(HashMap::default, |s| s.tapes));
    }
    let mut best = match test(r.tapes.as_ref().unwrap()) {
        Some(b) => b,
        None => {
            println!("shrink: does not reproduce");
            std::process::exit(3);
        }
    };
    let mut progress = true;
    while progress && Instant::now() < deadline {
        progress = false;
        let mut ks: Vec<u64> = best.keys().copied().collect();
        ks.sort();
        for k in ks {
            // cut the tail, remove blocks, zero blocks, lower values
            let mut n = best.get(&k).map_or(0, Vec::len);
            while n > 0 && Instant::now() < deadline {
                let cur = best.get(&k).cloned().unwrap_or_default();
                let mut i = 0;
                let mut any = false;
                while i < cur.len() && Instant::now() < deadline {
                    let cur = best.get(&k).cloned().unwrap_or_default();
                    if i >= cur.len() {
                        break;
                    }
                    let j = (i + n).min(cur.len());
                    let mut done = false;
                    // remove
                    let mut v = cur.clone();
                    v.drain(i..j);
                    let mut cand = best.clone();
                    cand.insert(k, v);
                    if let Some(b) = test(&cand) {
                        if size(&b) < size(&best) {
                            best = b;
                            any = true;
                            done = true;
                        }
                    }
                    if !done && cur[i..j].iter().any(|x| *x != 0) {
                        let mut v = cur.clone();
                        v[i..j].fill(0);
                        let mut cand = best.clone();
                        cand.insert(k, v);
                        if let Some(b) = test(&cand) {
                            if size(&b) < size(&best) {
                                best = b;
                                any = true;
                                done = true;
                            }
                        }
                    }
                    if !done && n == 1 && cur[i] > 1 {
                        for x in [cur[i] / 2, cur[i] - 1, 1] {
                            let mut v = cur.clone();
                            v[i] = x;
                            let mut cand = best.clone();
                            cand.insert(k, v);
                            if let Some(b) = test(&cand) {
                                if size(&b) < size(&best) {
                                    best = b;
                                    any = true;
                                    done = true;
                                    break;
                                }
                            }
                        }
                    }
                    if !done {
                        i += n;
                    }
                }
                progress |= any;
                if !any {
                    n /= 2;
                }
            }
        }
    }
    let _ = test(&best);
    let notes = vec![format!("minimised with {tries} executions to {} choices", best.values().map(Vec::len).sum::<usize>()), last_msg.clone()];
    write_replay(to, &r.head, &best, &notes);
    let _ = std::fs::remove_file(&tmp);
    println!("shrink: {tries} tries; {}", last_msg.replace('\n', " "));
}

fn size(t: &HashMap<u64, Vec<u32>>) -> (usize, u64) {
    (t.values().map(Vec::len).sum(), t.values().flatten().map(|x| *x as u64).sum())
}
