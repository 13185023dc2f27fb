//! C05: worker threads count every fragment exactly once.
use crate::*;
use mon::dp::Trie;
use mon::gen::{self, SetOpts};
use mon::rng::Rng;
use mon::tset::{TType, ALL_TYPES};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

/// Restricts this thread, and the workers it will start, to some CPUs.
fn pin(mask: u64) -> bool {
    let m = [mask; 1];
    unsafe { sched_setaffinity(0, 8, m.as_ptr()) == 0 }
}

static NEXT_THREAD: AtomicU64 = AtomicU64::new(1);
thread_local! {
    static THREAD: Cell<u64> = Cell::new(0);
}
static DELAY_SEED: AtomicU64 = AtomicU64::new(0);
// Per-thread logs; a worker only touches its own entry, so that the monitor
// does not add synchronisation between workers.
thread_local! {
    static LOCAL: RefCell<Vec<u64>> = RefCell::new(Vec::new());
}
static ORDER: AtomicUsize = AtomicUsize::new(0);

struct Slot {
    worker: AtomicU64,
    times: AtomicU64,
    order: AtomicU64,
}

const SLOTS: usize = 1 << 16;
static mut TABLE: Vec<Slot> = Vec::new();

fn table() -> &'static [Slot] {
    unsafe { &*std::ptr::addr_of!(TABLE) }
}

/// Fragments start with their number, so that every fragment is unique.
fn fragment_id(data: &[u8]) -> Option<usize> {
    let s = std::str::from_utf8(&data[..data.len().min(12)]).ok()?;
    let (id, _) = s.strip_prefix('#')?.split_once(';')?;
    usize::from_str_radix(id, 36).ok()
}

fn observe(data: &[u8]) {
    let me = THREAD.with(|t| {
        if t.get() == 0 {
            t.set(NEXT_THREAD.fetch_add(1, Ordering::Relaxed));
        }
        t.get()
    });
    if let Some(id) = fragment_id(data) {
        if let Some(s) = table().get(id) {
            s.worker.store(me, Ordering::Relaxed);
            s.times.fetch_add(1, Ordering::Relaxed);
            s.order.store(ORDER.fetch_add(1, Ordering::Relaxed) as u64, Ordering::Relaxed);
        }
    }
    let seed = DELAY_SEED.load(Ordering::Relaxed);
    if seed != 0 {
        let mut r = Rng(seed ^ (data.len() as u64) << 20 ^ me.wrapping_mul(0x9E3779B97F4A7C15));
        match r.below(12) {
            0 => std::thread::sleep(Duration::from_micros(r.below(300) as u64)),
            1 | 2 | 3 => std::thread::yield_now(),
            4 => {
                for _ in 0..r.below(3000) {
                    std::hint::spin_loop();
                }
            }
            _ => {}
        }
    }
}

fn base36(mut n: usize) -> String {
    let mut v = Vec::new();
    loop {
        v.push(b"0123456789abcdefghijklmnopqrstuvwxyz"[n % 36]);
        n /= 36;
        if n == 0 {
            break;
        }
    }
    v.reverse();
    String::from_utf8(v).unwrap()
}

/// Reports if the whole process stops using the CPU while a case is running.
struct Watch {
    since: Mutex<Option<(Instant, String)>>,
    done: AtomicUsize,
}

fn process_ticks() -> u64 {
    mon::cli::proc_cpu(std::process::id()).0
}

pub fn parallel(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = a list of fragments tokenized through the parallel path and one after another; totals and all token, sequence and \
         pair counts must agree with each other and the shortest-path reference, and every fragment must have been received by exactly \
         one worker; CPUs (1 to 8), fragment sizes, producer pauses and worker delays vary; non-trivial if at least two workers \
         received fragments; distinct by (which worker received each fragment, in which order)",
    );
    run(ctx, false)
}

pub fn tiny(ctx: &Ctx) {
    ctx.rep.rule("the same with a handful of fragments and one set, for the slow instrumented builds (Miri)");
    run(ctx, true)
}

fn run(ctx: &Ctx, tiny: bool) {
    unsafe {
        TABLE = (0..SLOTS)
            .map(|_| Slot { worker: AtomicU64::new(0), times: AtomicU64::new(0), order: AtomicU64::new(0) })
            .collect();
    }
    let _ = JOB_OBSERVER.set(observe);
    let watch = Arc::new(Watch { since: Mutex::new(None), done: AtomicUsize::new(0) });
    if !tiny {
        let w = watch.clone();
        let out = std::env::args().skip_while(|a| a != "--out").nth(1).unwrap();
        let ctx_ptr = ctx as *const Ctx as usize;
        std::thread::spawn(move || {
            let mut last = (process_ticks(), Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                if w.done.load(Ordering::SeqCst) == 1 {
                    return;
                }
                let t = process_ticks();
                let running = w.since.lock().unwrap().clone();
                // The monitor itself uses next to no CPU.
                if t > last.0 + 2 || running.is_none() {
                    last = (t, Instant::now());
                }
                if let Some((since, what)) = running {
                    let stuck = since.elapsed() > Duration::from_secs(30) && last.1.elapsed() > Duration::from_secs(30);
                    let endless = since.elapsed() > Duration::from_secs(240);
                    if stuck || endless {
                        // The Ctx lives until main returns, which it cannot.
                        let ctx = unsafe { &*(ctx_ptr as *const Ctx) };
                        if stuck {
                            ctx.rep.violation("deadlock", &format!("{}\nno thread has used the CPU for 30 s", what), &[]);
                        } else {
                            ctx.rep.inconclusive(format!("watchdog: {}", what));
                        }
                        std::fs::write(&out, ctx.rep.to_json().to_string()).unwrap();
                        std::process::exit(0);
                    }
                }
            }
        });
    }
    let limit = ctx.rep.budget;
    let mut idx = 0u64;
    let max = if tiny { 2 } else if ctx.rep.thorough { 10_000_000 } else { 100_000 };
    while idx < max && ctx.rep.start.elapsed() < limit && !ctx.rep.stopped() {
        one(ctx, idx, tiny, &watch);
        idx += 1;
    }
    ctx.rep.count("cases run: parallel", idx);
    watch.done.store(1, Ordering::SeqCst);
    if !tiny {
        pin(u64::MAX);
    }
}

fn one(ctx: &Ctx, idx: u64, tiny: bool, watch: &Watch) {
    let mut rng = Rng::new(ctx.rep.seed, "C05/parallel", idx);
    let r = &mut rng;
    let t = if tiny { TType::Bytes } else { ALL_TYPES[idx as usize % 5] };
    let o = SetOpts { max_long: if tiny { 2 } else { 25 }, shuffle: true, multi_seqs: false };
    let many = !tiny && idx % 61 == 9;
    let base = if many { ctx.corpus.slice(r, 30_000) } else { gen::text(r, 2000, &ctx.corpus) };
    let set = if many {
        ctx.rep.count("sets of more than 1000 tokens", 1);
        let n = r.range(1040, 1800);
        gen::many_set(r, t, "raw", base.as_bytes(), n, true)
    } else {
        gen::token_set(r, t, "raw", base.as_bytes(), &o)
    };
    let n = if tiny {
        r.range(0, 7)
    } else {
        match r.below(8) {
            0 => r.below(4),
            1 => r.range(3, 12),
            2 | 3 => r.range(5, 60),
            4 | 5 => r.range(50, 400),
            6 => r.range(100, 2000),
            _ => r.range(1, 20),
        }
    };
    let uneven = r.chance(1, 3);
    let small = r.chance(1, 2) || tiny;
    let mut frags: Vec<String> = Vec::with_capacity(n);
    let mut unnumbered: Vec<usize> = Vec::new();
    for i in 0..n {
        let mut f = format!("#{};", base36(i));
        let m = if tiny {
            6
        } else if uneven && r.chance(1, 10) {
            60_000
        } else if small {
            60
        } else {
            2000
        };
        if !tiny && r.chance(1, 40) {
            // too short for a number
            f = r.pick(&["a", "\n", " ", "é", "ab", "\n\n"]).to_string();
            unnumbered.push(i);
        } else if many {
            f.push_str(&gen::text_of_tokens(r, &set, m));
        } else {
            f.push_str(&gen::text(r, m, &ctx.corpus));
        }
        frags.push(f);
    }
    let cpus = if tiny { 0 } else { *r.pick(&[1u32, 2, 2, 3, 4, 8, 8, 8]) };
    let mut pauses = Vec::new();
    if !tiny && r.chance(1, 3) {
        let slow = r.chance(1, 2);
        pauses = (0..n).map(|_| if r.chance(1, 4) { 1 } else if slow && r.chance(1, 20) { 2 + r.below(200) as u32 } else { 0 }).collect();
    }
    DELAY_SEED.store(if !tiny && r.chance(1, 2) { r.next() | 1 } else { 0 }, Ordering::Relaxed);
    let par = VecSampler { frags: frags.clone(), claimed: (1 << 25) + r.below(1 << 20) as u64, pauses };
    let seq = VecSampler::sync(frags.clone());
    let sut = to_sut(&set);
    let js = set.to_json().to_string();
    let joined = frags.join("\u{1}");
    let files: [(&str, &[u8]); 2] = [("fragments.txt", joined.as_bytes()), ("set.json", js.as_bytes())];
    let label = format!("case {}: {} fragments, {} CPUs, {}", idx, n, cpus, gen::describe(&set));
    for s in &table()[..n.max(1)] {
        s.worker.store(0, Ordering::Relaxed);
        s.times.store(0, Ordering::Relaxed);
        s.order.store(u64::MAX, Ordering::Relaxed);
    }
    ORDER.store(0, Ordering::Relaxed);
    if cpus > 0 {
        let first = if cpus == 8 { 0 } else { r.below(8 - cpus as usize + 1) as u32 };
        pin(((1u64 << cpus) - 1) << first);
    }
    *watch.since.lock().unwrap() = Some((Instant::now(), label.clone()));
    let got = guard(|| tokenize_file(&sut, &par, Some(5)));
    *watch.since.lock().unwrap() = None;
    if cpus > 0 {
        pin(0xff);
    }
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            ctx.rep.violation("panic", &format!("{}\n{}", label, e), &files);
            return;
        }
    };
    // What the workers received.
    let mut workers: HashMap<u64, u64> = HashMap::new();
    let mut sig: Vec<(u64, u64)> = Vec::new();
    let mut hooked = 0u64;
    let mut bad: Option<(usize, u64)> = None;
    for (i, s) in table()[..n].iter().enumerate() {
        let k = s.times.load(Ordering::Relaxed);
        hooked += k;
        if k != 1 && bad.is_none() && unnumbered.binary_search(&i).is_err() {
            bad = Some((i, k));
        }
        let w = s.worker.load(Ordering::Relaxed);
        if w != 0 {
            let l = workers.len() as u64;
            let w = *workers.entry(w).or_insert(l);
            sig.push((w, s.order.load(Ordering::Relaxed)));
        }
    }
    ctx.rep.count("fragments tokenized in parallel", n as u64);
    ctx.rep.count("fragments seen by the worker hook", hooked);
    ctx.rep.see("schedules (worker and position of every fragment)", &sig);
    ctx.rep.see("numbers of workers that received fragments", &workers.len());
    let key = if sig.is_empty() { vec![(u64::MAX, idx)] } else { sig };
    ctx.rep.case(&(n, &key), workers.len() >= 2 || (hooked == 0 && n > 1 && cpus > 1), || {
        format!("{}: {} workers received {} fragments, first ones by {:?}", label, workers.len(), hooked, key.iter().take(12).map(|x| x.0).collect::<Vec<_>>())
    });
    let want = match guard(|| tokenize_file(&sut, &seq, Some(5))) {
        Ok(g) => g,
        Err(e) => {
            ctx.rep.violation("panic", &format!("{} (sequential)\n{}", label, e), &files);
            return;
        }
    };
    let (cg, cw) = (counts(&got), counts(&want));
    if cg != cw {
        let mut d = String::new();
        if cg.total != cw.total {
            d.push_str(&format!("{} tokens in parallel, {} sequentially; ", cg.total, cw.total));
        }
        if cg.scanned != cw.scanned {
            d.push_str(&format!("{} bytes in parallel, {} sequentially; ", cg.scanned, cw.scanned));
        }
        for (what, x, y) in [("token", cg.tokens != cw.tokens, 0), ("sequence", cg.seqs != cw.seqs, 0), ("pair", cg.pairs != cw.pairs, 0)] {
            let _ = y;
            if x {
                d.push_str(&format!("{} counts differ; ", what));
            }
        }
        ctx.rep.violation("differ", &format!("{}\n{}", label, d), &files);
        return;
    }
    if got.initial_size != want.initial_size {
        ctx.rep.violation("differ", &format!("{}\ninitial size {:?} and {:?}", label, got.initial_size, want.initial_size), &files);
        return;
    }
    let trie = Trie::new(set.spans());
    let min: u64 = frags.iter().map(|f| trie.min_cost(f.as_bytes()).unwrap()).sum();
    let len: u64 = frags.iter().map(|f| f.len() as u64).sum();
    if cg.total != min || cg.scanned != len {
        ctx.rep.violation("wrong-total", &format!("{}\n{} tokens ({} expected), {} bytes ({} expected)", label, cg.total, min, cg.scanned, len), &files);
        return;
    }
    // Only if the hook reports at all (the call site may have been refactored
    // away).
    if hooked > 0 && hooked >= (n - unnumbered.len()) as u64 {
        if let Some((i, k)) = bad {
            ctx.rep.violation("exactly-once", &format!("{}\nfragment {} was received {} times", label, i, k), &files);
        }
    }
}
