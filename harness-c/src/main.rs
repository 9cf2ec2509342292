//! Drives the C interface through histories of the CApi specification and records what a C caller observes.
use c_eth_kzg::*;
use serde_json::{json, Value};
use sha2::Digest;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::io::Write;
use std::os::raw::c_char;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---- allocations on behalf of the interface: everything except what the driver itself does ----
// A header before each block says on whose behalf it was made: 1 = by the caller's thread inside a call, 2 = by a
// thread of the library, 0 = by the driver.
struct Counting;
static LIVE: [AtomicI64; 3] = [AtomicI64::new(0), AtomicI64::new(0), AtomicI64::new(0)];
static BYTES: [AtomicI64; 3] = [AtomicI64::new(0), AtomicI64::new(0), AtomicI64::new(0)];
thread_local!(static OWN: Cell<u8> = const { Cell::new(2) });
fn owner() -> u8 {
    OWN.try_with(|o| o.get()).unwrap_or(2)
}
fn outer(l: Layout) -> (Layout, usize) {
    let h = l.align().max(16);
    (Layout::from_size_align(l.size() + h, h).unwrap(), h)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (o, h) = outer(l);
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        let w = owner();
        *p.add(h - 1) = w;
        LIVE[w as usize].fetch_add(1, Ordering::Relaxed);
        BYTES[w as usize].fetch_add(l.size() as i64, Ordering::Relaxed);
        p.add(h)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let (o, h) = outer(l);
        let p = q.sub(h);
        let w = (*p.add(h - 1)).min(2);
        LIVE[w as usize].fetch_sub(1, Ordering::Relaxed);
        BYTES[w as usize].fetch_sub(l.size() as i64, Ordering::Relaxed);
        if w == 1 && l.size() <= 1024 {
            // make use after release visible
            std::ptr::write_bytes(q, 0x5a, l.size());
        }
        System.dealloc(p, o)
    }
}
#[global_allocator]
static A: Counting = Counting;
/// A call through the interface.
fn theirs<T>(f: impl FnOnce() -> T) -> T {
    let old = OWN.with(|o| o.replace(1));
    let r = f();
    OWN.with(|o| o.set(old));
    r
}

struct Log {
    out: Mutex<std::io::BufWriter<std::fs::File>>,
    last: Mutex<Instant>,
    busy: Mutex<HashMap<usize, String>>,
}
impl Log {
    fn push(&self, v: Value) {
        *self.last.lock().unwrap() = Instant::now();
        writeln!(self.out.lock().unwrap(), "{v}").unwrap();
    }
}

struct Entry {
    op: String,
    blob: Vec<u8>,
    coms: Vec<Vec<u8>>,
    idx: Vec<u64>,
    cells: Vec<Vec<u8>>,
    proofs: Vec<Vec<u8>>,
    kind: String,
    digest: String,
}
fn hexlist(v: &Value) -> Vec<Vec<u8>> {
    v.as_array().map(|a| a.iter().map(|x| hex::decode(x.as_str().unwrap()).unwrap()).collect()).unwrap_or_default()
}
impl Entry {
    fn of(v: &Value) -> Entry {
        Entry {
            op: v["op"].as_str().unwrap().into(),
            blob: v["blob"].as_str().map(|s| hex::decode(s).unwrap()).unwrap_or_default(),
            coms: hexlist(&v["coms"]),
            idx: v["idx"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().parse().expect("u64")).collect()).unwrap_or_default(),
            cells: hexlist(&v["cells"]),
            proofs: hexlist(&v["proofs"]),
            kind: v["kind"].as_str().unwrap().into(),
            digest: v["digest"].as_str().unwrap().into(),
        }
    }
    fn hash(&self) -> Vec<u8> {
        let mut h = sha2::Sha256::new();
        h.update(&self.blob);
        self.coms.iter().chain(&self.cells).chain(&self.proofs).for_each(|x| h.update(x));
        self.idx.iter().for_each(|x| h.update(x.to_be_bytes()));
        h.finalize().to_vec()
    }
}
#[derive(Clone, Copy, PartialEq)]
struct Ptr(*mut DASContext);
unsafe impl Send for Ptr {}
unsafe impl Sync for Ptr {}

const PAD: usize = 16;
/// n buffers of size bytes each, apart and out of order, with guard bytes around each.
struct Out {
    mem: Vec<u8>,
    ptrs: Vec<*mut u8>,
    size: usize,
    at: Vec<usize>,
    before: u8,
}
impl Out {
    fn new(n: usize, size: usize, salt: usize, fill: u8) -> Out {
        let layout = (salt / 3) % 5;
        let stride = if layout < 3 { size } else { size + 2 * PAD + 1 };
        let mut mem = vec![0xa5u8; n * stride + size + 4 * PAD];
        let mut at: Vec<usize> = match layout {
            // one block, in order or backwards
            0 => (0..n).map(|i| i * size + PAD).collect(),
            1 => (0..n).rev().map(|i| i * size + PAD).collect(),
            // one block in order, except for one item
            2 => (0..n).map(|i| i * size + PAD).collect(),
            // odd step: a permutation of the slots (n is 1 or a power of two)
            _ => (0..n).map(|i| ((i * (2 * (salt % 61) + 1) + salt) % n) * stride + PAD).collect(),
        };
        if layout == 2 {
            at[(2 + salt % 126).min(n - 1)] = n * size + 3 * PAD;
        }
        for &a in &at {
            mem[a..a + size].fill(fill);
        }
        let base = mem.as_mut_ptr();
        let ptrs = at.iter().map(|&a| unsafe { base.add(a) }).collect();
        Out { mem, ptrs, size, at, before: fill }
    }
    fn bytes(&self) -> Vec<u8> {
        self.at.iter().flat_map(|&a| self.mem[a..a + self.size].iter().copied()).collect()
    }
    fn untouched(&self) -> bool {
        self.at.iter().all(|&a| self.mem[a..a + self.size].iter().all(|&b| b == self.before))
    }
    fn guards(&self) -> bool {
        let mut inside = vec![false; self.mem.len()];
        self.at.iter().for_each(|&a| inside[a..a + self.size].fill(true));
        self.mem.iter().zip(&inside).all(|(&b, &i)| i || b == 0xa5)
    }
}
/// The items of an argument list as C sees them: each on its own, or in one block, equal items at one address.
struct In {
    mem: Vec<u8>,
    ptrs: Vec<*const u8>,
}
impl In {
    fn new(v: &[Vec<u8>], salt: usize) -> In {
        match salt % 3 {
            0 => {
                let off = salt % 5;
                let mem: Vec<u8> = std::iter::repeat(0xa5).take(off).chain(v.iter().flatten().copied()).collect();
                let n = v.first().map_or(0, |x| x.len());
                let ptrs = (0..v.len()).map(|i| unsafe { mem.as_ptr().add(off + i * n) }).collect();
                In { mem, ptrs }
            }
            1 => In { mem: vec![], ptrs: v.iter().map(|x| v.iter().find(|y| *y == x).unwrap().as_ptr()).collect() },
            _ => In { mem: vec![], ptrs: v.iter().map(|x| x.as_ptr()).collect() },
        }
    }
    fn intact(&self, v: &[Vec<u8>]) -> bool {
        self.mem.is_empty() || v.concat() == self.mem[self.mem.len() - v.iter().map(|x| x.len()).sum::<usize>()..]
    }
}
fn arr<T>(v: &[T], null: bool) -> *const T {
    if v.is_empty() {
        if null { std::ptr::null() } else { std::ptr::NonNull::<T>::dangling().as_ptr() }
    } else {
        v.as_ptr()
    }
}
struct Ret {
    status: &'static str,
    msg: *mut c_char,
    out: &'static str,
    outside: bool,
    inputs: bool,
    flag: u8,
    flag0: u8,
}
/// One call, and everything a C caller can see of it.
fn call(c: Ptr, e: &Entry, salt: usize) -> Ret {
    let h0 = e.hash();
    let null = salt % 2 == 0;
    let flag0 = (salt / 2 % 2) as u8;
    let fill = [0u8, 0xff, 0x77][salt % 3];
    let (mut flag, mut outside) = (flag0, false);
    let (mut o1, mut o2): (Option<Out>, Option<Out>) = (None, None);
    let r = match e.op.as_str() {
        "commit" => {
            let o = Out::new(1, 48, salt, fill);
            // the blob at an address without alignment
            let mut b = vec![0u8; e.blob.len() + 8];
            let k = salt % 8;
            b[k..k + e.blob.len()].copy_from_slice(&e.blob);
            let p = o.ptrs[0];
            let r = theirs(|| eth_kzg_blob_to_kzg_commitment(c.0, b[k..].as_ptr(), p));
            outside |= b[k..k + e.blob.len()] != e.blob[..];
            o1 = Some(o);
            r
        }
        "compute" | "recover" => {
            let (mut a, mut b) = (Out::new(128, 2048, salt, fill), Out::new(128, 48, salt / 7, fill));
            let (pa, pb) = (a.ptrs.clone(), b.ptrs.clone());
            let (qa, qb) = (a.ptrs.as_mut_ptr(), b.ptrs.as_mut_ptr());
            let r = if e.op == "compute" {
                theirs(|| eth_kzg_compute_cells_and_kzg_proofs(c.0, e.blob.as_ptr(), qa, qb))
            } else {
                let i = In::new(&e.cells, salt);
                let cs = &i.ptrs;
                let r = theirs(|| eth_kzg_recover_cells_and_proofs(c.0, cs.len() as u64, arr(cs, null), e.idx.len() as u64, arr(&e.idx, null), qa, qb));
                outside |= !i.intact(&e.cells);
                r
            };
            outside |= a.ptrs != pa || b.ptrs != pb;
            o1 = Some(a);
            o2 = Some(b);
            r
        }
        _ => {
            let (ci, li, pi) = (In::new(&e.coms, salt), In::new(&e.cells, salt / 2), In::new(&e.proofs, salt / 4));
            let (co, ce, pr) = (&ci.ptrs, &li.ptrs, &pi.ptrs);
            let mut f = [0xa5u8, flag0, 0xa5];
            let p = unsafe { f.as_mut_ptr().add(1) } as *mut bool;
            let r = theirs(|| {
                eth_kzg_verify_cell_kzg_proof_batch(
                    c.0, co.len() as u64, arr(co, null), e.idx.len() as u64, arr(&e.idx, !null), ce.len() as u64, arr(ce, null), pr.len() as u64, arr(pr, !null), p,
                )
            });
            flag = f[1];
            outside |= !ci.intact(&e.coms) || !li.intact(&e.cells) || !pi.intact(&e.proofs);
            outside |= f[0] != 0xa5 || f[2] != 0xa5;
            r
        }
    };
    let outs: Vec<&Out> = o1.iter().chain(o2.iter()).collect();
    outside |= outs.iter().any(|o| !o.guards());
    let mut h = sha2::Sha256::new();
    outs.iter().for_each(|o| h.update(o.bytes()));
    let out = if outs.is_empty() || outs.iter().all(|o| o.untouched()) {
        "old"
    } else if hex::encode(h.finalize()) == e.digest {
        "lib"
    } else {
        "other"
    };
    let status = unsafe { *(&r.status as *const CResultStatus as *const u8) };
    Ret { status: if status == 0 { "ok" } else { "err" }, msg: r.error_msg, out, outside, inputs: e.hash() == h0, flag, flag0 }
}
/// Contents of a message, read the way C reads it; at most 1 MB.
fn text(p: *const c_char) -> Vec<u8> {
    let mut v = vec![];
    unsafe {
        while *p.add(v.len()) != 0 && v.len() < 1 << 20 {
            v.push(*p.add(v.len()) as u8);
        }
    }
    v
}
struct Msg {
    p: *mut c_char,
    id: usize,
    text: Vec<u8>,
}
static MSGS: AtomicUsize = AtomicUsize::new(1);
/// Messages not yet released, by address: a second message at the address of a live one is the same object.
static LIVEMSG: Mutex<Option<HashMap<usize, usize>>> = Mutex::new(None);
fn msg_id(p: *const c_char) -> usize {
    *LIVEMSG.lock().unwrap().get_or_insert_with(HashMap::new).entry(p as usize).or_insert_with(|| MSGS.fetch_add(1, Ordering::SeqCst))
}
static SALT: AtomicUsize = AtomicUsize::new(1);

struct Run<'a> {
    entries: &'a [Entry],
    log: &'a Log,
}
impl Run<'_> {
    fn release(&self, th: usize, m: Msg) {
        let same = text(m.p) == m.text;
        self.log.push(json!({"e": "freemsg", "t": th, "m": m.id, "same": same}));
        LIVEMSG.lock().unwrap().as_mut().unwrap().remove(&(m.p as usize));
        theirs(|| unsafe { eth_kzg_free_error_message(m.p) });
    }
    fn new_ctx(&self, th: usize, slot: u64, pre: bool, n: u32) -> Ptr {
        self.log.busy.lock().unwrap().insert(th, format!("new context, precomputation {pre}, {n} threads"));
        let c = Ptr(theirs(|| eth_kzg_das_context_new(pre, n)));
        self.log.busy.lock().unwrap().remove(&th);
        self.log.push(json!({"e": "new", "t": th, "slot": slot, "null": c.0.is_null()}));
        c
    }
    fn free_ctx(&self, th: usize, slot: u64, c: Ptr) {
        self.log.push(json!({"e": "free", "t": th, "slot": slot}));
        theirs(|| eth_kzg_das_context_free(c.0));
    }
    fn program(&self, th: usize, prog: &[Value], shared: &[Ptr]) {
        let mut mine: HashMap<u64, Ptr> = HashMap::new();
        let (mut keep, mut later): (Vec<Msg>, Vec<Msg>) = (vec![], vec![]);
        for it in prog {
            match it[0].as_str().unwrap() {
                "new" => {
                    let s = it[1].as_u64().unwrap();
                    let c = self.new_ctx(th, s, it[2].as_bool().unwrap(), it[3].as_u64().unwrap() as u32);
                    mine.insert(s, c);
                }
                "free" => {
                    let s = it[1].as_u64().unwrap();
                    let c = mine.remove(&s).unwrap();
                    self.free_ctx(th, s, c);
                }
                "freelater" => {
                    // newest first, so that the order of release is not the order of receipt
                    while let Some(m) = later.pop() {
                        self.release(th, m);
                    }
                    theirs(|| unsafe { eth_kzg_free_error_message(std::ptr::null_mut()) });
                    theirs(|| eth_kzg_das_context_free(std::ptr::null_mut()));
                }
                _ => {
                    let (s, n) = (it[1].as_u64().unwrap(), it[2].as_u64().unwrap() as usize);
                    let c = mine.get(&s).copied().unwrap_or_else(|| shared[s as usize - 1]);
                    let e = &self.entries[n - 1];
                    self.log.busy.lock().unwrap().insert(th, format!("{} (entry {n}) on slot {s}", e.op));
                    self.log.push(json!({"e": "begin", "t": th, "slot": s, "entry": n}));
                    let r = call(c, e, SALT.fetch_add(1, Ordering::Relaxed));
                    self.log.busy.lock().unwrap().remove(&th);
                    let id = if r.msg.is_null() { 0 } else { msg_id(r.msg) };
                    let t = if r.msg.is_null() { vec![] } else { text(r.msg) };
                    let kind = if r.msg.is_null() { "null" } else if t.is_empty() { "empty" } else { "text" };
                    self.log.push(json!({"e": "end", "t": th, "slot": s, "entry": n, "op": e.op, "lib": e.kind, "status": r.status, "msg": kind, "m": id, "out": r.out,
                        "outside": r.outside, "inputs": r.inputs, "flag": r.flag, "flag0": r.flag0,
                        "text": String::from_utf8_lossy(&t[..t.len().min(100)])}));
                    if id != 0 {
                        let m = Msg { p: r.msg, id, text: t };
                        match it[3].as_str().unwrap() {
                            "now" => self.release(th, m),
                            "keep" => keep.push(m),
                            _ => later.push(m),
                        }
                    }
                }
            }
        }
        for m in keep.into_iter().chain(later) {
            self.release(th, m);
        }
    }
    /// What is still allocated after each of five blocks of k repetitions of something that leaves nothing behind. A
    /// suspicion is confirmed with larger blocks.
    fn growth(&self, th: usize, what: Value, k: usize, base: usize, f: &dyn Fn()) {
        let mut k = k;
        let session = what["op"] == "session";
        for round in 0..3 {
            let mut live = vec![];
            self.log.busy.lock().unwrap().insert(th, what.to_string());
            for _ in 0..5 {
                for _ in 0..k {
                    f();
                }
                settle(base);
                let at = |a: &[AtomicI64; 3], i: usize| a[i].load(Ordering::SeqCst);
                live.push([at(&LIVE, 1), at(&BYTES, 1), at(&LIVE, 2), at(&BYTES, 2), heap_bytes()]);
            }
            self.log.busy.lock().unwrap().remove(&th);
            let d = |i: usize| live.windows(2).map(|w| w[1][i] - w[0][i]).collect::<Vec<i64>>();
            let all = |i: usize, n: usize| d(i).iter().all(|&x| x >= (n * k) as i64);
            // by the caller's thread: any block; by the pool's threads: its own bookkeeping (deferred reclamation) apart
            let suspect = all(0, 1) || if session { all(3, 65536) } else { all(2, 1) } || (what["lib"] == "err" && all(4, 16));
            let mut v = what.clone();
            v.as_object_mut().unwrap().extend(
                json!({"e": "balance", "calls": k, "blocks": d(0), "bytes": d(1), "pool_blocks": d(2), "pool_bytes": d(3), "heap": d(4), "round": round, "final": !suspect || round == 2, "leak": suspect})
                    .as_object().unwrap().clone(),
            );
            self.log.push(v);
            if !suspect {
                break;
            }
            k *= 4;
        }
    }
    fn balance(&self, c: Ptr, th: usize, base: usize) {
        for (n, e) in self.entries.iter().enumerate() {
            let k = if e.kind == "ok" && (e.op == "compute" || e.op == "recover") { 2 } else if e.op == "commit" || e.op == "verify" { 8 } else { 4 };
            self.growth(th, json!({"op": e.op, "lib": e.kind, "entry": n + 1}), k, base + 2, &|| {
                let r = call(c, e, SALT.fetch_add(1, Ordering::Relaxed));
                if !r.msg.is_null() {
                    theirs(|| unsafe { eth_kzg_free_error_message(r.msg) });
                }
            });
        }
    }
    /// Whole sessions: a context, calls on it, messages released before and after it.
    fn sessions(&self, th: usize, base: usize) {
        let bad: Vec<&Entry> = self.entries.iter().filter(|e| e.kind == "err" && e.op != "compute").collect();
        for (pre, n) in [(false, 1), (false, 3), (true, 1), (false, 0)] {
            self.growth(th, json!({"op": "session", "lib": format!("precomputation {pre}, {n} threads"), "entry": 0}), if pre { 1 } else { 2 }, base, &|| {
                let c = Ptr(theirs(|| eth_kzg_das_context_new(pre, n)));
                let mut held = vec![];
                for i in 0..6 {
                    let s = SALT.fetch_add(1, Ordering::Relaxed);
                    let r = call(c, bad[(s + i) % bad.len()], s);
                    if !r.msg.is_null() {
                        held.push(r.msg);
                    }
                }
                for m in held.drain(3..) {
                    theirs(|| unsafe { eth_kzg_free_error_message(m) });
                }
                theirs(|| eth_kzg_das_context_free(c.0));
                for m in held {
                    theirs(|| unsafe { eth_kzg_free_error_message(m) });
                }
            });
        }
    }
}
#[repr(C)]
struct Mallinfo2([usize; 10]);
extern "C" {
    fn mallinfo2() -> Mallinfo2;
}
/// Bytes in use on the C heap, whoever asked for them.
fn heap_bytes() -> i64 {
    unsafe { mallinfo2().0[7] as i64 }
}
fn threads_now() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}
fn settle(n: usize) -> bool {
    let t = Instant::now();
    while threads_now() > n {
        if t.elapsed() > Duration::from_secs(20) {
            return false;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    true
}

fn main() {
    OWN.with(|o| o.set(0));
    let mut opts: HashMap<String, String> = HashMap::new();
    let mut files = vec![];
    for x in std::env::args().skip(1) {
        match x.strip_prefix("--") {
            Some(r) => {
                let (k, v) = r.split_once('=').unwrap_or((r, "1"));
                opts.insert(k.into(), v.into());
            }
            None => files.push(x),
        }
    }
    files.retain(|f| f != "c");
    let get = |k: &str, d: &str| opts.get(k).cloned().unwrap_or_else(|| d.into());
    let reps: usize = get("reps", "1").parse().unwrap();
    let limit: u64 = get("steplimit", "240").parse().unwrap();
    let mode = get("mode", "results");
    let log = Arc::new(Log {
        out: Mutex::new(std::io::BufWriter::new(std::fs::File::create(get("trace", "trace.ndjson")).expect("trace"))),
        last: Mutex::new(Instant::now()),
        busy: Default::default(),
    });
    let w = log.clone();
    std::thread::spawn(move || {
        OWN.with(|o| o.set(0));
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let busy: Vec<String> = w.busy.lock().unwrap().values().cloned().collect();
            if !busy.is_empty() && w.last.lock().unwrap().elapsed().as_secs() > limit {
                println!("{}", json!({"runs": 0, "steps": 0, "fails": [{"case": 0, "step": 0, "why": format!("calls did not return within {limit} s: {busy:?}")}], "samples": []}));
                std::process::exit(0);
            }
        }
    });
    // process-wide threads of the library and of what it uses start with the first calls
    if let Some(line) = files.first().and_then(|f| std::fs::read_to_string(f).ok()?.lines().next().map(String::from)) {
        let case: Value = serde_json::from_str(&line).expect("case");
        let warm = Ptr(theirs(|| eth_kzg_das_context_new(true, 1)));
        let mut seen = std::collections::HashSet::new();
        for e in case["entries"].as_array().unwrap().iter().filter(|e| e["callable"] == true).map(Entry::of) {
            if e.kind == "ok" && (e.op != "verify" || e.cells.len() > 1) && seen.insert(e.op.clone()) {
                call(warm, &e, 1);
            }
        }
        theirs(|| eth_kzg_das_context_free(warm.0));
    }
    let mut base = 0;
    let mut since = Instant::now();
    while base != threads_now() || since.elapsed() < Duration::from_millis(300) {
        if base != threads_now() {
            base = threads_now();
            since = Instant::now();
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let journal = get("journal", "");
    let (mut runs, mut steps) = (0, 0);
    let consts = [eth_kzg_constant_bytes_per_cell(), eth_kzg_constant_bytes_per_proof(), eth_kzg_constant_cells_per_ext_blob()];
    let mut ci = 0;
    for f in &files {
        for line in std::fs::read_to_string(f).expect("cases").lines().filter(|l| !l.trim().is_empty()) {
            let case: Value = serde_json::from_str(line).expect("case");
            let entries: Vec<Entry> = case["entries"].as_array().unwrap().iter().filter(|e| e["callable"] == true).map(Entry::of).collect();
            assert_eq!(entries.len(), case["entries"].as_array().unwrap().len(), "every C argument list is callable");
            let progs: Vec<Vec<Value>> = case["progs"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().clone()).collect();
            if !journal.is_empty() {
                std::fs::write(&journal, format!("{ci}")).unwrap();
            }
            let run = Run { entries: &entries, log: &log };
            let run = &run;
            log.push(json!({"e": "case", "case": ci, "id": case["id"], "plan": case["plan"], "mode": mode, "consts": consts, "flow": 1}));
            if mode == "balance" {
                let c = run.new_ctx(0, 1, false, 2);
                run.balance(c, 0, base);
                run.free_ctx(0, 1, c);
                run.sessions(0, base);
                runs += 1;
                steps += entries.len();
            } else {
                for rep in 0..reps {
                    // shared contexts are made by one thread and released by another
                    let shared: Vec<Ptr> = case["shared"].as_array().unwrap().iter().enumerate()
                        .map(|(i, s)| run.new_ctx(0, i as u64 + 1, s[0].as_bool().unwrap(), s[1].as_u64().unwrap() as u32)).collect();
                    let sh = &shared;
                    std::thread::scope(|s| {
                        for (th, p) in progs.iter().enumerate() {
                            s.spawn(move || {
                                OWN.with(|o| o.set(0));
                                run.program(th + 1, p, sh)
                            });
                        }
                    });
                    std::thread::scope(|s| {
                        s.spawn(|| {
                            OWN.with(|o| o.set(0));
                            for (i, c) in shared.iter().enumerate() {
                                run.free_ctx(0, i as u64 + 1, *c);
                            }
                        });
                    });
                    let quiet = settle(base);
                    log.push(json!({"e": "quiet", "rep": rep, "threads_gone": quiet}));
                    runs += 1;
                    steps += progs.iter().map(|p| p.len()).sum::<usize>();
                }
            }
            ci += 1;
        }
    }
    log.push(json!({"e": "done"}));
    log.out.lock().unwrap().flush().unwrap();
    println!("{}", json!({"runs": runs, "steps": steps, "fails": [], "samples": []}));
}
