//! Drives the public interface of `undname` and records what it does.
//!
//! Requests are read from standard input, one per line; one reply line is written for each and flushed
//! before the next request is executed, so that a crash or hang is attributable to the first request
//! without a reply.
//!
//!   D <flags> <hex>        demangle                    -> <outcome> <microseconds> <hex>
//!   K <flags> <hex>        demangle, and demangle_into  -> as D, with the reason of an error (see `reason`)
//!   M <flags> <hex>        demangle, up to five times   -> <outcome> <microseconds> <hex of "kept peak size">:
//!                          the least number of bytes a call left allocated after its result was dropped,
//!                          the least peak of allocated bytes during a call, the size of the result
//!   B <id> <cap> <hex>     a new caller-owned buffer   -> B <capacity>
//!   I <id> <flags> <hex>   demangle_into that buffer   -> <outcome> <cap before> <cap after> <hex contents>
//!   X <id> <hex>           append to that buffer       -> X <capacity> <hex contents>
//!
//! The outcome is O (ok), E (error) or P (panic).  All requests run on one thread with a stack of the
//! default size of a spawned thread (2 MiB), unless `--threads n` is given: then all `D` requests are
//! read first and executed by n threads at once, each in another order, with --rounds repetitions;
//! every different reply of a thread is printed once, after the number of the thread and of the
//! request and before the number of times it was seen.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};
use std::time::Instant;
use undname::Flags;

/// Counts the bytes that each thread has allocated.
struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn account(bytes: isize) {
    LIVE.with(|live| {
        let now = live.get() + bytes;
        live.set(now);
        PEAK.with(|peak| peak.set(peak.get().max(now)));
    });
}

// SAFETY: every call is handed on to the system's allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        account(layout.size() as isize);
        unsafe { System.alloc(layout) }
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        account(-(layout.size() as isize));
        unsafe { System.dealloc(p, layout) }
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        account(size as isize - layout.size() as isize);
        unsafe { System.realloc(p, layout, size) }
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// The memory of a call.  The same call is made again and again, so that what is set up once does not count.
fn measured(f: Flags, name: &str) -> (char, String) {
    let (mut outcome, mut kept, mut peak, mut size) = ('P', isize::MAX, isize::MAX, 0);
    let start = Instant::now();
    for round in 0..5 {
        if round >= 2 && start.elapsed().as_millis() > 100 {
            break;
        }
        let before = LIVE.with(Cell::get);
        PEAK.with(|x| x.set(before));
        outcome = match catch_unwind(AssertUnwindSafe(|| undname::demangle(name, f))) {
            Ok(Ok(s)) => {
                size = s.len();
                'O'
            }
            Ok(Err(_)) => 'E',
            Err(_) => 'P',
        };
        let mut left = LIVE.with(Cell::get) - before;
        let mut buffer = String::from("a buffer");
        let _ = catch_unwind(AssertUnwindSafe(|| undname::demangle_into(name, f, &mut buffer)));
        drop(buffer);
        // two calls, none of which may keep anything
        left = left.max(LIVE.with(Cell::get) - before);
        kept = kept.min(left);
        peak = peak.min(PEAK.with(Cell::get) - before);
    }
    (outcome, format!("{kept} {peak} {size}"))
}

fn unhex(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    let bytes: Vec<u8> = (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect();
    String::from_utf8(bytes).expect("requests are utf-8")
}

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".to_owned();
    }
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

/// Flags are a mask, or the names of public constants separated by commas.
fn flags(s: &str) -> Flags {
    if s.starts_with(|c: char| c.is_ascii_digit()) {
        return Flags::from_bits_retain(s.parse().expect("flags"));
    }
    s.split(',')
        .map(|x| match x {
            "NO_CALLING_CONVENTION" => Flags::NO_CALLING_CONVENTION,
            "NO_ALLOCATION_LANGUAGE" => Flags::NO_ALLOCATION_LANGUAGE,
            "NO_TAG_SPECIFIER" => Flags::NO_TAG_SPECIFIER,
            "NO_ECSU" => Flags::NO_ECSU,
            "NO_ACCESS_SPECIFIER" => Flags::NO_ACCESS_SPECIFIER,
            "NO_ACCESS_SPECIFIERS" => Flags::NO_ACCESS_SPECIFIERS,
            "NO_MEMBER_TYPE" => Flags::NO_MEMBER_TYPE,
            "NO_RETURN_TYPE" => Flags::NO_RETURN_TYPE,
            "NO_FUNCTION_RETURNS" => Flags::NO_FUNCTION_RETURNS,
            "NO_VARIABLE_TYPE" => Flags::NO_VARIABLE_TYPE,
            "NO_THISTYPE" => Flags::NO_THISTYPE,
            "NO_LEADING_UNDERSCORES" => Flags::NO_LEADING_UNDERSCORES,
            "NO_MS_KEYWORDS" => Flags::NO_MS_KEYWORDS,
            "NAME_ONLY" => Flags::NAME_ONLY,
            other => panic!("unknown flag {other}"),
        })
        .fold(Flags::default(), |a, b| a | b)
}

fn demangle(f: Flags, name: &str) -> (char, String) {
    match catch_unwind(AssertUnwindSafe(|| undname::demangle(name, f))) {
        Ok(Ok(s)) => ('O', s),
        Ok(Err(e)) => {
            // errors must be printable, too
            let _ = format!("{e} {e:?}");
            ('E', String::new())
        }
        Err(_) => ('P', String::new()),
    }
}

/// What an error says about the name: "limit" (a resource limit refused it), "reference" (it refers to
/// a name that was never memorised) or "malformed".
fn reason(e: &undname::Error) -> &'static str {
    use undname::Error as E;
    if e.to_string().is_empty() {
        return "silent";
    }
    match e {
        E::MaliciousInput => "limit",
        E::Io(io) => match io.get_ref().and_then(|x| x.downcast_ref::<E>()) {
            Some(x) => reason(x),
            None if io.kind() == std::io::ErrorKind::OutOfMemory => "limit",
            None => "malformed",
        },
        E::InvalidBackRef => "reference",
        E::Utf8Error => "utf8",
        _ => "malformed",
    }
}

fn reasoned(f: Flags, name: &str) -> (char, String) {
    let mut buffer = String::from("before");
    let r = catch_unwind(AssertUnwindSafe(|| {
        let a = undname::demangle(name, f);
        let b = undname::demangle_into(name, f, &mut buffer);
        match (a, b) {
            (Ok(s), Ok(())) => ('O', s),
            (Err(a), Err(b)) if reason(&a) == reason(&b) => ('E', reason(&a).to_owned()),
            (Err(a), Err(b)) => ('E', format!("{} and {}", reason(&a), reason(&b))),
            _ => ('E', "one of two".to_owned()),
        }
    }));
    r.unwrap_or(('P', String::new()))
}

fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    let mut buffers: HashMap<String, String> = HashMap::new();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        let w: Vec<&str> = line.split(' ').collect();
        match w[0] {
            "D" | "K" | "M" => {
                let name = unhex(w[2]);
                let t = Instant::now();
                let (o, s) = match w[0] {
                    "D" => demangle(flags(w[1]), &name),
                    "K" => reasoned(flags(w[1]), &name),
                    _ => measured(flags(w[1]), &name),
                };
                let us = t.elapsed().as_micros();
                writeln!(out, "{o} {us} {}", hex(s.as_bytes())).unwrap();
            }
            "B" => {
                let mut s = String::with_capacity(w[2].parse().expect("capacity"));
                s.push_str(&unhex(w[3]));
                writeln!(out, "B {}", s.capacity()).unwrap();
                buffers.insert(w[1].to_owned(), s);
            }
            "X" => {
                let b = buffers.get_mut(w[1]).expect("buffer");
                b.push_str(&unhex(w[2]));
                writeln!(out, "X {} {}", b.capacity(), hex(b.as_bytes())).unwrap();
            }
            "I" => {
                let b = buffers.get_mut(w[1]).expect("buffer");
                let f = flags(w[2]);
                let name = unhex(w[3]);
                let before = b.capacity();
                let r = catch_unwind(AssertUnwindSafe(|| undname::demangle_into(&name, f, b)));
                let o = match r {
                    Ok(Ok(())) => 'O',
                    Ok(Err(_)) => 'E',
                    Err(_) => 'P',
                };
                // a buffer is only handed on when it is valid text
                let valid = std::str::from_utf8(b.as_bytes()).is_ok();
                writeln!(
                    out,
                    "{} {before} {} {}",
                    if valid { o } else { 'U' },
                    b.capacity(),
                    hex(b.as_bytes())
                )
                .unwrap();
            }
            other => panic!("unknown request {other}"),
        }
        out.flush().unwrap();
    }
}

/// One walk of a thread over all requests, in an order of its own.
fn walk(
    reqs: &[(Flags, String)],
    t: usize,
    n: usize,
    round: usize,
    kept: &mut String,
    seen: &mut HashMap<(usize, char, String), u64>,
) {
    let len = reqs.len();
    for k in 0..len {
        let i = match (t + round) % 4 {
            0 => (k + t * len / n) % len,
            1 => (len - 1 - k + t) % len,
            2 => (k ^ 1).min(len - 1),
            _ => (k * 7919 + round) % len,
        };
        let (f, name) = &reqs[i];
        let (o, s) = if (round / 4 + k) % 2 == 0 {
            demangle(*f, name)
        } else {
            // the same call into a buffer that this thread keeps
            match catch_unwind(AssertUnwindSafe(|| undname::demangle_into(name, *f, kept))) {
                Ok(Ok(())) => ('O', kept.clone()),
                Ok(Err(_)) => ('E', kept.clone()),
                Err(_) => ('P', String::new()),
            }
        };
        *seen.entry((i, o, s)).or_insert(0) += 1;
    }
}

/// Every thread walks over the requests again and again; what it saw is printed once, with the number
/// of times.  There are two generations of threads.
fn threads(n: usize, rounds: usize) {
    let mut reqs: Vec<(Flags, String)> = Vec::new();
    for line in std::io::stdin().lock().lines() {
        let line = line.expect("stdin");
        let w: Vec<&str> = line.split(' ').collect();
        reqs.push((flags(w[1]), unhex(w[2])));
    }
    let reqs = Arc::new(reqs);
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for generation in 0..2 {
        let gate = Arc::new(Barrier::new(n));
        let mut handles = Vec::new();
        for t in 0..n {
            let reqs = Arc::clone(&reqs);
            let gate = Arc::clone(&gate);
            handles.push(std::thread::spawn(move || {
                let mut seen = HashMap::new();
                let mut kept = String::new();
                for round in 0..rounds {
                    if round < 4 {
                        gate.wait();
                    }
                    walk(&reqs, t, n, round + generation, &mut kept, &mut seen);
                }
                seen
            }));
        }
        for (t, h) in handles.into_iter().enumerate() {
            for ((i, o, s), times) in h.join().expect("worker thread") {
                writeln!(out, "{t} {i} {o} {} {times}", hex(s.as_bytes())).unwrap();
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .map(|i| args[i + 1].parse::<usize>().expect("number"))
    };
    if let Some(n) = opt("--threads") {
        threads(n, opt("--rounds").unwrap_or(1));
    } else {
        // the default stack size of a spawned thread, stated explicitly
        let kib = opt("--stack-kib").unwrap_or(2048);
        std::thread::Builder::new()
            .stack_size(kib * 1024)
            .spawn(serve)
            .expect("thread")
            .join()
            .expect("server thread");
    }
}
