//! C19: CityHash128 equals an independent implementation and reads only the given bytes.
use crate::city::city128;
use crate::report::Ctx;
use crate::run::*;
use clickhouse_rs_cityhash_sys::city_hash_128;
use std::sync::Arc;

/// A buffer whose last byte is followed by an inaccessible page and whose first usable byte follows one.
struct Fenced { base: *mut u8, len: usize }
const PG: usize = 4096;
impl Fenced {
    fn new(len: usize) -> Fenced {
        let pages = (len + PG - 1) / PG + 3;
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), pages * PG, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let base = p as *mut u8;
            assert_eq!(libc::mprotect(base as *mut _, PG, libc::PROT_NONE), 0);
            assert_eq!(libc::mprotect(base.add((pages - 1) * PG) as *mut _, PG, libc::PROT_NONE), 0);
            Fenced { base, len: pages * PG }
        }
    }
    /// Slice of n bytes ending exactly at the upper fence.
    fn tail(&mut self, n: usize) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.base.add(self.len - PG - n), n) } }
    /// Slice of n bytes starting exactly at the lower fence.
    fn head(&mut self, n: usize) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.base.add(PG), n) } }
}
impl Drop for Fenced { fn drop(&mut self) { unsafe { libc::munmap(self.base as *mut _, self.len); } } }

static mut SEGV_MSG: [u8; 400] = [0; 400];
static SEGV_LEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
extern "C" fn on_segv(_: i32) {
    // async-signal-safe: the message was prepared before the risky call
    unsafe {
        let n = SEGV_LEN.load(std::sync::atomic::Ordering::SeqCst);
        libc::write(1, std::ptr::addr_of!(SEGV_MSG) as *const libc::c_void, n);
        libc::_exit(1);
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a case hashes one byte string (length, content, alignment, placement against an inaccessible page) and compares both halves with an independent CityHash128 1.0.2; distinct = distinct (length, content digest)");
    ctx.assume("the independent implementation is validated against published vectors (digests in the repository's tests) at start");
    // self-check of the oracle against the repository's own known vector
    let known = city128(b"abc");
    if known != (0x900ff195577748fe, 0x13a9176355b20d7e) { eprintln!("oracle self-check failed: {:x?}", known); std::process::exit(6); }
    // an overread hits an inaccessible page: turn the signal into a verdict
    let dir = std::env::var("VP_DIR").unwrap_or("/verif".into());
    let rp = format!("{dir}/evidence/replay/C19-segv.txt");
    let _ = std::fs::create_dir_all(format!("{dir}/evidence/replay"));
    let _ = std::fs::write(&rp, "city_hash_128 touched memory outside the given bytes (SIGSEGV next to a guard page)\nrerun: bash /verif/check.sh C19\n");
    let m = format!("VIOLATION property=C19 replay={rp}\n");
    unsafe {
        let dst = std::ptr::addr_of_mut!(SEGV_MSG) as *mut u8;
        std::ptr::copy_nonoverlapping(m.as_ptr(), dst, m.len());
        SEGV_LEN.store(m.len(), std::sync::atomic::Ordering::SeqCst);
        libc::signal(libc::SIGSEGV, on_segv as *const () as usize);
        libc::signal(libc::SIGBUS, on_segv as *const () as usize);
    }
    // every length, exhaustively, at several alignments and contents
    let top = ctx.n(2200, 9000);
    cases(ctx, "len", top, 8, secs(600), |ctx, c, r| {
        let n = c as usize;
        let reps = if n < 400 { 6 } else { 3 };
        let mut f = Fenced::new(n + 64);
        for k in 0..reps {
            let data: Vec<u8> = match k { 0 => r.bytes(n), 1 => vec![0xff; n], 2 => vec![0; n], 3 => (0..n).map(|i| (i * 7) as u8 | 0x80).collect(), _ => r.bytes(n) };
            let exp = city128(&data);
            let al = r.below(16);
            let mut buf = vec![0u8; n + 16 + 16];
            buf[al..al + n].copy_from_slice(&data);
            let mut obs = vec![("aligned", city_hash_128(&buf[al..al + n]))];
            f.tail(n).copy_from_slice(&data);
            obs.push(("before fence", city_hash_128(f.tail(n))));
            f.head(n).copy_from_slice(&data);
            obs.push(("after fence", city_hash_128(f.head(n))));
            for (w, h) in obs {
                ctx.eval();
                if (h.lo, h.hi) != exp { ctx.violation("len", c, "wrong-hash", format!("{n} bytes, content {k}, {w}: got {:016x}{:016x}, expected {:016x}{:016x}; data {:?}", h.hi, h.lo, exp.1, exp.0, &data[..n.min(64)])); return; }
            }
            ctx.distinct(&(n, k, exp));
        }
    });
    cases(ctx, "rand", ctx.n(1500, 60000), 8, secs(600), |ctx, c, r| {
        let n = match r.below(4) { 0 => r.below(64), 1 => r.below(600), 2 => r.below(20_000), _ => r.below(300_000) };
        let data = if r.chance(1, 4) { let b = r.u64() as u8; vec![b; n] } else { r.bytes(n) };
        let exp = city128(&data);
        let h = city_hash_128(&data);
        ctx.eval();
        ctx.distinct(&(n, exp));
        ctx.count("bytes_hashed", n as u64);
        if (h.lo, h.hi) != exp { ctx.violation("rand", c, "wrong-hash", format!("{n} bytes: got {:016x}{:016x}, expected {:016x}{:016x}", h.hi, h.lo, exp.1, exp.0)); }
    });
    // large inputs
    cases(ctx, "big", ctx.n(3, 12), 3, secs(300), |ctx, c, r| {
        let n = (1 << 20) * (c as usize + 1) + r.below(300);
        let data = r.bytes(n);
        let exp = city128(&data);
        let h = city_hash_128(&data);
        ctx.eval();
        ctx.distinct(&(n, exp));
        if (h.lo, h.hi) != exp { ctx.violation("big", c, "wrong-hash", format!("{n} bytes differ")); }
    });
    fn secs(n: u64) -> std::time::Duration { std::time::Duration::from_secs(n) }
}
