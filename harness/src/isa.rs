//! EZK_ISA=scalar|avx2 makes this process believe that the CPU has no AVX2 (no AVX-512), so that
//! the crate takes the code paths it takes on such machines.
//!
//! The standard library caches what CPUID said in a static; the bits of a feature are found there
//! by clearing one after the other and asking again. Where that does not work out the process goes
//! on with everything the CPU has, `effective` says what came of it.

use std::ptr::{read_volatile, write_volatile};

#[cfg(target_arch = "x86_64")]
mod x86 {
    use super::*;

    unsafe extern "C" fn bias(i: *mut libc::dl_phdr_info, _: usize, out: *mut libc::c_void) -> libc::c_int {
        // the first object is the executable itself
        *(out as *mut u64) = (*i).dlpi_addr;
        1
    }

    /// address and size of std_detect's cache
    fn cache() -> Option<(u64, u64)> {
        let f = std::fs::read("/proc/self/exe").ok()?;
        let u16_ = |o: usize| Some(u16::from_le_bytes(f.get(o..o + 2)?.try_into().ok()?) as usize);
        let u32_ = |o: usize| Some(u32::from_le_bytes(f.get(o..o + 4)?.try_into().ok()?) as usize);
        let u64_ = |o: usize| Some(u64::from_le_bytes(f.get(o..o + 8)?.try_into().ok()?) as usize);
        if f.get(..5)? != b"\x7fELF\x02" {
            return None;
        }
        let (shoff, shent, shnum) = (u64_(0x28)?, u16_(0x3a)?, u16_(0x3c)?);
        for s in 0..shnum {
            let h = shoff + s * shent;
            if u32_(h + 4)? != 2 {
                continue; // not a symbol table
            }
            let (off, size, link) = (u64_(h + 0x18)?, u64_(h + 0x20)?, u32_(h + 0x28)?);
            let names = u64_(shoff + link * shent + 0x18)?;
            for i in 0..size / 24 {
                let e = off + i * 24;
                let n = names + u32_(e)?;
                let n = &f[n..n + f[n..].iter().position(|b| *b == 0)?];
                let has = |p: &str| n.windows(p.len()).any(|w| w == p.as_bytes());
                if has("std_detect") && has("cache") && n.ends_with(b"5CACHE") || has("std_detect") && has("cache5CACHE17h") {
                    let mut b = 0u64;
                    unsafe { libc::dl_iterate_phdr(Some(bias), &mut b as *mut u64 as *mut libc::c_void) };
                    return Some((b + u64_(e + 8)? as u64, u64_(e + 16)? as u64));
                }
            }
        }
        None
    }

    fn hide(at: u64, len: u64, seen: fn() -> bool) {
        if !seen() {
            return;
        }
        for w in 0..len / 8 {
            let p = (at + w * 8) as *mut u64;
            for bit in 0..62 {
                unsafe {
                    let v = read_volatile(p);
                    let n = v & !(1 << bit);
                    if n == v {
                        continue;
                    }
                    write_volatile(p, n);
                    if !seen() {
                        return;
                    }
                    write_volatile(p, v);
                }
            }
        }
    }

    pub fn apply(isa: &str) {
        let Some((at, len)) = cache() else { return };
        if !(8..=64).contains(&len) || at % 8 != 0 {
            return;
        }
        let _ = is_x86_feature_detected!("sse");
        hide(at, len, || is_x86_feature_detected!("avx512f"));
        hide(at, len, || is_x86_feature_detected!("avx512bw"));
        if isa == "scalar" {
            hide(at, len, || is_x86_feature_detected!("avx2"));
            hide(at, len, || is_x86_feature_detected!("fma"));
        }
    }

    pub fn effective() -> &'static str {
        if is_x86_feature_detected!("avx512f") && is_x86_feature_detected!("avx512bw") && cfg!(feature = "unstable") {
            "avx512"
        } else if is_x86_feature_detected!("avx2") && is_x86_feature_detected!("fma") {
            "avx2"
        } else {
            "scalar"
        }
    }
}

pub fn setup() {
    #[cfg(target_arch = "x86_64")]
    if let Ok(isa) = std::env::var("EZK_ISA") {
        x86::apply(&isa);
    }
}

pub fn effective() -> &'static str {
    #[cfg(target_arch = "x86_64")]
    return x86::effective();
    #[cfg(not(target_arch = "x86_64"))]
    "other"
}
