//! File loader. The library's AVX-512 code is written against the std::arch of the project's own (older) nightly,
//! in which `_mm512_loadu_si512`/`_mm512_storeu_si512` take `*const i32`/`*mut i32`. The analysing compiler's std::arch
//! takes `*const __m512i`. To type-check the source unchanged, files below avx512bw get an explicit import (which
//! shadows their glob import) of wrappers that accept any pointee. Nothing is written to disk and line numbers are kept.
use rustc_span::source_map::{FileLoader, RealFileLoader};
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub struct ShimLoader { r: RealFileLoader }
impl ShimLoader { pub fn new() -> Self { ShimLoader { r: RealFileLoader } } }

const NAMES: &[&str] = &["_mm512_loadu_si512", "_mm512_storeu_si512"];

impl FileLoader for ShimLoader {
    fn file_exists(&self, p: &Path) -> bool { self.r.file_exists(p) }
    fn read_file(&self, p: &Path) -> io::Result<String> {
        let mut s = self.r.read_file(p)?;
        let ps = p.to_string_lossy().replace('\\', "/");
        if ps.contains("src/avx512bw") {
            if ps.ends_with("avx512bw/mod.rs") {
                s.push_str("\n#[allow(dead_code)] pub(crate) mod __vshim { use core::arch::x86_64 as a;\n\
                  #[inline] #[target_feature(enable = \"avx512f\")] pub(crate) unsafe fn _mm512_loadu_si512<T>(p: *const T) -> a::__m512i { unsafe { a::_mm512_loadu_si512(p as *const a::__m512i) } }\n\
                  #[inline] #[target_feature(enable = \"avx512f\")] pub(crate) unsafe fn _mm512_storeu_si512<T>(p: *mut T, v: a::__m512i) { unsafe { a::_mm512_storeu_si512(p as *mut a::__m512i, v) } }\n}\n");
            }
            for n in NAMES {
                if s.contains(n) && !s.contains(&format!("fn {n}")) {
                    s.push_str(&format!("\n#[allow(unused_imports)] use crate::avx512bw::__vshim::{n};\n"));
                }
            }
        }
        Ok(s)
    }
    fn read_binary_file(&self, p: &Path) -> io::Result<Arc<[u8]>> { self.r.read_binary_file(p) }
    fn current_directory(&self) -> io::Result<PathBuf> { self.r.current_directory() }
}
