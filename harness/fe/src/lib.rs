//! Entry points through which the symbolic executor (and the native replay) call the front end's text functions.
#[path = "utils.rs"]
pub mod utils;

unsafe fn give(v: &[u8], out: *mut u8) -> usize {
    for (i, b) in v.iter().enumerate() {
        *out.add(i) = *b;
    }
    v.len()
}

unsafe fn text<'a>(p: *const u8, n: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
}

#[no_mangle]
pub unsafe extern "C" fn fe_remove_comments(p: *const u8, n: usize, out: *mut u8) -> usize {
    give(utils::remove_comments(text(p, n)).as_bytes(), out)
}

#[no_mangle]
pub unsafe extern "C" fn fe_unescape(p: *const u8, n: usize, out: *mut u8) -> usize {
    give(utils::unescape_str_wrap_error(text(p, n)).as_bytes(), out)
}

#[no_mangle]
pub unsafe extern "C" fn fe_merge(p: *const u8, n: usize, out: *mut u8) -> usize {
    give(&utils::merge_sub_wasm_with_length_prefix(std::slice::from_raw_parts(p, n)), out)
}

/// The buffers of the native replay.
#[no_mangle]
pub extern "C" fn fe_buffer(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}
