mod cases; mod extra; mod kit; mod more; mod spec; mod sx; mod tables;
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_entry(case: u32, param: u32) { cases::entry(case, param) }
