//! The WASI host functions chiwawa links against, as stand-ins that touch nothing outside this process.
//! `__wasi_path_filestat_get` is what the checkpoint poll asks; TRIGGER counts the polls until it says yes.
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
pub static TRIGGER: AtomicI64 = AtomicI64::new(i64::MAX);
pub static POLLS: AtomicI64 = AtomicI64::new(0);

#[no_mangle]
pub extern "C" fn __wasi_path_filestat_get(_fd: u32, _flags: u32, _path: *const u8, _st: *mut u8) -> u16 {
    POLLS.fetch_add(1, Relaxed);
    if TRIGGER.fetch_sub(1, Relaxed) == 0 {
        0
    } else {
        44
    }
}
macro_rules! no {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n() -> u16 { 52 })* };
}
no! { __wasi_fd_write __wasi_args_sizes_get __wasi_args_get __wasi_fd_read __wasi_random_get __wasi_environ_sizes_get
    __wasi_environ_get __wasi_clock_time_get __wasi_clock_res_get __wasi_fd_close __wasi_fd_sync __wasi_fd_datasync
    __wasi_fd_prestat_get __wasi_fd_prestat_dir_name __wasi_fd_fdstat_get __wasi_fd_seek __wasi_fd_tell __wasi_fd_fdstat_set_flags
    __wasi_fd_filestat_set_size __wasi_fd_filestat_get __wasi_path_create_directory __wasi_path_remove_directory
    __wasi_path_unlink_file __wasi_path_readlink __wasi_path_filestat_set_times __wasi_path_open __wasi_poll_oneoff
    __wasi_fd_readdir __wasi_fd_pread __wasi_fd_pwrite __wasi_proc_raise __wasi_fd_advise __wasi_fd_allocate
    __wasi_fd_fdstat_set_rights __wasi_fd_renumber __wasi_fd_filestat_set_times __wasi_path_link __wasi_path_rename
    __wasi_path_symlink __wasi_sock_accept __wasi_sock_recv __wasi_sock_send __wasi_sock_shutdown }
#[no_mangle]
pub extern "C" fn __wasi_proc_exit(_c: u32) {
    panic!("proc_exit")
}
/// harmless and without arguments: the guest calls it to go through the host-call path
#[no_mangle]
pub extern "C" fn __wasi_sched_yield() -> u16 {
    7
}
