//! A process of its own for part of the scenarios.
extern "C" {
    #[link_name = "fork"]
    fn c_fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn prctl(option: i32, arg2: usize, arg3: usize, arg4: usize, arg5: usize) -> i32;
}
/// None in the child
pub fn fork() -> Option<i32> {
    unsafe {
        match c_fork() {
            -1 => panic!("fork failed"),
            0 => {
                prctl(1, 9, 0, 0, 0); // PR_SET_PDEATHSIG, SIGKILL
                None
            }
            pid => Some(pid),
        }
    }
}
/// waits for the child; if it failed, so does this process
pub fn wait(pid: i32) {
    let mut st = 0;
    unsafe {
        while waitpid(pid, &mut st, 0) != pid {}
    }
    if st != 0 {
        let code = if st & 0x7f != 0 { 128 + (st & 0x7f) } else { (st >> 8) & 0xff };
        std::process::exit(if code == 0 { 1 } else { code });
    }
}
