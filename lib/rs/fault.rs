// a full disk, for this process's files only: soft RLIMIT_FSIZE while the guard lives
mod fault {
    #[repr(C)] struct Rl { cur: u64, max: u64 }
    extern "C" { fn getrlimit(r: i32, l: *mut Rl) -> i32; fn setrlimit(r: i32, l: *const Rl) -> i32; fn signal(s: i32, h: usize) -> usize; }
    pub struct Full(u64);
    impl Full {
        pub fn at(n: u64) -> Full { unsafe {
            signal(25, 1);
            let mut l = Rl { cur: 0, max: 0 };
            assert_eq!(getrlimit(1, &mut l), 0);
            let old = l.cur;
            l.cur = n.min(l.max);
            assert_eq!(setrlimit(1, &l), 0);
            Full(old)
        } }
    }
    impl Drop for Full { fn drop(&mut self) { unsafe { let mut l = Rl { cur: 0, max: 0 }; getrlimit(1, &mut l); l.cur = self.0; assert_eq!(setrlimit(1, &l), 0); } } }
}
