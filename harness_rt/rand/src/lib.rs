//! Stand-in for the `rand` crate: what the applications draw is chosen by the driver.
use std::cell::RefCell;

std::thread_local! {
    static SOURCE: RefCell<Box<dyn FnMut() -> u64>> = RefCell::new(Box::new(|| 4));
}

pub fn set_source(source: Box<dyn FnMut() -> u64>) {
    SOURCE.with(|s| *s.borrow_mut() = source);
}

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u32() as u8;
        }
    }
}

pub mod rngs {
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
    impl super::RngCore for OsRng {
        fn next_u32(&mut self) -> u32 {
            self.next_u64() as u32
        }
        fn next_u64(&mut self) -> u64 {
            super::SOURCE.with(|s| (s.borrow_mut())())
        }
    }
}
