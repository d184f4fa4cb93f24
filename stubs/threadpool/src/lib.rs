//! Stand-in for `threadpool`: the schedule is part of the input.  Workers make progress at the
//! points where the main thread looks at the pool or blocks; which task moves, and how far
//! (taken from the queue, run, counted as finished), is chosen by the explorer.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

type Job = Box<dyn FnOnce() + Send + 'static>;
#[derive(Default)]
struct State {
    max: usize,
    queue: VecDeque<Job>,
    /// taken by a worker, not run yet
    taken: Vec<Job>,
    /// run, still counted as active
    ran: usize,
    /// being run right now
    running: usize,
    /// progress steps the explorer may still interleave
    budget: usize,
}
#[derive(Clone)]
pub struct ThreadPool(Rc<RefCell<State>>);
// everything runs on one thread
unsafe impl Send for ThreadPool {}
unsafe impl Sync for ThreadPool {}

thread_local! {
    static POOLS: RefCell<Vec<ThreadPool>> = const { RefCell::new(Vec::new()) };
}
static mut BUDGET: usize = 12;
/// how many times the explorer may choose between progress and delay
pub fn set_budget(n: usize) {
    unsafe { BUDGET = n }
}

/// A blocked thread lets the workers run; false when there is nothing left to run.
pub fn on_block() -> bool {
    let ps: Vec<ThreadPool> = POOLS.with(|p| p.borrow().clone());
    ps.iter().any(|p| p.progress())
}

impl ThreadPool {
    pub fn new(n: usize) -> ThreadPool {
        assert!(n > 0);
        let p = ThreadPool(Rc::new(RefCell::new(State { max: n, budget: unsafe { BUDGET }, ..Default::default() })));
        POOLS.with(|l| l.borrow_mut().push(p.clone()));
        p
    }
    pub fn with_name(_: String, n: usize) -> ThreadPool {
        ThreadPool::new(n)
    }
    pub fn execute<F: FnOnce() + Send + 'static>(&self, f: F) {
        self.0.borrow_mut().queue.push_back(Box::new(f));
    }
    /// one worker step, chosen by the explorer; false when all is done
    fn progress(&self) -> bool {
        let (can_take, taken, ran) = {
            let s = self.0.borrow();
            (!s.queue.is_empty() && s.taken.len() + s.ran + s.running < s.max, s.taken.len(), s.ran)
        };
        let n = can_take as usize + taken + (ran > 0) as usize;
        if n == 0 {
            return false;
        }
        let free = self.0.borrow().budget > 0;
        let mut k = if n > 1 && free {
            self.0.borrow_mut().budget -= 1;
            symrt::choose(n)
        } else {
            0
        };
        if k < taken {
            let j = self.0.borrow_mut().taken.remove(k);
            self.0.borrow_mut().running += 1;
            j();
            let mut s = self.0.borrow_mut();
            s.running -= 1;
            s.ran += 1;
            return true;
        }
        k -= taken;
        if can_take && k == 0 {
            let mut s = self.0.borrow_mut();
            let j = s.queue.pop_front().unwrap();
            s.taken.push(j);
            return true;
        }
        self.0.borrow_mut().ran -= 1;
        true
    }
    /// the workers run for a while
    fn point(&self) {
        loop {
            {
                let s = self.0.borrow();
                if s.running > 0 || s.budget == 0 || (s.queue.is_empty() && s.taken.is_empty() && s.ran == 0) {
                    return;
                }
            }
            self.0.borrow_mut().budget -= 1;
            if symrt::choose(2) == 0 {
                return;
            }
            self.progress();
        }
    }
    pub fn join(&self) {
        while self.progress() {}
    }
    pub fn active_count(&self) -> usize {
        self.point();
        let s = self.0.borrow();
        s.taken.len() + s.ran + s.running
    }
    pub fn queued_count(&self) -> usize {
        self.point();
        self.0.borrow().queue.len()
    }
    pub fn max_count(&self) -> usize {
        self.0.borrow().max
    }
    pub fn panic_count(&self) -> usize {
        self.point();
        0
    }
    pub fn set_num_threads(&mut self, n: usize) {
        self.0.borrow_mut().max = n
    }
}
pub struct Builder {
    n: usize,
}
impl Builder {
    pub fn new() -> Builder {
        Builder { n: 4 }
    }
    pub fn num_threads(mut self, n: usize) -> Builder {
        self.n = n;
        self
    }
    pub fn thread_name(self, _: String) -> Builder {
        self
    }
    pub fn build(self) -> ThreadPool {
        ThreadPool::new(self.n)
    }
}
