//! Discrete-event core: a queue ordered by (simulated time, sequence number).
use std::cmp::Reverse;
use std::collections::BinaryHeap;

pub struct Queue<E> {
    heap: BinaryHeap<Reverse<(u64, u64, usize)>>,
    events: Vec<Option<E>>,
    pub now: u64,
    seq: u64,
}

impl<E> Queue<E> {
    pub fn new() -> Self {
        Queue { heap: BinaryHeap::new(), events: vec![], now: 0, seq: 0 }
    }
    pub fn at(&mut self, time: u64, e: E) {
        self.events.push(Some(e));
        self.heap.push(Reverse((time.max(self.now), self.seq, self.events.len() - 1)));
        self.seq += 1;
    }
    pub fn after(&mut self, delay: u64, e: E) {
        self.at(self.now + delay, e)
    }
    pub fn next(&mut self) -> Option<E> {
        let Reverse((time, _, i)) = self.heap.pop()?;
        self.now = time;
        self.events[i].take()
    }
}
