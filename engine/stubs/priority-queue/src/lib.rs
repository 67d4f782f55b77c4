//! A priority queue with changeable priorities and the interface of priority-queue.
use std::{hash::Hash, marker::PhantomData};

#[derive(Debug, Clone)]
pub struct PriorityQueue<I, P, H = std::collections::hash_map::RandomState> {
    items: Vec<(I, P)>,
    hasher: PhantomData<H>,
}

impl<I, P, H> Default for PriorityQueue<I, P, H> {
    fn default() -> Self {
        PriorityQueue { items: vec![], hasher: PhantomData }
    }
}

impl<I: Hash + Eq, P: Ord, H> PriorityQueue<I, P, H> {
    pub fn push(&mut self, item: I, priority: P) -> Option<P> {
        match self.items.iter_mut().find(|(i, _)| *i == item) {
            Some((_, p)) => Some(std::mem::replace(p, priority)),
            None => {
                self.items.push((item, priority));
                None
            }
        }
    }
    pub fn pop(&mut self) -> Option<(I, P)> {
        let best = (0..self.items.len()).reduce(|a, b| if self.items[b].1 > self.items[a].1 { b } else { a })?;
        Some(self.items.swap_remove(best))
    }
    pub fn change_priority_by(&mut self, item: &I, f: impl FnOnce(&mut P)) -> bool {
        match self.items.iter_mut().find(|(i, _)| i == item) {
            Some((_, p)) => {
                f(p);
                true
            }
            None => false,
        }
    }
    pub fn clear(&mut self) {
        self.items.clear();
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&I, &P)> {
        self.items.iter().map(|(i, p)| (i, p))
    }
}
