//! Copy-on-write object memory. Pointers are (object id << 32) | offset.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Global,
    Const,
    Heap,
    Stack,
}
#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty, or one entry per byte; 0 = concrete
    pub kind: Kind,
}
const CH: usize = 64;
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    free: Vec<u32>,
    next: u32,
}
impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], free: vec![], next: 1 }
    }
    pub fn alloc(&mut self, size: u64, kind: Kind) -> u32 {
        let id = if let Some(i) = self.free.pop() {
            i
        } else {
            self.next += 1;
            self.next - 1
        };
        let c = id as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(Obj { data: vec![0; size as usize], sym: vec![], kind }));
        id
    }
    pub fn dealloc(&mut self, id: u32) {
        Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = None;
        self.free.push(id);
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Obj> {
        match self.chunks.get(id as usize / CH) {
            Some(c) => c[id as usize % CH].as_deref(),
            None => None,
        }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        match self.chunks.get_mut(id as usize / CH) {
            Some(c) => Rc::make_mut(c)[id as usize % CH].as_mut().map(|o| Rc::make_mut(o)),
            None => None,
        }
    }
}
