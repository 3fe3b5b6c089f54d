//! Copy-on-write object memory.  A pointer is (object id << 32) | offset.
use std::collections::HashMap;
use std::rc::Rc;
#[derive(Clone, Debug, Default)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<u32> }
impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: vec![] } }
    #[inline] pub fn has_sym(&self, o: usize, n: usize) -> bool { !self.sym.is_empty() && self.sym[o..o + n].iter().any(|x| *x != 0) }
}
const CH: usize = 32;
#[derive(Clone)]
pub struct Chunk { o: [Option<Rc<Obj>>; CH] }
#[derive(Clone)]
pub struct Mem { pub base: u32, chunks: Vec<Rc<Chunk>>, next: u32, free: Vec<u32>, pub glob: HashMap<u32, Rc<Obj>, crate::expr::BuildFx>, pub live: usize, pub bytes: usize }
impl Mem {
    pub fn new(base: u32) -> Mem { Mem { base, chunks: vec![], next: 0, free: vec![], glob: HashMap::default(), live: 0, bytes: 0 } }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        self.live += 1; self.bytes += o.data.len();
        let i = if let Some(i) = self.free.pop() { i } else { let i = self.next; self.next += 1; i };
        let c = i as usize / CH;
        if c >= self.chunks.len() { self.chunks.push(Rc::new(Chunk { o: Default::default() })); }
        Rc::make_mut(&mut self.chunks[c]).o[i as usize % CH] = Some(Rc::new(o));
        self.base + i
    }
    #[inline] pub fn get(&self, id: u32) -> Option<&Obj> { let i = (id - self.base) as usize; self.chunks.get(i / CH)?.o[i % CH].as_deref() }
    #[inline] pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let i = (id - self.base) as usize;
        let c = Rc::make_mut(self.chunks.get_mut(i / CH)?);
        Some(Rc::make_mut(c.o[i % CH].as_mut()?))
    }
    pub fn free(&mut self, id: u32) -> bool {
        let i = (id - self.base) as usize;
        let Some(c) = self.chunks.get_mut(i / CH) else { return false };
        let c = Rc::make_mut(c);
        if let Some(o) = c.o[i % CH].take() { self.live -= 1; self.bytes -= o.data.len(); self.free.push(i as u32); true } else { false }
    }
}
