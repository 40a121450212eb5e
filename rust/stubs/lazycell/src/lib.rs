use std::cell::OnceCell;
#[derive(Debug, Clone, Default)]
pub struct LazyCell<T> { c: OnceCell<T> }
impl<T> LazyCell<T> {
    pub fn new() -> Self { Self { c: OnceCell::new() } }
    pub fn fill(&self, v: T) -> Result<(), T> { self.c.set(v) }
    pub fn filled(&self) -> bool { self.c.get().is_some() }
    pub fn borrow(&self) -> Option<&T> { self.c.get() }
    pub fn borrow_mut(&mut self) -> Option<&mut T> { self.c.get_mut() }
    pub fn into_inner(self) -> Option<T> { self.c.into_inner() }
    pub fn replace(&mut self, v: T) -> Option<T> { let o = self.c.take(); let _ = self.c.set(v); o }
}
impl<T> LazyCell<T> {
    pub fn get(&self) -> Option<T> where T: Copy { self.c.get().copied() }
    pub fn borrow_with<F: FnOnce() -> T>(&self, f: F) -> &T { self.c.get_or_init(f) }
    pub fn borrow_mut_with<F: FnOnce() -> T>(&mut self, f: F) -> &mut T { if !self.filled() { let _ = self.c.set(f()); } self.c.get_mut().unwrap() }
}
