//! A task made of a closure over a finite product (or list) of cases.
use crate::run::{Cx, Out, Task};

pub struct Prod {
    pub name: String,
    pub dims: Vec<u32>,
    pub f: Box<dyn Fn(&[u32]) -> Result<Out, String>>,
    pub d: Box<dyn Fn(&[u32]) -> String>,
}
impl Task for Prod {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn explore(&self, cx: &mut Cx) {
        cx.product(self, &self.dims)
    }
    fn run_case(&self, p: &[u32]) -> Result<Out, String> {
        (self.f)(p)
    }
    fn describe(&self, p: &[u32]) -> String {
        (self.d)(p)
    }
}
pub fn prod(
    name: impl Into<String>,
    dims: &[usize],
    f: impl Fn(&[u32]) -> Result<Out, String> + 'static,
    d: impl Fn(&[u32]) -> String + 'static,
) -> Box<dyn Task> {
    Box::new(Prod { name: name.into(), dims: dims.iter().map(|x| *x as u32).collect(), f: Box::new(f), d: Box::new(d) })
}
