use daab::diagnostics::{ArtifactHandle, BuilderHandle, Doctor};
use std::any::Any;
/// Writes down what it is told.
#[derive(Default)]
struct Rec(Vec<String>);
impl Doctor<Rc<dyn Any>, Rc<dyn Any>> for Rec {
    fn resolve(&mut self, b: &BuilderHandle<Rc<dyn Any>>, u: &BuilderHandle<Rc<dyn Any>>) { self.0.push(format!("resolve {:?} {:?}", b.id(), u.id())); }
    fn build(&mut self, b: &BuilderHandle<Rc<dyn Any>>, _a: &ArtifactHandle<Rc<dyn Any>>) { self.0.push(format!("build {:?}", b.id())); }
    fn clear(&mut self) { self.0.push("clear".into()); }
    fn invalidate(&mut self, b: &BuilderHandle<Rc<dyn Any>>) { self.0.push(format!("invalidate {:?}", b.id())); }
}
