//! Layers are only named here: nothing is served.
pub mod layer {
    pub mod util {
        pub type Identity = ();
        #[derive(Clone, Debug, Default)]
        pub struct Stack<I, O>(pub I, pub O);
    }
}
use layer::util::{Identity, Stack};

#[derive(Clone, Debug, Default)]
pub struct ServiceBuilder<L>(pub L);
impl ServiceBuilder<Identity> {
    pub fn new() -> Self {
        Self(())
    }
}
impl<L> ServiceBuilder<L> {
    pub fn layer<T>(self, layer: T) -> ServiceBuilder<Stack<T, L>> {
        ServiceBuilder(Stack(layer, self.0))
    }
}
