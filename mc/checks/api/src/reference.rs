pub use spec::*;
