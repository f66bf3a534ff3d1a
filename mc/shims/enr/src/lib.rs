pub use discv5::enr::*;
