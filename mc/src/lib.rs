pub mod engine;
pub mod huge;
pub mod model;
pub mod util;
pub use engine::*;
pub use huge::*;
pub use model::*;
pub use util::*;
