mod kern;
pub mod parse;

pub use self::kern::*;
