pub use itertools13::*;
