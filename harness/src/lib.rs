//! Mock Stylus host and shared helpers of the contract property runners.
pub mod host;
pub mod m721;
pub mod tokens;
pub mod util;
pub mod m1155;
