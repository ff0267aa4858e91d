pub mod cycle;
pub mod decode;
pub mod tables;
pub mod plain;
pub mod refuse;
pub mod units;
pub mod global;
pub mod e2e;
pub mod guest;
pub mod sanit;
pub mod scratch;
pub mod secrets;
pub mod settings;
