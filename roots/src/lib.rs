#[macro_use]
pub mod eqs;
pub mod api;
pub mod dump;
pub mod droots;
pub mod proots;
pub mod troots;
pub mod make;
