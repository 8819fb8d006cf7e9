//! Dynamic values and shapes for the built-in and derived types under test, with a reference
//! encoder and decoder that know the documented wire format and share no code with the target.
pub mod dv;
pub mod refm;
pub mod gen;
pub mod mutate;
