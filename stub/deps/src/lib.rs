#![allow(unused)]
pub use anchor_lang; pub use anchor_spl; pub use decimal;
