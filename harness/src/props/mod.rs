pub mod cost;
pub mod green;
pub mod machine;
pub mod misc;
pub mod nav;
pub mod text;
pub mod memory;
pub mod big;
pub mod threads;
pub mod share;
pub mod stack;
pub mod strict;
