pub mod alloc;
pub mod c23;
pub mod choice;
pub mod cmp;
pub mod cov;
pub mod drv;
pub mod drv2;
pub mod fam;
pub mod gen;
pub mod known;
pub mod malform;
pub mod model;
pub mod run;
pub mod tok;
#[cfg(feature = "diff")]
pub mod diff;
