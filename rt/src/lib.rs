pub mod ast;
pub mod sem;
pub mod vals;
pub mod env;
pub mod xf;
pub mod glue;
pub mod run;
pub mod fam;
pub mod real;
pub mod large;
pub mod scope;
