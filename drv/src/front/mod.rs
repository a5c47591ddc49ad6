pub mod corpus;
pub mod space;
pub mod syn;
pub mod tok;
pub mod total;
pub mod comp;
pub mod rules;
pub mod rustc;
pub mod statics;
pub mod imports;
pub mod emit;
pub mod det;
pub mod constants;
pub mod pos;
