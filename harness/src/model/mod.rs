pub mod chars;
pub mod lex;
pub mod pos;
pub mod parse;
pub mod abs;
pub mod recover;
pub mod issues;
pub mod track;
