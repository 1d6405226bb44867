use wolfram_parser::*;
fn main(){ for a in std::env::args().skip(1){ let o=ParseOptions::default(); println!("== {a}"); 
 println!("{:?}",tokenize(&a,&o)); let r=parse_cst_seq(&a,&o); println!("{:#?}",r.syntax); println!("{:?} {:?}",r.fatal_issues,r.non_fatal_issues);
 let r=std::panic::catch_unwind(||parse_ast_seq(&a,&o)); if let Ok(r)=r {println!("{:#?}",r.syntax);} else {println!("AST PANIC")} } }
