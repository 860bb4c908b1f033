//! Compile a source text and print the code or the error: `dis script|module TEXT`
use dice_compiler::compiler::Compiler;
use dice_core::source::{Source, SourceKind};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let kind = if a[1] == "module" { SourceKind::Module } else { SourceKind::Script };
    match Compiler::compile_source(Source::new(a[2].clone(), kind)) {
        Ok(bc) => println!("{}", bc),
        Err(e) => println!("{}\n{:?}", e, e.parts().0),
    }
}
