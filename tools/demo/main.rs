// prints the tokens and the tree of the text in the given file, or the errors
fn main() {
    let f = std::env::args().nth(1).unwrap();
    let code = std::fs::read_to_string(f).unwrap();
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            match bq2cst::verif::tokenize(code.clone()) {
                Ok(t) => println!("tokens {}", serde_json::to_string_pretty(&serde_json::to_value(&t).unwrap()).unwrap()),
                Err(e) => println!("error {}", serde_json::to_string_pretty(&e).unwrap()),
            }
            match bq2cst::verif::parse(code) {
                Ok(t) => println!("tree {}", serde_json::to_string_pretty(&serde_json::to_value(&t).unwrap()).unwrap()),
                Err(e) => println!("error {}", serde_json::to_string_pretty(&e).unwrap()),
            }
        })
        .unwrap();
    h.join().unwrap();
}
