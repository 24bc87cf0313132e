use harness::*;
use std::io::Read;
fn main() {
    api::quiet_panics();
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    match api::parse(&t) {
        api::Out::Ok(v) => for n in v { print!("{}", n.dump()) },
        o => println!("{}", o.describe()),
    }
}
