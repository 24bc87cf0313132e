fn main() {
    println!("{}", serde_json::to_string(&harness::dict::literals()).unwrap());
}
