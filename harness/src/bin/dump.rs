//! dump N [seed]: N generated scripts and arbitrary texts as a JSON array
use harness::{engine::Src, runner, runner::Env, soup, trees, trees::Size};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: u64 = a[1].parse().unwrap();
    let seed: u64 = a.get(2).map_or(1, |s| s.parse().unwrap());
    let e = Env { dict: harness::dict::from_sources() };
    let mut v = vec![];
    for i in 0..n {
        let s = Src::random(runner::stream("dump", seed, i));
        v.push(if i % 3 < 2 { trees::script(s, &e.dict, None, Size::Normal, None).laid.text } else { soup::any(s, &e.dict).0 });
    }
    println!("{}", serde_json::to_string(&v).unwrap());
}
