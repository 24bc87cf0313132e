use harness::*;
use engine::*;
use std::collections::*;
fn main() {
    api::quiet_panics();
    let n: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let seed: u64 = std::env::args().nth(2).unwrap_or("1".into()).parse().unwrap();
    let show: usize = std::env::args().nth(3).unwrap_or("5".into()).parse().unwrap();
    let os: Vec<(&'static str, fn(&str) -> oracle::Seen)> = vec![("lossless", oracle::lossless), ("positions", oracle::positions), ("lexical", oracle::lexical), ("total", oracle::total),
        ("errors", oracle::errors), ("complete", oracle::complete), ("comments", oracle::comments), ("contiguous", oracle::contiguous)];
    std::thread::Builder::new().stack_size(1<<30).spawn(move || {
    let mut bad: BTreeMap<&str, usize> = BTreeMap::new(); let mut nt: BTreeMap<String, usize> = BTreeMap::new();
    for i in 0..n {
        let (text, _, _) = soup::any(Src::random(Rng::new(seed, i)), &Default::default());
        for (name, o) in &os {
            let s = o(&text);
            if s.nontrivial { *nt.entry(format!("{} {}", name, s.kind)).or_default() += 1; }
            if s.fail.is_some() {
                *bad.entry(name).or_default() += 1;
                if bad[name] <= show {
                    let t = shrink_text(&text, 3000, &mut |t| o(t).fail.is_some());
                    println!("---- {} {} :: {:?}\n{}", name, i, t, o(&t).fail.unwrap());
                }
            }
        }
    }
    println!("{:?} {:?}", bad, nt);
    }).unwrap().join().unwrap();
}
