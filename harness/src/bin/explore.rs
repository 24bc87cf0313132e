use harness::*;
use engine::*;
use trees::*;
fn main() {
    api::quiet_panics();
    let n: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let seed: u64 = std::env::args().nth(2).unwrap_or("1".into()).parse().unwrap();
    let show: usize = std::env::args().nth(3).unwrap_or("5".into()).parse().unwrap();
    let size = if std::env::args().nth(4).is_some() { Size::Large } else { Size::Normal };
    let h = std::thread::Builder::new().stack_size(1<<30).spawn(move || {
    let mut bad = 0; let mut toks = 0; let mut max = 0;
    for i in 0..n {
        let run = |src: Src| { let m = script(src, &Default::default(), None, size, None); let (s, _) = judge(&m); (s.fail, m.laid.text, m.s.tape(), m.toks.len()) };
        let (r, _, tape, k) = run(Src::random(Rng::new(seed, i)));
        toks += k; max = max.max(k);
        if let Some(_) = r {
            bad += 1;
            if bad <= show {
                let t = shrink(tape, 3000, &mut |t| run(Src::replay(t)).0.is_some());
                let (r, text, _, _) = run(Src::replay(&t));
                println!("---- case {} :: {}\n{}\n", i, text, r.unwrap());
            }
        }
    }
    println!("{} of {} bad, avg toks {} max {}", bad, n, toks as u64 / n, max);
    }).unwrap();
    h.join().unwrap();
}
