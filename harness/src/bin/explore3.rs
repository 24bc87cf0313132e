use harness::*;
use engine::*;
use std::collections::*;
use contexts::What;
fn main() {
    api::quiet_panics();
    let n: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let seed: u64 = std::env::args().nth(2).unwrap_or("1".into()).parse().unwrap();
    let show: usize = std::env::args().nth(3).unwrap_or("5".into()).parse().unwrap();
    let only = std::env::args().nth(4).unwrap_or_default();
    type F = fn(Src) -> (oracle::Seen, String, Src);
    fn ctx(s: Src, w: What) -> (oracle::Seen, String, Src) {
        let mut p = contexts::piece(s, &Default::default(), w); let t = *p.s.clone().of(contexts::templates(w)); let mut s = p.s.clone(); let r = contexts::check(&mut s, &mut p, t); (r.0, r.1, s)
    }
    let os: Vec<(&'static str, F)> = vec![
        ("layout", |s| { let (a,_,mut s) = soup::any(s, &Default::default()); let r = meta::layout(&mut s, &a); (r.0, format!("{:?} => {:?}", a, r.1), s) }),
        ("cases", |s| { let (a,_,mut s) = soup::any(s, &Default::default()); let r = meta::cases(&mut s, &a); (r.0, format!("{:?} => {:?}", a, r.1), s) }),
        ("names", |s| { let (a,_,mut s) = soup::any(s, &Default::default()); let r = meta::names(&mut s, &Default::default(), &a); (r.0, format!("{:?} => {:?}", a, r.1), s) }),
        ("sequence", |s| { let (a,_,s) = soup::any(s, &Default::default());let (b,_,s) = soup::any(s, &Default::default()); (meta::sequence(&a, &b), format!("{:?} + {:?}", a, b), s) }),
        ("goes", |s| { let (a,_,s) = soup::any(s, &Default::default());let (b,_,s) = soup::any(s, &Default::default()); (meta::goes_on(&a, &b), format!("{:?} + {:?}", a, b), s) }),
        ("cut", |s|  { let (a,_,s) = soup::any(s, &Default::default()); (meta::cut(&a), a, s)}),
        ("semicolon", |s| { let (a,_,s) = soup::any(s, &Default::default()); (meta::semicolon(&a), a, s)}),
        ("expr", |s| ctx(s, What::Expr)), ("query", |s| ctx(s, What::Query)), ("subquery", |s| ctx(s, What::Subquery)), ("statement", |s| ctx(s, What::Statement)), ("type", |s| ctx(s, What::Type)),
        ("malformed", |s| { let s0 = s.clone(); match malformed::any(s, &Default::default()) { None => (oracle::Seen::default(), String::new(), s0), Some(mut b) => { let r = malformed::check(&mut b); (r.0, r.1, b.s) } } }),
        ("prec", |s| { let mut g = gen::G::new(s, 10, Default::default()); let (ops, pre) = prec::random_sequence(&mut g.s); 
            let k = if g.coin() { prec::Operands::Rich } else { prec::Operands::Plain };
            match prec::in_select(&mut g, &mut |g| prec::build(g, &ops, &pre, k)) { None => (oracle::Seen::default(), String::new(), g.s), 
            Some(m) => { let made = trees::finish(g, vec![m], None); let r = trees::judge(&made); (r.0, made.laid.text, made.s) } } }),
    ];
    std::thread::Builder::new().stack_size(1<<30).spawn(move || {
    let mut bad: BTreeMap<&str, usize> = BTreeMap::new(); let mut nt: BTreeMap<String, usize> = BTreeMap::new();
    for i in 0..n {
        for (name, run) in &os {
            if !only.is_empty() && !only.split(',').any(|o| o == *name) { continue }
            let (s, _, src) = run(Src::random(Rng::new(seed, i)));
            if s.nontrivial { *nt.entry(format!("{} {}", name, s.kind)).or_default() += 1; }
            if s.fail.is_some() {
                *bad.entry(name).or_default() += 1;
                if bad[name] <= show {
                    let t = shrink(src.tape(), 3000, &mut |t| run(Src::replay(t)).0.fail.is_some());
                    let r = run(Src::replay(&t));
                    println!("---- {} {} :: {}\n{}", name, i, r.1, r.0.fail.unwrap());
                }
            }
        }
    }
    println!("{:?} {:?}", bad, nt);
    }).unwrap().join().unwrap();
}
