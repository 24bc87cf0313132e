//! The choice-tape engine. Every random decision of a generator is one entry of a tape; a case
//! is its tape. Tapes are drawn from a PRNG seeded from VERIF_SEED, the check and the case number,
//! so a run is a pure function of the seed. A failing case is shrunk by editing its tape
//! (deleting, zeroing and lowering entries) and running the generator again on the edited tape:
//! choice 0 is always the simplest one.

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(
            seed ^ 0x9e37_79b9_7f4a_7c15,
            stream.wrapping_mul(0xd134_2543_de82_ef95) | 1,
        );
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1 | 1).wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

struct Inner {
    tape: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
}

/// the source of all choices; clones share one tape
#[derive(Clone)]
pub struct Src(std::rc::Rc<std::cell::RefCell<Inner>>);

impl Src {
    fn make(i: Inner) -> Src {
        Src(std::rc::Rc::new(std::cell::RefCell::new(i)))
    }
    pub fn random(rng: Rng) -> Src {
        Src::make(Inner { tape: Vec::new(), pos: 0, rng: Some(rng) })
    }
    pub fn replay(tape: &[u32]) -> Src {
        Src::make(Inner { tape: tape.to_vec(), pos: 0, rng: None })
    }
    /// the choices made so far
    pub fn tape(&self) -> Vec<u32> {
        let i = self.0.borrow();
        i.tape[..i.pos.min(i.tape.len())].to_vec()
    }
    pub fn into_tape(self) -> Vec<u32> {
        self.tape()
    }
    /// a choice in 0..n
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let i = &mut *self.0.borrow_mut();
        let v = match &mut i.rng {
            Some(r) => {
                let v = (r.next() % n as u64) as u32;
                i.tape.push(v);
                v
            }
            None => i.tape.get(i.pos).copied().unwrap_or(0).min(n - 1),
        };
        i.pos += 1;
        v
    }
    /// true with probability num/den; 0 on the tape means false
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    /// weighted choice; put the simplest alternative first
    pub fn pick(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u32) as usize]
    }
    /// a small list length: usually 0..=3, sometimes larger, rarely very large
    pub fn len(&mut self, lo: u32) -> u32 {
        lo + match self.pick(&[40, 30, 15, 8, 5, 2]) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => self.range(2, 4),
            4 => self.range(3, 8),
            _ => self.range(8, 20),
        }
    }
}

/// Shrinks `tape` while `fails` still returns true, with a bounded number of attempts.
pub fn shrink(tape: Vec<u32>, max_runs: usize, fails: &mut dyn FnMut(&[u32]) -> bool) -> Vec<u32> {
    let mut best = tape;
    let mut runs = 0;
    let mut try_ = |cand: &[u32], runs: &mut usize| -> bool {
        *runs += 1;
        fails(cand)
    };
    loop {
        let before = best.clone();
        // delete blocks, large to small
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && runs < max_runs {
            let mut i = best.len().saturating_sub(size);
            loop {
                if runs >= max_runs {
                    break;
                }
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    if try_(&c, &mut runs) {
                        best = c;
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.max(1));
            }
            size /= 2;
        }
        // zero blocks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && runs < max_runs {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    if try_(&c, &mut runs) {
                        best = c;
                    }
                }
                i += size;
            }
        }
        // lower single entries
        for i in 0..best.len() {
            if runs >= max_runs || i >= best.len() {
                break;
            }
            if best[i] > 1 {
                for v in [1, best[i] / 2, best[i] - 1] {
                    if v < best[i] {
                        let mut c = best.clone();
                        c[i] = v;
                        if try_(&c, &mut runs) {
                            best = c;
                            break;
                        }
                    }
                }
            }
        }
        if best == before || runs >= max_runs {
            return best;
        }
    }
}

/// Shrinks a text by deleting runs of characters, for failures whose oracle needs only the text.
pub fn shrink_text(text: &str, max_runs: usize, fails: &mut dyn FnMut(&str) -> bool) -> String {
    let mut best: Vec<char> = text.chars().collect();
    let mut runs = 0;
    let mut size = (best.len() / 2).max(1);
    loop {
        let mut changed = false;
        let mut i = 0;
        while i < best.len() && runs < max_runs {
            let end = (i + size).min(best.len());
            let mut c = best.clone();
            c.drain(i..end);
            let s: String = c.iter().collect();
            runs += 1;
            if fails(&s) {
                best = c;
                changed = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !changed || runs >= max_runs {
            return best.into_iter().collect();
        }
        if !changed || size > best.len() {
            size = (size / 2).max(1);
        }
    }
}
