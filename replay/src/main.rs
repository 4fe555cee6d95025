//! Query server over the *real* code: one request per line, one reply per line.
//!
//!   <family>[.<ctor>] <method> <p;p;...> <arg> [<stream>]
//!
//! floats are given as 16 hex digits (the bits), integers in decimal.  Replies:
//!   ok <bits|int> ...        result(s)
//!   some <bits|int>          (unused)
//!   panic <message>
//!   dry <n>                  sampler asked for more than the n words supplied
use probability::prelude::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Words {
    w: Vec<u64>,
    i: usize,
}
struct Dry(usize);
impl source::Source for Words {
    fn read_u64(&mut self) -> u64 {
        if self.i >= self.w.len() {
            std::panic::panic_any(Dry(self.i));
        }
        self.i += 1;
        self.w[self.i - 1]
    }
}

fn f(s: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(s, 16).unwrap())
}
fn i(s: &str) -> usize {
    s.parse().unwrap()
}
trait Show {
    fn show(&self) -> String;
}
impl Show for f64 {
    fn show(&self) -> String {
        format!("{:016x}", self.to_bits())
    }
}
impl Show for u8 {
    fn show(&self) -> String {
        self.to_string()
    }
}
impl Show for usize {
    fn show(&self) -> String {
        self.to_string()
    }
}
impl<T: Show> Show for Vec<T> {
    fn show(&self) -> String {
        self.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")
    }
}

/// Repeated sampling as an iterator with nothing but the default methods.
struct Plain<D, S>(D, S);
impl<'a, T, D: probability::distribution::Sample<Value = T>, S: source::Source> Iterator for Plain<&'a D, &'a mut S> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        Some(self.0.sample(self.1))
    }
}

/// The items several uses of an iterator give.
macro_rules! uses(
    ($it:expr, $k:expr) => ({
        let mut it = $it;
        let mut out = Vec::new();
        let k = $k;
        let mut put = |t: &str, x: String| out.push(format!("{}={}", t, x));
        let (lo, hi) = it.size_hint();
        let _ = lo;
        put("size", hi.map_or("any".to_string(), |h| if h < 1000 { format!("at most {}", h) } else { "any".to_string() }));
        put("nth", it.nth(k).map_or("none".to_string(), |x| x.show()));
        put("take", it.by_ref().take(k + 1).collect::<Vec<_>>().show());
        put("skip", it.by_ref().skip(k).next().map_or("none".to_string(), |x| x.show()));
        put("step", it.by_ref().step_by(k + 1).take(3).collect::<Vec<_>>().show());
        put("fold", it.by_ref().take(k + 2).fold(String::new(), |a, x| a + "," + &x.show()));
        let mut c = 0;
        put("find", it.find(|_| { c += 1; c > k }).map_or("none".to_string(), |x| x.show()));
        c = 0;
        put("any", it.any(|_| { c += 1; c > k }).to_string());
        c = 0;
        put("position", it.position(|_| { c += 1; c > k }).map_or("none".to_string(), |x| x.to_string()));
        put("count", it.by_ref().take(k).count().to_string());
        put("last", it.by_ref().take(k + 1).last().map_or("none".to_string(), |x| x.show()));
        c = 0;
        put("try", it.try_fold(String::new(), |a, x| { c += 1; if c > k { Err(a) } else { Ok(a + "," + &x.show()) } }).unwrap_or_else(|e: String| e));
        put("zip", (0..k).zip(it.by_ref()).map(|(_, x)| x.show()).collect::<Vec<_>>().join(","));
        put("next", it.next().map_or("none".to_string(), |x| x.show()));
        out.join(" ")
    });
);

/// A source of pseudo-random words (splitmix64), for the statistical checks.
struct Split(u64);
impl source::Source for Split {
    fn read_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
trait Num {
    fn num(&self) -> f64;
}
impl Num for f64 {
    fn num(&self) -> f64 {
        *self
    }
}
impl Num for u8 {
    fn num(&self) -> f64 {
        *self as f64
    }
}
impl Num for usize {
    fn num(&self) -> f64 {
        *self as f64
    }
}

fn words(q: &Q) -> Words {
    Words {
        w: q.stream.split(',').filter(|s| !s.is_empty()).map(|s| u64::from_str_radix(s, 16).unwrap()).collect(),
        i: 0,
    }
}

struct Q<'a> {
    arg: &'a str,
    stream: &'a str,
}
type R = Option<String>;

macro_rules! methods {
    ($d:expr, $m:expr, $q:expr; [$($acc:ident),*]; [$($tr:ident),*]) => {{
        let d = $d;
        match $m {
            "new" => Some(String::new()),
            $(stringify!($acc) => Some(d.$acc().show()),)*
            "distribution" => Some(d.distribution(f($q.arg)).show()),
            "clone" => { let e = d.clone(); Some([$(e.$acc().show()),*].join(" ")) },
            "sample" => { let mut s = words($q); let r = d.sample(&mut s); Some(format!("{} {}", r.show(), s.i)) },
            // histogram of <arg> draws from the seed: stream holds the seed and the cuts (bits);
            // counts of (-inf, c1], (c1, c2], ..., (cn, inf) and of NaNs
            "hist" => {
                let t: Vec<u64> = $q.stream.split(',').map(|s| u64::from_str_radix(s, 16).unwrap()).collect();
                let mut s = Split(t[0]);
                let cuts: Vec<f64> = t[1..].iter().map(|b| f64::from_bits(*b)).collect();
                let n: usize = $q.arg.parse().unwrap();
                let mut c = vec![0usize; cuts.len() + 2];
                for _ in 0..n {
                    let x = d.sample(&mut s).num();
                    if x.is_nan() { c[cuts.len() + 1] += 1; continue; }
                    c[cuts.partition_point(|v| *v < x)] += 1;
                }
                Some(c.show())
            },
            // the Independent sampler: arg draws
            "independent" => {
                let mut s = words($q);
                let n: usize = $q.arg.parse().unwrap();
                let mut out = Vec::new();
                {
                    let mut it = Independent(&d, &mut s);
                    for _ in 0..n {
                        match it.next() { Some(x) => out.push(x.show()), None => out.push("none".to_string()) }
                    }
                }
                Some(format!("{} {}", out.join(" "), s.i))
            },
            // other methods of the iterator, against the default ones
            "iterator" => {
                let k: usize = $q.arg.parse().unwrap();
                let mut s = words($q);
                let want = uses!(Plain(&d, &mut s), k);
                let i = s.i;
                let mut s = words($q);
                let got = uses!(Independent(&d, &mut s), k);
                let diff = want.split(' ').zip(got.split(' ')).enumerate().find(|(_, (a, b))| a != b).map(|(i, _)| i + 1);
                Some(format!("{} {} {}", diff.unwrap_or(if want == got { 0 } else { 99 }), i, s.i))
            },
            "repeated" => {
                let mut s = words($q);
                let n: usize = $q.arg.parse().unwrap();
                let mut out = Vec::new();
                for _ in 0..n { out.push(d.sample(&mut s).show()); }
                Some(format!("{} {}", out.join(" "), s.i))
            },
            $(stringify!($tr) => methods!(@ $tr d $q),)*
            _ => None,
        }
    }};
    (@ density $d:ident $q:expr) => { Some($d.density(f($q.arg)).show()) };
    (@ massb $d:ident $q:expr) => { Some($d.mass(i($q.arg) as u8).show()) };
    (@ mass $d:ident $q:expr) => { Some($d.mass(i($q.arg)).show()) };
    (@ inverse $d:ident $q:expr) => { Some($d.inverse(f($q.arg)).show()) };
    (@ modes $d:ident $q:expr) => { Some($d.modes().show()) };
    (@ $t:ident $d:ident $q:expr) => { Some($d.$t().show()) };
}

fn eval(fam: &str, m: &str, ps: &[&str], q: &Q) -> R {
    let p = |k: usize| f(ps[k]);
    match fam {
        "Bernoulli" => methods!(Bernoulli::new(p(0)), m, q; [p, q]; [massb, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Bernoulli.with_failure" => methods!(Bernoulli::with_failure(p(0)), m, q; [p, q]; [massb, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Beta" => methods!(Beta::new(p(0), p(1), p(2), p(3)), m, q; [alpha, beta, a, b]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Binomial" => methods!(Binomial::new(i(ps[0]), p(1)), m, q; [n, p, q]; [mass, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Binomial.with_failure" => methods!(Binomial::with_failure(i(ps[0]), p(1)), m, q; [n, p, q]; [mass, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Categorical" => {
            let v: Vec<f64> = ps.iter().filter(|s| !s.is_empty()).map(|s| f(s)).collect();
            let d = Categorical::new(&v);
            if m == "p" {
                return Some(d.p().to_vec().show());
            }
            methods!(d, m, q; [k]; [mass, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation])
        }
        "Cauchy" => methods!(Cauchy::new(p(0), p(1)), m, q; [x_0, gamma]; [density, inverse, entropy, median, modes]),
        "Exponential" => methods!(Exponential::new(p(0)), m, q; [lambda]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Gamma" => methods!(Gamma::new(p(0), p(1)), m, q; [k, theta]; [density, entropy, kurtosis, mean, modes, skewness, variance, deviation]),
        "Gaussian" => methods!(Gaussian::new(p(0), p(1)), m, q; [mu, sigma]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Gaussian.default" => methods!(Gaussian::default(), m, q; [mu, sigma]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Gaussian.from_iter" => {
            let v: Vec<f64> = ps.iter().filter(|s| !s.is_empty()).map(|s| f(s)).collect();
            methods!(v.into_iter().collect::<Gaussian>(), m, q; [mu, sigma]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation])
        }
        "Laplace" => methods!(Laplace::new(p(0), p(1)), m, q; [mu, b]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Logistic" => methods!(Logistic::new(p(0), p(1)), m, q; [mu, s]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Logistic.default" => methods!(Logistic::default(), m, q; [mu, s]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Lognormal" => methods!(Lognormal::new(p(0), p(1)), m, q; [mu, sigma]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Lognormal.default" => methods!(Lognormal::default(), m, q; [mu, sigma]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Pert" => methods!(Pert::new(p(0), p(1), p(2)), m, q; [a, b, c, alpha, beta]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Triangular" => methods!(Triangular::new(p(0), p(1), p(2)), m, q; [a, b, c]; [density, inverse, entropy, kurtosis, mean, median, modes, skewness, variance, deviation]),
        "Uniform" => methods!(Uniform::new(p(0), p(1)), m, q; [a, b]; [density, inverse, entropy, kurtosis, mean, median, skewness, variance, deviation]),
        "Uniform.default" => methods!(Uniform::default(), m, q; [a, b]; [density, inverse, entropy, kurtosis, mean, median, skewness, variance, deviation]),
        // sources re-exported by the crate
        "Source" => {
            let mut s = words(q);
            use probability::source::Source;
            match m {
                "f64" => Some(s.read::<f64>().show()),
                "u64" => Some(s.read::<u64>().to_string()),
                _ => None,
            }
        }
        "Default" => {
            use probability::source::Source;
            let mut s = source::default(ps[0].parse().unwrap());
            let n: usize = q.arg.parse().unwrap();
            Some((0..n).map(|_| s.read::<u64>().to_string()).collect::<Vec<_>>().join(" "))
        }
        _ => None,
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line == "flush" {
            out.flush().unwrap();
            continue;
        }
        let t: Vec<&str> = line.split(' ').collect();
        let ps: Vec<&str> = t[2].split(';').collect();
        let q = Q { arg: t.get(3).copied().unwrap_or(""), stream: t.get(4).copied().unwrap_or("") };
        let r = catch_unwind(AssertUnwindSafe(|| eval(t[0], t[1], &ps, &q)));
        match r {
            Ok(Some(s)) => writeln!(out, "ok {}", s).unwrap(),
            Ok(None) => writeln!(out, "nosuch").unwrap(),
            Err(e) => {
                if let Some(d) = e.downcast_ref::<Dry>() {
                    writeln!(out, "dry {}", d.0).unwrap()
                } else {
                    let m = e
                        .downcast_ref::<&str>()
                        .map(|s| s.to_string())
                        .or_else(|| e.downcast_ref::<String>().cloned())
                        .unwrap_or_default();
                    writeln!(out, "panic {}", m.replace('\n', " ")).unwrap()
                }
            }
        }
        out.flush().unwrap();
    }
}
