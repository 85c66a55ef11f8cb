//! Runs generated inputs under the Miri interpreter. Each argument is `<part>:<node type>:<input>`
//! (the input in compact form). Prints `BEGIN <task>` before each one, so that a report that ends
//! the process can be attributed, and totals at the end.
use vharness::model::Case;
use vharness::obs::Obs;
use vharness::props::ub::{part, PARTS};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut o = Obs::default();
    for task in &a[1..] {
        let mut it = task.splitn(3, ':');
        let (p, f, c) = (it.next().expect("part"), it.next().expect("node type"), it.next().expect("input"));
        let i = PARTS.iter().position(|x| x.0 == p).expect("part");
        let c = Case::from_compact(c).expect("input");
        println!("BEGIN {}", task);
        o.begin(&c);
        o.exhaustive = false;
        if let Err(m) = part(i, &c, f.parse().ok(), &mut o) {
            println!("MISMATCH {}", m.replace('\n', " "));
        }
    }
    o.compact();
    println!("END evals={} distinct={}", o.evals, o.hashes.len());
}
