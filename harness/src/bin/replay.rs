//! `replay HARNESS FILE`: runs a harness on the values of a counterexample, one value per line in hex bytes.
//! A panic, abort or signal means that the violation is reproduced; exit 0 that it is not;
//! exit 3 or 4 that the values do not fit the harness.
#[cfg(not(kani))]
fn main() {
    let mut args = std::env::args().skip(1);
    let (name, file) = (args.next().unwrap(), args.next().unwrap());
    let mut values = Vec::new();
    for line in std::fs::read_to_string(file).unwrap().lines() {
        let line = line.split('#').next().unwrap().trim();
        if line.is_empty() || line.contains('=') {
            continue;
        }
        values.push(line.split_whitespace().map(|b| u8::from_str_radix(b, 16).unwrap()).collect());
    }
    verif_harness::nd::load(values);
    let f = verif_harness::find(&name).expect("no such harness");
    f();
    println!("not reproduced ({} values left over)", verif_harness::nd::left());
}
#[cfg(kani)]
fn main() {}
