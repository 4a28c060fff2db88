//! Prints the transcript of a range of cases: tr FAMILY START COUNT [each]; tr giant INDEX.
//! One line per 32 cases (or per case with `each`): family, first index, fingerprint, number of
//! results folded in, number of panics.
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "giant" {
        let i: usize = a[2].parse().unwrap();
        let z = vec![0u8; (1 << 29) + 64];
        let mut o = vec![0u8; if [3, 8].contains(&i) { (1 << 29) + 64 } else { 0 }];
        let r = catch_unwind(AssertUnwindSafe(|| transcript::giant(i, &z, &mut o)));
        match r {
            Ok((v, n)) => println!("giant {i} {:016x}{:016x} {n} 0", v[0], v[1]),
            Err(_) => println!("giant {i} panic 0 1"),
        }
        return;
    }
    let fam: usize = a[1].parse().unwrap();
    let (start, count): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let group = if a.len() > 4 { 1 } else { 32 };
    let mut i = start;
    while i < start + count {
        let (mut acc, mut res, mut pan) = ([0u64; 2], 0, 0);
        let first = i;
        while i < start + count && i < first + group {
            match catch_unwind(|| transcript::case(fam, i)) {
                Ok((v, n)) => {
                    acc = [acc[0].rotate_left(7) ^ v[0], acc[1].wrapping_mul(3).wrapping_add(v[1])];
                    res += n;
                }
                Err(_) => pan += 1,
            }
            i += 1;
        }
        if pan > 0 {
            println!("{fam} {first} panic 0 {pan}");
        } else {
            println!("{fam} {first} {:016x}{:016x} {res} 0", acc[0], acc[1]);
        }
    }
}
