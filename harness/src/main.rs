#![allow(dead_code)]
#[macro_use]
mod run;
mod api;
mod cams;
mod gen;
mod tiffw;
mod doc;
mod meta;
mod prev;
mod raws;
mod raws2;
mod wraps;
mod ljpeg;

mod dmg;
mod c01;
mod c02;
mod c03;
mod c04;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c23;
mod c24;
mod c25;

#[global_allocator]
static ALLOC: run::Alloc = run::Alloc;

/// Files for the fuzzer to start from.
fn corpus(dir: &str, n: u64) {
    for i in 0..n {
        let mut g = gen::G::random(i);
        let a = dmg::any(&mut g);
        if a.bytes.len() > 12000 {
            continue;
        }
        let t = api::TYPES.iter().position(|t| *t == a.ty).unwrap();
        let mut b = vec![t as u8];
        b.extend(a.bytes);
        std::fs::write(format!("{dir}/{i}"), b).unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("corpus") {
        return corpus(&args[2], args[3].parse().unwrap());
    }
    run::main(vec![c01::check(), c02::check(), c03::check(), c04::c04(), c04::c05(), c06::check(), c07::check(), c08::check(), c09::check(), c10::check(), c11::check(), c12::check(), c13::check(), c14::check(), c15::check(), c16::c16(), c17::check(),
        c18::check(), c16::c22(), c19::check(), c20::check(),
        c21::check(), c23::check(), c24::check(), c25::check()]);
}
