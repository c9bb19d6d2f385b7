//! For work on the analysis itself: functions without arguments, and what they return.
use crate::interp::*;
use crate::load::*;
use std::rc::Rc;

pub fn main(prog: &mut Program, file: &str, exp: &str) {
    let src = std::fs::read_to_string(file).unwrap();
    let exp: Vec<String> = std::fs::read_to_string(exp).unwrap().lines().map(|s| s.to_string()).collect();
    let f = syn::parse_file(&src).unwrap();
    prog.add_module("selft", f.items, "<selft>");
    let mut bad = 0;
    for (i, e) in exp.iter().enumerate() {
        let mut it = Interp::new(prog, Rc::new(crate::model::Model::new()));
        it.deep = true;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.explore(50, &mut |it| it.call_path(&format!("selft::t{}", i), vec![]))));
        let Ok(ex) = r else {
            println!("{} INTERNAL", i);
            bad += 1;
            continue;
        };
        let outs: Vec<String> = ex
            .paths
            .iter()
            .map(|p| match &p.out {
                Ok(v) => v.as_lit().map(|s| format!("{:?}", s)).unwrap_or_else(|| format!("{:?}", v)),
                Err(e) => format!("{:?}", e),
            })
            .collect();
        if outs.len() != 1 || outs[0] != *e {
            bad += 1;
            println!("{} expected {} got {}", i, e, outs.join(" | ").chars().take(300).collect::<String>());
        }
    }
    println!("{} of {} wrong", bad, exp.len());
}
