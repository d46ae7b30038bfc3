//! replay ENTRY PARAMS(comma separated or -) : reads hex inputs on stdin, one per line, and prints
//! for each one JSON line {"obs":[..],"failed":[..],"covers":[..],"assumed":bool,"panic":msg|null,"used":n}
use crate::vs;
use std::io::BufRead;
pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = crate::table();
    let f = match t.iter().find(|(n, _)| *n == a[1]) { Some(x) => x.1, None => { eprintln!("no entry {}", a[1]); std::process::exit(3) } };
    let params: Vec<u64> = if a.len() < 3 || a[2] == "-" { vec![] } else { a[2].split(',').map(|s| s.parse().unwrap()).collect() };
    std::panic::set_hook(Box::new(|_| ()));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let s = line.trim();
        let input: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
        vs::fixed(false);
        vs::CTX.with(|c| *c.borrow_mut() = vs::Ctx { params: params.clone(), input, ..Default::default() });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        let (mut assumed, mut msg) = (false, None);
        if let Err(e) = r {
            if e.is::<vs::Assumed>() { assumed = true }
            else { msg = Some(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())) }
        }
        vs::CTX.with(|c| { let c = c.borrow();
            let obs: Vec<String> = c.obs.iter().map(|v| format!("\"{:x}\"", v)).collect();
            println!("{{\"obs\":[{}],\"failed\":{:?},\"covers\":{:?},\"assumed\":{},\"panic\":{},\"used\":{}}}", obs.join(","), c.failed, c.covers, assumed,
                match &msg { None => "null".to_string(), Some(m) => format!("{:?}", m.chars().filter(|c| c.is_ascii() && !c.is_control() && *c != '"' && *c != '\\').collect::<String>()) }, c.pos) });
    }
}
