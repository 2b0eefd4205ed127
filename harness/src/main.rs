mod alloc;
mod backend;
mod copy;
mod gen_stream;
mod json;
mod out;
mod rng;
mod session;
#[path = "typed_none.rs"] mod typed;
mod watch;
mod wire_calls;

use backend::*;
use fourleaf::io::TransparentCursor;
use fourleaf::stream::Stream;
use json::*;
use out::Out;
use session::*;
use std::io::{BufRead, Cursor};

#[global_allocator]
static A: alloc::Count = alloc::Count;

/// Input buffers live for the whole run (borrowed by some streams).
fn leak(b: &[u8]) -> &'static [u8] { Box::leak(b.to_vec().into_boxed_slice()) }

pub struct Env { pub caps: Vec<usize>, pub fail: Option<usize>, pub fail_seek: bool }

pub fn run_session(be: &str, init: Vec<u8>, env: Env, drv: &mut dyn Driver, log: Log) -> (bool, Vec<J>, Vec<u8>) {
    match be {
        "cur" => { let (o, f) = session(Stream::new(Cursor::new(init)), drv, log); (false, o, f) }
        "curs" => { let (o, f) = session(Stream::new_seek(Cursor::new(init)), drv, log); (true, o, f) }
        "tc" => { let (o, f) = session(Stream::from_slice(init), drv, log); (true, o, f) }
        "tcn" => { let (o, f) = session(Stream::new(TransparentCursor(Cursor::new(init))), drv, log); (false, o, f) }
        "tcb" => { let (o, f) = session(Stream::new_seek(Bor(TransparentCursor(Cursor::new(leak(&init))))), drv, log); (true, o, f) }
        "sl" => { let l = leak(&init); let (o, f) = session(Stream::new(Sl(l, l)), drv, log); (false, o, f) }
        // a stream that claims to seek but whose every seek fails
        "sls" => { let l = leak(&init); let (o, f) = session(Stream::new_seek(Sl(l, l)), drv, log); (false, o, f) }
        "mem" => { let (o, f) = session(Stream::new(Mem::new(init, env.caps, env.fail, env.fail_seek)), drv, log); (false, o, f) }
        "mems" => { let (o, f) = session(Stream::new_seek(Mem::new(init, env.caps, env.fail, env.fail_seek)), drv, log); (true, o, f) }
        x => panic!("harness: backend {}", x),
    }
}

fn arg(k: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn argn(k: &str, d: u64) -> u64 { arg(k).map(|x| x.parse().unwrap()).unwrap_or(d) }

fn record(out: &mut Out, id: &str, be: &str, init: &[u8], caps: &[usize], fail: Option<usize>, fail_seek: bool, r: (bool, Vec<J>, Vec<u8>)) {
    let n = r.1.len();
    let mut v = vec![("id", st(id)), ("be", st(be)), ("seek", J::B(r.0)), ("init", byts(init)), ("ops", J::A(r.1)), ("fin", byts(&r.2))];
    if !caps.is_empty() { v.push(("caps", J::A(caps.iter().map(|x| J::I(*x as i64)).collect()))); }
    if let Some(f) = fail { v.push(("fail", J::I(f as i64))); v.push(("fail_seek", J::B(fail_seek))); }
    out.put(&obj(v), n);
}

fn stream_replay(out: &mut Out, file: &str) {
    for l in std::io::BufReader::new(std::fs::File::open(file).unwrap()).lines() {
        let l = l.unwrap();
        if l.trim().is_empty() { continue; }
        let j = parse(&l);
        watch::session(l.clone());
        let ops = j.arr("ops").iter().map(|o| match o { J::O(v) => J::O(v.iter().filter(|x| !["r", "ob", "n", "flt", "intr", "al"].contains(&&x.0[..])).cloned().collect()), _ => o.clone() }).collect();
        let mut d = Replay { ops, i: 0 };
        let be = j.s("be").to_owned();
        let init = j.bytes("init");
        let caps: Vec<usize> = j.arr("caps").iter().map(|x| x.int() as usize).collect();
        let fail = if j.has("fail") { Some(j.i("fail") as usize) } else { None };
        let mut log = Log::new();
        log.keep_going = j.b("keep"); log.track_alloc = j.b("alloc");
        let env = Env { caps: caps.clone(), fail, fail_seek: j.b("fail_seek") };
        let r = run_session(&be, init.clone(), env, &mut d, log);
        let id = match j.get("id") { Some(J::S(s)) => s.clone(), Some(x) => x.text(), None => "?".into() };
        record(out, &id, &be, &init, &caps, fail, j.b("fail_seek"), r);
    }
}

fn stream_gen(out: &mut Out, profile: &str, seed: u64, from: u64, n: u64) {
    for id in from..from + n {
        let p = gen_stream::plan(profile, seed, id);
        watch::session(format!("{}:{}:{}", profile, seed, id));
        let mut drv = p.drv;
        let mut log = Log::new();
        log.keep_going = p.keep; log.track_alloc = p.alloc;
        let env = Env { caps: p.caps.clone(), fail: p.fail, fail_seek: p.fail_seek };
        let r = run_session(p.be, p.init.clone(), env, &mut drv, log);
        record(out, &format!("{}:{}:{}", profile, seed, id), p.be, &p.init, &p.caps, p.fail, p.fail_seek, r);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| { if i.to_string().contains("harness:") { eprintln!("{}", i); } }));
    watch::start(10);
    let mode = std::env::args().nth(1).unwrap_or_default();
    let parts = argn("--parts", 1) as usize;
    let mut out = Out::new(&arg("--out").expect("--out"), parts);
    let seed = argn("--seed", 1);
    match &mode[..] {
        "stream" => {
            if let Some(f) = arg("--replay") { stream_replay(&mut out, &f); }
            if let Some(p) = arg("--profile") {
                for p in p.split(',') {
                    let (name, n) = match p.split_once(':') { Some((a, b)) => (a, b.parse().unwrap()), None => (p, 100) };
                    stream_gen(&mut out, name, seed, argn("--from", 0), n);
                }
            }
        }
        "copy" => {
            let mut put = |q: J| { let n = q.arr("ops").len(); out.put(&q, n); };
            if let Some(f) = arg("--replay") {
                for l in std::io::BufReader::new(std::fs::File::open(f).unwrap()).lines() {
                    let l = l.unwrap();
                    if l.trim().is_empty() { continue; }
                    let mut q = parse(&l);
                    watch::session(l.clone());
                    copy::strip(&mut q);
                    put(copy::perform(&q));
                }
            }
            for p in arg("--profile").unwrap_or_default().split(',').filter(|p| !p.is_empty()) {
                let (name, n) = match p.split_once(':') { Some((a, b)) => (a, b.parse().unwrap()), None => (p, 100) };
                for id in argn("--from", 0)..argn("--from", 0) + n { watch::session(format!("{}:{}:{}", name, seed, id)); put(copy::perform(&copy::plan(name, seed, id))); }
            }
        }
        "wire" => wire_calls::gen(&mut out, seed, argn("--n", 1000), &arg("--what").unwrap_or_default()),
        m => panic!("harness: mode {}", m),
    }
    out.finish();
}
