//! Runs requests on the real crate and says what it did.
//!
//!   harness run IN OUT TIMEOUT_MS     requests (ndjson) -> answers (ndjson)
//!   harness worker                    requests on stdin, answers on stdout
//!
//! The requests run in another process.  When it dies or does not answer in
//! time, that is the answer of the request, and another process goes on.
#[macro_use]
extern crate dynparser;

mod conv;
mod errs;
mod json;
mod ops;
mod pump;
mod pure;

use json::{obj, s, J};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("run") => run(&a[2], &a[3], a[4].parse().unwrap()),
        Some("worker") => worker(),
        _ => {
            eprintln!("harness run IN OUT TIMEOUT_MS | worker");
            std::process::exit(2);
        }
    }
}

fn worker() {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(|| {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            for line in stdin.lock().lines() {
                let j = json::parse(&line.unwrap());
                let r = std::panic::catch_unwind(|| ops::run(&j)).unwrap_or_else(|e| {
                    let why = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                        .unwrap_or_default();
                    obj(vec![("bad", s("panic")), ("why", s(&why))])
                });
                let mut o = stdout.lock();
                writeln!(o, "{}", r.text()).unwrap();
                o.flush().unwrap();
            }
        })
        .unwrap();
    h.join().unwrap();
}

struct Proc {
    child: Child,
    rx: mpsc::Receiver<String>,
}

fn start() -> Proc {
    let me = std::env::current_exe().unwrap();
    //  memory is limited, so that growing without end is seen as a crash
    let mut child = Command::new("sh")
        .arg("-c")
        .arg("ulimit -c 0; ulimit -v 6000000; exec \"$0\" worker")
        .arg(me)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Proc { child, rx }
}

fn run(inp: &str, outp: &str, timeout_ms: u64) {
    let f = BufReader::new(std::fs::File::open(inp).unwrap());
    let mut o = std::io::BufWriter::new(std::fs::File::create(outp).unwrap());
    let mut p: Option<Proc> = None;
    //  enough is known after a few hangs
    let mut hangs = 0;
    for line in f.lines() {
        let line = line.unwrap();
        if hangs >= 3 {
            writeln!(o, "{}", obj(vec![("bad", s("skipped"))]).text()).unwrap();
            continue;
        }
        let mut w = p.take().unwrap_or_else(start);
        let sent = writeln!(w.child.stdin.as_mut().unwrap(), "{}", line).is_ok();
        let ans = if sent {
            w.rx.recv_timeout(Duration::from_millis(timeout_ms))
        } else {
            Err(mpsc::RecvTimeoutError::Disconnected)
        };
        match ans {
            Ok(a) => {
                writeln!(o, "{}", a).unwrap();
                p = Some(w);
            }
            Err(e) => {
                let what = match e {
                    mpsc::RecvTimeoutError::Timeout => {
                        hangs += 1;
                        "hang"
                    }
                    mpsc::RecvTimeoutError::Disconnected => "crash",
                };
                let _ = w.child.kill();
                let _ = w.child.wait();
                let j: J = obj(vec![("bad", s(what))]);
                writeln!(o, "{}", j.text()).unwrap();
            }
        }
    }
    if let Some(mut w) = p {
        drop(w.child.stdin.take());
        let _ = w.child.wait();
    }
}
