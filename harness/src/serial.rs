//! Server mode of the serial build, asked by the parallel build (C18).
use crate::props_lib::{det_outputs, DetCase};
use std::io::{BufRead, Write};

pub fn digest(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
        h ^= h >> 29;
    }
    h
}

/// Reads one JSON case per line, answers with the digests of its outputs.
pub fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for l in stdin.lock().lines() {
        let c: DetCase = serde_json::from_str(&l.unwrap()).unwrap();
        let r = crate::run::guarded(|| det_outputs(&c, 0x11));
        match r {
            Ok((e, d)) => writeln!(out, "{} {}", digest(&e), digest(&d)).unwrap(),
            Err(_) => writeln!(out, "panic").unwrap(),
        }
        out.flush().unwrap();
    }
}

#[cfg(feature = "par")]
pub fn ask(c: &DetCase) -> (u64, u64) {
    use std::cell::RefCell;
    use std::io::BufReader;
    use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
    struct Server(Child, ChildStdin, BufReader<ChildStdout>);
    impl Drop for Server {
        fn drop(&mut self) {
            let _ = self.0.kill();
            let _ = self.0.wait();
        }
    }
    thread_local! { static S: RefCell<Option<Server>> = const { RefCell::new(None) }; }
    S.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let path = std::env::var("VH_SERIAL").unwrap_or_else(|_| {
                eprintln!("ERROR: VH_SERIAL not set");
                std::process::exit(3)
            });
            let mut ch = Command::new(path).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| {
                eprintln!("ERROR: serial build not started: {e}");
                std::process::exit(3)
            });
            let i = ch.stdin.take().unwrap();
            let o = BufReader::new(ch.stdout.take().unwrap());
            *s = Some(Server(ch, i, o));
        }
        let sv = s.as_mut().unwrap();
        writeln!(sv.1, "{}", serde_json::to_string(c).unwrap()).unwrap();
        sv.1.flush().unwrap();
        let mut l = String::new();
        sv.2.read_line(&mut l).unwrap();
        let mut it = l.split_whitespace();
        match (it.next().and_then(|x| x.parse().ok()), it.next().and_then(|x| x.parse().ok())) {
            (Some(a), Some(b)) => (a, b),
            _ => panic!("the serial build panics on this input"),
        }
    })
}
