//! Child processes with a time limit.
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

pub struct Done {
    pub status: Option<ExitStatus>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
impl Done {
    pub fn code(&self) -> Option<i32> {
        self.status.and_then(|s| s.code())
    }
    pub fn signal(&self) -> Option<i32> {
        self.status.and_then(|s| s.signal())
    }
    pub fn timed_out(&self) -> bool {
        self.status.is_none()
    }
    pub fn how(&self) -> String {
        match self.status {
            Some(s) => s.to_string(),
            None => "no end within the time limit".into(),
        }
    }
}
/// Runs `c` with its stdin as configured, or fed with the pieces given.
pub fn run(c: &mut Command, feed: Option<Vec<Vec<u8>>>, limit: Duration) -> std::io::Result<Done> {
    if feed.is_some() {
        c.stdin(Stdio::piped());
    }
    let mut ch = c.spawn()?;
    let w = feed.map(|pieces| {
        let mut i = ch.stdin.take().expect("stdin");
        std::thread::spawn(move || {
            for p in pieces {
                if i.write_all(&p).and_then(|_| i.flush()).is_err() {
                    return;
                }
                std::thread::yield_now();
            }
        })
    });
    fn slurp(r: Option<impl Read + Send + 'static>) -> Option<std::thread::JoinHandle<Vec<u8>>> {
        r.map(|mut r| {
            std::thread::spawn(move || {
                let mut v = vec![];
                let _ = r.read_to_end(&mut v);
                v
            })
        })
    }
    let o = slurp(ch.stdout.take());
    let e = slurp(ch.stderr.take());
    let t0 = Instant::now();
    let mut nap = 200;
    let status = loop {
        if let Some(s) = ch.try_wait()? {
            break Some(s);
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(20_000);
    };
    if let Some(w) = w {
        let _ = w.join();
    }
    let out = o.map(|t| t.join().unwrap_or_default()).unwrap_or_default();
    let err = e.map(|t| t.join().unwrap_or_default()).unwrap_or_default();
    Ok(Done { status, out, err })
}
