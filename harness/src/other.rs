//! A second build of the harness and the crate, without the parallel feature, debug assertions and
//! overflow checks, asked over a pipe.
use crate::fw::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};

fn answer(id: &str, case: &str) -> String {
    let r = match id {
        #[cfg(feature = "c45")]
        "C45" => crate::c45::answer(case),
        #[cfg(feature = "c46")]
        "C46" => crate::c46::answer(case),
        _ => panic!("unknown request {id}"),
    };
    r.replace('\n', " ")
}
/// The child process.
pub fn worker() {
    install_hook();
    watchdog();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let (id, case) = l.split_once(' ').expect("request");
        println!("R:{}", watched(|| answer(id, case)));
        std::io::stdout().flush().unwrap();
    }
}
struct Child(std::process::Child, BufReader<std::process::ChildStdout>);
impl Drop for Child {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
thread_local! {
    static CHILD: RefCell<Option<Child>> = RefCell::new(None);
}
pub fn ask(id: &str, case: &str) -> Option<String> {
    CHILD.with(|ch| {
        let mut ch = ch.borrow_mut();
        if ch.is_none() {
            // .../debug/vh and .../plain/vhplain
            let exe = std::env::current_exe().unwrap();
            let other = exe.parent().unwrap().parent().unwrap().join("plain").join("vhplain");
            let mut p = std::process::Command::new(other)
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .expect("the second build");
            let o = BufReader::new(p.stdout.take().unwrap());
            *ch = Some(Child(p, o));
        }
        let c = ch.as_mut().unwrap();
        let mut go = || -> std::io::Result<Option<String>> {
            let i = c.0.stdin.as_mut().unwrap();
            i.write_all(format!("{id} {case}\n").as_bytes())?;
            i.flush()?;
            let mut s = String::new();
            loop {
                s.clear();
                if c.1.read_line(&mut s)? == 0 {
                    return Ok(None);
                }
                if let Some(r) = s.strip_prefix("R:") {
                    return Ok(Some(r.trim_end().to_string()));
                }
            }
        };
        let r = go().ok().flatten();
        if r.is_none() {
            *ch = None;
        }
        r
    })
}
