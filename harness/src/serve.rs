//! Cases run in another build of the same check: a program that answers cases on its standard input.
use crate::engine::*;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// Answers cases until the input ends.
pub fn serve(check: &dyn Check) {
    install_hook();
    quiet();
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let Some(c) = serde_json::from_str::<Value>(&l).ok().and_then(|v| Case::from_json(&v)) else { break };
        let (r, cx) = exec(check, &c, false);
        let ls: Vec<&str> = cx.labels.keys().copied().collect();
        let v = json!({"err": r.err(), "nt": cx.nontrivial, "checks": cx.checks, "labels": ls});
        let mut o = out.lock();
        if writeln!(o, "{v}").and_then(|()| o.flush()).is_err() {
            break;
        }
    }
}

struct Srv {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Srv {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static SRV: RefCell<BTreeMap<String, Srv>> = const { RefCell::new(BTreeMap::new()) };
}

/// The answer of the program at `path` (below the harness directory); `None` when it died.
pub fn ask(path: &str, c: &Case) -> Option<Value> {
    SRV.with(|s| {
        let mut s = s.borrow_mut();
        if !s.contains_key(path) {
            let home = std::env::var("RV_HOME").unwrap_or_else(|_| "/verif".into());
            let exe = format!("{home}/harness/{path}");
            let mut child = Command::new(&exe).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| {
                eprintln!("harness: {exe}: {e}");
                std::process::exit(2)
            });
            let to = child.stdin.take().unwrap();
            let from = BufReader::new(child.stdout.take().unwrap());
            s.insert(path.into(), Srv { child, to, from });
        }
        let x = s.get_mut(path).unwrap();
        let r = (|| {
            writeln!(x.to, "{}", c.to_json()).ok()?;
            x.to.flush().ok()?;
            let mut l = String::new();
            x.from.read_line(&mut l).ok()?;
            serde_json::from_str(&l).ok()
        })();
        if r.is_none() {
            s.remove(path);
        }
        r
    })
}
