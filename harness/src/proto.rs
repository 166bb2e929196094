//! One session per input line, one answer per output line, in order.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

type Step<T> = fn(&mut T, &Value) -> Value;

fn session<T: Default>(step: Step<T>, line: &str, progress: &Arc<Mutex<Vec<Value>>>) {
    let v: Value = serde_json::from_str(line).expect("session json");
    let mut state = T::default();
    for op in v["ops"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| step(&mut state, op)));
        let out = match r {
            Ok(x) => json!({"ok": x}),
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({"panic": msg})
            }
        };
        let stop = out.get("panic").is_some()
            && !op.get("go_on").and_then(|x| x.as_bool()).unwrap_or(false);
        progress.lock().unwrap().push(out);
        if stop {
            break;
        }
    }
}

/// Each session runs in a
/// thread of its own; when one does not return in time the answer says so and the process ends
/// with status 3 (the caller starts another one for the remaining sessions).
pub fn serve<T: Default + 'static>(step: Step<T>) {
    std::panic::set_hook(Box::new(|_| {}));
    let limit = Duration::from_millis(std::env::args().nth(1).map(|s| s.parse().unwrap()).unwrap_or(20000));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let progress = Arc::new(Mutex::new(vec![]));
        let p2 = progress.clone();
        let (tx, rx) = mpsc::channel();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                session(step, &line, &p2);
                let _ = tx.send(());
            })
            .unwrap();
        // the limit is one for each call
        let mut seen = 0;
        let done = loop {
            let done = rx.recv_timeout(limit);
            let now = progress.lock().unwrap().len();
            if done == Err(mpsc::RecvTimeoutError::Timeout) && now > seen {
                seen = now;
                continue;
            }
            break done;
        };
        let mut steps = progress.lock().unwrap().clone();
        if done == Err(mpsc::RecvTimeoutError::Timeout) {
            steps.push(json!({"hang": limit.as_millis() as u64}));
        } else if done.is_err() {
            std::process::exit(4);
        }
        let mut o = out.lock();
        writeln!(o, "{}", json!({"steps": steps})).unwrap();
        o.flush().unwrap();
        if done.is_err() {
            std::process::exit(3);
        }
    }
}
