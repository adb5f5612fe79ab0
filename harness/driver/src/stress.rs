//! Concurrent clients.  Every client follows its own script without any coordination except the
//! waits the script asks for; what each connection sent and received is recorded with stamps
//! from one global counter (a send is stamped before the write, a receipt after the read), for
//! validation against the specification.
use crate::broker::Broker;
use crate::net::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

struct Shared {
    stamp: AtomicU64,
    activity: AtomicU64,
    stop: AtomicBool,
    hang: Mutex<Option<String>>,
}

struct Rec {
    recv: Mutex<Vec<(u64, Option<Vec<u8>>)>>,
    replies: AtomicU64,
    done: AtomicBool,
    gone: AtomicBool,
}

struct Handle {
    w: Option<Conn>,
    rec: Arc<Rec>,
    th: Option<std::thread::JoinHandle<()>>,
}

fn reader(mut c: Conn, rec: Arc<Rec>, sh: Arc<Shared>) {
    loop {
        match c.next(Duration::from_millis(10)) {
            Ok(Item::Packet(mut p)) => {
                // the tail of a long message is known
                if p.len() > 1500 && p[600..].iter().all(|x| *x == b'x') {
                    p.truncate(600);
                }
                let st = sh.stamp.fetch_add(1, Ordering::SeqCst);
                let reply = p[0] >> 4 != 3;
                rec.recv.lock().unwrap().push((st, Some(p)));
                if reply {
                    rec.replies.fetch_add(1, Ordering::SeqCst);
                }
                sh.activity.fetch_add(1, Ordering::SeqCst);
            }
            Ok(Item::Eof) => {
                let st = sh.stamp.fetch_add(1, Ordering::SeqCst);
                rec.recv.lock().unwrap().push((st, None));
                rec.replies.fetch_add(1, Ordering::SeqCst);
                rec.done.store(true, Ordering::SeqCst);
                sh.activity.fetch_add(1, Ordering::SeqCst);
                return;
            }
            Ok(Item::Garbage(p)) => {
                let st = sh.stamp.fetch_add(1, Ordering::SeqCst);
                let mut g = vec![0xff];
                g.extend(p);
                rec.recv.lock().unwrap().push((st, Some(g)));
                rec.replies.fetch_add(1, Ordering::SeqCst);
                rec.done.store(true, Ordering::SeqCst);
                return;
            }
            Err(_) => {
                if sh.stop.load(Ordering::SeqCst) || rec.gone.load(Ordering::SeqCst) {
                    return;
                }
            }
        }
    }
}

fn client(ops: Vec<Value>, addrs: Vec<std::net::SocketAddr>, sh: Arc<Shared>, bar: Arc<Barrier>, timeout: Duration)
    -> (Vec<Value>, HashMap<u64, Handle>) {
    let mut hs: HashMap<u64, Handle> = HashMap::new();
    let mut sends: Vec<Value> = Vec::new();
    let mut failed = false;
    for op in ops.iter() {
        let kind = op[0].as_str().unwrap();
        if failed && kind != "B" {
            continue;
        }
        match kind {
            "o" => {
                let k = op[1].as_u64().unwrap();
                let a = addrs[op[2].as_u64().unwrap() as usize % addrs.len()];
                match Conn::open(&a, timeout, 0) {
                    Ok(w) => {
                        let s2 = w.s.try_clone().unwrap();
                        let r = Conn { s: s2, buf: Vec::new(), pos: 0, eof: false, sent_err: false, bg: None, eating: std::cell::Cell::new(false) };
                        let rec = Arc::new(Rec { recv: Mutex::new(Vec::new()), replies: AtomicU64::new(0), done: AtomicBool::new(false), gone: AtomicBool::new(false) });
                        let (rc, shc) = (rec.clone(), sh.clone());
                        let th = std::thread::spawn(move || reader(r, rc, shc));
                        hs.insert(k, Handle { w: Some(w), rec, th: Some(th) });
                    }
                    Err(e) => {
                        *sh.hang.lock().unwrap() = Some(format!("connection {} refused: {}", k, e));
                        failed = true;
                    }
                }
            }
            "s" => {
                let k = op[1].as_u64().unwrap();
                let h = hs.get_mut(&k).unwrap();
                let mut data = Vec::new();
                let mut idx = Vec::new();
                for p in op[2].as_array().unwrap() {
                    idx.push(p[0].clone());
                    data.extend(unhex(p[1].as_str().unwrap()));
                }
                let st = sh.stamp.fetch_add(1, Ordering::SeqCst);
                sends.push(json!([k, st, idx]));
                if h.w.as_mut().unwrap().send(&data).is_err() {
                    *sh.hang.lock().unwrap() = Some(format!("connection {}: the broker does not read", k));
                    failed = true;
                }
            }
            "h" => {
                let k = op[1].as_u64().unwrap();
                let st = sh.stamp.fetch_add(1, Ordering::SeqCst);
                sends.push(json!([k, st, [op[2].clone()]]));
                hs.get_mut(&k).unwrap().w.as_mut().unwrap().half();
            }
            // the client closes its socket
            "x" => {
                let k = op[1].as_u64().unwrap();
                let h = hs.get_mut(&k).unwrap();
                h.rec.gone.store(true, Ordering::SeqCst);
                let _ = h.th.take().unwrap().join();
                let st = sh.stamp.fetch_add(1, Ordering::SeqCst);
                sends.push(json!([k, st, [op[2].clone()]]));
                if op[3] == "rst" {
                    h.w.as_ref().unwrap().rst_on_close();
                }
                h.w = None;
            }
            "a" => {
                let k = op[1].as_u64().unwrap();
                let want = op[2].as_u64().unwrap();
                let rec = hs[&k].rec.clone();
                let mut spins = 0u32;
                let mut healthy = Duration::ZERO;
                while rec.replies.load(Ordering::SeqCst) < want && !rec.done.load(Ordering::SeqCst) {
                    spins += 1;
                    if spins < 200 {
                        std::thread::yield_now();
                        continue;
                    }
                    let t = Instant::now();
                    std::thread::sleep(Duration::from_micros(200));
                    if t.elapsed() < Duration::from_millis(20) {
                        healthy += t.elapsed();
                    }
                    if healthy > timeout {
                        *sh.hang.lock().unwrap() = Some(format!(
                            "connection {}: {} of {} replies arrived", k, rec.replies.load(Ordering::SeqCst), want));
                        failed = true;
                        break;
                    }
                }
            }
            "y" => {
                let a = sh.activity.load(Ordering::SeqCst);
                let t = Instant::now();
                while sh.activity.load(Ordering::SeqCst) == a && t.elapsed() < Duration::from_millis(2) {
                    std::hint::spin_loop();
                }
            }
            "u" => std::thread::sleep(Duration::from_micros(op[1].as_u64().unwrap())),
            "B" => {
                bar.wait();
            }
            _ => panic!("unknown op {}", kind),
        }
    }
    (sends, hs)
}

fn run(b: &mut Broker, run: &Value, timeout: Duration) -> Value {
    let sh = Arc::new(Shared { stamp: AtomicU64::new(1), activity: AtomicU64::new(0), stop: AtomicBool::new(false), hang: Mutex::new(None) });
    let cl = run["clients"].as_array().unwrap();
    let bar = Arc::new(Barrier::new(cl.len()));
    let mut ths = Vec::new();
    for c in cl {
        let (ops, addrs, sh, bar) = (c.as_array().unwrap().clone(), b.addrs.clone(), sh.clone(), bar.clone());
        ths.push(std::thread::spawn(move || client(ops, addrs, sh, bar, timeout)));
    }
    let mut sends = Vec::new();
    let mut handles = HashMap::new();
    for t in ths {
        let (s, h) = t.join().unwrap();
        sends.extend(s);
        handles.extend(h);
    }
    sh.stop.store(true, Ordering::SeqCst);
    let mut recvs = serde_json::Map::new();
    for (k, h) in handles.iter_mut() {
        if let Some(t) = h.th.take() {
            let _ = t.join();
        }
        let v: Vec<Value> = h.rec.recv.lock().unwrap().iter()
            .map(|(st, p)| match p { Some(p) => json!([st, hex(p)]), None => json!([st, Value::Null]) }).collect();
        recvs.insert(k.to_string(), Value::Array(v));
    }
    let hang = sh.hang.lock().unwrap().clone();
    let alive = b.alive();
    json!({"id": run["id"], "sends": sends, "recvs": recvs, "hang": hang, "alive": alive, "stderr": b.stderr_tail()})
}

pub fn main(job: &str) -> i32 {
    let text = std::fs::read_to_string(job).unwrap();
    let mut lines = text.lines();
    let hdr: Value = serde_json::from_str(lines.next().unwrap()).unwrap();
    let runs: Arc<Vec<String>> = Arc::new(lines.map(|s| s.to_string()).collect());
    let workers = hdr["workers"].as_u64().unwrap_or(2) as usize;
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(std::io::stdout()));
    let fails = Arc::new(AtomicUsize::new(0));
    let hdr = Arc::new(hdr);
    let mut hs = Vec::new();
    for w in 0..workers {
        let (hdr, runs, next, out, fails) = (hdr.clone(), runs.clone(), next.clone(), out.clone(), fails.clone());
        hs.push(std::thread::spawn(move || {
            let timeout = Duration::from_millis(hdr["timeout_ms"].as_u64().unwrap_or(15000));
            let mut broker: Option<Broker> = None;
            let mut n = w;
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= runs.len() || fails.load(Ordering::SeqCst) >= 2 {
                    break;
                }
                let r: Value = serde_json::from_str(&runs[i]).unwrap();
                if broker.is_none() || i % 10 == 0 {
                    broker = None;
                    let mut h = (*hdr).clone();
                    if let Some(envs) = hdr["envs"].as_array() {
                        h["env"] = envs[n % envs.len()].clone();
                        n += 1;
                    }
                    match Broker::start(&h) {
                        Ok(b) => broker = Some(b),
                        Err(e) => {
                            let _ = writeln!(out.lock().unwrap(), "{}", json!({"startfail": e}));
                            break;
                        }
                    }
                }
                let v = run(broker.as_mut().unwrap(), &r, timeout);
                if !v["hang"].is_null() || v["alive"] == json!(false) {
                    fails.fetch_add(1, Ordering::SeqCst);
                    broker = None;
                }
                let _ = writeln!(out.lock().unwrap(), "{}", v);
            }
        }));
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("worker failed");
            return 2;
        }
    }
    0
}
