//! Executes scripts (one per line of the job file, after a header line) against real brokers
//! and compares everything every connection receives with what the script expects.
use crate::broker::Broker;
use crate::net::*;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::io::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Exp {
    Packet(Vec<u8>),
    Optional(Vec<u8>),
    Eof,
}

struct C {
    conn: Conn,
    exp: VecDeque<Exp>,
    held: Option<Item>,
    /// the connection ends, possibly before everything expected has arrived
    cut: bool,
    optional_seen: u64,
    optional_missing: u64,
}

pub struct Ctx {
    ignore: Vec<String>,
    timeout: Duration,
}

struct Stats {
    sent: u64,
    recv: u64,
    ops: u64,
    opt_seen: u64,
    opt_missing: u64,
    filled: u64,
}

#[derive(Clone)]
struct Bad {
    op: usize,
    kind: String,
    conn: u64,
    exp: String,
    got: String,
}

fn topic_of(p: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    // (topic, payload) of a PUBLISH
    let mut i = 1;
    while *p.get(i)? & 128 != 0 {
        i += 1;
    }
    i += 1;
    let n = (*p.get(i)? as usize) << 8 | *p.get(i + 1)? as usize;
    let t = p.get(i + 2..i + 2 + n)?.to_vec();
    let mut j = i + 2 + n;
    if p[0] & 6 != 0 {
        j += 2;
    }
    Some((t, p.get(j..)?.to_vec()))
}

fn same(exp: &[u8], got: &[u8], ignore: &[String]) -> bool {
    if exp == got {
        return true;
    }
    if ignore.is_empty() || exp[0] >> 4 != got[0] >> 4 {
        return false;
    }
    let ig = |s: &str| ignore.iter().any(|x| x == s);
    match exp[0] >> 4 {
        3 => {
            if !ig("flags") && exp[0] != got[0] {
                return false;
            }
            match (topic_of(exp), topic_of(got)) {
                (Some((t, p)), Some((u, q))) => t == u && (ig("payload") || p == q),
                _ => false,
            }
        }
        2 => exp.len() == 4 && got.len() == 4 && (ig("sp") || exp[2] == got[2]) && exp[3] == got[3],
        9 => {
            if exp.len() < 5 || got.len() < 5 || exp[0] != got[0] {
                return false;
            }
            let h = if exp.len() > 131 { 3 } else { 2 };
            (ig("pid") || exp[h..h + 2] == got[h..h + 2]) && (ig("codes") || exp[h + 2..] == got[h + 2..])
        }
        11 => exp[0] == got[0] && exp.len() == got.len() && ig("pid"),
        _ => false,
    }
}

fn show(b: &[u8]) -> String {
    if b.len() <= 160 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..120]), b.len())
    }
}

fn show_item(i: &Item) -> String {
    match i {
        Item::Packet(p) => show(p),
        Item::Eof => "EOF".into(),
        Item::Garbage(p) => format!("garbage {}", show(p)),
    }
}

impl C {
    /// read until everything expected has arrived
    fn drain(&mut self, ctx: &Ctx, st: &mut Stats) -> Result<(), (String, String, String)> {
        self.drain_for(ctx, st, ctx.timeout)
    }

    fn drain_for(&mut self, ctx: &Ctx, st: &mut Stats, timeout: Duration) -> Result<(), (String, String, String)> {
        while let Some(e) = self.exp.front().cloned() {
            let it = match self.held.take() {
                Some(i) => i,
                None => match self.conn.next(timeout) {
                    Ok(i) => {
                        st.recv += 1;
                        i
                    }
                    Err(Fail::Timeout) => {
                        let e = match e {
                            Exp::Packet(p) | Exp::Optional(p) => show(&p),
                            Exp::Eof => "EOF".into(),
                        };
                        return Err(("timeout".into(), e, "nothing".into()));
                    }
                },
            };
            match (&e, &it) {
                (Exp::Packet(p), Item::Packet(q)) if same(p, q, &ctx.ignore) => {}
                (Exp::Eof, Item::Eof) => {}
                (_, Item::Eof) if self.cut => {
                    self.exp.clear();
                    return Ok(());
                }
                (_, Item::Garbage(_)) if self.cut && self.conn.eof => {
                    self.exp.clear();
                    return Ok(());
                }
                (Exp::Optional(p), Item::Packet(q)) if same(p, q, &ctx.ignore) => {
                    self.optional_seen += 1;
                    st.opt_seen += 1;
                }
                (Exp::Optional(_), _) => {
                    self.optional_missing += 1;
                    st.opt_missing += 1;
                    self.held = Some(it);
                }
                (e, it) => {
                    let e = match e {
                        Exp::Packet(p) | Exp::Optional(p) => show(p),
                        Exp::Eof => "EOF".into(),
                    };
                    return Err(("mismatch".into(), e, show_item(it)));
                }
            }
            self.exp.pop_front();
        }
        Ok(())
    }
}

fn s<'a>(v: &'a Value, i: usize) -> &'a str {
    v[i].as_str().unwrap()
}
fn n(v: &Value, i: usize) -> u64 {
    v[i].as_u64().unwrap()
}

fn run_script(b: &mut Broker, ops: &[Value], ctx: &Ctx, st: &mut Stats) -> Result<(Vec<u64>, bool), Bad> {
    let mut cs: HashMap<u64, C> = HashMap::new();
    let mut probes = Vec::new();
    let mut ended = false;
    for (k, op) in ops.iter().enumerate() {
        st.ops += 1;
        let kind = s(op, 0);
        let fail = |c: u64, r: (String, String, String)| Bad { op: k, kind: r.0, conn: c, exp: r.1, got: r.2 };
        match kind {
            "o" => {
                let (c, l) = (n(op, 1), n(op, 2) as usize);
                let rcv = op.get(3).and_then(|v| v.as_u64()).unwrap_or(0) as u32;
                let a = b.addrs[l % b.addrs.len()];
                let from = op.get(4).and_then(|v| v.as_str()).and_then(|v| v.parse().ok());
                match Conn::open_from(&a, ctx.timeout, rcv, from) {
                    Ok(conn) => {
                        cs.insert(c, C { conn, exp: VecDeque::new(), held: None, cut: false, optional_seen: 0, optional_missing: 0 });
                    }
                    Err(e) => return Err(fail(c, ("refused".into(), "connection".into(), e.to_string()))),
                }
            }
            "s" | "g" | "r" => {
                let c = n(op, 1);
                let mut data = unhex(s(op, 2));
                if kind == "g" {
                    data.extend(filler(n(op, 3) as usize, n(op, 4)));
                }
                if kind == "r" {
                    // repeat
                    let one = data.clone();
                    for _ in 1..n(op, 3) {
                        data.extend_from_slice(&one);
                    }
                }
                st.sent += 1;
                if let Some(c_) = cs.get_mut(&c) {
                    if let Err(Fail::Timeout) = c_.conn.send(&data) {
                        return Err(fail(c, ("timeout".into(), "broker reads".into(), "write blocked".into())));
                    }
                }
            }
            "t" => {
                // segmented: cut points, pause in microseconds
                let c = n(op, 1);
                let mut data = unhex(s(op, 2));
                let cuts: Vec<usize> = op[3].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let gap = n(op, 4);
                if let Some(g) = op.get(5) {
                    data.extend(filler(g.as_u64().unwrap() as usize, n(op, 6)));
                }
                st.sent += 1;
                let mut from = 0;
                for cut in cuts.iter().chain(std::iter::once(&data.len())) {
                    let cut = (*cut).min(data.len());
                    if cut > from {
                        if from > 0 {
                            std::thread::sleep(Duration::from_micros(gap));
                        }
                        if let Some(c_) = cs.get_mut(&c) {
                            if let Err(Fail::Timeout) = c_.conn.send(&data[from..cut]) {
                                return Err(fail(c, ("timeout".into(), "broker reads".into(), "write blocked".into())));
                            }
                        }
                        from = cut;
                    }
                }
            }
            "T" => {
                // parts [hex, filler size, filler seed], sent as one stream with cuts
                let c = n(op, 1);
                let mut data = Vec::new();
                for p in op[2].as_array().unwrap() {
                    data.extend(unhex(s(p, 0)));
                    data.extend(filler(n(p, 1) as usize, n(p, 2)));
                }
                let cuts: Vec<usize> = op[3].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let gap = n(op, 4);
                st.sent += 1;
                let mut from = 0;
                for cut in cuts.iter().chain(std::iter::once(&data.len())) {
                    let cut = (*cut).min(data.len());
                    if cut > from {
                        if from > 0 {
                            std::thread::sleep(Duration::from_micros(gap));
                        }
                        if let Some(c_) = cs.get_mut(&c) {
                            if let Err(Fail::Timeout) = c_.conn.send(&data[from..cut]) {
                                return Err(fail(c, ("timeout".into(), "broker reads".into(), "write blocked".into())));
                            }
                        }
                        from = cut;
                    }
                }
            }
            "q" | "m" | "G" => {
                let c = n(op, 1);
                let mut data = unhex(s(op, 2));
                if kind == "G" {
                    data.extend(filler(n(op, 3) as usize, n(op, 4)));
                }
                let e = if kind == "m" { Exp::Optional(data) } else { Exp::Packet(data) };
                if let Some(c_) = cs.get_mut(&c) {
                    c_.exp.push_back(e);
                }
            }
            "K" => {
                // K reader source witness topic size seed max: messages, one after the other (the witness
                // gets each before the next is sent), until one has not been written completely to the
                // reader's socket, because the reader does not read
                let (r, src, wit) = (n(op, 1), n(op, 2), n(op, 3));
                let topic = s(op, 4);
                let mut owed = 0usize;
                let mut k = 0;
                let mut full = false;
                // (acknowledgements may be late, so what has arrived and what is not acknowledged may overlap)
                let base = cs.get(&r).and_then(|c_| c_.conn.peer_written());
                while k < n(op, 7) && !full {
                    // large ones first
                    let size = if owed < 3_300_000 { 60_000 } else { n(op, 5) as usize };
                    let mut data = vec![0x30];
                    let mut len = 2 + topic.len() + size;
                    loop {
                        data.push((len % 128) as u8 | if len > 127 { 128 } else { 0 });
                        len /= 128;
                        if len == 0 {
                            break;
                        }
                    }
                    data.extend([(topic.len() >> 8) as u8, topic.len() as u8]);
                    data.extend(topic.as_bytes());
                    data.extend(filler(size, n(op, 6) + k));
                    k += 1;
                    st.sent += 1;
                    owed += data.len();
                    for c in [r, wit] {
                        if let Some(c_) = cs.get_mut(&c) {
                            c_.exp.push_back(Exp::Packet(data.clone()));
                        }
                    }
                    if let Some(c_) = cs.get_mut(&src) {
                        if let Err(Fail::Timeout) = c_.conn.send(&data) {
                            return Err(fail(src, ("timeout".into(), "broker reads".into(), "write blocked".into())));
                        }
                    }
                    if let Some(c_) = cs.get_mut(&wit) {
                        if let Err(e) = c_.drain(ctx, st) {
                            return Err(fail(wit, e));
                        }
                    }
                    if let Some(c_) = cs.get_mut(&r) {
                        let mut still = 0;
                        let mut before = 0;
                        loop {
                            let here = c_.conn.buf.len() - c_.conn.pos + c_.conn.inq();
                            if here >= owed {
                                break;
                            }
                            let have = match (base, c_.conn.peer_written()) {
                                (Some(b), Some(w)) => w.wrapping_sub(b),
                                _ => here + c_.conn.peer_outq().unwrap_or(owed),
                            };
                            if have >= owed {
                                break;
                            }
                            still = if have == before { still + 1 } else { 0 };
                            before = have;
                            if still == 8 {
                                full = true;
                                break;
                            }
                            std::thread::sleep(Duration::from_millis(2));
                        }
                    }
                }
                if full {
                    st.filled += 1;
                }
            }
            "Q" => {
                // the same packet, repeated
                let c = n(op, 1);
                let data = unhex(s(op, 2));
                if let Some(c_) = cs.get_mut(&c) {
                    for _ in 0..n(op, 3) {
                        c_.exp.push_back(Exp::Packet(data.clone()));
                    }
                }
            }
            "z" => {
                if let Some(c_) = cs.get_mut(&n(op, 1)) {
                    c_.exp.push_back(Exp::Eof);
                }
            }
            "i" => {
                // until something has arrived, but not longer than this
                let t = Instant::now();
                if let Some(c_) = cs.get(&n(op, 1)) {
                    while c_.conn.inq() == 0 && t.elapsed() < Duration::from_millis(n(op, 2)) {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
            }
            "cut" => {
                if let Some(c_) = cs.get_mut(&n(op, 1)) {
                    c_.exp.push_back(Exp::Eof);
                    c_.cut = true;
                }
            }
            "d" | "p" => {
                let c = n(op, 1);
                if let Some(c_) = cs.get_mut(&c) {
                    if kind == "p" {
                        c_.exp.push_back(Exp::Packet(vec![0xd0, 0]));
                        if let Err(Fail::Timeout) = c_.conn.send(&[0xc0, 0]) {
                            return Err(fail(c, ("timeout".into(), "broker reads".into(), "write blocked".into())));
                        }
                    }
                    c_.drain(ctx, st).map_err(|r| fail(c, r))?;
                }
            }
            "D" => {
                // several connections at the same time
                let conns: Vec<u64> = op[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                let mut idle = Duration::ZERO;
                loop {
                    let mut open = 0;
                    let part = |cs: &HashMap<u64, C>| conns.iter().filter_map(|c| cs.get(c)).map(|c| c.conn.buf.len() as u64).sum::<u64>();
                    let before = (st.recv, part(&cs));
                    let mut last = None;
                    for c in &conns {
                        if let Some(c_) = cs.get_mut(c) {
                            match c_.drain_for(ctx, st, Duration::from_millis(10)) {
                                Ok(()) => {}
                                Err(e) if e.0 == "timeout" => {
                                    open += 1;
                                    last = Some((*c, e));
                                }
                                Err(e) => return Err(fail(*c, e)),
                            }
                        }
                    }
                    if open == 0 {
                        break;
                    }
                    if (st.recv, part(&cs)) != before {
                        idle = Duration::ZERO;
                    } else {
                        idle += Duration::from_millis(10 * open);
                        if idle > ctx.timeout {
                            let (c, e) = last.unwrap();
                            return Err(fail(c, e));
                        }
                    }
                }
            }
            "bg" => {
                if let Some(c_) = cs.get_mut(&n(op, 1)) {
                    c_.conn.background();
                }
            }
            "v" => {
                if let Some(c_) = cs.get_mut(&n(op, 1)) {
                    c_.conn.nibble(n(op, 2) as usize);
                }
            }
            "w" => std::thread::sleep(Duration::from_micros(n(op, 1))),
            "x" => {
                let c = n(op, 1);
                if let Some(mut c_) = cs.remove(&c) {
                    match s(op, 2) {
                        "rst" => c_.conn.rst_on_close(),
                        "half" => {
                            c_.conn.half();
                            cs.insert(c, c_);
                            continue;
                        }
                        _ => {}
                    }
                    // close: dropping the socket
                    c_.conn.stop();
                    c_.conn.pos = 0;
                }
            }
            "n" => {
                // nothing may arrive for a while
                let c = n(op, 1);
                let ms = n(op, 2);
                if let Some(c_) = cs.get_mut(&c) {
                    if let Ok(i) = c_.conn.next(Duration::from_millis(ms)) {
                        return Err(fail(c, ("mismatch".into(), "nothing".into(), show_item(&i))));
                    }
                }
            }
            "F" => {
                // the broker's sockets: those it had before the first client plus n
                let want = b.base() as i64 + op[1].as_i64().unwrap();
                let mut healthy = Duration::ZERO;
                loop {
                    let have = b.sockets() as i64;
                    if have <= want {
                        break;
                    }
                    if healthy > ctx.timeout {
                        return Err(fail(0, ("sockets".into(), want.to_string(), have.to_string())));
                    }
                    let t = Instant::now();
                    std::thread::sleep(Duration::from_millis(2));
                    if t.elapsed() < Duration::from_millis(20) {
                        healthy += t.elapsed();
                    }
                }
            }
            "O" => {
                // n connections that are opened and left alone
                let (c0, k_, l) = (n(op, 1), n(op, 2), n(op, 3) as usize);
                let a = b.addrs[l % b.addrs.len()];
                for c in c0..c0 + k_ {
                    match Conn::open(&a, ctx.timeout, 0) {
                        Ok(conn) => {
                            cs.insert(c, C { conn, exp: VecDeque::new(), held: None, cut: false, optional_seen: 0, optional_missing: 0 });
                        }
                        Err(e) => return Err(fail(c, ("refused".into(), "connection".into(), e.to_string()))),
                    }
                }
            }
            "X" => {
                // close n connections
                let (c0, k_) = (n(op, 1), n(op, 2));
                for c in c0..c0 + k_ {
                    if let Some(mut c_) = cs.remove(&c) {
                        if s(op, 3) == "rst" {
                            c_.conn.rst_on_close();
                        }
                        c_.conn.stop();
                    }
                }
            }
            "cyc" => {
                // cyc n listener [[send, [expected..]]..] how overlap: connections that come and go, one after the
                // other; each stays for that many more ("" stands for the end of the stream)
                let overlap = op[5].as_u64().unwrap_or(0) as usize;
                let mut open = std::collections::VecDeque::new();
                let (k_, l) = (n(op, 1), n(op, 2) as usize);
                let a = b.addrs[l % b.addrs.len()];
                let steps: Vec<(Vec<u8>, Vec<Vec<u8>>)> = op[3]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| (unhex(s(x, 0)), x[1].as_array().unwrap().iter().map(|e| unhex(e.as_str().unwrap())).collect()))
                    .collect();
                for i in 0..k_ {
                    let mut conn = match Conn::open(&a, ctx.timeout, 0) {
                        Ok(c) => c,
                        Err(e) => return Err(fail(i, ("refused".into(), "connection".into(), e.to_string()))),
                    };
                    for (data, exp) in &steps {
                        st.sent += 1;
                        if let Err(Fail::Timeout) = conn.send(data) {
                            return Err(fail(i, ("timeout".into(), "broker reads".into(), "write blocked".into())));
                        }
                        for e in exp {
                            match conn.next(ctx.timeout) {
                                Ok(Item::Eof) if e.is_empty() => {}
                                Ok(Item::Packet(q)) if !e.is_empty() && same(e, &q, &ctx.ignore) => st.recv += 1,
                                Ok(x) => return Err(fail(i, ("mismatch".into(), show(e), show_item(&x)))),
                                Err(Fail::Timeout) => return Err(fail(i, ("timeout".into(), show(e), "nothing".into()))),
                            }
                        }
                    }
                    if s(op, 4) == "rst" {
                        conn.rst_on_close();
                    }
                    open.push_back(conn);
                    if open.len() > overlap {
                        open.pop_front();
                    }
                }
            }
            "eat" => {
                // a thread reads everything that arrives from now on
                if let Some(c_) = cs.get(&n(op, 1)) {
                    c_.conn.eat();
                }
            }
            "I" => b.interrupt(),
            "E" => {
                // the process ends with this exit code, within so many milliseconds
                match b.exit_code(Duration::from_millis(n(op, 2))) {
                    Ok(k_) if k_ as i64 == op[1].as_i64().unwrap() => {}
                    Ok(k_) => return Err(fail(0, ("exit status".into(), op[1].to_string(), k_.to_string()))),
                    Err(e) => return Err(fail(0, ("exit".into(), op[1].to_string(), e))),
                }
                ended = true;
            }
            "Z" => {
                // everything ends: whatever still arrives, then the end of the stream (for each of these)
                for c in op[1].as_array().unwrap() {
                    let c = c.as_u64().unwrap();
                    if let Some(c_) = cs.get_mut(&c) {
                        loop {
                            match c_.conn.next(ctx.timeout) {
                                Ok(Item::Packet(_)) => {}
                                // the last packet may be cut off
                                Ok(_) => break,
                                Err(Fail::Timeout) => return Err(fail(c, ("timeout".into(), "EOF".into(), "nothing".into()))),
                            }
                        }
                    }
                }
            }
            "L" => {
                // so many listeners
                let have = b.listening() as u64;
                if have != n(op, 1) {
                    return Err(fail(0, ("listeners".into(), n(op, 1).to_string(), have.to_string())));
                }
            }
            "A" => {
                if !b.alive() {
                    return Err(fail(0, ("died".into(), "broker process".into(), b.stderr_tail())));
                }
            }
            "M" => probes.push(b.rss_kb()),
            _ => panic!("unknown op {}", kind),
        }
    }
    Ok((probes, ended))
}

struct Report {
    text: String,
}

pub fn main(job: &str) -> i32 {
    let text = match std::fs::read_to_string(job) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", job, e);
            return 2;
        }
    };
    let mut lines = text.lines();
    let hdr: Value = serde_json::from_str(lines.next().unwrap()).unwrap();
    let paths: Vec<&str> = lines.collect();
    let workers = hdr["workers"].as_u64().unwrap_or(6) as usize;
    let max_bad = hdr["max_bad"].as_u64().unwrap_or(3) as usize;
    let fresh = hdr["fresh"].as_bool().unwrap_or(false);
    let budget = Duration::from_secs(hdr["budget_s"].as_u64().unwrap_or(600));
    let hdr = Arc::new(hdr);
    let paths: Arc<Vec<String>> = Arc::new(paths.iter().map(|s| s.to_string()).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let bads: Arc<Mutex<Vec<Report>>> = Arc::new(Mutex::new(Vec::new()));
    let tot = Arc::new(Mutex::new((0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64)));
    let probes_all: Arc<Mutex<Vec<(u64, Vec<u64>)>>> = Arc::new(Mutex::new(Vec::new()));
    let tool_err = Arc::new(Mutex::new(None::<String>));
    let t0 = Instant::now();
    let mut hs = Vec::new();
    for w in 0..workers {
        let (hdr, paths, next, bads, tot, tool_err, probes_all) =
            (hdr.clone(), paths.clone(), next.clone(), bads.clone(), tot.clone(), tool_err.clone(), probes_all.clone());
        hs.push(std::thread::spawn(move || {
            let ctx = Ctx {
                ignore: hdr["ignore"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
                timeout: Duration::from_millis(hdr["timeout_ms"].as_u64().unwrap_or(15000)),
            };
            let mut whdr = (*hdr).clone();
            if let Some(envs) = hdr["envs"].as_array() {
                // one environment per worker
                whdr["env"] = envs[w % envs.len()].clone();
            }
            let mut st = Stats { sent: 0, recv: 0, ops: 0, opt_seen: 0, opt_missing: 0, filled: 0 };
            let mut done = 0u64;
            let mut broker: Option<Broker> = None;
            let mut history: Vec<u64> = Vec::new();
            loop {
                if bads.lock().unwrap().len() >= max_bad || t0.elapsed() > budget {
                    break;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= paths.len() {
                    break;
                }
                let p: Value = serde_json::from_str(&paths[i]).unwrap();
                let id = p["id"].as_u64().unwrap();
                // a script may bring its own header entries, and then gets its own broker
                let own = p["hdr"].as_object();
                if fresh || own.is_some() {
                    broker = None;
                    history.clear();
                }
                if broker.is_none() {
                    let mut shdr = whdr.clone();
                    if let Some(o) = own {
                        for (k, v) in o {
                            shdr[k] = v.clone();
                        }
                    }
                    match Broker::start(&shdr) {
                        Ok(b) => broker = Some(b),
                        Err(e) => {
                            *tool_err.lock().unwrap() = Some(e);
                            break;
                        }
                    }
                }
                let b = broker.as_mut().unwrap();
                let mut r = run_script(b, p["ops"].as_array().unwrap(), &ctx, &mut st);
                if !matches!(r, Ok((_, true))) && !matches!(&r, Err(x) if x.kind.starts_with("exit")) && !b.alive() {
                    let e = b.stderr_tail();
                    r = Err(Bad { op: r.as_ref().err().map(|b| b.op).unwrap_or(0), kind: "died".into(), conn: 0,
                                  exp: "broker process keeps running".into(), got: e });
                }
                done += 1;
                match r {
                    Ok((pr, over)) => {
                        if !pr.is_empty() {
                            probes_all.lock().unwrap().push((id, pr));
                        }
                        history.push(id);
                        if own.is_some() || over {
                            broker = None;
                            history.clear();
                        }
                    }
                    Err(bad) => {
                        let err = b.stderr_tail();
                        let hist: Vec<u64> = history[history.len().saturating_sub(30)..].to_vec();
                        let rep = json!({"bad": {"id": id, "op": bad.op, "kind": bad.kind, "conn": bad.conn,
                            "exp": bad.exp, "got": bad.got, "stderr": err, "history": hist}});
                        bads.lock().unwrap().push(Report { text: rep.to_string() });
                        broker = None;
                        history.clear();
                    }
                }
            }
            let mut t = tot.lock().unwrap();
            t.0 += done;
            t.1 += st.sent;
            t.2 += st.recv;
            t.3 += st.ops;
            t.4 += st.opt_seen;
            t.5 += st.opt_missing;
            t.6 += st.filled;
        }));
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("worker failed");
            return 2;
        }
    }
    let out = std::io::stdout();
    let mut out = out.lock();
    for b in bads.lock().unwrap().iter() {
        let _ = writeln!(out, "{}", b.text);
    }
    if let Some(e) = tool_err.lock().unwrap().as_ref() {
        let _ = writeln!(out, "{}", json!({"startfail": e}));
    }
    let t = tot.lock().unwrap();
    let _ = writeln!(
        out,
        "{}",
        json!({"done": t.0, "sent": t.1, "recv": t.2, "ops": t.3, "opt_seen": t.4, "opt_missing": t.5, "filled": t.6,
               "probes": probes_all.lock().unwrap().iter().map(|(i, p)| json!([i, p])).collect::<Vec<_>>(),
               "wall_ms": t0.elapsed().as_millis() as u64})
    );
    0
}
