//! Replays rows of the KeepAlive specification into the session types of the library.
//! rows FILE    one line per [k, last, now, expired]
//! replay FILE  one line per script: [[op, observation], ...]
use chrono::{DateTime, Duration, Utc};
use ratelmq::broker::messaging::MessagingService;
use ratelmq::broker::session::Session;
use ratelmq::mqtt::events::ServerEvent;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader};
use std::net::{IpAddr, Ipv4Addr};
use tokio::sync::mpsc;

fn lines(f: &str) -> impl Iterator<Item = Value> {
    BufReader::new(std::fs::File::open(f).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
}

fn session(id: &str, k: u64, last: DateTime<Utc>) -> Session {
    let (tx, _rx) = mpsc::channel::<ServerEvent>(1);
    Session::new(id.to_string(), IpAddr::V4(Ipv4Addr::LOCALHOST), false, tx, k as u16, last)
}

fn rows(f: &str) -> Value {
    let bases = [Utc::now(), DateTime::<Utc>::from(std::time::UNIX_EPOCH) + Duration::milliseconds(951_782_399_750)];
    let mut n = 0;
    for v in lines(f) {
        let (k, last, now) = (v[0].as_u64().unwrap(), v[1].as_i64().unwrap(), v[2].as_i64().unwrap());
        for base in bases {
            let s = session("c", k, base + Duration::milliseconds(last));
            let got = s.is_keep_alive_expired(&(base + Duration::milliseconds(now)));
            n += 1;
            if got != v[3].as_bool().unwrap() {
                return json!({"bad": {"row": v, "base": base.to_rfc3339(), "got": got}});
            }
        }
    }
    json!({"done": n})
}

fn observe(m: &MessagingService, ids: &[String], base: DateTime<Utc>) -> Value {
    let mut expired: Vec<String> = m.session_get_keep_alive_expired().iter().map(|s| s.client_id().clone()).collect();
    expired.sort();
    let mut held = BTreeMap::new();
    for id in ids {
        let s = m.session_get(id);
        assert_eq!(s.is_some(), m.session_exists(id), "get and exists disagree");
        if let Some(s) = s {
            held.insert(id.clone(), json!([s.keep_alive_seconds, (*s.last_activity() - base).num_milliseconds()]));
        }
    }
    json!({"expired": expired, "count": m.session_count(), "held": held})
}

fn replay(f: &str) -> Value {
    let (mut n, mut steps) = (0, 0);
    for v in lines(f) {
        let ids: Vec<String> = v["ids"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        let mut tries = 0;
        'again: loop {
            tries += 1;
            let base = Utc::now();
            let mut m = MessagingService::new();
            for (i, st) in v["ops"].as_array().unwrap().iter().enumerate() {
                let (e, want) = (&st[0], &st[1]);
                let id = e["id"].as_str().unwrap().to_string();
                let at = || base + Duration::milliseconds(e["t"].as_i64().unwrap());
                let mut known = Value::Null;
                match e["op"].as_str().unwrap() {
                    "insert" => m.session_insert(session(&id, e["k"].as_u64().unwrap(), at())),
                    "activity" => match m.session_get_mut(&id) {
                        Some(s) => s.set_last_activity(at()),
                        None => {}
                    },
                    "lost" => known = json!(m.connection_lost(&id).map(|s| s.client_id().clone())),
                    "disconnect" => known = json!(m.disconnect(&id).map(|s| s.client_id().clone())),
                    x => panic!("operation {}", x),
                }
                let mut got = observe(&m, &ids, base);
                got["ended"] = known;
                if Utc::now() - base > Duration::seconds(3) {
                    assert!(tries < 5, "too slow");
                    continue 'again;
                }
                if &got != want {
                    return json!({"bad": {"script": n, "step": i, "want": want, "got": got}});
                }
                steps += 1;
            }
            break;
        }
        n += 1;
    }
    json!({"done": n, "steps": steps})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = a[2].clone();
    let mode = a[1].clone();
    std::panic::set_hook(Box::new(|i| eprintln!("{}", i)));
    let r = std::panic::catch_unwind(|| if mode == "rows" { rows(&f) } else { replay(&f) });
    println!("{}", r.unwrap_or_else(|_| json!({"bad": {"panic": true}})));
}
