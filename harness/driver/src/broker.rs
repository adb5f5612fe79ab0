//! Starting and stopping the broker under test, each instance in its own scratch directory.
use serde_json::Value;
use std::fs;
use std::net::{SocketAddr, TcpStream};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

static NEXT: AtomicU32 = AtomicU32::new(0);

pub struct Broker {
    pub child: Child,
    pub addrs: Vec<SocketAddr>,
    pub dir: PathBuf,
    /// where the listeners are bound (the wildcard address for "any")
    bound: Vec<SocketAddr>,
    base: Option<usize>,
}

/// is somebody listening there?  (Without connecting: a connection would be a client.)
fn listening(a: &SocketAddr) -> bool {
    let (f, want) = match a {
        SocketAddr::V4(v) => {
            let o = v.ip().octets();
            ("/proc/net/tcp", format!("{:02X}{:02X}{:02X}{:02X}:{:04X}", o[3], o[2], o[1], o[0], v.port()))
        }
        SocketAddr::V6(v) => ("/proc/net/tcp6", format!("00000000000000000000000001000000:{:04X}", v.port())),
    };
    let t = match fs::read_to_string(f) {
        Ok(t) => t,
        Err(_) => return TcpStream::connect(a).is_ok(),
    };
    t.lines().any(|l| {
        let mut w = l.split_whitespace().skip(1);
        w.next() == Some(want.as_str()) && w.nth(1) == Some("0A")
    })
}

fn addr_for(n: u32, port: u16) -> SocketAddr {
    // an address of its own inside 127/8, so that parallel instances never collide
    let pid = std::process::id();
    let a = 1 + (pid >> 8) % 250;
    let b = pid % 256;
    let c = 1 + n % 250;
    format!("127.{}.{}.{}:{}", a, b, c, port).parse().unwrap()
}

impl Broker {
    /// hdr: bin, scratch, listeners (number), passwd (file content), env (object)
    pub fn start(hdr: &Value) -> Result<Broker, String> {
        let mut last = String::new();
        for _ in 0..5 {
            match Self::try_start(hdr) {
                Ok(b) => return Ok(b),
                Err(e) => last = e,
            }
        }
        Err(last)
    }

    fn try_start(hdr: &Value) -> Result<Broker, String> {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let scratch = PathBuf::from(hdr["scratch"].as_str().unwrap());
        let dir = scratch.join(format!("b{}", n));
        fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        // a number of listeners, or the kind of each: another port, another ip or ipv6
        let kinds: Vec<String> = match hdr["listeners"].as_array() {
            Some(a) => a.iter().map(|v| v.as_str().unwrap().to_string()).collect(),
            None => vec!["port".to_string(); hdr["listeners"].as_u64().unwrap_or(1) as usize],
        };
        let mut held = Vec::new(); // ports chosen here stay taken until all have been
        let addrs: Vec<SocketAddr> = kinds
            .iter()
            .enumerate()
            .map(|(i, k)| match k.as_str() {
                "ip" => {
                    // (the same port, as long as there are addresses)
                    let SocketAddr::V4(mut v) = addr_for(n, if i < 4 { 1883 } else { 3000 + i as u16 }) else { unreachable!() };
                    let o = v.ip().octets();
                    v.set_ip(std::net::Ipv4Addr::new(127, 251 + (i % 4) as u8, o[2], o[3]));
                    SocketAddr::V4(v)
                }
                "six" => {
                    let port = std::net::TcpListener::bind("[::1]:0").and_then(|l| {
                        let a = l.local_addr();
                        held.push(l);
                        a
                    });
                    match port.map(|a| a.port()) {
                        Ok(p) => format!("[::1]:{}", p).parse().unwrap(),
                        Err(_) => addr_for(n, 1883 + i as u16),
                    }
                }
                "name" | "any" => {
                    let port = std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| {
                        let a = l.local_addr();
                        held.push(l);
                        a
                    });
                    format!("127.0.0.1:{}", port.map(|a| a.port()).unwrap_or(1883)).parse().unwrap()
                }
                _ => addr_for(n, 1883 + i as u16),
            })
            .collect();
        drop(held);
        let bound: Vec<SocketAddr> = kinds
            .iter()
            .zip(&addrs)
            .map(|(k, a)| if k == "any" { format!("0.0.0.0:{}", a.port()).parse().unwrap() } else { *a })
            .collect();
        let passwd = hdr["passwd"].as_str().unwrap_or("");
        fs::write(dir.join("passwd"), passwd).map_err(|e| e.to_string())?;
        let list: Vec<String> = kinds
            .iter()
            .zip(&bound)
            .map(|(k, a)| if k == "name" { format!("\"localhost:{}\"", a.port()) } else { format!("\"{}\"", a) })
            .collect();
        // the list in the configuration file, or in the environment
        let by_env = hdr["by_env"].as_bool().unwrap_or(false);
        let cfg = format!(
            "[mqtt]\nlisteners_tcp = [{}]\n\n[authentication]\npassword_file = \"{}\"\n",
            if by_env { "\"192.0.2.1:1\"".to_string() } else { list.join(", ") },
            dir.join("passwd").display()
        );
        fs::write(dir.join("cfg.toml"), cfg).map_err(|e| e.to_string())?;
        let err = fs::File::create(dir.join("stderr")).map_err(|e| e.to_string())?;
        let bin = hdr["bin"].as_str().unwrap();
        let mut cmd = match hdr["nofile"].as_u64() {
            Some(k) => {
                let mut c = Command::new("/bin/sh");
                c.arg("-c").arg(format!("ulimit -n {}; exec \"$0\" \"$@\"", k)).arg(bin);
                c
            }
            None => Command::new(bin),
        };
        cmd.arg("-c").arg(dir.join("cfg.toml")).current_dir(&dir);
        cmd.env_remove("RUST_LOG");
        for (k, _) in std::env::vars() {
            if k.to_uppercase().starts_with("RATELMQ") {
                cmd.env_remove(k);
            }
        }
        if by_env {
            cmd.env("RATELMQ_MQTT__LISTENERS_TCP", list.join(if n % 2 == 0 { "," } else { ", " }).replace('"', ""));
        }
        if let Some(env) = hdr["env"].as_object() {
            for (k, v) in env {
                cmd.env(k, v.as_str().unwrap());
            }
        }
        cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::from(err));
        // a broker does not outlive this process
        extern "C" {
            fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
        }
        unsafe {
            use std::os::unix::process::CommandExt;
            cmd.pre_exec(|| {
                prctl(1, 9, 0, 0, 0);
                Ok(())
            });
        }
        let child = cmd.spawn().map_err(|e| e.to_string())?;
        let mut b = Broker { child, addrs, dir, bound, base: None };
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(20) {
            if !b.alive() {
                return Err(format!("broker ended at start: {}", b.stderr_tail()));
            }
            // the last listener is bound last
            if b.bound.iter().all(listening) {
                if hdr["base"].as_bool().unwrap_or(false) {
                    b.base = Some(b.settled());
                }
                return Ok(b);
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        Err(format!("broker did not start: {}", b.stderr_tail()))
    }

    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }

    pub fn stderr_tail(&self) -> String {
        let s = fs::read(self.dir.join("stderr")).unwrap_or_default();
        let s = String::from_utf8_lossy(&s).to_string();
        let lines: Vec<&str> = s.lines().filter(|l| !l.contains("Error while writing")).collect();
        lines[lines.len().saturating_sub(6)..].join(" | ")
    }

    /// number of sockets the broker process holds
    pub fn sockets(&self) -> usize {
        let mut n = 0;
        if let Ok(rd) = fs::read_dir(format!("/proc/{}/fd", self.child.id())) {
            for e in rd.flatten() {
                if let Ok(t) = fs::read_link(e.path()) {
                    if t.to_string_lossy().starts_with("socket:") {
                        n += 1;
                    }
                }
            }
        }
        n
    }

    /// the number of sockets, when it does not change any more
    pub fn settled(&self) -> usize {
        let (mut last, mut same) = (0, 0);
        for _ in 0..2000 {
            let k = self.sockets();
            if k == last {
                same += 1;
                if same >= 30 {
                    break;
                }
            } else {
                last = k;
                same = 0;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        last
    }

    /// sockets when no client had ever connected
    pub fn base(&self) -> usize {
        self.base.unwrap_or(0)
    }

    pub fn interrupt(&self) {
        extern "C" {
            fn kill(pid: i32, sig: i32) -> i32;
        }
        unsafe {
            kill(self.child.id() as i32, 2);
        }
    }

    /// wait for the end of the process: its exit code (None: still running or killed)
    pub fn exit_code(&mut self, limit: Duration) -> Result<i32, String> {
        let mut healthy = Duration::ZERO;
        loop {
            match self.child.try_wait() {
                Ok(Some(st)) => return st.code().ok_or(format!("{}", st)),
                Err(e) => return Err(e.to_string()),
                Ok(None) => {}
            }
            if healthy >= limit {
                return Err("still running".to_string());
            }
            let t = Instant::now();
            std::thread::sleep(Duration::from_millis(5));
            // only time in which this machine was responsive
            if t.elapsed() < Duration::from_millis(30) {
                healthy += t.elapsed();
            }
        }
    }

    pub fn listening(&self) -> usize {
        self.bound.iter().filter(|a| listening(a)).count()
    }

    pub fn rss_kb(&self) -> u64 {
        let s = fs::read_to_string(format!("/proc/{}/status", self.child.id())).unwrap_or_default();
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("VmRSS:") {
                return r.trim().trim_end_matches(" kB").trim().parse().unwrap_or(0);
            }
        }
        0
    }
}

impl Drop for Broker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = fs::remove_dir_all(&self.dir);
    }
}
