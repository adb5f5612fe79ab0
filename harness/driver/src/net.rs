//! A client connection: framing, and reading with a deadline that only counts time in which
//! this machine was responsive.
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::fd::{AsRawFd, FromRawFd};
use std::time::{Duration, Instant};

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const u8, len: u32) -> i32;
    fn ioctl(fd: i32, req: u64, ...) -> i32;
    fn socket(domain: i32, ty: i32, proto: i32) -> i32;
    fn send(fd: i32, b: *const u8, n: usize, flags: i32) -> isize;
    fn recv(fd: i32, b: *mut u8, n: usize, flags: i32) -> isize;
    fn close(fd: i32) -> i32;
    fn bind(fd: i32, a: *const u8, n: u32) -> i32;
    fn connect(fd: i32, a: *const u8, n: u32) -> i32;
}
const SOL_SOCKET: i32 = 1;
const SO_LINGER: i32 = 13;
const SO_RCVBUF: i32 = 8;

/// bytes written to the socket of the IPv4 connection local -> peer and not acknowledged, and those acknowledged,
/// from the kernel's socket monitoring
fn outq(local: &SocketAddr, peer: &SocketAddr) -> Option<(usize, Option<usize>)> {
    let (l, p) = match (local, peer) {
        (SocketAddr::V4(l), SocketAddr::V4(p)) => (l, p),
        _ => return None,
    };
    let mut q = Vec::new();
    q.extend(72u32.to_ne_bytes()); // length
    q.extend(20u16.to_ne_bytes()); // SOCK_DIAG_BY_FAMILY
    q.extend(1u16.to_ne_bytes()); // NLM_F_REQUEST
    q.extend([0u8; 8]);
    q.extend([2u8, 6, 2, 0]); // AF_INET, TCP, with INET_DIAG_INFO
    q.extend(0xffff_ffffu32.to_ne_bytes());
    q.extend(l.port().to_be_bytes());
    q.extend(p.port().to_be_bytes());
    q.extend(l.ip().octets());
    q.extend([0u8; 12]);
    q.extend(p.ip().octets());
    q.extend([0u8; 12]);
    q.extend([0u8; 4]);
    q.extend([0xffu8; 8]);
    let mut r = [0u8; 2048];
    let n = unsafe {
        let fd = socket(16, 3 | 0o2000000, 4); // AF_NETLINK, SOCK_RAW | SOCK_CLOEXEC, NETLINK_SOCK_DIAG
        if fd < 0 {
            return None;
        }
        let n = if send(fd, q.as_ptr(), q.len(), 0) == q.len() as isize { recv(fd, r.as_mut_ptr(), r.len(), 0) } else { -1 };
        close(fd);
        n
    };
    let u32_at = |i: usize| u32::from_ne_bytes([r[i], r[i + 1], r[i + 2], r[i + 3]]);
    if n < 88 || u16::from_ne_bytes([r[4], r[5]]) != 20 {
        return None;
    }
    let mut acked = None;
    let mut i = 88;
    while i + 4 <= n as usize {
        let len = u16::from_ne_bytes([r[i], r[i + 1]]) as usize;
        // tcp_info: tcpi_bytes_acked
        if u16::from_ne_bytes([r[i + 2], r[i + 3]]) == 2 && len >= 4 + 128 && i + len <= n as usize {
            acked = Some((u32_at(i + 4 + 120) as u64 | (u32_at(i + 4 + 124) as u64) << 32) as usize);
        }
        if len < 4 {
            break;
        }
        i += (len + 3) / 4 * 4;
    }
    Some((u32_at(16 + 60) as usize, acked))
}

#[derive(Debug, Clone, PartialEq)]
pub enum Item {
    Packet(Vec<u8>),
    Eof,
    Garbage(Vec<u8>),
}

#[derive(Debug, PartialEq)]
pub enum Fail {
    Timeout,
}

pub struct Conn {
    pub s: TcpStream,
    pub buf: Vec<u8>,
    pub pos: usize,
    pub eof: bool,
    pub sent_err: bool,
    /// writes are done by a thread of their own
    pub bg: Option<std::sync::mpsc::Sender<Vec<u8>>>,
    pub eating: std::cell::Cell<bool>,
}

/// length of the first packet in b, if its header is complete: Some(Ok(total)) or Some(Err) if malformed
pub fn frame(b: &[u8]) -> Option<Result<usize, ()>> {
    let mut len = 0usize;
    let mut mul = 1usize;
    for i in 1..5 {
        if b.len() <= i {
            return None;
        }
        len += (b[i] & 127) as usize * mul;
        mul *= 128;
        if b[i] & 128 == 0 {
            return Some(Ok(i + 1 + len));
        }
    }
    Some(Err(()))
}

/// a connection from this address and port, if they are free
fn connect_from(a: &SocketAddr, from: &SocketAddr) -> Option<TcpStream> {
    let raw = |a: &SocketAddr| match a {
        SocketAddr::V4(v) => {
            let mut b = [0u8; 16];
            b[..2].copy_from_slice(&2u16.to_ne_bytes());
            b[2..4].copy_from_slice(&v.port().to_be_bytes());
            b[4..8].copy_from_slice(&v.ip().octets());
            Some(b)
        }
        _ => None,
    };
    let (to, from) = (raw(a)?, raw(from)?);
    unsafe {
        let fd = socket(2, 1 | 0o2000000, 0);
        if fd < 0 {
            return None;
        }
        let one = 1i32;
        setsockopt(fd, SOL_SOCKET, 2, &one as *const i32 as *const u8, 4); // SO_REUSEADDR
        if bind(fd, from.as_ptr(), 16) == 0 && connect(fd, to.as_ptr(), 16) == 0 {
            return Some(TcpStream::from_raw_fd(fd));
        }
        close(fd);
        None
    }
}

impl Conn {
    pub fn open(a: &SocketAddr, timeout: Duration, rcvbuf: u32) -> std::io::Result<Conn> {
        Conn::open_from(a, timeout, rcvbuf, None)
    }

    pub fn open_from(a: &SocketAddr, timeout: Duration, rcvbuf: u32, from: Option<SocketAddr>) -> std::io::Result<Conn> {
        let s = match from.and_then(|f| connect_from(a, &f)) {
            Some(s) => s,
            None => TcpStream::connect_timeout(a, timeout)?,
        };
        s.set_nodelay(true)?;
        s.set_write_timeout(Some(timeout))?;
        if rcvbuf > 0 {
            unsafe {
                setsockopt(s.as_raw_fd(), SOL_SOCKET, SO_RCVBUF, &rcvbuf as *const u32 as *const u8, 4);
            }
        }
        Ok(Conn { s, buf: Vec::new(), pos: 0, eof: false, sent_err: false, bg: None, eating: std::cell::Cell::new(false) })
    }

    /// errors are remembered, not reported: what matters is what the client receives
    pub fn send(&mut self, b: &[u8]) -> Result<(), Fail> {
        if let Some(tx) = &self.bg {
            let _ = tx.send(b.to_vec());
            return Ok(());
        }
        match self.s.write_all(b) {
            Ok(()) => Ok(()),
            Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => Err(Fail::Timeout),
            Err(_) => {
                self.sent_err = true;
                Ok(())
            }
        }
    }

    fn parse(&mut self) -> Option<Item> {
        let b = &self.buf[self.pos..];
        let r = match frame(b) {
            Some(Ok(n)) if b.len() >= n => {
                let p = b[..n].to_vec();
                self.pos += n;
                Some(Item::Packet(p))
            }
            Some(Err(())) => {
                let p = b[..b.len().min(32)].to_vec();
                self.pos = self.buf.len();
                Some(Item::Garbage(p))
            }
            _ => None,
        };
        if self.pos > 1 << 16 || self.pos == self.buf.len() {
            self.buf.drain(..self.pos);
            self.pos = 0;
        }
        r
    }

    pub fn next(&mut self, timeout: Duration) -> Result<Item, Fail> {
        let slice = Duration::from_millis(100).min(timeout);
        let mut healthy = Duration::ZERO;
        let mut cur = Duration::ZERO;
        loop {
            if let Some(i) = self.parse() {
                return Ok(i);
            }
            if self.eof {
                if self.pos < self.buf.len() {
                    let p = self.buf[self.pos..].to_vec();
                    self.buf.clear();
                    self.pos = 0;
                    return Ok(Item::Garbage(p[..p.len().min(32)].to_vec()));
                }
                return Ok(Item::Eof);
            }
            if slice != cur {
                let _ = self.s.set_read_timeout(Some(slice));
                cur = slice;
            }
            let mut tmp = [0u8; 65536];
            let t = Instant::now();
            self.quickack();
            match self.s.read(&mut tmp) {
                Ok(0) => self.eof = true,
                Ok(n) => self.buf.extend_from_slice(&tmp[..n]),
                Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => {
                    let el = t.elapsed();
                    if el < slice * 3 {
                        healthy += slice;
                    }
                    if healthy >= timeout {
                        return Err(Fail::Timeout);
                    }
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => self.eof = true,
            }
        }
    }

    /// from now on sending never waits
    pub fn background(&mut self) {
        if self.bg.is_some() {
            return;
        }
        let (tx, rx) = std::sync::mpsc::channel::<Vec<u8>>();
        let mut s = match self.s.try_clone() {
            Ok(s) => s,
            Err(_) => return,
        };
        std::thread::spawn(move || {
            while let Ok(b) = rx.recv() {
                let mut at = 0;
                while at < b.len() {
                    match s.write(&b[at..]) {
                        Ok(n) => at += n,
                        Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => {}
                        Err(_) => return,
                    }
                }
            }
        });
        self.bg = Some(tx);
    }

    /// from now on everything that arrives is thrown away
    pub fn eat(&self) {
        let mut s = match self.s.try_clone() {
            Ok(s) => s,
            Err(_) => return,
        };
        let _ = s.set_read_timeout(None);
        self.eating.set(true);
        std::thread::spawn(move || {
            let mut tmp = [0u8; 65536];
            while let Ok(n) = s.read(&mut tmp) {
                if n == 0 {
                    break;
                }
            }
        });
    }

    /// read at most n bytes, without waiting long
    pub fn nibble(&mut self, n: usize) {
        let _ = self.s.set_read_timeout(Some(Duration::from_millis(20)));
        let mut tmp = vec![0u8; n];
        match self.s.read(&mut tmp) {
            Ok(0) => self.eof = true,
            Ok(n) => self.buf.extend_from_slice(&tmp[..n]),
            Err(_) => {}
        }
    }

    /// bytes that have arrived and were not read
    pub fn inq(&self) -> usize {
        let mut n: i32 = 0;
        unsafe {
            ioctl(self.s.as_raw_fd(), 0x541B, &mut n as *mut i32);
        }
        n as usize
    }

    /// bytes the other side has written that have not arrived here (both ends are on this machine)
    pub fn peer_outq(&self) -> Option<usize> {
        let (l, p) = (self.s.local_addr().ok()?, self.s.peer_addr().ok()?);
        if let Some((n, _)) = outq(&p, &l) {
            return Some(n);
        }
        let show = |a: &SocketAddr| match a {
            SocketAddr::V4(v) => {
                let o = v.ip().octets();
                format!("{:02X}{:02X}{:02X}{:02X}:{:04X}", o[3], o[2], o[1], o[0], v.port())
            }
            SocketAddr::V6(_) => String::new(),
        };
        let (l, p) = (show(&l), show(&p));
        let t = std::fs::read_to_string("/proc/net/tcp").ok()?;
        for line in t.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.len() > 4 && w[1] == p && w[2] == l {
                return usize::from_str_radix(w[4].split(':').next()?, 16).ok();
            }
        }
        None
    }

    /// bytes the other side has written since the connection began (up to a constant)
    pub fn peer_written(&self) -> Option<usize> {
        let (l, p) = (self.s.local_addr().ok()?, self.s.peer_addr().ok()?);
        let (n, acked) = outq(&p, &l)?;
        Some(n + acked?)
    }

    /// acknowledge at once: the broker leaves Nagle's algorithm on
    pub fn quickack(&self) {
        let v: i32 = 1;
        unsafe {
            setsockopt(self.s.as_raw_fd(), 6, 12, &v as *const i32 as *const u8, 4);
        }
    }

    pub fn stop(&mut self) {
        if self.bg.is_some() || self.eating.get() {
            let _ = self.s.shutdown(Shutdown::Both);
        }
    }

    pub fn half(&mut self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }

    pub fn rst_on_close(&self) {
        let v: [i32; 2] = [1, 0];
        unsafe {
            setsockopt(self.s.as_raw_fd(), SOL_SOCKET, SO_LINGER, v.as_ptr() as *const u8, 8);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let v = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => panic!("bad hex"),
    };
    (0..b.len() / 2).map(|i| v(b[2 * i]) << 4 | v(b[2 * i + 1])).collect()
}

/// deterministic filler bytes
pub fn filler(len: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(len);
    v
}
