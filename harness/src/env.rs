//! The scripted environment: a robot or gripper controller on real loopback sockets, driven from
//! inside the client's own thread.  Every decision comes from the scenario; everything observable
//! is appended to the trace.
use crate::wire::*;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::ffi::CString;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Tcp, Udp, Other }

#[derive(Default)]
pub struct Shared {
    pub events: Mutex<Vec<Value>>,
    pub done: Mutex<bool>,
    pub cv: Condvar,
    pub beat: std::sync::atomic::AtomicU64,
}

#[derive(Default)]
pub struct Warm { pub first: i64, pub last: i64, pub reqs: i64, pub gaps: i64, pub odd: i64, pending: Option<(u32, u32)> }

/// the time without a state after which the client gives up (ms)
const PERIOD: i64 = 1000;

pub struct Env {
    pub sh: Arc<Shared>,
    pub robot: bool,
    pub ip: String,
    pub ip_num: u32,
    pub base: u64,
    pub full: bool,
    pub steps: VecDeque<Value>,
    pub sc: Value,
    listener: Option<TcpListener>,
    pub tcp: Option<TcpStream>,
    pub udp: UdpSocket,
    udp_port: u16,
    client_udp_port: Option<u16>,
    ep: HashMap<i32, (i32, Kind)>,
    fds: HashMap<i32, Kind>,
    outbuf: VecDeque<u8>,
    marks: VecDeque<(usize, Value)>, // bytes remaining until the message is complete
    rx: Vec<u8>,
    zero: u64,
    silences: u32,
    /// virtual time of the client thread (ns); it passes only while the client waits
    pub now: u64,
    quiet: i64,               // ms of pause since the last datagram
    late: i64,                // ms until the reply the client waits for is sent
    gap: Option<(i64, bool)>, // ms left of the current gap in the stream of states, is it a silence
    pub intr: bool,
    nosend: bool,
    /// bytes the disk still takes (-1: no file can be created); none: any number
    pub disk: Option<i64>,
    /// during a load: length of the library the robot sent
    pub loading: Option<usize>,
    shortw: Option<usize>,
    dead: bool,
    /// a long series of commands, each answered with success at once; only its sum is recorded
    pub warm: Option<Warm>,
    pub cur_mg: u32,
    pub last_cmd: Option<Cmd>,
    pub last_raw: Option<RawState>,
    pub last_mid: i64,
    loops: u64,
    pub num: bool,
    pub scratch: String,
    pub rt_kernel: bool,
    pub rt_script: HashMap<String, i32>,
}

/// floating point values are logged as text (exact: shortest round-trip form)
pub fn jf(x: f64) -> Value {
    if x == x.trunc() && x.abs() < 2147483648.0 && !(x == 0.0 && x.is_sign_negative()) {
        json!(format!("{}", x as i64))
    } else {
        json!(format!("{:?}", x))
    }
}
pub fn jfs(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|x| jf(*x)).collect())
}

impl Env {
    pub fn new(sc: &Value, ip: String, scratch: String, sh: Arc<Shared>) -> std::io::Result<Env> {
        let robot = sc["dev"].as_str().unwrap_or("robot") == "robot";
        let port = if robot { 1337 } else { 1338 };
        let listener = if sc["nolisten"].as_bool().unwrap_or(false) { None } else {
            let l = TcpListener::bind((ip.as_str(), port))?;
            l.set_nonblocking(true)?;
            Some(l)
        };
        let udp = UdpSocket::bind((ip.as_str(), 0))?;
        udp.set_nonblocking(true)?;
        let udp_port = udp.local_addr()?.port();
        let ipn: std::net::Ipv4Addr = ip.parse().unwrap();
        let mut rt_script = HashMap::new();
        if let Some(o) = sc["rt"].as_object() {
            for (k, v) in o { if let Some(i) = v.as_i64() { rt_script.insert(k.clone(), i as i32); } }
        }
        Ok(Env {
            sh, robot, ip, ip_num: u32::from(ipn),
            base: sc["base"].as_str().map(|s| s.parse().unwrap()).unwrap_or(sc["base"].as_u64().unwrap_or(0)),
            full: sc["full"].as_bool().unwrap_or(false),
            steps: sc["steps"].as_array().cloned().unwrap_or_default().into(),
            sc: sc.clone(), listener, tcp: None, udp, udp_port, client_udp_port: None,
            ep: HashMap::new(), fds: HashMap::new(), outbuf: VecDeque::new(), marks: VecDeque::new(), rx: vec![],
            zero: 0, silences: 0, now: 0, quiet: 0, late: 0, gap: None, intr: false, nosend: false, shortw: None, disk: None, loading: None, dead: false, warm: None, cur_mg: 0, last_cmd: None, last_raw: None, last_mid: 0, loops: 0, num: sc["num"].as_bool().unwrap_or(false), scratch,
            rt_kernel: sc["rt"]["kernel"].as_bool().unwrap_or(false), rt_script,
        })
    }
    pub fn log(&mut self, v: Value) {
        self.sh.beat.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if let Some(w) = self.warm.as_mut() {
            if v["e"] != "resp" && v["e"] != "seg" { w.odd += 1; }
            return;
        }
        self.sh.events.lock().unwrap().push(v);
    }
    // ---- bookkeeping of the client's descriptors --------------------------------------------
    pub fn register(&mut self, epfd: i32, fd: i32) {
        let mut ty: i32 = 0;
        let mut l = 4u32;
        unsafe { libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_TYPE, &mut ty as *mut _ as *mut _, &mut l); }
        let k = if ty == libc::SOCK_STREAM { Kind::Tcp } else if ty == libc::SOCK_DGRAM { Kind::Udp } else { return };
        if k == Kind::Udp {
            let n: i32 = 2 << 20; // room for many states that nobody reads
            unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const _, 4); }
        }
        self.ep.insert(epfd, (fd, k));
        self.fds.insert(fd, k);
    }
    pub fn is_client(&mut self, fd: i32) -> bool {
        self.fds.contains_key(&fd)
    }
    pub fn kind_of(&self, epfd: i32) -> Kind {
        self.ep.get(&epfd).map(|x| x.1).unwrap_or(Kind::Other)
    }
    pub fn kind_of_fd(&self, fd: i32) -> Kind {
        self.fds.get(&fd).copied().unwrap_or(Kind::Other)
    }
    fn fd(&self, k: Kind) -> Option<i32> {
        self.fds.iter().filter(|(_, v)| **v == k).map(|(f, _)| *f).max()
    }
    fn accept(&mut self) {
        if self.tcp.is_none() {
            if let Some(l) = &self.listener {
                let t = Instant::now();
                loop {
                    match l.accept() {
                        Ok((s, _)) => { s.set_nodelay(true).ok(); s.set_nonblocking(true).ok(); self.tcp = Some(s); break; }
                        Err(_) if t.elapsed() < Duration::from_millis(200) => std::thread::sleep(Duration::from_micros(200)),
                        Err(_) => break,
                    }
                }
            }
        }
    }
    // ---- client output ----------------------------------------------------------------------
    /// the network refuses to send the datagram
    pub fn refuse_send(&mut self, fd: i32) -> bool {
        if self.fds.get(&fd) != Some(&Kind::Udp) || !std::mem::take(&mut self.nosend) { return false; }
        self.log(json!({"e":"cmdfail"}));
        true
    }
    /// the socket accepts only the first bytes of a request
    pub fn short_write(&mut self, fd: i32, len: usize) -> usize {
        if self.fds.get(&fd) != Some(&Kind::Tcp) { return len; }
        match self.shortw.take() { Some(n) if n < len => n, _ => len }
    }
    pub fn on_send_failed(&mut self, fd: i32) {
        if self.fds.get(&fd) == Some(&Kind::Tcp) { self.log(json!({"e":"sendfail"})); }
    }
    pub fn on_sent(&mut self, fd: i32, b: &[u8], dst: Option<(u32, u16)>) {
        self.zero = 0;
        self.end_gap();
        match self.fds.get(&fd) {
            Some(Kind::Udp) => {
                let dst_ok = match dst { Some((a, p)) => a == self.ip_num && p == self.udp_port, None => true };
                match decode_cmd(b) {
                    None => self.log(json!({"e":"badcmd","len":b.len()})),
                    Some(c) => {
                        let mid = c.mid.wrapping_sub(self.base);
                        let mid = if mid < 1 << 30 { mid as i64 } else { -1 };
                        let v = match self.cur_mg { 0 => c.q[0], 1 => c.dq[0], 2 => c.t[12], _ => c.dp[0] };
                        let mut e = json!({"e":"cmd","mid":mid,"fin":c.fin,"v":jf(v),"t":jf(c.tau[0]),"dst":dst_ok});
                        if self.full {
                            e["q"] = jfs(&c.q); e["dq"] = jfs(&c.dq); e["T"] = jfs(&c.t); e["dP"] = jfs(&c.dp);
                            e["el"] = jfs(&c.el); e["ve"] = json!(c.ve); e["tau"] = jfs(&c.tau);
                        }
                        self.log(e);
                        self.last_cmd = Some(c);
                    }
                }
            }
            Some(Kind::Tcp) => {
                self.rx.extend_from_slice(b);
                self.parse_requests();
            }
            _ => {}
        }
    }
    fn parse_requests(&mut self) {
        let h = if self.robot { 12 } else { 10 };
        while self.rx.len() >= h {
            let (cmd, id, size) = if self.robot {
                (u32::from_le_bytes(self.rx[0..4].try_into().unwrap()), u32::from_le_bytes(self.rx[4..8].try_into().unwrap()), u32::from_le_bytes(self.rx[8..12].try_into().unwrap()))
            } else {
                (u16::from_le_bytes(self.rx[0..2].try_into().unwrap()) as u32, u32::from_le_bytes(self.rx[2..6].try_into().unwrap()), u32::from_le_bytes(self.rx[6..10].try_into().unwrap()))
            };
            let n = size as usize;
            if n < h || n > 1 << 20 {
                self.log(json!({"e":"badreq","why":"size"}));
                self.rx.clear();
                return;
            }
            if self.rx.len() < n { return; }
            let body: Vec<u8> = self.rx[h..n].to_vec();
            self.rx.drain(..n);
            let p = self.payload(cmd, &body);
            if self.robot && cmd == 1 && body.len() >= 8 {
                self.cur_mg = u32::from_le_bytes(body[4..8].try_into().unwrap());
            }
            if let Some(w) = self.warm.as_mut() {
                if w.reqs == 0 { w.first = id as i64; } else if id as i64 != w.last + 1 { w.gaps += 1; }
                w.last = id as i64;
                w.reqs += 1;
                w.pending = Some((cmd, id));
                continue;
            }
            let ev = json!({"e":"req","cmd":cmd,"id":if id < 1<<30 {id as i64} else {-1},"size":size,"p":p});
            self.log(ev);
        }
    }
    fn payload(&mut self, cmd: u32, b: &[u8]) -> Value {
        let raw = |b: &[u8]| json!(["raw", format!("{}", b.len())]);
        let bytes = |b: &[u8]| Value::Array(b.iter().map(|x| json!(x.to_string())).collect());
        let all_f = |b: &[u8], n: usize| if b.len() == 8 * n { jfs(&f64s(b)) } else { raw(b) };
        if cmd == 0 {
            if b.len() != 4 { return raw(b); }
            let port = u16::from_le_bytes([b[2], b[3]]);
            let mut actual = 0;
            if let Some(fd) = self.fd(Kind::Udp) {
                unsafe {
                    let mut a: libc::sockaddr_in = std::mem::zeroed();
                    let mut l = std::mem::size_of::<libc::sockaddr_in>() as u32;
                    libc::getsockname(fd, &mut a as *mut _ as *mut _, &mut l);
                    actual = u16::from_be(a.sin_port);
                }
            }
            self.client_udp_port = Some(port);
            return json!([format!("{}", u16::from_le_bytes([b[0], b[1]])), if port == actual && port != 0 { "port" } else { "badport" }]);
        }
        if !self.robot {
            return match cmd { 1 | 4 => all_f(b, 0), 2 => all_f(b, 5), 3 => all_f(b, 2), _ => raw(b) };
        }
        match cmd {
            1 => {
                if b.len() != 8 + 48 { return raw(b); }
                let mut v = vec![json!(u32::from_le_bytes(b[0..4].try_into().unwrap()).to_string()), json!(u32::from_le_bytes(b[4..8].try_into().unwrap()).to_string())];
                v.extend(f64s(&b[8..]).iter().map(|x| jf(*x)));
                Value::Array(v)
            }
            2 | 12 => all_f(b, 0),
            3 => if b.len() == 4 { json!([i32::from_le_bytes(b.try_into().unwrap()).to_string()]) } else { raw(b) },
            4 => all_f(b, 52),
            5 => all_f(b, 7),
            6 => all_f(b, 6),
            7 => if b.len() == 7 { bytes(b) } else { raw(b) },
            8 | 9 => all_f(b, 16),
            10 => all_f(b, 13),
            11 => all_f(b, 5),
            13 => if b.len() == 2 { bytes(b) } else { raw(b) },
            _ => raw(b),
        }
    }
    // ---- environment output -------------------------------------------------------------------
    pub fn send_udp(&mut self, b: &[u8]) -> bool {
        let port = match self.client_udp_port { Some(p) => p, None => { self.log(json!({"e":"skip"})); return false; } };
        let fd = self.fd(Kind::Udp);
        // memory in use by the receive queue, datagrams dropped
        let mem = |fd: Option<i32>| -> (u32, u32) {
            let mut m = [0u32; 16];
            let mut l = 64u32;
            if let Some(fd) = fd { unsafe { libc::getsockopt(fd, libc::SOL_SOCKET, 55, m.as_mut_ptr() as *mut _, &mut l); } }
            (m[0], m[8])
        };
        let before = mem(fd);
        if self.udp.send_to(b, (self.ip.as_str(), port)).is_err() {
            self.log(json!({"e":"skip"}));
            return false;
        }
        let t = Instant::now();
        while mem(fd).0 <= before.0 && t.elapsed() < Duration::from_millis(1000) {
            if mem(fd).1 != before.1 { self.log(json!({"e":"skip"})); return false; }
            if t.elapsed() > Duration::from_millis(1) { std::thread::sleep(Duration::from_micros(100)); }
        }
        true
    }
    fn flush_out(&mut self, n: usize) {
        self.accept();
        let mut n = n.min(self.outbuf.len());
        let t0 = Instant::now();
        while n > 0 {
            let fd = self.fd(Kind::Tcp);
            let inq = |fd: Option<i32>| { let mut v: i32 = 0; if let Some(fd) = fd { unsafe { libc::ioctl(fd, libc::FIONREAD, &mut v); } } v as usize };
            let before = inq(fd);
            let chunk: Vec<u8> = self.outbuf.iter().take(n).cloned().collect();
            let k = match self.tcp.as_mut() { None => { self.log(json!({"e":"skip"})); return; }, Some(s) => match s.write(&chunk) { Ok(k) => k, Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => 0, Err(_) => { self.log(json!({"e":"skip"})); self.outbuf.clear(); self.marks.clear(); return; } } };
            if k == 0 { break; }
            self.outbuf.drain(..k);
            n -= k;
            // large transfers fill the socket buffer: do not insist on seeing every byte
            let want = if k > 60000 { 1 } else { k };
            let t = Instant::now();
            while inq(fd) < before + want && t.elapsed() < Duration::from_millis(1000) {
                if t.elapsed() > Duration::from_millis(1) { std::thread::sleep(Duration::from_micros(100)); }
            }
            let mut left = k;
            let mut first = true;
            while left > 0 {
                let m = self.marks.front_mut().unwrap();
                if m.0 <= left {
                    left -= m.0;
                    let mut ev = self.marks.pop_front().unwrap().1;
                    // completed by the same write: the client sees both or neither
                    if !first && k < 30000 { ev["join"] = json!(true); }
                    first = false;
                    self.log(ev);
                } else { m.0 -= left; left = 0; self.log(json!({"e":"seg"})); }
            }
            if t0.elapsed() > Duration::from_millis(3000) { break; }
        }
    }
    pub fn queue_resp(&mut self, st: &Value) {
        let cmd = st["cmd"].as_u64().unwrap() as u32;
        let id = st["id"].as_u64().unwrap() as u32;
        let status = st["st"].as_u64().unwrap_or(0);
        let mut body: Vec<u8> = vec![];
        let mut ev = json!({"e":"resp","cmd":cmd,"id":id,"st":status});
        if self.robot {
            body.push(status as u8);
            if cmd == 0 {
                let v = st["ver"].as_u64().unwrap_or(5) as u16;
                body.extend_from_slice(&v.to_le_bytes());
                ev["ver"] = json!(v);
            }
            if cmd == 3 {
                let w = st["wall"].as_i64().unwrap_or(0);
                for i in 0..19 { body.extend_from_slice(&((w * 100 + i) as f64).to_le_bytes()); }
                body.push((w % 2 == 1) as u8);
                ev["wall"] = json!(w);
            }
            if cmd == 13 && status == 0 {
                let lib = self.lib_bytes(st);
                self.loading = Some(lib.len());
                ev["lib"] = json!(fnv(&lib)); ev["liblen"] = json!(lib.len());
                body.extend_from_slice(&lib);
            }
        } else {
            body.extend_from_slice(&(status as u16).to_le_bytes());
            if cmd == 0 {
                let v = st["ver"].as_u64().unwrap_or(3) as u16;
                body.extend_from_slice(&v.to_le_bytes());
                ev["ver"] = json!(v);
            }
        }
        let mut m: Vec<u8> = vec![];
        if self.robot {
            m.extend_from_slice(&cmd.to_le_bytes());
            m.extend_from_slice(&id.to_le_bytes());
            m.extend_from_slice(&((12 + body.len()) as u32).to_le_bytes());
        } else {
            m.extend_from_slice(&(cmd as u16).to_le_bytes());
            m.extend_from_slice(&id.to_le_bytes());
            m.extend_from_slice(&((10 + body.len()) as u32).to_le_bytes());
        }
        m.extend_from_slice(&body);
        self.marks.push_back((m.len(), ev));
        self.outbuf.extend(m);
    }
    fn lib_bytes(&self, st: &Value) -> Vec<u8> {
        let mut v = match st["libfile"].as_str() {
            Some(f) => std::fs::read(f).unwrap_or_default(),
            None => vec![],
        };
        let pad = st["pad"].as_u64().unwrap_or(0) as usize;
        let mut x: u32 = 12345;
        for _ in 0..pad { x = x.wrapping_mul(1664525).wrapping_add(1013904223); v.push((x >> 24) as u8); }
        v
    }
    pub fn raw_state(&self, st: &Value) -> RawState {
        let mid = st["mid"].as_i64().unwrap();
        let tag = st["tag"].as_i64().unwrap_or(mid);
        let mut s = if st["echo"].as_bool().unwrap_or(false) { self.echo() } else if st["zero"].as_bool().unwrap_or(false) { RawState::zero(0) } else { RawState::tagged(0, tag) };
        s.mid = self.base.wrapping_add(mid as u64);
        s.mg = st["mg"].as_u64().unwrap_or(0) as u8;
        s.cm = st["cm"].as_u64().unwrap_or(3) as u8;
        s.rm = st["rm"].as_u64().unwrap_or(1) as u8;
        for e in st["err"].as_array().unwrap_or(&vec![]) { s.errors[e.as_u64().unwrap() as usize] = true; }
        for e in st["refl"].as_array().unwrap_or(&vec![]) { s.reflex[e.as_u64().unwrap() as usize] = true; }
        if let Some(o) = st["set"].as_object() {
            for (k, v) in o {
                let v: Vec<f64> = v.as_array().unwrap().iter().map(num).collect();
                if k == "rate" { s.rate = v[0]; } else { s.set(k, &v); }
            }
        }
        s
    }
    /// the state of a robot that has executed the last command perfectly
    fn echo(&self) -> RawState {
        let dt = 1e-3;
        let mut s = self.last_raw.clone().unwrap_or_else(|| RawState::zero(0));
        s.errors = [false; 41];
        s.reflex = [false; 41];
        let c = match &self.last_cmd { Some(c) => c, None => return s };
        let diff = |a: &[f64], b: &[f64]| -> Vec<f64> { a.iter().zip(b).map(|(x, y)| (x - y) / dt).collect() };
        let adv = |a: &[f64], v: &[f64]| -> Vec<f64> { a.iter().zip(v).map(|(x, y)| x + y * dt).collect() };
        match self.cur_mg {
            0 | 1 => {
                let (v, q) = if self.cur_mg == 0 { (diff(&c.q, s.get("q_d")), c.q.clone()) } else { (c.dq.clone(), adv(s.get("q_d"), &c.dq)) };
                let a = diff(&v, s.get("dq_d"));
                s.set("q_d", &q); s.set("dq_d", &v); s.set("ddq_d", &a);
            }
            _ => {
                let t0 = s.get("O_T_EE_c").to_vec();
                let (v, t) = if self.cur_mg == 2 {
                    let mut v = diff(&c.t[12..15], &t0[12..15]);
                    v.extend(crate::wire::rotation_rate(&c.t, &t0, dt));
                    (v, c.t.clone())
                } else { (c.dp.clone(), crate::wire::advance_pose(&t0, &c.dp, dt)) };
                let a = diff(&v, s.get("O_dP_EE_c"));
                s.set("O_T_EE_c", &t); s.set("O_dP_EE_c", &v); s.set("O_ddP_EE_c", &a);
                if c.ve == 1 {
                    let v = (c.el[0] - s.get("elbow_c")[0]) / dt;
                    let a = (v - s.get("delbow_c")[0]) / dt;
                    s.set("elbow_c", &[c.el[0], c.el[1]]); s.set("delbow_c", &[v, 0.0]); s.set("ddelbow_c", &[a, 0.0]);
                }
            }
        }
        s.set("tau_J_d", &c.tau);
        s
    }
    fn do_env(&mut self, st: &Value) {
        match st["a"].as_str().unwrap_or("") {
            "state" => {
                let (b, ev) = if self.robot {
                    let s = self.raw_state(st);
                    self.last_mid = st["mid"].as_i64().unwrap();
                    let mut ev = json!({"e":"state","mid":st["mid"],"mg":s.mg,"cm":s.cm,"rm":s.rm,"tag":st["tag"].as_i64().unwrap_or(st["mid"].as_i64().unwrap()),
                        "err":st["err"].as_array().cloned().unwrap_or_default(),"refl":st["refl"].as_array().cloned().unwrap_or_default(),"zero":st["zero"].as_bool().unwrap_or(false)});
                    if self.num {
                        let mut n = serde_json::Map::new();
                        for f in ["q_d", "dq_d", "ddq_d", "tau_J_d", "O_T_EE_c", "O_dP_EE_c", "O_ddP_EE_c", "elbow_c", "delbow_c", "ddelbow_c"] { n.insert(f.into(), jfs(s.get(f))); }
                        ev["n"] = Value::Object(n);
                    }
                    if let Some(o) = st["set"].as_object() {
                        let n: serde_json::Map<String, Value> = o.keys().map(|k| (k.clone(), if k == "rate" { jfs(&[s.rate]) } else { jfs(s.get(k)) })).collect();
                        ev["set"] = Value::Object(n);
                    }
                    let b = s.encode();
                    self.last_raw = Some(s);
                    (b, ev)
                } else {
                    let mid = st["mid"].as_u64().unwrap();
                    let (w, mw, g, t) = (num(&st["width"]), num(&st["maxw"]), st["grasped"].as_bool().unwrap_or(mid % 2 == 1), st["temp"].as_u64().unwrap_or(mid + 20));
                    let (w, mw) = (if st["width"].is_null() { (mid * 10 + 1) as f64 } else { w }, if st["maxw"].is_null() { (mid * 10 + 2) as f64 } else { mw });
                    (gripper_state((self.base as u32).wrapping_add(mid as u32), w, mw, g, t as u16),
                     json!({"e":"state","mid":mid,"width":jf(w),"maxw":jf(mw),"grasped":g,"temp":t}))
                };
                let ok = self.send_udp(&b);
                if ok { self.log(ev); }
            }
            "junk" => {
                let n = st["n"].as_u64().unwrap_or(10) as usize;
                let mut b: Vec<u8> = (0..n).map(|i| (i * 7 + 1) as u8).collect();
                b.truncate(n);
                if self.send_udp(&b) { self.log(json!({"e":"junk"})); }
            }
            "resp" => {
                self.queue_resp(st);
                if !st["hold"].as_bool().unwrap_or(false) { self.flush_out(usize::MAX); }
            }
            "flush" => {
                let n = st["n"].as_i64().unwrap_or(-1);
                self.flush_out(if n < 0 { usize::MAX } else { n as usize });
            }
            // a signal handler of the user's program interrupts the system call the client waits in
            "nosend" => { self.nosend = true; self.log(json!({"e":"nosend"})); }
            "shortw" => { self.shortw = st["n"].as_u64().map(|n| n as usize); self.log(json!({"e":"shortw"})); }
            "intr" => { self.intr = true; self.log(json!({"e":"intr"})); }
            "close" | "reset" => {
                self.accept();
                self.outbuf.clear(); // what was not delivered is lost
                self.marks.clear();
                if let Some(mut s) = self.tcp.take() {
                    let mut tmp = [0u8; 4096];
                    while let Ok(k) = s.read(&mut tmp) { if k == 0 { break; } }
                    if st["a"] == "reset" {
                        let l = libc::linger { l_onoff: 1, l_linger: 0 };
                        unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32); }
                    }
                    drop(s);
                    std::thread::sleep(Duration::from_millis(2));
                    self.log(json!({"e":"close"}));
                }
                self.listener = None;
            }
            "disk" => { self.disk = st["n"].as_i64(); self.log(json!({"e":"disk","bad":self.disk.is_some()})); }
            "dead" => { self.dead = true; self.log(json!({"e":"dead"})); }
            "prep" => { // a pre-existing model file; an old one may still be mapped
                let _ = std::fs::remove_file(format!("{}/model.so", self.scratch));
                match st["file"].as_str() {
                    Some("none") => { let _ = std::fs::remove_file(format!("{}/model.so", self.scratch)); }
                    Some(f) => { let _ = std::fs::copy(f, format!("{}/model.so", self.scratch)); }
                    None => { let b = self.lib_bytes(st); let _ = std::fs::write(format!("{}/model.so", self.scratch), b); }
                }
                let e = self.file_event("prep");
                self.log(e);
            }
            x => { self.log(json!({"e":"badstep","a":x})); }
        }
    }
    pub fn file_event(&self, e: &str) -> Value {
        let left = std::fs::read_dir(&self.scratch).map(|d| d.flatten().filter(|f| { let n = f.file_name(); let n = n.to_string_lossy(); n.starts_with("model.so") && n != "model.so" }).count()).unwrap_or(0);
        match std::fs::read(format!("{}/model.so", self.scratch)) {
            Ok(b) => json!({"e":e,"exists":true,"hash":fnv(&b),"left":left}),
            Err(_) => json!({"e":e,"exists":false,"hash":0,"left":left}),
        }
    }
    /// were the process killed now, would an incomplete copy remain?
    pub fn check_partial(&mut self) {
        if let (Some(n), Ok(m)) = (self.loading, std::fs::metadata(format!("{}/model.so", self.scratch))) {
            if m.len() as usize != n { self.loading = None; self.log(json!({"e":"partial","n":m.len()})); }
        }
    }
    /// the client went on: what it waits for next is another wait
    fn end_gap(&mut self) {
        self.gap = None;
        self.quiet = 0;
    }
    /// no state arrives for a while; true: the wait goes on, false: its timeout elapses first
    fn wait_gap(&mut self, timeout: &mut i64) -> bool {
        let (left, sil) = self.gap.unwrap();
        let step = if *timeout < 0 { left } else { left.min(*timeout) };
        self.now += step as u64 * 1_000_000;
        if !sil { self.quiet += step; }
        if *timeout >= 0 { *timeout -= step; }
        let left = left - step;
        self.gap = if left <= if sil { 100 } else { 0 } { None } else { Some((left, sil)) };
        *timeout != 0
    }
    fn is_user(st: &Value) -> bool {
        matches!(st["a"].as_str(), Some("call") | Some("cbret"))
    }
    // ---- decision points ------------------------------------------------------------------------
    pub fn zero_poll(&mut self, kind: Kind) {
        self.zero += 1;
        if self.zero > 200_000 { self.block(kind, "spin"); }
    }
    /// the client would block on `kind` for `timeout` ms (negative: for ever); true: try again, false: its timeout elapses
    pub fn on_block(&mut self, kind: Kind, timeout: &mut i64) -> bool {
        self.zero = 0;
        self.sh.beat.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if kind == Kind::Tcp {
            if let Some((cmd, id)) = self.warm.as_mut().and_then(|w| w.pending.take()) {
                self.queue_resp(&json!({"cmd":cmd,"id":id,"st":0}));
                self.flush_out(usize::MAX);
                return true;
            }
        }
        if !self.rx.is_empty() {
            self.log(json!({"e":"badreq","why":"partial"}));
            self.rx.clear();
        }
        if !self.outbuf.is_empty() && !self.steps.front().map(|s| s["a"] == "flush" || s["a"] == "close" || s["a"] == "reset").unwrap_or(false) && kind == Kind::Tcp && self.marks.len() > 0 && self.held_done() {
            self.flush_out(usize::MAX);
            return true;
        }
        if kind == Kind::Tcp {
            self.end_gap();
            if self.late > 0 {
                let step = if *timeout < 0 { self.late } else { self.late.min(*timeout) };
                self.now += step as u64 * 1_000_000;
                self.late -= step;
                if *timeout >= 0 { *timeout -= step; }
                return *timeout != 0;
            }
        }
        if kind == Kind::Udp && self.gap.is_none() && self.dead {
            self.silences += 1;
            if self.silences > 12 { self.block(kind, "spin"); }
            self.log(json!({"e":"silence"}));
            self.gap = Some((PERIOD + 50 - self.quiet, true));
        }
        if kind == Kind::Udp && self.gap.is_some() { return self.wait_gap(timeout); }
        match self.steps.front() {
            None => self.block(kind, "end"),
            Some(s) if Env::is_user(s) => self.block(kind, "desync"),
            Some(s) if s["a"] == "loop" => {
                // a robot that executes every command, until the motion is finished
                let max = s["max"].as_u64().unwrap_or(30000);
                if kind == Kind::Tcp || self.loops >= max || self.last_cmd.as_ref().map(|c| c.fin == 1).unwrap_or(false) {
                    self.steps.pop_front();
                    self.loops = 0;
                    return true;
                }
                let mut st = s.clone();
                st["a"] = json!("state"); st["echo"] = json!(true);
                let skip = s["skip"].as_array().map(|v| v[self.loops as usize % v.len()].as_i64().unwrap_or(1)).unwrap_or(1);
                st["mid"] = json!(self.last_mid + skip);
                self.loops += 1;
                self.do_env(&st);
                true
            }
            Some(s) if s["a"] == "silence" => {
                if kind == Kind::Udp {
                    self.steps.pop_front();
                    self.log(json!({"e":"silence"}));
                    self.gap = Some((PERIOD + 50 - self.quiet, true));
                    return self.wait_gap(timeout);
                }
                // waiting for TCP: no timeout can expire; drop the step
                self.steps.pop_front();
                true
            }
            Some(s) if s["a"] == "late" => {
                // the reply takes its time
                if kind == Kind::Tcp { self.late = s["ms"].as_i64().unwrap_or(1); }
                self.log(json!({"e":"pause","ms":s["ms"]}));
                self.steps.pop_front();
                true
            }
            Some(s) if s["a"] == "pause" => {
                let ms = s["ms"].as_i64().unwrap_or(1);
                self.steps.pop_front();
                self.log(json!({"e":"pause","ms":ms}));
                if kind != Kind::Udp { return true; }
                self.gap = Some((ms, false));
                self.wait_gap(timeout)
            }
            Some(_) => {
                let s = self.steps.pop_front().unwrap();
                if matches!(s["a"].as_str(), Some("state") | Some("junk")) { self.quiet = 0; }
                self.do_env(&s);
                true
            }
        }
    }
    fn held_done(&self) -> bool {
        // remainder of a transfer that did not fit into the socket buffer
        !self.steps.iter().any(|s| s["a"] == "flush")
    }
    fn block(&mut self, kind: Kind, why: &str) -> ! {
        self.warm = None;
        self.log(json!({"e":"blocked","on":match kind { Kind::Tcp => "tcp", Kind::Udp => "udp", _ => "other" },"why":why}));
        self.tcp = None;
        self.listener = None;
        *self.sh.done.lock().unwrap() = true;
        self.sh.cv.notify_all();
        loop { std::thread::sleep(Duration::from_secs(3600)); }
    }
    /// between calls: perform environment steps, return the next call
    pub fn next_call(&mut self) -> Option<Value> {
        self.end_gap();
        loop {
            let s = self.steps.pop_front()?;
            match s["a"].as_str() {
                Some("call") => { self.loading = None; return Some(s) }
                Some("cbret") | Some("silence") | Some("pause") | Some("late") => { self.log(json!({"e":"skip"})); }
                _ => crate::hooks::busy(|| self.do_env(&s)),
            }
        }
    }
    /// inside a callback: perform environment steps, return the scripted answer
    pub fn next_cbret(&mut self) -> Value {
        self.end_gap();
        loop {
            match self.steps.front() {
                Some(s) if s["a"] == "cbret" => return self.steps.pop_front().unwrap(),
                Some(s) if s["a"] == "call" => return json!({"a":"cbret","fin":true,"v":0,"t":0,"desync":true}),
                None => return json!({"a":"cbret","fin":true,"v":0,"t":0,"desync":true}),
                Some(s) if s["a"] == "silence" || s["a"] == "pause" || s["a"] == "late" => { self.steps.pop_front(); }
                Some(_) => { let s = self.steps.pop_front().unwrap(); crate::hooks::busy(|| self.do_env(&s)); }
            }
        }
    }
    // ---- file system and realtime stand-ins -------------------------------------------------------
    pub fn redirect(&mut self, p: &[u8]) -> Option<CString> {
        if p.starts_with(b"/tmp/model.so") { return CString::new(format!("{}/{}", self.scratch, String::from_utf8_lossy(&p[5..]))).ok(); }
        if p == b"/sys/kernel/realtime" {
            return CString::new(if self.rt_kernel { "/proc/self/stat" } else { "/nonexistent/realtime" }).ok();
        }
        None
    }
    pub fn on_dlopen(&mut self, _q: &CString) {
        let e = self.file_event("dlopen");
        self.log(e);
    }
    pub fn rt_call(&mut self, what: &str, a: i32, b: i32) -> i32 {
        let r = *self.rt_script.get(what).unwrap_or(&(if what == "priomax" { 99 } else { 0 }));
        self.log(json!({"e":"rt","f":what,"a":a,"b":b,"r":r}));
        r
    }
}

pub fn num(v: &Value) -> f64 {
    match v {
        Value::String(s) => match s.as_str() { "nan" => f64::NAN, "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, x => x.parse().unwrap_or(0.0) },
        Value::Number(n) => n.as_f64().unwrap_or(0.0),
        _ => 0.0,
    }
}

pub fn fnv(b: &[u8]) -> u32 {
    let mut h: u32 = 2166136261;
    for x in b { h ^= *x as u32; h = h.wrapping_mul(16777619); }
    h >> 2
}
