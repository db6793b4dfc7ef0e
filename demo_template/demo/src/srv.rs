//! a small scripted robot or gripper controller on the loopback network
#![allow(dead_code)]
use crate::wire::*;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::time::Duration;

pub struct Srv { pub tcp: TcpStream, pub udp: UdpSocket, pub ip: String, pub client: u16, pub robot: bool }

pub fn serve<R: Send + 'static>(robot: bool, f: impl FnOnce(&mut Srv) -> R + Send + 'static) -> (String, std::thread::JoinHandle<R>) {
    std::thread::spawn(|| { std::thread::sleep(Duration::from_secs(100)); eprintln!("demo: hangs"); std::process::exit(9) });
    let port = if robot { 1337 } else { 1338 };
    let p = std::process::id();
    let (ip, l) = (0..200).find_map(|k| {
        let n = p.wrapping_mul(31).wrapping_add(k * 17);
        let ip = format!("127.{}.{}.{}", 3 + n % 200, 1 + (n / 200) % 250, 1 + (n / 50000) % 250);
        TcpListener::bind((ip.as_str(), port)).ok().map(|l| (ip, l))
    }).expect("no free address");
    let ip2 = ip.clone();
    let h = std::thread::spawn(move || {
        let (tcp, _) = l.accept().unwrap();
        tcp.set_nodelay(true).unwrap();
        tcp.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        let udp = UdpSocket::bind((ip2.as_str(), 0)).unwrap();
        udp.set_read_timeout(Some(Duration::from_millis(1500))).unwrap();
        f(&mut Srv { tcp, udp, ip: ip2, client: 0, robot })
    });
    (ip, h)
}
impl Srv {
    /// next request: command, id, body
    pub fn req(&mut self) -> Option<(u32, u32, Vec<u8>)> {
        let n = if self.robot { 12 } else { 10 };
        let mut h = vec![0u8; n];
        self.tcp.read_exact(&mut h).ok()?;
        let (cmd, o) = if self.robot { (u32::from_le_bytes(h[0..4].try_into().unwrap()), 4) } else { (u16::from_le_bytes(h[0..2].try_into().unwrap()) as u32, 2) };
        let id = u32::from_le_bytes(h[o..o + 4].try_into().unwrap());
        let size = u32::from_le_bytes(h[o + 4..o + 8].try_into().unwrap()) as usize;
        let mut b = vec![0u8; size - n];
        self.tcp.read_exact(&mut b).ok()?;
        if cmd == 0 && b.len() == 4 { self.client = u16::from_le_bytes([b[2], b[3]]); }
        Some((cmd, id, b))
    }
    pub fn bytes(&self, cmd: u32, id: u32, body: &[u8]) -> Vec<u8> {
        let mut m = vec![];
        if self.robot { m.extend(cmd.to_le_bytes()); } else { m.extend((cmd as u16).to_le_bytes()); }
        m.extend(id.to_le_bytes());
        let n = m.len() + 4 + body.len();
        m.extend((n as u32).to_le_bytes());
        m.extend(body);
        m
    }
    pub fn raw(&mut self, b: &[u8]) { let _ = self.tcp.write_all(b); let _ = self.tcp.flush(); }
    pub fn resp(&mut self, cmd: u32, id: u32, status: u16) {
        let body: Vec<u8> = if self.robot { vec![status as u8] } else { status.to_le_bytes().to_vec() };
        let m = self.bytes(cmd, id, &body);
        self.raw(&m);
    }
    /// answers the connect request
    pub fn connect(&mut self) {
        let (_, id, _) = self.req().unwrap();
        let body: Vec<u8> = if self.robot { vec![0, 5, 0] } else { vec![0, 0, 3, 0] };
        let m = self.bytes(0, id, &body);
        self.raw(&m);
    }
    pub fn send(&mut self, b: &[u8]) { self.udp.send_to(b, (self.ip.as_str(), self.client)).unwrap(); std::thread::sleep(Duration::from_millis(3)); }
    pub fn state(&mut self, mid: u64, mg: u8, cm: u8, rm: u8) {
        let mut s = RawState::zero(mid);
        s.mg = mg; s.cm = cm; s.rm = rm;
        self.rstate(&s);
    }
    pub fn rstate(&mut self, s: &RawState) { self.send(&s.encode()); }
    pub fn cmd(&mut self) -> Option<Cmd> {
        let mut b = [0u8; 2000];
        let n = self.udp.recv(&mut b).ok()?;
        decode_cmd(&b[..n])
    }
}
/// identity pose for the fields which need one
pub fn ident(s: &mut RawState) {
    let mut t = [0.0; 16];
    for i in [0, 5, 10, 15] { t[i] = 1.0; }
    for f in ["O_T_EE", "O_T_EE_d", "F_T_EE", "EE_T_K", "F_T_NE", "NE_T_EE", "O_T_EE_c"] { s.set(f, &t); }
}
pub fn fail(m: &str) -> ! { eprintln!("demo: {}", m); std::process::exit(1) }
