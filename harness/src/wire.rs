//! Independent encoders and decoders for the Franka wire protocol (robot interface version 5,
//! gripper version 3).  Nothing here uses the library under test or its serializer.

/// name, number of f64 elements, in datagram order (message_id u64 comes first).
pub const STATE_F64: &[(&str, usize)] = &[
    ("O_T_EE", 16), ("O_T_EE_d", 16), ("F_T_EE", 16), ("EE_T_K", 16), ("F_T_NE", 16), ("NE_T_EE", 16),
    ("m_ee", 1), ("I_ee", 9), ("F_x_Cee", 3), ("m_load", 1), ("I_load", 9), ("F_x_Cload", 3),
    ("elbow", 2), ("elbow_d", 2), ("tau_J", 7), ("tau_J_d", 7), ("dtau_J", 7),
    ("q", 7), ("q_d", 7), ("dq", 7), ("dq_d", 7), ("ddq_d", 7),
    ("joint_contact", 7), ("cartesian_contact", 6), ("joint_collision", 7), ("cartesian_collision", 6),
    ("tau_ext_hat_filtered", 7), ("O_F_ext_hat_K", 6), ("K_F_ext_hat_K", 6), ("O_dP_EE_d", 6), ("O_ddP_O", 3),
    ("elbow_c", 2), ("delbow_c", 2), ("ddelbow_c", 2), ("O_T_EE_c", 16), ("O_dP_EE_c", 6), ("O_ddP_EE_c", 6),
    ("theta", 7), ("dtheta", 7),
];

pub fn field_no(name: &str) -> usize {
    STATE_F64.iter().position(|(n, _)| *n == name).unwrap()
}

#[derive(Clone)]
pub struct RawState {
    pub mid: u64,
    pub f: Vec<Vec<f64>>,
    pub mg: u8,
    pub cm: u8,
    pub errors: [bool; 41],
    pub reflex: [bool; 41],
    pub rm: u8,
    pub rate: f64,
}

impl RawState {
    pub fn zero(mid: u64) -> Self {
        RawState {
            mid,
            f: STATE_F64.iter().map(|(_, n)| vec![0.0; *n]).collect(),
            mg: 0, cm: 3, errors: [false; 41], reflex: [false; 41], rm: 1, rate: 0.0,
        }
    }
    /// every element a distinct integer that identifies the datagram (tag), the field and the index
    pub fn tagged(mid: u64, tag: i64) -> Self {
        let mut s = RawState::zero(mid);
        for (k, v) in s.f.iter_mut().enumerate() {
            for (i, x) in v.iter_mut().enumerate() {
                *x = (tag * 1000 + (k as i64) * 16 + i as i64) as f64;
            }
        }
        s.rate = (tag * 1000 + 999) as f64;
        s
    }
    pub fn set(&mut self, name: &str, v: &[f64]) {
        self.f[field_no(name)].copy_from_slice(v);
    }
    pub fn get(&self, name: &str) -> &[f64] {
        &self.f[field_no(name)]
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut b = Vec::with_capacity(2400);
        b.extend_from_slice(&self.mid.to_le_bytes());
        for v in &self.f {
            for x in v {
                b.extend_from_slice(&x.to_le_bytes());
            }
        }
        b.push(self.mg);
        b.push(self.cm);
        for e in self.errors.iter() { b.push(*e as u8); }
        for e in self.reflex.iter() { b.push(*e as u8); }
        b.push(self.rm);
        b.extend_from_slice(&self.rate.to_le_bytes());
        b
    }
}

pub fn gripper_state(mid: u32, width: f64, max_width: f64, grasped: bool, temp: u16) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend_from_slice(&mid.to_le_bytes());
    b.extend_from_slice(&width.to_le_bytes());
    b.extend_from_slice(&max_width.to_le_bytes());
    b.push(grasped as u8);
    b.extend_from_slice(&temp.to_le_bytes());
    b
}

pub fn f64s(b: &[u8]) -> Vec<f64> {
    b.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect()
}

#[derive(Clone, Debug)]
pub struct Cmd {
    pub mid: u64,
    pub q: Vec<f64>,
    pub dq: Vec<f64>,
    pub t: Vec<f64>,
    pub dp: Vec<f64>,
    pub el: Vec<f64>,
    pub ve: u8,
    pub fin: u8,
    pub tau: Vec<f64>,
}

pub const CMD_LEN: usize = 8 + 8 * (7 + 7 + 16 + 6 + 2) + 2 + 8 * 7;

pub fn decode_cmd(b: &[u8]) -> Option<Cmd> {
    if b.len() != CMD_LEN {
        return None;
    }
    let v = f64s(&b[8..8 + 8 * 38]);
    let o = 8 + 8 * 38;
    Some(Cmd {
        mid: u64::from_le_bytes(b[0..8].try_into().unwrap()),
        q: v[0..7].to_vec(),
        dq: v[7..14].to_vec(),
        t: v[14..30].to_vec(),
        dp: v[30..36].to_vec(),
        el: v[36..38].to_vec(),
        ve: b[o],
        fin: b[o + 1],
        tau: f64s(&b[o + 2..]),
    })
}

/// rotation vector per second that takes the rotation of `t0` to that of `t` (column-major 4x4)
pub fn rotation_rate(t: &[f64], t0: &[f64], dt: f64) -> Vec<f64> {
    let r = |m: &[f64], i: usize, j: usize| m[4 * j + i];
    let mut d = [[0.0; 3]; 3];
    for i in 0..3 { for j in 0..3 { for k in 0..3 { d[i][j] += r(t, i, k) * r(t0, j, k); } } }
    let v = [(d[2][1] - d[1][2]) / 2.0, (d[0][2] - d[2][0]) / 2.0, (d[1][0] - d[0][1]) / 2.0];
    let s = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    let c = (d[0][0] + d[1][1] + d[2][2] - 1.0) / 2.0;
    let f = if s > 0.0 { s.atan2(c) / s } else { 1.0 };
    v.iter().map(|x| x * f / dt).collect()
}
pub fn advance_pose(t0: &[f64], v: &[f64], dt: f64) -> Vec<f64> {
    let w = [v[3] * dt, v[4] * dt, v[5] * dt];
    let th = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt();
    let (a, b) = if th > 1e-9 { (th.sin() / th, (1.0 - th.cos()) / (th * th)) } else { (1.0, 0.5) };
    let k = [[0.0, -w[2], w[1]], [w[2], 0.0, -w[0]], [-w[1], w[0], 0.0]];
    let mut e = [[0.0; 3]; 3];
    for i in 0..3 { for j in 0..3 {
        let mut kk = 0.0;
        for l in 0..3 { kk += k[i][l] * k[l][j]; }
        e[i][j] = (if i == j { 1.0 } else { 0.0 }) + a * k[i][j] + b * kk;
    } }
    let mut t = t0.to_vec();
    for i in 0..3 { for j in 0..3 { t[4 * j + i] = (0..3).map(|l| e[i][l] * t0[4 * j + l]).sum(); } }
    for i in 0..3 { t[12 + i] += v[i] * dt; }
    t
}
