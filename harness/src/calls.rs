//! Executes the API calls of a scenario on the real library and records what they return.
use crate::env::{fnv, jf, jfs, num, Env};
use franka::exception::FrankaException;
use franka::robot::logger::Record;
use franka::*;
use serde_json::{json, Value};
use std::time::Duration;

pub struct Client { pub robot: Option<Robot>, pub gripper: Option<Gripper>, pub model: Option<Model>, pub held: Vec<Model> }

fn arr<const N: usize>(v: &Value) -> [f64; N] {
    let mut o = [0.0; N];
    if let Some(a) = v.as_array() { for (i, x) in a.iter().enumerate().take(N) { o[i] = num(x); } }
    o
}
fn seq<const N: usize>(v: f64) -> [f64; N] {
    let mut o = [0.0; N];
    for (i, x) in o.iter_mut().enumerate() { *x = v + i as f64; }
    o
}
const ROTS: [[f64; 9]; 4] = [
    [1., 0., 0., 0., 1., 0., 0., 0., 1.],
    [0., 1., 0., -1., 0., 0., 0., 0., 1.],
    [1., 0., 0., 0., 0., 1., 0., -1., 0.],
    [0., 1., 0., 0., 0., 1., 1., 0., 0.],
];
pub fn pose(v: f64, rot: usize) -> [f64; 16] {
    let r = ROTS[rot % 4];
    [r[0], r[1], r[2], 0., r[3], r[4], r[5], 0., r[6], r[7], r[8], 0., v, v + 1., v + 2., 1.]
}

pub fn reltime(e: &Env, t: &Duration) -> Value {
    if t.subsec_nanos() % 1_000_000 != 0 { return json!(-2); }
    let m = t.as_millis() as u64;
    if !e.robot {
        let r = (m as u32).wrapping_sub(e.base as u32);
        return if (t.as_millis() >> 32) == 0 && r < 1 << 30 { json!(r) } else { json!(-1) };
    }
    let r = m.wrapping_sub(e.base);
    if r < 1 << 30 { json!(r as i64) } else { json!(-1) }
}
fn ms(d: &Duration) -> Value {
    if d.subsec_nanos() % 1_000_000 != 0 || d.as_millis() >= 1 << 30 { json!(-2) } else { json!(d.as_millis() as i64) }
}

pub fn decode_state(e: &Env, s: &RobotState) -> Value {
    let rm = match s.robot_mode {
        // RobotMode is not exported by name: use its Debug form
        ref m => format!("{:?}", m),
    };
    let errs = |v: &franka::robot::errors::FrankaErrors| -> Value { v.franka_errors.iter().map(|x| json!(*x as u64)).collect() };
    let mut o = serde_json::Map::new();
    macro_rules! f { ($($n:ident),*) => { $( o.insert(stringify!($n).to_string(), jfs(&s.$n)); )* } }
    f!(O_T_EE, O_T_EE_d, F_T_EE, EE_T_K, F_T_NE, NE_T_EE, I_ee, F_x_Cee, I_load, F_x_Cload, elbow, elbow_d, tau_J, tau_J_d, dtau_J, q, q_d, dq, dq_d, ddq_d,
       joint_contact, cartesian_contact, joint_collision, cartesian_collision, tau_ext_hat_filtered, O_F_ext_hat_K, K_F_ext_hat_K, O_dP_EE_d, O_ddP_O,
       elbow_c, delbow_c, ddelbow_c, O_T_EE_c, O_dP_EE_c, O_ddP_EE_c, theta, dtheta, I_total, F_x_Ctotal);
    o.insert("m_ee".into(), jfs(&[s.m_ee]));
    o.insert("m_load".into(), jfs(&[s.m_load]));
    o.insert("m_total".into(), jfs(&[s.m_total]));
    o.insert("rate".into(), jfs(&[s.control_command_success_rate]));
    let names = |v: &franka::robot::errors::FrankaErrors| -> Value { v.franka_errors.iter().map(|x| json!(format!("{:?}", x))).collect() };
    json!({"mid":reltime(e, &s.time),"rm":rm,"err":errs(&s.current_errors),"refl":errs(&s.last_motion_errors),"errn":names(&s.current_errors),"refln":names(&s.last_motion_errors),"f":o})
}
fn sample(s: &RobotState) -> Value {
    json!([jf(s.O_T_EE[0]), jf(s.q_d[3]), jf(s.dtheta[6]), jf(s.control_command_success_rate)])
}
pub fn why(m: &str) -> &'static str {
    let m = m.to_lowercase();
    for (k, v) in [("user stop", "userstop"), ("still moving", "stillmoving"), ("reflex", "reflex"), ("invalid input", "input"), ("not possible", "notpossible"),
        ("singular", "singular"), ("deviation", "deviation"), ("preempted", "preempted"), ("invalid argument", "invalidarg"), ("manual", "manual"),
        ("multiple motion", "multiple"), ("failed", "failed"), ("aborted", "aborted")] {
        if m.contains(k) { return v; }
    }
    "other"
}
fn err_names(m: &str) -> Value {
    use franka::robot::error::FrankaError;
    let words: Vec<&str> = m.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).collect();
    let norm = |s: &str| s.to_lowercase().replace('_', "");
    let mut v = vec![];
    for i in 0..41u64 {
        // the numbered error's own name
        let e: FrankaError = unsafe { std::mem::transmute_copy(&i) };
        let n = norm(&format!("{:?}", e));
        if words.iter().any(|w| norm(w) == n) { v.push(i); }
    }
    json!(v)
}
fn log_json(e: &Env, l: &Option<Vec<Record>>) -> Value {
    match l {
        None => json!([]),
        Some(v) => v.iter().map(|r| {
            let c = &r.command;
            let x = match e.cur_mg { 0 => c.joint_positions.q[0], 1 => c.joint_velocities.dq[0], 2 => c.cartesian_pose.O_T_EE[12], _ => c.cartesian_velocities.O_dP_EE[0] };
            let mut o = json!({"mid":reltime(e, &r.state.time),"v":jf(x),"t":jf(c.torques.tau_J[0]),"c":sample(&r.state)});
            if e.full {
                o["q"] = jfs(&c.joint_positions.q); o["dq"] = jfs(&c.joint_velocities.dq); o["T"] = jfs(&c.cartesian_pose.O_T_EE);
                o["dP"] = jfs(&c.cartesian_velocities.O_dP_EE); o["tau"] = jfs(&c.torques.tau_J);
                // the elbow of the interface in use; for the others there is none that was sent
                let el = match e.cur_mg { 2 => c.cartesian_pose.elbow, 3 => c.cartesian_velocities.elbow, _ => None };
                o["el"] = match el { Some(x) => jfs(&x), None => json!([]) };
            }
            o
        }).collect(),
    }
}
fn err_json(e: &Env, x: &FrankaException) -> Value {
    match x {
        FrankaException::ControlException { log, error } => json!({"e":"ret","r":"err","k":"control","why":why(error),"errs":err_names(error),"haslog":log.is_some(),"log":log_json(e, log),"msg":error}),
        FrankaException::IncompatibleLibraryVersionError { server_version, library_version } => json!({"e":"ret","r":"err","k":"incompat","sv":server_version,"lv":library_version}),
        FrankaException::NetworkException { message } => json!({"e":"ret","r":"err","k":"network","msg":message}),
        FrankaException::CommandException { message } => json!({"e":"ret","r":"err","k":"command","why":why(message),"msg":message}),
        FrankaException::ModelException { message } => json!({"e":"ret","r":"err","k":"model","msg":message}),
        FrankaException::RealTimeException { message } => json!({"e":"ret","r":"err","k":"realtime","msg":message}),
        FrankaException::NoMotionGeneratorRunningError => json!({"e":"ret","r":"err","k":"nomotion"}),
        FrankaException::NoControllerRunningError => json!({"e":"ret","r":"err","k":"nocontroller"}),
        FrankaException::PartialCommandError => json!({"e":"ret","r":"err","k":"partial"}),
    }
}

/// one callback invocation: trace it, let the environment act, return the scripted answer
fn cb(e: *mut Env, k: &str, s: &RobotState, dt: Option<&Duration>) -> Value {
    let env = unsafe { &mut *e };
    {
        let mut ev = json!({"e":"cb","k":k,"mid":reltime(env, &s.time),"c":sample(s)});
        if let Some(d) = dt { ev["dt"] = ms(d); }
        if env.full && (k == "read" || env.sc["decode"].as_bool().unwrap_or(false)) { ev["st"] = decode_state(env, s); }
        env.log(ev);
    }
    let r = env.next_cbret();
    {
        let mut ev = json!({"e":"cbret","k":k,"fin":r["fin"].as_bool().unwrap_or(false),"vi":num(&r["v"]) as i64,"ti":num(&r["t"]) as i64,
            "rot":r["rot"].as_i64().unwrap_or(0),"el":if r["el"].is_array() { jfs(&arr::<2>(&r["el"])) } else { json!([]) }, "bad": r["bad"].as_bool().unwrap_or(false),
            "desync": r["desync"].as_bool().unwrap_or(false)});
        if let Some(x) = r["x"].as_array() { ev["x"] = jfs(&x.iter().map(num).collect::<Vec<f64>>()); }
        env.log(ev);
    }
    r
}
fn elbow(r: &Value) -> Option<[f64; 2]> { if r["el"].is_array() { Some(arr::<2>(&r["el"])) } else { None } }
trait FromRet { fn from_ret(r: &Value) -> Self; }
/// half of the answers are built through the conversions (from vectors, arrays and isometries), the others directly
fn converted(x: &[f64]) -> bool { x.iter().fold(0u64, |h, v| (h ^ v.to_bits()).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17)) & 1 == 1 }
impl FromRet for JointPositions {
    fn from_ret(r: &Value) -> Self {
        let x: [f64; 7] = if r["x"].is_array() { arr(&r["x"]) } else { seq(num(&r["v"])) };
        if converted(&x) { Vector7::from(x).into() } else { JointPositions::new(x) }
    }
}
impl FromRet for JointVelocities {
    fn from_ret(r: &Value) -> Self {
        let x: [f64; 7] = if r["x"].is_array() { arr(&r["x"]) } else { seq(num(&r["v"])) };
        if converted(&x) { Vector7::from(x).into() } else { JointVelocities::new(x) }
    }
}
impl FromRet for CartesianPose {
    fn from_ret(r: &Value) -> Self {
        let x: [f64; 16] = if r["x"].is_array() { arr(&r["x"]) } else { pose(num(&r["v"]), r["rot"].as_u64().unwrap_or(0) as usize) };
        let e = elbow(r);
        if e.is_some() || !converted(&x[12..15]) { return CartesianPose::new(x, e); }
        // an isometry holds its rotation as a quaternion, which is exact for the identity only
        if x[..12] == pose(0., 0)[..12] && x[15] == 1.0 { nalgebra::Isometry3::translation(x[12], x[13], x[14]).into() } else { x.into() }
    }
}
impl FromRet for CartesianVelocities {
    fn from_ret(r: &Value) -> Self {
        let x: [f64; 6] = if r["x"].is_array() { arr(&r["x"]) } else { seq(num(&r["v"])) };
        let e = elbow(r);
        if e.is_none() && converted(&x) { nalgebra::Vector6::from(x).into() } else { CartesianVelocities::new(x, e) }
    }
}
impl FromRet for Torques {
    fn from_ret(r: &Value) -> Self {
        let x: [f64; 7] = if r["x"].is_array() { arr(&r["x"]) } else { seq(num(&r["t"])) };
        if converted(&x) { Vector7::from(x).into() } else { Torques::new(x) }
    }
}
fn motion<T: FromRet + Finishable + Copy>(e: *mut Env, s: &RobotState, d: &Duration) -> T {
    let r = cb(e, "mot", s, Some(d));
    let o = T::from_ret(&r);
    if r["fin"].as_bool().unwrap_or(false) { o.motion_finished() } else { o }
}
fn control(e: *mut Env, s: &RobotState, d: &Duration) -> Torques {
    let r = cb(e, "ctl", s, Some(d));
    let o = Torques::from_ret(&r);
    if r["fin"].as_bool().unwrap_or(false) { o.motion_finished() } else { o }
}

fn unit(e: &Env, r: FrankaResult<()>) -> Value { match r { Ok(()) => json!({"e":"ret","r":"ok"}), Err(x) => err_json(e, &x) } }
fn boolean(e: &Env, r: FrankaResult<bool>) -> Value { match r { Ok(b) => json!({"e":"ret","r":if b { "true" } else { "false" }}), Err(x) => err_json(e, &x) } }

pub fn run_call(ep: *mut Env, c: &mut Client, call: &Value) -> Value {
    let env = unsafe { &mut *ep };
    let op = call["op"].as_str().unwrap_or("");
    let a = &call["args"];
    let at = |i: usize| num(&a[i]);
    let slice = |from: usize, n: usize| -> Value { Value::Array((from..from + n).map(|i| a[i].clone()).collect()) };
    match op {
        "new" => {
            let host = call["host"].as_str().unwrap_or(&env.ip).to_string();
            if env.robot {
                let rt = match call["rt"].as_str() { Some("enforce") => Some(RealtimeConfig::Enforce), Some("default") => None, _ => Some(RealtimeConfig::Ignore) };
                let log = call["log"].as_u64().map(|x| x as usize);
                match Robot::new(&host, rt, log) { Ok(r) => { let v = r.server_version(); c.robot = Some(r); json!({"e":"ret","r":"ver","ver":v}) } Err(x) => err_json(env, &x) }
            } else {
                match Gripper::new(&host) { Ok(r) => { let v = r.server_version(); c.gripper = Some(r); json!({"e":"ret","r":"ver","ver":v}) } Err(x) => err_json(env, &x) }
            }
        }
        "drop" => { c.robot = None; c.gripper = None; json!({"e":"ret","r":"ok"}) }
        "version" => {
            let v = if env.robot { c.robot.as_ref().unwrap().server_version() } else { c.gripper.as_ref().unwrap().server_version() };
            json!({"e":"ret","r":"ver","ver":v})
        }
        "warm" => {
            let n = call["n"].as_i64().unwrap_or(1);
            env.warm = Some(Default::default());
            let mut ok = 0;
            for _ in 0..n {
                let r = if env.robot { c.robot.as_mut().unwrap().automatic_error_recovery().is_ok() } else { matches!(c.gripper.as_mut().unwrap().stop(), Ok(true)) };
                if r { ok += 1; }
            }
            let w = env.warm.take().unwrap();
            json!({"e":"warm","n":n,"ok":ok,"reqs":w.reqs,"first":w.first,"last":w.last,"gaps":w.gaps,"odd":w.odd})
        }
        _ if !env.robot => {
            let g = c.gripper.as_mut().unwrap();
            let opt = |i: usize| if a[i].is_null() || a[i] == "none" { None } else { Some(num(&a[i])) };
            match op {
                "homing" => { let r = g.homing(); boolean(env, r) }
                "gstop" => { let r = g.stop(); boolean(env, r) }
                "gmove" => { let r = g.move_gripper(at(0), at(1)); boolean(env, r) }
                "grasp" => { let r = g.grasp(at(0), at(1), at(2), opt(3), opt(4)); boolean(env, r) }
                "read_once" => match g.read_once() {
                    Ok(s) => json!({"e":"ret","r":"gstate","mid":reltime(env, &s.time),"width":jf(s.width),"maxw":jf(s.max_width),"grasped":s.is_grasped,"temp":s.temperature}),
                    Err(x) => err_json(env, &x),
                },
                _ => json!({"e":"badcall","op":op}),
            }
        }
        _ => {
            let r = c.robot.as_mut().unwrap();
            let lim = call["lim"].as_bool();
            let cut = if call["cut"].is_null() { None } else { Some(num(&call["cut"])) };
            let cm = || match call["cm"].as_str() { Some("ji") => Some(ControllerMode::JointImpedance), Some("ci") => Some(ControllerMode::CartesianImpedance), _ => None };
            match op {
                "read_once" => match r.read_once() {
                    Ok(s) => { let mut o = json!({"e":"ret","r":"state","mid":reltime(env, &s.time),"c":sample(&s)}); if env.full { o["st"] = decode_state(env, &s); } o }
                    Err(x) => err_json(env, &x),
                },
                "read" => { let x = r.read(|s| { let v = cb(ep, "read", s, None); !v["fin"].as_bool().unwrap_or(true) }); unit(env, x) }
                "set_collision" => { let x = r.set_collision_behavior(arr(&slice(0, 7)), arr(&slice(7, 7)), arr(&slice(14, 7)), arr(&slice(21, 7)), arr(&slice(28, 6)), arr(&slice(34, 6)), arr(&slice(40, 6)), arr(&slice(46, 6))); unit(env, x) }
                "set_joint_imp" => { let x = r.set_joint_impedance(arr(a)); unit(env, x) }
                "set_cart_imp" => { let x = r.set_cartesian_impedance(arr(a)); unit(env, x) }
                "set_guiding" => { let b: Vec<bool> = (0..7).map(|i| at(i) != 0.0).collect(); let x = r.set_guiding_mode([b[0], b[1], b[2], b[3], b[4], b[5]], b[6]); unit(env, x) }
                "set_k" => { let x = r.set_K(arr(a)); unit(env, x) }
                "set_ee" => { let x = r.set_EE(arr(a)); unit(env, x) }
                "set_load" => { let x = r.set_load(at(0), arr(&slice(1, 3)), arr(&slice(4, 9))); unit(env, x) }
                #[allow(deprecated)]
                "set_filters" => { let x = r.set_filters(at(0), at(1), at(2), at(3), at(4)); unit(env, x) }
                "recover" => { let x = r.automatic_error_recovery(); unit(env, x) }
                "stop" => { let x = r.stop(); unit(env, x) }
                "default_behavior" => { let x = r.set_default_behavior(); unit(env, x) }
                "get_wall" => match r.get_virtual_wall(at(0) as i32) {
                    Ok(w) => { let mut v: Vec<f64> = w.object_world_size.to_vec(); v.extend_from_slice(&w.p_frame); json!({"e":"ret","r":"wall","id":w.id,"w":jfs(&v),"active":w.active}) }
                    Err(x) => err_json(env, &x),
                },
                "load_model" => match r.load_model(call["persistent"].as_bool().unwrap_or(false)) {
                    Ok(m) => {
                        let q = [1., 2., 3., 4., 5., 6., 7.];
                        let p = m.pose(&Frame::Joint3, &q, &[0.; 16], &[0.; 16]);
                        c.held.push(m);
                        let mut o = env.file_event("ret"); o["r"] = json!("model"); o["probe"] = jf(p[0]); o
                    }
                    Err(x) => { let f = env.file_event("ret"); let mut o = err_json(env, &x); o["exists"] = f["exists"].clone(); o["hash"] = f["hash"].clone(); o["left"] = f["left"].clone(); o }
                },
                "jp" => { let x = r.control_joint_positions(|s, d| motion::<JointPositions>(ep, s, d), cm(), lim, cut); unit(env, x) }
                "jv" => { let x = r.control_joint_velocities(|s, d| motion::<JointVelocities>(ep, s, d), cm(), lim, cut); unit(env, x) }
                "cp" => { let x = r.control_cartesian_pose(|s, d| motion::<CartesianPose>(ep, s, d), cm(), lim, cut); unit(env, x) }
                "cv" => { let x = r.control_cartesian_velocities(|s, d| motion::<CartesianVelocities>(ep, s, d), cm(), lim, cut); unit(env, x) }
                "tjp" => { let x = r.control_torques_and_joint_positions(|s, d| control(ep, s, d), |s, d| motion::<JointPositions>(ep, s, d), lim, cut); unit(env, x) }
                "tjv" => { let x = r.control_torques_and_joint_velocities(|s, d| control(ep, s, d), |s, d| motion::<JointVelocities>(ep, s, d), lim, cut); unit(env, x) }
                "tcp" => { let x = r.control_torques_and_cartesian_pose(|s, d| control(ep, s, d), |s, d| motion::<CartesianPose>(ep, s, d), lim, cut); unit(env, x) }
                "tcv" => { let x = r.control_torques_and_cartesian_velocities(|s, d| control(ep, s, d), |s, d| motion::<CartesianVelocities>(ep, s, d), lim, cut); unit(env, x) }
                "tau" => { let x = r.control_torques(|s, d| control(ep, s, d), lim, cut); unit(env, x) }
                "joint_motion" => { let x = r.joint_motion(num(&call["speed"]), &arr(a)); unit(env, x) }
                _ => json!({"e":"badcall","op":op}),
            }
        }
    }
}

fn frame(i: u64) -> Frame {
    match i { 1 => Frame::Joint1, 2 => Frame::Joint2, 3 => Frame::Joint3, 4 => Frame::Joint4, 5 => Frame::Joint5, 6 => Frame::Joint6, 7 => Frame::Joint7,
        8 => Frame::Flange, 9 => Frame::EndEffector, _ => Frame::Stiffness }
}
/// what the stand-in model library was last called with
#[repr(C)]
struct Rec { sym: [u8; 16], n: i32, inp: [f64; 64] }
struct Lib { last: *const Rec, calls: *const i32 }
fn probe(path: &str) -> Option<Lib> {
    unsafe {
        let p = std::ffi::CString::new(path).unwrap();
        let h = libc::dlopen(p.as_ptr(), libc::RTLD_NOW);
        if h.is_null() { return None; }
        let l = libc::dlsym(h, b"vf_last\0".as_ptr() as *const _) as *const Rec;
        let c = libc::dlsym(h, b"vf_calls\0".as_ptr() as *const _) as *const i32;
        if l.is_null() || c.is_null() { None } else { Some(Lib { last: l, calls: c }) }
    }
}
fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
fn model_query(m: &Model, l: &Lib, q: &Value) -> Value {
    let s = RobotState { q: arr(&q["q"]), dq: arr(&q["dq"]), F_T_EE: arr(&q["F"]), EE_T_K: arr(&q["K"]), I_total: arr(&q["I"]), m_total: num(&q["m"]), F_x_Ctotal: arr(&q["x"]), O_ddP_O: arr(&q["a"]),
        // decoys: everything else that could be mistaken for them
        q_d: [-1.0; 7], dq_d: [-2.0; 7], theta: [-3.0; 7], dtheta: [-4.0; 7], m_ee: -5.0, m_load: -6.0, I_ee: [-7.0; 9], I_load: [-8.0; 9], F_x_Cee: [-9.0; 3], F_x_Cload: [-10.0; 3],
        F_T_NE: [-11.0; 16], NE_T_EE: [-12.0; 16], O_T_EE: [-13.0; 16], ..RobotState::default() };
    let fr = frame(q["frame"].as_u64().unwrap_or(1));
    let g: Option<[f64; 3]> = if q["g"].is_array() { Some(arr(&q["g"])) } else { None };
    let st = q["st"].as_bool().unwrap_or(false);
    let before = unsafe { *l.calls };
    let out: Option<Vec<f64>> = guarded(|| match q["f"].as_str().unwrap_or("") {
        "pose" => if st { m.pose_from_state(&fr, &s).to_vec() } else { m.pose(&fr, &s.q, &s.F_T_EE, &s.EE_T_K).to_vec() },
        "body" => if st { m.body_jacobian_from_state(&fr, &s).to_vec() } else { m.body_jacobian(&fr, &s.q, &s.F_T_EE, &s.EE_T_K).to_vec() },
        "zero" => if st { m.zero_jacobian_from_state(&fr, &s).to_vec() } else { m.zero_jacobian(&fr, &s.q, &s.F_T_EE, &s.EE_T_K).to_vec() },
        "mass" => if st { m.mass_from_state(&s).to_vec() } else { m.mass(&s.q, &s.I_total, s.m_total, &s.F_x_Ctotal).to_vec() },
        "coriolis" => if st { m.coriolis_from_state(&s).to_vec() } else { m.coriolis(&s.q, &s.dq, &s.I_total, s.m_total, &s.F_x_Ctotal).to_vec() },
        _ => if st { m.gravity_from_state(&s, g.as_ref()).to_vec() } else { m.gravity(&s.q, s.m_total, &s.F_x_Ctotal, g.as_ref()).to_vec() },
    });
    let (r, n) = unsafe { (&*l.last, *l.calls) };
    let sym: String = r.sym.iter().take_while(|c| **c != 0).map(|c| *c as char).collect();
    let out = match out { Some(o) => o, None => return json!({"sym":"panic","in":[],"out":[],"calls":0}) };
    // results of the stand-in are 1000 * number of calls + index
    let rel: Vec<f64> = out.iter().map(|x| x - 1000.0 * n as f64).collect();
    json!({"sym":sym,"in":jfs(&r.inp[..r.n.max(0) as usize]),"out":jfs(&rel),"calls":n - before})
}
/// calls that need no device
fn pure_call(env: &Env, call: &Value) -> Option<Value> {
    let vecs = |k: &str| call[k].as_array().cloned().unwrap_or_default();
    Some(match call["op"].as_str().unwrap_or("") {
        "mgen" => {
            let s = RobotState { q_d: arr(&call["start"]), q: [9.0; 7], ..RobotState::default() };
            let mut g = MotionGenerator::new(num(&call["speed"]), &arr(&call["goal"]));
            let dts: Vec<u64> = vecs("dts").iter().map(|x| x.as_u64().unwrap()).collect();
            let (mut p, mut total, mut extra, mut k) = (vec![], 0, 0, 0);
            let max = call["max"].as_u64().unwrap_or(4000);
            // the robot follows; its state is the last command
            let mut s = s;
            loop {
                let us = if k == 0 { 0 } else { dts[(k - 1) % dts.len()] };
                let o = g.generate_motion(&s, &Duration::from_micros(us));
                s.q_d = o.q;
                total += us;
                p.push(json!({"q":jfs(&o.q),"fin":o.is_finished(),"us":us,"t":total}));
                k += 1;
                if o.is_finished() { extra += 1; }
                if extra > 2 || k as u64 >= max { break; }
            }
            json!({"e":"ret","r":"traj","p":p})
        }
        "lpf" => {
            let r: Vec<Value> = vecs("v").iter().map(|v| match guarded(|| franka::robot::low_pass_filter::low_pass_filter(num(&v[0]), num(&v[1]), num(&v[2]), num(&v[3]))) { Some(x) => jf(x), None => json!("panic") }).collect();
            json!({"e":"ret","r":"nums","x":r})
        }
        "clpf" => {
            let r: Vec<Value> = vecs("v").iter().map(|v| match guarded(|| franka::robot::low_pass_filter::cartesian_low_pass_filter(num(&v["dt"]), &arr(&v["y"]), &arr(&v["l"]), num(&v["c"]))) { Some(x) => jfs(&x), None => json!(["panic"]) }).collect();
            json!({"e":"ret","r":"mats","x":r})
        }
        "conv" => {
            let r: Vec<Value> = vecs("v").iter().map(|v| {
                let iso = array_to_isometry(&arr(&v["T"]));
                let p = iso * nalgebra::Point3::from(arr::<3>(&v["p"]));
                let c = CartesianPose::from(iso);
                let again = array_to_isometry(&c.O_T_EE).rotation.to_rotation_matrix();
                let back: Vec<f64> = again.matrix().iter().copied().collect();
                let a = CartesianPose::from(arr::<16>(&v["T"]));
                let x: [f64; 7] = arr(&v["v"]);
                let (q, dq, tau) = (JointPositions::from(Vector7::from(x)), JointVelocities::from(Vector7::from(x)), Torques::from(Vector7::from(x)));
                let dp = CartesianVelocities::from(nalgebra::Vector6::from(arr::<6>(&v["v"])));
                let fin = q.is_finished() || dq.is_finished() || tau.is_finished() || c.is_finished() || a.is_finished() || dp.is_finished();
                let el = [c.has_elbow(), a.has_elbow(), dp.has_elbow()].iter().filter(|b| **b).count();
                json!({"m":jfs(&c.O_T_EE),"p":jfs(&[p.x, p.y, p.z]),"back":jfs(&back),"a":jfs(&a.O_T_EE),"q":jfs(&q.q),"dq":jfs(&dq.dq),"tau":jfs(&tau.tau_J),"dP":jfs(&dp.O_dP_EE),"fin":fin,"el":el})
            }).collect();
            json!({"e":"ret","r":"conv","x":r})
        }
        "mq" => {
            let path = call["lib"].as_str().unwrap_or("");
            match Model::new(path, None) {
                Err(x) => err_json(env, &x),
                Ok(m) => { let l = probe(path).expect("stand-in library"); let r: Vec<Value> = vecs("v").iter().map(|q| model_query(&m, &l, q)).collect(); json!({"e":"ret","r":"mq","x":r}) }
            }
        }
        "mopen" => match Model::new(call["lib"].as_str().unwrap_or(""), call["libm"].as_str().map(std::path::Path::new)) { Ok(_) => json!({"e":"ret","r":"ok"}), Err(x) => err_json(env, &x) },
        _ => return None,
    })
}

pub fn client_thread(ep: *mut Env) {
    let mut c = Client { robot: None, gripper: None, model: None, held: vec![] };
    let _ = fnv;
    loop {
        let env = unsafe { &mut *ep };
        let call = match env.next_call() { Some(x) => x, None => break };
        let pure = matches!(call["op"].as_str(), Some("mgen") | Some("lpf") | Some("clpf") | Some("conv") | Some("mq") | Some("mopen"));
        let needs = call["op"] != "new" && call["op"] != "drop" && !pure;
        if needs && c.robot.is_none() && c.gripper.is_none() { env.log(json!({"e":"nodev"})); break; }
        let mut ev = call.clone();
        ev.as_object_mut().unwrap().remove("a");
        ev["e"] = json!("call");
        let args: Vec<Value> = call["args"].as_array().map(|a| a.iter().map(|x| if x.is_null() || *x == "none" { json!("none") } else { jf(num(x)) }).collect()).unwrap_or_default();
        ev["args"] = Value::Array(args);
        if call["op"] == "new" && env.sc["nolisten"].as_bool().unwrap_or(false) { ev["nolisten"] = json!(true); }
        if call["op"] != "warm" { env.log(ev); }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match pure_call(unsafe { &*ep }, &call) { Some(v) => v, None => run_call(ep, &mut c, &call) }));
        let env = unsafe { &mut *ep };
        env.warm = None;
        match r {
            Ok(v) => env.log(v),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                env.log(json!({"e":"panic","msg":m}));
                std::mem::forget(c);
                return;
            }
        }
    }
    // dropping the client must not block either
    drop(c);
}
