//! Calls made on a loaded sprite, and the same calls made alone: in a fresh
//! process in which nothing else has ever been called, with other random seeds
//! and other addresses.

use crate::canon;
use crate::prng::{fnv, mix, Rng};
use crate::seams;
use aseprite_loader::loader::{AsepriteFile, LayerSelection, LoadImageError};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SelSpec {
    Visible,
    All,
    Mask(Vec<bool>),
    Pred(u64),
    Names(Vec<String>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Render { frame: usize, sel: SelSpec },
    Decode { image: usize },
    Hash { frame: usize },
    Select { sel: SelSpec },
    Lines,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(u64),
    Mask(LayerSelection),
    TooSmall,
    Err(String),
    Panic(String),
}
impl Out {
    pub fn show(&self, buf: &[u8]) -> String {
        match self {
            Out::Ok(h) => format!("ok {h:x} buffer {:x}", fnv(buf)),
            Out::Mask(m) => format!("{m:?}"),
            Out::TooSmall => "error: target buffer too small".into(),
            Out::Err(e) => format!("error: {e}"),
            Out::Panic(_) => "panic".into(),
        }
    }
}

pub fn predicate(seed: u64, name: &str, opacity: u8, visible: bool, group: bool) -> bool {
    mix(&[
        seed,
        fnv(name.as_bytes()),
        opacity.into(),
        visible.into(),
        group.into(),
    ]) & 1
        == 1
}

pub fn to_selection(file: &AsepriteFile<'_>, s: &SelSpec) -> LayerSelection {
    match s {
        SelSpec::Visible => LayerSelection::Visible,
        SelSpec::All => LayerSelection::All,
        SelSpec::Mask(m) => LayerSelection::Mask(m.clone()),
        SelSpec::Pred(seed) => file.select_layers(|l| {
            predicate(
                *seed,
                &l.name,
                l.opacity,
                l.visible,
                canon::kind_name(l.layer_type) == "kind1",
            )
        }),
        SelSpec::Names(n) => {
            let v: Vec<&str> = n.iter().map(|s| s.as_str()).collect();
            file.select_layers_by_name(&v)
        }
    }
}

/// One library call. Everything else happens outside of the seams' accounting.
#[allow(deprecated)]
pub fn exec(
    file: &AsepriteFile<'_>,
    call: &Call,
    buf: &mut [u8],
    steps: u64,
    mem: u64,
) -> (Out, seams::Cost) {
    fn out<T>(r: Result<Result<T, LoadImageError>, String>, f: impl Fn(T) -> u64) -> Out {
        match r {
            Ok(Ok(v)) => Out::Ok(f(v)),
            Ok(Err(LoadImageError::TargetBufferTooSmall)) => Out::TooSmall,
            Ok(Err(e)) => Out::Err(e.to_string()),
            Err(p) => Out::Panic(p),
        }
    }
    match call {
        Call::Render { frame, sel } => {
            let sel = match sel {
                SelSpec::Visible => LayerSelection::Visible,
                SelSpec::All => LayerSelection::All,
                SelSpec::Mask(m) => LayerSelection::Mask(m.clone()),
                other => to_selection(file, other),
            };
            let (r, c) = seams::lib_call(steps, mem, || file.render_frame(*frame, buf, &sel));
            (out(r, |_| 0), c)
        }
        Call::Decode { image } => {
            let (r, c) = seams::lib_call(steps, mem, || file.load_image(*image, buf));
            (out(r, |_| 0), c)
        }
        Call::Hash { frame } => {
            let (r, c) = seams::lib_call(steps, mem, || file.combined_frame_image(*frame, buf));
            (out(r, |h| h), c)
        }
        Call::Select { sel } => {
            let (r, c) = seams::lib_call(steps, mem, || to_selection(file, sel));
            (
                match r {
                    Ok(m) => Out::Mask(m),
                    Err(p) => Out::Panic(p),
                },
                c,
            )
        }
        Call::Lines => {
            let mut v = canon::loader_lines(file);
            v.extend(canon::file_lines(&file.file));
            (Out::Ok(fnv(v.join("\n").as_bytes())), seams::Cost::default())
        }
    }
}

static mut REQ: i32 = -1;
static mut ANS: i32 = -1;

fn write_all(fd: i32, b: &[u8]) -> bool {
    let mut n = 0;
    while n < b.len() {
        let r = unsafe { libc::write(fd, b[n..].as_ptr().cast(), b.len() - n) };
        if r <= 0 {
            return false;
        }
        n += r as usize;
    }
    true
}
fn read_exact(fd: i32, b: &mut [u8]) -> bool {
    let mut n = 0;
    while n < b.len() {
        let r = unsafe { libc::read(fd, b[n..].as_mut_ptr().cast(), b.len() - n) };
        if r <= 0 {
            return false;
        }
        n += r as usize;
    }
    true
}
fn send(fd: i32, parts: &[&[u8]]) -> bool {
    parts
        .iter()
        .all(|p| write_all(fd, &(p.len() as u64).to_le_bytes()) && write_all(fd, p))
}
fn recv(fd: i32) -> Option<Vec<u8>> {
    let mut l = [0u8; 8];
    if !read_exact(fd, &mut l) {
        return None;
    }
    let mut v = vec![0u8; u64::from_le_bytes(l) as usize];
    read_exact(fd, &mut v).then_some(v)
}

/// Forks the reference server. Must come before any library call.
pub fn start() {
    unsafe {
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
        match libc::fork() {
            0 => {
                let _ = libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let _ = (libc::close(a[1]), libc::close(b[0]));
                serve(a[0], b[1]);
                libc::_exit(0);
            }
            p => {
                assert!(p > 0);
                let _ = (libc::close(a[0]), libc::close(b[1]));
                REQ = a[1];
                ANS = b[0];
            }
        }
    }
}
pub fn running() -> bool {
    unsafe { REQ >= 0 }
}

fn serve(req: i32, ans: i32) {
    loop {
        let (Some(call), Some(bytes), Some(mut buf)) = (recv(req), recv(req), recv(req)) else {
            return;
        };
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                let (seed, call): (u64, Call) = serde_json::from_slice(&call).unwrap();
                seams::seed_randomness(seed);
                // other addresses than in the simulated process
                let mut r = Rng::new(seed);
                for _ in 0..40 {
                    let n = r.logrange(8, 100_000) as usize;
                    std::mem::forget(vec![r.byte(); n]);
                }
                let a = match seams::lib_call(u64::MAX, u64::MAX, || AsepriteFile::load(&bytes)).0 {
                    Ok(Ok(f)) => {
                        let (o, _) = exec(&f, &call, &mut buf, u64::MAX, u64::MAX);
                        o.show(&buf)
                    }
                    Ok(Err(e)) => format!("load error: {e}"),
                    Err(_) => "load panic".into(),
                };
                let _ = send(ans, &[a.as_bytes()]);
                libc::_exit(0);
            }
            let mut st = 0;
            let _ = libc::waitpid(pid, &mut st, 0);
            if st != 0 && !send(ans, &[b"crash"]) {
                return;
            }
        }
    }
}

/// What the call returns when it is the only one ever made.
pub fn ask(seed: u64, call: &Call, bytes: &[u8], buf: &[u8]) -> Option<String> {
    if !running() {
        return None;
    }
    let c = serde_json::to_vec(&(seed, call)).unwrap();
    let ok = unsafe { send(REQ, &[&c, bytes, buf]) };
    if !ok {
        return None;
    }
    recv(unsafe { ANS }).map(|v| String::from_utf8_lossy(&v).into_owned())
}
