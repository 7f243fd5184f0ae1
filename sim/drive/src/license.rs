//! C11: license files under clock jumps, damage and read faults, against a reference model.
use crate::{Case, base_cfg};
use serde::{Deserialize, Serialize};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::Path;
use zsim_rt::rng::Rng;
use zsim_rt::{EnvStep, check, quiet, simfs, violation};

const CFG_PATH: &str = "/w/cfg/zuban/license.json";
/// Signed with the trusted simulation key by an earlier version: licenses in the field stay valid.
const OLD: &str = r#"{"name":"Zoë Doe","email":"z@d.e","company":"Old Customer 1","valid_from":1794996468,"valid_until":1826532468,"license_version":1,"level":"Standard","signature":"D661F1E4503A39FD1CD63D60C29A6DACD1B2F67C18649EE82AC260012CEDAD3136B6EE23388FC8A66726418D318B399973918BB0C8B9E0A357A23426950F840C"}"#;
const PATH: &str = "/w/lic.json";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Edit {
    None,
    Text(String, String),
    Num(String, u64),
    Nums(Vec<(String, u64)>),
    Add(String, i64),
    Level(serde_json::Value),
    Remove(String),
    Null(String),
    /// field stated twice, the second time with this value
    Dup(String, serde_json::Value),
    Extra,
    SigFlip(usize),
    SigCut(usize),
    SigOf(usize),
    SigText(String),
    SigLower,
    Trunc(usize),
    Flip(usize, u8),
    Insert(usize, u8),
    Append(Vec<u8>),
    Bom,
    Pretty,
    /// a text of the license changed slightly
    Twist(String, u8),
    /// two texts exchanged
    Swap(String, String),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum How {
    Whole,
    /// written in pieces while others read
    Pieces(Vec<usize>),
    /// new file moved over the old one
    Rename,
    Missing,
    Dir,
    Dangling,
    Link,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum LOp {
    /// issue a license now: days, trusted key or not, name, mail, company
    Issue(u64, bool, String, String, String),
    Put { config: bool, lic: usize, edit: Edit, how: How },
    /// clock relative to a license: (license, 0 = from 1 = until, offset)
    ClockAt(usize, u8, i64),
    ClockTo(i64),
    /// a license that was issued long ago
    Old,
    /// the clock jumps while the next verification runs
    ClockDuring(usize, u8, i64),
    Verify { config: bool },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Work {
    pub ops: Vec<LOp>,
    #[serde(default)]
    pub strict: bool,
}

pub fn generate(seed: u64, r: &mut Rng, deep: bool) -> Case {
    let mut cfg = base_cfg(seed, r, false);
    cfg.strategy = 0;
    cfg.wall_base = *r.pick(&[0i64, 1, 1_000_000, 1_700_000_000, 1_700_000_000, 4_102_444_800, 20_000_000_000]) + r.below(100_000) as i64;
    for k in ["open_eio", "open_eacces", "open_emfile", "read_eio", "read_eintr", "read_short", "open_eintr", "stat_eio"] {
        if r.chance(1, 5) {
            cfg.faults.insert(k.into(), *r.pick(&[30u32, 150, 500]));
        }
    }
    let mut ops = vec![];
    let mut n = 0;
    let names = ["Dave", "", "Zoë Ünï", "a b", "1", "x\"y\\z", "Dave1", "日本"];
    for _ in 0..(4 + r.below(if deep { 40 } else { 14 })) {
        if r.chance(1, 20) {
            ops.push(LOp::Old);
            n += 1;
            continue;
        }
        if n == 0 || r.chance(1, 9) {
            let s = |r: &mut Rng| r.pick(&names).to_string();
            ops.push(LOp::Issue(*r.pick(&[0u64, 1, 2, 30, 366, 366, 3660]), !r.chance(1, 7), s(r), s(r), s(r)));
            n += 1;
            continue;
        }
        let lic = r.below(n);
        match r.below(10) {
            0..=2 => {
                let fld = |r: &mut Rng| r.pick(&["name", "email", "company", "valid_from", "valid_until", "license_version", "level", "signature"]).to_string();
                let edit = match r.below(34) {
                    0..=7 => Edit::None,
                    8 => Edit::Text(r.pick(&["name", "email", "company"]).to_string(), r.pick(&["Dave", "", "dave", "Dave ", "Mallory", "0", "Dav\u{435}"]).to_string()),
                    9 | 10 => Edit::Add(r.pick(&["valid_from", "valid_until", "valid_until", "license_version"]).to_string(), *r.pick(&[1i64, -1, 1, 60, -60, 86_400, -86_400, 31_536_000, -31_536_000, 1 << 32, 1 << 40])),
                    11 => Edit::Num(r.pick(&["valid_from", "valid_until", "license_version"]).to_string(), *r.pick(&[0u64, 1, 2, 99, u64::MAX, 9_999_999_999])),
                    12 => Edit::Level(r.pick(&[serde_json::json!("NoLicense"), serde_json::json!("Pro"), serde_json::json!(0), serde_json::json!(null), serde_json::json!({"Standard": null})]).clone()),
                    13 => Edit::Remove(fld(r)),
                    14 => Edit::Null(fld(r)),
                    15 => Edit::Dup(r.pick(&["valid_until", "name"]).to_string(), r.pick(&[serde_json::json!(9_999_999_999u64), serde_json::json!("Mallory")]).clone()),
                    16 => Edit::Extra,
                    17 => Edit::SigFlip(r.below(128)),
                    18 => Edit::SigCut(r.below(128)),
                    19 => Edit::SigOf(r.below(n)),
                    20 => Edit::SigText(r.pick(&["".to_string(), "zz".repeat(64), "0".repeat(128), format!("01{}", "0".repeat(126)), "ff".repeat(64), "é".repeat(64), "0".repeat(127)]).clone()),
                    21 => Edit::SigLower,
                    22 | 23 => Edit::Trunc(r.below(400)),
                    24 | 25 => Edit::Flip(r.below(420), 1 << r.below(8)),
                    26 => Edit::Insert(r.below(400), *r.pick(&[b' ', b'0', b'"', b',', 0, 0xff, b'\n'])),
                    27 => Edit::Append(r.pick(&[b"\n".to_vec(), b" ".to_vec(), b"x".to_vec(), vec![0], b"{}".to_vec()]).clone()),
                    28 => Edit::Bom,
                    29..=31 => Edit::Twist(r.pick(&["name", "email", "company"]).to_string(), r.below(9) as u8),
                    32 => Edit::Swap("name".into(), r.pick(&["email", "company"]).to_string()),
                    _ => Edit::Pretty,
                };
                let how = match r.below(14) {
                    0..=4 => How::Whole,
                    5..=7 => How::Pieces((0..r.below(5)).map(|_| r.below(300)).collect()),
                    8 | 9 => How::Rename,
                    10 => How::Missing,
                    11 => How::Dir,
                    12 => How::Dangling,
                    _ => How::Link,
                };
                ops.push(LOp::Put { config: r.chance(1, 3), lic, edit, how });
                ops.push(LOp::Verify { config: r.chance(1, 3) });
            }
            3..=5 => {
                let side = r.below(2) as u8;
                let off = *r.pick(&[-1i64, 0, 1, 0, -1, 1, 30, -30, 4000, -4000, 100_000_000]);
                ops.push(if r.chance(1, 3) { LOp::ClockDuring(lic, side, off) } else { LOp::ClockAt(lic, side, off) });
            }
            6 if r.chance(1, 4) => ops.push(LOp::ClockTo(*r.pick(&[0i64, 1, 1_700_000_000, 253_402_300_800, 1 << 40]))),
            _ => ops.push(LOp::Verify { config: r.chance(1, 3) }),
        }
        if r.chance(1, 2) {
            ops.push(LOp::Verify { config: r.chance(1, 3) });
        }
    }
    Case { scenario: "license".into(), cfg, work: serde_json::to_value(Work { ops, strict: false }).unwrap() }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Level {
    NoLicense,
    Standard,
}
/// What a license file states.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Stated {
    name: String,
    email: String,
    company: String,
    valid_from: u64,
    valid_until: u64,
    license_version: usize,
    level: Level,
    signature: String,
}
impl Stated {
    /// The values without boundaries: two licenses with the same sequence share a signature (a recorded finding).
    fn run_together(&self) -> String {
        format!("{}{}{}{}{}{}{:?}", self.name, self.email, self.company, self.valid_from, self.valid_until, self.license_version, self.level)
    }
    fn values(&self) -> (&str, &str, &str, u64, u64, usize, &Level) {
        (&self.name, &self.email, &self.company, self.valid_from, self.valid_until, self.license_version, &self.level)
    }
}
struct Issued {
    text: String,
    st: Stated,
    trusted: bool,
}
fn key(trusted: bool) -> String {
    (1..=32u8).map(|b| format!("{:02x}", if trusted { b } else { b ^ 0x5a })).collect::<Vec<_>>().join(":")
}
fn edited(all: &[Issued], lic: usize, e: &Edit) -> Vec<u8> {
    let l = &all[lic];
    let mut v: serde_json::Map<String, serde_json::Value> = serde_json::from_str(&l.text).unwrap();
    let mut sig: Vec<char> = l.st.signature.chars().collect();
    let mut bytes = l.text.clone().into_bytes();
    let json = |v: &serde_json::Map<String, serde_json::Value>| serde_json::to_vec(v).unwrap();
    match e {
        Edit::None => bytes,
        Edit::Text(f, t) => {
            v.insert(f.clone(), t.clone().into());
            json(&v)
        }
        Edit::Num(f, n) => {
            v.insert(f.clone(), (*n).into());
            json(&v)
        }
        Edit::Nums(l) => {
            for (f, n) in l {
                v.insert(f.clone(), (*n).into());
            }
            json(&v)
        }
        Edit::Add(f, d) => {
            let n = v[f].as_u64().unwrap_or(0).wrapping_add_signed(*d);
            v.insert(f.clone(), n.into());
            json(&v)
        }
        Edit::Level(x) => {
            v.insert("level".into(), x.clone());
            json(&v)
        }
        Edit::Remove(f) => {
            v.remove(f);
            json(&v)
        }
        Edit::Null(f) => {
            v.insert(f.clone(), serde_json::Value::Null);
            json(&v)
        }
        Edit::Dup(f, x) => {
            bytes.pop();
            bytes.extend(format!(",{f:?}:{x}}}").as_bytes());
            bytes
        }
        Edit::Extra => {
            v.insert("note".into(), "hello".into());
            json(&v)
        }
        Edit::SigFlip(i) => {
            let i = i % sig.len();
            sig[i] = char::from_digit((sig[i].to_digit(16).unwrap_or(0) + 1) % 16, 16).unwrap();
            v.insert("signature".into(), sig.iter().collect::<String>().into());
            json(&v)
        }
        Edit::SigCut(i) => {
            sig.truncate(*i);
            v.insert("signature".into(), sig.iter().collect::<String>().into());
            json(&v)
        }
        Edit::SigOf(j) => {
            v.insert("signature".into(), all[j % all.len()].st.signature.clone().into());
            json(&v)
        }
        Edit::SigText(t) => {
            v.insert("signature".into(), t.clone().into());
            json(&v)
        }
        Edit::SigLower => {
            v.insert("signature".into(), l.st.signature.to_lowercase().into());
            json(&v)
        }
        Edit::Trunc(n) => {
            bytes.truncate(*n);
            bytes
        }
        Edit::Flip(i, m) => {
            let i = i % bytes.len();
            bytes[i] ^= m;
            bytes
        }
        Edit::Insert(i, b) => {
            bytes.insert(i % bytes.len(), *b);
            bytes
        }
        Edit::Append(x) => {
            bytes.extend(x);
            bytes
        }
        Edit::Twist(f, k) => {
            let t = v[f].as_str().unwrap_or("").to_string();
            let t = match k {
                0 => format!("{t} "),
                1 => format!(" {t}"),
                2 => t.to_lowercase(),
                3 => t.to_uppercase(),
                4 => format!("{t}\n"),
                5 => t.replace(' ', ""),
                6 => t.chars().rev().collect(),
                7 => format!("{t}\0"),
                _ => t.chars().skip(1).collect(),
            };
            v.insert(f.clone(), t.into());
            json(&v)
        }
        Edit::Swap(a, b) => {
            let (x, y) = (v[a].clone(), v[b].clone());
            v.insert(a.clone(), y);
            v.insert(b.clone(), x);
            json(&v)
        }
        Edit::Bom => [b"\xef\xbb\xbf".to_vec(), bytes].concat(),
        Edit::Pretty => serde_json::to_vec_pretty(&v).unwrap(),
    }
}

/// Some(license) if the bytes state exactly what was signed; Err = either answer is fine.
fn genuine<'a>(all: &'a [Issued], bytes: &[u8], strict: bool) -> Result<Option<&'a Issued>, &'a Issued> {
    let Ok(s) = std::str::from_utf8(bytes) else { return Ok(None) };
    let Ok(st) = serde_json::from_str::<Stated>(s) else { return Ok(None) };
    for l in all.iter().filter(|l| l.trusted) {
        if st.values() == l.st.values() {
            if st.signature == l.st.signature {
                return Ok(Some(l));
            }
            if st.signature.eq_ignore_ascii_case(&l.st.signature) {
                return Err(l);
            }
        } else if !strict && st.run_together() == l.st.run_together() && st.signature.eq_ignore_ascii_case(&l.st.signature) {
            return Err(l);
        }
    }
    Ok(None)
}

fn content(path: &str) -> Option<Vec<u8>> {
    let i = simfs().resolve(path.as_bytes(), true).ok()?;
    match &simfs().inodes[i].node {
        zsim_rt::fs::Node::File(b) => Some(b.clone()),
        _ => None,
    }
}

pub fn run(case: &Case) {
    let w: Work = crate::work(case);
    let _ = simfs().mkdir_p(b"/w/cfg/zuban");
    let _ = simfs().mkdir_p(b"/w/t");
    unsafe {
        std::env::set_var("XDG_CONFIG_HOME", "/w/cfg");
    }
    let mut all: Vec<Issued> = vec![];
    let mut during: Vec<EnvStep> = vec![];
    let mut pending: Vec<(bool, Vec<EnvStep>)> = vec![];
    for op in &w.ops {
        match op {
            LOp::Issue(days, trusted, name, email, company) => {
                unsafe { std::env::set_var("ZUBAN_SIGNING_KEY", key(*trusted)) };
                let t = licensing::create_license(name.clone(), email.clone(), company.clone(), *days);
                let Ok(text) = t else { violation("issue", format!("no license can be issued: {:?}", t.err())) };
                let Ok(st) = serde_json::from_str::<Stated>(&text) else { violation("issue", format!("an issued license cannot be read: {text}")) };
                check!((&st.name, &st.email, &st.company) == (name, email, company), "issue", "the issued license states other values: {text}");
                check!(st.valid_until == st.valid_from + days * 86_400, "issue", "a license for {days} days states {text}");
                all.push(Issued { text, st, trusted: *trusted });
            }
            LOp::Old => {
                let st = serde_json::from_str::<Stated>(OLD).unwrap();
                all.push(Issued { text: OLD.into(), st, trusted: true });
            }
            LOp::Put { config, lic, edit, how } => {
                let p = if *config { CFG_PATH } else { PATH }.to_string();
                let b = edited(&all, lic % all.len(), edit);
                zsim_rt::note(|| format!("put {p} {:?}: {}", edit, String::from_utf8_lossy(&b)));
                for (_, s) in pending.extract_if(.., |(c, _)| c == config) {
                    zsim_rt::env_push(s);
                }
                zsim_rt::env_flush();
                let clear = || {
                    let _ = simfs().unlink(p.as_bytes());
                    let _ = simfs().rmdir(p.as_bytes());
                };
                if !matches!(how, How::Rename | How::Pieces(_)) {
                    clear();
                }
                match how {
                    How::Whole => drop(simfs().write_all(p.as_bytes(), &b)),
                    How::Pieces(at) => {
                        let _ = simfs().rmdir(p.as_bytes());
                        let mut cuts: Vec<usize> = at.iter().map(|c| c % (b.len() + 1)).collect();
                        cuts.push(b.len());
                        cuts.sort();
                        let mut s = vec![EnvStep::WOpen(p.clone())];
                        let mut from = 0;
                        for c in cuts {
                            s.push(EnvStep::WBytes(b[from..c].to_vec()));
                            from = c;
                        }
                        s.push(EnvStep::WClose);
                        pending.push((*config, s));
                    }
                    How::Rename => {
                        let _ = simfs().rmdir(p.as_bytes());
                        let _ = simfs().write_all(format!("/w/t/new{config}").as_bytes(), &b);
                        pending.push((*config, vec![EnvStep::Rename(format!("/w/t/new{config}"), p.clone())]));
                    }
                    How::Missing => {}
                    How::Dir => drop(simfs().mkdir(p.as_bytes())),
                    How::Dangling => drop(simfs().symlink(b"/w/t/nothing", p.as_bytes())),
                    How::Link => {
                        let real = format!("/w/t/real{config}");
                        let _ = simfs().write_all(real.as_bytes(), &b);
                        let _ = simfs().symlink(real.as_bytes(), p.as_bytes());
                    }
                }
            }
            LOp::ClockAt(l, side, off) | LOp::ClockDuring(l, side, off) => {
                let l = &all[l % all.len()].st;
                let t = (if *side == 0 { l.valid_from } else { l.valid_until } as i64 + off).max(0);
                if matches!(op, LOp::ClockAt(..)) {
                    zsim_rt::env_now(EnvStep::ClockTo(t));
                } else {
                    during.push(EnvStep::ClockTo(t));
                }
            }
            LOp::ClockTo(t) => zsim_rt::env_now(EnvStep::ClockTo(*t)),
            LOp::Verify { config } => {
                let p = if *config { CFG_PATH } else { PATH };
                let mut steps: Vec<EnvStep> = std::mem::take(&mut during);
                let mut unstable = false;
                for (c, s) in pending.drain(..) {
                    unstable |= c == *config;
                    steps.extend(s);
                }
                let before = content(p);
                let had_steps = !steps.is_empty();
                zsim_rt::wall_window_start();
                zsim_rt::env_push(steps);
                zsim_rt::env_enable(true);
                zsim_rt::faults(true);
                let f0 = zsim_rt::hard_faults();
                let r = catch_unwind(AssertUnwindSafe(|| if *config { licensing::verify_license_in_config_dir() } else { licensing::verify_license_in_path(Path::new(p)) }));
                zsim_rt::faults(false);
                zsim_rt::env_enable(false);
                let marks = zsim_rt::wall_window_end();
                let hard = zsim_rt::hard_faults() > f0;
                // what is not done yet happens now
                zsim_rt::env_flush();
                let Ok(res) = r else {
                    let pn = zsim_rt::panics().last().cloned().unwrap_or_default();
                    violation("panic", format!("verifying a license panicked at {}: {}", pn.2, pn.1))
                };
                quiet(|| judge(&all, before.as_deref(), unstable, hard, &marks, w.strict, res.map(|l| serde_json::to_value(l).unwrap()).map_err(|e| e.to_string())));
                if had_steps {
                    zsim_rt::probe("verified while clock or file changed");
                }
            }
        }
    }
}

fn judge(all: &[Issued], bytes: Option<&[u8]>, unstable: bool, hard: bool, marks: &[i64], strict: bool, res: Result<serde_json::Value, String>) {
    let inside = |l: &Issued, t: i64| t >= 0 && l.st.valid_from <= t as u64 && t as u64 <= l.st.valid_until;
    let show = || String::from_utf8_lossy(bytes.unwrap_or(b"<no file>")).to_string();
    if let Ok(level) = &res {
        zsim_rt::probe("accepted");
        check!(level == "Standard", "accepted", "the license {} was accepted with level {level}", show());
    } else {
        zsim_rt::probe("refused");
    }
    zsim_rt::state(zsim_rt::hash(format!("{}{}", res.is_ok(), marks.len()).as_bytes()));
    if unstable {
        let may = all.iter().any(|l| l.trusted && marks.iter().any(|t| inside(l, *t)));
        check!(res.is_err() || may, "accepted", "a license was accepted at {marks:?}, although no issued license is valid then");
        return;
    }
    let (l, exact) = match bytes.map(|b| genuine(all, b, strict)) {
        None | Some(Ok(None)) => {
            check!(res.is_err(), "accepted", "{} was accepted, but no trusted key signed these values", show());
            return;
        }
        Some(Ok(Some(l))) => (l, true),
        Some(Err(l)) => (l, false),
    };
    let any = marks.iter().any(|t| inside(l, *t));
    let every = marks.iter().all(|t| inside(l, *t));
    check!(any || res.is_err() || !exact, "accepted", "the license {} was accepted outside its period, at {marks:?}", show());
    check!(!exact || !every || hard || res.is_ok(), "refused", "the valid license {} was refused at {marks:?}: {:?}", show(), res.err());
}
