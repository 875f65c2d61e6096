//! C19: the result does not depend on how the crate was built (vector instruction set, features).
//! The other builds of this same harness are run as servers.

use super::convert::{call, err_name, Api};
use crate::driver::*;
use crate::img::*;
use crate::refmodel;
use crate::spec::Fmt;
use crate::strat::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Var {
    conv: Conv,
    api: Api,
}

/// outcome of one call: error name or the destination's samples
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Out {
    err: Option<String>,
    c: Vec<Vec<u16>>,
}

fn run(v: &Var) -> Result<Out, Fail> {
    let (s, mut d, _) = v.conv.build().or_fail("build")?;
    let r = no_panic(|| call(v.api, s.r(), d.m())).map_err(|p| Fail { sig: "panic".into(), msg: format!("{v:?}: {p}") })?;
    s.untouched().or_fail("source")?;
    d.frame_ok().or_fail("frame")?;
    Ok(Out { err: r.err().map(|e| err_name(&e).to_string()), c: d.get().c })
}

/// answer requests on stdin until it closes
pub fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return };
        let v: Var = serde_json::from_str(&l).expect("request");
        let r = match run(&v) {
            Ok(o) => serde_json::json!({ "ok": o }),
            Err(f) => serde_json::json!({ "fail": f.msg }),
        };
        if writeln!(out, "{r}").and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}

struct Srv {
    path: String,
    ch: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
thread_local! {
    static SRV: RefCell<Option<Vec<Srv>>> = const { RefCell::new(None) };
}

fn ask(v: &Var) -> Result<Vec<(String, Result<Out, String>)>, Fail> {
    SRV.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let list = std::env::var("EZK_VARIANTS").unwrap_or_default();
            let mut l = vec![];
            for p in list.split(':').filter(|p| !p.is_empty()) {
                let mut ch = command(std::path::Path::new(p))
                    .arg("serve")
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn()
                    .expect("cannot start another build");
                l.push(Srv {
                    path: p.rsplit("/target/").next().unwrap_or(p).to_string(),
                    i: ch.stdin.take().unwrap(),
                    o: BufReader::new(ch.stdout.take().unwrap()),
                    ch,
                });
            }
            assert!(!l.is_empty(), "EZK_VARIANTS is not set");
            *s = Some(l);
        }
        let req = serde_json::to_string(v).unwrap();
        let mut out = vec![];
        for q in s.as_mut().unwrap() {
            let mut line = String::new();
            let ok = writeln!(q.i, "{req}").and_then(|_| q.i.flush()).and_then(|_| q.o.read_line(&mut line));
            if ok.is_err() || line.is_empty() {
                let st = q.ch.wait();
                use std::os::unix::process::ExitStatusExt;
                if st.as_ref().is_ok_and(|s| s.signal() == Some(libc::SIGKILL)) {
                    std::process::exit(3); // killed from outside: no verdict
                }
                return fail("crash", format!("{}: process ended ({st:?}) on {v:?}", q.path));
            }
            let r: serde_json::Value = serde_json::from_str(&line).unwrap();
            let o = match r.get("ok") {
                Some(o) => Ok(serde_json::from_value::<Out>(o.clone()).unwrap()),
                None => Err(r["fail"].as_str().unwrap_or("?").to_string()),
            };
            out.push((q.path.clone(), o));
        }
        Ok(out)
    })
}

fn c19_check(v: &Var, cx: &mut Ctx) -> Result<(), Fail> {
    let mine = run(v)?;
    let c = &v.conv;
    let what = format!("{:?} {:?} {:?} -> {:?} {:?} {}x{}", v.api, c.src, c.sc, c.dst, c.dc, c.w, c.h);
    let mut planes = Planes::zero(c.dst, c.w, c.h);
    planes.c = mine.c.clone();
    for (name, o) in ask(v)? {
        let o = o.map_err(|e| Fail { sig: "outcome".into(), msg: format!("{what}: build {name} fails: {e}") })?;
        if o.err != mine.err {
            return fail("outcome", format!("{what}: default build gives {:?}, build {name} gives {:?}", mine.err, o.err));
        }
        let mut other = planes.clone();
        other.c = o.c;
        if let Some(e) = planes.diff(&other, 0) {
            // Scalar and vector code may order the arithmetic differently and have their own pow,
            // log and exp. That may only show where the formulas leave room for it.
            let near = planes.diff(&other, 1).is_none();
            if c.linear_only() || !near {
                let r = refmodel::convert_ref(&c.content.fill(c.src, c.w, c.h), &c.sc, c.dst, &c.dc).expect("valid");
                for (n, g) in [("default", &planes), (name.as_str(), &other)] {
                    if let Err(e2) = r.compare(g) {
                        return fail("differs", format!("{what}: {e} (default build vs build {name}); {n}: {e2}"));
                    }
                }
                cx.count("explained by interval", 1);
            }
            cx.label("within one code");
        } else {
            cx.label("identical");
        }
        cx.label(format!("against {name}"));
    }
    cx.nontrivial = !c.is_copy() && planes.c.iter().any(|c| c.iter().any(|v| *v != c[0]));
    cx.label(if c.w >= 32 { "wide" } else { "narrow" });
    Ok(())
}

pub fn entries() -> Vec<Entry> {
    let s = (conv_any(lay_light), prop_oneof![2 => Just(Api::Convert), 1 => Just(Api::Copy)])
        .prop_map(|(mut conv, api)| {
            if api == Api::Copy {
                conv.dst = conv.src;
                conv.dc = conv.sc;
                conv = conv.fix();
            }
            let _ = Fmt::I420;
            Var { conv, api }
        })
        .boxed();
    vec![entry("C19", 250000, 5000000,
        "the same call executed by the stable default build (AVX2), the nightly build with the unstable feature (AVX-512), a build without multi-threading and the default build on a CPU without AVX2 (scalar); equal up to what the formulas leave open to rounding; non-trivial: no plain copy and the result varies",
        s, c19_check)]
}
