use nodejs_resolver::{AliasMap, ResolveResult, Resolver, ResolverCache, ResolverOptions, SideEffects};
use serde_json::{json, Value};
use crate::sched;
use std::collections::HashMap;
use std::fs;
use std::io::{BufRead, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant, SystemTime};

/// The scenario's root directory is written "/R"; on disk it is a scratch directory.
pub struct Root(pub String);

impl Root {
    pub fn real(&self, s: &str) -> String {
        if s == "/R" || s.starts_with("/R/") {
            format!("{}{}", self.0, &s[2..])
        } else {
            s.to_string()
        }
    }
    pub fn model(&self, s: &str) -> String {
        s.replace(&self.0, "/R")
    }
    /// A path of the tree: a character from U+E080 to U+E0FF stands for a byte that is not UTF-8.
    pub fn path(&self, s: &str) -> PathBuf {
        let mut bytes = vec![];
        for c in self.real(s).chars() {
            match c as u32 {
                n @ 0xE080..=0xE0FF => bytes.push((n - 0xE000) as u8),
                _ => bytes.extend(c.to_string().bytes()),
            }
        }
        PathBuf::from(std::ffi::OsString::from_vec(bytes))
    }
    pub fn shown(&self, p: &Path) -> String {
        let mut text = String::new();
        for chunk in p.as_os_str().as_bytes().utf8_chunks() {
            text += chunk.valid();
            text.extend(chunk.invalid().iter().map(|b| char::from_u32(0xE000 + *b as u32).unwrap()));
        }
        self.model(&text)
    }
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("field {k} in {v}"))
}

/// ["s",x] ["b",x] ["n",x] ["z"] ["a",[..]] ["o",[[k,v],..]]  ->  JSON text
/// What is put around every token: by style 0 nothing, 1 white space, 2 (tsconfig only) comments and a comma at the end.
fn gap(style: u64, out: &mut String) {
    match style {
        1 => out.push_str(" \r\n\t"),
        2 => out.push_str(" /* { \" */ // }\n"),
        _ => {}
    }
}

/// Style 3 writes strings with escapes.
fn text(x: &str, style: u64) -> String {
    if style == 3 {
        let mut u = [0u16; 2];
        format!("\"{}\"", x.chars().map(|c| c.encode_utf16(&mut u).iter().map(|n| format!("\\u{n:04X}")).collect::<String>()).collect::<String>())
    } else {
        json!(x).to_string()
    }
}

pub fn decode(v: &Value, root: &Root, style: u64, out: &mut String) {
    match v[0].as_str().unwrap() {
        "s" => out.push_str(&text(&root.real(v[1].as_str().unwrap()), style)),
        "b" | "n" => out.push_str(&v[1].to_string()),
        "z" => out.push_str("null"),
        "a" => {
            out.push('[');
            for (i, x) in v[1].as_array().unwrap().iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                decode(x, root, style, out);
                gap(style, out);
            }
            if style == 2 && v[1].as_array().map_or(false, |a| !a.is_empty()) {
                out.push(',');
            }
            out.push(']');
        }
        "o" => {
            out.push('{');
            for (i, kv) in v[1].as_array().unwrap().iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(style, out);
                out.push_str(&text(&root.real(kv[0].as_str().unwrap()), style));
                gap(style, out);
                out.push(':');
                gap(style, out);
                decode(&kv[1], root, style, out);
                gap(style, out);
            }
            if style == 2 && v[1].as_array().map_or(false, |a| !a.is_empty()) {
                out.push(',');
            }
            gap(style, out);
            out.push('}');
        }
        "raw" => out.push_str(&root.real(v[1].as_str().unwrap())),
        "bad" => out.push_str("{ \"main\": "),
        other => panic!("bad json tag {other}"),
    }
}

const T0: u64 = 1_600_000_000_000;

pub fn set_mtime(path: &Path, ms: u64) {
    let t = SystemTime::UNIX_EPOCH + Duration::from_millis(T0 + ms);
    fs::File::options().write(true).open(path).unwrap().set_modified(t).unwrap();
}

pub fn write_node(root: &Root, n: &Value) {
    let p = root.path(s(n, "p"));
    match s(n, "t") {
        "d" => fs::create_dir_all(&p).unwrap(),
        "f" => fs::write(&p, b"").unwrap(),
        "j" => {
            let mut text = String::new();
            if n["j"][0] == "hex" {
                let h = n["j"][1].as_str().unwrap();
                let bytes: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                fs::write(&p, bytes).unwrap();
            } else {
                let style = n["style"].as_u64().unwrap_or(0);
                gap(style, &mut text);
                decode(&n["j"], root, style, &mut text);
                gap(style, &mut text);
                fs::write(&p, text).unwrap();
            }
            set_mtime(&p, n["m"].as_u64().unwrap_or(0));
        }
        "s" => std::os::unix::fs::symlink("/dev/null", &p).unwrap(),
        "l" => std::os::unix::fs::symlink(root.path(s(n, "to")), &p).unwrap(),
        other => panic!("bad node type {other}"),
    }
}

fn strs(v: &Value, root: &Root) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| root.real(x.as_str().unwrap())).collect()
}

/// A resolver for the options o.  "dflt": 1 sets only what differs from the documented defaults,
/// 2 (o has only defaults) is Resolver::default().
pub fn resolver(o: &Value, root: &Root, caches: &mut HashMap<u64, Arc<ResolverCache>>) -> Resolver {
    let full = options(o, root, caches);
    match o["dflt"].as_u64().unwrap_or(0) {
        0 => Resolver::new(full),
        1 => {
            let mut d = ResolverOptions::default();
            let same = |k: &str, v: Value| o[k] == v;
            if !same("ext", json!([".js", ".json", ".node"])) {
                d.extensions = full.extensions;
            }
            if !same("enf", json!("none")) {
                d.enforce_extension = full.enforce_extension;
            }
            if !same("alias", json!([])) {
                d.alias = full.alias;
            }
            if !same("pr", json!(false)) {
                d.prefer_relative = full.prefer_relative;
            }
            if !same("cache", json!(0)) {
                d.external_cache = full.external_cache;
            }
            if !same("sym", json!(true)) {
                d.symlinks = full.symlinks;
            }
            if !same("df", json!("package.json")) {
                d.description_file = full.description_file;
            }
            if !same("mfiles", json!(["index"])) {
                d.main_files = full.main_files;
            }
            if !same("mfields", json!(["main"])) {
                d.main_fields = full.main_fields;
            }
            if !same("bf", json!(false)) {
                d.browser_field = full.browser_field;
            }
            if !same("cond", json!(["node"])) {
                d.condition_names = full.condition_names;
            }
            if !same("ts", json!("")) {
                d.tsconfig = full.tsconfig;
            }
            Resolver::new(d)
        }
        _ => Resolver::default(),
    }
}

pub fn options(o: &Value, root: &Root, caches: &mut HashMap<u64, Arc<ResolverCache>>) -> ResolverOptions {
    let cache = o["cache"].as_u64().unwrap_or(0);
    ResolverOptions {
        extensions: strs(&o["ext"], root),
        enforce_extension: match s(o, "enf") {
            "none" => None,
            x => Some(x == "true"),
        },
        alias: o["alias"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| {
                let to = if a[1].as_str().unwrap() == "ign" {
                    AliasMap::Ignored
                } else {
                    AliasMap::Target(root.real(a[2].as_str().unwrap()))
                };
                (root.real(a[0].as_str().unwrap()), to)
            })
            .collect(),
        prefer_relative: o["pr"].as_bool().unwrap(),
        external_cache: if cache == 0 {
            None
        } else {
            Some(caches.entry(cache).or_default().clone())
        },
        symlinks: o["sym"].as_bool().unwrap(),
        description_file: match s(o, "df") {
            "" => None,
            x => Some(x.to_string()),
        },
        main_files: strs(&o["mfiles"], root),
        main_fields: strs(&o["mfields"], root),
        browser_field: o["bf"].as_bool().unwrap(),
        condition_names: strs(&o["cond"], root).into_iter().collect(),
        tsconfig: match s(o, "ts") {
            "" => None,
            x => Some(root.path(x)),
        },
    }
}

fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

/// One call of the public API, as the value the specification judges.
pub fn resolve(r: &Resolver, root: &Root, dir: &str, req: &str) -> Value {
    let dir = root.path(dir);
    let req = root.real(req);
    match catch_unwind(AssertUnwindSafe(|| r.resolve(&dir, &req))) {
        Ok(Ok(ResolveResult::Info(i))) => json!({
            "k": "ok",
            "p": root.shown(&i.path),
            "q": i.request.query.as_str(),
            "f": i.request.fragment.as_str(),
            "t": i.request.target.as_str(),
            "j": root.shown(&i.join()),
            "g": root.shown(&i.get_path()),
            "file": fs::symlink_metadata(&i.path).map_or(false, |m| m.is_file()),
        }),
        Ok(Ok(ResolveResult::Ignored)) => json!({"k": "ign"}),
        Ok(Err(m)) => json!({"k": "err", "m": root.model(&m)}),
        Err(e) => json!({"k": "panic", "m": root.model(&payload(e))}),
    }
}

pub fn side_effects(r: &Resolver, root: &Root, path: &str) -> Value {
    let path = root.path(path);
    match catch_unwind(AssertUnwindSafe(|| r.load_side_effects(&path))) {
        Ok(Ok(None)) => json!({"k": "none"}),
        Ok(Ok(Some((p, se)))) => json!({
            "k": "some",
            "p": root.shown(&p),
            "se": match se {
                None => json!(["none"]),
                Some(SideEffects::Bool(b)) => json!(["bool", b]),
                Some(SideEffects::Array(a)) => json!(["array", a.iter().map(|x| root.model(x)).collect::<Vec<_>>()]),
            }
        }),
        Ok(Err(m)) => json!({"k": "err", "m": root.model(&m)}),
        Err(e) => json!({"k": "panic", "m": root.model(&payload(e))}),
    }
}

/// Replaces or removes a file in one step.
fn edit_atomically(root: &Root, ev: &Value, aside: &str) {
    let p = PathBuf::from(root.real(s(ev, "p")));
    match s(ev, "op") {
        "rm" => fs::remove_file(p).unwrap(),
        "write" => {
            let mut n = ev.clone();
            n["p"] = json!(aside);
            write_node(&Root(String::new()), &n_with_root(n, root));
            fs::rename(aside, &p).unwrap();
        }
        other => panic!("bad edit {other}"),
    }
}

/// The node with the names in its JSON already made real (its path is real too).
fn n_with_root(mut n: Value, root: &Root) -> Value {
    fn walk(v: &mut Value, root: &Root) {
        match v {
            Value::String(x) => *x = root.real(x),
            Value::Array(a) => a.iter_mut().for_each(|x| walk(x, root)),
            _ => {}
        }
    }
    if n["t"] == "j" {
        walk(&mut n["j"], root);
    }
    n
}

fn call(rs: &[Resolver], root: &Root, ev: &Value) -> Value {
    let r = &rs[ev["r"].as_u64().unwrap() as usize - 1];
    match s(ev, "op") {
        "resolve" => resolve(r, root, s(ev, "d"), s(ev, "q")),
        "side" => side_effects(r, root, s(ev, "d")),
        other => panic!("bad call {other}"),
    }
}

/// {"op":"par","t":[[call..]..],"edits":[..],"sched":null|[thread..],"rng":n}: threads 0.. make their calls, the last
/// thread makes the edits.  Every answer is recorded with the edits that had ended when the call started
/// (v0) and those that had begun when it returned (v1).
fn parallel(rs: &[Resolver], root: &Root, ev: &Value) -> Value {
    let lists: Vec<&Vec<Value>> = ev["t"].as_array().unwrap().iter().map(|l| l.as_array().unwrap()).collect();
    let edits = ev["edits"].as_array().unwrap();
    let scheduled = ev["sched"].is_array();
    let n = lists.len() + usize::from(!edits.is_empty());
    if scheduled {
        let sc = ev["sched"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        sched::start(n, sc, ev["rng"].as_u64().unwrap_or(0));
    }
    // "rep": the threads make their calls again and again, nothing is edited; an answer is then the first one that
    // is not what the same call gives afterwards
    if let Some(rep) = ev["rep"].as_u64() {
        let barrier = std::sync::Barrier::new(n);
        let seen = std::thread::scope(|sc| {
            let handles: Vec<_> = lists
                .iter()
                .map(|l| {
                    let barrier = &barrier;
                    sc.spawn(move || {
                        barrier.wait();
                        let mut seen: Vec<Vec<Value>> = l.iter().map(|_| vec![]).collect();
                        for _ in 0..rep {
                            for (c, s) in l.iter().zip(&mut seen) {
                                let o = call(rs, root, c);
                                if !s.contains(&o) {
                                    s.push(o);
                                }
                                SERIAL.fetch_add(1, Ordering::SeqCst);
                            }
                        }
                        seen
                    })
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        let pick = |c: &Value, s: Vec<Value>| {
            let alone = call(rs, root, c);
            let mut o = s.into_iter().find(|o| *o != alone).unwrap_or(alone);
            o["v0"] = json!(0);
            o["v1"] = json!(0);
            o
        };
        let out: Vec<Vec<Value>> = lists.iter().zip(seen).map(|(l, s)| l.iter().zip(s).map(|(c, s)| pick(c, s)).collect()).collect();
        return json!({"k": "par", "t": out, "kept": false});
    }
    let (begun, ended) = (AtomicU64::new(0), AtomicU64::new(0));
    let barrier = std::sync::Barrier::new(n);
    let aside = format!("{}.aside", root.0);
    let out = std::thread::scope(|sc| {
        let handles: Vec<_> = lists
            .iter()
            .enumerate()
            .map(|(k, l)| {
                let (begun, ended, barrier) = (&begun, &ended, &barrier);
                sc.spawn(move || {
                    barrier.wait();
                    if scheduled {
                        sched::enter(k);
                    }
                    let mut outs = vec![];
                    for c in l.iter() {
                        let v0 = ended.load(Ordering::SeqCst);
                        let mut o = call(rs, root, c);
                        o["v0"] = json!(v0);
                        o["v1"] = json!(begun.load(Ordering::SeqCst));
                        outs.push(o);
                        SERIAL.fetch_add(1, Ordering::SeqCst);
                    }
                    if scheduled {
                        sched::leave(k);
                    }
                    outs
                })
            })
            .collect();
        if !edits.is_empty() {
            let k = lists.len();
            let (begun, ended, barrier, aside) = (&begun, &ended, &barrier, &aside);
            let gap = ev["gap"].as_u64().unwrap_or(0);
            sc.spawn(move || {
                barrier.wait();
                if scheduled {
                    sched::enter(k);
                }
                for e in edits {
                    if scheduled {
                        sched::pause(k);
                    } else {
                        std::thread::sleep(Duration::from_micros(gap));
                    }
                    begun.fetch_add(1, Ordering::SeqCst);
                    sched::quietly(|| edit_atomically(root, e, aside));
                    ended.fetch_add(1, Ordering::SeqCst);
                }
                if scheduled {
                    sched::leave(k);
                }
            });
        }
        handles.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
    });
    let kept = scheduled && sched::stop();
    json!({"k": "par", "t": out, "kept": kept})
}

static STARTED: AtomicU64 = AtomicU64::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(0);

fn watchdog(mark: Arc<Mutex<fs::File>>) {
    let base = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let st = STARTED.load(Ordering::SeqCst);
        let now = base.elapsed().as_millis() as u64 + 1;
        if st == 0 {
            continue;
        }
        let ser = SERIAL.load(Ordering::SeqCst);
        std::thread::sleep(Duration::from_secs(20));
        if ser == SERIAL.load(Ordering::SeqCst) && STARTED.load(Ordering::SeqCst) != 0 {
            let _ = now;
            writeln!(mark.lock().unwrap(), "hang").unwrap();
            std::process::exit(99);
        }
    });
}

pub fn clear_dir(p: &str) {
    assert!(p.contains("/vp-scratch-"), "refusing to clear {p}");
    let _ = fs::remove_dir_all(p);
}

pub fn run_file(inp: &str, out: &str, scratch: &str, skip: usize) {
    if std::env::var_os("VP_PANIC_TRACE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mark = Arc::new(Mutex::new(fs::File::create(format!("{out}.mark")).unwrap()));
    watchdog(mark.clone());
    let reader = std::io::BufReader::new(fs::File::open(inp).unwrap());
    let mut outf = std::io::BufWriter::new(fs::File::options().create(true).append(true).open(out).unwrap());
    fs::create_dir_all(scratch).unwrap();
    let scratch = fs::canonicalize(scratch).unwrap().display().to_string();
    assert!(scratch.contains("/vp-scratch-") && !scratch.contains("node_modules"));
    for (i, line) in reader.lines().enumerate() {
        if i < skip {
            continue;
        }
        let sc: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let root = Root(format!("{scratch}/{i}"));
        fs::create_dir_all(&root.0).unwrap();
        for n in sc["fs"].as_array().unwrap() {
            write_node(&root, n);
        }
        let mut caches = HashMap::new();
        let mut rs: Vec<Resolver> = sc["res"].as_array().unwrap().iter().map(|o| resolver(o, &root, &mut caches)).collect();
        let mut outs = vec![];
        for (k, ev) in sc["ev"].as_array().unwrap().iter().enumerate() {
            {
                use std::io::Seek;
                let mut m = mark.lock().unwrap();
                m.rewind().unwrap();
                write!(m, "{i} {k}\n").unwrap();
            }
            SERIAL.fetch_add(1, Ordering::SeqCst);
            STARTED.store(1, Ordering::SeqCst);
            let o = match s(ev, "op") {
                "resolve" => resolve(&rs[ev["r"].as_u64().unwrap() as usize - 1], &root, s(ev, "d"), s(ev, "q")),
                "side" => side_effects(&rs[ev["r"].as_u64().unwrap() as usize - 1], &root, s(ev, "d")),
                "builtin" => json!({"k": if Resolver::is_build_in_module(s(ev, "q")) {"yes"} else {"no"}}),
                "normalize" => json!({"k": "ok", "p": root.shown(&Resolver::normalize_path_without_link(&root.path(s(ev, "d"))))}),
                "write" => {
                    write_node(&root, ev);
                    json!({"k": "done"})
                }
                "rm" => {
                    let p = root.path(s(ev, "p"));
                    assert!(p.starts_with(&scratch));
                    fs::remove_file(p).unwrap();
                    json!({"k": "done"})
                }
                "mv" => {
                    let (p, to) = (root.path(s(ev, "p")), root.path(s(ev, "to")));
                    assert!(p.starts_with(&scratch) && to.starts_with(&scratch));
                    fs::rename(p, to).unwrap();
                    json!({"k": "done"})
                }
                "touch" => {
                    set_mtime(&root.path(s(ev, "p")), ev["m"].as_u64().unwrap());
                    json!({"k": "done"})
                }
                "par" => parallel(&rs, &root, ev),
                "new" => {
                    // a fresh resolver takes the place of resolver r
                    let r = ev["r"].as_u64().unwrap() as usize - 1;
                    rs[r] = resolver(&sc["res"][r], &root, &mut caches);
                    json!({"k": "done"})
                }
                other => panic!("bad op {other}"),
            };
            STARTED.store(0, Ordering::SeqCst);
            outs.push(o);
        }
        drop(rs);
        clear_dir(&root.0);
        writeln!(outf, "{}", json!({"id": sc["id"], "out": outs})).unwrap();
        outf.flush().unwrap();
    }
    let mut m = mark.lock().unwrap();
    m.set_len(0).unwrap();
    clear_dir(&scratch);
}
