// Verification driver: compiled into posy with `--cfg posy_verif` (see /repo/src/main.rs).
// Reads JSON commands from the fd named in POSY_VERIF_FDS ("in,out"), one per line, and
// writes one JSON reply per line. It only calls posy's own API and reports what it saw;
// all judgement is made outside, against the TLA+ specification.

use crate::env::{Env, EnvForest};
use crate::kvstore::{KVDirLock, KVDirStore, KVFileLock, KVFileStore, LockedWrite};
use crate::package_db::verif::{fetch_simple_api, CacheMode, Http, NotCached};
use crate::package_db::{ArtifactInfo, PackageDB};
use crate::prelude::*;
use crate::resolve::{Blueprint, Brief};
use crate::trampolines::{FindPython, ScriptPlatform, TrampolineMaker};
use crate::tree::{unpack_tar_gz_carefully, unpack_zip_carefully, NiceSymlinkPaths, WriteTreeFS};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, SeekFrom};
use std::os::unix::io::FromRawFd;
use std::path::{Path, PathBuf};

extern "C" {
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    fn _exit(code: i32) -> !;
}

fn b64(data: &[u8]) -> Value {
    Value::String(data_encoding::BASE64.encode(data))
}

fn unb64(v: &Value) -> Result<Vec<u8>> {
    Ok(data_encoding::BASE64.decode(v.as_str().ok_or_else(|| eyre!("bad base64 field"))?.as_bytes())?)
}

fn st<'a>(v: &'a Value, key: &str) -> Result<&'a str> {
    v[key].as_str().ok_or_else(|| eyre!("DRIVER: missing string field {}", key))
}

fn num(v: &Value, key: &str) -> Result<u64> {
    v[key].as_u64().ok_or_else(|| eyre!("DRIVER: missing number field {}", key))
}

struct Chan {
    input: BufReader<std::fs::File>,
    output: std::fs::File,
}

impl Chan {
    fn recv(&mut self) -> Option<Value> {
        let mut line = String::new();
        match self.input.read_line(&mut line) {
            Ok(0) | Err(_) => None,
            Ok(_) => Some(serde_json::from_str(&line).expect("bad driver command")),
        }
    }
    fn send(&mut self, v: &Value) {
        let mut s = serde_json::to_string(v).unwrap();
        s.push('\n');
        let _ = self.output.write_all(s.as_bytes());
    }
}

enum Obj {
    FileStore(&'static KVFileStore),
    DirStore(&'static KVDirStore),
    Lock(*mut KVFileLock),
    Reader(Box<dyn ReadPlusSeek>),
    Writer(LockedWrite<'static>),
    DirLock(KVDirLock),
    Http(Http),
    Forest(&'static EnvForest),
    Db(&'static PackageDB<'static>),
    Env(Env),
    Resp(Box<dyn Read>),
}

struct OwnedKey(Option<Vec<u8>>, Option<ArtifactHash>);

impl crate::kvstore::PathKey for OwnedKey {
    fn key(&self) -> PathBuf {
        match (&self.0, &self.1) {
            (Some(b), _) => b.as_slice().key(),
            (_, Some(h)) => h.key(),
            _ => unreachable!(),
        }
    }
}

fn key(v: &Value) -> Result<OwnedKey> {
    if v["key"].is_string() {
        Ok(OwnedKey(Some(unb64(&v["key"])?), None))
    } else {
        Ok(OwnedKey(None, Some(st(v, "hash")?.parse()?)))
    }
}

fn mark(root: &Path, v: Value) {
    let name = format!("@{}", data_encoding::BASE64URL_NOPAD.encode(v.to_string().as_bytes()));
    let _ = std::fs::remove_file(root.join(name));
}

fn produce_file(root: &Path, steps: &Value, w: &mut dyn Write) -> Result<()> {
    mark(root, json!({"ev": "produce"}));
    for step in steps.as_array().unwrap() {
        match st(step, "op")? {
            "w" => w.write_all(&unb64(&step["data"])?)?,
            _ => bail!("PRODUCER FAILED"),
        }
    }
    mark(root, json!({"ev": "produced"}));
    Ok(())
}

fn produce_dir(root: &Path, steps: &Value, path: &Path) -> Result<()> {
    mark(root, json!({"ev": "produce", "path": path.to_string_lossy()}));
    for step in steps.as_array().unwrap() {
        match st(step, "op")? {
            "file" => std::fs::write(path.join(st(step, "name")?), &unb64(&step["data"])?)?,
            "dir" => std::fs::create_dir_all(path.join(st(step, "name")?))?,
            _ => bail!("PRODUCER FAILED"),
        }
    }
    mark(root, json!({"ev": "produced"}));
    Ok(())
}

fn actor(root: &Path, t: &Value) -> Result<()> {
    mark(root, json!({"ev": "actor", "name": t["name"]}));
    let files = KVFileStore::new(&root.join("files"))?;
    let dirs = KVDirStore::new(&root.join("dirs"))?;
    let mut locks: Vec<Box<KVFileLock>> = Vec::new();
    let mut dlocks: Vec<KVDirLock> = Vec::new();
    let mut writers: Vec<LockedWrite<'static>> = Vec::new();
    let mut readers: Vec<Box<dyn ReadPlusSeek>> = Vec::new();
    for (i, s) in t["steps"].as_array().unwrap().iter().enumerate() {
        mark(root, json!({"ev": "start", "step": i}));
        let mut go = || -> Result<Value> {
            let mut keep = |mut r: Box<dyn ReadPlusSeek>| -> Result<Value> {
                let data = slurp(&mut r)?;
                readers.push(r);
                Ok(json!({ "some": b64(&data) }))
            };
            match st(s, "do")? {
                "lock" => {
                    locks.push(Box::new(files.lock(&key(s)?)?));
                    Ok(json!({}))
                }
                "lock_if_exists" => match files.lock_if_exists(&key(s)?) {
                    Some(l) => {
                        locks.push(Box::new(l));
                        Ok(json!({"some": ""}))
                    }
                    None => Ok(json!({})),
                },
                "read" => match locks.last().and_then(|l| l.reader()) {
                    Some(r) => keep(Box::new(r.detach_unlocked())),
                    None => Ok(json!({})),
                },
                "begin" => {
                    // the writer is dropped before the lock
                    if let Some(l) = locks.last() {
                        let l: &'static KVFileLock = unsafe { &*(&**l as *const KVFileLock) };
                        writers.push(l.begin()?);
                    }
                    Ok(json!({}))
                }
                "write" => {
                    if let Some(w) = writers.last_mut() {
                        w.write_all(&unb64(&s["data"])?)?;
                    }
                    Ok(json!({}))
                }
                "commit" => match writers.pop() {
                    Some(w) => keep(Box::new(w.commit()?.detach_unlocked())),
                    None => Ok(json!({})),
                },
                "abandon" => {
                    writers.pop();
                    Ok(json!({}))
                }
                "remove" => {
                    writers.clear();
                    if let Some(l) = locks.pop() {
                        l.remove()?;
                    }
                    Ok(json!({}))
                }
                "unlock" => {
                    writers.clear();
                    locks.pop();
                    dlocks.pop();
                    Ok(json!({}))
                }
                "get" => match files.get(&key(s)?) {
                    Some(r) => keep(r),
                    None => Ok(json!({})),
                },
                "set" => {
                    let r = files.get_or_set(&key(s)?, |w| produce_file(root, &s["producer"], w))?;
                    keep(r)
                }
                "reread" => {
                    let mut out = Vec::new();
                    for r in readers.iter_mut() {
                        r.rewind()?;
                        out.push(b64(&slurp(r)?));
                    }
                    Ok(Value::Array(out))
                }
                "dlock" => {
                    let l = dirs.lock(&key(s)?)?;
                    let there = l.exists();
                    dlocks.push(l);
                    Ok(json!({ "there": there }))
                }
                "dset" => {
                    let p = dirs.get_or_set(&key(s)?, |p| produce_dir(root, &s["producer"], p))?;
                    Ok(json!({ "path": p.to_string_lossy() }))
                }
                x => bail!("DRIVER: bad step {x}"),
            }
        };
        let r = match go() {
            Ok(v) => json!({ "ok": v }),
            Err(e) => json!({ "err": format!("{e:#}") }),
        };
        if st(s, "do")? == "write" && r["err"].is_string() {
            writers.clear();
        }
        mark(root, json!({"ev": "end", "step": i, "res": r}));
    }
    // in the order that users of the API drop them
    drop(writers);
    drop(locks);
    drop(dlocks);
    drop(readers);
    mark(root, json!({"ev": "done"}));
    Ok(())
}

fn err_value(e: &eyre::Report) -> Value {
    let kind = if e.downcast_ref::<NotCached>().is_some() {
        "NotCached"
    } else {
        match e.downcast_ref::<PosyError>() {
            Some(PosyError::NoCompatibleBinaries { .. }) => "NoCompatibleBinaries",
            Some(PosyError::NoPybiFound) => "NoPybiFound",
            Some(PosyError::LazyRemoteFileNotSupported) => "LazyRemoteFileNotSupported",
            None => "other",
        }
    };
    let text = format!("{e:?}");
    let flat = format!("{e:#}");
    json!({"err": flat, "kind": kind, "detail": text})
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn marker_ast(e: &marker::EnvMarkerExpr) -> Value {
    use marker::EnvMarkerExpr::*;
    fn val(v: &marker::Value) -> Value {
        match v {
            marker::Value::Variable(s) => json!({"var": s}),
            marker::Value::Literal(s) => json!({"lit": s}),
        }
    }
    match e {
        And(a, b) => json!({"and": [marker_ast(a), marker_ast(b)]}),
        Or(a, b) => json!({"or": [marker_ast(a), marker_ast(b)]}),
        Operator { op, lhs, rhs } => json!({
            "op": match op {
                marker::Op::Compare(c) => c.to_string(),
                marker::Op::In => "in".into(),
                marker::Op::NotIn => "not in".into(),
            },
            "lhs": val(lhs), "rhs": val(rhs)}),
    }
}

fn req_json(r: &Requirement) -> Value {
    json!({
        "name": r.name.as_given(), "norm": r.name.normalized(),
        "extras": r.extras.iter().map(|e| e.as_given().to_string()).collect::<Vec<_>>(),
        "extras_norm": r.extras.iter().map(|e| e.normalized().to_string()).collect::<Vec<_>>(),
        "specs": r.specifiers.0.iter().map(|s| json!([s.op.to_string(), s.value])).collect::<Vec<_>>(),
        "marker": r.env_marker_expr.as_ref().map(marker_ast),
    })
}

fn ai_json(ai: &ArtifactInfo) -> Value {
    json!({
        "name": ai.name.to_string(),
        "url": ai.url.as_str(),
        "hash": ai.hash.as_ref().map(|h| h.to_string()),
        "requires_python": ai.requires_python,
        "yanked": ai.yanked.yanked,
        "reason": ai.yanked.reason,
        "version": ai.name.version().to_string(),
        "dist": ai.name.distribution().as_given(),
        "kind": match ai.name { ArtifactName::Sdist(_) => "sdist", ArtifactName::Wheel(_) => "wheel", ArtifactName::Pybi(_) => "pybi" },
    })
}

fn wheel_meta_json(m: &WheelCoreMetadata) -> Value {
    let mut extras = m.extras.iter().map(|e| e.normalized().to_string()).collect::<Vec<_>>();
    extras.sort();
    json!({"name": m.name.as_given(), "version": m.version.to_string(),
        "requires_dist": m.requires_dist.iter().map(|r| r.to_string()).collect::<Vec<_>>(),
        "requires_python": m.requires_python.to_string(),
        "extras": extras})
}

fn pybi_meta_json(m: &PybiCoreMetadata) -> Value {
    json!({"name": m.name.as_given(), "version": m.version.to_string(),
        "vars": m.environment_marker_variables,
        "tags": m.tags,
        "paths": m.paths.iter().map(|(k, v)| (k.clone(), v.to_string())).collect::<HashMap<_, _>>()})
}

fn fake_pybi_meta(tags: &Value) -> Result<PybiCoreMetadata> {
    let mut blob = "Metadata-Version: 2.1\nName: x\nVersion: 1\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {}\n".to_string();
    for t in tags.as_array().unwrap() {
        blob.push_str(&format!("Pybi-Wheel-Tag: {}\n", t.as_str().unwrap()));
    }
    blob.as_bytes().try_into()
}

fn ord(o: std::cmp::Ordering) -> i32 {
    o as i32
}

fn artifact_json(n: &ArtifactName) -> Value {
    match n {
        ArtifactName::Sdist(n) => json!({"kind": "sdist", "dist": n.distribution.as_given(), "norm": n.distribution.normalized(), "version": n.version.to_string(),
            "format": match n.format { SdistFormat::Zip => "zip", SdistFormat::TarGz => "tar.gz" }}),
        ArtifactName::Wheel(n) => {
            let mut all = n.all_tags().into_iter().collect::<Vec<_>>();
            all.sort();
            json!({"kind": "wheel", "dist": n.distribution.as_given(), "norm": n.distribution.normalized(), "version": n.version.to_string(),
            "build_number": n.build_number, "build_name": n.build_name, "py": n.py_tags, "abi": n.abi_tags, "arch": n.arch_tags, "all": all})
        }
        ArtifactName::Pybi(n) => {
            let mut all = n.all_tags().into_iter().collect::<Vec<_>>();
            all.sort();
            json!({"kind": "pybi", "dist": n.distribution.as_given(), "norm": n.distribution.normalized(), "version": n.version.to_string(),
            "build_number": n.build_number, "build_name": n.build_name, "arch": n.arch_tags, "all": all})
        }
    }
}

fn env_paths() -> HashMap<String, NicePathBuf> {
    HashMap::from([
        ("scripts".to_string(), "bin".try_into().unwrap()),
        ("purelib".to_string(), "lib".try_into().unwrap()),
        ("platlib".to_string(), "lib".try_into().unwrap()),
        ("data".to_string(), ".".try_into().unwrap()),
    ])
}

// --- operations without state -------------------------------------------------------

fn pure_op(v: &Value) -> Option<Result<Value>> {
    let op = v["op"].as_str().unwrap_or("");
    Some(match op {
        "ping" => Ok(json!("pong")),
        "version" => (|| {
            let ver: Version = st(v, "s")?.try_into()?;
            let text = ver.to_string();
            let again: Version = text.as_str().try_into()?;
            let j = serde_json::to_string(&ver)?;
            let from_j: Version = serde_json::from_str(&j)?;
            Ok(json!({"str": text, "pre": ver.is_prerelease(), "eq": again == ver && from_j == ver}))
        })(),
        "vercmp" => (|| {
            let a: Version = st(v, "a")?.try_into()?;
            let b: Version = st(v, "b")?.try_into()?;
            Ok(json!({"cmp": ord(a.cmp(&b)), "eq": a == b}))
        })(),
        "spec" => (|| {
            // parses a specifier set; for each version whether it is accepted
            let specs: Specifiers = st(v, "s")?.try_into()?;
            let mut got = Vec::new();
            for s in &specs.0 {
                s.to_ranges()?;
            }
            for x in v["versions"].as_array().unwrap() {
                let ver: Version = x.as_str().unwrap().try_into()?;
                got.push(specs.satisfied_by(&ver)?);
            }
            Ok(json!({ "got": got, "n": specs.0.len() }))
        })(),
        "spec_rt" => (|| {
            let specs: Specifiers = st(v, "s")?.try_into()?;
            let text = specs.to_string();
            let again: Result<Specifiers> = text.as_str().try_into();
            Ok(json!({"str": text, "eq": again.ok().map(|a| a == specs),
                "specs": specs.0.iter().map(|s| json!([s.op.to_string(), s.value])).collect::<Vec<_>>()}))
        })(),
        "req" => (|| {
            let s = st(v, "s")?;
            fn rt<T>(s: &str) -> Result<(String, bool, Option<bool>, T)>
            where
                T: for<'x> TryFrom<&'x str, Error = eyre::Report> + Display + PartialEq,
            {
                let r: T = s.try_into()?;
                let text = r.to_string();
                let again: Result<T> = text.as_str().try_into();
                let ok = again.is_ok();
                let eq = again.ok().map(|a| a == r);
                Ok((text, ok, eq, r))
            }
            match st(v, "kind")? {
                "package" => {
                    let (text, ok, eq, r) = rt::<PackageRequirement>(s)?;
                    let j = serde_json::to_string(&r)?;
                    let rj: PackageRequirement = serde_json::from_str(&j).wrap_err("JSON-RT")?;
                    Ok(json!({"str": text, "reparse": ok, "eq": eq, "json_eq": rj == r, "req": req_json(&r)}))
                }
                "user" => {
                    let (text, ok, eq, r) = rt::<UserRequirement>(s)?;
                    let j = serde_json::to_string(&r)?;
                    let rj: UserRequirement = serde_json::from_str(&j).wrap_err("JSON-RT")?;
                    Ok(json!({"str": text, "reparse": ok, "eq": eq, "json_eq": rj == r, "req": req_json(&r)}))
                }
                "python" => {
                    let (text, ok, eq, r) = rt::<PythonRequirement>(s)?;
                    let j = serde_json::to_string(&r)?;
                    let rj: PythonRequirement = serde_json::from_str(&j).wrap_err("JSON-RT")?;
                    Ok(json!({"str": text, "reparse": ok, "eq": eq, "json_eq": rj == r, "req": req_json(&r)}))
                }
                _ => bail!("DRIVER: bad kind"),
            }
        })(),
        "marker" => (|| {
            // evaluates "x; <marker>" as a package requirement with the given variables
            let r: PackageRequirement = format!("x; {}", st(v, "s")?).as_str().try_into()?;
            let env: HashMap<String, String> = serde_json::from_value(v["env"].clone())?;
            let e = r.env_marker_expr.as_ref().ok_or_else(|| eyre!("no marker"))?;
            Ok(json!({ "got": e.eval(&env)?, "ast": marker_ast(e), "str": e.to_string() }))
        })(),
        "smarker" => (|| {
            let m: StandaloneMarkerExpr = st(v, "s")?.try_into()?;
            let text = m.to_string();
            let again: Result<StandaloneMarkerExpr> = text.as_str().try_into();
            Ok(json!({"str": text, "eq": again.ok().map(|a| a == m), "ast": marker_ast(&m.0)}))
        })(),
        "name" => (|| {
            let n: PackageName = st(v, "s")?.try_into()?;
            Ok(json!({"given": n.as_given(), "norm": n.normalized()}))
        })(),
        "name_eq" => (|| {
            use std::hash::{Hash, Hasher};
            let a: PackageName = st(v, "a")?.try_into()?;
            let b: PackageName = st(v, "b")?.try_into()?;
            let ea: Extra = st(v, "a")?.try_into()?;
            let eb: Extra = st(v, "b")?.try_into()?;
            fn h<T: Hash>(t: &T) -> u64 {
                let mut s = std::collections::hash_map::DefaultHasher::new();
                t.hash(&mut s);
                s.finish()
            }
            let set: HashSet<PackageName> = [a.clone(), b.clone()].into_iter().collect();
            Ok(json!({"eq": a == b, "extra_eq": ea == eb, "hash_eq": h(&a) == h(&b), "extra_hash_eq": h(&ea) == h(&eb),
                      "cmp": ord(a.cmp(&b)), "set": set.len()}))
        })(),
        "artifact" => (|| {
            let n: ArtifactName = st(v, "s")?.try_into()?;
            let text = n.to_string();
            let again: Result<ArtifactName> = text.as_str().try_into();
            Ok(json!({"str": text, "eq": again.ok().map(|a| a == n), "fields": artifact_json(&n),
                "split": n.split_multiplatform_pybis().iter().map(|n| n.to_string()).collect::<Vec<_>>()}))
        })(),
        "artifact_cmp" => (|| {
            let a: ArtifactName = st(v, "a")?.try_into()?;
            let b: ArtifactName = st(v, "b")?.try_into()?;
            Ok(json!({"cmp": ord(a.cmp(&b)), "eq": a == b}))
        })(),
        "hash" => (|| {
            let h: ArtifactHash = st(v, "s")?.try_into()?;
            let text = h.to_string();
            let again: ArtifactHash = text.as_str().try_into()?;
            let j: ArtifactHash = serde_json::from_str(&serde_json::to_string(&h)?)?;
            Ok(json!({"str": text, "eq": again == h && j == h}))
        })(),
        "hash_check" => (|| {
            let h: ArtifactHash = st(v, "s")?.try_into()?;
            let mut c = h.checker(Vec::new())?;
            for chunk in v["chunks"].as_array().unwrap() {
                c.write_all(&unb64(chunk)?)?;
            }
            Ok(json!({"data": b64(&c.finish()?)}))
        })(),
        "metadata" => (|| {
            let data = unb64(&v["data"])?;
            match st(v, "kind")? {
                "wheel" => Ok(wheel_meta_json(&data.as_slice().try_into()?)),
                _ => Ok(pybi_meta_json(&data.as_slice().try_into()?)),
            }
        })(),
        "entry_points" => (|| {
            let m = parse_entry_points(st(v, "s")?)?;
            Ok(Value::Object(
                m.iter()
                    .map(|(k, es)| {
                        (k.clone(), es.iter().map(|e| json!([e.name, e.module, e.object])).collect::<Vec<_>>().into())
                    })
                    .collect(),
            ))
        })(),
        "path" => (|| {
            let data = unb64(&v["data"])?;
            let p: NicePathBuf = data.as_slice().try_into()?;
            Ok(json!({"str": p.to_string(), "pieces": p.pieces(), "native": p.to_native().to_string_lossy()}))
        })(),
        "symlink" => (|| {
            let src: NicePathBuf = unb64(&v["source"])?.as_slice().try_into()?;
            let s = NiceSymlinkPaths::new(&src, &unb64(&v["target"])?)?;
            Ok(json!({"source": s.source.to_string(), "target": s.target}))
        })(),
        "platform" => (|| {
            let p = PybiPlatform::new(st(v, "core")?);
            let tags = p.tags().cloned().collect::<Vec<_>>();
            let scores = v["ask"].as_array().map(|a| a.iter().map(|t| p.compatibility(t.as_str().unwrap())).collect::<Vec<_>>());
            Ok(json!({"core": p.core_tag(), "tags": tags, "scores": scores}))
        })(),
        "wheel_platform" => (|| {
            let p = PybiPlatform::new(st(v, "core")?);
            let wp = p.wheel_platform(&fake_pybi_meta(&v["tags"])?)?;
            let tags = wp.tags().cloned().collect::<Vec<_>>();
            let mut scores = Vec::new();
            for n in v["names"].as_array().unwrap() {
                let name: WheelName = n.as_str().unwrap().try_into()?;
                scores.push(wp.max_compatibility(name.all_tags()));
            }
            Ok(json!({"tags": tags, "scores": scores}))
        })(),
        "native" => (|| {
            Ok(json!(PybiPlatform::native_platforms()?.iter().map(|p| p.core_tag().to_string()).collect::<Vec<_>>()))
        })(),
        "brief_rt" => (|| {
            let b: Brief = serde_json::from_str(st(v, "s")?)?;
            let text = serde_json::to_string(&b)?;
            let b2: Brief = serde_json::from_str(&text).wrap_err("BRIEF-RT")?;
            let text2 = serde_json::to_string(&b2)?;
            Ok(json!({ "text": text, "text2": text2 }))
        })(),
        "blueprint_rt" => (|| {
            let b: Blueprint = serde_json::from_str(st(v, "s")?)?;
            let text = serde_json::to_string(&b)?;
            let b2: Blueprint = serde_json::from_str(&text).wrap_err("BLUEPRINT-RT")?;
            let eq = b.pybi == b2.pybi
                && b.marker_expressions == b2.marker_expressions
                && b.wheels.len() == b2.wheels.len()
                && b.wheels.iter().zip(&b2.wheels).all(|(x, y)| x.0 == y.0 && x.1.inner == y.1.inner && x.1.provenance == y.1.provenance);
            Ok(json!({"text": text, "eq": eq}))
        })(),
        "unpack" => (|| {
            let f = std::fs::File::open(st(v, "file")?)?;
            let mut tree = WriteTreeFS::new(st(v, "dest")?);
            match st(v, "kind")? {
                "zip" => unpack_zip_carefully(&mut zip::ZipArchive::new(f)?, &mut tree)?,
                "targz" => unpack_tar_gz_carefully(f, &mut tree)?,
                "sdist" => Sdist::new(st(v, "name")?.try_into()?, Box::new(f))?.unpack(&mut tree)?,
                "pybi" => Pybi::new(st(v, "name")?.try_into()?, Box::new(f))?.unpack(&mut tree)?,
                "wheel" => Wheel::new(st(v, "name")?.try_into()?, Box::new(f))?.unpack(
                    &env_paths(),
                    &TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Both),
                    tree,
                )?,
                _ => bail!("DRIVER: bad kind"),
            }
            Ok(json!({}))
        })(),
        "file_metadata" => (|| {
            let f = std::fs::File::open(st(v, "file")?)?;
            let name = st(v, "name")?;
            match st(v, "kind")? {
                "pybi" => Ok(pybi_meta_json(&Pybi::new(name.try_into()?, Box::new(f))?.metadata()?.1)),
                _ => Ok(wheel_meta_json(&Wheel::new(name.try_into()?, Box::new(f))?.metadata()?.1)),
            }
        })(),
        "seekslice" => (|| {
            let data = unb64(&v["data"])?;
            let s = crate::seek_slice::SeekSlice::new(std::io::Cursor::new(data), num(v, "start")?, num(v, "end")?)?;
            let mut b: Box<dyn ReadPlusSeek> = Box::new(s);
            Ok(Value::Array(v["ops"].as_array().unwrap().iter().map(|o| reader_op(&mut b, o)).collect()))
        })(),
        _ => return None,
    })
}

fn reader_op(r: &mut Box<dyn ReadPlusSeek>, o: &Value) -> Value {
    let res: Result<Value> = (|| {
        Ok(match o["r"].as_str().unwrap() {
            "read" => {
                let mut buf = vec![0u8; o["n"].as_u64().unwrap() as usize];
                let n = r.read(&mut buf)?;
                json!({ "data": b64(&buf[..n]) })
            }
            "read_all" => {
                let mut buf = Vec::new();
                r.read_to_end(&mut buf)?;
                json!({ "data": b64(&buf) })
            }
            "exact" => {
                let mut buf = vec![0u8; o["n"].as_u64().unwrap() as usize];
                r.read_exact(&mut buf)?;
                json!({ "data": b64(&buf) })
            }
            "start" => json!({"pos": r.seek(SeekFrom::Start(o["n"].as_u64().unwrap()))?}),
            "end" => json!({"pos": r.seek(SeekFrom::End(o["n"].as_i64().unwrap()))?}),
            "cur" => json!({"pos": r.seek(SeekFrom::Current(o["n"].as_i64().unwrap()))?}),
            _ => bail!("DRIVER: bad reader op"),
        })
    })();
    match res {
        Ok(v) => v,
        Err(e) => json!({ "err": format!("{e}") }),
    }
}

// --- operations with state ----------------------------------------------------------

struct Driver {
    chan: Chan,
    objs: HashMap<String, Obj>,
}

macro_rules! obj {
    ($self:expr, $v:expr, $field:expr, $variant:ident) => {
        match $self.objs.get(st($v, $field)?) {
            Some(Obj::$variant(x)) => x,
            _ => bail!("DRIVER: no such object {}", st($v, $field)?),
        }
    };
}
macro_rules! obj_mut {
    ($self:expr, $v:expr, $field:expr, $variant:ident) => {
        match $self.objs.get_mut(st($v, $field)?) {
            Some(Obj::$variant(x)) => x,
            _ => bail!("DRIVER: no such object {}", st($v, $field)?),
        }
    };
}

fn mode(v: &Value) -> CacheMode {
    match v["mode"].as_str() {
        Some("OnlyIfCached") => CacheMode::OnlyIfCached,
        Some("NoStore") => CacheMode::NoStore,
        _ => CacheMode::Default,
    }
}

fn platforms(v: &Value) -> Result<Vec<&'static PybiPlatform>> {
    match v["platforms"].as_array() {
        None => Ok(PybiPlatform::native_platforms()?.to_vec()),
        Some(a) => Ok(a
            .iter()
            .map(|t| &*Box::leak(Box::new(PybiPlatform::new(t.as_str().unwrap()))))
            .collect()),
    }
}

impl Driver {
    fn put(&mut self, v: &Value, o: Obj) -> Result<Value> {
        self.objs.insert(st(v, "as")?.to_string(), o);
        Ok(json!({}))
    }

    fn find_ai(&self, v: &Value) -> Result<ArtifactInfo> {
        let db = obj!(self, v, "db", Db);
        let n: PackageName = st(v, "name")?.try_into()?;
        for (_, ais) in db.available_artifacts(&n)? {
            for ai in ais {
                if ai.name.to_string() == st(v, "file")? {
                    return Ok(ai.clone());
                }
            }
        }
        bail!("DRIVER: no such artifact")
    }

    fn state_op(&mut self, v: &Value) -> Result<Value> {
        match st(v, "op")? {
            "drop" => {
                match self.objs.remove(st(v, "obj")?) {
                    Some(Obj::Lock(p)) => drop(unsafe { Box::from_raw(p) }),
                    Some(o) => drop(o),
                    None => bail!("DRIVER: nothing to drop"),
                }
                Ok(json!({}))
            }
            "exit" => unsafe { _exit(v["code"].as_i64().unwrap_or(0) as i32) },
            "setenv" => {
                use std::os::unix::ffi::OsStringExt;
                if v["b64"].is_string() {
                    std::env::set_var(st(v, "k")?, std::ffi::OsString::from_vec(unb64(&v["b64"])?));
                } else if v["v"].is_null() {
                    std::env::remove_var(st(v, "k")?);
                } else {
                    std::env::set_var(st(v, "k")?, st(v, "v")?);
                }
                Ok(json!({}))
            }
            "chdir" => {
                std::env::set_current_dir(st(v, "path")?)?;
                Ok(json!({}))
            }
            // key-value files
            "kv.new" => {
                let s = KVFileStore::new(Path::new(st(v, "path")?))?;
                self.put(v, Obj::FileStore(Box::leak(Box::new(s))))
            }
            "kv.path" => Ok(json!({"path": crate::kvstore::PathKey::key(&key(v)?).to_string_lossy()})),
            "kv.lock" => {
                let s = *obj!(self, v, "store", FileStore);
                let l = s.lock(&key(v)?)?;
                self.put(v, Obj::Lock(Box::into_raw(Box::new(l))))
            }
            "kv.lock_if_exists" => {
                let s = *obj!(self, v, "store", FileStore);
                match s.lock_if_exists(&key(v)?) {
                    Some(l) => {
                        self.put(v, Obj::Lock(Box::into_raw(Box::new(l))))?;
                        Ok(json!({"some": true}))
                    }
                    None => Ok(json!({"some": false})),
                }
            }
            "kv.reader" => {
                let l = unsafe { &**obj!(self, v, "lock", Lock) };
                match l.reader() {
                    Some(r) => {
                        self.put(v, Obj::Reader(Box::new(r.detach_unlocked())))?;
                        Ok(json!({"some": true}))
                    }
                    None => Ok(json!({"some": false})),
                }
            }
            "kv.begin" => {
                let l: &'static KVFileLock = unsafe { &**obj!(self, v, "lock", Lock) };
                let w = l.begin()?;
                self.put(v, Obj::Writer(w))
            }
            "kv.write" => {
                let data = unb64(&v["data"])?;
                obj_mut!(self, v, "w", Writer).write_all(&data)?;
                Ok(json!({}))
            }
            "kv.wseek" => {
                let p = obj_mut!(self, v, "w", Writer).seek(SeekFrom::Start(num(v, "n")?))?;
                Ok(json!({ "pos": p }))
            }
            "kv.commit" => match self.objs.remove(st(v, "w")?) {
                Some(Obj::Writer(w)) => {
                    let r = w.commit()?;
                    self.put(v, Obj::Reader(Box::new(r.detach_unlocked())))
                }
                _ => bail!("DRIVER: no writer"),
            },
            "kv.remove" => match self.objs.remove(st(v, "lock")?) {
                Some(Obj::Lock(p)) => {
                    unsafe { Box::from_raw(p) }.remove()?;
                    Ok(json!({}))
                }
                _ => bail!("DRIVER: no lock"),
            },
            "kv.get" => {
                let s = *obj!(self, v, "store", FileStore);
                match s.get(&key(v)?) {
                    Some(r) => {
                        self.put(v, Obj::Reader(r))?;
                        Ok(json!({"some": true}))
                    }
                    None => Ok(json!({"some": false})),
                }
            }
            "kv.get_or_set" => {
                let s = *obj!(self, v, "store", FileStore);
                let k = key(v)?;
                let script = v["producer"].clone();
                let this = std::cell::RefCell::new(&mut *self);
                let r = s.get_or_set(&k, |w| {
                    if let Some(steps) = script.as_array() {
                        for step in steps {
                            match st(step, "op")? {
                                "w" => w.write_all(&unb64(&step["data"])?)?,
                                "fail" => bail!("PRODUCER FAILED"),
                                "exit" => unsafe { _exit(3) },
                                "sleep" => std::thread::sleep(std::time::Duration::from_millis(num(step, "ms")?)),
                                "touch" => {
                                    std::fs::OpenOptions::new().create(true).append(true).open(st(step, "path")?)?
                                        .write_all(st(step, "text")?.as_bytes())?;
                                }
                                _ => bail!("DRIVER: bad producer step"),
                            }
                        }
                        return Ok(());
                    }
                    let mut me = this.borrow_mut();
                    me.chan.send(&json!({"event": "producer"}));
                    loop {
                        let c = match me.chan.recv() {
                            Some(c) => c,
                            None => std::process::exit(0),
                        };
                        match st(&c, "op")? {
                            "w" => {
                                let res = w.write_all(&unb64(&c["data"])?);
                                me.chan.send(&json!({"ok": {"written": res.is_ok()}}));
                                res?;
                            }
                            "done" => return Ok(()),
                            "fail" => bail!("PRODUCER FAILED"),
                            "exit" => unsafe { _exit(3) },
                            _ => {
                                let r = me.run(&c);
                                me.chan.send(&r);
                            }
                        }
                    }
                })?;
                self.put(v, Obj::Reader(r))
            }
            "r.ops" => {
                let r = obj_mut!(self, v, "r", Reader);
                Ok(Value::Array(v["ops"].as_array().unwrap().iter().map(|o| reader_op(r, o)).collect()))
            }
            // scripted users of the stores, one thread each; what they do is announced in-band,
            // as removals of files that do not exist
            "kv.actors" => {
                let root = PathBuf::from(st(v, "root")?);
                let mut handles = Vec::new();
                for t in v["threads"].as_array().unwrap().clone() {
                    let root = root.clone();
                    handles.push(std::thread::spawn(move || actor(&root, &t).map_err(|e| format!("{e:#}"))));
                }
                let mut out = Vec::new();
                for h in handles {
                    out.push(match h.join() {
                        Ok(Ok(())) => json!("done"),
                        Ok(Err(e)) => bail!("DRIVER: actor: {e}"),
                        Err(p) => json!({ "panic": panic_text(p) }),
                    });
                }
                Ok(Value::Array(out))
            }
            // key-value directories
            "kd.new" => {
                let s = KVDirStore::new(Path::new(st(v, "path")?))?;
                self.put(v, Obj::DirStore(Box::leak(Box::new(s))))
            }
            "kd.lock" => {
                let s = *obj!(self, v, "store", DirStore);
                let l = s.lock(&key(v)?)?;
                let path = l.to_string_lossy().to_string();
                let exists = l.exists();
                self.put(v, Obj::DirLock(l))?;
                Ok(json!({"path": path, "exists": exists}))
            }
            "kd.get_or_set" => {
                let s = *obj!(self, v, "store", DirStore);
                let k = key(v)?;
                let script = v["producer"].clone();
                let this = std::cell::RefCell::new(&mut *self);
                let p = s.get_or_set(&k, |path| {
                    if let Some(steps) = script.as_array() {
                        for step in steps {
                            match st(step, "op")? {
                                "file" => std::fs::write(path.join(st(step, "name")?), &unb64(&step["data"])?)?,
                                "dir" => std::fs::create_dir_all(path.join(st(step, "name")?))?,
                                "fail" => bail!("PRODUCER FAILED"),
                                "exit" => unsafe { _exit(3) },
                                "sleep" => std::thread::sleep(std::time::Duration::from_millis(num(step, "ms")?)),
                                "touch" => {
                                    std::fs::OpenOptions::new().create(true).append(true).open(st(step, "path")?)?
                                        .write_all(st(step, "text")?.as_bytes())?;
                                }
                                _ => bail!("DRIVER: bad producer step"),
                            }
                        }
                        return Ok(());
                    }
                    let mut me = this.borrow_mut();
                    me.chan.send(&json!({"event": "producer", "path": path.to_string_lossy()}));
                    loop {
                        let c = match me.chan.recv() {
                            Some(c) => c,
                            None => std::process::exit(0),
                        };
                        match st(&c, "op")? {
                            "file" => {
                                let res = std::fs::write(path.join(st(&c, "name")?), &unb64(&c["data"])?);
                                me.chan.send(&json!({"ok": {"written": res.is_ok()}}));
                                res?;
                            }
                            "done" => return Ok(()),
                            "fail" => bail!("PRODUCER FAILED"),
                            "exit" => unsafe { _exit(3) },
                            _ => {
                                let r = me.run(&c);
                                me.chan.send(&r);
                            }
                        }
                    }
                })?;
                Ok(json!({"path": p.to_string_lossy()}))
            }
            // http
            "http.new" => {
                let h = Http::new(
                    KVFileStore::new(Path::new(st(v, "http")?))?,
                    KVFileStore::new(Path::new(st(v, "hashed")?))?,
                );
                self.put(v, Obj::Http(h))
            }
            "http.request" => {
                let h = obj!(self, v, "http", Http);
                let mut b = http::Request::builder().method(v["method"].as_str().unwrap_or("GET")).uri(st(v, "url")?);
                if let Some(hs) = v["headers"].as_array() {
                    for pair in hs {
                        b = b.header(pair[0].as_str().unwrap(), pair[1].as_str().unwrap());
                    }
                }
                let resp = h.request(b.body(())?, mode(v))?;
                let status = resp.status().as_u16();
                let url = resp.extensions().get::<Url>().map(|u| u.to_string());
                let headers = resp.headers().iter().map(|(k, val)| json!([k.as_str(), String::from_utf8_lossy(val.as_bytes())])).collect::<Vec<_>>();
                let mut body = resp.into_body();
                if v["hold"].as_bool() == Some(true) {
                    self.put(v, Obj::Resp(Box::new(body)))?;
                    return Ok(json!({"status": status, "url": url, "headers": headers}));
                }
                let mut data = Vec::new();
                let body_err = body.read_to_end(&mut data).err().map(|e| e.to_string());
                Ok(json!({"status": status, "url": url, "headers": headers, "body": b64(&data), "body_err": body_err}))
            }
            "http.body" => {
                let b = obj_mut!(self, v, "resp", Resp);
                let mut data = Vec::new();
                let body_err = b.read_to_end(&mut data).err().map(|e| e.to_string());
                Ok(json!({"body": b64(&data), "body_err": body_err}))
            }
            "http.get_hashed" => {
                let h = obj!(self, v, "http", Http);
                let hash: Option<ArtifactHash> = match v["hash"].as_str() {
                    Some(s) => Some(s.parse()?),
                    None => None,
                };
                let mut r = h.get_hashed(&Url::parse(st(v, "url")?)?, hash.as_ref(), mode(v))?;
                if v["as"].is_string() {
                    return self.put(v, Obj::Reader(r));
                }
                Ok(json!({"data": b64(&slurp(&mut r)?)}))
            }
            "http.lazy" => {
                let h = obj!(self, v, "http", Http);
                let url = Url::parse(st(v, "url")?)?;
                let ai = ArtifactInfo {
                    name: ArtifactName::Wheel("x-1-py3-none-any.whl".try_into().unwrap()),
                    url,
                    hash: match v["hash"].as_str() {
                        Some(s) => Some(s.parse()?),
                        None => None,
                    },
                    requires_python: None,
                    dist_info_metadata: Default::default(),
                    yanked: Default::default(),
                };
                let r = h.get_lazy(&ai)?;
                self.put(v, Obj::Reader(r))
            }
            "simple_api" => {
                let h = obj!(self, v, "http", Http);
                match fetch_simple_api(h, &Url::parse(st(v, "url")?)?)? {
                    None => Ok(json!({ "none": true })),
                    Some(pi) => Ok(json!({"version": pi.meta.version, "artifacts": pi.artifacts.iter().map(ai_json).collect::<Vec<_>>()})),
                }
            }
            // databases and environments
            "forest.new" => {
                let f = EnvForest::new(Path::new(st(v, "path")?))?;
                self.put(v, Obj::Forest(Box::leak(Box::new(f))))
            }
            "db.new" => {
                let forest = *obj!(self, v, "forest", Forest);
                let store = *obj!(self, v, "build_store", DirStore);
                let urls = v["index"].as_array().unwrap().iter().map(|u| Ok(Url::parse(u.as_str().unwrap())?)).collect::<Result<Vec<_>>>()?;
                let db = PackageDB::new(&urls, Path::new(st(v, "cache")?), forest, store)?;
                self.put(v, Obj::Db(Box::leak(Box::new(db))))
            }
            "db.available" => {
                let db = obj!(self, v, "db", Db);
                let n: PackageName = st(v, "name")?.try_into()?;
                let all = db.available_artifacts(&n)?;
                Ok(Value::Array(all.iter().map(|(ver, ais)| json!([ver.to_string(), ais.iter().map(ai_json).collect::<Vec<_>>()])).collect()))
            }
            "db.wheel_metadata" => {
                let db = *obj!(self, v, "db", Db);
                let n: PackageName = st(v, "name")?.try_into()?;
                let ver: Version = st(v, "version")?.try_into()?;
                let ais = db.artifacts_for_version(&n, &ver)?;
                let (ai, m) = db.get_metadata::<Wheel, _>(ais, None)?;
                Ok(json!({"from": ai.name.to_string(), "metadata": wheel_meta_json(&m)}))
            }
            "db.pybi_metadata" => {
                let db = *obj!(self, v, "db", Db);
                let n: PackageName = st(v, "name")?.try_into()?;
                let ver: Version = st(v, "version")?.try_into()?;
                let ais = db.artifacts_for_version(&n, &ver)?;
                let (ai, m) = db.get_metadata::<Pybi, _>(ais, None)?;
                Ok(json!({"from": ai.name.to_string(), "metadata": pybi_meta_json(&m)}))
            }
            "db.artifact" => {
                let ai = self.find_ai(v)?;
                let db = *obj!(self, v, "db", Db);
                match &ai.name {
                    ArtifactName::Wheel(_) => drop(db.get_artifact::<Wheel>(&ai)?),
                    ArtifactName::Pybi(_) => drop(db.get_artifact::<Pybi>(&ai)?),
                    ArtifactName::Sdist(_) => drop(db.get_artifact::<Sdist>(&ai)?),
                }
                Ok(json!({}))
            }
            "resolve" => {
                let db = *obj!(self, v, "db", Db);
                let brief: Brief = serde_json::from_str(&v["brief"].to_string()).wrap_err("DRIVER: brief")?;
                let like: Option<Blueprint> = match &v["like"] {
                    Value::Null => None,
                    j => Some(serde_json::from_value(j.clone()).wrap_err("DRIVER: like")?),
                };
                let b = brief.resolve(db, &platforms(v)?, like.as_ref(), &[])?;
                Ok(serde_json::to_value(&b)?)
            }
            "get_env" => {
                let db = *obj!(self, v, "db", Db);
                let forest = *obj!(self, v, "forest", Forest);
                let b: Blueprint = serde_json::from_value(v["blueprint"].clone()).wrap_err("DRIVER: blueprint")?;
                let e = forest.get_env(db, &b, &platforms(v)?, &[])?;
                let vars = match e.env_vars() {
                    Ok(vs) => vs.into_iter().map(|(k, x)| (k.to_string(), x.to_string_lossy().to_string())).collect::<HashMap<_, _>>(),
                    Err(_) => HashMap::new(),
                };
                let j = json!({
                    "core": e.platform_core_tag,
                    "wheel_tags": e.wheel_platform.tags().cloned().collect::<Vec<_>>(),
                    "python": e.python, "pythonw": e.pythonw, "bin_dirs": e.bin_dirs, "lib_dirs": e.lib_dirs,
                    "vars": vars});
                if v["as"].is_string() {
                    self.put(v, Obj::Env(e))?;
                }
                Ok(j)
            }
            "env_vars" => {
                let e = obj!(self, v, "env", Env);
                use std::os::unix::ffi::OsStrExt;
                Ok(json!(e.env_vars()?.into_iter().map(|(k, x)| (k.to_string(), b64(x.as_bytes()))).collect::<HashMap<_, _>>()))
            }
            other => bail!("DRIVER: unknown op {}", other),
        }
    }

    fn run(&mut self, v: &Value) -> Value {
        if v["op"] == "batch" {
            let items = v["items"].as_array().unwrap();
            return json!({"ok": items.iter().map(|i| self.run(i)).collect::<Vec<_>>()});
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match pure_op(v) {
            Some(r) => r,
            None => self.state_op(v),
        }));
        match res {
            Ok(Ok(v)) => json!({ "ok": v }),
            Ok(Err(e)) => err_value(&e),
            Err(p) => json!({"panic": panic_text(p)}),
        }
    }
}

pub fn main() -> Option<Result<()>> {
    let spec = std::env::var("POSY_VERIF_FDS").ok()?;
    std::env::remove_var("POSY_VERIF_FDS");
    let fds = spec.split(',').map(|s| s.parse::<i32>().unwrap()).collect::<Vec<_>>();
    for fd in &fds {
        // FD_CLOEXEC: children of the code under test must not hold our pipes open
        unsafe { fcntl(*fd, 2, 1) };
    }
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("POSY_VERIF_PANIC").is_some() {
            eprintln!("{info}");
        }
    }));
    let chan = unsafe {
        Chan {
            input: BufReader::new(std::fs::File::from_raw_fd(fds[0])),
            output: std::fs::File::from_raw_fd(fds[1]),
        }
    };
    let mut d = Driver { chan, objs: HashMap::new() };
    while let Some(v) = d.chan.recv() {
        let mut r = d.run(&v);
        if let Some(id) = v.get("id") {
            r["id"] = id.clone();
        }
        d.chan.send(&r);
    }
    // leave without running destructors of leaked state
    unsafe { _exit(0) }
}
