//! C26: where a registry's files come from: source strings and archives.
use harness::http::{Response, Server};
use harness::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use weaver_common::vdir::{VirtualDirectory, VirtualDirectoryPath};

pub const SPEC: Spec = Spec {
    id: "C26",
    level: "model_checking",
    rule: "Exhaustive: (S) source strings: every source x refspec x sub folder of pools of 30, 5 and 4; (A) archives: all ordered triples (thorough: quadruples) of 25 entries (files, one with a long name, directories, links, names with .. or absolute) as .tar.gz and .zip x 6 sub folders; (H) the same archives from an HTTP server. \
           Oracle: a string is classified by the documented rules and printed as it was; an archive of plain entries unpacks to exactly its files below the sub folder without the top-level directory; no archive changes anything outside the temporary directory, which is gone once the directory is dropped. Non-trivial: two entries or a sub folder.",
    assumptions: &["archives with a file outside of any top-level directory are not judged", "a refspec on an archive is not judged"],
    run,
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    File,
    Dir,
    Sym(&'static str),
    Hard(&'static str),
}
use Kind::*;

/// `%O` is a directory outside of the target, `%E` a name unique to the case.
const ENTRIES: [(&str, Kind); 25] = [
    ("r/", Dir),
    ("r/a.yaml", File),
    ("r/m/", Dir),
    ("r/m/a.yaml", File),
    ("r/m/s/b.yaml", File),
    ("r/mm/a.yaml", File),
    ("r/x/m/c.yaml", File),
    ("r/x/m/s/d.yaml", File),
    ("q/m/e.yaml", File),
    ("r/./m/f.yaml", File),
    ("r/m/s/g.yaml", File),
    ("r/../%E", File),
    ("r/m/../../%E", File),
    ("r/m/s/../../../../%E", File),
    ("r/../../%E", File),
    ("r/../../../%E", File),
    ("../../%E", File),
    ("r/m/../../%E/", Dir),
    ("%O/%E", File),
    ("r/m/link", Sym("%O")),
    ("r/m/link/%E", File),
    ("r/m/up", Sym("../..")),
    ("r/m/up/%E", File),
    ("r/m/s/b.yaml", Hard("%O/kept")),
    ("r/m/0123456789012345678901234567890123456789/0123456789012345678901234567890123456789/0123456789/long.yaml", File),
];
const SUBS: [&str; 6] = ["", "m", "m/s", "mm", "x/m", "nope"];

fn plain(e: usize) -> bool {
    !matches!(ENTRIES[e].1, Sym(_) | Hard(_)) && !ENTRIES[e].0.contains("..") && !ENTRIES[e].0.contains('%')
}

fn content(i: usize) -> String {
    format!("# {i}\n")
}

fn build(tar: bool, entries: &[usize], sub: impl Fn(&str) -> String) -> Vec<u8> {
    if tar {
        let mut out = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
        for (i, e) in entries.iter().enumerate() {
            let (name, kind) = ENTRIES[*e];
            let mut h = tar::Header::new_gnu();
            let mut name = sub(name);
            if name.len() > 100 {
                // a GNU long name: an entry of its own before
                let mut l = tar::Header::new_gnu();
                l.as_old_mut().name[..13].copy_from_slice(b"././@LongLink");
                l.set_entry_type(tar::EntryType::GNULongName);
                l.set_size(name.len() as u64 + 1);
                l.set_cksum();
                let _ = out.write_all(l.as_bytes());
                let mut b = name.clone().into_bytes();
                b.resize((b.len() + 1).div_ceil(512) * 512, 0);
                let _ = out.write_all(&b);
                name.truncate(100);
            }
            let body = if kind == File { content(i) } else { String::new() };
            // written as bytes: the library refuses such names
            h.as_old_mut().name[..name.len()].copy_from_slice(name.as_bytes());
            h.set_mode(0o755);
            h.set_size(body.len() as u64);
            h.set_entry_type(match kind {
                File => tar::EntryType::Regular,
                Dir => tar::EntryType::Directory,
                Sym(_) => tar::EntryType::Symlink,
                Hard(_) => tar::EntryType::Link,
            });
            if let Sym(t) | Hard(t) = kind {
                let t = sub(t);
                h.as_old_mut().linkname[..t.len()].copy_from_slice(t.as_bytes());
            }
            h.set_cksum();
            let _ = out.write_all(h.as_bytes());
            let mut b = body.into_bytes();
            b.resize(b.len().div_ceil(512) * 512, 0);
            let _ = out.write_all(&b);
        }
        let _ = out.write_all(&[0; 1024]);
        out.finish().expect("gzip")
    } else {
        let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
        let opts = zip::write::SimpleFileOptions::default().compression_method(zip::CompressionMethod::Stored);
        for (i, e) in entries.iter().enumerate() {
            let (name, kind) = ENTRIES[*e];
            let name = sub(name);
            match kind {
                File => {
                    z.start_file(name, opts).expect("zip");
                    let _ = z.write_all(content(i).as_bytes());
                }
                Dir => z.add_directory(name, opts).expect("zip"),
                Sym(t) | Hard(t) => z.add_symlink(name, sub(t), opts).expect("zip"),
            }
        }
        z.finish().expect("zip").into_inner()
    }
}

/// The files an archive of plain entries gives.
fn expected(entries: &[usize], sub: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for (i, e) in entries.iter().enumerate() {
        let (name, kind) = ENTRIES[*e];
        let name = name.replace("/./", "/");
        let Some((_, rest)) = name.split_once('/') else { continue };
        let rest = if sub.is_empty() { Some(rest) } else { rest.strip_prefix(&format!("{sub}/")) };
        if let (File, Some(rest)) = (kind, rest) {
            let _ = m.insert(rest.to_owned(), content(i));
        }
    }
    m
}

pub fn files_below(d: &Path) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(p) = todo.pop() {
        for e in std::fs::read_dir(&p).into_iter().flatten().flatten() {
            let t = e.file_type().expect("type");
            if t.is_dir() {
                todo.push(e.path());
            } else {
                let n = e.path().strip_prefix(d).expect("below").display().to_string();
                let _ = out.insert(n, if t.is_symlink() { "link".into() } else { std::fs::read_to_string(e.path()).unwrap_or_default() });
            }
        }
    }
    out
}

struct Case<'a> {
    name: &'a str,
    tar: bool,
    entries: &'a [usize],
    sub: &'a str,
}

fn unpack(chk: &Check, home: &Path, c: &Case<'_>, serve: Option<(&Mutex<BTreeMap<String, Vec<u8>>>, u16)>) -> bool {
    let d = chk.fresh("w");
    let outside = d.join("out");
    std::fs::create_dir_all(&outside).expect("mkdir");
    std::fs::write(outside.join("kept"), "kept").expect("write");
    let unique = format!("evil-{}", c.name);
    let bytes = build(c.tar, c.entries, |s| s.replace("%O", &outside.display().to_string()).replace("%E", &unique));
    let ext = if c.tar { "tar.gz" } else { "zip" };
    let suffix = if c.sub.is_empty() { String::new() } else { format!("[{}]", c.sub) };
    let file = format!("{}.{ext}", c.name);
    let source = match serve {
        None => {
            let p = d.join(&file);
            std::fs::write(&p, &bytes).expect("write");
            format!("{}{suffix}", p.display())
        }
        Some((served, port)) => {
            let _ = served.lock().expect("lock").insert(format!("/{file}"), bytes);
            format!("http://127.0.0.1:{port}/{file}{suffix}")
        }
    };
    let input = || json!({"entries": c.entries.iter().map(|e| format!("{:?}", ENTRIES[*e])).collect::<Vec<_>>(), "source": source});
    let path: VirtualDirectoryPath = match source.parse() {
        Ok(p) => p,
        Err(e) => {
            chk.violation(c.name, c.name, input(), "a source", &format!("{e:?}"));
            return false;
        }
    };
    let mut at = PathBuf::new();
    let got = guarded(|| {
        VirtualDirectory::try_new(&path).map(|v| {
            at = v.path().to_path_buf();
            let mut f = files_below(v.path());
            if serve.is_some() {
                // the download itself stays next to what it holds
                let _ = f.remove(&file);
            }
            (v.vdir_path_str().to_owned(), f)
        })
    });
    let got = match got {
        Ok(r) => r,
        Err(p) => {
            chk.violation(c.name, c.name, input(), "no panic", &p);
            return false;
        }
    };
    // nothing outside: neither next to the temporary directory nor further up, nor where a link or name points
    let mut escaped: Vec<String> = files_below(&outside).into_iter().filter(|(n, t)| n != "kept" || t != "kept").map(|(n, _)| format!("outside/{n}")).collect();
    let mut up = Some(home.join(".weaver/vdir_cache"));
    while let Some(u) = up {
        if u.join(&unique).symlink_metadata().is_ok() {
            escaped.push(u.join(&unique).display().to_string());
            let _ = std::fs::remove_dir_all(u.join(&unique));
            let _ = std::fs::remove_file(u.join(&unique));
        }
        if u == chk.scratch_root() {
            break;
        }
        up = u.parent().map(Path::to_path_buf);
    }
    let all_plain = c.entries.iter().all(|e| plain(*e));
    chk.add_transitions(c.entries.len() as u64);
    chk.add_states(1);
    chk.eval(&(c.name, c.sub), c.entries.len() > 1 || !c.sub.is_empty());
    chk.outcome(match (&got, all_plain) {
        (_, true) => "plain",
        (Ok(_), _) => "unusual, unpacked",
        (Err(_), _) => "unusual, refused",
    });
    if !escaped.is_empty() {
        chk.violation(c.name, c.name, input(), "nothing outside of the temporary directory", &format!("{escaped:?}"));
        return false;
    }
    if !at.as_os_str().is_empty() && at.exists() {
        chk.violation(c.name, c.name, input(), "no temporary directory left", &at.display().to_string());
        return false;
    }
    if all_plain {
        let got = match got {
            Ok((s, f)) => format!("{s} {f:?}"),
            Err(e) => format!("{e:?}"),
        };
        return chk.expect_eq(c.name, input, &format!("{source} {:?}", expected(c.entries, c.sub)), &got);
    }
    true
}

fn sequences(thorough: bool) -> Vec<Vec<usize>> {
    let n = ENTRIES.len();
    let mut l: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    l.extend(product(&[n, n]).map(|x| x.to_vec()));
    l.extend(product(&[n, n, n]).map(|x| x.to_vec()));
    if thorough {
        l.extend(product(&[n, n, n, n]).map(|x| x.to_vec()).filter(|x| (1..4).all(|i| !x[..i].contains(&x[i]))));
    }
    l
}

/// The libraries that build the archives accept a name once.
fn names_once(tar: bool, entries: &[usize]) -> bool {
    tar || entries.iter().enumerate().all(|(i, e)| entries[..i].iter().all(|f| ENTRIES[*f].0 != ENTRIES[*e].0))
}

fn archives(chk: &Arc<Check>, home: &Path) {
    let l = sequences(chk.thorough());
    chk.par(l.into_iter(), |s| format!("A-{}", s.iter().map(usize::to_string).collect::<Vec<_>>().join("-")), |chk, name, s| {
        for tar in [true, false] {
            if !names_once(tar, &s) {
                continue;
            }
            for sub in SUBS {
                if !unpack(chk, home, &Case { name, tar, entries: &s, sub }, None) {
                    return;
                }
            }
        }
    });
}

fn remote(chk: &Arc<Check>, home: &Path) {
    let served: Arc<Mutex<BTreeMap<String, Vec<u8>>>> = Arc::default();
    let s2 = served.clone();
    let server = Server::start(move |r| match s2.lock().expect("lock").get(&r.path) {
        Some(b) => Response::ok(b.clone()),
        None => Response::not_found(),
    });
    let port = server.port;
    let l: Vec<Vec<usize>> = sequences(false).into_iter().filter(|s| s.len() < 3).step_by(if chk.thorough() { 1 } else { 7 }).collect();
    chk.par(l.into_iter(), |s| format!("H-{}", s.iter().map(usize::to_string).collect::<Vec<_>>().join("-")), |chk, name, s| {
        for (i, sub) in SUBS.iter().enumerate() {
            let tar = (s[0] + i) % 2 == 0;
            if names_once(tar, &s) && !unpack(chk, home, &Case { name, tar, entries: &s, sub }, Some((&served, port))) {
                return;
            }
        }
    });
}

const SOURCES: [(&str, char); 30] = [
    ("https://github.com/user/repo.git", 'g'),
    ("http://example.com/repo.git", 'g'),
    ("https://user@example.com/a/repo.git", 'g'),
    ("https://user:pw@example.com:8080/repo.git", 'g'),
    ("https://github.com/user/repo", 'f'),
    ("https://example.com/registry/manifest.yaml", 'f'),
    ("https://user:pw@example.com/manifest.yaml", 'f'),
    ("https://github.com/o/r/releases/download/v1.0.0/manifest.yaml", 'f'),
    ("https://example.com/a.git/manifest.yaml", 'f'),
    ("https://example.com/a.zip/manifest.yaml", 'f'),
    ("https://example.com/a.zip", 'a'),
    ("https://user@example.com/a.tar.gz", 'a'),
    ("http://127.0.0.1:80/x/a.tar.gz", 'a'),
    ("http://example.com/x/a.git.zip", 'a'),
    ("https://example.com/a.tgz", 'f'),
    ("/abs/dir", 'l'),
    ("rel/dir", 'l'),
    ("./dir", 'l'),
    ("..", 'l'),
    ("/", 'l'),
    ("dir with space", 'l'),
    ("./node_modules/@acme/registry", 'l'),
    ("/home/me@work/registry", 'l'),
    ("repo.git", 'l'),
    ("https", 'l'),
    ("a.zip", 'z'),
    ("/abs/x.tar.gz", 'z'),
    ("../schemas@1.2.zip", 'z'),
    ("/home/me@work/x.tar.gz", 'z'),
    ("a.zip/dir", 'l'),
];
const REFS: [&str; 5] = ["", "v1.0.0", "main", "feature/x", "9adff435c76ea3b8cba89babefc832d3dd3c1ab9"];
const FOLDERS: [&str; 4] = ["", "m", "model/http", "a b"];

fn describe(p: &VirtualDirectoryPath) -> String {
    use VirtualDirectoryPath::*;
    match p {
        LocalFolder { path } => format!("folder {path}"),
        LocalArchive { path, sub_folder } => format!("archive {path} {sub_folder:?}"),
        RemoteArchive { url, sub_folder } => format!("remote archive {url} {sub_folder:?}"),
        GitRepo { url, refspec, sub_folder } => format!("git {url} {refspec:?} {sub_folder:?}"),
        RemoteFile { url } => format!("file {url}"),
    }
}

fn sources(chk: &Arc<Check>) {
    chk.par(product(&[SOURCES.len(), REFS.len(), FOLDERS.len()]), |x| format!("S-{}-{}-{}", x[0], x[1], x[2]), |chk, name, x| {
        let ((src, kind), r, f) = (SOURCES[x[0]], REFS[x[1]], FOLDERS[x[2]]);
        let some = |s: &str| if s.is_empty() { None } else { Some(s.to_owned()) };
        let mut s = src.to_owned();
        if !r.is_empty() {
            s += &format!("@{r}");
        }
        if !f.is_empty() {
            s += &format!("[{f}]");
        }
        let want = match kind {
            'a' | 'z' if !r.is_empty() => return,
            'a' => format!("remote archive {src} {:?}", some(f)),
            'z' => format!("archive {src} {:?}", some(f)),
            'l' => format!("folder {s}"),
            'f' if r.is_empty() && f.is_empty() => format!("file {src}"),
            _ => format!("git {src} {:?} {:?}", some(r), some(f)),
        };
        chk.eval(name, x[1] + x[2] > 0);
        chk.outcome(&format!("source {kind}"));
        let got = guarded(|| {
            let p: VirtualDirectoryPath = s.parse().map_err(|e| format!("{e:?}"))?;
            let q: VirtualDirectoryPath = serde_json::from_value(json!(s)).map_err(|e| e.to_string())?;
            let mapped = |p: VirtualDirectoryPath| describe(&p.map_sub_folder(|x| if x.is_empty() { "new".into() } else { format!("{x}/new") }));
            Ok::<_, String>(format!("{} | {} | {} | {} | {}", describe(&p), p, describe(&q), serde_json::to_value(&q).unwrap_or_default(), mapped(p.clone())))
        });
        let sub = if f.is_empty() { "new".to_owned() } else { format!("{f}/new") };
        let mapped = match kind {
            'l' => format!("folder {s}/new"),
            'f' if r.is_empty() && f.is_empty() => format!("file {src}/new"),
            'a' => format!("remote archive {src} {:?}", Some(sub)),
            'z' => format!("archive {src} {:?}", Some(sub)),
            _ => format!("git {src} {:?} {:?}", some(r), Some(sub)),
        };
        let want = format!("{want} | {s} | {want} | {} | {mapped}", json!(s));
        let got = match got {
            Ok(Ok(g)) => g,
            Ok(Err(e)) | Err(e) => e,
        };
        let _ = chk.expect_eq(name, || json!(s), &want, &got);
    });
}

fn run(chk: &Arc<Check>) {
    let home = chk.fresh("a/b/home");
    std::env::set_var("HOME", &home);
    sources(chk);
    archives(chk, &home);
    remote(chk, &home);
}
