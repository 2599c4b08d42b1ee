//! Registry fixtures on tmpfs and resolution through the public resolver API.

use serde_json::{json, Value};
use std::num::NonZeroUsize;
use std::path::Path;
use weaver_common::result::WResult;
use weaver_common::vdir::VirtualDirectoryPath;
use weaver_resolved_schema::ResolvedTelemetrySchema as V1;
use weaver_resolver::{DefaultSchemaVisitor, WeaverResolvedSchema, WeaverResolver, WeaverResolverConfig};
use weaver_semconv::registry_repo::RegistryRepo;

pub type Files = Vec<(String, String)>;

/// Writes `files` in exactly this creation order (tmpfs enumerates in (reverse) creation order).
pub fn write_files(dir: &Path, files: &[(String, String)]) {
    for (n, c) in files {
        let p = dir.join(n);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).expect("mkdir");
        }
        std::fs::write(p, c).expect("write");
    }
}

/// Outcome of a resolution.
pub struct Res {
    pub schema: Option<WeaverResolvedSchema>,
    /// Fatal errors (flattened), normalised.
    pub fatal: Vec<String>,
    /// Non-fatal diagnostics, normalised, sorted.
    pub nfes: Vec<String>,
}

impl Res {
    pub fn v1(&self) -> Option<&V1> {
        self.schema.as_ref().and_then(|s| s.as_v1())
    }
    pub fn class(&self) -> String {
        if !self.fatal.is_empty() {
            format!("fatal:{}", self.fatal.iter().map(|e| variant(e)).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>().join("+"))
        } else if !self.nfes.is_empty() {
            format!("nfe:{}", self.nfes.iter().map(|e| variant(e)).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>().join("+"))
        } else {
            "ok".into()
        }
    }
}

/// Variant part of a normalised error.
pub fn variant(e: &str) -> String {
    e.split(['{', '(', ' ']).next().unwrap_or("").to_owned()
}

fn strip_volatile(v: &mut Value, root: &str) {
    match v {
        Value::Object(m) => {
            for (_, x) in m.iter_mut() {
                strip_volatile(x, root);
            }
        }
        Value::Array(a) => {
            for x in a.iter_mut() {
                strip_volatile(x, root);
            }
            // Lists in diagnostics (group ids, provenances) carry no order meaning.
            a.sort_by_key(|x| x.to_string());
        }
        Value::String(s) => {
            if !root.is_empty() && s.contains(root) {
                *s = s.replace(root, "$ROOT");
            }
        }
        _ => {}
    }
}

pub fn norm_error<E: serde::Serialize + std::fmt::Display>(e: &E, root: &str) -> Vec<String> {
    let mut v = serde_json::to_value(e).unwrap_or_else(|_| json!(e.to_string()));
    // Flatten compound errors of any crate.
    fn flat(v: Value, out: &mut Vec<Value>) {
        if let Value::Object(m) = &v {
            if m.len() == 1 {
                let (k, inner) = m.iter().next().expect("one");
                if k == "CompoundError" {
                    if let Some(a) = inner.as_array() {
                        for x in a {
                            flat(x.clone(), out);
                        }
                        return;
                    }
                }
                if k == "FailToResolveDefinition" {
                    flat(inner.clone(), out);
                    return;
                }
            }
        }
        out.push(v);
    }
    strip_volatile(&mut v, root);
    let mut out = vec![];
    flat(v, &mut out);
    out.into_iter()
        .map(|v| match v {
            Value::Object(m) if m.len() == 1 => {
                let (k, inner) = m.into_iter().next().expect("one");
                format!("{k}{inner}")
            }
            Value::String(s) => s,
            v => v.to_string(),
        })
        .collect()
}

pub fn config() -> WeaverResolverConfig {
    WeaverResolverConfig::default()
}

pub fn config_cap(cap: usize) -> WeaverResolverConfig {
    WeaverResolverConfig {
        cache_capacity: NonZeroUsize::new(cap).expect("cap"),
        ..Default::default()
    }
}

/// Loads and resolves the registry at `dir` exactly as the CLI does.
pub fn resolve_dir(dir: &Path) -> Res {
    let mut r = WeaverResolver::new(config());
    resolve_with(&mut r, dir, dir)
}

/// As [`resolve_dir`], with a given resolver; `root` is replaced in diagnostics by `$ROOT`.
pub fn resolve_with(r: &mut WeaverResolver, dir: &Path, root: &Path) -> Res {
    let root = root.display().to_string();
    let path = VirtualDirectoryPath::LocalFolder { path: dir.display().to_string() };
    let mut nfes = vec![];
    let repo = match RegistryRepo::try_new(None, &path, &mut nfes) {
        Ok(r) => r,
        Err(e) => {
            return Res { schema: None, fatal: norm_error(&e, &root), nfes: vec![] };
        }
    };
    let mut notes: Vec<String> = nfes.iter().flat_map(|e| norm_error(e, &root)).collect();
    let res = r.load_and_resolve_schema(repo, DefaultSchemaVisitor);
    to_res(res, &root, &mut notes)
}

pub fn to_res(res: WResult<WeaverResolvedSchema, weaver_resolver::Error>, root: &str, notes: &mut Vec<String>) -> Res {
    match res {
        WResult::Ok(s) => {
            notes.sort();
            Res { schema: Some(s), fatal: vec![], nfes: std::mem::take(notes) }
        }
        WResult::OkWithNFEs(s, n) => {
            notes.extend(n.iter().flat_map(|e| norm_error(e, root)));
            notes.sort();
            Res { schema: Some(s), fatal: vec![], nfes: std::mem::take(notes) }
        }
        WResult::FatalErr(e) => {
            let mut f = norm_error(&e, root);
            f.sort();
            notes.sort();
            Res { schema: None, fatal: f, nfes: std::mem::take(notes) }
        }
    }
}

/// Warnings about the file format itself are not interesting to any property.
pub fn is_format_warning(e: &str) -> bool {
    matches!(variant(e).as_str(), "UnstableFileFormat" | "UnstableFileVersion" | "DeprecatedSyntaxInRegistryManifest" | "LegacyRegistryManifest")
}

pub fn diag(res: &Res) -> Vec<String> {
    res.nfes.iter().filter(|e| !is_format_warning(e)).cloned().collect()
}

/// Groups with attributes expanded from the catalog, lineage dropped; keyed order preserved.
pub fn expand_v1(s: &V1) -> Result<Value, String> {
    let cat: Vec<Value> = s.catalog.attributes().map(|a| serde_json::to_value(a).expect("json")).collect();
    let mut groups = vec![];
    for g in &s.registry.groups {
        let mut v = serde_json::to_value(g).map_err(|e| e.to_string())?;
        let mut attrs = vec![];
        for r in &g.attributes {
            let Some(a) = cat.get(r.0 as usize) else {
                return Err(format!("group {} holds dangling attribute reference {}", g.id, r.0));
            };
            attrs.push(a.clone());
        }
        attrs.sort_by_key(|a| a["name"].as_str().unwrap_or("").to_owned());
        v["attributes"] = Value::Array(attrs);
        // carried through v1 but not serialised by it
        if let Some(r) = &g.requirement_level {
            v["requirement_level"] = json!(r);
        }
        if let Some(n) = &g.span_name {
            v["span_name"] = json!(n);
        }
        if let Some(m) = v.as_object_mut() {
            let _ = m.remove("lineage");
        }
        groups.push(v);
    }
    Ok(Value::Array(groups))
}

/// The complete resolved schema as a JSON value (catalog order and group order preserved).
pub fn schema_value(s: &V1) -> Value {
    let mut roots: Vec<Value> = vec![];
    let mut names: std::collections::BTreeSet<String> = Default::default();
    for a in s.catalog.attributes() {
        let _ = names.insert(a.name.clone());
    }
    for n in names {
        if let Some((a, src)) = s.catalog.root_attribute(&n) {
            roots.push(json!({"name": n, "attribute": a, "source": src}));
        }
    }
    json!({
        "file_format": s.file_format,
        "schema_url": s.schema_url,
        "registry_id": s.registry_id,
        "registry": s.registry,
        "origins": s.registry.entity_association_origins.iter().map(|(k, m)| (k.clone(), m.iter().map(|(a, b)| (a.clone(), b.as_str().to_owned())).collect::<std::collections::BTreeMap<_, _>>())).collect::<std::collections::BTreeMap<_, _>>(),
        "catalog": s.catalog.attributes().collect::<Vec<_>>(),
        "roots": roots,
        "dependencies": s.dependencies.iter().map(|u| u.as_str().to_owned()).collect::<Vec<_>>(),
    })
}

/// Packages the registry at `src` into `out` as `weaver registry package` does: the resolved v2
/// schema plus a publication manifest.
pub fn publish(src: &Path, out: &Path) -> Result<(), String> {
    let r = resolve_dir(src);
    let Some(schema) = r.schema else { return Err(format!("{:?}", r.fatal)) };
    let v1 = schema.into_v1().map_err(|e| e.to_string())?;
    let manifest = match &v1.registry_manifest {
        Some(weaver_semconv::manifest::RegistryManifest::Definition(m)) => m.clone(),
        _ => return Err("no definition manifest".into()),
    };
    let v2: weaver_resolved_schema::v2::ResolvedTelemetrySchema = v1.try_into().map_err(|e: weaver_resolved_schema::error::Error| e.to_string())?;
    let p = weaver_semconv::manifest::PublicationRegistryManifest::try_from_registry_manifest(&manifest, "resolved.yaml".to_owned())
        .map_err(|e| e.to_string())?;
    std::fs::create_dir_all(out).map_err(|e| e.to_string())?;
    std::fs::write(out.join("resolved.yaml"), serde_yaml::to_string(&v2).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    std::fs::write(out.join("manifest.yaml"), serde_yaml::to_string(&p).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    Ok(())
}

/// A definition manifest (JSON is YAML).
pub fn manifest_file(schema_url: &str, deps: &[(String, String)]) -> (String, String) {
    let deps: Vec<Value> = deps.iter().map(|(u, p)| json!({"schema_url": u, "registry_path": p})).collect();
    let mut m = json!({"schema_url": schema_url});
    if !deps.is_empty() {
        m["dependencies"] = json!(deps);
    }
    ("manifest.yaml".into(), m.to_string())
}

/// Runs the command line tool in `home`: (exit code, stdout, stderr).
pub fn weaver(args: &[&str], home: &Path) -> (i32, String, String) {
    let bin = std::env::var("WEAVER_BIN").expect("WEAVER_BIN");
    let o = std::process::Command::new(bin).args(args).env("HOME", home).env("NO_COLOR", "1").current_dir(home).output().expect("run weaver");
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
}
