//! Extension ids, manifests, lockfiles and catalogue lookups.
use extension::*;
use extension_catalog::{Extension, ExtensionCatalog, ExtensionId};
use semver::{Version, VersionReq};
use vcommon::{Case, Check, Rng, Viol, ensure, guard, viol};

fn version(rng: &mut Rng) -> Version {
    let mut v = Version::new(rng.below(3) as u64, rng.below(4) as u64, rng.below(4) as u64);
    if rng.pct(25) {
        v.pre = semver::Prerelease::new(["alpha", "beta.1", "rc-2", "0.3.7", "x-y-z.4"][rng.below(5)]).unwrap();
    }
    if rng.pct(10) {
        v.build = semver::BuildMetadata::new(["build1", "a-b.2"][rng.below(2)]).unwrap();
    }
    v
}

fn name(rng: &mut Rng) -> String {
    ["rest", "my-ext", "a", "nats-v2", "x-1", "auth_jwt", "hooks"][rng.below(7)].into()
}

fn ids(case: &mut Case) -> Result<(), Viol> {
    let id = Id { name: name(&mut case.rng), version: version(&mut case.rng) };
    case.input(format!("{id:?}"));
    let text = id.to_string();
    ensure!(text == format!("{}-{}", id.name, id.version), "id-display", "{id:?} displays {text}");
    match guard("id-parse", || text.parse::<Id>())? {
        Ok(back) => ensure!(back == id, "id-round-trip", "{text} parses to {back:?}, expected {id:?}"),
        Err(e) => return viol("id-round-trip", format!("{text} does not parse: {e}")),
    }
    let json = serde_json::to_string(&id).unwrap();
    let back: Id = serde_json::from_str(&json).unwrap();
    ensure!(back == id, "id-serde", "{json} gives {back:?}");
    // arbitrary text: an error or an id that displays back, never a panic
    let mut t = text.clone();
    for _ in 0..case.rng.range(1, 3) {
        match case.rng.below(3) {
            0 if !t.is_empty() => {
                let i = case.rng.below(t.len());
                t.remove(i);
            }
            1 => t.truncate(case.rng.below(t.len() + 1)),
            _ => {
                let i = case.rng.below(t.len() + 1);
                t.insert(i, ['-', '.', '1', 'a', '+'][case.rng.below(5)]);
            }
        }
    }
    case.input(format!("{t:?}"));
    if let Ok(x) = guard("id-parse-arbitrary", || t.parse::<Id>())? {
        ensure!(x.to_string() == t, "id-arbitrary", "{t:?} parses to {x:?}");
        case.count("arbitrary ids accepted", 1);
    }
    case.count("ids", 1);
    case.nontrivial(&text);
    Ok(())
}

fn strings(rng: &mut Rng) -> Option<Vec<String>> {
    rng.bool().then(|| (0..rng.below(3)).map(|i| format!("directive{i}")).collect())
}
fn filter(rng: &mut Rng) -> Option<EventFilter> {
    match rng.below(3) {
        0 => None,
        1 => Some(EventFilter::All),
        _ => Some(EventFilter::Types(rng.subset(&[EventType::Operation, EventType::SubgraphRequest, EventType::HttpRequest, EventType::Extension], 50))),
    }
}
fn manifest(rng: &mut Rng) -> Manifest {
    let ty = match rng.below(7) {
        0 => Type::FieldResolver(FieldResolverType { resolver_directives: strings(rng) }),
        1 => Type::SelectionSetResolver(Empty {}),
        2 => Type::Resolver(ResolverType { directives: strings(rng) }),
        3 => Type::Authentication(Empty {}),
        4 => Type::Authorization(AuthorizationType { directives: strings(rng), group_by: rng.bool().then(|| vec![AuthorizationGroupBy::Subgraph]) }),
        5 => Type::Hooks(HooksType { event_filter: filter(rng) }),
        _ => Type::Contracts(ContractType { directives: strings(rng) }),
    };
    let opt = |rng: &mut Rng, s: &str| rng.bool().then(|| format!("{s} \"quoted\" ü {}", rng.below(100)));
    let url = |rng: &mut Rng| rng.bool().then(|| format!("https://example.com/{}", rng.below(9)).parse().unwrap());
    Manifest {
        id: Id { name: name(rng), version: version(rng) },
        r#type: ty,
        sdk_version: version(rng),
        minimum_gateway_version: version(rng),
        description: format!("description {}", rng.below(1000)),
        associated_link_urls: (0..rng.below(3)).map(|_| format!("https://specs.example/{}", rng.below(6))).collect(),
        sdl: opt(rng, "directive @x on OBJECT"),
        readme: opt(rng, "# readme\n"),
        homepage_url: url(rng),
        repository_url: url(rng),
        license: opt(rng, "MIT"),
        permissions: rng.subset(
            &[ExtensionPermission::Network, ExtensionPermission::Stdout, ExtensionPermission::Stderr, ExtensionPermission::EnvironmentVariables],
            40,
        ),
        legacy_event_filter: filter(rng),
    }
}

fn manifests(case: &mut Case) -> Result<(), Viol> {
    let m = manifest(&mut case.rng);
    let json = serde_json::to_value(m.clone().into_versioned()).unwrap();
    case.input(json.to_string());
    ensure!(json["manifest"] == "v1", "manifest-tag", "{json}");
    let text = json.to_string();
    let back = match guard("manifest", || serde_json::from_str::<VersionedManifest>(&text))? {
        Ok(b) => b.into_latest(),
        Err(e) => return viol("manifest-parse", format!("{e}: {text}")),
    };
    ensure!(back == m, "manifest-round-trip", "{back:?} expected {m:?}");
    // the files of earlier versions: `kind`, `Authenticator`, `authorization_directives`
    let mut old = json.clone();
    let o = old.as_object_mut().unwrap();
    let mut ty = o.remove("type").unwrap();
    if let Some(x) = ty.as_object_mut() {
        if let Some(v) = x.remove("Authentication") {
            x.insert("Authenticator".into(), v);
        }
        if let Some(a) = x.get_mut("Authorization").and_then(|a| a.as_object_mut()) {
            if let Some(d) = a.remove("directives") {
                a.insert("authorization_directives".into(), d);
            }
        }
    }
    o.insert("kind".into(), ty);
    let text = old.to_string();
    match serde_json::from_str::<VersionedManifest>(&text) {
        Ok(b) => ensure!(b.into_latest() == m, "manifest-legacy", "{text}"),
        Err(e) => return viol("manifest-legacy", format!("{e}: {text}")),
    }
    // the queries on the manifest
    use ExtensionPermission::*;
    let has = |p| m.permissions.contains(&p);
    ensure!(
        m.network_enabled() == has(Network)
            && m.stdout_enabled() == has(Stdout)
            && m.stderr_enabled() == has(Stderr)
            && m.environment_variables_enabled() == has(EnvironmentVariables),
        "permissions",
        "{:?}: network {} stdout {} stderr {} env {}",
        m.permissions,
        m.network_enabled(),
        m.stdout_enabled(),
        m.stderr_enabled(),
        m.environment_variables_enabled()
    );
    ensure!(m.name() == m.id.name && *m.version() == m.id.version, "accessors", "{m:?}");
    ensure!(m.is_hooks() == matches!(m.r#type, Type::Hooks(_)), "accessors", "hooks {m:?}");
    ensure!(m.is_authentication() == matches!(m.r#type, Type::Authentication(_)), "accessors", "authentication {m:?}");
    // lockfile
    let lock = lockfile::VersionedLockfile::V1(lockfile::Lockfile {
        extensions: (0..case.rng.below(4)).map(|_| lockfile::Extension { name: name(&mut case.rng), version: version(&mut case.rng) }).collect(),
    });
    let t = serde_json::to_string(&lock).unwrap();
    let lockfile::VersionedLockfile::V1(b) = serde_json::from_str(&t).unwrap();
    let lockfile::VersionedLockfile::V1(a) = lock;
    ensure!(
        a.extensions.len() == b.extensions.len() && a.extensions.iter().zip(&b.extensions).all(|(x, y)| x.name == y.name && x.version == y.version),
        "lockfile",
        "{t}"
    );
    case.count("manifests", 1);
    case.nontrivial(&text);
    case.sample(text);
    Ok(())
}

fn catalog(case: &mut Case) -> Result<(), Viol> {
    let mut cat = ExtensionCatalog::default();
    let n = case.rng.below(7);
    let mut ms = vec![];
    for i in 0..n {
        let m = manifest(&mut case.rng);
        let key = format!("key{}", case.rng.below(5));
        let id = cat.push(Extension { config_key: key.clone(), manifest: m.clone(), wasm_path: format!("/x/{i}.wasm").into() });
        ensure!(usize::from(id) == i, "push", "push {i} returned {id}");
        ms.push((key, m));
    }
    let show: Vec<_> = ms.iter().map(|(k, m)| format!("{k}:{} {:?}", m.id, m.associated_link_urls)).collect();
    case.input(format!("{show:?}"));
    ensure!(cat.len() == n && cat.is_empty() == (n == 0) && cat.iter().len() == n, "len", "{}", cat.len());
    ensure!(cat.iter_with_id().map(|(i, e)| (usize::from(i), e.manifest.clone())).eq(ms.iter().map(|m| m.1.clone()).enumerate()), "iter", "{show:?}");
    for _ in 0..8 {
        let url = format!("https://specs.example/{}", case.rng.below(8));
        let nm = name(&mut case.rng);
        let req = VersionReq::parse(["*", "^1.0.0", "1.2", "~2.1.0", "=0.1.1", ">=1.0.0-alpha, <3", "0"][case.rng.below(7)]).unwrap();
        let (use_name, use_req) = (case.rng.pct(80), case.rng.pct(70));
        let want = ms
            .iter()
            .position(|(_, m)| m.associated_link_urls.contains(&url))
            .or_else(|| {
                use_name.then(|| ms.iter().position(|(_, m)| m.id.name == nm && (!use_req || req.matches(&m.id.version)))).flatten()
            });
        let got = guard("find", || cat.find_compatible_extension(&url, use_name.then_some(nm.as_str()), use_req.then_some(&req)))?;
        ensure!(
            got.map(usize::from) == want,
            "find",
            "{url} {nm} {req} (name {use_name}, version {use_req}) found {got:?}, expected {want:?} in {show:?}"
        );
        if let Some(id) = got {
            let id: ExtensionId = id;
            ensure!(cat[id].manifest == ms[want.unwrap()].1, "index", "{id}");
            case.count("lookups that found something", 1);
            case.nontrivial(&format!("{show:?}{url}{nm}{req}{use_name}{use_req}"));
        }
        ensure!(cat.get_id_by_name(&nm).map(usize::from) == ms.iter().position(|(_, m)| m.id.name == nm), "by-name", "{nm} in {show:?}");
        let key = format!("key{}", case.rng.below(6));
        ensure!(cat.get_id_by_config_key(&key).map(usize::from) == ms.iter().position(|(k, _)| *k == key), "by-key", "{key} in {show:?}");
        // the compatibility relation itself
        for (_, m) in &ms {
            let e = m.id.name == nm && req.matches(&m.id.version);
            ensure!(m.id.is_compatible_with(&nm, &req) == e, "compatible", "{} with {nm} {req}", m.id);
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("S07", "an id, a manifest, or a lookup that found an extension");
    c.cases("ids", 20_000, 1_000_000, ids);
    c.cases("manifests", 10_000, 400_000, manifests);
    c.cases("catalog", 10_000, 400_000, catalog);
    c.require("lookups that found something", 5_000);
    c.finish();
}
