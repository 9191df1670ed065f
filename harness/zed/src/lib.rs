//! The Zed extension: which binary is started, and what is downloaded and removed.
use symrt::*;
use zed_extension_api::settings::{CommandSettings, LspSettings};
use zed_extension_api::*;

fn same(a: &str, b: &str) -> bool {
    a.as_bytes() == b.as_bytes()
}
fn cat(p: &[&str]) -> String {
    let mut s = String::new();
    for x in p {
        s.push_str(x);
    }
    s
}
const OS: [Os; 3] = [Os::Mac, Os::Linux, Os::Windows];
const ARCH: [Architecture; 3] = [Architecture::Aarch64, Architecture::X86, Architecture::X8664];
/// (asset, stem, kind of archive, path of the binary below the directory)
fn expected(os: Os, arch: Architecture) -> (String, DownloadedFileType, String) {
    let a = match arch {
        Architecture::Aarch64 => "aarch64",
        Architecture::X86 => "x86",
        Architecture::X8664 => "x86_64",
    };
    let o = match os {
        Os::Mac => "apple-darwin",
        Os::Linux => "unknown-linux-gnu",
        Os::Windows => "pc-windows-msvc",
    };
    let stem = cat(&["air-", a, "-", o]);
    if os == Os::Windows {
        (cat(&[&stem, ".zip"]), DownloadedFileType::Zip, "air.exe".to_string())
    } else {
        (cat(&[&stem, ".tar.gz"]), DownloadedFileType::GzipTar, cat(&[&stem, "/air"]))
    }
}
/// is there a file / any entry (relative to the extension's directory)
fn file(p: &str) -> bool {
    std::fs::metadata(p).is_ok_and(|m| m.is_file())
}
fn exists(p: &str) -> bool {
    std::fs::metadata(p).is_ok()
}
fn enter() {
    let r = root().join("ext");
    std::fs::create_dir(&r).unwrap();
    std::env::set_current_dir(&r).unwrap();
}
/// user's path, then PATH, then an earlier download, then a download; the user's arguments in every case
fn h_choice() {
    enter();
    let n = param(0) as usize;
    let path = if flag_fixed() { Some(string(n)) } else { None };
    let args = match pick(4) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![string(n)]),
        _ => Some(vec![string(1), string(1)]),
    };
    let which = if flag_fixed() { Some(string(n)) } else { None };
    let binary = match pick(2) {
        0 if path.is_none() && args.is_none() => None,
        _ => Some(CommandSettings { path: path.clone(), arguments: args.clone(), env: None }),
    };
    let settings = if binary.is_none() && flag_fixed() { None } else { Some(LspSettings { binary, initialization_options: None, settings: None }) };
    let (asset, _, bin) = expected(Os::Linux, Architecture::X8664);
    set_host(Host {
        server: "air".into(),
        settings,
        which: match &which {
            Some(w) => vec![("r".into(), "/wrong".into()), ("air".into(), w.clone())],
            None => vec![("r".into(), "/wrong".into())],
        },
        platform: (Os::Linux, Architecture::X8664),
        release: Ok(GithubRelease { version: "1.2.3".into(), assets: vec![GithubReleaseAsset { name: asset, download_url: "u".into() }] }),
        download: Some(vec![bin.clone()]),
        releases_asked: vec![],
        downloads: vec![],
    });
    let id = LanguageServerId::new("air");
    let wt = Worktree::new();
    let mut e = zed_air::new_extension();
    let c = e.language_server_command(&id, &wt);
    let c = match c {
        Ok(c) => c,
        Err(_) => {
            check(false, 1);
            return;
        }
    };
    let want = match (&path, &which) {
        (Some(p), _) => p.clone(),
        (None, Some(w)) => w.clone(),
        _ => cat(&["air-1.2.3/", &bin]),
    };
    check(same(&c.command, &want), 2);
    let wargs = args.unwrap_or_else(|| vec!["language-server".to_string()]);
    check(c.args.len() == wargs.len(), 3);
    for i in 0..c.args.len() {
        check(same(&c.args[i], &wargs[i]), 3);
    }
    let own = path.is_some() || which.is_some();
    check(host().downloads.len() == if own { 0 } else { 1 }, 4);
    check(exists("air-1.2.3") == !own, 4);
    cover(path.is_some() && which.is_some(), 1);
    cover(path.is_none() && which.is_some(), 2);
    cover(!own, 3);
    observe(own as u64);
}
/// sequences of starts with changing releases, failures and files removed in between
fn h_history() {
    enter();
    let os = OS[pick(3)];
    let arch = ARCH[pick(3)];
    let (asset, ty, bin) = expected(os, arch);
    // other entries of the extension's directory
    std::fs::create_dir_all("air-0.0.1/old").unwrap();
    std::fs::write("air-0.0.1/old/air", b"x").unwrap();
    std::fs::write("notes", b"x").unwrap();
    let assets: Vec<GithubReleaseAsset> = {
        let mut v = Vec::new();
        for o in OS {
            for a in ARCH {
                let n = expected(o, a).0;
                v.push(GithubReleaseAsset { download_url: cat(&["https://", &n]), name: n });
            }
        }
        v
    };
    let id = LanguageServerId::new("air");
    let wt = Worktree::new();
    let mut e = zed_air::new_extension();
    let versions = [over(b"1.v", param(1) as usize), "0.0.1".to_string()];
    assume(versions[0].as_bytes() != b"0.0.1");
    let mut cached: Option<String> = None;
    for step in 0..param(0) {
        let v = &versions[pick(2)];
        if step > 0 && flag_fixed() {
            // the editor is restarted
            e = zed_air::new_extension();
            cached = None;
        }
        let missing = step == 0 && flag_fixed();
        let fails = pick(3); // 1: no release, 2: the download fails
        let mut aa = assets.clone();
        if missing {
            aa.retain(|x| x.name != asset);
        }
        set_host(Host {
            server: "air".into(),
            settings: None,
            which: vec![],
            platform: (os, arch),
            release: if fails == 1 { Err("offline".into()) } else { Ok(GithubRelease { version: v.clone(), assets: aa }) },
            download: if fails == 2 { None } else { Some(vec![bin.clone(), "LICENSE".into()]) },
            releases_asked: vec![],
            downloads: vec![],
        });
        let dir = cat(&["air-", v]);
        let full = cat(&[&dir, "/", &bin]);
        let old_there = exists("air-0.0.1");
        let there = file(&full);
        let cache_ok = cached.as_ref().is_some_and(|c| file(c));
        let r = e.language_server_command(&id, &wt);
        let h = host();
        if cache_ok {
            // an earlier download is used again, whatever the network says
            check(matches!(&r, Ok(c) if same(&c.command, cached.as_ref().unwrap())), 10);
            check(h.releases_asked.is_empty() && h.downloads.is_empty(), 11);
            cover(true, 1);
        } else {
            check(h.releases_asked.len() == 1 && h.releases_asked[0].0 == "posit-dev/air" && h.releases_asked[0].1 && !h.releases_asked[0].2, 12);
            if fails == 1 || missing {
                check(r.is_err() && h.downloads.is_empty(), 13);
                check(exists("air-0.0.1") == old_there, 14);
                cover(missing, 2);
            } else if there {
                check(matches!(&r, Ok(c) if same(&c.command, &full)), 15);
                check(h.downloads.is_empty(), 16);
                check(file(&full), 17);
                cached = Some(full.clone());
                cover(true, 3);
            } else {
                check(h.downloads.len() == 1, 18);
                let d = &h.downloads[0];
                check(same(&d.0, &cat(&["https://", &asset])) && same(&d.1, &dir) && d.2 == ty, 19);
                if fails == 2 {
                    check(r.is_err(), 20);
                    check(exists("air-0.0.1") == old_there, 14);
                    cover(true, 4);
                } else {
                    check(matches!(&r, Ok(c) if same(&c.command, &full)), 21);
                    check(file(&full) && file(&cat(&[&dir, "/LICENSE"])), 17);
                    // older downloads are gone
                    check(same(&dir, "air-0.0.1") || !exists("air-0.0.1"), 22);
                    cached = Some(full.clone());
                    cover(old_there, 5);
                }
            }
        }
        if let Ok(c) = &r {
            check(c.args.len() == 1 && c.args[0] == "language-server" && c.env.is_empty(), 23);
        }
        observe(r.is_ok() as u64);
        // someone removes the binary
        if r.is_ok() && flag_fixed() {
            if let Some(c) = &cached {
                std::fs::remove_file(c).unwrap();
            }
            cover(step + 1 < param(0), 6);
        }
    }
}
/// the user's initialization options and settings reach the server unchanged (null when there are none)
fn h_options() {
    use serde_json::Value;
    let val = || match pick(5) {
        0 => None,
        1 => Some(Value::Null),
        2 => Some(Value::Bool(flag())),
        3 => Some(Value::String(string(param(0) as usize))),
        _ => Some(Value::Array(vec![Value::Bool(flag())])),
    };
    let i = val();
    let s = val();
    let some = flag_fixed();
    set_host(Host {
        server: "air".into(),
        settings: if some { Some(LspSettings { binary: None, initialization_options: i.clone(), settings: s.clone() }) } else { None },
        which: vec![],
        platform: (Os::Linux, Architecture::X86),
        release: Err("offline".into()),
        download: None,
        releases_asked: vec![],
        downloads: vec![],
    });
    let id = LanguageServerId::new("air");
    let wt = Worktree::new();
    let mut e = zed_air::new_extension();
    let (gi, gs) = (e.language_server_initialization_options(&id, &wt), e.language_server_workspace_configuration(&id, &wt));
    let wi = if some { i.unwrap_or(Value::Null) } else { Value::Null };
    let ws = if some { s.unwrap_or(Value::Null) } else { Value::Null };
    check(gi == Ok(Some(wi)), 30);
    check(gs == Ok(Some(ws)), 31);
    cover(some, 1);
    cover(!some, 2);
}
entries!(h_choice, h_history, h_options);
