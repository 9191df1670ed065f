//! The editor side of Zed's extension interface (0.2.0), as a stand-in: the harness decides what the
//! editor answers (`HOST`), and everything the extension asks for is recorded there.
pub use serde_json;
pub type Result<T, E = String> = core::result::Result<T, E>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Os {
    Mac,
    Linux,
    Windows,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Architecture {
    Aarch64,
    X86,
    X8664,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DownloadedFileType {
    Gzip,
    GzipTar,
    Zip,
    Uncompressed,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum LanguageServerInstallationStatus {
    None,
    Downloading,
    CheckingForUpdate,
    Failed(String),
}
#[derive(Clone, Debug)]
pub struct GithubReleaseAsset {
    pub name: String,
    pub download_url: String,
}
#[derive(Clone, Debug)]
pub struct GithubRelease {
    pub version: String,
    pub assets: Vec<GithubReleaseAsset>,
}
#[derive(Clone, Copy, Debug)]
pub struct GithubReleaseOptions {
    pub require_assets: bool,
    pub pre_release: bool,
}
pub type EnvVars = Vec<(String, String)>;
#[derive(Clone, Debug)]
pub struct Command {
    pub command: String,
    pub args: Vec<String>,
    pub env: EnvVars,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LanguageServerId(String);
impl LanguageServerId {
    pub fn new(s: &str) -> Self {
        Self(s.to_string())
    }
}
impl AsRef<str> for LanguageServerId {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl core::fmt::Display for LanguageServerId {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.0)
    }
}
pub struct Worktree(());
impl Worktree {
    pub fn new() -> Self {
        Self(())
    }
    pub fn id(&self) -> u64 {
        1
    }
    pub fn root_path(&self) -> String {
        "/project".to_string()
    }
    pub fn read_text_file(&self, _: &str) -> Result<String, String> {
        Err("no such file".to_string())
    }
    pub fn which(&self, name: &str) -> Option<String> {
        let h = host();
        h.which.iter().find(|w| w.0 == name).map(|w| w.1.clone())
    }
    pub fn shell_env(&self) -> EnvVars {
        Vec::new()
    }
}
pub mod settings {
    use super::*;
    #[derive(Debug, Default, Clone)]
    pub struct CommandSettings {
        pub path: Option<String>,
        pub arguments: Option<Vec<String>>,
        pub env: Option<std::collections::HashMap<String, String>>,
    }
    #[derive(Debug, Default, Clone)]
    pub struct LspSettings {
        pub binary: Option<CommandSettings>,
        pub initialization_options: Option<serde_json::Value>,
        pub settings: Option<serde_json::Value>,
    }
    impl LspSettings {
        pub fn for_worktree(name: &str, _: &Worktree) -> Result<Self> {
            let h = host();
            match &h.settings {
                Some(s) if name == h.server => Ok(s.clone()),
                _ => Err("no settings".to_string()),
            }
        }
    }
}
pub struct Host {
    pub server: String,
    pub settings: Option<settings::LspSettings>,
    pub which: Vec<(String, String)>,
    pub platform: (Os, Architecture),
    pub release: Result<GithubRelease>,
    /// what a download puts below the target directory (None: it fails)
    pub download: Option<Vec<String>>,
    pub releases_asked: Vec<(String, bool, bool)>,
    pub downloads: Vec<(String, String, DownloadedFileType)>,
}
static mut HOST: Option<Host> = None;
#[allow(static_mut_refs)]
pub fn host() -> &'static mut Host {
    unsafe { HOST.as_mut().unwrap() }
}
#[allow(static_mut_refs)]
pub fn set_host(h: Host) {
    unsafe { HOST = Some(h) }
}
pub fn set_language_server_installation_status(_: &LanguageServerId, _: &LanguageServerInstallationStatus) {}
pub fn latest_github_release(repo: &str, o: GithubReleaseOptions) -> Result<GithubRelease, String> {
    let h = host();
    h.releases_asked.push((repo.to_string(), o.require_assets, o.pre_release));
    h.release.clone()
}
pub fn current_platform() -> (Os, Architecture) {
    host().platform
}
pub fn download_file(url: &str, path: &str, ty: DownloadedFileType) -> Result<(), String> {
    let h = host();
    h.downloads.push((url.to_string(), path.to_string(), ty));
    match &h.download {
        None => Err("no connection".to_string()),
        Some(files) => {
            for f in files {
                let p = std::path::Path::new(path).join(f);
                std::fs::create_dir_all(p.parent().unwrap()).map_err(|e| e.to_string())?;
                std::fs::write(p, b"x").map_err(|e| e.to_string())?;
            }
            Ok(())
        }
    }
}
pub fn make_file_executable(_: &str) -> Result<(), String> {
    Ok(())
}
pub trait Extension: Send + Sync {
    fn new() -> Self
    where
        Self: Sized;
    fn language_server_command(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Command> {
        Err("`language_server_command` not implemented".to_string())
    }
    fn language_server_initialization_options(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
    fn language_server_workspace_configuration(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
}
#[macro_export]
macro_rules! register_extension {
    ($t:ty) => {
        pub fn new_extension() -> Box<dyn $crate::Extension> {
            Box::new(<$t as $crate::Extension>::new())
        }
    };
}
