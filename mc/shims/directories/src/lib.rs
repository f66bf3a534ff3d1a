use std::path::{Path, PathBuf};
#[derive(Clone, Debug)]
pub struct ProjectDirs {
    data: PathBuf,
    config: PathBuf,
    cache: PathBuf,
}
impl ProjectDirs {
    pub fn from(_q: &str, _o: &str, app: &str) -> Option<Self> {
        let home = PathBuf::from(std::env::var_os("HOME")?);
        let app = app.to_lowercase().replace(' ', "");
        let pick = |var: &str, def: &str| std::env::var_os(var).map(PathBuf::from).filter(|p| p.is_absolute()).unwrap_or_else(|| home.join(def)).join(&app);
        Some(Self { data: pick("XDG_DATA_HOME", ".local/share"), config: pick("XDG_CONFIG_HOME", ".config"), cache: pick("XDG_CACHE_HOME", ".cache") })
    }
    pub fn data_local_dir(&self) -> &Path {
        &self.data
    }
    pub fn data_dir(&self) -> &Path {
        &self.data
    }
    pub fn config_dir(&self) -> &Path {
        &self.config
    }
    pub fn cache_dir(&self) -> &Path {
        &self.cache
    }
}
