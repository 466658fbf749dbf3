//! The recorded matches that come with the repository.

pub struct Files {
    pub demos: Vec<(String, Vec<u8>)>,
}

impl Files {
    pub fn load(repo: &str) -> Files {
        let mut demos = vec![];
        if let Ok(rd) = std::fs::read_dir(format!("{repo}/tests/files")) {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                if n.ends_with(".mvd") {
                    if let Ok(b) = std::fs::read(e.path()) {
                        demos.push((n, b));
                    }
                }
            }
        }
        demos.sort();
        Files { demos }
    }
}
