//! The files a schema translation sees: in the executor's memory, or in a
//! scratch directory of its own on replay.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn vh_file(name: *const u8, nlen: usize, data: *const u8, dlen: usize);
    }
    pub fn put(name: &str, text: &[u8]) {
        unsafe { vh_file(name.as_ptr(), name.len(), text.as_ptr(), text.len()) }
    }
}
#[cfg(feature = "native")]
mod imp {
    pub fn put(name: &str, text: &[u8]) {
        if let Some(p) = std::path::Path::new(name).parent() {
            std::fs::create_dir_all(p).unwrap();
        }
        std::fs::write(name, text).unwrap()
    }
    /// Runs `f` in a scratch directory, which is removed afterwards.
    pub fn scratch(f: impl FnOnce()) {
        let d = std::env::temp_dir().join(format!("vh-tr-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
        f();
        std::env::set_current_dir("/").unwrap();
        let _ = std::fs::remove_dir_all(&d);
    }
}
pub use imp::*;
