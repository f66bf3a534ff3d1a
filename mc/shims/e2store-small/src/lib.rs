//! The archive formats with archives of four blocks and a writer that keeps what it is given.
pub use ::e2store::*;

pub mod e2hs {
    pub use ::e2store::e2hs::*;
    use std::{cell::RefCell, fs, path::{Path, PathBuf}};

    pub const BLOCKS_PER_E2HS: usize = 4;

    /// An archive that was finished.
    #[derive(Clone)]
    pub struct Written { pub index: u64, pub blocks: Vec<BlockTuple>, pub path: PathBuf }

    thread_local! {
        static WRITTEN: RefCell<Vec<Written>> = const { RefCell::new(vec![]) };
        static SIZE: RefCell<usize> = const { RefCell::new(0) };
    }
    /// The archives finished on this thread, which are forgotten.
    pub fn written() -> Vec<Written> { WRITTEN.with(|w| std::mem::take(&mut *w.borrow_mut())) }
    /// How long the files are from now on.
    pub fn set_size(n: usize) { SIZE.with(|s| *s.borrow_mut() = n) }
    /// The file for an archive: different at all places where one of them might be cut.
    pub fn content(index: u64, size: usize) -> Vec<u8> {
        let mut v = format!("archive {index:06} ").into_bytes();
        v.resize(size.max(v.len()), index as u8);
        for (k, at) in (16..size.saturating_sub(8)).step_by(1 << 20).enumerate() {
            v[at..at + 8].copy_from_slice(&(k as u64 * 0x0101_0107 + index).to_le_bytes());
        }
        v
    }

    pub struct E2HSWriter { dir: PathBuf, index: u64, blocks: Vec<BlockTuple> }
    impl E2HSWriter {
        pub fn create(dir: &Path, index: u64) -> anyhow::Result<Self> {
            fs::create_dir_all(dir)?;
            let temp = dir.join(format!("temp-mainnet-{index:05}.e2hs"));
            anyhow::ensure!(!temp.exists(), "e2hs file already exists: {temp:?}");
            fs::write(&temp, b"")?;
            Ok(Self { dir: dir.to_path_buf(), index, blocks: vec![] })
        }
        pub fn append_block_tuple(&mut self, b: &BlockTuple) -> anyhow::Result<()> {
            self.blocks.push(b.clone());
            Ok(())
        }
        pub fn finish(self) -> anyhow::Result<PathBuf> {
            anyhow::ensure!(self.blocks.len() == BLOCKS_PER_E2HS, "wrong number of blocks");
            let temp = self.dir.join(format!("temp-mainnet-{:05}.e2hs", self.index));
            let path = self.dir.join(format!("mainnet-{:05}-{:08x}.e2hs", self.index, self.index * 77));
            fs::write(&temp, content(self.index, SIZE.with(|s| *s.borrow())))?;
            fs::rename(temp, &path)?;
            WRITTEN.with(|w| w.borrow_mut().push(Written { index: self.index, blocks: self.blocks, path: path.clone() }));
            Ok(path)
        }
    }
}
