//! Layer storage that yields before and after each access, so that tasks get interleaved there.
use crate::conc::pause;
use async_trait::async_trait;
use bytes::Bytes;
use std::collections::HashMap;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};
use terminus_store::storage::{FileLoad, FileStore, PersistentLayerStore, SyncableFile};
use tokio::io::AsyncWrite;

type Name = [u32; 5];

#[derive(Clone)]
pub struct SlowFile<F>(F);

pub struct SlowWrite<W>(W);

impl<W: AsyncWrite + Unpin> AsyncWrite for SlowWrite<W> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
}

#[async_trait]
impl<W: SyncableFile> SyncableFile for SlowWrite<W> {
    async fn sync_all(self) -> io::Result<()> {
        pause().await;
        self.0.sync_all().await
    }
}

#[async_trait]
impl<F: FileStore> FileStore for SlowFile<F> {
    type Write = SlowWrite<F::Write>;
    async fn open_write(&self) -> io::Result<Self::Write> {
        pause().await;
        Ok(SlowWrite(self.0.open_write().await?))
    }
}

#[async_trait]
impl<F: FileLoad> FileLoad for SlowFile<F> {
    type Read = F::Read;
    async fn exists(&self) -> io::Result<bool> {
        pause().await;
        self.0.exists().await
    }
    async fn size(&self) -> io::Result<usize> {
        pause().await;
        self.0.size().await
    }
    async fn open_read_from(&self, offset: usize) -> io::Result<Self::Read> {
        pause().await;
        self.0.open_read_from(offset).await
    }
    async fn map(&self) -> io::Result<Bytes> {
        pause().await;
        self.0.map().await
    }
}

/// With the trait's own defaults, so that their steps are interleaved as well.
#[derive(Clone)]
pub struct Slow<S>(pub S);
/// Passes everything on that stores may implement themselves.
#[derive(Clone)]
pub struct SlowWhole<S>(pub S);

macro_rules! store {
    ($t:ident, { $($more:tt)* }) => {
        #[async_trait]
        impl<S: PersistentLayerStore> PersistentLayerStore for $t<S>
        where
            S::File: 'static,
        {
            type File = SlowFile<S::File>;
            async fn directories(&self) -> io::Result<Vec<Name>> {
                pause().await;
                self.0.directories().await
            }
            async fn create_named_directory(&self, id: Name) -> io::Result<Name> {
                pause().await;
                let r = self.0.create_named_directory(id).await;
                pause().await;
                r
            }
            async fn directory_exists(&self, name: Name) -> io::Result<bool> {
                pause().await;
                self.0.directory_exists(name).await
            }
            async fn get_file(&self, directory: Name, name: &str) -> io::Result<Self::File> {
                Ok(SlowFile(self.0.get_file(directory, name).await?))
            }
            async fn file_exists(&self, directory: Name, file: &str) -> io::Result<bool> {
                pause().await;
                self.0.file_exists(directory, file).await
            }
            async fn finalize(&self, directory: Name) -> io::Result<()> {
                pause().await;
                let r = self.0.finalize(directory).await;
                pause().await;
                r
            }

            $($more)*
        }
    };
}

store!(Slow, {
    // importing is for the stores to make safe
    async fn store_layer_files(&self, name: Name, files: &HashMap<String, Vec<u8>>) -> io::Result<()> {
        pause().await;
        let r = self.0.store_layer_files(name, files).await;
        pause().await;
        r
    }
});
store!(SlowWhole, {
    async fn layer_parent(&self, name: Name) -> io::Result<Option<Name>> {
        pause().await;
        self.0.layer_parent(name).await
    }
    async fn store_layer_files(&self, name: Name, files: &HashMap<String, Vec<u8>>) -> io::Result<()> {
        pause().await;
        let r = self.0.store_layer_files(name, files).await;
        pause().await;
        r
    }
    async fn write_rollup_file(&self, dir_name: Name, rollup_name: Name) -> io::Result<()> {
        pause().await;
        let r = self.0.write_rollup_file(dir_name, rollup_name).await;
        pause().await;
        r
    }
    async fn read_rollup_file(&self, dir_name: Name) -> io::Result<Name> {
        pause().await;
        self.0.read_rollup_file(dir_name).await
    }
});
