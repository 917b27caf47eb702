//! See the openssl stand-in: the handshake waits for the bytes "TLSH" and answers "tlsh".
use openssl::ssl::{Error, Ssl};
use std::{
    io,
    pin::Pin,
    task::{Context, Poll},
};
use tokio_real::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
pub struct SslStream<S> {
    s: S,
}
impl<S: AsyncRead + AsyncWrite + Unpin> SslStream<S> {
    pub fn new(_: Ssl, s: S) -> Result<Self, openssl::error::ErrorStack> {
        Ok(Self { s })
    }
    pub async fn accept(self: Pin<&mut Self>) -> Result<(), Error> {
        let me = self.get_mut();
        let mut b = [0u8; 4];
        me.s.read_exact(&mut b)
            .await
            .map_err(|e| Error(e.to_string()))?;
        if &b != b"TLSH" {
            return Err(Error("bad handshake record".into()));
        }
        me.s.write_all(b"tlsh")
            .await
            .map_err(|e| Error(e.to_string()))?;
        me.s.flush().await.map_err(|e| Error(e.to_string()))?;
        Ok(())
    }
    pub fn get_ref(&self) -> &S {
        &self.s
    }
    pub fn get_mut(&mut self) -> &mut S {
        &mut self.s
    }
}
impl<S: AsyncRead + Unpin> AsyncRead for SslStream<S> {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        b: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        Pin::new(&mut self.get_mut().s).poll_read(cx, b)
    }
}
impl<S: AsyncWrite + Unpin> AsyncWrite for SslStream<S> {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        b: &[u8],
    ) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.get_mut().s).poll_write(cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.get_mut().s).poll_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.get_mut().s).poll_shutdown(cx)
    }
}
