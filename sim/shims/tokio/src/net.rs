use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

use crate::time::{token_free, token_new, token_poll};

pub use std::net::ToSocketAddrs;

const EAGAIN: i64 = -11;
const EINPROGRESS: i64 = -115;

fn err(e: i64) -> io::Error {
    io::Error::from_raw_os_error((-e) as i32)
}
fn split(a: SocketAddr) -> io::Result<(u32, u16)> {
    match a.ip() {
        IpAddr::V4(v) => Ok((u32::from(v), a.port())),
        IpAddr::V6(v) => match v.to_ipv4() {
            Some(v) => Ok((u32::from(v), a.port())),
            None => Err(io::Error::from_raw_os_error(97)),
        },
    }
}
fn addr(ip: u32, port: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::from(ip)), port)
}

pub async fn lookup_host<T: ToSocketAddrs>(host: T) -> io::Result<impl Iterator<Item = SocketAddr>> {
    host.to_socket_addrs()
}

#[derive(Debug)]
struct Conn {
    h: i64,
    rtok: u64,
    wtok: u64,
}
impl Drop for Conn {
    fn drop(&mut self) {
        unsafe { simapi::sim_net_close(self.h, 0) };
        token_free(self.rtok);
        token_free(self.wtok);
    }
}
impl Conn {
    fn addr(&self, side: u32) -> io::Result<SocketAddr> {
        let (mut ip, mut port) = (0u32, 0u16);
        let r = unsafe { simapi::sim_net_addr(self.h, side, &mut ip, &mut port) };
        if r < 0 {
            return Err(err(r));
        }
        Ok(addr(ip, port))
    }
    fn poll_read(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>, peek: u32) -> Poll<io::Result<usize>> {
        loop {
            let room = buf.initialize_unfilled();
            if room.is_empty() {
                return Poll::Ready(Ok(0));
            }
            let r = unsafe { simapi::sim_net_read(self.h, room.as_mut_ptr(), room.len(), peek) };
            if r >= 0 {
                buf.advance(r as usize);
                return Poll::Ready(Ok(r as usize));
            }
            if r != EAGAIN {
                return Poll::Ready(Err(err(r)));
            }
            if !token_poll(self.rtok, cx) {
                return Poll::Pending;
            }
        }
    }
    fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        loop {
            let r = unsafe { simapi::sim_net_write(self.h, buf.as_ptr(), buf.len()) };
            if r >= 0 {
                return Poll::Ready(Ok(r as usize));
            }
            if r != EAGAIN {
                return Poll::Ready(Err(err(r)));
            }
            if !token_poll(self.wtok, cx) {
                return Poll::Pending;
            }
        }
    }
    fn shutdown(&self) -> io::Result<()> {
        let r = unsafe { simapi::sim_net_shutdown(self.h) };
        if r < 0 {
            return Err(err(r));
        }
        Ok(())
    }
}

pub struct TcpStream {
    c: Arc<Conn>,
}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpStream")
    }
}

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(a: A) -> io::Result<TcpStream> {
        let list: Vec<SocketAddr> = a.to_socket_addrs()?.collect();
        let mut last = None;
        for a in list {
            match connect_one(a).await {
                Ok(s) => return Ok(s),
                Err(e) => last = Some(e),
            }
        }
        Err(last.unwrap_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        self.c.addr(0)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.c.addr(1)
    }
    pub fn set_nodelay(&self, _v: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_ttl(&self, _v: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut b = ReadBuf::new(buf);
        std::future::poll_fn(|cx| self.c.poll_read(cx, &mut b, 1)).await
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        let s = Arc::new(self);
        (tcp::OwnedReadHalf { s: s.clone() }, tcp::OwnedWriteHalf { s })
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (tcp::ReadHalf(&*self), tcp::WriteHalf(&*self))
    }
    /// Closes with a reset (simulation only).
    pub fn sim_reset(&self) {
        unsafe { simapi::sim_net_close(self.c.h, 1) };
    }
}

async fn connect_one(a: SocketAddr) -> io::Result<TcpStream> {
    let (ip, port) = split(a)?;
    let (rtok, wtok) = (token_new(), token_new());
    let h = unsafe { simapi::sim_net_connect(ip, port, rtok, wtok) };
    if h < 0 {
        token_free(rtok);
        token_free(wtok);
        return Err(err(h));
    }
    let s = TcpStream { c: Arc::new(Conn { h, rtok, wtok }) };
    std::future::poll_fn(|cx| loop {
        let r = unsafe { simapi::sim_net_connected(h) };
        if r == 0 {
            return Poll::Ready(Ok(()));
        }
        if r != EINPROGRESS {
            return Poll::Ready(Err(err(r)));
        }
        if !token_poll(wtok, cx) {
            return Poll::Pending;
        }
    })
    .await?;
    Ok(s)
}

impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.c.poll_read(cx, buf, 0).map(|r| r.map(|_| ()))
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.c.poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(self.c.shutdown())
    }
}

pub struct TcpListener {
    h: i64,
    tok: u64,
    at: SocketAddr,
}
impl std::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpListener")
    }
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
        let mut last = None;
        for a in a.to_socket_addrs()? {
            let (ip, port) = split(a)?;
            let tok = token_new();
            let h = unsafe { simapi::sim_net_bind(ip, port, tok) };
            if h >= 0 {
                return Ok(TcpListener { h, tok, at: a });
            }
            token_free(tok);
            last = Some(err(h));
        }
        Err(last.unwrap_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.at)
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        loop {
            let (mut ip, mut port) = (0u32, 0u16);
            let (rtok, wtok) = (token_new(), token_new());
            let r = unsafe { simapi::sim_net_accept(self.h, &mut ip, &mut port, rtok, wtok) };
            if r >= 0 {
                let s = TcpStream { c: Arc::new(Conn { h: r, rtok, wtok }) };
                return Poll::Ready(Ok((s, addr(ip, port))));
            }
            token_free(rtok);
            token_free(wtok);
            if r != EAGAIN {
                return Poll::Ready(Err(err(r)));
            }
            if !token_poll(self.tok, cx) {
                return Poll::Pending;
            }
        }
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        unsafe { simapi::sim_net_close(self.h, 0) };
        token_free(self.tok);
    }
}

pub mod tcp {
    use super::*;
    #[derive(Debug)]
    pub struct OwnedReadHalf {
        pub(super) s: Arc<TcpStream>,
    }
    #[derive(Debug)]
    pub struct OwnedWriteHalf {
        pub(super) s: Arc<TcpStream>,
    }
    #[derive(Debug)]
    pub struct ReadHalf<'a>(pub(super) &'a TcpStream);
    #[derive(Debug)]
    pub struct WriteHalf<'a>(pub(super) &'a TcpStream);
    impl OwnedReadHalf {
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            self.s.peer_addr()
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            self.s.local_addr()
        }
    }
    impl OwnedWriteHalf {
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            self.s.peer_addr()
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            self.s.local_addr()
        }
    }
    impl AsRef<TcpStream> for OwnedReadHalf {
        fn as_ref(&self) -> &TcpStream {
            &self.s
        }
    }
    impl AsRef<TcpStream> for OwnedWriteHalf {
        fn as_ref(&self) -> &TcpStream {
            &self.s
        }
    }
    impl OwnedReadHalf {
        pub async fn peek(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            self.s.peek(buf).await
        }
    }
    impl OwnedWriteHalf {
        /// Lets the other side read on, without the end of the stream.
        pub fn forget(self) {
            let s = std::mem::ManuallyDrop::new(self);
            unsafe { drop(std::ptr::read(&s.s)) };
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            let _ = self.s.c.shutdown();
        }
    }
    impl AsyncRead for OwnedReadHalf {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            self.s.c.poll_read(cx, buf, 0).map(|r| r.map(|_| ()))
        }
    }
    impl AsyncRead for ReadHalf<'_> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            self.0.c.poll_read(cx, buf, 0).map(|r| r.map(|_| ()))
        }
    }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.s.c.poll_write(cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(self.s.c.shutdown())
        }
    }
    impl AsyncWrite for WriteHalf<'_> {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.0.c.poll_write(cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(self.0.c.shutdown())
        }
    }
}
