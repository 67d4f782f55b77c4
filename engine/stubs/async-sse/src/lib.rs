//! Server-sent events, with the part of the interface of async-sse that is used.
use futures_channel::mpsc;
use futures_io::{AsyncBufRead, AsyncRead};
use futures_util::{Stream, SinkExt};
use std::{io, pin::Pin, task::{Context, Poll, ready}};

pub struct Sender(mpsc::Sender<Vec<u8>>);

pub struct Encoder {
    receiver: mpsc::Receiver<Vec<u8>>,
    buffer: Vec<u8>,
    at: usize,
}

pub fn encode() -> (Sender, Encoder) {
    let (sender, receiver) = mpsc::channel(1);
    (Sender(sender), Encoder { receiver, buffer: vec![], at: 0 })
}

impl Sender {
    pub async fn send(&self, name: &str, data: &str, id: Option<&str>) -> io::Result<()> {
        let mut out = format!("event:{name}\n");
        if let Some(id) = id {
            out.push_str(&format!("id:{id}\n"));
        }
        for line in data.lines() {
            out.push_str(&format!("data:{line}\n"));
        }
        out.push('\n');
        self.0.clone().send(out.into_bytes()).await.map_err(|_| io::ErrorKind::ConnectionAborted.into())
    }
}

impl AsyncRead for Encoder {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let available = ready!(self.as_mut().poll_fill_buf(cx))?;
        let n = available.len().min(buf.len());
        buf[..n].copy_from_slice(&available[..n]);
        self.consume(n);
        Poll::Ready(Ok(n))
    }
}

impl AsyncBufRead for Encoder {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        while this.at == this.buffer.len() {
            match ready!(Pin::new(&mut this.receiver).poll_next(cx)) {
                Some(buffer) => {
                    this.buffer = buffer;
                    this.at = 0;
                }
                None => return Poll::Ready(Ok(&[])),
            }
        }
        Poll::Ready(Ok(&this.buffer[this.at..]))
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        self.get_mut().at += n;
    }
}
