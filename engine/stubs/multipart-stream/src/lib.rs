//! Multipart streams, with the part of the interface of multipart-stream that is used.
use bytes::Bytes;
use futures_util::{Stream, StreamExt};
use http::HeaderMap;

pub struct Part {
    pub headers: HeaderMap,
    pub body: Bytes,
}

pub fn serialize<S, E>(parts: S, boundary: &str) -> impl Stream<Item = Result<Bytes, E>>
where
    S: Stream<Item = Result<Part, E>>,
{
    let boundary = boundary.to_owned();
    let end = boundary.clone();
    parts
        .map(move |part| {
            part.map(|part| {
                let mut out = format!("\r\n--{boundary}\r\n").into_bytes();
                for (k, v) in &part.headers {
                    out.extend_from_slice(k.as_str().as_bytes());
                    out.extend_from_slice(b": ");
                    out.extend_from_slice(v.as_bytes());
                    out.extend_from_slice(b"\r\n");
                }
                out.extend_from_slice(b"\r\n");
                out.extend_from_slice(&part.body);
                Bytes::from(out)
            })
        })
        .chain(futures_util::stream::once(async move { Ok(Bytes::from(format!("\r\n--{end}--\r\n"))) }))
}
