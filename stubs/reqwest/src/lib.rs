//! Stand-in for `reqwest`: requests are answered by the handler the harness installed.
use std::fmt;
use std::io::Read;
pub use url::Url;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Method {
    Get,
    Head,
}
impl Method {
    pub const GET: Method = Method::Get;
    pub const HEAD: Method = Method::Head;
}
pub mod redirect {
    /// whether redirections are followed
    #[derive(Clone, Copy, Debug)]
    pub struct Policy(pub(crate) bool);
    impl Policy {
        pub fn none() -> Policy {
            Policy(false)
        }
        pub fn limited(n: usize) -> Policy {
            Policy(n > 0)
        }
    }
    impl Default for Policy {
        fn default() -> Policy {
            Policy(true)
        }
    }
}
/// What the harness' server answers: the final url, the status, and the body in pieces; a `None`
/// piece is a connection failure at that point.
pub struct Reply {
    pub url: Url,
    pub status: u16,
    pub body: Vec<Option<Vec<u8>>>,
}
pub type Handler = fn(Method, &Url) -> Option<Reply>;
static mut HANDLER: Option<Handler> = None;
pub fn set_handler(h: Handler) {
    unsafe { HANDLER = Some(h) }
}

#[derive(Debug)]
pub struct Error(&'static str, Option<StatusCode>, Option<Url>);
impl Error {
    pub fn is_status(&self) -> bool {
        self.1.is_some()
    }
    pub fn status(&self) -> Option<StatusCode> {
        self.1
    }
    pub fn is_timeout(&self) -> bool {
        false
    }
    pub fn is_redirect(&self) -> bool {
        false
    }
    pub fn is_builder(&self) -> bool {
        false
    }
    pub fn is_decode(&self) -> bool {
        false
    }
    pub fn is_request(&self) -> bool {
        self.1.is_none()
    }
    pub fn is_body(&self) -> bool {
        self.1.is_none()
    }
    pub fn url(&self) -> Option<&Url> {
        self.2.as_ref()
    }
    pub fn without_url(self) -> Self {
        Error(self.0, self.1, None)
    }
    pub fn is_connect(&self) -> bool {
        self.1.is_none()
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.1 {
            Some(s) if s.is_client_error() => write!(f, "HTTP status client error ({})", s)?,
            Some(s) => write!(f, "HTTP status server error ({})", s)?,
            None => f.write_str(self.0)?,
        }
        match &self.2 {
            Some(u) => write!(f, " for url ({})", u),
            None => Ok(()),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const CREATED: StatusCode = StatusCode(201);
    pub const ACCEPTED: StatusCode = StatusCode(202);
    pub const NO_CONTENT: StatusCode = StatusCode(204);
    pub const MOVED_PERMANENTLY: StatusCode = StatusCode(301);
    pub const FOUND: StatusCode = StatusCode(302);
    pub const NOT_MODIFIED: StatusCode = StatusCode(304);
    pub const BAD_REQUEST: StatusCode = StatusCode(400);
    pub const UNAUTHORIZED: StatusCode = StatusCode(401);
    pub const FORBIDDEN: StatusCode = StatusCode(403);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const METHOD_NOT_ALLOWED: StatusCode = StatusCode(405);
    pub const GONE: StatusCode = StatusCode(410);
    pub const TOO_MANY_REQUESTS: StatusCode = StatusCode(429);
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    pub const BAD_GATEWAY: StatusCode = StatusCode(502);
    pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode(503);
    pub const GATEWAY_TIMEOUT: StatusCode = StatusCode(504);
    pub fn is_informational(&self) -> bool {
        self.0 >= 100 && self.0 < 200
    }
    pub fn canonical_reason(&self) -> Option<&'static str> {
        Some(match self.0 {
            200 => "OK",
            302 => "Found",
            403 => "Forbidden",
            404 => "Not Found",
            410 => "Gone",
            500 => "Internal Server Error",
            502 => "Bad Gateway",
            503 => "Service Unavailable",
            504 => "Gateway Timeout",
            _ => return None,
        })
    }
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        self.0 >= 200 && self.0 < 300
    }
    pub fn is_redirection(&self) -> bool {
        self.0 >= 300 && self.0 < 400
    }
    pub fn is_client_error(&self) -> bool {
        self.0 >= 400 && self.0 < 500
    }
    pub fn is_server_error(&self) -> bool {
        self.0 >= 500 && self.0 < 600
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} {}", self.0, self.canonical_reason().unwrap_or("<unknown status code>"))
    }
}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
impl IntoUrl for &Url {
    fn into_url(self) -> Result<Url> {
        Ok(self.clone())
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|_| Error("builder error", None, None))
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        Url::parse(&self).map_err(|_| Error("builder error", None, None))
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|_| Error("builder error", None, None))
    }
}

pub mod blocking {
    use super::*;
    #[derive(Clone, Debug, Default)]
    pub struct Client(redirect::Policy);
    #[derive(Debug, Default)]
    pub struct ClientBuilder(redirect::Policy);
    impl ClientBuilder {
        pub fn new() -> ClientBuilder {
            ClientBuilder::default()
        }
        pub fn redirect(self, p: redirect::Policy) -> Self {
            ClientBuilder(p)
        }
        pub fn pool_max_idle_per_host(self, _: usize) -> Self {
            self
        }
        pub fn danger_accept_invalid_certs(self, _: bool) -> Self {
            self
        }
        pub fn danger_accept_invalid_hostnames(self, _: bool) -> Self {
            self
        }
        pub fn timeout<T>(self, _: T) -> Self {
            self
        }
        pub fn connect_timeout<T>(self, _: T) -> Self {
            self
        }
        pub fn gzip(self, _: bool) -> Self {
            self
        }
        pub fn user_agent<T>(self, _: T) -> Self {
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client(self.0))
        }
    }
    impl Client {
        pub fn new() -> Client {
            Client::default()
        }
        pub fn builder() -> ClientBuilder {
            ClientBuilder::default()
        }
        pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder {
            self.request(Method::Get, u)
        }
        pub fn head<U: IntoUrl>(&self, u: U) -> RequestBuilder {
            self.request(Method::Head, u)
        }
        pub fn request<U: IntoUrl>(&self, m: Method, u: U) -> RequestBuilder {
            RequestBuilder(m, u.into_url(), self.0)
        }
    }
    pub fn get<U: IntoUrl>(u: U) -> Result<Response> {
        Client::new().get(u).send()
    }
    #[derive(Debug)]
    pub struct RequestBuilder(Method, Result<Url>, redirect::Policy);
    impl RequestBuilder {
        pub fn header<A, B>(self, _: A, _: B) -> Self {
            self
        }
        pub fn timeout<T>(self, _: T) -> Self {
            self
        }
        pub fn send(self) -> Result<Response> {
            let url = self.1?;
            let h = unsafe { HANDLER }.expect("no server installed");
            match h(self.0, &url) {
                None => Err(Error("error sending request", None, Some(url))),
                Some(r) => {
                    let mut body = r.body;
                    if self.0 == Method::Head {
                        body.clear();
                    }
                    if !self.2 .0 && r.url != url {
                        return Ok(Response { url, status: StatusCode(302), body: vec![], off: 0 });
                    }
                    body.reverse();
                    Ok(Response { url: r.url, status: StatusCode(r.status), body, off: 0 })
                }
            }
        }
    }
    #[derive(Debug)]
    pub struct Response {
        url: Url,
        status: StatusCode,
        body: Vec<Option<Vec<u8>>>,
        off: usize,
    }
    impl Response {
        pub fn status(&self) -> StatusCode {
            self.status
        }
        pub fn url(&self) -> &Url {
            &self.url
        }
        pub fn content_length(&self) -> Option<u64> {
            None
        }
        pub fn error_for_status(self) -> Result<Response> {
            if self.status.is_client_error() || self.status.is_server_error() {
                Err(Error("", Some(self.status), Some(self.url.clone())))
            } else {
                Ok(self)
            }
        }
        pub fn error_for_status_ref(&self) -> Result<&Response> {
            if self.status.is_client_error() || self.status.is_server_error() {
                Err(Error("", Some(self.status), Some(self.url.clone())))
            } else {
                Ok(self)
            }
        }
        fn all(mut self) -> Result<Vec<u8>> {
            let mut v = vec![];
            while let Some(p) = self.body.pop() {
                match p {
                    Some(b) => v.extend_from_slice(&b[std::mem::take(&mut self.off)..]),
                    None => return Err(Error("error decoding response body", None, None)),
                }
            }
            Ok(v)
        }
        pub fn text(self) -> Result<String> {
            let v = self.all()?;
            Ok(match String::from_utf8(v) {
                Ok(s) => s,
                Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),
            })
        }
        pub fn copy_to<W: ?Sized + std::io::Write>(&mut self, w: &mut W) -> Result<u64> {
            std::io::copy(self, w).map_err(|_| Error("error decoding response body", None, None))
        }
        pub fn bytes(self) -> Result<Vec<u8>> {
            self.all()
        }
    }
    impl Read for Response {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            if b.is_empty() {
                return Ok(0);
            }
            loop {
                match self.body.last() {
                    None => return Ok(0),
                    Some(None) => {
                        return Err(std::io::Error::new(std::io::ErrorKind::Other, "connection reset"));
                    }
                    Some(Some(p)) => {
                        if self.off >= p.len() {
                            self.body.pop();
                            self.off = 0;
                            continue;
                        }
                        let n = b.len().min(p.len() - self.off);
                        b[..n].copy_from_slice(&p[self.off..self.off + n]);
                        self.off += n;
                        return Ok(n);
                    }
                }
            }
        }
    }
}
