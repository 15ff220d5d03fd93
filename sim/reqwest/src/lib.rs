//! Stand-in for reqwest's blocking client. Same API surface and the same
//! documented behaviour (default time limit 30 s applied to waiting for the
//! response head and, separately, to reading the body; up to ten redirects;
//! URLs normalised by the `url` crate); the transport is ksim's network.
pub use bytes::Bytes;
pub use http::{header, Method, StatusCode, Version};
pub use url::Url;

use ksim::net::{http_body_all, http_body_some, http_send, HttpErr, HttpReq, HttpResp};
use std::fmt;
use std::time::Duration;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug)]
pub struct Error {
    kind: Kind,
    url: Option<Url>,
}
#[derive(Debug)]
enum Kind {
    Timeout,
    Connect(String),
    Redirect,
    Request(String),
    Body(String),
    Builder(String),
    Status(StatusCode),
    Decode(String),
}

impl Error {
    fn new(kind: Kind, url: Option<Url>) -> Error {
        Error { kind, url }
    }
    fn from_http(e: HttpErr, url: Option<Url>) -> Error {
        let k = match e {
            HttpErr::Timeout => Kind::Timeout,
            HttpErr::Connect(s) => Kind::Connect(s),
            HttpErr::Redirect => Kind::Redirect,
            HttpErr::Request(s) => Kind::Request(s),
            HttpErr::Body(s) => Kind::Body(s),
            HttpErr::Builder(s) => Kind::Builder(s),
        };
        Error::new(k, url)
    }
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
    pub fn without_url(mut self) -> Self {
        self.url = None;
        self
    }
    pub fn is_timeout(&self) -> bool {
        matches!(self.kind, Kind::Timeout)
    }
    pub fn is_connect(&self) -> bool {
        matches!(self.kind, Kind::Connect(_))
    }
    pub fn is_redirect(&self) -> bool {
        matches!(self.kind, Kind::Redirect)
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Request(_) | Kind::Connect(_) | Kind::Timeout)
    }
    pub fn is_body(&self) -> bool {
        matches!(self.kind, Kind::Body(_))
    }
    pub fn is_builder(&self) -> bool {
        matches!(self.kind, Kind::Builder(_))
    }
    pub fn is_decode(&self) -> bool {
        matches!(self.kind, Kind::Decode(_))
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &self.kind {
            Kind::Timeout => write!(f, "operation timed out")?,
            Kind::Connect(s) => write!(f, "error sending request: {}", s)?,
            Kind::Redirect => write!(f, "error following redirect: too many redirects")?,
            Kind::Request(s) => write!(f, "error sending request: {}", s)?,
            Kind::Body(s) => write!(f, "error reading a body from connection: {}", s)?,
            Kind::Builder(s) => write!(f, "builder error: {}", s)?,
            Kind::Status(s) => write!(f, "HTTP status error ({})", s)?,
            Kind::Decode(s) => write!(f, "error decoding response body: {}", s)?,
        }
        if let Some(u) = &self.url {
            write!(f, " for url ({})", u)?;
        }
        Ok(())
    }
}
impl std::error::Error for Error {}

pub trait IntoUrl: Sized {
    fn into_url(self) -> Result<Url>;
    fn as_str(&self) -> &str;
}
fn checked(u: Url) -> Result<Url> {
    if u.has_host() {
        Ok(u)
    } else {
        Err(Error::new(Kind::Builder("URL scheme is not allowed".into()), Some(u)))
    }
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        checked(self)
    }
    fn as_str(&self) -> &str {
        Url::as_str(self)
    }
}
impl<'a> IntoUrl for &'a str {
    fn into_url(self) -> Result<Url> {
        checked(Url::parse(self).map_err(|e| Error::new(Kind::Builder(e.to_string()), None))?)
    }
    fn as_str(&self) -> &str {
        self
    }
}
impl<'a> IntoUrl for &'a String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
    fn as_str(&self) -> &str {
        String::as_str(self)
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        (&self[..]).into_url()
    }
    fn as_str(&self) -> &str {
        String::as_str(self)
    }
}

pub mod redirect {
    #[derive(Clone, Copy, Debug)]
    pub struct Policy(pub(crate) u32);
    impl Policy {
        pub fn limited(n: usize) -> Policy {
            Policy(n as u32)
        }
        pub fn none() -> Policy {
            Policy(0)
        }
    }
    impl Default for Policy {
        fn default() -> Policy {
            Policy(10)
        }
    }
}

/// Extra trust anchors and identities change nothing in the simulated network.
#[derive(Clone, Debug)]
pub struct Certificate;
impl Certificate {
    pub fn from_pem(_: &[u8]) -> Result<Certificate> {
        Ok(Certificate)
    }
    pub fn from_der(_: &[u8]) -> Result<Certificate> {
        Ok(Certificate)
    }
}

#[derive(Clone, Debug)]
pub struct Proxy;
impl Proxy {
    pub fn all<U: IntoUrl>(_: U) -> Result<Proxy> {
        Ok(Proxy)
    }
    pub fn https<U: IntoUrl>(_: U) -> Result<Proxy> {
        Ok(Proxy)
    }
    pub fn http<U: IntoUrl>(_: U) -> Result<Proxy> {
        Ok(Proxy)
    }
}

pub mod blocking {
    use super::*;
    use header::{HeaderMap, HeaderName, HeaderValue};
    use std::io;

    #[derive(Clone, Debug)]
    pub struct Client {
        cfg: Cfg,
    }
    #[derive(Clone, Debug)]
    struct Cfg {
        timeout: Option<Duration>,
        certs: bool,
        hosts: bool,
        redirects: u32,
        headers: HeaderMap,
        https_only: bool,
        err: Option<String>,
    }
    impl Default for Cfg {
        fn default() -> Self {
            Cfg {
                timeout: Some(Duration::from_secs(30)),
                certs: false,
                hosts: false,
                redirects: 10,
                headers: HeaderMap::new(),
                https_only: false,
                err: None,
            }
        }
    }
    impl Default for Client {
        fn default() -> Self {
            Client::new()
        }
    }
    impl Client {
        pub fn new() -> Client {
            Client { cfg: Cfg::default() }
        }
        pub fn builder() -> ClientBuilder {
            ClientBuilder { cfg: Cfg::default() }
        }
        pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder {
            self.request(Method::GET, u)
        }
        pub fn head<U: IntoUrl>(&self, u: U) -> RequestBuilder {
            self.request(Method::HEAD, u)
        }
        pub fn post<U: IntoUrl>(&self, u: U) -> RequestBuilder {
            self.request(Method::POST, u)
        }
        pub fn request<U: IntoUrl>(&self, m: Method, u: U) -> RequestBuilder {
            let (url, err) = match u.into_url() {
                Ok(u) => (Some(u), None),
                Err(e) => (None, Some(e)),
            };
            RequestBuilder { cfg: self.cfg.clone(), method: m, url, err, headers: HeaderMap::new() }
        }
    }

    #[derive(Debug, Default)]
    pub struct ClientBuilder {
        cfg: Cfg,
    }
    impl ClientBuilder {
        pub fn new() -> Self {
            Client::builder()
        }
        pub fn danger_accept_invalid_certs(mut self, b: bool) -> Self {
            self.cfg.certs = b;
            self
        }
        pub fn danger_accept_invalid_hostnames(mut self, b: bool) -> Self {
            self.cfg.hosts = b;
            self
        }
        pub fn timeout<T: Into<Option<Duration>>>(mut self, d: T) -> Self {
            self.cfg.timeout = d.into();
            self
        }
        pub fn connect_timeout<T: Into<Option<Duration>>>(self, _d: T) -> Self {
            self
        }
        pub fn redirect(mut self, p: redirect::Policy) -> Self {
            self.cfg.redirects = p.0;
            self
        }
        pub fn default_headers(mut self, h: HeaderMap) -> Self {
            self.cfg.headers = h;
            self
        }
        pub fn user_agent<V: AsRef<str>>(mut self, v: V) -> Self {
            match HeaderValue::from_str(v.as_ref()) {
                Ok(v) => {
                    self.cfg.headers.insert(header::USER_AGENT, v);
                }
                Err(e) => self.cfg.err = Some(e.to_string()),
            }
            self
        }
        pub fn https_only(mut self, b: bool) -> Self {
            self.cfg.https_only = b;
            self
        }
        pub fn add_root_certificate(self, _: Certificate) -> Self {
            self
        }
        pub fn tls_built_in_root_certs(self, _: bool) -> Self {
            self
        }
        pub fn proxy(self, _: Proxy) -> Self {
            self
        }
        pub fn no_proxy(self) -> Self {
            self
        }
        pub fn use_native_tls(self) -> Self {
            self
        }
        pub fn pool_idle_timeout<T: Into<Option<Duration>>>(self, _: T) -> Self {
            self
        }
        pub fn pool_max_idle_per_host(self, _: usize) -> Self {
            self
        }
        pub fn tcp_keepalive<T: Into<Option<Duration>>>(self, _: T) -> Self {
            self
        }
        pub fn tcp_nodelay(self, _: bool) -> Self {
            self
        }
        pub fn referer(self, _: bool) -> Self {
            self
        }
        pub fn build(self) -> Result<Client> {
            match self.cfg.err {
                Some(e) => Err(Error::new(Kind::Builder(e), None)),
                None => Ok(Client { cfg: self.cfg }),
            }
        }
    }

    pub struct RequestBuilder {
        cfg: Cfg,
        method: Method,
        url: Option<Url>,
        err: Option<Error>,
        headers: HeaderMap,
    }
    impl RequestBuilder {
        pub fn header<K, V>(mut self, k: K, v: V) -> Self
        where
            HeaderName: TryFrom<K>,
            <HeaderName as TryFrom<K>>::Error: Into<http::Error>,
            HeaderValue: TryFrom<V>,
            <HeaderValue as TryFrom<V>>::Error: Into<http::Error>,
        {
            match (HeaderName::try_from(k), HeaderValue::try_from(v)) {
                (Ok(k), Ok(v)) => {
                    self.headers.append(k, v);
                }
                _ => self.err = Some(Error::new(Kind::Builder("invalid header".into()), None)),
            }
            self
        }
        pub fn headers(mut self, h: HeaderMap) -> Self {
            for (k, v) in h.iter() {
                self.headers.insert(k.clone(), v.clone());
            }
            self
        }
        pub fn timeout(mut self, d: Duration) -> Self {
            self.cfg.timeout = Some(d);
            self
        }
        pub fn version(self, _: Version) -> Self {
            self
        }
        pub fn send(self) -> Result<Response> {
            if let Some(e) = self.err {
                return Err(e);
            }
            let url = self.url.unwrap();
            if url.scheme() != "https" && (self.cfg.https_only || url.scheme() != "http") {
                return Err(Error::new(Kind::Builder("URL scheme is not allowed".into()), Some(url)));
            }
            let mut hs = self.headers.clone();
            for (k, v) in self.cfg.headers.iter() {
                if !hs.contains_key(k) {
                    hs.insert(k.clone(), v.clone());
                }
            }
            let headers = hs
                .iter()
                .map(|(k, v)| (k.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).to_string()))
                .collect();
            let mut plain = url.clone();
            plain.set_fragment(None);
            let timeout_ms = self.cfg.timeout.map(|d| d.as_millis() as u64);
            let req = HttpReq {
                url: plain.as_str().to_string(),
                method: self.method.as_str().to_string(),
                headers,
                timeout_ms,
                insecure_certs: self.cfg.certs,
                insecure_hosts: self.cfg.hosts,
                redirects: self.cfg.redirects,
            };
            match http_send(req) {
                Ok(r) => Ok(Response::new(r, url, timeout_ms)),
                Err(e) => Err(Error::from_http(e, Some(url))),
            }
        }
    }

    #[derive(Debug)]
    pub struct Response {
        id: u64,
        status: StatusCode,
        headers: HeaderMap,
        url: Url,
        len: Option<u64>,
        timeout_ms: Option<u64>,
        rest: Vec<u8>,
        ended: bool,
    }
    impl Response {
        fn new(r: HttpResp, url: Url, timeout_ms: Option<u64>) -> Response {
            let mut headers = HeaderMap::new();
            for (k, v) in &r.headers {
                if let (Ok(k), Ok(v)) = (HeaderName::try_from(k.as_str()), HeaderValue::try_from(v.as_str())) {
                    headers.append(k, v);
                }
            }
            Response {
                id: r.id,
                status: StatusCode::from_u16(r.status).unwrap(),
                headers,
                url,
                len: r.len,
                timeout_ms,
                rest: vec![],
                ended: false,
            }
        }
        pub fn status(&self) -> StatusCode {
            self.status
        }
        pub fn headers(&self) -> &HeaderMap {
            &self.headers
        }
        pub fn headers_mut(&mut self) -> &mut HeaderMap {
            &mut self.headers
        }
        pub fn url(&self) -> &Url {
            &self.url
        }
        pub fn version(&self) -> Version {
            Version::HTTP_11
        }
        pub fn content_length(&self) -> Option<u64> {
            self.len
        }
        pub fn bytes(self) -> Result<Bytes> {
            match http_body_all(self.id, self.timeout_ms) {
                Ok(v) => Ok(Bytes::from(v.to_vec())),
                Err(e) => Err(Error::from_http(e, Some(self.url))),
            }
        }
        pub fn text(self) -> Result<String> {
            Ok(String::from_utf8_lossy(&self.bytes()?).into_owned())
        }
        pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
            let u = self.url.clone();
            let b = self.bytes()?;
            serde_json::from_slice(&b).map_err(|e| Error::new(Kind::Decode(e.to_string()), Some(u)))
        }
        pub fn copy_to<W: ?Sized + io::Write>(&mut self, w: &mut W) -> Result<u64> {
            let u = self.url.clone();
            io::copy(self, w).map_err(|e| Error::new(Kind::Body(e.to_string()), Some(u)))
        }
        pub fn error_for_status(self) -> Result<Self> {
            if self.status.is_client_error() || self.status.is_server_error() {
                Err(Error::new(Kind::Status(self.status), Some(self.url)))
            } else {
                Ok(self)
            }
        }
        pub fn error_for_status_ref(&self) -> Result<&Self> {
            if self.status.is_client_error() || self.status.is_server_error() {
                Err(Error::new(Kind::Status(self.status), Some(self.url.clone())))
            } else {
                Ok(self)
            }
        }
    }
    impl io::Read for Response {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            if buf.is_empty() {
                return Ok(0);
            }
            if self.rest.is_empty() && !self.ended {
                match http_body_some(self.id, buf.len(), self.timeout_ms) {
                    Ok(v) => {
                        self.ended = v.is_empty();
                        self.rest = v.to_vec();
                    }
                    Err(e) => {
                        return Err(io::Error::new(io::ErrorKind::Other, Error::from_http(e, Some(self.url.clone()))));
                    }
                }
            }
            let n = buf.len().min(self.rest.len());
            buf[..n].copy_from_slice(&self.rest[..n]);
            self.rest.drain(..n);
            Ok(n)
        }
    }

    /// Shortcut for a one-off GET.
    pub fn get<U: IntoUrl>(u: U) -> Result<Response> {
        Client::new().get(u).send()
    }
}

/// The `get` of the async API is not available in the simulator.
pub fn _keep() {
    ksim::keep();
}
