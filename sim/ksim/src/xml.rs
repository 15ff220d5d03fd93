//! Independent reader for notification files.
use crate::util::unhex32;

#[derive(Clone, Debug, PartialEq)]
pub struct Listed {
    pub serial: u64,
    pub uri: String,
    pub hash: [u8; 32],
}
#[derive(Clone, Debug, PartialEq)]
pub struct Notif {
    pub session: String,
    pub serial: u64,
    pub snap: Listed,
    pub deltas: Vec<Listed>,
}

struct Tag<'a> {
    name: &'a str,
    attrs: Vec<(&'a str, &'a str)>,
    close: bool,
    empty: bool,
}

fn tags(s: &str) -> Option<Vec<Tag<'_>>> {
    let mut out = vec![];
    let mut r = s;
    loop {
        let t = r.trim_start();
        if t.is_empty() {
            return Some(out);
        }
        let t = t.strip_prefix('<')?;
        if let Some(t) = t.strip_prefix("?") {
            r = &t[t.find("?>")? + 2..];
            continue;
        }
        if let Some(t) = t.strip_prefix("!--") {
            r = &t[t.find("-->")? + 3..];
            continue;
        }
        let end = t.find('>')?;
        let mut body = &t[..end];
        r = &t[end + 1..];
        let close = body.starts_with('/');
        if close {
            body = &body[1..];
        }
        let empty = body.ends_with('/');
        if empty {
            body = &body[..body.len() - 1];
        }
        let body = body.trim();
        let (name, mut rest) = match body.find(char::is_whitespace) {
            Some(i) => (&body[..i], body[i..].trim()),
            None => (body, ""),
        };
        let mut attrs = vec![];
        while !rest.is_empty() {
            let eq = rest.find('=')?;
            let k = rest[..eq].trim();
            let v = rest[eq + 1..].trim_start();
            let q = v.chars().next()?;
            if q != '"' && q != '\'' {
                return None;
            }
            let e = v[1..].find(q)?;
            attrs.push((k, &v[1..1 + e]));
            rest = v[2 + e..].trim_start();
        }
        out.push(Tag { name, attrs, close, empty });
    }
}

fn get<'a>(t: &Tag<'a>, k: &str) -> Option<&'a str> {
    t.attrs.iter().find(|a| a.0 == k).map(|a| a.1)
}

pub fn parse_notification(b: &[u8]) -> Option<Notif> {
    let s = std::str::from_utf8(b).ok()?;
    let ts = tags(s)?;
    let first = ts.first()?;
    if first.name != "notification" || first.close || first.empty {
        return None;
    }
    if get(first, "xmlns")? != "http://www.ripe.net/rpki/rrdp" || get(first, "version")? != "1" {
        return None;
    }
    let session = get(first, "session_id")?.to_lowercase();
    let serial = get(first, "serial")?.parse().ok()?;
    let last = ts.last()?;
    if last.name != "notification" || !last.close {
        return None;
    }
    let mut snap = None;
    let mut deltas = vec![];
    let mut open: Option<&str> = None;
    for t in &ts[1..ts.len() - 1] {
        if t.close {
            if open != Some(t.name) {
                return None;
            }
            open = None;
            continue;
        }
        if open.is_some() {
            return None;
        }
        if !t.empty {
            open = Some(t.name);
        }
        let uri = get(t, "uri")?.to_string();
        let hash = unhex32(get(t, "hash")?)?;
        match t.name {
            "snapshot" => {
                if snap.is_some() {
                    return None;
                }
                snap = Some(Listed { serial, uri, hash });
            }
            "delta" => deltas.push(Listed { serial: get(t, "serial")?.parse().ok()?, uri, hash }),
            _ => return None,
        }
    }
    if open.is_some() {
        return None;
    }
    Some(Notif { session, serial, snap: snap?, deltas })
}
