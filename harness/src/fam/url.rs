//! http_url / http_ftp_url.
use validators::{prelude::*, url::Url};

use super::net;
use crate::{
    core::{Dump, Exp, Family, Rng, Target, Tok, Tri},
    gens, subject, target, ws,
};

pub struct Cfg {
    pub ftp:   bool,
    pub local: Tri,
}

macro_rules! http {
    ($n:ident, $a:meta) => {
        #[derive(Debug, Clone, Validator)]
        #[validator($a)]
        pub struct $n {
            pub url:      Url,
            pub is_https: bool,
        }
        impl Dump for $n {
            fn dump(&self) -> String {
                format!("{} {}", if self.is_https { "https" } else { "http" }, show(&self.url))
            }
        }
        subject!($n; text);
    };
}
macro_rules! ftp {
    ($n:ident, $a:meta) => {
        #[derive(Debug, Clone, Validator)]
        #[validator($a)]
        pub struct $n {
            pub url:      Url,
            pub protocol: validators::models::Protocol,
        }
        impl Dump for $n {
            fn dump(&self) -> String {
                use validators::models::Protocol;
                let p = match self.protocol {
                    Protocol::HTTP => "http",
                    Protocol::HTTPS => "https",
                    Protocol::FTP => "ftp",
                };
                format!("{p} {}", show(&self.url))
            }
        }
        subject!($n; text);
    };
}

fn show(u: &Url) -> String {
    format!("{:?} host {:?} port {:?}", u.as_str(), u.host_str(), u.port())
}

http!(H0, http_url);
http!(H1, http_url(local(Allow)));
http!(H2, http_url(local(Must)));
http!(H3, http_url(local(Disallow)));
ftp!(F0, http_ftp_url);
ftp!(F1, http_ftp_url(local(Allow)));
ftp!(F2, http_ftp_url(local(Must)));
ftp!(F3, http_ftp_url(local(Disallow)));

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    let Tok::Str(s) = t else { return Exp::Unspecified };
    let low = s.to_ascii_lowercase();
    let scheme = if low.starts_with("http:") {
        Some("http")
    } else if low.starts_with("https:") {
        Some("https")
    } else if low.starts_with("ftp:") && c.ftp {
        Some("ftp")
    } else {
        None
    };
    let u = Url::parse(s);
    let Some(scheme) = scheme else {
        // "may not be valid", but the scheme is certainly not one of ours
        let mut r = vec!["ProtocolError"];
        if u.is_err() {
            r.push("ParseError");
        }
        return Exp::Reject(r);
    };
    let u = match u {
        Ok(u) => u,
        Err(_) => return Exp::reject(&["ParseError"]),
    };
    // classify the host the parser returned from its text
    let h = u.host_str().unwrap_or("");
    let local = if let Some(x) = h.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
        net::local_v6(x.parse().unwrap())
    } else if let Some(q) = net::quad(h).filter(|_| !h.ends_with('.')) {
        net::local_v4(q)
    } else {
        net::local_name(h)
    };
    match c.local {
        Tri::Must if !local => Exp::reject(&["LocalMust"]),
        Tri::Disallow if local => Exp::reject(&["LocalDisallow"]),
        _ => Exp::AcceptC(format!("{scheme} {}", show(&u)), u.as_str().to_string()),
    }
}

const MUT: &[&str] = &[
    ":", "/", "//", "\\", "@", "?", "#", "http:", "https:", "ftp:", "HTTP:", "s", "h", " ", "\t", "\n", "[", "]", "localhost", "127.0.0.1", "0x7f000001", "2130706433", "１２７", "。", "%6c", "%31", ":80", ":443", ":99999", "[::1]", "xn--",
];

pub fn gen_tok(r: &mut Rng) -> Tok {
    let scheme = r.pick(&["http", "https", "ftp", "http", "https", "ftp", "ftps", "file", "ws", "httpss", "htp", "mailto", "", "ｈttp", "httpſ", "hTTp"]);
    let scheme = gens::flip_case(r, scheme);
    let sl = if r.chance(3, 4) { "//" } else { r.pick(&["", "/", "///", "\\\\", "/\\", "//\t", " //", "\n//"]) };
    let user = if r.chance(5, 6) { String::new() } else { r.pick(&["u@", "u:p@", "localhost@", "127.0.0.1@", "@", ":@", "a%40b@", "[::1]@"]).to_string() };
    let host = match r.below(8) {
        0 | 1 => net::gen_v4(r).to_string(),
        2 => {
            let i = net::gen_v6(r);
            format!("[{}]", net::v6_text(r, i))
        },
        3 => {
            let i = u32::from(net::gen_v4(r));
            match r.below(4) {
                0 => format!("{i}"),
                1 => format!("0x{i:x}"),
                2 => format!("0{i:o}"),
                _ => format!("{}.{}", i >> 24, i & 0xff_ffff),
            }
        },
        4 => r.pick(&["localhost", "LOCALHOST", "LocalHost", "localhost.", "ｌocalhost", "%6Cocalhost", "loc%61lhost", "localhost%2e", "a.localhost", "localhost.com", "127.1", "0177.0.0.1", "127.0.0.1.", "::1", "[::1", "[::ffff:127.0.0.1]", "127。0。0。1", "１２７.0.0.1", "localhost\t", "local\nhost", ""]).to_string(),
        _ => net::gen_domain(r),
    };
    let port = if r.chance(1, 3) { net::gen_port(r) } else { String::new() };
    let tail = if r.chance(1, 2) { "" } else { r.pick(&["/", "/a/b?c#d", "?q", "#f", "/é", "/%zz", "/../..", "\\x", "/ a ", "/\u{0}"]) };
    let s = format!("{scheme}:{sl}{user}{host}{port}{tail}");
    Tok::Str(match r.below(5) {
        0 => gens::mutate(r, &s, MUT),
        1 if r.chance(1, 4) => format!("{}{s}", r.pick(&[" ", "\t", "\n", "\u{feff}", "\u{0}"])),
        _ => s,
    })
}

pub fn corners() -> Vec<Tok> {
    let mut v = Vec::new();
    let hosts = [
        "localhost", "LOCALHOST", "localhost.", "a", "a.b", "127.0.0.1", "127.1", "2130706433", "0x7f.1", "8.8.8.8", "134744072", "[::1]", "[::]", "[2001:db8::1]", "[::ffff:7f00:1]", "[::ffff:808:808]", "[fe80::1]", "[2607::1]", "[ff0e::1]", "[ff02::1]", "10.0.0.1", "172.16.0.1",
        "172.32.0.0", "192.168.0.1", "169.254.1.1", "255.255.255.255", "0.0.0.0", "0", "192.0.2.1", "198.51.100.7", "203.0.113.9", "", ".", "%31", "１２７。０。０。１", "中文", "xn--fiq228c", "a b", "1.2.3.256", "[1.2.3.4]", "[::1", "::1",
    ];
    for sch in ["http", "https", "ftp", "HTTP", "HttpS", "FTP", "ftps", "httpx", "htt", "file", "ws", "wss", "data", ""] {
        for h in hosts {
            for sl in ["//", "", "/", "\\\\", "///"] {
                for tail in ["", "/", ":1/x", ":99999", "?a#b"] {
                    v.push(Tok::Str(format!("{sch}:{sl}{h}{tail}")));
                }
            }
            v.push(Tok::Str(format!("{sch}{h}")));
        }
        for p in [" ", "\t", "\n", "\u{0}", "\u{feff}", "x", ":"] {
            v.push(Tok::Str(format!("{p}{sch}://a.b/")));
            v.push(Tok::Str(format!("{sch}{p}://a.b/")));
        }
    }
    v.extend(gens::strs(gens::all_strings(&["http", "s", "ftp", ":", "/", "a", " "], 4)));
    v
}

fn targets() -> Vec<Target> {
    use validators::errors::{HttpFtpURLError, HttpURLError};
    let mut v = Vec::new();
    macro_rules! h {
        ($n:ident, $name:literal, $l:ident) => {
            v.push(ws!(target!($n, "http_url", $name, |t| judge(&Cfg { ftp: false, local: Tri::$l }, t)), $n, HttpURLError, |v| Some(v.url.to_string())));
        };
    }
    macro_rules! f {
        ($n:ident, $name:literal, $l:ident) => {
            v.push(ws!(target!($n, "http_ftp_url", $name, |t| judge(&Cfg { ftp: true, local: Tri::$l }, t)), $n, HttpFtpURLError, |v| Some(v.url.to_string())));
        };
    }
    h!(H0, "http_url", Allow);
    h!(H1, "http_url(local(Allow))", Allow);
    h!(H2, "http_url(local(Must))", Must);
    h!(H3, "http_url(local(Disallow))", Disallow);
    f!(F0, "http_ftp_url", Allow);
    f!(F1, "http_ftp_url(local(Allow))", Allow);
    f!(F2, "http_ftp_url(local(Must))", Must);
    f!(F3, "http_ftp_url(local(Disallow))", Disallow);
    v
}

pub fn family() -> Family {
    Family { name: "url", targets: targets(), gen_tok, corners }
}
