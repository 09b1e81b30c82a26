//! One type of every kind, for whole documents, forms and applications.
use validators::prelude::*;

macro_rules! types {
    ($($n:ident $fields:tt ($($a:tt)*);)*) => {
        $( types!(@one $n $fields ($($a)*)); )*
    };
    (@one $n:ident { $($f:tt)* } ($($a:tt)*)) => {
        #[derive(Debug, Clone, Validator)]
        #[validator($($a)*)]
        pub struct $n { $($f)* }
    };
    (@one $n:ident [ $($f:tt)* ] ($($a:tt)*)) => {
        #[derive(Debug, Clone, Validator)]
        #[validator($($a)*)]
        pub struct $n($($f)*);
    };
}

types! {
    B32 [pub String] (base32(padding(Must)));
    B32D [pub Vec<u8>] (base32_decoded);
    B64 [pub String] (base64(padding(Disallow)));
    B64D [pub Vec<u8>] (base64_decoded);
    B64U [pub String] (base64_url);
    B64UD [pub Vec<u8>] (base64_url_decoded(padding(Must)));
    Bits [pub validators::byte_unit::Bit] (bit);
    Bytes [pub validators::byte_unit::Byte] (byte);
    Bool [pub bool] (boolean);
    Dom { pub domain: String, pub port: Option<u16> } (domain);
    Mail { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, } (email(comment(Disallow)));
    HostT { pub host: validators::models::Host, pub port: Option<u16> } (host);
    Http { pub url: validators::url::Url, pub is_https: bool } (http_url);
    Ftp { pub url: validators::url::Url, pub protocol: validators::models::Protocol } (http_ftp_url);
    IpT { pub ip: std::net::IpAddr, pub port: Option<u16> } (ip);
    Ip4 { pub ipv4: std::net::Ipv4Addr, pub port: Option<u16> } (ipv4);
    Ip6 { pub ipv6: std::net::Ipv6Addr, pub port: Option<u16> } (ipv6);
    JsonT [pub Vec<u8>] (json);
    LineT [pub String] (line(char_length(trimmed_min = 1, max = 10)));
    Mac [pub u64] (mac_address(separator(Allow(b':'))));
    Num [pub f64] (number(range(Inside(min = -5.0, max = 1e6))));
    PhoneT [pub validators::phonenumber::PhoneNumber] (phone);
    Re [pub String] (regex(regex("^[0-9a-f]{2}$")));
    Ver [pub validators::semver::Version] (semver);
    Req [pub validators::semver::VersionReq] (semver_req);
    Int [pub i16] (signed_integer(range(Inside(min = -300, max = 300))));
    TextT [pub String] (text(char_length(min = 1)));
    Uint [pub u8] (unsigned_integer(range(Outside(min = 5, max = 250))));
    UrlT [pub validators::url::Url] (url);
    UuidT [pub u128] (uuid(separator(Disallow)));
}

