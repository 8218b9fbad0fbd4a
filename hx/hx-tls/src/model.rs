//! Reference facts about the certificate fixtures and an independent path check.
use std::collections::BTreeMap;

/// seconds since the epoch of YYYY-01-01T00:00:00Z
pub fn year(y: u64) -> u64 {
    let mut d = 0;
    for i in 1970..y {
        d += if (i % 4 == 0 && i % 100 != 0) || i % 400 == 0 { 366 } else { 365 };
    }
    d * 86400
}

/// What the reference knows about each certificate: issuer, validity, may it issue, path length.
pub struct C {
    pub issuer: &'static str,
    pub from: u64,
    pub to: u64,
    pub ca: bool,
    pub max_below: usize,
    pub server: bool,
    pub sans: &'static [&'static str],
    pub permitted: Option<&'static str>,
}
pub const STD: &[&str] = &["example.com", "*.wild.example.org", "upper.example.net"];
pub fn facts() -> BTreeMap<&'static str, C> {
    let ca = |issuer, from, to| C { issuer, from: year(from), to: year(to), ca: true, max_below: 99, server: true, sans: &[], permitted: None };
    let leaf = |issuer, sans| C { issuer, from: year(2024), to: year(2026), ca: false, max_below: 0, server: true, sans, permitted: None };
    BTreeMap::from([
        ("inter", ca("root", 2021, 2035)),
        ("inter2", ca("inter", 2022, 2034)),
        ("inter_len0", C { max_below: 0, ..ca("root", 2021, 2035) }),
        ("inter_under_len0", ca("inter_len0", 2021, 2035)),
        ("inter_nonca", C { ca: false, ..ca("root", 2021, 2035) }),
        ("inter_nc", C { permitted: Some("example.com"), ..ca("root", 2021, 2035) }),
        ("leaf_root_p256", C { from: year(2023), to: year(2030), ..leaf("root", STD) }),
        ("leaf_p256", leaf("inter", STD)),
        ("leaf_p384", leaf("inter", STD)),
        ("leaf_rsa", leaf("inter", STD)),
        ("leaf_rsa1024", leaf("inter", STD)),
        ("leaf_ed", leaf("inter", STD)),
        ("leaf_deep", leaf("inter2", STD)),
        ("leaf_root2", leaf("root2", STD)),
        ("leaf_client", C { server: false, ..leaf("inter", STD) }),
        ("leaf_noeku", leaf("inter", STD)),
        ("leaf_nonca", leaf("inter_nonca", STD)),
        ("leaf_len0", leaf("inter_len0", STD)),
        ("leaf_under_len0", leaf("inter_under_len0", STD)),
        ("leaf_nc_ok", leaf("inter_nc", &["a.example.com"])),
        ("leaf_nc_bad", leaf("inter_nc", &["a.example.com", "evil.org"])),
        ("leaf_nosan", leaf("inter", &[])),
        ("leaf_ip", leaf("inter", &[])),
    ])
}

/// Independent path check.
pub fn chain_ok(f: &BTreeMap<&'static str, C>, leaf: &str, inter: &[&str], roots: &[&str], now: u64) -> bool {
    let l = &f[leaf];
    if !l.server || !(l.from <= now && now <= l.to) {
        return false;
    }
    let mut below = 0; // intermediates below the current issuer
    let mut cur = l;
    loop {
        if roots.contains(&cur.issuer) {
            return true;
        }
        let Some(name) = inter.iter().find(|i| **i == cur.issuer) else { return false };
        let c = &f[name];
        if !c.ca || !(c.from <= now && now <= c.to) || below > c.max_below {
            return false;
        }
        if let Some(p) = c.permitted {
            if !l.sans.iter().all(|s| *s == p || s.ends_with(&format!(".{p}"))) {
                return false;
            }
        }
        below += 1;
        cur = c;
    }
}
pub fn name_ok(sans: &[&str], name: &str) -> bool {
    let n = name.to_ascii_lowercase();
    let n = n.strip_suffix('.').unwrap_or(&n);
    sans.iter().any(|s| match s.strip_prefix("*.") {
        None => *s == n,
        Some(base) => n.split_once('.').is_some_and(|(l, rest)| !l.is_empty() && rest == base),
    })
}

pub const NAMES: &[&str] = &[
    "example.com", "EXAMPLE.com", "example.com.", "www.example.com", "example.co", "example.comm", "xample.com", "evil.org",
    "a.example.com", "b.example.com", "a.wild.example.org", "B.WILD.example.org", "wild.example.org", "a.b.wild.example.org",
    "awild.example.org", "upper.example.net", "Upper.Example.NET", "upper.example.net.", "example.net", "com", "vp",
];
