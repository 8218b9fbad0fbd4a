//! T10: host names and the DER helper used to describe trust anchors.
use hx_lib::*;
use rustls_pki_types as pki;
use tls_core::{anchors::RootCertStore, dns::ServerName, msgs::{codec::Codec, handshake::ClientExtension}, x509};

/// Independent recogniser for DNS host names as RFC 1034/1123 syntax with underscores, an optional
/// trailing dot and no all-numeric last label.
fn valid(s: &str) -> bool {
    let b = s.strip_suffix('.').unwrap_or(s);
    if b.is_empty() || s.len() > 253 {
        return false;
    }
    let labels: Vec<&str> = b.split('.').collect();
    labels.iter().all(|l| {
        !l.is_empty()
            && l.len() <= 63
            && l.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')
            && !l.starts_with('-')
            && !l.ends_with('-')
    }) && !labels.last().unwrap().chars().all(|c| c.is_ascii_digit())
}

fn check(h: &Hx, s: &str) -> R {
    let r = ServerName::try_from(s);
    ck_eq!(r.is_ok(), valid(s), "validity of {s:?}");
    h.trans(1);
    let Ok(n) = r else { return Ok(()) };
    ck_eq!(n.for_sni().map(|d| d.as_ref().to_string()), Some(s.to_string()), "name kept");
    let mut want = vec![1, s.len() as u8];
    want.extend(s.as_bytes());
    ck_eq!(n.encode(), want, "identity encoding");
    // SNI: RFC 6066 forbids the trailing dot
    let host = s.strip_suffix('.').unwrap_or(s).as_bytes();
    let mut w = vec![0, 0];
    let l = host.len();
    w.extend(((l + 5) as u16).to_be_bytes());
    w.extend(((l + 3) as u16).to_be_bytes());
    w.push(0);
    w.extend((l as u16).to_be_bytes());
    w.extend(host);
    let mut o = vec![];
    ClientExtension::make_sni(n.for_sni().unwrap()).encode(&mut o);
    ck_eq!(o, w, "SNI of {s:?}");
    Ok(())
}

pub fn t10(h: &Hx) {
    let al = ['a', '9', '-', '.', '_', 'Z', ' ', '*', 'é'];
    let n = h.tier(7, 8);
    h.note("bounds", format!("every string of <= {n} characters over {al:?}; label lengths 0..=65 and name lengths to 260; DER lengths 0..=70000 and around each power of 256"));
    let firsts: Vec<Vec<usize>> = all_seqs(al.len(), 0, 2);
    h.par(&firsts, |p| {
        let tails: Vec<Vec<usize>> = if p.len() == 2 { all_seqs(al.len(), 0, n - 2) } else { vec![vec![]] };
        for t in &tails {
            let s: String = p.iter().chain(t).map(|i| al[*i]).collect();
            h.case(|| format!("name/{s:?}"), || {
                h.state(s.as_str());
                check(h, &s)
            });
        }
    });
    let lens: Vec<usize> = (0..=260).collect();
    h.par(&lens, |&n| {
        h.case(|| format!("len/{n}"), || {
            for k in [1usize, 2, 3, 62, 63, 64] {
                let mut s: String = (0..n).map(|i| if (i + 1) % (k + 1) == 0 { '.' } else { 'a' }).collect();
                check(h, &s)?;
                s.push('.');
                check(h, &s)?;
                h.state(s.as_str());
            }
            Ok(())
        });
    });
    // DER
    let der = |n: usize| -> Vec<u8> {
        if n < 128 {
            return vec![n as u8];
        }
        let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        let mut o = vec![0x80 | b.len() as u8];
        o.extend(b);
        o
    };
    let sizes: Vec<usize> = (0..=h.tier(70000, 140000)).chain([65534, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24]).collect();
    h.par(&sizes, |&n| {
        h.case(|| format!("der/{n}"), || {
            let body: Vec<u8> = (0..n).map(|i| i as u8).collect();
            let mut v = body.clone();
            x509::wrap_in_asn1_len(&mut v);
            let l = der(n);
            ck!(v[..l.len()] == l[..] && v[l.len()..] == body[..], "length prefix of {n}");
            let mut v = body.clone();
            x509::wrap_in_sequence(&mut v);
            ck!(v[0] == 0x30 && v[1..1 + l.len()] == l[..] && v[1 + l.len()..] == body[..], "sequence of {n}");
            h.state(&n);
            h.trans(2);
            Ok(())
        });
    });
    for n in [10usize, 100, 255, 256, 257, 1000] {
        h.case(|| format!("subjects/many/{n}"), || {
            let name = |i: usize| -> Vec<u8> { (0..(i * 37) % 400).map(|j| (i + j) as u8).collect() };
            let roots = (0..n).map(|i| pki::TrustAnchor { subject: pki::Der::from(name(i)), subject_public_key_info: pki::Der::from(vec![1]), name_constraints: None }).collect();
            let st = RootCertStore { roots };
            ck_eq!(st.len(), n, "len");
            let sub: Vec<Vec<u8>> = st.subjects().iter().map(|d| d.0.clone()).collect();
            let want: Vec<Vec<u8>> = (0..n).map(|i| [vec![0x30], der(name(i).len()), name(i)].concat()).collect();
            ck!(sub == want, "subjects of {n} roots");
            h.state(&("m", n));
            Ok(())
        });
    }
    // trust anchor subjects
    for s in all_seqs(5, 0, h.tier(4, 5)) {
        h.case(|| format!("subjects/{s:?}"), || {
            let sz = [0usize, 1, 127, 128, 300];
            let roots: Vec<pki::TrustAnchor<'static>> = s
                .iter()
                .enumerate()
                .map(|(i, k)| pki::TrustAnchor { subject: pki::Der::from(vec![i as u8; sz[*k]]), subject_public_key_info: pki::Der::from(vec![1]), name_constraints: None })
                .collect();
            let st = RootCertStore { roots };
            ck_eq!(st.len(), s.len(), "len");
            ck_eq!(st.is_empty(), s.is_empty(), "empty");
            let sub: Vec<Vec<u8>> = st.subjects().iter().map(|d| d.0.clone()).collect();
            let want: Vec<Vec<u8>> = s.iter().enumerate().map(|(i, k)| [vec![0x30], der(sz[*k]), vec![i as u8; sz[*k]]].concat()).collect();
            ck_eq!(sub, want, "subjects");
            h.state(&("s", &s));
            Ok(())
        });
    }
}
