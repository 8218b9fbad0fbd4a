//! T14: everything that is stored or sent on as a value reads back as that value.
use crate::certs::Fx;
use crate::wire::*;
use hx_lib::*;
use serde::{de::DeserializeOwned, Serialize};
use std::{collections::HashMap, fmt::Debug, sync::Mutex};
use tls_core::{
    cert::ServerCertDetails,
    handshake::HandshakeData,
    ke::ServerKxDetails,
    key::{Certificate, PublicKey},
    msgs::{
        base::{Payload, PayloadU16, PayloadU24, PayloadU8},
        enums::*,
        handshake::{DigitallySignedStruct, Random},
    },
};

/// The copy read back from both storage forms; both must be complete reads.
pub fn copies<T: Serialize + DeserializeOwned>(v: &T) -> Result<Vec<(&'static str, T, Vec<u8>)>, String> {
    let b = bincode::serialize(v).map_err(|e| format!("binary: {e}"))?;
    let j = serde_json::to_vec(v).map_err(|e| format!("text: {e}"))?;
    let jv = serde_json::to_value(v).map_err(|e| format!("value: {e}"))?;
    Ok(vec![
        ("binary", bincode::deserialize(&b).map_err(|e| format!("binary: {e}"))?, b),
        ("text", serde_json::from_slice(&j).map_err(|e| format!("text: {e}"))?, j),
        ("value", serde_json::from_value(jv.clone()).map_err(|e| format!("value: {e}"))?, jv.to_string().into_bytes()),
    ])
}
/// A different value must never have the same stored form.
struct Distinct(Mutex<HashMap<(&'static str, Vec<u8>), String>>);
impl Distinct {
    fn new() -> Self {
        Self(Mutex::new(HashMap::new()))
    }
    fn put(&self, form: &'static str, bytes: Vec<u8>, who: &str) -> R {
        if let Some(o) = self.0.lock().unwrap().insert((form, bytes), who.to_string()) {
            ck_eq!(o, who.to_string(), "two values share a stored {form} form");
        }
        Ok(())
    }
}
fn same<T: Serialize + DeserializeOwned + PartialEq + Debug>(d: &Distinct, v: &T) -> R {
    for (form, c, bytes) in copies(v)? {
        ck!(&c == v, "{form} copy is {c:?}, stored {v:?}");
        d.put(form, bytes, &format!("{v:?}"))?;
    }
    Ok(())
}
/// A truncated binary form never reads as a value.
fn no_prefix<T: Serialize + DeserializeOwned>(v: &T) -> R {
    let b = bincode::serialize(v).map_err(|e| e.to_string())?;
    for n in 0..b.len() {
        ck!(bincode::deserialize::<T>(&b[..n]).is_err(), "{n} of {} bytes were read as a whole value", b.len());
    }
    Ok(())
}

macro_rules! codes {
    ($h:expr, $($ty:ident : $int:ty),*) => {$(
        $h.case(|| format!("code/{}", stringify!($ty)), || {
            let d = Distinct::new();
            for v in 0..=<$int>::MAX {
                same(&d, &$ty::from(v))?;
                $h.trans(1);
            }
            $h.state(&stringify!($ty));
            Ok(())
        });
    )*};
}

fn hd(h: &HandshakeData) -> Vec<Vec<u8>> {
    let c = h.server_cert_details();
    let k = h.server_kx_details();
    let mut o: Vec<Vec<u8>> = c.cert_chain().iter().map(|c| c.0.clone()).collect();
    o.push(b"|ocsp".to_vec());
    o.push(c.ocsp_response().to_vec());
    o.push(if c.scts().is_some() { b"|scts".to_vec() } else { b"|none".to_vec() });
    o.extend(c.scts().map(|s| s.iter().map(|x| x.0.clone()).collect::<Vec<_>>()).unwrap_or_default());
    o.push(b"|kx".to_vec());
    o.push(k.kx_params().to_vec());
    o.push(k.kx_sig().scheme.get_u16().to_be_bytes().to_vec());
    o.push(k.kx_sig().sig.0.clone());
    o.push(h.client_random().0.to_vec());
    o.push(h.server_random().0.to_vec());
    o
}

pub fn t14(h: &Hx) {
    codes!(h, ProtocolVersion: u16, CipherSuite: u16, NamedGroup: u16, SignatureScheme: u16, ExtensionType: u16, NamedCurve: u16,
        HashAlgorithm: u8, SignatureAlgorithm: u8, ClientCertificateType: u8, Compression: u8, ContentType: u8, HandshakeType: u8,
        AlertLevel: u8, AlertDescription: u8, ServerNameType: u8, ECPointFormat: u8, ECCurveType: u8, PSKKeyExchangeMode: u8,
        KeyUpdateRequest: u8, CertificateStatusType: u8, HeartbeatMessageType: u8, HeartbeatMode: u8);
    // byte strings of every length, every byte value, both extremes
    let lens: Vec<usize> = (0..=h.tier(600, 3000)).chain([16383, 16384, 65535, 65536]).collect();
    h.par(&lens, |&n| {
        for fill in 0..3u8 {
            h.case(|| format!("bytes/{n}/{fill}"), || {
                let b: Vec<u8> = (0..n).map(|i| match fill { 0 => 0, 1 => 0xff, _ => (i * 7 + (i >> 8)) as u8 }).collect();
                same(&Distinct::new(), &Payload(b.clone()))?;
                same(&Distinct::new(), &PayloadU8(b.clone()))?;
                same(&Distinct::new(), &PayloadU16(b.clone()))?;
                same(&Distinct::new(), &PayloadU24(b.clone()))?;
                same(&Distinct::new(), &Certificate(b.clone()))?;
                for g in [0x0017u16, 0x001d, 0x0018, 0xfafa] {
                    let k = PublicKey::new(NamedGroup::from(g), &b);
                    same(&Distinct::new(), &k)?;
                    ck!(k.key == b && k.group.get_u16() == g, "constructed key");
                }
                if n <= 40 {
                    no_prefix(&Payload(b.clone()))?;
                    no_prefix(&PublicKey::new(NamedGroup::secp256r1, &b))?;
                    no_prefix(&DigitallySignedStruct::new(SignatureScheme::from(0x0403), b.clone()))?;
                }
                h.state(&(n, fill));
                h.trans(9);
                Ok(())
            });
        }
    });
    h.case(|| "random".into(), || {
        let d = Distinct::new();
        for i in 0..32 {
            for v in 0..=255u8 {
                let mut b = [0x5au8; 32];
                b[i] = v;
                same(&d, &Random(b))?;
                h.trans(1);
            }
        }
        no_prefix(&Random([7; 32]))
    });
    // the complete record of a handshake: every combination of parts
    let fx = Fx::load(h);
    let (leaf, inter) = (fx.cert("leaf_p256"), fx.cert("inter"));
    let chains: Vec<Vec<Certificate>> = vec![vec![], vec![leaf.clone()], vec![leaf.clone(), inter.clone()], vec![inter.clone(), leaf.clone()], vec![Certificate(vec![])], vec![leaf, inter.clone(), inter]];
    let blobs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], b"\"\\\n\xff".to_vec(), vec![0; 300]];
    let scts: Vec<Option<Vec<PayloadU16>>> = vec![None, Some(vec![]), Some(vec![PayloadU16(vec![])]), Some(vec![PayloadU16(vec![1]), PayloadU16(vec![2, 3])]), Some(vec![PayloadU16(vec![2, 3]), PayloadU16(vec![1])])];
    let params: Vec<Vec<u8>> = vec![vec![], cat(&[&[3, 0, 23], &l8(&[4; 65])]), vec![3, 0, 23, 0], vec![9; 1000]];
    let sigs: Vec<(u16, Vec<u8>)> = vec![(0x0403, vec![]), (0x0403, vec![1; 70]), (0x0804, vec![1; 70]), (0x0000, vec![1; 70]), (0xfefe, vec![2])];
    let d = Distinct::new();
    let jobs: Vec<(usize, usize)> = (0..chains.len()).flat_map(|a| (0..blobs.len()).map(move |b| (a, b))).collect();
    h.par(&jobs, |&(a, b)| {
        for (si, s) in scts.iter().enumerate() {
            for (pi, p) in params.iter().enumerate() {
                for (gi, (sc, sg)) in sigs.iter().enumerate() {
                    h.case(|| format!("hs/{a}/{b}/{si}/{pi}/{gi}"), || {
                        for (ri, (cr, sr)) in [([1u8; 32], [2u8; 32]), ([2; 32], [1; 32]), ([0; 32], [0; 32])].into_iter().enumerate() {
                            let v = HandshakeData::new(
                                ServerCertDetails::new(chains[a].clone(), blobs[b].clone(), s.clone()),
                                ServerKxDetails::new(p.clone(), DigitallySignedStruct::new(SignatureScheme::from(*sc), sg.clone())),
                                Random(cr),
                                Random(sr),
                            );
                            // the record gives back what it was made from
                            let want = {
                                let mut o: Vec<Vec<u8>> = chains[a].iter().map(|c| c.0.clone()).collect();
                                o.push(b"|ocsp".to_vec());
                                o.push(blobs[b].clone());
                                o.push(if s.is_some() { b"|scts".to_vec() } else { b"|none".to_vec() });
                                o.extend(s.iter().flatten().map(|x| x.0.clone()));
                                o.push(b"|kx".to_vec());
                                o.push(p.clone());
                                o.push(u16b(*sc));
                                o.push(sg.clone());
                                o.push(cr.to_vec());
                                o.push(sr.to_vec());
                                o
                            };
                            ck!(hd(&v) == want, "a handshake record does not hold what it was made from");
                            for (form, c, bytes) in copies(&v)? {
                                ck!(hd(&c) == want, "{form} copy of a handshake record differs");
                                d.put(form, bytes, &format!("{a}/{b}/{si}/{pi}/{gi}/{ri}"))?;
                            }
                            h.trans(1);
                            h.state(&(a, b, si, pi, gi, ri));
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    h.note("bounds", "every number of 22 code point types; 3 fills of every listed length; 6 chains x 5 status responses x 5 timestamp lists x 4 parameters x 5 signatures x 3 pairs of randoms, 3 storage forms");
    h.assume("storage forms are serde's through bincode 1.3 and serde_json, the ones the crates above use");
}
