//! S04: benchmark and network configuration of the test harness.
use harness_core::{bench::*, network::*, rpc::*, test::*, *};
use hx_lib::*;
use ipnet::Ipv4Net;
use serde_json::{json, Value};

const FIELDS: [&str; 8] = ["protocol_latency", "app_latency", "bandwidth", "upload-size", "download-size", "defer-decryption", "memory-profile", "reveal-all"];
const DEF: [u64; 8] = [50, 50, 1000, 1024, 4096, 1, 0, 0];

fn val(i: usize, v: u64) -> Value {
    if i >= 5 { json!(v == 1) } else { json!(v) }
}
fn item(group: Option<&str>, name: Option<&str>, samples: Option<u64>, mask: u32, base: u64, proxy: Option<bool>) -> Value {
    let mut m = serde_json::Map::new();
    if let Some(g) = group { m.insert("group".into(), json!(g)); }
    if let Some(n) = name { m.insert("name".into(), json!(n)); }
    if let Some(s) = samples { m.insert("samples".into(), json!(s)); }
    for i in 0..8 {
        if mask >> i & 1 == 1 {
            m.insert(FIELDS[i].into(), val(i, if i >= 5 { 1 - DEF[i] } else { base + i as u64 }));
        }
    }
    if let Some(p) = proxy { m.insert("proxy".into(), json!(p)); }
    Value::Object(m)
}
fn bench_vals(b: &Bench) -> Vec<u64> {
    vec![b.protocol_latency as u64, b.app_latency as u64, b.bandwidth as u64, b.upload_size as u64, b.download_size as u64, b.defer_decryption as u64, b.memory_profile as u64, b.reveal_all as u64, b.proxy as u64]
}

pub fn s04(h: &Hx) {
    // each field: set by the item, by its group, by both or by neither
    let masks: Vec<(u32, u32)> = (0..256u32).flat_map(|a| (0..256u32).map(move |b| (a, b))).collect();
    h.par(&masks, |&(im, gm)| {
        h.case(|| format!("merge/{im:x}/{gm:x}"), || {
            for (ip, gp) in [(None, None), (Some(true), None), (None, Some(true)), (Some(false), Some(true)), (Some(true), Some(false))] {
                for grouped in [true, false] {
                    // group values: another base; booleans equal to the non-default
                    let doc = json!({
                        "group": [item(None, Some("g"), None, gm, 200, gp), item(None, Some("other"), Some(9), 255, 900, Some(true))],
                        "bench": [item(grouped.then_some("g"), Some("b"), None, im, 100, ip)],
                    });
                    let it: BenchItems = serde_json::from_value(doc).map_err(|e| e.to_string())?;
                    let out = it.to_benches(1, false);
                    ck!(out.len() == 1, "{} runs", out.len());
                    let b = &out[0];
                    let mut x: Vec<u64> = (0..8)
                        .map(|i| {
                            let flip = |base: u64| if i >= 5 { 1 - DEF[i] } else { base + i as u64 };
                            if im >> i & 1 == 1 { flip(100) } else if grouped && gm >> i & 1 == 1 { flip(200) } else { DEF[i] }
                        })
                        .collect();
                    x.push(ip.or(if grouped { gp } else { None }).unwrap_or(false) as u64);
                    ck_eq!(bench_vals(b), x, "item {im:08b} group {gm:08b} grouped {grouped}");
                    ck!(b.name.as_deref() == Some("b") && b.group.as_deref() == grouped.then_some("g"), "names {:?} {:?}", b.group, b.name);
                    h.state(&x);
                    h.trans(1);
                }
            }
            Ok(())
        });
    });
    // a boolean set by the item is not overridden by its group
    h.case(|| "booleans".into(), || {
        for f in 5..8 {
            for iv in [None, Some(false), Some(true)] {
                for gv in [None, Some(false), Some(true)] {
                    let mut i = json!({"group": "g"});
                    let mut g = json!({"name": "g"});
                    if let Some(v) = iv { i[FIELDS[f]] = json!(v); }
                    if let Some(v) = gv { g[FIELDS[f]] = json!(v); }
                    let it: BenchItems = serde_json::from_value(json!({"group": [g], "bench": [i]})).map_err(|e| e.to_string())?;
                    let b = it.to_benches(1, false);
                    ck_eq!(bench_vals(&b[0])[f], iv.or(gv).unwrap_or(DEF[f] == 1) as u64, "{} item {iv:?} group {gv:?}", FIELDS[f]);
                    h.trans(1);
                }
            }
        }
        Ok(())
    });
    // the warm-up runs: default sizes over the fastest network, everything revealed
    h.case(|| "warm-up".into(), || {
        for (b, proxy) in [(&WARM_UP_BENCH, 0), (&WARM_UP_BENCH_PROXY, 1)] {
            ck_eq!(bench_vals(b), vec![1, 1, DEF[2], DEF[3], DEF[4], 1, 0, 1, proxy], "warm-up run");
            ck!(b.name.is_none() && b.group.is_none(), "warm-up run is named");
        }
        Ok(())
    });
    // number and order of runs
    let opts: Vec<(Option<&str>, Option<&str>, Option<u64>)> = {
        let mut v = vec![];
        for g in [None, Some("a"), Some("b")] {
            for n in [None, Some("x"), Some("y")] {
                for s in [None, Some(0), Some(2)] {
                    v.push((g, n, s));
                }
            }
        }
        v
    };
    let seqs = all_seqs(opts.len(), 0, h.tier(3, 4));
    h.par(&seqs, |s| {
        h.case(|| format!("runs/{s:?}"), || {
            let doc = json!({
                "group": [item(None, Some("a"), Some(3), 0, 0, None), item(None, Some("b"), None, 0, 0, None)],
                "bench": s.iter().enumerate().map(|(k, i)| { let mut v = item(opts[*i].0, opts[*i].1, opts[*i].2, 0, 0, None); v["bandwidth"] = json!(k); v }).collect::<Vec<_>>(),
            });
            let it: BenchItems = serde_json::from_value(doc).map_err(|e| e.to_string())?;
            for (n, ov) in [(1usize, false), (4, false), (0, false), (4, true), (0, true)] {
                let out = it.to_benches(n, ov);
                let mut x: Vec<(Option<String>, Option<String>, usize)> = vec![];
                for (k, i) in s.iter().enumerate() {
                    let (g, nm, sm) = opts[*i];
                    let c = if ov { n } else { sm.map(|x| x as usize).or(if g == Some("a") { Some(3) } else { None }).unwrap_or(n) };
                    for _ in 0..c {
                        x.push((g.map(|s| s.to_string()), nm.map(|s| s.to_string()), k));
                    }
                }
                x.sort_by_key(|a| (a.0.clone(), a.1.clone()));
                let got: Vec<_> = out.iter().map(|b| (b.group.clone(), b.name.clone(), b.bandwidth)).collect();
                ck_eq!(got, x, "runs with {n} samples, override {ov}");
                h.trans(1);
                h.state(&got);
            }
            Ok(())
        });
    });
    // a measurement repeats its configuration and metrics
    h.case(|| "measurement".into(), || {
        for m in 0..256u32 {
            for proxy in [false, true] {
                let it: BenchItems = serde_json::from_value(json!({"group": [], "bench": [item(None, Some("n"), None, m, 70, Some(proxy))]})).map_err(|e| e.to_string())?;
                let b = it.to_benches(1, false).remove(0);
                for heap in [None, Some(77usize)] {
                    let pm = ProverMetrics { time_preprocess: 1, time_online: 2, time_total: 3, uploaded_preprocess: 4, downloaded_preprocess: 5, uploaded_online: 6, downloaded_online: 7, uploaded_total: 8, downloaded_total: 9, heap_max_bytes: heap };
                    let r = Measurement::new(b.clone(), pm);
                    ck_eq!((r.group.clone(), r.name.clone(), r.latency, r.bandwidth, r.upload_size, r.download_size, r.defer_decryption, r.proxy),
                        (b.group.clone(), b.name.clone(), b.protocol_latency, b.bandwidth, b.upload_size, b.download_size, b.defer_decryption, b.proxy), "configuration");
                    ck_eq!([r.time_preprocess, r.time_online, r.time_total, r.uploaded_preprocess, r.downloaded_preprocess, r.uploaded_online, r.downloaded_online, r.uploaded_total, r.downloaded_total], [1, 2, 3, 4, 5, 6, 7, 8, 9], "metrics");
                    ck_eq!(r.heap_max_bytes, heap, "heap");
                    let r2: Measurement = serde_json::from_str(&serde_json::to_string(&r).unwrap()).map_err(|e| e.to_string())?;
                    ck!(format!("{r2:?}") == format!("{r:?}"), "stored measurement differs");
                    h.trans(1);
                }
            }
        }
        Ok(())
    });
    // network plan: distinct hosts of the subnet, for every subnet size that has enough
    let mut nets = vec![];
    for plen in 0..=28u8 {
        for base in [[10, 250, 0, 0], [192, 168, 7, 96], [0, 0, 0, 0], [255, 255, 255, 255], [172, 16, 255, 240]] {
            nets.push(Ipv4Net::new(base.into(), plen).unwrap());
        }
    }
    h.par(&nets, |net| {
        h.case(|| format!("net/{net}"), || {
            let c = NetworkConfig::new(*net);
            ck!(c.subnet == *net, "subnet {:?}", c.subnet);
            let mut ips = vec![c.host, c.proto_proxy.0, c.app_proxy.0, c.rpc_0.0, c.rpc_1.0, c.proto_0.0, c.proto_1.0, c.app.0, c.app_0, c.app_1];
            ck!(ips.iter().all(|i| net.contains(i)), "address outside {net}: {ips:?}");
            ck!(ips.iter().all(|i| *i != net.network() && *i != net.broadcast()), "network or broadcast address used: {ips:?}");
            ips.sort();
            ips.dedup();
            ck!(ips.len() == 10, "an address is used twice");
            ck_eq!([c.proto_proxy.1, c.app_proxy.1, c.rpc_0.1, c.rpc_1.1, c.proto_0.1, c.proto_1.1, c.app.1, c.wasm.1], [PORT_PROXY, PORT_PROXY, PORT_RPC, PORT_RPC, PORT_PROTO, PORT_PROTO, PORT_APP_SERVER, PORT_WASM_SERVER], "ports");
            ck!(c.wasm.0.is_loopback(), "wasm server is not local");
            for id in [Id::Zero, Id::One] {
                for io in [IoMode::Client, IoMode::Server] {
                    let e = ExecutorConfig::builder().id(id).io_mode(io).network_config(c.clone()).build();
                    let s = serde_json::to_string(&e).unwrap();
                    let e2: ExecutorConfig = serde_json::from_str(&s).map_err(|e| e.to_string())?;
                    ck!(format!("{e2:?}") == format!("{e:?}"), "stored executor configuration differs");
                    ck!(*e2.io_mode() == io && format!("{:?}", e2.id()) == format!("{id:?}"), "executor fields");
                    ck!(format!("{:?}", e2.network()) == format!("{c:?}"), "executor network");
                    h.trans(1);
                }
            }
            h.state(&net.to_string());
            Ok(())
        });
    });
    // modes: every spelling
    h.case(|| "modes".into(), || {
        for (w, m) in [("client", IoMode::Client), ("server", IoMode::Server)] {
            ck!(m.to_string() == w, "{m:?} is shown as {m}");
            for mask in 0..1u32 << w.len() {
                let s: String = w.chars().enumerate().map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                ck!(IoMode::try_from(s.as_str()) == Ok(m), "{s}");
                h.trans(1);
            }
            for i in 0..=w.len() {
                for c in ['x', ' ', 's', 'c', '\0'] {
                    let mut s = w.to_string();
                    s.insert(i, c);
                    ck!(IoMode::try_from(s.as_str()).is_err(), "{s:?} accepted");
                }
                if i < w.len() {
                    let mut s = w.to_string();
                    s.remove(i);
                    ck!(IoMode::try_from(s.as_str()).is_err(), "{s:?} accepted");
                }
            }
        }
        ck!(IoMode::try_from("").is_err(), "empty mode accepted");
        Ok(())
    });
    // command results reach the other side unchanged; a wrong kind names both kinds
    h.case(|| "rpc".into(), || {
        let st = [TestStatus::Passed, TestStatus::Failed { reason: None }, TestStatus::Failed { reason: Some("why".into()) }, TestStatus::TimedOut];
        let mut outs = vec![CmdOutput::Empty, CmdOutput::GetTests(vec![]), CmdOutput::GetTests(vec!["a".into(), "b".into()]), CmdOutput::Bench(BenchOutput::Verifier)];
        for (i, s) in st.iter().enumerate() {
            ck!(s.is_passed() == (i == 0), "{s:?} passed: {}", s.is_passed());
            outs.push(CmdOutput::Test(TestOutput { status: s.clone() }));
        }
        for o in &outs {
            let o2: CmdOutput = serde_json::from_str(&serde_json::to_string(o).unwrap()).map_err(|e| e.to_string())?;
            ck!(format!("{o2:?}") == format!("{o:?}"), "stored {o:?}");
            let is = (matches!(o, CmdOutput::GetTests(_)), matches!(o, CmdOutput::Test(_)), matches!(o, CmdOutput::Bench(_)));
            ck!(o.clone().try_into_get_tests().is_ok() == is.0 && o.clone().try_into_test().is_ok() == is.1 && o.clone().try_into_bench().is_ok() == is.2, "{o:?} conversions");
            if !is.1 {
                let e: RpcError = o.clone().try_into_test().unwrap_err().into();
                ck!(e.reason().contains("Test") && e.to_string().contains(e.reason()), "{e}");
            }
            h.trans(1);
        }
        let e = RpcError::new("r1");
        let e2: RpcError = serde_json::from_str(&serde_json::to_string(&e).unwrap()).map_err(|e| e.to_string())?;
        ck!(e.reason() == "r1" && e2.reason() == "r1", "reason");
        for role in [Role::Prover, Role::Verifier] {
            let c = Cmd::Test(TestCmd { name: "t".into(), role });
            let c2: Cmd = serde_json::from_str(&serde_json::to_string(&c).unwrap()).map_err(|e| e.to_string())?;
            ck!(format!("{c2:?}") == format!("{c:?}"), "stored command");
            for b in [WARM_UP_BENCH, WARM_UP_BENCH_PROXY] {
                let c = Cmd::Bench(BenchCmd { config: b, role });
                let c2: Cmd = serde_json::from_str(&serde_json::to_string(&c).unwrap()).map_err(|e| e.to_string())?;
                ck!(format!("{c2:?}") == format!("{c:?}"), "stored command");
            }
        }
        ck!(!WARM_UP_BENCH.proxy && WARM_UP_BENCH_PROXY.proxy, "warm-up modes");
        Ok(())
    });
}
