mod clock;
mod drv;
mod drv_scn;
mod log;
mod low;
mod refimpl;
mod replay;
mod replayd;
mod secrets;
mod sess;
mod shape;
mod stats;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("HARNESS_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let group = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let out = a.get(2).cloned().unwrap_or_default();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    if group == "secrets_child" {
        let stream = std::env::var("HARNESS_STREAM").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        secrets::child(seed, stream);
        return;
    }
    let c = low::Cfg { seed, thorough };
    if let Err(e) = refimpl::selftest() {
        eprintln!("{e}");
        std::process::exit(2);
    }
    let mut l = log::Log::create(&out);
    let group = match group.strip_prefix("h_") {
        Some(g) => {
            drv::SHAPED.store(true, std::sync::atomic::Ordering::SeqCst);
            shape::fast(true);
            l.also = Some(("shaped", "C15"));
            format!("d_{g}")
        }
        None => group.to_string(),
    };
    match &group[..] {
        "honest" => low::honest(&mut l, &c),
        "garbage" => low::garbage(&mut l, &c),
        "sizes" => low::sizes(&mut l, &c),
        "refuse" => low::refuse(&mut l, &c),
        "attack" => low::attack(&mut l, &c),
        "headers" => low::headers(&mut l, &c),
        "rekey" => low::rekey(&mut l, &c),
        "v1" => low::v1(&mut l, &c),
        "replay" => replay::replay(&mut l, &c, &a[3]),
        "tamper" => low::tamper(&mut l, &c),
        "d_frag" => drv_scn::frag_honest(&mut l, &c),
        "d_points" => drv_scn::frag_points(&mut l, &c),
        "d_glued" => drv_scn::glued(&mut l, &c),
        "d_sizes" => drv_scn::sizes(&mut l, &c),
        "d_bulk" => drv_scn::bulk(&mut l, &c),
        "d_large" => drv_scn::cancels_large(&mut l, &c),
        "d_term" => drv_scn::terminators(&mut l, &c),
        "d_cuts" => drv_scn::cuts(&mut l, &c),
        "d_v1" => drv_scn::v1(&mut l, &c),
        "d_tamper" => drv_scn::tampered(&mut l, &c),
        "d_decoys" => drv_scn::decoys(&mut l, &c),
        "d_limits" => drv_scn::limits(&mut l, &c),
        "d_cancel" => drv_scn::cancels(&mut l, &c),
        "d_writes" => drv_scn::writes(&mut l, &c),
        "d_held" => drv_scn::held(&mut l, &c),
        "replayd" => replayd::replay(&mut l, &c, &a[3]),
        "d_halves" => drv_scn::halves(&mut l, &c),
        "sa_mixed" => shape::mixed(&mut l, &c, true),
        "ss_mixed" => shape::mixed(&mut l, &c, false),
        "sa_fails" => shape::fails(&mut l, &c, true),
        "ss_fails" => shape::fails(&mut l, &c, false),
        "sa_drops" => shape::drops(&mut l, &c, true),
        "ss_drops" => shape::drops(&mut l, &c, false),
        "sa_amounts" => shape::amounts(&mut l, &c, true),
        "ss_amounts" => shape::amounts(&mut l, &c, false),
        "replays" => shape::replay(&mut l, &c, &a[3]),
        "st_seq" => stats::sequential(&mut l, &c),
        "st_par" => stats::concurrent(&mut l, &c),
        "sec_fresh" => secrets::fresh(&mut l, &c),
        "replaysec" => secrets::replay(&mut l, &c, &a[3]),
        "sec_src" => secrets::sources(&mut l, &c),
        "s_hs" => shape::handshakes(&mut l, &c),
        _ => {
            eprintln!("unknown group {group}");
            std::process::exit(2);
        }
    }
    let summary = serde_json::to_string(&l.summary).unwrap();
    let (cases, lines) = l.finish();
    println!("{{\"group\":\"{group}\",\"cases\":{cases},\"lines\":{lines},\"ops\":{summary}}}");
}
