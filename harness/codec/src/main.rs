mod avp_props;
#[macro_use]
mod dict;
mod dict_gen;
mod dict_syn;
mod dict_props;
mod engine;
mod misc_props;
mod model;
mod packet_props;
mod util;

use engine::*;
use std::sync::atomic::Ordering;

#[cfg(feature = "md5")]
pub const BACKEND: &str = "md5";
#[cfg(feature = "openssl")]
pub const BACKEND: &str = "openssl";

/// codec PROPERTY quick|thorough OUT.json [--only SPACE INDEX] [--transcript FILE]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    if prop == "produce" {
        let mut o = vec![];
        for r in misc_props::produce(a[2] == "thorough") {
            for f in r {
                o.extend((f.len() as u32).to_le_bytes());
                o.extend(f);
            }
        }
        std::fs::write(&a[3], o).expect("write the records");
        return;
    }
    if prop == "consume" {
        install_hook();
        let bs = std::fs::read(&a[2]).expect("read the records");
        let (mut i, mut recs) = (0, vec![]);
        while i < bs.len() {
            recs.push(std::array::from_fn(|_| {
                let n = u32::from_le_bytes(bs[i..i + 4].try_into().unwrap()) as usize;
                i += 4 + n;
                bs[i - n..i].to_vec()
            }));
        }
        let outs = misc_props::consume(&recs);
        let lines: Vec<String> = recs.iter().zip(outs).map(|(r, o)| format!("kind {} secret {} context {} bytes {} => {o}", r[0][0], hex(&r[1]), hex(&r[2]), hex(&r[3]))).collect();
        std::fs::write(&a[3], lines.join("\n")).expect("write the readings");
        return;
    }
    let thorough = a[2] == "thorough";
    let out = a[3].clone();
    let mut only = None;
    let mut transcript = None;
    let mut i = 4;
    while i < a.len() {
        match a[i].as_str() {
            "--only" => {
                only = Some((a[i + 1].clone(), a[i + 2].parse().unwrap()));
                i += 3;
            }
            "--transcript" => {
                transcript = Some(a[i + 1].clone());
                i += 2;
            }
            _ => panic!("bad argument"),
        }
    }
    install_hook();
    misc_props::install_logger(prop == "C18");
    let t0 = std::time::Instant::now();
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(thorough, transcript.is_some(), only)));
    {
        let (out, prop) = (out.clone(), prop.clone());
        ctx.watchdog(move |f| {
            dump(&out, &prop, BACKEND, ctx, Some(f), t0.elapsed().as_secs_f64());
            std::process::exit(1);
        });
    }
    match prop.as_str() {
        "C01" => packet_props::c01(ctx),
        "C02" => packet_props::c02(ctx),
        "C03" => packet_props::c03(ctx),
        "C04" => packet_props::c04(ctx),
        "C05" => packet_props::c05(ctx),
        "C06" => avp_props::c06(ctx),
        "C07" => avp_props::c07(ctx),
        "C08" => avp_props::c08(ctx),
        "C09" => avp_props::c09(ctx),
        "C10" => packet_props::c10(ctx),
        "C11" => dict_props::c11(ctx),
        "C12" => dict_props::c12(ctx),
        "C13" => avp_props::c13(ctx),
        "C14" => avp_props::c14(ctx),
        "C15" => dict_props::c15(ctx),
        "C16" => misc_props::c16(ctx),
        "C17" => misc_props::c17(ctx),
        "C18" => misc_props::c18(ctx),
        "C19" => packet_props::c19(ctx),
        p => panic!("no such property {p}"),
    }
    if let Some(f) = transcript {
        let mut bs = vec![];
        for (n, v) in ctx.outs.lock().unwrap().iter() {
            bs.extend((n.len() as u64).to_le_bytes());
            bs.extend(n.as_bytes());
            bs.extend((v.len() as u64).to_le_bytes());
            for x in v {
                bs.extend(x.to_le_bytes());
            }
        }
        std::fs::write(f, bs).expect("write the transcript");
    }
    dump(&out, &prop, BACKEND, ctx, None, t0.elapsed().as_secs_f64());
    let n = ctx.fails.lock().unwrap().len();
    std::process::exit(if n > 0 { 1 } else { 0 });
}
