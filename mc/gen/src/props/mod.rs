//! One exhaustive exploration per property.
use crate::cfg::*;
use crate::engine::*;
use crate::host::*;
use mc_rt::Pat;

pub mod attrs;
pub mod behave;
pub mod clean;
pub mod env;
pub mod errs;
pub mod generic;
pub mod inter;
pub mod names;
pub mod probes;
pub mod pure;
pub mod reject;
pub mod vis;

pub const PATS: [Option<Pat>; 4] = [None, Some(Pat::Own), Some(Pat::Mut), Some(Pat::Imm)];
pub const PATS3: [Option<Pat>; 3] = [None, Some(Pat::Own), Some(Pat::Imm)];

pub fn run(cx: &Ctx, rep: &mut Report) {
    match cx.prop.as_str() {
        "C01" => behave::c01(cx, rep),
        "C02" => behave::c02(cx, rep),
        "C03" => behave::c03(cx, rep),
        "C04" => behave::c04(cx, rep),
        "C05" => behave::c05(cx, rep),
        "C06" => behave::c06(cx, rep),
        "C07" => behave::c07(cx, rep),
        "C08" => behave::c08(cx, rep),
        "C09" => behave::c09(cx, rep),
        "C10" => names::c10(cx, rep),
        "C11" => vis::c11(cx, rep),
        "C12" => behave::c12(cx, rep),
        "C13" => generic::c13(cx, rep),
        "C14" => errs::c14(cx, rep),
        "C15" => attrs::c15(cx, rep),
        "C16" => reject::c16(cx, rep),
        "C17" => clean::c17(cx, rep),
        "C18" => env::c18(cx, rep),
        "C19" => pure::c19(cx, rep),
        "C20" => behave::c20(cx, rep),
        "C21" => behave::c21(cx, rep),
        "X" => inter::interactions(cx, &inter::Plan { size: std::env::var("MC_SIZE").ok().and_then(|s| s.parse().ok()).unwrap_or(2), absent: true, ..Default::default() }, rep),
        "W" => inter::words(cx, inter::ALL, rep),
        "F" => inter::fragments(cx, inter::ALL, rep),
        p => fail(&format!("no such property {}", p)),
    }
    if ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C14", "C20", "C21"].contains(&cx.prop.as_str()) {
        inter::for_property(cx, rep);
    }
}

/// `mc replay <file>`: compile and run a recorded violation.
pub fn replay(cx: &Ctx, file: &str) {
    let t = std::fs::read_to_string(file).unwrap_or_else(|_| fail("cannot read the replay file"));
    let kind = t.lines().find_map(|l| l.strip_prefix("// kind: ")).unwrap_or("").to_string();
    match kind.split(' ').next().unwrap_or("") {
        "expand" => {
            let body: String = t.lines().filter(|l| !l.starts_with("// ")).collect::<Vec<_>>().join("\n");
            println!("{:?}", expand(&body));
        }
        "run" => {
            let src = cx.work.join("replay.rs");
            let exe = cx.work.join("replay.exe");
            let _ = std::fs::write(&src, &t);
            let co = cx.compile(&cx.rustc_default(Kind::Bin), &src, &exe);
            for d in co.diags.iter().filter(|d| d.level.starts_with("error")) {
                println!("{}", d.rendered);
            }
            if co.ok {
                let mut c = std::process::Command::new(&exe);
                c.env("MC_DEPTH", "4");
                let (_, so, se) = run_limited(c, std::time::Duration::from_secs(300));
                print!("{}{}", so, se);
            }
        }
        k => println!("a replay of kind '{}' is described by the file itself", k),
    }
}
