use std::path::PathBuf;
use std::process::Command;

const SYMS: &[&str] = &[
    "get_version", "libinit", "init", "destroy", "set_channel", "change_parameters",
    "set_max_window", "set_max_history", "add_frames_short", "add_frames_int", "add_frames_float",
    "add_frames_double", "loudness_global", "loudness_global_multiple", "loudness_momentary",
    "loudness_shortterm", "loudness_window", "loudness_range", "loudness_range_multiple",
    "sample_peak", "prev_sample_peak", "true_peak", "prev_true_peak", "relative_threshold",
];

fn run(cmd: &mut Command) {
    let st = cmd.status().expect("cannot run compiler");
    assert!(st.success(), "{cmd:?} failed");
}

fn main() {
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let repo = "/repo";
    let mut cc = Command::new("cc");
    cc.args(["-O2", "-g", "-fPIC", "-w", "-Ithird_party/libebur128", "-c", "third_party/libebur128/ebur128.c", "-o"]);
    cc.arg(out.join("ref.o"));
    for s in SYMS {
        cc.arg(format!("-Debur128_{s}=ref_ebur128_{s}"));
    }
    run(&mut cc);
    run(Command::new("cc").args(["-O1", "-g", "-fPIC", "-w"]).arg(format!("-I{repo}/assets")).args(["-c", "third_party/abi.c", "-o"]).arg(out.join("abi.o")));
    let lib = out.join("libverifc.a");
    let _ = std::fs::remove_file(&lib);
    run(Command::new("ar").arg("crs").arg(&lib).arg(out.join("ref.o")).arg(out.join("abi.o")));
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static=verifc");
    println!("cargo:rerun-if-changed=third_party");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed={repo}/assets/ebur128.h");
}
