#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and `ebur128-verif list`."""
import json, subprocess, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tech = dict(l.rstrip("\n").split("\t", 1) for l in subprocess.run([R + "/target/plain/release/ebur128-verif", "list"], capture_output=True, text=True, check=True).stdout.splitlines())
NOTE = {
 "C01": "Random and boundary call histories over both APIs' Rust side, each call's result compared with the documented validity rules; panics, aborts, overflow (debug assertions and overflow checks on), hangs and signals count as violations. Trusts that windows between 64 MB and 200 TB of audio behave like the generated ones.",
 "C02": "Every reading compared with an independent filter model (state-variable form, unbounded storage) at relative 1e-7 plus the rounding floor of a direct form.",
 "C03": "Integrated loudness, relative threshold and gating block statistics compared with a list-based two-stage gate; blocks within 1e-6 of a gate or bin edge are not judged.",
 "C04": "Loudness range compared with a list-based EBU Tech 3342 computation, both storage kinds.",
 "C05": "Exact comparison with the maximum of the generated samples, all formats, layouts and partitions.",
 "C06": "Compared with a direct polyphase evaluation of the documented 49-tap windowed sinc, with and without precision-true-peak (two builds).",
 "C07": "Metamorphic: any partition (including empty calls) gives the same results as one call.",
 "C08": "Metamorphic across i16/i32/f32/f64 and interleaved/planar/mixed layouts.",
 "C09": "All 128 mode combinations, round robin, against an instance with all modes.",
 "C10": "All 1000 bins and their edges, round robin, against the bin definition and the exact list.",
 "C11": "After reset() the instance is compared with a fresh one with equal settings over a random continuation.",
 "C12": "Stateful model over parameter and window changes plus no-op insertion.",
 "C13": "Stateful model over maximum history changes.",
 "C14": "Pooled gating and range over up to 40 instances, order and duplication relations included.",
 "C15": "Random chunk boundaries, chunks processed on threads or sequentially, seeded with the audio before them; pooled result against one pass.",
 "C16": "All channel roles and channel counts against the documented weights.",
 "C17": "The C functions are called through the crate's own header layout (compiled C stubs) next to a Rust twin; statuses, values, freed pointers and argument errors compared; audio and handle arrays lie against inaccessible pages, outputs between sentinels.",
 "C18": "Instances interleaved on one thread or moved across threads give bitwise the results of running alone; floating-point environment compared before and after each call.",
 "C19": "Histories replayed on the vendored libebur128 1.2.6 C sources; all readings compared after each step, programmes up to hours included.",
 "C20": "Closed-form values for synthesised EBU material; readings within 0.15 LU of a gate not judged.",
 "C21": "Scaling, polarity, silence and repetition relations on random material.",
 "C22": "NaN/infinity injected at random positions; results compared with a model that states how long they may stay visible.",
 "C23": "Rejected calls inserted into a history; a twin without them stays equal.",
 "C24": "A counting allocator in the harness: bytes held after every call against what the settings ask for, growth over tens of thousands of blocks, and nothing held after drop or ebur128_destroy.",
}
checks = []
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech[i],
        "level": "exploration",
        "level_note": NOTE[i] + " Exploration: nothing is claimed beyond the generated cases.",
    })
m = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "hooks": {"guard": "none", "enable": "No hooks: the checks use the public Rust and C APIs of /repo as built with its own capi (and, for C06, precision-true-peak) feature.", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "One harness crate (/verif/harness); see DESIGN.md. Replay: ./run.sh replay FILE.",
}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
