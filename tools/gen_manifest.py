#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"C01": "simulated editor/disk/reader histories with crashes; loaded sprite compared with the saved document (refinement)",
"C02": "simulated save/crash/reload histories; decoded pixels compared with the saved pixels",
"C03": "seeded interleavings of concurrent renders over hot-reloaded sprites; compared with a sequential reference compositor",
"C04": "crash-point sweep over every byte of simulated saves and left-over tails of older versions",
"C05": "simulated storage faults (bit, byte, field, block, torn, stale, short reads) under every operation of the library",
"C06": "simulated damage to stored image data; decodes judged by an independent inflate",
"C07": "simulated damage to image data; undamaged rest compared with the undamaged twin, also concurrently",
"C08": "seeded interleavings of shared use with stalls, panicking callers and reloads; each call compared with the same call alone on a fresh load",
"C09": "simulated callers with short, oversized and dirty buffers and failed calls followed by retries",
"C10": "seeded interleavings, reloads and process randomness; hashes compared across calls, threads, processes and frames",
"C11": "simulated storage faults in counts and sizes; step and memory accounting of every call",
"C12": "simulated version skew between writer and reader (unknown chunks, codes, trailing and reserved bytes)",
"C13": "simulated save/crash/reload histories; raw chunks compared with the chunks written",
"C14": "simulated reuse of selections across threads, frames and reloaded versions; compared with the reference compositor",
"C18": "simulated hot reload: loads, right and wrong calls and drops of saved, cut and damaged files repeated over doubling numbers of rounds, with the library's memory accounted",
}
NOTE = ("Seeded search, not proof: {w} Real code: the whole library with nom, flate2 and miniz_oxide. Simulated: editor, disk, "
 "scheduler, clock, randomness, allocator accounting. Trusts the reference model (document, encoder, inflate, compositor) "
 "written from the file format and Aseprite's formulas, and assumes sequentially consistent memory.")
W = {
"C18": "each history is 128 rounds, and 1024 where memory seems to grow; it must settle (growth in each of six doublings is reported).",
"C04": "each simulated file is cut at every byte (or a seeded sample of positions in long files) and extended by stale tails.",
"C05": "thousands of damaged images of seeded files per run batch, biased to counts, sizes and type fields.",
"C08": "interleavings are chosen at control-flow edges, allocations and futex calls.",
"C11": "bounds are generous (several times what any intact file needs) so that only super-linear or claimed-size work is reported.",
}
checks = [{
    "property": p,
    "quick_cmd": f"./check.sh {p} quick",
    "thorough_cmd": f"./check.sh {p} thorough",
    "technique": "deterministic simulation with fault injection: " + T[p],
    "level": "exploration",
    "level_note": NOTE.format(w=W.get(p, "thousands of seeded histories, schedules and faults per batch.")),
} for p in sorted(T)]
m = {
 "version": 1,
 "setup_cmd": "./build.sh -q",
 "hooks": {"guard": "none in /repo: no source hooks; the seams are compiler-inserted edge callbacks (rustc -Cpasses=sancov-module, only in /verif's build) and link-time replacements of futex, clock, sleep, getrandom and the allocator in the simulator binary",
           "enable": "sim/rustc-wrapper.sh, set by env.sh as RUSTC_WRAPPER for the simulator build only", "source_commits": []},
 "checks": checks,
 "not_applicable": [
  {"property": "C15", "reason": "A pure function of two pixels and an opacity: no schedule, clock, fault or history in it. (C03 checks the blend formulas only as far as simulated renders reach them.)"},
  {"property": "C16", "reason": "A statement about where returned slices point, settled by the types for one call on one input; nothing a simulated environment does can influence it."},
  {"property": "C17", "reason": "Pure functions of at most four bytes; no schedule, clock, fault or history."},
 ],
}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
