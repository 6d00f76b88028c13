"""regenerates harness/src/entries.rs from the harness sources"""
import glob, os, re
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src")
def main():
    out = ["//! Table of all harness entries (name, body, number of jobs), used by the native replayer.",
           "pub type Entry = (&'static str, extern \"C\" fn(), extern \"C\" fn() -> u32);", "use crate::*;", "pub const ENTRIES: &[Entry] = &["]
    for p in sorted(glob.glob(D + "/*.rs")):
        m = os.path.basename(p)[:-3]
        for n in re.findall(r"fn (h_\w+)_jobs\(", open(p).read()):
            out.append('    ("%s", %s::%s, %s::%s_jobs),' % (n, m, n, m, n))
    out.append("];")
    s = "\n".join(out) + "\n"
    f = D + "/entries.rs"
    if open(f).read() != s:
        open(f, "w").write(s)
if __name__ == "__main__":
    main()
