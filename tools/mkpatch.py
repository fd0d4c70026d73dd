"""mkpatch.py OUT FILE <<EOF  old ==> new blocks: writes a patch against /repo HEAD"""
import sys, os, subprocess, shutil, re
def make(out, edits, msg=""):
    d = "/tmp/rf/w"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", "-s", "/repo", d])
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if old is None: s += new
        else:
            # comment lines of the source may be left out of `old`
            rx = r"\n(?:[ \t]*//[^\n]*\n|\n)*".join(re.escape(l) for l in old.split("\n") if l.strip() or True)
            m = list(re.finditer(rx, s))
            if len(m) != 1: raise SystemExit("%s: %d occurrences in %s of:\n%s" % (out, len(m), f, old))
            s = s[:m[0].start()] + new + s[m[0].end():]
        open(p, "w").write(s)
    diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
    if not diff: raise SystemExit("no change")
    open(out, "w").write(diff)
    shutil.rmtree(d)
