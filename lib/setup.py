"""setup_cmd: compile java/XReal.java, self-check it, parse all modules."""
import os, shutil, subprocess, sys, tempfile
sys.argv = ["run", "none"]
import run
work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    cls = run.java_classes()
    rc, out, gen, dist = run.run_tlc(os.path.join(run.SPEC, "MC_XReal.tla"), os.path.join(run.SPEC, "MC_XReal.cfg"), work, {}, run.CPUS, 900)
    if rc or not dist:
        sys.exit("MC_XReal failed\n" + run.tail(out))
    print("MC_XReal: %d states" % dist)
    mods = sorted(f for f in os.listdir(run.SPEC) if f.endswith(".tla"))
    r = subprocess.run(["java", "-cp", ":".join([cls, run.TLA, run.CM]), "tla2sany.SANY"] + mods, cwd=run.SPEC, capture_output=True, text=True)
    if r.returncode:
        sys.exit("SANY: " + r.stdout[-3000:] + r.stderr[-3000:])
    print("parsed %d modules" % len(mods))
finally:
    shutil.rmtree(work, ignore_errors=True)
