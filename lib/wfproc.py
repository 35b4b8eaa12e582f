"""Running compilers, and caching what they produce."""
import hashlib, os, pathlib, shutil, subprocess, tempfile
import wfbuild


def cached(name, key, make):
    """A build product shared by all workers; make(path) creates it."""
    d = pathlib.Path(os.environ["WF_BDIR"])
    out = d / (name.replace("*", hashlib.sha256(key.encode()).hexdigest()[:12]))
    if not out.exists():
        import fcntl
        with open(d / (out.name + ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not out.exists():
                make(out)
    return out


def run(cmd, cwd=None):
    r = subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", cwd=cwd,
                       env={"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LANG": "C.UTF-8",
                            "HOME": os.environ.get("HOME", "/root"),
                            **{k: v for k, v in os.environ.items() if k.startswith(("CARGO", "RUSTUP"))}})
    return r.returncode, r.stdout
