"""Builds libMVRgdtf from /repo's current working tree plus a harness, out of tree.

Objects are cached under a key that hashes the compiler flags, the translation unit and every header of
/repo/src and /repo/mdns_cpp, so a cached object can only be reused for identical input."""
import hashlib, os, subprocess, sys, concurrent.futures, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")
BASE = ["-O0", "-g0", "-w", "-fPIC", "-DUNICODE", "-D_UNICODE", "-DBUILD_MVR_XCHANGE",
        "-DDONT_USE_XERCES_AS_XMLLIB", "-DGS_LIN", "-D_LINUX", "-DIS_UNITTEST", "-DNDEBUG",
        "-DLIBMVRGDTF_VERIF", "-I" + REPO + "/src", "-I" + REPO + "/mdns_cpp/include"]

class BuildError(Exception):
    pass

def _walk(d, exts):
    out = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(root, f))
    return out

def _digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def build(name, harness_sources, extra_flags=(), generated=()):
    """Compile + link; returns the path of the executable."""
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    hdr_files = _walk(REPO + "/src", (".h", ".hpp", ".c", ".inl")) + _walk(REPO + "/mdns_cpp", (".h", ".hpp"))
    hdr = _digest([x for p in hdr_files for x in (p, _read(p))])
    hh = _digest([_read(p) for p in _walk(os.path.join(VERIF, "harness"), (".h", ".inc"))] + [_read(p) for p in generated])
    lib = _walk(REPO + "/src", (".cpp",)) + _walk(REPO + "/mdns_cpp/src", (".cpp",))
    jobs = []
    for src in lib + list(harness_sources):
        is_h = src in harness_sources
        std = "-std=c++20" if "/mdns_cpp/" in src else ("-std=gnu++17" if is_h else "-std=gnu++14")
        flags = [std] + BASE + list(extra_flags) + (["-I" + os.path.join(VERIF, "harness"), "-I" + CACHE] if is_h else [])
        key = _digest([" ".join(flags), src, _read(src), hdr] + ([hh] if is_h else []))
        jobs.append((os.path.getsize(src) + (10**7 if is_h else 0), src, flags, os.path.join(CACHE, "obj", key + ".o")))
    jobs.sort(reverse=True)
    def one(job):
        _, src, flags, obj = job
        if os.path.exists(obj):
            return None
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            return src + ":\n" + r.stderr[-3000:]
        os.replace(tmp, obj)
        return None
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    objs = sorted(j[3] for j in jobs)
    exe = os.path.join(CACHE, "bin", name + "-" + _digest(objs + list(extra_flags)))
    if not os.path.exists(exe):
        r = subprocess.run(["g++"] + [f for f in extra_flags if f.startswith("-fsanitize")] + ["-o", exe + ".tmp"] + objs + ["-luuid", "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link: " + r.stderr[-3000:])
        os.replace(exe + ".tmp", exe)
    return exe
