"""Builds the library under test from /repo's current working tree, plus the
harness programs of /verif/harness, into a scratch directory."""
import os, subprocess, glob, shutil, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE = ["-D_GNU_SOURCE", "-g", "-pthread", "-w", "-fPIC",
        "-DXXH_STATIC_LINKING_ONLY", "-DSPLINTERDB_PLATFORM_DIR=platform_linux",
        '-DGIT_VERSION="verif"', "-DSPLINTERDB_VERIF"]
FLAVOURS = {
    "rel": ["-O2"],
    "dbg": ["-O1", "-DSPLINTER_DEBUG"],
    "sched": ["-O1", "-finstrument-functions"],
    "cov": ["-O0", "--coverage"],
    "ctl": ["-O1", "-fsanitize=thread", "-include", "vf_pause.h"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
}
CTL_WRAPS = ("pthread_create", "pthread_join", "pthread_mutex_lock", "pthread_spin_lock", "pthread_cond_wait",
             "pthread_cond_signal", "pthread_cond_broadcast", "clock_nanosleep", "nanosleep", "usleep", "sched_yield",
             "sem_wait", "io_getevents", "pread", "pwrite")
LIBS = ["-lm", "-lpthread", "-laio", "-lxxhash"]


class BuildError(Exception):
    pass


def _inc():
    return ["-I" + REPO + "/include", "-I" + REPO + "/src",
            "-I" + REPO + "/src/platform_linux", "-I" + VERIF + "/harness"]


def _march():
    # same choice of instruction set as /repo's portable build
    return []


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout


def build_lib(work, flavour="rel", cc="gcc", extra=()):
    out = os.path.join(work, "lib-" + flavour)
    os.makedirs(out, exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/platform_linux/*.c"))
    objs = []
    jobs = []
    for s in srcs:
        o = os.path.join(out, os.path.basename(s)[:-2] + ".o")
        objs.append(o)
        jobs.append([cc] + BASE + FLAVOURS[flavour] + list(extra) + _inc() + ["-c", s, "-o", o])
    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))
    return objs


def build_prog(work, name, srcs, objs, flavour="rel", cc="gcc", ldextra=(), cextra=()):
    exe = os.path.join(work, name + "-" + flavour)
    hs = [os.path.join(VERIF, "harness", s) for s in srcs]
    fl = [f for f in FLAVOURS[flavour] if f not in ("-finstrument-functions", "-fsanitize=thread")]
    ldextra = list(ldextra)
    if flavour == "ctl":
        hs.append(os.path.join(VERIF, "harness", "vf_ctl.c"))
        cextra = list(cextra) + ["-DVF_CTL"]
        ldextra += ["-Wl," + ",".join("--wrap=" + w for w in CTL_WRAPS)]
    _run([cc] + BASE + fl + list(cextra) + _inc() + hs + objs + ["-o", exe] + list(ldextra) + LIBS)
    return exe
