#!/usr/bin/env python3
"""Builds the code under test (from /repo's current working tree) and one monitor program.

usage: build.py VARIANT HARNESS...     -> build/<variant>/<harness>
Variants: asan (clang ASan+UBSan), tsan (clang TSan), plain (clang -O1, for valgrind).
Only *sources* are taken from /repo (by glob, so new or renamed files are picked up); nothing is written there.
"""
import glob, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "reference", "src")

SAN = {
    "asan": "-fsanitize=address,undefined -fno-sanitize=function,vptr -fno-sanitize-recover=all "
            "-fno-omit-frame-pointer -ftrivial-auto-var-init=pattern",
    "tsan": "-fsanitize=thread -fno-omit-frame-pointer",
    "plain": "",
    "cov": "-fprofile-instr-generate -fcoverage-mapping",
}
# Calls into the porting layer (the part a SoC vendor replaces) and libc that the monitors intercept.
WRAPS = ["time", "video_output_poll", "transport_authenticate_caller", "memory_is_valid_svp", "memory_is_valid_clear",
         "memory_secure_alloc", "memory_secure_realloc", "memory_secure_free", "memory_internal_alloc",
         "memory_internal_realloc", "memory_internal_free", "pthread_mutex_lock", "pthread_mutex_unlock",
         "pthread_mutex_trylock", "svp_release_buffer", "clock_gettime", "gettimeofday", "mtx_init", "mtx_destroy",
         "mtx_lock", "mtx_unlock", "mtx_trylock", "call_once", "cnd_init", "cnd_destroy", "cnd_wait", "cnd_signal",
         "cnd_broadcast", "otp_wrap_aes_cbc", "otp_hmac_sha256", "RAND_bytes", "RAND_priv_bytes",
         "ta_invoke_command_handler", "memory_memcmp_constant", "memory_memset_unoptimizable",
         "CRYPTO_set_mem_functions", "BN_free", "CRYPTO_free", "free", "realloc"]


def includes():
    res = []
    for sub in ("client", "clientimpl", "taimpl", "util"):
        for kind in ("include", "include/internal", "src", "src/internal", "src/porting"):
            d = os.path.join(SRC, sub, kind)
            if os.path.isdir(d) and not os.path.exists(os.path.join(d, "memory.h")):
                res.append(d)
    return res


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def write_ninja(variant):
    bdir = os.path.join(VERIF, "build", variant)
    os.makedirs(bdir, exist_ok=True)
    inc = " ".join("-I" + d for d in includes())
    cflags = f"-std=gnu11 -D_GNU_SOURCE -fPIC -g -O1 -w {SAN[variant]} {inc}"
    cxxflags = f"-std=gnu++17 -D_GNU_SOURCE -fPIC -g -O1 -Wall -Wno-unused-function {SAN[variant]} {"-fno-sanitize=enum" if variant == "asan" else ""} {inc} -I{VERIF}/h"
    wraps = " ".join("-Wl,--wrap=" + w for w in WRAPS)
    lines = ["ninja_required_version = 1.5",
             f"rule cc\n  command = clang {cflags} -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
             f"rule ccc\n  command = clang {cflags} -Dmalloc=w_client_malloc -Dfree=w_client_free -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
             f"rule cxx\n  command = clang++ {cxxflags} -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
             f"rule link\n  command = clang++ {SAN[variant]} -g $in -o $out {wraps} $extra -lcrypto -lyajl -lpthread -lm",
             ]
    objs = []
    for sub in ("util", "taimpl", "clientimpl", "client"):
        for c in sorted(glob.glob(os.path.join(SRC, sub, "src", "**", "*.c"), recursive=True)):
            o = os.path.join("repo", os.path.relpath(c, SRC)) + ".o"
            objs.append(o)
            lines.append(f"build {esc(o)}: {'ccc' if sub == 'clientimpl' else 'cc'} {esc(c)}")
    common = []
    for c in ("common.cpp", "wraps.cpp", "ops.cpp", "objs.cpp", "fails.cpp", "containers.cpp"):
        lines.append(f"build h/{c}.o: cxx {esc(os.path.join(VERIF, 'h', c))}")
        common.append(f"h/{c}.o")
    for c in sorted(glob.glob(os.path.join(VERIF, "h", "c[0-9]*.cpp"))):
        name = os.path.basename(c)[:-4]
        lines.append(f"build h/{name}.o: cxx {esc(c)}")
        extra = []   # functions this program wraps itself
        for m in re.finditer(r"^(?:// )?W\((\w+),", open(c).read(), re.M):
            extra += [f"-Wl,--wrap=sa_{m[1]}", f"-Wl,--wrap=ta_sa_{m[1]}"]
        lines.append(f"build {name}: link h/{name}.o {' '.join(common)} {' '.join(esc(o) for o in objs)}")
        if extra:
            lines.append(f"  extra = {' '.join(extra)}")
    text = "\n".join(lines) + "\n"
    path = os.path.join(bdir, "build.ninja")
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return bdir


def build(variant, targets):
    bdir = write_ninja(variant)
    r = subprocess.run(["ninja", "-C", bdir] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write('\n'.join(l[:300] for l in r.stdout.splitlines() if not l.startswith(('[', 'clang')))[-4000:] + '\n')
        raise SystemExit(2)
    return bdir


if __name__ == "__main__":
    build(sys.argv[1], sys.argv[2:])
