#!/usr/bin/env python3
"""Builds the simulator of one scenario file from /repo's current working tree. Content-addressed: nothing stale is ever used."""
import fcntl, glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(HERE, "build")

# property -> scenario file
SCEN = {
    "C01": "scen_ot", "C02": "scen_ot", "C03": "scen_ot", "C04": "scen_ot",
    "C05": "scen_opprf", "C06": "scen_opprf", "C07": "scen_opprf",
    "C08": "scen_aes", "C09": "scen_aes",
    "C10": "scen_wire",
    "C11": "scen_shamir", "C12": "scen_shamir",
    "C13": "scen_puda", "C14": "scen_puda", "C15": "scen_puda",
    "C16": "scen_fresh", "C17": "scen_copies", "C18": "scen_messages", "C19": "scen_memory", "C22": "scen_order", "C23": "scen_hostile", "C24": "scen_hostile",
    "C25": "scen_threads", "C26": "scen_process", "C27": "scen_process", "C28": "scen_process",
    "C29": "scen_private",
}
WRAP = """__gmpz_urandomm __gmpz_urandomb __gmpz_rrandomb __gmp_urandomb_ui __gmp_urandomm_ui __gmpz_init_set_str
_ZNSt13random_device9_M_getvalEv getentropy getrandom RAND_bytes RAND_priv_bytes arc4random time clock_gettime gettimeofday
clock getpid getppid gettid _ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv
EVP_CIPHER_CTX_new EVP_EncryptInit_ex EVP_DecryptInit_ex EVP_CipherInit_ex EVP_EncryptInit EVP_DecryptInit EVP_CipherInit
EVP_EncryptInit_ex2 EVP_DecryptInit_ex2 EVP_CipherInit_ex2 EVP_EncryptUpdate EVP_DecryptUpdate EVP_CipherUpdate
EVP_EncryptFinal_ex EVP_DecryptFinal_ex EVP_CipherFinal_ex EVP_EncryptFinal EVP_DecryptFinal EVP_CipherFinal
EVP_CIPHER_CTX_set_padding malloc realloc calloc
__gmpz_mul __gmpz_add __gmpz_sub __gmpz_mod __gmpz_tdiv_r __gmpz_fdiv_r __gmpz_invert __gmpz_powm __gmpz_set __gmpz_init_set __gmpz_clear __gmpz_export __gmpz_import
pthread_mutex_lock pthread_rwlock_wrlock pthread_rwlock_rdlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort""".split()
BASE = ["-std=gnu++17", "-include", "cstdint", "-DNDEBUG", "-w", "-fno-omit-frame-pointer"]
VARIANT = {"plain": ["-O2"], "asan": ["-O1", "-g", "-fsanitize=address", "-DSIM_ASAN"]}


def lib_sources():
    out = []
    for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        if os.path.getsize(f) == 0 or "/elgamal/" in f:      # elgamal.cpp does not compile upstream and is not built there
            continue
        out.append(f)
    return out


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(f):
    with open(f, "rb") as fh:
        return fh.read()


def headers_digest(src):
    hs = []
    for d in (REPO + "/includes", REPO + "/src"):
        for f in sorted(glob.glob(d + "/**/*.h*", recursive=True)):
            hs += [os.path.relpath(f, REPO), rd(f)]
    if src.startswith(HERE):
        for f in sorted(glob.glob(HERE + "/sim/*.hpp")):
            hs += [f, rd(f)]
    return digest(*hs) if hs else "-"


def compile_one(src, variant):
    flags = BASE + VARIANT[variant]
    inc = ["-I" + REPO + "/includes", "-I" + HERE + "/sim"]
    d = digest(src, rd(src), headers_digest(src), " ".join(flags), "g++13")
    obj = "%s/obj/%s-%s.o" % (OUT, os.path.basename(src)[:-4], d)
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        p = subprocess.run(["g++"] + flags + inc + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            if os.path.exists(tmp):
                os.unlink(tmp)
            raise RuntimeError("compiling %s (%s) failed:\n%s" % (src, variant, p.stdout.decode(errors="replace")[:4000]))
        os.rename(tmp, obj)
    return obj


def build(scen, variant):
    """returns the path of the simulator executable"""
    os.makedirs(OUT + "/obj", exist_ok=True)
    os.makedirs(OUT + "/bin", exist_ok=True)
    srcs = lib_sources()
    harness = [HERE + "/sim/core.cpp", HERE + "/sim/seams.cpp", HERE + "/sim/refec.cpp", HERE + "/sim/threads.cpp", "%s/sim/%s.cpp" % (HERE, scen)]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: compile_one(s, variant), harness + srcs))
    link = ["-Wl," + ",".join("--wrap=" + w for w in WRAP)]
    d = digest(*(objs + link))
    exe = "%s/bin/%s-%s-%s" % (OUT, scen, variant, d)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = ["g++"] + VARIANT[variant][:1] + (["-fsanitize=address"] if variant == "asan" else []) + objs + ["-o", tmp] + link + \
              ["-lgmpxx", "-lgmp", "-lssl", "-lcrypto"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError("linking %s failed:\n%s" % (scen, p.stdout.decode(errors="replace")[:4000]))
        os.rename(tmp, exe)
    return exe


def prune():
    """keep the build folder small: drop what no recent build used"""
    for sub in ("obj", "bin"):
        fs = sorted(glob.glob("%s/%s/*" % (OUT, sub)), key=os.path.getmtime)
        for f in fs[:-300]:
            os.unlink(f)


if __name__ == "__main__":
    scens = sys.argv[1:] or sorted(set(SCEN.values()))
    for s in scens:
        for v in ([os.environ["SIM_ONLY"]] if "SIM_ONLY" in os.environ else ["plain", "asan"]):
            try:
                print(build(s, v))
            except RuntimeError as e:
                print("\n".join(l for l in str(e).split("\n")[:40] if "error" in l or "failed" in l), file=sys.stderr)
                sys.exit(2)
