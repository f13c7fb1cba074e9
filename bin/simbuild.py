"""Builds the simulation binaries from /repo's working tree and /verif/sim.

Objects and binaries are cached in /verif/build (git ignores it) under a hash of
everything that goes into them, so a check always runs what /repo says now."""
import concurrent.futures, fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"

BASE = ["-std=c++26", "-I" + REPO + "/include", "-I/usr/include/jsoncpp", "-I" + SIM,
        "-include", "cstdint", "-include", "string", "-include", "algorithm",
        "-DBOOST_HANA_CONFIG_ENABLE_STRING_UDL", "-DBOOST_ASIO_NO_TYPEID", "-DBOOST_ASIO_SEPARATE_COMPILATION",
        "-DBOOST_ASIO_DISABLE_STD_ALIGNED_ALLOC", "-D_FILE_OFFSET_BITS=64", "-Wno-everything",
        "-O1", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
        "-fsanitize=address,undefined", "-fno-sanitize=vptr"]
NET = ("epoll_create1 epoll_create epoll_ctl epoll_wait eventfd timerfd_create timerfd_settime pipe close write read recv recvmsg "
       "readv send sendmsg writev shutdown ioctl fcntl setsockopt getsockopt getpeername getsockname").split()

# the browser side: an addon of node, whose V8 runs the JavaScript in EM_ASM blocks
WEBF = ["-DSIM_WEB", "-DNBDL_SIM_JS_HANDLE=em::handle_of", "-I" + SIM + "/web/stub", "-I/usr/include/node", "-include", "functional",
        "-fPIC", "-fvisibility=hidden", "-shared-libasan"]
WEBU = lambda src, reads=True, *extra: (src, WEBF + list(extra), reads)
LAUNCH = """#!/bin/sh
R="setarch -R"; $R true 2>/dev/null || R=
export SIM_NO_REEXEC=1 SIM_LAUNCHER="$0"
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:quarantine_size_mb=16:handle_abort=1:detect_stack_use_after_return=0:symbolize=0:print_legend=0:allow_addr2line=0
export UBSAN_OPTIONS=halt_on_error=1:print_stacktrace=0:exitcode=78:symbolize=0
exec $R env LD_PRELOAD=%s node --single-threaded --v8-pool-size=0 --hash-seed=1 --random-seed=1 --stack-size=3900 %s/web/main.js %s "$@"
"""
# a unit: (source, extra flags, does it read /repo)
RUNNER = ("runner.cpp", [], False)
NETU = [("kernel.cpp", [], False), ("asio.cpp", [], False)]
OPEN = [("ws_open.cpp", ["-DPART=%d" % i], True) for i in range(4)]
TARGETS = {
    "ws": {"units": [RUNNER] + NETU + OPEN + [("ws.cpp", [], True)], "wrap": NET},
    "prom": {"units": [RUNNER, ("prom.cpp", ["-DPARTS=8"], True)] +
             [("prom.cpp", ["-DPART=%d" % i, "-DPARTS=8", "-DN_SHAPES=64"], True) for i in range(8)], "wrap": []},
    "ctx": {"units": [RUNNER, ("ctx.cpp", [], True)] + [("ctx.cpp", ["-DPART=%d" % i], True) for i in range(8)], "wrap": []},
    "sys": {"units": [RUNNER] + NETU + OPEN + [("sys.cpp", [], False), ("sys_server.cpp", [], True), ("sys_client.cpp", [], True)], "wrap": NET},
    "web": {"units": [WEBU("runner.cpp", False), WEBU("web/bridge.cpp", False), WEBU("web.cpp"), WEBU("web_sock.cpp"), WEBU("web_vals.cpp"), WEBU("web_nav.cpp")] + [WEBU("web_page.cpp", True, "-DPART=%d" % i, "-DSHAPES=5") for i in range(8)],
            "wrap": [], "addon": True},
    "sql": {"units": [RUNNER, ("sql.cpp", [], True)], "wrap": [], "libs": ["-l:libsqlite3.a", "-ldl", "-lm"]},
    "rep": {"units": [RUNNER, ("version.cpp", [], True), ("uid.cpp", [], True)], "wrap": ["_ZNSt13random_device9_M_getvalEv"]},
}


def file_hash(h, path, name):
    h.update(name.encode() + b"\0")
    with open(path, "rb") as f:
        h.update(hashlib.sha256(f.read()).digest())


def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            file_hash(h, os.path.join(d, f), os.path.relpath(os.path.join(d, f), root))
    return h.hexdigest()


def unit_key(unit, repo_hash, sim_files):
    src, extra, reads_repo = unit
    h = hashlib.sha256()
    h.update(repr((CXX, BASE, extra, src)).encode())
    if reads_repo:
        h.update(repo_hash.encode())
        names = sorted(f for f in sim_files if f.endswith(".hpp") and f != "runner.hpp") + [src]
    else:
        names = {"web/bridge.cpp": [], "runner.cpp": ["core.hpp", "runner.hpp"], "kernel.cpp": ["core.hpp", "kernel.hpp"], "asio.cpp": [], "sys.cpp": ["core.hpp", "kernel.hpp", "ws_common.hpp", "sys.hpp"], "entropy.cpp": ["core.hpp"]}[src] + [src]
    if "-DSIM_WEB" in extra:
        h.update(tree_hash(os.path.join(SIM, "web")).encode())
    for n in names:
        file_hash(h, os.path.join(SIM, n), n)
    return h.hexdigest()[:24]


def compile_unit(unit, obj):
    src, extra, _ = unit
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + BASE + extra + ["-c", os.path.join(SIM, src), "-o", tmp], capture_output=True, text=True, errors="replace")
    if r.returncode:
        lines = [l[:300] for l in r.stderr.splitlines() if "error" in l][:12]
        raise RuntimeError("compiling %s %s failed\n%s" % (src, " ".join(extra), "\n".join(lines)))
    os.replace(tmp, obj)


def build(names, jobs=8):
    """Returns {name: (binary, source id)}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        repo_hash = tree_hash(os.path.join(REPO, "include"))
        sim_files = os.listdir(SIM)
        todo, out = {}, {}
        for n in names:
            keys = []
            for u in TARGETS[n]["units"]:
                k = unit_key(u, repo_hash, sim_files)
                obj = os.path.join(BUILD, k + ".o")
                keys.append(obj)
                if os.path.exists(obj):
                    os.utime(obj)
                else:
                    todo[obj] = u
            ident = hashlib.sha256(" ".join(keys).encode() + repr(TARGETS[n]["wrap"]).encode()).hexdigest()[:24]
            out[n] = (os.path.join(BUILD, n + "-" + ident), keys, ident)
        if todo:
            # the long ones first
            order = sorted(todo.items(), key=lambda t: -int(t[1][2]))
            with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
                fs = [ex.submit(compile_unit, u, o) for o, u in order]
                errs = [f.exception() for f in fs]
                errs = [e for e in errs if e]
                if errs:
                    raise errs[0]
        for n, (binary, objs, ident) in out.items():
            addon = TARGETS[n].get("addon")
            if os.path.exists(binary):
                os.utime(binary)
                if addon:
                    os.utime(binary + ".node")
                continue
            tmp = binary + ".tmp"
            cmd = [CXX, "-shared", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-shared-libasan", "-static-libstdc++",
                   "-Wl,-Bsymbolic", "-Wl,--exclude-libs,ALL", "-o", tmp] + objs + ["-ljsoncpp"] if addon else [CXX, "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-o", tmp] + objs + \
                  ["-Wl,--wrap=" + s for s in TARGETS[n]["wrap"]] + ["-ljsoncpp", "-lpthread"] + TARGETS[n].get("libs", [])
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
            if r.returncode:
                raise RuntimeError("linking %s failed\n%s" % (n, "\n".join(l[:300] for l in r.stderr.splitlines()[:12])))
            if addon:
                os.replace(tmp, binary + ".node")
                asan = subprocess.run([CXX, "-print-file-name=libclang_rt.asan-x86_64.so"], capture_output=True, text=True).stdout.strip()
                with open(tmp, "w") as f:
                    f.write(LAUNCH % (asan, SIM, binary + ".node"))
                os.chmod(tmp, 0o755)
            os.replace(tmp, binary)
        # keep the cache small
        files = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if not f.startswith(".")), key=os.path.getmtime, reverse=True)
        total = 0
        for f in files:
            total += os.path.getsize(f)
            if total > 1500 << 20 and time.time() - os.path.getmtime(f) > 600:
                os.unlink(f)
        return {n: (b, i) for n, (b, _, i) in out.items()}


if __name__ == "__main__":
    t = time.time()
    try:
        for n, (b, i) in build(sys.argv[1:] or list(TARGETS)).items():
            print(n, b)
    except RuntimeError as e:
        print(e)
        sys.exit(3)
    print("built in %.1f s" % (time.time() - t))
