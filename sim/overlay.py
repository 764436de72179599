#!/usr/bin/env python3
"""Generates the `go build -overlay` file for the simulator.

usage: overlay.py GOROOT REPO OUTDIR

Every edit of a standard-library file is a substitution whose anchor must occur
exactly the stated number of times: anything else stops the build (never a verdict).
"""
import json, os, re, sys

goroot, repo, out = sys.argv[1:4]
here = os.path.dirname(os.path.abspath(__file__))
src = os.path.join(goroot, "src")
replace = {}

def read(rel):
    with open(os.path.join(src, rel)) as f:
        return f.read()

def emit(rel, text):
    p = os.path.join(out, "std", rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    old = None
    if os.path.exists(p):
        with open(p) as f: old = f.read()
    if old != text:
        with open(p, "w") as f: f.write(text)
    replace[os.path.join(src, rel)] = p

def sub(text, old, new, count=1, rel=""):
    n = text.count(old)
    if n != count:
        sys.exit("overlay: anchor %r occurs %d times in %s, expected %d" % (old, n, rel, count))
    return text.replace(old, new)

def patch(rel, *subs):
    t = read(rel)
    for s in subs:
        old, new = s[0], s[1]
        t = sub(t, old, new, s[2] if len(s) > 2 else 1, rel)
    emit(rel, t)

# ---- runtime -------------------------------------------------------------
patch("runtime/runtime2.go",
      ("\tlabels          unsafe.Pointer // profiler labels\n",
       "\tlabels          unsafe.Pointer // profiler labels\n\tsimproc         unsafe.Pointer // simulated process (verif)\n"),
      ("\twaitReasonSleep:                 true,\n",
       "\twaitReasonSleep:                 true,\n"
       "\twaitReasonSyncMutexLock:         true,\n"
       "\twaitReasonSyncRWMutexRLock:      true,\n"
       "\twaitReasonSyncRWMutexLock:       true,\n"
       "\twaitReasonSemacquire:            true,\n"))
patch("runtime/proc.go",
      ("\t\t\tnewg.labels = mp.curg.labels\n",
       "\t\t\tnewg.labels = mp.curg.labels\n\t\t\tnewg.simproc = mp.curg.simproc\n"),
      ("\tgp.labels = nil\n", "\tgp.labels = nil\n\tgp.simproc = nil\n"),
      ("const forcePreemptNS = 10 * 1000 * 1000 // 10ms", "const forcePreemptNS = 1 << 60"))
patch("runtime/panic.go",
      ("\tpreprintpanics(&p)\n\n\tfatalpanic(&p)   // should not return\n",
       "\tpreprintpanics(&p)\n\n\tif gp.simproc != nil && simPanicHook != nil {\n"
       "\t\trunningPanicDefers.Add(-1)\n\t\tsimPanicHook(p.arg)\n\t\tgp._panic = nil\n\t\tgoexit1()\n\t}\n"
       "\tfatalpanic(&p)   // should not return\n"))
patch("runtime/chan.go",
      *[(f"\nfunc {sig} {{\n", f"\nfunc {sig} {{\n\tsimYield()\n") for sig in (
          "chansend1(c *hchan, elem unsafe.Pointer)", "closechan(c *hchan)",
          "chanrecv1(c *hchan, elem unsafe.Pointer)", "chanrecv2(c *hchan, elem unsafe.Pointer) (received bool)",
          "selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool)",
          "selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool)")])
patch("runtime/select.go",
      ("nsends, nrecvs int, block bool) (int, bool) {\n\tgp := getg()\n", "nsends, nrecvs int, block bool) (int, bool) {\n\tsimYield()\n\tgp := getg()\n"),
      ("\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := simRandn(uint32(norder + 1))\n"))
patch("runtime/time.go", ("\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = simRandn(1 << 30)\n"),
      ("\tif bubble := getg().bubble; bubble != nil {\n\t\tsec = bubble.now / (1000 * 1000 * 1000)\n",
       "\tif bubble := getg().bubble; bubble != nil {\n"
       "\t\tif getg().simproc != nil {\n\t\t\tw := bubble.now + simWall\n\t\t\treturn w / 1e9, int32(w % 1e9), bubble.now\n\t\t}\n"
       "\t\tsec = bubble.now / (1000 * 1000 * 1000)\n"))
patch("time/time.go", ("var startNano int64 = runtimeNano() - 1\n", "var startNano int64 = 946684800000000000 - 1\n"))
patch("runtime/sema.go", ("\ts.ticket = cheaprand() | 1\n", "\ts.ticket = simRandn(1 << 30) | 1\n"))
patch("runtime/synctest.go",
      ("\t\tbubble.now = next\n",
       "\t\tbubble.now = next\n\t\tif simInstantHook != nil {\n\t\t\tunlock(&bubble.mu)\n\t\t\tsimInstantHook(next)\n\t\t\tlock(&bubble.mu)\n\t\t}\n"),
      ("\tif total != 1 {\n", "\tif total != 1 && !(simOn && bubble.done) {\n"))
patch("runtime/rand.go",
      ("func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn && getg().simproc != nil {\n\t\treturn simNext()\n\t}\n"))
with open(os.path.join(here, "std", "runtime_sim.go")) as f: emit("runtime/zz_sim.go", f.read())

# ---- maps ----------------------------------------------------------------
patch("internal/runtime/maps/map.go", ("uintptr(rand())", "uintptr(simrand())", 4))
patch("internal/runtime/maps/table.go", ("it.entryOffset = rand()", "it.entryOffset = simrand()"),
      ("it.dirOffset = rand()", "it.dirOffset = simrand()"))
patch("internal/runtime/maps/runtime_alg.go", ("bootstrapRand()", "simBootRand()", 2))
with open(os.path.join(here, "std", "maps_sim.go")) as f: emit("internal/runtime/maps/zz_sim.go", f.read())

# ---- syscall -------------------------------------------------------------
rel = "syscall/zsyscall_linux_amd64.go"
t = read(rel)
wrapped = """openat unlinkat readlinkat symlinkat linkat fchmodat fchmodat2 utimensat faccessat faccessat2
Getcwd Chdir Fchdir Close read write pread pwrite Seek Fstat fstatat Ftruncate Truncate Fsync Fdatasync Getdents
Mkdirat Renameat fcntl Flock Fchmod Fchown Fchownat Getpid Sync Fallocate SyncFileRange""".split()
for w in wrapped:
    t = sub(t, "\nfunc %s(" % w, "\nfunc %s_real(" % w, 1, rel)
emit(rel, t)
patch("syscall/syscall_linux.go",
      ("func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
       "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\tif simEnabled && simCur() != nil {\n\t\treturn simUnmodelled(trap)\n\t}\n"),
      ("func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
       "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif simEnabled && simCur() != nil {\n\t\treturn simUnmodelled(trap)\n\t}\n"))
with open(os.path.join(here, "std", "syscall_sim.go")) as f: emit("syscall/zz_sim.go", f.read())

# ---- internal/syscall/unix ------------------------------------------------
rel = "internal/syscall/unix/at.go"
t = read(rel)
fw = {
 "Unlinkat": ("dirfd int, path string, flags int", "error", "dirfd, path, flags"),
 "Openat": ("dirfd int, path string, flags int, perm uint32", "(int, error)", "dirfd, path, flags|syscall.O_LARGEFILE, perm"),
 "Readlinkat": ("dirfd int, path string, buf []byte", "(int, error)", "dirfd, path, buf"),
 "Mkdirat": ("dirfd int, path string, mode uint32", "error", "dirfd, path, mode"),
 "Renameat": ("olddirfd int, oldpath string, newdirfd int, newpath string", "error", "olddirfd, oldpath, newdirfd, newpath"),
 "Linkat": ("olddirfd int, oldpath string, newdirfd int, newpath string, flag int", "error", "olddirfd, oldpath, newdirfd, newpath, flag"),
 "Symlinkat": ("oldpath string, newdirfd int, newpath string", "error", "oldpath, newdirfd, newpath"),
}
for n, (params, ret, args) in fw.items():
    t = sub(t, "func %s(%s) %s {\n" % (n, params, ret),
            "func %s(%s) %s {\n\tif h := syscall.SimHook(); h != nil {\n\t\treturn h.%s(%s)\n\t}\n" % (n, params, ret, n, args), 1, rel)
emit(rel, t)
patch("internal/syscall/unix/at_fstatat.go",
      ("func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n",
       "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n\tif h := syscall.SimHook(); h != nil {\n\t\treturn h.Fstatat(dirfd, path, stat, flags)\n\t}\n"))
patch("internal/syscall/unix/fcntl_unix.go",
      ("func Fcntl(fd int, cmd int, arg int) (int, error) {\n",
       "func Fcntl(fd int, cmd int, arg int) (int, error) {\n\tif h := syscall.SimHook(); h != nil {\n\t\treturn h.Fcntl(fd, cmd, arg)\n\t}\n"))

# ---- os --------------------------------------------------------------------
patch("os/proc.go", ("func Exit(code int) {\n", "func Exit(code int) {\n\tif h := syscall.SimHook(); h != nil {\n\t\th.Exit(code)\n\t}\n"))
patch("os/tempfile.go",
      ("func nextRandom() string {\n",
       "func nextRandom() string {\n\tif h := syscall.SimHook(); h != nil {\n\t\treturn strconv.FormatUint(uint64(uint32(h.Rand())), 10)\n\t}\n"),
      ("\t\"internal/strconv\"\n", "\t\"internal/strconv\"\n\t\"syscall\"\n"))
patch("os/file.go",
      ("func (f *File) Write(b []byte) (n int, err error) {\n",
       "func (f *File) Write(b []byte) (n int, err error) {\n\tif h := syscall.SimHook(); h != nil {\n\t\th.Yield()\n\t}\n"))
patch("os/file_unix.go",
      ("\tif e == syscall.EPIPE && file.stdoutOrErr {\n",
       "\tif e == syscall.EPIPE && file.stdoutOrErr {\n\t\tif h := syscall.SimHook(); h != nil {\n\t\t\th.Sigpipe()\n\t\t}\n"))

# ---- harness ---------------------------------------------------------------
hd = os.path.join(here, "harness")
for f in sorted(os.listdir(hd)):
    if f.endswith(".go"):
        replace[os.path.join(repo, "internal", "zzverifsim", f)] = os.path.join(hd, f)
replace[os.path.join(repo, "cmd", "neojhat", "zz_verif_takeover.go")] = os.path.join(here, "takeover.go")

with open(os.path.join(out, "overlay.json"), "w") as f:
    json.dump({"Replace": replace}, f, indent=1)
