# Writes the build overlay of the host simulator: host.py WORKDIR GOROOT OVERLAYDIR
import json, os, re, sys
w, goroot, here = sys.argv[1:4]
rep = {}
S = goroot + "/src/syscall/"

def edit(path, fn):
    s = open(path).read()
    t = fn(s)
    assert t != s, path
    open(path, "w").write(t)

def patch(path, fn):
    src = rep.get(path)
    s = open(src or path).read()
    t = fn(s)
    assert t != s, path
    dst = os.path.join(w, re.sub(r"[^A-Za-z0-9_.]", "_", path))
    open(dst, "w").write(t)
    rep[path] = dst

# name, file, signature, condition, simulated call
fd, pa = "simFd(fd)", "simPath(path)"
calls = [
    ("Open", "syscall_linux.go", "(path string, mode int, perm uint32) (fd int, err error)", "path, mode, perm", pa, "Sim.Open(path, mode, perm)"),
    ("Mkdir", "syscall_linux.go", "(path string, mode uint32) (err error)", "path, mode", pa, "Sim.Mkdir(path)"),
    ("Rmdir", "syscall_linux.go", "(path string) error", "path", pa, "Sim.Rmdir(path)"),
    ("Unlink", "syscall_linux.go", "(path string) error", "path", pa, "Sim.Unlink(path)"),
    ("Rename", "syscall_linux.go", "(path string, newpath string) (err error)", "path, newpath", pa, "Sim.Rename(path, newpath)"),
    ("Link", "syscall_linux.go", "(path string, newpath string) (err error)", "path, newpath", pa, "Sim.Link(path, newpath)"),
    ("Chmod", "syscall_linux.go", "(path string, mode uint32) (err error)", "path, mode", pa, "error(nil)"),
    ("Access", "syscall_linux.go", "(path string, mode uint32) (err error)", "path, mode", pa, "Sim.Stat(-1, path, new(Stat_t))"),
    ("Read", "syscall_unix.go", "(fd int, p []byte) (n int, err error)", "fd, p", fd, "Sim.Read(fd, p, -1)"),
    ("Write", "syscall_unix.go", "(fd int, p []byte) (n int, err error)", "fd, p", fd, "Sim.Write(fd, p, -1)"),
    ("Pread", "syscall_unix.go", "(fd int, p []byte, offset int64) (n int, err error)", "fd, p, offset", fd, "Sim.Read(fd, p, offset)"),
    ("Pwrite", "syscall_unix.go", "(fd int, p []byte, offset int64) (n int, err error)", "fd, p, offset", fd, "Sim.Write(fd, p, offset)"),
    ("Stat", "syscall_linux_amd64.go", "(path string, stat *Stat_t) (err error)", "path, stat", pa, "Sim.Stat(-1, path, stat)"),
    ("Lstat", "syscall_linux_amd64.go", "(path string, stat *Stat_t) (err error)", "path, stat", pa, "Sim.Stat(-1, path, stat)"),
    ("Close", "zsyscall_linux_amd64.go", "(fd int) (err error)", "fd", fd, "Sim.Close(fd)"),
    ("Fchmod", "zsyscall_linux_amd64.go", "(fd int, mode uint32) (err error)", "fd, mode", fd, "error(nil)"),
    ("Flock", "zsyscall_linux_amd64.go", "(fd int, how int) (err error)", "fd, how", fd, "error(nil)"),
    ("Fsync", "zsyscall_linux_amd64.go", "(fd int) (err error)", "fd", fd, "Sim.Sync(fd)"),
    ("Fdatasync", "zsyscall_linux_amd64.go", "(fd int) (err error)", "fd", fd, "Sim.Sync(fd)"),
    ("Fstat", "zsyscall_linux_amd64.go", "(fd int, stat *Stat_t) (err error)", "fd, stat", fd, 'Sim.Stat(fd, "", stat)'),
    ("Ftruncate", "zsyscall_linux_amd64.go", "(fd int, length int64) (err error)", "fd, length", fd, 'Sim.Truncate(fd, "", length)'),
    ("Truncate", "zsyscall_linux_amd64.go", "(path string, length int64) (err error)", "path, length", pa, "Sim.Truncate(-1, path, length)"),
    ("Seek", "zsyscall_linux_amd64.go", "(fd int, offset int64, whence int) (off int64, err error)", "fd, offset, whence", fd, "Sim.Seek(fd, offset, whence)"),
]
files = {}
for c in calls:
    files.setdefault(c[1], []).append(c)
for f, cs in files.items():
    def fn(s):
        for name, _, sig, args, cond, sim in cs:
            n = s.count("\nfunc %s(" % name)
            assert n == 1, (f, name, n)
            s = s.replace("\nfunc %s(" % name, "\nfunc real%s(" % name)
            s += "\nfunc %s%s {\n\tif %s {\n\t\treturn %s\n\t}\n\treturn real%s(%s)\n}\n" % (name, sig, cond, sim, name, args)
        if f == "syscall_unix.go":
            s += open(here + "/simsyscall.go.txt").read()
        return s
    patch(S + f, fn)

# the kernel's copy between files does not know simulated ones
def cfr(s):
    return re.sub(r"(func CopyFileRange\(rfd int, roff \*int64, wfd int, [^{]*\{\n)", r"\1\tif rfd >= 1<<24 || wfd >= 1<<24 {\n\t\treturn 0, syscall.EXDEV\n\t}\n", s)
for f in ("copy_file_range_unix.go", "copy_file_range_linux.go"):
    p = goroot + "/src/internal/syscall/unix/" + f
    if os.path.exists(p):
        patch(p, cfr)
        break
else:
    raise SystemExit("no copy_file_range")

# every HTTP round trip, whichever client or transport starts it
def rt(s):
    assert s.count("func (t *Transport) RoundTrip(req *Request) (*Response, error) {") == 1
    s = s.replace("func (t *Transport) RoundTrip(req *Request) (*Response, error) {",
                  "func (t *Transport) RoundTrip(req *Request) (*Response, error) {\n\tif SimRoundTrip != nil {\n\t\treturn SimRoundTrip(req)\n\t}")
    return s + "\n// SimRoundTrip answers requests when the simulator runs.\nvar SimRoundTrip func(*Request) (*Response, error)\n"
patch(goroot + "/src/net/http/roundtrip.go", rt)

# map iteration order, and the hash function it depends on
M = goroot + "/src/internal/runtime/maps/"
def it(s):
    assert s.count("it.entryOffset = rand()") == 1 and s.count("it.dirOffset = rand()") == 1
    s = s.replace("it.entryOffset = rand()", "it.entryOffset = iterRand()").replace("it.dirOffset = rand()", "it.dirOffset = iterRand()")
    return s + """
// SimIter, when not zero, is the state iteration order is drawn from.
//
//go:linkname SimIter
var SimIter uint64

func iterRand() uint64 {
	if SimIter == 0 {
		return rand()
	}
	SimIter += 0x9E3779B97F4A7C15
	z := SimIter
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
"""
patch(M + "table.go", it)
patch(M + "map.go", lambda s: s.replace("m.seed = uintptr(rand())", "m.seed = uintptr(0x9E3779B97F4A7C15)"))
patch(M + "runtime_alg.go", lambda s: s.replace("bootstrapRand()", "0x9E3779B97F4A7C15"))

# the circuit builder: a task may lose its turn at every call
import subprocess
gnark = sys.argv[4]
names = "Add|MulAcc|Sub|Neg|Mul|DivUnchecked|Div|Inverse|ToBinary|FromBinary|Xor|Or|And|Select|Lookup2|IsZero|Cmp|Commit"
def yld(s):
    t, n = re.subn(r"(?m)^(func \(builder \*builder\) (?:%s)\(.*\{)$" % names, r"\1\n\tsimYield()", s)
    assert n >= 15, n
    return t + "\n// SimYield is called at every call of the builder when the simulator runs.\nvar SimYield func()\n\nfunc simYield() {\n\tif SimYield != nil {\n\t\tSimYield()\n\t}\n}\n"
edit(gnark + "/frontend/cs/r1cs/api.go", yld)
# no messages about failing constraints, as in build.sh
edit(gnark + "/constraint/debug_info.go", lambda s: re.sub(r"(?m)^func \(system \*System\) NewDebugInfo\(.*\{$", r"\g<0>\n\tif true {\n\t\treturn DebugInfo{}\n\t}", s))
edit(gnark + "/constraint/core.go", lambda s: re.sub(r"(?m)^func \(system \*System\) AttachDebugInfo\(.*\{$", r"\g<0>\n\tif true {\n\t\treturn\n\t}", s))
# gnark's Keccak permutation, as in build.sh
K = gnark + "/std/permutation/keccakf/keccakf_old.go"
edit(K, lambda s: s.replace("func PermuteOld(", "func permuteOldReal(") + open(here + "/permute_hook.go.txt").read())

json.dump({"Replace": rep}, open(w + "/overlay.json", "w"))
