package syscall

import "unsafe"

// Simulation support (added by the verification overlay, never shipped).

// SimOS is the simulated operating system. It serves every call made by a
// goroutine that belongs to a simulated process.
type SimOS interface {
	Openat(dirfd int, path string, flags int, mode uint32) (int, error)
	Close(fd int) error
	Read(fd int, p []byte) (int, error)
	Write(fd int, p []byte) (int, error)
	Pread(fd int, p []byte, off int64) (int, error)
	Pwrite(fd int, p []byte, off int64) (int, error)
	Seek(fd int, off int64, whence int) (int64, error)
	Fstat(fd int, st *Stat_t) error
	Fstatat(dirfd int, path string, st *Stat_t, flags int) error
	Ftruncate(fd int, n int64) error
	Truncate(path string, n int64) error
	Fsync(fd int) error
	Fdatasync(fd int) error
	Getdents(fd int, buf []byte) (int, error)
	Mkdirat(dirfd int, path string, mode uint32) error
	Renameat(odfd int, opath string, ndfd int, npath string) error
	Unlinkat(dirfd int, path string, flags int) error
	Linkat(odfd int, opath string, ndfd int, npath string, flags int) error
	Symlinkat(opath string, ndfd int, npath string) error
	Readlinkat(dirfd int, path string, buf []byte) (int, error)
	Fchmod(fd int, mode uint32) error
	Fchmodat(dirfd int, path string, mode uint32) error
	Utimensat(dirfd int, path string, ts *[2]Timespec, flags int) error
	Faccessat(dirfd int, path string, mode uint32) error
	Fchownat(dirfd int, path string) error
	Fcntl(fd, cmd, arg int) (int, error)
	Flock(fd, how int) error
	Getcwd(buf []byte) (int, error)
	Chdir(path string) error
	Getpid() int
	Sync()
	Exit(code int)
	Sigpipe()
	Rand() uint64
	Yield()
}

var simEnabled bool
var simHooks SimOS

// SimUnmodelled counts system calls of simulated processes that reached no model.
var SimUnmodelled [600]int

//go:linkname simCur runtime.simCurrent
//go:nosplit
func simCur() unsafe.Pointer

// simUsed stays set once a simulation has begun.
var simUsed bool

func SimInstall(h SimOS) { simHooks = h; simEnabled = h != nil; simUsed = true }

// SimHook returns the simulated operating system if the calling goroutine
// belongs to a simulated process, else nil.
func SimHook() SimOS {
	if simEnabled && simCur() != nil {
		return simHooks
	}
	return nil
}

// descriptors from here on are virtual
const SimFDBase = 1 << 20

//go:nosplit
func simUnmodelled(trap uintptr) (r1, r2 uintptr, err Errno) {
	if trap < 600 {
		SimUnmodelled[trap]++
	}
	return ^uintptr(0), 0, ENOSYS
}

func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if h := SimHook(); h != nil {
		return h.Openat(dirfd, path, flags, mode)
	}
	return openat_real(dirfd, path, flags, mode)
}
func unlinkat(dirfd int, path string, flags int) (err error) {
	if h := SimHook(); h != nil {
		return h.Unlinkat(dirfd, path, flags)
	}
	return unlinkat_real(dirfd, path, flags)
}
func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {
	if h := SimHook(); h != nil {
		return h.Readlinkat(dirfd, path, buf)
	}
	return readlinkat_real(dirfd, path, buf)
}
func symlinkat(oldpath string, newdirfd int, newpath string) (err error) {
	if h := SimHook(); h != nil {
		return h.Symlinkat(oldpath, newdirfd, newpath)
	}
	return symlinkat_real(oldpath, newdirfd, newpath)
}
func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {
	if h := SimHook(); h != nil {
		return h.Linkat(olddirfd, oldpath, newdirfd, newpath, flags)
	}
	return linkat_real(olddirfd, oldpath, newdirfd, newpath, flags)
}
func fchmodat(dirfd int, path string, mode uint32) (err error) {
	if h := SimHook(); h != nil {
		return h.Fchmodat(dirfd, path, mode)
	}
	return fchmodat_real(dirfd, path, mode)
}
func fchmodat2(dirfd int, path string, mode uint32, flags int) (err error) {
	if h := SimHook(); h != nil {
		return h.Fchmodat(dirfd, path, mode)
	}
	return fchmodat2_real(dirfd, path, mode, flags)
}
func utimensat(dirfd int, path string, times *[2]Timespec, flag int) (err error) {
	if h := SimHook(); h != nil {
		return h.Utimensat(dirfd, path, times, flag)
	}
	return utimensat_real(dirfd, path, times, flag)
}
func faccessat(dirfd int, path string, mode uint32) (err error) {
	if h := SimHook(); h != nil {
		return h.Faccessat(dirfd, path, mode)
	}
	return faccessat_real(dirfd, path, mode)
}
func faccessat2(dirfd int, path string, mode uint32, flags int) (err error) {
	if h := SimHook(); h != nil {
		return h.Faccessat(dirfd, path, mode)
	}
	return faccessat2_real(dirfd, path, mode, flags)
}
func Getcwd(buf []byte) (n int, err error) {
	if h := SimHook(); h != nil {
		return h.Getcwd(buf)
	}
	return Getcwd_real(buf)
}
func Chdir(path string) (err error) {
	if h := SimHook(); h != nil {
		return h.Chdir(path)
	}
	return Chdir_real(path)
}
func Fchdir(fd int) (err error) {
	if SimHook() != nil {
		return ENOSYS
	}
	return Fchdir_real(fd)
}
func Close(fd int) (err error) {
	if h := SimHook(); h != nil {
		return h.Close(fd)
	}
	if fd >= SimFDBase || simUsed && fd >= 0 && fd <= 2 { // a finaliser after the simulated process ended
		return EBADF
	}
	return Close_real(fd)
}
func read(fd int, p []byte) (n int, err error) {
	if h := SimHook(); h != nil {
		return h.Read(fd, p)
	}
	return read_real(fd, p)
}
func write(fd int, p []byte) (n int, err error) {
	if h := SimHook(); h != nil {
		return h.Write(fd, p)
	}
	return write_real(fd, p)
}
func pread(fd int, p []byte, offset int64) (n int, err error) {
	if h := SimHook(); h != nil {
		return h.Pread(fd, p, offset)
	}
	return pread_real(fd, p, offset)
}
func pwrite(fd int, p []byte, offset int64) (n int, err error) {
	if h := SimHook(); h != nil {
		return h.Pwrite(fd, p, offset)
	}
	return pwrite_real(fd, p, offset)
}
func Seek(fd int, offset int64, whence int) (off int64, err error) {
	if h := SimHook(); h != nil {
		return h.Seek(fd, offset, whence)
	}
	return Seek_real(fd, offset, whence)
}
func Fstat(fd int, stat *Stat_t) (err error) {
	if h := SimHook(); h != nil {
		return h.Fstat(fd, stat)
	}
	return Fstat_real(fd, stat)
}
func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {
	if h := SimHook(); h != nil {
		return h.Fstatat(fd, path, stat, flags)
	}
	return fstatat_real(fd, path, stat, flags)
}
func Ftruncate(fd int, length int64) (err error) {
	if h := SimHook(); h != nil {
		return h.Ftruncate(fd, length)
	}
	return Ftruncate_real(fd, length)
}
func Truncate(path string, length int64) (err error) {
	if h := SimHook(); h != nil {
		return h.Truncate(path, length)
	}
	return Truncate_real(path, length)
}
func Fsync(fd int) (err error) {
	if h := SimHook(); h != nil {
		return h.Fsync(fd)
	}
	return Fsync_real(fd)
}
func Fdatasync(fd int) (err error) {
	if h := SimHook(); h != nil {
		return h.Fdatasync(fd)
	}
	return Fdatasync_real(fd)
}
func Getdents(fd int, buf []byte) (n int, err error) {
	if h := SimHook(); h != nil {
		return h.Getdents(fd, buf)
	}
	return Getdents_real(fd, buf)
}
func Mkdirat(dirfd int, path string, mode uint32) (err error) {
	if h := SimHook(); h != nil {
		return h.Mkdirat(dirfd, path, mode)
	}
	return Mkdirat_real(dirfd, path, mode)
}
func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {
	if h := SimHook(); h != nil {
		return h.Renameat(olddirfd, oldpath, newdirfd, newpath)
	}
	return Renameat_real(olddirfd, oldpath, newdirfd, newpath)
}
func fcntl(fd int, cmd int, arg int) (val int, err error) {
	if h := SimHook(); h != nil {
		return h.Fcntl(fd, cmd, arg)
	}
	if fd >= SimFDBase {
		return -1, EBADF
	}
	return fcntl_real(fd, cmd, arg)
}
func Flock(fd int, how int) (err error) {
	if h := SimHook(); h != nil {
		return h.Flock(fd, how)
	}
	return Flock_real(fd, how)
}
func Fchmod(fd int, mode uint32) (err error) {
	if h := SimHook(); h != nil {
		return h.Fchmod(fd, mode)
	}
	return Fchmod_real(fd, mode)
}
func Fchown(fd int, uid int, gid int) (err error) {
	if SimHook() != nil {
		return nil
	}
	return Fchown_real(fd, uid, gid)
}
func Fchownat(dirfd int, path string, uid int, gid int, flags int) (err error) {
	if h := SimHook(); h != nil {
		return h.Fchownat(dirfd, path)
	}
	return Fchownat_real(dirfd, path, uid, gid, flags)
}
func Getpid() (pid int) {
	if h := SimHook(); h != nil {
		return h.Getpid()
	}
	return Getpid_real()
}
func Sync() {
	if h := SimHook(); h != nil {
		h.Sync()
		return
	}
	Sync_real()
}
func Fallocate(fd int, mode uint32, off int64, len int64) (err error) {
	if SimHook() != nil {
		return EOPNOTSUPP
	}
	return Fallocate_real(fd, mode, off, len)
}
func SyncFileRange(fd int, off int64, n int64, flags int) (err error) {
	if SimHook() != nil {
		return EOPNOTSUPP
	}
	return SyncFileRange_real(fd, off, n, flags)
}
