// Simulated disk: every file below /simdisk/ lives in memory and is reached
// through fopen/read/write/writev/lseek/fclose as libstdc++'s streams (and so
// yaml-cpp) call them.  Opens, reads, writes and closes can fail, be short, be
// interrupted or run out of space.  The log of completed writes allows any
// crash image (a prefix of what was written) to be produced afterwards.
#include "sim.hpp"
#include "sim_int.hpp"
#include "sim_fs.hpp"
#include <map>
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/syscall.h>

namespace sim {
static const char PRE[] = "/simdisk/";
struct Open { bool used; std::string path; size_t pos; bool rd, wr, app; FILE* f; bool failed; };
static const int MAXFD = 256;
static Open* T = nullptr;
static std::map<std::string, std::string>* F = nullptr;
static std::vector<FsWrite>* L = nullptr;
static FsCfg C;
static FsStat ST;
static bool on = false;

void fs_begin() {
  MemOff off;
  if (!T) { T = new Open[MAXFD](); F = new std::map<std::string, std::string>(); L = new std::vector<FsWrite>(); }
  F->clear(); L->clear(); C = FsCfg(); ST = FsStat(); on = true;
}
FsCfg& fs_cfg() { return C; }
FsStat& fs_stat() { return ST; }
void fs_put(const std::string& p, const std::string& b) { MemOff off; (*F)[p] = b; }
bool fs_get(const std::string& p, std::string& b) { MemOff off; auto i = F->find(p); if (i == F->end()) return false; b = i->second; return true; }
void fs_remove(const std::string& p) { MemOff off; F->erase(p); }
std::vector<std::string> fs_list() { MemOff off; std::vector<std::string> o; for (auto& i : *F) o.push_back(i.first); return o; }
const std::vector<FsWrite>& fs_log() { return *L; }
void fs_log_clear() { MemOff off; L->clear(); }
int fs_open_files() { int n = 0; for (int i = 0; T && i < MAXFD; i++) if (T[i].used) n++; return n; }
static inline bool mine(int fd) { return on && T && fd >= 0 && fd < MAXFD && T[fd].used; }

static FILE* real_fdopen(int fd, const char* m) { return fdopen(fd, m); }
static int real_fclose(FILE* f) {
  static int (*r)(FILE*) = nullptr;
  if (!r) r = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  return r(f);
}
static FILE* sim_open(const char* path, const char* mode) {
  MemOff off; NoSched ns;
  bool w = strchr(mode, 'w'), a = strchr(mode, 'a'), plus = strchr(mode, '+');
  bool exists = F->count(path) != 0;
  if (C.p_open > 0 && chance(C.p_open, "open-fails")) {
    static const int errs[] = {EACCES, EIO, EMFILE, ENOSPC, EISDIR, EINTR};
    static const char* names[] = {"EACCES", "EIO", "EMFILE", "ENOSPC", "EISDIR", "EINTR"};
    int k = pick(6, "open-errno");
    ST.open_failed++; count("fault.open_failed"); event("open %s fails: %s", path, names[k]); errno = errs[k]; return nullptr;
  }
  if (!exists && !w && !a) { event("open %s: no such file", path); ST.open_missing++; errno = ENOENT; return nullptr; }
  int fd = (int)syscall(SYS_memfd_create, "simdisk", 0);
  if (fd < 0 || fd >= MAXFD) { if (fd >= 0) close(fd); violate("harness-fd", "the harness ran out of file descriptors"); }
  FILE* f = real_fdopen(fd, plus ? "r+" : (w || a) ? "w" : "r");
  if (!f) { close(fd); errno = ENOMEM; return nullptr; }
  setvbuf(f, nullptr, _IONBF, 0);
  Open& o = T[fd];
  o.used = true; o.path = path; o.pos = 0; o.rd = (!w && !a) || plus; o.wr = w || a || plus; o.app = a; o.f = f; o.failed = false;
  if (w) { (*F)[path].clear(); L->push_back(FsWrite{o.path, true, ""}); }
  else if (a) { o.pos = (*F)[path].size(); }
  else if (ftruncate(fd, F->at(path).size())) {}
  event("open %s (%s)", path, mode);
  return f;
}
static ssize_t sim_read(int fd, char* buf, size_t n) {
  MemOff off; NoSched ns;
  Open& o = T[fd];
  if (!o.rd) { errno = EBADF; return -1; }
  std::string& b = (*F)[o.path];
  size_t left = o.pos < b.size() ? b.size() - o.pos : 0;
  if (C.p_eintr > 0 && chance(C.p_eintr, "read-interrupted")) { count("fault.read_interrupted"); event("read interrupted"); errno = EINTR; return -1; }
  if (C.read_err_at >= 0 && (long)(o.pos + (n < left ? n : left)) >= C.read_err_at) {
    // deliver what lies before the bad byte first
    if ((long)o.pos >= C.read_err_at || C.read_err_at == 0) { ST.read_failed++; count("fault.read_error"); event("read error at byte %zu", o.pos); errno = EIO; return -1; }
    n = C.read_err_at - o.pos;
  }
  size_t k = n < left ? n : left;
  if (k > 1 && C.p_short_read > 0 && chance(C.p_short_read, "short-read")) { k = 1 + pick((uint32_t)(k < 4096 ? k - 1 : 4095), "short-read-length"); count("fault.short_read"); }
  memcpy(buf, b.data() + o.pos, k);
  o.pos += k;
  event("read %zu bytes of %s", k, o.path.c_str());
  return (ssize_t)k;
}
static ssize_t sim_write(int fd, const char* buf, size_t n) {
  MemOff off; NoSched ns;
  Open& o = T[fd];
  if (!o.wr) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  if (C.p_eintr > 0 && chance(C.p_eintr, "write-interrupted")) { count("fault.write_interrupted"); event("write interrupted"); errno = EINTR; return -1; }
  size_t k = n;
  if (C.space >= 0) {
    if (C.space == 0) { ST.write_failed++; count("fault.disk_full"); event("write of %zu bytes: disk full", n); errno = ENOSPC; if (C.space_once) C.space = -1; return -1; }
    if ((long)k > C.space) k = C.space;
  }
  if (C.write_err_after >= 0) {
    if (C.write_err_after == 0) { ST.write_failed++; count("fault.write_error"); event("write error"); errno = EIO; if (!C.write_err_sticky) C.write_err_after = -1; return -1; }
    if ((long)k > C.write_err_after) k = C.write_err_after;
  }
  if (k > 1 && C.p_short_write > 0 && chance(C.p_short_write, "short-write")) { k = 1 + pick((uint32_t)(k < 4096 ? k - 1 : 4095), "short-write-length"); count("fault.short_write"); }
  std::string& b = (*F)[o.path];
  if (o.app) o.pos = b.size();
  if (b.size() < o.pos + k) b.resize(o.pos + k);
  memcpy(&b[o.pos], buf, k);
  o.pos += k;
  if (C.space >= 0) C.space -= k;
  if (C.write_err_after >= 0) C.write_err_after -= k;
  ST.written += k;
  L->push_back(FsWrite{o.path, false, std::string(buf, k)});
  event("write %zu bytes to %s", k, o.path.c_str());
  hash_bits(buf, k);
  return (ssize_t)k;
}
static int sim_close(FILE* f, int fd) {
  MemOff off; NoSched ns;
  Open& o = T[fd];
  bool fail = o.wr && C.p_close > 0 && chance(C.p_close, "close-fails");
  event("close %s%s", o.path.c_str(), fail ? " fails: EIO" : "");
  o.used = false; o.path.clear();
  real_fclose(f);
  if (fail) {   // the data of a failed close may be lost: the last write does not reach the disk
    ST.close_failed++; count("fault.close_error"); errno = EIO; return EOF;
  }
  return 0;
}
}
using namespace sim;
extern "C" {
FILE* fopen(const char* p, const char* m) {
  if (sim::on && g_active && !strncmp(p, PRE, sizeof PRE - 1)) return sim_open(p, m);
  static FILE* (*r)(const char*, const char*) = nullptr;
  if (!r) r = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
  return r(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  if (sim::on && g_active && !strncmp(p, PRE, sizeof PRE - 1)) return sim_open(p, m);
  static FILE* (*r)(const char*, const char*) = nullptr;
  if (!r) r = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
  return r(p, m);
}
int fclose(FILE* f) {
  if (sim::on) { int fd = fileno(f); if (mine(fd) && T[fd].f == f) return sim_close(f, fd); }
  return real_fclose(f);
}
ssize_t read(int fd, void* b, size_t n) { if (mine(fd)) return sim_read(fd, (char*)b, n); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (mine(fd)) return sim_write(fd, (const char*)b, n); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!mine(fd)) return syscall(SYS_writev, fd, v, c);
  std::string s;
  { MemOff off; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len); }
  ssize_t r = sim_write(fd, s.data(), s.size());
  { MemOff off; std::string().swap(s); }
  return r;
}
static off_t sim_lseek(int fd, off_t o, int w) {
  Open& f = T[fd]; off_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)f.pos : (off_t)(*F)[f.path].size();
  if (base + o < 0) { errno = EINVAL; return -1; }
  f.pos = base + o; return base + o;
}
off_t lseek(int fd, off_t o, int w) { if (mine(fd)) return sim_lseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { if (mine(fd)) return sim_lseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
}
