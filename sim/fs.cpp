// Simulated file system: file streams opened below /sim/ never reach the real one.
#include "core.h"
#include <stdio.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <sys/mman.h>
using namespace sim;
namespace {
struct H { std::string path; size_t pos; bool wr, rd, app; FILE *f; int rank; };
std::map<int, H> handles; std::map<std::string, std::string> disk;
struct Flt { int kind; long nth; }; std::vector<Flt> faults; std::map<int, long> counts; int fired = 0, hard_fired = 0;
template<class F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
bool hit(int kind, const char *name) {
  long c = counts[kind]++;
  for (auto &f : faults) if (f.kind == kind && f.nth == c) { ++fired; if (kind != DF_EINTR && kind != DF_SHORTREAD && kind != DF_SHORT) ++hard_fired; sim_fault_fired(name); return true; }
  return false;
}
ssize_t do_write(H &h, const char *p, size_t n) {
  if (!h.wr) { errno = EBADF; return -1; }
  if (hit(DF_WRITE, "disk:write-ENOSPC")) { errno = ENOSPC; return -1; }
  if (n > 1 && hit(DF_SHORT, "disk:short-write")) n = n / 2;
  std::string &d = disk[h.path]; if (h.app) h.pos = d.size();
  if (d.size() < h.pos + n) d.resize(h.pos + n);
  d.replace(h.pos, n, p, n); h.pos += n;
  uint64_t x = 3; for (size_t i = 0; i < n; ++i) x = (x ^ (unsigned char)p[i]) * 0x100000001b3ull; mix(x);
  trace("  process %d writes %zu bytes to %s", sim_rank(), n, h.path.c_str());
  return n;
}
}
namespace sim { void fs_reset_job() { handles.clear(); counts.clear(); } }
extern "C" {
void sim_disk_clear(void) { Host h; disk.clear(); faults.clear(); counts.clear(); fired = 0; hard_fired = 0; }
void sim_disk_put(const char *p, const void *d, size_t n) { Host h; disk[p] = std::string((const char*)d, n); }
long sim_disk_size(const char *p) { Host h; auto i = disk.find(p); return i == disk.end() ? -1 : (long)i->second.size(); }
size_t sim_disk_get(const char *p, size_t o, void *b, size_t n) { Host h; auto i = disk.find(p); if (i == disk.end() || o >= i->second.size()) return 0; n = std::min(n, i->second.size() - o); memcpy(b, i->second.data() + o, n); return n; }
int sim_disk_count(void) { return disk.size(); }
const char *sim_disk_name(int i) { auto it = disk.begin(); std::advance(it, i); return it->first.c_str(); }
void sim_disk_fault(int k, long n) { Host h; faults.push_back({k, n}); counts.clear(); }
int sim_disk_faults_fired(void) { return fired; }
int sim_disk_hard_fired(void) { return hard_fired; }
int sim_disk_open_handles(void) { return handles.size(); }

FILE *fopen(const char *p, const char *m) {
  static auto r = real<FILE*(*)(const char*, const char*)>("fopen");
  if (strncmp(p, "/sim/", 5)) return r(p, m);
  Host hh; sim_point("fopen");
  bool w = strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'), rd = strchr(m, 'r') || strchr(m, '+');
  if (hit(DF_OPEN, "disk:open-fails")) { errno = w ? EACCES : EIO; return nullptr; }
  if (strchr(m, 'r') && !disk.count(p)) { errno = ENOENT; return nullptr; }
  if (strchr(m, 'w')) disk[p].clear(); else disk[p];
  int fd = memfd_create("simfile", 0); FILE *f = fdopen(fd, m);
  handles[fd] = H{p, 0, w, rd, strchr(m, 'a') != nullptr, f, sim_rank()};
  trace("  process %d opens %s (%s)", sim_rank(), p, m); mix(strlen(p) + 17);
  return f;
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int fclose(FILE *f) {
  static auto r = real<int(*)(FILE*)>("fclose");
  if (handles.empty()) return r(f);
  int fd = fileno(f); auto i = handles.find(fd);
  if (i == handles.end() || i->second.f != f) return r(f);
  Host hh; sim_point("fclose");
  i = handles.find(fd);
  trace("  process %d closes %s", sim_rank(), i->second.path.c_str());
  handles.erase(i); bool bad = hit(DF_CLOSE, "disk:close-EIO"); r(f); if (bad) { errno = EIO; return EOF; } return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
  static auto r = real<ssize_t(*)(int, const void*, size_t)>("write");
  if (handles.empty()) return r(fd, b, n);
  auto i = handles.find(fd); if (i == handles.end()) return r(fd, b, n);
  Host hh; sim_point("write"); return do_write(handles[fd], (const char*)b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  static auto r = real<ssize_t(*)(int, const struct iovec*, int)>("writev");
  if (handles.empty()) return r(fd, v, c);
  auto i = handles.find(fd); if (i == handles.end()) return r(fd, v, c);
  Host hh; sim_point("writev"); std::string s; for (int k = 0; k < c; ++k) s.append((const char*)v[k].iov_base, v[k].iov_len);
  return do_write(handles[fd], s.data(), s.size());
}
ssize_t read(int fd, void *b, size_t n) {
  static auto r = real<ssize_t(*)(int, void*, size_t)>("read");
  if (handles.empty()) return r(fd, b, n);
  auto i = handles.find(fd); if (i == handles.end()) return r(fd, b, n);
  Host hh; sim_point("read"); H &h = handles[fd]; if (!h.rd) { errno = EBADF; return -1; }
  if (hit(DF_READ, "disk:read-EIO")) { errno = EIO; return -1; }
  if (hit(DF_EINTR, "disk:read-EINTR")) { errno = EINTR; return -1; }
  std::string &d = disk[h.path]; size_t k = h.pos < d.size() ? std::min(n, d.size() - h.pos) : 0;
  if (k > 1 && hit(DF_SHORTREAD, "disk:short-read")) k = 1 + sim_choose(SIM_FAULT, k - 1);
  memcpy(b, d.data() + h.pos, k); h.pos += k; return k;
}
off_t lseek(int fd, off_t o, int wh) {
  static auto r = real<off_t(*)(int, off_t, int)>("lseek");
  if (handles.empty()) return r(fd, o, wh);
  auto i = handles.find(fd); if (i == handles.end()) return r(fd, o, wh);
  H &h = i->second; off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)h.pos : (off_t)disk[h.path].size(); if (base + o < 0) { errno = EINVAL; return -1; } h.pos = base + o; return h.pos;
}
off_t lseek64(int fd, off_t o, int wh) { return lseek(fd, o, wh); }
}
