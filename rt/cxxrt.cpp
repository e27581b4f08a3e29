// Runtime pieces that live in shared libraries natively, modelled in C++ so that they are executed symbolically too:
// red-black tree (kept as an unbalanced tree: same ordering contract), list hooks, hash bytes, file system, C strings.
#include "sym.h"
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <string>
#include <cstdlib>
#include <sys/stat.h>
#include <sys/mman.h>
#include <stdarg.h>
#include <stdio.h>
#include <errno.h>
#include <limits.h>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <time.h>
#include <sys/file.h>
#include <chrono>

namespace std {
typedef _Rb_tree_node_base NB;
static NB* rbInc(NB* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  NB* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
NB* _Rb_tree_increment(NB* x) throw() { return rbInc(x); }
const NB* _Rb_tree_increment(const NB* x) throw() { return rbInc(const_cast<NB*>(x)); }
static NB* rbDec(NB* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { NB* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  NB* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
NB* _Rb_tree_decrement(NB* x) throw() { return rbDec(x); }
const NB* _Rb_tree_decrement(const NB* x) throw() { return rbDec(const_cast<NB*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) throw() {
  // leftmost / rightmost before unlinking
  NB *l = h._M_left == z ? rbInc(z) : h._M_left, *r = h._M_right == z ? rbDec(z) : h._M_right;
  auto link = [&](NB* from, NB* to) {
    NB* p = from->_M_parent;
    if (p == &h) h._M_parent = to; else if (p->_M_left == from) p->_M_left = to; else p->_M_right = to;
    if (to) to->_M_parent = p;
  };
  if (!z->_M_left) link(z, z->_M_right);
  else if (!z->_M_right) link(z, z->_M_left);
  else {
    NB* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y != z->_M_right) { link(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    link(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } else { h._M_left = l; h._M_right = r; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *q = _M_prev; q->_M_next = n; n->_M_prev = q; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033};
  for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = n | 1; return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ins) const {
  if (ne + ins > _M_next_resize) { size_t want = ne + ins; if (want < 2 * nb) want = 2 * nb; if (want < 11) want = 11; return {true, _M_next_bkt(want)}; }
  return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* b = (const unsigned char*)p; size_t h = seed ^ 14695981039346656037ull;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
}
extern "C" {
char __libc_single_threaded = 1;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int memcmp(const void* p, const void* q, size_t n) { const unsigned char *a = (const unsigned char*)p, *b = (const unsigned char*)q; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (int)a[i] - (int)b[i]; return 0; }
int bcmp(const void* p, const void* q, size_t n) { return memcmp(p, q, n); }

// name is null for an unlinked file; lock: process (+1) holding the record lock, flk: open descriptor holding the whole-file lock
struct VFile { const char* name; char* data; int64_t size, cap; int lock, flk, dir; };
static VFile vfiles[16]; static int nvf;
struct VFd { int used, file; int64_t pos; int proc; };
static int vproc;
static VFd vfds[32];
static int64_t vfsLimit = -1;
const char* vfs_path(const char* name) { return name; }
static int vfind(const char* n) { for (int i = 0; i < nvf; i++) if (vfiles[i].name && !strcmp(vfiles[i].name, n)) return i; return -1; }
static int vcreate(const char* n) {
  int i = vfind(n);
  if (i < 0) { i = nvf++; size_t l = strlen(n) + 1; char* c = (char*)malloc(l); memcpy(c, n, l); vfiles[i].name = c; vfiles[i].cap = 4096; vfiles[i].data = (char*)malloc(4096); }
  vfiles[i].size = 0;
  return i;
}
void vfs_put(const char* name, const void* d, size_t n) { int i = vcreate(name); if ((int64_t)n > vfiles[i].cap) { vfiles[i].data = (char*)malloc(n); vfiles[i].cap = n; } memcpy(vfiles[i].data, d, n); vfiles[i].size = n; }
int64_t vfs_size(const char* name) { int i = vfind(name); return i < 0 ? -1 : vfiles[i].size; }
void vfs_get(const char* name, void* out, size_t n) { int i = vfind(name); if (i >= 0) memcpy(out, vfiles[i].data, n); }
void vfs_fail_writes_after(int64_t b) { vfsLimit = b; }
static int vfdNew(int file) { for (int k = 3; k < 32; k++) if (!vfds[k].used) { vfds[k].used = 1; vfds[k].file = file; vfds[k].pos = 0; vfds[k].proc = vproc; return k; } return -1; }
int vfs_open(const char* p, int w) { int i = w ? vcreate(p) : vfind(p); if (i < 0) return -1; return vfdNew(i); }
int64_t vfs_write(int fd, const char* p, int64_t n) {
  VFile& f = vfiles[vfds[fd].file];
  if (n < 0) return -1;
  if (vfsLimit >= 0 && f.size + n > vfsLimit) return -1;
  if (f.size + n > f.cap) { int64_t c = (f.size + n) * 2; char* d = (char*)malloc(c); memcpy(d, f.data, f.size); free(f.data); f.data = d; f.cap = c; }
  memcpy(f.data + f.size, p, n); f.size += n; return n;
}
int64_t vfs_fdsize(int fd) { return vfiles[vfds[fd].file].size; }
int64_t vfs_tell(int fd) { return vfds[fd].pos; }
void vfs_seek(int fd, int64_t pos) { vfds[fd].pos = pos; }
int64_t vfs_read(int fd, char* p, int64_t n) {
  VFile& f = vfiles[vfds[fd].file]; int64_t left = f.size - vfds[fd].pos;
  if (left < 0) left = 0;
  if (n < 0) n = 0;
  if (n > left) n = left;
  memcpy(p, f.data + vfds[fd].pos, n); vfds[fd].pos += n; return n;
}
// closing any descriptor of a file drops the process's record lock on it (POSIX); the whole-file lock goes with its descriptor
int vfs_close(int fd) { VFile& f = vfiles[vfds[fd].file]; if (f.lock == vfds[fd].proc + 1) f.lock = 0; if (f.flk == fd) f.flk = 0; vfds[fd].used = 0; return 0; }
static int vpath(const char* p) { // 0 when the containing directory exists
  size_t l = 0; for (size_t i = 0; p[i]; i++) if (p[i] == '/') l = i;
  if (l == 0) return 0;
  for (int i = 0; i < nvf; i++) { const char* n = vfiles[i].name; if (n && vfiles[i].dir && strlen(n) == l && !strncmp(n, p, l)) return p[l + 1] ? 0 : -1; }
  return -1;
}
static int verrno;
int* __errno_location() { return &verrno; }
int open(const char* p, int fl, ...) {
  if (vpath(p)) { verrno = ENOENT; return -1; }
  int i = vfind(p);
  if (i >= 0 && vfiles[i].dir) { verrno = EISDIR; return -1; }
  if (i >= 0 && (fl & O_CREAT) && (fl & O_EXCL)) { verrno = EEXIST; return -1; }
  if (i < 0) { if (!(fl & O_CREAT)) { verrno = ENOENT; return -1; } i = vcreate(p); }
  if (fl & O_TRUNC) vfiles[i].size = 0;
  int fd = vfdNew(i); if (fl & O_APPEND) vfds[fd].pos = vfiles[i].size; return fd;
}
void vfs_process(int p) { vproc = p; }
static int64_t (*vsleep)(int); static int64_t vnow = 1000000000;
void vfs_on_sleep(int64_t (*f)(int)) { vsleep = f; }
int nanosleep(const struct timespec*, struct timespec*) { sym_assume(vsleep != nullptr); vnow += vsleep(vproc); return 0; }
int vfs_fcntl(int fd, int cmd, struct flock* l) __asm__("fcntl");
int vfs_fcntl(int fd, int cmd, struct flock* l) {
  if (fd < 3 || fd >= 32 || !vfds[fd].used) { verrno = EBADF; return -1; }
  VFile& f = vfiles[vfds[fd].file];
  if (cmd != F_SETLK && cmd != F_SETLKW) return 0;
  if (l->l_type == F_UNLCK) { if (f.lock == vproc + 1) f.lock = 0; return 0; }
  if (f.lock && f.lock != vproc + 1) { if (cmd == F_SETLK) { verrno = EAGAIN; return -1; } sym_assume(false); } // would wait: another schedule covers the later start
  f.lock = vproc + 1; return 0;
}
int flock(int fd, int op) {
  if (fd < 3 || fd >= 32 || !vfds[fd].used) { verrno = EBADF; return -1; }
  VFile& f = vfiles[vfds[fd].file];
  if (op & LOCK_UN) { if (f.flk == fd) f.flk = 0; return 0; }
  if (f.flk && f.flk != fd) { if (op & LOCK_NB) { verrno = EWOULDBLOCK; return -1; } sym_assert_(vfds[f.flk].proc != vproc, "a process waits for a lock it holds itself"); sym_assume(false); }
  f.flk = fd; return 0;
}
int mkdir(const char* p, mode_t) { if (vfind(p) >= 0) { verrno = EEXIST; return -1; } if (vpath(p)) { verrno = ENOENT; return -1; } int i = vcreate(p); vfiles[i].dir = 1; return 0; }
int access(const char* p, int) { if (vfind(p) >= 0) return 0; verrno = ENOENT; return -1; }
int unlink(const char* p) { int i = vfind(p); if (i < 0 || vfiles[i].dir) { verrno = i < 0 ? ENOENT : EISDIR; return -1; } vfiles[i].name = nullptr; return 0; }
int remove(const char* p) { return unlink(p); }
int rename(const char* a, const char* b) { int i = vfind(a); if (i < 0) { verrno = ENOENT; return -1; } int j = vfind(b); if (j == i) return 0; if (j >= 0) vfiles[j].name = nullptr; size_t l = strlen(b) + 1; char* c = (char*)malloc(l); memcpy(c, b, l); vfiles[i].name = c; return 0; }
int fsync(int) { return 0; }
static void vput(int fd, const char* p, size_t n) { // write at the descriptor's position
  VFile& f = vfiles[vfds[fd].file]; int64_t at = vfds[fd].pos;
  if (at + (int64_t)n > f.cap) { int64_t c = (at + n) * 2; char* d = (char*)malloc(c); memcpy(d, f.data, f.size); free(f.data); f.data = d; f.cap = c; }
  for (int64_t k = f.size; k < at; k++) f.data[k] = 0;
  memcpy(f.data + at, p, n); if (f.size < at + (int64_t)n) f.size = at + n; vfds[fd].pos += n;
}
ssize_t write(int fd, const void* p, size_t n) { if (fd < 3 || fd >= 32 || !vfds[fd].used) return -1; vput(fd, (const char*)p, n); return n; }
ssize_t read(int fd, void* p, size_t n) { if (fd < 3 || fd >= 32 || !vfds[fd].used) return -1; return vfs_read(fd, (char*)p, n); }
int ftruncate(int fd, off_t n) { if (fd < 3 || fd >= 32 || !vfds[fd].used) return -1; VFile& f = vfiles[vfds[fd].file]; if (n < f.size) f.size = n; return 0; }
off_t lseek(int fd, off_t o, int w) { if (fd < 3 || fd >= 32 || !vfds[fd].used) return -1; int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? vfds[fd].pos : vfiles[vfds[fd].file].size; if (b + o < 0) return -1; vfds[fd].pos = b + o; return b + o; }
// stdio streams: what is written reaches the file at fflush, fseek or fclose, as with a buffer that never fills
struct MFile { int fd, wr; char* buf; size_t n, cap; };
FILE* fopen(const char* p, const char* m) {
  bool w = m[0] == 'w', a = m[0] == 'a', plus = m[1] == '+' || (m[1] && m[2] == '+');
  int fd = open(p, (w || a ? O_CREAT : 0) | (w ? O_TRUNC : 0) | (a ? O_APPEND : 0)); if (fd < 0) return nullptr;
  MFile* f = (MFile*)malloc(sizeof(MFile)); f->fd = fd; f->wr = w || a || plus; f->buf = nullptr; f->n = f->cap = 0; return (FILE*)f;
}
static bool vstd(FILE* f) { return f == stdout || f == stderr; }
int fflush(FILE* s) { if (!s || vstd(s)) return 0; MFile* f = (MFile*)s; if (f->n) vput(f->fd, f->buf, f->n); f->n = 0; return 0; }
int fileno(FILE* s) { return ((MFile*)s)->fd; }
int fclose(FILE* s) { fflush(s); MFile* f = (MFile*)s; int fd = f->fd; free(f->buf); free(f); return vfs_close(fd); }
size_t fwrite(const void* p, size_t sz, size_t n, FILE* s) {
  if (vstd(s)) return n;
  MFile* f = (MFile*)s; if (!f->wr) return 0; size_t k = sz * n; if (!k) return 0;
  if (f->n + k > f->cap) { size_t c = (f->n + k) * 2; char* d = (char*)malloc(c); if (f->n) memcpy(d, f->buf, f->n); free(f->buf); f->buf = d; f->cap = c; }
  memcpy(f->buf + f->n, p, k); f->n += k; return n;
}
int fputs(const char* p, FILE* s) { return fwrite(p, 1, strlen(p), s) ? 1 : 0; }
size_t fread(void* p, size_t sz, size_t n, FILE* s) { MFile* f = (MFile*)s; if (sz == 0) return 0; return vfs_read(f->fd, (char*)p, sz * n) / sz; }
int fseek(FILE* s, long o, int w) { fflush(s); return lseek(((MFile*)s)->fd, o, w) < 0 ? -1 : 0; }
long ftell(FILE* s) { MFile* f = (MFile*)s; return vfds[f->fd].pos + (long)f->n; }
void rewind(FILE* s) { fseek(s, 0, SEEK_SET); }
int ferror(FILE*) { return 0; }
struct MDir { int at; size_t n; char* path; struct dirent e; };
DIR* opendir(const char* p) { int i = vfind(p); if (i < 0 || !vfiles[i].dir) return nullptr; MDir* d = (MDir*)malloc(sizeof(MDir)); d->at = -2; d->n = strlen(p); d->path = (char*)malloc(d->n + 1); memcpy(d->path, p, d->n + 1); return (DIR*)d; }
struct dirent* readdir(DIR* s) {
  MDir* d = (MDir*)s; int k = d->at;
  if (k < 0) { d->at++; d->e.d_name[0] = '.'; d->e.d_name[1] = k == -1 ? '.' : 0; d->e.d_name[2] = 0; return &d->e; }
  for (; k < nvf; k++) { const char* n = vfiles[k].name; if (n && strlen(n) > d->n && n[d->n] == '/' && !strncmp(n, d->path, d->n)) { size_t l = strlen(n + d->n + 1); memcpy(d->e.d_name, n + d->n + 1, l + 1); d->at = k + 1; return &d->e; } }
  d->at = nvf; return nullptr;
}
int closedir(DIR* s) { free(((MDir*)s)->path); free(s); return 0; }
long long strtoll(const char* s, char** end, int base) {
  const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  bool neg = *p == '-'; if (*p == '-' || *p == '+') p++;
  if (base == 0) base = 10;
  unsigned long long v = 0, lim = neg ? 1ull << 63 : (1ull << 63) - 1; bool any = false, over = false;
  while (*p >= '0' && *p < '0' + (base < 10 ? base : 10)) { unsigned long long dg = *p - '0'; if (v > (lim - dg) / base) over = true; else v = v * base + dg; any = true; p++; }
  if (end) *end = (char*)(any ? p : s);
  if (over) { verrno = ERANGE; return neg ? LLONG_MIN : LLONG_MAX; }
  return (long long)(neg ? 0 - v : v);
}
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
int close(int fd) { if (fd < 3 || fd >= 32 || !vfds[fd].used) return -1; return vfs_close(fd); }
int fstat(int fd, struct stat* st) { if (fd < 3) return -1; st->st_size = vfiles[vfds[fd].file].size; return 0; }
// each mapping is an exact copy of the file: reads past the end of the file are out of bounds
void* mmap(void*, size_t n, int, int, int fd, off_t) {
  if (n == 0 || fd < 3 || fd >= 32 || !vfds[fd].used) return MAP_FAILED;
  VFile& f = vfiles[vfds[fd].file];
  char* p = (char*)malloc(n); memcpy(p, f.data, n < (size_t)f.size ? n : f.size); return p;
}
int munmap(void* p, size_t) { free(p); return 0; }

static int havoc; static uint64_t draws;
void rng_havoc(int on) { havoc = on; draws = 0; }
uint64_t rng_draws() { return draws; }
unsigned long symx_lcg(unsigned long* s) {
  draws++;
  if (havoc) { if (havoc > 1) sym_assume(draws <= (uint64_t)havoc); unsigned long v = (unsigned long)sym_i64("rng", 1, 2147483646); *s = v; return v; }
  *s = (*s * 16807UL) % 2147483647UL;
  return *s;
}
}
template class std::basic_string<char>;
extern "C" int64_t vfs_now() { return vnow; }
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vnow)); } } } }

// further library functions that an edited source may reach for
extern "C" {
void* my_memchr(const void* p, int c, size_t n) __asm__("memchr");
void* my_memchr(const void* p, int c, size_t n) { const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (b[i] == (unsigned char)c) return (void*)(b + i); return nullptr; }
char* my_strchr(const char* s, int c) __asm__("strchr");
char* my_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* my_strrchr(const char* s, int c) __asm__("strrchr");
char* my_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* my_strstr(const char* h, const char* n) __asm__("strstr");
char* my_strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return nullptr; } }
double exp(double); double log(double); double pow(double, double); double sqrt(double); double sin(double); double cos(double); double erf(double); double round(double); double rint(double); double trunc(double);
float expf(float); float logf(float); float powf(float, float); float sqrtf(float); float sinf(float); float cosf(float); float erff(float); float roundf(float); float rintf(float); float truncf(float);
double exp2(double x) { return pow(2.0, x); } float exp2f(float x) { return powf(2.0f, x); }
double log2(double x) { return log(x) / log(2.0); } float log2f(float x) { return logf(x) / logf(2.0f); }
double log10(double x) { return log(x) / log(10.0); } float log10f(float x) { return logf(x) / logf(10.0f); }
double expm1(double x) { return exp(x) - 1; } float expm1f(float x) { return expf(x) - 1; }
double log1p(double x) { return log(1 + x); } float log1pf(float x) { return logf(1 + x); }
double tan(double x) { return sin(x) / cos(x); } float tanf(float x) { return sinf(x) / cosf(x); }
double sinh(double x) { return (exp(x) - exp(-x)) / 2; } float sinhf(float x) { return (expf(x) - expf(-x)) / 2; }
double cosh(double x) { return (exp(x) + exp(-x)) / 2; } float coshf(float x) { return (expf(x) + expf(-x)) / 2; }
double erfc(double x) { return 1 - erf(x); } float erfcf(float x) { return 1 - erff(x); }
double hypot(double x, double y) { return sqrt(x * x + y * y); } float hypotf(float x, float y) { return sqrtf(x * x + y * y); }
double fdim(double x, double y) { return x > y ? x - y : 0; } float fdimf(float x, float y) { return x > y ? x - y : 0; }
long lround(double x) { return (long)round(x); } long lroundf(float x) { return (long)roundf(x); } long long llround(double x) { return (long long)round(x); } long long llroundf(float x) { return (long long)roundf(x); }
long lrint(double x) { return (long)rint(x); } long lrintf(float x) { return (long)rintf(x); } long long llrint(double x) { return (long long)rint(x); } long long llrintf(float x) { return (long long)rintf(x); }
double ldexp(double x, int n) { return x * pow(2.0, n); } float ldexpf(float x, int n) { return x * powf(2.0f, n); } double scalbn(double x, int n) { return ldexp(x, n); } float scalbnf(float x, int n) { return ldexpf(x, n); }
double cbrt(double x) { return x < 0 ? -pow(-x, 1.0 / 3) : pow(x, 1.0 / 3); } float cbrtf(float x) { return (float)cbrt(x); }
double remainder(double x, double y) { return x - y * rint(x / y); } float remainderf(float x, float y) { return x - y * rintf(x / y); }
double modf(double x, double* i) { *i = trunc(x); return x - *i; } float modff(float x, float* i) { *i = truncf(x); return x - *i; }
int pthread_once(int* c, void (*f)()) { if (!*c) { *c = 2; f(); } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t*) { return 0; } int pthread_rwlock_wrlock(pthread_rwlock_t*) { return 0; } int pthread_rwlock_unlock(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*) { return 0; } int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int isdigit(int c) { return c >= '0' && c <= '9'; } int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isalpha(int c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; } int isalnum(int c) { return isdigit(c) || isalpha(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; } int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vfs_atoi(const char*) __asm__("atoi"); int vfs_atoi(const char* s) { return (int)strtoll(s, nullptr, 10); } long vfs_atol(const char*) __asm__("atol"); long vfs_atol(const char* s) { return strtoll(s, nullptr, 10); }
unsigned long my_strtoul(const char*, char**, int) __asm__("__isoc23_strtoul"); unsigned long my_strtoul(const char* s, char** e, int b) { return (unsigned long)strtoll(s, e, b); } unsigned long long strtoull(const char* s, char** e, int b) { return (unsigned long long)strtoll(s, e, b); }
const char* vfs_strerror(int) __asm__("strerror"); const char* vfs_strerror(int) { return "error"; }
ldiv_t ldiv(long a, long b) { return ldiv_t{a / b, a % b}; } lldiv_t lldiv(long long a, long long b) { return lldiv_t{a / b, a % b}; } div_t div(int a, int b) { return div_t{a / b, a % b}; }
void qsort(void* p, size_t n, size_t w, int (*f)(const void*, const void*)) {
  char* b = (char*)p; char* t = (char*)malloc(w);
  for (size_t i = 1; i < n; i++) { memcpy(t, b + i * w, w); size_t j = i; for (; j && f(b + (j - 1) * w, t) > 0; j--) memcpy(b + j * w, b + (j - 1) * w, w); memcpy(b + j * w, t, w); }
  free(t);
}
long vfs_time(long* t) __asm__("time"); long vfs_time(long* t) { if (t) *t = vnow / 1000000000; return vnow / 1000000000; }
long clock() { return vnow / 1000; }
}
namespace std { namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  auto fix = [](_List_node_base& a, _List_node_base& was) { if (a._M_next == &was) a._M_next = a._M_prev = &a; else { a._M_next->_M_prev = &a; a._M_prev->_M_next = &a; } };
  _List_node_base t = x; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = t._M_next; y._M_prev = t._M_prev; fix(x, y); fix(y, x);
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
} }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(vnow)); } } } }

namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" {
extern char vt_si[] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE"); extern char vt_vmi[] __asm__("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
struct TypeRec { char* vptr; const char* name; };
static char* castDown(char* p, TypeRec* t, TypeRec* dst) {
  if (t == dst) return p;
  if (t->vptr == vt_si + 16) return castDown(p, *(TypeRec**)(t + 1), dst);
  if (t->vptr == vt_vmi + 16) {
    unsigned n = ((unsigned*)(t + 1))[1]; long* b = (long*)(t + 1) + 1;
    for (unsigned i = 0; i < n; i++) { long o = b[2 * i + 1]; long d = o >> 8; if (o & 1) d = *(long*)(*(char**)p + d); if (char* r = castDown(p + d, (TypeRec*)b[2 * i], dst)) return r; }
  }
  return nullptr;
}
void* vdyncast(const void*, const void*, const void*, long) __asm__("__dynamic_cast");
void* vdyncast(const void* sub, const void*, const void* dst, long) { char* vp = *(char**)sub; return castDown((char*)sub + ((long*)vp)[-2], ((TypeRec**)vp)[-1], (TypeRec*)dst); }
}
