// In-memory files and a checkable exit() for the IO code: the file system is one buffer per file name.
#pragma once
#include_next <fcntl.h>
#include_next <unistd.h>
#include_next <sys/mman.h>
#include_next <sys/stat.h>
#include <cstdlib>
#include <cstring>
#include <iosfwd>
#include <string>
#include <utility>
#include <vector>
#include <sys/types.h>
#include "kse.h"
namespace kse_io {
struct File { std::string name; std::vector<char> data; };
inline std::vector<File> &files() { static std::vector<File> f; return f; }
inline File *find(const char *n) { for (auto &f : files()) if (f.name == n) return &f; return nullptr; }
inline File &put(const char *n) { if (File *f = find(n)) { f->data.clear(); return *f; } files().push_back({n, {}}); return files().back(); }
inline std::size_t size(const std::string &n) { File *f = find(n.c_str()); return f ? f->data.size() : 0; }
inline int may_exit = 0; // 0: exit() is a violation; 1: exit() is the expected outcome
inline int open_fds = 0;
}
inline int kse_open(const char *n, int, int = 0) { for (std::size_t i = 0; i < kse_io::files().size(); ++i) if (kse_io::files()[i].name == n) { ++kse_io::open_fds; return 3 + (int)i; } return -1; }
template <class S> inline int kse_fstat(int fd, S *s) { if (fd < 3) return -1; s->st_size = kse_io::files()[fd - 3].data.size(); return 0; }
// the mapping has exactly the size of the file, as it has when that is a multiple of the page size
inline void *kse_mmap(void *, std::size_t len, int, int, int fd, off_t) { auto &d = kse_io::files()[fd - 3].data; if (len == 0) return (void *)-1; char *p = static_cast<char *>(std::malloc(len)); for (std::size_t i = 0; i < len; ++i) p[i] = d[i]; return p; }
inline int kse_munmap(void *p, std::size_t) { std::free(p); return 0; }
inline int kse_close(int) { --kse_io::open_fds; return 0; }
[[noreturn]] inline void kse_exit(int) { kse_assert(kse_io::may_exit, "the program gives up on a well-formed input"); kse_reach("exit"); kse_end(); }
namespace std {
using ::kse_exit;
struct kse_null_stream { template <class T> const kse_null_stream &operator<<(T &&) const { return *this; } };
inline kse_null_stream kse_cerr;
class kse_ofstream {
  kse_io::File *f; string n;
public:
  template <class... A> explicit kse_ofstream(const string &name, A &&...) : n(name) { kse_io::put(n.c_str()); }
  kse_ofstream(kse_ofstream &&) = default;
  vector<char> &d() { return kse_io::find(n.c_str())->data; }
  kse_ofstream &write(const char *p, size_t k) { auto &v = d(); for (size_t i = 0; i < k; ++i) v.push_back(p[i]); return *this; }
  kse_ofstream &operator<<(char c) { d().push_back(c); return *this; }
  kse_ofstream &operator<<(const char *s) { return write(s, strlen(s)); }
  template <class T> requires is_integral_v<T> kse_ofstream &operator<<(T x) {
    if constexpr (is_same_v<T, signed char> || is_same_v<T, unsigned char>) { d().push_back(x); return *this; }
    unsigned long long u = x; if constexpr (is_signed_v<T>) if (x < 0) { d().push_back('-'); u = -u; }
    char b[24]; int k = 0; do { b[k++] = '0' + u % 10; u /= 10; } while (u != 0);
    while (k) d().push_back(b[--k]);
    return *this;
  }
};
class kse_ifstream {
  string n; size_t pos = 0;
public:
  template <class... A> explicit kse_ifstream(const string &name, A &&...) : n(name) {}
  kse_ifstream &read(char *p, size_t k) { auto &v = kse_io::find(n.c_str())->data; for (size_t i = 0; i < k; ++i) if (pos < v.size()) p[i] = v[pos++]; return *this; }
};
}
#define open(...) kse_open(__VA_ARGS__)
#define fstat(a, b) kse_fstat(a, b)
#define mmap(...) kse_mmap(__VA_ARGS__)
#define munmap(a, b) kse_munmap(a, b)
#define close(x) kse_close(x)
