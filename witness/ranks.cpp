// DEFS: -Iwitness/mockpy
// the standard containers of characters are compiled from their source, too
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
// A file is read by the root and known to every process, and so is the failure to read it
#include "history.hpp"
#include <fmt/format.h>
#include <fstream>
#include "fub/core/assert.hpp"
#include "fub/ext/Mpi.hpp"
inline int Rank, Size; inline const char* Text; // Size < 0: the file cannot be opened
inline int Casts, Reads; inline bool Failed;
namespace std {
struct verif_ifstream {
  long pos = 0; bool ok; static constexpr int failbit = 1;
  explicit verif_ifstream(const string&, int = 0) : ok(Size >= 0) { ++Reads; }
  verif_ifstream& seekg(long p, int from = 0) { pos = p + (from == 2 ? Size : 0); return *this; }
  long tellg() { return ok ? pos : -1; }
  verif_ifstream& read(char* d, long n) { for (long i = 0; i < n; ++i) d[i] = Text[pos + i]; pos += n; return *this; }
  explicit operator bool() const { return ok; }
  bool operator!() const { return !ok; }
  bool is_open() const { return ok; }
  bool good() const { return ok; }
  bool fail() const { return !ok; }
  void close() {}
};
}
struct Message { int bytes; char data[16]; };
inline Message Sent[8]; inline bool Matched;
inline int size_of(MPI_Datatype t) { return t == MPI_CHAR || t == MPI_BYTE || t == MPI_SIGNED_CHAR || t == MPI_UNSIGNED_CHAR || t == MPI_CXX_BOOL ? 1 : t == MPI_INT || t == MPI_UNSIGNED || t == MPI_INT32_T ? 4 : 8; }
extern "C" {
int MPI_Comm_rank(MPI_Comm, int* r) { *r = Rank; return 0; }
int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm) {
  char* b = static_cast<char*>(p); const int bytes = n * size_of(t); Message& m = Sent[Casts++];
  Matched = Matched && root == 0;
  if (Rank == 0) m.bytes = bytes; else Matched = Matched && m.bytes == bytes;
  for (int i = 0; i < bytes; ++i) { if (Rank == 0) m.data[i] = b[i]; else b[i] = m.data[i]; }
  return 0;
}
}
// a throw leaves the function
#define ifstream verif_ifstream
#define throw if (Failed = true; true) return {}; else (void)
#include "src/ext/Mpi.cpp"
#undef throw
#undef ifstream
inline void put(Out& o, const std::string& s) { o.put(double(s.size())); for (std::size_t i = 0; i < 8; ++i) o.put(i < s.size() ? double(s[i]) : -1.0); }
/// what the root does decides how many operations there are
inline int RootCasts;
inline void one(Out& o, int rank) { Rank = rank; Casts = 0; Reads = 0; Failed = false; Matched = true; const std::string text = fub::ReadAndBroadcastFile("file", MPI_COMM_WORLD); put(o, Failed ? std::string() : text); if (rank == 0) RootCasts = Casts; o.put(Failed); o.put(Casts == RootCasts ? 1.0 : 0.0); o.put(Matched); o.put(Reads > 0 ? 1.0 : 0.0); }
inline void all(Out& o, const char* text, int size) { Text = text; Size = size; for (int r = 0; r < 3; ++r) one(o, r); }
inline void known(Out& o, const char* text, int size) { for (int r = 0; r < 3; ++r) { put(o, std::string(text, text + size)); o.put(0.0); o.put(1.0); o.put(1.0); o.put(r == 0 ? 1.0 : 0.0); } }
inline void unknown(Out& o) { for (int r = 0; r < 3; ++r) { put(o, std::string()); o.put(1.0); o.put(1.0); o.put(1.0); o.put(r == 0 ? 1.0 : 0.0); } }
LAW(O02_file, all(o, "abcde", 5), known(o, "abcde", 5))
LAW(O02_file_prefix, all(o, "abcde", 1), known(o, "a", 1))
LAW(O02_file_empty, all(o, "", 0), known(o, "", 0))
LAW(O02_file_missing, all(o, "", -1), unknown(o))
LAW2(O02_minimum, o.put(fub::MinAll(MPI_COMM_WORLD, Duration(vg_in(2))).count()); o.put(H->h), H->op(kMin, 1.0, vg_in(2)); o.put(H->value(kMin)); o.put(H->h))
