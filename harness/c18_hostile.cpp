#include "common.h"
#include "Modules.h"
#include "Serializer.h"
#include <string>
struct Named : nn::Module {
  std::vector<std::pair<std::string, TensorPtr>> l; std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override { return l; }
  Named& add(const std::string& n, Tensor& t) { l.emplace_back(n, &t); return *this; }
};
typedef std::vector<uint8_t> Bytes;
static void p64(Bytes& b, uint64_t v) { for (int i = 0; i < 8; i++) b.push_back((uint8_t)(v >> (8 * i))); }
static void at64(Bytes& b, size_t at, uint64_t v) { for (int i = 0; i < 8; i++) b[at + i] = (uint8_t)(v >> (8 * i)); }
// destination: "w" float [2], "x" int32 [1]; memory outside them is watched by the engine on every access
struct Dst { Tensor w, x; Named m; Dst() : w(mk({1.5f, -2.5f}, {2})), x(Tensor(std::vector<int32_t>{77}, IntArrayView{1}, options::dtype(DType::Int32))) { m.add("w", w).add("x", x); }
  bool wKept() { return fbits(fp(w)[0]) == fbits(1.5f) && fbits(fp(w)[1]) == fbits(-2.5f); } bool xKept() { return x.dataPtr<int32_t>()[0] == 77; } void layout() { checkLayout(w, {2}, "destination layout"); checkLayout(x, {1}, "destination layout"); CHECK(w.dtype() == DType::Float32 && x.dtype() == DType::Int32, "destination types"); } };
// a well-formed file: two tensors, 24 + (40 + 1 + 8) * 2 header bytes, 8 + 4 data bytes
static Bytes valid(uint32_t f0, uint32_t f1, uint32_t x) { Bytes b; p64(b, 0x54494E59); p64(b, 1); p64(b, 2); p64(b, 1); p64(b, 1); p64(b, 0); p64(b, 122); p64(b, 8); b.push_back('w'); p64(b, 2); p64(b, 1); p64(b, 1); p64(b, 3); p64(b, 130); p64(b, 4); b.push_back('x'); p64(b, 1); for (uint32_t v : {f0, f1, x}) for (int i = 0; i < 4; i++) b.push_back((uint8_t)(v >> (8 * i))); return b; }
static void put(const Bytes& b) { Bytes c(b); c.reserve(1); vfs_put("m", c.data(), c.size()); }
static bool bitsAre(Dst& d, uint32_t f0, uint32_t f1) { return fbits(fp(d.w)[0]) == f0 && fbits(fp(d.w)[1]) == f1; }
// the reference file is what save writes
HARNESS(reference) { begin(); uint32_t a = sym_u32("a"), b = sym_u32("b"), x = sym_u32("x"); Bytes v = valid(a, b, x); Dst d; put(v); CHECK(load(d.m, vfs_path("m")), "the well-formed file loads"); CHECK(bitsAre(d, a, b) && (uint32_t)d.x.dataPtr<int32_t>()[0] == x, "values"); CHECK(save(d.m, vfs_path("n")), "saves"); CHECK(vfs_size("n") == (int64_t)v.size(), "same size"); Bytes n(v.size()); vfs_get("n", n.data(), n.size()); for (size_t i = 0; i < v.size(); i++) CHECK(n[i] == v[i], "same bytes"); END(); }
// cut at every byte
HARNESS(truncated) {
  begin(); bool strict = pick("strict", 0, 1); uint32_t a = sym_u32("a"), b = sym_u32("b"), x = sym_u32("x"); Bytes v = valid(a, b, x); int64_t n = pick("length", 0, (int64_t)v.size()); Bytes c(v.begin(), v.begin() + n); put(c); Dst d; bool r = load(d.m, vfs_path("m"), strict); d.layout();
  CHECK(r == (n == (int64_t)v.size()), "a truncated file is reported"); CHECK(bitsAre(d, a, b) || d.wKept(), "a tensor is loaded from the file or unchanged"); CHECK((uint32_t)d.x.dataPtr<int32_t>()[0] == x || d.xKept(), "a tensor is loaded from the file or unchanged"); END();
}
// any value in any one header field
static void field(int f, bool len) {
  static const size_t at[] = {0, 8, 16, 24, 32, 40, 48, 56, 65, 73, 81, 89, 97, 105, 114}; uint32_t a = 0x3f000000, b = 0x40000000, x = 5; Bytes v = valid(a, b, x); uint64_t o = 0; for (int i = 0; i < 8; i++) o |= (uint64_t)v[at[f] + i] << (8 * i); uint64_t u = sym_u64("field"); sym_assume(u != o); at64(v, at[f], u); put(v); Dst d; bool strict = pick("strict", 0, 1); bool r = load(d.m, vfs_path("m"), strict); d.layout();
  if (f == 0 || f == 1) { CHECK(!r, "a wrong magic number or version is reported"); CHECK(d.wKept() && d.xKept(), "nothing is loaded"); }
  else if (f == 4 || f == 5 || f == 7 || f == 8) { CHECK(!r, "a tensor that does not match is reported"); CHECK(d.wKept(), "and left unchanged"); }
  else if (f == 10 || f == 11 || f == 13 || f == 14) { CHECK(!r, "a tensor that does not match is reported"); CHECK(d.xKept() && bitsAre(d, a, b), "and left unchanged"); }
  else if (f == 6) { if (u > v.size() || u + 8 > v.size()) { CHECK(!r, "data outside the file is reported"); CHECK(d.wKept(), "and not loaded"); } else CHECK(r, "data inside the file is loaded"); }
  else if (f == 12) { if (u > v.size() || u + 4 > v.size()) { CHECK(!r, "data outside the file is reported"); CHECK(d.xKept() && bitsAre(d, a, b), "and not loaded"); } else CHECK(r, "data inside the file is loaded"); }
  END();
}
HARNESS(field_magic) { begin(); field(0, 0); }
HARNESS(field_version) { begin(); field(1, 0); }
HARNESS(field_count) { begin(); field(2, 0); }
HARNESS(field_name_length) { begin(); field(3, 1); }
HARNESS(field_rank) { begin(); field(4, 0); }
HARNESS(field_type) { begin(); field(5, 0); }
HARNESS(field_offset) { begin(); field(6, 0); }
HARNESS(field_size) { begin(); field(7, 0); }
HARNESS(field_dim) { begin(); field(8, 0); }
HARNESS(field_name_length_last) { begin(); field(9, 1); }
HARNESS(field_rank_last) { begin(); field(10, 0); }
HARNESS(field_type_last) { begin(); field(11, 0); }
HARNESS(field_offset_last) { begin(); field(12, 0); }
HARNESS(field_size_last) { begin(); field(13, 0); }
HARNESS(field_dim_last) { begin(); field(14, 0); }
// offset and size together (their sum may wrap), for a tensor that otherwise matches
HARNESS(offset_and_size) {
  begin(); Bytes v = valid(1, 2, 3); uint64_t o = sym_u64("offset"), s = sym_u64("size"); at64(v, 48, o); at64(v, 56, s); put(v); Dst d; bool r = load(d.m, vfs_path("m")); d.layout(); bool in = s == 8 && o <= v.size() - 8; CHECK(r == in, "loaded exactly when the data lies inside the file"); if (!in) CHECK(d.wKept(), "unchanged"); END();
}
// rank and name length together
HARNESS(name_and_rank) { begin(); Bytes v = valid(1, 2, 3); at64(v, 24, sym_u64("nameLength")); at64(v, 32, sym_u64("rank")); put(v); Dst d; load(d.m, vfs_path("m"), false); d.layout(); END(); }
// an arbitrary short file
HARNESS(any_header) { begin(); int64_t n = pick("length", 0, TIER == 2 ? 66 : 64); Bytes v; for (int64_t i = 0; i < n; i++) v.push_back(i < 16 ? valid(0, 0, 0)[i] : sym_u8("byte")); put(v); Dst d; bool r = load(d.m, vfs_path("m"), true); d.layout(); CHECK(!r, "no file this short holds both tensors"); CHECK(d.xKept() && d.wKept(), "unchanged"); END(); }
HARNESS(any_bytes) { begin(); int64_t n = pick("length", 0, 30); Bytes v; for (int64_t i = 0; i < n; i++) v.push_back(sym_u8("byte")); put(v); Dst d; bool r = load(d.m, vfs_path("m"), true); CHECK(!r, "reported"); CHECK(d.wKept() && d.xKept(), "unchanged"); END(); }
// the same tensor twice, shapes with negative or huge sizes whose product wraps to the right size
HARNESS(dims_wrap) { begin(); Bytes v; p64(v, 0x54494E59); p64(v, 1); p64(v, 1); p64(v, 1); p64(v, 2); p64(v, 0); p64(v, 24 + 40 + 1 + 16); p64(v, 8); v.push_back('w'); p64(v, sym_u64("d0")); p64(v, sym_u64("d1")); p64(v, 7); put(v); Dst d; bool r = load(d.m, vfs_path("m"), false); d.layout(); CHECK(!r, "a different rank does not match"); CHECK(d.wKept() && d.xKept(), "unchanged"); END(); }
HARNESS(duplicate) { begin(); uint32_t a = sym_u32("a"), b = sym_u32("b"); Bytes v = valid(a, b, 9); v[24 + 49 + 40] = 'w'; at64(v, 73 + 8, 1); at64(v, 73 + 16, 0); at64(v, 73 + 24, 122); at64(v, 73 + 32, 8); at64(v, 114, 2); put(v); Dst d; CHECK(!load(d.m, vfs_path("m"), true), "x is missing"); CHECK(bitsAre(d, a, b) && d.xKept(), "loaded"); END(); }
