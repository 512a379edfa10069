// C44: text encodings survive transport, or the damage does no harm.
#include "sim.hpp"
#include <arc_utilities/base64_helpers.hpp>
#include <algorithm>
#include <functional>
using namespace sim;
typedef std::vector<uint8_t> Bytes;
static Bytes exact(const Bytes& b) { Bytes x; x.reserve(b.size()); x.assign(b.begin(), b.end()); return x; }  // nothing usable behind the end

static std::string b64(const Bytes& b) {  // RFC 4648, one bit at a time
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string s;
  for (size_t i = 0; i < b.size() * 8; i += 6) {
    int v = 0;
    for (size_t k = i; k < i + 6; k++) v = v * 2 + (k < b.size() * 8 ? b[k / 8] >> (7 - k % 8) & 1 : 0);
    s += A[v];
  }
  while (s.size() % 4) s += '=';
  return s;
}
static std::string tight(const std::string& s) { std::string t; t.reserve(s.size()); t.assign(s.data(), s.size()); return t; }
static void transmit(const Bytes& b, bool mem) {
  auto guarded = [&](const char* what, const std::function<void()>& fn) {
    for (int attempt = 0;; attempt++) {
      try {
        if (mem && attempt < 2) { alloc_arm(true); }
        fn();
        alloc_arm(false);
        return;
      } catch (const std::bad_alloc&) {
        alloc_arm(false);
        SIM_CHECK(mem, "unexpected-exception", "%s %zu bytes raised bad_alloc", what, b.size());
        probe("out of memory");
      } catch (const std::exception& x) {
        alloc_arm(false);
        violation("unexpected-exception", "%s %zu bytes raised %s", what, b.size(), x.what());
      }
    }
  };
  std::string want = b64(b), enc;
  Bytes in = exact(b);
  guarded("encoding", [&] { enc = Base64Helpers::Encode(in); });
  SIM_CHECK(in == b, "input-changed", "encoding changed its input");
  SIM_CHECK(enc == want, "encoding-differs", "%zu bytes were encoded as \"%.60s\", not as \"%.60s\"", b.size(), enc.c_str(), want.c_str());
  std::string sent = want;
  bool unpadded = choose(4) == 3, url = choose(4) == 3;
  if (unpadded) while (!sent.empty() && sent.back() == '=') sent.pop_back();
  if (url) for (char& c : sent) c = c == '+' ? '-' : c == '/' ? '_' : c;
  Bytes dec;
  std::string t = tight(sent);
  guarded("decoding", [&] { dec = Base64Helpers::Decode(t); });
  SIM_CHECK(dec == b, "decoding-differs", "the %s encoding of %zu bytes was decoded to %zu other bytes", unpadded ? "unpadded" : url ? "URL-safe" : "standard", b.size(), dec.size());
  uint32_t n = choose(3, "damaged deliveries");
  for (uint32_t k = 0; k < n && !sent.empty(); k++) {
    std::string d = sent;
    if (choose(2)) {
      d.resize(choose((uint32_t)d.size(), "cut at"));
      fault("cut_text");
      t = tight(d);
      guarded("decoding", [&] { dec = Base64Helpers::Decode(t); });
      size_t chars = std::min(d.find('='), d.size()), whole = std::min(b.size(), chars * 6 / 8);
      SIM_CHECK(dec.size() >= whole && std::equal(b.begin(), b.begin() + whole, dec.begin()), "received-bytes-lost", "of a text cut after %zu characters, the %zu bytes that were received in full were not decoded", d.size(), whole);
      SIM_CHECK(dec.size() <= whole + 1, "bytes-invented", "a text cut after %zu characters, %zu whole bytes, was decoded to %zu bytes", d.size(), whole, dec.size());
    } else {
      size_t groups = (d.size() + 3) / 4, at = choose((uint32_t)d.size(), "damaged character");
      d[at] = (char)choose(256, "damage");
      if (choose(2)) d[at] |= (char)0x80;
      fault("damaged_character");
      t = tight(d);
      guarded("decoding", [&] { dec = Base64Helpers::Decode(t); });
      size_t g = at / 4;
      if (g + 1 < groups) SIM_CHECK(dec.size() == b.size(), "size-changed", "a damaged character in group %zu of %zu changed the number of decoded bytes from %zu to %zu", g, groups, b.size(), dec.size());
      else SIM_CHECK(dec.size() >= g * 3 && dec.size() <= g * 3 + 3, "size-changed", "a damaged character in the last of %zu groups gave %zu bytes", groups, dec.size());
      for (size_t i = 0; i < std::min(dec.size(), b.size()); i++)
        if (i / 3 != g) SIM_CHECK(dec[i] == b[i], "undamaged-group-differs", "a damaged character in group %zu changed byte %zu", g, i);
    }
  }
}
SCENARIO(C44) {
  uint32_t nthreads = choose(3) == 2 ? 2 + choose(2, "threads") : 1;
  bool mem = choose(4, "memory") == 3;
  if (mem) alloc_faults(1 + choose(6));
  std::vector<std::vector<Bytes>> data(nthreads);
  for (auto& d : data) {
    uint32_t n = 1 + choose(4, "texts");
    for (uint32_t i = 0; i < n; i++) {
      Bytes b;
      uint32_t len = choose(8) ? choose(13, "length") : choose(300, "length");
      uint32_t kind = choose(3);
      for (uint32_t k = 0; k < len; k++) b.push_back(kind == 0 ? (uint8_t)choose(256) : kind == 1 ? 0xfb + (uint8_t)(k % 5) : (uint8_t)(k * 37 + len));
      d.push_back(b);
    }
  }
  nontrivial();
  if (nthreads == 1) { for (auto& b : data[0]) transmit(b, mem); return; }
  std::vector<int> t;
  for (auto& d : data) t.push_back(spawn([&] { for (auto& b : d) transmit(b, mem); }, "user"));
  for (int x : t) join(x);
}
