// C01, C02, C03: compressed files on a simulated, failing disk.
#include "data_gen.hpp"
#include <arc_utilities/zlib_helpers.hpp>
#include <memory>
#include <sstream>
#include <zlib.h>
using namespace sim;
typedef std::vector<uint8_t> Bytes;

static size_t g_slice = 0xffffffffu;
extern "C" size_t arc_utilities_sim_max_slice_bytes() { return g_slice; }

static uint32_t pick_rate(uint32_t p) { static const uint32_t r[] = {0, 12, 6, 3, 2}; return choose(p) ? r[1 + choose(4)] : 0; }

enum Outcome { OK, THREW, KILLED };
// the save runs in its own simulated process; faults and crash points only hit that process
static Outcome save(const Bytes& b, const std::string& path, bool faults, std::string* what = nullptr) {
  Outcome o = THREW;
  Exit e = run_process([&] {
    fs_enable_faults(current_pid(), faults);
    try {
      if (faults) alloc_arm(true);
      ZlibHelpers::CompressAndWriteToFile(b, path);
      o = OK;
    } catch (const std::exception& x) { o = THREW; if (what) { alloc_arm(false); *what = x.what(); } }
    alloc_arm(false);
  }, "save");
  return e == EXIT_KILLED ? KILLED : o;
}
static Outcome load(Bytes* out, const std::string& path, bool faults, std::string* what = nullptr) {
  Outcome o = THREW;
  Exit e = run_process([&] {
    fs_enable_faults(current_pid(), faults);
    try {
      if (faults) alloc_arm(true);
      Bytes r = ZlibHelpers::LoadFromFileAndDecompress(path);
      alloc_arm(false);
      *out = std::move(r);
      o = OK;
    } catch (const std::exception& x) { o = THREW; if (what) { alloc_arm(false); *what = x.what(); } }
    alloc_arm(false);
  }, "load");
  return e == EXIT_KILLED ? KILLED : o;
}

// a sink that keeps nothing: a growing buffer would allocate (and draw allocation faults) depending on earlier runs
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } };
static void quiet() { static NullBuf* o = new NullBuf; std::cerr.rdbuf(o); }

static void swarm_write_faults() {
  FsFaults& f = fs_faults();
  if (choose(4) == 0) return;  // fault-free configuration
  switch (choose(7, "fault family")) {
    case 0: f.open_err = pick_rate(2); break;
    case 1: f.write_err = pick_rate(4) ? 3 : 8; break;
    case 2: f.short_write = 2; f.eintr = pick_rate(3); f.write_err = pick_rate(3); break;
    case 3: f.lost_close = 2; break;
    case 4: f.capacity = choose(3) ? choose(200) : choose(20000); break;
    case 5: f.short_write = pick_rate(3); f.write_err = pick_rate(4); f.lost_close = pick_rate(3); f.close_err = pick_rate(2); f.eintr = 4; break;
    default: alloc_faults(8); break;
  }
}
static void no_faults() { fs_faults() = FsFaults(); alloc_faults(0); }

static bool is_clean() {
  FsFaults z; return memcmp(&z, &fs_faults(), sizeof z) == 0;
}

SCENARIO(C01) {
  quiet();
  // directories
  fs_mkdir("/sim/cwd/d");
  std::vector<std::string> paths = {"a.gz", "d/b.gz", "/sim/cwd/c"};
  uint32_t mode = choose(4, "mode");
  if (mode < 3) {
    int n = 1 + choose(4, "saves");
    for (int i = 0; i < n; i++) {
      std::string p = paths[choose(2)];
      Bytes b = gen_bytes("size", true);
      if (choose(6) == 5) {  // something else at that path
        Bytes junk = gen_bytes("junk", false);
        fs_write(p[0] == '/' ? p : "/sim/cwd/" + p, std::string(junk.begin(), junk.end()));
      }
      no_faults();
      swarm_write_faults();
      bool clean = is_clean();
      alloc_fault_clear();
      std::string w;
      Outcome o = save(b, p, true, &w);
      if (alloc_fault_fired()) clean = false;
      no_faults();
      event("save %zu bytes to %s -> %d", b.size(), p.c_str(), (int)o);
      if (o == THREW) {
        SIM_CHECK(!clean, "healthy-save-failed", "saving %zu bytes to %s on a healthy disk raised: %s", b.size(), p.c_str(), w.c_str());
        probe("save_refused");
        continue;
      }
      if (!clean) probe("save_ok_under_faults");
      Bytes r;
      Outcome l = load(&r, p, false, &w);
      SIM_CHECK(l == OK, "acked-save-unreadable", "a save of %zu bytes to %s returned normally, but loading it raised: %s", b.size(), p.c_str(), w.c_str());
      SIM_CHECK(r == b, "acked-save-differs", "a save of %zu bytes to %s returned normally, but %zu other bytes were loaded", b.size(), p.c_str(), r.size());
    }
  } else {
    // concurrent saves and loads of different paths by threads of one process
    int n = 2 + choose(2, "threads");
    swarm_write_faults();
    fs_faults().crash = 0;
    std::vector<std::vector<Bytes>> data(n);
    std::vector<std::string> err(n);
    std::vector<int> acked(n, -1);  // index of the last save when it was acknowledged
    for (int i = 0; i < n; i++) { int k = 1 + choose(2); for (int j = 0; j < k; j++) data[i].push_back(gen_bytes("size", false)); }
    run_process([&] {
      fs_enable_faults(current_pid(), true);
      std::vector<int> t;
      for (int i = 0; i < n; i++) t.push_back(spawn([&, i] {
        for (size_t j = 0; j < data[i].size(); j++) {
          try { ZlibHelpers::CompressAndWriteToFile(data[i][j], paths[i]); acked[i] = (int)j; } catch (const std::exception& e) { acked[i] = -1; continue; }
          // a read may be refused while faults are active, but must not return other bytes
          try { if (ZlibHelpers::LoadFromFileAndDecompress(paths[i]) != data[i][j]) { err[i] = "differs"; return; } } catch (const std::exception& e) {}
        }
      }, "saver"));
      for (int x : t) join(x);
    }, "savers");
    no_faults();
    for (int i = 0; i < n; i++) {
      if (err[i] == "differs") violation("concurrent-save-differs", "with %d threads using different paths, an acknowledged save read back differently", n);
      if (acked[i] < 0) continue;
      Bytes r;
      std::string w;
      SIM_CHECK(load(&r, paths[i], false, &w) == OK, "concurrent-save-unreadable", "with %d threads using different paths, an acknowledged save could not be loaded: %s", n, w.c_str());
      SIM_CHECK(r == data[i][acked[i]], "concurrent-save-differs", "with %d threads using different paths, an acknowledged save read back differently", n);
    }
  }
}

static std::string disk(const std::string& p) { std::string s; fs_read(p, &s); return s; }

// Damage to a stored stream that still is one complete zlib stream with a matching checksum is beyond what the format
// can detect (Adler-32 of a few small bytes collides): decided here by an inflate of our own.
static bool passes_checksum(const std::string& s, Bytes* out) {
  z_stream z; memset(&z, 0, sizeof z);
  if (inflateInit(&z) != Z_OK) return false;
  Bytes o(1 << 16);
  z.next_in = (Bytef*)s.data(); z.avail_in = (uInt)s.size();
  int rc;
  out->clear();
  do {
    z.next_out = o.data(); z.avail_out = (uInt)o.size();
    rc = inflate(&z, Z_NO_FLUSH);
    out->insert(out->end(), o.begin(), o.begin() + (o.size() - z.avail_out));
  } while (rc == Z_OK && (z.avail_in || !z.avail_out));
  inflateEnd(&z);
  return rc == Z_STREAM_END;
}

SCENARIO(C02) {
  quiet();
  std::string p = "/sim/cwd/f.z";
  std::vector<Bytes> saved;
  Bytes first = gen_bytes("size", choose(8) == 7);
  SIM_CHECK(save(first, p, false) == OK, "healthy-save-failed", "a save on a healthy disk failed");
  saved.push_back(first);
  auto check = [&](Outcome o, const Bytes& r, const char* how) {
    if (o != OK) { probe("damage_detected"); return; }
    for (auto& b : saved) if (r == b) { probe("load_returned_a_save"); return; }
    violation(how, "loading returned %zu bytes that no save to the path contained (%s)", r.size(), how);
  };
  switch (choose(6, "damage")) {
    case 0: {  // truncated at rest
      std::string s = disk(p);
      s.resize(choose((uint32_t)s.size()));
      fs_write(p, s);
      fault("truncated_file");
      Bytes r; Outcome o = load(&r, p, false); check(o, r, "truncated-file-misread");
      break;
    }
    case 1: {  // flipped bits and overwritten ranges at rest
      std::string s = disk(p);
      int k = 1 + choose(4);
      for (int i = 0; i < k && !s.empty(); i++) {
        size_t at = choose(3) ? choose((uint32_t)s.size()) : s.size() - 1 - choose((uint32_t)std::min<size_t>(s.size(), 8));
        s[at] ^= (char)(1u << choose(8));
      }
      fault("bit_flip");
      fs_write(p, s);
      Bytes u;
      if (passes_checksum(s, &u) && u != first) { probe("damage_beyond_the_checksum"); saved.push_back(u); }
      Bytes r; Outcome o = load(&r, p, false); check(o, r, "damaged-file-misread");
      // the in-memory form
      Bytes d(s.begin(), s.end());
      o = THREW;
      run_process([&] { try { r = ZlibHelpers::DecompressBytes(d); o = OK; } catch (const std::exception&) {} });
      check(o, r, "damaged-buffer-misread");
      if (choose(2)) {
        if (choose(2)) d.resize(choose((uint32_t)d.size() + 1));
        else { Bytes z; if (choose(2)) z.assign(d.begin(), d.begin() + choose((uint32_t)d.size() + 1)); d.insert(d.begin() + choose((uint32_t)d.size() + 1), z.begin(), z.end()); }
        if (passes_checksum(std::string(d.begin(), d.end()), &u) && u != first) saved.push_back(u);
        o = THREW;
        run_process([&] { try { r = ZlibHelpers::DecompressBytes(d); o = OK; } catch (const std::exception&) {} });
        check(o, r, "damaged-buffer-misread");
      }
      break;
    }
    case 2: case 3: {  // crash inside a second save, possibly with power loss
      Bytes b = gen_bytes("second", choose(8) == 7);
      saved.push_back(b);
      fs_faults().crash = 2 + choose(6);
      fs_faults().short_write = choose(2) ? 2 : 0;
      fs_faults().write_err = choose(3) == 2 ? 4 : 0;
      Outcome o = save(b, p, true);
      no_faults();
      if (o == KILLED && choose(2)) fs_power_loss();
      Bytes r; Outcome l = load(&r, p, false); check(l, r, "torn-file-misread");
      break;
    }
    case 4: {  // read faults
      FsFaults& f = fs_faults();
      f.open_err = choose(3) == 2 ? 4 : 0; f.read_err = choose(2) ? 3 : 0; f.short_read = choose(2) ? 2 : 0; f.eintr = choose(2) ? 4 : 0; f.stat_err = choose(3) == 2 ? 3 : 0; f.seek_err = choose(3) == 2 ? 3 : 0;
      if (choose(3) == 2) alloc_faults(6);
      Bytes r; Outcome o = load(&r, p, true);
      no_faults();
      check(o, r, "read-error-misread");
      break;
    }
    default: {  // another process overwrites while we read
      int k = 1 + choose(2);
      std::vector<int> pids;
      for (int i = 0; i < k; i++) {
        auto b = std::make_shared<Bytes>(gen_bytes("other", false));
        if (choose(2)) { *b = first; if (!b->empty()) (*b)[choose((uint32_t)b->size())] ^= 0x55; }
        saved.push_back(*b);
        pids.push_back(spawn_process([b, p] { try { ZlibHelpers::CompressAndWriteToFile(*b, p); } catch (const std::exception&) {} }, "writer"));
        if (choose(2)) break;
      }
      // two writers at once may legally leave interleaved bytes: still never misread
      int n = 1 + choose(3);
      fs_faults().short_read = choose(2) ? 2 : 0;
      for (int i = 0; i < n; i++) { Bytes r; Outcome o = load(&r, p, true); check(o, r, "concurrent-overwrite-misread"); }
      for (int x : pids) wait_process(x);
      Bytes r; Outcome o = load(&r, p, false); check(o, r, "concurrent-overwrite-misread");
      break;
    }
  }
}

SCENARIO(C03) {
  quiet();
  g_slice = 1 + choose(3) * 7 + choose(40);
  std::string p = "/sim/cwd/big";
  int n = 1 + choose(3, "saves");
  auto gen = [&] {
    size_t len = choose(3) == 0 ? choose((uint32_t)g_slice + 1) : g_slice * choose(5) + (choose(3) ? choose((uint32_t)g_slice) : choose(2));
    if (choose(10) == 9) len = g_slice * (10 + choose(2)) + choose(3);
    Bytes b;
    uint32_t kind = choose(4), sd = choose(1000);
    fill_bytes(b, len, kind, sd);
    return b;
  };
  Bytes last;
  bool acked = false;
  std::vector<Bytes> all;
  for (int i = 0; i < n; i++) {
    Bytes b = gen();
    all.push_back(b);
    bool faulty = choose(3) == 2;
    no_faults();
    if (faulty) { swarm_write_faults(); if (choose(3) == 2) fs_faults().crash = 3 + choose(12); if (choose(3) == 2) fs_faults().unlink_err = 3; if (choose(6) == 5) fs_faults().stat_err = 6; }
    std::string w;
    alloc_fault_clear();
    bool clean = is_clean();
    Outcome o = save(b, p, true, &w);
    if (alloc_fault_fired()) clean = false;
    no_faults();
    event("save %zu (slice %zu) -> %d", b.size(), g_slice, (int)o);
    if (o != OK) {
      SIM_CHECK(!clean, "healthy-save-failed", "a multi-part save on a healthy disk raised: %s", w.c_str());
      acked = false;
      // a save that failed or was cut short by a crash must not leave a mixture behind
      Bytes r;
      if (load(&r, p, false) == OK) {
        bool known = false;
        for (auto& x : all) if (x == r) known = true;
        SIM_CHECK(known, "interrupted-save-mixed", "save number %d (%zu bytes, part size %zu) %s, and the path now loads as %zu bytes that were never saved", i + 1, b.size(), g_slice, o == KILLED ? "was cut short by a crash" : "raised an exception", r.size());
        probe("load_after_interrupted_save");
      } else probe("interrupted_save_detected");
      continue;
    }
    acked = true;
    last = b;
    all.assign(1, b);
    Bytes r;
    Outcome l = load(&r, p, false, &w);
    SIM_CHECK(l == OK, "acked-parts-unreadable", "save number %d (%zu bytes, part size %zu) returned normally but loading raised: %s", i + 1, b.size(), g_slice, w.c_str());
    SIM_CHECK(r == b, "acked-parts-differ", "save number %d (%zu bytes, part size %zu) returned normally but %zu other bytes were loaded", i + 1, b.size(), g_slice, r.size());
  }
  if (!acked) return;
  // damage or read faults in any part: the load must not return altered data
  std::vector<std::string> parts;
  for (auto& x : fs_ls("/sim/cwd")) parts.push_back("/sim/cwd/" + x);
  if (parts.empty()) return;
  Bytes r;
  switch (choose(2, "damage")) {
    case 0: {
      std::string q = parts[choose((uint32_t)parts.size())];
      std::string s = disk(q);
      if (s.empty()) return;
      if (choose(2)) s.resize(choose((uint32_t)s.size())); else s[choose((uint32_t)s.size())] ^= 1 << choose(8);
      fs_write(q, s);
      fault("damaged_part");
      Bytes u;
      if (passes_checksum(s, &u) && load(&r, p, false) == OK) {
        bool part = false;
        for (size_t i = 0; i <= last.size() && !part; i += g_slice) {
          Bytes e(last.begin(), last.begin() + i);
          e.insert(e.end(), u.begin(), u.end());
          e.insert(e.end(), last.begin() + std::min(last.size(), i + (size_t)g_slice), last.end());
          part = r == e;
        }
        if (part) { probe("damage_beyond_the_checksum"); break; }
      }
      if (load(&r, p, false) == OK) SIM_CHECK(r == last, "damaged-part-misread", "a damaged part %s was loaded as %zu bytes instead of %zu", q.c_str(), r.size(), last.size());
      break;
    }
    default: {
      FsFaults& f = fs_faults();
      f.open_err = choose(2) ? 4 : 0; f.read_err = choose(2) ? 4 : 0; f.short_read = choose(2) ? 2 : 0; f.eintr = choose(2) ? 5 : 0;
      if (choose(4) == 3) alloc_faults(10);
      Outcome o = load(&r, p, true);
      no_faults();
      if (o == OK) SIM_CHECK(r == last, "read-error-misread", "read errors made the load return %zu bytes instead of %zu", r.size(), last.size());
    }
  }
}
