// C45: voxel grids hold what was last written to each cell, whatever was copied, stored, refused or ran at the same time.
#include "sim.hpp"
#include <arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <arc_utilities/voxel_grid.hpp>
#include <cmath>
#include <memory>
using namespace sim;
using Eigen::Isometry3d;
using Eigen::Vector3d;
using Eigen::Vector4d;
typedef ::VoxelGrid::GRID_INDEX Idx;

static void make(uint32_t n, int& v) { v = (int)n; }
static void make(uint32_t n, std::string& v) { v = "the value number " + std::to_string(n) + " of this run"; }
template <typename T> static T value() { static thread_local uint32_t dummy; (void)dummy; T v; make(choose(1000, "value"), v); return v; }
static std::string show(int v) { return std::to_string(v); }
static std::string show(const std::string& v) { return "\"" + v + "\""; }
static uint64_t put(const int& v, std::vector<uint8_t>& b) { return arc_utilities::SerializeFixedSizePOD<int>(v, b); }
static uint64_t put(const std::string& v, std::vector<uint8_t>& b) { return arc_utilities::SerializeString<char>(v, b); }
static void get(const std::vector<uint8_t>& b, uint64_t at, std::pair<int, uint64_t>& r) { r = arc_utilities::DeserializeFixedSizePOD<int>(b, at); }
static void get(const std::vector<uint8_t>& b, uint64_t at, std::pair<std::string, uint64_t>& r) { r = arc_utilities::DeserializeString<char>(b, at); }
template <typename T> static std::function<uint64_t(const T&, std::vector<uint8_t>&)> putter() { return [](const T& v, std::vector<uint8_t>& b) { return put(v, b); }; }
template <typename T> static std::function<std::pair<T, uint64_t>(const std::vector<uint8_t>&, const uint64_t)> getter() {
  return [](const std::vector<uint8_t>& b, const uint64_t at) { std::pair<T, uint64_t> r; get(b, at, r); return r; };
}

struct Place { Isometry3d at = Isometry3d::Identity(); bool exact = true; };
static Place some_place() {
  Place p;
  uint32_t k = choose(4, "origin");
  if (k) p.at = Isometry3d(Eigen::Translation3d(choose(9) * 0.5 - 2, choose(9) * 0.5 - 2, choose(9) * 0.5 - 2));
  if (k == 3) { p.exact = false; p.at = p.at * Eigen::Quaterniond(Eigen::AngleAxisd(0.3 + choose(9) * 0.7, Vector3d(1, -2, 2) / 3)); }
  return p;
}
static bool dyadic(double v) { return v * 1024 == std::floor(v * 1024); }
static double some_size(uint32_t k) { static const double s[] = {1, 0.5, 0.25, 2, 0.1, 0.3, 1e-3, 7.7}; return s[k % 8]; }
// where in a cell a point lies
static double some_fraction(bool exact) {
  uint32_t k = choose(exact ? 6 : 3, "where in the cell");
  return k == 0 ? 0.5 : k == 1 ? 0.01 + choose(99) * 0.01 : k == 2 ? (choose(2) ? 0.9999 : 0.0001) : k == 3 ? 0 : k == 4 ? 1.0 / 1024 : 1023.0 / 1024;
}
struct Tried { bool done = false, oom = false; std::string err; };
static Tried attempt(bool arm, const std::function<void()>& f) {
  Tried t;
  if (arm) { alloc_fault_clear(); alloc_faults(5); }
  try { if (arm) alloc_arm(true); f(); alloc_arm(false); t.done = true; } catch (const std::bad_alloc&) { alloc_arm(false); t.oom = true; } catch (const std::exception& x) { alloc_arm(false); t.err = x.what(); }
  if (arm) { alloc_faults(0); if (t.oom) { SIM_CHECK(alloc_fault_fired(), "bad-alloc", "out of memory was reported although there was enough"); probe("out of memory"); } else SIM_CHECK(!t.done || !alloc_fault_fired(), "swallowed", "a failed allocation was not reported"); }
  return t;
}
static void must(const Tried& t, const char* what) { SIM_CHECK(t.done || t.oom, "refused", "%s: %s", what, t.err.c_str()); }
static double bad_size() { static const double b[] = {0, -0.5, 0.0 / 0.0, 1.0 / 0.0, -1.0 / 0.0}; double v = b[choose(5)]; return v == 0 ? 0 : v; }

// ---------------------------------------------------------------- grids of a fixed size
template <typename T, typename Store> struct Fixed {
  typedef ::VoxelGrid::VoxelGrid<T, Store> G;
  struct Model {
    Place o; double c[3]; int64_t n[3]; T def, oob; std::vector<T> cells;
    bool exact() const { return o.exact && dyadic(c[0]) && dyadic(c[1]) && dyadic(c[2]); }
    bool in(int64_t x, int64_t y, int64_t z) const { return x >= 0 && y >= 0 && z >= 0 && x < n[0] && y < n[1] && z < n[2]; }
    size_t at(int64_t x, int64_t y, int64_t z) const { return (size_t)((x * n[1] + y) * n[2] + z); }
    const T& see(int64_t x, int64_t y, int64_t z) const { return in(x, y, z) ? cells[at(x, y, z)] : oob; }
    void fill(const T& v) { cells.assign((size_t)(n[0] * n[1] * n[2]), v); }
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  };
  struct Grid { std::unique_ptr<G> g; Model m; uint32_t writes = 0; EIGEN_MAKE_ALIGNED_OPERATOR_NEW };

  static void same(const std::pair<const T&, bool>& got, const Model& m, int64_t x, int64_t y, int64_t z, const char* how, const char* when) {
    SIM_CHECK(got.second == m.in(x, y, z), "bounds", "%s cell (%ld, %ld, %ld) of %ldx%ldx%ld is %s by %s", when, (long)x, (long)y, (long)z, (long)m.n[0], (long)m.n[1], (long)m.n[2], got.second ? "inside" : "outside", how);
    const T& w = m.see(x, y, z);
    SIM_CHECK(got.first == w, "cell", "%s cell (%ld, %ld, %ld) of %ldx%ldx%ld holds %s instead of %s by %s", when, (long)x, (long)y, (long)z, (long)m.n[0], (long)m.n[1], (long)m.n[2], show(got.first).c_str(), show(w).c_str(), how);
  }
  static Vector4d point(const Model& m, const int64_t i[3]) {
    Vector4d p(0, 0, 0, 1);
    for (int k = 0; k < 3; k++) p[k] = m.c[k] * ((double)i[k] + some_fraction(m.exact()));
    return m.o.at * p;
  }
  static void some_index(const Model& m, int64_t i[3]) {
    for (int k = 0; k < 3; k++) i[k] = choose((uint32_t)m.n[k]);
    if (choose(4, "outside?") == 3) {
      int k = (int)choose(3);
      switch (choose(5)) {
        case 0: i[k] = -1; break;
        case 1: i[k] = m.n[k]; break;
        case 2: i[k] = m.n[k] + 1 + choose(4); break;
        case 3: i[k] = -2 - (int64_t)choose(4); break;
        default: i[k] = (choose(2) ? 1 : -1) * (int64_t)1000000000000ll;
      }
    }
  }
  static std::pair<const T&, bool> read(const G& g, const Model& m, const int64_t i[3], const char** how) {
    Vector4d p = point(m, i);
    switch (choose(5, "read by")) {
      case 0: *how = "GetImmutable(x, y, z)"; return g.GetImmutable(i[0], i[1], i[2]);
      case 1: *how = "GetImmutable(index)"; return g.GetImmutable(Idx(i[0], i[1], i[2]));
      case 2: *how = "GetImmutable3d"; return g.GetImmutable3d(p.head<3>());
      case 3: *how = "GetImmutable4d"; return g.GetImmutable4d(p);
      default: *how = "GetImmutable(location)"; return g.GetImmutable(p[0], p[1], p[2]);
    }
  }
  static bool write(G& g, const Model& m, const int64_t i[3], const T& v, const char** how) {
    Vector4d p = point(m, i);
    T copy = v;
    switch (choose(15, "written by")) {
      case 0: *how = "SetValue(x, y, z)"; return g.SetValue(i[0], i[1], i[2], v);
      case 1: *how = "SetValue(index)"; return g.SetValue(Idx(i[0], i[1], i[2]), v);
      case 2: *how = "SetValue3d"; return g.SetValue3d(p.head<3>(), v);
      case 3: *how = "SetValue4d"; return g.SetValue4d(p, v);
      case 4: *how = "SetValue(location)"; return g.SetValue(p[0], p[1], p[2], v);
      case 5: *how = "SetValue(x, y, z, rvalue)"; return g.SetValue(i[0], i[1], i[2], std::move(copy));
      case 6: *how = "SetValue(index, rvalue)"; return g.SetValue(Idx(i[0], i[1], i[2]), std::move(copy));
      case 7: *how = "SetValue3d(rvalue)"; return g.SetValue3d(p.head<3>(), std::move(copy));
      case 8: *how = "SetValue4d(rvalue)"; return g.SetValue4d(p, std::move(copy));
      case 9: *how = "SetValue(location, rvalue)"; return g.SetValue(p[0], p[1], p[2], std::move(copy));
      case 10: { *how = "GetMutable(x, y, z)"; auto r = g.GetMutable(i[0], i[1], i[2]); if (r.second) r.first = v; return r.second; }
      case 11: { *how = "GetMutable(index)"; auto r = g.GetMutable(Idx(i[0], i[1], i[2])); if (r.second) r.first = v; return r.second; }
      case 12: { *how = "GetMutable3d"; auto r = g.GetMutable3d(p.head<3>()); if (r.second) r.first = v; return r.second; }
      case 13: { *how = "GetMutable4d"; auto r = g.GetMutable4d(p); if (r.second) r.first = v; return r.second; }
      default: { *how = "GetMutable(location)"; auto r = g.GetMutable(p[0], p[1], p[2]); if (r.second) r.first = v; return r.second; }
    }
  }
  static void compare(const G& g, const Model& m, const char* when) {
    SIM_CHECK(g.IsInitialized() && g.GetNumXCells() == m.n[0] && g.GetNumYCells() == m.n[1] && g.GetNumZCells() == m.n[2], "size", "%s the grid has %ldx%ldx%ld cells instead of %ldx%ldx%ld", when,
              (long)g.GetNumXCells(), (long)g.GetNumYCells(), (long)g.GetNumZCells(), (long)m.n[0], (long)m.n[1], (long)m.n[2]);
    SIM_CHECK(g.GetCellSizes() == Vector3d(m.c[0], m.c[1], m.c[2]) && g.GetXSize() == m.c[0] * m.n[0] && g.GetYSize() == m.c[1] * m.n[1] && g.GetZSize() == m.c[2] * m.n[2], "size", "%s the grid or its cells have other sizes", when);
    SIM_CHECK(g.GetDefaultValue() == m.def && g.GetOOBValue() == m.oob, "default", "%s the default is %s instead of %s, outside is %s instead of %s", when, show(g.GetDefaultValue()).c_str(), show(m.def).c_str(), show(g.GetOOBValue()).c_str(), show(m.oob).c_str());
    SIM_CHECK((g.GetOriginTransform().matrix() - m.o.at.matrix()).cwiseAbs().maxCoeff() == 0, "origin", "%s the origin is not where it was put", when);
    SIM_CHECK(((g.GetInverseOriginTransform() * m.o.at).matrix() - Eigen::Matrix4d::Identity()).cwiseAbs().maxCoeff() < 1e-9, "origin", "%s the inverse of the origin is not its inverse", when);
    SIM_CHECK(g.GetImmutableRawData().size() == m.cells.size(), "cell", "%s there are %zu cells instead of %zu", when, (size_t)g.GetImmutableRawData().size(), m.cells.size());
    for (int64_t x = 0; x < m.n[0]; x++) for (int64_t y = 0; y < m.n[1]; y++) for (int64_t z = 0; z < m.n[2]; z++) {
      same(g.GetImmutable(x, y, z), m, x, y, z, "index", when);
      SIM_CHECK(g.GetImmutableRawData()[g.HashDataIndex(x, y, z)] == m.see(x, y, z), "cell", "%s the raw data hold another value in cell (%ld, %ld, %ld)", when, (long)x, (long)y, (long)z);
    }
    for (int r = 0; r < 3; r++) {
      int64_t i[3];
      some_index(m, i);
      const char* how;
      auto got = read(g, m, i, &how);
      same(got, m, i[0], i[1], i[2], how, when);
    }
    int64_t i[3];
    some_index(m, i);
    Vector4d p = point(m, i);
    Idx a = g.LocationToGridIndex(p[0], p[1], p[2]);
    const bool far = std::llabs(i[0]) > 100000 || std::llabs(i[1]) > 100000 || std::llabs(i[2]) > 100000;
    SIM_CHECK(far || (a == g.LocationToGridIndex4d(p) && a == g.LocationToGridIndex3d(p.head<3>())), "index", "%s the ways to ask for the cell of a location disagree", when);
    SIM_CHECK(far || a == Idx(i[0], i[1], i[2]), "index", "%s (%g, %g, %g) is in cell (%ld, %ld, %ld), not (%ld, %ld, %ld)", when, p[0], p[1], p[2],
              (long)i[0], (long)i[1], (long)i[2], (long)a.x, (long)a.y, (long)a.z);
    bool in = m.in(i[0], i[1], i[2]);
    SIM_CHECK(g.LocationInBounds(p[0], p[1], p[2]) == in && g.LocationInBounds3d(p.head<3>()) == in && g.LocationInBounds4d(p) == in && g.IndexInBounds(i[0], i[1], i[2]) == in && g.IndexInBounds(Idx(i[0], i[1], i[2])) == in,
              "bounds", "%s cell (%ld, %ld, %ld) is %s the grid by one of the checks", when, (long)i[0], (long)i[1], (long)i[2], in ? "outside" : "inside");
    if (in) {
      Vector4d w = m.o.at * Vector4d(m.c[0] * (i[0] + 0.5), m.c[1] * (i[1] + 0.5), m.c[2] * (i[2] + 0.5), 1);
      SIM_CHECK((g.GridIndexToLocation(i[0], i[1], i[2]) - w).norm() < 1e-9 && (g.GridIndexToLocation(Idx(i[0], i[1], i[2])) - w).norm() < 1e-9 &&
                (m.o.at * g.GridIndexToLocationGridFrame(Idx(i[0], i[1], i[2])) - w).norm() < 1e-9, "centre", "%s the centre of cell (%ld, %ld, %ld) is somewhere else", when, (long)i[0], (long)i[1], (long)i[2]);
    }
  }
  // makes (or makes anew) a grid; by sizes or numbers of cells, with or without an origin
  static void build(Grid& o, bool arm, bool again) {
    Model m;
    uint32_t s = choose(8, "cell size");
    bool cube = choose(2), origin = choose(2), count = choose(2), out = again || choose(2);
    for (int k = 0; k < 3; k++) { m.c[k] = some_size(cube ? s : s + choose(8)); m.n[k] = 1 + choose(4, "cells"); }
    double full[3];
    for (int k = 0; k < 3; k++) full[k] = m.c[k] * ((double)m.n[k] - (choose(2) ? 0.5 : dyadic(m.c[k]) ? 0 : 1e-3));  // rounded up
    m.def = value<T>();
    m.oob = out ? value<T>() : m.def;
    if (origin) m.o = some_place();
    else { m.o.at = Isometry3d(Eigen::Translation3d(-m.c[0] * m.n[0] * 0.5, -m.c[1] * m.n[1] * 0.5, -m.c[2] * m.n[2] * 0.5)); }
    m.fill(m.def);
    Tried t = attempt(arm, [&] {
      const double c = m.c[0], cx = m.c[0], cy = m.c[1], cz = m.c[2], x = full[0], y = full[1], z = full[2];
      const int64_t nx = m.n[0], ny = m.n[1], nz = m.n[2];
      const Isometry3d& at = m.o.at;
      if (again) {
        if (origin) { if (count) o.g->Initialize(at, cx, cy, cz, nx, ny, nz, m.def, m.oob); else o.g->Initialize(at, cx, cy, cz, x, y, z, m.def, m.oob); }
        else { if (count) o.g->Initialize(cx, cy, cz, nx, ny, nz, m.def, m.oob); else o.g->Initialize(cx, cy, cz, x, y, z, m.def, m.oob); }
        return;
      }
      G* g;
      if (out) {
        if (origin) g = cube ? (count ? new G(at, c, nx, ny, nz, m.def, m.oob) : new G(at, c, x, y, z, m.def, m.oob)) : (count ? new G(at, cx, cy, cz, nx, ny, nz, m.def, m.oob) : new G(at, cx, cy, cz, x, y, z, m.def, m.oob));
        else g = cube ? (count ? new G(c, nx, ny, nz, m.def, m.oob) : new G(c, x, y, z, m.def, m.oob)) : (count ? new G(cx, cy, cz, nx, ny, nz, m.def, m.oob) : new G(cx, cy, cz, x, y, z, m.def, m.oob));
      } else {
        if (origin) g = cube ? (count ? new G(at, c, nx, ny, nz, m.def) : new G(at, c, x, y, z, m.def)) : (count ? new G(at, cx, cy, cz, nx, ny, nz, m.def) : new G(at, cx, cy, cz, x, y, z, m.def));
        else g = cube ? (count ? new G(c, nx, ny, nz, m.def) : new G(c, x, y, z, m.def)) : (count ? new G(cx, cy, cz, nx, ny, nz, m.def) : new G(cx, cy, cz, x, y, z, m.def));
      }
      o.g.reset(g);
    });
    must(t, "a grid could not be made");
    if (t.oom) return build(o, false, again);  // a half built grid is only built again
    o.m = m;
    event("grid of %ldx%ldx%ld cells of %gx%gx%g%s", (long)m.n[0], (long)m.n[1], (long)m.n[2], m.c[0], m.c[1], m.c[2], origin ? ", with an origin" : "");
  }
  static void refused(Grid& o) {
    fault("refused");
    double c[3], s[3];
    int64_t n[3];
    for (int k = 0; k < 3; k++) { c[k] = some_size(choose(8)); n[k] = 1 + choose(3); s[k] = c[k] * (double)n[k]; }
    bool count = choose(2);
    if (choose(2)) c[choose(3)] = bad_size();
    else if (count) n[choose(3)] = -(int64_t)choose(3);
    else s[choose(3)] = bad_size();
    T v = value<T>();
    bool threw = false;
    Place p = some_place();
    try {
      if (choose(2)) { if (count) o.g->Initialize(p.at, c[0], c[1], c[2], n[0], n[1], n[2], v, v); else o.g->Initialize(p.at, c[0], c[1], c[2], s[0], s[1], s[2], v, v); }
      else { if (count) o.g->Initialize(c[0], c[1], c[2], n[0], n[1], n[2], v, v); else o.g->Initialize(c[0], c[1], c[2], s[0], s[1], s[2], v, v); }
    } catch (const std::invalid_argument&) { threw = true; }
    SIM_CHECK(threw, "accepted", "a grid with cells of %gx%gx%g and size %gx%gx%g or %ldx%ldx%ld cells was not refused", c[0], c[1], c[2], s[0], s[1], s[2], (long)n[0], (long)n[1], (long)n[2]);
  }
  static void one_write(Grid& o, bool arm) {
    int64_t i[3];
    some_index(o.m, i);
    T v = value<T>();
    const char* how = "";
    bool set = false;
    Tried t = attempt(arm, [&] { set = write(*o.g, o.m, i, v, &how); });
    must(t, "a value could not be written");
    event("%s (%ld, %ld, %ld) := %s%s", how, (long)i[0], (long)i[1], (long)i[2], show(v).c_str(), t.oom ? ": out of memory" : "");
    if (t.oom) return;
    SIM_CHECK(set == o.m.in(i[0], i[1], i[2]), "bounds", "writing cell (%ld, %ld, %ld) by %s %s", (long)i[0], (long)i[1], (long)i[2], how, set ? "worked" : "failed");
    if (set) { o.m.cells[o.m.at(i[0], i[1], i[2])] = v; if (o.writes++) nontrivial(); }
  }
  static void reset(Grid& o, bool arm) {
    T v = value<T>();
    uint32_t k = choose(4, "reset");
    size_t cell = choose((uint32_t)o.m.cells.size());
    Model& m = o.m;
    Tried t = attempt(arm, [&] {
      switch (k) {
        case 0: o.g->ResetWithDefault(); break;
        case 1: o.g->ResetWithNewValue(v); break;
        case 2: o.g->ResetWithNewDefault(v); break;
        default: o.g->ResetWithNewValue(o.g->GetImmutableRawData()[cell]);
      }
    });
    must(t, "the grid could not be reset");
    if (t.oom) {  // what is left of it is only good to be reset
      SIM_CHECK(o.g->GetDefaultValue() == m.def || (k == 2 && o.g->GetDefaultValue() == v), "default", "the default is %s after a reset that failed", show(o.g->GetDefaultValue()).c_str());
      o.g->ResetWithNewDefault(v);
      k = 2;
    }
    if (k == 2) m.def = v;
    T w = k == 3 ? T(m.cells[cell]) : k == 0 ? m.def : v;
    m.fill(w);
    event("all cells := %s", show(w).c_str());
  }
  static void store(std::vector<std::unique_ptr<Grid>>& gs, Grid& o, bool arm) {
    std::vector<uint8_t> buf(choose(4), 0x5a);
    const size_t at = buf.size();
    uint64_t wrote = 0;
    Tried t = attempt(arm, [&] { wrote = choose(2) ? o.g->SerializeSelf(buf, putter<T>()) : G::Serialize(*o.g, buf, putter<T>()); });
    must(t, "a grid could not be stored");
    if (t.oom) return;
    SIM_CHECK(wrote == buf.size() - at, "stored", "%zu bytes were stored, it says %zu", buf.size() - at, (size_t)wrote);
    for (uint32_t k = choose(4); k; k--) buf.push_back(0xa5);
    const size_t end = at + wrote;
    if (choose(2)) {
      Grid& x = *gs[choose((uint32_t)gs.size())];
      uint64_t r = x.g->DeserializeSelf(buf, at, getter<T>());
      SIM_CHECK(r == end - at, "stored", "%zu bytes were stored and %zu read", end - at, (size_t)r);
      Model m = o.m;
      x.m = m;
    } else {
      std::unique_ptr<Grid> n(new Grid);
      uint64_t r = 0;
      t = attempt(arm, [&] { auto d = G::Deserialize(buf, at, getter<T>()); r = d.second; n->g.reset(new G(d.first)); });
      must(t, "a stored grid could not be loaded");
      if (t.oom) return;
      SIM_CHECK(r == end - at, "stored", "%zu bytes were stored and %zu read", end - at, (size_t)r);
      n->m = o.m;
      gs[choose((uint32_t)gs.size())] = std::move(n);
    }
    event("a grid was stored and loaded");
    probe("stored");
  }
  static void run() {
    std::vector<std::unique_ptr<Grid>> gs;
    bool faults = choose(3) == 2;
    gs.emplace_back(new Grid);
    { G empty; SIM_CHECK(!empty.IsInitialized() && !empty.GetImmutable((int64_t)0, (int64_t)0, (int64_t)0).second && !empty.LocationInBounds(0, 0, 0) && !empty.SetValue((int64_t)0, (int64_t)0, (int64_t)0, value<T>()), "empty", "a grid that was not made holds cells"); }
    build(*gs[0], faults, false);
    compare(*gs[0]->g, gs[0]->m, "when made");
    uint32_t ops = 1 + choose(24, "operations");
    for (uint32_t n = 0; n < ops; n++) {
      uint32_t k = choose((uint32_t)gs.size());
      Grid& o = *gs[k];
      Model& m = o.m;
      bool arm = faults && choose(2);
      switch (choose(16, "operation")) {
        default: one_write(o, arm); break;
        case 7: reset(o, arm); break;
        case 8: { T v = value<T>(); Tried t = attempt(arm, [&] { o.g->SetDefaultValue(v); }); must(t, "SetDefaultValue"); if (t.done) m.def = v; event("new default"); break; }
        case 9: { T v = value<T>(); Tried t = attempt(arm, [&] { o.g->SetOOBValue(v); }); must(t, "SetOOBValue"); if (t.done) m.oob = v; event("new outside value"); break; }
        case 10: { Place p = some_place(); o.g->UpdateOriginTransform(p.at); m.o = p; event("moved"); break; }
        case 11: {
          if (gs.size() > 2) { Grid& x = *gs[choose((uint32_t)gs.size())]; *o.g = *x.g; if (&x != &o) o.m = x.m; event("assigned"); break; }
          std::unique_ptr<Grid> c(new Grid);
          Tried t = attempt(arm, [&] { if (choose(2)) c->g.reset(o.g->Clone()); else c->g.reset(new G(*o.g)); });
          must(t, "a grid could not be copied");
          c->m = o.m;
          event("copied");
          if (t.done) gs.push_back(std::move(c));
          break;
        }
        case 12: store(gs, o, arm); break;
        case 13: {
          switch (choose(4)) {
            case 0: build(o, arm, true); break;
            case 1: if (gs.size() > 1) { gs.erase(gs.begin() + k); event("a grid is gone"); } break;
            default: refused(o);
          }
          break;
        }
        case 14: {
          Store d;
          bool right = choose(2);
          size_t len = right ? m.cells.size() : choose(2) ? m.cells.size() + 1 + choose(3) : m.cells.size() - 1;
          std::vector<T> w;
          for (size_t j = 0; j < len; j++) { w.push_back(value<T>()); d.push_back(w.back()); }
          bool ok = false;
          if (right) { ok = o.g->SetRawData(d); } else { std::streambuf* b = std::cerr.rdbuf(nullptr); ok = o.g->SetRawData(d); std::cerr.rdbuf(b); std::cerr.clear(); fault("refused"); }
          SIM_CHECK(ok == right, "raw", "%zu values for %zu cells were %s", len, m.cells.size(), ok ? "taken" : "refused");
          if (right) m.cells = w;
          event("raw data %s", right ? "set" : "refused");
          break;
        }
        case 15: {
          // threads write cells of their own and read the cells nobody writes
          uint32_t T_ = 2 + choose(2);
          std::vector<std::vector<std::pair<Idx, T>>> plan(T_);
          std::vector<bool> owned(m.cells.size(), false);
          for (size_t c = 0; c < m.cells.size(); c++) {
            uint32_t who = choose(T_ + 1);
            if (who == T_) continue;
            owned[c] = true;
            int64_t z = (int64_t)c % m.n[2], y = (int64_t)c / m.n[2] % m.n[1], x = (int64_t)c / m.n[2] / m.n[1];
            if (plan[who].size() < 4) plan[who].push_back(std::make_pair(Idx(x, y, z), value<T>()));
          }
          std::vector<int> tids;
          for (uint32_t w = 0; w < T_; w++) tids.push_back(spawn([&, w] {
            for (auto& p : plan[w]) {
              int64_t i[3] = {p.first.x, p.first.y, p.first.z};
              const char* how = "";
              bool ok = write(*o.g, m, i, p.second, &how);
              SIM_CHECK(ok, "bounds", "writing a cell by %s failed while others wrote", how);
              auto got = read(*o.g, m, i, &how);
              { NoPreempt np; SIM_CHECK(got.second && got.first == p.second, "cell", "a cell just written reads %s instead of %s by %s while others write other cells", show(got.first).c_str(), show(p.second).c_str(), how); }
              int64_t r[3];
              some_index(m, r);
              if (!m.in(r[0], r[1], r[2]) || !owned[m.at(r[0], r[1], r[2])]) { auto g2 = read(*o.g, m, r, &how); NoPreempt np; same(g2, m, r[0], r[1], r[2], how, "while others write"); }
            }
          }, "writer"));
          for (int t : tids) join(t);
          for (auto& p : plan) for (auto& w : p) m.cells[m.at(w.first.x, w.first.y, w.first.z)] = w.second;
          event("threads wrote");
          probe("threads");
        }
      }
      NoPreempt np;
      for (auto& x : gs) compare(*x->g, x->m, "later");
    }
  }
};

// ---------------------------------------------------------------- grids that grow by chunks
template <typename T, typename A> struct Dynamic {
  typedef ::VoxelGrid::DynamicSpatialHashedVoxelGrid<T, A> G;
  typedef std::array<int64_t, 3> C;  // a cell, counted from the origin
  struct Model {
    Place o; double c[3]; int64_t n[3]; T def;
    struct Chunk { bool whole; T v; std::map<C, T> cells; };  // cells written; the others hold v
    std::map<C, Chunk> chunks;
    bool exact() const { return o.exact && dyadic(c[0]) && dyadic(c[1]) && dyadic(c[2]); }
    static int64_t down(int64_t a, int64_t b) { return a >= 0 ? a / b : -((b - 1 - a) / b); }
    C chunk_of(const C& i) const { return C{{down(i[0], n[0]), down(i[1], n[1]), down(i[2], n[2])}}; }
    std::pair<const T&, ::VoxelGrid::FOUND_STATUS> see(const C& i) const {
      typedef std::pair<const T&, ::VoxelGrid::FOUND_STATUS> R;
      auto k = chunks.find(chunk_of(i));
      if (k == chunks.end()) return R(def, ::VoxelGrid::NOT_FOUND);
      if (k->second.whole) return R(k->second.v, ::VoxelGrid::FOUND_IN_CHUNK);
      auto x = k->second.cells.find(i);
      return R(x == k->second.cells.end() ? k->second.v : x->second, ::VoxelGrid::FOUND_IN_CELL);
    }
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  };
  struct Grid { std::unique_ptr<G> g; Model m; uint32_t writes = 0; EIGEN_MAKE_ALIGNED_OPERATOR_NEW };
  static C some_cell(const Model& m) {
    C i;
    for (int k = 0; k < 3; k++) {
      i[k] = choose((uint32_t)(4 * m.n[k])) - 2 * m.n[k];
      if (choose(16) == 15) i[k] = (choose(2) ? 1 : -1) * (int64_t)(1000 + choose(1000));
    }
    return i;
  }
  static Vector3d point(const Model& m, const C& i) {
    Vector3d p;
    for (int k = 0; k < 3; k++) p[k] = m.c[k] * ((double)i[k] + some_fraction(m.exact()));
    return m.o.at * p;
  }
  static void look(const G& g, const Model& m, const C& i, const char* when) {
    Vector3d p = point(m, i);
    auto got = choose(2) ? g.GetImmutable(p) : g.GetImmutable(p[0], p[1], p[2]);
    NoPreempt np;
    auto w = m.see(i);
    static const char* st[] = {"nowhere", "in a chunk", "in a cell"};
    SIM_CHECK(got.second == w.second, "found", "%s cell (%ld, %ld, %ld) is found %s instead of %s", when, (long)i[0], (long)i[1], (long)i[2], st[got.second], st[w.second]);
    SIM_CHECK(got.first == w.first, "cell", "%s cell (%ld, %ld, %ld) holds %s instead of %s", when, (long)i[0], (long)i[1], (long)i[2], show(got.first).c_str(), show(w.first).c_str());
  }
  static void compare(const G& g, const Model& m, const char* when) {
    SIM_CHECK(g.IsInitialized() && g.GetDefaultValue() == m.def, "default", "%s the default is %s instead of %s", when, show(g.GetDefaultValue()).c_str(), show(m.def).c_str());
    SIM_CHECK((g.GetOriginTransform().matrix() - m.o.at.matrix()).cwiseAbs().maxCoeff() == 0, "origin", "%s the origin is not where it was put", when);
    SIM_CHECK(g.GetCellSizes() == (std::vector<double>{m.c[0], m.c[1], m.c[2]}) && g.GetChunkNumCells() == (std::vector<int64_t>{m.n[0], m.n[1], m.n[2]}) &&
              g.GetChunkSizes() == (std::vector<double>{m.c[0] * m.n[0], m.c[1] * m.n[1], m.c[2] * m.n[2]}), "size", "%s the chunks or cells have other sizes", when);
    for (auto& k : m.chunks) for (int64_t x = 0; x < m.n[0]; x++) for (int64_t y = 0; y < m.n[1]; y++) for (int64_t z = 0; z < m.n[2]; z++)
      look(g, m, C{{k.first[0] * m.n[0] + x, k.first[1] * m.n[1] + y, k.first[2] * m.n[2] + z}}, when);
    for (int r = 0; r < 4; r++) look(g, m, some_cell(m), when);
    size_t holding = 0;
    for (auto& k : g.GetInternalChunks()) if (k.second.IsCellInitialized() || k.second.IsChunkInitialized()) holding++;
    SIM_CHECK(holding == m.chunks.size(), "chunks", "%s %zu chunks hold values instead of %zu", when, holding, m.chunks.size());
  }
  static void build(Grid& o, bool arm, bool again) {
    Model m;
    uint32_t s = choose(8, "cell size");
    bool cube = choose(2), origin = choose(2);
    for (int k = 0; k < 3; k++) { m.c[k] = some_size(cube ? s : s + choose(8)); m.n[k] = 1 + choose(3, "cells"); }
    if (origin) m.o = some_place();
    m.def = value<T>();
    Tried t = attempt(arm, [&] {
      if (again) { if (origin) o.g->Initialize(m.o.at, m.c[0], m.c[1], m.c[2], m.n[0], m.n[1], m.n[2], m.def); else o.g->Initialize(m.c[0], m.c[1], m.c[2], m.n[0], m.n[1], m.n[2], m.def); }
      else if (origin) o.g.reset(cube ? new G(m.o.at, m.c[0], m.n[0], m.n[1], m.n[2], m.def) : new G(m.o.at, m.c[0], m.c[1], m.c[2], m.n[0], m.n[1], m.n[2], m.def));
      else o.g.reset(cube ? new G(m.c[0], m.n[0], m.n[1], m.n[2], m.def) : new G(m.c[0], m.c[1], m.c[2], m.n[0], m.n[1], m.n[2], m.def));
    });
    must(t, "a grid could not be made");
    if (t.oom) return build(o, false, again);
    o.m = m;
    event("growing grid, chunks of %ldx%ldx%ld cells of %gx%gx%g", (long)m.n[0], (long)m.n[1], (long)m.n[2], m.c[0], m.c[1], m.c[2]);
  }
  static void one_write(Grid& o, bool arm) {
    C i = some_cell(o.m);
    Vector3d p = point(o.m, i);
    T v = value<T>(), copy = v;
    uint32_t how = choose(10, "written by");
    ::VoxelGrid::SET_STATUS r = ::VoxelGrid::NOT_SET;
    bool skipped = false;
    Model& m = o.m;
    Tried t = attempt(arm, [&] {
      switch (how) {
        case 0: r = o.g->SetCellValue(p, v); break;
        case 1: r = o.g->SetCellValue(p[0], p[1], p[2], v); break;
        case 2: r = o.g->SetCellValue(p, std::move(copy)); break;
        case 3: r = o.g->SetCellValue(p[0], p[1], p[2], std::move(copy)); break;
        case 4: r = o.g->SetChunkValue(p, v); break;
        case 5: r = o.g->SetChunkValue(p[0], p[1], p[2], v); break;
        case 6: r = o.g->SetChunkValue(p, std::move(copy)); break;
        case 7: r = o.g->SetChunkValue(p[0], p[1], p[2], std::move(copy)); break;
        default: {
          auto f = how == 8 ? o.g->GetMutable(p) : o.g->GetMutable(p[0], p[1], p[2]);
          SIM_CHECK(f.second == m.see(i).second, "found", "GetMutable finds cell (%ld, %ld, %ld) %d instead of %d", (long)i[0], (long)i[1], (long)i[2], f.second, m.see(i).second);
          if (f.second == ::VoxelGrid::NOT_FOUND) skipped = true; else { f.first = v; r = f.second == ::VoxelGrid::FOUND_IN_CELL ? ::VoxelGrid::SET_CELL : ::VoxelGrid::SET_CHUNK; }
        }
      }
    });
    must(t, "a value could not be written");
    bool whole = (how >= 4 && how < 8) || (how >= 8 && m.see(i).second == ::VoxelGrid::FOUND_IN_CHUNK);
    event("%s (%ld, %ld, %ld) := %s%s", whole ? "chunk of" : "cell", (long)i[0], (long)i[1], (long)i[2], show(v).c_str(), t.oom ? ": out of memory" : skipped ? ": not there" : "");
    if (t.oom || skipped) return;
    SIM_CHECK(r == (whole ? ::VoxelGrid::SET_CHUNK : ::VoxelGrid::SET_CELL), "status", "writing a %s returned %d", whole ? "chunk" : "cell", (int)r);
    C k = m.chunk_of(i);
    if (whole) m.chunks[k] = typename Model::Chunk{true, v, {}};
    else {
      auto f = m.chunks.find(k);
      if (f == m.chunks.end()) f = m.chunks.insert(std::make_pair(k, typename Model::Chunk{false, m.def, {}})).first;
      f->second.whole = false;
      f->second.cells[i] = v;
    }
    if (o.writes++) nontrivial();
  }
  static void refused(Grid& o) {
    fault("refused");
    double c[3];
    int64_t n[3];
    for (int k = 0; k < 3; k++) { c[k] = some_size(choose(8)); n[k] = 1 + choose(3); }
    if (choose(2)) c[choose(3)] = bad_size(); else n[choose(3)] = -(int64_t)choose(3);
    T v = value<T>();
    Place p = some_place();
    bool threw = false;
    try { if (choose(2)) o.g->Initialize(p.at, c[0], c[1], c[2], n[0], n[1], n[2], v); else o.g->Initialize(c[0], c[1], c[2], n[0], n[1], n[2], v); } catch (const std::invalid_argument&) { threw = true; }
    SIM_CHECK(threw, "accepted", "a grid with cells of %gx%gx%g and chunks of %ldx%ldx%ld was not refused", c[0], c[1], c[2], (long)n[0], (long)n[1], (long)n[2]);
  }
  static void run() {
    std::vector<std::unique_ptr<Grid>> gs;
    bool faults = choose(3) == 2;
    { G empty; SIM_CHECK(!empty.IsInitialized(), "empty", "a grid without cells says it was made"); }
    gs.emplace_back(new Grid);
    build(*gs[0], faults, false);
    uint32_t ops = 1 + choose(20, "operations");
    for (uint32_t n = 0; n < ops; n++) {
      uint32_t k = choose((uint32_t)gs.size());
      Grid& o = *gs[k];
      Model& m = o.m;
      bool arm = faults && choose(2);
      switch (choose(12, "operation")) {
        default: one_write(o, arm); break;
        case 7: { T v = value<T>(); Tried t = attempt(arm, [&] { o.g->SetDefaultValue(v); }); must(t, "SetDefaultValue"); if (t.done) m.def = v; event("new default"); break; }
        case 8: {
          if (gs.size() > 2) { Grid& x = *gs[choose((uint32_t)gs.size())]; *o.g = *x.g; if (&x != &o) o.m = x.m; event("assigned"); break; }
          std::unique_ptr<Grid> c(new Grid);
          Tried t = attempt(arm, [&] { c->g.reset(new G(*o.g)); });
          must(t, "a grid could not be copied");
          c->m = o.m;
          if (t.done) gs.push_back(std::move(c));
          event("copied");
          break;
        }
        case 9: if (choose(3) == 0) build(o, arm, true); else refused(o); break;
        case 10: if (gs.size() > 1 && choose(2)) { gs.erase(gs.begin() + k); event("a grid is gone"); } break;
        case 11: {
          // threads read; or each writes cells that are there already
          uint32_t W = 2 + choose(2);
          bool writing = choose(2);
          std::vector<std::vector<std::pair<C, T>>> plan(W);
          for (auto& ch : m.chunks) {
            if (ch.second.whole) continue;
            for (int64_t x = 0; x < m.n[0]; x++) for (int64_t y = 0; y < m.n[1]; y++) for (int64_t z = 0; z < m.n[2]; z++) {
              uint32_t who = choose(W + 1);
              if (who < W && plan[who].size() < 4) plan[who].push_back(std::make_pair(C{{ch.first[0] * m.n[0] + x, ch.first[1] * m.n[1] + y, ch.first[2] * m.n[2] + z}}, value<T>()));
            }
          }
          std::vector<int> tids;
          for (uint32_t w = 0; w < W; w++) tids.push_back(spawn([&, w] {
            if (!writing) { for (int r = 0; r < 4; r++) look(*o.g, m, some_cell(m), "while others read"); return; }
            for (auto& p : plan[w]) {
              Vector3d at = point(m, p.first);
              T copy = p.second;
              switch (choose(3)) {
                case 0: o.g->SetCellValue(at, p.second); break;
                case 1: o.g->SetCellValue(at[0], at[1], at[2], std::move(copy)); break;
                default: { auto f = o.g->GetMutable(at); if (f.second == ::VoxelGrid::FOUND_IN_CELL) f.first = p.second; }
              }
              auto got = o.g->GetImmutable(point(m, p.first));
              NoPreempt np;
              SIM_CHECK(got.second == ::VoxelGrid::FOUND_IN_CELL && got.first == p.second, "cell", "a cell just written reads %s instead of %s while others write other cells", show(got.first).c_str(), show(p.second).c_str());
            }
          }, "thread"));
          for (int t : tids) join(t);
          if (writing) for (auto& p : plan) for (auto& w : p) m.chunks[m.chunk_of(w.first)].cells[w.first] = w.second;
          event("threads %s", writing ? "wrote" : "read");
          probe("threads");
        }
      }
      NoPreempt np;
      for (auto& x : gs) compare(*x->g, x->m, "later");
    }
  }
};

SCENARIO(C45) {
  config().clock_ticks = false;
  switch (choose(6, "kind of grid")) {
    case 0: Fixed<int, std::vector<int>>::run(); break;
    case 1: Fixed<std::string, std::vector<std::string>>::run(); break;
    case 2: Fixed<int, std::vector<int, Eigen::aligned_allocator<int>>>::run(); break;
    case 3: Dynamic<int, std::allocator<int>>::run(); break;
    case 4: Dynamic<std::string, std::allocator<std::string>>::run(); break;
    default: Dynamic<int, Eigen::aligned_allocator<int>>::run();
  }
}
