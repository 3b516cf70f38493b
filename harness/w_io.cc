// Getting data out and back: serialized bytes, Silo files, OFF files.
//   w_io MODE SEED FIRST COUNT OUT      MODE: ser, off (one process), silo (one or more)
#include "meshes.hh"
#include "polytope_serialize.hh"
#include "polytope_write_OOGL.hh"
#include "SiloWriter.hh"
#include "mpi.h"
#include "silo_read.hh"
#include <iostream>
#include <memory>
#include <fstream>
#include <sys/stat.h>
using namespace vt;
using namespace polytope;
static void bad(const std::string& k, const std::string& s) { R().viol(k, s); }

// ---- bytes ---------------------------------------------------------------------------
// A random value of each type; equality is bit for bit.
static void make(Rng& r, int& v) { v = r.p(0.3) ? int(r.next()) : r.i(-3, 300); }
static void make(Rng& r, unsigned& v) { v = r.p(0.3) ? unsigned(r.next()) : r.i(0, 300); }
static void make(Rng& r, char& v) { v = char(r.next()); }
static void make(Rng& r, uint64_t& v) { v = r.next() >> r.i(0, 60); }
static void make(Rng& r, double& v) { if (r.p(0.2)) { uint64_t b = r.next(); memcpy(&v, &b, 8); } else v = r.p(0.1) ? -0.0 : r.u(-10, 10); }
static void make(Rng& r, float& v) { v = float(r.u(-10, 10)); }
template <class T> static void make(Rng& r, std::vector<T>& v) { int k = r.i(0, 9); size_t n = k == 0 ? 0 : k == 9 && sizeof(T) < 16 ? (r.p(0.1) ? r.i(60000, 80000) : r.i(200, 700)) : r.i(0, 6); v.resize(n); for (auto& x : v) make(r, x); }
template <int D> static void make(Rng& r, PLC<D, double>& v) { make(r, v.facets); make(r, v.holes); }
template <int D> static void make(Rng& r, ReducedPLC<D, double>& v) { make(r, v.facets); make(r, v.holes); make(r, v.points); }
template <class T> static bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof a) == 0; }
template <class T> static bool same(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
template <int D> static bool same(const PLC<D, double>& a, const PLC<D, double>& b) { return same(a.facets, b.facets) && same(a.holes, b.holes); }
template <int D> static bool same(const ReducedPLC<D, double>& a, const ReducedPLC<D, double>& b) { return same(a.facets, b.facets) && same(a.holes, b.holes) && same(a.points, b.points); }
typedef std::vector<char>::const_iterator It;
struct Item { std::function<void(std::vector<char>&)> put; std::function<bool(It&, const It&)> get; const char* type; size_t at, end; };
template <class T> static Item item(Rng& r, const char* type) {
  auto v = std::make_shared<T>(); make(r, *v);
  return {[v](std::vector<char>& b) { polytope::serialize(*v, b); }, [v](It& i, const It& e) { T w = T(); polytope::deserialize(w, i, e); return same(*v, w); }, type, 0, 0};
}
static void ser(Rng& r) {
  std::vector<Item> items; int n = r.i(1, 8);
  for (int k = 0; k < n; ++k) switch (r.i(0, 14)) {
    case 0: items.push_back(item<int>(r, "int")); break;
    case 1: items.push_back(item<double>(r, "double")); break;
    case 2: items.push_back(item<unsigned>(r, "unsigned")); break;
    case 3: items.push_back(item<uint64_t>(r, "uint64")); break;
    case 4: items.push_back(item<std::vector<int>>(r, "ints")); break;
    case 5: items.push_back(item<std::vector<double>>(r, "doubles")); break;
    case 6: items.push_back(item<std::vector<unsigned>>(r, "unsigneds")); break;
    case 7: items.push_back(item<std::vector<char>>(r, "chars")); break;
    case 8: items.push_back(item<std::vector<std::vector<int>>>(r, "ints2")); break;
    case 9: items.push_back(item<std::vector<std::vector<double>>>(r, "doubles2")); break;
    case 10: items.push_back(item<std::vector<std::vector<std::vector<int>>>>(r, "ints3")); break;
    case 11: items.push_back(item<PLC<2, double>>(r, "PLC2")); break;
    case 12: items.push_back(item<PLC<3, double>>(r, "PLC3")); break;
    case 13: items.push_back(item<ReducedPLC<2, double>>(r, "ReducedPLC2")); break;
    default: items.push_back(item<ReducedPLC<3, double>>(r, "ReducedPLC3"));
  }
  std::vector<char> buf; make(r, buf); auto head = buf; R().desc.clear();
  for (auto& i : items) { i.at = buf.size(); auto was = buf; i.put(buf); i.end = buf.size(); R().desc += std::string(i.type) + " "; if (buf.size() < was.size() || !std::equal(was.begin(), was.end(), buf.begin())) { bad("ser_overwrites", "serializing changed what the buffer already held"); return; } }
  if (!std::equal(head.begin(), head.end(), buf.begin())) { bad("ser_overwrites", "the buffer's old contents changed"); return; }
  It p = buf.begin() + head.size(), e = buf.end();
  for (auto& i : items) {
    if (!i.get(p, e)) { bad("ser_value", Str() << "a " << i.type << " came back different"); return; }
    if (size_t(p - buf.begin()) != i.end) { bad("ser_cursor", Str() << "after a " << i.type << " the cursor is at " << p - buf.begin() << ", not " << i.end); return; }
  }
  R().count("objects", items.size()); R().count("bytes", buf.size()); R().distinct(fnv(buf.data(), buf.size()), true); R().sample(R().desc);
}

// ---- OFF text ---------------------------------------------------------------------------
template <int D> static void off(Rng& r, const std::string& dir) {
  PLC<D, double> p; std::vector<double> x; size_t n = r.i(3, 30); double sc = std::pow(10.0, r.u(-4, 4));
  for (size_t i = 0; i < D * n; ++i) x.push_back(r.u(-sc, sc));
  auto facet = [&](size_t k) { std::vector<int> f; for (size_t i = 0; i < k; ++i) f.push_back(r.i(0, n - 1)); if (D == 2) while (f[0] == f[1]) f[1] = r.i(0, n - 1); return f; };
  auto facets = [&]() { std::vector<std::vector<int>> v; for (int k = r.i(1, 12); k > 0; --k) v.push_back(facet(D == 2 ? 2 : r.i(3, 7))); return v; };
  p.facets = facets(); for (int h = r.i(0, 3); h > 0; --h) p.holes.push_back(facets());
  R().desc = Str() << D << "D, " << n << " points, " << p.facets.size() << " facets, " << p.holes.size() << " holes";
  std::string fn = dir + "/x.off"; writePLCtoOFF(p, x, fn);
  std::ifstream in(fn); std::string w; size_t np, nf, ne;
  if (!(in >> w >> np >> nf >> ne) || w != "OFF") { bad("off_header", "no OFF header"); return; }
  std::vector<std::vector<int>> want = p.facets; for (auto& h : p.holes) want.insert(want.end(), h.begin(), h.end());
  if (np != n) { bad("off_points", Str() << "the header announces " << np << " points, not " << n); return; }
  if (nf != want.size()) { bad("off_facets", Str() << "the header announces " << nf << " facets, the complex has " << want.size()); return; }
  if (D == 2) { std::set<std::pair<int, int>> es; for (auto& f : want) es.insert(std::minmax(f[0], f[1])); if (ne != es.size()) { bad("off_edges", Str() << "the header announces " << ne << " edges, the complex has " << es.size()); return; } }
  for (size_t i = 0; i < D * n; ++i) { double v; if (!(in >> v) || std::abs(v - x[i]) > 1e-5 * std::abs(x[i])) { bad("off_coords", Str() << "coordinate " << i << " reads back as " << v << ", not " << x[i]); return; } }
  for (size_t i = 0; i < want.size(); ++i) { size_t k; if (!(in >> k) || k != want[i].size()) { bad("off_facet_size", Str() << "facet " << i); return; } for (int q : want[i]) { int v; if (!(in >> v) || v != q) { bad("off_facet", Str() << "facet " << i); return; } } }
  if (in >> w) { bad("off_trailing", "more data than the header announces"); return; }
  R().count("off_files"); R().distinct(mix(fnv(x.data(), x.size() * 8), want.size()), true); R().sample(R().desc);
}

// ---- Silo ---------------------------------------------------------------------------------
template <int D> static void siloCase(Rng& shared, Rng& mine, Tessellation<D, double>& m, const std::string& dir, int rank, int np) {
  if (mine.p(0.5)) for (int k = mine.i(1, 5); k > 0; --k) { std::vector<int> f; for (int q = D == 2 ? 2 : mine.i(3, 5); q > 0; --q) f.push_back(mine.i(0, m.nodes.size() / D - 1)); m.convexHull.facets.push_back(f); }
  int writes = shared.i(1, 3); std::string tag = D == 2 ? "p" : "q";
  for (int w = 0; w < writes; ++w) {
    // The same names on every process; the values are its own.
    bool withTags = shared.p(0.5); std::vector<int> nf(4), nt(4); for (int k = 0; k < 4; ++k) { nf[k] = shared.i(0, 2); nt[k] = withTags ? shared.i(0, 2) : 0; }
    int cycle = shared.p(0.5) ? shared.i(0, 2) : -1; bool hasTime = shared.p(0.5); double time = shared.u(0, 5); int files = shared.p(0.5) ? -1 : shared.i(1, np); bool own = shared.p(0.5); bool suffix = shared.p(0.2) && own;
    int api = withTags ? 0 : shared.i(0, 2); if (api == 2) { cycle = -1; hasTime = false; } if (api == 2 || api == 1) {} 
    Out o; size_t num[4] = {m.nodes.size() / D, m.faces.size(), m.faces.size(), m.cells.size()};
    for (int k = 0; k < 4; ++k) {
      for (int i = 0; i < nf[k]; ++i) { auto& v = o.f[k][Str() << kindName[k] << "field" << i]; v.resize(num[k]); for (auto& x : v) x = mine.u(-5, 5); }
      for (int i = 0; i < nt[k]; ++i) { auto& v = o.t[k][Str() << kindName[k] << "tag" << i]; for (int q = mine.i(1, 6); q > 0; --q) v.push_back(mine.i(0, num[k] - 1)); }
    }
    std::map<std::string, double*> F[4]; std::map<std::string, std::vector<int>*> T[4]; for (int k = 0; k < 4; ++k) { for (auto& kv : o.f[k]) F[k][kv.first] = kv.second.data(); for (auto& kv : o.t[k]) T[k][kv.first] = &kv.second; }
    std::string pre = tag + (shared.p(0.5) ? "mesh" : "m"), sub = own ? dir + "/" + tag + "out" : "";
    R().desc = Str() << D << "D np=" << np << " write " << w << " files=" << files << " cycle=" << cycle << (own ? " own directory" : "") << " fields " << nf[0] << nf[1] << nf[2] << nf[3] << " tags " << nt[0] << nt[1] << nt[2] << nt[3] << " cells " << m.cells.size();
    double t = hasTime ? time : -FLT_MAX; siloErrors = 0; siloWhat.clear();
    auto before = std::make_tuple(m.nodes, m.cells, m.faces, m.faceCells); std::string given = suffix ? pre + ".silo" : pre;
    if (api == 0) SiloWriter<D, double>::write(m, F[0], T[0], F[1], T[1], F[2], T[2], F[3], T[3], given, sub, cycle, t, MPI_COMM_WORLD, files, 3);
    else if (api == 1) { if (own) SiloWriter<D, double>::write(m, F[0], F[1], F[2], F[3], given, sub, cycle, t, MPI_COMM_WORLD, files); else SiloWriter<D, double>::write(m, F[0], F[1], F[2], F[3], given, cycle, t, MPI_COMM_WORLD, files); }
    else { if (own) SiloWriter<D, double>::write(m, F[0], F[1], F[2], F[3], given, sub, MPI_COMM_WORLD, files); else SiloWriter<D, double>::write(m, F[0], F[1], F[2], F[3], given, MPI_COMM_WORLD, files); }
    if (before != std::make_tuple(m.nodes, m.cells, m.faces, m.faceCells)) bad("silo_changed_mesh", "writing changed the mesh");
    if (siloErrors) bad("silo_error", Str() << "rank " << rank << ": " << siloWhat);
    if (getenv("VT_LEAK")) continue;           // reading back is this monitor's own business
    // Gather what everybody wrote.
    Content e = expected<D>(m, o, cycle, hasTime, t); std::ostringstream os; for (auto& c : e.c) os << c.first << '\t' << c.second << '\n'; std::string s = os.str();
    std::vector<int> len(np), at(np, 0); int l = s.size(); MPI_Gather(&l, 1, MPI_INT, len.data(), 1, MPI_INT, 0, MPI_COMM_WORLD); int tot = 0; if (!rank) for (int i = 0; i < np; ++i) { at[i] = tot; tot += len[i]; }
    std::string all(tot + 1, 0); MPI_Gatherv(&s[0], l, MPI_CHAR, &all[0], len.data(), at.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
    if (!rank) {
      std::string base = own ? sub : (Str() << given << "-" << np).str(), master = base + "/" + pre + (cycle >= 0 ? (Str() << "-" << cycle).str() : "") + ".silo";
      DBfile* f = DBOpen(master.c_str(), DB_HDF5, DB_READ);
      if (!f) bad("silo_no_master", "no master file " + master);
      else {
        std::vector<std::string> names; DBmultimesh* mm = DBGetMultimesh(f, "mesh"); if (mm) { for (int i = 0; i < mm->nblocks; ++i) { names.push_back(mm->meshnames ? mm->meshnames[i] : ""); if (mm->meshtypes && mm->meshtypes[i] != DB_UCDMESH) bad("silo_block_type", "a block is not an unstructured mesh"); } DBFreeMultimesh(mm); }
        if (int(names.size()) != np) bad("silo_blocks", Str() << "the master file lists " << names.size() << " meshes for " << np << " processes");
        // the fields' blocks go with the mesh's
        for (int k = 0; k < 4; ++k) for (auto& kv : o.f[k]) {
          DBmultivar* mv = DBGetMultivar(f, kv.first.c_str()); if (!mv) { bad("silo_no_field", "the master file has no field " + kv.first); continue; }
          if (mv->nvars != int(names.size())) bad("silo_field_blocks", "field " + kv.first + " has another number of blocks than the mesh");
          else for (int i = 0; i < mv->nvars; ++i) { std::string x = mv->varnames[i], y = names[i]; if (x.substr(0, x.rfind('/')) != y.substr(0, y.rfind('/')) || x.substr(x.rfind('/') + 1) != kv.first) { bad("silo_field_block", "block " + x + " of field " + kv.first + " beside mesh block " + y); break; } }
          DBFreeMultivar(mv);
        }
        DBClose(f);
        std::set<std::string> seen; for (auto& n : names) if (!seen.insert(n).second) { bad("silo_block_twice", "the master file lists " + n + " twice"); break; }
        for (size_t i = 0; i < names.size() && i < size_t(np); ++i) {
          size_t c = names[i].find(':'); if (c == std::string::npos) { bad("silo_block_name", "block " + names[i]); continue; }
          std::string file = base + "/" + names[i].substr(0, c), path = names[i].substr(c + 1); path = path.substr(0, path.rfind('/'));
          DBfile* g = DBOpen(file.c_str(), DB_HDF5, DB_READ); if (!g) { bad("silo_no_file", "no file for block " + names[i]); continue; }
          Content got = readBlock(g, path, D, o, cycle, hasTime);
          // the group file's own list must name this block too
          DBSetDir(g, "/"); DBmultimesh* gm = DBGetMultimesh(g, "mesh"); bool listed = false; if (gm) { for (int q = 0; q < gm->nblocks; ++q) if ("/" + std::string(gm->meshnames[q]) == path + "/mesh") listed = true; DBFreeMultimesh(gm); }
          if (!listed) bad("silo_group_list", "file " + file + " does not list " + path);
          DBClose(g);
          std::map<std::string, uint64_t> want, have; std::istringstream is(all.substr(at[i], len[i])); std::string ln; while (std::getline(is, ln)) { size_t q = ln.find('\t'); if (q != std::string::npos) want[ln.substr(0, q)] = strtoull(ln.c_str() + q + 1, nullptr, 10); }
          for (auto& x : got.c) have[x.first] = x.second;
          for (auto& x : want) { R().count("silo_items"); if (!have.count(x.first)) { bad("silo_missing:" + x.first.substr(0, x.first.find(' ')), "block " + names[i] + " has no (sound) " + x.first); break; } else if (have[x.first] != x.second) { bad("silo_differs:" + x.first.substr(0, x.first.find(' ')), "block " + names[i] + ": " + x.first + " is not what process " + std::to_string(i) + " wrote"); break; } }
          for (auto& x : have) if (!want.count(x.first)) { bad("silo_extra", "block " + names[i] + " has a " + x.first + " nobody wrote"); break; }
          R().count("silo_blocks");
        }
      }
      R().count("silo_writes"); R().distinct(fnv(all.data(), all.size()), true); R().sample(R().desc);
      if (!own) {} 
    }
    MPI_Barrier(MPI_COMM_WORLD);
  }
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); int rank, np; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &np);
  std::string mode = argv[1]; uint64_t seed = atoll(argv[2]); long first = atol(argv[3]), count = atol(argv[4]); R().open(argv[5]);
  DBShowErrors(DB_ALL_AND_DRVR, onSilo); DBShowErrors(DB_ALL, onSilo);
  const char* sc = getenv("VT_SCRATCH"); std::string root = sc ? sc : "/tmp/w/scratch_io";
  for (long c = first; c < first + count; ++c) for (Reps rep; rep.next();) {
    uint64_t s = mix(mix(seed, fnv(mode.data(), mode.size())), c); Rng r(s); R().cur = c; if (!rank) R().begin(c); MPI_Barrier(MPI_COMM_WORLD);
    if (mode == "ser") { ser(r); continue; }
    // every case in a directory of its own, removed afterwards
    std::string dir = root + "/c" + std::to_string(c); if (!rank) mkdir(dir.c_str(), 0700); MPI_Barrier(MPI_COMM_WORLD);
    if (chdir(dir.c_str())) { perror("chdir"); _exit(97); }
    if (mode == "off") { if (r.p(0.5)) off<2>(r, dir); else off<3>(r, dir); }
    else {
      Rng mine(mix(s, 1000 + rank)); bool three = r.p(0.4);
      if (three) { Tessellation<3, double> m; brickMesh(mine, m); siloCase<3>(r, mine, m, dir, rank, np); }
      else { Tessellation<2, double> m; TCase t; if (np > 1 || mine.p(0.6) || !polyMesh(mine, m, t)) { m.clear(); gridMesh(mine, m); } siloCase<2>(r, mine, m, dir, rank, np); }
    }
    MPI_Barrier(MPI_COMM_WORLD); if (chdir(root.c_str())) _exit(97);
    if (!rank && dir.find("/c") != std::string::npos && dir.size() > 6) { std::string cmd = "rm -rf '" + dir + "'"; if (system(cmd.c_str())) {} }
    MPI_Barrier(MPI_COMM_WORLD);
  }
  if (rank) R().counters.clear();
  if (!rank) R().finish(); MPI_Finalize();
}
