// libFuzzer target of C26: any bytes as a saved model, RAM data, packed input, data set or base64 text.
// The first byte picks the constructor, the second which operations follow, the rest is what it is given.
// Under AddressSanitizer and libstdc++ assertions a memory error ends the process; an ordinary error is a
// std::exception. Operations whose cost the input decides by a number (not by its length) are left out when
// that number is large: everything else must end within the time limit.
#include "wisardpkg.hpp"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <string>

using namespace wisardpkg;

typedef std::vector<int> image_t;
typedef std::vector<image_t> images_t;

static std::string dir;
static FILE* save_out = 0;

static void writeFile(const std::string& name, const std::string& text) {
  FILE* f = fopen(name.c_str(), "wb");
  if (!f) abort();
  if (!text.empty() && fwrite(text.data(), 1, text.size(), f) != text.size()) abort();
  fclose(f);
}

extern "C" int LLVMFuzzerInitialize(int*, char***) {
  char t[] = "/tmp/vt-fuzz-XXXXXX";
  const char* d = getenv("VT_FUZZ_DIR");
  dir = d ? d : mkdtemp(t);
  return 0;
}

template <class F> static bool ordinary(F f) {
  try { f(); return true; } catch (const std::exception&) { return false; }
}

static image_t entry(long n, int base, unsigned how) {
  image_t e(n, 0);
  for (long i = 0; i < n; i++) {
    if (how == 1) e[i] = base - 1;
    if (how == 2) e[i] = i % 2;
    if (how == 3) e[i] = (i % 5 == 0) ? 2147483647 : -1;
  }
  return e;
}

// the largest stored count, and whether the data can be read at all
static long maxCount(const nl::json& d) {
  long m = 0;
  auto it = d.find("data");
  if (it == d.end() || !it->is_string()) return 0;
  RAMDataHandle h(it->get<std::string>());
  for (int r = 0;; r++) {
    ram_t ram;
    if (!ordinary([&] { ram = h.get(r); })) break;
    for (auto& p : ram) m = std::max(m, (long)p.second);
  }
  return m;
}

struct Sizes { long entry = 0, count = 0; std::vector<long> entries; };

static void look(const nl::json& d, Sizes& s) {
  if (!d.is_object()) return;
  auto it = d.find("entrySize");
  if (it != d.end() && it->is_number()) {
    long n = it->get<long>();
    s.entry = std::max(s.entry, n);
    if (s.entries.size() < 6) s.entries.push_back(n);
  }
  s.count = std::max(s.count, maxCount(d));
}

static int baseOf(const nl::json& j) {
  auto b = j.find("base");
  return b != j.end() && b->is_number() ? b->get<int>() : 2;
}

static images_t entries(const Sizes& s, int base) {
  images_t out;
  std::vector<long> ns = s.entries;
  ns.push_back(4);
  for (long n : ns)
    for (unsigned how = 0; how < 4; how++)
      if (n >= 0 && n <= 100000) out.push_back(entry(n, base, how));
  return out;
}

static void discriminator(const std::string& text, unsigned ops) {
  Discriminator m(text);
  nl::json j = nl::json::parse(m.json());
  Sizes s;
  look(j, s);
  int base = baseOf(j);
  for (auto& e : entries(s, base)) {
    ordinary([&] { m.classify(e); });
    if (ops & 1) ordinary([&] { m.train(e); });
    if (ops & 2) ordinary([&] { m.untrain(e); });
    std::vector<short> bits(e.begin(), e.end());
    ordinary([&] { m.classify(BinInput(bits)); });
  }
  if (s.entry <= 1000000) ordinary([&] { m.getMentalImage(); });
  ordinary([&] { m.json(); m.jsonConfig(); m.getsizeof(); m.getNumberOfRAMS(); });
  if (ops & 4) ordinary([&] { Discriminator(m.json(true, dir + "/d")); });
  if (ops & 8) ordinary([&] { Discriminator d(m); d = m; d.json(); });
}

static void wisard(const std::string& text, unsigned ops) {
  Wisard m(text);
  nl::json j = nl::json::parse(m.json());
  Sizes s;
  for (auto& d : j["classes"]) look(d, s);
  int base = baseOf(j);
  for (auto& e : entries(s, base)) {
    if (s.count <= 1000000) ordinary([&] { m.classify(images_t(1, e)); });
    if (ops & 1)
      for (auto it = j["classes"].begin(); it != j["classes"].end(); ++it)
        ordinary([&] { m.train(images_t(1, e), std::vector<std::string>(1, it.key())); });
    if (ops & 16) ordinary([&] { m.train(images_t(1, e), std::vector<std::string>(1, "new")); });
    if (ops & 2)
      for (auto it = j["classes"].begin(); it != j["classes"].end(); ++it)
        ordinary([&] { m.leaveOneOut(e, it.key()); });
    if (ops & 32) {
      DataSet ds;
      ds.add(std::vector<short>(e.begin(), e.end()), "x");
      if (s.count <= 1000000) ordinary([&] { m.classify(ds); });
      ordinary([&] { m.train(ds); });
    }
  }
  if (s.entry <= 1000000) ordinary([&] { m.getMentalImages(); });
  ordinary([&] { m.json(); m.jsonConfig(); m.getsizeof(); });
  if (ops & 4) ordinary([&] { Wisard(m.json(true, dir + "/w")); });
  if (ops & 8) ordinary([&] { Wisard w(m); w = m; w.json(); });
}

static void cluswisard(const std::string& text, unsigned ops) {
  ClusWisard m(text);
  nl::json j = nl::json::parse(m.json());
  Sizes s;
  for (auto& c : j["clusters"]) {
    look(c, s);
    for (auto& d : c["discriminators"]) look(d, s);
  }
  if (j["unsupervisedCluster"].is_object()) {
    look(j["unsupervisedCluster"], s);
    for (auto& d : j["unsupervisedCluster"]["discriminators"]) look(d, s);
  }
  int base = baseOf(j);
  bool cheap = s.count <= 1000000;
  for (auto& e : entries(s, base)) {
    images_t one(1, e);
    if (cheap) ordinary([&] { m.classify(one); });
    if (cheap) ordinary([&] { m.classifyUnsupervised(one); });
    if (ops & 1)
      for (auto it = j["clusters"].begin(); it != j["clusters"].end(); ++it)
        ordinary([&] { m.train(one, std::vector<std::string>(1, it.key())); });
    if (ops & 16) ordinary([&] { m.train(one, std::vector<std::string>(1, "new")); });
    if (ops & 2) ordinary([&] { m.trainUnsupervised(one); });
    if ((ops & 32) && cheap) {
      std::map<int, std::string> l;
      l[0] = "new";
      ordinary([&] { m.train(images_t(2, e), l); });
    }
  }
  if (s.entry <= 1000000) {
    ordinary([&] { m.getMentalImages(); });
    for (auto it = j["clusters"].begin(); it != j["clusters"].end(); ++it)
      ordinary([&] { m.getMentalImage(it.key()); });
    ordinary([&] { m.getMentalImage("unknown"); });
  }
  ordinary([&] { m.json(); m.jsonConfig(); m.getsizeof(); });
  if (ops & 4) ordinary([&] { ClusWisard(m.json(true, dir + "/c")); });
  if (ops & 8) ordinary([&] { ClusWisard w(m); w = m; w.json(); });
}

static void handle(const std::string& text, unsigned ops) {
  RAMDataHandle h(text);
  RAMDataHandle g(h);
  for (int r = -1; r < 40; r++) {
    ordinary([&] { h.get(r); });
    ordinary([&] { h.get(r, 0); h.get(r, (addr_t)-1); });
    ordinary([&] { h.data(r); });
    if (ops & 1) ordinary([&] { h.set(r, 5, -1); });
  }
  ordinary([&] { RAMDataHandle b(h.data()); b.compare(h); h.compare(g); g.compare(h); });
  ordinary([&] { h.save(dir + "/h"); });
}

static void bits(const BinInput& c, unsigned ops) {
  BinInput b(c);
  long n = b.size();
  for (long i : {-1L, 0L, 1L, n / 2, n - 1, n, n + 1, n + 8}) {
    ordinary([&] { b.get(i); });
    ordinary([&] { b[i]; });
    ordinary([&] { b.set(i, 1); });
  }
  for (long i = 0; i < n && i < 5000; i++) b.get(i);
  ordinary([&] { BinInput(b.data()).data(); });
  if (n <= 5000 && (ops & 1)) {
    ordinary([&] { Discriminator d(2, n); d.train(b); d.classify(b); });
  }
}

static void dataset(const std::string& name, unsigned ops) {
  DataSet d(name);
  long n = d.size();
  for (long i : {-1L, 0L, n - 1, n, n + 1}) {
    ordinary([&] { d.get(i); });
    ordinary([&] { d.getLabel(i); });
  }
  for (long i = 0; i < n && i < 100; i++) {
    bits(d.get(i), 0);
    ordinary([&] { d.getLabel(i); });
  }
  ordinary([&] { d.save(dir + "/saved"); DataSet(dir + "/saved.wpkds"); });
  if (ops & 1) {
    Wisard w(2);
    ordinary([&] { w.train(d); });
    ordinary([&] { w.classify(d); });
    ordinary([&] { w.json(); });
  }
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  if (size < 2) return 0;
  unsigned kind = data[0] % 12, ops = data[1];
  std::string text((const char*)data + 2, size - 2);
  ordinary([&] {
    switch (kind) {
      case 0: case 1: wisard(text, ops); break;
      case 2: case 3: cluswisard(text, ops); break;
      case 4: discriminator(text, ops); break;
      case 5: handle(text, ops); break;
      case 6: writeFile(dir + "/r.wdpkg", text); handle(dir + "/r.wdpkg", ops); break;
      case 7: bits(BinInput(text), ops); break;
      case 8: writeFile(dir + "/s.wpkds", text); dataset(dir + "/s.wpkds", ops); break;
      case 9: Base64::encode(Base64::decode(text)); Base64::decode(Base64::encode(text)); break;
      case 10: case 11: {
        // a model whose RAM contents are in a file: the text up to the first newline is the file
        size_t p = text.find('\n');
        if (p == std::string::npos) break;
        writeFile(dir + "/f.wdpkg", text.substr(0, p));
        std::string model = text.substr(p + 1), from = "@FILE", to = dir + "/f.wdpkg";
        for (size_t q = model.find(from); q != std::string::npos; q = model.find(from, q + to.size()))
          model.replace(q, from.size(), to);
        ordinary([&] { wisard(model, ops); });
        ordinary([&] { cluswisard(model, ops); });
        ordinary([&] { discriminator(model, ops); });
        break;
      }
    }
  });
  return 0;
}
