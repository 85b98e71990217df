// The C++ API of wisardpkg as a Python module with the same method names as the Python extension,
// so that one case can run on either. Only public API is used (the kernels of a KernelCanvas are read
// through a derived class, and only if they are there).
//   -DVT_SRC   over src/wisardpkg.h (global namespace, pybind11 included by it)
//   otherwise  over wisardpkg.hpp (namespace wisardpkg)
// -DVT_MODULE=name gives the name of the module.
#ifdef VT_SRC
#include "wisardpkg.h"
#else
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
namespace py = pybind11;
#include "wisardpkg.hpp"
using namespace wisardpkg;
#endif

typedef std::vector<std::vector<int>> images_t;
typedef std::vector<std::string> labels_t;

static nl::json toJson(const py::kwargs& kw) {
  py::dict d(kw);
  std::string s = py::module::import("json").attr("dumps")(d).cast<std::string>();
  return nl::json::parse(s);
}

struct Canvas : public KernelCanvas {
  using KernelCanvas::KernelCanvas;
};
template <class C> struct CanvasReader : public C {
  using C::C;
  template <class T> static auto read(T* c, int) -> decltype(py::cast(c->kernels)) { return py::cast(c->kernels); }
  template <class T> static py::object read(T*, long) { return py::none(); }
  py::object kernelsOrNone() { return read(this, 0); }
};
typedef CanvasReader<KernelCanvas> CppCanvas;

// copies and assignments, of the classes that have them
template <class T, class B> static void copies(B& b, std::true_type) {
  b.def("copy", [](const T& x) { return T(x); });
}
template <class T, class B> static void copies(B&, std::false_type) {}
template <class T, class B> static void assigns(B& b, std::true_type) {
  b.def("assign", [](T& x, const T& y) { x = y; });
}
template <class T, class B> static void assigns(B&, std::false_type) {}
template <class T, class B> static void copyable(B& b) {
  copies<T>(b, std::is_copy_constructible<T>());
  assigns<T>(b, std::is_copy_assignable<T>());
}

PYBIND11_MODULE(VT_MODULE, m) {
  m.attr("__version__") = __version__;

  py::class_<BinInput> cBinInput(m, "BinInput", py::module_local());
  cBinInput
    .def(py::init<index_size_t>())
    .def(py::init<const std::vector<short>&>())
    .def(py::init<const std::string&>())
    .def("__getitem__", [](const BinInput& b, index_size_t i) { return b[i]; })
    .def("get", [](BinInput& o, index_size_t i) { return o.get(i); })
    .def("set", [](BinInput& o, index_size_t i, int v) { return o.set(i, v); })
    .def("size", [](BinInput& o) { return o.size(); })
    .def("data", [](BinInput& o) { return o.data(); })
    ;
  copyable<BinInput>(cBinInput);

  py::class_<DataSet> cDataSet(m, "DataSet", py::module_local());
  cDataSet
    .def(py::init<>())
    .def(py::init<std::string>())
    .def("add", [](DataSet& d, const BinInput& b) { d.add(b); })
    .def("add", [](DataSet& d, const BinInput& b, const std::string& l) { d.add(b, l); })
    .def("add", [](DataSet& d, const std::vector<short>& b) { d.add(b); })
    .def("add", [](DataSet& d, const std::vector<short>& b, const std::string& l) { d.add(b, l); })
    .def("get", [](const DataSet& d, int i) { return BinInput(d.get(i)); })
    .def("__getitem__", [](const DataSet& d, int i) { return BinInput(d[i]); })
    .def("getLabel", [](DataSet& o, index_size_t i) { return o.getLabel(i); })
    .def("size", [](DataSet& o) { return o.size(); })
    .def("save", [](DataSet& o, const std::string& p) { return o.save(p); })
    ;
  copyable<DataSet>(cDataSet);

  py::class_<CppCanvas>(m, "KernelCanvas", py::module_local())
    .def(py::init([](int dim, int n, py::kwargs kw) { return new CppCanvas(dim, n, toJson(kw)); }))
    .def("transform", &CppCanvas::transform)
    .def("kernels", &CppCanvas::kernelsOrNone);
#ifdef VT_SRC
  typedef CanvasReader<KernelCanvasWrapper> PyCanvas;
  py::class_<PyCanvas>(m, "PyKernelCanvas", py::module_local())
    .def(py::init<int, int, py::kwargs>())
    .def("transform", &PyCanvas::transform)
    .def("kernels", &PyCanvas::kernelsOrNone);
#endif

  py::class_<Synthesizer>(m, "Synthesizer", py::module_local())
    .def(py::init<const std::vector<int>&>())
    .def("make", [](Synthesizer& o) { return o.make(); });

  py::class_<RAMDataHandle> cRAMDataHandle(m, "RAMDataHandle", py::module_local());
  cRAMDataHandle
    .def(py::init([](py::bytes s) { return new RAMDataHandle(std::string(s)); }))
    .def(py::init([](const std::string& s) { return new RAMDataHandle(s); }))
    .def(py::init([](const std::unordered_map<addr_t, content_t>& d) { return new RAMDataHandle(d); }))
    .def("set", [](RAMDataHandle& h, int r, addr_t a, int v) { h.set(r, a, v); })
    .def("get", [](RAMDataHandle& h, int r, addr_t a) { return h.get(r, a); })
    .def("get", [](RAMDataHandle& h, int r) { return h.get(r); })
    .def("data", [](RAMDataHandle& h) { return h.data(); })
    .def("data", [](RAMDataHandle& h, int r) { return h.data(r); })
    .def("compare", [](RAMDataHandle& h, RAMDataHandle& o) { return h.compare(o); })
    .def("save", [](RAMDataHandle& h, const std::string& p) { h.save(p); })
    ;
  copyable<RAMDataHandle>(cRAMDataHandle);

  py::class_<Discriminator> cDiscriminator(m, "Discriminator", py::module_local());
  cDiscriminator
    .def(py::init<std::string>())
    .def(py::init([](int a, int e, py::kwargs kw) { return new Discriminator(a, e, toJson(kw)); }))
    .def("train", [](Discriminator& d, const BinInput& i) { d.train(i); })
    .def("train", [](Discriminator& d, const std::vector<int>& i) { d.train(i); })
    .def("train", [](Discriminator& d, const images_t& i) { d.train(i); })
    .def("untrain", [](Discriminator& d, const std::vector<int>& i) { d.untrain(i); })
    .def("classify", [](Discriminator& d, const BinInput& i) { return d.classify(i); })
    .def("classify", [](Discriminator& d, const std::vector<int>& i) { return d.classify(i); })
    .def("getNumberOfTrainings", [](Discriminator& o) { return o.getNumberOfTrainings(); })
    .def("getNumberOfRAMS", [](Discriminator& o) { return o.getNumberOfRAMS(); })
    .def("getMentalImage", [](Discriminator& o) { return o.getMentalImage(); })
    .def("jsonConfig", [](Discriminator& d) { return d.jsonConfig(); })
    .def("json", [](Discriminator& d) { return d.json(); })
    .def("json", [](Discriminator& d, bool h) { return d.json(h); })
    .def("json", [](Discriminator& d, bool h, std::string p) { return d.json(h, p); })
    .def("getsizeof", [](Discriminator& o) { return o.getsizeof(); })
    ;
  copyable<Discriminator>(cDiscriminator);

  py::class_<Wisard> cWisard(m, "Wisard", py::module_local());
  cWisard
    .def(py::init<std::string>())
    .def(py::init([](int a, py::kwargs kw) { return new Wisard(a, toJson(kw)); }))
    .def("train", [](Wisard& w, const DataSet& d) { w.train(d); })
    .def("train", [](Wisard& w, const images_t& i, const labels_t& l) { w.train(i, l); })
    .def("classify", [](Wisard& w, const DataSet& d) { return w.classify(d); })
    .def("classify", [](Wisard& w, const images_t& i) { return w.classify(i); })
    .def("getMentalImages", [](Wisard& o) { return o.getMentalImages(); })
    .def("leaveOneOut", [](Wisard& o, const std::vector<int>& i, const std::string& l) { return o.leaveOneOut(i, l); })
    .def("leaveMoreOut", [](Wisard& o, const images_t& i, const labels_t& l) { return o.leaveMoreOut(i, l); })
    .def("jsonConfig", [](Wisard& d) { return d.jsonConfig(); })
    .def("json", [](Wisard& d) { return d.json(); })
    .def("json", [](Wisard& d, bool h) { return d.json(h); })
    .def("json", [](Wisard& d, bool h, std::string p) { return d.json(h, p); })
    .def("getsizeof", [](Wisard& o) { return o.getsizeof(); })
    ;
  copyable<Wisard>(cWisard);

  py::class_<ClusWisard> cClusWisard(m, "ClusWisard", py::module_local());
  cClusWisard
    .def(py::init<std::string>())
    .def(py::init([](int a, float s, int t, int l, py::kwargs kw) { return new ClusWisard(a, s, t, l, toJson(kw)); }))
    .def("train", [](ClusWisard& w, const images_t& i, const labels_t& l) { w.train(i, l); })
    .def("train", [](ClusWisard& w, const images_t& i, std::map<int, std::string>& l) { w.train(i, l); })
    .def("trainUnsupervised", [](ClusWisard& o, const images_t& i) { return o.trainUnsupervised(i); })
    .def("classify", [](ClusWisard& w, const images_t& i) { return w.classify(i); })
    .def("classifyUnsupervised", [](ClusWisard& w, const images_t& i) { return w.classifyUnsupervised(i); })
    .def("getMentalImage", [](ClusWisard& o, const std::string& l) { return o.getMentalImage(l); })
    .def("getMentalImages", [](ClusWisard& o) { return o.getMentalImages(); })
    .def("jsonConfig", [](ClusWisard& d) { return d.jsonConfig(); })
    .def("json", [](ClusWisard& d) { return d.json(); })
    .def("json", [](ClusWisard& d, bool h) { return d.json(h); })
    .def("json", [](ClusWisard& d, bool h, std::string p) { return d.json(h, p); })
    .def("getsizeof", [](ClusWisard& o) { return o.getsizeof(); })
    ;
  copyable<ClusWisard>(cClusWisard);

  m.def("b64encode", [](py::bytes s) { return py::bytes(Base64::encode(std::string(s))); });
  m.def("b64decode", [](py::bytes s) { return py::bytes(Base64::decode(std::string(s))); });
}
