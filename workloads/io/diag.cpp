// Simulated processes that run diagnostics: real Block, Parser, DiagnosticManager, SimpleFileDiagnostic, HDFGridDiagnostic.
#include "diag.hpp"
#include "jobs.hpp"
#include <grid/grid.hpp>
#include <grid/field.hpp>
#include <grid/mpisubdivision.hpp>
#include <diagnostic/diagnostic.hpp>
#include <diagnostic/hdfdiagnostic.hpp>
#include <parser.hpp>
#include <sstream>
using namespace wl; using namespace schnek;
namespace {
DiagPlan *plan; int curStep, me; typedef Field<double, 1> HField; typedef Array<int, 1> I1;
struct Probe { int diag = -1; };
std::ostream &operator<<(std::ostream &o, const Probe &p) { return o << probeText(p.diag, me, curStep); }
std::vector<std::unique_ptr<Probe>> probes; HField field; MPICartSubdivision<HField> *sub; I1 glo, ghi;

template<class Base, bool SINGLE> struct Rec : public Base {
  void ev(int what, const std::string &n = "") { plan->ev[me].push_back({curStep, id, what, n}); }
  int id = -1;
  void initParameters(BlockParameters &b) override { Base::initParameters(b); b.addParameter("id", &id, -1); }
  void open(const std::string &n) override { ev(0, n); }
  void write() override { ev(1); }
  void close() override { ev(2); }
  bool singleOut() override { return SINGLE; }
};
template<class Base, bool SINGLE> struct Text : public SimpleFileDiagnostic<Probe, Probe*, Base> {
  Text() { if (SINGLE) this->setSingleOut(true); }
  void registerData() override { if (!this->getParent()) { for (size_t i = 0; i < probes.size(); ++i) this->addData("probe" + std::to_string(i), *probes[i]); } }
};
template<class Base> struct Hdf : public HDFGridDiagnostic<HField, Base> {
  I1 getGlobalMin() override { return glo; }
  I1 getGlobalMax() override { return ghi; }
  int id = -1, stepAttr; double pairAttr[2];
  void initParameters(BlockParameters &b) override { HDFGridDiagnostic<HField, Base>::initParameters(b); b.addParameter("id", &id, -1); }
  std::string getDatasetName() override { return plan->diags[id].ds == "data" ? HDFGridDiagnostic<HField, Base>::getDatasetName() : plan->diags[id].ds; }
  pHdfAttributes getAttributes() override { pHdfAttributes a = HDFGridDiagnostic<HField, Base>::getAttributes(); if (plan->diags[id].attrs) { stepAttr = curStep; pairAttr[0] = curStep * 0.5; pairAttr[1] = id; a->set("step", stepAttr); a->set("pair", (const double*)pairAttr, 2); } return a; }
  void registerData() override { if (!this->getParent()) this->addData("field", field); }
};
struct Sim : public Block { void registerData() override { addData("field", field); for (size_t i = 0; i < probes.size(); ++i) addData("probe" + std::to_string(i), *probes[i]); } };
std::string clsName(const DSpec &d) { std::string s = d.cls == D_REC ? "Rec" : d.cls == D_TEXT ? "Text" : "Hdf"; s += d.delta ? "D" : "I"; if (d.single && d.cls != D_HDF) s += "S"; return s; }
std::string num(double x) { std::ostringstream o; o.precision(17); o << x; std::string s = o.str(); if (s.find_first_of(".e") == std::string::npos) s += ".0"; return s; }
std::string params(const DSpec &d, int i) {
  std::string s = "file = \"" + d.file + "\";\n"; if (d.append) s += "append = 1;\n";
  if (d.cls != D_TEXT) s += "id = " + std::to_string(i) + ";\n";
  if (d.cls == D_TEXT) s += "field = \"probe" + std::to_string(i) + "\";\n"; if (d.cls == D_HDF) s += "field = \"field\";\n";
  if (!d.useDefault) { if (!d.delta) s += "interval = " + std::to_string(d.interval) + ";\n"; else { s += "deltaTime = " + num(d.deltaTime) + ";\n"; if (d.delay != 0) s += "delay = " + (d.delay < 0 ? "0.0-" + num(-d.delay) : num(d.delay)) + ";\n"; } }
  return s;
}
void registerAll(BlockClasses &b) {
  b.registerBlock("Sim").setClass<Sim>();
  b.registerBlock("RecI").setClass<Rec<IntervalDiagnostic, false>>(); b.registerBlock("RecIS").setClass<Rec<IntervalDiagnostic, true>>();
  b.registerBlock("RecD").setClass<Rec<DeltaTimeDiagnostic, false>>(); b.registerBlock("RecDS").setClass<Rec<DeltaTimeDiagnostic, true>>();
  b.registerBlock("TextI").setClass<Text<IntervalDiagnostic, false>>(); b.registerBlock("TextIS").setClass<Text<IntervalDiagnostic, true>>();
  b.registerBlock("TextD").setClass<Text<DeltaTimeDiagnostic, false>>(); b.registerBlock("TextDS").setClass<Text<DeltaTimeDiagnostic, true>>();
  b.registerBlock("HdfI").setClass<Hdf<IntervalDiagnostic>>(); b.registerBlock("HdfD").setClass<Hdf<DeltaTimeDiagnostic>>();
  b("Sim").addChildren("RecI")("RecIS")("RecD")("RecDS")("TextI")("TextIS")("TextD")("TextDS")("HdfI")("HdfD");
}
pBlock build(const std::string &cls, const std::string &text) {
  BlockClasses b; registerAll(b); Parser P("setup", cls, b); std::istringstream in(text);
  pBlock r = P.parse(in); r->initAll(); return r;
}
void fillField() { int x[4]; Box b = toBox(sub->getInnerDomain(), 1); I1 i; if (b.first(x)) do { i[0] = x[0]; field[i] = cellVal(fieldSeed(curStep), x, 1); } while (b.next(x)); }
}
void diagMain(DiagPlan &p) {
  plan = &p; me = sim_rank(); curStep = -1; probes.clear(); for (size_t i = 0; i < p.diags.size(); ++i) { probes.emplace_back(new Probe); probes.back()->diag = i; }
  MPICartSubdivision<HField> s; sub = &s; glo[0] = p.global.lo[0]; ghi[0] = p.global.hi[0]; s.init(glo, ghi, p.delta); p.master[me] = s.master(); p.procnum[me] = s.procnum();
  Array<double, 1> a(0.0), b(1.0); Array<bool, 1> st(false); field.resize(s.getInnerLo(), s.getInnerHi(), Range<double, 1>(a, b), st, p.delta); field = 0.0;
  int tc = 0; double t = p.t0; auto &M = DiagnosticManager::instance(); if (p.masterRank >= 0) { p.master[me] = me == p.masterRank; M.setMaster(me == p.masterRank); }
  if (p.setTC && !p.tcLast) M.setTimeCounter(&tc); if (p.setPT) M.setPhysicalTime(&t); if (p.setTC && p.tcLast) M.setTimeCounter(&tc);
  std::string text; pBlock root; std::vector<pBlock> own(p.diags.size());
  for (size_t i = 0; i < p.diags.size(); ++i) if (!p.diags[i].own) text += clsName(p.diags[i]) + " d" + std::to_string(i) + " {\n" + params(p.diags[i], i) + "}\n";
  try {
    if (!text.empty()) root = build("Sim", text);
    for (size_t k = 0; k < p.steps.size(); ++k) {
      curStep = k;
      for (size_t i = 0; i < p.diags.size(); ++i) if (p.diags[i].own) { if (p.diags[i].to == (int)k) own[i].reset(); if (p.diags[i].from == (int)k) own[i] = build(clsName(p.diags[i]), params(p.diags[i], i)); }
      tc = p.steps[k].tc; if (!p.adjust) t = p.t0 + p.steps[k].t; else if (k > 0) { double d = M.adjustDeltaT(p.dt); p.adj[me].push_back(d); t += d; }
      p.time[me].push_back(t); fillField(); M.execute();
    }
  } catch (VariableNotInitialisedException &e) { p.threw[me] = 1; }
  for (auto &o : own) o.reset(); root.reset(); field = HField(); sub = nullptr; p.finished[me] = 1;
}
