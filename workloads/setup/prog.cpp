// The simulated process: reads /sim/deck with the library's parser, initialises the blocks, shares data, updates variables.
#include "setup.hpp"
#include <parser.hpp>
#include <parser/parsertoken.hpp>
#include <variables/block.hpp>
#include <variables/blockcontainer.hpp>
#include <variables/dependencies.hpp>
#include <variables/function_expression.hpp>
#include <fstream>
#include <new>
using namespace wl; using namespace schnek;
namespace {
struct Obj { long a; double b; };
struct Node; SetupPlan *plan; RankOut *out; std::vector<Node*> nodes; std::vector<Block*> made; std::map<const void*, int> owner; double hidden; int attempt;
double stateFn() { return hidden; }
double twice(double x) { return 2 * x; }
double pick(double a, double b, double c) { return 4 * a - 2 * b + c; }
int addI(int a, int b) { return a + b; }
std::string rep(std::string s, int n) { std::string r; for (int i = 0; i < n && i < 4; ++i) r += s; return r; }
struct Boom { }; struct OpenFailed { };
struct Node {
  const ClassDef *cls; Block *self = nullptr; int index = -1;
  int I[16]; double D[16]; std::string S[16]; Array<int, 2> AI[8]; Array<double, 2> AD[8]; Array<std::string, 2> AS[8]; pParameter par[16];
  int di[8]; double dd[8]; double *dp[8]; Obj dobj[8];
  explicit Node(int c) : cls(&plan->classes[c]) { for (int i = 0; i < 16; ++i) { I[i] = 0; D[i] = 0; } for (int i = 0; i < 8; ++i) { AI[i] = 0; AD[i] = 0.0; di[i] = 0; dd[i] = 0; dp[i] = nullptr; dobj[i] = Obj{0, 0}; } }
  std::string path() { std::string s; for (Block *b = self; b; b = b->getParent().get()) s = "/" + b->getName() + s; return s; }
  template<class T> T &slot(int i);
  template<class T> T conv(const Val &v);
  template<class T> void add1(BlockParameters &bp, const ParamDef &d, int i, T *v) {
    if (d.kind == K_CONST) { *v = conv<T>(d.def); par[i] = bp.addConstant(d.name, conv<T>(d.def)); return; }
    BlockParameters::Permissions pm = d.kind == K_RO ? BlockParameters::readonly : BlockParameters::readwrite;
    if (d.hasDef) par[i] = bp.addParameter(d.name, v, conv<T>(d.def), pm); else { *v = conv<T>(d.def); par[i] = bp.addParameter(d.name, v, pm); }
  }
  template<class T> void addArr(BlockParameters &bp, const ParamDef &d, const ParamDef &d2, int i, Array<T, 2> &a) {
    BlockParameters::Permissions pm = d.kind == K_RO ? BlockParameters::readonly : BlockParameters::readwrite; Array<pParameter, 2> r; Array<T, 2> def; def[0] = conv<T>(d.def); def[1] = conv<T>(d2.def);
    if (d.hasDef) { if (d.arrForm == 0) r = bp.addArrayParameter(d.base, a, def, pm, d.ext); else r = bp.addArrayParameter(d.base, a, def[0], pm, d.ext); } else { a[0] = def[0]; a[1] = def[1]; r = bp.addArrayParameter(d.base, a, pm, d.ext); }
    par[i] = r[0]; par[i + 1] = r[1];
  }
  void params(BlockParameters &bp) {
    out->created.push_back(self->getName()); made.push_back(self);
    for (size_t i = 0; i < cls->par.size(); ++i) { const ParamDef &d = cls->par[i]; if (d.arr == 2) continue; if (d.arr == 1) { const ParamDef &e = cls->par[i + 1]; if (d.type == TI) addArr(bp, d, e, i, AI[i / 2]); else if (d.type == TF) addArr(bp, d, e, i, AD[i / 2]); else addArr(bp, d, e, i, AS[i / 2]); } else if (d.type == TI) add1(bp, d, i, &I[i]); else if (d.type == TF) add1(bp, d, i, &D[i]); else add1(bp, d, i, &S[i]); }
  }
  void *where(int i) { const ParamDef &d = cls->par[i]; if (d.arr) { int j = d.arr == 1 ? i : i - 1, k = d.arr - 1; return d.type == TI ? (void*)&AI[j / 2][k] : d.type == TF ? (void*)&AD[j / 2][k] : (void*)&AS[j / 2][k]; } return d.type == TI ? (void*)&I[i] : d.type == TF ? (void*)&D[i] : (void*)&S[i]; }
  Val get(int i) { void *w = where(i); int t = cls->par[i].type; return t == TI ? VI(*(int*)w) : t == TF ? VF(*(double*)w) : VS(*(std::string*)w); }
  void set(int i, const Val &v) { void *w = where(i); if (v.t == TI) *(int*)w = v.i; else if (v.t == TF) *(double*)w = v.d; else *(std::string*)w = v.s; }
  void phase(int ph) { out->events.push_back({ph, path()}); if (plan->throwPhase == ph && plan->throwBlock == index) throw Boom(); }
  void regis() {
    index = nodes.size(); nodes.push_back(this); std::vector<Val> v; for (size_t i = 0; i < cls->par.size(); ++i) v.push_back(get(i)); out->values.push_back(v); phase(PH_REGISTER);
    for (size_t i = 0; i < cls->data.size(); ++i) {
      const DataDef &d = cls->data[i]; int code = index * 100 + i; di[i] = code; dd[i] = code + 0.5; dp[i] = &dd[i]; dobj[i] = Obj{code, code + 0.25};
      switch (d.kind) { case 0: self->addData(d.key, di[i]); owner[&di[i]] = index; break; case 1: self->addData(d.key, dd[i]); owner[&dd[i]] = index; break; case 2: self->addData(d.key, dp[i]); owner[&dd[i]] = index; break; default: self->addData(d.key, dobj[i]); owner[&dobj[i]] = index; }
    }
  }
  template<class T> std::pair<int, int> ask(const Query &q) {
    try {
      if (q.how == Q_PTR) { T *p = nullptr; self->retrieveData(q.key, p); auto it = owner.find(p); return {it == owner.end() ? -3 : it->second, 1}; }
      T v; self->retrieveData(q.key, v); long code; memcpy(&code, &v, sizeof(T) < sizeof code ? sizeof(T) : sizeof code); double c = sizeof(T) == sizeof(int) ? (double)*(int*)(void*)&v : sizeof(T) == sizeof(double) ? *(double*)(void*)&v : (double)code; return {(int)(c / 100), 1};
    } catch (VariableNotFoundException &) { return {-1, 1}; } catch (DuplicateVariableException &) { return {-2, 1}; }
  }
  void queries(int ph) { for (auto &q : plan->queries) if (q.block == index && q.phase == ph) out->qres.push_back(q.kind == 0 ? ask<int>(q) : q.kind == 1 || q.kind == 2 ? ask<double>(q) : ask<Obj>(q)); }
};
template<> int &Node::slot<int>(int i) { return I[i]; }
template<> int Node::conv<int>(const Val &v) { return v.i; } template<> double Node::conv<double>(const Val &v) { return v.d; } template<> std::string Node::conv<std::string>(const Val &v) { return v.s; }

template<int C> struct Plain : public Block, public Node {
  Plain() : Node(C) { self = this; }
  void initParameters(BlockParameters &bp) override { params(bp); }
  void registerData() override { regis(); } void preInit() override { phase(PH_PREINIT); queries(PH_PREINIT); } void init() override { phase(PH_INIT); queries(PH_INIT); } void postInit() override { phase(PH_POSTINIT); queries(PH_POSTINIT); }
};
struct Kid; // role 1: a child that registers itself with a container
template<int C> struct KidC;
struct Kid : public ChildBlock<Kid>, public Node {
  explicit Kid(int c) : Node(c) { self = this; }
  void initParameters(BlockParameters &bp) override { params(bp); }
  void registerData() override { regis(); } void preInit() override { phase(PH_PREINIT); ChildBlock<Kid>::preInit(); queries(PH_PREINIT); } void init() override { phase(PH_INIT); queries(PH_INIT); } void postInit() override { phase(PH_POSTINIT); queries(PH_POSTINIT); }
};
template<int C> struct KidC : public Kid { KidC() : Kid(C) {} };
template<int C> struct Home : public Block, public BlockContainer<Kid>, public Node { // role 2: a container
  Home() : Node(C) { self = this; }
  void initParameters(BlockParameters &bp) override { params(bp); }
  void registerData() override { regis(); } void preInit() override { phase(PH_PREINIT); queries(PH_PREINIT); }
  void init() override { phase(PH_INIT); std::vector<std::string> n; for (pKidT k : childBlocks()) n.push_back(k->getName()); if (n.size() != numChildren()) n.push_back("numChildren differs"); out->homes.push_back({path(), n}); queries(PH_INIT); } void postInit() override { phase(PH_POSTINIT); queries(PH_POSTINIT); }
  typedef std::shared_ptr<Kid> pKidT;
};
template<int C> struct KidHome : public Kid, public BlockContainer<Kid> { // role 3: both
  KidHome() : Kid(C) {}
  void init() override { phase(PH_INIT); std::vector<std::string> n; for (std::shared_ptr<Kid> k : childBlocks()) n.push_back(k->getName()); if (n.size() != numChildren()) n.push_back("numChildren differs"); out->homes.push_back({path(), n}); queries(PH_INIT); }
};
template<int C> void registerOne(BlockClassDescriptor &d, int role) { switch (role) { case 1: d.setClass<KidC<C>>(); break; case 2: d.setClass<Home<C>>(); break; case 3: d.setClass<KidHome<C>>(); break; default: d.setClass<Plain<C>>(); } }
void registerClass(BlockClassDescriptor &d, int c, int role) { switch (c) { case 0: registerOne<0>(d, role); break; case 1: registerOne<1>(d, role); break; case 2: registerOne<2>(d, role); break; case 3: registerOne<3>(d, role); break; case 4: registerOne<4>(d, role); break; case 5: registerOne<5>(d, role); break; default: registerOne<6>(d, role); } }
template<class BC> void registerAll(BC &get) {
  for (size_t c = 0; c < plan->classes.size(); ++c) { const ClassDef &k = plan->classes[c]; BlockClassDescriptor &d = get(k.name); if (k.factory) registerClass(d, c, k.role); }
}
struct ByClasses { BlockClasses &b; BlockClassDescriptor &operator()(const std::string &n) { return b.registerBlock(n); } };
struct BySettings { ParserSettings &b; BlockClassDescriptor &operator()(const std::string &n) { return b.addBlockClass(n); } };
template<class L> void addKids(L look) { for (auto &k : plan->classes) { auto it = k.kids.begin(); if (it == k.kids.end()) continue; auto a = look(k.name).addChildren(plan->classes[*it].name); for (++it; it != k.kids.end(); ++it) a(plan->classes[*it].name); } }
void functions(FunctionRegistry &f) { registerAllFunctions(f); f.registerFunction("state", stateFn, true); f.registerFunction("twice", twice); f.registerFunction("addI", addI); f.registerFunction("pick", pick); f.registerFunction("rep", rep); }
Val value(pVariable v) { ValueVariant x = v->getValue(); if (int *i = boost::get<int>(&x)) return VI(*i); if (double *d = boost::get<double>(&x)) return VF(*d); return VS(boost::get<std::string>(x)); }
void dump(pBlockVariables b, const std::string &path) {
  for (auto &e : b->getVariables()) out->vars.push_back({path + e.first, (int)e.second->getType(), e.second->isConstant(), e.second->isReadOnly(), value(e.second)});
  for (auto &c : b->getChildren()) dump(c, path + c->getBlockName() + ":");
}
pBlock parseOnce(std::shared_ptr<Parser> &keep) {
  nodes.clear(); made.clear(); owner.clear(); out->created.clear(); out->events.clear(); out->values.clear(); out->qres.clear(); out->homes.clear();
  std::ifstream f("/sim/deck"); if (!f) throw OpenFailed();
  if (plan->viaSettings) { ParserSettings s("setup", plan->classes[0].name); BySettings g{s}; registerAll(g); addKids([&](const std::string &n) -> BlockClassDescriptor& { return s.getBlock(n); }); functions(s.funcReg); keep.reset(new Parser(s)); }
  else { BlockClasses bc(!plan->unrestricted); ByClasses g{bc}; registerAll(g); addKids([&](const std::string &n) -> BlockClassDescriptor& { return bc(n); }); keep.reset(new Parser("setup", plan->classes[0].name, bc)); functions(keep->getFunctionRegistry()); }
  return keep->parse(f, "deck");
}
void history(pBlock root) {
  std::vector<std::shared_ptr<DependencyUpdater>> us; std::vector<std::vector<ParRef>> deps; pDependencyMap m(new DependencyMap(root->getVariables()));
  for (auto &o : plan->ops) switch (o.op) {
    case OP_NEW: us.emplace_back(new DependencyUpdater(m)); deps.emplace_back(); break;
    case OP_IND: us[o.u]->addIndependent(nodes[o.p.block]->par[o.p.par]); break;
    case OP_DEP: us[o.u]->addDependent(nodes[o.p.block]->par[o.p.par]); deps[o.u].push_back(o.p); break;
    case OP_CLEAR: us[o.u]->clearDependent(); deps[o.u].clear(); break;
    case OP_SET: nodes[o.p.block]->set(o.p.par, o.v); break;
    case OP_STATE: hidden = o.v.d; break;
    case OP_UPDATE: { us[o.u]->update(); std::vector<Val> r; for (auto &p : deps[o.u]) r.push_back(nodes[p.block]->get(p.par)); out->updates.push_back(r); break; }
    case OP_ALL: m->updateAll(); break;
    default: m->recreate();
  }
}
}
void wl::setupMain(SetupPlan &p) {
  plan = &p; int me = sim_rank(); out = &p.out[me]; hidden = p.state; std::shared_ptr<Parser> keep; pBlock root;
  for (attempt = 0; attempt < p.maxTries && !root; ++attempt) {
    std::string what; bool armed = attempt == 0 && p.allocFail[me] >= 0; if (armed) sim_alloc_fail_at(p.allocFail[me]);
    auto off = [&] { if (armed) { if (!sim_alloc_fired()) sim_probe("allocation-failure-not-reached"); sim_alloc_fail_at(-1); armed = false; } };
    try { root = parseOnce(keep); if (root) made[p.startBlock]->initAll(); off(); if (!root) what = "no block"; }
    catch (ParserError &e) { off(); what = "ParserError: " + e.message; } catch (VariableNotInitialisedException &) { off(); what = "VariableNotInitialisedException"; } catch (std::bad_alloc &) { off(); what = "bad_alloc"; }
    catch (Boom &) { off(); what = "thrown by the block"; } catch (OpenFailed &) { off(); what = "open"; } catch (EvaluationException &) { off(); what = "EvaluationException"; } catch (SchnekException &) { off(); what = "SchnekException"; } catch (std::exception &e) { off(); what = std::string("exception ") + e.what(); }
    out->attempts.push_back(what); if (!what.empty()) root.reset();
  }
  if (root) {
    dump(root->getVariables(), ""); if (p.mode == M_C18) history(root);
    for (auto &q : p.probes) { bool e = nodes[q.second]->self->getLocalVariables()->exists(q.first), g = true; try { nodes[q.second]->self->getLocalVariables()->getVariable(q.first); } catch (VariableNotFoundException &) { g = false; } out->exists = out->exists * 4 % 1000000007L + (e ? 2 : 0) + (g ? 1 : 0); }
  }
  out->finished = true;
}
