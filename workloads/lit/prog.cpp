// The simulated process: the library's parser, blocks and literature manager.
#include "lit.hpp"
#include <parser.hpp>
#include <variables/block.hpp>
#include <tools/literature.hpp>
#include <fstream>
#include <new>
using namespace wl; using namespace schnek;
namespace {
LitPlan *plan; LitOut *out;
typedef LiteratureReference Ref; typedef const std::vector<std::string> &A;
void field(Ref &r, const std::string &n, const std::string &v) {
  static const std::map<std::string, void (Ref::*)(std::string)> m = {{"address", &Ref::setAddress}, {"annote", &Ref::setAnnote}, {"author", &Ref::setAuthor}, {"booktitle", &Ref::setBooktitle}, {"chapter", &Ref::setChapter}, {"crossref", &Ref::setCrossref}, {"edition", &Ref::setEdition}, {"editor", &Ref::setEditor}, {"eprint", &Ref::setEprint}, {"howpublished", &Ref::setHowpublished}, {"institution", &Ref::setInstitution}, {"journal", &Ref::setJournal}, {"key", &Ref::setKey}, {"month", &Ref::setMonth}, {"note", &Ref::setNote}, {"number", &Ref::setNumber}, {"organization", &Ref::setOrganization}, {"pages", &Ref::setPages}, {"publisher", &Ref::setPublisher}, {"school", &Ref::setSchool}, {"series", &Ref::setSeries}, {"title", &Ref::setTitle}, {"type", &Ref::setType}, {"url", &Ref::setUrl}, {"doi", &Ref::setDoi}, {"volume", &Ref::setVolume}, {"year", &Ref::setYear}};
  (r.*m.at(n))(v);
}
Ref make(const RefDef &d) {
  A a = d.arg; const std::string &k = d.key;
  switch (d.type) {
    case 0: return LiteratureArticle(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    case 1: return LiteratureBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
    case 2: return LiteratureBooklet(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 3: return LiteratureInBook(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
    case 4: return LiteratureInCollection(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16]);
    case 5: return LiteratureInProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14]);
    case 6: return LiteratureManual(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
    case 7: return LiteratureMastersThesis(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
    case 8: return LiteratureMisc(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 9: return LiteraturePhdThesis(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
    case 10: return LiteratureProceedings(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
    case 11: return LiteratureTechReport(k, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    case 12: return LiteratureUnpublished(k, a[0], a[1], a[2], a[3], a[4], a[5]);
    default: { Ref r(k); r.setPublicationType((Ref::PublicationType)d.base); return r; }
  }
}
void act(const Act &a) {
  const RefDef &d = plan->refs[a.ref]; ActOut o;
  {
    Ref r = make(d); for (auto &e : d.extra) field(r, e.first, e.second); Ref c("other"); c.setPublicationType(Ref::misc); c.setTitle("to be overwritten"); c.setSchool("overwritten"); c = r; Ref c2(r);
    for (int t = 0; t < 2 && !o.done; ++t) {
      if (t == 0) sim_alloc_fail_at(a.fail);
      try { LiteratureManager::instance().addReference(plan->descs[a.desc], a.copy ? (t ? c2 : c) : r); o.done = true; } catch (std::bad_alloc &) { o.failed = true; }
      sim_alloc_fail_at(-1); if (!a.retry) break;
    }
    r.setTitle("changed afterwards"); c.setTitle("changed afterwards"); c2.setAuthor("changed afterwards"); // must not matter
  }
  out->log.push_back({a, o});
}
struct Node : public Block {
  int id = -1;
  void initParameters(BlockParameters &bp) override { bp.addParameter("id", &id, -1); }
  void phase(int ph) { if (id < 0 || id >= (int)plan->acts.size()) sim_fail("setup", "block %s has the parameter %d", getName().c_str(), id); for (auto &a : plan->acts[id][ph]) act(a); }
  void registerData() override { phase(0); } void preInit() override { phase(1); } void init() override { phase(2); } void postInit() override { phase(3); }
};
void write(const Step &s, int n) {
  Written w; w.tex = s.op == ST_TEX; w.path = "/sim/out" + std::to_string(sim_rank()) + "_" + std::to_string(n) + (w.tex ? ".tex" : ".bib"); w.bib = s.s; LiteratureManager &m = LiteratureManager::instance(); w.title = m.getTitle(); w.subtitle = m.getSubtitle(); w.nActs = out->log.size();
  for (; w.tries < 6 && !w.ok; ++w.tries) { std::ofstream f(w.path.c_str()); if (!f) continue; if (w.tex) m.writeInformation(f, s.s); else m.writeBibTex(f); f.close(); w.ok = (bool)f; }
  out->files.push_back(w);
}
}
void wl::litMain(LitPlan &p) {
  plan = &p; out = &p.out[sim_rank()];
  try {
    BlockClasses bc; bc.registerBlock("root").setClass<Node>(); bc.registerBlock("node").setClass<Node>(); bc("root").addChildren("node"); bc("node").addChildren("node"); Parser parser("setup", "root", bc);
    std::ifstream f("/sim/deck"); pBlock root = parser.parse(f, "deck"); root->initAll(); int n = 0;
    for (auto &s : p.late) { LiteratureManager &m = LiteratureManager::instance(); if (s.op == ST_ADD) act(s.a); else if (s.op == ST_TITLE) { m.setTitle(s.s); m.setSubtitle(s.t); if (m.getTitle() != s.s || m.getSubtitle() != s.t) sim_fail("title", "the title is not the one that was set"); } else write(s, n++); }
  } catch (ParserError &e) { out->error = "ParserError: " + e.message; } catch (SchnekException &) { out->error = "SchnekException"; } catch (std::exception &e) { out->error = e.what(); }
  out->finished = true;
}
