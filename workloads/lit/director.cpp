// C20: the references of a run.
#include "lit.hpp"
#include <mpi.h>
#include <cctype>
using namespace wl;
const char *const wl::kindNames[13] = {"article", "book", "booklet", "inbook", "incollection", "inproceedings", "manual", "mastersthesis", "misc", "phdthesis", "proceedings", "techreport", "unpublished"};
const char *const wl::argNames[13][18] = {
  {"author", "title", "journal", "year", "volume", "pages", "number", "month", "note", "key", 0},
  {"author", "editor", "title", "publisher", "year", "volume", "number", "series", "address", "edition", "month", "note", "key", 0},
  {"title", "author", "howpublished", "address", "month", "year", "note", "key", 0},
  {"author", "editor", "title", "chapter", "pages", "publisher", "year", "volume", "number", "series", "type", "address", "edition", "month", "note", "key", 0},
  {"author", "title", "booktitle", "publisher", "year", "editor", "volume", "number", "series", "type", "chapter", "pages", "address", "edition", "month", "note", "key", 0},
  {"author", "title", "booktitle", "year", "editor", "volume", "number", "series", "pages", "address", "month", "organization", "publisher", "note", "key", 0},
  {"title", "author", "organization", "address", "edition", "year", "publisher", "note", "key", 0},
  {"author", "title", "school", "year", "type", "address", "month", "note", "key", 0},
  {"author", "title", "howpublished", "month", "year", "note", "key", 0},
  {"author", "title", "school", "year", "type", "address", "month", "note", "key", 0},
  {"title", "year", "editor", "volume", "number", "series", "address", "month", "organization", "publisher", "note", "key", 0},
  {"author", "title", "institution", "year", "type", "number", "address", "month", "note", "key", 0},
  {"author", "title", "note", "year", "month", "key", 0}};
static const char *const allFields[27] = {"address", "annote", "author", "booktitle", "chapter", "crossref", "edition", "editor", "eprint", "howpublished", "institution", "journal", "key", "month", "note", "number", "organization", "pages", "publisher", "school", "series", "title", "type", "url", "doi", "volume", "year"};
namespace {
std::string text() {
  static const char *w[] = {"Yee", "{C}++", "AP-14", "302--307", "and", "Maxwell's", "grid", "solution of", "1966", "Proc.", "a,b", "x=y", "``fast''", "{\\'e}tude", "\\emph{very} short", "@home"}; std::string s; int n = PR(1, PP(0.05) ? 40 : 4); for (int i = 0; i < n; ++i) s += (i ? " " : "") + std::string(w[P(16)]); return s;
}
std::string value() { return PP(0.35) ? "" : text(); }
std::string squeeze(const std::string &s) { std::string r; for (char c : s) if (!isspace((unsigned char)c)) r += c; return r; }
typedef std::map<std::string, std::string> Fields;
struct Entry { std::string kind; Fields f; bool operator==(const Entry &e) const { return kind == e.kind && f == e.f; } };
struct Expect { bool sure = false; std::vector<Entry> content; std::set<int> descs, maybe; }; // content: what the entry may be
std::map<std::string, Expect> expect(const LitPlan &p, const LitOut &o, size_t n) {
  std::map<std::string, Expect> m;
  for (size_t i = 0; i < n; ++i) { const Act &a = o.log[i].first; const RefDef &d = p.refs[a.ref]; Expect &e = m[d.key]; bool done = o.log[i].second.done; if (done) { if (!e.sure) e.content.push_back({d.kind, d.fields}); e.sure = true; e.descs.insert(a.desc); e.maybe.erase(a.desc); } else { if (!e.sure) e.content.push_back({d.kind, d.fields}); if (!e.descs.count(a.desc)) e.maybe.insert(a.desc); } }
  return m;
}
std::string slurp(const std::string &path) { long n = sim_disk_size(path.c_str()); if (n < 0) sim_fail("missing-file", "the file %s does not exist", path.c_str()); std::string s(n, 0); sim_disk_get(path.c_str(), 0, &s[0], n); return s; }
// a BibTeX file as key -> entry
void bib(const std::string &path, const std::string &t, std::map<std::string, Entry> &r) {
  size_t i = 0; auto ws = [&] { while (i < t.size() && isspace((unsigned char)t[i])) ++i; }; auto bad = [&](const char *w) { sim_fail("malformed-bib", "%s is not a BibTeX file: %s at byte %zu", path.c_str(), w, i); }; auto word = [&] { std::string s; while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_' || t[i] == ':' || t[i] == '-')) s += t[i++]; return s; };
  for (ws(); i < t.size(); ws()) {
    if (t[i++] != '@') bad("@ expected"); Entry e; e.kind = word(); ws(); if (i >= t.size() || t[i++] != '{') bad("{ expected"); ws(); std::string k = word(); ws(); if (k.empty()) bad("no key");
    for (;;) { ws(); if (i < t.size() && t[i] == ',') { ++i; ws(); } if (i >= t.size()) bad("entry not closed"); if (t[i] == '}') { ++i; break; }
      std::string n = word(); ws(); if (n.empty() || i >= t.size() || t[i++] != '=') bad("= expected"); ws(); if (i >= t.size() || t[i++] != '{') bad("{ expected"); int depth = 1; std::string v; while (i < t.size()) { if (t[i] == '{') ++depth; if (t[i] == '}' && --depth == 0) break; v += t[i++]; } if (i >= t.size()) bad("value not closed"); ++i; if (e.f.count(n)) sim_fail("bib", "entry %s in %s gives %s twice", k.c_str(), path.c_str(), n.c_str()); e.f[n] = v; ws(); if (i < t.size() && t[i] != ',' && t[i] != '}') bad(", expected"); }
    if (r.count(k)) sim_fail("bib", "%s lists %s twice", path.c_str(), k.c_str()); r[k] = e;
  }
}
void checkBib(const LitPlan &p, const LitOut &o, const Written &w) {
  std::map<std::string, Entry> got; bib(w.path, slurp(w.path), got); auto want = expect(p, o, w.nActs); const char *f = w.path.c_str();
  for (auto &x : want) { auto g = got.find(x.first); if (g == got.end()) { if (x.second.sure) sim_fail("bib", "%s does not list %s", f, x.first.c_str()); continue; }
    bool ok = false; for (auto &c : x.second.content) ok = ok || c == g->second;
    if (!ok) { const Entry &c = x.second.content.back(); if (c.kind != g->second.kind) sim_fail("bib", "%s is a %s in %s instead of a %s", x.first.c_str(), g->second.kind.c_str(), f, c.kind.c_str()); for (auto &y : c.f) { auto z = g->second.f.find(y.first); if (z == g->second.f.end()) sim_fail("bib", "%s of %s is missing from %s", y.first.c_str(), x.first.c_str(), f); if (z->second != y.second) sim_fail("bib", "%s of %s is '%s' in %s instead of '%s'", y.first.c_str(), x.first.c_str(), z->second.c_str(), f, y.second.c_str()); } for (auto &z : g->second.f) if (!c.f.count(z.first)) sim_fail("bib", "%s of %s is '%s' in %s but was never given", z.first.c_str(), x.first.c_str(), z.second.c_str(), f); } }
  for (auto &g : got) if (!want.count(g.first) && g.first != "Schmitz2018") sim_fail("bib", "%s lists %s, which was never registered", f, g.first.c_str());
  if (!got.count("Schmitz2018")) sim_fail("bib", "%s does not cite the library", f);
}
void checkTex(const LitPlan &p, const LitOut &o, const Written &w) {
  std::string t = slurp(w.path); auto want = expect(p, o, w.nActs); const char *f = w.path.c_str(); auto count = [](const std::string &s, const std::string &x) { int n = 0; for (size_t i = s.find(x); i != std::string::npos; i = s.find(x, i + 1)) ++n; return n; };
  for (const char *x : {"\\documentclass", "\\begin{document}", "\\end{document}", "\\begin{itemize}", "\\end{itemize}"}) if (count(t, x) != 1) sim_fail("malformed-tex", "%s has %d times %s", f, count(t, x), x);
  if (count(t, "\\bibliography{" + w.bib + "}") != 1) sim_fail("tex", "%s does not use the bibliography %s", f, w.bib.c_str());
  size_t a = t.find("\\begin{itemize}"), b = t.find("\\end{itemize}"); if (b < a) sim_fail("malformed-tex", "the list in %s ends before it begins", f); std::string head = t.substr(0, a), list = t.substr(a + 15, b - a - 15);
  if (head.find(w.title) == std::string::npos || head.find(w.subtitle) == std::string::npos) sim_fail("tex", "%s does not have the title", f);
  std::set<std::string> seen;
  for (size_t i = list.find("\\item"); i != std::string::npos;) {
    size_t n = list.find("\\item", i + 1); std::string it = list.substr(i + 5, n == std::string::npos ? n : n - i - 5); i = n; size_t c = it.find("\\cite{"); if (c == std::string::npos || count(it, "\\cite{") != 1) sim_fail("tex", "an item in %s has no citation or several: %s", f, it.c_str());
    size_t e = it.find('}', c); std::string k = it.substr(c + 6, e - c - 6); it.erase(c, e - c + 1); if (!seen.insert(k).second) sim_fail("tex", "%s cites %s twice", f, k.c_str()); auto x = want.find(k); if (x == want.end()) { if (k != "Schmitz2018") sim_fail("tex", "%s cites %s, which was never registered", f, k.c_str()); continue; }
    std::string s = squeeze(it); size_t len = 0; bool own = k == "Schmitz2018"; for (size_t d = 0; d < p.descs.size(); ++d) { std::string q = squeeze(p.descs[d]); int m = count(s, q); bool must = x->second.descs.count(d), may = x->second.maybe.count(d); if (must && m != 1) sim_fail("tex", "the description '%s' appears %d times with %s in %s", p.descs[d].c_str(), m, k.c_str(), f); if (!must && m && !(may && m == 1)) sim_fail("tex", "the description '%s' appears with %s in %s", p.descs[d].c_str(), k.c_str(), f); len += m * q.size(); }
    if (!own && len != s.size()) sim_fail("tex", "the descriptions of %s in %s are mangled: %s", k.c_str(), f, it.c_str());
  }
  for (auto &x : want) if (x.second.sure && !seen.count(x.first)) sim_fail("tex", "%s does not cite %s", f, x.first.c_str()); if (!seen.count("Schmitz2018")) sim_fail("tex", "%s does not cite the library", f);
}
Act mkAct(LitPlan &p) { Act a; a.ref = P(p.refs.size()); a.desc = P(p.descs.size()); a.copy = PP(0.4); if (FP(0.12)) { a.fail = F(12); a.retry = FP(0.6); } return a; }
void tree(std::string &t, int &n, int depth, int max) { int k = depth == 0 ? PR(0, 5) : depth < 3 ? P(3) : 0; for (int i = 0; i < k && n < max; ++i) { int id = n++; t += "node b" + std::to_string(id) + " {\n id = " + std::to_string(id) + ";\n"; tree(t, n, depth + 1, max); t += "}\n"; } }
}
extern "C" void sim_rank_main(int, void *shared) { MPI_Init(nullptr, nullptr); litMain(*(LitPlan*)shared); sim_heap_check(); MPI_Finalize(); }
extern "C" void sim_director(const char *, int tier) {
  sim_disk_clear(); LitPlan p; p.nranks = PP(0.6) ? 1 : PR(2, 4); p.out.resize(p.nranks);
  int nr = PR(1, tier ? 16 : 9), nd = PR(1, 9); static const char *stem[] = {"Yee1966", "Yee1966b", "Schmitz2018b", "a", "Z_1", "Smith:2001", "K-9", "Boris", "boris"};
  for (int i = 0; i < nr; ++i) {
    RefDef d; if (i && PP(0.15)) { d = p.refs[P(i)]; if (PP(0.5)) { p.refs.push_back(d); continue; } } else d.key = PP(0.02) ? "Schmitz2018" : stem[P(9)] + (PP(0.4) ? std::to_string(P(12)) : ""); d.arg.clear(); d.extra.clear(); d.fields.clear();
    d.type = P(14); if (d.type < 13) { d.kind = kindNames[d.type]; for (int k = 0; argNames[d.type][k]; ++k) { std::string v = value(); d.arg.push_back(v); if (!v.empty()) d.fields[argNames[d.type][k]] = v; } } else { d.base = P(13); d.kind = kindNames[d.base]; }
    int ne = d.type == 13 ? PR(1, 14) : PP(0.5) ? PR(1, 3) : 0; for (int k = 0; k < ne; ++k) { std::string n = allFields[P(27)], v = PP(0.1) ? "" : text(); d.extra.push_back({n, v}); if (v.empty()) d.fields.erase(n); else d.fields[n] = v; }
    if (d.key == "Schmitz2018") { d.key = "Schmitz2018c"; } p.refs.push_back(d);
  }
  for (int i = 0; i < nd; ++i) p.descs.push_back("Method (" + std::to_string(i) + ") " + text() + "."); p.descs.back() += PP(0.1) ? " It uses a second line\nof text." : "";
  int n = 1; std::string t = "id = 0;\n"; tree(t, n, 0, 12); p.acts.resize(n); int total = 0; for (auto &b : p.acts) { b.resize(4); for (auto &ph : b) { int k = PP(0.45) ? PR(1, 3) : 0; while (k--) { ph.push_back(mkAct(p)); ++total; } } }
  int nl = PR(2, 8); for (int i = 0; i < nl; ++i) { Step s; s.op = PP(0.3) ? ST_ADD : PP(0.15) ? ST_TITLE : PP(0.5) ? ST_BIB : ST_TEX; s.a = mkAct(p); s.s = s.op == ST_TITLE ? "Title " + text() : std::string("refs") + std::to_string(P(3)); s.t = "Sub " + text(); p.late.push_back(s); }
  for (int op : {ST_BIB, ST_TEX}) { Step s; s.op = op; s.s = "references"; p.late.push_back(s); }
  int nf = FP(0.4) ? 1 + F(3) : 0; for (int i = 0; i < nf; ++i) { static const int k[] = {DF_OPEN, DF_WRITE, DF_SHORT, DF_CLOSE, DF_EINTR}; int q = k[F(5)]; sim_disk_fault(q, (q == DF_OPEN ? p.nranks : 0) + F(6 * p.nranks)); }
  sim_disk_put("/sim/deck", t.data(), t.size()); sim_note("%s", t.c_str()); for (auto &d : p.refs) sim_note("%s %s %d", d.key.c_str(), d.kind.c_str(), d.type); sim_sample("%d processes, %d blocks, %zu references, %d registrations, %zu later steps", p.nranks, n, p.refs.size(), total, p.late.size());
  int rc = sim_launch(p.nranks, 0, &p); if (rc != JOB_OK) sim_fail("abnormal-end", "process %d ended abnormally: %s", sim_job_reason_rank(), sim_job_reason());
  int judged = 0;
  for (int i = 0; i < p.nranks; ++i) {
    LitOut &o = p.out[i]; if (!o.finished) sim_harness_error("process %d did not finish", i); if (!o.error.empty()) { if (sim_disk_hard_fired() && o.log.empty()) { sim_probe("setup-file-unreadable"); continue; } sim_fail("error", "process %d failed: %s", i, o.error.c_str()); }
    size_t k = 0; auto next = [&](const Act &a) { if (k >= o.log.size() || o.log[k].first.ref != a.ref || o.log[k].first.desc != a.desc) sim_harness_error("the history of process %d differs from the plan", i); ActOut &r = o.log[k++].second; if (r.failed && !r.done) sim_probe("registration-given-up"); if (a.retry && !r.done) sim_fail("registration", "a registration cannot be repeated after it has failed"); };
    for (int ph = 0; ph < 4; ++ph) for (auto &b : p.acts) for (auto &a : b[ph]) next(a); for (auto &s : p.late) if (s.op == ST_ADD) next(s.a);
    for (auto &w : o.files) { if (!w.ok) sim_fail("no-progress", "%s could not be written although the disk works again", w.path.c_str()); if (w.tries > 1) sim_probe("write-repeated"); if (w.tex) checkTex(p, o, w); else checkBib(p, o, w); ++judged; }
  }
  if (judged && total > 1) sim_nontrivial();
}
