// References: blocks register the publications behind the methods they use; the program writes them out.
#pragma once
#include "common.hpp"
#include <map>
#include <set>
namespace wl {
enum { T_BASE = 13 };
struct RefDef { std::string key; int type = 0, base = 0; std::vector<std::string> arg; std::vector<std::pair<std::string, std::string>> extra; std::map<std::string, std::string> fields; std::string kind; };
struct Act { int ref = 0, desc = 0; long fail = -1; bool retry = true, copy = false; };
struct ActOut { bool failed = false, done = false; };
enum { ST_ADD = 0, ST_BIB, ST_TEX, ST_TITLE };
struct Step { int op = ST_ADD; Act a; std::string s, t; };
struct Written { std::string path; bool ok = false; int tries = 0; size_t nActs = 0; std::string title, subtitle, bib; bool tex = false; };
struct LitOut { std::vector<std::pair<Act, ActOut>> log; std::vector<Written> files; std::string error; bool finished = false; };
struct LitPlan { int nranks = 1; std::vector<RefDef> refs; std::vector<std::string> descs; std::vector<std::vector<std::vector<Act>>> acts; /* block, phase */ std::vector<Step> late; std::vector<LitOut> out; };
extern const char *const argNames[13][18]; extern const char *const kindNames[13];
void litMain(LitPlan &p);
} // namespace wl
