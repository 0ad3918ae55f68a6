// Campaign driver: seeded search over simulated runs, minimisation, replay, evidence.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <algorithm>
#include <sys/personality.h>
using namespace sim;

namespace {
double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
template<class T> T *shared(size_t n = 1) { void *p = mmap(0, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return (T*)p; }

struct Totals { long runs, nontrivial, harness, jobs, known; double simtime; long steps; Named faults[MAXNAMES], probes[MAXNAMES]; int stop; long first_bad; char sample[4][600]; char samplehash[4][20]; int nsample; char hmsg[600]; int maxranks; long rankhist[32]; char knowncls[16][96]; char knownmsg[16][600]; long knownn[16]; };

std::vector<std::pair<std::string,std::string>> known; // (class, substring of message)

// Execute one run in a child process; the result is left in *r.
void run_once(const Config &c, RunResult *r) {
  r->status = 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { r->status = 3; snprintf(r->msg, sizeof r->msg, "fork: %s", strerror(errno)); return; }
  if (p == 0) execute_run(c, r);
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (r->status == 0) { r->status = 3; snprintf(r->msg, sizeof r->msg, "the run ended without a verdict (wait status 0x%x)", st); }
}
int match_known(const RunResult *r) { for (size_t i = 0; i < known.size(); ++i) if (known[i].first == r->cls && strstr(r->msg, known[i].second.c_str())) return i; return -1; }
uint64_t seed_of(uint64_t base, const std::string &prop, long i) {
  uint64_t h = 1469598103934665603ull; for (char c : prop) h = (h ^ (unsigned char)c) * 0x100000001b3ull;
  h ^= base * 0x9E3779B97F4A7C15ull; h = (h ^ (uint64_t)i) * 0xBF58476D1CE4E5B9ull; h ^= h >> 31; return h & 0xffffffffffffull;
}
std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

void take(const RunResult *r, Config &c) { c.replay = true; for (int s = 0; s < SIM_NSTREAMS; ++s) c.rec[s].assign(r->rec[s], r->rec[s] + r->nrec[s]); }
size_t weight(const Config &c) { size_t w = 0; for (auto &v : c.rec) { w += v.size() * 16; for (auto x : v) w += x ? 4 + (x > 8) + (x > 64) : 0; } return w; }

// Shrink the recorded choices while the same class of violation persists.
struct Shrinker {
  Config best; std::string cls; RunResult *r; long tries = 0, max; double deadline; int kn;
  std::vector<RunResult*> pool;
  bool test(Config &c) { // adopts the consumed prefix of each stream
    ++tries; run_once(c, r);
    if (r->status == 2 && cls == r->cls && match_known(r) < 0) { Config n = c; take(r, n); while (!n.rec[1].empty() && n.rec[1].back() == 0) n.rec[1].pop_back(); for (int s : {0, 2}) while (!n.rec[s].empty() && n.rec[s].back() == 0) n.rec[s].pop_back(); if (weight(n) < weight(best)) { best = n; return true; } }
    return false;
  }
  bool go() { return tries < max && wall() < deadline; }
  void run() {
    bool any = true;
    { Config c = best; c.rec[1].clear(); test(c); }
    { Config c = best; c.rec[2].clear(); test(c); }
    while (any && go()) {
      any = false;
      for (int s : {2, 0, 1}) {
        // drop chunks
        for (size_t len = std::max<size_t>(1, best.rec[s].size() / 2); len >= 1 && go(); len /= 2) {
          for (size_t i = 0; i + len <= best.rec[s].size() && go();) { Config c = best; c.rec[s].erase(c.rec[s].begin() + i, c.rec[s].begin() + i + len); if (test(c)) any = true; else i += len; }
          if (len == 1) break;
        }
        // zero chunks
        for (size_t len = std::max<size_t>(1, best.rec[s].size() / 4); len >= 1 && go(); len /= 4) {
          for (size_t i = 0; i < best.rec[s].size() && go(); i += len) { Config c = best; bool ch = false; for (size_t k = i; k < i + len && k < c.rec[s].size(); ++k) if (c.rec[s][k]) { c.rec[s][k] = 0; ch = true; } if (ch && test(c)) any = true; }
          if (len == 1) break;
        }
        // lower single values
        for (size_t i = 0; i < best.rec[s].size() && go(); ++i) {
          if (s == 1 && best.rec[s].size() > 200) break;
          for (int k = 0; k < 6 && i < best.rec[s].size() && best.rec[s][i] > 0 && go(); ++k) { Config c = best; c.rec[s][i] = k == 0 ? 1 : k & 1 ? c.rec[s][i] / 2 : c.rec[s][i] - 1; if (c.rec[s][i] >= best.rec[s][i]) continue; if (test(c)) any = true; else if (k > 2) break; }
        }
      }
    }
  }
};

bool write_replay(const std::string &path, const Config &c, const RunResult *r, const std::string &trace_file) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) return false;
  fprintf(f, "schnek-sim-replay 1\nproperty %s\ntier %d\nseed %llu\nclass %s\nhash %016llx\n", c.property.c_str(), c.tier, (unsigned long long)c.seed, r->cls, (unsigned long long)r->hash);
  static const char *sn[] = {"plan", "schedule", "fault", "data"};
  for (int s = 0; s < SIM_NSTREAMS; ++s) { fprintf(f, "stream %s %zu", sn[s], c.rec[s].size()); for (auto v : c.rec[s]) fprintf(f, " %u", v); fprintf(f, "\n"); }
  std::string m = r->msg; for (auto &ch : m) if (ch == '\n') ch = ' ';
  fprintf(f, "message %s\n--- trace of the minimised run (schedule, messages, faults) ---\n", m.c_str());
  if (FILE *t = fopen(trace_file.c_str(), "r")) { char b[4096]; long tot = 0; while (fgets(b, sizeof b, t) && tot < 400000) { fputs(b, f); tot += strlen(b); } fclose(t); unlink(trace_file.c_str()); }
  fclose(f); return true;
}
bool read_replay(const std::string &path, Config &c, std::string &cls, uint64_t &hash) {
  FILE *f = fopen(path.c_str(), "r"); if (!f) return false; char *line = 0; size_t cap = 0; bool ok = false;
  while (getline(&line, &cap, f) > 0) {
    char *nl = strchr(line, '\n'); if (nl) *nl = 0; unsigned long long u; int d;
    if (!strncmp(line, "schnek-sim-replay", 17)) ok = true; else if (!strncmp(line, "property ", 9)) c.property = line + 9; else if (sscanf(line, "tier %d", &d) == 1) c.tier = d; else if (sscanf(line, "seed %llu", &u) == 1) c.seed = u;
    else if (!strncmp(line, "class ", 6)) cls = line + 6; else if (sscanf(line, "hash %llx", &u) == 1) hash = u;
    else if (!strncmp(line, "stream ", 7)) { char *p = line + 7; int s = !strncmp(p, "plan", 4) ? 0 : !strncmp(p, "sched", 5) ? 1 : !strncmp(p, "fault", 5) ? 2 : 3; p = strchr(p, ' '); long n = strtol(p, &p, 10); for (long i = 0; i < n; ++i) c.rec[s].push_back(strtoul(p, &p, 10)); }
    else if (!strncmp(line, "---", 3)) break;
  }
  free(line); fclose(f); c.replay = true; return ok;
}
void merge(Named *a, const Named *b) { for (int i = 0; i < MAXNAMES && b[i].name[0]; ++i) bump(a, b[i].name, b[i].n); }
} // namespace

int main(int argc, char **argv) {
  in_host = 1;
  // addresses must not differ between executions
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR") && personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_ASLR", "off", 1); execv("/proc/self/exe", argv); }
  unsetenv("SIM_ASLR");
  std::string prop, so, mode = "check", out = ".", replay_file, known_file, extra_json; long runs = 1000; double budget = 60; uint64_t base = 1; int tier = 0, workers = 8, images = 40; long from = 0; bool det = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = nx(); else if (a == "--so") so = nx(); else if (a == "--runs") runs = atol(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--seed") base = strtoull(nx().c_str(), 0, 10);
    else if (a == "--tier") tier = nx() == "thorough"; else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--images") images = atoi(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay") { mode = "replay"; replay_file = nx(); } else if (a == "--known") known_file = nx(); else if (a == "--meta") extra_json = nx(); else if (a == "--from") from = atol(nx().c_str());
    else if (a == "--determinism") det = true; else if (a == "--one") { mode = "one"; from = atol(nx().c_str()); }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  double t0 = wall();
  std::string err; if (!load_images(so.c_str(), images, err)) { fprintf(stderr, "cannot load the simulated program: %s\n", err.c_str()); return 2; }
  std::vector<std::string> known_desc;
  if (!known_file.empty()) if (FILE *f = fopen(known_file.c_str(), "r")) { // known: property=<id> class=<cls> match=<substring> :: description
    char *line = 0; size_t cap = 0; while (getline(&line, &cap, f) > 0) { std::string l = line; while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); if (l.compare(0, 6, "known:")) continue; if (l.find("property=" + prop + " ") == std::string::npos) continue; auto g = [&](const char *k) { size_t p = l.find(k); if (p == std::string::npos) return std::string(); p += strlen(k); size_t e = l.find(" ", p); std::string v = l.substr(p, e - p); for (auto &c : v) if (c == '~') c = ' '; return v; }; known.push_back({g("class="), g("match=")}); size_t d = l.find(":: "); known_desc.push_back(d == std::string::npos ? l : l.substr(d + 3)); } free(line); fclose(f); }

  RunResult *rr = shared<RunResult>();
  if (mode == "replay") {
    Config c; std::string cls; uint64_t hash = 0; if (!read_replay(replay_file, c, cls, hash)) { fprintf(stderr, "cannot read %s\n", replay_file.c_str()); return 2; }
    if (getenv("SIM_TRACE")) c.trace_path = getenv("SIM_TRACE");
    run_once(c, rr);
    if (rr->status == 3) { fprintf(stderr, "harness error: %s\n", rr->msg); return 2; }
    if (rr->status == 2) { bool same = cls == rr->cls && (hash == rr->hash || cls == "hang" || !strncmp(rr->cls, "signal", 6)); printf("replayed: %s: %s\nidentical execution: %s\n", rr->cls, rr->msg, same ? "yes" : "no"); if (same) printf("VIOLATION property=%s replay=%s\n", c.property.c_str(), replay_file.c_str()); return same ? 1 : 4; }
    printf("replayed: the property held\n"); return 0;
  }
  if (mode == "one") {
    Config c; c.property = prop; c.tier = tier; c.seed = seed_of(base, prop, from); c.trace_path = getenv("SIM_TRACE") ? getenv("SIM_TRACE") : "";
    run_once(c, rr); printf("run %ld seed %llu status %d %s %s\nhash %016llx steps %ld sample %s\n", from, (unsigned long long)c.seed, rr->status, rr->cls, rr->msg, (unsigned long long)rr->hash, rr->steps, rr->sample); return rr->status == 1 ? 0 : 1;
  }

  // ---------------------------------------------------------------- campaign
  struct Slot { Totals t; }; Slot *slots = shared<Slot>(workers); RunResult *wres = shared<RunResult>(workers);
  uint64_t *hashes = shared<uint64_t>(runs), *full = shared<uint64_t>(runs); volatile int *stop = shared<int>(); long *firstbad = shared<long>(); *firstbad = -1;
  std::vector<pid_t> pids; double deadline = t0 + budget;
  for (int w = 0; w < workers; ++w) {
    fflush(stdout); pid_t p = fork();
    if (p == 0) {
      Totals &t = slots[w].t; RunResult *r = &wres[w]; t.first_bad = -1;
      for (long i = w; i < runs && !*stop && wall() < deadline; i += workers) {
        Config c; c.property = prop; c.tier = tier; c.seed = seed_of(base, prop, from + i);
        run_once(c, r); ++t.runs; t.jobs += r->jobs; t.simtime += r->simtime; t.steps += r->steps; if (r->maxranks > t.maxranks) t.maxranks = r->maxranks; if (r->maxranks < 32) t.rankhist[r->maxranks]++;
        merge(t.faults, r->faults); merge(t.probes, r->probes); full[i] = r->hash;
        if (r->status == 3) { t.harness++; snprintf(t.hmsg, sizeof t.hmsg, "run %ld: %.500s", from + i, r->msg); *stop = 1; break; }
        if (r->nontrivial) { t.nontrivial++; uint64_t h = r->sched_hash * 31 + r->plan_hash; hashes[i] = h ? h : 1; if (t.nsample < 4) { snprintf(t.sample[t.nsample], 600, "%s", r->sample); snprintf(t.samplehash[t.nsample], 20, "%llu", (unsigned long long)c.seed); t.nsample++; } }
        if (det) { uint64_t h1 = r->hash; int s1 = r->status; run_once(c, r); if (r->hash != h1 || r->status != s1) { t.harness++; snprintf(t.hmsg, sizeof t.hmsg, "seed %llu is not deterministic", (unsigned long long)c.seed); *stop = 1; break; } Config k = c; take(r, k); bool fits = true; for (int s = 0; s < SIM_NSTREAMS; ++s) if (r->nrec[s] >= (uint32_t)MAXREC) fits = false; if (fits) { run_once(k, r); if (r->hash != h1) { t.harness++; snprintf(t.hmsg, sizeof t.hmsg, "seed %llu: replay of the recorded choices differs", (unsigned long long)c.seed); *stop = 1; break; } } }
        if (r->status == 2) {
          int k = match_known(r);
          if (k >= 0) { t.known++; t.knownn[k]++; continue; }
          t.first_bad = i; *stop = 1; break;
        }
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  for (auto p : pids) { int st; waitpid(p, &st, 0); }
  Totals T{}; long bad = -1; std::vector<std::pair<std::string, std::string>> samples;
  std::vector<long> kn(known.size(), 0);
  for (int w = 0; w < workers; ++w) { Totals &t = slots[w].t; T.runs += t.runs; T.nontrivial += t.nontrivial; T.harness += t.harness; T.jobs += t.jobs; T.known += t.known; T.simtime += t.simtime; T.steps += t.steps; merge(T.faults, t.faults); merge(T.probes, t.probes); if (t.maxranks > T.maxranks) T.maxranks = t.maxranks; for (int i = 0; i < 32; ++i) T.rankhist[i] += t.rankhist[i]; if (t.harness) snprintf(T.hmsg, sizeof T.hmsg, "%s", t.hmsg); if (t.runs > 0 && t.first_bad >= 0 && (bad < 0 || t.first_bad < bad)) bad = t.first_bad; for (int i = 0; i < t.nsample; ++i) samples.push_back({t.samplehash[i], t.sample[i]}); for (size_t k = 0; k < known.size() && k < 16; ++k) kn[k] += t.knownn[k]; }
  std::vector<uint64_t> hv; for (long i = 0; i < runs; ++i) if (hashes[i]) hv.push_back(hashes[i]); std::sort(hv.begin(), hv.end()); long distinct = std::unique(hv.begin(), hv.end()) - hv.begin();
  double search_s = wall() - t0; int violations = 0; int rc = 0; std::string vline;

  if (bad >= 0) {
    Config c; c.property = prop; c.tier = tier; c.seed = seed_of(base, prop, from + bad);
    run_once(c, rr); uint64_t h1 = rr->hash; std::string c1 = rr->cls; int s1 = rr->status;
    run_once(c, rr);
    bool sig = !strncmp(rr->cls, "signal", 6) || c1 == "hang";
    if (s1 != 2 || rr->status != 2 || c1 != rr->cls || (h1 != rr->hash && !sig)) { fprintf(stderr, "error: seed %llu did not repeat (status %d/%d, %s/%s)\n", (unsigned long long)c.seed, s1, rr->status, c1.c_str(), rr->cls); rc = 2; }
    else {
      std::string first_msg = rr->msg; size_t before = 0; for (int s = 0; s < SIM_NSTREAMS; ++s) before += rr->nrec[s];
      Shrinker sh; sh.best = c; bool fits = true; for (int s = 0; s < SIM_NSTREAMS; ++s) if (rr->nrec[s] >= (uint32_t)MAXREC) fits = false;
      Config m = c;
      if (fits) {
        Config k = c; take(rr, k); run_once(k, rr);
        if (rr->status == 2 && c1 == rr->cls) { sh.best = k; sh.cls = c1; sh.r = rr; sh.max = c1 == "hang" ? 12 : tier ? 6000 : 2500; sh.deadline = wall() + (c1 == "hang" ? 90 : tier ? 120 : 45); sh.run(); m = sh.best; }
      }
      mkdir(out.c_str(), 0777); char nm[400]; snprintf(nm, sizeof nm, "%s/%s-%llu.replay", out.c_str(), prop.c_str(), (unsigned long long)c.seed);
      std::string tf = std::string(nm) + ".trace"; m.trace_path = tf; run_once(m, rr); m.trace_path.clear();
      size_t after = 0; for (int s = 0; s < SIM_NSTREAMS; ++s) after += m.rec[s].size();
      write_replay(nm, m, rr, tf);
      // fresh process must reproduce it
      std::string cmd = "/proc/self/exe"; char self[4096]; ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1); self[l > 0 ? l : 0] = 0;
      fflush(stdout); pid_t p = fork(); if (p == 0) { int dn = open("/dev/null", 2); dup2(dn, 1); char im[16]; snprintf(im, sizeof im, "%d", images); execl(self, self, "--so", so.c_str(), "--images", im, "--replay", nm, (char*)0); _exit(9); }
      int st; waitpid(p, &st, 0); int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
      if (code != 1) { fprintf(stderr, "error: the replay file did not reproduce in a fresh process (code %d)\n", code); rc = 2; }
      else { violations = 1; rc = 1; printf("%s: %s\nseed %llu (run %ld); choices %zu -> %zu after %ld shrink attempts\n", rr->cls, rr->msg, (unsigned long long)c.seed, from + bad, before, after, sh.tries); printf("VIOLATION property=%s replay=%s\n", prop.c_str(), nm); }
    }
  }
  else if (T.harness) { fprintf(stderr, "error: %s\n", T.hmsg); rc = 2; }
  else if (T.runs == 0 || T.nontrivial == 0) { fprintf(stderr, "error: nothing was explored\n"); rc = 2; }
  for (size_t k = 0; k < known.size(); ++k) if (rc == 0 && kn[k]) printf("KNOWN-FINDING: property=%s %s (%ld runs)\n", prop.c_str(), known_desc[k].c_str(), kn[k]);

  // ---------------------------------------------------------------- evidence
  std::string ev = out + "/../evidence/" + prop + ".json"; if (getenv("SIM_EVIDENCE")) ev = getenv("SIM_EVIDENCE");
  std::string meta; if (FILE *f = fopen(extra_json.c_str(), "r")) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) meta.append(b, k); fclose(f); }
  if (FILE *f = fopen(ev.c_str(), "w")) {
    double w = wall() - t0; double sw = search_s > 0.01 ? search_s : 0.01;
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", prop.c_str(), tier ? "thorough" : "quick", (unsigned long long)base);
    fprintf(f, "  \"evaluations\": %ld,\n  \"distinct_nontrivial\": %ld,\n", T.runs, distinct);
    fprintf(f, "  \"nontrivial_runs\": %ld,\n  \"simulated_jobs\": %ld,\n  \"runs_per_hour\": %.0f,\n  \"simulated_seconds\": %.6f,\n  \"scheduling_steps\": %ld,\n  \"max_processes\": %d,\n", T.nontrivial, T.jobs, T.runs / sw * 3600, T.simtime, T.steps, T.maxranks);
    fprintf(f, "  \"distinct_measure\": \"hash of plan, fault and scheduling choices of a non-trivial run; one run is one seed\",\n  \"runs_by_processes\": {"); bool first = true; for (int i = 0; i < 32; ++i) if (T.rankhist[i]) { fprintf(f, "%s\"%d\": %ld", first ? "" : ", ", i, T.rankhist[i]); first = false; } fprintf(f, "},\n");
    fprintf(f, "  \"faults_injected\": {"); for (int i = 0; i < MAXNAMES && T.faults[i].name[0]; ++i) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", jesc(T.faults[i].name).c_str(), (unsigned long long)T.faults[i].n); fprintf(f, "},\n");
    fprintf(f, "  \"probes\": {"); for (int i = 0; i < MAXNAMES && T.probes[i].name[0]; ++i) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", jesc(T.probes[i].name).c_str(), (unsigned long long)T.probes[i].n); fprintf(f, "},\n");
    if (!meta.empty()) fprintf(f, "%s,\n", meta.c_str());
    fprintf(f, "  \"known_findings_hit\": %ld,\n  \"samples\": [", T.known); for (size_t i = 0; i < samples.size() && i < 5; ++i) fprintf(f, "%s{\"seed\": %s, \"case\": \"%s\"}", i ? ", " : "", samples[i].first.c_str(), jesc(samples[i].second).c_str()); fprintf(f, "]\n },\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", w, violations);
    fclose(f);
  } else { fprintf(stderr, "error: cannot write %s\n", ev.c_str()); if (rc == 0) rc = 2; }
  if (rc == 0) printf("%s: held on %ld simulated runs (%ld distinct non-trivial), %ld jobs, %ld scheduling steps, %.1f s\n", prop.c_str(), T.runs, distinct, T.jobs, T.steps, wall() - t0);
  if (det && getenv("SIM_HASHES")) if (FILE *f = fopen(getenv("SIM_HASHES"), "w")) { for (long i = 0; i < runs; ++i) fprintf(f, "%ld %016llx\n", i, (unsigned long long)full[i]); fclose(f); }
  return rc;
}
