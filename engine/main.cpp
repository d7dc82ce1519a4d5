#include <signal.h>
#include <sys/prctl.h>
#include <signal.h>
// symex MODULE.bc JOBS OUT [-j N]
// JOBS: one job per line: name<TAB>entry<TAB>seconds<TAB>key=value,key=value...
// A first line "init<TAB>function" is executed once before all jobs.
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <sstream>

#include "exec.h"

static double nowS() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string js(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> v;
  std::string x;
  std::stringstream ss(s);
  while (std::getline(ss, x, c)) v.push_back(x);
  return v;
}
static std::string report(const std::string& name, Engine& E, double secs, const std::string& extra) {
  std::stringstream o;
  auto& st = E.S.st;
  o << "{\"job\":" << js(name) << ",\"incomplete\":" << (E.incomplete ? "true" : "false") << ",\"why\":" << js(E.incompleteWhy)
    << ",\"seconds\":" << secs << ",\"steps\":" << st.steps << ",\"paths\":" << st.paths << ",\"forks\":" << st.forks
    << ",\"merges\":" << st.merges << ",\"merge_fail\":" << st.mergeFail << ",\"z3_checks\":" << st.z3_checks
    << ",\"z3_sat\":" << st.z3_sat << ",\"z3_unsat\":" << st.z3_unsat << ",\"z3_unknown\":" << st.z3_unknown
    << ",\"z3_time\":" << st.z3_time << ",\"vc_total\":" << st.vc_total << ",\"vc_const\":" << st.vc_const << ",\"vc_z3\":" << st.vc_z3
    << ",\"bdd_only\":" << st.bddOnly << ",\"bdd_nodes\":" << E.S.bdd.n.size() << ",\"opaque\":" << st.opaque << ",\"inputs\":" << E.S.invars.size();
  long bitsn = 0;
  for (auto& v : E.S.invars) bitsn += v.w;
  o << ",\"input_bits\":" << bitsn;
  o << ",\"retval\":" << E.retval.c;
  o << ",\"checks\":{";
  bool f = true;
  for (auto& c : E.checks) { o << (f ? "" : ",") << js(c.first) << ":[" << c.second.first << "," << c.second.second << "]"; f = false; }
  o << "},\"reach\":{";
  f = true;
  for (auto& c : E.reach) { o << (f ? "" : ",") << js(c.first) << ":" << c.second; f = false; }
  o << "},\"params\":{";
  f = true;
  for (auto& c : E.usedParams) { o << (f ? "" : ",") << js(c.first) << ":" << c.second; f = false; }
  o << "},\"functions\":[";
  f = true;
  for (Fn* x : E.entered) { o << (f ? "" : ",") << js(x->pretty); f = false; }
  o << "],\"candidates\":[";
  f = true;
  for (auto& c : E.cands) {
    o << (f ? "" : ",") << "{\"kind\":" << js(c.kind) << ",\"msg\":" << js(c.msg) << ",\"where\":" << js(c.where) << ",\"model\":{";
    bool g = true;
    for (auto& m : c.model) { o << (g ? "" : ",") << js(m.first) << ":" << m.second; g = false; }
    o << "}}";
    f = false;
  }
  o << "],\"samples\":[";
  f = true;
  for (auto& c : E.samples) {
    o << (f ? "" : ",") << "{\"reach\":" << js(c.msg) << ",\"model\":{";
    bool g = true;
    for (auto& m : c.model) { o << (g ? "" : ",") << js(m.first) << ":" << m.second; g = false; }
    o << "}}";
    f = false;
  }
  o << "]" << extra << "}\n";
  return o.str();
}
static Engine* gE;
int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: symex module jobs out [-j N]\n"); return 3; }
  int par = 8;
  for (int i = 4; i + 1 < argc; i++) if (std::string(argv[i]) == "-j") par = atoi(argv[i + 1]);
  Module* M = loadModule(argv[1]);
  std::ifstream jf(argv[2]);
  std::string line, initFn;
  struct Job { std::string name, entry, params; double secs; };
  std::vector<Job> jobs;
  while (std::getline(jf, line)) {
    auto p = split(line, '\t');
    if (p.size() >= 2 && p[0] == "init") { initFn = p[1]; continue; }
    if (p.size() < 3) continue;
    jobs.push_back({p[0], p[1], p.size() > 3 ? p[3] : "", atof(p[2].c_str())});
  }
  Engine* E = new Engine;
  gE = E;
  E->M = M;
  State st = E->initState(), st0 = st;
  double t0 = nowS();
  FILE* out = fopen(argv[3], "w");
  auto runFn = [&](const std::string& n) {
    auto it = M->byName.find(n);
    if (it == M->byName.end() || it->second->decl) { fprintf(stderr, "engine: no function %s\n", n.c_str()); exit(3); }
    State fin;
    E->run(st, it->second, {}, true, &fin);
    if (E->incomplete || !E->cands.empty()) {
      fputs(report("init", *E, nowS() - t0, "").c_str(), out);
      fclose(out);
      exit(0);
    }
    st = fin;
  };
  E->maxCands = 1;
  for (auto& c : M->ctors) runFn(c);
  if (!initFn.empty()) runFn(initFn);
  E->maxCands = 4;
  u64 ver = 1u << 20;
  for (auto& o : st.g) o.mut()->ver = ver++;
  for (auto& o : st.heap) if (o) o.mut()->ver = ver++;
  E->heapFloor = st.heap.size();
  fputs(report("init", *E, nowS() - t0, "").c_str(), out);
  fflush(out);
  E->entered.clear();
  for (auto& f : M->fns) f->calls = 0;
  E->S.st = Stats();
  E->S.st.steps = 0;
  // largest time budget first
  std::map<pid_t, size_t> running;
  std::vector<std::string> files(jobs.size());
  size_t next = 0, done = 0;
  while (done < jobs.size()) {
    while (next < jobs.size() && (int)running.size() < par) {
      size_t k = next++;
      files[k] = std::string(argv[3]) + ".job" + std::to_string(k);
      pid_t p = fork();
      if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL);
        Job& J = jobs[k];
        double s0 = nowS();
        E->deadline = s0 + J.secs;
        signal(SIGALRM, [](int) {
          fprintf(stderr, "[timeout in %s: op%d/%d w%d]\n", gE->curWhere().c_str(), gE->curI ? gE->curI->op : 0, gE->curI ? gE->curI->sub : 0, gE->curI ? gE->curI->w : 0);
          _exit(14);
        });
        alarm((unsigned)(J.secs * 1.15 + 5));
        for (auto& kv : split(J.params, ',')) {
          size_t q = kv.find('=');
          if (q == std::string::npos) continue;
          std::string key = kv.substr(0, q);
          u64 val = strtoull(kv.substr(q + 1).c_str(), nullptr, 0);
          if (key == "@z3ms") E->S.z3_timeout_ms = val;
          else if (key == "@cutdiv") E->S.cutdiv = val;
          else if (key == "@opcap") E->S.opcap = val;
          else if (key == "@loadcap") E->S.loadcap = val;
          else if (key == "@nodes") E->maxNodes = val;
          else if (key == "@seed") E->rng = val * 0x9E3779B97F4A7C15ull + 1;
          else if (key == "@samples") E->maxSamples = val;
          else if (key == "@confirm") E->confirmBudget = val;
          else if (key == "@split") E->splitK = val;
          else if (key == "@workers") E->splitW = val;
          else if (key == "@cands") E->maxCands = val;
          else if (key == "@memgb") { rlimit rl{val << 30, val << 30}; setrlimit(RLIMIT_AS, &rl); }
          else if (key == "@atomics") E->maxAtomics = val;
          else if (key == "@record") E->record = val;
          else if (key == "@concrete") E->concreteMode = val;
          else if (key[0] == '=') E->values[key.substr(1)] = val;
          else E->params[key] = val;
        }
        auto it = M->byName.find(J.entry);
        if (it == M->byName.end()) { E->incomplete = true; E->incompleteWhy = "no function " + J.entry; }
        else E->run(st, it->second, {}, E->record, nullptr);
        std::stringstream ex;
        if (E->record) {
          ex << ",\"events\":[";
          bool f1 = true;
          for (auto& s : E->finals) {
            ex << (f1 ? "" : ",") << "{\"ev\":[";
            f1 = false;
            bool f2 = true;
            for (auto& e : s.events) {
              ex << (f2 ? "" : ",") << "[";
              f2 = false;
              for (int i = 0; i < 5; i++) {
                ex << (i ? "," : "");
                if (e[i].conc()) ex << e[i].c;
                else {
                  // name of the input variable
                  std::string nm = "?";
                  for (size_t q = 0; q < E->S.invars.size(); q++) if (!e[i].conc() && E->S.bdd.var(e[i].t->b[0]) == E->S.invars[q].bitvar[0]) nm = E->S.invars[q].name;
                  ex << js(nm);
                }
              }
              ex << "]";
            }
            ex << "],\"vals\":{";
            // every atomic value on the path, enumerated
            bool f3 = true;
            for (size_t q = 0; q < E->S.invars.size(); q++) {
              B b[64];
              for (int i = 0; i < E->S.invars[q].w; i++) b[i] = E->S.bdd.varB(E->S.invars[q].bitvar[i]);
              std::vector<std::pair<u64, B>> vals;
              E->S.enumVals(E->S.mkBits(b, E->S.invars[q].w), E->S.invars[q].w, s.pc, 300, vals);
              ex << (f3 ? "" : ",") << js(E->S.invars[q].name) << ":[";
              f3 = false;
              for (size_t i = 0; i < vals.size(); i++) ex << (i ? "," : "") << vals[i].first;
              ex << "]";
            }
            ex << "}}";
          }
          ex << "],\"heap_floor\":" << (H0 + E->heapFloor) << ",\"initial\":{";
          std::set<u64> at;
          for (auto& s : E->finals) for (auto& e : s.events) if (e[0].c < 10) at.insert(e[1].c);
          f1 = true;
          for (u64 a : at) {
            Val v = E->loadBytes(&st0, E->robj(&st0, a >> SLOT), (a & ((1ull << SLOT) - 1)) - OFF0, 1);
            ex << (f1 ? "" : ",") << js(std::to_string(a)) << ":" << (v.conc() ? std::to_string(v.c) : "null");
            f1 = false;
          }
          ex << "},\"names\":{";
          f1 = true;
          std::set<u64> sl;
          for (auto& s : E->finals) for (auto& e : s.events) sl.insert(e[0].c < 10 ? e[1].c >> SLOT : e[1].c);
          for (u64 a : sl) if (E->gName.size() > a) { ex << (f1 ? "" : ",") << js(std::to_string(a)) << ":" << js(E->gName[a]); f1 = false; }
          ex << "}";
        }
        std::string rep = report(J.name, *E, nowS() - s0, ex.str());
        if (E->splitId) {
          FILE* f = fopen((files[k] + "." + std::to_string(E->splitId)).c_str(), "w");
          fputs(rep.c_str(), f);
          fclose(f);
          _exit(0);
        }
        alarm(0);
        for (size_t i = 0; i < E->kids.size(); i++) {
          int ws;
          waitpid(E->kids[i], &ws, 0);
          std::string fn = files[k] + "." + std::to_string(i + 1);
          std::ifstream cf(fn);
          std::string t((std::istreambuf_iterator<char>(cf)), {});
          if (t.empty()) t = "{\"job\":" + js(J.name) + ",\"incomplete\":true,\"why\":\"engine process ended (status " + std::to_string(ws) + ")\",\"candidates\":[],\"crash\":true}\n";
          rep += t;
          unlink(fn.c_str());
        }
        FILE* f = fopen(files[k].c_str(), "w");
        fputs(rep.c_str(), f);
        fclose(f);
        _exit(0);
      }
      running[p] = k;
    }
    int ws;
    pid_t p = wait(&ws);
    if (p < 0) break;
    auto it = running.find(p);
    if (it == running.end()) continue;
    size_t k = it->second;
    running.erase(it);
    done++;
    std::ifstream f(files[k]);
    std::string txt((std::istreambuf_iterator<char>(f)), {});
    if (txt.empty()) txt = "{\"job\":" + js(jobs[k].name) + ",\"incomplete\":true,\"why\":\"engine process ended (status " + std::to_string(ws) + ")\",\"candidates\":[],\"crash\":true}\n";
    fputs(txt.c_str(), out);
    fflush(out);
    unlink(files[k].c_str());
  }
  fclose(out);
  return 0;
}
