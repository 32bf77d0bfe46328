#include "engine.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>
using namespace vp;
int main(int argc, char** argv) {
  struct rlimit rl { 512u << 20, RLIM_INFINITY };
  (void)rl;
  Engine* E = new Engine();
  std::string bc, out = "/dev/null", entry = "vp_main";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "-o") out = next();
    else if (a == "-p") { std::string s = next(); auto e = s.find('='); E->cfg.params[s.substr(0, e)] = strtoull(s.c_str() + e + 1, nullptr, 0); }
    else if (a == "-e") entry = next();
    else if (a == "-v") E->cfg.verbose = true;
    else if (a == "-d") E->S.debug = true;
    else if (a == "--no-merge") E->cfg.merge = false;
    else if (a == "--no-merge-at") E->cfg.noMerge = next();
    else if (a == "--secs") E->cfg.maxSecs = atof(argv[++i]);
    else if (a == "--inc-ms") E->S.tIncMs = atoi(argv[++i]);
    else if (a == "--full-ms") E->S.tFullMs = atoi(argv[++i]);
    else if (a == "--max-viol") E->cfg.maxViolations = atoi(argv[++i]);
    else if (a == "--scratch") E->S.scratch = next();
    else if (a == "--norm") E->cfg.norm = true;
    else if (a == "--uf-mul") ufMul = true;
    else if (a == "--qfbv") E->S.qfbv = true;
    else if (a == "--dump") E->S.dumpDir = next();
    else if (a == "--repo") E->cfg.repoPrefix = next();
    else if (a == "--replay") {
      E->cfg.concrete = true;
      std::ifstream f(next());
      std::string l;
      while (std::getline(f, l)) {
        std::istringstream ls(l);
        std::string n, h;
        ls >> n >> h;
        if (n.empty() || n[0] == '#') continue;
        E->cfg.replay.push_back({n, h});
      }
    } else bc = a;
  }
  E->S.deadline = std::chrono::steady_clock::now() + std::chrono::seconds((long)E->cfg.maxSecs);
  E->load(bc);
  E->run(entry);
  E->writeResult(out);
  if (E->cfg.verbose) {
    fprintf(stderr, "paths=%llu forks=%llu merges=%llu mfail=%llu steps=%llu queries=%llu solver=%.1fs viol=%zu inconclusive=%zu asserts=%llu(trivial %llu)\n",
            (unsigned long long)E->paths, (unsigned long long)E->forks, (unsigned long long)E->merges, (unsigned long long)E->mergeFails,
            (unsigned long long)E->totalSteps, (unsigned long long)E->S.st.queries, E->S.st.secs, E->violations.size(), E->inconclusive.size(),
            (unsigned long long)E->assertsTotal, (unsigned long long)E->assertsTrivial);
    for (auto& s : E->inconclusive) fprintf(stderr, "  inconclusive: %s\n", s.c_str());
    for (auto& c : E->covers) fprintf(stderr, "  cover %s: %llu\n", c.first.c_str(), (unsigned long long)c.second);
    std::vector<std::pair<uint64_t, std::string>> fsn;
    for (auto& c : E->forkSites) fsn.push_back({c.second, c.first});
    std::sort(fsn.rbegin(), fsn.rend());
    for (size_t i = 0; i < fsn.size() && i < 8; i++) fprintf(stderr, "  forks %llu at %s\n", (unsigned long long)fsn[i].first, fsn[i].second.c_str());
  }
  fflush(stdout);
  _exit(0);
}
