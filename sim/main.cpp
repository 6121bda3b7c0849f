// Runner: every simulated run happens in a process forked from a pristine parent that never called the library,
// so that one (seed, index), or one plan, is one repeatable execution.
//   gen PROP SEED IDX                         prints the plan of a run
//   exec PROP FILE                            executes a plan, prints RESULT / HASH / STAT lines; exit 0
//   batch PROP SEED FROM STRIDE COUNT REPEAT OUT   executes runs FROM, FROM+STRIDE, ... (COUNT of them)
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>
#include <unordered_set>

#include "core.hpp"

namespace sim
{
static const size_t SHM = 4 << 20;
struct Shm
{
  volatile int done;
  uint64_t hash;
  size_t plan_len, text_len, nstates;
  double simtime;
  char cls[256], detail[4096];
  char plan[512 << 10];
  char text[256 << 10];
  uint64_t states[4096];
};
static_assert(sizeof(Shm) < SHM, "shm");
static Shm *shm;
static std::set<std::string> g_known;
bool is_known(const std::string &c) { return g_known.count(c) != 0; }

struct RunResult
{
  std::string cls, detail;
  Plan plan;
  uint64_t hash = 0;
  std::map<std::string, double> stat;
  std::vector<uint64_t> states;
  double simtime = 0;
};

static std::string join(const Plan &p)
{
  std::string s;
  for (auto &l : p) s += l + "\n";
  return s;
}
static Plan split(const std::string &s)
{
  Plan p;
  std::stringstream ss(s);
  std::string l;
  while (std::getline(ss, l))
    if (!l.empty() && l[0] != '#') p.push_back(l);
  return p;
}

static void child(const std::string &prop, const Plan *given, uint64_t seed, uint64_t idx)
{
  struct itimerval it = {};
  it.it_value.tv_sec = getenv("SIM_CPU") ? atoi(getenv("SIM_CPU")) : 60;
  setitimer(ITIMER_PROF, &it, nullptr);  // CPU time: a run that does not end
  alarm(300);
  Plan plan;
  if (given)
    plan = *given;
  else
  {
    Rng r(run_seed(seed, prop, idx));
    plan = gen(prop, r, idx);
  }
  std::string pt = join(plan);
  shm->plan_len = std::min(pt.size(), sizeof(shm->plan) - 1);
  memcpy(shm->plan, pt.data(), shm->plan_len);
  Out out;
  exec(prop, plan, out);
  g_alloc.disarm();
  if (!out.bad() && g_alloc.corrupt) out.viol("memory-corruption", g_alloc.corrupt);
  snprintf(shm->cls, sizeof shm->cls, "%s", out.cls.c_str());
  snprintf(shm->detail, sizeof shm->detail, "%s", out.detail.c_str());
  out.log.s(out.cls);
  out.log.s(out.detail);
  shm->hash = out.log.h;
  shm->simtime = out.simtime;
  std::string t;
  for (auto &s : out.stat) t += s.first + " " + num(s.second) + "\n";
  shm->text_len = std::min(t.size(), sizeof(shm->text) - 1);
  memcpy(shm->text, t.data(), shm->text_len);
  shm->nstates = std::min(out.states.size(), sizeof(shm->states) / 8);
  if (shm->nstates) memcpy(shm->states, out.states.data(), shm->nstates * 8);
  shm->done = 1;
  _exit(0);
}

static RunResult one(const std::string &prop, const Plan *given, uint64_t seed, uint64_t idx)
{
  memset((void *)shm, 0, offsetof(Shm, plan));
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0)
  {
    try { child(prop, given, seed, idx); }
    catch (std::exception &e) { snprintf(shm->detail, sizeof shm->detail, "escaped exception: %s", e.what()); }
    catch (...) { snprintf(shm->detail, sizeof shm->detail, "escaped exception"); }
    _exit(77);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  RunResult r;
  r.plan = given ? *given : split(std::string(shm->plan, shm->plan_len));
  if (shm->done)
  {
    r.cls = shm->cls;
    r.detail = shm->detail;
    r.hash = shm->hash;
    r.simtime = shm->simtime;
    std::stringstream ss(std::string(shm->text, shm->text_len));
    std::string k;
    double v;
    while (ss >> k >> v) r.stat[k] = v;
    r.states.assign(shm->states, shm->states + shm->nstates);
  }
  else if (WIFSIGNALED(st))
  {
    int s = WTERMSIG(st);
    if (s == SIGPROF || s == SIGALRM || s == SIGXCPU) { r.cls = "hang"; r.detail = "the call does not end"; }
    else if (s == SIGKILL) { r.cls = "ENV"; r.detail = "killed"; }
    else { r.cls = "crash"; r.detail = fmt("process died of signal %d (%s)", s, strsignal(s)); }
    r.hash = hash_str(r.cls.c_str());
  }
  else
  {
    r.cls = "crash";
    r.detail = fmt("process ended unexpectedly with status %d %s", WEXITSTATUS(st), shm->detail);
    r.hash = hash_str(r.cls.c_str());
  }
  return r;
}

static std::string esc(const std::string &s)
{
  std::string r;
  for (char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r;
}

int sim_main(int argc, char **argv)
{
  shm = (Shm *)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct rlimit rl = { 0, 0 };
  setrlimit(RLIMIT_CORE, &rl);
  if (const char *k = getenv("SIM_KNOWN"))
  {
    std::ifstream f(k);
    std::string l;
    while (std::getline(f, l))
      if (!l.empty()) g_known.insert(l);
  }
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "gen" && argc == 5)
  {
    Rng r(run_seed(strtoull(argv[3], 0, 10), argv[2], strtoull(argv[4], 0, 10)));
    Plan p = gen(argv[2], r, strtoull(argv[4], 0, 10));
    fputs(join(p).c_str(), stdout);
    return 0;
  }
  if (mode == "exec" && argc == 4)
  {
    std::ifstream f(argv[3]);
    std::stringstream ss;
    ss << f.rdbuf();
    Plan p = split(ss.str());
    RunResult r = one(argv[2], &p, 0, 0);
    printf("RESULT %s\nDETAIL %s\nHASH %016llx\n", r.cls.empty() ? "ok" : r.cls.c_str(), r.detail.c_str(),
           (unsigned long long)r.hash);
    for (auto &s : r.stat) printf("STAT %s %.17g\n", s.first.c_str(), s.second);
    return 0;
  }
  if (mode == "batch" && argc == 9)
  {
    std::string prop = argv[2];
    uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10),
             count = strtoull(argv[6], 0, 10), repeat = strtoull(argv[7], 0, 10);
    std::map<std::string, double> stat;
    std::unordered_set<uint64_t> states, hashes;  // hashes: event logs of runs in which at least one oracle was applied
    double deadline = getenv("SIM_DEADLINE") ? atof(getenv("SIM_DEADLINE")) : 1e18;
    const char *stop = getenv("SIM_STOP");
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    double simtime = 0;
    uint64_t runs = 0, repeats = 0, nondet = 0, nd_idx = 0;
    RunResult bad;
    uint64_t bad_idx = 0;
    bool have_bad = false;
    std::string sample;
    for (uint64_t i = 0; i < count && !have_bad; i++)
    {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (stop && access(stop, F_OK) == 0) break;  // another worker has found a violation
      if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > deadline) break;
      uint64_t idx = from + i * stride;
      RunResult r = one(prop, nullptr, seed, idx);
      ++runs;
      if (repeat && i % repeat == 0)
      {
        RunResult r2 = one(prop, nullptr, seed, idx);
        ++repeats;
        if (r2.hash != r.hash) { ++nondet; nd_idx = idx; }
      }
      for (auto &s : r.stat)
      {
        if (s.first.compare(0, 4, "max.") == 0) { if (s.second > stat[s.first]) stat[s.first] = s.second; }
        else stat[s.first] += s.second;
      }
      simtime += r.simtime;
      bool oracle = false;
      for (auto &s : r.stat) oracle = oracle || (s.first.compare(0, 6, "check.") == 0 && s.second > 0);
      if (oracle) hashes.insert(r.hash);
      if (states.size() < 400000) states.insert(r.states.begin(), r.states.end());
      if (sample.empty() && i == 0) sample = join(r.plan);
      if (!r.cls.empty()) 
      {
        bad = r;
        bad_idx = idx;
        have_bad = true;
        if (stop) std::ofstream(stop) << idx;
      }
    }
    std::ofstream o(argv[8]);
    o << "{\"runs\":" << runs << ",\"repeats\":" << repeats << ",\"nondet\":" << nondet << ",\"nondet_idx\":" << nd_idx
      << ",\"simtime\":" << num(simtime) << ",\"distinct_runs\":" << hashes.size() << ",\"stat\":{";
    bool first = true;
    for (auto &s : stat)
    {
      double v = s.second;
      if (!(std::fabs(v) < 1e300)) v = 1e300;
      o << (first ? "" : ",") << "\"" << esc(s.first) << "\":" << num(v);
      first = false;
    }
    o << "},\"sample\":\"" << esc(sample) << "\"";
    if (have_bad)
      o << ",\"bad\":{\"idx\":" << bad_idx << ",\"cls\":\"" << esc(bad.cls) << "\",\"detail\":\"" << esc(bad.detail)
        << "\",\"plan\":\"" << esc(join(bad.plan)) << "\"}";
    o << "}\n";
    o.close();
    std::ofstream so(std::string(argv[8]) + ".states", std::ios::binary);
    for (uint64_t h : states) so.write((const char *)&h, 8);
    std::ofstream ho(std::string(argv[8]) + ".hashes", std::ios::binary);
    for (uint64_t h : hashes) ho.write((const char *)&h, 8);
    return 0;
  }
  fprintf(stderr, "usage\n");
  return 2;
}
}  // namespace sim
int main(int argc, char **argv) { return sim::sim_main(argc, argv); }
