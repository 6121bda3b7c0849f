// History simulator (C02, C03, C04): several state spaces live in one process and are queried, starved of memory,
// destroyed and recreated in the order the plan says. Every answer is compared with the answer a pristine process
// (forked before the library was ever called) gives to that one query.
//
//   space ID KIND KAPPA SIGMA DISC VIABASE     create (VIABASE: will be destroyed through its base class)
//   filter ID A1 A2 A3 A4 SX SY ST K1 K2 K3    set_filter_parameters
//   del ID
//   state N X Y TH K D                         argument pool
//   ctl N D1 K1 S1 D2 K2 S2 ...                control pool
//   dirty BYTE                                 what fresh memory and the unused stack hold from now on
//   fail N LEN                                 allocations N..N+LEN-1 of the next call fail
//   q ID OP A B                                OP: dist ctrl path pathcov integ integcov interp (T = 5th word)
//   qc ID OP A C [T]                           integ integcov interp with controls C of the pool
//   sweep ID OP A B [T]                        C03/C04: the call with every single allocation failing, one after another
//   repeat ID OP A B                           C04: the same call six times
//   burst ID OP N R SEED                       N calls with random arguments within R; the last one must not have changed
// q, qc, sweep, repeat take the time T as 5th and the variant of the initial belief as 6th word.
#include <algorithm>
#include "query.hpp"

namespace sim
{
namespace
{
struct History
{
  Out &out;
  int prop;
  std::map<int, Cfg> cfg;
  std::map<int, std::unique_ptr<Space>> sp;
  std::map<int, State> st;
  std::map<int, Controls> ctl;
  std::vector<Ref> refs;
  size_t next_ref = 0;
  uint64_t fail_n = 0, fail_len = 0;
  unsigned char dirt = 0xA5;
  int growth_events = 0;
  History(Out &o, int p) : out(o), prop(p) {}

  bool parse_query(const Words &w, Query &q)
  {
    int id = (int)w.n(1);
    if (!cfg.count(id) || !st.count((int)w.n(3))) return false;
    q.op = w.s(2);
    q.a = st[(int)w.n(3)];
    q.t = w.w.size() > 5 ? w.d(5) : 0.5;
    q.v = w.w.size() > 6 ? (int)w.n(6) : 0;
    if (w.s(0) == "qc")
    {
      if (!ctl.count((int)w.n(4))) return false;
      q.pool = true;
      q.c = ctl[(int)w.n(4)];
      if (q.op != "integ" && q.op != "integcov" && q.op != "interp") return false;
    }
    else
    {
      if (!st.count((int)w.n(4))) return false;
      q.b = st[(int)w.n(4)];
    }
    if ((q.op == "pathcov" || q.op == "integcov") && !cfg[id].has_filter) return false;
    return true;
  }
  void track(const Words &w)  // bookkeeping common to both passes
  {
    const std::string op = w.s(0);
    if (op == "space") cfg[(int)w.n(1)] = cfg_of(w);
    else if (op == "del") cfg.erase((int)w.n(1));
    else if (op == "filter")
    {
      if (cfg.count((int)w.n(1))) { cfg[(int)w.n(1)].noise = noise_of(w, 2); cfg[(int)w.n(1)].has_filter = true; }
    }
    else if (op == "state") st[(int)w.n(1)] = State{ w.d(2), w.d(3), w.d(4), w.d(5), w.d(6) };
    else if (op == "ctl")
    {
      Controls c;
      for (size_t i = 2; i + 2 < w.w.size(); i += 3)
      {
        Control u;
        u.delta_s = w.d(i); u.kappa = w.d(i + 1); u.sigma = w.d(i + 2);
        c.push_back(u);
      }
      ctl[(int)w.n(1)] = c;
    }
  }
  static bool is_q(const std::string &op) { return op == "q" || op == "qc" || op == "sweep" || op == "repeat"; }
  bool reference(const Plan &plan)
  {
    std::map<std::string, Ref> memo;
    unsigned char d = 0x11;
    for (auto &l : plan)
    {
      Words w(l);
      track(w);
      if (!is_q(w.s(0))) continue;
      Query q;
      if (!parse_query(w, q)) continue;
      Ref r;
      std::string key;
      {
        const Cfg &c = cfg[(int)w.n(1)];
        key = fmt("%d %.17g %.17g %.17g %d|", c.kind, c.par.kappa, c.par.sigma, c.par.disc, c.has_filter);
        key += fmt("%.17g %.17g %.17g %.17g %.17g %.17g %.17g|", c.noise.motion.alpha1, c.noise.motion.alpha2, c.noise.motion.alpha3,
                   c.noise.motion.alpha4, c.noise.meas.std_x, c.noise.meas.std_y, c.noise.meas.std_theta);
        key += fmt("%.17g %.17g %.17g|", c.noise.ctrl.k1, c.noise.ctrl.k2, c.noise.ctrl.k3);
        for (size_t i = 2; i < w.w.size(); i++) key += w.w[i] + " ";
        key += w.s(0) == "qc" ? "p" : "n";
        const State &a = q.a, &b = q.b;
        key += fmt("%.17g %.17g %.17g %.17g %.17g", a.x, a.y, a.theta, a.kappa, a.d);
        if (!q.pool) key += fmt("%.17g %.17g %.17g %.17g %.17g", b.x, b.y, b.theta, b.kappa, b.d);
      }
      auto it = memo.find(key);
      if (it == memo.end())
      {
        pristine_check(cfg[(int)w.n(1)], q, d, r);
        d += 0x35;
        memo[key] = r;
        out.add("check.pristine_reference");
      }
      else r = it->second;
      if (!r.ok) { out.viol("reference-failed", "the query fails in a pristine process: " + l); return false; }
      refs.push_back(r);
    }
    cfg.clear();
    st.clear();
    ctl.clear();
    return true;
  }
  std::string name(const Words &w) { return std::string(kname[cfg[(int)w.n(1)].kind]) + " " + w.s(2); }

  // one call; returns 0 completed and equal, 1 bad_alloc, 2 violation
  int call(const Words &w, const Query &q, const Ref &ref, uint64_t fn, uint64_t fl, const std::string &line)
  {
    Space &s = *sp[(int)w.n(1)];
    int64_t blocks0 = g_alloc.live_blocks;
    int kind = cfg[(int)w.n(1)].kind;
    std::string nm = name(w);
    uint64_t h = 0;
    std::string got;
    bool thrown = false, other = false;
    std::string what;
    uint64_t injected = 0;
    int64_t blocks1 = 0;
    {
      Result r;
      dirty_stack(dirt);
      g_alloc.arm(fn, fl);
      try { run_query(s, q, r); g_alloc.disarm(); }
      catch (std::bad_alloc &) { g_alloc.disarm(); thrown = true; }
      catch (std::exception &e) { g_alloc.disarm(); other = true; what = e.what(); }
      catch (...) { g_alloc.disarm(); other = true; what = "unknown"; }
      injected = g_alloc.failed;
      if (!thrown && !other) { h = hash_of(r); if (h != ref.hash) got = brief(r); }
    }
    blocks1 = g_alloc.live_blocks - (int64_t)0;
    // strings above may live on the heap
    int64_t own = (int64_t)(got.capacity() > 15) + (int64_t)(what.capacity() > 15) + (int64_t)(nm.capacity() > 15);
    int64_t grown = blocks1 - blocks0 - own;
    out.log.raw(h);
    out.log.raw(injected);
    out.log.raw((uint64_t)grown);
    if (injected) out.add("fault.failed_allocation", (double)injected);
    if (g_alloc.corrupt) { out.viol("memory-corruption", std::string(g_alloc.corrupt) + " in " + nm + ": " + line); return 2; }
    if (other) { out.viol("wrong-exception", nm + " throws " + what + ": " + line); return 2; }
    if (thrown && !injected) { out.viol("spurious-bad_alloc", nm + " throws bad_alloc though no allocation failed: " + line); return 2; }
    if (!thrown && h != ref.hash)
    {
      out.viol(injected ? "wrong-result-when-out-of-memory" : "result-differs",
               nm + " gives " + got + ", a pristine process gives " + ref.text + ": " + line);
      return 2;
    }
    if (prop == 4 && grown > 0)
    {
      if (thrown)
      {
        out.add("probe.blocks_left_by_aborted_call", (double)grown);
        aborted_growth = grown;
        (void)kind;
      }
      else
      {
        out.add("probe.growth_event");
        if (++growth_events > 4)
          out.viol("leak:" + nm, fmt("%lld blocks stay allocated after a completed call (and %d times before): ", (long long)grown,
                                    growth_events - 1) + line);
      }
    }
    out.add("check.answer");
    if (out.bad()) return 2;
    last_growth = grown;
    return thrown ? 1 : 0;
  }
  int64_t last_growth = 0, aborted_growth = 0;
  std::string op_class(const Words &w)
  {
    // what an aborted call is charged to: the planner and whether it was planning or following
    return std::string(kname[cfg[(int)w.n(1)].kind]) + (w.s(0) == "qc" ? ":following" : ":planning");
  }

  void query(const Words &w, const std::string &line)
  {
    Query q;
    if (!parse_query(w, q) || !sp.count((int)w.n(1))) return;
    const Ref ref = refs[next_ref++];
    Hash hs;
    hs.s(line.substr(0, line.find(' ', 8)));
    hs.raw(ref.hash);
    out.state(hs.h);
    out.simtime += 1;
    const std::string op = w.s(0);
    if (op == "q" || op == "qc")
    {
      uint64_t n = fail_n, l = fail_len;
      fail_n = 0;
      last_growth = 0;
      int r = call(w, q, ref, n, l, line);
      if (r == 0 && prop == 4 && last_growth > 0)
      {
        int grow = 0, keep = growth_events;
        for (int i = 0; i < 5 && !out.bad(); i++)
        {
          last_growth = 0;
          call(w, q, ref, 0, 0, line);
          if (last_growth > 0) ++grow;
        }
        growth_events = keep;
        if (grow >= 4 && !out.bad())
          out.viol("leak:" + name(w), fmt("every repetition leaves %lld more blocks: ", (long long)last_growth) + line);
      }
      if (r == 1 && prop == 4) aborted(w, q, ref, n, l, line);
      if (r == 1 && !out.bad())
      {
        out.add("op.retry");
        if (call(w, q, ref, 0, 0, line + "  (retry)") == 1) out.viol("spurious-bad_alloc", "retry fails: " + line);
      }
    }
    else if (op == "repeat")
    {
      int grow = 0;
      for (int i = 0; i < 6 && !out.bad(); i++)
      {
        last_growth = 0;
        int keep = growth_events;
        if (call(w, q, ref, 0, 0, line) == 2) return;
        growth_events = keep + (i == 0 && last_growth > 0);
        if (i >= 2 && last_growth > 0) ++grow;
      }
      if (prop == 4 && grow >= 3 && !out.bad())
        out.viol("leak:" + name(w), fmt("every repetition leaves %lld more blocks: ", (long long)last_growth) + line);
    }
    else if (op == "sweep")
    {
      uint64_t N = ref.allocs;
      uint64_t step = 1;
      if (N > 400) step = N / 400 + 1;
      for (uint64_t n = 1; n <= N && !out.bad(); n += step)
      {
        aborted_growth = 0;
        int r = call(w, q, ref, n, 1 + n % 2, line + fmt("  (allocation %llu fails)", (unsigned long long)n));
        if (r == 2) return;
        if (r == 1 && prop == 4) aborted(w, q, ref, n, 1 + n % 2, line);
        if (out.bad()) return;
        if (prop == 3 && n % 7 == 1)
        {
          if (call(w, q, ref, 0, 0, line + fmt("  (after allocation %llu failed)", (unsigned long long)n)) == 1)
            out.viol("spurious-bad_alloc", "fails without a failing allocation: " + line);
        }
      }
      if (!out.bad() && call(w, q, ref, 0, 0, line + "  (after the sweep)") == 1)
        out.viol("spurious-bad_alloc", "fails without a failing allocation: " + line);
      out.add("op.sweep");
    }
  }
  // many calls in a row: capacities, counters and wrap-arounds are only reached this way
  void burst(const Words &w, const std::string &line)
  {
    int id = (int)w.n(1);
    if (!sp.count(id) || !cfg.count(id)) return;
    const Cfg &c = cfg[id];
    const Space &s = *sp[id];
    Query q, first;
    q.op = w.s(2);
    if ((q.op == "pathcov" || q.op == "integcov") && !c.has_filter) return;
    int n = (int)w.n(3), at = 0;
    double R = w.d(4);
    Rng r((uint64_t)w.n(5));
    uint64_t h0 = 0;
    auto kappa = [&]() { int z = r.below(4); return z == 0 ? 0.0 : z == 1 ? c.par.kappa : z == 2 ? -c.par.kappa : r.u(-1, 1) * c.par.kappa; };
    auto state = [&]() {
      State z{ r.u(-R, R), r.u(-R, R), r.u(-M_PI, M_PI), kappa(), 0 };
      if (r.p(0.1)) { z.x = std::round(z.x); z.y = std::round(z.y); z.theta = M_PI / 2 * r.below(4); }
      return z;
    };
    out.add("op.burst");
    at = r.below(n);
    for (int i = 0; i <= n && !out.bad(); i++)
    {
      q.a = state();
      q.b = r.p(0.05) ? q.a : state();
      q.t = r.u();
      q.v = r.below(8);
      if (i == n) q = first;
      uint64_t h = 0;
      int grow = 0;
      for (int k = 0; k < 6; k++)
      {
        int64_t b0 = g_alloc.live_blocks;
        {
          Result res;
          g_alloc.arm(0);
          run_query(s, q, res);
          g_alloc.disarm();
          h = hash_of(res);
        }
        if (prop != 4 || g_alloc.live_blocks <= b0) break;
        ++grow;
      }
      out.log.raw(h);
      out.add("check.burst_call");
      if (g_alloc.corrupt) { out.viol("memory-corruption", std::string(g_alloc.corrupt) + " in " + name(w) + ": " + line); return; }
      if (grow == 6)
        out.viol("leak:" + name(w), fmt("every repetition of call %d (from %s to %s) leaves more blocks: ", i, show(q.a).c_str(), show(q.b).c_str()) + line);
      if (i == at) { first = q; h0 = h; }
      if (i == n && h != h0)
        out.viol("result-differs", fmt("%s answers call %d (from %s to %s) differently after the burst: ", name(w).c_str(), at,
                                       show(q.a).c_str(), show(q.b).c_str()) + line);
    }
  }
  // an aborted call left something behind: does it every time?
  void aborted(const Words &w, const Query &q, const Ref &ref, uint64_t n, uint64_t l, const std::string &line)
  {
    if (!aborted_growth) return;
    int grow = 0;
    int64_t g = aborted_growth;
    for (int i = 0; i < 4 && !out.bad(); i++)
    {
      aborted_growth = 0;
      if (call(w, q, ref, n, l, line) == 1 && aborted_growth > 0) ++grow;
    }
    aborted_growth = 0;
    if (out.bad() || grow < 4) return;
    out.viol("aborted-leak:" + op_class(w),
             fmt("each aborted call leaves %lld blocks when allocation %llu fails: ", (long long)g, (unsigned long long)n) + line);
  }

  void run(const Plan &plan)
  {
    if (!reference(plan)) return;
    int64_t base_blocks = g_alloc.live_blocks;
    for (auto &l : plan)
    {
      if (out.bad()) break;
      Words w(l);
      const std::string op = w.s(0);
      if (op == "space")
      {
        int id = (int)w.n(1);
        Cfg c = cfg_of(w);
        uint64_t n = fail_n, fl = fail_len;
        fail_n = 0;
        sp.erase(id);
        cfg[id] = c;
        bool thrown = false;
        g_alloc.dirt = dirt;
        dirty_stack(dirt);
        if (n)
        {
          std::unique_ptr<Space> s;
          std::string other;
          int64_t b0 = g_alloc.live_blocks;
          g_alloc.arm(n, fl);
          try { s = make_space(c.kind, c.par, c.via_base); g_alloc.disarm(); }
          catch (std::bad_alloc &) { g_alloc.disarm(); thrown = true; }
          catch (std::exception &e) { g_alloc.disarm(); other = e.what(); }
          if (g_alloc.failed) out.add("fault.failed_allocation", (double)g_alloc.failed);
          if (!other.empty()) { out.viol("wrong-exception", "construction throws " + other + ": " + l); break; }
          if (thrown && !g_alloc.failed) { out.viol("spurious-bad_alloc", "construction: " + l); break; }
          s.reset();
          if (prop == 4 && thrown && g_alloc.live_blocks > b0)
          {
            // does it every time?
            int grow = 0;
            for (int i = 0; i < 4; i++)
            {
              int64_t b1 = g_alloc.live_blocks;
              g_alloc.arm(n, fl);
              try { std::unique_ptr<Space> s2 = make_space(c.kind, c.par, c.via_base); g_alloc.disarm(); }
              catch (std::bad_alloc &) { g_alloc.disarm(); }
              if (g_alloc.live_blocks > b1) ++grow;
            }
            if (grow == 4) { out.viol(fmt("aborted-leak:%s:construct", kname[c.kind]), "aborted construction leaves memory behind: " + l); break; }
          }
        }
        sp[id] = make_space(c.kind, c.par, c.via_base);
        out.add("op.construct");
      }
      else if (op == "del")
      {
        if (sp.erase((int)w.n(1))) out.add("op.destroy");
        cfg.erase((int)w.n(1));
      }
      else if (op == "filter")
      {
        track(w);
        if (sp.count((int)w.n(1))) sp[(int)w.n(1)]->set_filter(noise_of(w, 2));
        out.add("op.set_filter");
      }
      else if (op == "dirty")
      {
        dirt = (unsigned char)w.n(1);
        g_alloc.dirt = dirt;
        out.add("fault.dirty_memory");
      }
      else if (op == "fail") { fail_n = (uint64_t)w.n(1); fail_len = (uint64_t)w.n(2); }
      else if (op == "burst") burst(w, l);
      else if (is_q(op)) { query(w, l); if (op == "q") out.add("op.query"); }
      else track(w);
      if (g_alloc.corrupt && !out.bad()) out.viol("memory-corruption", std::string(g_alloc.corrupt) + " at " + l);
    }
    if (prop == 4 && !out.bad())
    {
      // lifetimes: objects of every type built and destroyed again and again must not pile up
      std::vector<std::pair<int, Cfg>> all(cfg.begin(), cfg.end());
      for (auto &c : all)
      {
        int grow = 0;
        for (int i = 0; i < 6; i++)
        {
          int64_t b = g_alloc.live_blocks;
          {
            std::unique_ptr<Space> s = make_space(c.second.kind, c.second.par, c.second.via_base);
            if (c.second.has_filter) s->set_filter(c.second.noise);
          }
          if (i >= 2 && g_alloc.live_blocks > b) ++grow;
          out.add("op.lifetime");
        }
        if (grow >= 3)
        {
          out.viol(std::string("lifetime-leak:") + kname[c.second.kind], c.second.via_base ? "destroyed through the base class" : "destroyed");
          break;
        }
      }
    }
    sp.clear();
    if (prop == 4 && !out.bad() && g_alloc.corrupt) out.viol("memory-corruption", g_alloc.corrupt);
    (void)base_blocks;
  }
};
}  // namespace

Plan gen(const std::string &prop, Rng &r, uint64_t idx)
{
  int pn = atoi(prop.c_str() + 1);
  Plan p;
  double ka = 1, dm = 0.5;
  auto sane = [](double k, double s) { return k > 0.1 && k < 5 && s > 0.02 && s < 20 && k * k / (2 * s) < 10; };
  do
  {
    ka = r.p(0.4) ? 1.0 : r.p(0.6) ? r.logu(0.3, 2) : r.logu(0.1, 5);
    dm = r.p(0.4) ? 0.5 : r.p(0.6) ? r.logu(0.1, 1.5) : r.logu(0.03, 10);
  } while (!sane(ka, ka * ka / (2 * dm)));
  double R = (r.p(0.5) ? r.u(0.3, 3) : 10) / ka;
  int ns = pn == 2 ? 2 + r.below(4) : 1 + r.below(3), nst = 2 + r.below(5), nc = r.below(3);
  std::vector<Cfg> c;
  auto emit_space = [&](int id) {
    Cfg &z = c[id];
    p.push_back(fmt("space %d %s %.17g %.17g %.17g %d", id, kname[z.kind], z.par.kappa, z.par.sigma, z.par.disc, (int)z.via_base));
  };
  auto emit_filter = [&](int id) {
    double s = r.logu(0.01, 1);
    p.push_back(fmt("filter %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g", id, s * r.u(), s * r.u(), s * r.u(), s * r.u(),
                    r.u(0.01, 0.5), r.u(0.01, 0.5), r.u(0.01, 0.3), r.u(0, 2), r.u(0, 2), r.u(0, 2)));
    c[id].has_filter = true;
  };
  int kind0 = (int)((idx * 7 + r.below(2)) % NK);
  for (int i = 0; i < ns; i++)
  {
    Cfg z;
    double u = r.u();
    z.kind = i == 0 ? kind0 : u < 0.5 ? c[0].kind : u < 0.6 && c[0].kind < 12 ? (c[0].kind ^ 1) : r.below(NK);
    z.par.kappa = r.p(0.6) ? ka : ka * r.u(0.5, 1.5);
    z.par.sigma = r.p(0.6) ? ka * ka / (2 * dm) : z.par.kappa * z.par.kappa / (2 * r.logu(0.1, 1.5));
    z.par.disc = r.p(0.5) ? 0.1 : r.logu(0.03, 1);
    if (i && r.p(0.5))
    {  // related to an earlier configuration: what a cache keyed on too little would confuse
      const Params &o = c[r.below(i)].par;
      double f = r.p(0.7) ? r.u(0.6, 1.6) : 1 + (r.p(0.5) ? 1 : -1) * r.logu(1e-12, 1e-2);
      if (r.p(0.3)) f = r.p(0.5) ? 2 : 0.5;
      switch (r.below(6))
      {
        case 0: z.par.kappa = o.kappa * f; z.par.sigma = o.sigma * f; break;      // same length of the clothoids
        case 1: z.par.kappa = o.kappa * f; z.par.sigma = o.sigma * f * f; break;  // same deflection
        case 2: z.par.kappa = o.kappa; z.par.sigma = o.sigma * f; break;
        case 3: z.par.kappa = o.kappa * f; z.par.sigma = o.sigma; break;
        case 4: z.par.kappa = o.kappa * f; z.par.sigma = o.sigma / f; break;
        default: z.par = o; z.par.disc = o.disc * f; break;
      }
    }
    if (!sane(z.par.kappa, z.par.sigma)) { z.par.kappa = ka; z.par.sigma = ka * ka / (2 * dm); }
    if (z.par.disc < 0.02) z.par.disc = 0.02;
    z.via_base = r.p(0.4);
    c.push_back(z);
    if (pn >= 3 && r.p(0.3)) p.push_back(fmt("fail %d %d", 1 + r.below(3), 1 + r.below(3)));
    emit_space(i);
    if (r.p(0.5)) emit_filter(i);
  }
  auto kappa = [&]() { int q = r.below(4); return q == 0 ? 0.0 : q == 1 ? ka : q == 2 ? -ka : r.u(-ka, ka); };
  std::vector<State> st;
  for (int i = 0; i < nst; i++)
  {
    State s{ r.u(-R, R), r.u(-R, R), r.u(-M_PI, M_PI), kappa(), 0 };
    if (i && r.p(0.6))
    {  // a near-duplicate: what a cache keyed on too little would confuse
      s = st[r.below(i)];
      switch (r.below(7))
      {
        case 0: s.kappa = kappa(); break;
        case 1: s.theta += 2 * M_PI * (r.below(3) - 1); break;
        case 2: s.theta = -s.theta; break;
        case 3: s.x = std::nextafter(s.x, 1e9); break;
        case 4: s.theta += r.logu(1e-12, 1e-2); break;
        case 5: s.y += r.logu(1e-12, 1e-1); break;
        default: s.d = r.below(3) - 1; break;
      }
    }
    if (r.p(0.2)) { s.x = std::round(s.x); s.y = std::round(s.y); s.theta = M_PI / 2 * r.below(4); }
    st.push_back(s);
    p.push_back(fmt("state %d %.17g %.17g %.17g %.17g %.17g", i, s.x, s.y, s.theta, s.kappa, s.d));
  }
  for (int i = 0; i < nc; i++)
  {
    std::string l = fmt("ctl %d", i);
    int n = 1 + r.below(5);
    for (int j = 0; j < n; j++)
    {
      double ds = r.u(-1, 1) * r.logu(1e-3, 5), k = kappa(), s = r.p(0.5) ? 0 : r.u(-1, 1) * ka * ka;
      l += fmt(" %.17g %.17g %.17g", ds, k, s);
    }
    p.push_back(l);
  }
  static const char *ops[7] = { "dist", "ctrl", "path", "pathcov", "integ", "integcov", "interp" };
  auto tt = [&]() { return r.p(0.2) ? (double)r.below(2) : r.p(0.1) ? -0.5 : r.p(0.1) ? 1.5 : r.u(); };
  int nq = pn == 2 ? 6 + r.below(25) : 2 + r.below(6);
  int lastid = -1;
  std::string last;
  for (int i = 0; i < nq; i++)
  {
    int id = r.below(ns);
    if (r.p(0.15)) emit_filter(id);
    if (r.p(0.15)) p.push_back(fmt("dirty %d", r.below(256)));
    if (r.p(0.08)) { p.push_back(fmt("del %d", id)); if (pn >= 3 && r.p(0.3)) p.push_back(fmt("fail %d %d", 1 + r.below(3), 1 + r.below(3))); emit_space(id); c[id].has_filter = false; }
    double pf = pn == 2 ? 0.12 : 0.35;
    bool failing = r.p(pf);
    if (failing) { int n = (int)r.logu(1, 300); p.push_back(fmt("fail %d %d", n, 1 + r.below(4))); }
    const char *op = ops[r.below(7)];
    if (!c[id].has_filter && (!strcmp(op, "pathcov") || !strcmp(op, "integcov"))) emit_filter(id);
    if (pn == 2 && lastid >= 0 && r.p(0.2)) { p.push_back(last); continue; }
    if (pn == 2 && lastid >= 0 && r.p(0.2))
    {  // the same question to another state space
      bool cov = last.find("cov") != std::string::npos;
      int o = r.below(ns);
      if (cov && !c[o].has_filter) emit_filter(o);
      size_t s1 = last.find(' '), s2 = last.find(' ', s1 + 1);
      last = last.substr(0, s1) + fmt(" %d", o) + last.substr(s2);
      p.push_back(last);
      lastid = o;
      continue;
    }
    if (r.p(pn == 4 ? 0.06 : 0.015))
    {
      const char *bop = ops[r.below(7)];
      bool cov = !strcmp(bop, "pathcov") || !strcmp(bop, "integcov");
      if (cov && !c[id].has_filter) emit_filter(id);
      p.push_back(fmt("burst %d %s %d %.17g %d", id, bop, (int)r.logu(10, cov ? 100 : 600), R, r.below(1000000)));
    }
    int a = r.below(nst), b = r.below(nst);
    const char *verb = "q";
    if (pn != 2)
    {
      double u = r.u();
      if (pn == 3 && u < 0.35) verb = "sweep";
      if (pn == 4) verb = u < 0.3 ? "repeat" : u < 0.5 ? "sweep" : "q";
    }
    if (nc && r.p(0.25))
    {
      const char *o2 = ops[4 + r.below(3)];
      if (!c[id].has_filter && !strcmp(o2, "integcov")) emit_filter(id);
      last = fmt("qc %d %s %d %d %.17g %d", id, o2, a, r.below(nc), tt(), r.p(0.5) ? 0 : r.below(8));
    }
    else last = fmt("%s %d %s %d %d %.17g %d", verb, id, op, a, b, tt(), r.p(0.5) ? 0 : r.below(8));
    p.push_back(last);
    lastid = id;
  }
  return p;
}

void exec(const std::string &prop, const Plan &plan, Out &out)
{
  History h(out, atoi(prop.c_str() + 1));
  h.run(plan);
}
}  // namespace sim
