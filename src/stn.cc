// Temporal network against an all-pairs shortest path reference, over random edit histories.
#include "harness.hh"
#include "TemporalNetwork.hh"
#include "DistanceGraph.hh"
using namespace EUROPA;
using namespace H;
namespace {
typedef long long L;
const L INF = 1LL << 60;
struct Con { TemporalConstraint* c; int a, b; L lb, ub; };

struct Ref {  // reference closure over the live constraints
  std::vector<std::vector<L>> d; bool ok = true;
};

struct Case {
  Ctx& c; TemporalNetwork net;
  std::vector<Timepoint*> tp; std::vector<Con> cons;
  std::vector<std::pair<L, L>> last;    // bounds at the last reset of the update set
  Timepoint* ref = nullptr; 
  explicit Case(Ctx& x) : c(x) { tp.push_back(&net.getOrigin()); last.push_back({0, 0}); }

  Ref reference() {
    size_t n = tp.size(); Ref r; r.d.assign(n, std::vector<L>(n, INF));
    for (size_t i = 0; i < n; ++i) r.d[i][i] = 0;
    for (auto& k : cons) {
      if (k.ub < INF) r.d[k.a][k.b] = std::min(r.d[k.a][k.b], k.ub);
      if (k.lb > -INF) r.d[k.b][k.a] = std::min(r.d[k.b][k.a], -k.lb);
    }
    for (size_t k = 0; k < n; ++k) for (size_t i = 0; i < n; ++i) if (r.d[i][k] < INF)
      for (size_t j = 0; j < n; ++j) if (r.d[k][j] < INF && r.d[i][k] + r.d[k][j] < r.d[i][j]) r.d[i][j] = r.d[i][k] + r.d[k][j];
    for (size_t i = 0; i < n; ++i) if (r.d[i][i] < 0) r.ok = false;
    return r;
  }
  static Time T(L v) { return v >= INF ? POS_INFINITY : v <= -INF ? NEG_INFINITY : (Time)v; }
  static L back(Time t) { return t >= POS_INFINITY ? INF : t <= NEG_INFINITY ? -INF : (L)t; }
  static std::string s(L v) { return v >= INF ? "inf" : v <= -INF ? "-inf" : std::to_string(v); }

  int add(int a, int b, L lb, L ub) {
    c.trace << "add " << a << "->" << b << " [" << s(lb) << "," << s(ub) << "]\n";
    TemporalConstraint* t = net.addTemporalConstraint(*tp[a], *tp[b], T(lb), T(ub));
    if (!t) { c.fail("stn/add-null", "addTemporalConstraint returned null"); return -1; }
    cons.push_back({t, a, b, lb, ub}); return (int)cons.size() - 1;
  }
  void del(size_t i) {
    c.trace << "remove " << cons[i].a << "->" << cons[i].b << " [" << s(cons[i].lb) << "," << s(cons[i].ub) << "]\n";
    net.removeTemporalConstraint(*cons[i].c); cons.erase(cons.begin() + i);
  }
  void narrow(size_t i, L lb, L ub) {
    c.trace << "narrow " << cons[i].a << "->" << cons[i].b << " to [" << s(lb) << "," << s(ub) << "]\n";
    net.narrowTemporalConstraint(*cons[i].c, T(lb), T(ub)); cons[i].lb = lb; cons[i].ub = ub;
  }
  void newtp() { tp.push_back(&net.addTimepoint()); last.push_back({-INF, INF}); c.trace << "timepoint " << tp.size() - 1 << "\n"; }
  void deltp(int x) {
    for (size_t i = cons.size(); i-- > 0;) if (cons[i].a == x || cons[i].b == x) del(i);
    c.trace << "delete timepoint " << x << "\n";
    net.deleteTimepoint(*tp[x]); tp.erase(tp.begin() + x); last.erase(last.begin() + x);
    for (auto& k : cons) { if (k.a > x) k.a--; if (k.b > x) k.b--; }
  }

  void check() {
    Ref r = reference(); size_t n = tp.size();
    bool ok = net.propagate();
    c.count("consistency_checks");
    if (ok != r.ok) {
      c.fail(ok ? "stn/accepts-negative-cycle" : "stn/rejects-consistent", "propagate()=" + std::to_string(ok) + " reference=" + std::to_string(r.ok)); return;
    }
    if (!ok) {
      c.count("inconsistent_states");
      Time lb, ub; net.getTimepointBounds(*tp[0], lb, ub);
      if (lb <= ub) c.fail("stn/bounds-while-inconsistent", "bounds not empty in an inconsistent network");
      std::list<Dedge*> cyc = net.getEdgeNogoodList();
      if (cyc.empty()) { c.fail("stn/nogood-empty", "no explanation for an inconsistency"); return; }
      L sum = 0; bool chain = true; Dedge* prev = cyc.back();
      for (Dedge* e : cyc) {       // listed against the direction of travel
        sum += e->length; if (&prev->from != &e->to) chain = false; prev = e;
        int a = -1, b = -1;
        for (size_t i = 0; i < n; ++i) { if (tp[i] == &e->from) a = i; if (tp[i] == &e->to) b = i; }
        L best = INF;
        for (auto& k : cons) { if (k.a == a && k.b == b && k.ub < INF) best = std::min(best, k.ub); if (k.a == b && k.b == a && k.lb > -INF) best = std::min(best, -k.lb); }
        if (a < 0 || b < 0 || best != e->length) { c.fail("stn/nogood-edge", "explanation names an edge no constraint gives"); return; }
      }
      if (!chain || sum >= 0) c.fail("stn/nogood-not-negative-cycle", "explanation is not a negative cycle, length " + s(sum));
      c.count("nogoods_checked");
      return;
    }
    c.count("consistent_states");
    std::string sig;
    for (size_t i = 0; i < n; ++i) {
      Time lb, ub; net.getTimepointBounds(*tp[i], lb, ub);
      L rl = r.d[i][0] >= INF ? -INF : -r.d[i][0], ru = r.d[0][i];
      c.count("bounds_compared", 2); sig += s(rl) + "," + s(ru) + ";";
      if (back(lb) != rl || back(ub) != ru)
        c.fail(back(lb) > rl || back(ub) < ru ? "stn/bound-too-tight" : "stn/bound-too-loose",
               "timepoint " + std::to_string(i) + " has [" + s(back(lb)) + "," + s(back(ub)) + "] reference [" + s(rl) + "," + s(ru) + "]");
      Time l2, u2; net.getLastTimepointBounds(*tp[i], l2, u2);
      if (l2 != lb || u2 != ub) c.fail("stn/last-bounds-stale", "last bounds differ from bounds right after propagation");
      if (net.getLowerTimepointBound(*tp[i]) != lb || net.getUpperTimepointBound(*tp[i]) != ub) c.fail("stn/accessor", "single bound accessors disagree");
      if ((rl > last[i].first || ru < last[i].second) && i) {
        c.count("tightenings_seen");
        if (!net.getUpdatedTimepoints().count(tp[i])) c.fail("stn/update-not-reported", "timepoint " + std::to_string(i) + " tightened but not in the set of updated timepoints");
      }
    }
    c.seen(sig);
    if (c.rng.chance(50)) { net.resetUpdatedTimepoints(); for (size_t i = 0; i < n; ++i) last[i] = {r.d[i][0] >= INF ? -INF : -r.d[i][0], r.d[0][i]}; }
    if (!c.rng.chance(40)) return;
    // distances
    size_t a = c.rng.below(n), b = c.rng.below(n);
    if (a != b) {
      Time lb, ub; net.calcDistanceBounds(*tp[a], *tp[b], lb, ub);
      L rl = r.d[b][a] >= INF ? -INF : -r.d[b][a], ru = r.d[a][b];
      c.count("distances_compared");
      if (back(lb) != rl || back(ub) != ru) c.fail("stn/distance-wrong", "distance " + std::to_string(a) + "->" + std::to_string(b) + " is [" + s(back(lb)) + "," + s(back(ub)) + "] reference [" + s(rl) + "," + s(ru) + "]");
      for (L bound : {ru >= INF ? 5 : ru, ru >= INF ? 50 : ru + 1, ru >= INF ? -5 : ru - 1, (L)0, (L)1}) {
        bool v = net.isDistanceLessThan(*tp[a], *tp[b], (Time)bound);
        c.count("distance_queries");
        if (v != (ru < bound)) c.fail("stn/less-than-wrong", std::string("distance claimed ") + (v ? "" : "not ") + "< " + s(bound) + " but is " + s(ru));
        bool w = net.isDistancePossiblyLessThan(*tp[a], *tp[b], (Time)bound);
        if (!w && ru < bound) c.fail("stn/possibly-less-than-unsound", "distance " + s(ru) + " claimed not < " + s(bound));
        bool q = net.isDistanceLessThanOrEqual(*tp[a], *tp[b], (Time)bound);
        if (q != (ru <= bound)) c.fail("stn/less-equal-wrong", std::string("distance claimed ") + (q ? "" : "not ") + "<= " + s(bound) + " but is " + s(ru));
        if (v && !w) c.fail("stn/queries-contradict", "surely less but not possibly less");
      }
    }
    if (c.rng.chance(50) && n > 2) {
      std::vector<Timepoint*> t; std::vector<size_t> id; std::vector<Time> lbs, ubs;
      for (size_t i = 0; i < n; ++i) if (i != a && c.rng.chance(60)) { t.push_back(tp[i]); id.push_back(i); }
      if (!t.empty()) {
        net.calcDistanceBounds(*tp[a], t, lbs, ubs); c.count("distance_vectors");
        for (size_t k = 0; k < id.size(); ++k) {
          L rl = r.d[id[k]][a] >= INF ? -INF : -r.d[id[k]][a], ru = r.d[a][id[k]];
          if (back(lbs[k]) != rl || back(ubs[k]) != ru) c.fail("stn/distance-vector-wrong", "distance [" + s(back(lbs[k])) + "," + s(back(ubs[k])) + "] reference [" + s(rl) + "," + s(ru) + "]");
        }
        lbs.clear(); ubs.clear(); net.calcDistanceSigns(*tp[a], t, lbs, ubs); c.count("sign_vectors");
        for (size_t k = 0; k < id.size(); ++k) {
          L rl = r.d[id[k]][a] >= INF ? -INF : -r.d[id[k]][a], ru = r.d[a][id[k]];
          if ((ubs[k] < 0) != (ru < 0) || (ubs[k] <= 0) != (ru <= 0) || (lbs[k] > 0) != (rl > 0) || (lbs[k] >= 0) != (rl >= 0))
            c.fail("stn/sign-wrong", "signs [" + s(back(lbs[k])) + "," + s(back(ubs[k])) + "] reference [" + s(rl) + "," + s(ru) + "]");
        }
        for (size_t i = 0; i < n; ++i) {  // the queries must leave the bounds alone
          Time lb, ub; net.getTimepointBounds(*tp[i], lb, ub);
          if (back(lb) != (r.d[i][0] >= INF ? -INF : -r.d[i][0]) || back(ub) != r.d[0][i]) { c.fail("stn/query-changes-bounds", "bounds differ after a distance query"); break; }
        }
      }
    }
    if (ref) {
      size_t k = 0; while (tp[k] != ref) ++k;
      for (size_t i = 1; i < n; ++i) {
        L lo = r.d[i][0] >= INF ? -INF : -r.d[i][0], hi = r.d[0][i], t = r.d[k][i];
        L want = std::max(lo, std::min(hi, t));
        c.count("reftimes_compared");
        if (back(tp[i]->getReftime()) != want) c.fail("stn/reftime-wrong", "reference time of " + std::to_string(i) + " is " + s(back(tp[i]->getReftime())) + " expected " + s(want));
      }
    }
  }
};

void interval(Rng& r, L& lb, L& ub) {
  int k = r.below(10);
  L w = r.pick(std::vector<long>{3, 10, 100, 100000});
  lb = r.range(-w, w); ub = lb + r.range(0, r.chance(30) ? 0 : w);
  if (k == 0) lb = -INF; else if (k == 1) ub = INF; else if (k == 2) { lb = 0; ub = INF; } else if (k == 3) lb = ub = 0;
  else if (k == 4) { lb = 1; ub = INF; } else if (k == 5 && r.chance(20)) { lb = -INF; ub = INF; }
}

void random_case(Ctx& c) {
  Case k(c); Rng& r = c.rng;
  int n = 2 + r.below(c.thorough ? 14 : 8), steps = 5 + r.below(c.thorough ? 80 : 40);
  for (int i = 0; i < n; ++i) k.newtp();
  bool tame = r.chance(50);  // half the histories stay mostly consistent by building around a schedule
  bool useref = r.chance(15);
  std::map<Timepoint*, L> at; for (auto* t : k.tp) at[t] = r.range(-50, 50); at[k.tp[0]] = 0;
  int refi = -1;
  if (useref) { refi = 1; k.ref = k.tp[1]; k.net.setReferenceTimepoint(k.ref); c.trace << "reference timepoint 1\n"; }
  int lazy = r.pick(std::vector<int>{0, 0, 60, 90});
  for (int s = 0; s < steps && !c.failed(); ++s) {
    int op = r.below(100);
    if (op < 50 || k.cons.empty()) {
      int a = r.below(k.tp.size()), b = r.below(k.tp.size()); if (a == b) continue;
      L lb, ub; interval(r, lb, ub);
      if (tame && r.chance(97)) { L d = at[k.tp[b]] - at[k.tp[a]]; if (lb > d) lb = d - r.range(0, 5); if (ub < d) ub = d + r.range(0, 5); }
      if (refi >= 0) {  // only "no later than" constraints leave the reference point, none enter it
        if (b == refi) std::swap(a, b); 
        if (a == refi) { lb = -INF; if (ub >= INF) ub = 7; }
      }
      k.add(a, b, lb, ub);
    } else if (op < 75) k.del(r.below(k.cons.size()));
    else if (op < 88) {
      size_t i = r.below(k.cons.size()); Con& q = k.cons[i];
      L lb = q.lb, ub = q.ub; 
      if (lb <= -INF && !(refi >= 0 && (q.a == refi || q.b == refi))) { if (r.chance(60)) lb = (ub >= INF ? 0 : ub) - r.range(0, 20); }
      else if (lb > -INF && ub > lb && ub < INF) lb += r.range(0, ub - lb);
      if (ub >= INF) { if (r.chance(60)) ub = (lb <= -INF ? 0 : lb) + r.range(0, 20); } else if (lb > -INF && ub > lb) ub -= r.range(0, ub - lb);
      if (tame) { L d = at[k.tp[q.b]] - at[k.tp[q.a]]; if (d < lb || d > ub) continue; }
      k.narrow(i, lb, ub);
    } else if (op < 92) { k.newtp(); at[k.tp.back()] = r.range(-50, 50); }
    else if (op < 96 && k.tp.size() > 3) { int x = 1 + r.below(k.tp.size() - 1); if (x == refi) continue; at.erase(k.tp[x]); k.deltp(x); if (refi > x) refi--; }
    else { // undo of everything on one timepoint: an inconsistency has to vanish with its cause
      int x = r.below(k.tp.size());
      for (size_t i = k.cons.size(); i-- > 0;) if (k.cons[i].a == x || k.cons[i].b == x) k.del(i);
    }
    c.count("operations");
    if (!r.chance(lazy)) k.check();
  }
  if (!c.failed()) k.check();
  if (c.idx % 97 == 0) c.sample(c.trace.str());
}
}
int main(int argc, char** argv) {
  quiet_errors();
  Suite s{"stn", 0, random_case};
  return run_main(s, argc, argv);
}
