// Executes the commands of spec/seeds.qnt: seeds and random reals, created by several threads.
#include "common.hpp"

#include <algorithm>
#include <atomic>
#include <functional>
#include <memory>
#include <set>
#include <thread>

#include "exact-real/real_number.hpp"
#include "exact-real/seed.hpp"

using exactreal::RealNumber;
using exactreal::Seed;
using Real = std::shared_ptr<const RealNumber>;

constexpr int SLOTS = 6;
static Real slot[SLOTS];

struct Runs {
  unsigned long first = 0, length = 0, count = 0;
  Report& r;
  explicit Runs(Report& r) : r(r) {}
  void operator()(unsigned long value) {
    if (length && value == first + length) {
      length++;
      return;
    }
    flush();
    first = value;
    length = 1;
  }
  void flush() {
    // a report with that many gaps is not a counter that works
    if (length && count++ < 200) r << first << length;
    length = 0;
  }
};

// Run the threads, all of them at the same time
template <typename F>
static void race(unsigned threads, F&& f) {
  std::atomic<unsigned> waiting{0};
  std::vector<std::thread> pool;
  for (unsigned t = 0; t < threads; t++)
    pool.emplace_back([&, t] {
      waiting++;
      while (waiting < threads) std::this_thread::yield();
      f(t);
    });
  for (auto& t : pool) t.join();
}

static Real fresh(long kind, long n) {
  switch (kind) {
    case 0:
    case 1: return RealNumber::random();
    case 2: return RealNumber::random(Arf(static_cast<int>(n)), Arf(static_cast<int>(n + 1)));
    case 3: return RealNumber::random(static_cast<double>(n) + .5);
    default: return RealNumber::random(Seed());
  }
}

static int mask(int d) {
  int ret = 0;
  for (int s = 0; s < SLOTS; s++)
    if (slot[s] && slot[s].get() == slot[d].get()) ret |= 1 << s;
  return ret;
}

static void exec(const std::string& op, const Words& a, Report& r) {
  const auto arg = [&](size_t i) { return a[i].get_ui(); };
  if (op == "reset") {
    for (auto& s : slot) s = nullptr;
  } else if (op == "seeds") {
    Runs runs(r);
    for (unsigned long i = 0; i < arg(0); i++) runs(Seed().value);
    runs.flush();
  } else if (op == "race") {
    std::vector<std::vector<unsigned>> values(arg(0), std::vector<unsigned>(arg(1)));
    race(arg(0), [&](unsigned t) {
      for (auto& value : values[t]) value = Seed().value;
    });
    std::vector<unsigned> all;
    for (auto& v : values) all.insert(end(all), begin(v), end(v));
    std::sort(begin(all), end(all));
    Runs runs(r);
    for (auto value : all) runs(value);
    runs.flush();
  } else if (op == "value") {
    const Seed seed(static_cast<unsigned>(arg(0)));
    Seed copy(seed), assigned;
    assigned = copy;
    r << seed.value << copy.value << assigned.value;
  } else if (op == "copied") {
    const Seed seed;
    Seed copy(seed), assigned(17);
    assigned = copy;
    r << seed.value << copy.value << assigned.value;
  } else if (op == "fresh") {
    slot[arg(0)] = fresh(arg(1), arg(2));
    r << mask(arg(0));
    r.val(slot[arg(0)]->arf(200));
  } else if (op == "fixed") {
    slot[arg(0)] = RealNumber::random(Seed(static_cast<unsigned>(arg(1))));
    r << mask(arg(0));
    r.val(slot[arg(0)]->arf(200));
  } else if (op == "drop") {
    slot[arg(0)] = nullptr;
    r << 0;
  } else if (op == "racereals") {
    std::vector<std::vector<Real>> reals(arg(0));
    race(arg(0), [&](unsigned t) {
      for (unsigned i = 0; i < arg(1); i++) reals[t].push_back(fresh(arg(2), 3));
    });
    std::set<const RealNumber*> objects;
    std::set<std::string> values;
    std::vector<Real> all;
    for (auto& l : reals)
      for (auto& x : l) {
        objects.insert(x.get());
        Report value;
        value.val(x->arf(200));
        values.insert(value.os.str());
        all.push_back(x);
      }
    bool strict = true;
    for (auto& x : all)
      for (auto& y : all)
        if (x != y && x->deglex(*y) == y->deglex(*x)) strict = false;
    r << objects.size() << values.size() << strict;
  } else if (op == "racefixed") {
    std::vector<std::vector<Real>> reals(arg(0));
    race(arg(0), [&](unsigned t) {
      for (unsigned i = 0; i < arg(1); i++) reals[t].push_back(RealNumber::random(Seed(3000000000u + i)));
    });
    std::set<const RealNumber*> objects;
    bool same = true;
    for (auto& l : reals)
      for (size_t i = 0; i < l.size(); i++) {
        objects.insert(l[i].get());
        if (l[i] != reals[0][i]) same = false;
      }
    r << objects.size() << same;
  } else throw std::logic_error("unknown command " + op);
}

int main() { return serve(exec); }
