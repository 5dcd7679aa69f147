#include "lang.h"
using namespace pbt;
using namespace lang;

namespace {
void interleave(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg);
    int n = (int)g.range(2, 6);
    // what each thread does when it runs alone
    std::vector<std::unique_ptr<Machine>> ms;
    std::vector<int64_t> seeds;
    for (int i = 0; i < n; ++i) {
        seeds.push_back((int64_t)g.below(4));
        ms.emplace_back(new Machine(d.p));
        ms[i]->input = seeds[i];
        ms[i]->run();
    }
    Host h;
    h.mustCompile(d.text.text);
    struct T { std::unique_ptr<Thread> t; int state = 0; bool abandoned = false; uint64_t steps = 0; };  // 0 not started, 1 running, 2 finished, 3 destroyed
    std::vector<T> ts(n);
    std::string sched;
    uint64_t switches = 0;
    int last = -1;
    auto finish = [&](int i) {
        T &x = ts[i];
        x.state = 2;
        PBT_CHECK(Tiny_IsThreadDone(x.t->t.get()), "thread %d stopped without being done", i);
        compareTrace(ms[i]->trace, x.t->trace, strf("trace of thread %d (input %lld)", i, (long long)seeds[i]).c_str());
        compareGlobals(*ms[i], *x.t);
    };
    auto left = [&] { int k = 0; for (auto &x : ts) k += x.state < 2; return k; };
    int mode = (int)g.below(3);  // how long each turn is
    uint64_t turns = 0;
    while (left()) {
        int i = (int)g.below(n);
        T &x = ts[i];
        if (++turns > 3000) {  // finish whatever is left, one after another
            i = 0;
            while (ts[i].state >= 2) ++i;
            T &y = ts[i];
            if (y.state == 0) { y.t.reset(new Thread(h)); y.t->input = seeds[i]; y.t->start(); y.state = 1; }
            y.t->run();
            finish(i);
            continue;
        }
        switch (x.state) {
            case 0:
                x.t.reset(new Thread(h));
                x.t->input = seeds[i];
                x.t->start();
                x.state = 1;
                sched += strf(" start%d", i);
                break;
            case 1: {
                if (g.chance(1, 60)) {
                    x.t->run();
                    sched += strf(" run%d", i);
                    finish(i);
                    break;
                }
                if (g.chance(1, 150)) {
                    // abandoned: destroyed in the middle
                    for (size_t k = 0; k < x.t->trace.size(); ++k)
                        PBT_CHECK(k < ms[i]->trace.size() && ms[i]->trace[k] == x.t->trace[k], "entry %zu of the trace of thread %d is %s", k, i, x.t->trace[k].c_str());
                    x.t->destroy();
                    x.t.reset();
                    x.state = 3;
                    x.abandoned = true;
                    sched += strf(" destroy%d", i);
                    c.label("abandoned");
                    break;
                }
                if (last != i) ++switches;
                last = i;
                uint64_t k = mode == 0 ? 1 : mode == 1 ? g.range(1, 6) : g.range(1, 60);
                bool more = true;
                if (g.chance(1, 10)) x.t->t->maxNumObjects = 0;  // collect soon
                for (uint64_t q = 0; q < k && more; ++q) more = x.t->step();
                if (!more) finish(i);
                break;
            }
            case 2:
                if (g.chance(1, 20)) { x.t->destroy(); x.t.reset(); x.state = 3; sched += strf(" destroy%d", i); c.label("destroyed early"); }
                break;
            default: break;
        }
    }
    c.say("// schedule (apart from steps):" + sched + "\n");
    c.nontrivial = switches >= 10 && d.m->trace.size() >= 2;
    c.label(strf("threads:%d", n));
    // what a finished thread holds does not change later
    for (int i = 0; i < n; ++i) if (ts[i].state == 2) compareGlobals(*ms[i], *ts[i].t);
}
// cycle by cycle, in one go, or a mixture
void stepping(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg);
    Host h;
    h.mustCompile(d.text.text);
    std::vector<std::string> first;
    for (int k = 0; k < 3; ++k) {
        Thread t(h);
        t.start();
        if (k == 0) t.run();
        else if (k == 1) while (t.step()) {}
        else {
            uint64_t n = g.below(200);
            bool more = true;
            for (uint64_t i = 0; i < n && more; ++i) more = t.step();
            t.run();
        }
        PBT_CHECK(!t.step(), "a finished thread executes another cycle");
        d.check(t);
        // The same thread object can be started again.
        if (g.chance(1, 3)) {
            t.trace.clear();
            t.start();
            t.run();
            compareTrace(d.m->trace, t.trace, "trace of the second run");
            c.label("started again");
        }
    }
    c.nontrivial = d.m->trace.size() >= 2;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C12";
    p.title = "Threads of one state are isolated under every interleaving";
    Cfg cfg;
    cfg.inputs = true; cfg.garbage = true; cfg.hostCalls = true; cfg.items = 9; cfg.mainBudget = 250;
    p.families.push_back({"interleave", "at least ten switches between threads and two observations", [=](Gen &g, Case &c) { interleave(g, c, cfg); }, 6000, 1000000});
    p.families.push_back({"stepping", "at least two observations", [=](Gen &g, Case &c) { stepping(g, c, cfg); }, 4000, 800000});
    return run(argc, argv, p);
}
