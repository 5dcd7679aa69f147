#include "lang.h"
using namespace pbt;
using namespace lang;

static void one(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg, g.chance(1, 5));
    c.nontrivial = d.m->trace.size() >= 3 && d.n("then") + d.n("else") + d.n("iter") + d.n("call") >= 3;
    Host h;
    h.mustCompile(d.text.text);
    Thread t(h);
    t.start();
    t.run();
    d.check(t);
    t.destroy();
}

int main(int argc, char **argv) {
    Property p;
    p.id = "C02";
    p.title = "Statements, control flow, scoping and calls execute as written";
    p.assumptions = {"programs stay within the documented limits (thread stack, call depth) and avoid operations with no defined value"};
    Cfg control;
    control.structs = control.arrays = control.dicts = control.nat = control.anys = control.nullables = control.strings = control.floats = false;
    control.depth = 2; control.nest = 5; control.blockLen = 4; control.items = 10; control.maxFuncs = 4; control.mainBudget = 500;
    Cfg mixed;
    std::string rule = "the program ran at least 3 branches, loop iterations or calls and made at least 3 observations";
    p.families.push_back({"control", rule, [=](Gen &g, Case &c) { one(g, c, control); }, 12000, 2000000});
    p.families.push_back({"mixed", rule, [=](Gen &g, Case &c) { one(g, c, mixed); }, 8000, 1500000});
    return run(argc, argv, p);
}
