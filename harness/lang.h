// A typed generator, printer and reference interpreter for the Tiny language, and a host which runs
// the printed text on the real implementation and records the same observations.
#pragma once
#include <cmath>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

#include "pbt.h"

extern "C" {
#include "array.h"
#include "dict.h"
#include "tiny.h"
}

namespace lang {

enum class K { Void, Bool, Int, Float, Str, Any, Nat, Struct, Nullable, Array, Dict };

struct Struct;
// Interned.  `inner` is the element type of arrays, the wrapped type of nullables, the type of the
// values an `any` holds and the type of the values of a dict (the last two exist only here: the
// program text just says any and dict).
struct Type {
    K k;
    const Type *inner = nullptr;
    Struct *st = nullptr;
    std::string arrName;  // arrays: name given in `use array(..) as`
    std::string name() const;
};

struct Field { std::string name; const Type *type; };
struct Struct { std::string name; std::vector<Field> fields; int index; };

enum class VS { Global, Local, Arg, Const };
struct Expr;
struct Func;
struct Var {
    std::string name;
    const Type *type = nullptr;
    VS vs = VS::Global;
    int slot = 0;          // index in the frame / globals
    bool readonly = false; // loop counters, fuel
    Expr *init = nullptr;  // constants
    bool fixedName = false;  // bound by the host
};

enum class EK {
    Int, Char, Hex, Float, Str, Bool, Null, Var, Bin, Un, Tern, Call, FCall, New, Dot, Index, Cast, Paren
};
struct Expr {
    EK k;
    const Type *type = nullptr;
    int64_t i = 0;
    double f = 0;
    std::string s;            // string value / operator / builtin name / float text
    Var *v = nullptr;
    Func *fn = nullptr;
    std::vector<Expr *> a;
    std::vector<int> order;   // New: order in which the named fields are written (empty: positional)
    int field = 0;            // Dot
    bool arrow = false;       // calls written as a->f(b)
    bool raw = false;         // s is printed verbatim (used to plant mistakes)
    bool viaHost = false;     // Call: made by a foreign function, hc("name", ...)
};

enum class SK { Expr, Decl, Assign, If, While, For, Block, Break, Continue, Return, Const, Raw };
struct Stmt {
    SK k;
    Var *v = nullptr;          // Decl / Const
    bool typed = false;        // Decl: written with its type
    Expr *e = nullptr;         // value / condition / call
    Expr *lhs = nullptr;       // Assign
    std::string op;            // Assign
    std::vector<Stmt *> body, alt;
    bool hasAlt = false, bare = false;  // bare: body written without braces
    Stmt *init = nullptr, *step = nullptr;
    std::string raw;
    int line = 0, endLine = 0; // filled by the printer: first and last line of the statement's own tokens
    int id = 0;
};

struct Func {
    std::string name;
    std::vector<Var *> params;
    const Type *ret;
    std::vector<Stmt *> body;
    int nslots = 0;   // arguments and locals
    bool fuel = false;
    int group = -1;
    bool done = false;
    int selfCalls = 0;
    int index = 0;
    bool early = false;  // uses nothing which is declared after the prologue
};

struct Item {  // top level
    enum T { IStruct, IFunc, IStmt, IUse } t;
    Struct *st = nullptr;
    std::vector<Func *> fns;
    Stmt *s = nullptr;
    const Type *arr = nullptr;  // IUse
};

// Features the generated programs may use.
struct Cfg {
    int items = 10;         // statements at the top level
    int blockLen = 4;
    int depth = 3;          // of expressions
    int nest = 3;           // of statements
    int maxFuncs = 3, maxStructs = 2, maxGlobals = 5;
    bool floats = true, strings = true, structs = true, arrays = true, dicts = true, nat = true, anys = true, nullables = true;
    bool loops = true, calls = true, trace = true;
    bool defBeforeUse = false;  // functions and structs appear before the statements using them
    bool lineProbe = false;     // use here()
    bool garbage = false;       // use junk(n)
    bool inputs = false;        // use inp(k), which differs from thread to thread
    bool hostCalls = false;     // some calls go through a foreign function
    int mainBudget = 400, funcBudget = 90;  // expression nodes
    bool shadow = true;
    bool consts = true;
};

struct Program {
    std::vector<std::unique_ptr<Type>> types;
    std::vector<std::unique_ptr<Struct>> structs;
    std::vector<std::unique_ptr<Func>> funcs;
    std::vector<std::unique_ptr<Var>> vars;
    std::vector<std::unique_ptr<Expr>> exprs;
    std::vector<std::unique_ptr<Stmt>> stmts;
    std::vector<Item> items;
    std::vector<Var *> globals;  // in slot order
    size_t prologueItems = 0;    // items before the first ordinary statement
    std::map<std::string, int> stats;

    const Type *prim(K k);
    const Type *nullable(const Type *t);
    const Type *array(const Type *t);
    const Type *any(const Type *hidden);
    const Type *dict(const Type *val);
    const Type *strukt(Struct *s);
    Expr *expr(EK k, const Type *t);
    Stmt *stmt(SK k);
    Program();
    Program(const Program &) = delete;
};

void generate(pbt::Gen &g, const Cfg &c, Program &p);

// An expression over literals, constants, variables and calls; used by the expression checks.
struct Layout {
    pbt::Gen *g = nullptr;  // random layout when set
};
struct Printed {
    std::string text;
    std::vector<size_t> itemStart;  // offset of each top-level item
};
Printed print(Program &p, const Layout &l = {});
std::string exprText(const Program &p, const Expr *e);

// ---------------------------------------------------------------- reference interpreter
struct Val {
    enum T : uint8_t { Nul, Bool, Int, Float, Str, Obj } t = Nul;
    int64_t i = 0;
    double f = 0;
    std::shared_ptr<const std::string> s;
    int o = -1;
    static Val null() { return {}; }
    static Val b(bool v) { Val r; r.t = Bool; r.i = v; return r; }
    static Val n(int64_t v) { Val r; r.t = Int; r.i = v; return r; }
    static Val fl(double v) { Val r; r.t = Float; r.f = v; return r; }
    static Val st(const std::string &v) { Val r; r.t = Str; r.s = std::make_shared<const std::string>(v); return r; }
    static Val ob(int v) { Val r; r.t = Obj; r.o = v; return r; }
};
bool valEq(const Val &a, const Val &b);
struct MObj {
    enum T { St, Arr, Nat, Dict } t;
    std::vector<Val> f;
    std::vector<std::pair<Val, Val>> d;
    int64_t id = 0;
};

struct Machine {
    Program &p;
    std::vector<MObj> heap;
    std::vector<Val> globals;
    std::vector<std::string> trace;
    uint64_t steps = 0, maxSteps = 20000;
    int depth = 0, stack = 0, maxStack = 0, maxDepth = 0;
    int allocs = 0;
    int64_t input = 0;   // what inp() depends on
    Stmt *cur = nullptr;
    std::map<std::string, uint64_t> seen;  // dynamic coverage counters

    explicit Machine(Program &p) : p(p), globals(p.globals.size()) {}
    void runItems(size_t from, size_t to);
    void run() { runItems(0, p.items.size()); }
    Val call(Func *f, const std::vector<Val> &args);
    std::string dump(const Val &v);
    std::string dumpAll(const std::vector<Val> &v);
    Val eval(Expr *e);
    std::vector<Stmt *> hereStmts;  // for each call of here(): the statement containing it
    Val newObj(MObj::T t);

private:
    struct Frame { std::vector<Val> slots; Val ret; };
    Frame *fr = nullptr;
    enum Flow { Next, Brk, Cont, Ret };
    Flow exec(Stmt *s);
    Flow execList(std::vector<Stmt *> &b);
    Val &slot(Var *v);
    Val builtin(Expr *e, std::vector<Val> &a);
    void assign(Expr *lhs, Val v);
    Val bin(const std::string &op, const Val &a, const Val &b);
    void push(int n) { stack += n; if (stack > maxStack) maxStack = stack; if (stack > 100) throw pbt::Discard{}; }
    void pop(int n) { stack -= n; }
};

// ---------------------------------------------------------------- real implementation
// A context which owns and checks every block.
struct Ctx {
    std::unordered_map<void *, size_t> live;
    size_t cur = 0, peak = 0, total = 0, calls = 0;
    size_t cap = 512u << 20;
    std::string error;       // first misuse
    bool noRealloc = false;
    bool packed = false;         // blocks lie next to each other without gaps, each new one below the last
    std::unique_ptr<char[]> pool;
    size_t low = 0;
    static constexpr size_t kPool = 4u << 20;
    void *take(size_t n);
    void give(void *p);
    Tiny_Context ctx();
    void check(const char *what);  // fails if there was misuse
    Ctx() {}
    Ctx(const Ctx &) = delete;
    ~Ctx();
};

struct Thread;
struct NatRec { int64_t id; Thread *thread; int freed = 0; int marked = 0; };

struct Host {
    Ctx stateCtx;
    Tiny_State *state = nullptr;
    Host(bool standard = true);   // creates the state and binds the test functions
    ~Host();
    Tiny_CompileResult compile(const std::string &text, const char *name = "prog");
    void mustCompile(const std::string &text, const char *name = "prog");
};

struct Thread {
    Host &h;
    Ctx ctx;
    std::unique_ptr<Tiny_StateThread> t;
    std::vector<std::string> trace;
    std::vector<std::unique_ptr<NatRec>> nats;
    size_t natFreed = 0;
    std::string error;       // misuse noticed by the host functions
    bool destroyed = false;
    std::function<Tiny_Value(Thread &, const Tiny_Value *, int)> hook;  // called by hook(...)
    std::vector<std::pair<std::string, int>> hereLines;  // file and line reported to here()
    int maxTrace = 100000;
    int64_t input = 0;
    std::function<void(Thread &)> onForeign;   // called inside every traced foreign call

    explicit Thread(Host &h);
    ~Thread();
    void start();
    void run();                 // to the end
    bool step();                // one cycle
    void destroy();
    std::string dump(Tiny_Value v);
    std::string dumpAll(const Tiny_Value *v, int n);
    std::string global(const std::string &name);
    static Thread &of(Tiny_StateThread *t);
};

// Compares the machine with a finished thread: traces and globals.
void compareTrace(const std::vector<std::string> &want, const std::vector<std::string> &got, const char *what = "trace");
void compareGlobals(Machine &m, Thread &t);

// Generates a program, runs the model and the implementation and compares what can be observed.
// Leaves coverage labels in the case and says whether the model executed anything of interest.
struct Diff {
    Program p;
    Printed text;
    std::unique_ptr<Machine> m;
    void make(pbt::Gen &g, pbt::Case &c, const Cfg &cfg, bool randomLayout = false);
    void check(Thread &t);
    uint64_t n(const char *s) { auto it = m->seen.find(s); return it == m->seen.end() ? 0 : it->second; }
};

// Set while the implementation runs and no host function is active (used to notice allocations which bypass the contexts).
extern thread_local bool gInTiny;

int64_t inputValue(int64_t seed, int64_t k);
std::string quote(const std::string &s);
std::string fmtFloat(double d);
std::string floatText(double d);  // literal text which denotes exactly d

}  // namespace lang

extern "C" {
int shim_struct_count(Tiny_Value v);
}
