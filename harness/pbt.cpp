#include <ftw.h>
#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>

namespace pbt {

bool gVerbose = false;
void installDeathCallback(void (*f)());

std::string strf(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap);
    va_end(ap);
    std::string s(n > 0 ? n : 0, 0);
    if (n > 0) vsnprintf(&s[0], n + 1, fmt, ap2);
    va_end(ap2);
    return s;
}

static const size_t TEXT_CAP = 64 * 1024;
static const size_t MSG_CAP = 8192;
static const int MAXF = 32;
static const int MAXL = 256;
static const int NSAMPLES = 6;
static const size_t SAMPLE_CAP = 3000;

struct WorkerShm {
    volatile int family;
    volatile uint64_t index;      // index of the case being run
    volatile uint64_t progress;   // bumps at every case
    volatile int state;           // 0 running, 1 finished, 2 failure recorded
    uint64_t evals[MAXF], nontriv[MAXF], discards[MAXF];
    char labels[MAXL][48];
    uint64_t labelCounts[MAXL];
    int nlabels;
    volatile uint64_t textLen;
    char text[TEXT_CAP];          // description of the current case
    char msg[MSG_CAP];            // failure message
    int nsamples[MAXF];
    char samples[MAXF][NSAMPLES][SAMPLE_CAP];
};

static WorkerShm *gShm = nullptr;  // slot of this process

void Case::say(const std::string &s) {
    text += s;
    if (gShm) {
        uint64_t at = gShm->textLen;
        uint64_t n = std::min<uint64_t>(s.size(), TEXT_CAP - 1 - at);
        memcpy(gShm->text + at, s.data(), n);
        gShm->textLen = at + n;
        gShm->text[at + n] = 0;
    }
    if (gVerbose) { fputs(s.c_str(), stdout); fflush(stdout); }
}

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static WorkerShm *mapShm(int n) {
    void *p = mmap(nullptr, sizeof(WorkerShm) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (WorkerShm *)p;
}

static void armCpu(int sec) {
    itimerval it{};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
    signal(SIGPROF, SIG_DFL);
}

static void addLabel(WorkerShm *s, const std::string &l) {
    for (int i = 0; i < s->nlabels; ++i)
        if (!strcmp(s->labels[i], l.c_str())) { s->labelCounts[i]++; return; }
    if (s->nlabels >= MAXL) return;
    snprintf(s->labels[s->nlabels], 48, "%s", l.c_str());
    s->labelCounts[s->nlabels++] = 1;
}

// Runs one case.  Returns 0 held, 1 failed (msg set), 2 discarded.
static int runOne(const Family &f, Gen &g, Case &c, std::string &msg) {
    gShm->textLen = 0;
    gShm->text[0] = 0;
    try {
        f.fn(g, c);
        return 0;
    } catch (Failure &e) {
        msg = e.msg;
        return 1;
    } catch (Discard &) {
        return 2;
    }
}

static uint64_t caseSeed(uint64_t seed, const Property &p, int fam, uint64_t idx) {
    return mix(hashStr(p.id + "/" + p.families[fam].name) ^ mix(seed * 0x9E3779B1ULL + 77) ^ mix(idx * 2654435761ULL + 12345));
}

struct Outcome { int status; std::string msg, text, log; };  // 0 held,1 failed,2 discarded

static std::string readFile(const std::string &p, size_t cap = 1 << 20) {
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    if (s.size() > cap) s.resize(cap);
    return s;
}

static std::string gWork;  // scratch directory

static std::string crashMsg(int st, const std::string &log) {
    std::string why;
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        why = s == SIGPROF ? "did not terminate within the CPU limit of one case"
                           : strf("process killed by signal %d (%s)", s, strsignal(s));
    } else
        why = strf("process exited with status %d", WEXITSTATUS(st));
    size_t k = log.find("ERROR: ");
    if (k == std::string::npos) k = log.find("runtime error");
    if (k == std::string::npos) k = log.find("Assertion");
    if (k == std::string::npos) k = log.find("WARNING: ThreadSanitizer");
    if (k != std::string::npos) {
        size_t b = log.rfind('\n', k);
        b = b == std::string::npos ? 0 : b + 1;
        why += "; " + log.substr(b, std::min<size_t>(1500, log.size() - b));
    }
    return why;
}

static void redirect(const std::string &logp) {
    int fd = open(logp.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
    int nl = open("/dev/null", O_RDONLY);
    if (nl >= 0) { dup2(nl, 0); close(nl); }
}

// Replays a choice vector in a forked child.
static Outcome tryChoices(const Property &p, int fam, const std::vector<uint64_t> &ch, WorkerShm *slot, int cpu) {
    static int cnt = 0;
    std::string logp = gWork + strf("/try%d.log", cnt++ % 4);
    slot->state = 0;
    slot->textLen = 0;
    slot->msg[0] = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        gShm = slot;
        setpgid(0, 0);
        redirect(logp);
        armCpu(cpu);
        Gen g;
        g.replaying = true;
        g.choices = ch;
        Case c;
        std::string m;
        int r = runOne(p.families[fam], g, c, m);
        snprintf(slot->msg, MSG_CAP, "%s", m.c_str());
        fflush(stdout);
        _exit(r == 0 ? 0 : r == 1 ? 41 : 42);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    kill(-pid, SIGKILL);
    Outcome o;
    o.text = std::string(slot->text, slot->textLen);
    o.log = readFile(logp);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o.status = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 42) o.status = 2;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 41) { o.status = 1; o.msg = slot->msg; }
    else { o.status = 1; o.msg = crashMsg(st, o.log); }
    return o;
}

static const size_t RECCAP = 200002;

// JSON helpers
static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"') o += "\\\"";
        else if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 0x20 || c >= 0x7f) o += strf("\\u%04x", c);
        else o += (char)c;
    }
    return o;
}

static void writeReplay(const std::string &path, const Property &p, int fam, const std::vector<uint64_t> &ch,
                        const std::string &msg, const std::string &text) {
    std::ofstream f(path);
    f << "property " << p.id << "\nfamily " << p.families[fam].name << "\nchoices";
    for (auto c : ch) f << " " << c;
    f << "\n--- failure\n" << msg << "\n--- case\n" << text << "\n";
}

// Everything below a directory this program has made.
static int removeOne(const char *f, const struct stat *, int, struct FTW *) { return ::remove(f), 0; }
static void removeAll(const std::string &dir) { if (dir.compare(0, 9, "/tmp/pbt-") == 0) nftw(dir.c_str(), removeOne, 16, FTW_DEPTH | FTW_PHYS); }
std::string scratch() {
    std::string d = gWork + "/p" + std::to_string(getpid());
    mkdir(d.c_str(), 0700);
    return d;
}

int run(int argc, char **argv, const Property &p) {
    std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
    std::string evidence, outdir = ".", replay, famOnly;
    uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1;
    double scale = 1;
    uint64_t show = 0;
    double deadline = 0, shrinkSec = -1;
    int64_t single = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = next();
        else if (a == "--evidence") evidence = next();
        else if (a == "--out") outdir = next();
        else if (a == "--replay") replay = next();
        else if (a == "--family") famOnly = next();
        else if (a == "--seed") seed = strtoull(next().c_str(), 0, 10);
        else if (a == "--scale") scale = atof(next().c_str());
        else if (a == "--show") show = strtoull(next().c_str(), 0, 10);
        else if (a == "--case") single = atoll(next().c_str());
        else if (a == "--shrink") shrinkSec = atof(next().c_str());
        else if (a == "--deadline") deadline = atof(next().c_str());
    }
    bool thorough = tier == "thorough";
    if (deadline == 0) deadline = thorough ? 6 * 3600 : 420;
    signal(SIGPIPE, SIG_IGN);
    char tmpl[] = "/tmp/pbt-XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    gWork = tmpl;
    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string line, fam;
        std::vector<uint64_t> ch;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "family") is >> fam;
            if (k == "choices") { uint64_t v; while (is >> v) ch.push_back(v); break; }
        }
        int fi = -1;
        for (size_t i = 0; i < p.families.size(); ++i) if (p.families[i].name == fam) fi = i;
        if (fi < 0) { fprintf(stderr, "unknown family %s\n", fam.c_str()); return 2; }
        gShm = mapShm(1);
        gVerbose = true;
        Gen g;
        g.replaying = true;
        g.choices = ch;
        Case c;
        std::string m;
        armCpu(p.cpuPerCase);
        int r = runOne(p.families[fi], g, c, m);
        removeAll(gWork);
        printf("\nreplay: %s %s\n", r == 0 ? "HELD" : r == 1 ? "FAILED:" : "DISCARDED", m.c_str());
        return r == 1 ? 1 : 0;
    }
    double t0 = now();
    int W = p.workers;
    WorkerShm *shm = mapShm(W + 1);
    std::vector<uint64_t *> recs;
    for (int w = 0; w < W; ++w)
        recs.push_back((uint64_t *)mmap(nullptr, RECCAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));

    struct Range { int fam; uint64_t n; };
    std::vector<Range> ranges;
    for (size_t i = 0; i < p.families.size(); ++i) {
        if (!famOnly.empty() && p.families[i].name != famOnly) continue;
        uint64_t n = (uint64_t)((thorough ? p.families[i].thorough : p.families[i].quick) * scale);
        if (n == 0) n = 1;
        ranges.push_back({(int)i, n});
    }
    if (show || single >= 0) {  // print some generated cases
        gShm = &shm[W];
        for (auto &r : ranges)
            for (uint64_t i = single >= 0 ? single : 0; i < (single >= 0 ? single + 1 : show); ++i) {
                Gen g;
                g.st = caseSeed(seed, p, r.fam, i);
                Case c;
                std::string m;
                if (single >= 0) gVerbose = true;
                int st = runOne(p.families[r.fam], g, c, m);
                printf("=== %s #%llu  [%s]%s %s\n%s\n", p.families[r.fam].name.c_str(), (unsigned long long)i,
                       st == 0 ? "held" : st == 1 ? "FAILED" : "discarded", c.nontrivial ? " nontrivial" : "", m.c_str(), c.text.c_str());
            }
        removeAll(gWork);
        return 0;
    }

    std::vector<pid_t> pids(W);
    for (int w = 0; w < W; ++w) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            gShm = &shm[w];
            setpgid(0, 0);
            redirect(gWork + strf("/w%d.log", w));
            FILE *hf = fopen((gWork + strf("/w%d.hash", w)).c_str(), "wb");
            Gen g;
            for (auto &r : ranges) {
                const Family &f = p.families[r.fam];
                gShm->family = r.fam;
                std::unordered_set<uint64_t> seen;
                for (uint64_t i = w; i < r.n; i += W) {
                    if ((i / W) % 64 == 0 && now() - t0 > deadline) break;
                    gShm->index = i;
                    gShm->progress++;
                    if ((i / W) % 256 == 0) {
                        armCpu(p.cpuPerCase * 2);
                        if (ftruncate(1, 0)) {}
                    } else if ((i / W) % 4 == 0) armCpu(p.cpuPerCase * 2);
                    g.choices.clear();
                    g.pos = 0;
                    g.st = caseSeed(seed, p, r.fam, i);
                    Case c;
                    std::string m;
                    int st = runOne(f, g, c, m);
                    gShm->evals[r.fam]++;
                    if (st == 2) { gShm->discards[r.fam]++; continue; }
                    if (st == 1) {
                        snprintf(gShm->msg, MSG_CAP, "%s", m.c_str());
                        size_t n = std::min(g.choices.size(), RECCAP - 2);
                        recs[w][0] = n;
                        for (size_t k = 0; k < n; ++k) recs[w][k + 1] = g.choices[k];
                        gShm->state = 2;
                        fclose(hf);
                        _exit(0);
                    }
                    for (auto &l : c.labels) addLabel(gShm, f.name + ":" + l);
                    if (c.nontrivial) {
                        gShm->nontriv[r.fam]++;
                        uint64_t h = hashStr(c.text, r.fam + 1);
                        if (seen.insert(h).second) fwrite(&h, 8, 1, hf);
                        // spread the samples: the first few non-trivial cases that are not huge
                        if (gShm->nsamples[r.fam] < NSAMPLES && c.text.size() < SAMPLE_CAP - 1)
                            snprintf(gShm->samples[r.fam][gShm->nsamples[r.fam]++], SAMPLE_CAP, "%s", c.text.c_str());
                    }
                }
            }
            fclose(hf);
            gShm->state = 1;
            _exit(0);
        }
        pids[w] = pid;
    }
    // Wait; the first failure stops the others.
    struct Found { int w; int st; };
    std::vector<Found> found;
    int alive = W;
    std::vector<uint64_t> last(W, 0);
    std::vector<double> lastT(W, now());
    std::vector<bool> done(W, false);
    bool earlyStop = false;
    while (alive > 0) {
        for (int w = 0; w < W; ++w) {
            if (done[w]) continue;
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                done[w] = true;
                --alive;
                kill(-pids[w], SIGKILL);
                bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm[w].state == 1;
                if (!ok) found.push_back({w, st});
            } else if (shm[w].progress != last[w]) {
                last[w] = shm[w].progress;
                lastT[w] = now();
            } else if (now() - lastT[w] > 240) {  // blocked without using CPU
                kill(-pids[w], SIGABRT);
                kill(pids[w], SIGABRT);
                lastT[w] = now();
            }
        }
        if (!found.empty())
            for (int w = 0; w < W; ++w)
                if (!done[w]) kill(pids[w], SIGKILL);
        if (!found.empty()) {
            for (int w = 0; w < W; ++w)
                if (!done[w]) { int st; waitpid(pids[w], &st, 0); kill(-pids[w], SIGKILL); done[w] = true; --alive; }
        }
        usleep(5000);
    }
    int violations = 0;
    std::string violMsg, replayPath;
    int rc = 0;
    for (auto &fd : found) {
        if (violations) break;
        WorkerShm &s = shm[fd.w];
        int fam = s.family;
        uint64_t idx = s.index;
        std::vector<uint64_t> ch;
        std::string msg, text(s.text, s.textLen);
        WorkerShm *slot = &shm[W];
        std::string wlog = readFile(gWork + strf("/w%d.log", fd.w), 1 << 22);
        if (s.state == 2) {
            ch.assign(recs[fd.w] + 1, recs[fd.w] + 1 + recs[fd.w][0]);
            msg = s.msg;
        } else {
            msg = crashMsg(fd.st, wlog);
            // Re-run generation in a child that records its choices in shared memory as it goes.
            uint64_t *rec = recs[fd.w];
            rec[0] = 0;
            pid_t pid = fork();
            if (pid == 0) {
                gShm = slot;
                redirect(gWork + "/regen.log");
                armCpu(p.cpuPerCase * 2);
                Gen g;
                g.st = caseSeed(seed, p, fam, idx);
                g.choices.reserve(RECCAP);
                // Copied to shared memory at exit, on fatal signals and from the sanitizer's death callback.
                static Gen *gp;
                static uint64_t *rp;
                gp = &g;
                rp = rec;
                auto dump = [](int sig) {
                    size_t n = std::min(gp->choices.size(), RECCAP - 2);
                    for (size_t k = 0; k < n; ++k) rp[k + 1] = gp->choices[k];
                    rp[0] = n;
                    if (sig) { signal(sig, SIG_DFL); raise(sig); }
                };
                static void (*dumpf)(int);
                dumpf = dump;
                for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGTRAP}) signal(sg, dumpf);
                atexit([] { dumpf(0); });
                installDeathCallback([] { dumpf(0); });
                Case c;
                std::string m;
                int r = runOne(p.families[fam], g, c, m);
                dumpf(0);
                _exit(r == 1 ? 41 : 0);
            }
            int st2;
            waitpid(pid, &st2, 0);
            ch.assign(rec + 1, rec + 1 + rec[0]);
        }
        // Confirm.
        auto cmp = tryChoices(p, fam, ch, slot, p.cpuPerCase * 2);
        bool reproducible = cmp.status == 1;
        if (!reproducible) {
            // maybe schedule dependent: try a few times
            for (int k = 0; k < 5 && !reproducible; ++k) {
                cmp = tryChoices(p, fam, ch, slot, p.cpuPerCase * 2);
                reproducible = cmp.status == 1;
            }
        }
        if (!reproducible && p.trustFlaky) {
            msg = "(schedule dependent) " + msg;
        } else if (!reproducible) {
            // Depends on what ran before in the same process: cannot be believed as is.  Re-run the
            // prefix of this worker's cases in a fresh process to see whether it comes back.
            pid_t pid = fork();
            if (pid == 0) {
                gShm = slot;
                redirect(gWork + "/prefix.log");
                Gen g;
                for (auto &r : ranges) {
                    for (uint64_t i = fd.w; i < r.n; i += W) {
                        armCpu(p.cpuPerCase * 2);
                        g.choices.clear(); g.pos = 0; g.st = caseSeed(seed, p, r.fam, i);
                        Case c; std::string m;
                        int st = runOne(p.families[r.fam], g, c, m);
                        if (st == 1) { snprintf(slot->msg, MSG_CAP, "%s", m.c_str()); _exit(41); }
                        if (r.fam == fam && i == idx) _exit(0);
                    }
                }
                _exit(0);
            }
            int st2;
            waitpid(pid, &st2, 0);
            if (WIFEXITED(st2) && WEXITSTATUS(st2) == 0) {
                printf("note: %s: a failure of family %s case %llu did not reproduce, ignored: %s\n", p.id.c_str(),
                       p.families[fam].name.c_str(), (unsigned long long)idx, msg.c_str());
                fprintf(stderr, "%s\n", wlog.substr(0, 4000).c_str());
                continue;
            }
            msg = "(needs the preceding cases of the same process; replay with --seed) " + msg;
        } else {
            msg = cmp.msg;
            text = cmp.text;
            // Shrink.
            double st0 = now(), budget = shrinkSec >= 0 ? shrinkSec : thorough ? 120 : 45;
            int attempts = 0;
            bool isHang = msg.find("did not terminate") != std::string::npos;
            int cpu = isHang ? 4 : p.cpuPerCase;
            auto attempt = [&](const std::vector<uint64_t> &c2) {
                if (now() - st0 > budget || attempts > 6000) return false;
                ++attempts;
                auto o = tryChoices(p, fam, c2, slot, cpu);
                if (o.status == 1) { msg = o.msg; text = o.text; return true; }
                return false;
            };
            bool progress = true;
            while (progress && now() - st0 < budget) {
                progress = false;
                for (size_t len = std::max<size_t>(1, ch.size() / 2); len >= 1; len /= 2) {
                    for (size_t at = 0; at + len <= ch.size();) {
                        auto c2 = ch;
                        c2.erase(c2.begin() + at, c2.begin() + at + len);
                        if (attempt(c2)) { ch = c2; progress = true; }
                        else at += len;
                        if (now() - st0 > budget) break;
                    }
                    if (now() - st0 > budget) break;
                }
                for (size_t i = 0; i < ch.size() && now() - st0 < budget; ++i) {
                    if (ch[i] == 0) continue;
                    auto c2 = ch;
                    c2[i] = 0;
                    if (attempt(c2)) { ch = c2; progress = true; continue; }
                    uint64_t lo = 0, hi = ch[i];
                    while (hi - lo > 1 && now() - st0 < budget) {
                        uint64_t mid = lo + (hi - lo) / 2;
                        c2[i] = mid;
                        if (attempt(c2)) { hi = mid; ch = c2; progress = true; }
                        else lo = mid;
                    }
                }
                while (!ch.empty() && ch.back() == 0) ch.pop_back();
            }
        }
        ++violations;
        mkdir(outdir.c_str(), 0755);
        replayPath = outdir + "/" + p.id + "-" + p.families[fam].name + ".case";
        writeReplay(replayPath, p, fam, ch, msg, text);
        violMsg = msg;
        printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), replayPath.c_str());
        printf("family: %s (case %llu, seed %llu)\nfailure: %s\ncase:\n%s\n", p.families[fam].name.c_str(),
               (unsigned long long)idx, (unsigned long long)seed, msg.c_str(), text.substr(0, 6000).c_str());
        rc = 1;
    }
    // Evidence
    uint64_t evals = 0, nontriv = 0, disc = 0;
    std::map<std::string, uint64_t> labels;
    std::set<uint64_t> distinct;
    std::string famJson, samples, rules;
    for (auto &r : ranges) {
        uint64_t e = 0, n = 0, d = 0;
        for (int w = 0; w < W; ++w) { e += shm[w].evals[r.fam]; n += shm[w].nontriv[r.fam]; d += shm[w].discards[r.fam]; }
        if (e < r.n) earlyStop = true;
        evals += e; nontriv += n; disc += d;
        const Family &f = p.families[r.fam];
        famJson += strf("%s{\"name\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"discarded\":%llu}", famJson.empty() ? "" : ",",
                        f.name.c_str(), (unsigned long long)e, (unsigned long long)n, (unsigned long long)d);
        rules += (rules.empty() ? "" : "; ") + f.name + ": " + f.rule;
        int got = 0;
        for (int w = 0; w < W && got < 3; ++w)
            if (shm[w].nsamples[r.fam] > 0) {
                samples += strf("%s\"%s\"", samples.empty() ? "" : ",", jesc(f.name + ":\n" + shm[w].samples[r.fam][0]).c_str());
                ++got;
            }
    }
    for (int w = 0; w < W; ++w) {
        for (int i = 0; i < shm[w].nlabels; ++i) labels[shm[w].labels[i]] += shm[w].labelCounts[i];
        std::string h = readFile(gWork + strf("/w%d.hash", w), 1 << 30);
        for (size_t i = 0; i + 8 <= h.size(); i += 8) { uint64_t v; memcpy(&v, &h[i], 8); distinct.insert(v); }
    }
    std::string labJson;
    for (auto &l : labels) labJson += strf("%s\"%s\":%llu", labJson.empty() ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second);
    std::string ass;
    for (auto &a : p.assumptions) ass += (ass.empty() ? "\"" : ",\"") + jesc(a) + "\"";
    double wall = now() - t0;
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << "{\"property\":\"" << p.id << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"level\":\"exploration\",\"coverage\":{"
          << "\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << distinct.size() << ",\"nontrivial\":" << nontriv
          << ",\"discarded\":" << disc << ",\"rule\":\"" << jesc(rules) << "\",\"families\":[" << famJson << "],\"labels\":{" << labJson
          << "},\"stopped_early\":" << (earlyStop ? "true" : "false") << ",\"samples\":[" << samples << "]},\"wall_s\":" << strf("%.2f", wall)
          << ",\"violations\":" << violations << ",\"assumptions\":[" << ass << "]}\n";
    }
    printf("%s %s: %llu cases (%zu distinct non-trivial, %llu discarded) in %.1fs, %d violation(s)\n", p.id.c_str(), tier.c_str(),
           (unsigned long long)evals, distinct.size(), (unsigned long long)disc, wall, violations);
    if (gVerbose || getenv("PBT_LABELS"))
        for (auto &l : labels) printf("  %-50s %llu\n", l.first.c_str(), (unsigned long long)l.second);
    removeAll(gWork);
    return rc;
}

}  // namespace pbt

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace pbt {
void installDeathCallback(void (*f)()) { if (&__sanitizer_set_death_callback) __sanitizer_set_death_callback(f); }
}
