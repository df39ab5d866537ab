#include <sys/time.h>
#include "mc.h"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ucontext.h>

namespace mc {
    namespace {
        constexpr int MAXW = 32, MAXTRACE = 400000, MAXPREFIX = 8192, MAXLEVEL = 12;
        constexpr int EXIT_FAIL = 77, EXIT_CHILD = 78, EXIT_INTERNAL = 79;

        struct Dev { uint32_t pos; uint16_t choice; uint16_t n; };
        struct Point { uint16_t n; uint16_t choice; uint8_t kind; };

        enum SlotState : uint32_t { IDLE = 0, RUNNING = 1 };

        struct Slot {
            std::atomic<uint64_t> beat;
            std::atomic<uint32_t> state;
            uint64_t cur, end;                 // enumerate
            uint32_t nprefix;
            Dev prefix[MAXPREFIX];
            uint32_t ntrace;
            uint32_t child_pid;
            int child_sig;
            bool failed, internal;
            char sig[512], msg[6000], ctx[256];
            uint32_t nlog;
            char log[24000];
            Point trace[MAXTRACE];
        };

        struct Sample { std::atomic<int> ready; uint64_t index; char text[3000]; };

        struct Shared {
            std::atomic<uint64_t> next, execs, steps, vac, points, maxpoints;
            std::atomic<int64_t> outstanding;
            std::atomic<int> lock;
            std::atomic<int> stop;             // workers: finish
            std::atomic<int> capped;
            uint64_t top[MAXLEVEL], nlevel[MAXLEVEL], high[MAXLEVEL], done_level[MAXLEVEL];
            std::atomic<uint64_t> nstates, noutcomes;
            std::atomic<int> table_full, nsample;
            Sample samples[8];
            Slot slots[MAXW + 1];
        };

        constexpr uint64_t ARENA = 1ull << 31;
        constexpr int STATE_BITS = 25, OUT_BITS = 20;

        Shared *S;
        uint8_t *arena[MAXLEVEL];
        std::atomic<uint64_t> *states_tab, *out_tab;
        Slot *me;                 // slot of this worker
        int me_id = -1;
        uint64_t local_steps = 0;
        bool in_exec = false, solo = false, flat_mode = false, g_verbose = false;
        const Opts *cur_opts;
        uint32_t replay_pos;      // next prefix entry
        int phase_no = 0;
        std::string scratch_dir, g_root_scratch, g_self;
        double t_start, deadline;
        bool g_thorough, g_all = false;
        uint64_t g_seed = 1;

        // replay request
        std::string rp_phase;
        bool rp = false, rp_done = false;
        uint64_t rp_unit = 0;
        std::vector<Dev> rp_prefix;

        struct PhaseStat {
            std::string name, mode, bounds;
            uint64_t execs, planned, steps, points, maxpoints, vac, states, outcomes;
            bool complete;
            std::vector<uint64_t> levels;
            double wall;
        };
        std::vector<PhaseStat> phases;
        std::vector<std::string> all_samples;
        std::map<std::string, std::string> known;            // sig -> text
        std::map<std::string, uint64_t> known_hit;
        std::vector<std::pair<std::string, std::string>> violations; // sig, replay path
        std::map<std::string, std::string> bounds_kv;
        std::vector<std::string> assumptions;

        double now() {
            struct timespec ts;
            clock_gettime(CLOCK_MONOTONIC, &ts);
            return ts.tv_sec + ts.tv_nsec * 1e-9;
        }

        void nap(long us) {
            struct timespec ts{us / 1000000, (us % 1000000) * 1000};
            syscall(SYS_nanosleep, &ts, nullptr);
        }

        void lock() {
            int k = 0;
            while (S->lock.exchange(1, std::memory_order_acquire)) if (++k > 200) { k = 0; syscall(SYS_sched_yield); }
        }

        void unlock() { S->lock.store(0, std::memory_order_release); }

        void *shm(size_t n) {
            void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
            return p;
        }

        int level_of(const Dev *, uint32_t) { return 0; }

        void push_locked(int level, const Dev *d, uint32_t n) {
            uint64_t need = n * sizeof(Dev) + 4;
            if (S->top[level] + need > ARENA) { S->capped = 1; return; }
            memcpy(arena[level] + S->top[level], d, n * sizeof(Dev));
            S->top[level] += n * sizeof(Dev);
            memcpy(arena[level] + S->top[level], &n, 4);
            S->top[level] += 4;
            S->nlevel[level]++;
            S->outstanding++;
        }

        bool pop(Slot *s, int &level) {
            lock();
            for (int l = 0; l < MAXLEVEL; l++) {
                if (S->top[l] == 0) continue;
                uint32_t n;
                S->top[l] -= 4;
                memcpy(&n, arena[l] + S->top[l], 4);
                S->top[l] -= n * sizeof(Dev);
                memcpy(s->prefix, arena[l] + S->top[l], n * sizeof(Dev));
                s->nprefix = n;
                S->nlevel[l]--;
                S->done_level[l]++;
                level = l;
                unlock();
                return true;
            }
            unlock();
            return false;
        }

        // Push every one-more-deviation extension of the execution in s.
        void push_children(Slot *s, const Opts &o) {
            uint32_t first = s->nprefix ? s->prefix[s->nprefix - 1].pos + 1 : 0;
            int used[NKIND] = {}, total = 0;
            for (uint32_t i = 0; i < s->nprefix; i++) {
                int k = s->trace[s->prefix[i].pos].kind;
                used[k]++;
                if (k != FREE) total++;
            }
            if (first >= s->ntrace) return;
            if (s->nprefix + 1 >= MAXPREFIX) { S->capped = 1; return; }
            Dev buf[MAXPREFIX];
            memcpy(buf, s->prefix, s->nprefix * sizeof(Dev));
            lock();
            for (uint32_t i = s->ntrace; i-- > first;) {
                auto &t = s->trace[i];
                if (t.kind != FREE && (total + 1 > o.total || used[t.kind] + 1 > o.kinds[t.kind])) continue;
                int lv = total + (t.kind != FREE);
                if (lv >= MAXLEVEL) lv = MAXLEVEL - 1;
                for (uint32_t alt = t.n; alt-- > 1;) {
                    buf[s->nprefix] = Dev{i, (uint16_t) alt, t.n};
                    push_locked(lv, buf, s->nprefix + 1);
                }
            }
            unlock();
        }

        void begin_exec(Slot *s) {
            s->ntrace = 0;
            s->failed = false;
            s->internal = false;
            s->child_sig = 0;
            s->nlog = 0;
            s->log[0] = 0;
            s->ctx[0] = 0;
            s->sig[0] = s->msg[0] = 0;
            replay_pos = 0;
            s->beat++;
            s->state = RUNNING;
            in_exec = true;
        }

        void end_exec(Slot *s) {
            in_exec = false;
            if (!flat_mode && replay_pos != s->nprefix) {
                in_exec = true;
                internal_error("replay diverged: the execution ended before all recorded choices were used");
            }
            uint64_t idx = S->execs++;
            S->steps.fetch_add(local_steps, std::memory_order_relaxed);
            local_steps = 0;
            S->points += s->ntrace;
            uint64_t m = S->maxpoints;
            while (s->ntrace > m && !S->maxpoints.compare_exchange_weak(m, s->ntrace)) {}
            if (s->nlog && (idx == 0 || idx == 11 || idx == 211 || idx == 5003 || idx == 70001)) {
                int k = S->nsample++;
                if (k < 8) {
                    S->samples[k].index = idx;
                    snprintf(S->samples[k].text, sizeof S->samples[k].text, "%s", s->log);
                    S->samples[k].ready = 1;
                }
            }
            s->state = IDLE;
        }

        void run_body_hooks(const std::function<void()> &f) {
            if (on_execution_begin) on_execution_begin();
            f();
            if (on_execution_end) on_execution_end();
        }

        // Run one execution in this process, or in a child of it. Returns only if it ended well.
        void run_one(Slot *s, const Opts &o, const std::function<void()> &f) {
            begin_exec(s);
            if (!o.fork_each || solo) {
                run_body_hooks(f);
                end_exec(s);
                return;
            }
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                run_body_hooks(f);
                end_exec(s);
                _exit(0);
            }
            s->child_pid = p;
            int st;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            s->child_pid = 0;
            in_exec = false;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
            if (WIFSIGNALED(st)) { s->child_sig = WTERMSIG(st); _exit(EXIT_CHILD); }
            if (WIFEXITED(st)) _exit(WEXITSTATUS(st) == EXIT_FAIL || WEXITSTATUS(st) == EXIT_INTERNAL ? WEXITSTATUS(st) : 80);
        }

        void rm_rf(const std::string &d) {
            if (d.size() < 8) return;
            DIR *dp = opendir(d.c_str());
            if (!dp) return;
            while (auto *e = readdir(dp)) {
                std::string n = e->d_name;
                if (n == "." || n == "..") continue;
                std::string p = d + "/" + n;
                struct stat st;
                if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(p);
                else unlink(p.c_str());
            }
            closedir(dp);
            rmdir(d.c_str());
        }

        std::string errfile(int w) { return g_root_scratch + "/w" + std::to_string(w) + ".err"; }

        pid_t spawn(int w, const std::function<void()> &loop) {
            fflush(stdout);
            fflush(stderr);
            pid_t p = fork();
            if (p < 0) { perror("fork"); exit(2); }
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                struct rlimit rl{0, 0};
                setrlimit(RLIMIT_CORE, &rl);
                me = &S->slots[w];
                me_id = w;
                scratch_dir = g_root_scratch + "/w" + std::to_string(w);
                rm_rf(scratch_dir);
                mkdir(scratch_dir.c_str(), 0777);
                if (!(g_verbose && solo)) {
                    int fd = open(errfile(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
                    dup2(fd, 2);
                    if (fd != 2) close(fd);
                }
                int nul = open("/dev/null", O_RDONLY);
                dup2(nul, 0);
                if (!(g_verbose && solo)) {
                    int nw = open("/dev/null", O_WRONLY);
                    dup2(nw, 1);
                    close(nw);
                }
                close(nul);
                // crashes on an overflowed or foreign stack must still die by signal: default dispositions
                signal(SIGPIPE, SIG_IGN);
                if (chdir(scratch_dir.c_str())) {}
                loop();
                _exit(0);
            }
            return p;
        }

        std::string tail_of(const std::string &path) {
            std::string out;
            int fd = open(path.c_str(), O_RDONLY);
            if (fd < 0) return out;
            char b[65536];
            ssize_t k;
            while ((k = read(fd, b, sizeof b)) > 0) {
                out.append(b, k);
                if (out.size() > 400000) break;
            }
            close(fd);
            auto p = out.find("ERROR: AddressSanitizer");
            if (p != std::string::npos) return out.substr(p, 2500);
            p = out.find("OUT-OF-BOUNDS");
            if (p != std::string::npos) return out.substr(p, 300);
            return out.size() > 1500 ? out.substr(out.size() - 1500) : out;
        }

        // classification of an abnormal end
        struct Verdict { bool bad = false, internal = false; std::string sig, msg; };

        Verdict classify(Slot *s, int w, int st, bool hang) {
            Verdict v;
            std::string ctx = s->ctx[0] ? std::string("@") + s->ctx : "";
            if (hang) {
                v.bad = true;
                v.sig = "hang" + ctx;
                v.msg = "the execution did not finish";
                return v;
            }
            int sg = WIFSIGNALED(st) ? WTERMSIG(st) : (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_CHILD ? s->child_sig : 0);
            if (sg) {
                v.bad = true;
                std::string t = tail_of(errfile(w));
                std::string kind = "crash:" + std::string(strsignal(sg));
                if (sg == SIGKILL) { v.internal = true; }
                if (t.rfind("ERROR: AddressSanitizer: ", 0) == 0) {
                    auto a = t.substr(25);
                    kind = "memory:" + a.substr(0, a.find_first_of(" \n:"));
                } else if (t.rfind("OUT-OF-BOUNDS", 0) == 0) kind = "memory:out-of-bounds";
                v.sig = kind + ctx;
                v.msg = t;
                return v;
            }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return v;
            if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL && s->failed) {
                v.bad = true;
                v.sig = s->sig;
                v.msg = s->msg;
                return v;
            }
            if (s->internal) {
                v.bad = v.internal = true;
                v.sig = "internal";
                v.msg = s->msg;
                return v;
            }
            // the code under test called exit() or the like
            v.bad = true;
            v.sig = "exit" + ctx;
            v.msg = "the process exited with status " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1) + "\n" + tail_of(errfile(w));
            return v;
        }

        Verdict run_solo(const Opts &o, const std::function<void(Slot *)> &one, double limit) {
            int w = MAXW;
            Slot *s = &S->slots[w];
            pid_t p;
            solo = true;
            p = spawn(w, [&] { one(s); });
            solo = false;
            double t0 = now();
            int st;
            while (true) {
                pid_t r = waitpid(p, &st, WNOHANG);
                if (r == p) break;
                if (now() - t0 > limit) {
                    kill(p, SIGKILL);
                    waitpid(p, &st, 0);
                    return classify(s, w, st, true);
                }
                nap(1000);
            }
            return classify(s, w, st, false);
        }

        std::string jesc(const std::string &s) {
            std::string o;
            for (unsigned char c: s) {
                if (c == '"' || c == '\\') { o += '\\'; o += c; }
                else if (c == '\n') o += "\\n";
                else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
                else o += c;
            }
            return o;
        }

        std::string replay_dir() {
            const char *e = getenv("HZV_REPLAY_DIR");
            return e ? e : "/tmp";
        }

        void report(const Verdict &v, Slot *s, const std::string &phase, bool flat) {
            auto it = known.find(v.sig);
            if (it != known.end()) {
                if (known_hit[v.sig]++ == 0) {
                    printf("KNOWN-FINDING: property=%s %s\n", hzv_property, it->second.c_str());
                    fflush(stdout);
                }
                return;
            }
            for (auto &x: violations) if (x.first == v.sig) return;
            char name[128];
            snprintf(name, sizeof name, "%s/%s-%016lx.replay", replay_dir().c_str(), hzv_property,
                     (unsigned long) hash_str(v.sig + phase));
            FILE *f = fopen(name, "w");
            if (f) {
                fprintf(f, "property %s\nbinary %s\nphase %s\n", hzv_property, g_self.c_str(), phase.c_str());
                if (flat) fprintf(f, "unit %lu\n", (unsigned long) s->cur);
                else {
                    fprintf(f, "prefix");
                    for (uint32_t i = 0; i < s->nprefix; i++)
                        fprintf(f, " %u:%u:%u", s->prefix[i].pos, s->prefix[i].choice, s->prefix[i].n);
                    fprintf(f, "\n");
                }
                fprintf(f, "sig %s\n\n%s\n\n--- what the execution did ---\n%s\n", v.sig.c_str(), v.msg.c_str(), s->log);
                fclose(f);
            }
            violations.emplace_back(v.sig, name);
            printf("VIOLATION property=%s replay=%s\n", hzv_property, name);
            printf("  phase: %s\n  what: %s\n", phase.c_str(), v.sig.c_str());
            std::string m = v.msg.substr(0, 1500);
            printf("  %s\n", m.c_str());
            if (s->nlog) printf("  log:\n%.1500s\n", s->log);
            fflush(stdout);
        }

        [[noreturn]] void die_internal(const std::string &m) {
            printf("CHECK-ERROR property=%s %s\n", hzv_property, m.c_str());
            fflush(stdout);
            if (!violations.empty()) exit(1);
            exit(2);
        }

        void reset_phase() {
            S->next = 0;
            S->execs = S->steps = S->vac = S->points = S->maxpoints = 0;
            S->outstanding = 0;
            S->lock = 0;
            S->stop = 0;
            S->capped = 0;
            S->nstates = S->noutcomes = 0;
            S->nsample = 0;
            for (auto &x: S->samples) x.ready = 0;
            for (int i = 0; i < MAXLEVEL; i++) S->top[i] = S->nlevel[i] = S->high[i] = S->done_level[i] = 0;
            for (auto &s: S->slots) { s.state = IDLE; s.cur = s.end = 0; s.nprefix = 0; s.child_pid = 0; }
        }

        void collect(const std::string &phase, const char *mode, const Opts &o, uint64_t planned, double t0, bool complete) {
            PhaseStat p;
            p.name = phase;
            p.mode = mode;
            p.bounds = o.bounds;
            p.execs = S->execs;
            p.planned = planned;
            p.steps = S->steps;
            p.points = S->points;
            p.maxpoints = S->maxpoints;
            p.vac = S->vac;
            p.states = S->nstates;
            p.outcomes = S->noutcomes;
            p.complete = complete && !S->capped;
            p.wall = now() - t0;
            for (int i = 0; i < MAXLEVEL; i++) p.levels.push_back(S->done_level[i]);
            while (!p.levels.empty() && p.levels.back() == 0) p.levels.pop_back();
            phases.push_back(p);
            for (auto &x: S->samples) if (x.ready && all_samples.size() < 24)
                all_samples.push_back("[" + phase + " #" + std::to_string(x.index) + "] " + x.text);
            printf("  %-44s %10lu executions%s, %lu steps, %lu states, %lu outcomes, %.1fs%s\n", phase.c_str(),
                   (unsigned long) p.execs, planned ? (" of " + std::to_string(planned)).c_str() : "", (unsigned long) p.steps,
                   (unsigned long) p.states, (unsigned long) p.outcomes, p.wall, p.complete ? "" : " (CAPPED)");
            fflush(stdout);
        }

        bool needs_isolation = false;

        // Generic driver. work(s): the worker loop; solo_one(s): re-run what is in s; skip(s): after a listed failure.
        void drive(const std::string &phase, const Opts &o, bool flat, const std::function<void(Slot *)> &work,
                   const std::function<void(Slot *)> &solo_one, const std::function<void(Slot *)> &skip,
                   const std::function<bool()> &more) {
            int nw = o.workers ? o.workers : (int) sysconf(_SC_NPROCESSORS_ONLN);
            if (nw > MAXW) nw = MAXW;
            if (nw < 1) nw = 1;
            double cap = deadline;
            if (o.cap_s > 0 && now() + o.cap_s < cap) cap = now() + o.cap_s;
            struct W { pid_t pid = 0; uint64_t beat = 0; double since = 0; };
            std::vector<W> ws(nw);
            int alive = 0;
            auto start = [&](int i) {
                ws[i].pid = spawn(i, [&, i] { work(&S->slots[i]); });
                ws[i].since = now();
                ws[i].beat = S->slots[i].beat;
                alive++;
            };
            for (int i = 0; i < nw; i++) start(i);
            bool stopping = false;
            needs_isolation = false;
            auto isolate = [&](const std::string &why) {
                for (int i = 0; i < nw; i++) if (ws[i].pid) {
                    kill(ws[i].pid, SIGKILL);
                    int x;
                    waitpid(ws[i].pid, &x, 0);
                }
                needs_isolation = true;
                printf("  %s: executions influence each other (%s); every execution gets its own process\n", phase.c_str(), why.substr(0, 200).c_str());
                fflush(stdout);
            };
            while (alive > 0) {
                bool any = false;
                for (int i = 0; i < nw; i++) {
                    if (!ws[i].pid) continue;
                    int st;
                    pid_t r = waitpid(ws[i].pid, &st, WNOHANG);
                    Slot *s = &S->slots[i];
                    bool hang = false;
                    if (r == 0) {
                        uint64_t b = s->beat;
                        if (b != ws[i].beat || s->state != RUNNING) {
                            ws[i].beat = b;
                            ws[i].since = now();
                        } else if (now() - ws[i].since > o.hang_s) {
                            if (s->child_pid) kill((pid_t) s->child_pid, SIGKILL);
                            kill(ws[i].pid, SIGKILL);
                            waitpid(ws[i].pid, &st, 0);
                            hang = true;
                        }
                        if (!hang) continue;
                    }
                    any = true;
                    ws[i].pid = 0;
                    alive--;
                    if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->state == IDLE) continue;
                    if (s->state != RUNNING) {
                        if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_INTERNAL) die_internal(s->msg);
                        Verdict v = classify(s, i, st, hang);
                        if (!o.fork_each) { isolate("a worker died outside an execution"); return; }
                        die_internal("a worker died outside an execution: " + v.sig + " " + v.msg);
                    }
                    Verdict v = classify(s, i, st, hang);
                    if (v.internal && !hang) {
                        if (!o.fork_each && v.msg.rfind("replay diverged", 0) == 0) { isolate(v.msg); return; }
                        die_internal(v.msg + " " + std::to_string(st));
                    }
                    // Confirm alone, twice; a hang gets a longer limit.
                    Slot *q = &S->slots[MAXW];
                    Verdict c1, c2;
                    for (int k = 0; k < 2; k++) {
                        q->cur = s->cur;
                        q->nprefix = s->nprefix;
                        memcpy(q->prefix, s->prefix, sizeof(Dev) * s->nprefix);
                        q->state = IDLE;
                        q->failed = q->internal = false;
                        uint64_t ex = S->execs;
                        (k ? c2 : c1) = run_solo(o, solo_one, hang ? o.hang_s * 4 : o.hang_s * 2);
                        S->execs = ex;
                        Verdict &c = k ? c2 : c1;
                        if (c.internal && !o.fork_each) { isolate(c.msg); return; }
                        if (c.internal) die_internal("on replay: " + c.msg);
                        if (hang && !c.bad) break;
                    }
                    if (hang && !c1.bad) {
                        // it was only slow: take the completed solo run's trace
                        s->ntrace = q->ntrace;
                        memcpy(s->trace, q->trace, sizeof(Point) * q->ntrace);
                        S->execs++;
                    } else {
                        bool same = c1.bad && c2.bad && c1.sig == c2.sig && c1.sig == v.sig;
                        if (!same && !o.fork_each) { isolate("'" + v.sig + "' does not happen again alone"); return; }
                        // every execution starts from a fresh process: what happened is real, but it may depend on
                        // addresses; ask for one more witness
                        for (int k = 0; k < 6 && !same && !c1.bad && !c2.bad; k++) {
                            uint64_t ex = S->execs;
                            q->state = IDLE;
                            q->failed = q->internal = false;
                            c2 = run_solo(o, solo_one, o.hang_s * 2);
                            S->execs = ex;
                        }
                        if (!same && !c1.bad && !c2.bad) {
                            die_internal("a failure did not replay identically: '" + v.sig + "' then '" + c1.sig + "' then '" +
                                         c2.sig + "'\n" + v.msg + "\nlog:\n" + s->log);
                        }
                        if (s->ntrace == 0 && q->ntrace) {
                            s->ntrace = q->ntrace;
                            memcpy(s->trace, q->trace, sizeof(Point) * q->ntrace);
                        }
                        if (c2.msg.size() > v.msg.size()) v.msg = c2.msg;
                        report(v, s, phase, flat);
                        S->execs++;
                        if (!violations.empty() && !g_all) { S->stop = 1; stopping = true; }
                    }
                    skip(s);
                    s->state = IDLE;
                    if (!S->stop && more()) start(i);
                }
                if (!stopping && now() > cap) {
                    S->stop = 1;
                    S->capped = 1;
                    stopping = true;
                }
                if (stopping && now() > cap + 30 && !violations.empty()) {
                    for (auto &w: ws) if (w.pid) kill(w.pid, SIGKILL);
                }
                if (!any) nap(2000);
            }
        }

        bool rp_here(const std::string &phase) { return rp && rp_phase == phase; }
    }

    std::function<void()> on_execution_begin, on_execution_end;

    // ------------------------------------------------------------ in an execution
    unsigned choose(unsigned n, Kind kind, const char *what) {
        if (!in_exec || flat_mode) internal_error("choose() outside an exploration");
        if (n <= 1) return 0;
        if (n > 60000) internal_error("too many alternatives");
        Slot *s = me;
        uint32_t pos = s->ntrace;
        if (pos >= MAXTRACE || pos >= cur_opts->max_steps) fail(std::string("step-limit") + (s->ctx[0] ? std::string("@") + s->ctx : ""), "more choice points than the horizon allows: livelock or unbounded loop");
        unsigned c = 0;
        if (replay_pos < s->nprefix && s->prefix[replay_pos].pos == pos) {
            if (s->prefix[replay_pos].n != n) internal_error("replay diverged at point " + std::to_string(pos) + " (" + what + "): recorded " + std::to_string(s->prefix[replay_pos].n) + " alternatives, now " + std::to_string(n));
            c = s->prefix[replay_pos].choice;
            replay_pos++;
        } else if (replay_pos < s->nprefix && s->prefix[replay_pos].pos < pos) internal_error("replay diverged");
        s->trace[pos] = Point{(uint16_t) n, (uint16_t) c, (uint8_t) kind};
        s->ntrace = pos + 1;
        return c;
    }

    void fail(const std::string &sig, const std::string &msg) {
        if (!me || !in_exec) {
            printf("failure in the preparation: %s: %s\n", sig.c_str(), msg.c_str());
            fflush(stdout);
            if (me) _exit(EXIT_INTERNAL);
            exit(violations.empty() ? 76 : 1);      // 76: hzv.py confirms and reports it
        }
        me->failed = true;
        snprintf(me->sig, sizeof me->sig, "%s", sig.c_str());
        snprintf(me->msg, sizeof me->msg, "%s", msg.c_str());
        _exit(EXIT_FAIL);
    }

    void failf(const char *sig, const char *fmt, ...) {
        char b[6000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        fail(sig, b);
    }

    void internal_error(const std::string &msg) {
        if (me) {
            me->internal = true;
            snprintf(me->msg, sizeof me->msg, "%s", msg.c_str());
            _exit(EXIT_INTERNAL);
        }
        printf("CHECK-ERROR property=%s %s\n", hzv_property, msg.c_str());
        exit(violations.empty() ? 2 : 1);
    }

    void logf(const char *fmt, ...) {
        if (!me || !in_exec) return;
        va_list ap;
        va_start(ap, fmt);
        size_t left = sizeof me->log - me->nlog;
        if (left > 1) {
            int k = vsnprintf(me->log + me->nlog, left, fmt, ap);
            if (k > 0) me->nlog += (size_t) k < left ? k : left - 1;
        }
        va_end(ap);
    }

    void context(const std::string &c) { if (me) snprintf(me->ctx, sizeof me->ctx, "%s", c.c_str()); }

    uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
        auto *b = (const unsigned char *) p;
        while (n >= 8) {
            uint64_t v;
            memcpy(&v, b, 8);
            h = mix(h, v);
            b += 8;
            n -= 8;
        }
        uint64_t v = n;
        for (size_t i = 0; i < n; i++) v = (v << 8) | b[i];
        return mix(h, v);
    }

    static bool insert(std::atomic<uint64_t> *tab, int bits, uint64_t h) {
        h = mix(h, phase_no);
        if (h == 0) h = 1;
        uint64_t mask = (1ull << bits) - 1, i = (h * 0x9e3779b97f4a7c15ull) >> (64 - bits);
        for (int k = 0; k < 200; k++, i = (i + 1) & mask) {
            uint64_t v = tab[i].load(std::memory_order_relaxed);
            if (v == h) return false;
            if (v == 0) {
                if (tab[i].compare_exchange_strong(v, h)) return true;
                if (v == h) return false;
            }
        }
        S->table_full = 1;
        return false;
    }

    void state(uint64_t h) { if (insert(states_tab, STATE_BITS, h)) S->nstates++; }

    void outcome(uint64_t h) { if (insert(out_tab, OUT_BITS, h)) S->noutcomes++; }

    void step(uint64_t n) { local_steps += n; }

    void vacuous() { S->vac++; }

    bool replaying() { return solo; }

    const std::string &scratch() { return scratch_dir; }

    bool thorough() { return g_thorough; }

    uint64_t seed() { return g_seed; }

    void bound(const std::string &k, const std::string &v) { bounds_kv[k] = v; }

    void assume(const std::string &t) { assumptions.push_back(t); }

    static void in_parent(bool on) {
        itimerval t{};
        t.it_value.tv_sec = on ? 100 : 0;
        setitimer(ITIMER_PROF, &t, nullptr);        // its signal ends the process; hzv.py confirms and reports it
    }
    struct Phase {
        Phase() { in_parent(false); }
        ~Phase() { in_parent(true); }
    };

    // ------------------------------------------------------------ phases
    void enumerate(const std::string &phase, uint64_t n, const std::function<void(uint64_t)> &body, Opts o) {
        if (!violations.empty() && !g_all) return;
        if (rp && !rp_here(phase)) return;
        Phase timing;
        phase_no++;
        reset_phase();
        double t0 = now();
        cur_opts = &o;
        flat_mode = true;
        auto one = [&](Slot *s) {
            uint64_t i = s->cur;
            run_one(s, o, [&] { body(i); });
        };
        if (rp_here(phase)) {
            rp_done = true;
            S->slots[MAXW].cur = rp_unit;
            g_verbose = true;
            Verdict v = run_solo(o, one, o.hang_s * 4);
            Slot *s = &S->slots[MAXW];
            s->cur = rp_unit;
            printf("%s\n", s->log);
            if (v.bad) { printf("replayed: %s\n%s\n", v.sig.c_str(), v.msg.c_str()); violations.emplace_back(v.sig, ""); }
            else printf("replayed: no violation\n");
            flat_mode = false;
            return;
        }
        int nw = o.workers ? o.workers : (int) sysconf(_SC_NPROCESSORS_ONLN);
        uint64_t block = n / (nw * 64) + 1;
        if (block > 4096) block = 4096;
        auto work = [&](Slot *s) {
            while (!S->stop) {
                if (s->cur >= s->end) {
                    uint64_t b = S->next.fetch_add(block);
                    if (b >= n) { s->cur = s->end = 0; break; }
                    s->cur = b;
                    s->end = b + block < n ? b + block : n;
                }
                one(s);
                s->cur++;
            }
        };
        auto skip = [&](Slot *s) { s->cur++; };
        auto more = [&] {
            if (S->next < n) return true;
            for (auto &s: S->slots) if (s.cur < s.end) return true;
            return false;
        };
        drive(phase, o, true, work, one, skip, more);
        if (needs_isolation) {
            reset_phase();
            o.fork_each = true;
            drive(phase, o, true, work, one, skip, more);
        }
        bool complete = S->execs >= n;
        collect(phase, "enumerate", o, n, t0, complete);
        phases.back().states = phases.back().states ? phases.back().states : S->execs.load();
        flat_mode = false;
    }

    void explore(const std::string &phase, const std::function<void()> &body, Opts o) {
        if (!violations.empty() && !g_all) return;
        if (rp && !rp_here(phase)) return;
        Phase timing;
        phase_no++;
        reset_phase();
        double t0 = now();
        cur_opts = &o;
        flat_mode = false;
        auto one = [&](Slot *s) { run_one(s, o, body); };
        if (rp_here(phase)) {
            rp_done = true;
            Slot *s = &S->slots[MAXW];
            s->nprefix = rp_prefix.size();
            memcpy(s->prefix, rp_prefix.data(), sizeof(Dev) * rp_prefix.size());
            g_verbose = true;
            Verdict v = run_solo(o, one, o.hang_s * 4);
            printf("%s\n", s->log);
            if (v.bad) { printf("replayed: %s\n%s\n", v.sig.c_str(), v.msg.c_str()); violations.emplace_back(v.sig, ""); }
            else printf("replayed: no violation\n");
            return;
        }
        lock();
        push_locked(0, nullptr, 0);
        unlock();
        auto work = [&](Slot *s) {
            int idle = 0;
            while (!S->stop) {
                int lv;
                if (!pop(s, lv)) {
                    if (S->outstanding <= 0) break;
                    if (++idle > 50) nap(100); else syscall(SYS_sched_yield);
                    continue;
                }
                idle = 0;
                one(s);
                push_children(s, o);
                S->outstanding--;
            }
        };
        auto skip = [&](Slot *s) {
            if (!S->stop) push_children(s, o);
            S->outstanding--;
        };
        auto more = [&] { return S->outstanding > 0; };
        drive(phase, o, false, work, one, skip, more);
        if (needs_isolation) {
            reset_phase();
            o.fork_each = true;
            lock();
            push_locked(0, nullptr, 0);
            unlock();
            drive(phase, o, false, work, one, skip, more);
        }
        bool complete = S->outstanding == 0 && !S->stop;
        collect(phase, "explore", o, 0, t0, complete);
        if (!complete) {
            std::string left;
            for (int i = 0; i < MAXLEVEL; i++) if (S->nlevel[i]) left += " level " + std::to_string(i) + ": " + std::to_string(S->nlevel[i]) + " prefixes left;";
            phases.back().bounds += " [cap hit:" + left + "]";
        }
    }

    static void load_known(const char *path) {
        FILE *f = fopen(path, "r");
        if (!f) return;
        char line[4096];
        // "known: property=<id> sig=<sig> :: <text>"
        while (fgets(line, sizeof line, f)) {
            std::string l = line;
            while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
            std::string head = std::string("known: property=") + hzv_property + " sig=";
            if (l.rfind(head, 0) != 0) continue;
            auto p = l.find(" :: ");
            if (p == std::string::npos) continue;
            known[l.substr(head.size(), p - head.size())] = l.substr(p + 4);
        }
        fclose(f);
    }

    static void write_evidence(const char *path) {
        FILE *f = fopen(path, "w");
        if (!f) { perror(path); return; }
        uint64_t st = 0, tr = 0, ex = 0, vac = 0;
        bool ex_all = true;
        for (auto &p: phases) {
            st += p.states;
            tr += p.steps + p.points;
            ex += p.execs;
            vac += p.vac;
            ex_all = ex_all && p.complete;
        }
        fprintf(f, "{\"states\": %lu, \"transitions\": %lu, \"executions\": %lu, \"vacuous_executions\": %lu, \"exhaustive\": %s, \"state_count_is_lower_bound\": %s,\n \"phases\": [",
                (unsigned long) st, (unsigned long) (tr ? tr : ex), (unsigned long) ex, (unsigned long) vac, ex_all ? "true" : "false",
                S->table_full ? "true" : "false");
        bool first = true;
        for (auto &p: phases) {
            fprintf(f, "%s\n  {\"name\": \"%s\", \"mode\": \"%s\", \"executions\": %lu, \"planned\": %lu, \"steps\": %lu, \"choice_points\": %lu, \"longest_execution\": %lu, \"distinct_states\": %lu, \"distinct_outcomes\": %lu, \"complete\": %s, \"wall_s\": %.2f, \"bounds\": \"%s\", \"executions_per_deviation_level\": [",
                    first ? "" : ",", jesc(p.name).c_str(), p.mode.c_str(), (unsigned long) p.execs, (unsigned long) p.planned,
                    (unsigned long) p.steps, (unsigned long) p.points, (unsigned long) p.maxpoints, (unsigned long) p.states,
                    (unsigned long) p.outcomes, p.complete ? "true" : "false", p.wall, jesc(p.bounds).c_str());
            for (size_t i = 0; i < p.levels.size(); i++) fprintf(f, "%s%lu", i ? ", " : "", (unsigned long) p.levels[i]);
            fprintf(f, "]}");
            first = false;
        }
        fprintf(f, "],\n \"samples\": [");
        for (size_t i = 0; i < all_samples.size(); i++) fprintf(f, "%s\n  \"%s\"", i ? "," : "", jesc(all_samples[i]).c_str());
        fprintf(f, "],\n \"bounds\": {");
        first = true;
        for (auto &[k, v]: bounds_kv) { fprintf(f, "%s\"%s\": \"%s\"", first ? "" : ", ", jesc(k).c_str(), jesc(v).c_str()); first = false; }
        fprintf(f, "},\n \"assumptions\": [");
        for (size_t i = 0; i < assumptions.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(assumptions[i]).c_str());
        fprintf(f, "],\n \"known_findings_seen\": [");
        first = true;
        for (auto &[k, v]: known_hit) { fprintf(f, "%s{\"sig\": \"%s\", \"executions\": %lu}", first ? "" : ", ", jesc(k).c_str(), (unsigned long) v); first = false; }
        fprintf(f, "],\n \"violations\": %zu, \"wall_s\": %.2f}\n", violations.size(), now() - t_start);
        fclose(f);
    }

    static int run(int argc, char **argv) {
        t_start = now();
        char self[4096];
        ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
        if (k > 0) { self[k] = 0; g_self = self; }
        const char *tier = getenv("VERIF_TIER");
        g_thorough = tier && !strcmp(tier, "thorough");
        if (const char *sd = getenv("VERIF_SEED")) g_seed = strtoull(sd, nullptr, 10);
        double budget = g_thorough ? 1200 : 150;
        if (const char *b = getenv("HZV_BUDGET")) budget = atof(b);
        deadline = t_start + budget;
        const char *ev = getenv("HZV_EVIDENCE");
        const char *kn = getenv("HZV_KNOWN");
        if (kn) load_known(kn);
        for (int i = 1; i < argc; i++) {
            if (!strcmp(argv[i], "--all")) g_all = true;
            else if (!strcmp(argv[i], "--replay") && i + 1 < argc) {
                FILE *f = fopen(argv[++i], "r");
                if (!f) { perror(argv[i]); return 2; }
                char *line = (char *) malloc(1 << 20);
                while (fgets(line, 1 << 20, f)) {
                    std::string l = line;
                    if (!l.empty() && l.back() == '\n') l.pop_back();
                    if (l.empty()) break;
                    if (l.rfind("phase ", 0) == 0) rp_phase = l.substr(6);
                    if (l.rfind("unit ", 0) == 0) rp_unit = strtoull(l.c_str() + 5, nullptr, 10);
                    if (l.rfind("prefix", 0) == 0) {
                        const char *p = l.c_str() + 6;
                        unsigned a, b, c;
                        int m;
                        while (sscanf(p, " %u:%u:%u%n", &a, &b, &c, &m) == 3) {
                            rp_prefix.push_back(Dev{a, (uint16_t) b, (uint16_t) c});
                            p += m;
                        }
                    }
                }
                fclose(f);
                free(line);
                rp = true;
            }
        }
        const char *tmp = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
        char d[256];
        snprintf(d, sizeof d, "%s/hzv-%s-XXXXXX", tmp, hzv_property);
        if (!mkdtemp(d)) { perror("mkdtemp"); return 2; }
        g_root_scratch = d;
        scratch_dir = g_root_scratch + "/wp";       // as long as a worker's
        mkdir(scratch_dir.c_str(), 0777);
        pid_t owner = getpid();
        struct Cleaner {
            pid_t owner;
            ~Cleaner() { if (getpid() == owner) rm_rf(g_root_scratch); }
        };
        static Cleaner cleaner{owner};
        S = (Shared *) shm(sizeof(Shared));
        for (auto &a: arena) a = (uint8_t *) shm(ARENA);
        states_tab = (std::atomic<uint64_t> *) shm(8ull << STATE_BITS);
        out_tab = (std::atomic<uint64_t> *) shm(8ull << OUT_BITS);
        // What runs before and between the phases takes little time
        in_parent(true);
        hzv_main();
        if (rp) {
            if (!rp_done) { printf("replay: no phase named '%s'\n", rp_phase.c_str()); return 2; }
            return violations.empty() ? 0 : 1;
        }
        if (ev) write_evidence(ev);
        return violations.empty() ? 0 : 1;
    }
}

int main(int argc, char **argv) { return mc::run(argc, argv); }
