// C26: the job processor, all interleavings of submitted jobs of every kind (succeeding, refused, failing, throwing), with
// every number of slots; afterwards every slot must still be there.
#include <hzip_codec/processor/processor.h>
#include <loguru/loguru.hpp>
#include <stdexcept>
#include "hzsched.h"
#include "mc.h"

const char *hzv_property = "C26";

enum Kind { OK, DECODE_OK, FAIL, THROW_INT, NULL_JOB, NULL_DECODE, TRAIN_NO_ADDR, UNKNOWN_CODEC, ADDR_NO_ARCHIVE, BARE, BAD_SUCCESS, BAD_ERROR, BAD_COMPLETED, KINDS };
static const char *kind_name[] = {"ok", "decode", "failing", "throwing", "null", "null-decode", "train-without-address", "unknown-codec", "address-without-archive", "no-callbacks",
                                  "success-handler-throws", "error-handler-throws", "completion-handler-throws"};
static bool succeeds(int k) { return k == OK || k == DECODE_OK || k == BARE || k == BAD_SUCCESS || k == BAD_COMPLETED; }
static bool has_body(int k) { return k == OK || k == DECODE_OK || k == FAIL || k == THROW_INT || k == BAD_SUCCESS || k == BAD_ERROR || k == BAD_COMPLETED || k == BARE; }

struct Watch {
    uint64_t n = 0;
    int running = 0, peak = 0;
    uint64_t h = 0;
};
struct Rec {
    int kind = 0, id = 0;
    int bodies = 0, ok = 0, bad = 0, done = 0;
    bool in_body = false;
};

static rainman::ptr<HZ_Job> make(Watch &w, Rec &r) {
    auto job = rainman::ptr<HZ_Job>();
    auto c = rainman::ptr<HZ_CodecJob>();
    auto st = rainman::ptr<HZ_JobStub>();
    job->type = HZ_Job::CODEC;
    job->codec = c;
    job->stub = st;
    c->algorithm = hzcodec::algorithms::UNCOMPRESSED;
    c->job_type = HZ_CodecJob::ENCODE;
    auto b = rainman::ptr<HZ_Blob>();
    b->data = rainman::ptr<uint8_t>(3);
    for (int i = 0; i < 3; i++) b->data[i] = 10 * r.id + i;
    b->size = b->o_size = 3;
    c->blob = b;
    int k = r.kind;
    if (has_body(k)) c->blob_callback = [&w, &r](const rainman::ptr<HZ_Blob> &out) {
        if (++r.bodies > 1) mc::fail("a job runs twice", kind_name[r.kind]);
        if (r.ok + r.bad + r.done) mc::fail("a job runs after its outcome", kind_name[r.kind]);
        if (out->o_size != 3 || out->data[0] != 10 * r.id || out->data[2] != 10 * r.id + 2) mc::fail("a job sees another job's data", kind_name[r.kind]);
        w.peak = std::max(w.peak, ++w.running);
        if ((uint64_t) w.running > w.n) mc::failf("more jobs at once than slots", "%d with %lu slots", w.running, w.n);
        sched::point("job body");
        w.running--;
        w.h = mc::mix(w.h, r.id);
        if (r.kind == FAIL || r.kind == BAD_ERROR) throw std::runtime_error("body of job " + std::to_string(r.id));
        if (r.kind == THROW_INT) throw 42;
    };
    switch (k) {
        case DECODE_OK: c->job_type = HZ_CodecJob::DECODE; break;
        case NULL_DECODE: c->job_type = HZ_CodecJob::DECODE; break;
        case TRAIN_NO_ADDR: c->job_type = HZ_CodecJob::TRAIN; break;
        case UNKNOWN_CODEC: c->algorithm = (hzcodec::algorithms::ALGORITHM) 77; break;
        case ADDR_NO_ARCHIVE: c->mstate_addr = std::string("m"); break;
        default:;
    }
    if (k == BARE) return job;           // no handlers at all: the body is all we see
    st->on_success = [&r](const std::string &) {
        r.ok++;
        sched::point("success");
        if (r.kind == BAD_SUCCESS) throw std::runtime_error("success handler");
    };
    st->on_error = [&r](const std::string &m) {
        r.bad++;
        if (r.kind == FAIL && m.find("body of job " + std::to_string(r.id)) == std::string::npos) mc::fail("a failure is reported with another message", m);
        sched::point("error");
        if (r.kind == BAD_ERROR) throw std::runtime_error("error handler");
    };
    st->on_completed = [&r, &w] {
        if (r.ok + r.bad == 0) mc::fail("completion before the outcome", kind_name[r.kind]);
        r.done++;
        w.h = mc::mix(w.h, 100 + r.id);
        sched::point("completed");
        if (r.kind == BAD_COMPLETED) throw std::runtime_error("completion handler");
    };
    return job;
}

static void judge(const Rec &r) {
    const char *n = kind_name[r.kind];
    if (r.kind == BARE) {
        if (r.bodies != 1) mc::failf("a job does not run exactly once", "%s: %d times", n, r.bodies);
        return;
    }
    if (r.ok + r.bad != 1) mc::failf("not exactly one outcome", "%s: %d success, %d error", n, r.ok, r.bad);
    if (r.done != 1) mc::failf("not exactly one completion signal", "%s: %d", n, r.done);
    if ((r.ok == 1) != succeeds(r.kind)) mc::failf("wrong outcome", "%s: reported %s", n, r.ok ? "success" : "error");
    if (r.bodies != (has_body(r.kind) ? 1 : 0)) mc::failf("a job does not run exactly once", "%s: %d times", n, r.bodies);
}

// jobs of the given kinds, submitted by `submitters` threads (each also waits for a free slot in between, as the server does)
static void scenario(const std::vector<int> &kinds, uint64_t n, unsigned submitters) {
    sched::knobs = sched::Knobs();
    sched::knobs.deadlock_sig = "a job never completes or a slot is lost";
    sched::run([&] {
        Watch w;
        w.n = n;
        HZ_Processor p(n);
        std::vector<Rec> recs(kinds.size());
        for (size_t i = 0; i < kinds.size(); i++) { recs[i].kind = kinds[i]; recs[i].id = i; }
        auto submit = [&](size_t from) {
            for (size_t i = from; i < kinds.size(); i += submitters) {
                if (submitters > 1) p.cycle();
                p.run(make(w, recs[i]));
            }
        };
        std::vector<std::thread> ts;
        for (unsigned s = 1; s < submitters; s++) ts.emplace_back(submit, s);
        submit(0);
        for (auto &t: ts) t.join();
        sched::wait_quiescent();
        for (auto &r: recs) judge(r);
        if (sched::others_enabled()) mc::fail("not quiescent");
        // all slots are back: n jobs that wait for each other can still run together, and one more has to wait
        sched::knobs.frozen = true;
        uint64_t in = 0, out = 0;
        std::vector<rainman::ptr<HZ_Job>> js;
        bool open = false;
        for (uint64_t i = 0; i < n + 1; i++) {
            auto job = rainman::ptr<HZ_Job>();
            auto c = rainman::ptr<HZ_CodecJob>();
            job->type = HZ_Job::CODEC;
            job->codec = c;
            c->algorithm = hzcodec::algorithms::UNCOMPRESSED;
            c->job_type = HZ_CodecJob::ENCODE;
            c->blob_callback = [&](const rainman::ptr<HZ_Blob> &) {
                in++;
                if (in - out > n) mc::fail("more jobs at once than slots", "afterwards");
                sched::wait_until([&] { return in >= n && open; }, "all slots in use");
                out++;
            };
            p.run(job);
        }
        sched::wait_quiescent();
        if (in != n) mc::failf("a slot is lost", "%lu of %lu slots left", in, n);
        open = true;
        sched::wait_quiescent();
        if (out != n + 1) mc::failf("a slot is lost", "%lu of %lu late jobs ran", out, n + 1);
        p.cycle();
        mc::outcome(mc::mix(w.h, w.peak));
        mc::logf("peak %d of %lu", w.peak, n);
    });
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    o.kinds[mc::PREEMPT] = th ? 3 : 2;
    o.bounds = "every pair of the 13 job kinds, 1-2 slots, submitted by one or two threads, up to " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("pairs", [&] {
        int a = mc::choose(KINDS, mc::FREE, "first job"), b = mc::choose(KINDS, mc::FREE, "second job");
        uint64_t n = 1 + mc::choose(2, mc::FREE, "slots");
        unsigned s = 1 + mc::choose(2, mc::FREE, "submitters");
        mc::logf("%s %s, %lu slots, %u submitters", kind_name[a], kind_name[b], n, s);
        scenario({a, b}, n, s);
    }, o);
    o.kinds[mc::PREEMPT] = th ? 2 : 1;
    o.bounds = "every triple of {ok, failing, throwing, unknown codec, error handler throws}, 1-3 slots, one submitter, up to " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("triples", [&] {
        static const int K[] = {OK, FAIL, THROW_INT, UNKNOWN_CODEC, BAD_ERROR};
        std::vector<int> ks;
        for (int i = 0; i < 3; i++) ks.push_back(K[mc::choose(5, mc::FREE, "job")]);
        uint64_t n = 1 + mc::choose(3, mc::FREE, "slots");
        scenario(ks, n, 1);
    }, o);
    o.kinds[mc::PREEMPT] = th ? 7 : 5;
    o.bounds = "two succeeding jobs on one slot, up to " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("deep", [&] { scenario({OK, OK}, 1, 2); }, o);
    o.kinds[mc::PREEMPT] = th ? 2 : 1;
    o.bounds = "four succeeding jobs on 2-3 slots, 2 submitters, up to " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("four", [&] { scenario({OK, OK, OK, OK}, 2 + mc::choose(2, mc::FREE, "slots"), 2); }, o);
}
