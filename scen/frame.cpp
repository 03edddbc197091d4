// Coroutine frames: a macro-style coroutine does what the native coroutine with the same body does.
#include "hop.h"
#include "macoro/result.h"
#include "macoro/macros.h"
#include "macoro/wrap.h"
#include "lib.inc"
using namespace macoro;

// ---- the script ---------------------------------------------------------------------------------
// One body = a list of operations on gates; a gate may be ready, suspend, refuse to suspend, or throw
// at any of its three calls.  The same script runs once natively and once in macro style; the driver
// resumes or destroys at the same suspension; both must leave the same log.
enum OpKind { OP_VOID, OP_INT, OP_HANDLE, OP_OPERATOR, OP_LVALUE, OP_TRY, OP_FN, OP_AWAIT_AWAIT, OP_CHILD, OP_EAGER_CHILD, OP_THROW, OP_RETURN, OP_RETURN_AWAIT, OP_FN_REF, OP_FN_OBJECT, OP_AWAIT_AWAIT_REF, OP_KINDS };
enum { SUSPEND, READY, REFUSE };
struct Op { u_char kind, ready, thrown, style; int id, child; };   // thrown: 0 none, 1 await_ready, 2 await_suspend, 3 await_resume
struct Body { std::vector<Op> ops; };
struct Script { std::vector<Body> bodies; bool eager; int destroy_at; };
struct World {
    std::vector<int> log; macoro::coroutine_handle<> pending; bool has_pending = false; int live = 0; int suspensions = 0; Script* s; bool macro; bool oom = false;
    void ev(int tag, int id) { if (log.size() < 4000) log.push_back(tag * 1000 + id); }
};
static World* W;
enum { E_CTOR = 1, E_MOVE, E_DTOR, E_READY, E_SUSP, E_RESUME, E_OP, E_CATCH, E_DONE, E_FN, E_VALUE, E_DESTROY, E_RES, E_ESCAPE };
struct Trk {
    int id; World* w; Trk* self;
    explicit Trk(int i) : id(i), w(W), self(this) { w->live++; w->ev(E_CTOR, id); }
    Trk(Trk&& o) noexcept : id(o.id), w(o.w), self(this) { SIM_CHECK(o.self == &o, "use-of-dead-object", "moved from a dead object %d", id); w->live++; w->ev(E_MOVE, id); }
    Trk(const Trk& o) : id(o.id), w(o.w), self(this) { w->live++; w->ev(E_MOVE, id); }
    ~Trk() { SIM_CHECK(self == this, "double-destroy", "object %d destroyed twice or at another address", id); self = nullptr; w->live--; w->ev(E_DTOR, id); }
    void check() const { SIM_CHECK(self == this, "use-of-dead-object", "object %d used after destruction", id); }
};
struct GateBase {
    Trk t; Op op;
    GateBase(const Op& o) : t(o.id), op(o) {}
    bool ready() { t.check(); t.w->ev(E_READY, t.id); if (op.thrown == 1) throw_fail(t.id); return op.ready == READY; }
    bool suspend(macoro::coroutine_handle<> h) {      // true: stay suspended
        t.check(); World* w = t.w; w->ev(E_SUSP, t.id); if (op.thrown == 2) throw_fail(t.id);
        if (op.ready == REFUSE) return false;
        SIM_CHECK(!w->has_pending, "double-suspend", "two gates are suspended at once");
        w->pending = h; w->has_pending = true; w->suspensions++; return true;
    }
    int resume() { t.check(); t.w->ev(E_RESUME, t.id); if (op.thrown == 3) throw_fail(t.id); return t.id + 1; }
};
struct GateVoid : GateBase {       // void await_suspend: always suspends
    using GateBase::GateBase;
    bool await_ready() { bool r = ready(); return r || op.ready == REFUSE; }
    void await_suspend(std::coroutine_handle<> h) { suspend(macoro::coroutine_handle<>(h)); }
    void await_suspend(macoro::coroutine_handle<> h) { suspend(h); }
    void await_resume() { resume(); }
};
struct GateInt : GateBase {        // bool await_suspend
    using GateBase::GateBase;
    bool await_ready() { return ready(); }
    bool await_suspend(std::coroutine_handle<> h) { return suspend(macoro::coroutine_handle<>(h)); }
    bool await_suspend(macoro::coroutine_handle<> h) { return suspend(h); }
    int await_resume() { return resume(); }
};
static GateInt& lvalue_gate(const Op& o);
struct GateStd : GateBase {        // knows only std::coroutine_handle; symmetric transfer
    using GateBase::GateBase;
    bool await_ready() { return ready(); }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { return suspend(macoro::coroutine_handle<>(h)) ? std::coroutine_handle<>(std::noop_coroutine()) : h; }
    int await_resume() { return resume(); }
};
struct GateHandle : GateBase {     // symmetric transfer in both worlds
    using GateBase::GateBase;
    bool await_ready() { return ready(); }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { return suspend(macoro::coroutine_handle<>(h)) ? std::coroutine_handle<>(std::noop_coroutine()) : h; }
    macoro::coroutine_handle<> await_suspend(macoro::coroutine_handle<> h) { if (suspend(h)) return macoro::noop_coroutine(); return h; }
    int await_resume() { return resume(); }
};
struct GateOp : GateBase {         // an awaitable whose awaiter is a separate object
    using GateBase::GateBase;
    struct Awaiter : GateInt { Awaiter(const Op& o) : GateInt(o) {} };
    auto operator co_await() { t.check(); Op o = op; o.id += 500; return Awaiter{ o }; }
};
struct GateGate : GateInt {        // await_resume yields another awaitable
    using GateInt::GateInt;
    GateHandle await_resume() { resume(); Op o = op; o.id += 500; o.thrown = o.thrown == 3 ? 0 : o.thrown; return GateHandle{ o }; }
};
struct GateRef : GateInt {         // await_resume yields a reference into the awaiter
    using GateInt::GateInt;
    Trk& await_resume() { resume(); return t; }
};
struct GateObject : GateInt {      // await_resume yields a new object
    using GateInt::GateInt;
    Trk await_resume() { resume(); return Trk(t.id + 500); }
};
struct GateGateRef : GateInt {     // await_resume yields an awaitable that lives in the awaiter
    GateHandle inner; static Op in(Op o) { o.id += 500; o.thrown = o.thrown == 3 ? 0 : o.thrown; return o; }
    GateGateRef(const Op& o) : GateInt(o), inner(in(o)) {}
    GateHandle& await_resume() { resume(); return inner; }
};
struct XfAwaitable : GateBase {    // what a promise's await_transform returns by value; its awaiter is a third object
    using GateBase::GateBase;
    auto operator co_await() { t.check(); Op o = op; o.id += 100; return GateHandle{ o }; }
};
struct Xf { Op op; Trk t; explicit Xf(const Op& o) : op(o), t(o.id + 400) { op.id += 500; } };
struct LvGates { std::vector<std::unique_ptr<GateInt>> v; };
static LvGates* LV;
static GateInt& lvalue_gate(const Op& o) { for (auto& g : LV->v) if (g->t.id == o.id) return *g; __builtin_trap(); }
static void make_lvalue_gates(LvGates& l, Script& s) { LV = &l; for (auto& b : s.bodies) for (auto& o : b.ops) if (o.kind == OP_LVALUE) l.v.push_back(std::make_unique<GateInt>(o)); }
static void ref_slot(Trk& t, int* acc) { t.check(); W->ev(E_FN, t.id & 255); *acc += t.id; }
static void object_slot(Trk t, int* acc) { t.check(); W->ev(E_FN, t.id & 255); *acc += t.id; }
static int fn_slot(int v, int* acc) { W->ev(E_FN, v & 255); *acc += v; return v; }

template<class Tk, bool MACRO> static Tk body(World* w, int b, int depth);
template<bool MACRO> static task<int> lazy_child(World* w, int b, int depth) { return body<task<int>, MACRO>(w, b, depth); }
template<bool MACRO> static eager_task<int> eager_child(World* w, int b, int depth) { return body<eager_task<int>, MACRO>(w, b, depth); }

// native
template<class Tk> static Tk native_body(World* w, int b, int depth) {
    Trk frame(100 + b); int acc = 0; const auto& ops = w->s->bodies[b].ops;
    for (size_t i = 0; i < ops.size(); ++i) {
        const Op& o = ops[i]; w->ev(E_OP, o.kind);
        if (o.kind == OP_VOID) co_await GateVoid(o);
        else if (o.kind == OP_INT) acc += co_await GateInt(o);
        else if (o.kind == OP_HANDLE) { int v = 0; if (o.style & 1) v = co_await GateHandle(o); else v = co_await GateStd(o); acc += v; }
        else if (o.kind == OP_OPERATOR) acc += co_await GateOp(o);
        else if (o.kind == OP_LVALUE) { GateInt& g = lvalue_gate(o); int v = co_await g; acc += v; }
        else if (o.kind == OP_TRY) { result<int> r = Err(std::exception_ptr{}); try { r = Ok(co_await GateInt(o)); } catch (...) { r = Err(std::current_exception()); } w->ev(E_RES, r.has_error()); if (r.has_value()) acc += r.value(); }
        else if (o.kind == OP_FN) fn_slot(co_await GateInt(o), &acc);
        else if (o.kind == OP_AWAIT_AWAIT) co_await co_await GateGate(o);
        else if (o.kind == OP_FN_REF) ref_slot(co_await GateRef(o), &acc);
        else if (o.kind == OP_FN_OBJECT) object_slot(co_await GateObject(o), &acc);
        else if (o.kind == OP_AWAIT_AWAIT_REF) co_await co_await GateGateRef(o);
        else if (o.kind == OP_CHILD) acc += co_await (w->macro ? lazy_child<true>(w, o.child, depth + 1) : lazy_child<false>(w, o.child, depth + 1));
        else if (o.kind == OP_EAGER_CHILD) acc += co_await (w->macro ? eager_child<true>(w, o.child, depth + 1) : eager_child<false>(w, o.child, depth + 1));
        else if (o.kind == OP_THROW) throw_fail(o.id);
        else if (o.kind == OP_RETURN) co_return acc;
        else if (o.kind == OP_RETURN_AWAIT) co_return co_await GateInt(o);
    }
    co_return acc;
}
// macro style
template<class Tk> static Tk macro_body(World* w, int b, int depth) {
    MC_BEGIN(Tk, w, b, depth, frame = Trk(100 + b), acc = 0, v = 0, i = size_t(0), o = Op{}, r = result<int>(Err(std::exception_ptr{})), g = (GateInt*)nullptr);
    for (i = 0; i < w->s->bodies[b].ops.size(); ++i) {
        o = w->s->bodies[b].ops[i]; w->ev(E_OP, o.kind);
        if (o.kind == OP_VOID) { MC_AWAIT(GateVoid(o)); }
        else if (o.kind == OP_INT) { MC_AWAIT_SET(v, GateInt(o)); acc += v; }
        else if (o.kind == OP_HANDLE) { if (o.style & 1) { MC_AWAIT_SET(v, GateHandle(o)); } else { MC_AWAIT_SET(v, GateStd(o)); } acc += v; }
        else if (o.kind == OP_OPERATOR) { MC_AWAIT_SET(v, GateOp(o)); acc += v; }
        else if (o.kind == OP_LVALUE) { g = &lvalue_gate(o); MC_AWAIT_SET(v, *g); acc += v; }
        else if (o.kind == OP_TRY) { MC_AWAIT_TRY(r, GateInt(o)); w->ev(E_RES, r.has_error()); if (r.has_value()) acc += r.value(); }
        else if (o.kind == OP_FN) {
#define FN_(X) fn_slot(X, &acc)
            MC_AWAIT_FN(FN_, GateInt(o));
        }
        else if (o.kind == OP_AWAIT_AWAIT) { MC_AWAIT_AWAIT(GateGate(o)); }
        else if (o.kind == OP_FN_REF) {
#define FN_REF_(X) ref_slot(X, &acc)
            MC_AWAIT_FN(FN_REF_, GateRef(o));
        }
        else if (o.kind == OP_FN_OBJECT) {
#define FN_OBJECT_(X) object_slot(X, &acc)
            MC_AWAIT_FN(FN_OBJECT_, GateObject(o));
        }
        else if (o.kind == OP_AWAIT_AWAIT_REF) { MC_AWAIT_AWAIT(GateGateRef(o)); }
        else if (o.kind == OP_CHILD) { MC_AWAIT_SET(v, (w->macro ? lazy_child<true>(w, o.child, depth + 1) : lazy_child<false>(w, o.child, depth + 1))); acc += v; }
        else if (o.kind == OP_EAGER_CHILD) { MC_AWAIT_SET(v, (w->macro ? eager_child<true>(w, o.child, depth + 1) : eager_child<false>(w, o.child, depth + 1))); acc += v; }
        else if (o.kind == OP_THROW) { throw_fail(o.id); }
        else if (o.kind == OP_RETURN) { MC_RETURN(acc); }
        else if (o.kind == OP_RETURN_AWAIT) { MC_RETURN_AWAIT(GateInt(o)); }
    }
    MC_RETURN(acc);
    MC_END();
}
template<class Tk, bool MACRO> static Tk body(World* w, int b, int depth) {
    if constexpr (MACRO) return macro_body<Tk>(w, b, depth); else return native_body<Tk>(w, b, depth);
}
template<class Tk> static eager_task<void> root(World* w, Tk t) {
    try { sim::alloc_faults(w->oom); int v = co_await std::move(t); sim::alloc_faults(false); w->ev(E_VALUE, v % 1000); }
    catch (Fail& f) { sim::alloc_faults(false); w->ev(E_CATCH, f.id % 1000); }
    catch (std::bad_alloc&) { sim::alloc_faults(false); sim::probe("failure-reached-awaiter"); w->ev(E_CATCH, 999); }
    w->ev(E_DONE, 0);
}
static bool cmp_ev(int e) { int tag = e / 1000, id = e % 1000; return !((tag == E_CTOR || tag == E_MOVE || tag == E_DTOR) && id >= 100 && id < 200); }   // frame locals may outlive the final suspend
template<bool MACRO, class Tk> static void run_script(World& w, Script& s) {
    W = &w; w.s = &s; w.macro = MACRO;
    {
        LvGates lv; make_lvalue_gates(lv, s);
        std::optional<eager_task<void>> r;
        r.emplace(root<Tk>(&w, body<Tk, MACRO>(&w, 0, 0)));
        while (w.has_pending) {
            if (w.suspensions > s.destroy_at) { w.ev(E_DESTROY, 0); w.has_pending = false; r.reset(); break; }
            auto h = w.pending; w.has_pending = false; w.ev(E_RESUME, 0); h.resume();
        }
        if (r) SIM_CHECK(r->is_ready(), "lost-completion", "%s coroutine stopped without completing", MACRO ? "the macro-style" : "the native");
    }
    SIM_CHECK(w.live == 0, w.live > 0 ? "frame-not-destroyed" : "double-destroy", "%d tracked objects are alive after a %s coroutine was destroyed", w.live, MACRO ? "macro-style" : "native");
}
static Script script(int maxops, int nbodies) {
    Script s; s.eager = sim::pick(2); int id = 1; nbodies = 1 + sim::pick(nbodies);
    for (int b = 0; b < nbodies; ++b) {
        Body bd; int n = sim::pick(maxops + 1);
        for (int i = 0; i < n; ++i) {
            Op o; o.kind = sim::pick(OP_KINDS); o.ready = sim::pick(3); int t = sim::pick(12); o.thrown = t > 8 ? t - 8 : 0; o.style = sim::pick(2); o.id = id++; o.child = 0;
            if (o.kind == OP_CHILD || o.kind == OP_EAGER_CHILD) { if (b + 1 < nbodies) o.child = b + 1 + sim::pick(nbodies - b - 1); else o.kind = OP_INT; }
            if (o.kind == OP_TRY && o.thrown != 3) o.thrown = 0;          // MC_AWAIT_TRY guards only the result
            if (o.kind == OP_VOID && o.ready == REFUSE && o.thrown == 2) o.thrown = 0;
            bd.ops.push_back(o);
        }
        s.bodies.push_back(std::move(bd));
    }
    s.destroy_at = sim::pick(2) ? sim::pick(5) : 1 << 20;
    return s;
}
static void compare(World& a, World& b) {
    std::vector<int> x, y; for (int e : a.log) if (cmp_ev(e)) x.push_back(e); for (int e : b.log) if (cmp_ev(e)) y.push_back(e);
    size_t n = std::min(x.size(), y.size());
    for (size_t i = 0; i < n; ++i) SIM_CHECK(x[i] == y[i], "differs-from-native", "step %zu: native event %d, macro event %d (event = kind*1000+object)", i, x[i], y[i]);
    SIM_CHECK(x.size() == y.size(), "differs-from-native", "native coroutine did %zu steps, the macro one %zu", x.size(), y.size());
    SIM_CHECK(a.suspensions == b.suspensions, "differs-from-native", "native suspended %d times, macro %d times", a.suspensions, b.suspensions);
}
template<class Tk> static void equiv(int maxops, int nb) {
    Script s = script(maxops, nb);
    World a, b; run_script<false, Tk>(a, s); run_script<true, Tk>(b, s); compare(a, b);
    sim::u64 h = s.destroy_at; for (int e : a.log) h = h * 1000003 + e; sim::cover(h);
    if (s.destroy_at < 1000 && a.suspensions > s.destroy_at) sim::probe("destroyed-while-suspended");
}
SCENARIO_W(C10, lazy_flat, 2) { equiv<task<int>>(6, 1); }
SCENARIO(C10, eager_flat) { equiv<eager_task<int>>(6, 1); }
SCENARIO_W(C10, lazy_nested, 2) { equiv<task<int>>(4, 4); }
SCENARIO(C10, eager_nested) { equiv<eager_task<int>>(4, 4); }
// Allocations fail while the macro-style body runs: nothing may leak, be destroyed twice or crash; the
// failure reaches the awaiter (or whoever called the coroutine) as bad_alloc.
template<class Tk> static void oom(int maxops, int nb) {
    Script s = script(maxops, nb); s.destroy_at = 1 << 20; World w; W = &w; w.s = &s; w.macro = true; sim::u64 f0 = sim::alloc_fail_count(); bool escaped = false; w.oom = true;
    w.log.reserve(4001);
    {
        LvGates lv; make_lvalue_gates(lv, s);
        std::optional<eager_task<void>> r;
        try { sim::alloc_faults(true); Tk t = body<Tk, true>(&w, 0, 0); sim::alloc_faults(false); r.emplace(root<Tk>(&w, std::move(t))); sim::alloc_faults(false); }
        catch (std::bad_alloc&) { sim::alloc_faults(false); escaped = true; sim::probe("frame-creation-failed"); }
        while (r && w.has_pending) {
            auto h = w.pending; w.has_pending = false; sim::alloc_faults(true); h.resume(); sim::alloc_faults(false);
        }
        if (r) SIM_CHECK(r->is_ready(), "lost-completion", "the coroutine stopped without completing");
        else w.has_pending = false;
        sim::u64 h = 7; for (int e : w.log) h = h * 1000003 + e; sim::cover(h);
        if (escaped) SIM_CHECK(sim::alloc_fail_count() > f0, "spurious-bad-alloc", "bad_alloc without an allocation failure");
    }
    SIM_CHECK(w.live == 0, w.live > 0 ? "frame-not-destroyed" : "double-destroy", "%d tracked objects are alive after the coroutine was destroyed", w.live);
}
SCENARIO(C10, lazy_out_of_memory) { oom<task<int>>(4, 3); }
SCENARIO(C10, eager_out_of_memory) { oom<eager_task<int>>(4, 3); }

// A macro-style coroutine resumed and awaited across threads, through both kinds of handle.
struct StdHop { Exec* e; bool await_ready() { return false; } std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { e->post(macoro::coroutine_handle<>(h)); return std::noop_coroutine(); } int await_resume() { return 1; } };
template<class Tk> static Tk hop_macro(Exec& e, int n, int kind, int depth) {
    MC_BEGIN(Tk, &e, n, kind, depth, t = Trk(100), i = 0, v = 0, acc = 0);
    for (i = 0; i < n; ++i) {
        if ((kind >> i) & 1) { MC_AWAIT_SET(v, StdHop{ &e }); acc += v; }
        else { MC_AWAIT(e.hop()); acc += 1; }
        if (depth) { MC_AWAIT_SET(v, hop_macro<Tk>(e, 1, kind >> 1, depth - 1)); acc += v - 1; }
    }
    MC_RETURN(acc);
    MC_END();
}
SCENARIO(C10, across_threads) {
    gh::clear(); World w; W = &w; int n = sim::pick(4), kind = sim::pick(8), d = sim::pick(2); w.log.reserve(4001);
    { Exec e(1 + sim::pick(2)); int r = sim::pick(2) ? sync_wait(hop_macro<task<int>>(e, n, kind, d)) : sync_wait(hop_macro<eager_task<int>>(e, n, kind, d)); SIM_CHECK(r == n, "wrong-result", "%d hops counted as %d", n, r); }
    SIM_CHECK(w.live == 0, "frame-not-destroyed", "%d locals alive", w.live);
}

// A generator with a promise of its own, driven and destroyed through every kind of handle: typed,
// type-erased, std, and rebuilt from its address.
struct Gen;
struct GenPromise {
    int out = 0, in = 0, ret = -1; std::exception_ptr e; Trk t{ 300 };
    Gen get_return_object(); Gen macoro_get_return_object();
    struct Edge { GenPromise* p; Trk t; bool stay; bool await_ready() const noexcept { t.check(); t.w->ev(E_READY, t.id); return false; } bool await_suspend(std::coroutine_handle<>) const noexcept { t.check(); t.w->ev(E_SUSP, t.id); return stay; } bool await_suspend(macoro::coroutine_handle<>) const noexcept { t.check(); t.w->ev(E_SUSP, t.id); return stay; } void await_resume() const noexcept { t.check(); t.w->ev(E_RESUME, t.id); } };
    Edge initial_suspend() { return Edge{ this, Trk(320), W->s->destroy_at == 0 }; }      // destroy_at is free in a generator's script: whether its start is put off
    Edge final_suspend() noexcept { return Edge{ this, Trk(330), true }; }
    struct Y { GenPromise* p; Trk t; bool await_ready() { t.check(); return p->out == 5; } void await_suspend(std::coroutine_handle<>) { t.check(); } void await_suspend(macoro::coroutine_handle<>) { t.check(); } int await_resume() { t.check(); return p->in; } };
    Y yield_value(int v) { out = v % 16; W->ev(E_VALUE, out); return Y{ this, Trk(310) }; }
    template<class T> T&& await_transform(T&& t) { return static_cast<T&&>(t); }
    XfAwaitable await_transform(Xf&& x) { x.t.check(); x.t.w->ev(E_FN, 254); if (x.op.style & 1) throw_fail(x.op.id); return XfAwaitable(x.op); }
    void return_value(int v) { ret = v; W->ev(E_VALUE, 100 + v % 256); }
    void unhandled_exception() { e = std::current_exception(); W->ev(E_ESCAPE, 0); }
};
struct Gen {
    using promise_type = GenPromise; macoro::coroutine_handle<GenPromise> h;
};
Gen GenPromise::get_return_object() { return { macoro::coroutine_handle<GenPromise>::from_promise(*this, coroutine_handle_type::std) }; }
Gen GenPromise::macoro_get_return_object() { return { macoro::coroutine_handle<GenPromise>::from_promise(*this, coroutine_handle_type::macoro) }; }
enum { G_YIELD, G_YIELD_SET, G_YIELD_AWAIT, G_AWAIT, G_AWAIT_STD, G_NEVER, G_THROW, G_RETURN, G_RETURN_YIELD, G_TRANSFORM, G_TRY_CATCH, G_KINDS };
static int fail_id(std::exception_ptr p) { try { std::rethrow_exception(p); } catch (Fail& f) { return f.id % 1000; } catch (...) { return 998; } }
static Gen native_gen(World* w) {
    Trk frame(100); int acc = 0; const auto& ops = w->s->bodies[0].ops;
    for (size_t i = 0; i < ops.size(); ++i) {
        const Op& o = ops[i]; w->ev(E_OP, o.kind);
        if (o.kind == G_YIELD) co_yield o.id;
        else if (o.kind == G_YIELD_SET) { int v = co_yield o.id; acc += v; }
        else if (o.kind == G_YIELD_AWAIT) co_yield co_await GateInt(o);
        else if (o.kind == G_AWAIT) { int v = co_await GateHandle(o); acc += v; }
        else if (o.kind == G_AWAIT_STD) { int v = co_await GateStd(o); acc += v; }
        else if (o.kind == G_NEVER) { co_await macoro::suspend_never{}; co_await macoro::suspend_always{}; }
        else if (o.kind == G_THROW) throw_fail(o.id);
        else if (o.kind == G_RETURN) co_return acc;
        else if (o.kind == G_RETURN_YIELD) co_return co_yield o.id;
        else if (o.kind == G_TRANSFORM) { int v = co_await Xf(o); acc += v; }
        else if (o.kind == G_TRY_CATCH) { std::exception_ptr p; try { Trk l(o.id + 700); if (o.ready == READY) throw_fail(o.id); } catch (...) { p = std::current_exception(); } if (p) { w->ev(E_CATCH, fail_id(p)); ++acc; } }
    }
    co_return acc;
}
static Gen macro_gen(World* w) {
    MC_BEGIN(Gen, w, frame = Trk(100), acc = 0, v = 0, i = size_t(0), o = Op{});
    for (i = 0; i < w->s->bodies[0].ops.size(); ++i) {
        o = w->s->bodies[0].ops[i]; w->ev(E_OP, o.kind);
        if (o.kind == G_YIELD) { MC_YIELD(o.id); }
        else if (o.kind == G_YIELD_SET) { MC_YIELD_SET(v, o.id); acc += v; }
        else if (o.kind == G_YIELD_AWAIT) { MC_YIELD_AWAIT(GateInt(o)); }
        else if (o.kind == G_AWAIT) { MC_AWAIT_SET(v, GateHandle(o)); acc += v; }
        else if (o.kind == G_AWAIT_STD) { MC_AWAIT_SET(v, GateStd(o)); acc += v; }
        else if (o.kind == G_NEVER) { MC_AWAIT(macoro::suspend_never{}); MC_AWAIT(macoro::suspend_always{}); }
        else if (o.kind == G_THROW) { throw_fail(o.id); }
        else if (o.kind == G_RETURN) { MC_RETURN(acc); }
        else if (o.kind == G_RETURN_YIELD) { MC_RETURN_YIELD(o.id); }
        else if (o.kind == G_TRANSFORM) { MC_AWAIT_SET(v, Xf(o)); acc += v; }
        else if (o.kind == G_TRY_CATCH) { MACORO_TRY{ Trk l(o.id + 700); if (o.ready == READY) throw_fail(o.id); } MACORO_CATCH(ep) { w->ev(E_CATCH, fail_id(ep)); ++acc; } }
    }
    MC_RETURN(acc);
    MC_END();
}
struct Drive { std::vector<int> how; int destroy_how; int destroy_at; };
static void handle_laws(macoro::coroutine_handle<GenPromise> h, bool mac) {
    macoro::coroutine_handle<> e = h, null, n2(nullptr); macoro::coroutine_handle<GenPromise> tn, tn2(nullptr), back = macoro::coroutine_handle<GenPromise>::from_address(h.address());
    auto s = h.std_cast(); auto s2 = (std::coroutine_handle<>)e; macoro::coroutine_handle<> viastd(s);
    SIM_CHECK(h && e && s && !null && !n2 && !tn && !tn2, "handle-law", "handles convert to bool wrongly");
    SIM_CHECK(e == h && !(e != h) && e <= h && e >= h && !(e < h) && !(e > h) && e != null && !(e == null), "handle-law", "a handle does not equal its type-erased copy");
    SIM_CHECK((e < null) != (null < e) && (e < null) == (null > e) && (e <= null) == !(null < e), "handle-law", "handles are not ordered");
    SIM_CHECK(back == e && &back.promise() == &h.promise() && macoro::coroutine_handle<>::from_address(e.address()) == e, "handle-law", "the address does not give the handle back");
    SIM_CHECK(macoro::coroutine_handle<GenPromise>::from_promise(h.promise(), mac ? coroutine_handle_type::macoro : coroutine_handle_type::std) == h, "handle-law", "the promise does not give the handle back");
    SIM_CHECK(s == s2 && viastd.is_std() && viastd.std_cast() == s && e.is_std() == !mac, "handle-law", "conversions to and from std handles disagree");
    SIM_CHECK(h.done() == e.done() && h.done() == s.done() && h.done() == viastd.done(), "handle-law", "done() is %d, type-erased %d, std %d", h.done(), e.done(), s.done());
    e = nullptr; tn = h; tn = nullptr; SIM_CHECK(!e && !tn, "handle-law", "assigning nullptr does not clear a handle");
    auto noop = macoro::noop_coroutine(); macoro::coroutine_handle<> ne = noop;
    SIM_CHECK(noop && ne && !noop.done() && !ne.done() && ne == noop && ne != h, "handle-law", "the noop coroutine");
    ne.resume(); ne(); noop.resume(); noop(); noop.destroy(); ne.destroy(); ne.std_cast().resume(); SIM_CHECK(!((std::coroutine_handle<>)ne).done(), "handle-law", "the noop coroutine");
}
static void resume_via(macoro::coroutine_handle<GenPromise> h, int how) {
    macoro::coroutine_handle<> e = h;
    switch (how) { case 0: h.resume(); break; case 1: h(); break; case 2: e.resume(); break; case 3: e(); break; case 4: h.std_cast().resume(); break; case 5: ((std::coroutine_handle<>)e)(); break;
    case 6: macoro::coroutine_handle<>::from_address(h.address()).resume(); break; case 7: macoro::coroutine_handle<>(e.std_cast()).resume(); break; }
}
static void run_gen(World& w, Script& s, const Drive& d, bool mac) {
    W = &w; w.s = &s; w.macro = mac;
    {
        Gen g = mac ? macro_gen(&w) : native_gen(&w); auto h = g.h; int n = 0;
        for (;; ++n) {
            handle_laws(h, mac);
            if (h.done()) { w.ev(E_DONE, h.promise().ret & 255); if (h.promise().e) try { std::rethrow_exception(h.promise().e); } catch (Fail& f) { w.ev(E_CATCH, f.id % 1000); } break; }
            if (n == d.destroy_at) break;
            h.promise().in = n; int how = d.how[n % d.how.size()];
            if (w.has_pending) { w.has_pending = false; if (how & 1) { w.pending.resume(); continue; } }
            resume_via(h, how);
        }
        w.has_pending = false; macoro::coroutine_handle<> e = h;
        switch (d.destroy_how) { case 0: h.destroy(); break; case 1: e.destroy(); break; case 2: h.std_cast().destroy(); break; case 3: macoro::coroutine_handle<>(e.std_cast()).destroy(); break; }
    }
    SIM_CHECK(w.live == 0, w.live > 0 ? "frame-not-destroyed" : "double-destroy", "%d tracked objects are alive after a %s generator was destroyed", w.live, mac ? "macro-style" : "native");
}
SCENARIO_W(C10, generator_handles, 2) {
    Script s; Body b; int n = sim::pick(7); for (int i = 0; i < n; ++i) { Op o; o.kind = sim::pick(G_KINDS); o.ready = sim::pick(3); int t = sim::pick(16); o.thrown = t > 12 ? t - 12 : 0; o.style = o.kind == G_TRANSFORM && sim::pick(8) == 0; o.id = i + 1; o.child = 0; b.ops.push_back(o); }
    s.bodies.push_back(b); s.eager = false; s.destroy_at = sim::pick(4) == 0;
    Drive d; int m = 1 + sim::pick(3); for (int i = 0; i < m; ++i) d.how.push_back(sim::pick(8)); d.destroy_how = sim::pick(4); d.destroy_at = sim::pick(2) ? sim::pick(6) : 1 << 20;
    World x, y; run_gen(x, s, d, false); run_gen(y, s, d, true);
    std::vector<int> p, q; for (int e : x.log) if (cmp_ev(e)) p.push_back(e); for (int e : y.log) if (cmp_ev(e)) q.push_back(e);
    // the promise is moved into neither frame: only its order of destruction relative to the locals may differ
    auto nop = [](std::vector<int>& v) { v.erase(std::remove_if(v.begin(), v.end(), [](int e) { int id = e % 1000, tag = e / 1000; return id == 300 && (tag == E_CTOR || tag == E_MOVE || tag == E_DTOR); }), v.end()); }; nop(p); nop(q);
    for (size_t i = 0; i < std::min(p.size(), q.size()); ++i) SIM_CHECK(p[i] == q[i], "differs-from-native", "step %zu: native event %d, macro event %d", i, p[i], q[i]);
    SIM_CHECK(p.size() == q.size(), "differs-from-native", "native generator did %zu steps, the macro one %zu", p.size(), q.size());
    sim::u64 hh = d.destroy_how; for (int e : x.log) hh = hh * 1000003 + e; sim::cover(hh);
}
