#include "opkit.hpp"
#include <cstdio>
#include <new>
namespace sim {
    void Val::set(ElemKind k, bool rs, std::size_t rr, std::size_t cc, const void *p, std::size_t n) {
        kind = k;
        raise = rs;
        r = rr;
        c = cc;
        bytes.assign(static_cast<const char *>(p), rs ? 0 : n);
    }
    double wild_double(Rng &r) {
        switch (r.below(6)) {
            case 0:
                return std::numeric_limits<double>::infinity() * (r.below(2) ? 1 : -1);
            case 1:
            case 2:
                return std::numeric_limits<double>::quiet_NaN();
            case 3:
                return std::ldexp(1.0, r.range(-1074, -1000));
            case 4:
                return std::ldexp(-1.5, r.range(900, 1023));
            default:
                return std::ldexp(1.0 + double(r.below(4096)) / 4096, r.range(-60, 60));
        }
    }
    static bool close(double a, double b, double tol) {
        if (std::isnan(a) || std::isnan(b))
            return std::isnan(a) && std::isnan(b);
        if (std::isinf(a) || std::isinf(b))
            return a == b;
        double big = std::fmax(std::fabs(a), std::fabs(b));
        if (tol < 0)    // purely relative, down to the smallest normal number
            return std::fabs(a - b) <= std::fmax(-tol * big, 1e-306);
        return std::fabs(a - b) <= tol * (1 + big);
    }
    bool same(const Val &a, const Val &b) {
        if (a.raise != b.raise)
            return false;
        if (a.raise)
            return true;
        if (a.kind != b.kind || a.r != b.r || a.c != b.c || a.bytes.size() != b.bytes.size())
            return false;
        if (a.bytes == b.bytes)
            return true;
        if (a.kind == K_F64 || a.kind == K_C128) {
            for (std::size_t i = 0; i < a.bytes.size(); i += 8) {
                double x, y;
                memcpy(&x, &a.bytes[i], 8);
                memcpy(&y, &b.bytes[i], 8);
                if (!close(x, y, b.tol != 0 ? b.tol : 1e-9))
                    return false;
            }
            return true;
        }
        if (a.kind == K_F32) {
            for (std::size_t i = 0; i < a.bytes.size(); i += 4) {
                float x, y;
                memcpy(&x, &a.bytes[i], 4);
                memcpy(&y, &b.bytes[i], 4);
                if (!close(x, y, b.tol != 0 ? b.tol : 2e-4))
                    return false;
            }
            return true;
        }
        return false;
    }
    std::string show(const Val &v) {
        if (v.raise)
            return "<refused>";
        std::string s = "[" + std::to_string(v.r) + "x" + std::to_string(v.c) + ":";
        static const int szs[] = {4, 4, 8, 1, 8, 4, 16, 4, 8};
        std::size_t sz = std::size_t(szs[v.kind]), n = v.bytes.size() / sz;
        for (std::size_t i = 0; i < n && i < 20; ++i) {
            char b[80];
            const char *p = &v.bytes[i * sz];
            switch (v.kind) {
                case K_I32: {
                    int x;
                    memcpy(&x, p, 4);
                    snprintf(b, sizeof b, " %d", x);
                    break;
                }
                case K_U32:
                case K_ZP: {
                    unsigned x;
                    memcpy(&x, p, 4);
                    snprintf(b, sizeof b, " %u", x);
                    break;
                }
                case K_I64:
                case K_U64: {
                    uint64_t x;
                    memcpy(&x, p, 8);
                    snprintf(b, sizeof b, " %llx", (unsigned long long)x);
                    break;
                }
                case K_U8:
                    snprintf(b, sizeof b, " %u", (unsigned char)*p);
                    break;
                case K_F64: {
                    double x;
                    memcpy(&x, p, 8);
                    snprintf(b, sizeof b, " %.12g", x);
                    break;
                }
                case K_F32: {
                    float x;
                    memcpy(&x, p, 4);
                    snprintf(b, sizeof b, " %.7g", x);
                    break;
                }
                case K_C128: {
                    double x, y;
                    memcpy(&x, p, 8);
                    memcpy(&y, p + 8, 8);
                    snprintf(b, sizeof b, " (%.9g,%.9g)", x, y);
                    break;
                }
            }
            s += b;
        }
        return s + (n > 20 ? " ...]" : "]");
    }
    void BundleBase::renew(uint64_t sd) {
        seed = sd;
        regenerate(sd);
        image(snap);
    }
    std::string BundleBase::describe() const {
        char b[32];
        snprintf(b, sizeof b, " #%llx", (unsigned long long)(seed));
        return *name + b;
    }
    bool BundleBase::intact(std::string &why) {
        std::string now;
        image(now);
        if (now != snap) {
            why = "its value is not what the caller stored";
            return false;
        }
        return true;
    }
    Outcome BundleBase::exec(bool fault_allowed) {
        Outcome o;
        Account before = account();
        {
            Val got;
            try {
                invoke(got);
            } catch (...) {
                op_leave();
                switch (classify()) {
                    case C_FAULT:
                        o.faulted = true;
                        break;
                    case C_ALLOC:
                        if (!fault_fired())
                            violation("spurious-failure",
                                      "out-of-memory reported although no allocation failed: " + describe());
                        o.faulted = true;
                        break;
                    default:
                        got.raise = true;
                }
            }
            if (o.faulted) {
                if (!fault_allowed || !fault_fired())
                    violation("spurious-failure",
                              "a failure was reported although none was injected into this call: " + describe());
            } else if (fault_allowed && fault_fired()) {
                violation(got.raise ? "failure-replaced" : "failure-swallowed",
                          "a failure inside the call did not reach the caller: " + describe() + " answered " +
                              show(got) + ", fault-free answer " + show(expected));
            } else {
                if (!wild_values && !same(got, expected))
                    violation(got.raise ? "refused-valid" : expected.raise ? "accepted-invalid" : "wrong-value",
                              describe() + " got " + show(got) + " want " + show(expected));
                if (got.raise)
                    o.raised = true;
                else
                    o.bits = got.bytes;
            }
        }
        Account after = account();
        if (after.live_cells != before.live_cells)
            violation("leak", describe() + (o.faulted ? " (failed call)" : "") + ": " +
                                  std::to_string(after.live_cells - before.live_cells) +
                                  " element(s) made by the call were not released");
        if (after.live_allocs != before.live_allocs)
            violation("leak", describe() + (o.faulted ? " (failed call)" : "") + ": " +
                                  std::to_string(after.live_allocs - before.live_allocs) +
                                  " allocation(s) made by the call were not released");
        if (o.faulted && fault_calls_after_fire(F_CALLBACK))
            violation("callback-after-failure", "the callback was called again after it had failed: " + describe());
        std::string why;
        if (o.faulted && !intact(why))
            violation("operand-changed", "after a failed call, " + why + ": " + describe());
        return o;
    }
    void add_op(const std::string &name, unsigned tags, int weight,
                std::function<std::unique_ptr<Bundle>(const std::string *, uint64_t)> make) {
        const std::string *nm = new std::string(name);
        ops().push_back(OpDef {name, tags, [=](uint64_t seed) { return make(nm, seed); }, weight});
    }
}    // namespace sim
