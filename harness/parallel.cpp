// C25: the cases of the properties whose code holds parallel loops run with one thread and with several; ThreadSanitizer
// reports conflicting accesses, and the results of the two runs must be equal bit for bit.
#include "common.h"
extern int qk_omp_threads __attribute__((weak));
PropFn prop_named(const std::string&);
PROP(C25) {
    static const char* P[] = {"C11", "C12", "C10", "C11", "C12", "C10", "C14", "C13", "C26", "C21", "C08", "C09", "C05", "C06", "C22"};
    const char* p = P[r.p(3, 4) ? r.in(0, 5) : r.in(6, 14)]; NOTE << "case of " << p; std::string d0 = g_desc;
    if (!&qk_omp_threads) return;
    unsigned long long dig[2]; std::string soft[2];
    for (int k = 0; k < 2; k++) {
        Rng q = r; g_digest = 1469598103934665603ULL; g_desc = d0; qk_omp_threads = k ? 4 : 1; g_soft = true;
        try { prop_named(p)(q); } catch (Soft& e) { soft[k] = e.what; }
        g_soft = false; dig[k] = g_digest;
    }
    CHECK(soft[0].empty() == soft[1].empty()) << "one thread: " << soft[0] << " four threads: " << soft[1];
    CHECK(dig[0] == dig[1]) << "the values computed with four threads differ from those computed with one";
    NONTRIVIAL();
}
