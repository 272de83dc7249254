#include "common.h"
long g_case = -1; unsigned long g_seed = 1; long g_nontrivial = 0; std::string g_desc; const char* g_prop = "?"; bool g_nt = false; bool g_soft = false; unsigned long long g_digest = 0;
static std::map<std::string, PropFn>& tab() { static std::map<std::string, PropFn> t; return t; }
Reg::Reg(const char* n, PropFn f) { tab()[n] = f; }
PropFn prop_named(const std::string& n) { return tab()[n]; }
static void onsig(int s) {
    char b[256]; int n = std::snprintf(b, sizeof b, "FAIL property=%s seed=%lu case=%ld\nobserved: signal %d (%s)\ninput: ", g_prop, g_seed, g_case, s, s == SIGALRM ? "did not end" : "crash");
    if (write(1, b, n) < 0) {} if (write(1, g_desc.data(), g_desc.size()) < 0) {} if (write(1, "\n", 1) < 0) {} _exit(3);
}
int main(int argc, char** argv) {
    if (argc < 4) { std::fprintf(stderr, "usage: %s PROP SEED NCASES [ONLYCASE]\n", argv[0]); return 2; }
    g_prop = argv[1]; g_seed = std::strtoul(argv[2], 0, 10); long n = std::atol(argv[3]);
    long only = argc > 4 ? std::atol(argv[4]) : -1;
    double budget = argc > 5 ? std::atof(argv[5]) : 1e9;
    if (!tab().count(g_prop)) return 2;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) std::signal(s, onsig);
    time_t t0 = time(0); long done = 0; std::string sample;
    for (long k = 0; k < n; k++) {
        if (only >= 0 && k != only) continue;
        g_case = k; g_desc.clear(); g_nt = false;
        Rng r(g_seed * 1000003ULL + k);
        alarm(90);
        try { tab()[g_prop](r); }
        catch (qk::exception& e) { Fail() << "unexpected qk::exception: " << e.what(); }
        catch (std::exception& e) { Fail() << "unexpected std::exception: " << e.what(); }
        alarm(0); done++; g_nontrivial += g_nt;
        if (done <= 2) sample += g_desc.substr(0, 300) + "\n";
        if (time(0) - t0 > budget) break;
    }
    std::printf("OK property=%s seed=%lu cases=%ld nontrivial=%ld\nSAMPLES\n%s", g_prop, g_seed, done, g_nontrivial, sample.c_str());
    return 0;
}
