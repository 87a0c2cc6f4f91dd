// C19 (config, addr, text) and C23 (digest, keys): oracles are an independent option model, libc, and OpenSSL's own
// one-shot interfaces; descriptor and live-heap accounting around every failing call.
#include "vf.h"
#include "salticidae/util.h"
#include "salticidae/netaddr.h"
#include "salticidae/crypto.h"
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/err.h>
#include <openssl/x509.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <sys/stat.h>
#include <map>
#include <algorithm>
#include <math.h>
using namespace salticidae;
using vf::Rng; using std::string; using std::vector;
#if VF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long heap() { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
static long heap() { return 0; }
#endif

// runs f and tells how it ended: 0 fine, >0 SalticidaeError code, -1 any other exception
template<typename F> static int outcome(F &&f) {
    try { f(); return 0; }
    catch (const SalticidaeError &e) { return e.get_code() ? e.get_code() : 9999; }
    catch (const std::exception &) { return -1; }
}
static void put_file(const string &f, const string &s) {
    FILE *p = fopen(f.c_str(), "wb"); if (!p) { perror(f.c_str()); _exit(3); }
    fwrite(s.data(), 1, s.size(), p); fclose(p);
}
static string get_file(const string &f) {
    string s; FILE *p = fopen(f.c_str(), "rb"); if (!p) return s;
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n);
    fclose(p); return s;
}
static string word(Rng &r, int lo, int hi) { string s; int n = r.range(lo, hi); for (int i = 0; i < n; i++) s += (char)('a' + r.below(26)); return s; }

// ------------------------------------------------------------------------------------------------ configuration
struct MOpt { int kind; string name; char sh; bool flag = false; string str; int i = 0; double d = 0; vector<string> v;
    RcObj<Config::OptValFlag> of; RcObj<Config::OptValStr> os; RcObj<Config::OptValInt> oi; RcObj<Config::OptValDouble> od; RcObj<Config::OptValStrVec> ov; };
struct ConfCase {
    Rng r; uint64_t seed; string dir;
    vector<MOpt> opts;
    string trace;
    ConfCase(uint64_t s): r(s), seed(s), dir(vf::scratch()) {}
    string val(MOpt &o, bool file) {
        switch (o.kind) {
            case 0: return file ? word(r, 0, 3) : "";
            case 2: { long x = r.chance(1, 6) ? (r.chance(1, 2) ? 2147483647L : -2147483648L) : r.range(-100000, 100000); return std::to_string(x); }
            case 3: { char b[64]; snprintf(b, sizeof b, r.chance(1, 2) ? "%.17g" : "%g", (r.unit() - 0.5) * pow(10, r.range(-5, 12))); return b; }
            default: {
                string s = word(r, 0, 6);
                if (r.chance(1, 3)) s += "=" + word(r, 0, 4);
                if (r.chance(1, 3)) s += " " + word(r, 1, 4);
                if (r.chance(1, 20)) s += string(r.range(1000, 60000), 'q');
                return s;
            }
        }
    }
    void apply(MOpt &o, const string &v) {
        switch (o.kind) {
            case 0: o.flag = true; break;
            case 1: o.str = v; break;
            case 2: o.i = (int)strtol(v.c_str(), nullptr, 10); break;
            case 3: o.d = strtod(v.c_str(), nullptr); break;
            case 4: o.v.push_back(v); break;
        }
    }
    // writes a random configuration file and applies it to the model
    string file(const string &name, int bad) { // bad: 0 fine, 1 invalid value, 2 over-long line
        string s; int n = r.range(0, 12), at = bad ? (int)r.below(n + 1) : -1;
        for (int k = 0; k <= n; k++) {
            if (k == at) {
                if (bad == 1) {
                    vector<MOpt *> num; for (auto &o: opts) if (o.kind == 2 || o.kind == 3) num.push_back(&o);
                    static const vector<string> junk = {"12x", "abc", "", "-", "1 2", "--3", "1e999x", "999999999999999999999x"};
                    { MOpt *o = num[r.below(num.size())]; s += o->name + " = " + (r.chance(1, 5) ? (o->kind == 2 ? r.pick(vector<string>{"99999999999999", "2147483648", "-2147483649", "4294967296"}) : string("1e99999")) : r.pick(junk)) + "\n"; }
                } else s += opts[0].name + "=" + string(70000 + r.below(100000), 'x') + "\n";
                return put_file(dir + "/" + name, s), dir + "/" + name;
            }
            if (k == n) break;
            if (r.chance(1, 8)) { s += r.chance(1, 2) ? "# comment\n" : "\n"; continue; }
            if (r.chance(1, 8)) { s += "zzunknown" + word(r, 1, 4) + " = 5\n"; continue; }
            MOpt &o = opts[r.below(opts.size())];
            string v = val(o, true); 
            string nm = (o.sh != -1 && r.chance(1, 6)) ? string(1, o.sh) : o.name;
            auto ws = [&] { string w; int c = r.below(3); while (c--) w += r.chance(1, 2) ? ' ' : '\t'; return w; };
            s += ws() + nm + ws() + "=" + ws() + v + ws() + (r.chance(1, 6) ? "\r\n" : "\n");
            apply(o, v.empty() ? v : v.find_first_not_of(" ") == string::npos ? "" : v.substr(v.find_first_not_of(" "), v.find_last_not_of(" ") - v.find_first_not_of(" ") + 1));
            trace += " file(" + nm + "=" + v.substr(0, 20) + ")";
        }
        if (!s.empty() && r.chance(1, 3)) s.pop_back(); // no final newline
        put_file(dir + "/" + name, s);
        return dir + "/" + name;
    }
    void run() {
        int bad = r.chance(1, 3) ? (int)r.range(1, 5) : 0; // 1 file value 2 long line 3 cmd value 4 unknown option 5 missing argument
        bool with_conf = r.chance(3, 4) || bad == 1 || bad == 2;
        string main_conf = r.chance(1, 6) ? dir + "/absent.conf" : dir + "/main.conf";
        if (bad == 1 || bad == 2) main_conf = dir + "/main.conf";
        unlink((dir + "/main.conf").c_str());
        int N = r.range(3, 9); string used = "c?:;-W";
        for (int k = 0; k < N; k++) {
            MOpt o; o.kind = k < 5 ? k : (int)r.below(5);
            o.name = vf::fmt("opt%d", k) + (r.chance(1, 2) ? "-" + word(r, 1, 12) : word(r, 1, 5));
            o.sh = -1;
            if (r.chance(1, 2)) { char c = 'a' + r.below(26); if (used.find(c) == string::npos) { o.sh = c; used += c; } }
            o.str = word(r, 0, 4); o.i = r.range(-5, 5); o.d = r.unit(); if (r.chance(1, 3)) o.v.push_back("init");
            opts.push_back(o);
        }
        if (N < 4) N = opts.size();
        Config *cfg = with_conf ? new Config(main_conf) : new Config();
        for (auto &o: opts) {
            Config::optval_t ov;
            Config::Action act = o.kind == 0 ? Config::SWITCH_ON : o.kind == 4 ? Config::APPEND : Config::SET_VAL;
            switch (o.kind) {
                case 0: ov = o.of = Config::OptValFlag::create(false); break;
                case 1: ov = o.os = Config::OptValStr::create(o.str); break;
                case 2: ov = o.oi = Config::OptValInt::create(o.i); break;
                case 3: ov = o.od = Config::OptValDouble::create(o.d); break;
                case 4: ov = o.ov = Config::OptValStrVec::create(o.v); break;
            }
            cfg->add_opt(o.name, ov, act, o.sh, "doc of " + o.name);
        }
        // duplicate registration is refused
        { auto &o = opts[r.below(opts.size())];
          int rc = outcome([&] { cfg->add_opt(o.name, Config::OptValInt::create(1), Config::SET_VAL); });
          VF_CHECK(rc == SALTI_ERROR_OPTNAME_ALREADY_EXISTS, "config:duplicate-option-accepted", "rc=%d seed=%llu", rc, (unsigned long long)seed); }
        if (with_conf && main_conf.find("absent") == string::npos) file("main.conf", bad == 1 || bad == 2 ? bad : 0);
        vector<string> av = {"prog"};
        int nc = r.range(0, 8), at = bad >= 3 ? (int)r.below(nc + 1) : -1;
        bool stop = bad == 1 || bad == 2; 
        for (int k = 0; k <= nc && !stop; k++) {
            if (k == at) {
                if (bad == 3) {
                    vector<MOpt *> num; for (auto &o: opts) if (o.kind == 2 || o.kind == 3) num.push_back(&o);
                    static const vector<string> junk = {"12x", "abc", "", "99999999999999999999999x", "-", "5 ", "0x", "1.5.2"};
                    av.push_back("--" + num[r.below(num.size())]->name + "=" + r.pick(junk));
                } else if (bad == 4) av.push_back(r.chance(1, 2) ? "--zzunknown" : "-?");
                else { vector<MOpt *> num; for (auto &o: opts) if (o.kind) num.push_back(&o); av.push_back("--" + num[r.below(num.size())]->name); k = nc + 1; break; }
                continue;
            }
            if (k == nc) break;
            if (with_conf && r.chance(1, 8)) {
                string f = file(vf::fmt("extra%d.conf", k), 0);
                if (r.chance(1, 2)) av.push_back("--conf=" + f); else { av.push_back("-c"); av.push_back(f); }
                continue;
            }
            MOpt &o = opts[r.below(opts.size())];
            string v = val(o, false);
            if (o.kind == 0) av.push_back(o.sh != -1 && r.chance(1, 2) ? string("-") + o.sh : "--" + o.name);
            else switch (r.below(o.sh != -1 && !v.empty() ? 4 : 2)) {
                case 0: av.push_back("--" + o.name + "=" + v); break;
                case 1: av.push_back("--" + o.name); av.push_back(v); break;
                case 2: av.push_back(string("-") + o.sh); av.push_back(v); break;
                case 3: av.push_back(string("-") + o.sh + v); break;
            }
            apply(o, v);
            trace += " cmd(" + o.name + "=" + v.substr(0, 20) + ")";
        }
        size_t npos = 0, nargs_before;
        if (bad != 5) { npos = r.below(3); av.push_back("--"); }
        nargs_before = av.size();
        for (size_t k = 0; k < npos; k++) av.push_back("positional" + std::to_string(k));
        vector<char *> argv; vector<string> store = av; for (auto &s: store) argv.push_back(&s[0]); argv.push_back(nullptr);
        optind = 0; opterr = 0;
        long fds = vf::count_fds(); size_t ret = 0;
        int rc = outcome([&] { ret = cfg->parse((int)store.size(), argv.data()); });
        long fds2 = vf::count_fds();
        string ctx = vf::fmt(" seed=%llu bad=%d", (unsigned long long)seed, bad) + trace.substr(0, 800);
        VF_CHECK(fds2 == fds, "config:descriptor-leak", "%ld descriptors before, %ld after%s", fds, fds2, ctx.c_str());
        vf::stat(bad ? "config_malformed" : "config_valid");
        if (bad) {
            VF_CHECK(rc > 0, bad == 2 ? "config:overlong-line-accepted" : bad == 4 ? "config:unknown-option-accepted" : bad == 5 ? "config:missing-argument-accepted" : "config:malformed-value-accepted",
                     "expected the library's error, got %d (0 none, -1 foreign exception)%s", rc, ctx.c_str());
            if (rc > 0) {
                int want = bad == 2 ? SALTI_ERROR_CONFIG_LINE_TOO_LONG : bad >= 4 ? SALTI_ERROR_OPT_INVALID : SALTI_ERROR_OPTVAL_INVALID;
                VF_CHECK(rc == want, "config:wrong-error", "error %d instead of %d%s", rc, want, ctx.c_str());
            }
        } else {
            VF_CHECK(rc == 0, "config:valid-rejected", "error %d%s", rc, ctx.c_str());
            if (rc == 0) {
                VF_CHECK(ret == nargs_before, "config:positional-index", "%zu instead of %zu%s", ret, nargs_before, ctx.c_str());
                for (auto &o: opts) {
                    bool ok = true; string got;
                    switch (o.kind) {
                        case 0: ok = o.of->get() == o.flag; got = o.of->get() ? "on" : "off"; break;
                        case 1: ok = o.os->get() == o.str; got = o.os->get(); break;
                        case 2: ok = o.oi->get() == o.i; got = std::to_string(o.oi->get()); break;
                        case 3: ok = o.od->get() == o.d; got = std::to_string(o.od->get()); break;
                        case 4: ok = o.ov->get() == o.v; for (auto &x: o.ov->get()) got += x.substr(0, 20) + ","; break;
                    }
                    VF_CHECK(ok, "config:wrong-value", "option %s (kind %d) has value '%s'%s", o.name.c_str(), o.kind, got.substr(0, 200).c_str(), ctx.c_str());
                    vf::stat("option_values");
                }
                if (r.chance(1, 5)) {
                    string f = dir + "/help.txt"; FILE *p = fopen(f.c_str(), "w"); cfg->print_help(p); fclose(p);
                    string h = get_file(f);
                    for (auto &o: opts) VF_CHECK(h.find("--" + o.name + " ") != string::npos && h.find("doc of " + o.name) != string::npos, "config:help", "%s missing from the help text", o.name.c_str());
                }
            }
        }
        delete cfg;
        vf::eval(); vf::sig(vf::hash(trace) ^ bad);
    }
};
// lines around the longest one that is accepted: either complete or refused, never cut
static void long_line(uint64_t seed) {
    Rng r(seed);
    string dir = vf::scratch(), f = dir + "/long.conf";
    auto o = Config::OptValStr::create("init"); auto o2 = Config::OptValInt::create(1);
    size_t total = r.chance(1, 3) ? (size_t)r.range(1, 200000) : (size_t)(65536 * r.range(1, 2) + r.range(-4, 4));
    string v(total > 6 ? total - 5 : 1, 'v'); v.back() = 'e';   // "text=" + v
    put_file(f, "text=" + v + "\nnum=7" + (r.chance(1, 2) ? "\n" : ""));
    Config cfg(f); cfg.add_opt("text", o, Config::SET_VAL); cfg.add_opt("num", o2, Config::SET_VAL);
    char a0[] = "prog"; char *av[] = {a0, nullptr}; optind = 0; opterr = 0;
    long fds = vf::count_fds();
    int rc = outcome([&] { cfg.parse(1, av); });
    VF_CHECK(vf::count_fds() == fds, "config:descriptor-leak", "line of %zu bytes", total);
    if (rc == 0) VF_CHECK(o->get() == v && o2->get() == 7, "config:overlong-line-accepted", "a line of %zu bytes was accepted but gives %zu of %zu bytes (next option: %d)", total, o->get().size(), v.size(), o2->get());
    else VF_CHECK(rc == SALTI_ERROR_CONFIG_LINE_TOO_LONG && total > 60000, "config:valid-rejected", "line of %zu bytes: %d", total, rc);
    vf::stat("long_lines"); vf::eval(); vf::sig(vf::mix(total, 77));
}
static void run_config() {
    for (long k = 0; k < vf::args.n / 10 && !vf::violated(); k++) { long_line(vf::args.seed * 7919 + k); vf::progress(); }
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) { ConfCase c(vf::args.seed * 100003 + k); c.run(); vf::progress(); }
    vf::sample("random option sets with files (comments, unknown names, CRLF, missing newline, nested -c) and command lines");
}

// ------------------------------------------------------------------------------------------------ addresses
static void run_addr() {
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        uint64_t seed = vf::args.seed * 100003 + k; Rng r(seed);
        unsigned a = r.below(256), b = r.below(256), c = r.below(256), d = r.below(256);
        string host = r.chance(1, 25) ? "localhost" : vf::fmt("%u.%u.%u.%u", a, b, c, d);
        if (host == "localhost" && !gethostbyname("localhost")) host = "127.0.0.1";
        struct hostent *h = gethostbyname(host.c_str());
        uint32_t ip; memcpy(&ip, h->h_addr_list[0], 4);
        long port = r.chance(1, 5) ? (r.chance(1, 2) ? 0 : 65535) : (long)r.below(65536);
        string good = host + ":" + (r.chance(1, 6) ? "000" : "") + std::to_string(port);
        int rc = outcome([&] {
            NetAddr x(good);
            VF_CHECK(x.ip == ip && x.port == htons(port), "netaddr:wrong-value", "'%s' gives ip %08x port %u", good.c_str(), x.ip, ntohs(x.port));
            NetAddr y(host, (uint16_t)port);
            struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_addr.s_addr = ip; sa.sin_port = htons(port);
            NetAddr z(&sa);
            VF_CHECK(x == y && y == z && !(x != y) && !(x != z), "netaddr:equality", "'%s' not equal across constructors", good.c_str());
            VF_CHECK(std::hash<NetAddr>()(x) == std::hash<NetAddr>()(z), "netaddr:hash", "'%s'", good.c_str());
            NetAddr w(ip, (uint16_t)(x.port ^ (1 << r.below(16))));
            VF_CHECK(w != x && !(w == x), "netaddr:equality", "different ports equal");
            NetAddr w2(ip ^ (1u << r.below(32)), x.port);
            VF_CHECK(w2 != x && !(w2 == x), "netaddr:equality", "different hosts equal");
            VF_CHECK(x.is_null() == (ip == 0 && port == 0), "netaddr:null", "'%s'", good.c_str());
            struct in_addr in; in.s_addr = ip; char nb[64]; inet_ntop(AF_INET, &in, nb, sizeof nb);
            VF_CHECK(string(x) == vf::fmt("<NetAddr %s:%ld>", nb, port), "netaddr:text", "'%s' prints as %s", good.c_str(), string(x).c_str());
            DataStream s; s << x; NetAddr u; s >> u;
            VF_CHECK(u == x && s.size() == 0, "netaddr:serialize", "'%s' does not round-trip", good.c_str());
        });
        VF_CHECK(rc == 0, "netaddr:valid-rejected", "'%s' gives error %d", good.c_str(), rc);
        // malformed variants
        string bad;
        switch (r.below(12)) {
            case 0: bad = host; break;
            case 1: bad = host + ":"; break;
            case 2: bad = host + ":" + std::to_string(65536 + (r.chance(1, 2) ? r.below(3) : r.below(100000))); break;
            case 3: bad = host + ":-" + std::to_string(1 + r.below(60000)); break;
            case 4: bad = host + ":" + std::to_string(port) + word(r, 1, 3); break;
            case 5: bad = host + ":" + word(r, 1, 3) + std::to_string(port); break;
            case 6: bad = host + ":" + std::to_string(port) + ":" + std::to_string(r.below(1000)); break;
            case 7: bad = host + ":99999999999999999999999" + std::to_string(port); break;
            case 8: bad = host + ": " + std::to_string(port); break;
            case 9: bad = host + ":" + std::to_string(port) + " "; break;
            case 10: bad = host + ":" + std::to_string(port + 65536 * (1 + (long)r.below(1000000))); break;
            case 11: bad = r.chance(1, 2) ? "" : ":" ; break;
        }
        rc = outcome([&] { NetAddr x(bad); });
        VF_CHECK(rc == SALTI_ERROR_NETADDR_INVALID, "netaddr:malformed-accepted", "'%s' gives %d instead of the invalid-address error", bad.c_str(), rc);
        vf::stat("addresses_valid"); vf::stat("addresses_malformed"); vf::eval(2); vf::sig(good); vf::sig(bad);
    }
    vf::sample("IPv4 literals and localhost with every kind of port text");
}

// ------------------------------------------------------------------------------------------------ text helpers
static void run_text() {
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        uint64_t seed = vf::args.seed * 100003 + k; Rng r(seed);
        // formatting, with lengths around the internal guess and far above it
        static const vector<long> edges = {0, 1, 1022, 1023, 1024, 1025, 2047, 2048, 4096};
        long len = r.chance(1, 2) ? r.pick(edges) : (long)r.below(r.chance(1, 10) ? 200000 : 3000);
        string s(len, 0); for (auto &ch: s) ch = 'A' + r.below(26);
        int x = (int)r.next(); double d = r.unit() * 1e6;
        string got = stringprintf("%s", s.c_str());
        VF_CHECK(got == s, "text:stringprintf", "length %ld: result has length %zu", len, got.size());
        got = stringprintf("<%d|%s|%.6f>", x, s.c_str(), d);
        string want = "<" + std::to_string(x) + "|" + s + "|" + vf::fmt("%.6f", d) + ">";
        VF_CHECK(got == want, "text:stringprintf", "length %ld: result has length %zu instead of %zu", len, got.size(), want.size());
        SalticidaeError e("%s/%d", s.c_str(), x);
        VF_CHECK(string(e.what()) == s + "/" + std::to_string(x) && string(e) == e.what(), "text:error-message", "length %ld: message has length %zu", len, strlen(e.what()));
        // split against a straightforward model: joining gives the text back and no piece contains the delimiter
        string delim = r.chance(1, 3) ? "," : word(r, 1, 3), txt;
        int np = r.below(6);
        for (int i = 0; i < np; i++) { if (r.chance(1, 2)) txt += delim; txt += word(r, 0, 4); if (r.chance(1, 4)) txt += delim; }
        auto ps = split(txt, delim);
        string joined; for (size_t i = 0; i < ps.size(); i++) { if (i) joined += delim; joined += ps[i]; VF_CHECK(ps[i].find(delim) == string::npos, "text:split", "a piece of '%s' contains '%s'", txt.c_str(), delim.c_str()); }
        VF_CHECK(joined == txt && !ps.empty(), "text:split", "'%s' split by '%s' does not join back", txt.c_str(), delim.c_str());
        VF_CHECK(split(txt, "").size() == 1 && split(txt, "")[0] == txt, "text:split-empty", "'%s'", txt.c_str());
        // trim
        auto ws = [&] { string w; int c = r.below(4); while (c--) w += "\t\r\n "[r.below(4)]; return w; };
        string core = word(r, 0, 5); if (core.size() > 2 && r.chance(1, 2)) core[1] = ' ';
        string padded = ws() + core + ws();
        VF_CHECK(trim(padded) == core, "text:trim", "'%s' trims to '%s'", padded.c_str(), trim(padded).c_str());
        VF_CHECK(trim("xx" + core + "xyx", "xy") == (core.find_first_not_of("xy") == string::npos ? "" : core.substr(core.find_first_not_of("xy"), core.find_last_not_of("xy") - core.find_first_not_of("xy") + 1)), "text:trim", "custom set, '%s'", core.c_str());
        vector<string> many; vector<string> cores; for (int i = 0; i < 4; i++) { cores.push_back(word(r, 0, 4)); many.push_back(ws() + cores.back() + ws()); }
        VF_CHECK(trim_all(many) == cores, "text:trim-all", "seed %llu", (unsigned long long)seed);
        // error codes
        int code = (int)r.range(-3, 40); const char *es = salticidae_strerror(code);
        VF_CHECK(es != nullptr, "text:strerror", "null for %d", code);
        if (es && code > 0 && code <= SALTI_ERROR_CONN_OVERSIZED_MSG) {
            VF_CHECK(strlen(es) > 0 && strcmp(es, "invalid"), "text:strerror", "no text for code %d", code);
            SalticidaeError ec(code, ENOENT), e0(code);
            VF_CHECK(string(ec.what()) == string(es) + ": " + strerror(ENOENT) && e0.what() == string(es) && ec.get_code() == code && ec.get_oscode() == ENOENT && ec.get_cerr().code == code, "text:error-message", "code %d gives '%s'", code, ec.what());
        } else if (es && (code < 0 || code > SALTI_ERROR_CONN_OVERSIZED_MSG)) VF_CHECK(!strcmp(es, "invalid"), "text:strerror", "out of range code %d gives '%s'", code, es);
        double base = r.unit() * 10, alpha = r.unit(); double t = gen_rand_timeout(base, alpha);
        VF_CHECK(t >= base && t <= base + base * alpha + 1e-9, "text:rand-timeout", "%g not in [%g,%g]", t, base, base * (1 + alpha));
        struct timeval tv; sec2tv(base, tv);
        VF_CHECK(fabs(tv.tv_sec + tv.tv_usec * 1e-6 - base) < 2e-6 && tv.tv_usec < 1000000 && tv.tv_usec >= 0, "text:sec2tv", "%g", base);
        // a log file receives complete lines
        if (k % 10 == 0) {
            string f = vf::scratch() + vf::fmt("/log%ld.txt", k); long fds = vf::count_fds();
            { Logger lg("pfx", f.c_str()); lg.info("%s-%d", s.c_str(), x); lg.warning("second %d", x); lg.error("third"); lg.debug("%s", s.c_str()); }
            VF_CHECK(vf::count_fds() == fds, "text:log-descriptor", "logger leaks its descriptor");
            struct stat st; VF_CHECK(stat(f.c_str(), &st) == 0 && (st.st_mode & 0600) == 0600 && (st.st_mode & 07000) == 0, "text:log-mode", "log file has mode %o", st.st_mode);
            string c = get_file(f); auto ls = split(c, "\n");
            VF_CHECK(ls.size() == 5 && ls[0].find("[pfx info] " + s + "-" + std::to_string(x)) != string::npos && ls[1].find("[pfx warn] second " + std::to_string(x)) != string::npos && ls[2].find("[pfx error] third") != string::npos &&
                     ls[3].size() >= s.size() && ls[3].substr(ls[3].size() - s.size()) == s, "text:log", "log content wrong (length %zu)", c.size());
            unlink(f.c_str()); vf::stat("log_files");
        }
        vf::stat("text_cases"); vf::stat_max("longest_text", len); vf::eval(); vf::sig(vf::mix(len, x));
    }
    vf::sample("format lengths around 1024 and up to 200000, split/trim identities, error texts, log files");
}

// ------------------------------------------------------------------------------------------------ digests
static bytearray_t ossl(const EVP_MD *md, const bytearray_t &in) {
    bytearray_t out(EVP_MD_size(md)); unsigned n = 0; uint8_t dummy = 0;
    EVP_Digest(in.empty() ? &dummy : in.data(), in.size(), out.data(), &n, md, nullptr); return out;
}
template<typename H> static void digest_case(Rng &r, const EVP_MD *md, const char *nm) {
    H h; int rounds = r.range(1, 3);
    for (int k = 0; k < rounds; k++) {
        bytearray_t all; int parts = r.below(8);
        if (r.chance(1, 3)) { bytearray_t junk(r.below(200)); if (!junk.empty()) h.update(junk); h.reset(); }
        for (int p = 0; p < parts; p++) {
            static const vector<long> edges = {0, 1, 55, 56, 63, 64, 65, 119, 128};
            bytearray_t d(r.chance(1, 2) ? r.pick(edges) : (long)r.below(r.chance(1, 20) ? 100000 : 500)); for (auto &b: d) b = r.next();
            all.insert(all.end(), d.begin(), d.end());
            switch (r.below(3)) {
                case 0: if (!d.empty()) h.update(d); break;
                case 1: h.update(d.data(), d.size()); break;
                case 2: if (!d.empty()) { h.update(d.cbegin(), d.size()); } break;
            }
        }
        H copy = h; // hashing state copies independently
        bytearray_t got;
        if (r.chance(1, 2)) got = h.digest(); else { got.resize(r.below(50)); h.digest(got); }
        bytearray_t want = ossl(md, all);
        VF_CHECK(got == want, "digest:wrong", "%s of %zu bytes in %d updates: %s instead of %s", nm, all.size(), parts, vf::hex(got.data(), got.size()).c_str(), vf::hex(want.data(), want.size()).c_str());
        VF_CHECK(copy.digest() == want, "digest:copy", "%s of a copied state of %zu bytes", nm, all.size());
        h.reset();
        vf::eval(); vf::sig(vf::hash(all.data(), all.size())); vf::stat("digests"); vf::stat("digest_bytes", all.size());
    }
}
static void run_digest() {
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        Rng r(vf::args.seed * 100003 + k);
        digest_case<salticidae::SHA256>(r, EVP_sha256(), "SHA-256"); digest_case<salticidae::SHA1>(r, EVP_sha1(), "SHA-1");
    }
    vf::sample("random updates around block boundaries, resets, copies, both output forms");
}

// ------------------------------------------------------------------------------------------------ keys and certificates
static string pem_of(EVP_PKEY *k, const char *pass) {
    BIO *b = BIO_new(BIO_s_mem());
    PEM_write_bio_PrivateKey(b, k, pass ? EVP_aes_128_cbc() : nullptr, (unsigned char *)pass, pass ? strlen(pass) : 0, nullptr, nullptr);
    char *p; long n = BIO_get_mem_data(b, &p); string s(p, n); BIO_free(b); return s;
}
static void run_keys() {
    string dir = vf::scratch(); Rng r0(vf::args.seed);
    vector<PKey> keys; vector<salticidae::X509> certs;
    for (int i = 0; i < 3; i++) {
        keys.push_back(PKey::create_privkey_rsa(2048));
        certs.push_back(salticidae::X509::create_self_signed_from_pubkey(keys.back(), "US", vf::fmt("node%d", i).c_str()));
    }
    long warm_heap = 0, warm_fd = 0; 
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        Rng r(vf::args.seed * 100003 + k);
        int i = r.below(3); PKey &key = keys[i]; salticidae::X509 &cert = certs[i];
        auto kd = key.get_privkey_der(), pd = key.get_pubkey_der(), cd = cert.get_der();
        { // the public part, as OpenSSL itself encodes it
            const unsigned char *q = kd.data(); EVP_PKEY *ek = d2i_AutoPrivateKey(nullptr, &q, kd.size());
            unsigned char *o = nullptr; int n = i2d_PublicKey(ek, &o);
            VF_CHECK(n > 0 && bytearray_t(o, o + n) == pd, "keys:public-key", "public key encoding differs (case %ld)", k);
            OPENSSL_free(o); EVP_PKEY_free(ek);
        }
        const char *what = "";
        int op = r.below(11);
        string f = dir + "/k.pem";
        auto expect = [&](int rc, bool ok, const char *w) {
            what = w;
            if (ok) VF_CHECK(rc == 0, "keys:valid-rejected", "%s: error %d (case %ld)", w, rc, k);
            else VF_CHECK(rc > 0, "keys:malformed-accepted", "%s: %d (0 accepted, -1 foreign exception) (case %ld)", w, rc, k);
        };
        switch (op) {
            case 0: { // save/load private key; the file is what OpenSSL itself reads
                key.save_privkey_to_file(f);
                FILE *fp = fopen(f.c_str(), "r"); EVP_PKEY *ref = PEM_read_PrivateKey(fp, nullptr, nullptr, nullptr); fclose(fp);
                if (!ref) { vf::violation("keys:saved-file-unreadable", "private key"); break; }
                unsigned char *der = nullptr; int n = i2d_PrivateKey(ref, &der); VF_CHECK(bytearray_t(der, der + n) == kd, "keys:saved-key-differs", "private key"); OPENSSL_free(der); EVP_PKEY_free(ref);
                string pw = "x"; expect(outcome([&] { auto x = PKey::create_privkey_from_pem_file(f, r.chance(1, 2) ? &pw : nullptr);
                    VF_CHECK(x.get_privkey_der() == kd && x.get_pubkey_der() == pd, "keys:loaded-key-differs", "PEM"); }), true, "plain key file");
                break; }
            case 1: { cert.save_to_file(f);
                FILE *fp = fopen(f.c_str(), "r"); ::X509 *ref = PEM_read_X509(fp, nullptr, nullptr, nullptr); fclose(fp);
                if (!ref) { vf::violation("keys:saved-file-unreadable", "certificate"); break; }
                unsigned char *der = nullptr; int n = i2d_X509(ref, &der); VF_CHECK(bytearray_t(der, der + n) == cd, "keys:saved-cert-differs", "certificate"); OPENSSL_free(der);
                EVP_PKEY *pk = X509_get_pubkey(ref); VF_CHECK(X509_verify(ref, pk) == 1, "keys:cert-signature", "self-signed certificate does not verify"); EVP_PKEY_free(pk); X509_free(ref);
                string pw = "y"; expect(outcome([&] { auto x = salticidae::X509::create_from_pem_file(f, r.chance(1, 2) ? &pw : nullptr);
                    VF_CHECK(x.get_der() == cd && x.get_pubkey().get_pubkey_der() == pd, "keys:loaded-cert-differs", "PEM"); }), true, "certificate file");
                break; }
            case 2: { expect(outcome([&] { auto x = PKey::create_privkey_from_der(kd); PKey y(std::move(x)); VF_CHECK(y.get_privkey_der() == kd && y.get_pubkey_der() == pd, "keys:loaded-key-differs", "DER"); }), true, "key DER");
                expect(outcome([&] { auto x = salticidae::X509::create_from_der(cd); salticidae::X509 y(std::move(x)); VF_CHECK(y.get_der() == cd && y.get_pubkey().get_pubkey_der() == pd, "keys:loaded-cert-differs", "DER"); }), true, "certificate DER");
                break; }
            case 3: { // encrypted key: right password, wrong password, no password, absurdly long password
                string pass = word(r, 4, 20); if (r.chance(1, 6)) pass = string(900, 'p') + pass;
                const unsigned char *p = kd.data(); EVP_PKEY *raw = d2i_AutoPrivateKey(nullptr, &p, kd.size());
                put_file(f, pem_of(raw, pass.c_str())); EVP_PKEY_free(raw);
                string right = pass, wrong = pass + "x", shorter = pass.substr(0, pass.size() - 1), huge(r.range(1023, 5000), 'z');
                int c = r.below(5);
                if (c == 0) expect(outcome([&] { auto x = PKey::create_privkey_from_pem_file(f, &right); VF_CHECK(x.get_privkey_der() == kd, "keys:loaded-key-differs", "encrypted PEM"); }), true, "encrypted key, right password");
                else if (c == 1) expect(outcome([&] { PKey::create_privkey_from_pem_file(f, &wrong); }), false, "encrypted key, wrong password");
                else if (c == 2) expect(outcome([&] { PKey::create_privkey_from_pem_file(f, &shorter); }), false, "encrypted key, truncated password");
                else if (c == 3) expect(outcome([&] { PKey::create_privkey_from_pem_file(f); }), false, "encrypted key, no password");
                else expect(outcome([&] { PKey::create_privkey_from_pem_file(f, &huge); }), false, "encrypted key, password too long");
                vf::stat("encrypted_loads");
                break; }
            case 4: { // damaged PEM: agree with OpenSSL on whether it is a key / certificate
                bool is_key = r.chance(1, 2); if (is_key) key.save_privkey_to_file(f); else cert.save_to_file(f);
                string s = get_file(f);
                switch (r.below(5)) { case 0: s.resize(r.below(s.size())); break; case 1: s = ""; break; case 2: { s = ""; int n = r.below(300); while (n--) s += (char)r.next(); break; }
                    case 3: s[r.below(s.size())] ^= 1 << r.below(7); break; case 4: s.insert(r.below(s.size()), word(r, 1, 5)); break; }
                put_file(f, s);
                FILE *fp = fopen(f.c_str(), "r"); bool ok;
                auto nopw = [](char *, int, int, void *) -> int { return -1; };
                if (is_key) { EVP_PKEY *p = PEM_read_PrivateKey(fp, nullptr, nopw, nullptr); ok = p; EVP_PKEY_free(p); } else { ::X509 *p = PEM_read_X509(fp, nullptr, nopw, nullptr); ok = p; X509_free(p); }
                fclose(fp);
                int rc = outcome([&] { if (is_key) { auto x = PKey::create_privkey_from_pem_file(f); outcome([&] { x.get_privkey_der(); }); } else { auto x = salticidae::X509::create_from_pem_file(f); outcome([&] { x.get_pubkey(); }); x.get_der(); } });
                if (!ok) expect(rc, false, "damaged PEM"); else expect(rc, true, "harmlessly damaged PEM");
                vf::stat("damaged_inputs");
                break; }
            case 5: { // damaged DER
                bool is_key = r.chance(1, 2); auto d = is_key ? kd : cd;
                switch (r.below(3)) { case 0: d.resize(r.range(1, d.size() - 1)); break; case 1: d[r.below(d.size())] ^= 1 << r.below(8); break; case 2: d.resize(r.range(1, 100)); for (auto &b: d) b = r.next(); break; }
                const unsigned char *p = d.data(); bool ok;
                if (is_key) { EVP_PKEY *q = d2i_AutoPrivateKey(nullptr, &p, d.size()); ok = q; EVP_PKEY_free(q); } else { ::X509 *q = d2i_X509(nullptr, &p, d.size()); ok = q; X509_free(q); }
                int rc = outcome([&] { if (is_key) { PKey::create_privkey_from_der(d); } else { auto x = salticidae::X509::create_from_der(d); outcome([&] { x.get_pubkey(); }); } });
                if (!ok) expect(rc, false, "damaged DER"); else expect(rc, true, "harmlessly damaged DER");
                vf::stat("damaged_inputs");
                break; }
            case 6: { string pw = "p"; expect(outcome([&] { PKey::create_privkey_from_pem_file(dir + "/absent.pem", r.chance(1, 2) ? &pw : nullptr); }), false, "absent key file");
                expect(outcome([&] { salticidae::X509::create_from_pem_file(dir + "/absent.pem"); }), false, "absent certificate file"); break; }
            case 7: { expect(outcome([&] { key.save_privkey_to_file(dir + "/nodir/x.pem"); }), false, "key saved into an absent directory");
                expect(outcome([&] { cert.save_to_file(dir + "/nodir/x.pem"); }), false, "certificate saved into an absent directory"); break; }
            case 8: { cert.save_to_file(f); expect(outcome([&] { PKey::create_privkey_from_pem_file(f); }), false, "certificate used as key");
                key.save_privkey_to_file(f); expect(outcome([&] { salticidae::X509::create_from_pem_file(f); }), false, "key used as certificate"); break; }
            case 9: { // TLS context: matching and mismatching pairs, by object and by file
                int j = r.below(3); bool byfile = r.chance(1, 2); string cf = dir + "/c.pem"; 
                if (byfile) { certs[j].save_to_file(cf); key.save_privkey_to_file(f); }
                bool match = false; int rc = outcome([&] { TLSContext t; if (byfile) { t.use_cert_file(cf); t.use_privkey_file(f); } else { t.use_cert(certs[j]); t.use_privkey(key); } match = t.check_privkey(); });
                if (i == j) VF_CHECK(rc == 0 && match, "keys:matching-pair-refused", "rc %d", rc);
                else VF_CHECK(rc > 0 || !match, "keys:mismatching-pair-accepted", "cert %d key %d", j, i);
                expect(outcome([&] { TLSContext t; t.use_cert_file(dir + "/absent.pem"); }), false, "absent certificate for TLS");
                expect(outcome([&] { TLSContext t; t.use_privkey_file(dir + "/absent.pem"); }), false, "absent key for TLS");
                vf::stat("tls_pairs"); break; }
            case 10: { expect(outcome([&] { salticidae::X509::create_from_der(bytearray_t(1, 0)); }), false, "one-byte certificate"); 
                int rc = outcome([&] { PKey::create_privkey_rsa(8); }); expect(rc, false, "RSA key of 8 bits"); break; }
        }
        ERR_clear_error();
        long h = heap(), fd = vf::count_fds();
        if (k == 0) warm_fd = fd;
        if (k == vf::args.n / 3) warm_heap = h;
        VF_CHECK(fd == warm_fd, "keys:descriptor-leak", "%ld descriptors instead of %ld after '%s' (case %ld)", fd, warm_fd, what, k);
        if (k == vf::args.n - 1 && VF_ASAN && vf::args.n > 60)
            VF_CHECK(h - warm_heap < 20000 + vf::args.n * 2, "keys:memory-leak", "live heap grew by %ld bytes over %ld operations", h - warm_heap, vf::args.n * 2 / 3);
        vf::eval(); vf::sig(vf::mix(op, r.next())); vf::stat("key_operations"); vf::progress();
    }
    vf::sample("key/cert save+load, DER, encrypted with right/wrong/no/overlong password, damaged files, mismatching pairs");
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
    vf::watchdog(60);
    string m = vf::args.mode;
    if (m == "config") run_config(); else if (m == "addr") run_addr(); else if (m == "text") run_text();
    else if (m == "digest") run_digest(); else if (m == "keys") run_keys(); else return 3;
    vf::finish();
}
