// C21: every C function next to the C++ operation it wraps.
//   data:  streams, hashes, byte arrays, addresses, messages, keys, certificates, identifiers, configurations
//   event: loops, calls, timers, signals, queues
//   net:   message, peer and client networks driven only through C
// Each case is repeated and the heap measured, so that objects that are not released show up.
#include "netcommon.h"
#include <openssl/pem.h>
#include <signal.h>

static string cfgs;
static std::atomic<long> ncalls{0};
static thread_local const char *cur_call = "";
// runs a C function; nothing may be thrown out of it
template<class F> static auto call(const char *name, F f) -> decltype(f()) {
    ncalls.fetch_add(1, std::memory_order_relaxed);
    cur_call = name;
    try { return f(); }
    catch (const std::exception &e) { vf::violation("capi:exception", vf::fmt("%s threw %s [%s]", name, e.what(), cfgs.c_str())); }
    catch (...) { vf::violation("capi:exception", vf::fmt("%s threw [%s]", name, cfgs.c_str())); }
    vf::finish();
}
#define C(e) call(#e, [&] { return e; })
#define SAME(cond, what) do { if (!(cond)) { vf::violation("capi:differs", vf::fmt("%s: %s [%s]", what, #cond, cfgs.c_str())); } } while (0)

static SalticidaeCError dirty() { SalticidaeCError e; e.code = 77; e.oscode = 78; return e; }
static void want_ok(const SalticidaeCError &e, const char *what) {
    VF_CHECK(e.code == SALTI_NORMAL && e.oscode == 0, "capi:success-reports-error", "%s: code %d oscode %d [%s]", what, e.code, e.oscode, cfgs.c_str());
}
// runs the C++ twin: its error code, or 0
template<class F> static int twin(F f) {
    try { f(); return 0; }
    catch (const SalticidaeError &e) { return e.get_code(); }
    catch (...) { return SALTI_ERROR_UNKNOWN; }
}
// C++ side as std::function results
static bytes rnd(Rng &r, size_t n) { bytes b(n); for (auto &x: b) x = r.next(); return b; }
static bytes all_of(bytearray_t *a) { size_t n = C(bytearray_size(a)); if (!n) return bytes(); uint8_t *p = C(bytearray_data(a)); return bytes(p, p + n); }
static bytes all_of(datastream_t *a) { size_t n = C(datastream_size(a)); if (!n) return bytes(); uint8_t *p = C(datastream_data(a)); return bytes(p, p + n); }
static bytes ser(const uint256_t *h) { datastream_t *s = C(datastream_new()); C(uint256_serialize(h, s)); bytes b = all_of(s); C(datastream_free(s)); return b; }
static bytes tser(const uint256_t &h) { DataStream s; s << h; return bytes(std::move(s)); }

// ---------------------------------------------------------------- data
template<typename T> static void get_twin(DataStream &t, T &v, bool &ok) { v = 0; try { t >> v; ok = true; } catch (...) { ok = false; } }
#define GETCASE(T, cname) { bool cs = !r.chance(1, 2), ts; T tv; T cv = C(datastream_get_##cname(c, &cs)); get_twin<T>(t, tv, ts); SAME(cs == ts, "datastream_get_" #cname " flag"); SAME(!cs || cv == tv, "datastream_get_" #cname); h = vf::mix(h, ts); break; }
#define PUTCASE(T, cname) { T v = (T)r.next(); if (r.chance(1, 4)) v = r.chance(1, 2) ? (T)0 : (T)~(T)0; bool ok = C(datastream_put_##cname(c, v)); t << v; SAME(ok, "datastream_put_" #cname); break; }

static uint64_t stream_part(Rng &r) {
    uint64_t h = 0;
    datastream_t *c; DataStream t;
    bytes init = rnd(r, r.below(40));
    switch (r.below(4)) {
        case 0: c = C(datastream_new()); break;
        case 1: c = C(datastream_new_from_bytes(init.data(), init.size())); t = DataStream(init); break;
        case 2: { bytearray_t *a = C(bytearray_new_from_bytes(init.data(), init.size())); c = C(datastream_new_from_bytearray(a)); t = DataStream(init);
            SAME(all_of(a) == init, "datastream_new_from_bytearray keeps its source"); C(bytearray_free(a)); break; }
        default: { bytearray_t *a = C(bytearray_new_from_bytes(init.data(), init.size())); c = C(datastream_new_moved_from_bytearray(a)); t = DataStream(init); C(bytearray_free(a)); }
    }
    int n = r.range(5, 40);
    for (int i = 0; i < n; i++) {
        int op = r.below(28); h = vf::mix(h, op);
        switch (op) {
            case 0: PUTCASE(uint8_t, u8) case 1: PUTCASE(uint16_t, u16) case 2: PUTCASE(uint32_t, u32) case 3: PUTCASE(uint64_t, u64)
            case 4: PUTCASE(int8_t, i8) case 5: PUTCASE(int16_t, i16) case 6: PUTCASE(int32_t, i32) case 7: PUTCASE(int64_t, i64)
            case 8: GETCASE(uint8_t, u8) case 9: GETCASE(uint16_t, u16) case 10: GETCASE(uint32_t, u32) case 11: GETCASE(uint64_t, u64)
            case 12: GETCASE(int8_t, i8) case 13: GETCASE(int16_t, i16) case 14: GETCASE(int32_t, i32) case 15: GETCASE(int64_t, i64)
            case 16: { bytes b = rnd(r, r.below(50)); SAME(C(datastream_put_data(c, b.data(), b.size())), "datastream_put_data"); t.put_data(b); break; }
            case 17: case 18: {
                size_t len = r.chance(1, 6) ? (size_t)r.next() : r.below(t.size() + 3);
                const uint8_t *p = C(datastream_get_data_inplace(c, len)), *q = nullptr; bool ok = true;
                try { q = t.get_data_inplace(len); } catch (...) { ok = false; }
                SAME(ok || !p, "datastream_get_data_inplace null on failure");
                if (ok && len) { SAME(p, "datastream_get_data_inplace"); if (p) SAME(!memcmp(p, q, len), "datastream_get_data_inplace content"); }
                break;
            }
            case 19: { datastream_t *d = C(datastream_copy(c)); SAME(all_of(d) == bytes(t), "datastream_copy"); if (r.chance(1, 2)) std::swap(c, d); C(datastream_free(d)); break; }
            case 20: if (r.chance(1, 3)) { C(datastream_clear(c)); t.clear(); } break;
            case 21: { uint256_t *x = C(datastream_get_hash(c)); uint256_t y = t.get_hash(); SAME(C(uint256_is_eq(x, &y)), "datastream_get_hash"); SAME(ser(x) == tser(y), "uint256_serialize"); C(uint256_free(x)); break; }
            case 22: { char *s = C(datastream_get_hex(c)); SAME(t.get_hex() == s, "datastream_get_hex"); free(s); break; }
            case 23: { bytearray_t *a = C(bytearray_new_copied_from_datastream(c)); DataStream t2 = t; SAME(all_of(a) == bytes(t2), "bytearray_new_copied_from_datastream"); C(bytearray_free(a)); break; }
            case 24: if (r.chance(1, 3)) {
                bytearray_t *a = C(bytearray_new_moved_from_datastream(c)); bytes b(std::move(t)); SAME(all_of(a) == b, "bytearray_new_moved_from_datastream");
                C(datastream_free(c)); c = C(datastream_new_from_bytearray(a)); t = DataStream(b); C(bytearray_free(a)); break; }
                break;
            case 25: { uint256_t x; x = DataStream(rnd(r, 5)).get_hash(); C(uint256_serialize(&x, c)); t << x; break; }
            default: {
                uint256_t *x = C(uint256_new()); uint256_t y;
                SAME(C(uint256_is_null(x)), "uint256_new");
                bool ok = C(uint256_unserialize(x, c)), tok = true;
                try { y.unserialize(t); } catch (...) { tok = false; }
                SAME(ok == tok, "uint256_unserialize result");
                if (ok && tok) { SAME(C(uint256_is_eq(x, &y)), "uint256_unserialize"); SAME(C(uint256_is_null(x)) == y.is_null(), "uint256_is_null"); }
                C(uint256_free(x)); h = vf::mix(h, tok);
            }
        }
        SAME(C(datastream_size(c)) == t.size(), "datastream_size");
        SAME(all_of(c) == bytes(t), "stream content");
        if (vf::violated()) break;
    }
    C(datastream_free(c));
    return h;
}
static uint64_t blob_part(Rng &r) {
    // hex
    string s; int n = r.below(40); for (int i = 0; i < n; i++) s += "0123456789abcdefABCDEF"[r.below(22)];
    if (r.chance(1, 3) && n) s[r.below(n)] = "gz -\x01/:@`G\x80"[r.below(11)];
    bytes tb; int e = twin([&] { tb = from_hex(s); });
    bytearray_t *a = C(bytearray_new_from_hex(s.c_str()));
    SAME((a == nullptr) == (e != 0), "bytearray_new_from_hex failure");
    if (a) { SAME(all_of(a) == tb, "bytearray_new_from_hex"); C(bytearray_free(a)); }
    bytearray_t *em = C(bytearray_new()); SAME(C(bytearray_size(em)) == 0, "bytearray_new"); C(bytearray_free(em));
    // numbers
    bytes b = r.chance(1, 6) ? bytes(32) : rnd(r, 32);
    uint256_t *x = C(uint256_new_from_bytes(b.data())); uint256_t y(b.data());
    SAME(C(uint256_is_eq(x, &y)), "uint256_new_from_bytes"); SAME(C(uint256_is_null(x)) == y.is_null(), "uint256_is_null");
    bytes o = r.chance(1, 2) ? b : rnd(r, r.chance(1, 3) ? r.below(70) : 32); if (r.chance(1, 2) && o.size() == 32) o[r.below(32)] ^= 1 << r.below(8);
    bytearray_t *oa = C(bytearray_new_from_bytes(o.data(), o.size()));
    uint256_t z; int ze = twin([&] { z = uint256_t(o); });
    uint256_t *w = C(uint256_new_from_bytearray(oa));
    SAME((w == nullptr) == (ze != 0), "uint256_new_from_bytearray failure");
    if (w && !ze) { SAME(ser(w) == tser(z), "uint256_new_from_bytearray"); SAME(C(uint256_is_eq(w, x)) == (z == y), "uint256_is_eq"); }
    if (w) C(uint256_free(w));
    C(bytearray_free(oa)); C(uint256_free(x));
    return vf::mix(e, ze) ^ n;
}
static uint64_t addr_part(Rng &r) {
    uint64_t h = 0;
    auto cmp = [&](netaddr_t *c, const SalticidaeCError &ce, NetAddr &t, int e, const char *what) {
        SAME((c == nullptr) == (e != 0), what);
        if (c) { want_ok(ce, what); SAME(C(netaddr_get_ip(c)) == t.ip && C(netaddr_get_port(c)) == t.port, what); SAME(C(netaddr_is_eq(c, &t)), "netaddr_is_eq"); SAME(C(netaddr_is_null(c)) == t.is_null(), "netaddr_is_null"); }
        else SAME(ce.code == e, what);
        h = vf::mix(h, e);
    };
    netaddr_t *d = C(netaddr_new()); SAME(C(netaddr_is_null(d)) && NetAddr().is_null(), "netaddr_new");
    SalticidaeCError ce = dirty(); NetAddr t; int e;
    uint32_t ip = r.chance(1, 6) ? 0 : r.next(); uint16_t port = r.chance(1, 6) ? 0 : r.next();
    e = twin([&] { t = NetAddr(ip, port); });
    netaddr_t *c1 = C(netaddr_new_from_ip_port(ip, port, &ce)); cmp(c1, ce, t, e, "netaddr_new_from_ip_port");
    static const vector<string> hosts = {"127.0.0.1", "1.2.3.4", "255.255.255.255", "0.0.0.0", "1.2.3", "10", "127.0.0.1 ", "", " ", "::1", "1.2.3.4.5", "0x7f.1"};
    static const vector<string> ports = {":80", ":0", ":65535", ":65536", ":-1", ":", "", ":8x", ":99999999999999999999", "::", ":1:2", ": 7", ":007"};
    string host = r.pick(hosts), txt = r.pick(hosts) + r.pick(ports);
    ce = dirty(); NetAddr t2; e = twin([&] { t2 = NetAddr(host, port); });
    netaddr_t *c2 = C(netaddr_new_from_sip_port(host.c_str(), port, &ce)); cmp(c2, ce, t2, e, "netaddr_new_from_sip_port");
    ce = dirty(); NetAddr t3; e = twin([&] { t3 = NetAddr(txt); });
    netaddr_t *c3 = C(netaddr_new_from_sipport(txt.c_str(), &ce)); cmp(c3, ce, t3, e, "netaddr_new_from_sipport");
    netaddr_t *k = C(netaddr_copy(c1)); SAME(C(netaddr_is_eq(k, c1)), "netaddr_copy");
    if (c2) SAME(C(netaddr_is_eq(c1, c2)) == (t == t2), "netaddr_is_eq");
    vector<const netaddr_t *> ps; vector<NetAddr> want; int n = r.below(6);
    for (int i = 0; i < n; i++) { const netaddr_t *q = r.chance(1, 2) ? c1 : (c2 ? c2 : d); ps.push_back(q); want.push_back(*q); }
    netaddr_array_t *arr = C(netaddr_array_new_from_addrs(ps.data(), n)), *ea = C(netaddr_array_new());
    SAME(*arr == want && ea->empty(), "netaddr_array_new_from_addrs");
    // an array holds copies: the sources may go first
    for (auto *q: {d, c1, c2, c3, k}) if (q) C(netaddr_free(q));
    SAME(*arr == want, "netaddr_array holds copies");
    C(netaddr_array_free(arr)); C(netaddr_array_free(ea));
    return h;
}
static uint64_t msg_part(Rng &r) {
    bytes pl = rnd(r, r.pick(vector<size_t>{0, 1, 13, 200, 5000}));
    uint8_t op = r.next();
    bytearray_t *a = C(bytearray_new_from_bytes(pl.data(), pl.size()));
    msg_t *m = C(msg_new_moved_from_bytearray(op, a));
    C(bytearray_free(a));
    Msg t(op, bytes(pl));
    SAME(C(msg_get_opcode(m)) == t.get_opcode() && t.get_opcode() == op, "msg_get_opcode");
    SAME(C(msg_get_magic(m)) == t.get_magic(), "msg_get_magic");
    uint32_t mg = r.next();
    if (r.chance(1, 2)) { C(msg_set_magic(m, mg)); t.set_magic(mg); SAME(C(msg_get_magic(m)) == mg, "msg_set_magic"); }
    SAME(m->serialize() == t.serialize(), "serialized message");
    SAME(m->verify_checksum() == t.verify_checksum(), "checksum");
    int k = r.below(3);
    if (k) {
        datastream_t *s = C(msg_consume_payload(m)); SAME(s, "msg_consume_payload");
        if (s) { SAME(all_of(s) == pl, "msg_consume_payload"); C(datastream_free(s)); }
        if (k == 2) { datastream_t *s2 = C(msg_consume_payload(m)); SAME(!s2, "msg_consume_payload: second time"); if (s2) C(datastream_free(s2)); }
    }
    C(msg_free(m));
    return pl.size() * 4 + k;
}
static string pem_dir;
static void make_pems() {
    pem_dir = vf::scratch();
    auto &d = idents()[0];
    const uint8_t *p = d.key_der.data(); EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &p, d.key_der.size());
    const uint8_t *q = d.cert_der.data(); ::X509 *x = d2i_X509(nullptr, &q, d.cert_der.size());
    FILE *f = fopen((pem_dir + "/k.pem").c_str(), "w"); PEM_write_PrivateKey(f, k, nullptr, nullptr, 0, nullptr, nullptr); fclose(f);
    f = fopen((pem_dir + "/kp.pem").c_str(), "w"); PEM_write_PrivateKey(f, k, EVP_aes_128_cbc(), (unsigned char *)"secret", 6, nullptr, nullptr); fclose(f);
    f = fopen((pem_dir + "/c.pem").c_str(), "w"); PEM_write_X509(f, x); fclose(f);
    f = fopen((pem_dir + "/bad.pem").c_str(), "w"); fputs("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", f); fclose(f);
    f = fopen((pem_dir + "/empty.pem").c_str(), "w"); fclose(f);
    EVP_PKEY_free(k); X509_free(x);
}
static uint64_t crypto_part(Rng &r) {
    uint64_t h = 0;
    SalticidaeCError ce = dirty();
    string fn = pem_dir + "/" + r.pick(vector<string>{"k.pem", "kp.pem", "c.pem", "bad.pem", "empty.pem", "nothere.pem"});
    string pw = r.pick(vector<string>{"", "secret", "wrong", string(2000, 'x')}); bool usepw = r.chance(1, 2);
    auto pub_of = [](const PKey &k) { return k.get_pubkey_der(); };
    {
        bytes td; string p2 = pw; int e = twin([&] { auto x = salticidae::X509::create_from_pem_file(fn, usepw ? &p2 : nullptr); td = x.get_der(); });
        x509_t *x = C(x509_new_from_pem_file(fn.c_str(), usepw ? pw.c_str() : nullptr, &ce));
        SAME((x == nullptr) == (e != 0), "x509_new_from_pem_file"); h = vf::mix(h, e);
        if (x) {
            want_ok(ce, "x509_new_from_pem_file");
            bytearray_t *a = C(x509_get_der(x)); SAME(a && all_of(a) == td, "x509_get_der"); if (a) C(bytearray_free(a));
            pkey_t *k = C(x509_get_pubkey(x)); SAME(k, "x509_get_pubkey");
            bytearray_t *pd = C(pkey_get_pubkey_der(k)); SAME(pd && all_of(pd) == pub_of(x->get_pubkey()), "pkey_get_pubkey_der"); if (pd) C(bytearray_free(pd));
            int pe = twin([&] { k->get_privkey_der(); });
            bytearray_t *sd = C(pkey_get_privkey_der(k)); SAME((sd == nullptr) == (pe != 0), "pkey_get_privkey_der of a public key"); if (sd) C(bytearray_free(sd));
            peerid_t *id = C(peerid_new_from_x509(x)); PeerId tid(*x); SAME(*id == tid, "peerid_new_from_x509"); C(peerid_free(id));
            C(pkey_free(k)); C(x509_free(x));
        } else SAME(ce.code == e, "x509_new_from_pem_file code");
    }
    {
        ce = dirty();
        bytes td; string p2 = pw; int e = twin([&] { auto x = PKey::create_privkey_from_pem_file(fn, usepw ? &p2 : nullptr); td = x.get_privkey_der(); });
        pkey_t *k = C(pkey_new_privkey_from_pem_file(fn.c_str(), usepw ? pw.c_str() : nullptr, &ce));
        SAME((k == nullptr) == (e != 0), "pkey_new_privkey_from_pem_file"); h = vf::mix(h, e);
        if (k) { want_ok(ce, "pkey_new_privkey_from_pem_file"); bytearray_t *a = C(pkey_get_privkey_der(k)); SAME(a && all_of(a) == td, "pkey_get_privkey_der"); if (a) C(bytearray_free(a)); C(pkey_free(k)); }
        else SAME(ce.code == e, "pkey_new_privkey_from_pem_file code");
    }
    {
        ce = dirty();
        bytes d = r.chance(1, 2) ? idents()[r.below(4)].cert_der : idents()[r.below(4)].key_der;
        int alt = r.below(4); if (alt == 1) d.resize(1 + r.below(d.size() - 1)); else if (alt == 2) d[r.below(8)] ^= 1 << r.below(8); else if (alt == 3) d = rnd(r, 1 + r.below(30));
        bytearray_t *a = C(bytearray_new_from_bytes(d.data(), d.size()));
        bytes td; int e = twin([&] { td = salticidae::X509::create_from_der(d).get_der(); });
        x509_t *x = C(x509_new_from_der(a, &ce)); SAME((x == nullptr) == (e != 0), "x509_new_from_der"); h = vf::mix(h, e);
        if (x) { want_ok(ce, "x509_new_from_der"); bytearray_t *y = C(x509_get_der(x)); SAME(y && all_of(y) == td, "x509_get_der"); if (y) C(bytearray_free(y)); C(x509_free(x)); } else SAME(ce.code == e, "x509_new_from_der code");
        ce = dirty(); bytes tk; e = twin([&] { tk = PKey::create_privkey_from_der(d).get_privkey_der(); });
        pkey_t *k = C(pkey_new_privkey_from_der(a, &ce)); SAME((k == nullptr) == (e != 0), "pkey_new_privkey_from_der"); h = vf::mix(h, e);
        if (k) {
            want_ok(ce, "pkey_new_privkey_from_der"); bytearray_t *y = C(pkey_get_privkey_der(k)); SAME(y && all_of(y) == tk, "pkey_get_privkey_der"); if (y) C(bytearray_free(y));
            y = C(pkey_get_pubkey_der(k)); SAME(y && all_of(y) == k->get_pubkey_der(), "pkey_get_pubkey_der"); if (y) C(bytearray_free(y)); C(pkey_free(k));
        } else SAME(ce.code == e, "pkey_new_privkey_from_der code");
        C(bytearray_free(a));
    }
    return h;
}
static uint64_t id_part(Rng &r) {
    NetAddr t(r.next(), r.next()); PeerId tp(t);
    peerid_t *a = C(peerid_new_from_netaddr(&t)); SAME(*a == tp, "peerid_new_from_netaddr");
    uint256_t u = DataStream(rnd(r, 9)).get_hash(), u2 = u, u3 = u;
    peerid_t *b = C(peerid_new_copied_from_uint256(&u2)), *c = C(peerid_new_moved_from_uint256(&u3));
    SAME(*b == PeerId(u) && *c == PeerId(u) && u2 == u, "peerid_new_from_uint256");
    SAME(C(uint256_is_eq(C(peerid_as_uint256(b)), &u)), "peerid_as_uint256");
    vector<const peerid_t *> ps; vector<PeerId> want; int n = r.below(5);
    for (int i = 0; i < n; i++) { auto *q = r.chance(1, 2) ? a : b; ps.push_back(q); want.push_back(*q); }
    peerid_array_t *arr = C(peerid_array_new_from_peers(ps.data(), n)), *ea = C(peerid_array_new());
    C(peerid_free(a)); C(peerid_free(b)); C(peerid_free(c));
    SAME(*arr == want && ea->empty(), "peerid_array_new_from_peers");
    C(peerid_array_free(arr)); C(peerid_array_free(ea));
    for (int k = -3; k < 40; k++) { const char *s = C(salticidae_strerror(k)); SAME(s, "salticidae_strerror"); if (k >= 0 && k <= SALTI_ERROR_CONN_OVERSIZED_MSG) SAME(!strcmp(s, SALTICIDAE_ERROR_STRINGS[k]), "salticidae_strerror"); }
    want_ok(C(salticidae_cerror_normal()), "salticidae_cerror_normal"); SAME(C(salticidae_cerror_unknown()).code == SALTI_ERROR_UNKNOWN, "salticidae_cerror_unknown");
    return n;
}
// The same settings made through C and through C++ must give the same configuration: both are applied to objects built
// at the same zeroed place, and the images compared.
template<typename Cfg> struct Place {
    alignas(64) unsigned char mem[sizeof(Cfg)];
    bytes image(std::function<void(Cfg *)> f) {
        memset(mem, 0, sizeof mem);
        Cfg *c = new (mem) Cfg();
        f(c);
        bytes b(mem, mem + sizeof mem);
        c->~Cfg();
        return b;
    }
};
static uint64_t config_part(Rng &r) {
    static Place<peernetwork_config_t> pl;
    struct S { const char *n; std::function<void(peernetwork_config_t *)> c, t; };
    size_t z = r.range(1, 1000000); double d = r.unit() * 100; bool b = r.chance(1, 2); int k = r.range(1, 5000);
    auto M = [](peernetwork_config_t *p) { return C(peernetwork_config_as_msgnetwork_config(p)); };
    vector<S> all = {
        {"max_msg_size", [&](peernetwork_config_t *p) { C(msgnetwork_config_max_msg_size(M(p), z)); }, [&](peernetwork_config_t *p) { p->max_msg_size(z); }},
        {"max_msg_queue_size", [&](peernetwork_config_t *p) { C(msgnetwork_config_max_msg_queue_size(M(p), z)); }, [&](peernetwork_config_t *p) { p->max_msg_queue_size(z); }},
        {"burst_size", [&](peernetwork_config_t *p) { C(msgnetwork_config_burst_size(M(p), z)); }, [&](peernetwork_config_t *p) { p->burst_size(z); }},
        {"max_listen_backlog", [&](peernetwork_config_t *p) { C(msgnetwork_config_max_listen_backlog(M(p), k)); }, [&](peernetwork_config_t *p) { p->max_listen_backlog(k); }},
        {"conn_server_timeout", [&](peernetwork_config_t *p) { C(msgnetwork_config_conn_server_timeout(M(p), d)); }, [&](peernetwork_config_t *p) { p->conn_server_timeout(d); }},
        {"recv_chunk_size", [&](peernetwork_config_t *p) { C(msgnetwork_config_recv_chunk_size(M(p), z)); }, [&](peernetwork_config_t *p) { p->recv_chunk_size(z); }},
        {"nworker", [&](peernetwork_config_t *p) { C(msgnetwork_config_nworker(M(p), z)); }, [&](peernetwork_config_t *p) { p->nworker(z); }},
        {"max_recv_buff_size", [&](peernetwork_config_t *p) { C(msgnetwork_config_max_recv_buff_size(M(p), z)); }, [&](peernetwork_config_t *p) { p->max_recv_buff_size(z); }},
        {"max_send_buff_size", [&](peernetwork_config_t *p) { C(msgnetwork_config_max_send_buff_size(M(p), z)); }, [&](peernetwork_config_t *p) { p->max_send_buff_size(z); }},
        {"enable_tls", [&](peernetwork_config_t *p) { C(msgnetwork_config_enable_tls(M(p), b)); }, [&](peernetwork_config_t *p) { p->enable_tls(b); }},
        {"ping_period", [&](peernetwork_config_t *p) { C(peernetwork_config_ping_period(p, d)); }, [&](peernetwork_config_t *p) { p->ping_period(d); }},
        {"conn_timeout", [&](peernetwork_config_t *p) { C(peernetwork_config_conn_timeout(p, d)); }, [&](peernetwork_config_t *p) { p->conn_timeout(d); }},
        {"id_mode", [&](peernetwork_config_t *p) { C(peernetwork_config_id_mode(p, b ? ID_MODE_CERT_BASED : ID_MODE_ADDR_BASED)); }, [&](peernetwork_config_t *p) { p->id_mode(b ? peernetwork_t::CERT_BASED : peernetwork_t::ADDR_BASED); }},
    };
    auto &x = r.pick(all);
    // only bytes that are a function of the settings count (not pointers and the like)
    bytes base = pl.image([](peernetwork_config_t *) {}), base2 = pl.image([](peernetwork_config_t *) {}), base3 = pl.image([](peernetwork_config_t *) {});
    bytes ic = pl.image(x.c), it = pl.image(x.t), it2 = pl.image(x.t), ic2 = pl.image(x.c);
    bool changes = false, same = true;
    auto eq = [](const bytes &x, const bytes &y, size_t i) { return !memcmp(&x[i], &y[i], std::min<size_t>(8, x.size() - i)); };
    for (size_t i = 0; i < base.size(); i += 8) {
        if (!eq(base, base2, i) || !eq(base, base3, i) || !eq(it, it2, i) || !eq(ic, ic2, i)) continue;
        if (!eq(it, base, i)) changes = true;
        if (!eq(ic, it, i)) same = false;
    }
    VF_CHECK(same, "capi:differs", "setting %s through C gives another configuration than through C++ [%s]", x.n, cfgs.c_str());
    if (!changes) { vf::stat("settings_at_default"); return 0; }
    vf::stat("settings_compared");
    peernetwork_config_t *pc = C(peernetwork_config_new()); C(peernetwork_config_free(pc));
    msgnetwork_config_t *mc = C(msgnetwork_config_new()); C(msgnetwork_config_free(mc));
    return vf::hash(string(x.n));
}

static void balance(uint64_t seed, std::function<uint64_t(uint64_t)> f, int warm, int reps, size_t slack, const char *what) {
    uint64_t h = 0;
    for (int i = 0; i < warm; i++) h = f(seed);
    auto heap = [] { ERR_clear_error(); return (long)live_heap(); };
    if (VF_ASAN && !vf::violated()) {
        long a = heap(); for (int i = 0; i < reps; i++) f(seed);
        long b = heap();
        if (b - a >= (long)slack * reps) { // has to grow again and again
            for (int i = 0; i < reps; i++) f(seed);
            long c = heap(); for (int i = 0; i < reps; i++) f(seed);
            long d = heap();
            if (c - b >= (long)slack * reps && d - c >= (long)slack * reps)
                vf::violation("capi:leak", vf::fmt("%s: %ld, %ld, %ld bytes more after %d repetitions each [%s]", what, b - a, c - b, d - c, reps, cfgs.c_str()));
        }
        vf::stat("balance_checks");
    }
    vf::sig(vf::mix(h, vf::hash(string(what)))); vf::eval(); vf::progress();
}
static void data_case(uint64_t seed) {
    cfgs = vf::fmt("capi-data seed=%llu", (unsigned long long)seed);
    vf::watchdog(60, [] { return cfgs + " " + cur_call; }, "capi:stall");
    struct P { const char *n; uint64_t (*f)(Rng &); };
    static const vector<P> parts = {{"stream", stream_part}, {"stream", stream_part}, {"blob", blob_part}, {"addr", addr_part}, {"msg", msg_part}, {"crypto", crypto_part}, {"id", id_part}, {"config", config_part}};
    auto &p = parts[seed % parts.size()];
    balance(seed, [&](uint64_t s) { Rng r(s); return p.f(r); }, 2, 4, 16, p.n);
    vf::stat(string("cases_") + p.n);
    if (seed % 50 == 0) vf::sample(cfgs + " " + p.n);
}

// ---------------------------------------------------------------- events
struct Call { std::atomic<long> *n; std::vector<int> *order; int id; };
struct QSt { mpscqueue_t *q; std::vector<size_t> got; int burst; std::atomic<long> n{0}, wakes{0}; const eventcontext_t *ec; };
struct TSt { std::atomic<long> n{0}; timerev_t *t = nullptr; int again = 0; double delay = 0; std::atomic<long> other{0}; };
static uint64_t event_part(uint64_t seed) {
    Rng r(seed); uint64_t h = 0;
    eventcontext_t *ec = C(eventcontext_new());
    threadcall_t *tc = C(threadcall_new(ec));
    SAME(C(threadcall_get_ec(tc))->get() == ec->get(), "threadcall_get_ec");
    // queue
    QSt qs; qs.q = C(mpscqueue_new()); qs.burst = r.range(1, 50); qs.ec = ec;
    size_t nq = r.range(1, 3000);
    C(mpscqueue_reg_handler(qs.q, ec, [](mpscqueue_t *q, void *u) -> bool {
        QSt *s = (QSt *)u; void *e = nullptr; int k = 0; s->wakes++;
        SAME(q == s->q, "mpscqueue callback object");
        while (C(mpscqueue_try_dequeue(q, &e))) { s->got.push_back((size_t)e); s->n++; if (++k >= s->burst) return true; }
        return false;
    }, &qs));
    // timers
    int nt = r.range(1, 5); vector<std::unique_ptr<TSt>> ts;
    auto tick = [](timerev_t *t, void *u) {
        TSt *s = (TSt *)u; SAME(t == s->t, "timer callback object");
        if (s->again-- > 0) C(timerev_add(t, s->delay));
        s->n++;
    };
    auto tick2 = [](timerev_t *, void *u) { ((TSt *)u)->other++; };
    // signal
    struct SigSt { std::atomic<long> n{0}; std::atomic<int> num{0}; } ss;
    sigev_t *se = C(sigev_new(ec, [](int num, void *u) { ((SigSt *)u)->num = num; ((SigSt *)u)->n++; }, &ss));
    SAME(C(sigev_get_ec(se))->get() == ec->get(), "sigev_get_ec");
    SAME(!C(sigev_add(se, SIGKILL)), "sigev_add of a signal that cannot be caught");
    SAME(C(sigev_add(se, SIGUSR1)), "sigev_add");
    for (int i = 0; i < nt; i++) {
        ts.emplace_back(new TSt()); auto &s = *ts.back(); s.again = r.below(3); s.delay = r.unit() * 0.01;
        bool swap = r.chance(1, 3);
        s.t = C(timerev_new(ec, swap ? (timerev_callback_t)tick2 : (timerev_callback_t)tick, &s));
        SAME(C(timerev_get_ec(s.t))->get() == ec->get(), "timerev_get_ec");
        if (swap) C(timerev_set_callback(s.t, tick, &s));
    }
    vector<long> want; for (auto &s: ts) want.push_back(s->again + 1);
    // a timer that is set and removed must stay quiet
    TSt off; off.t = C(timerev_new(ec, tick2, &off)); int how = r.below(2);
    C(timerev_add(off.t, 0.001)); if (how) C(timerev_del(off.t)); else C(timerev_clear(off.t));
    for (auto &s: ts) C(timerev_add(s->t, s->delay));
    // a timer that gets another callback while it is armed stays armed
    TSt re; re.t = C(timerev_new(ec, tick2, &re)); C(timerev_add(re.t, 0.001)); C(timerev_set_callback(re.t, tick, &re));
    int np = r.range(1, 3); std::atomic<long> done{0}; std::vector<int> order; vector<Call> calls; int nc = r.range(1, 200);
    for (int i = 0; i < nc; i++) calls.push_back(Call{&done, &order, i});
    // calls may be made before the loop runs, and do not wait for it
    size_t early = r.below(calls.size() + 1);
    auto docall = [&](Call &c) { C(threadcall_async_call(tc, [](threadcall_handle_t *, void *u) { Call *c = (Call *)u; c->order->push_back(c->id); (*c->n)++; }, &c)); };
    vf::watchdog_key("capi:async-call-waits");
    for (size_t i = 0; i < early; i++) docall(calls[i]);
    vf::progress(); vf::watchdog_key("capi:stall");
    SAME(done == 0, "calls made before the loop runs");
    std::thread th([&] { C(eventcontext_dispatch(ec)); });
    vector<std::thread> prod;
    for (int p = 0; p < np; p++) prod.emplace_back([&, p] { for (size_t i = 0; i < nq; i++) SAME(C(mpscqueue_enqueue(qs.q, (void *)(p * 1000000 + i + 1), true)), "mpscqueue_enqueue"); });
    for (size_t i = early; i < calls.size(); i++) docall(calls[i]);
    kill(getpid(), SIGUSR1);
    for (auto &t: prod) t.join();
    auto all = [&] { for (size_t i = 0; i < ts.size(); i++) if (ts[i]->n < want[i]) return false; return done == nc && qs.n == (long)(np * nq) && ss.n >= 1 && re.n >= 1; };
    if (!vf::wait_until(all, 20)) vf::violation("capi:event-missing", vf::fmt("calls %ld/%d queue %ld/%zu signals %ld re-armed %ld [%s]", done.load(), nc, qs.n.load(), np * nq, ss.n.load(), re.n.load(), cfgs.c_str()));
    SAME(ss.num == SIGUSR1, "signal number");
    for (int i = 0; i < (int)order.size(); i++) if (order[i] != i) { vf::violation("capi:call-order", cfgs); break; }
    // per-producer order
    { vector<size_t> nx(np, 0); for (auto v: qs.got) { size_t p = (v - 1) / 1000000, i = (v - 1) % 1000000; if (p >= (size_t)np || i != nx[p]++) { vf::violation("capi:queue-order", cfgs); break; } } }
    for (auto &s: ts) { SAME(s->other == 0, "timerev_set_callback"); }
    SAME(off.other == 0, "removed timer");
    // from another thread, through the loop itself
    C(threadcall_async_call(tc, [](threadcall_handle_t *, void *u) { C(eventcontext_stop((eventcontext_t *)u)); }, ec));
    th.join();
    for (size_t i = 0; i < ts.size(); i++) { SAME(ts[i]->n == want[i], "number of expirations"); C(timerev_free(ts[i]->t)); }
    SAME(re.n == 1 && re.other == 0, "timer with another callback"); C(timerev_free(re.t));
    C(timerev_free(off.t)); C(sigev_del(se)); if (r.chance(1, 2)) C(sigev_clear(se)); C(sigev_free(se));
    C(mpscqueue_unreg_handler(qs.q)); C(mpscqueue_free(qs.q));
    // bounded queue
    mpscqueue_t *bq = C(mpscqueue_new()); C(mpscqueue_set_capacity(bq, 1));
    MPSCQueueEventDriven<void *> tq; tq.set_capacity(1);
    size_t k = 0, k2 = 0; while (k < 100000 && C(mpscqueue_enqueue(bq, (void *)(k + 1), false))) k++; while (k2 < 100000 && tq.enqueue((void *)(k2 + 1), false)) k2++;
    SAME(k == k2, "bounded mpscqueue"); SAME(C(mpscqueue_enqueue(bq, (void *)(k + 1), true)), "forced mpscqueue_enqueue");
    void *e; for (size_t i = 0; i <= k; i++) { e = nullptr; SAME(C(mpscqueue_try_dequeue(bq, &e)) && (size_t)e == i + 1, "mpscqueue content"); }
    SAME(!C(mpscqueue_try_dequeue(bq, &e)), "empty mpscqueue"); C(mpscqueue_free(bq));
    C(threadcall_free(tc)); C(eventcontext_free(ec));
    return h ^ nt ^ nq;
}
static void event_case_(uint64_t seed) {
    cfgs = vf::fmt("capi-event seed=%llu", (unsigned long long)seed);
    vf::watchdog(60, [] { return cfgs; }, "capi:stall");
    balance(seed, event_part, 1, VF_ASAN ? 2 : 0, 64, "event");
    vf::stat("cases_event"); vf::sample(cfgs);
}

// ---------------------------------------------------------------- networks
struct CSide {
    std::atomic<long> ups{0}, downs{0}, msgs{0}, echoed{0}, peers_up{0}, peers_down{0}, unknown{0}, fatals{0}; std::atomic<bool> may_fail{false}, refuse{false};
    vf::Mutex mu; std::map<int32_t, vector<int>> errs; vector<int> other; uint64_t sum = 0;
    msgnetwork_t *net = nullptr; vector<msgnetwork_conn_t *> conns; vector<bytes> got; vector<string> events; vector<PeerId> ids; vector<NetAddr> addrs;
    bool tls = false; int echo = 1;
    NetAddr unk_addr; bool unk_cert = false;
    vector<int> err(int32_t id) { vf::Lock g(mu); auto it = errs.find(id); return it == errs.end() ? vector<int>() : it->second; }
    bool has_other(int c) { vf::Lock g(mu); for (int x: other) if (x == c) return true; return false; }
};
static msg_t *mkmsg(uint8_t op, const bytes &b) { bytearray_t *a = C(bytearray_new_from_bytes(b.data(), b.size())); msg_t *m = C(msg_new_moved_from_bytearray(op, a)); C(bytearray_free(a)); return m; }
static bytes payload_of(const msg_t *m) { datastream_t *s = C(msg_consume_payload(m)); if (!s) { vf::violation("capi:differs", "no payload"); return bytes(); } bytes b = all_of(s); C(datastream_free(s)); return b; }
static void on_err(const SalticidaeCError *e, bool fatal, int32_t id, void *u) {
    CSide *s = (CSide *)u; if (fatal) { s->fatals++; vf::progress(); }
    if (fatal && !s->may_fail) vf::violation("capi:fatal", vf::fmt("code %d [%s]", e->code, cfgs.c_str()));
    vf::Lock g(s->mu); if (id >= 0) s->errs[id].push_back(e->code); else s->other.push_back(e->code);
}
static bool on_conn(const msgnetwork_conn_t *c, bool up, void *u) {
    CSide *s = (CSide *)u;
    SAME(C(msgnetwork_conn_get_net(c)) == s->net, "msgnetwork_conn_get_net");
    SAME((int)C(msgnetwork_conn_get_mode(c)) == (int)(*c)->get_mode(), "msgnetwork_conn_get_mode");
    SAME(C(netaddr_is_eq(C(msgnetwork_conn_get_addr(c)), &(*c)->get_addr())), "msgnetwork_conn_get_addr");
    SAME(C(msgnetwork_conn_get_peer_cert(c)) == (*c)->get_peer_cert(), "msgnetwork_conn_get_peer_cert");
    SAME((C(msgnetwork_conn_get_peer_cert(c)) != nullptr) == s->tls, "certificate present");
    if (up) { vf::Lock g(s->mu); s->conns.push_back(C(msgnetwork_conn_copy(c))); }
    if (up) s->ups++; else s->downs++;
    return !s->refuse;
}
static void on_msg(const msg_t *m, const msgnetwork_conn_t *c, void *u) {
    CSide *s = (CSide *)u; uint8_t op = C(msg_get_opcode(m)); bytes b = payload_of(m);
    { vf::Lock g(s->mu); s->got.push_back(b); }
    if (op == 1 && s->echo) { msg_t *e = mkmsg(2, b); if (C(msgnetwork_send_msg(C(msgnetwork_conn_get_net(c)), e, c))) s->echoed++; C(msg_free(e)); }
    s->msgs++; vf::progress();
}
// deferred and immediate messages have no order among each other
static bool same_set(vector<bytes> x, vector<bytes> y) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y; }
static void free_conns(CSide &s) { vf::Lock g(s.mu); for (auto *c: s.conns) C(msgnetwork_conn_free(c)); s.conns.clear(); }
static void cfg_tls(msgnetwork_config_t *cfg, int id, bool files) {
    C(msgnetwork_config_enable_tls(cfg, true));
    auto &d = idents()[id];
    if (files && id == 0) { C(msgnetwork_config_tls_key_file(cfg, (pem_dir + "/k.pem").c_str())); C(msgnetwork_config_tls_cert_file(cfg, (pem_dir + "/c.pem").c_str())); return; }
    SalticidaeCError e = dirty(); bytes kd = d.key_der, cd = d.cert_der;
    pkey_t *k = C(pkey_new_privkey_from_der(&kd, &e)); want_ok(e, "pkey"); x509_t *x = C(x509_new_from_der(&cd, &e)); want_ok(e, "x509");
    C(msgnetwork_config_tls_key_by_move(cfg, k)); C(msgnetwork_config_tls_cert_by_move(cfg, x)); C(pkey_free(k)); C(x509_free(x));
}
template<class F> static bool waitfor(F f, const char *what) {
    if (vf::wait_until(f, 20)) return true;
    vf::violation("capi:net-missing", vf::fmt("%s [%s]", what, cfgs.c_str()));
    return false;
}
static void want_err(CSide &s, int32_t id, int code, const char *what) {
    if (!waitfor([&] { return !s.err(id).empty(); }, what)) return;
    auto e = s.err(id); VF_CHECK(e.size() == 1 && e[0] == code, "capi:wrong-error", "%s: %zu reports, first %d, expected %d [%s]", what, e.size(), e[0], code, cfgs.c_str());
    vf::stat("async_errors");
}
// a buffer of bounded size and a remote that takes nothing: what is not accepted is said to the caller, the rest arrives
static void bounded_sends(CSide &to, CSide &from, uint8_t op, std::function<bool(msg_t *)> now, std::function<int32_t(msg_t *)> later) {
    vf_fault_cfg f; memset(&f, 0, sizeof f); f.eagain_send = 1000; vf_set_faults(&f);
    long n0 = to.msgs, acc = 0, ref = 0; vector<int32_t> ids;
    for (int i = 0; i < 40000 && ref < 20 && !vf::violated(); i++) { msg_t *m = mkmsg(op, bytes(3, 1)); if (now(m)) acc++; else ref++; C(msg_free(m)); if (i % 64 == 0) vf::progress(); }
    SAME(ref > 0, "send to a full buffer");
    for (int i = 0; i < 3; i++) { msg_t *m = mkmsg(op, bytes(3, 2)); ids.push_back(later(m)); C(msg_free(m)); }
    for (auto id: ids) want_err(from, id, SALTI_ERROR_CONN_NOT_READY, "deferred send to a full buffer");
    f.eagain_send = 0; vf_set_faults(&f);
    waitfor([&] { return to.msgs >= n0 + acc; }, "messages accepted");
    vf::usleep_(2000); SAME(to.msgs == n0 + acc, "messages not accepted");
    vf::stat("c_refused", ref);
}
static uint64_t msgnet_part(uint64_t seed) {
    Rng r(seed); bool tls = r.chance(1, 3), files = r.chance(1, 2), bounded = !tls && Rng(seed * 3 + 1).chance(1, 2);
    CSide a, b; a.tls = b.tls = tls; Loop la, lb; int port = vf::free_port(); NetAddr at = na(port);
    size_t maxsz = 2000, nw = r.range(1, 2);
    SalticidaeCError e = dirty();
    auto mk = [&](CSide &s, Loop &l, int id) {
        msgnetwork_config_t *cfg = C(msgnetwork_config_new()); C(msgnetwork_config_max_msg_size(cfg, maxsz)); C(msgnetwork_config_nworker(cfg, nw)); C(msgnetwork_config_burst_size(cfg, r.range(1, 100)));
        if (bounded && &s == &b) C(msgnetwork_config_max_send_buff_size(cfg, 1));
        if (tls) cfg_tls(cfg, id, files);
        l.run([&] {
            s.net = C(msgnetwork_new(&l.ec, cfg, &e)); want_ok(e, "msgnetwork_new");
            C(msgnetwork_reg_handler(s.net, 1, on_msg, &s)); C(msgnetwork_reg_handler(s.net, 2, on_msg, &s));
            C(msgnetwork_reg_conn_handler(s.net, on_conn, &s)); C(msgnetwork_reg_error_handler(s.net, on_err, &s));
            C(msgnetwork_start(s.net));
        });
        C(msgnetwork_config_free(cfg));
    };
    mk(a, la, 0); mk(b, lb, 1); b.echo = 0;
    netaddr_t *ad = C(netaddr_new_from_sip_port("127.0.0.1", port, &e)); want_ok(e, "address");
    e = dirty(); C(msgnetwork_listen(a.net, ad, &e)); want_ok(e, "msgnetwork_listen");
    e = dirty(); C(msgnetwork_listen(b.net, ad, &e)); SAME(e.code == SALTI_ERROR_LISTEN, "msgnetwork_listen on a used port");
    e = dirty(); msgnetwork_conn_t *c = C(msgnetwork_connect_sync(b.net, ad, &e)); want_ok(e, "msgnetwork_connect_sync"); SAME(c, "msgnetwork_connect_sync");
    uint64_t n = 0; vector<bytes> sent;
    if (waitfor([&] { return a.ups >= 1 && b.ups >= 1; }, "connection")) {
        SAME(C(netaddr_is_eq(C(msgnetwork_conn_get_addr(c)), ad)), "address of the connection"); SAME(C(msgnetwork_conn_get_mode(c)) == CONN_MODE_ACTIVE, "mode"); SAME(!C(msgnetwork_conn_is_terminated(c)), "msgnetwork_conn_is_terminated");
        n = r.range(1, 60);
        for (size_t i = 0; i < n; i++) {
            bytes p = rnd(r, r.below(600)); sent.push_back(p); msg_t *m = mkmsg(1, p);
            if (r.chance(1, 3)) { if (C(msgnetwork_send_msg_deferred_by_move(b.net, m, c)) < 0) vf::violation("capi:differs", "no async id"); }
            else SAME(C(msgnetwork_send_msg(b.net, m, c)), "msgnetwork_send_msg");
            C(msg_free(m));
        }
        waitfor([&] { return a.msgs >= (long)n && b.msgs >= (long)n; }, "messages and echoes");
        { vf::Lock g(a.mu); SAME(same_set(a.got, sent), "messages received"); } { vf::Lock g(b.mu); SAME(same_set(b.got, sent), "echoes received"); }
        if (bounded) bounded_sends(a, b, 2, [&](msg_t *m) { return C(msgnetwork_send_msg(b.net, m, c)); }, [&](msg_t *m) { return C(msgnetwork_send_msg_deferred_by_move(b.net, m, c)); });
        int32_t id = C(msgnetwork_connect(b.net, ad)); SAME(id >= 0, "msgnetwork_connect"); waitfor([&] { return a.ups >= 2 && b.ups >= 2; }, "second connection");
        if (r.chance(1, 2)) { // too large: reported with its code, and the connection ends
            msg_t *m = mkmsg(1, bytes(maxsz + 1)); C(msgnetwork_send_msg(b.net, m, c)); C(msg_free(m));
            waitfor([&] { return a.has_other(SALTI_ERROR_CONN_OVERSIZED_MSG) && b.downs >= 1; }, "oversized message");
        } else { msgnetwork_conn_t *k = C(msgnetwork_conn_copy(c)); C(msgnetwork_terminate(b.net, k)); C(msgnetwork_conn_free(k)); }
        waitfor([&] { return a.downs >= 1 && b.downs >= 1; }, "end of the connection"); SAME(C(msgnetwork_conn_is_terminated(c)), "msgnetwork_conn_is_terminated");
    }
    if (tls && !vf::violated()) { // the callback of either side can refuse
        CSide &w = r.chance(1, 2) ? a : b; long d0 = a.downs, e0 = b.downs; w.refuse = true;
        C(msgnetwork_connect(b.net, ad)); waitfor([&] { return a.downs > d0 && b.downs > e0; }, "end of the refused connection"); w.refuse = false; vf::stat("refused");
    }
    if (c) C(msgnetwork_conn_free(c));
    // network that cannot be made
    if (r.chance(1, 3)) { la.run([&] { msgnetwork_config_t *cfg = C(msgnetwork_config_new()); C(msgnetwork_config_enable_tls(cfg, true)); C(msgnetwork_config_tls_key_file(cfg, "/nonexistent")); C(msgnetwork_config_tls_cert_file(cfg, "/nonexistent"));
        SalticidaeCError x = dirty(); int te = twin([&] { MNet::Config t; t.enable_tls(true).tls_key_file("/nonexistent").tls_cert_file("/nonexistent"); MNet z(la.ec, t); });
        msgnetwork_t *z = C(msgnetwork_new(&la.ec, cfg, &x)); SAME((z == nullptr) == (te != 0) && x.code == te, "msgnetwork_new with bad files"); if (z) C(msgnetwork_free(z)); C(msgnetwork_config_free(cfg)); }); vf::stat("bad_networks"); }
    free_conns(a); free_conns(b);
    lb.run([&] { C(msgnetwork_stop(b.net)); C(msgnetwork_free(b.net)); }); la.run([&] { C(msgnetwork_stop(a.net)); C(msgnetwork_free(a.net)); });
    C(netaddr_free(ad)); vf::stat("c_messages", n);
    return n * 4 + tls * 2 + files;
}
static uint64_t clientnet_part(uint64_t seed) {
    Rng r(seed); CSide a, b; Loop la, lb; int port = vf::free_port(); SalticidaeCError e = dirty();
    NetAddr at = na(port), nobody = na(1); clientnetwork_t *sv = nullptr;
    bool bounded = Rng(seed * 3 + 1).chance(1, 4);
    msgnetwork_config_t *cfg = C(msgnetwork_config_new()); if (bounded) C(msgnetwork_config_max_send_buff_size(cfg, 1));
    la.run([&] { sv = C(clientnetwork_new(&la.ec, cfg, &e)); want_ok(e, "clientnetwork_new"); a.net = C(clientnetwork_as_msgnetwork(sv)); SAME(C(msgnetwork_as_clientnetwork_unsafe(a.net)) == sv, "as_clientnetwork");
        C(msgnetwork_reg_handler(a.net, 1, on_msg, &a)); C(msgnetwork_reg_conn_handler(a.net, on_conn, &a)); C(msgnetwork_reg_error_handler(a.net, on_err, &a)); C(msgnetwork_start(a.net)); });
    lb.run([&] { b.net = C(msgnetwork_new(&lb.ec, cfg, &e)); b.echo = 0; C(msgnetwork_reg_handler(b.net, 2, on_msg, &b)); C(msgnetwork_reg_conn_handler(b.net, on_conn, &b)); C(msgnetwork_reg_error_handler(b.net, on_err, &b)); C(msgnetwork_start(b.net)); });
    C(msgnetwork_config_free(cfg));
    C(msgnetwork_listen(a.net, &at, &e)); want_ok(e, "listen");
    msgnetwork_conn_t *c = C(msgnetwork_connect_sync(b.net, &at, &e)); want_ok(e, "connect");
    uint64_t n = r.range(1, 30); vector<bytes> sent;
    if (waitfor([&] { return a.ups >= 1 && b.ups >= 1; }, "client connection")) {
        netaddr_t *ca; { vf::Lock g(a.mu); ca = C(netaddr_copy(C(msgnetwork_conn_get_addr(a.conns[0])))); 
            clientnetwork_conn_t *cc = C(clientnetwork_conn_new_from_msgnetwork_conn_unsafe(a.conns[0])), *c2 = C(clientnetwork_conn_copy(cc)); msgnetwork_conn_t *m = C(msgnetwork_conn_new_from_clientnetwork_conn(c2));
            SAME(m->get() == a.conns[0]->get(), "connection conversions"); C(clientnetwork_conn_free(cc)); C(clientnetwork_conn_free(c2)); C(msgnetwork_conn_free(m)); }
        for (size_t i = 0; i < n; i++) {
            bytes p = rnd(r, r.below(300)); sent.push_back(p); msg_t *m = mkmsg(2, p);
            if (r.chance(1, 3)) C(clientnetwork_send_msg_deferred_by_move(sv, m, ca)); else SAME(C(clientnetwork_send_msg(sv, m, ca)), "clientnetwork_send_msg");
            C(msg_free(m));
        }
        waitfor([&] { return b.msgs >= (long)n; }, "messages to the client"); { vf::Lock g(b.mu); SAME(same_set(b.got, sent), "messages at the client"); }
        if (bounded) bounded_sends(b, a, 2, [&](msg_t *m) { return C(clientnetwork_send_msg(sv, m, ca)); }, [&](msg_t *m) { return C(clientnetwork_send_msg_deferred_by_move(sv, m, ca)); });
        C(netaddr_free(ca));
    }
    msg_t *m = mkmsg(2, bytes(3)); SAME(!C(clientnetwork_send_msg(sv, m, &nobody)), "clientnetwork_send_msg to nobody");
    int32_t id = C(clientnetwork_send_msg_deferred_by_move(sv, m, &nobody)); C(msg_free(m)); want_err(a, id, SALTI_ERROR_CLIENT_NOT_EXIST, "deferred message to nobody");
    if (c) C(msgnetwork_conn_free(c));
    free_conns(a); free_conns(b);
    lb.run([&] { C(msgnetwork_stop(b.net)); C(msgnetwork_free(b.net)); }); la.run([&] { C(msgnetwork_stop(a.net)); C(clientnetwork_free(sv)); });
    vf::stat("c_messages", n);
    return n;
}
static void on_peer(const peernetwork_conn_t *c, bool up, void *u) {
    CSide *s = (CSide *)u; peerid_t *id = C(peernetwork_conn_get_peer_id(c)); netaddr_t *ad = C(peernetwork_conn_get_peer_addr(c));
    if (up) SAME((id && ad) || s->may_fail, "result of peernetwork_conn_get_peer_id");
    if (up && id && ad) { vf::Lock g(s->mu); s->ids.push_back(*id); s->addrs.push_back(*ad); }
    C(peerid_free(id)); C(netaddr_free(ad));
    peernetwork_conn_t *k = C(peernetwork_conn_copy(c)); msgnetwork_conn_t *m = C(msgnetwork_conn_new_from_peernetwork_conn(k)); peernetwork_conn_t *b = C(peernetwork_conn_new_from_msgnetwork_conn_unsafe(m));
    SAME(b->get() == c->get(), "connection conversions"); C(peernetwork_conn_free(k)); C(msgnetwork_conn_free(m)); C(peernetwork_conn_free(b));
    if (up) s->peers_up++; else s->peers_down++;
}
static void on_unknown(const netaddr_t *ad, const x509_t *x, void *u) { CSide *s = (CSide *)u; { vf::Lock g(s->mu); s->unk_addr = *ad; s->unk_cert = x != nullptr; } s->unknown++; }
static uint64_t peernet_part(uint64_t seed) {
    Rng r(seed); bool tls = r.chance(1, 3), cert = tls && r.chance(1, 2), known_b = r.chance(4, 5); SalticidaeCError e = dirty();
    bool bounded = !tls && Rng(seed * 3 + 1).chance(1, 3);
    CSide s[2]; Loop l[2]; peernetwork_t *pn[2]; NetAddr ad[2]; peerid_t *id[2];
    for (int i = 0; i < 2; i++) {
        s[i].tls = tls; ad[i] = na(vf::free_port());
        peernetwork_config_t *cfg = C(peernetwork_config_new()); C(peernetwork_config_ping_period(cfg, 3)); C(peernetwork_config_conn_timeout(cfg, 6)); C(peernetwork_config_id_mode(cfg, cert ? ID_MODE_CERT_BASED : ID_MODE_ADDR_BASED));
        if (tls) cfg_tls(C(peernetwork_config_as_msgnetwork_config(cfg)), i, false);
        if (bounded) C(msgnetwork_config_max_send_buff_size(C(peernetwork_config_as_msgnetwork_config(cfg)), 1));
        l[i].run([&] {
            pn[i] = C(peernetwork_new(&l[i].ec, cfg, &e)); want_ok(e, "peernetwork_new"); s[i].net = C(peernetwork_as_msgnetwork(pn[i])); SAME(C(msgnetwork_as_peernetwork_unsafe(s[i].net)) == pn[i], "as_peernetwork");
            C(msgnetwork_reg_handler(s[i].net, 1, on_msg, &s[i])); C(msgnetwork_reg_error_handler(s[i].net, on_err, &s[i])); s[i].echo = 0;
            C(peernetwork_reg_peer_handler(pn[i], on_peer, &s[i])); C(peernetwork_reg_unknown_peer_handler(pn[i], on_unknown, &s[i])); C(msgnetwork_start(s[i].net));
        });
        C(peernetwork_config_free(cfg));
        if (i) { e = dirty(); C(peernetwork_listen(pn[1], &ad[0], &e)); SAME(e.code == SALTI_ERROR_LISTEN, "peernetwork_listen on a used port"); }
        e = dirty(); C(peernetwork_listen(pn[i], &ad[i], &e)); want_ok(e, "peernetwork_listen");
        if (cert) { bytes cd = idents()[i].cert_der; x509_t *x = C(x509_new_from_der(&cd, &e)); id[i] = C(peerid_new_from_x509(x)); C(x509_free(x)); } else id[i] = C(peerid_new_from_netaddr(&ad[i]));
    }
    // operations on peers that are not there
    NetAddr none = na(1); peerid_t *nid = C(peerid_new_from_netaddr(&none)); msg_t *m = mkmsg(1, bytes(4));
    want_err(s[0], C(peernetwork_del_peer(pn[0], nid)), SALTI_ERROR_PEER_NOT_EXIST, "del_peer");
    want_err(s[0], C(peernetwork_conn_peer(pn[0], nid, 1, 0.1)), SALTI_ERROR_PEER_NOT_EXIST, "conn_peer");
    want_err(s[0], C(peernetwork_set_peer_addr(pn[0], nid, &none)), SALTI_ERROR_PEER_NOT_EXIST, "set_peer_addr");
    SAME(!C(peernetwork_send_msg(pn[0], m, nid)), "peernetwork_send_msg to an unknown peer"); SAME(!C(peernetwork_has_peer(pn[0], nid)), "peernetwork_has_peer");
    e = dirty(); const peernetwork_conn_t *pc = C(peernetwork_get_peer_conn(pn[0], nid, &e)); SAME(!pc && e.code == SALTI_ERROR_PEER_NOT_EXIST, "peernetwork_get_peer_conn"); if (pc) C(peernetwork_conn_free(pc));
    want_err(s[0], C(peernetwork_send_msg_deferred_by_move(pn[0], m, nid)), SALTI_ERROR_PEER_NOT_EXIST, "send_msg_deferred"); C(msg_free(m));
    { const peerid_t *ps[] = {nid}; peerid_array_t *pa = C(peerid_array_new_from_peers(ps, 1)); m = mkmsg(1, bytes(4)); want_err(s[0], C(peernetwork_multicast_msg_by_move(pn[0], m, pa)), SALTI_ERROR_PEER_NOT_EXIST, "multicast"); C(msg_free(m)); C(peerid_array_free(pa)); }
    C(peernetwork_add_peer(pn[0], id[1])); SAME(C(peernetwork_has_peer(pn[0], id[1])), "peernetwork_has_peer");
    want_err(s[0], C(peernetwork_add_peer(pn[0], id[1])), SALTI_ERROR_PEER_ALREADY_EXISTS, "add_peer twice");
    if (known_b) { C(peernetwork_add_peer(pn[1], id[0])); SAME(C(peernetwork_has_peer(pn[1], id[0])), "peernetwork_has_peer"); }
    C(peernetwork_set_peer_addr(pn[0], id[1], &ad[1])); C(peernetwork_has_peer(pn[0], id[1]));
    bool both = known_b && r.chance(1, 2); // then a connection may be replaced by another one
    if (both) { C(peernetwork_set_peer_addr(pn[1], id[0], &ad[0])); C(peernetwork_has_peer(pn[1], id[0])); C(peernetwork_conn_peer(pn[1], id[0], -1, 0.2)); }
    C(peernetwork_conn_peer(pn[0], id[1], -1, 0.2));
    uint64_t n = 0;
    if (!known_b) {
        if (waitfor([&] { return s[1].unknown >= 1; }, "unknown peer report")) { vf::Lock g(s[1].mu); SAME(s[1].unk_addr == ad[0], "address of the unknown peer"); SAME(s[1].unk_cert == tls, "certificate of the unknown peer"); }
        vf::stat("unknown_peers");
    } else if (waitfor([&] { return s[0].peers_up >= 1 && s[1].peers_up >= 1; }, "peers connected")) {
        for (int i = 0; i < 2; i++) { vf::Lock g(s[i].mu); SAME(!s[i].ids.empty() && (s[i].ids[0] == *id[1 - i] || (both && s[i].ids[0] == PeerId())), "peer identifier"); if (i == 0) SAME(s[i].addrs[0] == ad[1] || (both && s[i].addrs[0].is_null()), "peer address"); }
        e = dirty(); pc = C(peernetwork_get_peer_conn(pn[0], id[1], &e)); want_ok(e, "peernetwork_get_peer_conn"); SAME(pc && pc->get(), "peernetwork_get_peer_conn");
        if (pc) { peerid_t *pid = C(peernetwork_conn_get_peer_id(pc)); SAME(*pid == *id[1] || (both && *pid == PeerId()), "peernetwork_conn_get_peer_id"); C(peerid_free(pid)); }
        vector<bytes> sent; n = r.range(1, 30); const peerid_t *ps[] = {id[1]}; peerid_array_t *pa = C(peerid_array_new_from_peers(ps, 1));
        for (size_t i = 0; i < n; i++) {
            bytes p = rnd(r, r.below(300)); sent.push_back(p); m = mkmsg(1, p); int k = r.below(3);
            if (k == 0) C(peernetwork_send_msg_deferred_by_move(pn[0], m, id[1])); else if (k == 1) C(peernetwork_multicast_msg_by_move(pn[0], m, pa)); else SAME(C(peernetwork_send_msg(pn[0], m, id[1])), "peernetwork_send_msg");
            C(msg_free(m));
        }
        C(peerid_array_free(pa));
        if (both) { // messages in flight are lost when the connection is replaced
            waitfor([&] { if (s[1].msgs >= (long)n) return true; bytes p(5); sent.push_back(p); msg_t *x = mkmsg(1, p); C(peernetwork_send_msg(pn[0], x, id[1])); C(msg_free(x)); vf::usleep_(300); return false; }, "messages to the peer");
        } else waitfor([&] { return s[1].msgs >= (long)n; }, "messages to the peer");
        if (!both) { vf::Lock g(s[1].mu); SAME(same_set(s[1].got, sent), "messages at the peer"); }
        if (bounded && !both) bounded_sends(s[1], s[0], 1, [&](msg_t *m) { return C(peernetwork_send_msg(pn[0], m, id[1])); }, [&](msg_t *m) { return C(peernetwork_send_msg_deferred_by_move(pn[0], m, id[1])); });
        C(peernetwork_del_peer(pn[0], id[1])); SAME(!C(peernetwork_has_peer(pn[0], id[1])), "peernetwork_del_peer");
        waitfor([&] { return s[1].peers_down >= 1; }, "end of the peer");
        vf::stat("peers_connected");
    }
    if (r.chance(1, 2)) { // attempts, as many and as often as asked for
        Raw ls; int py = vf::free_port(), k = r.range(3, 6); std::atomic<int> got{0}; std::atomic<bool> quit{false}; ls.listen(py); NetAddr ya = na(py); peerid_t *yid = C(peerid_new_from_netaddr(&ya));
        std::thread th([&] { while (!quit) { Raw c = ls.accept(0.02); if (c.fd >= 0) got++; } });
        C(peernetwork_add_peer(pn[0], yid)); C(peernetwork_set_peer_addr(pn[0], yid, &ya)); C(peernetwork_has_peer(pn[0], yid)); vf::hiccup(true);
        C(peernetwork_conn_peer(pn[0], yid, k, 0.01));
        bool ok = vf::wait_until([&] { return got >= k; }, 4);
        if (!ok && vf::hiccup() < 0.5) vf::violation("capi:differs", vf::fmt("%d of %d attempts with 0.01 s between them made in 4 s [%s]", got.load(), k, cfgs.c_str()));
        vf::msleep(60); quit = true; th.join(); SAME(got <= k, "number of attempts"); vf::stat("c_attempts", got);
        C(peernetwork_del_peer(pn[0], yid)); C(peernetwork_has_peer(pn[0], yid)); C(peerid_free(yid));
    }
    if (r.chance(1, 3)) { // the network fails as a whole: no socket for the next attempt
        NetAddr ya = na(vf::free_port()); peerid_t *yid = C(peerid_new_from_netaddr(&ya)); s[0].may_fail = true;
        C(peernetwork_add_peer(pn[0], yid)); C(peernetwork_set_peer_addr(pn[0], yid, &ya)); C(peernetwork_has_peer(pn[0], yid)); C(peernetwork_conn_peer(pn[0], yid, -1, 0.005)); C(peernetwork_has_peer(pn[0], yid));
        vf::watchdog_key("capi:fatal-not-reported");
        for (int i = 0; !s[0].fatals && !vf::violated(); i++) { vf_fail_call("socket", 1, EMFILE); for (int k = 0; k < 20 && !s[0].fatals; k++) vf::msleep(1); }
        vf_fail_call("socket", 0, 0); vf::watchdog_key("capi:stall"); vf::progress();
        SAME(s[0].has_other(SALTI_ERROR_CONNECT), "code of the fatal error"); C(peerid_free(yid)); vf::stat("c_fatal_errors");
        C(peernetwork_has_peer(pn[0], id[1])); e = dirty(); auto *gc = C(peernetwork_get_peer_conn(pn[0], id[1], &e)); if (gc) C(peernetwork_conn_free(gc)); // whatever they say, they return
        if (pc) { peerid_t *p = C(peernetwork_conn_get_peer_id(pc)); netaddr_t *a = C(peernetwork_conn_get_peer_addr(pc)); C(peerid_free(p)); C(netaddr_free(a)); vf::stat("calls_after_failure"); }
    }
    if (pc) C(peernetwork_conn_free(pc));
    for (int i = 0; i < 2; i++) { l[i].run([&] { C(msgnetwork_stop(s[i].net)); C(peernetwork_free(pn[i])); }); C(peerid_free(id[i])); }
    C(peerid_free(nid)); vf::stat("c_messages", n);
    return n * 8 + tls * 4 + cert * 2 + known_b;
}
static void net_case(uint64_t seed) {
    static const char *nm[] = {"msgnet", "clientnet", "peernet"}; int k = seed % 3;
    cfgs = vf::fmt("capi-%s seed=%llu", nm[k], (unsigned long long)seed);
    vf::watchdog(60, [] { return cfgs; }, "capi:stall");
    balance(seed, [&](uint64_t s) { return k == 0 ? msgnet_part(s) : k == 1 ? clientnet_part(s) : peernet_part(s); }, 1, VF_ASAN ? 2 : 0, 256, nm[k]);
    vf::stat(string("cases_") + nm[k]); vf::sample(cfgs);
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
    idents(); make_pems();
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        uint64_t s = vf::args.seed * 1000 + k;
        if (vf::args.mode == "data") data_case(s);
        else if (vf::args.mode == "event") event_case_(s);
        else net_case(s);
    }
    vf::stat("c_calls", ncalls);
    vf::finish();
}
