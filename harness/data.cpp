// C09/C10/C11/C25: data streams, message framing, bit vectors/blobs, segmented buffers.
// Oracle: independent byte-vector models and OpenSSL's one-shot digests, compared after every operation.
#include <algorithm>
#include "vf.h"
#include "salticidae/stream.h"
#include "salticidae/msg.h"
#include "salticidae/event.h"
#include "salticidae/buffer.h"
#include <openssl/sha.h>
#include <deque>
#include <list>
using namespace salticidae;
using vf::Rng;
using bytes = std::vector<uint8_t>;

static std::string trace;
static void tr(const std::string &s) { if (trace.size() < 3000) trace += s + ";"; }
#define BAD(key, ...) do { vf::violation(key, vf::fmt(__VA_ARGS__) + " ops: " + trace); return; } while (0)

static bytes rnd(Rng &r, size_t n) { bytes b(n); for (auto &x: b) x = r.next(); return b; }
static size_t rlen(Rng &r) {
    switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return r.below(9); case 3: return 4095 + r.below(3); case 4: return r.below(3000); default: return r.below(64); }
}
static std::string hexs(const bytes &b) { return vf::hex(b.data(), b.size()); }

// ------------------------------------------------------------------ streams
struct Model { bytes b; size_t off = 0; size_t size() const { return b.size() - off; } bytes rest() const { return bytes(b.begin() + off, b.end()); } };

static bool same(DataStream &s, const Model &m, const char *where) {
    if (s.size() != m.size()) { vf::violation("stream:size", vf::fmt("%s: size %zu, expected %zu", where, s.size(), m.size()) + " ops: " + trace); return false; }
    if (m.size() && memcmp(s.data(), m.b.data() + m.off, m.size())) { vf::violation("stream:content", std::string(where) + " content differs; ops: " + trace); return false; }
    return true;
}

template<typename T> static bool put_get(Rng &r, DataStream &s, Model &m, bool put) {
    if (put) {
        T v = (T)r.next();
        if (r.below(4) == 0) v = r.pick(std::vector<T>{T(0), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min()});
        s << v;
        m.b.insert(m.b.end(), (uint8_t *)&v, (uint8_t *)&v + sizeof v);
        tr(vf::fmt("put%zu", sizeof v));
    } else {
        T v = (T)0x5a, keep = v;
        bool threw = false;
        try { s >> v; } catch (std::ios_base::failure &) { threw = true; }
        tr(vf::fmt("get%zu", sizeof v));
        if (m.size() < sizeof(T)) {
            vf::stat("overreads");
            if (!threw) { vf::violation("stream:overread-accepted", vf::fmt("reading %zu of %zu bytes succeeded", sizeof(T), m.size()) + trace); return false; }
            if (v != keep) { vf::violation("stream:overread-exposes", trace); return false; }
        } else {
            if (threw) { vf::violation("stream:read-refused", trace); return false; }
            T e; memcpy(&e, m.b.data() + m.off, sizeof e); m.off += sizeof e;
            if (e != v) { vf::violation("stream:value", vf::fmt("read %llx, wrote %llx ", (unsigned long long)v, (unsigned long long)e) + trace); return false; }
        }
    }
    return true;
}

static void stream_case(uint64_t seed) {
    Rng r(seed);
    trace.clear();
    Model m;
    bytes init = rnd(r, r.chance(1, 2) ? 0 : rlen(r));
    DataStream s;
    switch (r.below(4)) {
        case 0: break;
        case 1: s = DataStream(init); m.b = init; break;
        case 2: s = DataStream(init.data(), init.data() + init.size()); m.b = init; break;
        case 3: s = DataStream(std::string(init.begin(), init.end())); m.b = init; break;
    }
    int nops = r.range(5, 60);
    for (int k = 0; k < nops && !vf::violated(); k++) {
        bool put = r.chance(1, 2);
        switch (r.below(22)) {
            case 0: if (!put_get<uint8_t>(r, s, m, put)) return; break;
            case 1: if (!put_get<uint16_t>(r, s, m, put)) return; break;
            case 2: if (!put_get<uint32_t>(r, s, m, put)) return; break;
            case 3: if (!put_get<uint64_t>(r, s, m, put)) return; break;
            case 4: if (!put_get<int8_t>(r, s, m, put)) return; break;
            case 5: if (!put_get<int16_t>(r, s, m, put)) return; break;
            case 6: if (!put_get<int32_t>(r, s, m, put)) return; break;
            case 7: if (!put_get<int64_t>(r, s, m, put)) return; break;
            case 8: { auto b = rnd(r, rlen(r)); s << b; m.b.insert(m.b.end(), b.begin(), b.end()); tr("bytes"); break; }
            case 9: { auto b = rnd(r, rlen(r)); s << std::string(b.begin(), b.end()); m.b.insert(m.b.end(), b.begin(), b.end()); tr("str"); break; }
            case 10: { std::string c; for (int i = r.below(30); i > 0; i--) c += (char)r.range(1, 127); s << c.c_str(); m.b.insert(m.b.end(), c.begin(), c.end()); tr("cstr"); break; }
            case 11: { auto b = rnd(r, rlen(r)); s.put_data(b.data(), b.data() + b.size()); m.b.insert(m.b.end(), b.begin(), b.end()); tr("put_data"); break; }
            case 12: { // read in place; sometimes too much
                size_t len = r.pick(std::vector<size_t>{0, 1, m.size(), m.size() + 1, m.size() / 2, SIZE_MAX, SIZE_MAX - m.off + 1, SIZE_MAX / 2, r.below(2 * m.size() + 2)});
                bool threw = false; const uint8_t *p = nullptr;
                try { p = s.get_data_inplace(len); } catch (std::ios_base::failure &) { threw = true; }
                tr(vf::fmt("inplace%zu", len));
                if (len > m.size()) { vf::stat("overreads"); if (!threw) BAD("stream:overread-accepted", "get_data_inplace(%zu) of %zu", len, m.size()); }
                else { if (threw) BAD("stream:read-refused", "get_data_inplace(%zu) of %zu", len, m.size());
                    if (len && memcmp(p, m.b.data() + m.off, len)) BAD("stream:value", "in-place data differs"); m.off += len; }
                break; }
            case 13: { DataStream t(s); if (put) { DataStream u; auto b = rnd(r, r.below(30)); u << b; for (size_t i = r.below(b.size() + 1); i > 0; i--) { uint8_t x; u >> x; } u = static_cast<const DataStream &>(s); tr("copyassign"); if (!same(u, m, "copy assignment")) return; t = u; } if (!same(t, m, "copy")) return; Model m2 = m; t << (uint8_t)7; m2.b.push_back(7); if (!same(t, m2, "copy+put") || !same(s, m, "original after copy")) return; tr("copy"); break; }
            case 14: { DataStream t(std::move(s)); tr("move"); if (!same(t, m, "moved-to")) return;
                if (s.size() != 0) BAD("stream:moved-from-size", "moved-from stream reports %zu bytes", s.size());
                s = std::move(t); break; }
            case 15: { DataStream t; Model m2; auto b = rnd(r, r.below(20)); t << b; m2.b = b; t.swap(s); if (!same(t, m, "swap") || !same(s, m2, "swap2")) return; t.swap(s); tr("swap"); break; }
            case 16: { auto &alias = s; s = alias; tr("selfassign"); break; }
            case 17: { if (s.get_hex() != hexs(m.rest())) BAD("stream:hex", "get_hex differs"); DataStream t; t << (uint32_t)1; for (int k = r.below(5); k > 0; k--) { uint8_t x; t >> x; } t.load_hex(s.get_hex()); Model m2; m2.b = m.rest(); if (!same(t, m2, "hex round trip")) return; tr("hex"); break; }
            case 18: { uint256_t h = s.get_hash(); uint8_t d[32]; auto x = m.rest(); ::SHA256(x.data(), x.size(), d); bytes hb = h; if (hb != bytes(d, d + 32)) BAD("stream:hash", "hash of unread bytes differs"); tr("hash"); break; }
            case 19: { bytes c = static_cast<const DataStream &>(s); if (c != m.rest()) BAD("stream:convert", "copy conversion"); std::string st = s; if (bytes(st.begin(), st.end()) != m.rest()) BAD("stream:convert", "string conversion");
                DataStream t(s); bytes c2 = std::move(t); if (c2 != m.rest()) BAD("stream:convert", "moving conversion gives %zu bytes, %zu unread", c2.size(), m.size()); tr("conv"); break; }
            case 20: { // serializable objects
                if (put) { auto b = rnd(r, 32); uint256_t v(b); s << v; uint256_t w1, w2; w1.from_bytes(b); bytes bm = b; w2.from_bytes(std::move(bm)); if (w1 != v || w2 != v || v.to_bytes() != b) BAD("stream:value", "from_bytes of 32 bytes"); m.b.insert(m.b.end(), b.begin(), b.end()); tr("putblob"); }
                else { uint256_t v; size_t before = m.size(); bool threw = false; try { s >> v; } catch (std::ios_base::failure &) { threw = true; } tr("getblob");
                    if (before < 32) { if (!threw) BAD("stream:overread-accepted", "blob from %zu bytes", before); m.off = m.b.size() - s.size(); if (s.size() > before) BAD("stream:overread-past-end", "size %zu after", s.size()); }
                    else { if (threw) BAD("stream:read-refused", "blob"); bytes vb = v; if (vb != bytes(m.b.begin() + m.off, m.b.begin() + m.off + 32)) BAD("stream:value", "blob differs"); m.off += 32; } }
                break; }
            case 21: if (r.chance(1, 5)) { s.clear(); m = Model(); tr("clear"); } break;
        }
        if (!same(s, m, "after op")) return;
        vf::stat("operations");
    }
    vf::eval(); vf::sig(vf::hash(trace)); vf::sample(trace.substr(0, 300));
}

static void hex_case(uint64_t seed) {
    Rng r(seed);
    trace.clear();
    for (int k = 0; k < 60 && !vf::violated(); k++) {
        std::string h;
        int n = r.below(12);
        for (int i = 0; i < n; i++) h += "0123456789abcdefABCDEF"[r.below(22)];
        bool valid = !(n & 1);
        if (r.chance(2, 3) && n) {
            static const char bad[] = " -+xXgGzZ.\t\n\0_:@`/~";
            char c = bad[r.below(sizeof bad - 1)];
            if (r.below(10) == 0) c = (char)r.range(128, 255);
            h[r.below(n)] = c; valid = false;
        }
        trace = "hex '" + vf::hex(h.data(), h.size()) + "'";
        bool ok = true; bytes got;
        try { DataStream s; s.load_hex(h); got = bytes(std::move(s)); } catch (std::invalid_argument &) { ok = false; }
        if (ok != valid) BAD(ok ? "hex:malformed-accepted" : "hex:valid-rejected", "load_hex");
        if (ok) {
            std::string low; for (char c: h) low += tolower(c);
            if (hexs(got) != low) BAD("hex:value", "decoded %s", hexs(got).c_str());
            if (from_hex(h) != got) BAD("hex:value", "from_hex");
            if (get_hex(got) != low) BAD("hex:value", "get_hex");
        }
        // C entry point: null on malformed input (strings without NUL only)
        if (h.find('\0') == std::string::npos) {
            auto *b = bytearray_new_from_hex(h.c_str());
            if ((b != nullptr) != valid) BAD("hex:c-api", "bytearray_new_from_hex %s", b ? "accepted" : "refused");
            if (b) bytearray_free(b);
        }
        vf::stat(valid ? "hex_valid" : "hex_malformed");
        vf::sig(vf::hash(h));
    }
    vf::eval();
}

// C getters: same model, failure flag
static void cstream_case(uint64_t seed) {
    Rng r(seed);
    trace.clear();
    auto *s = datastream_new();
    Model m;
#define CGET(T, fn) { bool ok = r.chance(1, 2); auto v = fn(s, &ok); tr(#fn); bool want = m.size() >= sizeof(T); if (ok != want) BAD("stream:c-flag", #fn " flag=%d with %zu bytes left", ok, m.size()); \
        if (want) { T e; memcpy(&e, m.b.data() + m.off, sizeof e); m.off += sizeof e; if (e != v) BAD("stream:value", #fn); } else vf::stat("overreads"); }
#define CPUT(T, fn) { T v = (T)r.next(); tr(#fn); if (!fn(s, v)) BAD("stream:c-put", #fn); m.b.insert(m.b.end(), (uint8_t *)&v, (uint8_t *)&v + sizeof v); }
    for (int k = 0; k < 40; k++) {
        switch (r.below(19)) {
            case 0: CPUT(uint8_t, datastream_put_u8) break; case 1: CPUT(uint16_t, datastream_put_u16) break;
            case 2: CPUT(uint32_t, datastream_put_u32) break; case 3: CPUT(uint64_t, datastream_put_u64) break;
            case 4: CPUT(int8_t, datastream_put_i8) break; case 5: CPUT(int16_t, datastream_put_i16) break;
            case 6: CPUT(int32_t, datastream_put_i32) break; case 7: CPUT(int64_t, datastream_put_i64) break;
            case 8: CGET(uint8_t, datastream_get_u8) break; case 9: CGET(uint16_t, datastream_get_u16) break;
            case 10: CGET(uint32_t, datastream_get_u32) break; case 11: CGET(uint64_t, datastream_get_u64) break;
            case 12: CGET(int8_t, datastream_get_i8) break; case 13: CGET(int16_t, datastream_get_i16) break;
            case 14: CGET(int32_t, datastream_get_i32) break; case 15: CGET(int64_t, datastream_get_i64) break;
            case 16: { auto b = rnd(r, r.below(40)); if (!datastream_put_data(s, b.data(), b.size())) BAD("stream:c-put", "put_data"); m.b.insert(m.b.end(), b.begin(), b.end()); tr("put_data"); break; }
            case 17: { size_t len = r.pick(std::vector<size_t>{1, m.size(), m.size() + 1, SIZE_MAX}); auto *p = datastream_get_data_inplace(s, len); tr("inplace");
                if (len > m.size()) { if (p) BAD("stream:overread-accepted", "C get_data_inplace"); } else if (len) { if (!p || memcmp(p, m.b.data() + m.off, len)) BAD("stream:value", "C in-place"); m.off += len; } break; }
            case 18: { auto *h = datastream_get_hex(s); if (std::string(h) != hexs(m.rest())) BAD("stream:hex", "C get_hex"); free(h); auto *c = datastream_copy(s); if (!same(*c, m, "C copy")) return; datastream_free(c); break; }
        }
        if (datastream_size(s) != m.size()) BAD("stream:size", "C size %zu expected %zu", datastream_size(s), m.size());
        vf::stat("operations");
    }
    datastream_free(s);
    vf::eval(); vf::sig(vf::hash(trace));
}

// ------------------------------------------------------------------ messages
static void le(bytes &b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back(v >> (8 * i)); }
template<typename OP> struct TMsg { static OP opcode; DataStream serialized; };
template<typename OP> OP TMsg<OP>::opcode = 0;

template<typename OP> static void msg_one(Rng &r) {
    using M = MsgBase<OP>;
    uint32_t magic = r.pick(std::vector<uint32_t>{0u, 1u, 0xffffffffu, (uint32_t)r.next(), (uint32_t)r.next()});
    OP op = r.pick(std::vector<OP>{OP(0), OP(-1), OP(r.next()), OP(r.next())});
    bytes pl = rnd(r, r.chance(1, 30) ? 200000 + r.below(100) : rlen(r));
    trace = vf::fmt("msg op=%zu bytes magic=%x payload=%zu", sizeof(OP), magic, pl.size());
    TMsg<OP>::opcode = op;
    TMsg<OP> src; src.serialized = DataStream(pl);
    M m(src, magic);
    uint8_t d[20]; ::SHA1(pl.data(), pl.size(), d);
    bytes want; le(want, magic, 4); le(want, op, sizeof(OP)); le(want, pl.size(), 4); want.insert(want.end(), d, d + 4); want.insert(want.end(), pl.begin(), pl.end());
    bytes wire = m.serialize();
    if (wire != want) BAD("msg:wire", "serialized message differs from the documented format (%zu vs %zu bytes)", wire.size(), want.size());
    if (M::header_size != 12 + sizeof(OP)) BAD("msg:header-size", "%zu", M::header_size);
    if (m.serialize() != want) BAD("msg:wire", "second serialization differs");
    if (bytes(src.serialized) != pl) BAD("msg:source-changed", "building a message changed its source");
    // parse
    M p{DataStream(bytes(wire.begin(), wire.begin() + M::header_size))};
    if (p.get_magic() != magic || p.get_opcode() != op || p.get_length() != pl.size()) BAD("msg:header-parse", "parsed magic=%x length=%zu", p.get_magic(), p.get_length());
    bool threw = false; try { p.get_payload(); } catch (std::runtime_error &) { threw = true; } if (!threw) BAD("msg:payload-before-set", "payload available before it was set");
    threw = false; try { p.get_checksum(); } catch (std::runtime_error &) { threw = true; } if (!threw) BAD("msg:checksum-without-payload", "checksum of a message without payload");
    M hdr(p);
    p.set_payload(bytes(pl));
    if (!p.verify_checksum()) BAD("msg:checksum-false-negative", "intact message fails verification");
    if (p.serialize() != want) BAD("msg:wire", "re-serialization of the parsed message differs");
    // alterations of the payload, and of the checksum itself
    for (int i = 0; i < 6; i++) {
        bytes alt = pl;
        int kind = r.below(5);
        if (kind == 0 && alt.size()) alt[r.below(alt.size())] ^= 1 << r.below(8);
        else if (kind == 1 && alt.size()) alt.pop_back();
        else if (kind == 2) alt.push_back(r.next());
        else if (kind == 3 && alt.size() > 1) { size_t a = r.below(alt.size()), b = r.below(alt.size()); std::swap(alt[a], alt[b]); }
        else if (kind == 4) { bytes w = wire; uint8_t *cs = &w[8 + sizeof(OP)]; bytes good(cs, cs + 4);
            switch (r.below(5)) { case 0: memset(cs, 0, 4); break; case 1: memset(cs, 0xff, 4); break; case 2: for (int j = 0; j < 4; j++) cs[j] = r.next(); break; case 3: std::reverse(cs, cs + 4); break; default: cs[r.below(4)] ^= 1 << r.below(8); }
            if (bytes(cs, cs + 4) == good) cs[0] ^= 1;
            M q{DataStream(bytes(w.begin(), w.begin() + M::header_size))}; q.set_payload(bytes(pl)); if (q.verify_checksum()) BAD("msg:checksum-false-positive", "altered checksum accepted"); vf::stat("altered"); continue; }
        if (alt == pl) continue;
        M q(hdr); q.set_payload(bytes(alt));
        vf::stat("altered");
        if (q.verify_checksum()) BAD("msg:checksum-false-positive", "altered payload accepted (kind %d)", kind);
    }
    // copies are independent, payload comes out once
    M c(p), c2; c2 = p; M c3(std::move(c2)); M c4; c4 = std::move(c3); M c5(p); c5.swap(c4);
    M *all[] = {&c, &c4, &c5, &p};
    std::string text = p;
    if (text.find("payload=" + hexs(pl) + ">") == std::string::npos) BAD("msg:text", "text form lacks the payload");
    for (auto *x: all) {
        if (x->get_magic() != magic || x->get_opcode() != op || !x->verify_checksum()) BAD("msg:copy", "copy differs");
        DataStream s = x->get_payload();
        if (bytes(std::move(s)) != pl) BAD("msg:payload", "payload differs from what was sent");
        threw = false; try { x->get_payload(); } catch (std::runtime_error &) { threw = true; } if (!threw) BAD("msg:payload-twice", "payload handed out twice");
        threw = false; try { x->verify_checksum(); } catch (std::runtime_error &) { threw = true; } if (!threw) BAD("msg:checksum-without-payload", "checksum after the payload was taken");
    }
    uint32_t nm = r.next(); c.set_magic(nm); if (c.get_magic() != nm || p.get_magic() != magic) BAD("msg:set-magic", "set_magic");
    bytes np = rnd(r, r.below(50)); c.set_payload(DataStream(np)); c.set_checksum();
    if (!c.verify_checksum() || c.get_length() != np.size() || bytes(c.get_payload()) != np) BAD("msg:set-payload", "refilled message");
    vf::stat("messages");
    vf::sig(vf::mix(vf::hash(pl.data(), pl.size()), magic ^ op));
}

static void msg_case(uint64_t seed) {
    Rng r(seed);
    for (int i = 0; i < 10 && !vf::violated(); i++) switch (r.below(4)) {
        case 0: msg_one<uint16_t>(r); break; case 1: msg_one<uint32_t>(r); break; default: msg_one<uint8_t>(r); break; }
    vf::eval(); vf::sample(trace);
}

static void hashlist_case(uint64_t seed) {
    Rng r(seed);
    for (int k = 0; k < 12 && !vf::violated(); k++) {
        MsgBase<uint8_t> m;
        size_t n = r.pick(std::vector<size_t>{0, 1, 2, 5, 40, 300});
        std::vector<uint256_t> hs; bytes flat;
        for (size_t i = 0; i < n; i++) { auto b = rnd(r, 32); hs.emplace_back(b); flat.insert(flat.end(), b.begin(), b.end()); }
        DataStream s; m.gen_hash_list(s, hs);
        bytes want; le(want, n, 4); want.insert(want.end(), flat.begin(), flat.end());
        trace = vf::fmt("hash list n=%zu", n);
        if (bytes(static_cast<const DataStream &>(s)) != want) BAD("hashlist:wire", "encoding differs");
        DataStream t(s); t << (uint16_t)0x1234;
        std::vector<uint256_t> got{uint256_t()};
        m.parse_hash_list(t, got);
        if (got.size() != n) BAD("hashlist:count", "got %zu", got.size());
        for (size_t i = 0; i < n; i++) if (!(got[i] == hs[i]) || got[i].is_null()) BAD("hashlist:value", "element %zu", i);
        if (t.size() != 2) BAD("hashlist:consumed", "left %zu bytes", t.size());
        // truncated / hostile
        bytes w = want;
        switch (r.below(3)) {
            case 0: if (!n) continue; w.resize(r.below(w.size())); break;
            case 1: { uint32_t big = r.pick(std::vector<uint32_t>{0xffffffffu, 0x80000000u, 0x08000000u, 0x7ffffffu, (uint32_t)n + 1}); memcpy(w.data(), &big, 4); break; }
            case 2: { uint32_t big = n + 1 + r.below(100000000); memcpy(w.data(), &big, 4); break; }
        }
        bool threw = false; std::vector<uint256_t> g2;
        try { DataStream x(w); m.parse_hash_list(x, g2); } catch (std::ios_base::failure &) { threw = true; }
        catch (std::bad_alloc &) { BAD("hashlist:memory", "hostile list exhausted memory"); }
        if (!threw) BAD("hashlist:hostile-accepted", "truncated/hostile list accepted");
        if (g2.capacity() * 32 > w.size() * 8 + 4096) BAD("hashlist:memory", "%zu entries allocated for %zu bytes", g2.capacity(), w.size());
        vf::stat("hostile_lists"); vf::sig(vf::hash(w.data(), w.size()));
    }
    vf::eval();
}

// ------------------------------------------------------------------ bits, blobs
template<typename T> static void bits_one(Rng &r) {
    using B = _Bits<T>;
    size_t nb = r.pick(std::vector<size_t>{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, (size_t)r.range(1, 300)});
    bytes src = rnd(r, nb);
    if (r.chance(1, 4)) for (auto &x: src) x = 0xff;
    if (r.chance(1, 6)) for (auto &x: src) x = 0x80;
    trace = vf::fmt("bits T=%zu bytes=%s", sizeof(T), hexs(src).c_str());
    std::vector<bool> m(nb * 8);
    for (size_t i = 0; i < m.size(); i++) m[i] = src[i / 8] >> (i % 8) & 1;
    B b = r.chance(1, 2) ? B(src) : B(src.data(), src.size());
    auto check = [&](const B &x, const std::vector<bool> &e, const char *w) {
        if (x.size() != e.size()) { vf::violation("bits:size", vf::fmt("%s: size %u, expected %zu ", w, x.size(), e.size()) + trace); return false; }
        for (size_t i = 0; i < e.size(); i++) if (x.get(i) != e[i] || x[i] != e[i]) { vf::violation("bits:value", vf::fmt("%s: bit %zu is %d ", w, i, x.get(i)) + trace); return false; }
        return true;
    };
    if (!check(b, m, "loaded")) return;
    bool fromsize = r.chance(1, 3);
    if (fromsize) { uint32_t n = r.range(1, 700); B z(n); z.clear(); std::vector<bool> mz(n, false); if (!check(z, mz, "cleared")) return; 
        for (int k = 0; k < 30; k++) { size_t i = r.below(n); switch (r.below(3)) { case 0: z.set(i); mz[i] = true; break; case 1: z.unset(i); mz[i] = false; break; default: z.flip(i); mz[i] = !mz[i]; } if (!check(z, mz, "op")) return; }
        DataStream s; z.serialize(s); s << (uint8_t)9; B q; q.unserialize(s); if (!check(q, mz, "round trip (any length)")) return; if (s.size() != 1) BAD("bits:consumed", "left %zu", s.size()); }
    B keep(b); auto mk = m;
    for (int k = 0; k < 40; k++) {
        size_t i = r.below(m.size());
        switch (r.below(3)) { case 0: b.set(i); m[i] = true; break; case 1: b.unset(i); m[i] = false; break; default: b.flip(i); m[i] = !m[i]; }
        if (!check(b, m, "after op")) return;
        vf::stat("bit_ops");
    }
    if (!check(keep, mk, "copy after changes of the original")) return;
    DataStream s; b.serialize(s); bytes enc = static_cast<const DataStream &>(s);
    bytes be = b; if (be != enc) BAD("bits:convert", "byte conversion differs from serialization");
    s << (uint32_t)77;
    B q(src); q.unserialize(s);
    if (!check(q, m, "round trip")) return;
    if (s.size() != 4) BAD("bits:consumed", "left %zu bytes", s.size());
    // truncated and hostile encodings
    bytes w = enc;
    switch (r.below(3)) { case 0: w.resize(r.below(w.size())); break;
        case 1: { uint32_t big = r.pick(std::vector<uint32_t>{0xffffffffu, 0xffffffc1u, 0xffffffc0u, 0x80000000u, 0xfffffff0u, 0x10000000u}); memcpy(w.data(), &big, 4); break; }
        case 2: { uint32_t big = m.size() + 64 + r.below(1 << 20); memcpy(w.data(), &big, 4); break; } }
    bool threw = false;
    B h;
    try { DataStream x(w); h.unserialize(x); } catch (std::ios_base::failure &) { threw = true; } catch (std::bad_alloc &) { BAD("bits:memory", "hostile encoding exhausted memory"); }
    if (!threw) BAD("bits:hostile-accepted", "truncated/hostile encoding %s accepted as %u bits", hexs(w).substr(0, 16).c_str(), h.size());
    vf::stat("hostile_bits");
    B nul; if (!nul.is_null() || nul.size() != 0) BAD("bits:null", "default vector has %u bits", nul.size());
    DataStream ns; nul.serialize(ns); B nq; nq.unserialize(ns); if (nq.size() != 0 || ns.size()) BAD("bits:null", "null round trip gives %u bits", nq.size());
    vf::sig(vf::hash(src.data(), src.size()));
}
template<size_t N> static void blob_one(Rng &r) {
    using B = Blob<N>;
    const size_t L = N / 8;
    bytes a = rnd(r, L), b = r.chance(1, 2) ? a : rnd(r, L);
    if (r.chance(1, 8)) a.assign(L, r.pick(std::vector<int>{0, 0xff}));      // loaded, whatever the bytes
    if (r.chance(1, 2)) { b = a; b[r.below(L)] ^= 1 << r.below(8); }
    trace = vf::fmt("blob%zu a=%s b=%s", N, hexs(a).c_str(), hexs(b).c_str());
    B x(a), y(b.data());
    bytes xa = x; if (xa != a || x.to_bytes() != a || x.to_hex() != hexs(a)) BAD("blob:bytes", "bytes differ");
    if ((x == y) != (a == b) || (x != y) != (a != b)) BAD("blob:eq", "equality");
    bytes ra(a.rbegin(), a.rend()), rb(b.rbegin(), b.rend());   // ordered as little-endian numbers
    if ((x < y) != (ra < rb) || (y < x) != (rb < ra)) BAD("blob:order", "ordering");
    B c(x), d; d = x; if (!(c == x) || !(d == x) || c.is_null()) BAD("blob:copy", "copy");
    c.load(b.data()); if (!(x == B(a)) || !(c == y)) BAD("blob:copy", "copies are not independent");
    DataStream s; s << x << y << (uint8_t)1; if (s.size() != 2 * L + 1) BAD("blob:size", "serialized size");
    B u, v; s >> u >> v; if (!(u == x) || !(v == y) || u.is_null() || s.size() != 1) BAD("blob:roundtrip", "round trip");
    B z; if (!z.is_null()) BAD("blob:null", "default is not null"); B z2(z); if (!z2.is_null()) BAD("blob:null", "copy of null"); z2 = x; if (z2.is_null()) BAD("blob:null", "assigned"); x = z; if (!x.is_null()) BAD("blob:null", "assigned null");
    bytes zb = z; if (zb != bytes(L, 0)) BAD("blob:null", "null serializes to zeros");
    B f; f.from_bytes(a); if (bytes(f) != a) BAD("blob:from", "from_bytes"); B g; g.from_hex(hexs(a)); if (bytes(g) != a) BAD("blob:from", "from_hex");
    for (size_t bad: {L - 1, L + 1, (size_t)0}) { bool threw = false; try { B e(bytes(bad, 1)); } catch (std::invalid_argument &) { threw = true; } if (!threw) BAD("blob:size-unchecked", "accepted %zu bytes", bad); }
    if (f.is_null() || g.is_null()) BAD("blob:null", "loaded blob is null");
    bool threw = false; try { DataStream t(bytes(r.below(L), 3)); B e; t >> e; } catch (std::ios_base::failure &) { threw = true; } if (!threw) BAD("blob:truncated-accepted", "truncated");
    vf::stat("blob_pairs"); vf::sig(vf::hash(trace));
}
static void bits_case(uint64_t seed) {
    Rng r(seed);
    for (int i = 0; i < 6 && !vf::violated(); i++) {
        switch (r.below(3)) { case 0: bits_one<uint64_t>(r); break; case 1: bits_one<uint32_t>(r); break; default: bits_one<uint64_t>(r); }
        if (vf::violated()) return;
        switch (r.below(3)) { case 0: blob_one<256>(r); break; case 1: blob_one<64>(r); break; default: blob_one<1024>(r); }
        if (vf::violated()) return;
        // the hash functor distinguishes and agrees
        bytes a = rnd(r, 32); uint256_t x(a), y(a); if (std::hash<uint256_t>()(x) != std::hash<uint256_t>()(y)) BAD("blob:hash", "equal blobs hash differently");
    }
    vf::eval(); vf::sample(trace.substr(0, 200));
}

// ------------------------------------------------------------------ segmented buffers
static void seg_case(uint64_t seed) {
    Rng r(seed);
    trace.clear();
    SegBuffer b; std::deque<uint8_t> m;
    std::list<size_t> segs;                    // remaining length of each segment, as the model sees it
    int nops = r.range(5, 120); bool blanks = r.chance(1, 2);
    uint8_t ctr = 0;
    for (int k = 0; k < nops && !vf::violated(); k++) {
        switch (r.below(10)) {
            case 0: case 1: case 2: { bytes d(blanks && r.chance(1, 6) ? 0 : r.range(1, r.chance(1, 8) ? 5000 : 30)); for (auto &x: d) x = ctr++; m.insert(m.end(), d.begin(), d.end()); segs.push_back(d.size()); tr(vf::fmt("push%zu", d.size())); b.push(std::move(d)); break; }
            case 3: { bytes d(blanks && r.chance(1, 6) ? 0 : r.range(1, 20)); for (auto &x: d) x = ctr++; m.insert(m.begin(), d.begin(), d.end()); segs.push_front(d.size()); tr(vf::fmt("rewind%zu", d.size())); b.rewind(std::move(d)); break; }
            case 4: case 5: case 6: { size_t n = r.pick(std::vector<size_t>{0, 1, m.size(), m.size() + 5, m.size() / 2, r.below(40)}); tr(vf::fmt("pop%zu", n));
                size_t avail = std::min(n, m.size()); auto d = b.pop(n);
                if (d.size() != avail) BAD("seg:pop-length", "pop(%zu) with %zu available gave %zu", n, m.size(), d.size());
                for (size_t i = 0; i < avail; i++) { if (d[i] != m.front()) BAD("seg:pop-content", "byte %zu of pop(%zu)", i, n); m.pop_front(); }
                break; }
            case 7: if (!b.empty()) { tr("move_pop"); auto d = b.move_pop();
                    if (d.size() > m.size()) BAD("seg:move_pop-length", "%zu bytes, only %zu left", d.size(), m.size());
                    for (size_t i = 0; i < d.size(); i++) { if (d[i] != m.front()) BAD("seg:move_pop-content", "byte %zu", i); m.pop_front(); } 
                    if (!blanks && d.empty()) BAD("seg:move_pop-empty", "an empty segment that nobody put in");
                    if (d.empty() && !m.empty() && b.empty()) BAD("seg:lost", "buffer empty with %zu bytes left", m.size()); } break;
            case 8: { SegBuffer c(b); auto x = c.pop(m.size() + 10); if (x != bytes(m.begin(), m.end())) BAD("seg:copy", "copy content"); if (b.size() != m.size()) BAD("seg:copy-alias", "copy is not independent"); SegBuffer d; d = b; SegBuffer e(std::move(d)); if (d.size() != 0) BAD("seg:moved-from", "size %zu", d.size()); b = std::move(e); tr("copy/move"); break; }
            case 9: { SegBuffer c; bytes d(3, 1); c.push(std::move(d)); c.swap(b); if (c.size() != m.size() || b.size() != 3) BAD("seg:swap", "swap"); c.swap(b); if (r.chance(1, 20)) { b.clear(); m.clear(); tr("clear"); } break; }
        }
        if (b.size() != m.size()) BAD("seg:size", "size %zu, expected %zu", b.size(), m.size());
        if (!blanks && b.empty() != m.empty()) BAD("seg:empty", "empty() is %d with %zu bytes", b.empty(), m.size());
        if (!m.empty() && b.empty()) BAD("seg:empty", "empty() with %zu bytes", m.size());
        vf::stat("operations");
    }
    auto rest = b.pop(m.size() + 1); if (rest != bytes(m.begin(), m.end())) BAD("seg:final", "final content differs (%zu vs %zu)", rest.size(), m.size());
    vf::eval(); vf::sig(vf::hash(trace)); vf::sample(trace.substr(0, 300));
}
// the write buffer used by connections: whole segments, one consumer, put back at the front
static void wbuf_case(uint64_t seed) {
    Rng r(seed);
    trace.clear();
    MPSCWriteBuffer w; std::deque<bytes> m; uint8_t ctr = 1;
    for (int k = 0; k < 200 && !vf::violated(); k++) {
        if (r.chance(1, 2)) { bytes d(r.range(1, 40)); for (auto &x: d) x = ctr++; m.push_back(d); if (!w.push(std::move(d), true)) BAD("wbuf:refused", "unbounded push"); tr("push"); }
        else if (!m.empty()) {
            auto d = w.move_pop(); tr("pop");
            if (d != m.front()) BAD("wbuf:content", "segment of %zu bytes, expected %zu", d.size(), m.front().size());
            if (r.chance(1, 3) && d.size() > 1) { d.erase(d.begin(), d.begin() + r.range(1, d.size() - 1)); m.front() = d; w.rewind(std::move(d)); tr("rewind"); }
            else m.pop_front();
        }
    }
    while (!m.empty()) { auto d = w.move_pop(); if (d != m.front()) BAD("wbuf:content", "drain"); m.pop_front(); }
    auto d = w.move_pop(); if (d.size()) BAD("wbuf:phantom", "empty buffer returned %zu bytes", d.size());
    vf::eval(); vf::sig(vf::hash(trace));
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
    vf::watchdog(60, []() { return "data: " + trace; }, "data:stall");
    const std::string &mo = vf::args.mode;
    for (long i = 0; i < vf::args.n && !vf::violated(); i++) {
        uint64_t s = vf::args.seed * 1000003 + i;
        try {
            if (mo == "stream") stream_case(s); else if (mo == "hex") hex_case(s); else if (mo == "cstream") cstream_case(s);
            else if (mo == "msg") msg_case(s); else if (mo == "hashlist") hashlist_case(s); else if (mo == "bits") bits_case(s);
            else if (mo == "seg") seg_case(s); else if (mo == "wbuf") wbuf_case(s); else return 3;
        } catch (std::exception &e) { vf::violation(mo + ":unexpected-exception", std::string(e.what()) + " ops: " + trace); }
    }
    vf::finish();
}
