// C20: persistent checkpoints against full copies of the state, and the FILE stream adapters they are used with against the bytes.
#include "ckpt.hpp"
#include "sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp"
#include "sparta/serialization/checkpoint/FILEStream.hpp"
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace ck;
using namespace sparta::serialization::checkpoint;
using Id = FastCheckpointer::chkpt_id_t;

namespace {
struct Scratch { std::string dir; Scratch() { char t[] = "/tmp/verif-c20-XXXXXX"; dir = mkdtemp(t); } ~Scratch() { for (auto& f : files) ::unlink((dir + "/" + f).c_str()); ::rmdir(dir.c_str()); } std::set<std::string> files; std::string path(const std::string& f) { files.insert(f); return dir + "/" + f; } };
Scratch& scratch() { static Scratch s; return s; }
std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return "<missing>"; std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
void spill(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

struct Saved { std::string bytes; State st; };
struct Side {
    Device d; PersistentFastCheckpointer pc; std::map<Id, State> all; bool first = true; int nest = 0;
    Side(pbt::Case& c) : d(c, int(c.range(0, 2)), int(c.range(1, 2))), pc(d.rtn, c.flip() ? &d.sched : nullptr) {}
    Side(pbt::Case& c, Side& o) : d(c, o.d, true), pc(d.rtn, c.flip() ? &d.sched : nullptr) {}
    // the first restore makes the state before it the head
    struct Heads { Side& s; State before; Heads(Side& x) : s(x), before(x.d.capture()) { ++s.nest; } ~Heads() { if (--s.nest == 0 && s.first && s.pc.getNumCheckpoints()) { s.all[s.pc.getHeadID()] = before; s.first = false; } } };
    void created(Id id) { if (first) { all[pc.getHeadID()] = d.capture(); first = false; } all[id] = d.capture(); }
};
// is the prefix of this length a complete checkpoint?
void save(pbt::Case& c, Side& s, std::vector<Saved>& saved) {
    const State st = s.d.capture(); std::string bytes; Id id;
    switch (c.weighted({6, 2, 1})) {
    case 0: { std::stringstream ss; id = s.pc.save(ss); bytes = ss.str(); LOG(c, "save to a stream: " << bytes.size() << " bytes, checkpoint " << id); break; }
    case 1: { const auto p = scratch().path("a.chk"); if (c.flip()) spill(p, std::string(c.range(0, 5000), 'x')); id = s.pc.save(p); bytes = slurp(p); LOG(c, "save to a file: " << bytes.size() << " bytes, checkpoint " << id); break; }
    default: { const auto p = scratch().path("b.chk"); FILE* f = fopen(p.c_str(), "wb"); REQUIRE(f, "scratch file"); { FILEOstream fos(f); id = s.pc.save(fos.getStream()); if (c.flip()) fos.getStream().flush(); } fclose(f); bytes = slurp(p); LOG(c, "save through a FILE: " << bytes.size() << " bytes, checkpoint " << id); }
    }
    s.d.same(st, "saving changed the state"); s.created(id); auto* p = s.pc.findCheckpoint(id); REQUIRE(p && p->isSnapshot(), "the checkpoint of a save is not a snapshot"); REQUIRE_EQ(s.pc.getCurrentID(), id, "current after a save");
    saved.push_back({bytes, st});
}
void restore(pbt::Case& c, Side& s, const Saved& v) {
    Side::Heads heads{s};
    switch (c.weighted({6, 2, 1})) {
    case 0: { LOG(c, "restore from a stream"); std::stringstream ss(v.bytes); s.pc.restore(ss); break; }
    case 1: { LOG(c, "restore from a file"); const auto p = scratch().path("c.chk"); spill(p, v.bytes); s.pc.restore(p); break; }
    default: { LOG(c, "restore through a FILE"); const auto p = scratch().path("d.chk"); spill(p, v.bytes); FILE* f = fopen(p.c_str(), "rb"); REQUIRE(f, "scratch file"); { FILEIstream fis(f); s.pc.restore(fis.getStream()); } fclose(f); }
    }
    s.d.same(v.st, "after a restore");
}
}

PROPERTY(checkpoint_files, 15000, 100000) {
    Side a(c), b(c, a); a.d.finalize(); b.d.finalize(); std::vector<Saved> saved; size_t restores = 0, cross = 0, loads = 0, refused = 0;
    const size_t ops = c.range(5, 40);
    for (size_t o = 0; o < ops; ++o) {
        Side& s = c.chance(3, 5) ? a : b; LOG(c, (&s == &a ? "tree a:" : "tree b:"));
        switch (c.weighted({20, 14, 14, 10, 10, 3, 3, 2})) {
        case 0: s.d.change(); if (c.flip()) s.d.advance(); break;
        case 1: save(c, s, saved); break;
        case 2: { if (saved.empty()) break; restore(c, s, c.pick(saved)); ++restores; if (&s == &b) ++cross; break; }
        case 3: { const bool force = c.chance(1, 6); const Id id = s.pc.createCheckpoint(force); LOG(c, "checkpoint " << id); s.created(id); break; }
        case 4: { if (s.all.empty()) break; std::vector<Id> v; for (auto& p : s.all) v.push_back(p.first); const Id id = c.pick(v); LOG(c, "load " << id); s.pc.loadCheckpoint(id); s.d.same(s.all[id], "after loading checkpoint " + std::to_string(id)); ++loads; break; }
        case 5: { // two checkpoints back to back in one stream
            if (saved.size() < 2) break; const Saved x = c.pick(saved), y = c.pick(saved); std::stringstream ss(x.bytes + y.bytes); Side::Heads heads{s}; LOG(c, "restore two consecutive checkpoints of one stream"); s.pc.restore(ss); s.d.same(x.st, "after the first of two"); s.pc.restore(ss); s.d.same(y.st, "after the second of two"); ++restores; break; }
        case 6: { // incomplete data is refused
            if (saved.empty() || !c.chance(1, 2)) break; Side::Heads heads{s}; const Saved v = c.pick(saved); const size_t n = c.chance(1, 4) ? v.bytes.size() - 1 : c.range(0, v.bytes.size() - 1); LOG(c, "restore of the first " << n << " of " << v.bytes.size() << " bytes refused");
            if (c.flip()) { std::stringstream ss(v.bytes.substr(0, n)); REQUIRE_THROWS(s.pc.restore(ss), "restoring incomplete data"); } else { const auto p = scratch().path("e.chk"); spill(p, v.bytes.substr(0, n)); REQUIRE_THROWS(s.pc.restore(p), "restoring an incomplete file"); }
            restore(c, s, v); ++refused; break; }
        default: { const State st = s.d.capture(); Side::Heads heads{s};
            switch (c.range(0, 2)) {
            case 0: LOG(c, "restore of a missing file refused"); REQUIRE_THROWS(s.pc.restore(scratch().dir + "/missing"), "restoring a missing file"); s.d.same(st, "after a refused restore"); break;
            case 1: { LOG(c, "save to an impossible file refused"); REQUIRE_THROWS(s.pc.save(scratch().dir + "/missing/file"), "saving to an impossible file"); s.d.same(st, "after a refused save"); const auto v = s.pc.getCheckpoints(); REQUIRE(!v.empty(), "no checkpoints"); s.created(v.back()); break; }
            default: if (saved.empty()) break; const Saved v = c.pick(saved); if (v.bytes.empty()) break; std::string bad = v.bytes; bad[0] = 'Q'; std::stringstream ss(bad); LOG(c, "restore of data that is no checkpoint refused"); REQUIRE_THROWS(s.pc.restore(ss), "restoring other data"); restore(c, s, v); }
            ++refused; }
        }
    }
    if (!saved.empty()) for (size_t i = 0; i < saved.size(); ++i) { LOG(c, "finally saved " << i); restore(c, c.flip() ? a : b, saved[i]); ++restores; }
    for (Side* s : {&a, &b}) for (auto& p : s->all) { s->pc.loadCheckpoint(p.first); s->d.same(p.second, "finally after loading checkpoint " + std::to_string(p.first)); }
    c.nontrivial(saved.size() >= 2 && restores >= 3 && cross && a.d.changes + b.d.changes >= 3 && (loads || refused));
}

// the storage used for text streams: what ArchData writes is what it reads
PROPERTY(file_streams, 20000, 400000) {
    const auto p = scratch().path("f.bin"); std::string want; const size_t pieces = c.range(1, 12); size_t big = 0; { FILE* f = fopen(p.c_str(), "wb"); REQUIRE(f, "scratch file"); if (c.flip()) setvbuf(f, nullptr, _IONBF, 0);
        { FILEOstream fos(f); std::ostream& o = fos.getStream();
            for (size_t i = 0; i < pieces; ++i) switch (c.range(0, 3)) {
                case 0: { const size_t n = c.small(0, 40) * (c.chance(1, 4) ? 40 : 1); LOG(c, "put " << n << " characters"); for (size_t k = 0; k < n; ++k) { const char x = char(c.chance(1, 4) ? 0xff : k * 7 + i); o.put(x); want += x; } big += n > 1000; break; }
                case 1: { const size_t n = c.small(0, 60) * (c.chance(1, 3) ? 50 : 1); std::string s(n, 0); for (size_t k = 0; k < n; ++k) s[k] = char(k * 31 + i * 5 + (k >> 8)); LOG(c, "write " << n << " bytes"); o.write(s.data(), std::streamsize(n)); want += s; big += n > 1000; break; }
                case 2: { const auto v = c.bits(40); LOG(c, "<< " << v); o << v << ' '; want += std::to_string(v) + " "; break; }
                default: LOG(c, "flush"); o.flush(); REQUIRE(o.good(), "stream failed on a flush"); }
            REQUIRE(o.good(), "stream failed"); o.flush(); REQUIRE(o.good(), "stream failed on the last flush"); if (c.flip()) { fflush(f); REQUIRE(slurp(p) == want, "after a flush the file has " << slurp(p).size() << " bytes instead of " << want.size()); } }
        fclose(f); }
    const std::string got = slurp(p); { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; REQUIRE(got == want, "the file has " << got.size() << " bytes instead of " << want.size() << ", the first difference at " << i); }
    FILE* f = fopen(p.c_str(), "rb"); { FILEIstream fis(f); std::istream& in = fis.getStream(); size_t pos = 0; size_t guard = 0;
        while (pos < want.size() && guard++ < 200) switch (c.range(0, 3)) {
            case 0: { const size_t n = c.small(1, 40); for (size_t k = 0; k < n && pos < want.size(); ++k) { const int x = in.get(); REQUIRE(x == int(uint8_t(want[pos])), "character " << pos << " read as " << x << " instead of " << int(uint8_t(want[pos]))); ++pos; } break; }
            case 1: { const size_t n = std::min(want.size() - pos, c.small(1, 60) * (c.chance(1, 3) ? 50 : 1)); std::string s(n, 0); in.read(&s[0], std::streamsize(n)); REQUIRE(in.good() && size_t(in.gcount()) == n, "read of " << n << " bytes at " << pos << " got " << in.gcount()); REQUIRE(s == want.substr(pos, n), "bytes at " << pos << " differ"); pos += n; break; }
            case 2: { const int x = in.peek(); REQUIRE(x == int(uint8_t(want[pos])), "character " << pos << " peeked as " << x << " instead of " << int(uint8_t(want[pos]))); break; }
            default: { const size_t n = std::min(want.size() - pos, c.small(1, 50)); in.ignore(std::streamsize(n)); REQUIRE_EQ(size_t(in.gcount()), n, "ignored"); pos += n; } }
        if (pos == want.size()) { REQUIRE(in.get() == std::char_traits<char>::eof() && in.eof(), "no end of file after the last byte"); in.clear(); char z; in.read(&z, 1); REQUIRE(in.gcount() == 0 && in.eof(), "data after the end of file"); } }
    fclose(f);
    c.nontrivial(want.size() > 1024 && big && pieces >= 3);
}

// a FILE that refuses bytes for a while: what the stream did not report as failed arrives once, in order
namespace {
struct Sink { std::string got; size_t accept = SIZE_MAX; static ssize_t write(void* ck, const char* b, size_t n) { auto* s = static_cast<Sink*>(ck); const size_t k = std::min(n, s->accept); if (k == 0 && n) { errno = ENOSPC; return 0; } s->got.append(b, k); if (s->accept != SIZE_MAX) s->accept -= k; return ssize_t(k); } };
}
PROPERTY(full_device, 5000, 100000) {
    Sink sink; cookie_io_functions_t io{nullptr, Sink::write, nullptr, nullptr}; FILE* f = fopencookie(&sink, "wb", io); REQUIRE(f, "cookie stream"); setvbuf(f, nullptr, _IONBF, 0);
    FILEOstream fos(f); std::ostream& o = fos.getStream(); std::string want; const size_t rounds = c.range(1, 6); size_t failed = 0;
    for (size_t r = 0; r < rounds; ++r) {
        const size_t n = c.small(1, 900) * (c.chance(1, 4) ? 3 : 1); const bool limited = c.flip(); const size_t take = c.range(0, n - 1); sink.accept = limited ? take : SIZE_MAX; LOG(c, "put " << n << (limited ? " on a device with room for " + std::to_string(take) : std::string()));
        for (size_t k = 0; k < n; ++k) { const char x = char(k * 7 + r); o.put(x); if (!o.good()) { ++failed; sink.accept = SIZE_MAX; o.clear(); o.put(x); REQUIRE(o.good(), "stream still failing"); } want += x; }
        o.flush(); if (!o.good()) { ++failed; REQUIRE(limited, "flush failed without a reason"); o.clear(); sink.accept = SIZE_MAX; o.flush(); }
        REQUIRE(o.good(), "stream failed"); REQUIRE(sink.got == want, "the device got " << sink.got.size() << " bytes instead of " << want.size());
    }
    fclose(f); c.nontrivial(failed > 0 && want.size() > 20);
}
