// Shared by C19/C20: a small device tree with registers and memories whose complete state can be captured.
#pragma once
#include "sp.hpp"
#include "sparta/functional/Register.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/serialization/checkpoint/FastCheckpointer.hpp"
#include <map>
#include <memory>
#include <set>

namespace ck {
using namespace sparta; using namespace sparta::memory;
using State = std::vector<std::vector<uint8_t>>;
inline Register::Definition* defs() {
    static Register::Definition d[] = {
        { 0, "rega", Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "reg", 4,  {}, {}, nullptr, Register::INVALID_ID, 0, nullptr, 0, 0 },
        { 1, "regb", Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "reg", 8,  {}, {}, nullptr, Register::INVALID_ID, 0, nullptr, 0, 0 },
        { 2, "regc", Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "reg", 64, {}, {}, nullptr, Register::INVALID_ID, 0, nullptr, 0, 0 },
        { 3, "regd", Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "reg", 512, {}, {}, nullptr, Register::INVALID_ID, 0, nullptr, 0, 0 },
        Register::DEFINITION_END };
    return d;
}
struct Device {
    pbt::Case& c; Scheduler sched; RootTreeNode rtn{"top", "checkpointed"};
    std::vector<std::unique_ptr<TreeNode>> nodes; std::vector<std::unique_ptr<RegisterSet>> sets; std::vector<std::unique_ptr<MemoryObject>> mems;
    std::vector<uint64_t> fills; size_t changes = 0, resets = 0; bool td_done = false;
    Device(pbt::Case& cc, int nsets, int nmems) : c(cc) {
        const int n = std::max(1, std::max(nsets, nmems));
        for (int i = 0; i < n; ++i) nodes.emplace_back(new TreeNode(i && c.flip() ? nodes[i - 1].get() : static_cast<TreeNode*>(&rtn), "dev" + std::string(1, char('a' + i)), "device"));
        for (int i = 0; i < nsets; ++i) sets.emplace_back(RegisterSet::create(nodes[i].get(), defs()));
        for (int i = 0; i < nmems; ++i) { const addr_t bs = 1ull << c.range(2, 6), nb = c.range(1, 8); fills.push_back(c.bits(8)); mems.emplace_back(new MemoryObject(nodes[i].get(), bs, bs * nb, fills.back(), 1)); }
    }
    // a second tree with exactly the structure of another one
    Device(pbt::Case& cc, const Device& o, bool) : c(cc) {
        for (size_t i = 0; i < o.nodes.size(); ++i) { TreeNode* par = &rtn; for (size_t j = 0; j < i; ++j) if (o.nodes[i]->getParent() == o.nodes[j].get()) par = nodes[j].get(); nodes.emplace_back(new TreeNode(par, o.nodes[i]->getName(), "device")); }
        for (size_t i = 0; i < o.sets.size(); ++i) sets.emplace_back(RegisterSet::create(nodes[i].get(), defs()));
        for (size_t i = 0; i < o.mems.size(); ++i) mems.emplace_back(new MemoryObject(nodes[i].get(), o.mems[i]->getBlockSize(), o.mems[i]->getSize(), o.fills[i], 1));
    }
    ~Device() { try { rtn.enterTeardown(); } catch (...) {} }
    void finalize(bool s = true) { rtn.enterConfiguring(); rtn.enterFinalized(); if (s) sched.finalize(); }
    State capture() {
        State s; for (auto& r : sets) for (auto* reg : r->getRegisters()) { std::vector<uint8_t> b(reg->getNumBytes()); reg->peek(b.data(), b.size(), 0); s.push_back(b); }
        for (auto& m : mems) { std::vector<uint8_t> b(m->getSize()); for (addr_t a = 0; a < b.size(); a += m->getBlockSize()) m->read(a, m->getBlockSize(), b.data() + a); s.push_back(b); }
        return s;
    }
    void change() {
        const size_t n = c.small(0, 5);
        for (size_t k = 0; k < n; ++k) {
            const size_t i = c.range(0, sets.size() + mems.size() - 1);
            if (i < sets.size()) {
                auto* reg = sets[i]->getRegisters().at(c.range(0, 3)); const uint8_t v = uint8_t(c.bits(8)); const uint32_t at = uint32_t(c.range(0, reg->getNumBytes() - 1)); LOG(c, "  set " << i << " " << reg->getName() << "[" << at << "] = " << int(v));
                if (c.chance(1, 25)) { LOG(c, "  (register reset)"); reg->reset(); } else if (c.flip()) reg->write<uint8_t>(v, at); else { uint8_t b = v; reg->poke(&b, 1, at); }
            } else {
                auto& m = *mems[i - sets.size()];
                if (c.chance(1, 10)) { LOG(c, "  memory " << i - sets.size() << " reset"); m.reset(); ++resets; }
                else { const addr_t a = c.range(0, m.getSize() - 1), len = c.range(1, m.getBlockSize() - a % m.getBlockSize()); std::vector<uint8_t> b(len); for (auto& x : b) x = uint8_t(c.bits(8)); LOG(c, "  memory " << i - sets.size() << " " << a << "+" << len); m.write(a, len, b.data()); }
            }
            ++changes;
        }
    }
    void advance() { const auto n = c.small(0, 20); if (n) { LOG(c, "  run " << n); sched.run(n, true, false); } }
    void same(const State& want, const std::string& what) {
        const State got = capture(); REQUIRE_EQ(got.size(), want.size(), "pieces of state");
        for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) { size_t j = 0; while (got[i][j] == want[i][j]) ++j; REQUIRE(false, what << ": " << (i < sets.size() * 4 ? "register " : "memory ") << i << " byte " << j << " is " << int(got[i][j]) << " instead of " << int(want[i][j])); }
    }
};
}
