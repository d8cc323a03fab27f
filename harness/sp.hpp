// Shared fixture: a scheduler, a clock tree and a device tree, torn down in the right order even when
// a property fails in the middle.
#pragma once
#include "pbt.hpp"
#include "sparta/sparta.hpp"
#include "sparta/kernel/Scheduler.hpp"
#include "sparta/simulation/Clock.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/simulation/TreeNode.hpp"
#include "sparta/events/EventSet.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/kernel/SpartaHandler.hpp"
#include "sparta/utils/SpartaException.hpp"

namespace sp {
using Tick = sparta::Scheduler::Tick;

// calls enterTeardown on scope exit
struct Teardown {
    sparta::RootTreeNode& r;
    ~Teardown() { try { r.enterTeardown(); } catch (...) {} }
};
inline bool throws(const std::function<void()>& f) {
    try { f(); } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { return true; }
    return false;
}
inline bool throws(const std::function<void()>& f, std::string& what) {
    try { f(); } catch (const pbt::Fail&) { throw; } catch (const std::exception& e) { what = e.what(); return true; }
    return false;
}
}
