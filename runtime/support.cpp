// Stand-ins for the few symbols of the Python-binding layer the core refers to (inter-process lock files).
// The harnesses run in one process without an interpreter; locking is outside every claim.
#include <dbzero/workspace/LockFlags.hpp>
#include <dbzero/core/utils/InterProcessLock.hpp>
namespace db0 {
LockFlags::LockFlags(bool no_lock) { m_no_lock = no_lock; }
InterProcessLock::InterProcessLock(const std::string &p, LockFlags f) : m_lock_flags(f), m_lockPath(p) {}
InterProcessLock::~InterProcessLock() {}
bool InterProcessLock::isLocked() const { return true; }
void InterProcessLock::assureLocked() {}
}
