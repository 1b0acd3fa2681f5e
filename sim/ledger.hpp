// Memory resources with a ledger: every block, its size, alignment and owner.
#pragma once
#include "sim.hpp"
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>

namespace sim
{
class resource
{
public:
    explicit resource(int group = 0) : _group(group) {}
    // Equal to another one: blocks of either may be returned to either.
    explicit resource(resource& equal_to) : _group(equal_to._group), _shared(&equal_to._blocks) {}
    resource(const resource&) = delete;

    void* allocate(std::size_t bytes, std::size_t align)
    {
        untracked u;
        ++count;
        if (fail_at && (count == fail_at || (fail_all_after && count > fail_at)))
        {
            ++failed;
            fault("resource-alloc-failure");
            throw std::bad_alloc();
        }
        if (align == 0 || (align & (align - 1)))
            violate("resource-bad-align", "alignment %zu requested", align);
        // Never a null pointer, exact size: the sanitizer sees every overrun.
        auto p = align > 16 ? std::aligned_alloc(align, (bytes + align - 1) / align * align)
                            : std::malloc(bytes ? bytes : 1);
        if (bytes == 0)
            std::memset(p, 0xEE, 1);
        blocks()[p] = {bytes, align};
        ev("res%d alloc %zu/%zu", _group, bytes, align);
        return p;
    }
    void deallocate(void* p, std::size_t bytes, std::size_t align)
    {
        untracked u;
        auto&     bs = blocks();
        auto      it = bs.find(p);
        if (it == bs.end())
            violate("resource-foreign-free",
                    "a block (%zu bytes) is returned to a resource it is not from, or twice",
                    bytes);
        if (it->second.first != bytes || it->second.second != align)
            violate("resource-size-mismatch", "block of %zu/%zu returned as %zu/%zu",
                    it->second.first, it->second.second, bytes, align);
        bs.erase(it);
        std::memset(p, 0xDD, bytes);
        std::free(p);
        ev("res%d free %zu", _group, bytes);
    }
    friend bool operator==(const resource& a, const resource& b) noexcept
    {
        return a._group == b._group;
    }
    friend bool operator!=(const resource& a, const resource& b) noexcept
    {
        return !(a == b);
    }

    using block_map = std::map<void*, std::pair<std::size_t, std::size_t>>;
    block_map&  blocks() { return _shared ? *_shared : _blocks; }
    std::size_t live() { return blocks().size(); }
    bool        owns(const void* p) { return blocks().count(const_cast<void*>(p)) != 0; }
    std::size_t block_size(const void* p) { return blocks().at(const_cast<void*>(p)).first; }
    int         group() const { return _group; }
    // Ends the scenario: everything must have been returned.
    void expect_empty(const char* when)
    {
        if (!_blocks.empty())
            violate("resource-leak", "%zu block(s) (first of %zu bytes) not returned %s",
                    _blocks.size(), _blocks.begin()->second.first, when);
    }
    void drop_all() // forget, free
    {
        for (auto& b : _blocks)
            std::free(b.first);
        _blocks.clear();
    }
    ~resource() { drop_all(); }

    std::uint64_t count = 0, fail_at = 0, failed = 0;
    bool          fail_all_after = false;

private:
    int        _group;
    block_map* _shared = nullptr;
    block_map  _blocks;
};
} // namespace sim
