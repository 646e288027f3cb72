#pragma once
#include <cstddef>
#include <memory>
namespace doctest { namespace util {
struct allocator_payload { size_t allocations = 0, deallocations = 0, allocated_bytes = 0, deallocated_bytes = 0; };
template <typename T> struct counting_allocator {
    using value_type = T;
    std::shared_ptr<allocator_payload> p = std::make_shared<allocator_payload>();
    counting_allocator() = default;
    counting_allocator(const counting_allocator&) = default;
    counting_allocator& operator=(const counting_allocator&) = default;
    template <typename U> counting_allocator(const counting_allocator<U>& o) : p(o.p) {}
    allocator_payload& payload() const { return *p; }
    T* allocate(size_t n) { ++p->allocations; p->allocated_bytes += n * sizeof(T); return std::allocator<T>().allocate(n); }
    void deallocate(T* x, size_t n) { ++p->deallocations; p->deallocated_bytes += n * sizeof(T); std::allocator<T>().deallocate(x, n); }
    template <typename U> bool operator==(const counting_allocator<U>& o) const { return p == o.p; }
    template <typename U> bool operator!=(const counting_allocator<U>& o) const { return p != o.p; }
};
template <> struct counting_allocator<void> {
    using value_type = void;
    std::shared_ptr<allocator_payload> p = std::make_shared<allocator_payload>();
    allocator_payload& payload() const { return *p; }
    template <typename U> counting_allocator(const counting_allocator<U>& o) : p(o.p) {}
    counting_allocator() = default;
    counting_allocator(const counting_allocator&) = default;
    counting_allocator& operator=(const counting_allocator&) = default;
};
}}
