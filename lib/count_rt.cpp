// Counting allocator linked into the extension: every operator new of the
// code under test is recorded, so that the number of live blocks can be
// compared before and after a call.
#include <cstdlib>
#include <mutex>
#include <new>
#include <unordered_map>
#include <cstddef>

namespace {
template <class T> struct Raw {     // allocator that does not use operator new
    using value_type = T;
    Raw() = default;
    template <class U> Raw(const Raw<U> &) {}
    T *allocate(std::size_t n) { return static_cast<T *>(std::malloc(n * sizeof(T))); }
    void deallocate(T *p, std::size_t) { std::free(p); }
    template <class U> bool operator==(const Raw<U> &) const { return true; }
    template <class U> bool operator!=(const Raw<U> &) const { return false; }
};
using Map = std::unordered_map<void *, std::size_t, std::hash<void *>, std::equal_to<void *>,
                               Raw<std::pair<void *const, std::size_t>>>;
std::mutex &mtx() { static std::mutex *m = new (std::malloc(sizeof(std::mutex))) std::mutex; return *m; }
Map &live() { static Map *m = new (std::malloc(sizeof(Map))) Map; return *m; }
long total = 0, bytes = 0;

void *get(std::size_t n) {
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    std::lock_guard<std::mutex> g(mtx());
    live()[p] = n;
    total++;
    bytes += (long) n;
    return p;
}
void put(void *p) {
    if (!p) return;
    {
        std::lock_guard<std::mutex> g(mtx());
        auto it = live().find(p);
        if (it != live().end()) {
            bytes -= (long) it->second;
            live().erase(it);
        }
    }
    std::free(p);
}
}
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }

extern "C" {
__attribute__((visibility("default"))) long verif_live() { std::lock_guard<std::mutex> g(mtx()); return (long) live().size(); }
__attribute__((visibility("default"))) long verif_bytes() { return bytes; }
__attribute__((visibility("default"))) long verif_total() { return total; }
}
