// Seam: the file system under /sim/. Files live in memory; every operation may meet a fault.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace sim { namespace disk {
    using bytes = std::vector<std::uint8_t>;
    struct fault_config {        // permille per operation, 0 = never
        unsigned open_fail{0};   // ENOENT/EACCES/EMFILE/ENOSPC/EIO
        unsigned read_short{0}, read_eintr{0}, read_eio{0};
        unsigned write_short{0}, write_eintr{0}, write_eio{0}, write_enospc{0};
        unsigned seek_fail{0}, stat_fail{0}, close_fail{0};
        std::int64_t capacity{-1}; // total bytes on the disk, -1 = unlimited
    };
    struct fault_hits {
        std::uint64_t open_fail{0}, read_short{0}, read_eintr{0}, read_eio{0}, write_short{0}, write_eintr{0},
            write_eio{0}, write_enospc{0}, seek_fail{0}, stat_fail{0}, close_fail{0};
        std::uint64_t hard() const { return open_fail + read_eio + write_eio + write_enospc + seek_fail + stat_fail + close_fail; }
        std::uint64_t hard_read() const { return open_fail + read_eio + seek_fail + stat_fail; }
        std::uint64_t hard_write() const { return open_fail + write_eio + write_enospc + seek_fail + stat_fail + close_fail; }
        std::uint64_t soft() const { return read_short + read_eintr + write_short + write_eintr; }
    };
    extern fault_config config;
    extern fault_hits hits;
    void reset();
    void put(const std::string& path, const bytes& data);
    void make_pipe(const std::string& path); // opened from now on, it cannot be positioned
    void stretch(const std::string& path, std::int64_t length, const bytes& tail); // silence between its bytes and `tail`
    bool rename(const std::string& from, const std::string& to);
    bool exists(const std::string& path);
    bytes get(const std::string& path);
    bytes* ref(const std::string& path); // null if absent
    void remove(const std::string& path);
    std::map<std::string, bytes> snapshot();
    void restore(const std::map<std::string, bytes>& s);
    // descriptors
    std::uint64_t open_fds();
    std::uint64_t opened();
    std::uint64_t closed();
    std::uint64_t bad_fd_uses(); // operations on descriptors that are not open
    std::uint64_t bad_fd_closes();
    std::uint64_t ops();         // operations so far
    // Called before/after every operation that changes a file. `partial` allows to see a torn write.
    extern std::function<void(const char* op, const std::string& path)> after_mutation;
    extern std::function<void(const std::string& path, std::int64_t offset, const std::uint8_t* p, std::size_t n)> before_write;
    extern void (*on_op)(); // called at every operation: the schedule may switch threads there
    extern bool log_ops; // event() per operation (default on)
    extern bool dead;    // after a crash: all operations fail, nothing changes any more
}} // namespace sim::disk
