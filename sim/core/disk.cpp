#include "disk.hpp"
#include "alloc.hpp"
#include "sim.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim { namespace disk {
    fault_config config;
    fault_hits hits;
    std::function<void(const char*, const std::string&)> after_mutation;
    std::function<void(const std::string&, std::int64_t, const std::uint8_t*, std::size_t)> before_write;
    bool log_ops = true;
    bool dead    = false;

    namespace {
        constexpr int FD_BASE = 1 << 20;
        struct inode {
            std::string path;
            bytes data;
            bool pipe{false};            // cannot be positioned
            std::int64_t length{-1};     // longer than its data: silence, then `tail` at the end
            bytes tail;
            std::int64_t size() const { return length < 0 ? static_cast<std::int64_t>(data.size()) : length; }
            void copy(std::int64_t from, std::uint8_t* to, std::size_t n) const {
                if (length < 0) {
                    std::memcpy(to, data.data() + from, n);
                    return;
                }
                const auto head = static_cast<std::int64_t>(data.size());
                const auto back = length - static_cast<std::int64_t>(tail.size());
                for (std::size_t i = 0; i < n; ++i) {
                    const auto at = from + static_cast<std::int64_t>(i);
                    to[i] = at < head ? data[static_cast<std::size_t>(at)] : at >= back ? tail[static_cast<std::size_t>(at - back)] : 0;
                }
            }
        };
        struct handle {
            std::shared_ptr<inode> node;
            std::int64_t pos{0};
            int flags{0};
        };
        std::map<std::string, std::shared_ptr<inode>> files;
        std::map<int, handle> fds;
        int next_fd = FD_BASE;
        std::uint64_t n_open = 0, n_close = 0, n_bad_use = 0, n_bad_close = 0, n_ops = 0;

        std::int64_t used() {
            std::int64_t n = 0;
            for (const auto& f : files) {
                n += static_cast<std::int64_t>(f.second->data.size());
            }
            return n;
        }
    } // namespace

    bool is_sim(const char* path) { return path && std::strncmp(path, "/sim/", 5) == 0; }
    bool is_sim(int fd) { return fd >= FD_BASE; }

    void reset() {
        alloc::exempt e;
        files.clear();
        fds.clear();
        next_fd = FD_BASE;
        n_open = n_close = n_bad_use = n_bad_close = n_ops = 0;
        config                                             = {};
        hits                                               = {};
        after_mutation                                     = nullptr;
        before_write                                       = nullptr;
        dead                                               = false;
        log_ops                                            = true;
    }
    void put(const std::string& path, const bytes& data) {
        alloc::exempt e;
        auto n      = std::make_shared<inode>();
        n->path     = path;
        n->data     = data;
        files[path] = n;
    }
    void make_pipe(const std::string& path) {
        auto it = files.find(path);
        if (it != files.end()) it->second->pipe = true;
    }
    void stretch(const std::string& path, std::int64_t length, const bytes& tail) {
        alloc::exempt e;
        auto it = files.find(path);
        if (it != files.end()) {
            it->second->length = length;
            it->second->tail   = tail;
        }
    }
    bool rename(const std::string& from, const std::string& to) {
        alloc::exempt e;
        auto it = files.find(from);
        if (it == files.end()) return false;
        const auto n = it->second;
        files.erase(it);
        n->path   = to;
        files[to] = n;
        if (after_mutation) after_mutation("rename", to);
        return true;
    }
    bool exists(const std::string& path) { return files.count(path) != 0; }
    bytes get(const std::string& path) {
        auto it = files.find(path);
        return it == files.end() ? bytes{} : it->second->data;
    }
    bytes* ref(const std::string& path) {
        auto it = files.find(path);
        return it == files.end() ? nullptr : &it->second->data;
    }
    void remove(const std::string& path) {
        alloc::exempt e;
        files.erase(path);
    }
    std::map<std::string, bytes> snapshot() {
        std::map<std::string, bytes> s;
        for (const auto& f : files) {
            s[f.first] = f.second->data;
        }
        return s;
    }
    void restore(const std::map<std::string, bytes>& s) {
        alloc::exempt e;
        files.clear();
        fds.clear();
        for (const auto& f : s) {
            put(f.first, f.second);
        }
        dead = false;
    }
    std::uint64_t open_fds() { return fds.size(); }
    std::uint64_t opened() { return n_open; }
    std::uint64_t closed() { return n_close; }
    std::uint64_t bad_fd_uses() { return n_bad_use; }
    std::uint64_t bad_fd_closes() { return n_bad_close; }
    std::uint64_t ops() { return n_ops; }
    void (*on_op)() = nullptr;

    namespace {
        bool hit(unsigned permille, std::uint64_t& counter, const char* name) {
            if (chance(permille)) {
                ++counter;
                count(name);
                nontrivial();
                event("  fault %s", name);
                return true;
            }
            return false;
        }
    } // namespace

    int do_open(const char* path, int flags) {
        alloc::exempt e;
        ++n_ops;
        if (on_op) on_op();
        const bool create = (flags & O_CREAT) != 0;
        if (dead) {
            errno = EIO;
            return -1;
        }
        if (hit(config.open_fail, hits.open_fail, "fault.open-fail")) {
            static const int errs[] = {EACCES, EMFILE, ENOENT, EIO, ENOSPC, EINTR};
            errno                   = errs[draw(create ? 6 : 4)];
            return -1;
        }
        auto it = files.find(path);
        if (it == files.end()) {
            if (!create) {
                if (log_ops) {
                    event("  open %s -> ENOENT", path);
                }
                errno = ENOENT;
                return -1;
            }
            auto n      = std::make_shared<inode>();
            n->path     = path;
            files[path] = n;
            it          = files.find(path);
        } else if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) {
            it->second->data.clear();
        }
        const int fd = next_fd++;
        fds[fd]      = {it->second, (flags & O_APPEND) ? static_cast<std::int64_t>(it->second->data.size()) : 0, flags};
        ++n_open;
        if (log_ops) {
            event("  open %s flags=%s%s -> %d", path, create ? "C" : "R", (flags & O_TRUNC) ? "T" : "", fd - FD_BASE);
        }
        if (after_mutation && (create || (flags & O_TRUNC))) {
            after_mutation("open", it->second->path);
        }
        return fd;
    }
    ssize_t do_read(int fd, void* buf, std::size_t n, bool stdio) {
        alloc::exempt e;
        ++n_ops;
        if (on_op) on_op();
        auto it = fds.find(fd);
        if (it == fds.end()) {
            ++n_bad_use;
            errno = EBADF;
            return -1;
        }
        if (dead || hit(config.read_eio, hits.read_eio, "fault.read-eio")) {
            errno = EIO;
            return -1;
        }
        if (!stdio && hit(config.read_eintr, hits.read_eintr, "fault.read-eintr")) {
            errno = EINTR;
            return -1;
        }
        auto& h          = it->second;
        const auto size  = h.node->size();
        const auto avail = h.pos < size ? static_cast<std::size_t>(size - h.pos) : 0u;
        auto m           = n < avail ? n : avail;
        if (m > 1 && hit(config.read_short, hits.read_short, "fault.read-short")) {
            m = 1 + draw(m - 1);
        }
        if (m) {
            h.node->copy(h.pos, static_cast<std::uint8_t*>(buf), m);
        }
        h.pos += static_cast<std::int64_t>(m);
        if (log_ops) {
            event("  read fd=%d n=%zu -> %zu", fd - FD_BASE, n, m);
        }
        return static_cast<ssize_t>(m);
    }
    ssize_t do_write(int fd, const void* buf, std::size_t n, bool stdio) {
        alloc::exempt e;
        ++n_ops;
        if (on_op) on_op();
        auto it = fds.find(fd);
        if (it == fds.end()) {
            ++n_bad_use;
            errno = EBADF;
            return -1;
        }
        auto& h = it->second;
        if ((h.flags & O_ACCMODE) == O_RDONLY) {
            errno = EBADF;
            return -1;
        }
        if (dead || hit(config.write_eio, hits.write_eio, "fault.write-eio")) {
            errno = EIO;
            return -1;
        }
        if (!stdio && hit(config.write_eintr, hits.write_eintr, "fault.write-eintr")) {
            errno = EINTR;
            return -1;
        }
        std::size_t m = n;
        if (hit(config.write_enospc, hits.write_enospc, "fault.write-enospc")) {
            m = n > 1 ? draw(n) : 0; // part of it may still fit
            if (m == 0) {
                errno = ENOSPC;
                return -1;
            }
        } else if (n > 1 && hit(config.write_short, hits.write_short, "fault.write-short")) {
            m = 1 + draw(n - 1);
        }
        const auto size = static_cast<std::int64_t>(h.node->data.size());
        if (config.capacity >= 0) {
            const auto room = config.capacity - used() + (h.pos < size ? size - h.pos : 0);
            if (static_cast<std::int64_t>(m) > room) {
                m = room > 0 ? static_cast<std::size_t>(room) : 0;
                ++hits.write_enospc;
                count("fault.disk-full");
                nontrivial();
                if (m == 0) {
                    event("  write fd=%d n=%zu -> ENOSPC", fd - FD_BASE, n);
                    errno = ENOSPC;
                    return -1;
                }
            }
        }
        if (before_write) {
            before_write(h.node->path, h.pos, static_cast<const std::uint8_t*>(buf), m);
        }
        if (h.pos + static_cast<std::int64_t>(m) > size) {
            h.node->data.resize(static_cast<std::size_t>(h.pos) + m);
        }
        if (m) {
            std::memcpy(h.node->data.data() + h.pos, buf, m);
        }
        h.pos += static_cast<std::int64_t>(m);
        if (log_ops) {
            event("  write fd=%d n=%zu -> %zu", fd - FD_BASE, n, m);
        }
        if (after_mutation) {
            after_mutation("write", h.node->path);
        }
        return static_cast<ssize_t>(m);
    }
    std::int64_t do_seek(int fd, std::int64_t off, int whence) {
        alloc::exempt e;
        ++n_ops;
        if (on_op) on_op();
        auto it = fds.find(fd);
        if (it == fds.end()) {
            ++n_bad_use;
            errno = EBADF;
            return -1;
        }
        if (hit(config.seek_fail, hits.seek_fail, "fault.seek-fail")) {
            errno = EIO;
            return -1;
        }
        auto& h = it->second;
        if (h.node->pipe) {
            errno = ESPIPE;
            return -1;
        }
        auto base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h.pos : h.node->size();
        if (base + off < 0) {
            errno = EINVAL;
            return -1;
        }
        h.pos = base + off;
        return h.pos;
    }
    int do_close(int fd) {
        alloc::exempt e;
        ++n_ops;
        if (on_op) on_op();
        auto it = fds.find(fd);
        if (it == fds.end()) {
            ++n_bad_close;
            event("  close of a descriptor that is not open: %d", fd - FD_BASE);
            errno = EBADF;
            return -1;
        }
        if (log_ops) {
            event("  close fd=%d", fd - FD_BASE);
        }
        fds.erase(it);
        ++n_close;
        if (hit(config.close_fail, hits.close_fail, "fault.close-fail")) {
            errno = EIO; // the descriptor is gone all the same, as on Linux
            return -1;
        }
        return 0;
    }
    int do_stat(int fd, struct stat* st) {
        ++n_ops;
        if (on_op) on_op();
        auto it = fds.find(fd);
        if (it == fds.end()) {
            ++n_bad_use;
            errno = EBADF;
            return -1;
        }
        if (hit(config.stat_fail, hits.stat_fail, "fault.stat-fail")) {
            errno = EIO;
            return -1;
        }
        std::memset(st, 0, sizeof *st);
        st->st_mode    = (it->second.node->pipe ? S_IFIFO : S_IFREG) | 0644;
        st->st_size    = it->second.node->pipe ? 0 : static_cast<off_t>(it->second.node->size());
        st->st_blksize = 4096;
        st->st_nlink   = 1;
        return 0;
    }
    int do_truncate(int fd, std::int64_t n) {
        alloc::exempt e;
        ++n_ops;
        if (on_op) on_op();
        auto it = fds.find(fd);
        if (it == fds.end()) {
            ++n_bad_use;
            errno = EBADF;
            return -1;
        }
        if (dead) {
            errno = EIO;
            return -1;
        }
        it->second.node->data.resize(static_cast<std::size_t>(n));
        if (log_ops) {
            event("  ftruncate fd=%d %lld", fd - FD_BASE, static_cast<long long>(n));
        }
        if (after_mutation) {
            after_mutation("ftruncate", it->second.node->path);
        }
        return 0;
    }

    namespace {
        struct cookie {
            int fd;
        };
        ssize_t c_read(void* c, char* b, size_t n) { return do_read(static_cast<cookie*>(c)->fd, b, n, true); }
        ssize_t c_write(void* c, const char* b, size_t n) { return do_write(static_cast<cookie*>(c)->fd, b, n, true); }
        int c_seek(void* c, off64_t* o, int w) {
            const auto r = do_seek(static_cast<cookie*>(c)->fd, *o, w);
            if (r < 0) {
                return -1;
            }
            *o = r;
            return 0;
        }
        int c_close(void* c) {
            alloc::exempt e;
            const int r = do_close(static_cast<cookie*>(c)->fd);
            delete static_cast<cookie*>(c);
            return r;
        }
    } // namespace
    FILE* do_fopen(const char* path, const char* mode) {
        alloc::exempt e;
        int flags = O_RDONLY;
        if (std::strchr(mode, '+')) {
            flags = O_RDWR;
        } else if (mode[0] != 'r') {
            flags = O_WRONLY;
        }
        if (mode[0] == 'w') {
            flags |= O_CREAT | O_TRUNC;
        }
        if (mode[0] == 'a') {
            flags |= O_CREAT | O_APPEND;
        }
        const int fd = do_open(path, flags);
        if (fd < 0) {
            return nullptr;
        }
        auto* c = new cookie{fd};
        cookie_io_functions_t io{c_read, c_write, c_seek, c_close};
        return fopencookie(c, mode, io);
    }
}} // namespace sim::disk

using namespace sim;

extern "C" {
int open(const char* path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (disk::is_sim(path)) {
        return disk::do_open(path, flags);
    }
    return static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int open64(const char* path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return open(path, flags, mode);
}
ssize_t read(int fd, void* b, size_t n) { return disk::is_sim(fd) ? disk::do_read(fd, b, n, false) : syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) {
    return disk::is_sim(fd) ? disk::do_write(fd, b, n, false) : syscall(SYS_write, fd, b, n);
}
off_t lseek(int fd, off_t o, int w) noexcept { return disk::is_sim(fd) ? disk::do_seek(fd, o, w) : syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) { return disk::is_sim(fd) ? disk::do_close(fd) : static_cast<int>(syscall(SYS_close, fd)); }
int fstat(int fd, struct stat* st) noexcept {
    return disk::is_sim(fd) ? disk::do_stat(fd, st) : static_cast<int>(syscall(SYS_fstat, fd, st));
}
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int ftruncate(int fd, off_t n) noexcept { return disk::is_sim(fd) ? disk::do_truncate(fd, n) : static_cast<int>(syscall(SYS_ftruncate, fd, n)); }
int fsync(int fd) { return disk::is_sim(fd) ? 0 : static_cast<int>(syscall(SYS_fsync, fd)); }
int access(const char* path, int mode) noexcept {
    if (disk::is_sim(path)) {
        if (disk::exists(path)) {
            return 0;
        }
        errno = ENOENT;
        return -1;
    }
    return static_cast<int>(syscall(SYS_access, path, mode));
}
int unlink(const char* path) noexcept {
    if (disk::is_sim(path)) {
        disk::remove(path);
        return 0;
    }
    return static_cast<int>(syscall(SYS_unlink, path));
}
int remove(const char* path) noexcept {
    if (disk::is_sim(path)) {
        return unlink(path);
    }
    return static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, path, 0));
}
int rename(const char* from, const char* to) noexcept {
    if (disk::is_sim(from) && disk::is_sim(to)) {
        if (disk::dead || !disk::rename(from, to)) {
            errno = disk::dead ? EIO : ENOENT;
            return -1;
        }
        return 0;
    }
    return static_cast<int>(syscall(SYS_rename, from, to));
}
int fdatasync(int fd) { return disk::is_sim(fd) ? 0 : static_cast<int>(syscall(SYS_fdatasync, fd)); }
int stat(const char* path, struct stat* st) noexcept {
    if (disk::is_sim(path)) {
        auto* b = disk::ref(path);
        if (!b) {
            errno = ENOENT;
            return -1;
        }
        std::memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0644;
        st->st_size = static_cast<off_t>(b->size());
        return 0;
    }
    return static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, path, st, 0));
}
FILE* fopen(const char* path, const char* mode) {
    if (disk::is_sim(path)) {
        return disk::do_fopen(path, mode);
    }
    using fn              = FILE* (*) (const char*, const char*);
    static const fn real_ = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "fopen"));
    return real_(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
}
