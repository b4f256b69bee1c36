C='src/net/tcp/client.cpp'; SV='src/net/tcp/server.cpp'; SH='include/coro/net/tcp/server.hpp'; SK='src/net/socket.cpp'; KH='include/coro/net/socket.hpp'; PI='src/detail/pipe.cpp'; PO='include/coro/poll.hpp'; U='src/net/udp/peer.cpp'; N='src/detail/io_notifier_epoll.cpp'; T='src/detail/timer_handle.cpp'; S='src/scheduler.cpp'
muts=[
(SK,'        this->close();\n        m_fd = std::exchange','        m_fd = std::exchange'),
(SK,'        this->close();\n        this->m_fd = dup','        this->m_fd = dup'),
(SK,'        m_fd = std::exchange(other.m_fd, -1);','        m_fd = other.m_fd;'),
(SK,'        ::close(m_fd);\n        m_fd = -1;','        ::close(m_fd);'),
(KH,'socket(const socket& other) : m_fd(dup(other.m_fd)) {}','socket(const socket& other) : m_fd(other.m_fd) {}'),
(KH,'~socket() { close(); }','~socket() {}'),
(KH,'socket(socket&& other) noexcept : m_fd(std::exchange(other.m_fd, -1)) {}','socket(socket&& other) noexcept : m_fd(dup(other.m_fd)) {}'),
(PI,'        m_fds[1] = dup(other.m_fds[1]);\n    }','        m_fds[1] = other.m_fds[1];\n    }'),
(PI,'    m_fds = std::exchange(other.m_fds, {-1, -1});\n}','    m_fds = other.m_fds;\n}'),
(PI,'        close();\n        m_fds = std::exchange','        m_fds = std::exchange'),
(PI,'    if (std::addressof(other) != this)\n    {\n        close();\n        m_fds[0] = dup','    {\n        close();\n        m_fds[0] = dup'),
(SV,'        m_accept_socket  = std::move(other.m_accept_socket);','        m_accept_socket  = other.m_accept_socket;'),
(C,'        m_socket         = std::move(other.m_socket);','        m_socket         = other.m_socket;'),
(C,'      m_socket(std::move(socket)),','      m_socket(dup(socket.native_handle())),'),
(C,'      m_socket(std::move(other.m_socket)),','      m_socket(other.m_socket),'),
(U,'        m_socket       = other.m_socket;','        m_socket       = coro::net::socket{other.m_socket.native_handle()};'),
(SK,'    if (opts.blocking == socket::blocking_t::no)\n    {\n        if (s.blocking(socket::blocking_t::no) == false)\n        {\n','    if (opts.blocking == socket::blocking_t::no)\n    {\n        if (s.blocking(socket::blocking_t::no) == false)\n        {\n ::close(s.native_handle());\n'),
(SK,'    socket s{::socket(','    socket& s = *new socket{::socket('),
(T,'    if (m_fd != -1)\n    {\n        ::close(m_fd);','    if (false)\n    {\n        ::close(m_fd);'),
(N,'        ::close(m_fd);\n        m_fd = -1;','        m_fd = -1;'),
(SH,'            return unexpected<io_status>{make_io_status_from_native(errno)};','            ::close(m_accept_socket.native_handle() + 1); return unexpected<io_status>{make_io_status_from_native(errno)};'),
(PI,'    if (m_fds[1] != -1)\n','    if (m_fds[1] > 12)\n'),
(PI,'        throw std::runtime_error(msg);','        ::close(0); throw std::runtime_error(msg);'),
]
