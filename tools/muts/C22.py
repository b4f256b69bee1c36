H='include/coro/net/tcp/client.hpp'; C='src/net/tcp/client.cpp'; SV='src/net/tcp/server.cpp'; SH='include/coro/net/tcp/server.hpp'; IO='src/net/io_status.cpp'; SK='src/net/socket.cpp'; N='src/detail/io_notifier_epoll.cpp'
muts=[
(H,'                remaining_timeout = timeout - elapsed;\n            }\n\n            auto [status, read_span]','                remaining_timeout = timeout;\n            }\n\n            auto [status, read_span]'),
(H,'                remaining_timeout = timeout - elapsed;\n            }\n\n            auto [status, unsent_span]','                remaining_timeout = timeout;\n            }\n\n            auto [status, unsent_span]'),
(H,'co_return {io_status{io_status::kind::timeout}, remaining};','co_return {io_status{io_status::kind::timeout}, buffer};'),
(H,'                co_return {status, remaining};','                co_return {status, buffer};'),
(H,'            if (!status.is_ok())\n            {\n                co_return {status, buffer.subspan(0, buffer.size() - remaining.size())};','            if (!status.is_ok())\n            {\n                co_return {status, {}};'),
(H,'            remaining                  = unsent_span;\n\n            if (!status.is_ok())','            remaining                  = unsent_span;\n            if (status.try_again()) continue;\n            if (!status.is_ok() && unsent_span.size() == buffer.size())'),
(H,'                m_is_read_ready = false;\n            }\n            else','                m_is_read_ready = false; co_return {status, read};\n            }\n            else'),
(H,'std::span<element_type>{buffer.data() + bytes_sent, buffer.size() - bytes_sent}};','std::span<element_type>{}};'),
(H,'return {make_io_status_from_native(errno), std::span<element_type>{buffer.data(), buffer.size()}};','return {make_io_status_from_native(errno), std::span<element_type>{}};'),
(H,'            return {io_status{io_status::kind::closed}, std::span<element_type>{}};','            return {io_status{io_status::kind::ok}, std::span<element_type>{}};'),
(H,'        auto poll_status = co_await poll(poll_op::read, timeout);\n        if (poll_status != poll_status::read)','        auto poll_status = co_await poll(poll_op::read, timeout);\n        if (poll_status != poll_status::read && poll_status != poll_status::timeout)'),
(H,'            co_return std::pair{make_io_status_from_poll_status(pstatus), buffer};','            co_return std::pair{make_io_status_from_poll_status(pstatus), std::span<const std::byte>{}};'),
(H,'co_await poll(poll_op::write, timeout);','co_await poll(poll_op::write);'),
(H,'co_await poll(poll_op::read, timeout);','co_await poll(poll_op::read);'),
(C,'                if (result == 0)','                if (result == 0 || result == ETIMEDOUT)'),
(C,'if (errno == EAGAIN || errno == EINPROGRESS)','if (errno == EAGAIN)'),
(C,'poll_op::write, timeout);','poll_op::write);'),
(C,'    if (m_connect_status.has_value())','    if (false)'),
(C,'      m_socket(other.m_socket),\n      m_connect_status(other.m_connect_status)','      m_socket(other.m_socket),\n      m_connect_status(std::nullopt)'),
(C,'        m_scheduler   = std::exchange(other.m_scheduler, nullptr);\n','        std::swap(m_scheduler, other.m_scheduler); if (0)\n'),
(C,'    // Force the socket to be non-blocking.\n    m_socket.blocking(coro::net::socket::blocking_t::no);',''),
(IO,'            return io_status{io_status::kind::timeout};','            return io_status{io_status::kind::closed};'),
(IO,'            type = kind::connection_reset;','            type = kind::closed;'),
(IO,'            type = kind::would_block_or_try_again;\n','            type = kind::native;\n'),
(N,'    if (poll_op_readable(op))\n    {\n        event_data.events |= EPOLLRDHUP;','    {\n        event_data.events |= EPOLLRDHUP;'),
(N,'    if (event.events & static_cast<uint32_t>(poll_op::read))','    if (event.events & EPOLLRDHUP) return poll_status::closed;\n    if (event.events & static_cast<uint32_t>(poll_op::read))'),
(H,'buf.size() / sizeof(element_type)}};','buf.size()}};'),
(H,'            if (elapsed >= timeout)','            if (elapsed > timeout)'),
(C,'      m_socket(std::move(socket)),','      m_socket(socket),'),
(H,'remaining.subspan(read_span.size());','remaining.subspan(read_span.size()); if (timeout.count() > 0 && !status.is_ok()) co_return {status, {}};'),
]
