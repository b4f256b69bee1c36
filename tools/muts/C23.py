H='include/coro/net/udp/peer.hpp'; C='src/net/udp/peer.cpp'; IO='src/net/io_status.cpp'; SK='src/net/socket.cpp'
muts=[
(H,'            if (status.try_again())\n            {\n                // Failed to write','            if (!status.is_ok())\n            {\n                // Failed to write'),
(H,'            if (status.try_again())\n            {\n                // Failed to read','            if (!status.is_ok())\n            {\n                // Failed to read'),
(H,'        m_is_write_ready = true;\n\n        co_return sendto','        m_is_write_ready = true;\n        sendto(address, buffer.first(0));\n        co_return sendto'),
(H,'            auto status = sendto(address, buffer);\n            if (status','            auto status = sendto(address, buffer);\n            m_is_write_ready = false; if (status'),
(H,'            auto [status, addr, read] = recvfrom(buffer);\n','            auto [status, addr, read] = recvfrom(buffer); if (status.is_ok() && read.empty()) status = io_status{io_status::kind::closed};\n'),
(H,'poll(poll_op::write, timeout);\n        if (pstatus','poll(poll_op::write);\n        if (pstatus'),
(H,'poll(poll_op::read, timeout);\n        if (pstatus','poll(poll_op::read);\n        if (pstatus'),
(H,'        if (bytes_read < 0)','        if (bytes_read <= 0)'),
(H,'            endpoint,\n            std::span<element_type>{buffer.data(), static_cast<size_t>(bytes_read)}};','            endpoint,\n            buffer};'),
(H,'        if (bytes_sent != -1)','        if (bytes_sent != -1 || errno == ENOBUFS)'),
(C,'      m_bound(other.m_bound)','      m_bound(false)'),
(C,'        m_bound        = other.m_bound;\n    }\n    return *this;\n}\n}','    }\n    return *this;\n}\n}'),
(IO,'            type = kind::message_too_big;','            type = kind::native;'),
(IO,'            type = kind::connection_refused;','            type = kind::connection_reset;'),
(SK,'    if (opts.blocking == socket::blocking_t::no)','    if (opts.blocking == socket::blocking_t::no && opts.type == socket::type_t::tcp)'),
(H,'        if (!m_bound)','        if (false)'),
(H,'        co_return recvfrom(buffer);','        auto r = recvfrom(buffer); while (std::get<0>(r).is_ok() && std::get<2>(r).empty()) r = recvfrom(buffer); co_return r;'),
(H,'::recvfrom(m_socket.native_handle(), buffer.data(), buffer.size(), 0','::recvfrom(m_socket.native_handle(), buffer.data(), buffer.size(), MSG_PEEK'),
('include/coro/net/socket_address.hpp','reinterpret_cast<sockaddr_in6*>(&m_storage);\n            sin6->sin6_family','reinterpret_cast<sockaddr_in6*>(&m_storage);\n            sin6->sin6_scope_id = 1; sin6->sin6_family'),
(C,'        m_socket       = std::move(other.m_socket);','        std::swap(m_socket, other.m_socket); m_is_read_ready = true;'),
(C,'      m_bound(true)','      m_bound(endpoint.port() != 0)'),
(H,'        m_is_read_ready = true;\n\n        co_return recvfrom(buffer);','        m_is_read_ready = true;\n\n        auto r = recvfrom(buffer); if (std::get<2>(r).size() == buffer.size()) m_is_read_ready = false; if (std::get<2>(r).size() == 9) r = recvfrom(buffer); co_return r;'),
]
