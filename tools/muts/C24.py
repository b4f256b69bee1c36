H='include/coro/net/tls/client.hpp'; C='src/net/tls/client.cpp'; V='src/net/tls/server.cpp'
muts=[
(H,'            if (err == SSL_ERROR_WANT_WRITE)\n            {\n                op = poll_op::write;\n            }\n            else if (err != SSL_ERROR_WANT_READ)','            if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE)'),
(H,'            if (err == SSL_ERROR_WANT_READ)\n            {\n                op = poll_op::read;\n            }\n            else if (err != SSL_ERROR_WANT_WRITE)','            if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE)'),
(H,'buffer.data(), total / sizeof(element_type)}};','buffer.data(), total}};'),
(H,'            int r = SSL_read_ex(tls, bytes.data() + total, bytes.size() - total, &bytes_recv);','            int r = SSL_read_ex(tls, bytes.data(), bytes.size() - total, &bytes_recv);'),
(H,'            co_return {recv_status::buffer_is_empty, std::span<element_type>{}};','            co_return {recv_status::ok, std::span<element_type>{}};'),
(H,'                case poll_status::timeout:\n                    co_return {recv_status::timeout','                case poll_status::timeout:\n                    co_return {recv_status::closed'),
(H,'                case poll_status::timeout:\n                    co_return {send_status::timeout','                case poll_status::timeout:\n                    co_return {send_status::ok'),
(H,'            auto pstatus = co_await poll(op, remaining.value());\n            switch (pstatus)\n            {\n                case poll_status::read:\n                case poll_status::write:\n                    break;\n                case poll_status::timeout:\n                    co_return {recv','            auto pstatus = co_await poll(op);\n            switch (pstatus)\n            {\n                case poll_status::read:\n                case poll_status::write:\n                    break;\n                case poll_status::timeout:\n                    co_return {recv'),
(H,'            auto pstatus = co_await poll(op, remaining.value());\n            switch (pstatus)\n            {\n                case poll_status::read:\n                case poll_status::write:\n                    break;\n                case poll_status::timeout:\n                    co_return {recv','            auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));\n            switch (pstatus)\n            {\n                case poll_status::read:\n                case poll_status::write:\n                    break;\n                case poll_status::timeout:\n                    co_return {recv'),
(H,'        return m_scheduler->poll(m_socket, op, timeout);','        return m_scheduler->poll(m_socket, op, timeout + std::chrono::milliseconds{timeout.count() > 0 ? 5 : 0});'),
(H,'        if (m_shutdown.exchange(true, std::memory_order::acq_rel) != false)','        if (m_shutdown.load())'),
(H,'if (m_tls_info.m_tls_ptr != nullptr && !m_tls_info.m_tls_error)','if (m_tls_info.m_tls_ptr != nullptr && m_tls_info.m_tls_error)'),
(H,'        auto operator()(SSL* ssl) const -> void { SSL_free(ssl); }','        auto operator()(SSL*) const -> void { }'),
(H,'              m_tls_ptr(std::move(other.m_tls_ptr)),','              m_tls_ptr(other.m_tls_ptr.get()),'),
(C,'            if (pstatus == poll_status::write)\n            {','            if (pstatus != poll_status::timeout)\n            {'),
(C,'                if (result == 0)','                if (true || result == 0)'),
(C,'        if (errno == EAGAIN || errno == EINPROGRESS)','        if (errno == EAGAIN)'),
(C,'                co_return return_value(connection_status::timeout);\n            }\n        }','                co_return return_value(connection_status::error);\n            }\n        }'),
(C,'                    co_return return_value(co_await handshake(remaining.value()));','                    co_return return_value(co_await handshake(timeout));'),
(C,'            case poll_status::timeout:\n                co_return connection_status::timeout;','            case poll_status::timeout:\n                break;'),
(C,'            case poll_status::closed:\n                co_return connection_status::unexpected_close;','            case poll_status::closed:\n                break;'),
(C,'            co_return connection_status::handshake_failed;','            co_return connection_status::connected;'),
(C,'            op = poll_op::write;\n        }\n        else if (err == SSL_ERROR_WANT_READ)','            op = poll_op::read;\n        }\n        else if (err == SSL_ERROR_WANT_READ)'),
(C,'        if (r >= 0) // the peer','        if (r > 0) // the peer'),
(C,'        if (SSL_get_error(tls_ptr, r) != SSL_ERROR_WANT_WRITE)','        if (true)'),
(C,'    if (!m_shutdown.load(std::memory_order::acquire))','    if (false)'),
(C,'      m_connect_status(std::exchange(other.m_connect_status, std::nullopt)),','      m_connect_status(std::nullopt),'),
(C,'        m_shutdown.store(\n            other.m_shutdown.exchange(false, std::memory_order::acq_rel), std::memory_order::release);','        m_shutdown.store(true);'),
(C,'    if (m_connect_status.has_value())\n    {\n        co_return m_connect_status.value();\n    }','    if (m_connect_status == connection_status::connected)\n    {\n        co_return m_connect_status.value();\n    }'),
(V,'        tls_client.m_socket.close();','        '),
(V,'    tls_client.m_connect_status = co_await tls_client.handshake(timeout);','    co_await tls_client.handshake(timeout);'),
(V,'    tls_client.m_connect_status = co_await tls_client.handshake(timeout);','    tls_client.m_connect_status = co_await tls_client.handshake();'),
(V,'      m_cancel_trigger(std::move(other.m_cancel_trigger))','      m_cancel_trigger()'),
(C,'    m_socket.blocking(coro::net::socket::blocking_t::no);',''),
(H,'                    bytes = bytes.first(total + sizeof(element_type) - total % sizeof(element_type));\n                    continue;',''),
(C,'        ERR_clear_error();\n        if ((r = SSL_do_handshake','        if ((r = SSL_do_handshake'),
('src/net/tls/context.cpp','        SSL_CTX_set_verify(m_ssl_ctx, SSL_VERIFY_PEER, NULL);','        SSL_CTX_set_verify(m_ssl_ctx, SSL_VERIFY_NONE, NULL);'),
]
