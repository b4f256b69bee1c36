F='include/coro/net/dns/resolver.hpp'
muts=[
(F,'ares_process_fd(self->m_ares_channel, fd, ARES_SOCKET_BAD);','ares_process_fd(self->m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);'),
(F,'ares_process_fd(self->m_ares_channel, ARES_SOCKET_BAD, fd);','ares_process_fd(self->m_ares_channel, fd, ARES_SOCKET_BAD);'),
(F,'''                case poll_status::timeout:
                    ares_process_fd(self->m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
''','''                case poll_status::timeout:
'''),
(F,'''                    // c-ares finds out for itself what has happened to the socket.
                    ares_process_fd(self->m_ares_channel, fd, fd);
''','''                    socket->m_active = false; self->m_active_sockets.erase(fd);
'''),
(F,'''                case poll_status::cancelled:
                    ares_process_fd(self->m_ares_channel, fd, fd);
''','''                case poll_status::cancelled:
'''),
(F,'self->m_failed = self->m_failed || socket->m_active;',''),
(F,'if (node->ai_family == AF_INET6)','if (node->ai_family == AF_INET6 && result.m_ip_addresses.empty())'),
(F,'node != nullptr; node = node->ai_next','node != nullptr; node = nullptr'),
(F,'&sin6->sin6_addr','&sin6->sin6_flowinfo'),
(F,'&sin->sin_addr','&sin->sin_port'),
(F,'if (addr_info == nullptr || status != ARES_SUCCESS)','if (addr_info == nullptr)'),
(F,'result.m_status = status::error;','result.m_status = status::complete;'),
(F,'hints.ai_family = AF_UNSPEC;','hints.ai_family = AF_INET;'),
(F,'hints.ai_family = AF_UNSPEC;','hints.ai_family = AF_INET6;'),
(F,'if (result.m_pending_dns_requests == 0)','if (result.m_pending_dns_requests == 0 && result.m_status == status::complete)'),
(F,'''            it->second->m_stop.signal_stop();
            self->m_active_sockets.erase(it);''','''            self->m_active_sockets.erase(it);'''),
(F,'''            it->second->m_active = false;
            it->second->m_stop.signal_stop();''','''            it->second->m_stop.signal_stop();'''),
(F,'if (ops != 0 && it->second->m_op == poll_ops)','if (ops != 0)'),
(F,'''        if (writable)
        {
            ops |=''','''        if (false)
        {
            ops |='''),
(F,'''        if (readable)
        {
            ops |=''','''        if (readable && !writable)
        {
            ops |='''),
(F,'''            poll_until_next_timeout(*m_state);
''',''),
(F,'next = std::max(next, std::chrono::milliseconds{1});',''),
(F,'return (m_timeout > std::chrono::milliseconds{0}) ? std::min(m_timeout, next) : next;','return m_timeout;'),
(F,'''                std::scoped_lock lk{self->m_mutex};
                if (!socket->m_active)
                {
                    co_return;
                }
                timeout ''','''                if (!socket->m_active)
                {
                    co_return;
                }
                timeout '''),
(F,'''            std::scoped_lock lk{self->m_mutex};
            if (!socket->m_active)
            {
                co_return;
            }

            switch''','''            if (!socket->m_active)
            {
                co_return;
            }

            switch'''),
(F,'''            std::scoped_lock lk{self->m_mutex};
            if (!socket->m_active)
            {
                co_return;
            }

            switch''','''            std::scoped_lock lk{self->m_mutex};
            switch'''),
(F,'''        {
            std::scoped_lock lk{m_state->m_mutex};
            ares_getaddrinfo''','''        {
            ares_getaddrinfo'''),
(F,'''            // The poll tasks might still be running, they'll stop without touching the channel again.
            std::scoped_lock lk{m_state->m_mutex};
''',''),
(F,'''            if (m_fd != -1)
            {
                ::close(m_fd);
            }''',''),
(F,'m_fd(::dup(fd))','m_fd(fd)'),
(F,'            ares_freeaddrinfo(addr_info);','            if (result.m_ip_addresses.size() < 2) ares_freeaddrinfo(addr_info);'),
(F,'while (std::exchange(m_failed, false))','while (false)'),
(F,'            m_state->cancel_if_failed();',''),
(F,'            self->cancel_if_failed();',''),
(F,'        self.m_failed = true;\n',''),
(F,'result.m_resume.set(result.m_executor, resume_order_policy::lifo);','result.m_resume.set(resume_order_policy::lifo);'),
(F,'--result.m_pending_dns_requests;','result.m_pending_dns_requests = 0; result.m_resume.set(result.m_executor, resume_order_policy::lifo);'),
(F,'''            ares_destroy(m_state->m_ares_channel);
''','''            ares_cancel(m_state->m_ares_channel);
'''),
]
