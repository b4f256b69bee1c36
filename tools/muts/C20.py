H='include/coro/scheduler.hpp'; C='src/scheduler.cpp'; N='src/detail/io_notifier_epoll.cpp'; PI='include/coro/detail/poll_info.hpp'
muts=[
(N,'    if (pi.m_cancel_trigger.has_value())\n    {\n        unwatch(','    if (false)\n    {\n        unwatch('),
(C,'            if (pi->m_fd != -1)\n            {\n                m_io_notifier.unwatch(*pi);\n            }\n\n            m_handles','            m_handles'),
(C,'        if (pi->m_timer_pos.has_value())\n','        if (pi->m_timer_pos.has_value() && status != poll_status::cancelled)\n'),
(C,'        if (!pi->m_processed)\n        {\n            // Its possible the event and the timeout','        {\n            // Its possible the event and the timeout'),
(C,'    if (!pi->m_processed)\n    {\n        std::atomic','    {\n        std::atomic'),
(C,'            pi->m_poll_status = coro::poll_status::timeout;\n','            if (pi->m_fd == -1) pi->m_poll_status = coro::poll_status::timeout;\n'),
(N,'    if (errno != EEXIST)','    if (errno == EEXIST)'),
(N,'        event_data.events |= EPOLLONESHOT;\n','        event_data.events |= EPOLLET;\n'),
(N,'| EPOLLRDHUP;',';'),
(N,'    if (event.events & static_cast<uint32_t>(poll_op::write))','    if (event.events & EPOLLERR) return poll_status::error;\n    if (event.events & static_cast<uint32_t>(poll_op::write))'),
(N,'        if (is_cancel_event)','        if (is_cancel_event && num_ready == 1)'),
(N,'    if (event.events & static_cast<uint32_t>(poll_op::read))','    if (event.events & EPOLLRDHUP) return poll_status::closed;\n    if (event.events & static_cast<uint32_t>(poll_op::read))'),
(C,'        m_size.fetch_sub(1, std::memory_order::release);\n        co_return poll_status::error;','        co_return poll_status::error;'),
(C,'    bool timeout_requested = (timeout > 0ms);','    bool timeout_requested = (timeout != 0ms);'),
(C,'add_timer_token(clock::now() + timeout, pi);','add_timer_token(clock::now() + timeout - 1us, pi);'),
(N,'    if (seconds <= 0s)','    if (seconds < 0s)'),
(N,'is_cancel_event ? ','is_cancel_event ? '),
(C,'    while (pi->m_awaiting_coroutine == nullptr)\n    {\n        std::atomic_thread_fence(std::memory_order::acquire);\n    }\n\n    if (!pi->m_processed)\n    {','    if (!pi->m_processed)\n    {'),
(N,'    const auto result = unwatch(watched_fd, op);\n    ::close(watched_fd);\n    watched_fd = -1;','    const auto result = unwatch(watched_fd, op);\n'),
(C,'            m_io_notifier.unwatch(*pi);\n        }\n\n        // Since','            if (status != poll_status::cancelled) m_io_notifier.unwatch(*pi);\n        }\n\n        // Since'),
(N,'    else if (event.events & EPOLLERR)\n    {\n        return poll_status::error;\n    }\n','    else if (event.events & EPOLLERR)\n    {\n        return poll_status::closed;\n    }\n'),
]
