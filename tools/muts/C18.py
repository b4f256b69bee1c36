H='include/coro/scheduler.hpp'; C='src/scheduler.cpp'
muts=[
(C,'|| !try_end())','|| size() > 0)'),
(H,'        if (m_thread_pool != nullptr && !m_thread_pool->empty())\n        {\n            return false;\n        }\n',''),
(H,'                if (m_scheduler.m_thread_pool->resume(awaiting_coroutine))\n                {\n                    return true;\n                }\n                m_refused = true;\n                return false;','                m_scheduler.m_thread_pool->resume(awaiting_coroutine); return true;'),
(C,'        wrapper_task.handle().destroy();\n',''),
(C,'    m_schedule_pipe_triggered.exchange(false, std::memory_order::release);\n\n    // Now it is safe to acquire all scheduled ops.\n    auto* ops = detail::awaiter_list_pop_all(m_scheduled_ops);','    auto* ops = detail::awaiter_list_pop_all(m_scheduled_ops); m_schedule_pipe_triggered.exchange(false, std::memory_order::release);'),
(C,'        ops = detail::awaiter_list_reverse(ops);\n',''),
(C,'            if (ops->m_allocated)\n            {\n                delete ops;\n            }\n',''),
(C,'            if (resumed > 0)\n            {\n                m_size.fetch_sub(resumed','            if (resumed > 1)\n            {\n                m_size.fetch_sub(resumed'),
(C,'            m_thread_pool->resume(m_handles_to_resume);\n            m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release);','            m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release); m_thread_pool->resume(m_handles_to_resume);'),
(C,'        m_handles_to_resume.clear();',''),
(C,'        if (m_thread_pool != nullptr)\n        {\n            m_thread_pool->shutdown();\n        }','') ,
(C,'        ssize_t             written = m_shutdown_pipe.write(&value, sizeof(value));','        ssize_t             written = sizeof(value);'),
(C,'    if (m_shutdown_requested.load(std::memory_order::acquire))\n    {\n        return false;\n    }\n',''),
(C,'    if (m_opts.on_io_thread_stop_functor != nullptr)','    if (m_opts.on_io_thread_stop_functor != nullptr && !m_handles_to_resume.capacity())'),
(C,'            const ssize_t           read_bytes','            ssize_t           read_bytes'),
(C,'        if (m_io_thread.joinable())\n        {\n            m_io_thread.join();\n        }\n\n        if (m_thread_pool','        if (m_thread_pool'),
(C,'m_timed_events.emplace(tp, &pi)','m_timed_events.emplace(tp - 500us, &pi)'),
(C,'    if (pos == m_timed_events.begin())','    if (m_timed_events.size() == 1)'),
]
