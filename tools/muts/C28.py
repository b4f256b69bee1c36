H='include/coro/scheduler.hpp'; C='src/scheduler.cpp'
muts=[
(C,'    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))','    m_io_processing = true;'),
(C,'    return size();\n','    return m_size.load();\n'),
(C,'        process_events_execute(timeout);\n        m_io','        process_events_execute(timeout == 0ms ? 1ms : timeout);\n        m_io'),
(C,'        process_events_execute(timeout);\n        m_io','        process_events_execute(timeout * 2);\n        m_io'),
(C,'        m_io_processing.exchange(false, std::memory_order::release);\n    }\n}\n\nauto scheduler::process_events_ded','        if (size() != 0) m_io_processing.exchange(false, std::memory_order::release);\n    }\n}\n\nauto scheduler::process_events_ded'),
(C,'            for (auto& handle : m_handles_to_resume)\n            {\n                handle.resume();','            for (auto& handle : m_handles_to_resume)\n            {\n                if (resumed > 3) break; handle.resume();'),
(C,'                handle.resume();\n                ++resumed;','                handle.resume();\n                ++resumed; m_io_processing = false;'),
(C,'m_schedule_pipe_triggered.exchange(false, std::memory_order::release);\n\n    // Now it is safe to acquire all scheduled ops.\n    auto* ops = detail::awaiter_list_pop_all(m_scheduled_ops);','auto* ops = detail::awaiter_list_pop_all(m_scheduled_ops);\nm_schedule_pipe_triggered.exchange(false, std::memory_order::release);'),
(C,'            if (resumed > 0)\n','            if (resumed > 1)\n'),
(C,'    m_recent_events.clear();','    if (timeout.count() == 0) m_recent_events.clear();'),
(C,'        m_io_processing.exchange(false, std::memory_order::release);\n    }\n}\n\nauto scheduler::process_events_ded','        m_io_processing.exchange(false, std::memory_order::relaxed);\n    }\n}\n\nauto scheduler::process_events_ded'),
(C,'        m_handles_to_resume.clear();','        if (m_handles_to_resume.size() > 3) m_handles_to_resume.clear(); else m_handles_to_resume.resize(0);'),
]
