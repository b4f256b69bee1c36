H='include/coro/scheduler.hpp'; C='src/scheduler.cpp'; E='src/detail/io_notifier_epoll.cpp'
muts=[
(C,'m_timed_events.emplace(tp, &pi)','m_timed_events.emplace(tp - 500us, &pi)'),
(C,'    if (pos == m_timed_events.begin())','    if (m_timed_events.size() == 1)'),
(C,'            if (tp <= now)','            if (tp < now)'),
(C,'            if (tp <= now)','            if (tp <= now + 1ms)'),
(C,'                m_timed_events.erase(first);\n                poll_infos.emplace_back(pi);','                m_timed_events.erase(first);\n                poll_infos.emplace_back(pi);\n                if (poll_infos.size() == 4) break;'),
(C,'                m_timed_events.erase(first);\n                poll_infos.emplace_back(pi);','                m_timed_events.erase(tp);\n                poll_infos.emplace_back(pi);'),
(C,'    update_timeout(clock::now());\n}\n\nauto scheduler::add_timer','    if (poll_infos.size() < 2) update_timeout(clock::now());\n}\n\nauto scheduler::add_timer'),
(C,'    update_timeout(clock::now());\n}\n\nauto scheduler::add_timer','    update_timeout(now);\n}\n\nauto scheduler::add_timer'),
(C,'        if (is_first)\n','        if (is_first && false)\n'),
(C,'        m_timed_events.erase(pos);\n','        m_timed_events.erase(pos->first);\n'),
(C,'        auto             is_first = (m_timed_events.begin() == pos);\n\n        m_timed_events.erase(pos);','        m_timed_events.erase(pos);auto             is_first = (m_timed_events.empty());\n\n        '),
(C,'    if (amount <= 0ms)','    if (amount < 1ms)'),
(E,'    duration -= seconds;','    if (seconds > 1s) duration -= seconds;'),
(E,'    if (seconds <= 0s)\n','    if (seconds < 0s)\n'),
(E,'    ts.it_value.tv_sec  = seconds.count();\n    ts.it_value.tv_nsec = nanoseconds.count();','    ts.it_value.tv_sec  = seconds.count();\n    ts.it_value.tv_nsec = nanoseconds.count() / 1000 * 1000;'),
(C,'    std::scoped_lock lk{m_timed_events_mutex};\n    update_timeout(clock::now());','    update_timeout(clock::now());'),
(C,'        auto& [tp, pi] = *m_timed_events.begin();','        auto& [tp, pi] = *m_timed_events.rbegin();'),
(C,'        m_io_notifier.unwatch_timer(m_timer);\n    }','    }'),
(C,'        add_timer_token(time, pi);','        add_timer_token(std::chrono::time_point_cast<std::chrono::milliseconds>(time), pi);'),
(C,'        if (!pi->m_processed)\n        {\n            // Its possible the event and the timeout','        {\n            // Its possible the event and the timeout'),
(H,'std::chrono::ceil<','std::chrono::floor<'),
(C,'        if (pi->m_timer_pos.has_value())\n','        if (pi->m_timer_pos.has_value() && m_timed_events.size() < 3)\n'),
(C,'        add_work();\n\n        detail::poll_info pi{};\n        add_timer_token(time, pi);','        detail::poll_info pi{};\n        add_timer_token(time, pi);'),
]
