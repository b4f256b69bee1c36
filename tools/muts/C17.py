T='include/coro/task_group.hpp'
muts=[
(T,'while (!empty() || !m_on_empty_event.is_set())','while (!empty())'),
(T,'''                while (!m_on_empty_event.is_set())
                {
                    std::this_thread::yield();
                }
''',''),
(T,'            std::scoped_lock lk{m_start_mutex};\n',''),
(T,'            wrapper_task.handle().destroy();\n',''),
(T,'            count_down();\n            return false','            return false'),
(T,'fetch_sub(1, std::memory_order::acq_rel) == 1','fetch_sub(1, std::memory_order::acq_rel) <= 2'),
(T,'m_on_empty_event{true}','m_on_empty_event{false}'),
(T,'                m_on_empty_event.reset();','                if (m_executor->size() < 2) m_on_empty_event.reset();'),
(T,'fetch_sub(1, std::memory_order::acq_rel)','fetch_sub(1, std::memory_order::relaxed)'),
(T,'        for (auto& task : tasks)\n        {\n            (void)start(std::move(task));\n        }','        bool first = true; for (auto& task : tasks)\n        {\n            if (first || m_size.load() > 0) (void)start(std::move(task)); first = false;\n        }'),
('src/detail/task_self_deleting.cpp','    // The user cannot access the promise anyway, ignore the exception.','    m_user_final_suspend = nullptr;'),
('src/detail/task_self_deleting.cpp','    co_await user_task;','    co_await std::move(user_task);'),
]
