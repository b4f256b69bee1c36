C='src/default_executor.cpp'
muts=[
(C,'if (s_default_executor_init.exchange(true) == false)','if (s_default_executor_init.load() == false && (s_default_executor_init = true))'),
(C,'if (s_default_io_executor_init.exchange(true) == false)','if (s_default_io_executor_init.load() == false && (s_default_io_executor_init = true))'),
(C,'s_default_executor_ptr.store(s_default_executor.get(), std::memory_order::release);','s_default_executor_ptr.store(s_default_executor.get(), std::memory_order::relaxed);'),
(C,'s_default_io_executor_ptr.store(s_default_io_executor.get(), std::memory_order::release);','s_default_io_executor_ptr.store(s_default_io_executor.get(), std::memory_order::relaxed);'),
(C,'while (s_default_executor_ptr.load(std::memory_order::acquire) == nullptr)','while (!s_default_executor_init)'),
(C,'while (s_default_io_executor_ptr.load(std::memory_order::acquire) == nullptr)','if (s_default_io_executor_ptr.load(std::memory_order::acquire) == nullptr)'),
(C,'while (s_default_io_executor_ptr.load(std::memory_order::acquire) == nullptr)','while (s_default_io_executor_ptr.load(std::memory_order::relaxed) == nullptr)'),
(C,'    s_default_executor_options = std::move(thread_pool_options);','    if (!s_default_executor_options.on_thread_start_functor) s_default_executor_options = std::move(thread_pool_options);'),
(C,'    s_default_io_executor_options = std::move(scheduler_options);','    s_default_io_executor_options.pool = std::move(scheduler_options.pool);'),
(C,'    s_default_io_executor_options = std::move(scheduler_options);','    s_default_io_executor_options = std::move(scheduler_options); s_default_executor_options = s_default_io_executor_options.pool;'),
(C,'thread_pool::make_unique(s_default_executor_options);','thread_pool::make_unique();'),
(C,'if (s_default_executor_init.exchange(true) == false)','if (s_default_executor_ptr.load() == nullptr && (s_default_executor_init = true))'),
]
