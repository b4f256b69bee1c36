H='include/coro/scheduler.hpp'; W='include/coro/when_any.hpp'; C='src/scheduler.cpp'
muts=[
(H,'std::chrono::ceil<std::chrono::nanoseconds>','std::chrono::floor<std::chrono::milliseconds>'),
(H,'        if (timeout_ns == 0ns)\n','        if (timeout_ns < 1ms)\n'),
(H,'co_await when_any(make_finished_task(std::move(task)), make_timeout_task(timeout_ns))','co_await when_any(make_finished_task(std::move(task)), make_timeout_task(timeout_ns + 1ms))'),
(W,'    co_await notify;\n    stop_source.request_stop();','    co_await notify;'),
(W,'    co_await notify;\n    stop_source.request_stop();','    stop_source.request_stop();\n    co_await notify;'),
(W,'            return_value.emplace(std::in_place_index<index>, std::move(result));\n            notify.set();','            notify.set();\n            return_value.emplace(std::in_place_index<index>, std::move(result));'),
(H,'        co_await schedule();\n        co_await finished_awaiter','        co_await finished_awaiter'),
(H,'        co_await schedule_after(timeout);','        if (timeout > 1s) co_await schedule_after(timeout - 1ms); else co_await schedule_after(timeout);'),
(H,'            return coro::unexpected','            return coro::unexpected'),
(H,'when_any(std::move(stop_source), make_finished','when_any(std::stop_source(), make_finished'),
(H,'        if (!std::holds_alternative<timeout_status>(result))','        if (!std::holds_alternative<timeout_status>(result) || clock::now() < clock::time_point{})'),
(W,'                expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))\n        {\n            return_value.emplace(std::in_place_index<index>, std::move(result));','                expected, true, std::memory_order::acq_rel, std::memory_order::relaxed) || index == 1)\n        {\n            return_value.emplace(std::in_place_index<index>, std::move(result));'),
(H,'co_await std::move(std::get<0>(result));\n','co_await task;\n'),
]
