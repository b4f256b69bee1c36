# property -> harness, library source group, case counts
CHECKS = {
    "C01": dict(src="C01_task.cpp", group="core", quick=450000, thorough=9000000),
    "C02": dict(src="C02_generator.cpp", group="core", quick=200000, thorough=4000000),
    "C03": dict(src="C03_sync_wait.cpp", group="core", quick=200000, thorough=4000000),
    "C04": dict(src="C04_when_all.cpp", group="core", quick=150000, thorough=3000000),
    "C05": dict(src="C05_when_any.cpp", group="core", quick=150000, thorough=3000000),
    "C06": dict(src="C06_event.cpp", group="core", quick=300000, thorough=6000000),
    "C07": dict(src="C07_latch.cpp", group="core", quick=400000, thorough=8000000),
    "C08": dict(src="C08_mutex.cpp", group="core", quick=400000, thorough=8000000),
    "C09": dict(src="C09_scoped_lock.cpp", group="core", quick=500000, thorough=10000000),
    "C10": dict(src="C10_shared_mutex.cpp", group="core", quick=250000, thorough=5000000),
    "C11": dict(src="C11_semaphore.cpp", group="core", quick=300000, thorough=6000000),
    "C12": dict(src="C12_queue.cpp", group="core", quick=200000, thorough=4000000),
    "C13": dict(src="C13_ring_buffer.cpp", group="core", quick=200000, thorough=4000000),
    "C14": dict(src="C14_cv.cpp", group="io", quick=300000, thorough=4000000),
    "C15": dict(src="C15_cv_timed.cpp", group="io", quick=250000, thorough=2000000),
    "C16": dict(src="C16_thread_pool.cpp", group="core", quick=200000, thorough=4000000),
    "C17": dict(src="C17_task_group.cpp", group="io", quick=150000, thorough=3000000),
    "C18": dict(src="C18_scheduler.cpp", group="io", quick=120000, thorough=2400000),
    "C19": dict(src="C19_timers.cpp", group="io", quick=120000, thorough=2400000),
    "C20": dict(src="C20_poll.cpp", group="io", quick=120000, thorough=2400000),
    "C21": dict(src="C21_timeout.cpp", group="io", quick=120000, thorough=2400000),
    "C22": dict(src="C22_tcp.cpp", group="net", quick=40000, thorough=1200000),
    "C23": dict(src="C23_udp.cpp", group="net", quick=40000, thorough=1200000),
    "C24": dict(src="C24_tls.cpp", group="tls", quick=30000, thorough=400000),
    "C25": dict(src="C25_address.cpp", group="net", quick=400000, thorough=16000000),
    "C26": dict(src="C26_fds.cpp", group="net", quick=80000, thorough=1600000),
    "C27": dict(src="C27_invoke.cpp", group="core", quick=250000, thorough=5000000),
    "C28": dict(src="C28_manual.cpp", group="io", quick=120000, thorough=2400000),
    "C29": dict(src="C29_dns.cpp", group="dns", quick=30000, thorough=600000),
    "C30": dict(src="C30_default.cpp", group="io", quick=40000, thorough=800000, batch=1),
}
