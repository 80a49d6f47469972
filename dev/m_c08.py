T='utility/thread_pool.hpp'
CATCH='''            GAPP_CATCH (...)
            {
                // The submitted tasks use the local variables of this function, they must be finished before leaving.
                thread_guard();
                remaining_tasks.count_down(task_count - 1 - submitted_tasks);
            }
'''
JOIN='''            if (auto* local_queue = local_worker_queue(); !local_queue)
            {
                remaining_tasks.wait();
            }
            else while (true)
            {
                while (!local_queue->empty()) { std::invoke(*local_queue->take()); }
                if (remaining_tasks.try_wait()) break;
                std::this_thread::yield();
            }
'''
RE='if (has_exception.load(std::memory_order_relaxed)) std::rethrow_exception(exception);'
M=[
('no-countdown-catch','C08','hit',[(T,'remaining_tasks.count_down(task_count - 1 - submitted_tasks);','')]),
('no-guard-catch','C08','hit',[(T,'thread_guard();\n                remaining_tasks.count','remaining_tasks.count')]),
('rethrow-in-catch','C08','hit',[(T,'remaining_tasks.count_down(task_count - 1 - submitted_tasks);','throw;')]),
('caller-outside','C08','hit',[(T,'while (first != last) { std::invoke(unary_op, *first++); }\n            }',' }'),(T,CATCH,CATCH+'\n while (first != last) { std::invoke(unary_op, *first++); }\n')]),
('no-rethrow','C08','hit',[(T,RE,'')]),
('rethrow-before-join','C08','hit',[(T,RE,''),(T,JOIN,RE+'\n'+JOIN)]),
('countdown-in-try','C08','hit',[(T,'std::invoke(unary_op, *block_first++); } }','std::invoke(unary_op, *block_first++); } remaining_tasks.count_down(); }'),(T,'GAPP_CATCH (...) { thread_guard(); }\n                        remaining_tasks.count_down();','GAPP_CATCH (...) { thread_guard(); }')]),
('countdown-first','C08','hit',[(T,'GAPP_TRY { while (block_first','remaining_tasks.count_down(); GAPP_TRY { while (block_first'),(T,'GAPP_CATCH (...) { thread_guard(); }\n                        remaining_tasks.count_down();','GAPP_CATCH (...) { thread_guard(); }')]),
('guard-after-countdown','C08','hit',[(T,'GAPP_CATCH (...) { thread_guard(); }\n                        remaining_tasks.count_down();','GAPP_CATCH (...) { remaining_tasks.count_down(); thread_guard(); return; } remaining_tasks.count_down();')]),
('catch-typed','C08','hit',[(T,'GAPP_CATCH (...) { thread_guard(); }\n                        rem','GAPP_CATCH (const std::exception&) { thread_guard(); }\n                        rem')]),
('no-catch','C08','hit',[(T,'GAPP_CATCH (...) { thread_guard(); }\n                        rem','GAPP_CATCH (...) { throw; }\n                        rem')]),
('swallow','C08','hit',[(T,'GAPP_CATCH (...) { thread_guard(); }\n                        rem','GAPP_CATCH (...) { }\n                        rem')]),
('flag-no-store','C08','hit',[(T,'exception = std::current_exception();',';')]),
('refused-ignored','C08','hit',[(T,'if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");','(void)success;')]),
('always-wait','C08','hit',[(T,JOIN,'remaining_tasks.wait();')]),
('no-drain','C08','hit',[(T,'while (!local_queue->empty()) { std::invoke(*local_queue->take()); }','')]),
('drain-once','C08','hit',[(T,'else while (true)\n            {\n                while (!local_queue->empty()) { std::invoke(*local_queue->take()); }','else { while (!local_queue->empty()) { std::invoke(*local_queue->take()); } while (true) {'),(T,'std::this_thread::yield();\n            }','std::this_thread::yield(); } }')]),
('member-order','C08','hit',[(T,'detail::concurrent_queue<task_t> task_queue;\n            std::jthread thread{ worker_main, std::ref(task_queue) };','std::jthread thread{ worker_main, std::ref(task_queue) }; detail::concurrent_queue<task_t> task_queue;')]),
('no-join-noncaller','C08','hit',[(T,'remaining_tasks.wait();','')]),
('guard-load-store','C08','hit',[(T,'if (!has_exception.exchange(true, std::memory_order_relaxed))\n                    exception = std::current_exception();','exception = std::current_exception(); has_exception.store(true);')]),
('skip-join-if-exc','C08','hit',[(T,JOIN,'if (!has_exception.load()) {'+JOIN+'}')]),
('worker-dies','C08','quiet',[(T,'if (!task.has_value()) return;','if (!task) return;')]),
('r-helper','C08','quiet',[(T,JOIN,'wait_for(remaining_tasks);'),(T,'        void reset_scheduler()\n','''        void wait_for(const detail::latch& remaining_tasks)
        {
            auto* const local_queue = local_worker_queue();
            if (local_queue == nullptr) { remaining_tasks.wait(); return; }
            for (;;)
            {
                while (!local_queue->empty()) { auto t = local_queue->take(); std::invoke(*t); }
                const bool done = remaining_tasks.try_wait();
                if (done) return;
                std::this_thread::yield();
            }
        }
        void reset_scheduler()
''')]),
('r-trywait-loop','C08','quiet',[(T,JOIN,'''auto* const local_queue = local_worker_queue();
            if (!local_queue) remaining_tasks.wait();
            else while (!remaining_tasks.try_wait())
            {
                if (local_queue->empty()) std::this_thread::yield();
                else std::invoke(*local_queue->take());
            }
''')]),
('r-split-submit','C08','quiet',[(T,'bool success = scheduled_worker_queue().emplace(std::move(task));\n                    if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");','submit(std::move(task));'),(T,'        void reset_scheduler()\n','''        template<typename T> void submit(T&& task)
        {
            if (scheduled_worker_queue().emplace(std::forward<T>(task))) return;
            GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
        }
        void reset_scheduler()
''')]),
('r-cas-guard','C08','quiet',[(T,'if (!has_exception.exchange(true, std::memory_order_relaxed))\n                    exception','bool expected = false; if (has_exception.compare_exchange_strong(expected, true))\n                    exception')]),
('r-try-fn','C08','quiet',[(T,'GAPP_TRY { while (block_first != block_last) { std::invoke(unary_op, *block_first++); } }','GAPP_TRY { for (; block_first != block_last; ++block_first) std::invoke(unary_op, *block_first); }')]),
('r-range-lambda','C08','quiet',[(T,'            detail::latch remaining','            const auto run = [&unary_op](Iter from, Iter to) { while (from != to) { std::invoke(unary_op, *from++); } };\n            detail::latch remaining'),(T,'while (block_first != block_last) { std::invoke(unary_op, *block_first++); }','run(block_first, block_last);'),(T,'while (first != last) { std::invoke(unary_op, *first++); }','run(first, last);')]),
('r-scope-guard','C08','quiet',[(T,'            detail::latch remaining','            const auto unused = 1; (void)unused;\n            detail::latch remaining')]),
]
