Q='utility/concurrent_queue.hpp'; T='utility/thread_pool.hpp'
lk='            std::scoped_lock lock{ queue_lock_ };\n'
M=[
('notify-cond','C26','hit',[(Q,'queue_.emplace_back(std::forward<Args>(args)...);\n            queue_cv_.notify_one();','const bool was = queue_.empty(); queue_.emplace_back(std::forward<Args>(args)...);\n            if (was) queue_cv_.notify_one();')]),
('notify-none','C26','hit',[(Q,'            queue_cv_.notify_one();\n','')]),
('notify-before','C26','hit',[(Q,'queue_.emplace_back(std::forward<Args>(args)...);\n            queue_cv_.notify_one();','queue_cv_.notify_one(); queue_.emplace_back(std::forward<Args>(args)...);')]),
('close-one','C26','hit',[(Q,'queue_cv_.notify_all();','queue_cv_.notify_one();')]),
('closed-accept','C26','hit',[(Q,'            if (is_closed_) return false;\n','')]),
('closed-some','C26','hit',[(Q,'if (is_closed_) return false;','if (is_closed_ && queue_.empty()) return false;')]),
('take-closed','C26','hit',[(Q,'if (is_closed_ && queue_.empty()) return {};','if (is_closed_) return {};')]),
('take-pred','C26','hit',[(Q,'return !queue_.empty() || is_closed_; });','return !queue_.empty(); });')]),
('take-pred2','C26','hit',[(Q,'return !queue_.empty() || is_closed_; });','return is_closed_ || queue_.size() > 1; });')]),
('take-while','C26','hit',[(Q,'queue_cv_.wait(lock, [&] { return !queue_.empty() || is_closed_; });','if (queue_.empty() && !is_closed_) queue_cv_.wait(lock);')]),
('take-lifo','C26','hit',[(Q,'std::move(queue_.front());\n            queue_.pop_front();','std::move(queue_.back());\n            queue_.pop_back();')]),
('take-nopop','C26','hit',[(Q,'            queue_.pop_front();\n','')]),
('front','C26','hit',[(Q,'queue_.emplace_back(std::forward<Args>(args)...)','queue_.emplace_front(std::forward<Args>(args)...)')]),
('worker-stop','C26','hit',[(T,'if (!task.has_value()) return;','if (!task.has_value() || task_queue.closed()) return;')]),
('worker-cond','C26','hit',[(T,'while (true)\n                {\n                    auto task','while (!task_queue.closed())\n                {\n                    auto task')]),
('worker-twice','C26','hit',[(T,'std::invoke(std::move(*task));','auto t = std::move(*task); std::invoke(t); if (task_queue.empty()) std::invoke(t);')]),
('order','C26','hit',[(T,'detail::concurrent_queue<task_t> task_queue;\n            std::jthread thread{ worker_main, std::ref(task_queue) };','std::jthread thread{ worker_main, std::ref(task_queue) };\n            detail::concurrent_queue<task_t> task_queue;')]),
('nostop','C26','hit',[(T,'            stop();\n            workers_','            workers_')]),
('stop-some','C26','hit',[(T,'for (worker_t& worker : workers_) { worker.task_queue.close(); }','for (worker_t& worker : workers_) { if (worker.task_queue.empty()) worker.task_queue.close(); }')]),
('stop-first','C26','hit',[(T,'for (worker_t& worker : workers_) { worker.task_queue.close(); }','for (worker_t& worker : workers_) { worker.task_queue.close(); if (worker.task_queue.empty()) break; }')]),
('dtor','C26','hit',[(T,'~thread_pool() noexcept { stop(); }','~thread_pool() noexcept { if (turn_.load() != 0) stop(); }')]),
('dtor2','C26','hit',[(T,'~thread_pool() noexcept { stop(); }','~thread_pool() noexcept {}')]),
('r-while','C26','quiet',[(Q,'queue_cv_.wait(lock, [&] { return !queue_.empty() || is_closed_; });','while (queue_.empty() && !is_closed_) queue_cv_.wait(lock);')]),
('r-helper','C26','quiet',[(Q,'[&] { return !queue_.empty() || is_closed_; }','[&] { return ready(); }'),(Q,'    private:\n','    private:\n        bool ready() const { return !queue_.empty() || is_closed_; }\n')]),
('r-simple','C26','quiet',[(Q,'if (is_closed_ && queue_.empty()) return {};','if (queue_.empty()) return std::nullopt;')]),
('r-opt','C26','quiet',[(Q,'T elem = std::move(queue_.front());\n            queue_.pop_front();\n            return elem;','std::optional<T> elem{ std::move(queue_.front()) };\n            queue_.pop_front();\n            return elem;')]),
('r-else','C26','quiet',[(Q,'if (is_closed_) return false;\n\n            queue_.emplace_back(std::forward<Args>(args)...);\n            queue_cv_.notify_one();\n            return true;','if (!is_closed_) { queue_.emplace_back(std::forward<Args>(args)...);\n            queue_cv_.notify_all(); return true; } return false;')]),
('r-unlock','C26','quiet',[(Q,'            queue_cv_.notify_one();\n            return true;','            lock.unlock(); queue_cv_.notify_one();\n            return true;'),(Q,'std::scoped_lock lock{ queue_lock_ };\n            if (is_closed_) return','std::unique_lock lock{ queue_lock_ };\n            if (is_closed_) return')]),
('r-worker','C26','quiet',[(T,'while (true)\n                {\n                    auto task = task_queue.take();\n                    if (!task.has_value()) return;\n                    std::invoke(std::move(*task));\n                }','while (auto task = task_queue.take()) (*task)();')]),
('r-stop','C26','quiet',[(T,'for (worker_t& worker : workers_) { worker.task_queue.close(); }','std::for_each(workers_.begin(), workers_.end(), [](worker_t& worker) { worker.task_queue.close(); });')]),
('r-stop2','C26','quiet',[(T,'for (worker_t& worker : workers_) { worker.task_queue.close(); }','for (size_t i = 0; i < workers_.size(); i++) { workers_[i].task_queue.close(); }')]),
('r-dtor','C26','quiet',[(T,'~thread_pool() noexcept { stop(); }','~thread_pool() noexcept { for (worker_t& worker : workers_) worker.task_queue.close(); }')]),
]
