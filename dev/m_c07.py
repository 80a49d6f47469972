Q='utility/concurrent_queue.hpp'; R='utility/rng.hpp'; RC='utility/rcu.hpp'; SS='utility/shared_spinlock.hpp'; SL='utility/spinlock.hpp'
lk='            std::scoped_lock lock{ queue_lock_ };\n'
M=[
('close-nolock','C07','hit',[(Q,'        void close() noexcept\n        {\n'+lk,'        void close() noexcept\n        {\n')]),
('empty-nolock','C07','hit',[(Q,lk+'            return queue_.empty();','            return queue_.empty();')]),
('closed-nolock','C07','hit',[(Q,lk+'            return is_closed_;','            return is_closed_;')]),
('emplace-early','C07','hit',[(Q,lk+'            if (is_closed_) return false;','            if (is_closed_) return false;\n'+lk)]),
('take-unlock','C07','hit',[(Q,'T elem = std::move(queue_.front());\n            queue_.pop_front();','T elem = std::move(queue_.front());\n            lock.unlock(); queue_.pop_front();')]),
('take-check','C07','hit',[(Q,'            std::unique_lock lock{ queue_lock_ };\n','            if (is_closed_ && queue_.empty()) return {};\n std::unique_lock lock{ queue_lock_ };\n')]),
('seed-nolock','C07','hit',[(R,'            std::scoped_lock _{ tls_generators_->lock };\n            global_generator_.seed(seed);','            global_generator_.seed(seed);\n            std::scoped_lock _{ tls_generators_->lock };')]),
('reg-nolock','C07','hit',[(R,'std::scoped_lock _{ tls_generators_->lock };\n                instance = global_generator_.jump();','instance = global_generator_.jump();\nstd::scoped_lock _{ tls_generators_->lock };\n')]),
('rcu-shared','C07','hit',[(RC,'std::unique_lock _{ tls_readers->lock };\n                tls_readers->list.push_back(this);','std::shared_lock _{ tls_readers->lock };\n                tls_readers->list.push_back(this);')]),
('rcu-dtor','C07','hit',[(RC,'std::unique_lock _{ tls_readers->lock };\n                std::erase','std::erase')]),
('ss-relaxed','C07','hit',[(SS,'cntr_.fetch_sub(WRITER, std::memory_order_release);','cntr_.fetch_sub(WRITER, std::memory_order_relaxed);')]),
('ss-nofence','C07','hit',[(SS,'            std::atomic_thread_fence(std::memory_order_acquire);\n','')]),
('ss-cas','C07','hit',[(SS,'WRITER, std::memory_order_acquire, std::memory_order_relaxed','WRITER, std::memory_order_relaxed, std::memory_order_relaxed')]),
('ss-us','C07','hit',[(SS,'cntr_.fetch_sub(1, std::memory_order_release);','cntr_.fetch_sub(1, std::memory_order_relaxed);')]),
('sl-relaxed','C07','hit',[(SL,'if (!locked_.test_and_set(std::memory_order_acquire)) break;','if (!locked_.test_and_set(std::memory_order_relaxed)) break;')]),
('sl-clear','C07','hit',[(SL,'locked_.clear(std::memory_order_release);','locked_.clear(std::memory_order_relaxed);')]),
('sl-try','C07','hit',[(SL,'!locked_.test_and_set(std::memory_order_acquire);','!locked_.test_and_set(std::memory_order_relaxed);')]),
('double','C07','hit',[(Q,'            queue_cv_.notify_one();\n','            queue_cv_.notify_one(); if (closed()) return false;\n')]),
('temp-guard','C07','hit',[(Q,'void close() noexcept\n        {\n'+lk,'void close() noexcept\n        {\n            std::scoped_lock{ queue_lock_ };\n')]),
('r-helper','C07','quiet',[(Q,'[&] { return !queue_.empty() || is_closed_; }','[&] { return ready(); }'),(Q,'    private:\n','    private:\n        bool ready() const { return !queue_.empty() || is_closed_; }\n')]),
('r-lockguard','C07','quiet',[(Q,lk+'            return queue_.empty();','            std::lock_guard guard(queue_lock_);\n return queue_.empty();')]),
('r-notify','C07','quiet',[(Q,'            queue_cv_.notify_one();\n            return true;','            lock.unlock(); queue_cv_.notify_one();\n            return true;'),(Q,'std::scoped_lock lock{ queue_lock_ };\n            if (is_closed_) return','std::unique_lock lock{ queue_lock_ };\n            if (is_closed_) return')]),
('r-while','C07','quiet',[(Q,'queue_cv_.wait(lock, [&] { return !queue_.empty() || is_closed_; });','while (queue_.empty() && !is_closed_) queue_cv_.wait(lock);')]),
('r-seed','C07','quiet',[(R,'            std::scoped_lock _{ tls_generators_->lock };\n            global_generator_.seed(seed);','            auto& gens = *tls_generators_; std::scoped_lock _{ gens.lock };\n            global_generator_.seed(seed);')]),
('r-sl','C07','quiet',[(SL,'while (true)\n            {\n                if (!locked_.test_and_set(std::memory_order_acquire)) break;\n\n                while (locked_.test(std::memory_order_relaxed)) GAPP_PAUSE();\n            }','while (locked_.test_and_set(std::memory_order_acquire)) { while (locked_.test(std::memory_order_relaxed)) GAPP_PAUSE(); }')]),
('r-sc','C07','quiet',[(SL,'locked_.clear(std::memory_order_release);','locked_.clear();')]),
('r-try','C07','quiet',[(SL,'return !locked_.test(std::memory_order_relaxed) &&\n                   !locked_.test_and_set(std::memory_order_acquire);','if (locked_.test(std::memory_order_relaxed)) return false; return !locked_.test_and_set(std::memory_order_acquire);')]),
]
