From 3a2ea459923022fa2e17ef987f67e29045fdf128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 001/110] fix: a run that ends early no longer leaves its stop
 event queued to end a later run

---
 sparta/src/Scheduler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index e1af41d..2e977f7 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -652,6 +652,12 @@ void Scheduler::run(Tick num_ticks,
         }
     }// End run loop.
 
+    // If the loop ended before the requested end of this run, the stop
+    // event is still queued.  It must not end a later run() early.
+    if(num_ticks != INDEFINITE) {
+        cancelEvent(stop_event_.get());
+    }
+
     // Reset the current group
     current_group_firing_ = 0;
 
-- 
2.43.0


From 389624c51964c0ea8a593af632561419751204d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 002/110] fix: SingleCycleUniqueEvent no longer drops a
 schedule(0) after schedule(1) at tick 0, nor a schedule after cancel

---
 .../events/PhasedSingleCycleUniqueEvent.hpp   | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
index 3653b09..10f5be4 100644
--- a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
+++ b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
@@ -58,7 +58,9 @@ namespace sparta
             EventNode(event_set, name, sched_phase),
             local_clk_(getClock()),
             fancy_name_(name + "[" + consumer_event_handler.getName() + "]"),
-            single_cycle_event_scheduleable_(consumer_event_handler, 1 /*HARD CODED*/, sched_phase)
+            psue_consumer_event_handler_(consumer_event_handler),
+            single_cycle_event_scheduleable_(CREATE_SPARTA_HANDLER(PhasedSingleCycleUniqueEvent, deliverEvent_),
+                                             1 /*HARD CODED*/, sched_phase)
         {
             single_cycle_event_scheduleable_.setScheduleableClock(getClock());
             single_cycle_event_scheduleable_.setLabel(fancy_name_.c_str());
@@ -89,6 +91,11 @@ namespace sparta
          */
         void cancel() {
             single_cycle_event_scheduleable_.cancel();
+
+            // Forget the cancelled ticks (they can be scheduled again),
+            // but not that the event might have fired in this tick
+            next_scheduled_tick_ = last_fired_tick_;
+            prev_scheduled_tick_ = last_fired_tick_;
         }
 
         /*!
@@ -127,9 +134,9 @@ namespace sparta
                 local_clk_->getTick(Clock::Cycle(rel_cycle));
 
             const auto to_be_scheduled_abs_tick =
-                local_scheduler_->calcIndexTime(to_be_scheduled_relative_tick);
+                local_scheduler_->calcIndexTime(to_be_scheduled_relative_tick) + 1;
 
-            if(SPARTA_EXPECT_TRUE(next_scheduled_tick_ < to_be_scheduled_abs_tick || is_init_tick_))
+            if(SPARTA_EXPECT_TRUE(next_scheduled_tick_ < to_be_scheduled_abs_tick))
             {
 #ifndef NDEBUG
                 // This is a handy debug assertion to see if
@@ -142,7 +149,6 @@ namespace sparta
                     scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
                 prev_scheduled_tick_ = next_scheduled_tick_;
                 next_scheduled_tick_ = to_be_scheduled_abs_tick;
-                is_init_tick_ = false; //only allow one event in tick 0
             }
             else if((to_be_scheduled_abs_tick < next_scheduled_tick_) &&
                     (prev_scheduled_tick_ != to_be_scheduled_abs_tick))
@@ -196,19 +202,29 @@ namespace sparta
         //! A local scheduler for speed
         Scheduler * local_scheduler_ = nullptr;
 
+        //! Called by the Scheduler; remembers the tick and calls the consumer
+        void deliverEvent_() {
+            last_fired_tick_ = local_scheduler_->getCurrentTick() + 1;
+            psue_consumer_event_handler_();
+        }
+
         //! The last time this PhasedSingleCycleUniqueEvent was scheduled (rel cycle == [0,1])
+        //! Stored as tick + 1; 0 is never, so that tick 0 can be told apart
         //std::array<Scheduler::Tick, 2> next_scheduled_tick_ = {0, 0};
         Scheduler::Tick next_scheduled_tick_ = 0;
         Scheduler::Tick prev_scheduled_tick_ = 0;
 
+        //! The last time the event fired (tick + 1; 0 is never)
+        Scheduler::Tick last_fired_tick_ = 0;
+
         //! A fancy name for the event handler
         std::string fancy_name_;
 
+        //! The consumer's handler
+        SpartaHandler psue_consumer_event_handler_;
+
         //! The actual scheduled item on the scheduler
         Scheduleable single_cycle_event_scheduleable_;
-
-        //! Track if is in the initial tick = tick 0
-        bool is_init_tick_ = true;
     };
 
 }
-- 
2.43.0


From d6fc07f03e630ee4315b30c8fbdbf683f968cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 003/110] fix: a payload stays alive while its handler runs,
 even when the handler cancels its event or drops the last handle

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index 79b7149..9278258 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -133,8 +133,12 @@ namespace sparta
                             << parent_->name_ << " to handler: "
                             << target_consumer_event_handler_.getName());
                 scheduled_ = false;
+
+                // Keep the payload alive while it is being delivered,
+                // even if the consumer cancels this event or drops
+                // the last handle to it.  Reclaimed when released.
+                ScheduleableHandle in_delivery(this);
                 target_consumer_event_handler_((const void*)payload_);
-                reclaim_();
             }
 
             PhasedPayloadEvent<DataT> * parent_ = nullptr;
-- 
2.43.0


From 4e9cd1653e7ca6b5253a6c5f68bcdcabbe9237a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 004/110] fix: PhasedPayloadEvent::cancel(rel_cycle) reports
 the number of events it cancelled

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index 9278258..ed9d65c 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -338,14 +338,17 @@ namespace sparta
          * This will cancel all instances of this event at the given cycle.
          */
         uint32_t cancel(Clock::Cycle rel_cycle) {
-            const uint32_t cancel_cnt = inflight_pl_.size();
+            uint32_t cancel_cnt = 0;
             auto bit = inflight_pl_.begin();
             while(bit != inflight_pl_.end()) {
                 auto proxy = *bit;
                 ++bit;
                 // Cancelling the event will change the inflight_pl_
                 // list, hence we cannot use a range for loop
-                proxy->cancel(rel_cycle);
+                if(proxy->isScheduled(rel_cycle)) {
+                    proxy->cancel(rel_cycle);
+                    ++cancel_cnt;
+                }
             }
             return cancel_cnt;
         }
-- 
2.43.0


From d0df2b24246addeb5d4e0def3f5abc2bf0c86823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 005/110] fix: moving or self-assigning a ScheduleableHandle
 keeps the handle count right

---
 sparta/sparta/events/Scheduleable.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/events/Scheduleable.hpp b/sparta/sparta/events/Scheduleable.hpp
index 9271852..3e0323d 100644
--- a/sparta/sparta/events/Scheduleable.hpp
+++ b/sparta/sparta/events/Scheduleable.hpp
@@ -547,8 +547,12 @@ namespace sparta
         //! Create an empty Handle
         ScheduleableHandle() = default;
 
-        // Default move
-        ScheduleableHandle(ScheduleableHandle &&) = default;
+        // Move: the moved-from handle lets go
+        ScheduleableHandle(ScheduleableHandle && orig) noexcept :
+            scheduleable_(orig.scheduleable_)
+        {
+            orig.scheduleable_ = nullptr;
+        }
 
         //! Copy a Handle, increment the count
         ScheduleableHandle(const ScheduleableHandle & orig)
@@ -610,9 +614,11 @@ namespace sparta
 
         //! Assignment
         ScheduleableHandle & operator=(const ScheduleableHandle & rhs) {
-            disconnect_();
-            scheduleable_ = rhs.scheduleable_;
-            connect_();
+            if(scheduleable_ != rhs.scheduleable_) {
+                disconnect_();
+                scheduleable_ = rhs.scheduleable_;
+                connect_();
+            }
             return *this;
         }
 
-- 
2.43.0


From 8a24a4e3f69cdb1df820897aee4ee67edc3a9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 006/110] fix: a payload scheduled again from its own handler,
 or recycled in the same tick, is no longer cancelled or reported through the
 entry that has already fired

---
 sparta/sparta/kernel/Scheduler.hpp | 19 +++++++++++++++++++
 sparta/src/Scheduler.cpp           |  6 +++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index 24d7d84..738b25b 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -927,6 +927,25 @@ private:
      */
     TickQuantum* determineTickQuantum_(Tick rel_time);
 
+    /*!
+     * \brief The index of the first item of a group which is not done.
+     *        While a group is firing, the items before the one being
+     *        fired are done, although they are still in the group
+     */
+    uint32_t firstLiveIdx_(const TickQuantum * quantum, uint32_t group) const {
+        return ((quantum == current_tick_quantum_) && (group == current_group_firing_)) ?
+            current_event_firing_ : 0;
+    }
+
+    /*!
+     * \brief Like firstLiveIdx_, but past the item being fired as well:
+     *        it cannot be cancelled anymore
+     */
+    uint32_t firstPendingIdx_(const TickQuantum * quantum, uint32_t group) const {
+        return ((quantum == current_tick_quantum_) && (group == current_group_firing_)) ?
+            current_event_firing_ + 1 : 0;
+    }
+
     //! The DAG used for grouping
     std::unique_ptr<DAG> dag_;
 
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index 2e977f7..b0ad423 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -697,7 +697,7 @@ bool Scheduler::isScheduled(const Scheduleable * scheduleable, Tick rel_time) co
             // This is the time quantum requested
             const auto events = rit->groups[dag_group];
             const auto grp_size = events.size();
-            for(size_t idx = 0; idx < grp_size; ++idx)
+            for(size_t idx = firstLiveIdx_(rit, dag_group); idx < grp_size; ++idx)
             {
                 if(events[idx] == scheduleable) {
                     return true;
@@ -724,7 +724,7 @@ bool Scheduler::isScheduled(const Scheduleable * scheduleable) const
     {
         const auto events = rit->groups[dag_group];
         const auto grp_size = events.size();
-        for(size_t idx = 0; idx < grp_size; ++idx)
+        for(size_t idx = firstLiveIdx_(rit, dag_group); idx < grp_size; ++idx)
         {
             if(events[idx] == scheduleable) {
                 return true;
@@ -781,7 +781,7 @@ void Scheduler::cancelEvent(const Scheduleable * scheduleable, Tick rel_time)
         if(rit->tick == index_time)
         {
             TickQuantum::ScheduleableGroup & scheduleables = rit->groups[dag_group];
-            for(uint32_t i = 0; i < scheduleables.size(); ++i)
+            for(uint32_t i = firstPendingIdx_(rit, dag_group); i < scheduleables.size(); ++i)
             {
                 if(scheduleables[i] == scheduleable) {
                     scheduleables[i]->eventCancelled_();
-- 
2.43.0


From 448907262b500fc50fdb05a81b751c5e9ac327e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:58 +0000
Subject: [PATCH 007/110] fix: rational arithmetic no longer overflows in
 intermediate products when the result is representable

---
 sparta/sparta/utils/Rational.hpp | 40 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/sparta/sparta/utils/Rational.hpp b/sparta/sparta/utils/Rational.hpp
index 63258f0..abe56fd 100644
--- a/sparta/sparta/utils/Rational.hpp
+++ b/sparta/sparta/utils/Rational.hpp
@@ -105,33 +105,27 @@ namespace utils
 
         inline Rational<T> operator*(const Rational<T> &r) const
         {
-            return Rational<T>(n_ * r.n_, d_ * r.d_);
+            // Reduce across before multiplying, so that the terms
+            // only overflow if those of the product do
+            const Rational<T> a(n_, r.d_);
+            const Rational<T> b(r.n_, d_);
+            return Rational<T>(a.n_ * b.n_, a.d_ * b.d_);
         }
 
         inline Rational<T>& operator*=(const Rational<T> &r)
         {
-            n_ *= r.n_;
-            d_ *= r.d_;
-            simplify();
+            *this = *this * r;
             return *this;
         }
 
         inline Rational<T> operator/(const Rational<T> &r) const
         {
-            return Rational<T>(n_ * r.d_, d_ * r.n_);
+            return *this * Rational<T>(r.d_, r.n_);
         }
 
         inline Rational<T>& operator/=(const Rational<T> &r)
         {
-            if (&r != this) {
-                n_ *= r.d_;
-                d_ *= r.n_;
-            } else {
-                T x = r.n_;
-                n_ *= r.d_;
-                d_ *= x;
-            }
-            simplify();
+            *this = *this / r;
             return *this;
         }
 
@@ -139,7 +133,7 @@ namespace utils
         {
             if (d_ != r.d_) {
                 T m = utils::lcm(d_, r.d_);
-                return Rational<T>((n_ * m / d_) + (r.n_ * m / r.d_), m);
+                return Rational<T>((n_ * (m / d_)) + (r.n_ * (m / r.d_)), m);
             } else {
                 return Rational<T>(n_ + r.n_, d_);
             }
@@ -149,7 +143,7 @@ namespace utils
         {
             if (d_ != r.d_) {
                 T m = utils::lcm(d_, r.d_);
-                n_ = (n_ * m / d_) + (r.n_ * m / r.d_);
+                n_ = (n_ * (m / d_)) + (r.n_ * (m / r.d_));
                 d_ = m;
             } else {
                 n_ += r.n_;
@@ -163,9 +157,9 @@ namespace utils
         {
             if (d_ != r.d_) {
                 T m = utils::lcm(d_, r.d_);
-                return Rational<T>(utils::abs((n_ * m / d_) - (r.n_ * m / r.d_)), m);
+                return Rational<T>(difference_(n_ * (m / d_), r.n_ * (m / r.d_)), m);
             } else {
-                return Rational<T>(utils::abs(n_ - r.n_), d_);
+                return Rational<T>(difference_(n_, r.n_), d_);
             }
         }
 
@@ -173,10 +167,10 @@ namespace utils
         {
             if (d_ != r.d_) {
                 T m = utils::lcm(d_, r.d_);
-                n_ = utils::abs((n_ * m / d_) - (r.n_ * m / r.d_));
+                n_ = difference_(n_ * (m / d_), r.n_ * (m / r.d_));
                 d_ = m;
             } else {
-                n_ = utils::abs(n_ - r.n_);
+                n_ = difference_(n_, r.n_);
             }
             simplify();
             return *this;
@@ -196,6 +190,12 @@ namespace utils
         }
 
     private:
+        // The distance between two (unsigned) terms, whatever their size
+        static inline T difference_(const T &a, const T &b)
+        {
+            return a < b ? b - a : a - b;
+        }
+
         T    n_;  // Numerator
         T    d_;  // Denominator
     };
-- 
2.43.0


From 6140d6cfaa85897430b03557c901212ada32cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:03 +0000
Subject: [PATCH 008/110] fix: a port send with a total delay of 2^32 cycles or
 more is no longer truncated

---
 sparta/sparta/ports/DataPort.hpp   | 2 +-
 sparta/sparta/ports/SignalPort.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/ports/DataPort.hpp b/sparta/sparta/ports/DataPort.hpp
index 5e2c364..fbd9bc6 100644
--- a/sparta/sparta/ports/DataPort.hpp
+++ b/sparta/sparta/ports/DataPort.hpp
@@ -503,7 +503,7 @@ namespace sparta
          */
         void send_(const DataT & dat, sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const sparta::Clock::Cycle total_delay = rel_time + port_delay_;
 
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
diff --git a/sparta/sparta/ports/SignalPort.hpp b/sparta/sparta/ports/SignalPort.hpp
index 5957dad..55e1c9d 100644
--- a/sparta/sparta/ports/SignalPort.hpp
+++ b/sparta/sparta/ports/SignalPort.hpp
@@ -282,7 +282,7 @@ namespace sparta
          */
         void send_(sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const sparta::Clock::Cycle total_delay = rel_time + port_delay_;
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
             {
-- 
2.43.0


From 12d14e7e7bc4e06e8e9a52cebf8679ba999552a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:50 +0000
Subject: [PATCH 009/110] fix: SyncOutPort::isReady computes the arrival of a
 send from the current tick, not from twice that tick

---
 sparta/sparta/ports/SyncPort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/ports/SyncPort.hpp b/sparta/sparta/ports/SyncPort.hpp
index 3a64f08..7e87879 100644
--- a/sparta/sparta/ports/SyncPort.hpp
+++ b/sparta/sparta/ports/SyncPort.hpp
@@ -856,7 +856,7 @@ namespace sparta
         bool couldAccept_(const Clock *send_clk) const {
 
             Scheduler::Tick num_delay_ticks =
-                calculateClockCrossingDelay(send_clk->currentTick(), send_clk, receive_delay_ticks_, receiver_clock_);
+                calculateClockCrossingDelay(0, send_clk, receive_delay_ticks_, receiver_clock_);
 
             sparta::Scheduler::Tick cur_tick =
                 scheduler_->getCurrentTick();
-- 
2.43.0


From e53268d1c14e84d1f7d9f894e72c1ae3618217da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 010/110] fix: data refused by a not-ready SyncInPort is tried
 again on the next cycle, without adding the port delay again

---
 sparta/sparta/ports/SyncPort.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/ports/SyncPort.hpp b/sparta/sparta/ports/SyncPort.hpp
index 7e87879..80e6c29 100644
--- a/sparta/sparta/ports/SyncPort.hpp
+++ b/sparta/sparta/ports/SyncPort.hpp
@@ -792,10 +792,11 @@ namespace sparta
                                  << "(" << num_in_flight_ << ") "
                                  << " # " << dat;
                 }
-                bool allow_slide = false;
                 bool is_fwd_progress = false;
 
-                send_(dat, receiver_clock_, sparta::Clock::Cycle(1), allow_slide, is_fwd_progress);
+                // The data is already at the receiver and has served its
+                // port delay: try again on the receiver's next cycle
+                scheduleDelivery_(dat, receiver_clock_->getPeriod(), is_fwd_progress);
                 sparta_assert(num_in_flight_ > 0);
             }
 
@@ -994,6 +995,18 @@ namespace sparta
             Scheduler::Tick num_delay_ticks =
                 computeSendToReceiveTickDelay_(send_clk, send_delay_cycles, allow_slide, prev_data_arrival_tick_);
 
+            return scheduleDelivery_(dat, num_delay_ticks, is_fwd_progress);
+        }
+
+        /*!
+         * \brief Schedule the delivery of data a number of ticks from now
+         * \param dat The Data to deliver
+         * \param num_delay_ticks The ticks from now to the delivery
+         * \param is_fwd_progress Whether this call should be considered forward progress
+         * \return The delay in ticks to the delivery
+         */
+        uint64_t scheduleDelivery_(const DataT & dat, Scheduler::Tick num_delay_ticks, bool is_fwd_progress)
+        {
             sparta::Scheduler::Tick current_tick = scheduler_->getCurrentTick();
             sparta::Scheduler::Tick abs_scheduled_tick = num_delay_ticks + current_tick;
 
-- 
2.43.0


From 9b5adaeb7f0bc583ba4a38f1cd2342a8a75ed053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:08 +0000
Subject: [PATCH 011/110] fix: a growing Buffer keeps its elements, their order
 and its iteration intact

---
 sparta/sparta/resources/Buffer.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 9c7adc8..f44c7d8 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -101,9 +101,14 @@ namespace sparta
             DataPointer() { }
             ~DataPointer() { }
 
-            DataPointer(DataPointer &&orig) noexcept {
-                ::memcpy(&object_memory_, &orig.object_memory_, sizeof(object_memory_));
-                data = reinterpret_cast<value_type*>(&object_memory_);
+            // Takes over the object (if there is one) and its position
+            DataPointer(DataPointer &&orig) noexcept :
+                physical_idx(orig.physical_idx)
+            {
+                if(orig.data != nullptr) {
+                    allocate(std::move(*orig.data));
+                    orig.release();
+                }
             }
 
             // No copies, only moves
@@ -114,6 +119,12 @@ namespace sparta
                 data = new (&object_memory_) value_type(std::forward<U>(dat));
             }
 
+            // Destroy the object
+            void release() {
+                data->~value_type();
+                data = nullptr;
+            }
+
             value_type * data         = nullptr;
             DataPointer* next_free    = nullptr;
             uint32_t     physical_idx = 0; /*!< What index does this data currently reside */
@@ -633,7 +644,7 @@ namespace sparta
             // 3. Set the current free space pointer's next to the old free position
             DataPointer* oldFree = free_position_;
             free_position_ = buffer_map_[idx];
-            free_position_->data->~value_type();
+            free_position_->release();
             free_position_->next_free = oldFree;
 
             // Mark DataPointer as invalid
@@ -698,7 +709,7 @@ namespace sparta
                           [] (auto map_entry)
                           {
                               if(map_entry) {
-                                  map_entry->data->~value_type();
+                                  map_entry->release();
                               }
                           });
             std::fill(buffer_map_.begin(), buffer_map_.end(), nullptr);
@@ -995,7 +1006,7 @@ namespace sparta
             // Store the index in the data_pool_ to which current
             // free_position_ points to. We need to relink all these
             // pointers once the data_pool_ resizes.
-            address_map_[num_valid_] =
+            address_map_[idx] =
                 static_cast<uint32_t>(free_position_ - &data_pool_[0]);
             ++num_valid_;
             free_position_ = free_position_->next_free;
-- 
2.43.0


From 69e532e58102df614cb86d32bf03e8cd1756fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:45 +0000
Subject: [PATCH 012/110] fix: erasing a Buffer entry through an iterator that
 is no longer valid throws instead of erasing another entry

---
 sparta/sparta/resources/Buffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index f44c7d8..dc3ef53 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -684,6 +684,8 @@ namespace sparta
         {
             sparta_assert(entry.attached_buffer_ == this,
                           "Cannot erase an entry created by another Buffer");
+            sparta_assert(entry.isValid(),
+                          "Cannot erase an entry that is no longer valid");
             // erase the index in the actual buffer.
             erase(entry.getIndex_());
             return {this, buffer_map_[entry.getIndex_()]};
-- 
2.43.0


From bfea036282963bd0553484200b3cf3d966c04c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:00 +0000
Subject: [PATCH 013/110] fix: destroying or clearing a moved-from Buffer, or
 one of no entries, no longer crashes

---
 sparta/sparta/resources/Buffer.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index dc3ef53..42f975d 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -715,12 +715,15 @@ namespace sparta
                               }
                           });
             std::fill(buffer_map_.begin(), buffer_map_.end(), nullptr);
-            for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
-                data_pool_[i].next_free = &data_pool_[i + 1];
+            // A moved-from buffer, or one of no entries, has no pool
+            if(data_pool_size_ > 0) {
+                for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
+                    data_pool_[i].next_free = &data_pool_[i + 1];
+                }
+                data_pool_[data_pool_size_ - 1].next_free = &data_pool_[data_pool_size_ - 1];
+                free_position_ = &data_pool_[0];
+                first_position_ = &data_pool_[0];
             }
-            data_pool_[data_pool_size_ - 1].next_free = &data_pool_[data_pool_size_ - 1];
-            free_position_ = &data_pool_[0];
-            first_position_ = &data_pool_[0];
             validator_->clear();
             address_map_.clear();
             updateUtilizationCounters_();
-- 
2.43.0


From cf64dbf8ce9ac347b8df90a930fc4407b5340303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:33 +0000
Subject: [PATCH 014/110] fix: inserting into a full CircularBuffer exceeded
 its capacity; insert and erase left the occupancy statistics stale

---
 sparta/sparta/resources/CircularBuffer.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 3630fee..62bc38d 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -700,6 +700,7 @@ namespace sparta
             circularbuffer_data_.erase(entry.getInternalBufferEntry_());
             --num_valid_;
             invalidateIndexes_();
+            updateUtilizationCounters_();
         }
 
         template<typename U>
@@ -732,10 +733,18 @@ namespace sparta
             }
             sparta_assert(entry.isValid(),
                         "Cannot insert into Circularbuffer at given iterator");
+            const auto oldest = circularbuffer_data_.begin();
             auto it = circularbuffer_data_.insert(entry.getInternalBufferEntry_(),
                                                   CircularBufferData(std::forward<U>(dat), end_idx_));
-            ++num_valid_;
+            // Like push_back, inserting into a full buffer replaces the oldest entry
+            if(num_valid_ == max_size_) {
+                circularbuffer_data_.erase(oldest);
+            }
+            else {
+                ++num_valid_;
+            }
             invalidateIndexes_();
+            updateUtilizationCounters_();
             return iterator(this, it, it->window_idx);
         }
 
-- 
2.43.0


From 07901b89db8dd92e249d48a2949b82428219017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:25 +0000
Subject: [PATCH 015/110] fix: overwriting an Array entry leaked the replaced
 element

---
 sparta/sparta/resources/Array.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Array.hpp b/sparta/sparta/resources/Array.hpp
index 15e0432..8f9abc1 100644
--- a/sparta/sparta/resources/Array.hpp
+++ b/sparta/sparta/resources/Array.hpp
@@ -944,7 +944,16 @@ namespace sparta
 
             // Since we are not timed. Write the data and validate it,
             // then do pipeline collection.
-            new (array_.get() + idx) ArrayPosition(std::forward<U>(dat));
+            if(SPARTA_EXPECT_FALSE(isValid(idx)))
+            {
+                // The given data might refer to the entry being replaced
+                DataT new_data(std::forward<U>(dat));
+                array_[idx].~ArrayPosition();
+                new (array_.get() + idx) ArrayPosition(std::move(new_data));
+            }
+            else {
+                new (array_.get() + idx) ArrayPosition(std::forward<U>(dat));
+            }
             valid_index_set_.insert(idx);
 
             // Timestamp the entry in the array, for fast age comparison between two indexes.
-- 
2.43.0


From c6480bc48a9dff3cc23fa3c99f2a52c2125c2c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:25 +0000
Subject: [PATCH 016/110] fix: FrontArray::readValid skipped or looped forever
 on gaps; rvalue push_front/push_back did not compile

---
 sparta/sparta/resources/FrontArray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/resources/FrontArray.hpp b/sparta/sparta/resources/FrontArray.hpp
index e7b9121..ee4319f 100644
--- a/sparta/sparta/resources/FrontArray.hpp
+++ b/sparta/sparta/resources/FrontArray.hpp
@@ -57,7 +57,7 @@ namespace sparta{
             uint32_t i = 0;
             while(n <= nth)
             {
-                if(BaseArray::isValid(n))
+                if(BaseArray::isValid(i))
                 {
                     ++n;
                 }
@@ -132,7 +132,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_front(DataT&& dat) { return writeFront(std::forward(dat)); }
+        uint32_t push_front(DataT&& dat) { return writeFront(std::move(dat)); }
 
         /**
          * \brief Push the first available index in the Array starting from the back
@@ -146,7 +146,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_back(DataT && dat) { return writeBack(std::forward(dat)); }
+        uint32_t push_back(DataT && dat) { return writeBack(std::move(dat)); }
 
     private:
         template<typename U>
-- 
2.43.0


From 2eb7edfff5cfaf4e52921fd48dcc4adb3752a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 017/110] fix: Pipe::flushIf discounted appended data that
 numValid() had not counted

---
 sparta/sparta/resources/Pipe.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/Pipe.hpp b/sparta/sparta/resources/Pipe.hpp
index f041552..c4ebe32 100644
--- a/sparta/sparta/resources/Pipe.hpp
+++ b/sparta/sparta/resources/Pipe.hpp
@@ -385,7 +385,7 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(pe.data.getValue() == criteria){
-                    if(pe.data.isValid()) {
+                    if(i >= 0) { // appended data is not counted yet
                         --num_valid_;
                     }
                     pe.data.clearValid();
@@ -408,7 +408,7 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(compare(pe.data.getValue())){
-                    if(pe.data.isValid()) {
+                    if(i >= 0) { // appended data is not counted yet
                         --num_valid_;
                     }
                     pe.data.clearValid();
-- 
2.43.0


From 1940269dca0d73d16ad4191df976fec561af540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 018/110] fix: writing a SharedData twice in one cycle lost
 both values

---
 sparta/sparta/resources/SharedData.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/SharedData.hpp b/sparta/sparta/resources/SharedData.hpp
index 8b23e9c..3e34fb8 100644
--- a/sparta/sparta/resources/SharedData.hpp
+++ b/sparta/sparta/resources/SharedData.hpp
@@ -84,12 +84,14 @@ namespace sparta
             data_(std::move(rhs.data_))
         {
             resetHandler_();
+            rhs.update_pending_ = false;
         }
 
         SharedData& operator=(const SharedData& rhs)
         {
             ev_update_ = rhs.ev_update_;
             resetHandler_();
+            update_pending_ = false; // the assigned event has nothing scheduled
 
             current_state_ = rhs.current_state_;
             data_ = rhs.data_;
@@ -101,6 +103,8 @@ namespace sparta
         {
             ev_update_ = std::move(rhs.ev_update_);
             resetHandler_();
+            update_pending_ = false; // the assigned event has nothing scheduled
+            rhs.update_pending_ = false;
 
             current_state_ = std::move(rhs.current_state_);
             data_ = std::move(rhs.data_);
@@ -233,12 +237,17 @@ namespace sparta
         void writeImpl_(U && dat) {
             data_[NState_()] = std::forward<U>(dat);
             if constexpr (!manual_update) {
-                ev_update_.schedule(1);
+                // One update only, no matter how many writes this cycle
+                if(!update_pending_) {
+                    ev_update_.schedule(1);
+                    update_pending_ = true;
+                }
             }
         }
 
         void update_()
         {
+            update_pending_ = false;
             current_state_ = NState_();
             clearNS();
         }
@@ -246,6 +255,9 @@ namespace sparta
         // Global Event
         GlobalEvent<SchedulingPhase::Update> ev_update_;
 
+        // Is an update already scheduled?
+        bool update_pending_ = false;
+
         // Current state
         uint32_t current_state_ = 0;
 
-- 
2.43.0


From d819d5e18f71121ac4a34b66c0bb39d95acd6737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:12 +0000
Subject: [PATCH 019/110] fix: flushing a pipeline stage did not cancel its
 handlers when its events had been deactivated or suppressed by a stall after
 scheduling

---
 sparta/sparta/resources/Pipeline.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/Pipeline.hpp b/sparta/sparta/resources/Pipeline.hpp
index b7f58f8..4f5dad2 100644
--- a/sparta/sparta/resources/Pipeline.hpp
+++ b/sparta/sparta/resources/Pipeline.hpp
@@ -1026,8 +1026,7 @@ namespace sparta
         {
             sparta_assert(stage_id < num_stages_,
                           "Try to cancel events for invalid pipeline stage[" << stage_id << "]");
-            if (pipe_.isValid(stage_id) && events_valid_at_stage_[stage_id]) {
-                sparta_assert(event_list_at_stage_[stage_id].size());
+            if (pipe_.isValid(stage_id)) {
                 for (const auto & ev_ptr :  event_list_at_stage_[stage_id]) {
                     ev_ptr->cancel(sparta::Clock::Cycle(0));
                 }
-- 
2.43.0


From e8e76062c811a98e103c5f0874b997402c892cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:20 +0000
Subject: [PATCH 020/110] fix: a pipeline stall reactivated stage handlers the
 user had deactivated

---
 sparta/sparta/resources/Pipeline.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/resources/Pipeline.hpp b/sparta/sparta/resources/Pipeline.hpp
index 4f5dad2..3e01857 100644
--- a/sparta/sparta/resources/Pipeline.hpp
+++ b/sparta/sparta/resources/Pipeline.hpp
@@ -258,6 +258,7 @@ namespace sparta
                           "Error: Pipeline is templated on a unsupported Event type. Supported Event types: "
                           "UniqueEvent, PayloaodEvent (where DataT == DataT of the Pipeline).");
             events_valid_at_stage_.resize(num_stages, false);
+            events_stalled_at_stage_.resize(num_stages, false);
             advance_into_stage_.resize(num_stages, true);
 
             ev_pipeline_update_.setScheduleableClock(clk);
@@ -1039,7 +1040,7 @@ namespace sparta
             sparta_assert(num_stages_ == event_list_at_stage_.size());
 
             for (uint32_t i = 0; i < num_stages_; i++) {
-                if (pipe_.isValid(i) && events_valid_at_stage_[i]) {
+                if (pipe_.isValid(i) && events_valid_at_stage_[i] && !events_stalled_at_stage_[i]) {
                     sparta_assert(event_list_at_stage_[i].size());
                     for (const auto & ev_ptr :  event_list_at_stage_[i]) {
                         if constexpr (std::is_same_v<EventT, PhasedPayloadEvent<DataT>>) {
@@ -1067,7 +1068,7 @@ namespace sparta
                 }
 
                 if (suppress_events && event_list_at_stage_[stage_id].size() > 0) {
-                    events_valid_at_stage_[stage_id] = false;
+                    events_stalled_at_stage_[stage_id] = true;
                 }
                 advance_into_stage_[stage_id] = false;
             }
@@ -1080,7 +1081,7 @@ namespace sparta
                 sparta_assert(stage_id < num_stages_,
                               "Try to restart invalid pipeline stage[" << stage_id << "]");
                 if (event_list_at_stage_[stage_id].size() > 0) {
-                    events_valid_at_stage_[stage_id] = true;
+                    events_stalled_at_stage_[stage_id] = false;
                 }
                 advance_into_stage_[stage_id] = true;
             }
@@ -1106,6 +1107,8 @@ namespace sparta
 
         //! A vector of valid/active bits for pipeline stage events
         std::vector<bool> events_valid_at_stage_;
+        //! Events suppressed by a stall at each stage (independent of user (de)activation)
+        std::vector<bool> events_stalled_at_stage_;
         std::vector<bool> advance_into_stage_;
 
         //! A vector of event index matrix for every pipeline stage
-- 
2.43.0


From 3198de79a27d9b44852d528dbd1e0602301cb6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 021/110] fix: copying or moving a BitArray into another no
 longer leaves both on the same storage

---
 sparta/sparta/utils/BitArray.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/utils/BitArray.hpp b/sparta/sparta/utils/BitArray.hpp
index 583e0c7..497e349 100644
--- a/sparta/sparta/utils/BitArray.hpp
+++ b/sparta/sparta/utils/BitArray.hpp
@@ -89,11 +89,17 @@ namespace sparta {
                 std::copy(other.data_, other.data_ + data_size_, data_);
             }
 
-            BitArray &operator=(const BitArray &other) = default;
-
-            BitArray(BitArray &&) = default;
-
-            BitArray &operator=(BitArray &&) = default;
+            BitArray &operator=(const BitArray &other)
+            {
+                if (this != &other) {
+                    data_ = nullptr;
+                    data_size_ = 0;
+                    data_ls_.clear();
+                    initializeStorage_(other.data_size_);
+                    std::copy(other.data_, other.data_ + data_size_, data_);
+                }
+                return *this;
+            }
 
             const void *getValue() const
             {
-- 
2.43.0


From 742fbff411b65a616ac6e6ab6efd75a314070f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 022/110] fix: shifting a BitArray by more than its width no
 longer accesses memory outside it

---
 sparta/sparta/utils/BitArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/utils/BitArray.hpp b/sparta/sparta/utils/BitArray.hpp
index 497e349..ed5d128 100644
--- a/sparta/sparta/utils/BitArray.hpp
+++ b/sparta/sparta/utils/BitArray.hpp
@@ -251,6 +251,7 @@ namespace sparta {
 
             static void shiftLeftWords_(BitArray &array, size_t amount)
             {
+                amount = std::min(amount, array.data_size_);
                 const auto first = array.data_;
                 const auto last = array.data_ + array.data_size_;
 
@@ -281,6 +282,7 @@ namespace sparta {
 
             static void shiftRightWords_(BitArray &array, size_t amount)
             {
+                amount = std::min(amount, array.data_size_);
                 const auto first = array.data_;
                 const auto last = array.data_ + array.data_size_;
 
-- 
2.43.0


From 36aca1eef46b5dabe273c059d055318396f1f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 023/110] fix: safe_power detects every overflow and accepts
 negative bases

---
 sparta/sparta/utils/MathUtils.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sparta/sparta/utils/MathUtils.hpp b/sparta/sparta/utils/MathUtils.hpp
index deb1b12..29074a8 100644
--- a/sparta/sparta/utils/MathUtils.hpp
+++ b/sparta/sparta/utils/MathUtils.hpp
@@ -341,9 +341,7 @@ namespace sparta {
             T result = n;
             for (T x = 1; x < e; x++)
             {
-                T old_result = result;
-                result *= n;
-                if (old_result > result)
+                if (__builtin_mul_overflow(result, n, &result))
                 {
                     throw SpartaException("power() overflowed!");
                 }
-- 
2.43.0


From ec290da8cbc1d180a11e71803d7c8d0e8d23e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 024/110] fix: stripping the whitespace of an empty or blank
 string no longer throws

---
 sparta/sparta/utils/StringUtils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparta/sparta/utils/StringUtils.hpp b/sparta/sparta/utils/StringUtils.hpp
index f0ba040..adcf748 100644
--- a/sparta/sparta/utils/StringUtils.hpp
+++ b/sparta/sparta/utils/StringUtils.hpp
@@ -164,6 +164,9 @@ inline std::string strip_whitespace(const std::string &str)
     size_t start_pos = str.find_first_not_of(STR_WHITESPACE);
     size_t end_pos   = str.find_last_not_of(STR_WHITESPACE);
 
+    if (start_pos == std::string::npos) {
+        return "";
+    }
     return str.substr(start_pos, end_pos-start_pos + 1);
 }   //! function strip_whitespace()
 
-- 
2.43.0


From 5445cfa30609c260f7c249730cd31cf0d668ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 025/110] fix: LevenshteinDistance counts insertions and
 unmatched prefixes

---
 sparta/sparta/utils/StringUtils.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/StringUtils.hpp b/sparta/sparta/utils/StringUtils.hpp
index adcf748..5729de9 100644
--- a/sparta/sparta/utils/StringUtils.hpp
+++ b/sparta/sparta/utils/StringUtils.hpp
@@ -386,6 +386,12 @@ inline uint32_t LevenshteinDistance(const char * s, size_t n,
     size_t * d = dptr.get();
 
     memset(d, 0, sizeof(size_t) * n * m);
+    for (size_t i = 0; i < m; ++i) {
+        d[i * n] = i;
+    }
+    for (size_t j = 0; j < n; ++j) {
+        d[j] = j;
+    }
     for (size_t i = 1, im = 0; i < m; ++i, ++im) {
         for (size_t j = 1, jn = 0; j < n; ++j, ++jn) {
             if (s[jn] == t[im]) {
@@ -393,7 +399,7 @@ inline uint32_t LevenshteinDistance(const char * s, size_t n,
             } else {
                 d[(i * n) + j] = std::min({
                     d[(i - 1) * n + j] + 1,          //! A deletion
-                    d[(i - 1) * n + j] + 1,          //! An insertion
+                    d[i * n + (j - 1)] + 1,          //! An insertion
                     d[(i - 1) * n + (j - 1)] + 1     //! A substitution
                 });
             }
-- 
2.43.0


From f5a788f0864d55b4b879586dfb98474444702142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 026/110] fix: computeMask is right for sizes of 2^31 and more

---
 sparta/sparta/utils/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/Utils.hpp b/sparta/sparta/utils/Utils.hpp
index c7460e8..932ee5a 100644
--- a/sparta/sparta/utils/Utils.hpp
+++ b/sparta/sparta/utils/Utils.hpp
@@ -177,7 +177,7 @@ inline T computeMask(T size, T& lsb_pos) {
                 << size;
         }
         lsb_pos = (T)tmp;
-        mask = ~((1 << lsb_pos) - 1);
+        mask = ~((T(1) << lsb_pos) - 1);
 
         sparta_assert((1ul << lsb_pos) == size);
     }else{
-- 
2.43.0


From 2483d6c029f3892a7a77a9fb2baab5577f4212c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 027/110] fix: demangling a name longer than the buffer no
 longer reallocates stack memory

---
 sparta/sparta/utils/Utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/utils/Utils.hpp b/sparta/sparta/utils/Utils.hpp
index 932ee5a..beb1112 100644
--- a/sparta/sparta/utils/Utils.hpp
+++ b/sparta/sparta/utils/Utils.hpp
@@ -212,14 +212,14 @@ inline T computeMaskShift(T size) {
  * symbol names.
  */
 inline std::string demangle(const std::string& name) noexcept {
-    char buf[DEMANGLE_BUF_LENGTH];
-    size_t buf_size = DEMANGLE_BUF_LENGTH;
     int status;
-    char* out = __cxxabiv1::__cxa_demangle(name.c_str(), buf, &buf_size, &status);
+    char* out = __cxxabiv1::__cxa_demangle(name.c_str(), nullptr, nullptr, &status);
     if(nullptr == out){
         return name;
     }
-    return std::string(out);
+    const std::string result(out);
+    std::free(out);
+    return result;
 }
 
 /*!
-- 
2.43.0


From 37b54679117ec5151dcac610f2918c873b29b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 028/110] fix: comparing a ValidValue with an invalid one
 throws whichever side is invalid

---
 sparta/sparta/utils/ValidValue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/utils/ValidValue.hpp b/sparta/sparta/utils/ValidValue.hpp
index 83dc266..9b69936 100644
--- a/sparta/sparta/utils/ValidValue.hpp
+++ b/sparta/sparta/utils/ValidValue.hpp
@@ -114,6 +114,7 @@ namespace utils
          */
         bool operator==(const ValidValue<T> & val) const {
             sparta_assert(valid_ == true, "ValidValue is not valid for compare!");
+            sparta_assert(val.valid_ == true, "ValidValue is not valid for compare!");
             return (value_ == val.value_);
         }
 
-- 
2.43.0


From 53e9f7ecbeb1aee8399fd8d079b915ff42ae40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:50 +0000
Subject: [PATCH 029/110] fix: bounded_int compares values of different
 signedness correctly

---
 sparta/sparta/utils/Utils.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/utils/Utils.hpp b/sparta/sparta/utils/Utils.hpp
index beb1112..d3864c4 100644
--- a/sparta/sparta/utils/Utils.hpp
+++ b/sparta/sparta/utils/Utils.hpp
@@ -652,6 +652,18 @@ public:
         rangeCheck_(val);
     }
 
+    // Compares by value, whatever the signedness of the two types
+    template <typename A, typename B>
+    static constexpr bool less_(A a, B b) {
+        if constexpr (std::is_signed<A>::value == std::is_signed<B>::value) {
+            return a < b;
+        } else if constexpr (std::is_signed<A>::value) {
+            return a < 0 || static_cast<typename std::make_unsigned<A>::type>(a) < b;
+        } else {
+            return b >= 0 && a < static_cast<typename std::make_unsigned<B>::type>(b);
+        }
+    }
+
     template <typename ArgT>
     void rangeCheck_(ArgT val){
         lowerRangeCheck_(val);
@@ -661,7 +673,7 @@ public:
     template <typename ArgT=T>
     typename std::enable_if<std::numeric_limits<ArgT>::min()!=min_bound, void>::type
     lowerRangeCheck_(ArgT val) const {
-        sparta_assert(val >= min_bound,
+        sparta_assert(!less_(val, min_bound),
             "Tried to store a " << typeid(ArgT).name() << " into a bounded " << typeid(T).name() << ". Not safe to "
             "cast  " << val << " into a type with a minimum of " << min_bound);
     }
@@ -675,7 +687,7 @@ public:
     template <typename ArgT=T>
     typename std::enable_if<std::numeric_limits<ArgT>::max()!=max_bound, void>::type
     upperRangeCheck_(ArgT val) const {
-        sparta_assert(val <= max_bound,
+        sparta_assert(!less_(max_bound, val),
             "Tried to store a " << typeid(ArgT).name() << " into a bounded " << typeid(T).name() << ". Not safe to "
             "cast " << val << " into a type with a maximum of " << max_bound);
     }
-- 
2.43.0


From 50ca8f0e57ff486f6c664d4e8f89b1bd76b9ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:43 +0000
Subject: [PATCH 030/110] fix: computeMask rejects every size that is not a
 power of two

---
 sparta/sparta/utils/Utils.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/utils/Utils.hpp b/sparta/sparta/utils/Utils.hpp
index d3864c4..dd2ed39 100644
--- a/sparta/sparta/utils/Utils.hpp
+++ b/sparta/sparta/utils/Utils.hpp
@@ -171,12 +171,11 @@ template <typename T>
 inline T computeMask(T size, T& lsb_pos) {
     T mask;
     if(size >= 1){
-        double tmp = log2(size);
-        if(tmp != floor(tmp)){
+        if(!isPowerOf2(size)){
             throw SpartaException("For computeMask, size must be a power of 2, is ")
                 << size;
         }
-        lsb_pos = (T)tmp;
+        lsb_pos = (T)log2(size);
         mask = ~((T(1) << lsb_pos) - 1);
 
         sparta_assert((1ul << lsb_pos) == size);
-- 
2.43.0


From 305fdbeeb4375a885d721bee981ac1ada74cc994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:07 +0000
Subject: [PATCH 031/110] fix: printing a register mask keeps a range that ends
 at the last register

---
 sparta/src/Scoreboard.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 40d9061..c0a8f6e 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -400,6 +400,10 @@ namespace sparta
             }
             ++v;
         }
+        if(in_range && (range_start_v + 1 != v)) {
+            ret += '-';
+            ret += std::to_string(v-1);
+        }
         ret += ']';
         return ret;
     }
-- 
2.43.0


From 2f7087436b76b0a29c94c14960825b3d81be7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:08 +0000
Subject: [PATCH 032/110] fix: a hexadecimal or octal latency is read the way
 it was validated

---
 sparta/src/Scoreboard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index c0a8f6e..9b4131f 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -133,7 +133,7 @@ namespace sparta
             {
                 try {
                     forwarding_latencies_[producer_id][consumer_column_idx - 1] =
-                        std::stol(producer_row[consumer_column_idx]);
+                        std::stol(producer_row[consumer_column_idx], nullptr, 0);
                 }
                 catch(...) {
                     sparta_assert(false, "Error while trying to convert " <<
-- 
2.43.0


From 9e0e2d3ccdae704951e1eab502d244a9361ad8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:17 +0000
Subject: [PATCH 033/110] fix: a register cleared while its readiness is being
 forwarded no longer becomes ready

---
 sparta/sparta/resources/Scoreboard.hpp |  7 ++++++-
 sparta/src/Scoreboard.cpp              | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/resources/Scoreboard.hpp b/sparta/sparta/resources/Scoreboard.hpp
index 695a551..ca966da 100644
--- a/sparta/sparta/resources/Scoreboard.hpp
+++ b/sparta/sparta/resources/Scoreboard.hpp
@@ -165,9 +165,14 @@ namespace sparta
         // Unit ID count
         uint32_t unit_id_ = 0;
 
+        // Bits of the updates still being forwarded.  clearBits
+        // removes the cleared registers from them
+        using ForwardedBits = std::list<RegisterBitMask>;
+        ForwardedBits forwarded_bits_;
+
         // Structure to hold a forwarded scoreboard update
         struct ScoreboardUpdate {
-            RegisterBitMask bits;
+            ForwardedBits::iterator bits;
             UnitID    producer;
         };
 
diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 9b4131f..6cbb2bd 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -169,7 +169,8 @@ namespace sparta
         {
             if(latency != 0) {
                 scoreboard_view_updates_.
-                    preparePayload(ScoreboardViewUpdate{{bits, producer}, sbv, false})->schedule(latency);
+                    preparePayload(ScoreboardViewUpdate{{forwarded_bits_.insert(forwarded_bits_.end(), bits), producer},
+                                                        sbv, false})->schedule(latency);
             } else {
                 sbv->receiveScoreboardUpdate_(bits, producer);
             }
@@ -182,6 +183,11 @@ namespace sparta
         const auto inv_bits     = ~bits;
         global_reg_ready_mask_ &= inv_bits;
 
+        // Updates on their way to the views must not set them again
+        for(auto & forwarded : forwarded_bits_) {
+            forwarded &= inv_bits;
+        }
+
         // Update registered scoreboards
         for(auto & sbvs : unit_id_to_scoreboard_views_) {
             for (auto * sbv : sbvs) {
@@ -223,7 +229,11 @@ namespace sparta
     // Payload receiving methods
     void Scoreboard::deliverScoreboardUpdate_(const ScoreboardViewUpdate & update)
     {
-        update.second->receiveScoreboardUpdate_(update.first.bits, update.first.producer);
+        const RegisterBitMask bits = *update.first.bits;
+        forwarded_bits_.erase(update.first.bits);
+        if(bits.any()) {
+            update.second->receiveScoreboardUpdate_(bits, update.first.producer);
+        }
     }
 
     ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 9f94a7753862c9d3e40a6c74a2d81c71ff94a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:30 +0000
Subject: [PATCH 034/110] fix: a scoreboard view starts with the registers that
 are ready when it is created

---
 sparta/src/Scoreboard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 6cbb2bd..509e84c 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -213,7 +213,7 @@ namespace sparta
                       "Ack!  Bug in Scoreboard registerView.  The unit_name_to_id_ map "
                       "is outta wack with with the unit_id_to_scoreboard_views_ vector");
         unit_id_to_scoreboard_views_[unit_id].emplace_back(view);
-        view->receiveScoreboardUpdate_(Scoreboard::RegisterBitMask({global_reg_ready_mask_}), INVALID_UNIT_ID);
+        view->local_ready_mask_ = global_reg_ready_mask_;
         // Setup the mapping from other producers to this scoreboard view as consumer
         for(uint32_t producer = 0; producer < producer_to_consumer_scoreboard_views_.size(); ++producer)
         {
-- 
2.43.0


From 960a4ac4bb83267a632c729a3bff958dc334a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:44 +0000
Subject: [PATCH 035/110] fix: a readiness callback that sets registers or
 clears callbacks fires once and is not freed while it runs

---
 sparta/sparta/resources/Scoreboard.hpp | 1 +
 sparta/src/Scoreboard.cpp              | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/resources/Scoreboard.hpp b/sparta/sparta/resources/Scoreboard.hpp
index ca966da..bf825f5 100644
--- a/sparta/sparta/resources/Scoreboard.hpp
+++ b/sparta/sparta/resources/Scoreboard.hpp
@@ -316,6 +316,7 @@ namespace sparta
             const Scoreboard::RegisterBitMask needed_bits;
             const Scoreboard::InstID          inst_id;
             ReadinessCallback                 callback;
+            bool                              firing = false;
             sparta::Clock::Cycle              registered_time;
         };
 
diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 509e84c..ed32461 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -273,9 +273,10 @@ namespace sparta
         const auto eit = ready_callbacks_.end();
         while(cbit != eit)
         {
-            const auto & cb_data = *cbit;
-            if (cb_data.needed_bits == (local_ready_mask_ & cb_data.needed_bits))
+            auto & cb_data = *cbit;
+            if (!cb_data.firing && cb_data.needed_bits == (local_ready_mask_ & cb_data.needed_bits))
             {
+                cb_data.firing = true;
                 cb_data.callback(bits);
                 cbit = ready_callbacks_.erase(cbit);
                 continue;
@@ -300,7 +301,7 @@ namespace sparta
                             while (cbit != eit)
                             {
                                 const auto & cb_data = *cbit;
-                                if((cb_data.inst_id == inst_id))
+                                if((cb_data.inst_id == inst_id) && !cb_data.firing)
                                 {
                                     cbit = callbacks.erase(cbit);
                                 } else {
-- 
2.43.0


From 341376f78fd841c77b83d9d686008d13f9386d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:18 +0000
Subject: [PATCH 036/110] fix: filling with an 8-byte pattern no longer shifts
 it by its whole width

---
 sparta/sparta/functional/ArchData.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index 4cce93e..55a8ac5 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -1245,7 +1245,8 @@ namespace sparta
                           "Cannot have a buf_offset larger than FillT size. Must be buffer offset % fill size");
 
             // Realign the pattern so it coincides with the misalignment of buf
-            const FillT shifted_fill = (fill >> (buf_offset * 8)) | (fill << ((sizeof(FillT) - buf_offset) * 8));
+            const FillT shifted_fill = (buf_offset == 0) ? fill :
+                static_cast<FillT>((fill >> (buf_offset * 8)) | (fill << ((sizeof(FillT) - buf_offset) * 8)));
 
             // Handle case where buf is smaller than fill pattern
             if(sizeof(FillT) >= size) {
-- 
2.43.0


From 640e88e066f4b4f7adfc2ee44222a2cf6e02f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:18 +0000
Subject: [PATCH 037/110] fix: padded reads and truncated writes of a type
 smaller than the view access only that type

---
 sparta/sparta/functional/DataView.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/DataView.hpp b/sparta/sparta/functional/DataView.hpp
index 691f4ce..1e294f8 100644
--- a/sparta/sparta/functional/DataView.hpp
+++ b/sparta/sparta/functional/DataView.hpp
@@ -196,6 +196,10 @@ namespace sparta
             offset_type max_bytes = getSize() - (sizeof(T) * idx); // Must always be a power of 2
             sparta_assert(isPowerOf2(max_bytes));
 
+            if(sizeof(T) <= max_bytes){
+                return readUnsafe<T, BO>(idx);
+            }
+
             T result;
             if(max_bytes >= 8){
                 result = line_->read<uint64_t, BO>(offset_, idx);
@@ -302,7 +306,9 @@ namespace sparta
             offset_type max_bytes = getSize() - (sizeof(T) * idx); // Must always be a power of 2
             sparta_assert(isPowerOf2(max_bytes));
 
-            if(max_bytes >= 8){
+            if(sizeof(T) <= max_bytes){
+                writeUnsafe<T, BO>(val, idx);
+            }else if(max_bytes >= 8){
                 line_->write<uint64_t, BO>(offset_, (uint64_t)val, idx);
             }else if(max_bytes == 4){
                 line_->write<uint32_t, BO>(offset_, (uint32_t)val, idx);
-- 
2.43.0


From 850b63b4c7d4e66a678c6de3da447e45427a83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 038/110] fix: swapping the bytes of a negative 16-bit value no
 longer smears its sign

---
 sparta/sparta/utils/ByteOrder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/ByteOrder.hpp b/sparta/sparta/utils/ByteOrder.hpp
index 4144b62..419dcc1 100644
--- a/sparta/sparta/utils/ByteOrder.hpp
+++ b/sparta/sparta/utils/ByteOrder.hpp
@@ -107,7 +107,7 @@ namespace sparta
     //! \overload byte_swap(T val)
     template <>
     inline int16_t byte_swap(int16_t val) {
-        return (val << 8 | val >> 8);
+        return static_cast<int16_t>(byte_swap<uint16_t>(static_cast<uint16_t>(val)));
     }
 
     //! \overload byte_swap(T val)
-- 
2.43.0


From b270d1ac3125322301138cd014c2239ad51c2fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:46 +0000
Subject: [PATCH 039/110] fix: a line refilled by clean() or reset() counts as
 changed for the next delta checkpoint

---
 sparta/sparta/functional/ArchData.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index 55a8ac5..6b0cb24 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -234,6 +234,7 @@ namespace sparta
              */
             void fillWithInitial(uint64_t initial, uint32_t initial_val_size) {
                 ArchData::fillValue(data_, size_, initial, initial_val_size, 0);
+                dirty_ = true;
             }
 
             /*!
-- 
2.43.0


From 213a32aff84184d0a7783590ebdd98a92cd2684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:42 +0000
Subject: [PATCH 040/110] fix: shifting wide register bits right no longer
 shifts an int by 32 or more

---
 sparta/sparta/functional/RegisterBits.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 1db515a..6b9a7e4 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -369,8 +369,7 @@ namespace sparta
                     if(remaining_bits_to_shift)
                     {
                         const uint64_t prev_dbl_word_bits_dropped_mask =
-                            (uint64_t)(-(remaining_bits_to_shift != 0) &
-                                       (-1 >> ((sizeof(uint64_t) * 8) - remaining_bits_to_shift)));
+                            std::numeric_limits<uint64_t>::max() >> ((sizeof(uint64_t) * 8) - remaining_bits_to_shift);
                         const uint32_t prev_dbl_word_bit_pos = 64 - remaining_bits_to_shift;
                         uint32_t idx =0;
                         while(true)
-- 
2.43.0


From d50f9ebcae8fe79a6eb398c79004bd0ea1f547c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:42 +0000
Subject: [PATCH 041/110] fix: shifting wide register bits left in place moves
 every word once

---
 sparta/sparta/functional/RegisterBits.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 6b9a7e4..0a95f51 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -569,10 +569,11 @@ namespace sparta
                 //
                 if(double_word_shift_count > 0)
                 {
-                    uint32_t dest_idx = double_word_shift_count;
-                    for(uint32_t src_idx = 0; dest_idx < num_dbl_words; ++dest_idx, ++src_idx) {
-                        *(final_data + dest_idx) = *(src_data + src_idx);
-                        *(src_data + src_idx) = 0;
+                    // From the top down, as source and destination overlap
+                    uint32_t dest_idx = num_dbl_words;
+                    while(dest_idx-- > 0) {
+                        *(final_data + dest_idx) = (dest_idx >= double_word_shift_count) ?
+                            *(src_data + (dest_idx - double_word_shift_count)) : 0;
                     }
                 }
 
-- 
2.43.0


From 7b6b65fd55aaa107143a0cd405bd880d405f6403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:42 +0000
Subject: [PATCH 042/110] fix: RegisterBits::none() requires every byte to be
 zero, not just equal

---
 sparta/sparta/functional/RegisterBits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 0a95f51..899d777 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -713,7 +713,7 @@ namespace sparta
         bool none() const {
             sparta_assert(num_bytes_ > 0);
             const auto mem_data_plus_one = remote_data_ + 1;
-            return (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
+            return (*remote_data_ == 0) && (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
         }
 
         /**
-- 
2.43.0


From bed784125f9ba5a7f002fdc31d8f00c38f5f1ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 043/110] fix: masked register writes of sizes that are not a
 power of two write the given bytes

---
 sparta/sparta/functional/RegisterBits.hpp | 29 ++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 899d777..d83e9d8 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -214,7 +214,7 @@ namespace sparta
             else if(num_bytes_ == 4) {
                 return bitMerge_<uint32_t, std::bit_or<uint32_t>>(*this, rh_bits);
             }
-            else if(num_bytes_ > 8)
+            else if(num_bytes_ > 8 && num_bytes_ % 8 == 0)
             {
                 RegisterBits final_value(num_bytes_);
                 // 64-bit chunks
@@ -233,8 +233,12 @@ namespace sparta
                 return bitMerge_<uint8_t, std::bit_or<uint8_t>>(*this, rh_bits);
             }
 
-            // undefined
-            return RegisterBits(nullptr);
+            // Any other size
+            RegisterBits final_value(num_bytes_);
+            for(uint32_t idx = 0; idx < num_bytes_; ++idx) {
+                final_value.local_data_[idx] = remote_data_[idx] | rh_bits.remote_data_[idx];
+            }
+            return final_value;
         }
 
         /**
@@ -250,7 +254,7 @@ namespace sparta
             else if(num_bytes_ == 4) {
                 return bitMerge_<uint32_t, std::bit_and<uint32_t>>(*this, rh_bits);
             }
-            else if(num_bytes_ > 8)
+            else if(num_bytes_ > 8 && num_bytes_ % 8 == 0)
             {
                 RegisterBits final_value(num_bytes_);
                 // 64-bit chunks
@@ -269,8 +273,12 @@ namespace sparta
                 return bitMerge_<uint8_t, std::bit_and<uint8_t>>(*this, rh_bits);
             }
 
-            // undefined
-            return RegisterBits(nullptr);
+            // Any other size
+            RegisterBits final_value(num_bytes_);
+            for(uint32_t idx = 0; idx < num_bytes_; ++idx) {
+                final_value.local_data_[idx] = remote_data_[idx] & rh_bits.remote_data_[idx];
+            }
+            return final_value;
         }
 
         /**
@@ -285,7 +293,7 @@ namespace sparta
             else if(num_bytes_ == 4) {
                 return bitNot_<uint32_t>(*this);
             }
-            else if(num_bytes_ > 8)
+            else if(num_bytes_ > 8 && num_bytes_ % 8 == 0)
             {
                 RegisterBits final_value(num_bytes_);
                 // 64-bit compares
@@ -302,7 +310,12 @@ namespace sparta
             else if(num_bytes_ == 1) {
                 return bitNot_<uint8_t>(*this);
             }
-            return RegisterBits(nullptr);
+            // Any other size
+            RegisterBits final_value(num_bytes_);
+            for(uint32_t idx = 0; idx < num_bytes_; ++idx) {
+                final_value.local_data_[idx] = ~remote_data_[idx];
+            }
+            return final_value;
         }
 
         /**
-- 
2.43.0


From 832b02884ed30c010495dcaf4d11ac848eb03ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 044/110] fix: Register::writeUnmasked scales its index by the
 access size

---
 sparta/sparta/functional/Register.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 5a6ea7a..8333021 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -1571,7 +1571,7 @@ public:
     inline void writeUnmasked(T val, index_type idx = 0)
     {
         assert(isWritable());
-        dmiWriteImpl_(&val, sizeof(T), idx);
+        dmiWriteImpl_(&val, sizeof(val), sizeof(val) * idx);
     }
 
 private:
-- 
2.43.0


From f969aba36d89711f84b7d51ae6c54a6afc36b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 045/110] fix: a value too wide for a field of a small register
 is refused, not truncated

---
 sparta/sparta/functional/Register.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 8333021..d1d43ab 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -407,7 +407,7 @@ public:
 
             // Check to see if the number of bits being written to the
             // field is larger than the field itself.
-            sparta_assert((field_value_to_be_written_shifted & not_field_mask_).none(),
+            sparta_assert((getNumBits() >= MAX_FIELD_BITS) || ((value >> getNumBits()) == 0),
                           "Value of " << value <<  " too large for bit field "
                           << getLocation() << " of size " << getNumBits());
 
-- 
2.43.0


From 64ea8b842a38cd94ed6415fee929d56a4a2ac007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 046/110] fix: resetting a register without an initial value no
 longer reads through a null pointer

---
 sparta/sparta/functional/Register.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index d1d43ab..9d5e816 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -802,6 +802,9 @@ public:
      * \note Uses poke internally so no notifications are posted
      */
     void reset(bool unmasked=true) {
+        if(def_.initial_value == nullptr){
+            return; // No default value to return to
+        }
         // Poke the whole value, one-byte at a time
         for(size_type i=0; i<def_.bytes; i++){
             if(unmasked){
-- 
2.43.0


From 937cb5087d71b02a940c8e127910a4b26bfb1b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:16 +0000
Subject: [PATCH 047/110] fix: memory: accesses whose end address overflows
 passed the access window check (out-of-bounds DMI accesses)

---
 sparta/sparta/memory/DebugMemoryIF.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/memory/DebugMemoryIF.hpp b/sparta/sparta/memory/DebugMemoryIF.hpp
index 13e7fbb..f1bb221 100644
--- a/sparta/sparta/memory/DebugMemoryIF.hpp
+++ b/sparta/sparta/memory/DebugMemoryIF.hpp
@@ -344,7 +344,7 @@ namespace sparta
             void verifyInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                if(__builtin_expect(addr < acc_windows_[0].start || addr+size > acc_windows_[0].end, 0)){
+                if(__builtin_expect(isInAccessWindows(addr, size) == false, 0)){
                     MemoryAccessError ex(addr, size, "any", "The access at does not fit within access windows: ");
                     ex << "{ [" << acc_windows_[0].start << "," << acc_windows_[0].end << ") }";
                     throw ex;
@@ -363,7 +363,9 @@ namespace sparta
             bool isInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                return addr >= acc_windows_[0].start && addr+size <= acc_windows_[0].end;
+                // Compare without computing addr+size, which may overflow
+                return addr >= acc_windows_[0].start && addr <= acc_windows_[0].end
+                    && size <= acc_windows_[0].end - addr;
             }
 
             /*!
-- 
2.43.0


From 89f9a373c8f5f54b4cdbce4ecc1928d22e6fffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:16 +0000
Subject: [PATCH 048/110] fix: memory: read and write notifications never
 carried the out_supplement

---
 sparta/sparta/memory/BlockingMemoryIFNode.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/memory/BlockingMemoryIFNode.hpp b/sparta/sparta/memory/BlockingMemoryIFNode.hpp
index 5421fea..d67d58f 100644
--- a/sparta/sparta/memory/BlockingMemoryIFNode.hpp
+++ b/sparta/sparta/memory/BlockingMemoryIFNode.hpp
@@ -345,6 +345,7 @@ namespace sparta
                     post_read_noti_data.size = size;
                     post_read_noti_data.data = buf;
                     post_read_noti_data.in_supplement = in_supplement;
+                    post_read_noti_data.out_supplement = out_supplement;
                     post_read_noti_.postNotification(post_read_noti_data);
                 }
 
@@ -434,6 +435,7 @@ namespace sparta
                     post_write_noti_data.prior = prior_val_buffer_.get();
                     post_write_noti_data.tried = buf;
                     post_write_noti_data.in_supplement = in_supplement;
+                    post_write_noti_data.out_supplement = out_supplement;
                     // A getInternalBuffer method seems appropriate here but is
                     // not used because no assumptions should be made about
                     // storage. So Memory implementation may not HAVE an
-- 
2.43.0


From 82ef749a4b80078427f10011d9127d13edaa47df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:10 +0000
Subject: [PATCH 049/110] fix: memory: an illegal poke spanning several blocks
 modified the blocks before the illegal one

---
 sparta/sparta/memory/DebugMemoryIF.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sparta/sparta/memory/DebugMemoryIF.hpp b/sparta/sparta/memory/DebugMemoryIF.hpp
index f1bb221..38af158 100644
--- a/sparta/sparta/memory/DebugMemoryIF.hpp
+++ b/sparta/sparta/memory/DebugMemoryIF.hpp
@@ -508,6 +508,15 @@ namespace sparta
                     return false;
                 }
 
+                if(doesAccessSpan(addr, size)){
+                    // Memory must not be modified by an illegal poke, so make
+                    // sure that every block is accessible before poking any
+                    std::vector<uint8_t> current(size);
+                    if(!tryPeek(addr, size, current.data())){
+                        return false;
+                    }
+                }
+
                 const uint8_t* in = buf;
                 addr_t a = addr;
                 const addr_t end = addr + size;
-- 
2.43.0


From 19ed3a5db6c140b4dd118f940ae5f92332c5e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:10 +0000
Subject: [PATCH 050/110] fix: memory: invalidateAllDMI on a memory map left
 the DMI of mapped memories valid

---
 sparta/sparta/memory/SimpleMemoryMapNode.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sparta/sparta/memory/SimpleMemoryMapNode.hpp b/sparta/sparta/memory/SimpleMemoryMapNode.hpp
index 32a85fe..aeeb0b4 100644
--- a/sparta/sparta/memory/SimpleMemoryMapNode.hpp
+++ b/sparta/sparta/memory/SimpleMemoryMapNode.hpp
@@ -185,6 +185,15 @@ namespace sparta
                 return m->memif->getDMI(m->mapAddress(addr), size);
             }
 
+            /**
+             * \brief Invalidate all DMIs of the mapped memory interfaces
+             */
+            void invalidateAllDMI() override {
+                for(const Mapping * m : getMappings()) {
+                    m->memif->invalidateAllDMI();
+                }
+            }
+
             ////////////////////////////////////////////////////////////////////////
             //! @}
 
-- 
2.43.0


From d52bd136c74cf4f6ff34aea0f4325f76319aac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 051/110] fix: CachedMemory: a write without downstream memory
 left a zero-filled block in the cache

---
 sparta/sparta/memory/CachedMemory.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index c913492..6c82e12 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -269,6 +269,9 @@ namespace sparta::memory
                       uint8_t *buf) const override final;
         bool tryPoke_(addr_t paddr, addr_t size, const uint8_t *buf) override final;
 
+        //! Load the block containing the given address from downstream memory
+        void loadBlock_(addr_t paddr);
+
         ////////////////////////////////////////////////////////////////////////////////
         // Memory
         sparta::memory::BlockingMemoryIF * downstream_memory_ = nullptr;
@@ -310,6 +313,17 @@ namespace sparta::memory
         return true;
     }
 
+    // Load the block containing the given address from downstream
+    // memory.  The block is created only if downstream can provide it
+    template<class MemoryWriteType>
+    void CachedMemory<MemoryWriteType>::loadBlock_(addr_t paddr)
+    {
+        const auto aligned_paddr = paddr & block_mask_;
+        std::vector<uint8_t> block(block_size_);
+        downstream_memory_->peek(aligned_paddr, block_size_, block.data());
+        cached_memory_.write(aligned_paddr, block_size_, block.data());
+    }
+
     // Writes always occur on the cached memory.  If not present, the
     // data will first be loaded into the cache and the write merged
     template<class MemoryWriteType>
@@ -323,9 +337,7 @@ namespace sparta::memory
         if(cached_memory_.tryGetLine(paddr) == nullptr) {
             // This block has not been initialized in cached memory yet because
             // it has not been written to before.
-            const auto aligned_paddr = paddr & block_mask_;
-            uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
-            downstream_memory_->peek(aligned_paddr, block_size_, cached_mem_block_ptr);
+            loadBlock_(paddr);
         }
 
         // Store the write into a outstanding chain
-- 
2.43.0


From 8decd0d7b7144dc6f0aa2a2957b8dab0071daaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 052/110] fix: CachedMemory: poking a block that is not cached
 zeroed the rest of the block downstream

---
 sparta/sparta/memory/CachedMemory.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index 6c82e12..c72ff14 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -379,9 +379,7 @@ namespace sparta::memory
     {
         if(cached_memory_.tryGetLine(paddr) == nullptr) {
             // This memory was never written (or read) before.
-            const auto aligned_paddr = paddr & block_mask_;
-            uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
-            downstream_memory_->poke(aligned_paddr, block_size_, cached_mem_block_ptr);
+            loadBlock_(paddr);
         }
         cached_memory_.write(paddr, size, buf);
         downstream_memory_->poke(paddr, size, buf);
-- 
2.43.0


From dc0665a7eeea49c92605a81afc6ed65dcfacebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 053/110] fix: CachedMemory: merging into a block that is not
 cached made the rest of the block read as zero

---
 sparta/sparta/memory/CachedMemory.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index c72ff14..6193c73 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -470,6 +470,11 @@ namespace sparta::memory
     template<class MemoryWriteType>
     void CachedMemory<MemoryWriteType>::mergeWrite(addr_t paddr, addr_t size, const uint8_t * buf)
     {
+        if(cached_memory_.tryGetLine(paddr) == nullptr) {
+            // This block has not been initialized in cached memory yet
+            loadBlock_(paddr);
+        }
+
         if(getNumOutstandingWrites() > 0) {
             // Brute force method, but works.  Take one byte at a time and
             // look for collisions.  If there are any, don't store it, but
-- 
2.43.0


From eacf0de1232f57b82b5aeea7618665b4faa1f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 054/110] fix: CachedMemory: dropWrite of one of its own
 outstanding writes used it after it was erased

---
 sparta/sparta/memory/CachedMemory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index 6193c73..54e49d1 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -445,6 +445,9 @@ namespace sparta::memory
             throw SpartaException(msg.str());
         }
 
+        // The given write can be one of the writes erased below
+        const uint64_t write_id_to_drop = write_to_drop.getWriteID();
+
         // Drop all the writes from the newest up to and including the
         // dropped write
         auto currently_flushing_write = outstanding_writes_.rbegin();
@@ -459,7 +462,7 @@ namespace sparta::memory
             // Drop the write
             outstanding_writes_.erase((++currently_flushing_write).base());
 
-            if(current_flushed_wuid == write_to_drop.getWriteID()) {
+            if(current_flushed_wuid == write_id_to_drop) {
                 break;
             }
 
-- 
2.43.0


From 4a423d39dcbd73a8aa0e749b2e33c8987a923383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:09 +0000
Subject: [PATCH 055/110] fix: checkpoint deltas include lines that were freed
 by a reset since the previous checkpoint

---
 sparta/sparta/functional/ArchData.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index 6b0cb24..1958594 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -2,6 +2,7 @@
 
 #pragma once
 
+#include <set>
 #include <iostream>
 #include <ios>
 #include <iomanip>
@@ -762,6 +763,9 @@ namespace sparta
             if(canFreeLines()){
                 // Delete all lines allocated first (map contains pointers to lines)
                 for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
+                    if(*itr != nullptr){
+                        freed_lines_.insert((*itr)->getIdx());
+                    }
                     delete *itr;
                 }
 
@@ -983,6 +987,13 @@ namespace sparta
             sparta_assert(out.good(),
                           "Saving delta checkpoint to bad ostream for " << getOwnerNode()->getLocation());
 
+            // Lines freed since the last save went back to their initial
+            // content, which earlier checkpoints in the chain do not have
+            for(const line_idx_type idx : freed_lines_){
+                getLine(idx * line_size_).flagDirty();
+            }
+            freed_lines_.clear();
+
             for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
                 Line* ln = *itr;
                 if(ln != nullptr && ln->isDirty()){
@@ -1000,6 +1011,7 @@ namespace sparta
          */
         template <typename StorageT>
         void saveAll(StorageT& out) {
+            freed_lines_.clear(); // Lines absent from a snapshot are restored as freed
             sparta_assert(out.good(),
                           "Saving delta checkpoint to bad ostream for " << getOwnerNode()->getLocation());
 
@@ -1047,6 +1059,7 @@ namespace sparta
         void restoreAll(StorageT& in) {
             // Fresh, empty state, ready to be overwritten
             clean();
+            freed_lines_.clear();
 
             restore(in);
         }
@@ -1658,6 +1671,11 @@ namespace sparta
          */
         LineMap       line_map_;
 
+        /*!
+         * \brief Indices of lines freed since the last save or full restore
+         */
+        std::set<line_idx_type> freed_lines_;
+
         /*!
          * \brief List of all Segments registered
          */
-- 
2.43.0


From aee3ce05d5bb2c4ce2da034f6c4f2a537acaebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:09 +0000
Subject: [PATCH 056/110] fix: deleting fast checkpoints on one branch freed
 deleted checkpoints that the current checkpoint on another branch depends on

---
 sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 419d3bf..13dd19f 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -820,7 +820,9 @@ namespace sparta::serialization::checkpoint
                 // If nothing later in the chain (tree) depends on d's data, it can be deleted.
                 // This also patches the checkpoint tree around the deleted checkpoint
                 //! \todo canDelete is recursive at worst and might benefit from optimization
-                if(d->canDelete()) {
+                // canDelete does not know about the current checkpoint, which the
+                // next checkpoint will depend on even if it is flagged deleted
+                if(d->canDelete() && !recursForwardFindAlive_(d)) {
                     // Get checkpoint id regardless of whether alive or dead
                     chkpt_id_t id = d->getID();
                     if (d->isFlaggedDeleted()) {
@@ -858,7 +860,7 @@ namespace sparta::serialization::checkpoint
                 if(dc->isSnapshot()){
                     // Found a live snapshot that ends this branch. d is not needed
                     // after this
-                    return false;
+                    continue;
                 }
                 if(dc == getCurrent_()){
                     // Found current in this search chain
-- 
2.43.0


From 83a598621bfd2ec5c59f5ee82bd20817c2600cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:27 +0000
Subject: [PATCH 057/110] fix: deleted fast checkpoints can no longer be found,
 loaded or deleted again, and the head cannot be deleted

---
 .../checkpoint/FastCheckpointer.hpp            | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 13dd19f..6e33031 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -225,6 +225,10 @@ namespace sparta::serialization::checkpoint
                 throw CheckpointError("Could not delete checkpoint ID=")
                     << id << " because no checkpoint by this ID was found";
             }
+            if(d == getHead()){
+                throw CheckpointError("Could not delete checkpoint ID=")
+                    << id << " because it is the head checkpoint";
+            }
 
             // Allow deletion and change ID to UNIDENTIFIED_CHECKPOINT.
             // This is still part of a chain though until there are no
@@ -425,11 +429,7 @@ namespace sparta::serialization::checkpoint
          * \return Checkpoint with ID of \a id if found or nullptr if not found
          */
         const checkpoint_type* findCheckpoint(chkpt_id_t id) noexcept {
-            auto it = chkpts_.find(id);
-            if (it != chkpts_.end()) {
-                return static_cast<checkpoint_type*>(it->second.get());
-            }
-            return nullptr;
+            return findCheckpoint_(id);
         }
 
         /*!
@@ -440,7 +440,7 @@ namespace sparta::serialization::checkpoint
          * always returns false
          */
         bool hasCheckpoint(chkpt_id_t id) noexcept override {
-            return chkpts_.find(id) != chkpts_.end();
+            return findCheckpoint_(id) != nullptr;
         }
 
         /*!
@@ -886,12 +886,12 @@ namespace sparta::serialization::checkpoint
          * \brief Attempts to find a checkpoint within this checkpointer by ID.
          * \param id Checkpoint ID to search for
          * \return Pointer to found checkpoint with matchind ID. If not found,
-         * returns nullptr.
+         * or flagged as deleted, returns nullptr.
          * \todo Faster lookup?
          */
         checkpoint_type* findCheckpoint_(chkpt_id_t id) noexcept {
             auto itr = chkpts_.find(id);
-            if (itr != chkpts_.end()) {
+            if (itr != chkpts_.end() && !itr->second->isFlaggedDeleted()) {
                 return static_cast<checkpoint_type*>(itr->second.get());
             }
             return nullptr;
@@ -902,7 +902,7 @@ namespace sparta::serialization::checkpoint
          */
         const checkpoint_type* findCheckpoint_(chkpt_id_t id) const noexcept {
             auto itr = chkpts_.find(id);
-            if (itr != chkpts_.end()) {
+            if (itr != chkpts_.end() && !itr->second->isFlaggedDeleted()) {
                 return static_cast<checkpoint_type*>(itr->second.get());
             }
             return nullptr;
-- 
2.43.0


From dc1cc0f88b432ed2eaf443ec9cf1059fdb950809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:27 +0000
Subject: [PATCH 058/110] fix: the first checkpoint after forgetCurrent is a
 snapshot, its delta would not be relative to the head

---
 .../sparta/serialization/checkpoint/Checkpointer.hpp  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
index 20d01d2..bed9fbd 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
@@ -248,7 +248,8 @@ namespace sparta::serialization::checkpoint
                 createHead();
             }
 
-            chkpt_id_t id = createCheckpoint_(force_snapshot);
+            chkpt_id_t id = createCheckpoint_(force_snapshot || next_is_snapshot_);
+            next_is_snapshot_ = false;
             total_chkpts_created_++;
             return id;
         }
@@ -309,6 +310,9 @@ namespace sparta::serialization::checkpoint
         void forgetCurrent() {
             if(head_){
                 current_ = head_;
+                // What changed since the last checkpoint or load no longer is
+                // what changed since the current checkpoint
+                next_is_snapshot_ = true;
             }
         }
 
@@ -778,6 +782,11 @@ namespace sparta::serialization::checkpoint
          * increasing. Includes the head checkpoint
          */
         uint64_t total_chkpts_created_ = 0;
+
+        /*!
+         * \brief Must the next checkpoint be a snapshot (see forgetCurrent)
+         */
+        bool next_is_snapshot_ = false;
     };
 
 } // namespace sparta::serialization::checkpoint
-- 
2.43.0


From 89db51300b5ed9094b83d1cc0843dc6312ec47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:47 +0000
Subject: [PATCH 059/110] fix: reading a 0xff byte through a FILEIstream looked
 like the end of the file

---
 sparta/sparta/serialization/checkpoint/FILEStream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/FILEStream.hpp b/sparta/sparta/serialization/checkpoint/FILEStream.hpp
index ed9b93c..c9f46d4 100644
--- a/sparta/sparta/serialization/checkpoint/FILEStream.hpp
+++ b/sparta/sparta/serialization/checkpoint/FILEStream.hpp
@@ -246,7 +246,7 @@ private:
                     setg(&b[0], &b[0], &b[buf_size_]);
                 }
             }
-            return *gptr();
+            return traits_type::to_int_type(*gptr());
         }
 
         /*! Read characters from the input sequence to a user buffer.
-- 
2.43.0


From 08abec7af3aceb2dc46da225defb6340244ad86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:47 +0000
Subject: [PATCH 060/110] fix: FILEOstream moved its write position the wrong
 way after a partial write

---
 sparta/sparta/serialization/checkpoint/FILEStream.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/FILEStream.hpp b/sparta/sparta/serialization/checkpoint/FILEStream.hpp
index c9f46d4..929e195 100644
--- a/sparta/sparta/serialization/checkpoint/FILEStream.hpp
+++ b/sparta/sparta/serialization/checkpoint/FILEStream.hpp
@@ -103,7 +103,11 @@ private:
                 setp(&b[0], &b[buf_size_]);
                 return 0;
             }
-            pbump(chars_written);
+            // Keep what could not be written
+            const size_t chars_left = chars_to_write - chars_written;
+            memmove(pbase(), pbase() + chars_written, chars_left);
+            setp(pbase(), epptr());
+            pbump(chars_left);
             return -1;
         }
 
-- 
2.43.0


From 8004acf0ea8de416795d78d8a1427e2fa8d787f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:05 +0000
Subject: [PATCH 061/110] fix: restoring a file with a checkpointer without
 checkpoints silently did nothing

---
 .../serialization/checkpoint/PersistentFastCheckpointer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
index 8b64086..596c5c7 100644
--- a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
@@ -236,6 +236,12 @@ namespace sparta::serialization::checkpoint
          * \param in Input stream from which to retrieve checkpoint data
          */
         void restore(std::istream& in) {
+            if(!in.good()){
+                throw CheckpointError("Cannot restore a checkpoint from a bad stream");
+            }
+            if(getHead_() == nullptr){
+                createHead(); // Finds the ArchDatas to restore
+            }
             auto adatas = getArchDatas();
             FileReadAdapter fsa(in);
             for (auto aditr=adatas.begin(); aditr!= adatas.end(); aditr++) {
-- 
2.43.0


From 775e9fbe2803c93c0cb12101ae70917d28afc964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:05 +0000
Subject: [PATCH 062/110] fix: the first checkpoint after restoring from a file
 is a snapshot, its delta missed what was restored

---
 .../sparta/serialization/checkpoint/Checkpointer.hpp   | 10 +++++++++-
 .../checkpoint/PersistentFastCheckpointer.hpp          |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
index bed9fbd..aa83c05 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
@@ -312,7 +312,7 @@ namespace sparta::serialization::checkpoint
                 current_ = head_;
                 // What changed since the last checkpoint or load no longer is
                 // what changed since the current checkpoint
-                next_is_snapshot_ = true;
+                snapshotNext_();
             }
         }
 
@@ -707,6 +707,14 @@ namespace sparta::serialization::checkpoint
          */
         Scheduler* const sched_;
 
+        /*!
+         * \brief Makes the next checkpoint a snapshot because what changes from
+         * now on is no delta of the current checkpoint
+         */
+        void snapshotNext_() noexcept {
+            next_is_snapshot_ = true;
+        }
+
     private:
 
         /*!
diff --git a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
index 596c5c7..e89f49f 100644
--- a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
@@ -244,6 +244,7 @@ namespace sparta::serialization::checkpoint
             }
             auto adatas = getArchDatas();
             FileReadAdapter fsa(in);
+            snapshotNext_(); // The restored state is no delta of the current checkpoint
             for (auto aditr=adatas.begin(); aditr!= adatas.end(); aditr++) {
                 (*aditr)->restoreAll(fsa);
             }
-- 
2.43.0


From 65b1e94ff1b7157f0f5815a04438eaadd15e64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:53 +0000
Subject: [PATCH 063/110] fix: a StatisticSet kept pointers to counters and
 statistics that were moved (e.g. by a growing vector)

---
 sparta/sparta/statistics/StatisticSet.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/statistics/StatisticSet.hpp b/sparta/sparta/statistics/StatisticSet.hpp
index 63b9c6d..334821f 100644
--- a/sparta/sparta/statistics/StatisticSet.hpp
+++ b/sparta/sparta/statistics/StatisticSet.hpp
@@ -257,14 +257,14 @@ namespace sparta
             StatisticDef* stat = dynamic_cast<StatisticDef*>(child);
             if(nullptr != stat){
                 // Add stat to stats_ list for tracking.
-                stats_.push_back(stat);
+                track_(stats_, stat);
                 return;
             }
 
             CounterBase* ctr = dynamic_cast<CounterBase*>(child);
             if(nullptr != ctr){
                 // Add Counter to ctrs_ list for tracking.
-               ctrs_.push_back(ctr);
+               track_(ctrs_, ctr);
                return;
             }
 
@@ -273,6 +273,25 @@ namespace sparta
                 << " because the child is not a CounterBase or StatisticDef";
         }
 
+        /*!
+         * \brief Adds a node which is becoming a child to a list of nodes,
+         * in the place of the node it was move-constructed from if there is one
+         */
+        template<class NodeT>
+        void track_(std::vector<NodeT*>& nodes, NodeT* node) {
+            if(getNumChildren() < stats_.size() + ctrs_.size()){
+                // A tracked node was detached because it is being moved. The new
+                // node has the same ID
+                for(NodeT*& n : nodes){
+                    if(n->getNodeUID() == node->getNodeUID()){
+                        n = node;
+                        return;
+                    }
+                }
+            }
+            nodes.push_back(node);
+        }
+
         /*!
          * \brief Vector of unique pointers to statistics
          */
-- 
2.43.0


From 72ddefdc529c569cc3f95a8ca3070a4ca53f19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:02 +0000
Subject: [PATCH 064/110] fix: expressions could not refer to names starting
 like a number or builtin (inflight, nan_count, cycles_busy, c_pie)

---
 sparta/src/ExpressionGrammar.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sparta/src/ExpressionGrammar.cpp b/sparta/src/ExpressionGrammar.cpp
index f877e53..66e68aa 100644
--- a/sparta/src/ExpressionGrammar.cpp
+++ b/sparta/src/ExpressionGrammar.cpp
@@ -569,6 +569,7 @@ ExpressionGrammar::ExpressionGrammar(sparta::TreeNode* root,
     using qi::real_parser;
     using qi::real_policies;
     using qi::no_case;
+    using qi::lexeme;
     using qi::_val;
     using phoenix::ref;
     real_parser<double,real_policies<double> > real;
@@ -600,8 +601,11 @@ ExpressionGrammar::ExpressionGrammar(sparta::TreeNode* root,
             )
         ;
 
+    // A number, constant, or builtin does not end within a name
+    const auto name_char = boost::proto::deep_copy(qi::ascii::char_("a-zA-Z0-9_.["));
+
     primary =
-        real                       [_val =  qi::_1]
+        lexeme[real >> !name_char] [_val =  qi::_1]
        |    '(' >> expression      [_val =  qi::_1] >> ')'
        |    ('-' >> primary        [_val = -qi::_1])
        |    ('+' >> primary        [_val =  qi::_1])
@@ -614,8 +618,8 @@ ExpressionGrammar::ExpressionGrammar(sparta::TreeNode* root,
                                    >> expression >> ','
                                    >> expression >> ')')
                                    [_val = lazy_tfunc(qi::_1, qi::_2, qi::_3, qi::_4)]
-       |    no_case[constants]     [_val =  qi::_1]
-       |    no_case[builtin_vars]  [_val = lazy_nfunc(qi::_1)]
+       |    lexeme[no_case[constants] >> !name_char]    [_val =  qi::_1]
+       |    lexeme[no_case[builtin_vars] >> !name_char] [_val = lazy_nfunc(qi::_1)]
        |    no_case[var]           [_val = qi::_1]
         ;
 
-- 
2.43.0


From 1c54eb4b53ea201f2b1bc881d39fe0e9ac2fddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:02 +0000
Subject: [PATCH 065/110] fix: two names in an expression separated by spaces
 were read as one name

---
 sparta/src/ExpressionGrammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/ExpressionGrammar.cpp b/sparta/src/ExpressionGrammar.cpp
index 66e68aa..2388d63 100644
--- a/sparta/src/ExpressionGrammar.cpp
+++ b/sparta/src/ExpressionGrammar.cpp
@@ -413,7 +413,7 @@ ExpressionGrammar::variable_::variable_(sparta::TreeNode* n,
     start = str [_val = lazy_gen_var(qi::_1)];
 
     // TreeNode names: All alphanumeric characters, and "_.[]"
-    str %= +(char_("a-zA-Z0-9_\\.\\[\\]"));
+    str %= qi::lexeme[+(char_("a-zA-Z0-9_\\.\\[\\]"))];
 }
 
 ExpressionGrammar::ufunc_::ufunc_(std::vector<const TreeNode*>& used)
-- 
2.43.0


From 79f786688ff9efcc2ba6d2ce1f279f0bec73fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:22 +0000
Subject: [PATCH 066/110] fix: bins of an EnumCycleHistogram had the names of
 other values when the enumeration does not start at 0

---
 sparta/sparta/statistics/CycleHistogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/statistics/CycleHistogram.hpp b/sparta/sparta/statistics/CycleHistogram.hpp
index 078c999..8170372 100644
--- a/sparta/sparta/statistics/CycleHistogram.hpp
+++ b/sparta/sparta/statistics/CycleHistogram.hpp
@@ -391,7 +391,7 @@ namespace sparta
                         // Same goes for when i = 1, 2, 3, ..., n.
                         // So, instead of publishing numbers like 0, 1, 2, we publish names like
                         // UOPSTATE::READY, UOPSTATE::WAIT, UOPSTATE::RETIRE etc.
-                        str << "count" << histogram_state_names[i];
+                        str << "count" << histogram_state_names[start_val]; // one name per value, from 0
                     }
                 } else {
                     str << "bin_"  << start_val << "_" << end_val;
-- 
2.43.0


From ae17ed6f40605ec99acdc80e9f686382b5f66a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:51 +0000
Subject: [PATCH 067/110] fix: statistics over a registered aggregate function
 of a context counter gave the sum of the contexts

---
 sparta/src/StatisticInstance.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sparta/src/StatisticInstance.cpp b/sparta/src/StatisticInstance.cpp
index 1a14a72..4f009ce 100644
--- a/sparta/src/StatisticInstance.cpp
+++ b/sparta/src/StatisticInstance.cpp
@@ -166,6 +166,7 @@ namespace sparta
         result_ = rhp.result_;
 
         sub_statistics_ = rhp.sub_statistics_;
+        user_calculated_si_value_ = rhp.user_calculated_si_value_;
 
         return *this;
     }
@@ -269,6 +270,10 @@ namespace sparta
             if(node_ref_.expired() == true){
                 return NAN;
             }
+            // A user-provided calculation replaces the expression
+            if(user_calculated_si_value_){
+                return user_calculated_si_value_->getCurrentValue();
+            }
             // Evaluate the expression
             return stat_expr_.evaluate();
         }else if(ctr_){
@@ -541,6 +546,10 @@ namespace sparta
             if(node_ref_.expired() == true){
                 return NAN;
             }
+            // A user-provided calculation replaces the expression
+            if(user_calculated_si_value_){
+                return user_calculated_si_value_->getCurrentValue();
+            }
             // Evaluate the expression
             return stat_expr_.evaluate();
         }else if(ctr_){
-- 
2.43.0


From fd098f2636c9073ef1db744784dc084995db0a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:23 +0000
Subject: [PATCH 068/110] fix: the maximum of a weighted context counter whose
 contexts are all 0 was the smallest positive double

---
 sparta/sparta/statistics/WeightedContextCounter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/statistics/WeightedContextCounter.hpp b/sparta/sparta/statistics/WeightedContextCounter.hpp
index 35c9512..651b564 100644
--- a/sparta/sparta/statistics/WeightedContextCounter.hpp
+++ b/sparta/sparta/statistics/WeightedContextCounter.hpp
@@ -83,7 +83,7 @@ private:
 
     void max_() {
         sparta_assert(this->numContexts() > 0);
-        maximum_ = std::numeric_limits<double>::min();
+        maximum_ = std::numeric_limits<double>::lowest();
         for (const auto & internal_ctr : *this) {
             maximum_ = std::max(maximum_, static_cast<double>(internal_ctr.get()));
         }
-- 
2.43.0


From c0ade2d031a01341ddfac43ffa64a40f046e992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:49 +0000
Subject: [PATCH 069/110] fix: report numbers that do not fit in 64 bits were
 printed as unrelated integers

---
 sparta/sparta/report/Report.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/report/Report.hpp b/sparta/sparta/report/Report.hpp
index a41e2b7..bc88e25 100644
--- a/sparta/sparta/report/Report.hpp
+++ b/sparta/sparta/report/Report.hpp
@@ -98,7 +98,7 @@ namespace sparta
                 return "nan";
             }else if(std::isinf(val)){
                 o << val; // Use built-in conversion (e.g. +inf, -inf)
-            }else if(fractional == 0){
+            }else if(fractional == 0 && integral >= -9223372036854775808.0 && integral < 18446744073709551616.0){
                 if(val < 0) {
                     // Print as a straight integer, no decimals
                     o << (int64_t)integral;
-- 
2.43.0


From b950b3f79d46c686fd2a6f619c6b74a7460d3228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:49 +0000
Subject: [PATCH 070/110] fix: negative and very large values were other values
 in JSON reports and negative infinity was positive in JSON, JS and python
 reports

---
 sparta/sparta/report/format/PythonDict.hpp |  2 +-
 sparta/src/JavascriptObject.cpp            |  2 +-
 sparta/src/JsonFormatter.cpp               | 22 +++++++++++++++++-----
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/sparta/sparta/report/format/PythonDict.hpp b/sparta/sparta/report/format/PythonDict.hpp
index 48608f5..9846996 100644
--- a/sparta/sparta/report/format/PythonDict.hpp
+++ b/sparta/sparta/report/format/PythonDict.hpp
@@ -119,7 +119,7 @@ protected:
                 if(std::isnan(val)){
                     out << "float('nan')";
                 }else if(std::isinf(val)){
-                    out << "float('inf')";
+                    out << (val < 0 ? "float('-inf')" : "float('inf')");
                 }else{
                     out << Report::formatNumber(val);
                 }
diff --git a/sparta/src/JavascriptObject.cpp b/sparta/src/JavascriptObject.cpp
index 33e240f..3c15ed3 100644
--- a/sparta/src/JavascriptObject.cpp
+++ b/sparta/src/JavascriptObject.cpp
@@ -226,7 +226,7 @@ void sparta::report::format::JavascriptObject::writeStats_(std::ostream& out, co
         if (std::isnan(val)){
             out << "\"nan\"";
         } else if (std::isinf(val)) {
-            out << "\"inf\"";
+            out << (val < 0 ? "\"-inf\"" : "\"inf\"");
         } else{
             out << Report::formatNumber(val, false, decimal_places_);
         }
diff --git a/sparta/src/JsonFormatter.cpp b/sparta/src/JsonFormatter.cpp
index 20a39ac..8bd2c4b 100644
--- a/sparta/src/JsonFormatter.cpp
+++ b/sparta/src/JsonFormatter.cpp
@@ -87,7 +87,19 @@ namespace sparta {
 
             //////////////////////// JSON Formatter methods (full) /////////////////////
 
-            void extractStatisticsJsonFull(rapidjson::Document & doc,
+            //! JSON number for a double which has no fractional part
+        static rapidjson::Value getIntegralJsonValue(const double val)
+        {
+            if (val >= 0 && val < 18446744073709551616.0) {
+                return rapidjson::Value(static_cast<uint64_t>(val));
+            }
+            if (val < 0 && val >= -9223372036854775808.0) {
+                return rapidjson::Value(static_cast<int64_t>(val));
+            }
+            return rapidjson::Value(val);
+        }
+
+        void extractStatisticsJsonFull(rapidjson::Document & doc,
                                            rapidjson::Value & report_json,
                                            const Report * r,
                                            std::vector<std::vector<std::string>> & ordered_keys_,
@@ -129,7 +141,7 @@ namespace sparta {
                         if (std::isnan(val)) {
                             stats_json.AddMember("val", rapidjson::Value("nan"), doc.GetAllocator());
                         } else if (std::isinf(val)) {
-                            stats_json.AddMember("val", rapidjson::Value("inf"), doc.GetAllocator());
+                            stats_json.AddMember("val", val < 0 ? rapidjson::Value("-inf") : rapidjson::Value("inf"), doc.GetAllocator());
                         } else {
                             double dbl_formatted = 0;
                             std::stringstream ss;
@@ -140,7 +152,7 @@ namespace sparta {
                             const double remainder = std::modf(dbl_formatted, &int_part);
                             if (remainder == 0) {
                                 //This double has no remainder, so print it as an integer
-                                stats_json.AddMember("val", rapidjson::Value(static_cast<uint64_t>(dbl_formatted)),
+                                stats_json.AddMember("val", getIntegralJsonValue(dbl_formatted),
                                                      doc.GetAllocator());
                             } else {
                                 //This double has some remainder, so print it as-is
@@ -351,7 +363,7 @@ namespace sparta {
                                                doc.GetAllocator());
                         } else if(std::isinf(val)) {
                             contents.AddMember(stat_name_json,
-                                               rapidjson::Value("inf"),
+                                               val < 0 ? rapidjson::Value("-inf") : rapidjson::Value("inf"),
                                                doc.GetAllocator());
                         } else {
                             double dbl_formatted = 0;
@@ -364,7 +376,7 @@ namespace sparta {
                             if (remainder == 0) {
                                 //This double has no remainder, so print it as an integer
                                 contents.AddMember(stat_name_json,
-                                                   rapidjson::Value(static_cast<uint64_t>(dbl_formatted)),
+                                                   getIntegralJsonValue(dbl_formatted),
                                                    doc.GetAllocator());
                             } else {
                                 //This double has some remainder, so print it as-is
-- 
2.43.0


From bd7f825d86edffe37401e78323b80d98fe093496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 071/110] fix: JSON report formatters that write a report more
 than once used freed names or wrote the statistics of an earlier report

---
 sparta/sparta/report/format/JSON_detail.hpp | 1 +
 sparta/src/JsonFormatter.cpp                | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/sparta/sparta/report/format/JSON_detail.hpp b/sparta/sparta/report/format/JSON_detail.hpp
index 159e789..5c84964 100644
--- a/sparta/sparta/report/format/JSON_detail.hpp
+++ b/sparta/sparta/report/format/JSON_detail.hpp
@@ -109,6 +109,7 @@ protected:
     virtual void writeContentToStream_(std::ostream& out) const override
     {
         // collectDictContents_ will store the stat information into detail_json_map while going through report/subreports
+        detail_json_map.clear();
         collectDictContents_(report_, 1, "");
         out << "{ \"_id\": \" \",\n";
         out << std::string(2, ' ') << "\"report_metadata\": ";
diff --git a/sparta/src/JsonFormatter.cpp b/sparta/src/JsonFormatter.cpp
index 8bd2c4b..aafab06 100644
--- a/sparta/src/JsonFormatter.cpp
+++ b/sparta/src/JsonFormatter.cpp
@@ -240,6 +240,9 @@ namespace sparta {
                 unsigned int total_num_reports = 0;
                 unsigned int total_num_stats = 0;
                 getTotalNumReports(total_num_reports, total_num_stats, report_);
+                report_local_names_.clear();
+                statistics_descs_.clear();
+                ordered_keys_.clear();
                 report_local_names_.reserve(total_num_reports);
                 statistics_descs_.reserve(total_num_stats);
                 ordered_keys_.reserve(total_num_reports);
@@ -404,6 +407,7 @@ namespace sparta {
                 unsigned int total_num_reports = 0;
                 unsigned int unused_var = 0;
                 getTotalNumReports(total_num_reports, unused_var, report_);
+                report_local_names_.clear();
                 report_local_names_.reserve(total_num_reports);
 
                 rapidjson::Document doc;
-- 
2.43.0


From 41b0a03bb36ba7740f8b76da7724f238eefca5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 072/110] fix: files without an extension whose name is as long
 as that of a format were written in that format

---
 sparta/src/BaseFormatter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/src/BaseFormatter.cpp b/sparta/src/BaseFormatter.cpp
index bf03e91..af6c5aa 100644
--- a/sparta/src/BaseFormatter.cpp
+++ b/sparta/src/BaseFormatter.cpp
@@ -11,6 +11,7 @@
 #include <boost/algorithm/string/classification.hpp>
 #include <boost/algorithm/string/detail/classification.hpp>
 #include <boost/algorithm/string/erase.hpp>
+#include <boost/algorithm/string/predicate.hpp>
 #include <boost/algorithm/string/split.hpp>
 #include <boost/iterator/iterator_facade.hpp>
 #include <boost/iterator/iterator_traits.hpp>
@@ -138,8 +139,7 @@ const FormatterFactory*
                 }
             }else{
                 // Compare '.' + extension against end of filename
-                if(lower_filename.rfind(std::string(".") + ext) \
-                   == lower_filename.size() - 1 - ext.size()){
+                if(boost::algorithm::ends_with(lower_filename, std::string(".") + ext)){
                     return &factitr;
                 }
             }
-- 
2.43.0


From 9614432e3d55e4d79d9a37586f96d4ea44e63f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:32 +0000
Subject: [PATCH 073/110] fix: the parts matched by three or more wildcards in
 a path were reported in a mixed-up order

---
 sparta/src/TreeNode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index d3d3c6f..0ba0d53 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -943,7 +943,7 @@ uint32_t TreeNode::findChildren_(const std::string& pattern,
                     replacements.push_back(immediate_replacements.at(idx));
                     std::vector<std::string>& added = descendent_replacements.at(subidx);
                     replacements.back().resize(added.size() + replacements.back().size());
-                    std::copy(added.begin(), added.end(), replacements.back().rbegin());
+                    std::copy(added.begin(), added.end(), replacements.back().end() - added.size());
                     ++subidx;
                 }
             }
-- 
2.43.0


From 707ee6a5b8cf3b78fbc718dc31e6dc74919bccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:40 +0000
Subject: [PATCH 074/110] fix: a report_ignore block directly in the content of
 a report definition broke the parsing of what follows

---
 sparta/src/Report.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/src/Report.cpp b/sparta/src/Report.cpp
index 252ce41..a799721 100644
--- a/sparta/src/Report.cpp
+++ b/sparta/src/Report.cpp
@@ -629,6 +629,7 @@ class ReportFileParserYAML
 
             if(key == KEY_REPORT_IGNORE) {
                 in_ignore_ = true;
+                in_content_stack_.push(in_content);
                 return false;
             }
 
-- 
2.43.0


From 6fd5ab55df7e8440cc77ef38339e40029605eceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:53 +0000
Subject: [PATCH 075/110] fix: copied, assigned and moved reports repeated or
 lost the names of their statistics and pointed to those of the source

---
 sparta/sparta/report/Report.hpp | 40 ++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/sparta/sparta/report/Report.hpp b/sparta/sparta/report/Report.hpp
index bc88e25..5d1be54 100644
--- a/sparta/sparta/report/Report.hpp
+++ b/sparta/sparta/report/Report.hpp
@@ -203,18 +203,14 @@ namespace sparta
             subreps_(rhp.subreps_),
             start_tick_(rhp.start_tick_),
             end_tick_(rhp.end_tick_),
-            info_string_(rhp.info_string_),
-            sub_statistics_(rhp.sub_statistics_)
+            info_string_(rhp.info_string_)
         {
             // Update parent pointers of all subreports
             for(auto& sr : subreps_){
                 sr.setParent_(this);
             }
 
-            // Copy StatisticInstances
-            for(const statistics::stat_pair_t& sp : rhp.stats_){
-                add(*sp.second, sp.first);
-            }
+            copyStatistics_(rhp);
         }
 
         /*!
@@ -230,6 +226,7 @@ namespace sparta
             parent_(rhp.parent_),
             subreps_(std::move(rhp.subreps_)),
             stats_(std::move(rhp.stats_)),
+            stat_names_(std::move(rhp.stat_names_)),
             start_tick_(rhp.start_tick_),
             end_tick_(rhp.end_tick_),
             info_string_(std::move(rhp.info_string_)),
@@ -261,16 +258,10 @@ namespace sparta
                 sr.setParent_(this);
             }
 
-            stats_.clear(); // Clear local stats
-
-            // Copy StatisticInstances
-            for(const statistics::stat_pair_t& sp : rhp.stats_){
-                add(*sp.second, sp.first);
-            }
+            copyStatistics_(rhp);
             start_tick_ = rhp.start_tick_;
             end_tick_ = rhp.end_tick_;
             info_string_ = rhp.info_string_;
-            sub_statistics_ = rhp.sub_statistics_;
             return *this;
         }
 
@@ -1170,6 +1161,29 @@ namespace sparta
 
     private:
 
+        /*!
+         * \brief Replaces the statistics of this report (excluding subreports)
+         * by copies of those of another one, including the substatistics which
+         * that report already contains
+         */
+        void copyStatistics_(const Report& rhp) {
+            statistics::StatisticPairs copies;
+            std::unordered_map<const StatisticInstance*, const StatisticInstance*> copy_of;
+            for(const statistics::stat_pair_t& sp : rhp.stats_){
+                copies.emplace_back(sp.first, new StatisticInstance(*sp.second));
+                copy_of[sp.second.get()] = copies.back().second.get();
+            }
+            SubStaticticInstances sub_copies;
+            for(const auto& sub : rhp.sub_statistics_){
+                for(const StatisticInstance* si : sub.second){
+                    sub_copies[sub.first].emplace_back(copy_of.at(si));
+                }
+            }
+            stats_ = std::move(copies);
+            sub_statistics_ = std::move(sub_copies);
+            stat_names_ = rhp.stat_names_;
+        }
+
         /*!
          * \brief Adds a new field to the stats_ list. Catches and rethrows
          * SpartaExceptions after appending what would have been the name of the
-- 
2.43.0


From f121d6357d23dd229c69207c0f116400448a236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:23 +0000
Subject: [PATCH 076/110] fix: a report definition with a nested scope after a
 subreport in the same scope was refused

---
 sparta/src/Report.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sparta/src/Report.cpp b/sparta/src/Report.cpp
index a799721..574025d 100644
--- a/sparta/src/Report.cpp
+++ b/sparta/src/Report.cpp
@@ -809,6 +809,14 @@ class ReportFileParserYAML
                         // entries from the map to guarantee they won't be executed later
                         Report* const r = report_map_.at(cx->uid); // Get the report for this context
                         report_map_.erase(cx->uid);
+                        // Later scopes within the parent of this subreport are not part of it
+                        for(auto itr = next_uid_map_.begin(); itr != next_uid_map_.end();){
+                            if(itr->second == cx->uid){
+                                itr = next_uid_map_.erase(itr);
+                            }else{
+                                ++itr;
+                            }
+                        }
                         verbose() << indent_() << "  (Ended subreport \"" << r->getName() << "\")"
                                   << std::endl;
                     }
-- 
2.43.0


From c3a66342a0f76a198921accc578e702b22f846ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:17 +0000
Subject: [PATCH 077/110] fix: reject int16_t and int8_t values out of range
 when parsing numbers

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index 0b7362b..d716b55 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -480,8 +480,8 @@ inline int16_t smartLexicalCast(const std::string& s,
                                 bool allow_recursion,
                                 bool allow_prefix) {
     int64_t val = smartLexicalCast<int64_t>(s, end_pos, allow_recursion, allow_prefix);
-    if(val >= (1_64 << 16)
-       || val < -(1_64 << 16)){
+    if(val >= (1_64 << 15)
+       || val < -(1_64 << 15)){
         throw SpartaException("Could not lexically cast \"") << s << "\" to a int16_t because it "
               "contained a value this type could not contain: " << val;
     }
@@ -494,8 +494,8 @@ inline int8_t smartLexicalCast(const std::string& s,
                                bool allow_recursion,
                                bool allow_prefix) {
     int64_t val = smartLexicalCast<int64_t>(s, end_pos, allow_recursion, allow_prefix);
-    if(val >= (1_64 << 8)
-       || val < -(1_64 << 8)){
+    if(val >= (1_64 << 7)
+       || val < -(1_64 << 7)){
         throw SpartaException("Could not lexically cast \"") << s << "\" to a int8_t because it "
               "contained a value this type could not contain: " << val;
     }
-- 
2.43.0


From 95e46aa4e4868d0780fa096ebd2f5469c6b20be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:17 +0000
Subject: [PATCH 078/110] fix: negate the smallest int64_t without overflow
 when parsing numbers

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index d716b55..3468c07 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -453,10 +453,7 @@ inline int64_t smartLexicalCast(const std::string& s,
         throw SpartaException("Could not lexically cast \"") << s << "\" to a int64_t because it "
               "contained a value  this type could not contain: " << val;
     }
-    int64_t signed_val = val;
-    if(negate){
-        signed_val *= -1;
-    }
+    int64_t signed_val = static_cast<int64_t>(negate ? (0 - val) : val);
     return signed_val;
 }
 
-- 
2.43.0


From 2edf71d1c2ea006c2e1b30b9eae93d1125296e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:49 +0000
Subject: [PATCH 079/110] fix: compute the fraction of a suffixed number
 exactly when parsing numbers

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index 3468c07..69186ae 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -346,21 +346,27 @@ inline uint64_t smartLexicalCast(const std::string& s,
         if(fractional.size() != 0){
             // Check each digit to ensure that it is an integer portion of the
             // This is done manually to guarantee NO floating point rounding errors can occur
-            uint32_t ten_div = 10;
+            // The digits are summed before dividing so that no digit is rounded down alone
+            while(fractional.size() > 1 && fractional.back() == '0'){
+                fractional.pop_back(); // Trailing zeroes carry no value
+            }
+            sparta_assert(fractional.size() < 20,
+                          "Fraction \"" << fractional << "\" has too many digits in \"" << s << "\"");
+            uint64_t ten_div = 1;
+            unsigned __int128 total = 0;
             for(auto ch : fractional){
-                uint64_t frac = (ch - '0');
-                sparta_assert(frac < 10);
-                frac *= suffix_multiplier;
-                if(frac < ten_div){
+                const uint64_t digit = (ch - '0');
+                sparta_assert(digit < 10);
+                ten_div *= 10;
+                total = (total * 10) + digit;
+                if(digit != 0 && (unsigned __int128)digit * suffix_multiplier < ten_div){
                     throw SpartaException("Encountered a fractional value: \"") << numeric << "\" . \""
                           << fractional << "\" but suffix multipler was only " << suffix_multiplier
                           << ", so this fraction does not represent and integer. Fraction should "
                           "not have a 1/" << ten_div << " place. Found in \"" << s << "\"";
                 }
-                frac /= ten_div;
-                value += frac;
-                ten_div *= 10;
             }
+            value += (uint64_t)((total * suffix_multiplier) / ten_div);
         }
 
         // Recursively reparse remainder of string and add result to current value
-- 
2.43.0


From 15a37d376984809292e3b73b12269ed0a5b2b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:49 +0000
Subject: [PATCH 080/110] fix: reject numbers whose suffix or sum overflows 64
 bits

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index 69186ae..dc50613 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -340,6 +340,10 @@ inline uint64_t smartLexicalCast(const std::string& s,
         }
 
         // Apply suffix modifier extracted when parsing the suffix (e.g. "k" = N*1000)
+        if(value > std::numeric_limits<uint64_t>::max() / suffix_multiplier){
+            throw SpartaException("Could not lexically cast \"") << s << "\" because " << value
+                  << " times " << suffix_multiplier << " does not fit in 64 bits";
+        }
         value *= suffix_multiplier;
 
         // Apply suffix modifier to the fractional portion
@@ -366,7 +370,12 @@ inline uint64_t smartLexicalCast(const std::string& s,
                           "not have a 1/" << ten_div << " place. Found in \"" << s << "\"";
                 }
             }
-            value += (uint64_t)((total * suffix_multiplier) / ten_div);
+            const uint64_t fraction = (uint64_t)((total * suffix_multiplier) / ten_div);
+            if(value > std::numeric_limits<uint64_t>::max() - fraction){
+                throw SpartaException("Could not lexically cast \"") << s << "\" because its value "
+                      "does not fit in 64 bits";
+            }
+            value += fraction;
         }
 
         // Recursively reparse remainder of string and add result to current value
@@ -377,6 +386,10 @@ inline uint64_t smartLexicalCast(const std::string& s,
                                                                true,             // Allow recursion
                                                                false);           // Disallow prefixes
 
+                if(value > std::numeric_limits<uint64_t>::max() - addition){
+                    throw SpartaException("Could not lexically cast \"") << s << "\" because its value "
+                          "does not fit in 64 bits";
+                }
                 value += addition;
             }
         }
-- 
2.43.0


From cff99292516ac262b88b9ea7eafbfcf1453ef196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:49 +0000
Subject: [PATCH 081/110] fix: unlock a ParameterSet when a modification
 callback throws

---
 sparta/src/Parameter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sparta/src/Parameter.cpp b/sparta/src/Parameter.cpp
index 9f145e0..9b4a854 100644
--- a/sparta/src/Parameter.cpp
+++ b/sparta/src/Parameter.cpp
@@ -56,7 +56,13 @@ void sparta::ParameterBase::invokeModifierCB_()
     if(modifier_callback_ && callback_allowed)
     {
         ps->lock(this);
-        modifier_callback_();
+        try {
+            modifier_callback_();
+        }
+        catch(...) {
+            ps->unlock(this);
+            throw;
+        }
         ps->unlock(this);
     }
 }
-- 
2.43.0


From 8eb58b0e5f317800ecefc7551f61366bc26d52de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:49 +0000
Subject: [PATCH 082/110] fix: refuse overriding the default of a read
 parameter before changing it

---
 sparta/sparta/simulation/Parameter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/simulation/Parameter.hpp b/sparta/sparta/simulation/Parameter.hpp
index b889531..9ab078c 100644
--- a/sparta/sparta/simulation/Parameter.hpp
+++ b/sparta/sparta/simulation/Parameter.hpp
@@ -1623,18 +1623,18 @@ namespace sparta
         }
 
         virtual void overrideDefaultFromString(const std::string& str) override final {
-            Parameter::template overrideDefaultFromString_<ValueType, ValueType>(str);
             sparta_assert(getReadCount() == 0,
                         "Cannot override default on parameter if read count is > 0. "
                         "Problem on parameter " << getLocation());
+            Parameter::template overrideDefaultFromString_<ValueType, ValueType>(str);
             default_override_ = true;
         }
 
         virtual void overrideDefaultFromStringVector(const std::vector<std::string>& vec) override final {
-            Parameter::template overrideDefaultFromStringVector_<ValueType, ValueType>(vec);
             sparta_assert(getReadCount() == 0,
                         "Cannot override default on parameter if read count is > 0. "
                         "Problem on parameter " << getLocation());
+            Parameter::template overrideDefaultFromStringVector_<ValueType, ValueType>(vec);
             default_override_ = true;
         }
 
-- 
2.43.0


From 547575bdda39839a8f1f73151880fe7fdd665f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:49 +0000
Subject: [PATCH 083/110] fix: leave a vector parameter unchanged when setting
 an item is refused

---
 sparta/sparta/simulation/Parameter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/simulation/Parameter.hpp b/sparta/sparta/simulation/Parameter.hpp
index 9ab078c..b9cc55a 100644
--- a/sparta/sparta/simulation/Parameter.hpp
+++ b/sparta/sparta/simulation/Parameter.hpp
@@ -1797,7 +1797,9 @@ namespace sparta
             }else{
                 // handle if this is a vector
                 const bool incr_write_count = true;
-                setVectorItemValueFromString_(val_, indices, 0, str, incr_write_count);
+                ValueType tmp = val_;
+                setVectorItemValueFromString_(tmp, indices, 0, str, incr_write_count);
+                val_ = std::move(tmp);
             }
         }
 
-- 
2.43.0


From 2b064182bc335346f5e1bbfe1de7fa58089caedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:49 +0000
Subject: [PATCH 084/110] fix: compare vectors of strings with their default
 using the same quotes in Parameter::isDefault

---
 sparta/sparta/simulation/Parameter.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/sparta/simulation/Parameter.hpp b/sparta/sparta/simulation/Parameter.hpp
index b9cc55a..7a1138a 100644
--- a/sparta/sparta/simulation/Parameter.hpp
+++ b/sparta/sparta/simulation/Parameter.hpp
@@ -1618,6 +1618,10 @@ namespace sparta
             }
         }
 
+        virtual bool isDefault() const override final {
+            return sparta::utils::stringize_value(val_, disp_base_, string_quote_) == getDefaultAsString();
+        }
+
         virtual bool isDefaultOverridden() const override final {
             return default_override_;
         }
-- 
2.43.0


From e07400cc87d40160457bf597a9ed59385c7b6ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:49 +0000
Subject: [PATCH 085/110] fix: print floating point values and 8-bit integers
 so that they can be read back

---
 sparta/sparta/utils/Printing.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/Printing.hpp b/sparta/sparta/utils/Printing.hpp
index 526d537..e57d464 100644
--- a/sparta/sparta/utils/Printing.hpp
+++ b/sparta/sparta/utils/Printing.hpp
@@ -3,11 +3,15 @@
 
 #pragma once
 
+#include <cstdint>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <string>
 #include <ostream>
 #include <vector>
 #include <sstream>
+#include <type_traits>
 
 #include "sparta/utils/SpartaException.hpp"
 
@@ -151,7 +155,22 @@ namespace utils
         (void) string_quote;
         std::stringstream out;
         std::ios_base::fmtflags old = setIOSFlags(out, base);
-        out << o;
+        if constexpr(std::is_same<T, uint8_t>::value || std::is_same<T, int8_t>::value){
+            out << static_cast<int32_t>(o); // Not as a character
+        }else if constexpr(std::is_floating_point<T>::value){
+            // Use as many digits as it takes to denote exactly this value
+            for(int precision = 6; ; ++precision){
+                out.str("");
+                out.precision(precision);
+                out << o;
+                if(precision >= std::numeric_limits<T>::max_digits10
+                   || static_cast<T>(std::strtold(out.str().c_str(), nullptr)) == o){
+                    break;
+                }
+            }
+        }else{
+            out << o;
+        }
         out.setf(old);
         return out.str();
     }
-- 
2.43.0


From 614303de9aa52a5ec21d05c311b5bbc4a5e98da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:59 +0000
Subject: [PATCH 086/110] fix: accept every fraction of a suffixed number that
 denotes an integer

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index dc50613..17eedd1 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -357,20 +357,24 @@ inline uint64_t smartLexicalCast(const std::string& s,
             sparta_assert(fractional.size() < 20,
                           "Fraction \"" << fractional << "\" has too many digits in \"" << s << "\"");
             uint64_t ten_div = 1;
-            unsigned __int128 total = 0;
+            bool too_fine = false;
+            __extension__ typedef unsigned __int128 wide_type;
+            wide_type total = 0;
             for(auto ch : fractional){
                 const uint64_t digit = (ch - '0');
                 sparta_assert(digit < 10);
                 ten_div *= 10;
                 total = (total * 10) + digit;
-                if(digit != 0 && (unsigned __int128)digit * suffix_multiplier < ten_div){
-                    throw SpartaException("Encountered a fractional value: \"") << numeric << "\" . \""
-                          << fractional << "\" but suffix multipler was only " << suffix_multiplier
-                          << ", so this fraction does not represent and integer. Fraction should "
-                          "not have a 1/" << ten_div << " place. Found in \"" << s << "\"";
-                }
+                too_fine |= (digit != 0 && wide_type(digit) * suffix_multiplier < ten_div);
+            }
+            total *= suffix_multiplier;
+            if(too_fine && (total % ten_div) != 0){
+                throw SpartaException("Encountered a fractional value: \"") << numeric << "\" . \""
+                      << fractional << "\" but suffix multipler was only " << suffix_multiplier
+                      << ", so this fraction does not represent and integer. Fraction should "
+                      "not have a 1/" << ten_div << " place. Found in \"" << s << "\"";
             }
-            const uint64_t fraction = (uint64_t)((total * suffix_multiplier) / ten_div);
+            const uint64_t fraction = (uint64_t)(total / ten_div);
             if(value > std::numeric_limits<uint64_t>::max() - fraction){
                 throw SpartaException("Could not lexically cast \"") << s << "\" because its value "
                       "does not fit in 64 bits";
-- 
2.43.0


From b542e56be34f378009101db0c946057cfdadf76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:33 +0000
Subject: [PATCH 087/110] fix: ignore everything below a commented key in
 configuration files, including sequences and includes

---
 sparta/src/ConfigParserYAML.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sparta/src/ConfigParserYAML.cpp b/sparta/src/ConfigParserYAML.cpp
index 4138132..dba9322 100644
--- a/sparta/src/ConfigParserYAML.cpp
+++ b/sparta/src/ConfigParserYAML.cpp
@@ -239,7 +239,8 @@ namespace sparta
                 seq_params_.push({});
                 std::vector<ParameterBase*>& seq_ps = seq_params_.top();
 
-                if(subtree_.size() > 0){
+                const bool commented = last_val_.find(COMMENT_KEY_START) == 0;
+                if(subtree_.size() > 0 && !commented){
                     // Find next generation based on pattern of scalar (key) last_val_
                     NodeVector nodes;
                     findNextGeneration_(subtree_, last_val_, nodes, mark);
@@ -275,6 +276,9 @@ namespace sparta
                 }
 
                 pt_stack_.push(pt_node_); // Push on first entry
+                if(commented){
+                    pt_node_ = nullptr; // Nothing in a comment belongs in the virtual tree
+                }
                 if(pt_node_){
                     const bool required = true; // Temporary value. Parameters created this way are always required
                     auto npt_node = pt_node_->create(last_val_, required); // Fails if it contains a parent reference
@@ -402,6 +406,7 @@ namespace sparta
                 verbose() << indent_() << "  COMMENTED MAPPING" << std::endl;
                 ///subtree_
                 subtree_.clear(); // Clear current nodes
+                pt_node_ = nullptr; // Nothing in a comment belongs in the virtual tree
             }else{
                 // current subtree_ already pushed to stack
                 // Move onto next generation of children
@@ -559,6 +564,10 @@ namespace sparta
          */
         void YAML::EventHandler::handleIncludeDirective(const std::string& filename, NodeVector& device_trees, ParameterTree::Node* ptn)
         {
+            if(device_trees.empty() && ptn == nullptr){
+                return; // This directive is within a comment
+            }
+
             //! \todo Be smarter about checking for indirect recursion by keeping a set
             //        files or limiting the depth of this include stack
 
-- 
2.43.0


From 73eaa6277e77b4b7f0e4f86c254d5022da724211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:47 +0000
Subject: [PATCH 088/110] fix: quote sequence items in the virtual parameter
 tree that would otherwise be read back differently

---
 sparta/sparta/parsers/ConfigParserYAML.hpp | 30 ++++++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/parsers/ConfigParserYAML.hpp b/sparta/sparta/parsers/ConfigParserYAML.hpp
index 74ed9de..da9dbda 100644
--- a/sparta/sparta/parsers/ConfigParserYAML.hpp
+++ b/sparta/sparta/parsers/ConfigParserYAML.hpp
@@ -3,6 +3,8 @@
 
 #pragma once
 
+#include <cctype>
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include <string>
@@ -118,11 +120,12 @@ namespace sparta
                             }
                             params_.top().first++;
                         }
-                        // Ensure all-whitespace or empty strings are quoted
-                        if(val.find_first_not_of(" \t") == std::string::npos){
-                            sequence_string_ += "\"";
-                            sequence_string_ += val;
-                            sequence_string_ += "\"";
+                        // Ensure that strings which YAML would not read back as they are
+                        // (e.g. blank strings, YAML nulls or punctuation) are quoted
+                        if(needsQuotes_(val)){
+                            YP::Emitter quoted;
+                            quoted << YP::DoubleQuoted << val;
+                            sequence_string_ += quoted.c_str();
                         }else{
                             sequence_string_ += val;
                         }
@@ -132,6 +135,23 @@ namespace sparta
                         return sequence_string_;
                     }
 
+                    //! \brief Would this item be changed by being read as a plain YAML scalar?
+                    static bool needsQuotes_(const std::string& val) {
+                        if(val.empty() || val == "null" || val == "Null" || val == "NULL"
+                           || val.front() == ' ' || val.back() == ' '){
+                            return true;
+                        }
+                        if(val.front() == '-' && (val.size() < 2 || !isdigit(val[1]))){
+                            return true; // Not a negative number
+                        }
+                        for(const unsigned char ch : val){
+                            if(ch < ' ' || ch == 0x7f || strchr(",[]{}:#\"'\\?&*!|>%@`~=", ch)){
+                                return true;
+                            }
+                        }
+                        return false;
+                    }
+
                     bool empty() const {
                         return params_.empty();
                     }
-- 
2.43.0


From 15f3581f5010e2fe52dee05c833549a1f6dbec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:15 +0000
Subject: [PATCH 089/110] fix: apply a configuration file to every node
 matching its pattern

---
 sparta/sparta/app/ConfigApplicators.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sparta/sparta/app/ConfigApplicators.hpp b/sparta/sparta/app/ConfigApplicators.hpp
index d0ede1c..e26e3e7 100644
--- a/sparta/sparta/app/ConfigApplicators.hpp
+++ b/sparta/sparta/app/ConfigApplicators.hpp
@@ -587,17 +587,18 @@ public:
                 << loc_pattern_ << " and filter " << filter << " for which to apply configuration file \""
                 << filename_ << "\"";
         }
-        sparta::ConfigParser::YAML param_file(filename_, include_paths_);
-        // These parameters will be in the unbound list as well. Unresolved parameters will be
-        // handled by the unbound tree so allow missing nodes while parsing this for now.
-        // Later, unread unbound parameters which do not correspond to sparta::Parameter Nodes
-        // will cause exceptions
-        //! \todo Allow meta-data attached to virtual parameter trees
-        //! \todo Support tracking of set parameters and error on 0-paramerters set based on
-        //!       ASC_ policy.
-        param_file.allowMissingNodes(asc != ApplySuccessCondition::ASC_MUST_ASSIGN);
-        param_file.setParameterApplyFilter(std::bind(&ApplyFilter::test, &filter, std::placeholders::_1));
         for(sparta::TreeNode* node : filtered_results){
+            // A parser consumes its file once, so each node needs its own
+            sparta::ConfigParser::YAML param_file(filename_, include_paths_);
+            // These parameters will be in the unbound list as well. Unresolved parameters will be
+            // handled by the unbound tree so allow missing nodes while parsing this for now.
+            // Later, unread unbound parameters which do not correspond to sparta::Parameter Nodes
+            // will cause exceptions
+            //! \todo Allow meta-data attached to virtual parameter trees
+            //! \todo Support tracking of set parameters and error on 0-paramerters set based on
+            //!       ASC_ policy.
+            param_file.allowMissingNodes(asc != ApplySuccessCondition::ASC_MUST_ASSIGN);
+            param_file.setParameterApplyFilter(std::bind(&ApplyFilter::test, &filter, std::placeholders::_1));
             param_file.consumeParameters(node, verbose);
         }
     }
-- 
2.43.0


From edd88dfbe292a6d14729519c854f195b84c64394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:44 +0000
Subject: [PATCH 090/110] fix: keep carriage returns out of the comments of
 emitted configuration files

---
 sparta/sparta/parsers/ConfigEmitterYAML.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/parsers/ConfigEmitterYAML.hpp b/sparta/sparta/parsers/ConfigEmitterYAML.hpp
index 4734509..068738b 100644
--- a/sparta/sparta/parsers/ConfigEmitterYAML.hpp
+++ b/sparta/sparta/parsers/ConfigEmitterYAML.hpp
@@ -242,13 +242,13 @@ private:
                                 // A description of the child must be printed
                                 // here if it will be a parameter
                                 if(nullptr != dynamic_cast<const ParameterBase*>(child)){
-                                    //*emitter_ << YP::Newline << YP::Comment(child->getDesc());
+                                    //*emitter_ << YP::Newline << YP::Comment(makeComment_(child->getDesc()));
                                     //const auto indent = emitter_->getColumn();
                                     //const auto pre_comment_indent = emitter_->GetPreCommentIndent();
                                     //emitter_->SetPreCommentIndent(0); // yaml-cpp modified to allow 0 indent
                                     *emitter_ << YP::Newline
                                         // << YP::PadToColumn(indent - pre_comment_indent)
-                                              << YP::Comment(child->getDesc())
+                                              << YP::Comment(makeComment_(child->getDesc()))
                                               << YP::Newline;
                                     // << YP::PadToColumn(indent);
                                     //emitter_->SetPreCommentIndent(pre_comment_indent); // yaml-cpp modified to allow 0 indent
@@ -324,7 +324,7 @@ private:
             comment << "\tNON-DEFAULT: " << p->getDefaultAsString() << " (" << p->getTypeName() << ")";
         }
         p->stringizeTags(comment);
-        *emitter_ << YP::Comment(comment.str());
+        *emitter_ << YP::Comment(makeComment_(comment.str()));
     }
 
     void writeParameterValue_(const ParameterBase* p,
@@ -360,6 +360,16 @@ private:
         sparta_assert(emitter_->good());
     }
 
+    // Gets the text of a comment, in which a carriage return must not appear
+    // because YAML ends the line there
+    static std::string makeComment_(std::string text)
+    {
+        for(size_t pos = text.find('\r'); pos != std::string::npos; pos = text.find('\r', pos)){
+            text.replace(pos, 1, "\\r");
+        }
+        return text;
+    }
+
     // Checks if each of the parent nodes except root has the power_entity tag
     void checkParent(const TreeNode* child)
     {
-- 
2.43.0


From ec5cda70f0ad3520a31268bafd255b6518b70459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:25 +0000
Subject: [PATCH 091/110] fix: replace the older of two non-temporal lines, as
 documented, in SimpleCache2::getLineForReplacement

---
 sparta/cache/SimpleCache2.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sparta/cache/SimpleCache2.hpp b/sparta/cache/SimpleCache2.hpp
index 2a6154f..f1aaffa 100644
--- a/sparta/cache/SimpleCache2.hpp
+++ b/sparta/cache/SimpleCache2.hpp
@@ -140,11 +140,12 @@ namespace sparta
                         return way1_line;
                     }
                     else {
+                        // The previous NT way is the one filled last
                         if ( cache_set.getPreviousNTWay() == 0 ) {
-                            return way0_line;
+                            return way1_line;
                         }
                         else {
-                            return way1_line;
+                            return way0_line;
                         }
                     }
                 }
-- 
2.43.0


From 391fd1cf69e816f01e9bd163b48ff1a42d7bd8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:13 +0000
Subject: [PATCH 092/110] fix: let SpartaSharedPointers be assigned or reset
 from within the object that they release

---
 sparta/sparta/utils/SpartaSharedPointer.hpp | 31 +++++++++++++--------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointer.hpp b/sparta/sparta/utils/SpartaSharedPointer.hpp
index fcdc796..1127c25 100644
--- a/sparta/sparta/utils/SpartaSharedPointer.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointer.hpp
@@ -11,6 +11,7 @@
 #include <cinttypes>
 #include <cassert>
 #include <type_traits>
+#include <utility>
 
 #include "sparta/utils/Utils.hpp"
 #include "sparta/utils/MetaStructs.hpp"
@@ -195,11 +196,10 @@ namespace sparta
         SpartaSharedPointer & operator=(const SpartaSharedPointer & orig)
         {
             sparta_assert(&orig != this);
-            unlink_();
-            ref_count_ = orig.ref_count_;
-            if(SPARTA_EXPECT_TRUE(ref_count_ != nullptr)) {
-                ++ref_count_->count;
-            }
+            // This pointer or the original could be part of the
+            // object being released, so release it last
+            SpartaSharedPointer tmp(orig);
+            std::swap(ref_count_, tmp.ref_count_);
             return *this;
         }
 
@@ -214,9 +214,10 @@ namespace sparta
         SpartaSharedPointer & operator=(SpartaSharedPointer && orig)
         {
             sparta_assert(&orig != this);
-            unlink_();
-            ref_count_ = orig.ref_count_;
-            orig.ref_count_ = nullptr;
+            // This pointer or the original could be part of the
+            // object being released, so release it last
+            SpartaSharedPointer tmp(std::move(orig));
+            std::swap(ref_count_, tmp.ref_count_);
             return *this;
         }
 
@@ -277,8 +278,10 @@ namespace sparta
          * \param p The new pointer
          */
         void reset(PointerT * p = nullptr) {
-            unlink_();
-            ref_count_ = p == nullptr ? nullptr : new RefCount(p);
+            // This pointer could be part of the object being
+            // released, so release it last
+            SpartaSharedPointer tmp(p);
+            std::swap(ref_count_, tmp.ref_count_);
         }
 
         /**
@@ -373,8 +376,12 @@ namespace sparta
         {
             if(SPARTA_EXPECT_TRUE(ref_count_ != nullptr))
             {
-                --ref_count_->count;
-                releaseRefCount_(ref_count_);
+                // This pointer could be part of the object being
+                // released: do not touch it afterward
+                RefCount * ref_count = ref_count_;
+                ref_count_ = nullptr;
+                --ref_count->count;
+                releaseRefCount_(ref_count);
             }
         }
 
-- 
2.43.0


From 42d96e8bc5e46385a7fa356f9d6b3395d1ba9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:13 +0000
Subject: [PATCH 093/110] fix: lock an expired SpartaWeakPointer to a null
 pointer

---
 sparta/sparta/utils/SpartaSharedPointer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointer.hpp b/sparta/sparta/utils/SpartaSharedPointer.hpp
index 1127c25..6abb092 100644
--- a/sparta/sparta/utils/SpartaSharedPointer.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointer.hpp
@@ -521,7 +521,7 @@ namespace sparta
          * \return nullptr if the SpartaSharedPointer has expired; otherwise a locked version
          */
         SpartaSharedPointer<PointerT> lock() const noexcept {
-            return SpartaSharedPointer<PointerT>(wp_ref_cnt_, true);
+            return SpartaSharedPointer<PointerT>(expired() ? nullptr : wp_ref_cnt_, true);
         }
 
     private:
-- 
2.43.0


From d1ad51523c4c9b7075b5604e5b49ce9d370921d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:20 +0000
Subject: [PATCH 094/110] fix: keep the blocks of a
 SpartaSharedPointerAllocator apart when a constructor allocates or throws

---
 .../utils/SpartaSharedPointerAllocator.hpp    | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
index 851caab..16c9244 100644
--- a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
@@ -300,12 +300,11 @@ namespace sparta
 
             using PointerTAlignedStorage = AlignedStorage<PointerT>;
 
-            template<typename ...ObjArgs>
-            MemBlock(SpartaSharedPointerAllocator * alloc_in, ObjArgs&&...obj_args) :
+            explicit MemBlock(SpartaSharedPointerAllocator * alloc_in) :
                 MemBlockBase(alloc_in)
             {
-                // Build the new object using the inplacement new.
-                object = new (&object_storage) PointerT(std::forward<ObjArgs>(obj_args)...);
+                // The object itself is built in this storage by allocate_
+                object = reinterpret_cast<PointerT*>(&object_storage);
 
                 // Build the reference count using that object
                 ref_count = new (&ref_count_storage) RefCountType(object, (void*)this);
@@ -339,17 +338,15 @@ namespace sparta
                 data_(num_blocks)
             {}
 
-            // Allocate an object in aligned storage
-            template<typename ...Args>
-            MemBlock * allocate(SpartaSharedPointerAllocator * alloc, Args&&... args)
+            // Allocate a block in aligned storage
+            MemBlock * allocate(SpartaSharedPointerAllocator * alloc)
             {
                 sparta_assert(size_ < data_.size(), "Out of memory");
 
                 // construct value in memory of aligned storage
                 // using inplace operator new
-                auto block = new(&data_[size_]) MemBlock(alloc, std::forward<Args>(args)...);
+                auto block = new(&data_[size_]) MemBlock(alloc);
                 ++size_;
-
                 return block;
             }
 
@@ -398,8 +395,6 @@ namespace sparta
                 sparta_assert(block->ref_count->p != nullptr);
                 block->ref_count->mem_block = (void*)block;
                 block->ref_count->count = 1;
-                // perform an in place new on the reused pointer
-                new (block->ref_count->p) PointerT(std::forward<PointerTArgs>(args)...);
             }
             else {
                 if(SPARTA_EXPECT_FALSE(allocated_ > water_mark_)) {
@@ -420,9 +415,21 @@ namespace sparta
                         throw ex;
                     }
                 }
-                block = memory_blocks_.allocate(this, std::forward<PointerTArgs>(args)...);
+                block = memory_blocks_.allocate(this);
                 ++allocated_;
             }
+
+            // perform an in place new on the block.  The block is
+            // already taken since the constructor could allocate as
+            // well.  Return it if the constructor throws.
+            try {
+                new (block->ref_count->p) PointerT(std::forward<PointerTArgs>(args)...);
+            }
+            catch(...) {
+                block->ref_count->count = -1;
+                releaseBlock_(block);
+                throw;
+            }
             return block->ref_count;
         }
 
-- 
2.43.0


From cd4fc3d0dd2973232b4329ab75d9e03504a8046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:20 +0000
Subject: [PATCH 095/110] fix: report over-allocation of a
 SpartaSharedPointerAllocator whose watermark is its capacity

---
 sparta/sparta/utils/SpartaSharedPointerAllocator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
index 16c9244..51abfa9 100644
--- a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
@@ -397,13 +397,13 @@ namespace sparta
                 block->ref_count->count = 1;
             }
             else {
-                if(SPARTA_EXPECT_FALSE(allocated_ > water_mark_)) {
-                    if(SPARTA_EXPECT_FALSE(!water_mark_warning_)) {
+                if(SPARTA_EXPECT_FALSE(allocated_ >= water_mark_)) {
+                    if(SPARTA_EXPECT_FALSE(allocated_ > water_mark_ && !water_mark_warning_)) {
                         watermark_warning_callback_(*this);
                         water_mark_warning_ = true;
                     }
 
-                    // Only need to check for overallocation if we've passed the watermark
+                    // Only need to check for overallocation if we've reached the watermark
                     if(SPARTA_EXPECT_FALSE(allocated_ >= memory_blocks_.capacity())) {
                         over_allocation_callback_(*this);
                         SpartaException ex;
-- 
2.43.0


From 9e3e85e44017ee815ce5e031b5161ecc79c720f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:40 +0000
Subject: [PATCH 096/110] fix: accept the documented types statisticdef and
 statdef in tree filter expressions

---
 sparta/src/TreeFilterExpressionGrammar.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sparta/src/TreeFilterExpressionGrammar.cpp b/sparta/src/TreeFilterExpressionGrammar.cpp
index cc97179..dbd725c 100644
--- a/sparta/src/TreeFilterExpressionGrammar.cpp
+++ b/sparta/src/TreeFilterExpressionGrammar.cpp
@@ -143,10 +143,10 @@ Grammar::TypeVariable::TypeVariable() :
 
     type_val =
         no_case["type"] >> *(char_(" \t")) >> ":" >> *(char_(" \t")) >>
-            (   (no_case["statistic"]    [_val = InstrumentationNode::TYPE_STATISTICDEF])
-             |  (no_case["statisticdef"] [_val = InstrumentationNode::TYPE_STATISTICDEF])
-             |  (no_case["stat"]         [_val = InstrumentationNode::TYPE_STATISTICDEF])
+            (   (no_case["statisticdef"] [_val = InstrumentationNode::TYPE_STATISTICDEF])
+             |  (no_case["statistic"]    [_val = InstrumentationNode::TYPE_STATISTICDEF])
              |  (no_case["statdef"]      [_val = InstrumentationNode::TYPE_STATISTICDEF])
+             |  (no_case["stat"]         [_val = InstrumentationNode::TYPE_STATISTICDEF])
              |  (no_case["counter"]      [_val = InstrumentationNode::TYPE_COUNTER])
              |  (no_case["parameter"]    [_val = InstrumentationNode::TYPE_PARAMETER])
              |  (no_case["param"]        [_val = InstrumentationNode::TYPE_PARAMETER])
-- 
2.43.0


From 6a0fa6818b2614bea1097de978819e796f1efdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:22 +0000
Subject: [PATCH 097/110] fix: do not treat the operands of exact comparisons
 in tree filter expressions as regular expressions

---
 sparta/src/TreeFilterExpression.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/src/TreeFilterExpression.cpp b/sparta/src/TreeFilterExpression.cpp
index 96d4118..ba5368e 100644
--- a/sparta/src/TreeFilterExpression.cpp
+++ b/sparta/src/TreeFilterExpression.cpp
@@ -219,7 +219,8 @@ namespace filter {
             std::cout << "]";
         }
 
-        std::regex expr(tag_); // Create the expression regardles of comparison type
+        // Only the operand of a regex comparison is a regular expression
+        const std::regex expr(tag_comparison_ == TAGCOMP_REM ? tag_ : "");
         std::smatch what;
 
         // Look at each tag
@@ -273,7 +274,8 @@ namespace filter {
             std::cout << "name of " << n->getLocation() << " is \"" << n->getName() << "\"";
         }
 
-        std::regex expr(name_); // Create the expression regardles of comparison type
+        // Only the operand of a regex comparison is a regular expression
+        const std::regex expr(name_comparison_ == NAMECOMP_REM ? name_ : "");
         std::smatch what;
 
         // Look at name
-- 
2.43.0


From 822d0fac8fa6c73128cf2fd50656598c238f82a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:22 +0000
Subject: [PATCH 098/110] fix: allow '-', and so character ranges, in the
 patterns of tree filter expressions

---
 sparta/sparta/tree/filter/Grammar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/tree/filter/Grammar.hpp b/sparta/sparta/tree/filter/Grammar.hpp
index bba9b8c..3f786ec 100644
--- a/sparta/sparta/tree/filter/Grammar.hpp
+++ b/sparta/sparta/tree/filter/Grammar.hpp
@@ -251,9 +251,9 @@ class Grammar :
                   )
                 ;
 
-            tag_pattern_simple %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\-\\(\\)$\\^\\?\\*")); // No spaces or quotes
-            tag_pattern_indq %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\-\\(\\)$\\^\\?\\*\\\\ '")); // Spaces and single quotes ok
-            tag_pattern_insq %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\-\\(\\)$\\^\\?\\*\\\\ \\\"")); // Spaces and double quotes ok
+            tag_pattern_simple %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\-\\(\\)$\\^\\?\\*-")); // No spaces or quotes
+            tag_pattern_indq %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\-\\(\\)$\\^\\?\\*\\\\ '-")); // Spaces and single quotes ok
+            tag_pattern_insq %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\-\\(\\)$\\^\\?\\*\\\\ \\\"-")); // Spaces and double quotes ok
 
             tag_expr.name("expr");
             tag_val.name("val");
-- 
2.43.0


From 4fb874a20f021dccfb17fc8bfea898172e799367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:47 +0000
Subject: [PATCH 099/110] fix: remove all names of a destroyed child from its
 parent, and no names of its siblings

The mapping of group+index stayed behind as a dangling pointer, while erasing
by name also dropped siblings sharing that group or name.
---
 sparta/src/TreeNode.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index 0ba0d53..346fa6e 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -2411,10 +2411,14 @@ void TreeNode::removeChildForTeardown_(TreeNode* child) {
 
     erase_child(children_, false);
 
-    // Remove child from child identifier mapping
-    for(const std::string* ident : child->getIdentifiers()){
-        sparta_assert(ident != nullptr);
-        names_.erase(*ident); // Does not fail if key not found
+    // Remove every mapping (name, aliases, group, group+index) of this child.
+    // Siblings in the same group share the group key and must keep theirs
+    for(auto itr = names_.begin(); itr != names_.end();){
+        if(itr->second == child){
+            itr = names_.erase(itr);
+        }else{
+            ++itr;
+        }
     }
 }
 
-- 
2.43.0


From 431ac80f8600f5c9c43d9fd1546140abf1df7158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:47 +0000
Subject: [PATCH 100/110] fix: reject a child that already has a parent before
 changing the new parent

addChild_ found out in setParent_, after the child had been registered under
its new parent, so both trees contained it after the exception.
---
 sparta/src/TreeNode.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index 346fa6e..c6aaba9 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -1727,6 +1727,20 @@ void TreeNode::addChild_(TreeNode* child, bool inherit_phase) {
             << getLocation() << "\". A TreeNode can never be a parent of itself.";
     }
 
+    // Reject what setParent_ would reject, but before anything is modified
+    if(child->getParent() != nullptr && child->getParent() != this){
+        throw SpartaException("Cannot add device tree node \"")
+            << child->getName() << "\" as child to device tree node \""
+            << getLocation() << "\" because it already is a child of \""
+            << child->getParent()->getLocation() << "\". Cannot change parents";
+    }
+    if(getPhase() < child->getPhase()){
+        throw SpartaException("Cannot add device tree node \"")
+            << child->getName() << "\" as child to device tree node \""
+            << getLocation() << "\" because the phase of the parent (" << getPhase()
+            << ") is less than the phase of the child (" << child->getPhase() << ")";
+    }
+
     // Prevent cycles in the tree.
     TreeNode* parent = getParent();
     uint32_t levels = 0;
-- 
2.43.0


From 9e78537d13a7a756d03d56a24ed8fb4f659864ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:15 +0000
Subject: [PATCH 101/110] fix: observe lists of notification names also on
 sources created later

A list of names separated by commas was matched as one single name when a
source was constructed or attached after the registration and when checking
that a registration is possible, so those observers were never notified.
---
 sparta/sparta/simulation/TreeNode.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/simulation/TreeNode.hpp b/sparta/sparta/simulation/TreeNode.hpp
index fe79f05..5c50209 100644
--- a/sparta/sparta/simulation/TreeNode.hpp
+++ b/sparta/sparta/simulation/TreeNode.hpp
@@ -3075,8 +3075,16 @@ namespace sparta
              */
             bool observes(const TreeNode& obs_pt, const std::string* name) const
             {
-                return (&obs_pt == obs_point)
-                       && TreeNode::notificationCategoryMatch(name_ptr, name);
+                if(&obs_pt != obs_point){
+                    return false;
+                }
+                // Observers can name several notifications, separated by commas
+                for(const std::string* one_name : parseNotificationNameString(*name_ptr)){
+                    if(TreeNode::notificationCategoryMatch(one_name, name)){
+                        return true;
+                    }
+                }
+                return false;
             }
 
             /*!
@@ -4323,7 +4331,8 @@ namespace sparta
         {
             (void)allow_private;
             const std::type_info& data_type = typeid(DataT);
-            if(true == ensure_possible && false == canSubtreeGenerateNotification(data_type, name)){
+            const std::vector<const std::string*> names = parseNotificationNameString(name);
+            if(true == ensure_possible && false == canSubtreeGenerateNotifications(data_type, names)){
                 throw SpartaException("Cannot registerForNotification for data type \"")
                     << demangle(typeid(DataT).name()) << "\" and name=\"" << name << "\" on node " << getLocation()
                     << " with callback on \"" << demangle(typeid(T).name()) << "\""
@@ -4345,7 +4354,7 @@ namespace sparta
             observers.push_back(std::move(d));
 
             // Let children know
-            broadcastRegistrationForNotificationListStringToChildren_(typeid(DataT), name, this, &observers.back(), allow_private);
+            broadcastRegistrationForNotificationToChildren_(typeid(DataT), names, this, &observers.back(), allow_private);
         }
 
         // Overload which allows registration with a class member function accepting only a data argument
@@ -4354,7 +4363,8 @@ namespace sparta
         {
             (void)allow_private;
             const std::type_info& data_type = typeid(DataT);
-            if(true == ensure_possible && false == canSubtreeGenerateNotification(data_type, name)){
+            const std::vector<const std::string*> names = parseNotificationNameString(name);
+            if(true == ensure_possible && false == canSubtreeGenerateNotifications(data_type, names)){
                 throw SpartaException("Cannot registerForNotification for data type \"")
                     << demangle(typeid(DataT).name()) << "\" and name=\"" << name << "\" on node " << getLocation()
                     << " with callback on \"" << demangle(typeid(T).name()) << "\""
@@ -4376,7 +4386,7 @@ namespace sparta
             observers.push_back(std::move(d));
 
             // Let children know
-            broadcastRegistrationForNotificationListStringToChildren_(typeid(DataT), name, this, &observers.back(), allow_private);
+            broadcastRegistrationForNotificationToChildren_(typeid(DataT), names, this, &observers.back(), allow_private);
         }
 
         /*!
-- 
2.43.0


From 0543d2e62e82c9565e836c3b7347d02befa3df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:09 +0000
Subject: [PATCH 102/110] fix: let a tap that was moved report the node it
 observes

reset() registered with the new node but getObservedNode kept returning the
node given at construction.
---
 sparta/sparta/log/Tap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/log/Tap.hpp b/sparta/sparta/log/Tap.hpp
index 7bc3d56..bfe1c06 100644
--- a/sparta/sparta/log/Tap.hpp
+++ b/sparta/sparta/log/Tap.hpp
@@ -129,6 +129,7 @@ namespace sparta
                 detach();
 
                 if(nullptr != node){
+                    node_ = node;
                     node_wptr_ = node->getWeakPtr();
 
                     // Use the form of the registration command which can ignore the no-notification-source case
-- 
2.43.0


From 4d35ebe8e01af3351ae80aa326916a2ff517cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:57 +0000
Subject: [PATCH 103/110] fix: restore the fill character of a stream after
 logging to it

Messages written to an ostream destination such as std::cout left its fill
character at 0, which then padded everything else written there.
---
 sparta/src/Destination.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/src/Destination.cpp b/sparta/src/Destination.cpp
index cb3b3cd..6d5f18a 100644
--- a/sparta/src/Destination.cpp
+++ b/sparta/src/Destination.cpp
@@ -50,6 +50,7 @@ const Formatter::Info* Formatter::FORMATTERS = FMTLIST;
 void DefaultFormatter::write(const sparta::log::Message& msg)
 {
     std::ios::fmtflags f = stream_.flags();
+    const char fill = stream_.fill();
 
     stream_ << '{';
 
@@ -76,6 +77,7 @@ void DefaultFormatter::write(const sparta::log::Message& msg)
 
     // restore ostream flags
     stream_.flags(f);
+    stream_.fill(fill);
 
     stream_.flush();
 }
-- 
2.43.0


From 627fb7ea4f00cf199d0bcce246cc29392972f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:17 +0000
Subject: [PATCH 104/110] fix: emit a message whose log object is moved once
 and with all of its content

The moved-from object emitted the message as well, and what was inserted after
the move overwrote its beginning.
---
 sparta/sparta/log/MessageSource.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/log/MessageSource.hpp b/sparta/sparta/log/MessageSource.hpp
index 1368226..c31e87a 100644
--- a/sparta/sparta/log/MessageSource.hpp
+++ b/sparta/sparta/log/MessageSource.hpp
@@ -149,8 +149,10 @@ namespace sparta
                 //! Move constructor
                 LogObject(LogObject&& rhp) :
                     src_(rhp.src_),
-                    s_(rhp.s_.str()) // May unfortunately involve a copy
-                { }
+                    s_(std::move(rhp.s_))
+                {
+                    rhp.src_ = nullptr; // Only this object emits the message
+                }
 
                 //! \brief Not Copy-constructable
                 LogObject(const LogObject& rhp) = delete;
-- 
2.43.0


From 1267d60ac9245ebced4f0e5458d78f417d59ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:18 +0000
Subject: [PATCH 105/110] fix: choose the log format by the extension a file
 name ends with

Only the first occurrence of an extension in the name was considered.
---
 sparta/sparta/log/Destination.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/log/Destination.hpp b/sparta/sparta/log/Destination.hpp
index 9dc4fc2..abfed5d 100644
--- a/sparta/sparta/log/Destination.hpp
+++ b/sparta/sparta/log/Destination.hpp
@@ -480,7 +480,7 @@ namespace sparta
                         break; // End of the list. Use this formatter
                     }
                     std::string ext = fmtinfo_->extension;
-                    size_t pos = filename.find(ext);
+                    size_t pos = filename.rfind(ext);
                     if(pos != std::string::npos && pos == filename.size() - ext.size()){
                         break; // Use this fmtinfo_->factory to construct
                     }
-- 
2.43.0


From fa63503cff6be1d4f85c77c07f70b033aeebefd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:25 +0000
Subject: [PATCH 106/110] fix: do not track nodes constructed with a parent as
 parentless

The virtual global node reached such nodes twice, so its observers were added
twice to every notification source below them and called twice per post.
---
 sparta/src/TreeNode.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index c6aaba9..d784768 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -147,8 +147,11 @@ TreeNode::TreeNode(TreeNode* parent,
     sparta::TreeNode::trackNode_(this);
 
     // Track this node in global parentless list immediately so that
-    // logging works
-    sparta::TreeNode::trackParentlessNode_(this);
+    // logging works. If added to a parent above, it is reachable through it and
+    // must not be seen twice from the virtual global node
+    if(parent_ == nullptr){
+        sparta::TreeNode::trackParentlessNode_(this);
+    }
 }
 
 TreeNode::TreeNode(TreeNode&& rhp) :
-- 
2.43.0


From 2b73b3681f7c0fb38c8b62d2af0f164732f96183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:43 +0000
Subject: [PATCH 107/110] fix: add observers of the virtual global node once to
 the sources in device trees

A root has no parent but also is a child of its search scope, which has none
either. Both are tracked as parentless, so every observer of the virtual global
node was added twice to each source of the tree and called twice per post.
---
 .../simulation/VirtualGlobalTreeNode.hpp      | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
index 8f64739..5af1eaf 100644
--- a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
+++ b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
@@ -8,6 +8,7 @@
 #include <memory>
 
 #include "sparta/simulation/TreeNode.hpp"
+#include "sparta/simulation/GlobalTreeNode.hpp"
 #include "sparta/log/MessageSource.hpp"
 
 /*!
@@ -197,12 +198,8 @@ namespace sparta
                                                                      TreeNode* obs_node,
                                                                      const delegate* del,
                                                                      const bool private_only) override final {
-            (void)private_only;
-            for(auto& n : statics_->parentless_map_){
-                sparta::TreeNode::WeakPtr& child = n.second;
-                if(child.expired() == false){
-                    child.lock()->broadcastRegistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
-                }
+            for(TreeNode* child : getTopmostNodes_()){
+                child->broadcastRegistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
             }
         }
 
@@ -213,13 +210,32 @@ namespace sparta
                                                                        TreeNode* obs_node,
                                                                        const delegate* del,
                                                                        const bool private_only) override final {
-            (void)private_only;
+            for(TreeNode* child : getTopmostNodes_()){
+                child->broadcastDeregistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
+            }
+        }
+
+        // Nodes which are not below any other node, each of them once. Roots are
+        // parentless but are children of their search scope as well, which is not
+        // itself part of any tree
+        std::vector<TreeNode*> getTopmostNodes_() const {
+            std::vector<TreeNode*> nodes;
             for(auto& n : statics_->parentless_map_){
-                sparta::TreeNode::WeakPtr& child = n.second;
-                if(child.expired() == false){
-                    child.lock()->broadcastDeregistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
+                const std::shared_ptr<TreeNode> node = n.second.lock();
+                if(node == nullptr){
+                    continue;
+                }
+                if(dynamic_cast<GlobalTreeNode*>(node.get()) == nullptr){
+                    nodes.push_back(node.get());
+                    continue;
+                }
+                for(TreeNode* child : node->getChildren()){
+                    if(child->getParent() != nullptr){
+                        nodes.push_back(child);
+                    }
                 }
             }
+            return nodes;
         }
 
         // Override from TreeNode
-- 
2.43.0


From 81df806fd51c46207ea120131bc6195c91708cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:00 +0000
Subject: [PATCH 108/110] fix: fire mixed && and || trigger expressions only
 when the whole expression is met

---
 sparta/sparta/trigger/ExpressionTrigger.hpp | 39 ++++++++-------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/sparta/sparta/trigger/ExpressionTrigger.hpp b/sparta/sparta/trigger/ExpressionTrigger.hpp
index ac26cdc..540fd9a 100644
--- a/sparta/sparta/trigger/ExpressionTrigger.hpp
+++ b/sparta/sparta/trigger/ExpressionTrigger.hpp
@@ -600,11 +600,14 @@ private:
         //keep finding reference triggers they can reuse - because we are making them ourselves
         //just in time!
 
-        SpartaHandler cb = CREATE_SPARTA_HANDLER(ExpressionTrigger, notify);
+        //The intermediate triggers only notify the expressions which refer to their
+        //tags. This trigger is waiting for the last one, which stands for the whole
+        //expression.
+        SpartaHandler intermediate_cb = CREATE_SPARTA_HANDLER(ExpressionTrigger, onSubExpression_);
 
         while (!placeholders.empty()) {
             std::unique_ptr<ExpressionTrigger> trigger(new ExpressionTrigger(
-                name, cb, placeholders.front().first, context, report_container_));
+                name, intermediate_cb, placeholders.front().first, context, report_container_));
 
             trigger->disableMessages();
             trigger->setReferenceEvent(placeholders.front().second, "internal");
@@ -621,38 +624,26 @@ private:
 
         //Whatever is leftover in the "replaced_expression" string is the last to
         //consume these placeholders
+        SpartaHandler cb = CREATE_SPARTA_HANDLER(ExpressionTrigger, notify);
         std::unique_ptr<ExpressionTrigger> trigger(new ExpressionTrigger(
             name, cb, replaced_expression, context, report_container_));
         trigger->disableMessages();
         internal_expression_triggers_.emplace_back(trigger.release());
 
-        //Now that the expression has been replaced piece by piece with these
-        //intermediate UUID tags, determine how many other triggers this last
-        //ExpressionTrigger is waiting on
-        auto and_operands = ExpressionTrigger::separateByDelimiter_(replaced_expression, "&&");
-        auto or_operands  = ExpressionTrigger::separateByDelimiter_(replaced_expression, "||");
-
-        //If the replaced expression still has && and || in it, the above code
-        //would have thrown an exception already:
-        //  if (placeholders.empty()) { ... }
-        //
-        //And note that the expression 'A && B' when split by delimiter '||' would
-        //return or_operands.size() == 1. In other words, it returns the string
-        //'replaced_expression' right back to you in a vector of size 1, not an
-        //empty vector. Same goes for and_operands.size() == 1 if 'A || B' was
-        //split by delimiter '&&'.
-        sparta_assert(and_operands.size() <= 1 || or_operands.size() <= 1);
-
-        if (and_operands.size() > 1) {
-            waiting_on_ = and_operands.size();
-        } else {
-            waiting_on_ = 1;
-        }
+        waiting_on_ = 1;
 
         supports_single_ct_trig_cb_ = false;
         expression_can_be_negated_ = false;
     }
 
+    /*!
+     * \brief Callback of the intermediate triggers which stand for grouped parts
+     * of an expression
+     */
+    void onSubExpression_()
+    {
+    }
+
     /*!
      * \brief Split apart expressions into smaller pieces - each of which
      * resolves to a trigger object, be it one that we create here and own,
-- 
2.43.0


From d6e5f58275155e8ec3845fbc66c4dea634eaca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:00 +0000
Subject: [PATCH 109/110] fix: do not check triggers removed by the callback of
 another trigger in the same tick

---
 sparta/sparta/trigger/TriggerManager.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sparta/sparta/trigger/TriggerManager.hpp b/sparta/sparta/trigger/TriggerManager.hpp
index 95fda50..764b63f 100644
--- a/sparta/sparta/trigger/TriggerManager.hpp
+++ b/sparta/sparta/trigger/TriggerManager.hpp
@@ -313,6 +313,13 @@ private:
                               "ClockHandler removeTriggerDefferred_ called but ClockHandler was not "
                               "currently within a tick");
 
+            // A trigger added within this tick was not yet observed
+            auto added_itr = std::find(to_add_.begin(), to_add_.end(), trig);
+            if(added_itr != to_add_.end()){
+                to_add_.erase(added_itr);
+                return;
+            }
+
             to_remove_.push_back(trig);
         }
 
@@ -362,6 +369,10 @@ private:
             TickLock tl(*this);
 
             for(auto trig : triggers_){
+                // Callbacks may have removed (and destroyed) other triggers
+                if(std::find(to_remove_.begin(), to_remove_.end(), trig) != to_remove_.end()){
+                    continue;
+                }
                 trig->check();
             }
 
-- 
2.43.0


From 326031b35833b5eef3f47b56e6b7fb176ecc6ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:50 +0000
Subject: [PATCH 110/110] fix: cancel the tick of a clock without triggers
 before destroying its handler

---
 sparta/sparta/trigger/TriggerManager.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sparta/sparta/trigger/TriggerManager.hpp b/sparta/sparta/trigger/TriggerManager.hpp
index 764b63f..9d65cf6 100644
--- a/sparta/sparta/trigger/TriggerManager.hpp
+++ b/sparta/sparta/trigger/TriggerManager.hpp
@@ -149,6 +149,8 @@ public:
 
         handler_itr->second->removeTrigger(trig);
         if (handler_itr->second->getNumTriggers() == 0) {
+            // The next tick may still be scheduled
+            handler_itr->second->cancelTick();
             clocks_.erase(handler_itr);
         }
     }
@@ -199,6 +201,13 @@ private:
         ~ClockHandler()
         {;}
 
+        /*!
+         * \brief Cancel the next tick
+         */
+        void cancelTick() {
+            event_.cancel();
+        }
+
         /*!
          * \brief Gets the number of triggers currently observed by this handler
          */
-- 
2.43.0

