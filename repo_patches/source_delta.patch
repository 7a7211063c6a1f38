From 993db49443ef6cfc6b179a96a5784258ad4e79ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:53 +0000
Subject: [PATCH 01/55] fix: uniform_reservoir replaced one slot past the end
 of its storage

The index distribution is inclusive on both ends, so an index of TSize was
drawn and the value overwrote whatever follows the element array (count_).
---
 cxxmetrics/uniform_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index fda6148..8ab55c5 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -110,7 +110,7 @@ void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
     // so we don't run out of count
     count_.store(TSize);
 
-    std::uniform_int_distribution<> d(0, TSize);
+    std::uniform_int_distribution<std::size_t> d(0, TSize - 1);
     elems_[d(gen_)] = value;
 }
 
-- 
2.43.0


From 8cbf0fad3a623b3f9731b2a8dec4ec7dd618aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 02/55] fix: uniform_reservoir raced between updates, snapshots
 and copies

The sample and the random engine were plain data shared by every thread: the
count was published before the element was written, so snapshots read
uninitialised elements, and concurrent updates raced on the engine. Copying a
reservoir while its count was transiently past TSize read and wrote out of
bounds, and assignment did not compile at all. Guard the state with a lock.
---
 cxxmetrics/uniform_reservoir.hpp | 36 ++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index 8ab55c5..0537d06 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -2,8 +2,9 @@
 #define CXXMETRICS_UNIFORM_RESERVOIR_HPP
 
 #include "snapshots.hpp"
-#include <atomic>
+#include <algorithm>
 #include <chrono>
+#include <mutex>
 #include <random>
 
 namespace cxxmetrics
@@ -20,7 +21,10 @@ class uniform_reservoir
 {
     std::default_random_engine gen_;
     TElem elems_[TSize];
-    std::atomic_uint_fast64_t count_;
+    std::size_t count_;
+
+    // guards everything above
+    mutable std::mutex lock_;
 
     static unsigned generate_seed() noexcept
     {
@@ -68,7 +72,8 @@ public:
      */
     reservoir_snapshot snapshot() const noexcept
     {
-        return reservoir_snapshot(&elems_[0], std::min(count_.load(), static_cast<decltype(count_.load())>(TSize)));
+        std::lock_guard<std::mutex> lock(lock_);
+        return reservoir_snapshot(&elems_[0], count_);
     }
 };
 
@@ -82,16 +87,24 @@ uniform_reservoir<TElem, TSize>::uniform_reservoir() noexcept :
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &other) noexcept :
         gen_(generate_seed()),
-        count_(other.count_.load())
+        count_(0)
 {
-    for (std::size_t i = 0; i < count_; i++)
-        elems_[i] = other.elems_[i];
+    std::lock_guard<std::mutex> lock(other.lock_);
+    std::copy(other.elems_, other.elems_ + other.count_, elems_);
+    count_ = other.count_;
 }
 
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize> &uniform_reservoir<TElem, TSize>::operator=(const uniform_reservoir &other) noexcept
 {
-    elems_ = other.elems_;
+    if (this == &other)
+        return *this;
+
+    std::unique_lock<std::mutex> mine(lock_, std::defer_lock);
+    std::unique_lock<std::mutex> theirs(other.lock_, std::defer_lock);
+    std::lock(mine, theirs);
+
+    std::copy(other.elems_, other.elems_ + other.count_, elems_);
     count_ = other.count_;
     return *this;
 }
@@ -99,17 +112,14 @@ uniform_reservoir<TElem, TSize> &uniform_reservoir<TElem, TSize>::operator=(cons
 template<typename TElem, std::size_t TSize>
 void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
 {
-    auto c = count_.fetch_add(1);
+    std::lock_guard<std::mutex> lock(lock_);
 
-    if (c < TSize)
+    if (count_ < TSize)
     {
-        elems_[c] = value;
+        elems_[count_++] = value;
         return;
     }
 
-    // so we don't run out of count
-    count_.store(TSize);
-
     std::uniform_int_distribution<std::size_t> d(0, TSize - 1);
     elems_[d(gen_)] = value;
 }
-- 
2.43.0


From ed737c1f8f0658501ef2f37e76a4081214be3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 03/55] fix: copies of a ringbuf were always empty

Neither the range constructor (used for copying) nor the assignment operator
set the size, so every copied reservoir lost its values; the assignment
operator also flowed off its end without returning and emptied the buffer on
self-assignment.
---
 cxxmetrics/ringbuf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index a954d79..b35ffd7 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -195,6 +195,7 @@ ringbuf<TElemType, TSize>::ringbuf(TInputIterator start, const TInputIterator &e
         data_[i] = *start;
 
     tail_ = i;
+    size_ = i;
 }
 
 
@@ -207,6 +208,9 @@ ringbuf<TElemType, TSize>::ringbuf(const ringbuf &other) noexcept :
 template<typename TElemType, size_t TSize>
 ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &other) noexcept
 {
+    if (this == &other)
+        return *this;
+
     tail_ = 0;
     size_ = 0;
 
@@ -216,6 +220,8 @@ ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &o
         data_[i] = *it;
 
     tail_ = i;
+    size_ = i;
+    return *this;
 }
 
 template<typename TElemType, size_t TSize>
-- 
2.43.0


From e8bc914313b535bc8bcba25fbadd057fdec08088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 04/55] fix: sliding_window_reservoir assignment did not return
 a value

---
 cxxmetrics/sliding_window.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/sliding_window.hpp b/cxxmetrics/sliding_window.hpp
index daf46f1..b10c5e0 100644
--- a/cxxmetrics/sliding_window.hpp
+++ b/cxxmetrics/sliding_window.hpp
@@ -250,6 +250,7 @@ sliding_window_reservoir<TElem, TMaxSize, TClockGet>::operator=(const sliding_wi
     data_ = other.data_;
     clock_ = other.clock_;
     window_ = other.window_;
+    return *this;
 }
 
 template<typename TElem, size_t TMaxSize, typename TClockGet>
-- 
2.43.0


From cbdfe5e3beb6334a816c0f48d99ba1bc078c0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:29 +0000
Subject: [PATCH 05/55] fix: ringbuf exposed slots that had been claimed but
 not yet written

A push made every slot up to its own available, including earlier slots
whose writers had not stored their element yet, so snapshots could contain
values that were never recorded.
---
 cxxmetrics/ringbuf.hpp | 71 ++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index b35ffd7..3df9307 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -25,6 +25,9 @@ class ringbuf
 {
     std::array<std::atomic<TElemType>, TSize> data_;
 
+    // which slots of data_ hold an element. A slot is claimed (through tail_) before its element is written
+    std::array<std::atomic<bool>, TSize> written_;
+
     // where the end of the list is.
     std::atomic_uint_fast64_t tail_;
 
@@ -38,6 +41,8 @@ public:
         std::size_t remaining_;
         TElemType current_;
         const ringbuf *buf_;
+
+        void advance() noexcept;
     public:
         using value_type = TElemType;
 
@@ -115,6 +120,7 @@ public:
     size_t size() const noexcept;
 
 private:
+    void store(std::size_t slot, const TElemType &elem) noexcept;
 
     friend class iterator;
 };
@@ -131,13 +137,28 @@ ringbuf<TElemType, TSize>::iterator::iterator() noexcept :
 template<typename TElemType, size_t TSize>
 ringbuf<TElemType, TSize>::iterator::iterator(const ringbuf *rb, int64_t offset) noexcept :
         offset_(offset),
-        remaining_(0),
+        remaining_(TSize),
         current_{},
         buf_(rb)
 {
-    remaining_ = buf_->size_.load();
-    if (remaining_ && buf_)
-        current_ = buf_->data_[offset_++];
+    advance();
+}
+
+/**
+ * Settle on the first slot at or after offset_ that holds an element. Each slot is visited once
+ */
+template<typename TElemType, size_t TSize>
+void ringbuf<TElemType, TSize>::iterator::advance() noexcept
+{
+    for (; remaining_; --remaining_, ++offset_)
+    {
+        auto slot = offset_ % TSize;
+        if (buf_->written_[slot].load(std::memory_order_acquire))
+        {
+            current_ = buf_->data_[slot];
+            return;
+        }
+    }
 }
 
 template<typename TElemType, size_t TSize>
@@ -164,8 +185,9 @@ typename ringbuf<TElemType, TSize>::iterator &ringbuf<TElemType, TSize>::iterato
     if (!remaining_)
         return *this;
 
-    current_ = buf_->data_[(offset_++) % TSize];
+    offset_++;
     remaining_--;
+    advance();
 
     return *this;
 }
@@ -182,20 +204,21 @@ ringbuf<TElemType, TSize>::ringbuf() noexcept :
         size_(0)
 {
     static_assert(TSize > 1, "The ringbuffer must have a size of at least 2");
+
+    for (auto &written : written_)
+        written = false;
 }
 
 template<typename TElemType, size_t TSize>
 template<typename TInputIterator>
 ringbuf<TElemType, TSize>::ringbuf(TInputIterator start, const TInputIterator &end) noexcept :
-        tail_(0),
-        size_(0)
+        ringbuf()
 {
     std::size_t i = 0;
     for (; start != end && i < TSize; ++i, ++start)
-        data_[i] = *start;
+        store(i, *start);
 
     tail_ = i;
-    size_ = i;
 }
 
 
@@ -213,24 +236,21 @@ ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &o
 
     tail_ = 0;
     size_ = 0;
+    for (auto &written : written_)
+        written = false;
 
     auto it = other.begin();
     std::size_t i = 0;
     for (; it != other.end() && i < TSize; ++i, ++it)
-        data_[i] = *it;
+        store(i, *it);
 
     tail_ = i;
-    size_ = i;
     return *this;
 }
 
 template<typename TElemType, size_t TSize>
 typename ringbuf<TElemType, TSize>::iterator ringbuf<TElemType, TSize>::begin() const noexcept
 {
-    auto size = size_.load();
-    if (size < TSize)
-        return iterator(this, 0);
-
     return iterator(this, tail_.load() % TSize);
 }
 
@@ -244,20 +264,17 @@ template<typename TElemType, size_t TSize>
 void ringbuf<TElemType, TSize>::push(const TElemType &elem) noexcept
 {
     auto writeloc = tail_.fetch_add(1);
-    data_[writeloc % TSize] = elem;
-
-    if (++writeloc > TSize)
-        writeloc = TSize;
+    store(writeloc % TSize, elem);
+}
 
-    auto csize = size_.load(std::memory_order_acquire);
-    while (true)
-    {
-        if (writeloc <= csize || csize >= TSize)
-            return;
+template<typename TElemType, size_t TSize>
+void ringbuf<TElemType, TSize>::store(std::size_t slot, const TElemType &elem) noexcept
+{
+    data_[slot] = elem;
 
-        if (size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire))
-            return;
-    }
+    // the element counts from the moment its slot is marked as written, never because a later slot was
+    if (!written_[slot].exchange(true, std::memory_order_acq_rel))
+        size_.fetch_add(1);
 }
 
 template<typename TElemType, size_t TSize>
-- 
2.43.0


From 8203de0d04f33f0efe7b2cefa2509236a97c21ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 06/55] fix: ewma lost marks and raced when used from several
 threads

The clock was read before the last fold's time was, last_ was a plain
member, and marks and folds interleaved, so marks could be dropped, decayed
twice or left pending. Marks, reads, folds and copies now exclude each other.
---
 cxxmetrics/ewma.hpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 0127f15..928291d 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -5,6 +5,7 @@
 #include <cmath>
 #include <chrono>
 #include <atomic>
+#include <mutex>
 
 namespace cxxmetrics
 {
@@ -84,6 +85,9 @@ private:
     std::atomic<TValue> pending_;
     std::atomic<bool> ticked_;
 
+    // folding the pending total into the rate has to be atomic with respect to marks, reads and other folds
+    mutable std::mutex lock_;
+
     static constexpr double get_alpha()
     {
         return 1 - exp((TInterval * -1.0l) / (TWindow * 2.0l));
@@ -125,19 +129,20 @@ ewma<TClockGet, TWindow, TInterval, TValue>::ewma(const TClockGet &clock) noexce
 
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 ewma<TClockGet, TWindow, TInterval, TValue>::ewma(const ewma &c) noexcept :
-    clk_(c.clk_),
-    rate_(c.rate_.load()),
-    last_(c.last_),
-    pending_(c.pending_.load()),
-    ticked_(c.ticked_.load())
+    clk_(c.clk_)
 {
-
+    std::lock_guard<std::mutex> lock(c.lock_);
+    rate_ = c.rate_.load();
+    last_ = c.last_;
+    pending_ = c.pending_.load();
+    ticked_ = c.ticked_.load();
 }
 
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 template<typename TMark>
 void ewma<TClockGet, TWindow, TInterval, TValue>::mark(TMark amount) noexcept
 {
+    std::lock_guard<std::mutex> lock(lock_);
     auto now = clk_();
 
     // our clock went backwards
@@ -151,12 +156,14 @@ void ewma<TClockGet, TWindow, TInterval, TValue>::mark(TMark amount) noexcept
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 bool ewma<TClockGet, TWindow, TInterval, TValue>::compare_exchange(TValue &expectedrate, TValue rate) noexcept
 {
+    std::lock_guard<std::mutex> lock(lock_);
     return rate_.compare_exchange_weak(expectedrate, rate);
 }
 
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::rate() noexcept
 {
+    std::lock_guard<std::mutex> lock(lock_);
     auto now = clk_();
     return tick(now);
 }
@@ -164,6 +171,7 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::rate() noexcept
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::rate() const noexcept
 {
+    std::lock_guard<std::mutex> lock(lock_);
     auto now = clk_();
     // the const_cast is safe with the false template parameter
     return const_cast<ewma*>(this)->tick<false>(now);
@@ -252,7 +260,13 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval, TValue>::operator=(const ewma &c) noexcept
 {
-    alpha_ = c.alpha_;
+    if (this == &c)
+        return *this;
+
+    std::unique_lock<std::mutex> lock(lock_, std::defer_lock);
+    std::unique_lock<std::mutex> other(c.lock_, std::defer_lock);
+    std::lock(lock, other);
+
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
     last_ = c.last_;
-- 
2.43.0


From 65ec042d90d6a386576fe5f16143cb4172148cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 07/55] fix: assigning an ewma did not copy whether it had been
 initialised

---
 cxxmetrics/ewma.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 928291d..e480dd2 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -270,6 +270,7 @@ ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval,
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
     last_ = c.last_;
+    ticked_.store(c.ticked_.load());
     return *this;
 }
 
-- 
2.43.0


From ff94cf6edcab2119959f675491f81f5b7ce7db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 08/55] fix: reading an ewma through a const object marked it
 as initialised

The const read set ticked_ without storing the first rate, so the first
interval's total was then averaged with a rate of zero.
---
 cxxmetrics/ewma.hpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index e480dd2..03b07d0 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -197,22 +197,16 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
         if ((at - last) < period(TInterval))
             return pending;
 
-        bool ticked = false;
-        if (ticked_.compare_exchange_weak(ticked, true))
+        // use constexpr if with 17
+        if (TWrite)
         {
-            // use constexpr if with 17
-            if (TWrite)
-            {
-                // one thread sets the last timestamp
-                if (!pending_.compare_exchange_weak(pending, 0))
-                    return pending; // someone else ticked from under us
-
-                if (rate_.compare_exchange_weak(nrate, pending))
-                    last_ = at;
-            }
-
-            return pending;
+            ticked_.store(true);
+            pending_.store(0);
+            rate_.store(pending);
+            last_ = at;
         }
+
+        return pending;
     }
 
     // apply the pending value to our current rate
-- 
2.43.0


From 0067a20b61819a4dd8fceb72ebc41d683dc2eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:57 +0000
Subject: [PATCH 09/55] fix: ewma did not decay once it was idle for longer
 than its window

The rate was raised to a power instead of decayed, which left 1 unchanged,
turned small rates into large ones, and cut large gaps to an int.
---
 cxxmetrics/ewma.hpp | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 03b07d0..471f3b7 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -181,7 +181,6 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 template<bool TWrite>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at) noexcept
 {
-    int missed_intervals;
     clock_point last;
 
     last = last_;
@@ -214,24 +213,11 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
     auto rate = nrate + (alpha_ * (pending - nrate));
 
     // figure out how many intervals we've missed
-    missed_intervals = ((at - last) / period(TInterval)) - 1;
-    if (missed_intervals > 0)
+    auto intervals = (at - last) / period(TInterval);
+    if (intervals > 1)
     {
-        // we missed some intervals - we'll average in zeros
-        if ((TWindow > TInterval) && (at - last) > period(TWindow))
-        {
-            constexpr auto intervals_per_window = TWindow / TInterval;
-            period::value missed_windows = missed_intervals / intervals_per_window;
-            rate = pow(rate, 1/pow(missed_windows, 2));
-
-            // figure out the missed intervals now
-            missed_intervals -= (missed_windows * intervals_per_window);
-        }
-
-        // this is the fastest way to do this - the alternative is a standard repeated integral
-        // but this is faster
-        for (int i = 0; i < missed_intervals; i++)
-            rate = rate + (alpha_ * -rate);
+        // we missed some intervals - we'll average in a zero for each of them
+        rate *= std::pow(1 - alpha_, static_cast<long double>(intervals - 1));
     }
 
     if (std::isnan(rate) || std::isinf(rate))
-- 
2.43.0


From 2becaddec0b864982c4d658d22fe93d4745da227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 10/55] fix: meter start time raced between marks and reads

---
 cxxmetrics/meter.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cxxmetrics/meter.hpp b/cxxmetrics/meter.hpp
index 3cd3f8a..2e51920 100644
--- a/cxxmetrics/meter.hpp
+++ b/cxxmetrics/meter.hpp
@@ -246,18 +246,18 @@ template<typename TClockGet, period::value TInterval, period::value ...TWindows>
 class _meter_impl : public _meter_impl_base<TClockGet, TInterval, TWindows...>
 {
     using clock_point = typename clock_traits<TClockGet>::clock_point;
-    clock_point start_;
+    std::atomic<clock_point> start_;
     std::atomic_int_fast64_t total_;
 public:
     explicit _meter_impl(const TClockGet &clkget) noexcept :
             _meter_impl_base<TClockGet, TInterval, TWindows...>(clkget),
-            start_{},
+            start_(clock_point{}),
             total_(0)
     { }
 
     _meter_impl(const _meter_impl &c) noexcept :
             _meter_impl_base<TClockGet, TInterval, TWindows...>(c),
-            start_(c.start_),
+            start_(c.start_.load()),
             total_(c.total_.load())
     {
 
@@ -266,7 +266,7 @@ public:
     _meter_impl &operator=(const _meter_impl &c) noexcept
     {
         _meter_impl_base<TClockGet, TInterval, TWindows...>::operator=(c);
-        start_ = c.start_;
+        start_ = c.start_.load();
         total_.store(c.total_.load());
 
         return *this;
@@ -274,9 +274,10 @@ public:
 
     inline double mean() const noexcept
     {
-        auto since = this->now() - start_;
+        auto start = start_.load();
+        auto since = this->now() - start;
         auto units = (since * 1.0l) / this->interval();
-        if (start_ == clock_point{})
+        if (start == clock_point{})
             units = 1;
         if (!units)
             return (total_ * 1.0l);
@@ -285,9 +286,9 @@ public:
 
     void mark(int64_t by = 1)
     {
-        // this will be imperfect but it should be close enough
-        if (start_ == clock_point{})
-            start_ = this->now();
+        auto start = clock_point{};
+        if (start_.load() == start)
+            start_.compare_exchange_strong(start, this->now());
 
         _meter_impl_base<TClockGet, TInterval, TWindows...>::mark(by);
         total_ += by;
-- 
2.43.0


From e460a47678f542c54644e1892adb382feaf16e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 11/55] fix: value_snapshot operator!= returned the result of
 ==

---
 cxxmetrics/snapshots.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 89eca9e..3fc081f 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -67,12 +67,12 @@ inline bool value_snapshot::operator==(const metric_value &value) const noexcept
 
 inline bool value_snapshot::operator!=(const value_snapshot &other) const noexcept
 {
-    return value_ == other.value_;
+    return value_ != other.value_;
 }
 
 inline bool value_snapshot::operator!=(const metric_value &value) const noexcept
 {
-    return value_ == value;
+    return value_ != value;
 }
 
 class cumulative_value_snapshot : public value_snapshot
-- 
2.43.0


From 175aea5076e879f06930c38d079b4044d0c36edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 12/55] fix: metric_value comparisons truncated one of the
 values

Integers were compared by a difference cut to an int and floating point
values were first rounded to the type of the value on the left.
---
 cxxmetrics/metric_value.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 55271e1..f6a759f 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -144,18 +144,14 @@ public:
 
     int compare(const variant_data& other) const noexcept override
     {
+        // a long double holds any integer exactly, whatever its width or sign
         bool valid;
-        auto lv = static_cast<T>(other.to_integral(&valid));
+        auto fv = other.to_float(&valid);
         if (!valid)
-        {
-            auto fv = other.to_float(&valid);
-            if (!valid)
-                return -1;
-
-            return val_ < fv ? -1 : val_ == fv ? 0 : 1;
-        }
+            return -1;
 
-        return val_ - lv;
+        auto v = static_cast<long double>(val_);
+        return v < fv ? -1 : v == fv ? 0 : 1;
     }
 };
 
@@ -248,7 +244,7 @@ public:
     int compare(const variant_data& other) const noexcept override
     {
         bool valid;
-        auto fv = static_cast<T>(other.to_float(&valid));
+        auto fv = other.to_float(&valid);
         if (!valid)
             return -1;
 
-- 
2.43.0


From dbb4bd711534fb77b324dd279e9d8c6c126cfafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 13/55] fix: metric_value durations with fractions of a
 nanosecond did not equal themselves

---
 cxxmetrics/metric_value.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index f6a759f..ec5054d 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -509,7 +509,8 @@ public:
     {
         bool valid;
         auto n = other.to_nanos(&valid);
-        return dur_ < n ? -1 : dur_ == n ? 0 : 1;
+        auto d = to_nanos(nullptr);
+        return d < n ? -1 : d == n ? 0 : 1;
     }
 };
 
-- 
2.43.0


From 8b59c64b1f5d4883a4628dc241986514c1778bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:48 +0000
Subject: [PATCH 14/55] fix: converting string metric values raced on a static

---
 cxxmetrics/metric_value.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index ec5054d..c7f78a6 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -267,7 +267,7 @@ public:
 
     long long to_integral(bool* valid) const override
     {
-        static bool ign;
+        bool ign;
         if (valid == nullptr)
             valid = &ign;
         if (!val_.length())
@@ -302,7 +302,7 @@ public:
 
     long double to_float(bool *valid) const override
     {
-        static bool ign;
+        bool ign;
         if (valid == nullptr)
             valid = &ign;
         if (!val_.length())
-- 
2.43.0


From eed526cbc883febda97ba1ee56dea6728fc5732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:57 +0000
Subject: [PATCH 15/55] fix: adding a float to a 64 bit metric_value rounded
 the float

---
 cxxmetrics/metric_value.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index c7f78a6..fd18f03 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -203,7 +203,8 @@ public:
 
     int type_score() const override
     {
-        return (sizeof(T) * 20);
+        // has to exceed the score of any integer
+        return (sizeof(T) * 20) + 10;
     }
 
     void add(const variant_data& other) noexcept override
-- 
2.43.0


From 6302377fee8e148fefa8f2476f539c0c2f1ddcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 16/55] fix: metric_value division swapped its operands when
 the divisor had the wider type

---
 cxxmetrics/metric_value.hpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index fd18f03..0fc6fca 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -28,6 +28,7 @@ public:
     virtual void add(const variant_data& other) noexcept = 0;
     virtual void multiply(const variant_data& other) noexcept = 0;
     virtual void divide(const variant_data& other) noexcept = 0;
+    virtual void divide_into(const variant_data& dividend) noexcept = 0;
     virtual void negate() noexcept = 0;
     virtual void bitwise_negate() noexcept = 0;
     virtual int compare(const variant_data& other) const noexcept = 0;
@@ -132,6 +133,13 @@ public:
         }
     }
 
+    void divide_into(const variant_data& dividend) noexcept override
+    {
+        integral_variant_data<T> divisor(*this);
+        val_ = static_cast<T>(dividend.to_integral(nullptr));
+        divide(divisor);
+    }
+
     void negate() noexcept override
     {
         val_ = -val_;
@@ -233,6 +241,13 @@ public:
         }
     }
 
+    void divide_into(const variant_data& dividend) noexcept override
+    {
+        float_variant_data<T> divisor(*this);
+        val_ = static_cast<T>(dividend.to_float(nullptr));
+        divide(divisor);
+    }
+
     void negate() noexcept override
     {
         val_ = -val_;
@@ -366,6 +381,10 @@ public:
     {
     }
 
+    void divide_into(const variant_data& dividend) noexcept override
+    {
+    }
+
     void negate() noexcept override
     {
         bool valid;
@@ -497,6 +516,13 @@ public:
             dur_ /= lv;
     }
 
+    void divide_into(const variant_data& dividend) noexcept override
+    {
+        duration_variant_data<TRep, TPeriod> divisor(*this);
+        dur_ = std::chrono::duration<TRep, TPeriod>(static_cast<TRep>(dividend.to_integral(nullptr)));
+        divide(divisor);
+    }
+
     void negate() noexcept override
     {
         dur_ = -dur_;
@@ -690,7 +716,12 @@ public:
     variant_data_holder divide(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
-            return other.uc_div(*this);
+        {
+            variant_data_holder result(other);
+            result.as<variant_data>()->divide_into(*as<variant_data>());
+
+            return result;
+        }
         return uc_div(other);
     }
 
-- 
2.43.0


From c02f55fcd2be90e3eb633c4022d968254ef6a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:15 +0000
Subject: [PATCH 17/55] fix: subtracting a narrower unsigned value from a
 metric_value added its complement

The right operand was negated in its own type, so 10.5 - 3u was 4294967303.5.
---
 cxxmetrics/metric_value.hpp | 47 +++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 0fc6fca..64e94f9 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -26,6 +26,7 @@ public:
     virtual void copy(void* into) const noexcept = 0;
     virtual void move(void* into) noexcept { return copy(into); }
     virtual void add(const variant_data& other) noexcept = 0;
+    virtual void subtract(const variant_data& other) noexcept = 0;
     virtual void multiply(const variant_data& other) noexcept = 0;
     virtual void divide(const variant_data& other) noexcept = 0;
     virtual void divide_into(const variant_data& dividend) noexcept = 0;
@@ -93,6 +94,16 @@ public:
             val_ += other.to_float(nullptr);
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        bool valid;
+        auto lv = other.to_integral(&valid);
+        if (valid)
+            val_ -= lv;
+        else
+            val_ -= other.to_float(nullptr);
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -220,6 +231,11 @@ public:
         val_ += other.to_float(nullptr);
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        val_ -= other.to_float(nullptr);
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -373,6 +389,13 @@ public:
         val_ += other.to_string();
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        string_variant_data negated(other.to_string());
+        negated.negate();
+        add(negated);
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
     }
@@ -475,6 +498,11 @@ public:
         dur_ += std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        dur_ -= std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -575,6 +603,14 @@ class variant_data_holder
         return result;
     }
 
+    variant_data_holder uc_sub(const variant_data_holder& other) const
+    {
+        variant_data_holder result(as<variant_data>());
+        result.as<variant_data>()->subtract(*other.as<variant_data>());
+
+        return result;
+    }
+
     variant_data_holder uc_mult(const variant_data_holder& other) const
     {
         variant_data_holder result(as<variant_data>());
@@ -706,6 +742,13 @@ public:
         return uc_add(other);
     }
 
+    variant_data_holder subtract(const variant_data_holder& other) const
+    {
+        if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
+            return other.negate().uc_add(*this);
+        return uc_sub(other);
+    }
+
     variant_data_holder multiply(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
@@ -782,7 +825,7 @@ public:
 
     metric_value& operator-=(const metric_value& other)
     {
-        value_ = (value_.add(other.value_.negate()));
+        value_ = (value_.subtract(other.value_));
         return *this;
     }
 
@@ -805,7 +848,7 @@ public:
 
     metric_value operator-(const metric_value& other) const
     {
-        return metric_value(value_.add(other.value_.negate()));
+        return metric_value(value_.subtract(other.value_));
     }
 
     metric_value operator/(const metric_value& other) const
-- 
2.43.0


From 70b1a07e1c3f495a6f150f89af8124d407044040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 18/55] fix: merging histogram snapshots dropped values

Equal values were skipped, an empty side left one value behind, and the
sample was cut to the larger of the two counts.
---
 cxxmetrics/snapshots.hpp | 120 ++-------------------------------------
 1 file changed, 6 insertions(+), 114 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 3fc081f..9d15031 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -4,6 +4,7 @@
 #include <unordered_map>
 #include <vector>
 #include <algorithm>
+#include <iterator>
 #include "meta.hpp"
 #include "metric_value.hpp"
 
@@ -426,118 +427,6 @@ class histogram_snapshot : public reservoir_snapshot
 {
     uint64_t count_;
 
-    template<typename TContainer1, typename TContainer2>
-    class alternating_iterator : public std::iterator<std::forward_iterator_tag, metric_value>
-    {
-        using iterator1 = typename TContainer1::const_iterator;
-        using iterator2 = typename TContainer2::const_iterator;
-
-        const TContainer1& srca_;
-        const TContainer2& srcb_;
-
-        iterator1 a_;
-        iterator2 b_;
-
-        bool ata_;
-
-        metric_value current_;
-        void set_current()
-        {
-            if ((ata_ || b_ == srcb_.end()) && a_ != srca_.end())
-                current_ = metric_value(*a_);
-            else if (b_ != srcb_.end())
-                current_ = metric_value(*b_);
-        }
-    public:
-
-        alternating_iterator(const TContainer1& first, const TContainer2& second, iterator1&& a, iterator2&& b) :
-                srca_(first),
-                srcb_(second),
-                a_(std::forward<iterator1>(a)),
-                b_(std::forward<iterator2>(b)),
-                ata_(false),
-                current_(0)
-        {
-            if (a_ != srca_.end() && b_ != srcb_.end())
-                set_current();
-        }
-        alternating_iterator(const TContainer1& first, const TContainer2& second) :
-                alternating_iterator(first, second, first.begin(), second.begin())
-        { }
-
-        alternating_iterator begin() const
-        {
-            return alternating_iterator(srca_, srcb_);
-        }
-
-        alternating_iterator end()
-        {
-            return alternating_iterator(srca_, srcb_, srca_.end(), srcb_.end());
-        }
-
-        alternating_iterator& operator++()
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            ata_ = !ata_;
-            if (ata_ && a_ != srca_.end())
-            {
-                while (a_ != srca_.end() && *a_ <= current_)
-                    ++a_;
-
-                if (a_ == srca_.end() && b_ != srcb_.end())
-                    ++b_;
-            }
-            else
-            {
-                while (b_ != srcb_.end() && *b_ <= current_)
-                    ++b_;
-
-                if (b_ == srcb_.end() && a_ != srca_.end())
-                    ++a_;
-            }
-
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            set_current();
-            return *this;
-        }
-
-        void operator++(int)
-        {
-            this->operator++();
-        }
-
-        const metric_value* operator->() const
-        {
-            return &current_;
-        }
-
-        const metric_value& operator*() const
-        {
-            return current_;
-        }
-
-        bool operator==(const alternating_iterator& other) const
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return other.a_ == other.srca_.end() && other.b_ == other.srcb_.end();
-            return a_ == other.a_ && b_ == other.b_;
-        }
-
-        bool operator!=(const alternating_iterator& other) const
-        {
-            return !operator==(other);
-        }
-    };
-
-    template<typename TContainer1, typename TContainer2>
-    static constexpr alternating_iterator<TContainer1, TContainer2> make_alternating_iterator(const TContainer1& a, const TContainer2& b)
-    {
-        return alternating_iterator<TContainer1, TContainer2>(a, b);
-    }
 public:
     histogram_snapshot(reservoir_snapshot&& q, uint64_t count) :
             reservoir_snapshot(std::move(q)),
@@ -558,8 +447,11 @@ public:
 
     void merge(const histogram_snapshot& other)
     {
-        auto b = make_alternating_iterator(values_, other.values_);
-        reservoir_snapshot::operator=(reservoir_snapshot(b, b.end(), std::max(count_, other.count_)));
+        std::vector<metric_value> merged;
+        merged.reserve(values_.size() + other.values_.size());
+        std::merge(values_.begin(), values_.end(), other.values_.begin(), other.values_.end(), std::back_inserter(merged));
+
+        values_ = std::move(merged);
         count_ += other.count_;
     }
 
-- 
2.43.0


From 13c94f6a59f3ad8b3fac798983266d0d90c2a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 19/55] fix: quantiles overflowed when neighbouring values were
 far apart

---
 cxxmetrics/snapshots.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 9d15031..9738e97 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -228,6 +228,12 @@ public:
  */
 class reservoir_snapshot
 {
+    // the difference between a value and the one before it, which the values' own type may not be able to hold
+    long double difference(std::size_t index) const noexcept
+    {
+        return static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1]);
+    }
+
 protected:
     std::vector<metric_value> values_;
 public:
@@ -287,7 +293,7 @@ public:
         if (static_cast<std::size_t>(index) >= values_.size())
             return max();
 
-        return values_[index - 1] + metric_value((pos - index) * static_cast<long double>(values_[index] - values_[index - 1]));
+        return values_[index - 1] + metric_value((pos - index) * difference(index));
     }
 
     /**
@@ -329,7 +335,7 @@ public:
             hnd(values_[index - 1] +
                     metric_value(
                         (pos - static_cast<double>(index)) *
-                        static_cast<long double>(values_[index] - values_[index - 1])),
+                        difference(index)),
                 pos * 100 / static_cast<long double>(values_.size() + 1));
         }
     }
-- 
2.43.0


From 8dd4b8d4e73e128428bdb08cab18becc21e68c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 20/55] fix: means and quantiles of durations lost their unit

The count of a duration was used as if it were in nanoseconds, whatever its
period.
---
 cxxmetrics/snapshots.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 9738e97..4c9d2e8 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -234,6 +234,19 @@ class reservoir_snapshot
         return static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1]);
     }
 
+    template<typename TElem>
+    static metric_value to_sample(const TElem &v)
+    {
+        return metric_value(v);
+    }
+
+    // means and quantiles are plain numbers, and a metric_value that's a plain number is a duration in nanoseconds
+    template<typename TRep, typename TPeriod>
+    static metric_value to_sample(const std::chrono::duration<TRep, TPeriod> &v)
+    {
+        return metric_value(std::chrono::duration_cast<std::chrono::nanoseconds>(v));
+    }
+
 protected:
     std::vector<metric_value> values_;
 public:
@@ -402,7 +415,7 @@ reservoir_snapshot::reservoir_snapshot(TInputIterator begin, const TInputIterato
 
     std::size_t at = 0;
     for (; begin != end && at < size; ++begin, ++at)
-        values_.emplace_back(*begin);
+        values_.emplace_back(to_sample(*begin));
 
     std::sort(values_.begin(), values_.end());
 }
@@ -414,7 +427,7 @@ reservoir_snapshot::reservoir_snapshot(const TElem *a, std::size_t count) noexce
 
     std::size_t at = 0;
     for (; at < count; ++at)
-        values_.emplace_back(a[at]);
+        values_.emplace_back(to_sample(a[at]));
 
     std::sort(values_.begin(), values_.end());
 }
-- 
2.43.0


From dcebd725de1d0e2c7209680348d5cb49e75ae4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 21/55] fix: sampling a snapshot of one value converted
 infinity to an index

---
 cxxmetrics/snapshots.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 4c9d2e8..92db74e 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -323,6 +323,10 @@ public:
     template <typename Handler>
     void sample(std::size_t max_to_visit, Handler hnd) const
     {
+        // nothing to sample between
+        if (values_.size() < 2)
+            return;
+
         long double q_proportion = 1.0L / std::min(
             static_cast<long double>(max_to_visit + 1),
             static_cast<long double>(values_.size() - 1));
-- 
2.43.0


From ad263ac15125916ae4588ecea303d765f07eff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 22/55] fix: equal tag collections could have different hashes

The hash depended on the iteration order of an unordered_map, so the same
tags given in another order could name a second metric.
---
 cxxmetrics/tag_collection.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/tag_collection.hpp b/cxxmetrics/tag_collection.hpp
index bc5f4ce..c08538a 100644
--- a/cxxmetrics/tag_collection.hpp
+++ b/cxxmetrics/tag_collection.hpp
@@ -70,7 +70,10 @@ struct hash<cxxmetrics::tag_collection>
         std::hash<std::string> h;
         std::hash<cxxmetrics::metric_value> v;
         for (const auto& p : collection)
-            result = (result * 397) ^ (h(p.first) ^ v(p.second));
+        {
+            // equal collections can iterate in different orders, so the combination can't depend on it
+            result += (h(p.first) * 397) ^ v(p.second);
+        }
 
         return result;
     }
-- 
2.43.0


From e8e0f2f535616ce9ad38d83398c8a591be5b74ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 23/55] fix: timer_publish_options lost the scale factor, the
 rates setting and given quantiles

The virtual base was default initialised by every constructor, assignment
left rates_ behind, and the constructors taking quantiles didn't compile.
---
 cxxmetrics/publisher.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/publisher.hpp b/cxxmetrics/publisher.hpp
index 0cc6918..b50b74f 100644
--- a/cxxmetrics/publisher.hpp
+++ b/cxxmetrics/publisher.hpp
@@ -275,24 +275,28 @@ class timer_publish_options : public histogram_publish_options, public meter_pub
     bool rates_;
 public:
     timer_publish_options(timer_publish_options&& other) noexcept :
+            value_publish_options(other),
             histogram_publish_options(std::move(other)),
             meter_publish_options(std::move(other)),
             rates_(other.rates_)
     { }
 
     timer_publish_options(bool rates = true, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
@@ -300,7 +304,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count = true, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
@@ -308,7 +313,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
     { }
@@ -317,6 +323,7 @@ public:
     {
         histogram_publish_options::operator=(std::move(other));
         meter_publish_options::operator=(std::move(other));
+        rates_ = other.rates_;
         return *this;
     }
 
-- 
2.43.0


From aa54612782e45464bd691af033370e916aa975bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 24/55] fix: prometheus label values and help text were not
 fully escaped

Backslashes and line feeds were written as they are.
---
 cxxmetrics_prometheus/prometheus_timer.hpp |  3 ++-
 cxxmetrics_prometheus/snapshot_writer.hpp  | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index b5ae3ac..c618f02 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -11,7 +11,8 @@ class snapshot_writer<cxxmetrics::timer_snapshot>
 {
     void write_header() const
     {
-        stream << "# HELP " << internal::name(path) << " " << path.join("/") << " in microseconds\n";
+        stream << "# HELP " << internal::name(path) << " ";
+        internal::format_help(stream, path.join("/")) << " in microseconds\n";
         stream << "# TYPE " << internal::name(path) << " summary\n";
     }
 
diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 6708ff6..2b2a61d 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -55,6 +55,25 @@ inline std::ostream& format_tag_value(std::ostream& into, const std::string& val
     {
         if (c == '"')
             into << "\\\"";
+        else if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
+        else
+            into << c;
+    }
+
+    return into;
+}
+
+inline std::ostream& format_help(std::ostream& into, const std::string& value)
+{
+    for (auto c : value)
+    {
+        if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
         else
             into << c;
     }
-- 
2.43.0


From 1a1b50fbdd2948b5b4ad56aafecc9a19efb9bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 25/55] fix: prometheus label names could be empty or start
 with a digit

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 2b2a61d..0efc6fe 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -24,7 +24,7 @@ inline std::ostream& format_name_element(std::ostream&into, const std::string& e
     for (std::size_t i = 0; i < element.size(); i++)
     {
         char c = element[i];
-        if (!isalnum(c))
+        if (!isalnum(static_cast<unsigned char>(c)))
             into << '_';
         else
             into << c;
@@ -36,7 +36,7 @@ inline std::ostream& format_name_element(std::ostream&into, const std::string& e
 inline std::ostream& format_name(std::ostream& into, const cxxmetrics::metric_path& path)
 {
     auto elem = path.begin();
-    if (std::isdigit((*elem)[0]))
+    if (std::isdigit(static_cast<unsigned char>((*elem)[0])))
         into << '_';
 
     format_name_element(into, *elem);
@@ -49,6 +49,14 @@ inline std::ostream& format_name(std::ostream& into, const cxxmetrics::metric_pa
     return into;
 }
 
+inline std::ostream& format_tag_name(std::ostream& into, const std::string& name)
+{
+    if (name.empty() || std::isdigit(static_cast<unsigned char>(name[0])))
+        into << '_';
+
+    return format_name_element(into, name);
+}
+
 inline std::ostream& format_tag_value(std::ostream& into, const std::string& value)
 {
     for (auto c : value)
@@ -87,13 +95,13 @@ inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_colle
     if (tag == tags.end())
         return into;
 
-    format_name_element(into, tag->first);
+    format_tag_name(into, tag->first);
     into << "=\"";
     format_tag_value(into, tag->second) << "\"";
     for (++tag; tag != tags.end(); ++tag)
     {
         into << ",";
-        format_name_element(into, tag->first) << "=\"";
+        format_tag_name(into, tag->first) << "=\"";
         format_tag_value(into, tag->second) << "\"";
     }
 
-- 
2.43.0


From 3c47d240d9c76b4f5c63281271cba7f6ce0967cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 26/55] fix: distinct prometheus meter windows could get the
 same label

90 and 60 seconds were both 1min.
---
 cxxmetrics_prometheus/snapshot_writer.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 0efc6fe..b14f596 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -112,27 +112,30 @@ template<typename TRep, typename TPer>
 std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep, TPer>& time)
 {
     using namespace std::chrono_literals;
-    if (time >= 1h)
+
+    // only use a unit that represents the window exactly, so that distinct windows stay distinct
+    auto exact = [&time](auto unit) { return time >= unit && time % unit == time.zero(); };
+    if (exact(1h))
     {
         into << std::chrono::duration_cast<std::chrono::hours>(time).count() << "hr";
         return into;
     }
-    if (time >= 1min)
+    if (exact(1min))
     {
         into << std::chrono::duration_cast<std::chrono::minutes>(time).count() << "min";
         return into;
     }
-    if (time >= 1s)
+    if (exact(1s))
     {
         into << std::chrono::duration_cast<std::chrono::seconds>(time).count() << "sec";
         return into;
     }
-    if (time >= 1ms)
+    if (exact(1ms))
     {
         into << std::chrono::duration_cast<std::chrono::milliseconds>(time).count() << "msec";
         return into;
     }
-    if (time >= 1us)
+    if (exact(1us))
     {
         into << std::chrono::duration_cast<std::chrono::microseconds>(time).count() << "usec";
         return into;
-- 
2.43.0


From 3dbe269a04b6f9de806c9a1699cb5bd8636a2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 27/55] fix: prometheus output contained values that aren't
 numbers

A negative NaN or a text gauge made the whole output unparseable.
---
 cxxmetrics_prometheus/snapshot_writer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index b14f596..304b8d1 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -15,7 +15,11 @@ namespace internal
 inline cxxmetrics::metric_value scale_value(cxxmetrics::metric_value&& value, const cxxmetrics::value_publish_options& opts)
 {
     if (opts.scale())
-        return value * cxxmetrics::metric_value(opts.scale().factor());
+        value = value * cxxmetrics::metric_value(opts.scale().factor());
+
+    // also for strings which aren't a number. -nan (nor a string) isn't a value to prometheus
+    if (std::isnan(static_cast<long double>(value)))
+        return cxxmetrics::metric_value("NaN");
     return std::move(value);
 }
 
-- 
2.43.0


From ea7df7c83efcf674073058ec8ff699a44272300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 28/55] fix: gauges of references, pointers and functions
 ignored their aggregation

They always averaged, the registry took sum and average gauges for the same
type, and assigning a value to a summed gauge didn't compile.
---
 cxxmetrics/gauge.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 2e4f767..5d51a69 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -146,7 +146,7 @@ typename functional_gauge<TFn, TAggregation>::gauge_type functional_gauge<TFn, T
 }
 
 template<typename TRefType, gauge_aggregation_type TAggregation = aggregation_average>
-class referential_gauge : public gauge<TRefType>
+class referential_gauge : public gauge<TRefType, TAggregation>
 {
     std::reference_wrapper<TRefType> value_;
 public:
@@ -212,7 +212,7 @@ TRefType referential_gauge<TRefType, TAggregation>::get() const noexcept
  * \tparam TGaugeType The type of data for the gauge
  */
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation = gauges::aggregation_average>
-class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType>>
+class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType, TAggregation>>
 {
 public:
     explicit gauge(const TGaugeType& value = TGaugeType()) noexcept :
@@ -225,7 +225,7 @@ public:
 
     gauge& operator=(const TGaugeType& value) noexcept
     {
-        gauges::primitive_gauge<TGaugeType>::operator=(value);
+        gauges::primitive_gauge<TGaugeType, TAggregation>::operator=(value);
         return *this;
     }
     gauge& operator=(const gauge& other) = default;
@@ -233,14 +233,14 @@ public:
 };
 
 template<typename T, gauges::gauge_aggregation_type TAggregation>
-class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>>, public metric<gauge<std::function<T()>>>
+class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>, TAggregation>, public metric<gauge<std::function<T()>, TAggregation>>
 {
 public:
     explicit gauge(const std::function<T()> &fn) :
-            gauges::functional_gauge<std::function<T()>>(fn)
+            gauges::functional_gauge<std::function<T()>, TAggregation>(fn)
     { }
     explicit gauge(std::function<T()> &&fn) noexcept :
-            gauges::functional_gauge<std::function<T()>>(std::move(fn))
+            gauges::functional_gauge<std::function<T()>, TAggregation>(std::move(fn))
     { }
     gauge(const gauge& copy) = default;
     gauge(gauge&& mv) = default;
@@ -251,11 +251,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType* ptr) noexcept :
-            gauges::referential_gauge<TGaugeType>(*ptr)
+            gauges::referential_gauge<TGaugeType, TAggregation>(*ptr)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
@@ -264,11 +264,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType& ref) noexcept :
-            gauges::referential_gauge<TGaugeType>(ref)
+            gauges::referential_gauge<TGaugeType, TAggregation>(ref)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
-- 
2.43.0


From 0a4ad4715486eebaae9a34de0179b00129202f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 29/55] fix: registering a gauge of a reference or pointer
 dereferenced null

---
 cxxmetrics/gauge.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 5d51a69..2cde0fe 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -294,8 +294,8 @@ struct default_metric_builder<cxxmetrics::gauge<TGaugeType &, TAggregation>>
 {
     cxxmetrics::gauge<TGaugeType&, TAggregation> operator()() const
     {
-        static TGaugeType *r = nullptr;
-        return cxxmetrics::gauge<TGaugeType&, TAggregation>(*r);
+        static TGaugeType r{};
+        return cxxmetrics::gauge<TGaugeType&, TAggregation>(r);
     }
 };
 
@@ -304,8 +304,8 @@ struct default_metric_builder<cxxmetrics::gauge<TGaugeType *, TAggregation>>
 {
     cxxmetrics::gauge<TGaugeType*, TAggregation> operator()() const
     {
-        static TGaugeType *r = nullptr;
-        return cxxmetrics::gauge<TGaugeType*, TAggregation>(r);
+        static TGaugeType r{};
+        return cxxmetrics::gauge<TGaugeType*, TAggregation>(&r);
     }
 };
 
-- 
2.43.0


From 1f75e99fca08a9ad3722c1fb99ef73d549126e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 30/55] fix: setting a gauge raced with reading it

---
 cxxmetrics/gauge.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 2cde0fe..6a55844 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -2,6 +2,7 @@
 #define CXXMETRICS_GAUGE_HPP
 
 #include "metric.hpp"
+#include <mutex>
 #include <type_traits>
 
 namespace cxxmetrics
@@ -39,19 +40,27 @@ template<typename TGaugeType, gauge_aggregation_type TAggregation = aggregation_
 class primitive_gauge : gauge<TGaugeType, TAggregation>
 {
     TGaugeType value_;
+    mutable std::mutex lock_;
 public:
     primitive_gauge(const TGaugeType& initial_value = TGaugeType()) noexcept;
-    primitive_gauge(const primitive_gauge& copy) = default;
+    primitive_gauge(const primitive_gauge& copy) :
+            value_(copy.get())
+    { }
     primitive_gauge(primitive_gauge&& mv) :
             value_(std::forward<TGaugeType>(mv.value_))
     { }
     ~primitive_gauge() = default;
 
     primitive_gauge& operator=(const TGaugeType& value) noexcept;
-    primitive_gauge& operator=(const primitive_gauge& other) = default;
+    primitive_gauge& operator=(const primitive_gauge& other)
+    {
+        set(other.get());
+        return *this;
+    }
 
     primitive_gauge& operator=(primitive_gauge&& other) {
-        value_ = std::move(other.value_);
+        if (this != &other)
+            set(std::move(other.value_));
         return *this;
     }
 
@@ -71,25 +80,28 @@ primitive_gauge<TGaugeType, TAggregation>::primitive_gauge(const TGaugeType& ini
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 primitive_gauge<TGaugeType, TAggregation> &primitive_gauge<TGaugeType, TAggregation>::operator=(const TGaugeType& value) noexcept
 {
-    value_ = value;
+    set(value);
     return *this;
 }
 
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 void primitive_gauge<TGaugeType, TAggregation>::set(TGaugeType value) noexcept
 {
+    std::lock_guard<std::mutex> lock(lock_);
     value_ = value;
 }
 
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 TGaugeType primitive_gauge<TGaugeType, TAggregation>::get() noexcept
 {
+    std::lock_guard<std::mutex> lock(lock_);
     return value_;
 }
 
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 TGaugeType primitive_gauge<TGaugeType, TAggregation>::get() const noexcept
 {
+    std::lock_guard<std::mutex> lock(lock_);
     return value_;
 }
 
-- 
2.43.0


From 2af76326550b93fb38d7013f2d173d91d4b3924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 31/55] fix: a histogram snapshot could hold more values than
 its count

---
 cxxmetrics/histogram.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/histogram.hpp b/cxxmetrics/histogram.hpp
index 6290180..4f59698 100644
--- a/cxxmetrics/histogram.hpp
+++ b/cxxmetrics/histogram.hpp
@@ -61,8 +61,9 @@ public:
      */
     histogram_snapshot snapshot() const noexcept
     {
-        auto c = count_.value();
-        return histogram_snapshot(reservoir_.snapshot(), c);
+        // the count goes up before the reservoir is updated so it's read after the reservoir is
+        auto sample = reservoir_.snapshot();
+        return histogram_snapshot(std::move(sample), count_.value());
     }
 };
 
-- 
2.43.0


From dbe12bc6b019af380a7ef7e9fb5e39ff7250e369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 32/55] fix: timers couldn't time a callable or be given a
 clock

timer::time and the constructor taking a clock didn't compile.
---
 cxxmetrics/metric.hpp | 4 ++--
 cxxmetrics/timer.hpp  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/metric.hpp b/cxxmetrics/metric.hpp
index 4fbfa07..4145d46 100644
--- a/cxxmetrics/metric.hpp
+++ b/cxxmetrics/metric.hpp
@@ -5,8 +5,8 @@
 
 #if __cplusplus < 201700L
 namespace std {
-template<typename T>
-using invoke_result = result_of<T>;
+template<typename T, typename... TArgs>
+using invoke_result = result_of<T(TArgs...)>;
 }
 #endif
 
diff --git a/cxxmetrics/timer.hpp b/cxxmetrics/timer.hpp
index 56573b1..bd05b99 100644
--- a/cxxmetrics/timer.hpp
+++ b/cxxmetrics/timer.hpp
@@ -38,7 +38,7 @@ public:
      */
     timer(TReservoir &&reservoir, TClock &&clock) :
             histogram_(std::forward<TReservoir>(reservoir)),
-            clock_(std::forward<TReservoir>(clock))
+            clock_(std::forward<TClock>(clock))
     { }
 
 
@@ -113,7 +113,7 @@ public:
      * \return whatever the provided invokable returns
      */
     template<typename TRunnable, bool TIncludeExceptions = false>
-    typename std::invoke_result<TRunnable>::type time(const TRunnable &runnable);
+    typename std::invoke_result<const TRunnable&>::type time(const TRunnable &runnable);
 
     /**
      * \brief Get the underlying clock instance
@@ -235,7 +235,7 @@ inline scoped_timer_t<TTimer> scoped_timer(TTimer& timer)
 
 template<period::value TRateInterval, typename TClock, typename TReservoir, period::value... TWindows>
 template<typename TRunnable, bool TIncludeExceptions>
-typename std::invoke_result<TRunnable>::type timer<TRateInterval, TClock, TReservoir, TWindows...>::time(const TRunnable &runnable)
+typename std::invoke_result<const TRunnable&>::type timer<TRateInterval, TClock, TReservoir, TWindows...>::time(const TRunnable &runnable)
 {
     scoped_timer_t<timer<TRateInterval, TClock, TReservoir, TWindows...>> tm(*this);
     if (!TIncludeExceptions)
-- 
2.43.0


From b933bdd1ce749c255e4517bda13b4152a70ba458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 33/55] fix: visiting a metric used more stack for every tag
 permutation

---
 cxxmetrics/metrics_registry.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/metrics_registry.hpp b/cxxmetrics/metrics_registry.hpp
index 259ecf2..0a186dd 100644
--- a/cxxmetrics/metrics_registry.hpp
+++ b/cxxmetrics/metrics_registry.hpp
@@ -272,13 +272,15 @@ template<typename TMetricType>
 void registered_metric<TMetricType>::visit_each(cxxmetrics::internal::registered_snapshot_visitor_builder &builder)
 {
     std::lock_guard<std::mutex> lock(lock_);
+
+    // the visitors are built one after another in the same place
+    auto sz = builder.visitor_size() + sizeof(std::max_align_t);
+    void* ptr = alloca(sz);
+
+    std::align(sizeof(std::max_align_t), builder.visitor_size(), ptr, sz);
+    auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
     for (auto& p : metrics_)
     {
-        auto sz = builder.visitor_size() + sizeof(std::max_align_t);
-        void* ptr = alloca(sz);
-
-        std::align(sizeof(std::max_align_t), sz, ptr, sz);
-        auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
         builder.construct(loc, p.first);
         try
         {
-- 
2.43.0


From f5d82d27e1522de6e428ffce399978a2e1777c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 34/55] fix: atomic_lifo pop read nodes another pop had already
 released

It also read the head without acquiring what the push had written.
---
 cxxmetrics/internal/atomic_lifo.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/internal/atomic_lifo.hpp b/cxxmetrics/internal/atomic_lifo.hpp
index bf31d2c..2e291d9 100644
--- a/cxxmetrics/internal/atomic_lifo.hpp
+++ b/cxxmetrics/internal/atomic_lifo.hpp
@@ -4,6 +4,7 @@
 #include <initializer_list>
 #include <memory>
 #include <atomic>
+#include <mutex>
 #include <type_traits>
 
 namespace cxxmetrics {
@@ -206,6 +207,9 @@ namespace cxxmetrics {
             allocator_type alloc_;
             std::atomic<head_t> head_;
 
+            // keeps the node at the head from being popped, and released, while another pop looks at its next node
+            std::mutex poplock_;
+
         public:
 
             atomic_lifo(const Alloc& allocator = Alloc()) :
@@ -289,13 +293,14 @@ namespace cxxmetrics {
 
             pointer_type pop()
             {
-                auto h = head_.load(std::memory_order_relaxed);
+                std::lock_guard<std::mutex> lock(poplock_);
+                auto h = head_.load(std::memory_order_acquire);
                 head_t next;
                 while (h.nodev)
                 {
                     next.aba = h.aba + 1;
                     next.nodev = list_node_traits<node>::next_of(*h.nodev);
-                    if (head_.compare_exchange_weak(h, next, std::memory_order_release, std::memory_order_relaxed)) {
+                    if (head_.compare_exchange_weak(h, next, std::memory_order_acq_rel, std::memory_order_acquire)) {
                         break;
                     }
                 }
-- 
2.43.0


From 5f4cb3ba9227bbfbd038567862d556ce3e264e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 35/55] fix: atomic_lifo released its remaining nodes with a
 default constructed allocator

---
 cxxmetrics/internal/atomic_lifo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/internal/atomic_lifo.hpp b/cxxmetrics/internal/atomic_lifo.hpp
index 2e291d9..4b73875 100644
--- a/cxxmetrics/internal/atomic_lifo.hpp
+++ b/cxxmetrics/internal/atomic_lifo.hpp
@@ -239,7 +239,7 @@ namespace cxxmetrics {
 
             virtual ~atomic_lifo()
             {
-                deallocator a;
+                deallocator a(alloc_);
                 auto oh = head_.exchange(head_t()).nodev;
                 while (oh)
                 {
-- 
2.43.0


From 533ccb12807a93ad77f9213bbd5b173717e68f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:47 +0000
Subject: [PATCH 36/55] fix: the pool could hand out an object that was still
 in use

Between reading the head of the free list and taking it, the head could have
been allocated, released and be back with another successor.
---
 cxxmetrics/pool.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/pool.hpp b/cxxmetrics/pool.hpp
index 4c936e0..29762a7 100644
--- a/cxxmetrics/pool.hpp
+++ b/cxxmetrics/pool.hpp
@@ -2,6 +2,7 @@
 #define CXXMETRICS_POOL_HPP
 
 #include <atomic>
+#include <mutex>
 
 namespace cxxmetrics
 {
@@ -189,7 +190,10 @@ class pool
 {
     using data_type = typename pool_ptr<TValue, TAlloc>::pool_data;
     std::atomic<data_type *> v_;
-    bool active_;
+    std::atomic<bool> active_;
+
+    // keeps the head of the free list from being reused, and put back, while another allocation is taking it
+    std::mutex alloclock_;
     TAlloc<data_type> a_;
 
     data_type *allocnew(const TValue &value)
@@ -260,6 +264,7 @@ public:
      */
     pool_ptr<TValue, TAlloc> allocate(const TValue &value = TValue()) noexcept
     {
+        std::unique_lock<std::mutex> lock(alloclock_);
         data_type *head = v_.load();
 
         while (true)
@@ -272,6 +277,7 @@ public:
             data_type *next = head->next;
             if (v_.compare_exchange_strong(head, next))
             {
+                lock.unlock();
                 head->next = reinterpret_cast<data_type *>(0x11);
                 new (&head->value()) TValue(value);
                 return pool_ptr<TValue, TAlloc>(head);
-- 
2.43.0


From ba43bd5e40611dc3a2afefe5c38b0cc8a89e50b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 37/55] fix: distinct prometheus quantiles could get the same
 label

Quantiles were written with six digits, so 99.99996 and 99.99999 were both 1.
---
 cxxmetrics_prometheus/prometheus_histogram.hpp |  2 +-
 cxxmetrics_prometheus/prometheus_timer.hpp     |  2 +-
 cxxmetrics_prometheus/snapshot_writer.hpp      | 10 ++++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics_prometheus/prometheus_histogram.hpp b/cxxmetrics_prometheus/prometheus_histogram.hpp
index 9c4717a..fbd1a51 100644
--- a/cxxmetrics_prometheus/prometheus_histogram.hpp
+++ b/cxxmetrics_prometheus/prometheus_histogram.hpp
@@ -28,7 +28,7 @@ public:
 
         stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(snapshot.mean(), options.histogram_options()) << "\n";
         options.histogram_options().quantiles()->visit(snapshot, [&](cxxmetrics::quantile q, cxxmetrics::metric_value&& value) {
-            stream << internal::name(path) << '{' << "quantile=\"" << (q.percentile() / 100.0) << "\"" << comma << internal::tags(tags) << "} " << internal::scale_value(std::move(value), options.histogram_options()) << "\n";
+            stream << internal::name(path) << '{' << "quantile=\"" << internal::quantile_label(q) << "\"" << comma << internal::tags(tags) << "} " << internal::scale_value(std::move(value), options.histogram_options()) << "\n";
         });
     }
 };
diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index c618f02..c4812f3 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -31,7 +31,7 @@ public:
         stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(snapshot.mean())), options.timer_options()) << "\n";
         options.timer_options().quantiles()->visit(snapshot, [&](cxxmetrics::quantile q, cxxmetrics::metric_value&& value) {
             stream << internal::name(path) <<
-                    '{' << "quantile=\"" << (q.percentile() / 100.0) << "\"" << comma <<
+                    '{' << "quantile=\"" << internal::quantile_label(q) << "\"" << comma <<
                     internal::tags(tags) << "} " <<
                     internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(value)), options.timer_options()) << "\n";
         });
diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 304b8d1..fe83a25 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -3,6 +3,7 @@
 
 #include <cctype>
 #include <ostream>
+#include <sstream>
 #include <cxxmetrics/snapshots.hpp>
 #include <cxxmetrics/publisher.hpp>
 
@@ -112,6 +113,15 @@ inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_colle
     return into;
 }
 
+inline std::string quantile_label(const cxxmetrics::quantile& q)
+{
+    // as many digits as a quantile resolves, so that distinct quantiles stay distinct
+    std::ostringstream label;
+    label.precision(9);
+    label << static_cast<double>(q.percentile() / 100.0);
+    return label.str();
+}
+
 template<typename TRep, typename TPer>
 std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep, TPer>& time)
 {
-- 
2.43.0


From f573ca5db28b0409f40a4e7fba37826bd707a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 38/55] fix: composing a path from an empty literal added an
 empty component

---
 cxxmetrics/metric_path.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_path.hpp b/cxxmetrics/metric_path.hpp
index af3d62e..7f98e2c 100644
--- a/cxxmetrics/metric_path.hpp
+++ b/cxxmetrics/metric_path.hpp
@@ -124,7 +124,8 @@ inline metric_path operator/(const char (&pstr)[Size], const metric_path& other)
     std::vector<std::string> paths;
     paths.reserve(other.paths_.size() + 1);
 
-    paths.emplace_back(pstr);
+    if (*pstr)
+        paths.emplace_back(pstr);
     paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());
 
     return metric_path(std::move(paths));
-- 
2.43.0


From 62e31624c5c24075877efd52cd3c9d28439f0b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 39/55] fix: a spurious weak exchange failure skipped closing
 an ewma interval

---
 cxxmetrics/ewma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 471f3b7..a9774d5 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -227,7 +227,7 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
     if (!TWrite || (at - last) < period(TInterval))
         return rate;
 
-    if (!pending_.compare_exchange_weak(pending, 0))
+    if (!pending_.compare_exchange_strong(pending, 0))
         return rate; // someone else already either ticked or added a pending value
 
     rate_.store(rate);
-- 
2.43.0


From 0a192a4793b6fe633e3cd99e77b28aff2fb93f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 40/55] fix: text gauges published their scale factor, or broke
 the line they are published on

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index fe83a25..40f466d 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -15,12 +15,17 @@ namespace internal
 
 inline cxxmetrics::metric_value scale_value(cxxmetrics::metric_value&& value, const cxxmetrics::value_publish_options& opts)
 {
-    if (opts.scale())
+    // text that isn't a number can't be scaled. -nan (nor that text) isn't a value to prometheus
+    if (opts.scale() && !std::isnan(static_cast<long double>(value)))
         value = value * cxxmetrics::metric_value(opts.scale().factor());
 
-    // also for strings which aren't a number. -nan (nor a string) isn't a value to prometheus
-    if (std::isnan(static_cast<long double>(value)))
+    auto number = static_cast<long double>(value);
+    if (std::isnan(number))
         return cxxmetrics::metric_value("NaN");
+
+    // text may spell a number in ways that would break the line or that prometheus doesn't understand
+    if (static_cast<std::string>(value).find_first_not_of("0123456789+-.eE") != std::string::npos)
+        return cxxmetrics::metric_value(number);
     return std::move(value);
 }
 
-- 
2.43.0


From cf41d045d28c2038dbe3e279a338ead7cafd331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 41/55] fix: timer options given quantiles and a scale were
 marked as distributions

---
 cxxmetrics/publisher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/publisher.hpp b/cxxmetrics/publisher.hpp
index b50b74f..f7de02e 100644
--- a/cxxmetrics/publisher.hpp
+++ b/cxxmetrics/publisher.hpp
@@ -305,7 +305,7 @@ public:
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count = true, const scale_factor& sf = scale_factor()) :
             value_publish_options(sf),
-            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
@@ -314,7 +314,7 @@ public:
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) :
             value_publish_options(sf),
-            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
     { }
-- 
2.43.0


From 3da1ac3b6bd6c9e03da1bf39e46d929d53fe5f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 42/55] fix: text with an embedded NUL was taken for the number
 before it

---
 cxxmetrics/metric_value.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 64e94f9..d32e7be 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -312,7 +312,7 @@ public:
         if (val_[0] == '-')
         {
             auto res = strtoll(val_.c_str(), &end, 10);
-            if (!end || *end)
+            if (end != val_.c_str() + val_.length())
             {
                 *valid = false;
                 return 0;
@@ -323,7 +323,7 @@ public:
         }
 
         auto res = strtoull(val_.c_str(), &end, 10);
-        if (!end || *end)
+        if (end != val_.c_str() + val_.length())
         {
             *valid = false;
             return 0;
@@ -345,7 +345,7 @@ public:
 
         char* end = nullptr;
         auto res = strtold(val_.c_str(), &end);
-        if (!end || *end)
+        if (end != val_.c_str() + val_.length())
         {
             *valid = false;
             return std::numeric_limits<long double>::quiet_NaN();
-- 
2.43.0


From bff51ba4435ad6e28d619770a4e099ff2f249af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 43/55] fix: adding a finer duration to a coarser one lost its
 length

---
 cxxmetrics/metric_value.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index d32e7be..6327825 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -487,10 +487,16 @@ public:
 
     int type_score() const override
     {
+        // a finer unit can hold the length of a coarser one, but not the other way around
+        int fine = std::ratio_less<TPeriod, std::ratio<3600>>::value +
+                std::ratio_less<TPeriod, std::ratio<60>>::value +
+                std::ratio_less<TPeriod, std::ratio<1>>::value +
+                std::ratio_less<TPeriod, std::milli>::value +
+                std::ratio_less<TPeriod, std::micro>::value;
         if (std::is_floating_point<TRep>::value)
-            return (sizeof(TRep) * 20) + 2;
+            return (sizeof(TRep) * 20) + 2 + fine;
         else
-            return (sizeof(TRep) * 10) + 2;
+            return (sizeof(TRep) * 10) + 2 + fine;
     }
 
     void add(const variant_data& other) noexcept override
-- 
2.43.0


From beb19cc70f7e5823f84985d7c49cce5f496aa92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 44/55] fix: equal numbers and equal durations of different
 types hashed differently

---
 cxxmetrics/metric_value.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 6327825..6087787 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -212,7 +212,14 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<T>()(val_);
+        // has to agree with the integers and the other floating point types that compare equal
+        auto v = static_cast<long double>(val_);
+        if (v >= 0 && v < std::ldexp(1.0L, 64) && v == std::floor(v))
+            return std::hash<unsigned long long>()(static_cast<unsigned long long>(v));
+        if (v < 0 && v >= -std::ldexp(1.0L, 63) && v == std::floor(v))
+            return std::hash<long long>()(static_cast<long long>(v));
+
+        return std::hash<long double>()(v);
     }
 
     void copy(void* into) const noexcept override
@@ -477,7 +484,8 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<std::chrono::duration<TRep, TPeriod>>()(dur_);
+        // has to agree with durations of the same length in other units
+        return std::hash<long long>()(to_nanos(nullptr).count());
     }
 
     void copy(void* into) const noexcept override
-- 
2.43.0


From e6330e383e02818dfe5178a8c33e17da830a1f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 45/55] fix: sampling every point of a snapshot no longer loops
 for ever

---
 cxxmetrics/snapshots.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 92db74e..773bd36 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -328,7 +328,7 @@ public:
             return;
 
         long double q_proportion = 1.0L / std::min(
-            static_cast<long double>(max_to_visit + 1),
+            static_cast<long double>(max_to_visit) + 1,
             static_cast<long double>(values_.size() - 1));
 
         for (std::size_t i = 0; i < max_to_visit; i++) {
-- 
2.43.0


From 4ddba28335db96751c0e7b22bcc9873eda2c585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 46/55] fix: assigning a moving average kept the clock it had

---
 cxxmetrics/ewma.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index a9774d5..17a9b86 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -247,6 +247,7 @@ ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval,
     std::unique_lock<std::mutex> other(c.lock_, std::defer_lock);
     std::lock(lock, other);
 
+    clk_ = c.clk_;
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
     last_ = c.last_;
-- 
2.43.0


From aad81ab25ad33df5b502b15460d83b3a947d3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 47/55] fix: assigning a value to itself destroyed it

---
 cxxmetrics/metric_value.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 6087787..b081a5e 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -719,6 +719,9 @@ public:
 
     variant_data_holder& operator=(variant_data_holder&& other) noexcept
     {
+        if (this == std::addressof(other))
+            return *this;
+
         as<variant_data>()->~variant_data();
         other.as<variant_data>()->move(std::addressof(v));
         return *this;
-- 
2.43.0


From 61dfcd26516d1e0b77a0766bebe517d73b44303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 48/55] fix: the texts of floating point values depended on the
 program's locale

---
 cxxmetrics/metric_value.hpp | 40 ++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index b081a5e..fb85b3c 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -2,6 +2,9 @@
 #define CXXMETRICS_METRIC_VALUE_HPP
 
 #include <chrono>
+#include <clocale>
+#include <locale>
+#include <sstream>
 #include <string>
 #include <cmath>
 #include <cstddef>
@@ -13,6 +16,25 @@ namespace cxxmetrics
 namespace internal
 {
 
+/**
+ * \brief the text of a number, as std::to_string makes it in the "C" locale, whatever the program's locale is
+ */
+template<typename T>
+inline typename std::enable_if<std::is_floating_point<T>::value, std::string>::type number_to_string(T value)
+{
+    std::ostringstream text;
+    text.imbue(std::locale::classic());
+    text.setf(std::ios_base::fixed, std::ios_base::floatfield);
+    text << value;
+    return text.str();
+}
+
+template<typename T>
+inline typename std::enable_if<!std::is_floating_point<T>::value, std::string>::type number_to_string(T value)
+{
+    return std::to_string(value);
+}
+
 class variant_data
 {
 public:
@@ -186,7 +208,7 @@ public:
 
     virtual std::string to_string() const override
     {
-        return std::to_string(val_);
+        return number_to_string(val_);
     }
 
     virtual long long to_integral(bool* valid) const override
@@ -350,9 +372,17 @@ public:
             return std::numeric_limits<long double>::quiet_NaN();
         }
 
+        // strtold expects the decimal point of the program's locale
+        auto text = val_;
+        const std::string point = std::localeconv()->decimal_point;
+        const auto dot = text.find('.');
+        const bool foreign = point != "." && text.find(point) != std::string::npos;
+        if (dot != std::string::npos)
+            text.replace(dot, 1, point);
+
         char* end = nullptr;
-        auto res = strtold(val_.c_str(), &end);
-        if (end != val_.c_str() + val_.length())
+        auto res = strtold(text.c_str(), &end);
+        if (foreign || end != text.c_str() + text.length())
         {
             *valid = false;
             return std::numeric_limits<long double>::quiet_NaN();
@@ -427,7 +457,7 @@ public:
 
         auto fv = to_float(&valid);
         if (valid)
-            val_ = std::to_string(-fv);
+            val_ = number_to_string(-fv);
     }
 
     void bitwise_negate() noexcept override
@@ -458,7 +488,7 @@ public:
 
     std::string to_string() const override
     {
-        return std::to_string(dur_.count());
+        return number_to_string(dur_.count());
     }
 
     long long to_integral(bool* valid) const override
-- 
2.43.0


From f3ac68ed4ec935909497d429af4c589c81411d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 49/55] fix: published names, windows and quantiles depended on
 locales and on the stream's formatting

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 40f466d..ea17642 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -2,6 +2,7 @@
 #define CXXMETRICS_SNAPSHOT_WRITER_HPP
 
 #include <cctype>
+#include <locale>
 #include <ostream>
 #include <sstream>
 #include <cxxmetrics/snapshots.hpp>
@@ -34,7 +35,7 @@ inline std::ostream& format_name_element(std::ostream&into, const std::string& e
     for (std::size_t i = 0; i < element.size(); i++)
     {
         char c = element[i];
-        if (!isalnum(static_cast<unsigned char>(c)))
+        if (!std::isalnum(c, std::locale::classic()))
             into << '_';
         else
             into << c;
@@ -122,6 +123,7 @@ inline std::string quantile_label(const cxxmetrics::quantile& q)
 {
     // as many digits as a quantile resolves, so that distinct quantiles stay distinct
     std::ostringstream label;
+    label.imbue(std::locale::classic());
     label.precision(9);
     label << static_cast<double>(q.percentile() / 100.0);
     return label.str();
@@ -136,31 +138,31 @@ std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep
     auto exact = [&time](auto unit) { return time >= unit && time % unit == time.zero(); };
     if (exact(1h))
     {
-        into << std::chrono::duration_cast<std::chrono::hours>(time).count() << "hr";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::hours>(time).count()) << "hr";
         return into;
     }
     if (exact(1min))
     {
-        into << std::chrono::duration_cast<std::chrono::minutes>(time).count() << "min";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::minutes>(time).count()) << "min";
         return into;
     }
     if (exact(1s))
     {
-        into << std::chrono::duration_cast<std::chrono::seconds>(time).count() << "sec";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::seconds>(time).count()) << "sec";
         return into;
     }
     if (exact(1ms))
     {
-        into << std::chrono::duration_cast<std::chrono::milliseconds>(time).count() << "msec";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(time).count()) << "msec";
         return into;
     }
     if (exact(1us))
     {
-        into << std::chrono::duration_cast<std::chrono::microseconds>(time).count() << "usec";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::microseconds>(time).count()) << "usec";
         return into;
     }
 
-    into << std::chrono::duration_cast<std::chrono::nanoseconds>(time).count() << "nsec";
+    into << std::to_string(std::chrono::duration_cast<std::chrono::nanoseconds>(time).count()) << "nsec";
     return into;
 }
 
-- 
2.43.0


From cbd43b2f5b99c22a5ac480371879d14ddc63b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 50/55] fix: gauges of pointers and of references were taken
 for one type

---
 cxxmetrics/gauge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 6a55844..a7e3bc0 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -263,7 +263,7 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &, TAggregation>>
+class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType *, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType* ptr) noexcept :
-- 
2.43.0


From fb8ebcd099f6f462b7ad204cf005c68d72531f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 51/55] fix: meters with their windows in another order were
 used as another type

---
 cxxmetrics/meter.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/cxxmetrics/meter.hpp b/cxxmetrics/meter.hpp
index 2e51920..98b03fc 100644
--- a/cxxmetrics/meter.hpp
+++ b/cxxmetrics/meter.hpp
@@ -440,15 +440,7 @@ public:
  * \tparam TWindows The various time windows to track. For example '15_min'
  */
 template<period::value TInterval, period::value... TWindows>
-class meter : public meters::meter_builder<TInterval, typename templates::sort_unique<TWindows...>::type>
-{
-    using base = meters::meter_builder<TInterval, typename templates::sort_unique<TWindows...>::type>;
-public:
-    meter() noexcept = default;
-    meter(const meter& m) noexcept  = default;
-    meter& operator=(const meter& m) noexcept = default;
-
-};
+using meter = meters::meter_builder<TInterval, typename templates::sort_unique<TWindows...>::type>;
 
 }
 
-- 
2.43.0


From 78e1ee1a134e5a3d9b589af01abd0f6e17d269ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 52/55] fix: timers with their windows in another order were
 another type

---
 cxxmetrics/timer.hpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/cxxmetrics/timer.hpp b/cxxmetrics/timer.hpp
index bd05b99..105addd 100644
--- a/cxxmetrics/timer.hpp
+++ b/cxxmetrics/timer.hpp
@@ -8,16 +8,15 @@
 namespace cxxmetrics
 {
 
-/**
- * \brief A timer that tracks lengths of times the things take
- *
- * \tparam TRateInterval the interval over which the rate is calculated
- * \tparam TClock The type of clock to use for tracking wall-clock time for operations. This should be a std::chrono clock type
- * \tparam TReservoir The type of reservoir to use for the underlying histogram of timings
- * \tparam TWindows The meter periods to track rates of, for example: 10_sec, 1_min, 1_hour
- */
-template<period::value TRateInterval = time::seconds(1), typename TClock = std::chrono::system_clock, typename TReservoir = uniform_reservoir<typename TClock::duration, 1024>, period::value... TWindows>
-class timer : public metric<timer<TRateInterval, TClock, TReservoir, TWindows...>>
+namespace timers
+{
+
+template<period::value TRateInterval, typename TClock, typename TReservoir, typename TWindows>
+class timer;
+
+template<period::value TRateInterval, typename TClock, typename TReservoir, period::value... TWindows>
+class timer<TRateInterval, TClock, TReservoir, templates::sortable_template_collection<TWindows...>> :
+        public metric<timer<TRateInterval, TClock, TReservoir, templates::sortable_template_collection<TWindows...>>>
 {
     histogram<typename TClock::duration, TReservoir> histogram_;
     meter<TRateInterval, TWindows...> meter_;
@@ -149,6 +148,19 @@ public:
     }
 };
 
+}
+
+/**
+ * \brief A timer that tracks lengths of times the things take
+ *
+ * \tparam TRateInterval the interval over which the rate is calculated
+ * \tparam TClock The type of clock to use for tracking wall-clock time for operations. This should be a std::chrono clock type
+ * \tparam TReservoir The type of reservoir to use for the underlying histogram of timings
+ * \tparam TWindows The meter periods to track rates of, for example: 10_sec, 1_min, 1_hour
+ */
+template<period::value TRateInterval = time::seconds(1), typename TClock = std::chrono::system_clock, typename TReservoir = uniform_reservoir<typename TClock::duration, 1024>, period::value... TWindows>
+using timer = timers::timer<TRateInterval, TClock, TReservoir, typename templates::sort_unique<TWindows...>::type>;
+
 /**
  * \brief A timer that logs the time since it was constructed upon exiting scope
  *
@@ -235,9 +247,9 @@ inline scoped_timer_t<TTimer> scoped_timer(TTimer& timer)
 
 template<period::value TRateInterval, typename TClock, typename TReservoir, period::value... TWindows>
 template<typename TRunnable, bool TIncludeExceptions>
-typename std::invoke_result<const TRunnable&>::type timer<TRateInterval, TClock, TReservoir, TWindows...>::time(const TRunnable &runnable)
+typename std::invoke_result<const TRunnable&>::type timers::timer<TRateInterval, TClock, TReservoir, templates::sortable_template_collection<TWindows...>>::time(const TRunnable &runnable)
 {
-    scoped_timer_t<timer<TRateInterval, TClock, TReservoir, TWindows...>> tm(*this);
+    scoped_timer_t<timer> tm(*this);
     if (!TIncludeExceptions)
     {
         try
-- 
2.43.0


From 79a0aa79726e5b1068a26b8ab8f0d5172400a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 53/55] fix: averages of unsigned values jumped when the rate
 went down

---
 cxxmetrics/ewma.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 17a9b86..4a8f8ec 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -210,7 +210,8 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
 
     // apply the pending value to our current rate
     // if someone else already snagged the pending value, start over
-    auto rate = nrate + (alpha_ * (pending - nrate));
+    // unsigned totals can't go below zero, so the difference isn't taken in their own type
+    auto rate = nrate + (alpha_ * (static_cast<long double>(pending) - nrate));
 
     // figure out how many intervals we've missed
     auto intervals = (at - last) / period(TInterval);
-- 
2.43.0


From 790b556944ccc361d1aa463ac88b2cddcd934385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:23 +0000
Subject: [PATCH 54/55] fix: sliding windows lost everything on clocks that
 hadn't run for a whole window

---
 cxxmetrics/sliding_window.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/sliding_window.hpp b/cxxmetrics/sliding_window.hpp
index b10c5e0..6f4b797 100644
--- a/cxxmetrics/sliding_window.hpp
+++ b/cxxmetrics/sliding_window.hpp
@@ -264,7 +264,11 @@ template<typename TElem, size_t TMaxSize, typename TClockGet>
 reservoir_snapshot sliding_window_reservoir<TElem, TMaxSize, TClockGet>::snapshot() const noexcept
 {
     auto now = clock_();
-    auto min = now - window_;
+    typename internal::clock_traits<TClockGet>::clock_point min = now - window_;
+
+    // an unsigned clock that hasn't run for a whole window yet can't go back that far
+    if (min > now && window_ > window_type{})
+        min = decltype(now){};
 
     auto start = data_.begin();
     auto end = data_.end();
-- 
2.43.0


From b9c3586a6b68a12c30cdbfb310dae89db354909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 55/55] fix: marking an average of long doubles never returned

---
 cxxmetrics/ewma.hpp | 54 +++++++++++----------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 4a8f8ec..fcdb97a 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -13,42 +13,6 @@ namespace cxxmetrics
 namespace internal
 {
 
-template<typename T>
-struct atomic_adder
-{
-    void operator()(std::atomic<T>& a, const T& b) const
-    {
-        a += b;
-    }
-};
-
-template<typename T>
-struct manual_atomic_adder
-{
-    void operator()(std::atomic<T>& a, const T& b) const
-    {
-        while (true) {
-            T v1 = a.load();
-            T v2 = v1 + b;
-
-            if (a.compare_exchange_weak(v1, v2))
-                break;
-        }
-
-    }
-};
-
-template<> struct atomic_adder<float> : public manual_atomic_adder<float> {};
-template<> struct atomic_adder<double> : public manual_atomic_adder<double> {};
-template<> struct atomic_adder<long double> : public manual_atomic_adder<long double> {};
-
-template<typename TA, typename TB>
-inline void atomic_add(std::atomic<TA>& a, const TB& b)
-{
-    atomic_adder<TA> add;
-    add(a, b);
-}
-
 template<typename TClockGet>
 class clock_traits
 {
@@ -150,14 +114,24 @@ void ewma<TClockGet, TWindow, TInterval, TValue>::mark(TMark amount) noexcept
         return;
 
     tick(now);
-    atomic_add(pending_, amount);
+    // everything that changes the totals holds the lock. An atomic exchange would compare the padding of a
+    // long double as well, which may never match
+    pending_.store(pending_.load() + static_cast<TValue>(amount));
 }
 
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 bool ewma<TClockGet, TWindow, TInterval, TValue>::compare_exchange(TValue &expectedrate, TValue rate) noexcept
 {
     std::lock_guard<std::mutex> lock(lock_);
-    return rate_.compare_exchange_weak(expectedrate, rate);
+    auto current = rate_.load();
+    if (current != expectedrate)
+    {
+        expectedrate = current;
+        return false;
+    }
+
+    rate_.store(rate);
+    return true;
 }
 
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
@@ -228,9 +202,7 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
     if (!TWrite || (at - last) < period(TInterval))
         return rate;
 
-    if (!pending_.compare_exchange_strong(pending, 0))
-        return rate; // someone else already either ticked or added a pending value
-
+    pending_.store(0);
     rate_.store(rate);
     if (last_ < at)
         last_ = at;
-- 
2.43.0

