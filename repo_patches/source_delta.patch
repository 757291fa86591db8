From 3030e99aedf0f6a3318d217f230b7ac4ad83f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 01/91] fix: block pool records the index it assigns and
 ignores erasure of vacant blocks

emplace() never stored the assigned index in the block, so erase() of a
valid index above zero was a no-op, and erasing the same index twice put
its block on the free list twice. The const accessors did not compile or
recursed without end.
---
 esl/computation/block_pool.hpp | 35 +++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index f792404..09ea48f 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -27,7 +27,9 @@
 #ifndef ESL_BLOCK_POOL_HPP
 #define ESL_BLOCK_POOL_HPP
 
+#include <cassert>
 #include <cstdint>
+#include <limits>
 #include <utility>
 #include <stdexcept>
 #include <vector>
@@ -93,6 +95,11 @@ namespace esl::computation::block_pool {
         typedef index_t_ index;
 
     private:
+        ///
+        /// \brief  Index value that marks blocks that do not hold an element
+        ///
+        static constexpr typename block<element_t_>::index_t vacant =
+            (std::numeric_limits<typename block<element_t_>::index_t>::max)();
 
         ///
         /// \brief  Underlying container. Needs to be array like (not necessarily dynamically allocated and resizable)
@@ -141,6 +148,9 @@ namespace esl::computation::block_pool {
         , size_(0)
         , highest_(0)
         {
+            for(auto &b : blocks) {
+                b.index = vacant;
+            }
             blocks[capacity - 1].next = nullptr;
             for(size_t i = 1; i < capacity; ++i){
                 blocks[capacity - 1 - i].next = &blocks[capacity - i];
@@ -245,6 +255,7 @@ namespace esl::computation::block_pool {
                 
             }
             highest_ = std::max(highest_, assigned_ + 1);
+            i->index = assigned_;
 
             return {assigned_, i};
         }
@@ -261,7 +272,7 @@ namespace esl::computation::block_pool {
         {
             block<element_t_> *removed_ = &blocks[i % capacity()];
             
-            if(removed_->index != i) {
+            if(vacant == i || removed_->index != i) {
                 return 0;
                 //throw esl::exception("trying to delete stale order");
             }
@@ -280,8 +291,9 @@ namespace esl::computation::block_pool {
 
             // ->next points to the next *free* element, so we need to add 
             // the cleared element to the start of the list of free elements
-            removed_->next = end_;
-            end_           = removed_;
+            removed_->next  = end_;
+            removed_->index = vacant;
+            end_            = removed_;
 
             if(size_ == 0){
 #if DEBUG
@@ -295,6 +307,14 @@ namespace esl::computation::block_pool {
             return 1;
         }
 
+        ///
+        /// \brief  Whether index i was assigned to an element that has not been erased
+        ///
+        [[nodiscard]] bool contains(index i) const
+        {
+            return vacant != i && blocks[i % capacity()].index == i;
+        }
+
         ///
         /// \brief  Returns a reference to the element at index i modulo the pool size.
         /// 
@@ -309,24 +329,25 @@ namespace esl::computation::block_pool {
         /// 
         constexpr const_reference operator [] (index i) const
         {
-            return this->operator[](i);
+            return blocks[i % capacity()].data;
         }
 
         constexpr reference at(index i)
         {
             assert(blocks[i % capacity()].index == i);
-            block<element_t_> *element_ = blocks[i % capacity()];
+            block<element_t_> *element_ = &blocks[i % capacity()];
 #if DEBUG
             if(!element_->set) {
                 throw std::exception("trying to access non-existing element");
             }
 #endif
-            return *element_;
+            return element_->data;
         }
 
         constexpr const_reference at(index i) const
         {
-            return at(i);
+            assert(blocks[i % capacity()].index == i);
+            return blocks[i % capacity()].data;
         }
     };
 }
-- 
2.43.0


From db8505a71b223abe94ec43010aff647802c36bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 02/91] fix: fixed-range order book maps every tick to its own
 level and back

encode() scaled by the number of levels where decode() used the number of
intervals, so that prices in the upper half landed one level too high and
the maximum price was out of range; decode() and span() truncated.
---
 .../markets/order_book/static_order_book.hpp  | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index be02149..6ee7fbe 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -147,9 +147,9 @@ namespace esl::economics::markets::order_book {
             /// \return
             size_t span(size_t lot, size_t ticks) const
             {
-                return static_cast<size_t>(
+                return static_cast<size_t>(round(
                     (double(valid_limits.upper) - double(valid_limits.lower)) * lot
-                    * ticks + 1);
+                    * ticks)) + 1;
             }
 
         public:
@@ -181,7 +181,7 @@ namespace esl::economics::markets::order_book {
                     round(
                     (real_ - low_)
                     / (high_ - low_)
-                    * limits_.size())
+                    * (limits_.size() - 1))
                 );
                 return true;
             }
@@ -193,13 +193,18 @@ namespace esl::economics::markets::order_book {
             /// \return
             /*C++20 constexpr*/ quote default_decode(const mathematics::interval<quote> &limits, const limit &limit)
             {
-                auto high_ = double(valid_limits.upper);
-                auto low_  = double(valid_limits.lower);
-
-                auto reverse = round((double(limit) * (high_ - low_)) * limits.lower.lot * limits.lower.lot);
-
-                auto intercept_ = low_ * limits.lower.lot * limits.lower.lot;
-                return quote( (reverse/ double(limits_.size()-1) +  intercept_) / limits.lower.lot, valid_limits.lower);
+                const auto high_ = double(limits.upper);
+                const auto low_  = double(limits.lower);
+                const auto real_ = low_ + double(limit) * (high_ - low_) / double(limits_.size() - 1);
+
+                // round to the nearest unit, since conversion from floating
+                // point to a quote truncates
+                return std::visit([&](const auto &k) {
+                    using variant_ = std::decay_t<decltype(k)>;
+                    return quote( variant_( static_cast<std::int64_t>(round(real_ * limits.lower.lot * k.valuation.denominator))
+                                          , k.valuation)
+                                , limits.lower.lot);
+                }, limits.lower.type);
             }
 
             ///
-- 
2.43.0


From 022aac912f98adffec91734e3209571f29ab9917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 03/91] fix: fixed-range order book has no best quote on an
 empty side

The best bid and ask started at the lowest and highest level, so a buy
resting at the maximum price was published as the best ask (and matched as
one), and exhausting the outermost level moved the pointer outside of the
levels.
---
 .../markets/order_book/static_order_book.hpp  | 64 ++++++++++---------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 6ee7fbe..10eabf9 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -242,8 +242,9 @@ namespace esl::economics::markets::order_book {
                 //  we make sure to set this explicitly
                 limits_.resize(span_, std::make_pair(nullptr, nullptr));
 
-                best_bid_ = &limits_.front();
-                best_ask_ = &limits_.back();
+                // both sides of the book are empty
+                best_bid_ = nullptr;
+                best_ask_ = nullptr;
 
                 encode = [&](const mathematics::interval<quote> &limits, const auto &q, auto &l) -> bool {
                     return default_encode(limits, q, l);
@@ -307,7 +308,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> bid() const override
             {
-                if(!best_bid_->first){
+                if(!best_bid_){
                     return {};
                 }
                 std::ptrdiff_t limit_ = best_bid_ - &limits_[0];
@@ -320,7 +321,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> ask() const override
             {
-                if(!best_ask_->first){
+                if(!best_ask_){
                     return {};
                 }
 
@@ -328,6 +329,25 @@ namespace esl::economics::markets::order_book {
                 return decode(valid_limits, limit_);
             }
 
+            ///
+            /// \brief  After the best level was emptied, moves the best bid
+            ///         (ask) down (up) to the next level that has orders. Sets
+            ///         it to `nullptr` if this side of the book is empty.
+            ///
+            void retreat_bid()
+            {
+                while(best_bid_ && !best_bid_->first){
+                    best_bid_ = (best_bid_ == &limits_.front()) ? nullptr : best_bid_ - 1;
+                }
+            }
+
+            void retreat_ask()
+            {
+                while(best_ask_ && !best_ask_->first){
+                    best_ask_ = (best_ask_ == &limits_.back()) ? nullptr : best_ask_ + 1;
+                }
+            }
+
             ///
             /// \brief  Matches an order, partially or fully, agains resting
             ///         orders at a given level in the book
@@ -411,20 +431,10 @@ namespace esl::economics::markets::order_book {
                         // the best ask
                         if(order.side == limit_order::buy){
                             // increase the best ask, until we find an order, or exhaust the order book
-                            // TODO: worst_ask_
-                            for(++best_ask_; best_ask_ <= &limits_.back(); ++best_ask_){
-                                if(best_ask_->first || best_ask_ == &limits_.back()){
-                                    break;
-                                }
-                            }
+                            retreat_ask();
                         }else{
                             // decrease the best bid, until we find an order, or exhaust the order book
-                            // TODO: worst_bid_
-                            for(--best_bid_; best_bid_ >= &limits_[0]; --best_bid_){
-                                if(best_bid_->first || best_bid_ == &limits_[0]){
-                                    break;
-                                }
-                            }
+                            retreat_bid();
                         }
                     }
                     break;
@@ -489,19 +499,13 @@ namespace esl::economics::markets::order_book {
 
                 if(order.side == limit_order::buy && ask().has_value() && order.limit >= ask().value()) {
                     // direct execution: buyer aggressor
-                    for(auto al = best_ask_; al <= limit_level_ && 0 < remainder_; ++al){
-                        if(!al->first){
-                            continue;
-                        }
-                        remainder_ = match_at_level(order, remainder_, al);
+                    while(best_ask_ && best_ask_ <= limit_level_ && 0 < remainder_){
+                        remainder_ = match_at_level(order, remainder_, best_ask_);
                     }
                 }else if(order.side == limit_order::sell && bid().has_value() && order.limit <= bid().value()) {
                     // direct execution: seller aggressor
-                    for(auto bl = best_bid_; bl >= limit_level_ && 0 < remainder_; --bl){
-                        if(!bl->first){
-                            continue;
-                        }
-                        remainder_ = match_at_level(order, remainder_, bl);
+                    while(best_bid_ && best_bid_ >= limit_level_ && 0 < remainder_){
+                        remainder_ = match_at_level(order, remainder_, best_bid_);
                     }
 
                 }else if(order.lifetime == limit_order::lifetime_t::immediate_or_cancel
@@ -580,9 +584,9 @@ namespace esl::economics::markets::order_book {
 
                 // because we are inserting, the best bid and ask can strictly improve
                 if(limit_order::buy == order.side){
-                    best_bid_ = std::max(best_bid_,  limit_level_);
+                    best_bid_ = best_bid_ ? std::max(best_bid_,  limit_level_) : limit_level_;
                 }else if(order.side == limit_order::sell){
-                    best_ask_ = std::min(best_ask_,  limit_level_);
+                    best_ask_ = best_ask_ ? std::min(best_ask_,  limit_level_) : limit_level_;
                 }
             }
 
@@ -690,7 +694,7 @@ namespace esl::economics::markets::order_book {
 
                 std::uint64_t displayed_ = 0;
                 std::vector<std::pair<std::uint32_t, double>> ask_displayed_;
-                for(auto i = best_ask_; i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
+                for(auto i = best_ask_; i && i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
                     if(!i->first) {
                         continue;
                     }
@@ -720,7 +724,7 @@ namespace esl::economics::markets::order_book {
                 //std::cout << "------------------------------------------------" << std::endl;
 
                 displayed_ = 0;
-                for(auto i = best_bid_; i >= &limits_[0] && displayed_ < levels; --i) {
+                for(auto i = best_bid_; i && i >= &limits_[0] && displayed_ < levels; --i) {
                     if(!i->first) {
                         continue;
                     }
-- 
2.43.0


From f2b708da0e29bf564a30be7dad8842ab8fd9199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 04/91] fix: fixed-range order book updates best quotes on
 cancel and ignores stale cancels

Cancelling the last order at the best price left the best bid/ask at an
empty level, which hid the remaining orders and let the book cross.
Cancelling an order that was filled or cancelled before compared default
quotes and could free a block twice.
---
 esl/economics/markets/order_book/static_order_book.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 10eabf9..cf24bca 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -598,6 +598,12 @@ namespace esl::economics::markets::order_book {
             /// \param order
             void cancel(basic_book::order_identifier order) override
             {
+                if(!pool_.contains(order)){
+                    // the order was matched fully/cancelled before, so we can't
+                    // do anything here
+                    return;
+                }
+
                 record &order_ = pool_[order];
 
                 auto side_ = limit_order::side_t::buy;
@@ -679,6 +685,10 @@ namespace esl::economics::markets::order_book {
                 order_.limit    = quote();
                 order_.owner    = identity<agent>();
                 order_.quantity = 0;
+
+                // this may have been the last order at the best price
+                retreat_bid();
+                retreat_ask();
             }
 
             ///
-- 
2.43.0


From c2fc6c5a00cc8241456cb97d82686d981e125651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 05/91] fix: fixed-range order book reports orders with another
 lot size as invalid

The range check compared quotes of different lot sizes, which throws, so
that the intended rejection was never reached.
---
 esl/economics/markets/order_book/static_order_book.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index cf24bca..9418933 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -450,9 +450,13 @@ namespace esl::economics::markets::order_book {
             /// \return
             void insert(const limit_order &order) override
             {
-                if(!valid_limits.contains(order.limit) || 0 >= order.quantity || order.limit.lot != valid_limits.lower.lot ){
+                // quotes with different lot sizes can not be compared
+                const bool valid_lot_   = order.limit.lot == valid_limits.lower.lot;
+                const bool valid_price_ = valid_lot_ && valid_limits.contains(order.limit);
 
-                    if(!valid_limits.contains(order.limit)){
+                if(!valid_price_ || 0 >= order.quantity || !valid_lot_){
+
+                    if(valid_lot_ && !valid_price_){
                         LOG(warning) << "Order invalid because it is outside the accepted range: " << this->valid_limits << std::endl;
                     }
 
@@ -462,7 +466,7 @@ namespace esl::economics::markets::order_book {
                                      << order.quantity << std::endl;
                     }
 
-                    if(order.limit.lot != valid_limits.lower.lot){
+                    if(!valid_lot_){
                         LOG(warning)
                             << "Order invalid because it does not use an "
                                "acceptable lot size "
-- 
2.43.0


From cd99502aa92ca651c95dd13dfc734c1668d63f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 06/91] fix: fill-or-kill orders in the fixed-range book trade
 in full or not at all

A fill-or-kill order that could only be matched in part was executed in
part, and its remainder was placed in the book.
---
 .../markets/order_book/static_order_book.hpp  | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 9418933..635b65d 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -348,6 +348,30 @@ namespace esl::economics::markets::order_book {
                 }
             }
 
+            ///
+            /// \brief  The quantity of resting orders that can be matched
+            ///         against an order with the given limit price
+            ///
+            [[nodiscard]] std::uint64_t available(const limit_order &order, const limit_type *level) const
+            {
+                std::uint64_t result_ = 0;
+                auto depth_ = [&](const limit_type *l) {
+                    for(auto o = l->first; o; o = o->data.successor) {
+                        result_ += o->data.quantity;
+                    }
+                };
+                if(limit_order::buy == order.side) {
+                    for(auto l = best_ask_; l && l <= level; ++l) {
+                        depth_(l);
+                    }
+                }else{
+                    for(auto l = best_bid_; l && l >= level; --l) {
+                        depth_(l);
+                    }
+                }
+                return result_;
+            }
+
             ///
             /// \brief  Matches an order, partially or fully, agains resting
             ///         orders at a given level in the book
@@ -501,6 +525,20 @@ namespace esl::economics::markets::order_book {
 
                 limit_type *limit_level_ = &limits_[limit_index_];
 
+                // a fill-or-kill order is executed in full, or not at all
+                if(order.lifetime == limit_order::lifetime_t::fill_or_kill
+                   && available(order, limit_level_) < order.quantity) {
+                    reports.emplace_back(execution_report
+                                             ( execution_report::cancel
+                                             , order.side
+                                             , order.quantity
+                                             , basic_book::direct_order
+                                             , order.limit
+                                             , order.owner
+                                             ));
+                    return;
+                }
+
                 if(order.side == limit_order::buy && ask().has_value() && order.limit >= ask().value()) {
                     // direct execution: buyer aggressor
                     while(best_ask_ && best_ask_ <= limit_level_ && 0 < remainder_){
-- 
2.43.0


From 9f458fba7999d8270d499b8de5919f5c6abcfbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 07/91] fix: tree order book no longer lists cancelled orders

---
 esl/economics/markets/order_book/binary_tree_order_book.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index b85441a..f6f47a5 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -269,6 +269,7 @@ namespace esl::economics::markets::order_book {
                                 , i->second.second.owner
                                 });
                             orders_bid.erase(i);
+                            limit_orders_.erase(o);
                             break;
                         }
                     }
@@ -287,6 +288,7 @@ namespace esl::economics::markets::order_book {
                                 , o->second
                                 , i->second.second.owner});
                             orders_ask.erase(i);
+                            limit_orders_.erase(o);
                             break;
                         }
                     }
-- 
2.43.0


From 0ab8ea590c7b6c9a7e85125ccb33f468af413504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 08/91] fix: tree order book honours immediate-or-cancel and
 fill-or-kill lifetimes

Orders of either lifetime were placed in the book like any other order.
---
 .../order_book/binary_tree_order_book.hpp     | 53 ++++++++++++++++++-
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index f6f47a5..67561d3 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -57,6 +57,41 @@ namespace esl::economics::markets::order_book {
 
 
         std::map<basic_book::order_identifier, quote> limit_orders_;
+
+        ///
+        /// \brief  The quantity of resting orders that can be matched against
+        ///         the order
+        ///
+        [[nodiscard]] std::uint64_t available(const limit_order &order) const
+        {
+            std::uint64_t result_ = 0;
+            if(limit_order::side_t::buy == order.side) {
+                for(auto i = orders_ask.begin(); i != orders_ask.end() && order.limit >= i->first; ++i) {
+                    result_ += i->second.second.quantity;
+                }
+            }else{
+                for(auto i = orders_bid.begin(); i != orders_bid.end() && order.limit <= i->first; ++i) {
+                    result_ += i->second.second.quantity;
+                }
+            }
+            return result_;
+        }
+
+        ///
+        /// \brief  Reports the part of an order that is not placed in the book
+        ///         because of its lifetime
+        ///
+        void cancel_remainder(const limit_order &order, std::uint32_t remainder)
+        {
+            reports.emplace_back(execution_report
+                { execution_report::cancel
+                , order.side
+                , remainder
+                , direct_order
+                , order.limit
+                , order.owner
+                });
+        }
     public:
         binary_tree_order_book()
         : next_(0)
@@ -110,6 +145,14 @@ namespace esl::economics::markets::order_book {
         /// \param order
         void insert(const limit_order &order) override
         {
+            // a fill-or-kill order is executed in full, or not at all
+            if(limit_order::lifetime_t::fill_or_kill == order.lifetime
+               && 0 < order.quantity
+               && available(order) < order.quantity) {
+                cancel_remainder(order, order.quantity);
+                return;
+            }
+
             if(limit_order::side_t::buy == order.side){
                 auto remainder_ = order.quantity;
 
@@ -160,7 +203,10 @@ namespace esl::economics::markets::order_book {
                     orders_ask.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0
+                   && limit_order::lifetime_t::good_until_cancelled != order.lifetime) {
+                    cancel_remainder(order, remainder_);
+                }else if(remainder_ > 0) {
                     // place remainder
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
@@ -226,7 +272,10 @@ namespace esl::economics::markets::order_book {
                     orders_bid.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0
+                   && limit_order::lifetime_t::good_until_cancelled != order.lifetime) {
+                    cancel_remainder(order, remainder_);
+                }else if(remainder_ > 0) {
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
                     auto pair_          = std::make_pair(next_, placed_);
-- 
2.43.0


From 2e9ea627bf5aa56244fb57885831607797fbb953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 09/91] fix: computational environment compiles with standard
 C++

---
 esl/computation/environment.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 1e3f381..cc92bc8 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -232,8 +232,8 @@ namespace esl::computation {
 
                 std::cout << "\rrun " << step_.lower << "/" << step_.upper << " [";
                 auto progress_ = double(step_.upper - step_.lower) / (step_.upper - simulation_time_start);
-                for(auto i = 0; i < width_; ++i) {
-                    if(i < unsigned int((1.-progress_) * width_)) {
+                for(unsigned int i = 0; i < width_; ++i) {
+                    if(i < static_cast<unsigned int>((1.-progress_) * width_)) {
                         std::cout << '|';
                     } else {
                         std::cout << ' ';
@@ -245,7 +245,7 @@ namespace esl::computation {
         } while(step_.lower < simulation.end);
         
         std::cout << "\rrun " << step_.lower << "/" << step_.upper << " [";
-        for(auto i = 0; i < width_; ++i) {
+        for(unsigned int i = 0; i < width_; ++i) {
             std::cout << '|';
         }
         std::cout << ']' << std::flush;
-- 
2.43.0


From 4dff729098ce988a893c6a671da01f712a9ed726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 10/91] fix: environment handles every queued activation and
 deactivation once

---
 esl/computation/environment.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index cc92bc8..ee9ca95 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -59,11 +59,9 @@ namespace esl::computation {
     ///
     size_t environment::activate()
     {
-        size_t result_ = 0;
-        for(const auto &a: activated_) {
-            activate_agent(a);
-            ++result_;
-        }
+        // agents are already part of the model's collection in a single process,
+        // so that what remains is to empty the queue of new agents
+        size_t result_ = activated_.size();
         activated_.clear();
         return result_;
     }
@@ -73,11 +71,8 @@ namespace esl::computation {
     ///
     size_t environment::deactivate()
     {
-        size_t result_ = 0;
-        for(const auto &a: deactivated_) {
-            deactivate_agent(a);
-            ++result_;
-        }
+        size_t result_ = deactivated_.size();
+        deactivated_.clear();
         return result_;
     }
 
-- 
2.43.0


From 4fc504737eb7c2a74eb958a6eff5041164fe3e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 11/91] fix: wake-up times of deactivated agents no longer
 block the simulation

---
 esl/simulation/model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index e3f7484..f201680 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -71,6 +71,10 @@ namespace esl::simulation {
         //for(auto &[i, a] : agents.local_agents_) {
         //    auto iterator_ = wake_up_times.find(i);
         for(const auto &[i, t] : wake_up_times) {
+            // agents that were deactivated have no further events
+            if(0 == agents.local_agents_.count(i)) {
+                continue;
+            }
             if(result_ > t) {
                 blockers_ = {i};  //.clear();
                 result_   = std::min(result_, t);
-- 
2.43.0


From 961a817f53579e78bafb24332f99120ac8b1377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 12/91] fix: messages with a delivery time in the past are due
 immediately

---
 esl/simulation/model.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index f201680..6622731 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -202,10 +202,10 @@ namespace esl::simulation {
                     auto [ww, _] = wake_up_times.emplace(i, step.lower);
                     w=ww;
                 }
-                // this comparison is strict equality, because an agent
-                // returning a time_point before the current time form act() is
-                // a logical error
-                if(w->second == step.lower){
+                // an agent returning a time_point before the current time from
+                // act() is a logical error, but messages can be sent with a
+                // delivery time that has passed, and are then due immediately
+                if(w->second <= step.lower){
                     //std::cout << "active " << i << a->describe() << std::endl;
                     acting_agents_.push_back(a);
                 }
-- 
2.43.0


From bdb0b74717bc3e8f7cfefcdfbb91053d844b285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 13/91] fix: agents wake up for messages that are still to be
 delivered

---
 esl/simulation/model.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 6622731..e6c516c 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -152,6 +152,13 @@ namespace esl::simulation {
                         throw std::logic_error(stream_.str());
                     }
 
+                    // messages that are delivered later remain in the inbox, and
+                    // the agent needs to wake up for the first one of these
+                    auto pending_ = a->inbox.upper_bound(step.lower);
+                    if(a->inbox.end() != pending_){
+                        wake_up_ = std::min(wake_up_, pending_->first);
+                    }
+
                     //first_event_ = std::min(first_event_, wake_up_);
 
                     //std::cout << a->identifier << " wakes up next at " << first_event_ << std::endl;
-- 
2.43.0


From 885196d1ed25b5063f2c8fcf06130da34d339043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 14/91] fix: parametrization stores the number of threads

---
 esl/simulation/parameter/parametrization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/simulation/parameter/parametrization.hpp b/esl/simulation/parameter/parametrization.hpp
index 15658cc..c416354 100644
--- a/esl/simulation/parameter/parametrization.hpp
+++ b/esl/simulation/parameter/parametrization.hpp
@@ -61,7 +61,7 @@ namespace esl::simulation::parameter {
             values["start"]     = std::make_shared<constant<time_point>>(start);
             values["end"]       = std::make_shared<constant<time_point>>(end);
             values["verbosity"] = std::make_shared<constant<std::uint64_t>>(verbosity);
-            values["threads"]   = std::make_shared<constant<std::uint64_t>>(verbosity);
+            values["threads"]   = std::make_shared<constant<std::uint64_t>>(threads);
         }
 
         ///
-- 
2.43.0


From 3c69f533715048519062769117051ea841e851f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 15/91] fix: model time advances with each step

---
 esl/simulation/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index e6c516c..7c1a54b 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -98,6 +98,7 @@ namespace esl::simulation {
         }
 
         auto timer_start_ = high_resolution_clock::now();
+        time = step.lower;
         environment_.before_step();
 
         //std::cout << "wake_up_times " << wake_up_times << std::endl;
@@ -259,6 +260,8 @@ namespace esl::simulation {
             ++rounds_;
         } while(step.lower >= first_event_);
 
+        // the model time advances to the next event
+        time = first_event_;
         environment_.after_step(*this);
         auto total_ = high_resolution_clock::now() - timer_start_;
         //LOG(notice) << "step " << step << " took " << (double(total_.count()) / 1e+9) <<  " seconds" << std::endl;
-- 
2.43.0


From 2082395e420723e5926708b4f0e96de202d32d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 16/91] fix: messages of equal priority are processed in order
 of delivery

---
 esl/interaction/communicator.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/esl/interaction/communicator.cpp b/esl/interaction/communicator.cpp
index e1fef9d..10d90ed 100644
--- a/esl/interaction/communicator.cpp
+++ b/esl/interaction/communicator.cpp
@@ -88,10 +88,11 @@ namespace esl::interaction {
     communicator::process_messages(const simulation::time_interval &step,
                                    std::seed_seq &seed)
     {
-        // create mapping priority -> message
+        // create mapping priority -> message, from highest to lowest priority
+        // and in order of delivery for messages with equal priority
         std::multimap< priority_t
                      , message_t
-                     , std::less<>
+                     , std::greater<>
                      , boost::fast_pool_allocator<std::pair<const priority_t, message_t>>
                      > priority_;
         for(const auto &[k, m]: inbox) {
@@ -116,13 +117,10 @@ namespace esl::interaction {
 
         auto first_event_ = step.upper;
 
-        for(auto i = priority_.rbegin(); i != priority_.rend(); ++i) {
+        for(auto i = priority_.begin(); i != priority_.end();) {
             std::vector<message_t> equal_;
-            for(auto upper_ = i;
-                upper_ != priority_.rend() && upper_->first == i->first;
-                ++upper_) {
-                equal_.push_back(upper_->second);
-                i = upper_;
+            for(auto upper_ = priority_.upper_bound(i->first); i != upper_; ++i) {
+                equal_.push_back(i->second);
             }
 
             if(random == schedule) {
-- 
2.43.0


From 2a6d426c18e25cd86ebf0e32c0de2f1b7d2c9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 17/91] fix: looking up an unknown agent does not add it to the
 collection

---
 esl/simulation/agent_collection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/simulation/agent_collection.cpp b/esl/simulation/agent_collection.cpp
index a3b0085..2eed751 100644
--- a/esl/simulation/agent_collection.cpp
+++ b/esl/simulation/agent_collection.cpp
@@ -54,6 +54,10 @@ namespace esl::simulation {
     std::shared_ptr<agent>
         agent_collection::operator[](const identity<agent> &a)
     {
-        return local_agents_[a];
+        auto iterator_ = local_agents_.find(a);
+        if(local_agents_.end() == iterator_) {
+            return nullptr;
+        }
+        return iterator_->second;
     }
 }
-- 
2.43.0


From 84675c8ca20d252f9c40644b2baa5110c54e9783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 18/91] fix: taking more of a property adds to the inventory

---
 esl/economics/owner.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 1307ace..a7f3c43 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -251,9 +251,17 @@ namespace esl::law {
 
         void take(std::shared_ptr<property_t_> property, quantity amount)
         {
-            this->properties.insert(property, amount);
-            esl::law::owner<esl::law::property>::inventory.insert(
-                std::make_pair(property, amount));
+            detail::filter_inserter<
+                std::is_base_of<economics::fungible, property_t_>::value,
+                property_t_>()
+                .insert(this->properties, property, amount);
+
+            auto [iterator_, inserted_] =
+                esl::law::owner<esl::law::property>::inventory.insert(
+                    std::make_pair(property, amount));
+            if(!inserted_) {
+                iterator_->second += amount;
+            }
         }
 
 
-- 
2.43.0


From 524ff9a41bfc0f084faf54db36d31f137c43e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 19/91] fix: transfers to oneself leave the filtered properties
 unchanged

---
 esl/economics/owner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index a7f3c43..f28657f 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -195,6 +195,10 @@ namespace esl::law {
                                             simulation::time_interval ti,
                                             std::seed_seq &seed) {
                 (void)seed;
+                if(msg->transferor == msg->transferee) {
+                    return ti.upper;
+                }
+
                 if((*this).identifier == msg->transferor) {
                     // this process is duplicated several times for every
                     // inherited owner<p>, as we are reliant on dynamic type
-- 
2.43.0


From 19481f52c50719d4c799953de1a635f321daaa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 20/91] fix: erasing none of an absent property is a no-op

---
 esl/economics/accounting/inventory.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index c14331e..04db970 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -205,8 +205,11 @@ namespace esl::economics::accounting {
         {
             auto iterator_ = items.find(item);
 
-            if(items.end() == iterator_ && q.amount > 0) {
-                throw insufficent_inventory(quantity(0), q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
+            if(items.end() == iterator_) {
+                if(q.amount > 0) {
+                    throw insufficent_inventory(quantity(0), q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
+                }
+                return;
             }
 
             if(iterator_->second < q) {
-- 
2.43.0


From 4ac18e1d68123971eddf72c5b00225781ad9731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 21/91] fix: transfers of several properties are withdrawn in
 full or not at all

---
 esl/economics/accounting/inventory.hpp | 28 ++++++++++++++++++++++----
 esl/economics/owner.hpp                | 23 +++++++++++++++++++++
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index 04db970..82be61d 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -240,9 +240,13 @@ namespace esl::economics::accounting {
         }
 
 
-        void erase_from(law::property_map<quantity> &m) const
+        ///
+        /// \brief  Throws insufficent_inventory unless m holds all items
+        ///
+        /// \param m
+        void verify_available(const law::property_map<quantity> &m) const
         {
-            for(auto [k, v] : items) {
+            for(const auto &[k, v] : items) {
                 if(v == 0){
                     continue;
                 }
@@ -253,8 +257,24 @@ namespace esl::economics::accounting {
                 } else if(i->second < v) {
                     //LOG(errorlog) << "when looking for property " << boost::core::demangle(typeid(property_t_).name()) << " id: "<< k->identifier << " there were insufficient ("<<i->second<<") items to withdraw " << v << std::endl;
                     throw insufficent_inventory(i->second, v, k->identifier, k->name());
-                } else if(i->second == v) {
-                    m.erase(k);
+                }
+            }
+        }
+
+        ///
+        /// \brief  Erases either all items, or none when m does not hold them
+        ///
+        /// \param m
+        void erase_from(law::property_map<quantity> &m) const
+        {
+            verify_available(m);
+            for(const auto &[k, v] : items) {
+                if(v == 0){
+                    continue;
+                }
+                auto i = m.find(k);
+                if(i->second == v) {
+                    m.erase(i);
                 } else {
                     i->second -= v;
                 }
diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index f28657f..9402d6d 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -100,6 +100,29 @@ namespace esl::law {
                                   50,
                                   callback_,
                                   "process interaction::transfer");
+
+            // a transfer of property that the transferor does not hold is
+            // refused before any inventory is changed
+            auto verify_ = [this](auto msg,
+                                  simulation::time_interval ti,
+                                  std::seed_seq &seed) {
+                (void)seed;
+                if(msg->transferor != msg->transferee
+                   && this->identifier == msg->transferor) {
+                    try {
+                        msg->transferred.verify_available(inventory);
+                    }catch(const esl::economics::accounting::insufficent_inventory &e){
+                        LOG(errorlog) << this->name() << " (" << identifier  << ", " << msg->transferred <<") " << e.what() << std::endl;
+                        throw;
+                    }
+                }
+                return simulation::time_point(ti.upper);
+            };
+
+            ESL_REGISTER_CALLBACK(interaction::transfer,
+                                  51,
+                                  verify_,
+                                  "verify interaction::transfer");
         }
 
         virtual ~owner() = default;
-- 
2.43.0


From d03f51c0353d92c5f27eb288b4f78c1ad7a9e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 22/91] fix: closed blocking queue no longer accepts elements

---
 esl/computation/blocking_queue.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/esl/computation/blocking_queue.hpp b/esl/computation/blocking_queue.hpp
index 68eecde..988d37c 100644
--- a/esl/computation/blocking_queue.hpp
+++ b/esl/computation/blocking_queue.hpp
@@ -71,6 +71,7 @@ namespace esl::computation {
 
         ///
         /// \brief  Puts a copy of the item in the queue in a thread-safe manner.
+        ///         A queue that is closed does not accept the item.
         ///
         /// \param item The item of type 'element_t_' to enqueue
         /// \return     void
@@ -79,13 +80,17 @@ namespace esl::computation {
         {
             {
                 std::unique_lock lock(mutex_);
+                if(closed_) {
+                    return;
+                }
                 queue_.push(item);
             }
             variable_.notify_one();
         }
 
         ///
-        /// \brief  Puts the item in the queue in a thread-safe manner.
+        /// \brief  Puts the item in the queue in a thread-safe manner. A queue
+        ///         that is closed does not accept the item.
         ///
         /// \param item The item of type 'element_t_' to enqueue
         /// \return     void
@@ -94,6 +99,9 @@ namespace esl::computation {
         {
             {
                 std::unique_lock lock_(mutex_);
+                if(closed_) {
+                    return;
+                }
                 queue_.emplace(std::forward<element_t_>(item));
             }
             variable_.notify_one();
@@ -101,7 +109,7 @@ namespace esl::computation {
 
         ///
         /// \brief  Tries to put a copy of an item at the end of the queue, but
-        ///         fails if the queue is locked.
+        ///         fails if the queue is locked or closed.
         ///
         /// \param item
         /// \return bool    'true' if item was put into the queue, false otherwise
@@ -110,7 +118,7 @@ namespace esl::computation {
         {
             {
                 std::unique_lock lock_(mutex_, std::try_to_lock);
-                if(!lock_) {
+                if(!lock_ || closed_) {
                     return false;
                 }
                 queue_.push(item);
@@ -121,7 +129,7 @@ namespace esl::computation {
 
         ///
         /// \brief  Tries to put an item at the end of the queue, but
-        ///         fails if the queue is locked.
+        ///         fails if the queue is locked or closed.
         ///
         /// \param item
         /// \return bool    'true' if item was put into the queue, false otherwise
@@ -131,7 +139,7 @@ namespace esl::computation {
         {
             {
                 std::unique_lock lock_(mutex_, std::try_to_lock);
-                if(!lock_) {
+                if(!lock_ || closed_) {
                     return false;
                 }
                 queue_.emplace(std::forward<element_t_>(item));
-- 
2.43.0


From c0c4106ac303dc379c1682de44ea61557ef61dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 23/91] fix: thread pool of zero requested threads uses the
 hardware's number

---
 esl/computation/thread_pool.hpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/esl/computation/thread_pool.hpp b/esl/computation/thread_pool.hpp
index c0a4540..7439164 100644
--- a/esl/computation/thread_pool.hpp
+++ b/esl/computation/thread_pool.hpp
@@ -55,6 +55,19 @@ namespace esl::computation {
         ///
         std::atomic<unsigned int> index_ = 0;
 
+        ///
+        /// \brief  The number of threads to use when 'threads' are requested,
+        ///         where zero requests the number the hardware supports
+        ///
+        static unsigned int worker_count(unsigned int threads)
+        {
+            if(0 == threads) {
+                threads = std::thread::hardware_concurrency();
+            }
+            // hardware_concurrency is not guaranteed to work well on any OS
+            return 0 == threads ? 1 : threads;
+        }
+
     public:
         ///
         /// \brief  The workload per thread
@@ -64,17 +77,9 @@ namespace esl::computation {
         const unsigned int threads;
 
         explicit thread_pool(unsigned int threads = std::thread::hardware_concurrency())
-        : queues_(threads)
-        , threads(threads)
+        : queues_(worker_count(threads))
+        , threads(worker_count(threads))
         {
-            if (0 >= threads) {
-                threads = std::thread::hardware_concurrency();
-                // hardware_concurrency is not guaranteed to work well on any OS
-                if (0 >= threads) {
-                    threads = 1;
-                }
-            }
-
             auto worker_ = [this](auto i) {
                 while (true) {
                     std::function<void(void)> function_;
@@ -92,7 +97,7 @@ namespace esl::computation {
                 }
             };
 
-            for (unsigned int i = 0; i < threads; ++i) {
+            for (unsigned int i = 0; i < this->threads; ++i) {
                 threads_.emplace_back(worker_, i);
             }
         }
-- 
2.43.0


From 2159dadf6c9f3974812fba87b3e124961c40f0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 24/91] fix: thread pool runs jobs enqueued by its jobs before
 it shuts down

---
 esl/computation/thread_pool.hpp | 38 ++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/esl/computation/thread_pool.hpp b/esl/computation/thread_pool.hpp
index 7439164..6ac488d 100644
--- a/esl/computation/thread_pool.hpp
+++ b/esl/computation/thread_pool.hpp
@@ -55,6 +55,32 @@ namespace esl::computation {
         ///
         std::atomic<unsigned int> index_ = 0;
 
+        ///
+        /// \brief  The number of jobs enqueued that have not finished yet
+        ///
+        std::size_t unfinished_ = 0;
+
+        ///
+        /// \brief  Guards, and signals changes of, the number of unfinished jobs
+        ///
+        std::mutex mutex_;
+
+        std::condition_variable finished_;
+
+        void started()
+        {
+            std::unique_lock lock_(mutex_);
+            ++unfinished_;
+        }
+
+        void finished()
+        {
+            std::unique_lock lock_(mutex_);
+            if(0 == --unfinished_) {
+                finished_.notify_all();
+            }
+        }
+
         ///
         /// \brief  The number of threads to use when 'threads' are requested,
         ///         where zero requests the number the hardware supports
@@ -94,6 +120,7 @@ namespace esl::computation {
                     }
 
                     function_();
+                    finished();
                 }
             };
 
@@ -103,10 +130,17 @@ namespace esl::computation {
         }
 
         ///
-        /// \brief  Close all queues and wait for existing jobs to terminate.
+        /// \brief  Wait for existing jobs, and the jobs they enqueue, to
+        ///         terminate and close all queues.
         ///
         ~thread_pool()
         {
+            {
+                std::unique_lock lock_(mutex_);
+                while(0 < unfinished_) {
+                    finished_.wait(lock_);
+                }
+            }
             for(auto &queue: queues_) {
                 queue.close();
             }
@@ -133,6 +167,7 @@ namespace esl::computation {
                 std::apply(p, t);
             };
 
+            started();
             auto i = index_++;
 
             for(unsigned int n = 0; n < (unsigned int)(threads * load_factor); ++n){
@@ -169,6 +204,7 @@ namespace esl::computation {
             };
 
             auto result_ = task_->get_future();
+            started();
             unsigned int i = index_++;
 
             for(auto n = 0; n < (unsigned int)(threads * load_factor); ++n){
-- 
2.43.0


From 925acff83c44c63543e3cd7643a2e253f1ad7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 25/91] fix: decrementing a quantity subtracts one and refuses
 to go below zero

---
 esl/quantity.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esl/quantity.hpp b/esl/quantity.hpp
index 6db2e96..d762f7f 100644
--- a/esl/quantity.hpp
+++ b/esl/quantity.hpp
@@ -322,7 +322,7 @@ namespace esl {
 
         quantity& operator -- ()
         {
-            ++amount;
+            (*this) -= quantity(1);
             return *this;
         }
 
@@ -333,7 +333,9 @@ namespace esl {
 
         [[nodiscard]] constexpr quantity operator -- (int)
         {
-            return quantity(amount--);
+            quantity result_ = *this;
+            amount = ((*this) - quantity(1)).amount;
+            return result_;
         }
 
 
-- 
2.43.0


From 6904cca669dc12e25a32f26b8b9a0b3406ad7c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 26/91] fix: arithmetic on prices in different currencies is
 refused in every build

---
 esl/economics/price.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index f254242..2cbdd59 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -160,13 +160,13 @@ namespace esl::economics {
 
         [[nodiscard]] constexpr price operator + (const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value + operand.value, valuation);
         }
 
         constexpr price &operator += (const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value += operand.value;
             return *this;
         }
@@ -178,13 +178,13 @@ namespace esl::economics {
 
         [[nodiscard]] constexpr price operator - (const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value - operand.value, valuation);
         }
 
         constexpr price &operator -= (const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value -= operand.value;
             return *this;
         }
@@ -192,26 +192,26 @@ namespace esl::economics {
 
         [[nodiscard]] constexpr price operator*(const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value * operand.value, valuation);
         }
 
         constexpr price &operator*=(const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value *= operand.value;
             return *this;
         }
 
         [[nodiscard]] constexpr price operator/(const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value / operand.value, valuation);
         }
 
         constexpr price &operator/=(const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value /= operand.value;
             return *this;
         }
-- 
2.43.0


From ae81a586a34ecfd82262dfb36e81f9197feafe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 27/91] fix: quotes with different lot sizes are not ordered by
 greater-or-equal

---
 esl/economics/markets/quote.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index b260df6..408244e 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -232,6 +232,8 @@ namespace esl::economics::markets {
         {
             assert_equal_type_(other);
 
+            assert_equal_lot_(other);
+
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
                 //return (lot * k) >= (std::get<variant_>(other.type) * other.lot );
-- 
2.43.0


From 1ae4161456c0ce7f5a67b924f62b8f7efaf03d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 28/91] fix: exchange rates convert negative prices

---
 esl/economics/exchange_rate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 45fadca..8bb7c79 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -141,7 +141,7 @@ namespace esl::economics {
         /// \return
         constexpr price operator * (const price &p) const
         {
-            return price(static_cast<int64_t>((p.value * numerator()) / denominator()), p.valuation);
+            return price((p.value * static_cast<int64_t>(numerator())) / static_cast<int64_t>(denominator()), p.valuation);
         }
 
 
-- 
2.43.0


From 0c7ed7faa9b8acf0cca9dd5bce9143a6c097ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 29/91] fix: comparing quotes does not overflow for large lots

---
 esl/economics/markets/quote.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index 408244e..df3bd16 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -159,7 +159,7 @@ namespace esl::economics::markets {
                 using variant_ = std::decay_t<decltype(k)>;
 
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) == ( (*vp) * other.lot );
+                    return k == *vp;
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
@@ -174,7 +174,7 @@ namespace esl::economics::markets {
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) != ((*vp) * other.lot );
+                    return k != *vp;
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
@@ -190,7 +190,7 @@ namespace esl::economics::markets {
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) < ((*vp) * other.lot );
+                    return k < *vp;
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
@@ -204,9 +204,8 @@ namespace esl::economics::markets {
 
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
-                //return (lot * k) > (std::get<variant_>(other.type) * other.lot );
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) > ((*vp) * other.lot );
+                    return k > *vp;
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
@@ -220,9 +219,8 @@ namespace esl::economics::markets {
 
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
-                //return (lot * k) <= (std::get<variant_>(other.type) * other.lot );
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) <= ((*vp) * other.lot );
+                    return k <= *vp;
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
@@ -236,9 +234,8 @@ namespace esl::economics::markets {
 
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
-                //return (lot * k) >= (std::get<variant_>(other.type) * other.lot );
                 if(auto *vp = std::get_if<variant_>(&other.type)  ){
-                    return (lot * k) >= ((*vp) * other.lot );
+                    return k >= *vp;
                 }
                 throw esl::exception("quote variants do not match");
             }, type);
-- 
2.43.0


From cefec2521a937a6b9c255aa8d25c8f7e34cdc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 30/91] fix: ordering of currency codes agrees with their
 equality

---
 esl/economics/iso_4217.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/iso_4217.hpp b/esl/economics/iso_4217.hpp
index 4bbfa0f..a845ea6 100644
--- a/esl/economics/iso_4217.hpp
+++ b/esl/economics/iso_4217.hpp
@@ -121,7 +121,7 @@ namespace esl::economics {
                 }
             }
 
-            return false;
+            return denominator < operand.denominator;
         }
 
         [[nodiscard]] explicit operator std::string() const
-- 
2.43.0


From ce7fbd5df49e31d3edbfddf5bb06d321434fe717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 31/91] fix: exchange records the positions of every
 participant that logs on

---
 esl/economics/markets/centralized_exchange.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index cce9d96..b0dc8fc 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -224,14 +224,12 @@ namespace esl::economics::markets {
         {
             (void) s;
             for(const auto &t: traded_properties){
-                boost::container::flat_map<identity<agent>, position_report> individual_positions_;
                 position_report position_;
 
                 if(m->supply.find(t) != m->supply.end()){
                     position_.supply = m->supply.find(t)->second;
                 }
-                individual_positions_.emplace(m->sender, position_);
-                positions.emplace(t, individual_positions_);
+                positions[t][m->sender] = position_;
             }
             return ti.upper;
         }
-- 
2.43.0


From 1c14be6e53dda097e0f14149dbba28e13de0b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 32/91] fix: logging out of the exchange cancels the
 participant's data subscriptions

---
 esl/economics/markets/centralized_exchange.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index b0dc8fc..4a8cf27 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -271,6 +271,9 @@ namespace esl::economics::markets {
                     positions.erase(positions_);
                 }
             }
+            for(auto &[symbol_, subscribers_]: market_data_subscriptions) {
+                subscribers_.erase(m->sender);
+            }
             return ti.upper;
         }
 
-- 
2.43.0


From d83818ab9b5e127f26ba02be10a0f54919f11e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 33/91] fix: execution reports travel with the latency of their
 recipient

---
 esl/economics/markets/centralized_exchange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 4a8cf27..8f1a4bf 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -366,7 +366,7 @@ namespace esl::economics::markets {
                 {
                     simulation::time_point arrival_ = ti.lower;
                     if(communication_model) {
-                        arrival_ += communication_model->sample(identifier, m->sender, seed);
+                        arrival_ += communication_model->sample(identifier, r.owner, seed);
                     }
                     auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
                     response_->sender = (*this);
-- 
2.43.0


From 268316b04539748dfb7a75fa469ce3153a3ab16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 34/91] fix: market data of the exchange shows every trade
 exactly once

---
 esl/economics/markets/centralized_exchange.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 8f1a4bf..1029f1e 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -379,10 +379,11 @@ namespace esl::economics::markets {
                     continue;
                 }
                 // if the order resulted in a match, update market data feed (once, as there will be two reports)
-                auto trade_ = (r.state == execution_report::state_t::match);
+                auto match_ = (r.state == execution_report::state_t::match);
+                auto trade_ = match_ && r.identifier == order_book::basic_book::direct_order;
                 // or if the bed bid or ask improved
                 auto best_bid_ask_ = (ask_ != b.ask() || bid_ != b.bid());
-                if((trade_ && r.owner == m->sender) || best_bid_ask_){
+                if(match_ ? trade_ : best_bid_ask_){
                     for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {
 
                         if(details_.start + details_.periodicity > ti.lower) {
-- 
2.43.0


From 52266e5a3556fcf1afc8fb83a46d95efa9ff6d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 35/91] fix: exchange accepts the first stream subscription on
 an instrument

---
 esl/economics/markets/centralized_exchange.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 1029f1e..be441ad 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -495,11 +495,6 @@ namespace esl::economics::markets {
                             auto subscription_ = market_data_subscriptions[i].find(m->sender);
                             market_data_subscriptions[i].erase(subscription_);
                         }else if(market_data_request_message::stream == m->type) {
-                            auto instrument_ = market_data_subscriptions.find(i);
-                            if(market_data_subscriptions.end() == instrument_) {
-                                continue;
-                            }
-                        
                             auto subscription_ = market_data_subscriptions[i].find(m->sender);
 
                               centralized_exchange::data_subscription s;
-- 
2.43.0


From d477fc8d0968f83befe023c2d4725e8cfcdf3daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 36/91] fix: cancelling market data without a subscription is a
 no-op

---
 esl/economics/markets/centralized_exchange.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index be441ad..f3ed04b 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -492,8 +492,7 @@ namespace esl::economics::markets {
                             if(market_data_subscriptions.end() == instrument_) {
                                 continue;
                             }
-                            auto subscription_ = market_data_subscriptions[i].find(m->sender);
-                            market_data_subscriptions[i].erase(subscription_);
+                            market_data_subscriptions[i].erase(m->sender);
                         }else if(market_data_request_message::stream == m->type) {
                             auto subscription_ = market_data_subscriptions[i].find(m->sender);
 
-- 
2.43.0


From 1ac27b031a3033c278b50f22d8041d776b0fdac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 37/91] fix: a snapshot request is answered with the market
 data once

---
 .../markets/centralized_exchange.hpp          | 70 +++++++++----------
 1 file changed, 32 insertions(+), 38 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index f3ed04b..67f49f1 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -277,6 +277,34 @@ namespace esl::economics::markets {
             return ti.upper;
         }
 
+        ///
+        /// \brief  Sends the current best bid and ask of a book to a data subscriber.
+        ///
+        std::shared_ptr<market_data_message> send_market_data( const ticker &symbol
+                                                             , const order_book::basic_book &b
+                                                             , const identity<agent> &subscriber
+                                                             , simulation::time_interval ti
+                                                             , std::seed_seq &seed
+                                                             )
+        {
+            simulation::time_point arrival_ = ti.lower;
+            if(communication_model) {
+                arrival_ += communication_model->sample(identifier, subscriber, seed);
+            }
+            auto market_data_ = this->template create_message<market_data_message>(subscriber, arrival_);
+            market_data_->sender = (*this);
+            market_data_->sent   = ti.lower;
+            market_data_->symbol = symbol;
+
+            if(b.ask().has_value()) {
+                market_data_->ask.push_back({b.ask().value(), 1});
+            }
+            if(b.bid().has_value()) {
+                market_data_->bid.push_back({b.bid().value(), 1});
+            }
+            return market_data_;
+        }
+
         ///
         /// \brief  Handles a single order, and sends the reports that it generates.
         ///
@@ -395,27 +423,11 @@ namespace esl::economics::markets {
                         details_.start = ti.lower;
 
 
-                        simulation::time_point arrival_ = ti.lower;
-                        if(communication_model) {
-
-                            arrival_ += communication_model->sample(
-                                identifier, subscriber_, seed);
-                        }
-                        auto market_data_ = this->template create_message<market_data_message>(subscriber_, arrival_);
-                        market_data_->sender = (*this);
-                        market_data_->sent   = ti.lower;
-                        market_data_->symbol = m->order_details.symbol;
+                        auto market_data_ = send_market_data(m->order_details.symbol, b, subscriber_, ti, seed);
 
                         if(trade_) {
                             market_data_->trades.push_back({r.limit, r.quantity});
                         }
-                        
-                        if(b.ask().has_value()) {
-                            market_data_->ask.push_back({b.ask().value(), 1});
-                        }
-                        if(b.bid().has_value()) {
-                            market_data_->bid.push_back({b.bid().value(), 1});
-                        }
                     }
                 }
             }
@@ -462,31 +474,13 @@ namespace esl::economics::markets {
                                    , [&]( std::shared_ptr<market_data_request_message> m
                                         , simulation::time_interval ti
                                         , std::seed_seq &s){
-                    (void)s;
-
-
-
                     for(const auto &i: m->instruments){
                         if(market_data_request_message::snapshot == m->type){
                             
-                            // periodicity is set to max
-                      
-                            auto subscription_ =
-                                market_data_subscriptions[i].find(m->sender);
-
-                            centralized_exchange::data_subscription s;
-                            s.depth       = m->depth;
-                            s.start       = ti.lower;
-                            s.periodicity = std::numeric_limits<simulation::time_point>::max();
-
-                            if(market_data_subscriptions[i].end()
-                               == subscription_) {
-                                market_data_subscriptions[i].insert(
-                                    {m->sender, s});
-                            } else {
-                                subscription_->second = s;
+                            auto book_ = books.find(i);
+                            if(books.end() != book_) {
+                                send_market_data(i, *(book_->second), m->sender, ti, s);
                             }
-                               
                         }else if(market_data_request_message::cancel == m->type) {
                             auto instrument_ = market_data_subscriptions.find(i);
                             if(market_data_subscriptions.end() == instrument_) {
-- 
2.43.0


From ea21fdf5950a5f6a29061c7b8aa2e399781d6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 38/91] fix: cancellations requested by message are reported to
 the owner and to data subscribers

---
 .../markets/centralized_exchange.hpp          | 50 +++++++++++++++----
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 67f49f1..cb964fb 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -334,8 +334,27 @@ namespace esl::economics::markets {
 
             b.insert(m->order_details);
 
-            market_data data_;
+            return send_reports(m->order_details, m->sender, b, ask_, bid_, ti, seed);
+        }
 
+        ///
+        /// \brief  Sends the reports in the order book to the owners of the orders they concern, and updates the data
+        ///         subscribers.
+        ///
+        /// \param order    The order that generated the reports
+        /// \param sender   The participant who sent the request
+        /// \param b        The order book
+        /// \param ask_     Best ask before the request was handled
+        /// \param bid_     Best bid before the request was handled
+        simulation::time_point send_reports( const limit_order &order
+                                           , const identity<agent> &sender
+                                           , order_book::basic_book &b
+                                           , const std::optional<quote> &ask_
+                                           , const std::optional<quote> &bid_
+                                           , simulation::time_interval ti
+                                           , std::seed_seq &seed
+                                           )
+        {
             for(const auto & r: b.reports){
                 //////////////////////////////////////////////////////////////////////////////////////////////////////
                 //if(r.owner == m->sender) {
@@ -378,10 +397,10 @@ namespace esl::economics::markets {
 
                 // we do not log rejected messages, so that later analyses do not accidently use these
                 // invalid orders should not be part of the simulation
-                if(output_orders && r.state != execution_report::state_t::invalid && r.owner == m->sender) {
+                if(output_orders && r.state != execution_report::state_t::invalid && r.owner == sender) {
                     output_orders->put( ti.lower
                                       , std::make_tuple
-                                        ( m->order_details.symbol
+                                        ( order.symbol
                                         , r.limit
                                         , r.owner
                                         , r.side
@@ -398,12 +417,12 @@ namespace esl::economics::markets {
                     }
                     auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
                     response_->sender = (*this);
-                    response_->order  = m->order_details;
+                    response_->order  = order;
                     response_->sent   = ti.lower;
                     response_->report = r;
                 }
                 // if no one wants market data on this symbol, skip the next steps.
-                if(market_data_subscriptions.end() == market_data_subscriptions.find(m->order_details.symbol)) {
+                if(market_data_subscriptions.end() == market_data_subscriptions.find(order.symbol)) {
                     continue;
                 }
                 // if the order resulted in a match, update market data feed (once, as there will be two reports)
@@ -412,7 +431,7 @@ namespace esl::economics::markets {
                 // or if the bed bid or ask improved
                 auto best_bid_ask_ = (ask_ != b.ask() || bid_ != b.bid());
                 if(match_ ? trade_ : best_bid_ask_){
-                    for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {
+                    for(auto &[subscriber_, details_]: market_data_subscriptions[order.symbol]) {
 
                         if(details_.start + details_.periodicity > ti.lower) {
                             continue;
@@ -423,7 +442,7 @@ namespace esl::economics::markets {
                         details_.start = ti.lower;
 
 
-                        auto market_data_ = send_market_data(m->order_details.symbol, b, subscriber_, ti, seed);
+                        auto market_data_ = send_market_data(order.symbol, b, subscriber_, ti, seed);
 
                         if(trade_) {
                             market_data_->trades.push_back({r.limit, r.quantity});
@@ -533,8 +552,21 @@ namespace esl::economics::markets {
                                       , simulation::time_interval step
                                       , std::seed_seq &s) 
                                     { 
-                                        cancel(m->symbol, m->order); 
-                                        return step.upper;
+                                        auto i = books.find(m->symbol);
+                                        if(books.end() == i) {
+                                            return step.upper;
+                                        }
+                                        order_book::basic_book &b = *(i->second);
+                                        const auto ask_ = b.ask();
+                                        const auto bid_ = b.bid();
+                                        b.cancel(m->order);
+
+                                        limit_order order_(m->symbol);
+                                        if(!b.reports.empty()) {
+                                            const auto &r = b.reports.back();
+                                            order_ = limit_order(m->symbol, r.owner, r.side, r.limit, r.quantity);
+                                        }
+                                        return send_reports(order_, m->sender, b, ask_, bid_, step, s);
                                     }
                                  , "cancel existing order");
         }
-- 
2.43.0


From ced7cfa4e96f447f9dc6312538eaa88f9bbfcce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 39/91] fix: data subscriptions of depth zero receive trades
 only

---
 esl/economics/markets/centralized_exchange.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index cb964fb..5801b29 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -283,6 +283,7 @@ namespace esl::economics::markets {
         std::shared_ptr<market_data_message> send_market_data( const ticker &symbol
                                                              , const order_book::basic_book &b
                                                              , const identity<agent> &subscriber
+                                                             , std::uint8_t depth
                                                              , simulation::time_interval ti
                                                              , std::seed_seq &seed
                                                              )
@@ -296,10 +297,10 @@ namespace esl::economics::markets {
             market_data_->sent   = ti.lower;
             market_data_->symbol = symbol;
 
-            if(b.ask().has_value()) {
+            if(0 < depth && b.ask().has_value()) {
                 market_data_->ask.push_back({b.ask().value(), 1});
             }
-            if(b.bid().has_value()) {
+            if(0 < depth && b.bid().has_value()) {
                 market_data_->bid.push_back({b.bid().value(), 1});
             }
             return market_data_;
@@ -437,12 +438,17 @@ namespace esl::economics::markets {
                             continue;
                         }
 
+                        // subscribers without interest in the limit levels only receive trades
+                        if(0 == details_.depth && !trade_) {
+                            continue;
+                        }
+
                         // change the start of the next data subscription fulfillment, so that we dont overload them
                         // 
                         details_.start = ti.lower;
 
 
-                        auto market_data_ = send_market_data(order.symbol, b, subscriber_, ti, seed);
+                        auto market_data_ = send_market_data(order.symbol, b, subscriber_, details_.depth, ti, seed);
 
                         if(trade_) {
                             market_data_->trades.push_back({r.limit, r.quantity});
@@ -498,7 +504,7 @@ namespace esl::economics::markets {
                             
                             auto book_ = books.find(i);
                             if(books.end() != book_) {
-                                send_market_data(i, *(book_->second), m->sender, ti, s);
+                                send_market_data(i, *(book_->second), m->sender, m->depth, ti, s);
                             }
                         }else if(market_data_request_message::cancel == m->type) {
                             auto instrument_ = market_data_subscriptions.find(i);
-- 
2.43.0


From 5c5a54171d7434dc0f0d603bc773befff5947b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 40/91] fix: a company waiting to pay dividends does not ask to
 be activated in the past

---
 esl/economics/company.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 6206c0f..550cd46 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -177,7 +177,7 @@ namespace esl::economics {
             }
         } else {
             next_event_ = std::min<simulation::time_point>(
-                policy_.announcement_date, next_event_);
+                policy_.payable_date, next_event_);
         }
         return next_event_;
     }
-- 
2.43.0


From f345fd92cf71234416a9dcd23ed41af8254b70ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 41/91] fix: dividends announced at the start of the simulation
 are announced

---
 esl/economics/company.cpp | 2 --
 esl/economics/company.hpp | 6 ++++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 550cd46..555fbb5 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -94,8 +94,6 @@ namespace esl::economics {
     , shareholder(i)
     , identifiable_as<company>()
     , balance_sheet(*this)
-    , last_announced_(0)
-    , last_payment_(0)
     {}
 
 
diff --git a/esl/economics/company.hpp b/esl/economics/company.hpp
index d179887..022c0a6 100644
--- a/esl/economics/company.hpp
+++ b/esl/economics/company.hpp
@@ -38,6 +38,8 @@
 #include <boost/serialization/unordered_map.hpp>
 #endif
 
+#include <optional>
+
 #include <boost/serialization/base_object.hpp>
 #include <boost/serialization/nvp.hpp>
 
@@ -98,9 +100,9 @@ namespace esl::economics {
         compute_dividend_per_share(const price &unappropriated_profit);
 
     protected:
-        simulation::time_point last_announced_;
+        std::optional<simulation::time_point> last_announced_;
 
-        simulation::time_point last_payment_;
+        std::optional<simulation::time_point> last_payment_;
 
         friend class boost::serialization::access;
 
-- 
2.43.0


From 6130b350d3c18a868dd81f9b79bd5fcebf57e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 42/91] fix: dividends per share do not exceed the profit of
 the company

---
 esl/economics/company.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 555fbb5..e8510d9 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -67,12 +67,17 @@ namespace esl::economics {
 
         std::map<finance::share_class, std::tuple<std::uint64_t, price>> result_;
 
-        double fraction_ = double(unappropriated_profit) / total_shares();
+        const auto shares_ = total_shares();
+        if(0 == shares_) {
+            return {};
+        }
+
+        const auto per_share_ = std::uint64_t(unappropriated_profit.value) / shares_;
 
         for(const auto &[s, q]: shares_outstanding) {
             if(s.dividend) {
                 result_.insert(make_pair(
-                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_ * q))));
+                    s, std::make_tuple(q, price(std::int64_t(per_share_), unappropriated_profit.valuation))));
             }
         }
 
-- 
2.43.0


From f034b3163b6960a3febbfe72c67e0259abc024a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 43/91] fix: shareholders submit one record per ex-dividend
 date

---
 esl/economics/finance/shareholder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 89168ad..9081424 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -86,15 +86,17 @@ namespace esl::economics::finance {
     simulation::time_point
     shareholder::submit_dividend_record(simulation::time_interval interval)
     {
-        for(auto i = ex_dividend_dates.begin(); i != ex_dividend_dates.end();
-            ++i) {
+        for(auto i = ex_dividend_dates.begin(); i != ex_dividend_dates.end();) {
             const auto &[s, c] = *i;
             if(interval.lower <= s && interval.upper >= s) {  // reply ASAP
                 if(shares.find(c) != shares.end()) {
                     auto record_ = this->create_message<dividend_record>(
                         c, 0, this->identifier, c, shares[c]);
+                    i = ex_dividend_dates.erase(i);
+                    continue;
                 }
             }
+            ++i;
         }
         return interval.upper;
     }
-- 
2.43.0


From 9e876c14bc2c9149782205bb659f86239b80b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 44/91] fix: the NSIN of an ISIN given in full starts after the
 country code

---
 esl/economics/finance/isin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index 003f584..413f8cb 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -71,7 +71,7 @@ namespace esl::economics::finance {
                   //: throw esl::exception("ISO 3166-1 alpha-2 country code needs to be two characters")
 
                 )
-        , code(esl::array_slice<0, 9>(code))
+        , code(esl::array_slice<2, 11>(code))
         {
 
         }
-- 
2.43.0


From b993ea40578468a412a4d26bdc58c3a32a357883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 45/91] fix: an ISIN checks the length of the code it is given
 before using it

---
 esl/economics/finance/isin.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index 413f8cb..298f275 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -83,11 +83,11 @@ namespace esl::economics::finance {
         /// \param code     The code part describing a security as a string with
         ///                 the code symbols in positions 0-8
         isin(geography::iso_3166_1_alpha_2 issuer, const std::string &nsin_code)
-        : isin(issuer, esl::to_array<0, 9, char>(nsin_code))
+        : isin(issuer, (9 == nsin_code.size() || 10 == nsin_code.size())
+                ? esl::to_array<0, 9, char>(nsin_code)
+                : throw esl::exception("A valid ISIN has 9 symbols in the NSIN part, or 9 symbols plus the ISIN checksum."))
         {
-            if((9 > code.size()) || (10 < code.size())){
-                throw esl::exception("A valid ISIN has 9 symbols in the NSIN part, or 9 symbols plus the ISIN checksum.");
-            }
+
         }
 
         ///
@@ -109,11 +109,11 @@ namespace esl::economics::finance {
         ///
         /// \param code     The code part describing a security
         explicit isin(const std::string &code = "AA000000000")
-        : isin(esl::to_array<0, 11, char>(code))
+        : isin((11 == code.size() || 12 == code.size())
+                ? esl::to_array<0, 11, char>(code)
+                : throw esl::exception("A valid ISIN is constructed from 11 or 12 symbols."))
         {
-            if(!(11 == code.size() || 12 == code.size())){
-                throw esl::exception("A valid ISIN is constructed from 11 or 12 symbols.");
-            }
+
         }
 
         ///
-- 
2.43.0


From da639ca572dfae319aae1a2619a2476befe50b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 46/91] fix: foreign currency is valued in the reporting
 currency

---
 esl/economics/accounting/standard.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index 1acc00c..c9035c7 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -68,22 +68,29 @@ namespace esl::economics::accounting {
 
         explicit standard(iso_4217 reporting_currency);
 
-        [[nodiscard]] price value(const money &m, const quantity &q) const
+        ///
+        /// \brief  Expresses a value in the reporting currency.
+        ///
+        [[nodiscard]] price convert(const price &foreign) const
         {
-            auto foreign_ = price(int64_t(q.amount), m.denomination);
-            if(m.denomination == reporting_currency)
+            if(foreign.valuation == reporting_currency)
             {
-                return foreign_;
+                return foreign;
             }
-            auto i = foreign_currencies.find(m.denomination);
+            auto i = foreign_currencies.find(foreign.valuation);
             if(i == foreign_currencies.end()){
                 std::stringstream message_;
                 message_ << "no exchange rate provided converting ";
-                message_ << m.denomination << " to " << reporting_currency;
+                message_ << foreign.valuation << " to " << reporting_currency;
                 LOG(errorlog) << message_.str() << std::endl;
                 throw std::domain_error(message_.str().c_str());
             }
-            return i->second * foreign_;
+            return price((i->second * foreign).value, reporting_currency);
+        }
+
+        [[nodiscard]] price value(const money &m, const quantity &q) const
+        {
+            return convert(price(int64_t(q.amount), m.denomination));
         }
 
         [[nodiscard]] price value(const esl::economics::cash &c, const quantity &q) const
-- 
2.43.0


From 5bf7fba460051f1a53e235b302fe26b29f1bd810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 47/91] fix: negative prices are marked to market

---
 esl/economics/accounting/standard.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index c9035c7..fe296fc 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -106,8 +106,8 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
 
-            int64_t value_ = (std::get<price>(i->second.type).value * q.amount)
-                / (i->second.lot);
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(q.amount))
+                / int64_t(i->second.lot);
 
             return price(value_, std::get<price>(i->second.type).valuation);
         }
@@ -127,8 +127,8 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
             // TODO: use foreign_currencies if valuation is in different currency
-            int64_t value_ = (std::get<price>(i->second.type).value * c.size.amount * q.amount)
-                             / (i->second.lot);
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(c.size.amount) * int64_t(q.amount))
+                             / int64_t(i->second.lot);
             result_.value -= value_;
             //LOG(trace) << "value of " << q << " short contracts = " << result_ << std::endl;
             return result_;
-- 
2.43.0


From bb16dadefc3234a77a8da4417fb7a115ee1fa579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 48/91] fix: securities quoted in a foreign currency are valued
 in the reporting currency

---
 esl/economics/accounting/standard.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index fe296fc..9ac87be 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -109,7 +109,7 @@ namespace esl::economics::accounting {
             int64_t value_ = (std::get<price>(i->second.type).value * int64_t(q.amount))
                 / int64_t(i->second.lot);
 
-            return price(value_, std::get<price>(i->second.type).valuation);
+            return convert(price(value_, std::get<price>(i->second.type).valuation));
         }
 
         [[nodiscard]] price value(const finance::loan &l, const quantity &q) const
@@ -126,10 +126,9 @@ namespace esl::economics::accounting {
                 LOG(errorlog) << "no market price for stock " << c.security << std::endl;
                 throw std::logic_error("no market price");
             }
-            // TODO: use foreign_currencies if valuation is in different currency
             int64_t value_ = (std::get<price>(i->second.type).value * int64_t(c.size.amount) * int64_t(q.amount))
                              / int64_t(i->second.lot);
-            result_.value -= value_;
+            result_ -= convert(price(value_, std::get<price>(i->second.type).valuation));
             //LOG(trace) << "value of " << q << " short contracts = " << result_ << std::endl;
             return result_;
         }
-- 
2.43.0


From 70c7a0ff9f30aa0a92e3bebb79e436bfaff46693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 49/91] fix: creating an output under an existing name returns
 the existing output

---
 esl/data/producer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/esl/data/producer.hpp b/esl/data/producer.hpp
index 857be89..17da129 100644
--- a/esl/data/producer.hpp
+++ b/esl/data/producer.hpp
@@ -60,6 +60,14 @@ namespace esl::data {
         std::shared_ptr<output<variable_types_...>>
         create_output(const std::string &name)
         {
+            auto i = outputs.find(name);
+            if(outputs.end() != i){
+                auto existing_ = std::dynamic_pointer_cast<output<variable_types_...>>(i->second);
+                if(!existing_){
+                    throw std::invalid_argument("output \"" + name + "\" was created with other variables");
+                }
+                return existing_;
+            }
             auto output_ = std::make_shared<output<variable_types_...>>(name);
             outputs.insert(
                 {name, std::static_pointer_cast<output_base>(output_)});
-- 
2.43.0


From a64866482a40ff598cb41e837d66e5d92c508888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 50/91] fix: output files can be created without a prefix
 directory

---
 esl/data/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/file.cpp b/esl/data/file.cpp
index 061d5f7..0db2617 100644
--- a/esl/data/file.cpp
+++ b/esl/data/file.cpp
@@ -9,7 +9,7 @@ namespace esl::data {
 
     file::file(const std::filesystem::path &name, const std::filesystem::path &prefix)
     : stream(file_)
-    , file_((std::filesystem::create_directories(prefix), prefix / name ))
+    , file_((prefix.empty() || std::filesystem::create_directories(prefix), prefix / name ))
     {
         if(!file_.good()){
             std::stringstream message_;
-- 
2.43.0


From 607876f89e86fb1518c5ae9d228f02738ebc06df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 51/91] fix: ending a log message with the channel manipulator
 does not lock its mutex twice

---
 esl/data/channel.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/esl/data/channel.hpp b/esl/data/channel.hpp
index da4da6d..c046c9a 100644
--- a/esl/data/channel.hpp
+++ b/esl/data/channel.hpp
@@ -121,7 +121,7 @@ namespace esl::data {
         /// \return
         channel &operator<<(manipulator function)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
+            // the manipulator locks when it writes
             return function(*this);
         }
 
@@ -131,11 +131,8 @@ namespace esl::data {
         /// \return
         static channel &endl(channel &stream)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
-            stream << std::endl;
-#if !(defined(ESL_RELEASE) && ESL_RELEASE > 0)
-            std::cout << std::endl;
-#endif
+            // writes to, and locks, all streams of the channel
+            stream << line_end_t(std::endl);
             return stream;
         }
 
-- 
2.43.0


From 56a846988b534ee904be6019426190aa755f6080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 52/91] fix: the uniform random sampler compiles and returns
 its samples

---
 esl/simulation/parameter/sampler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index 45d2682..21c2c76 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -62,7 +62,7 @@ namespace esl::simulation::parameter {
             for(const auto &p: parameters){
                 // the upper bound is exclusive in the distribution, so we move
                 // the bound up
-                distributions_.template emplace(p, std::uniform_real_distribution<number_t_>
+                distributions_.emplace(p, std::uniform_real_distribution<number_t_>
                     ( p->lower
                     , std::nextafter(p->upper, std::numeric_limits<number_t_>::infinity())));
             }
@@ -73,9 +73,9 @@ namespace esl::simulation::parameter {
                 std::map<std::shared_ptr<parameter::interval<number_t_>>,
                          number_t_> sample_;
                 for(const auto &p: parameters) {
-                    sample_[p] = distributions_[p].get()(generator_);
+                    sample_[p] = distributions_[p](generator_);
                 }
-                result_.template emplace(sample_);
+                result_.emplace_back(sample_);
             }
 
             return result_;
-- 
2.43.0


From e9478efef45bc56579e11f3a870b9d7973a09513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 53/91] fix: sampled grids include the bounds of the interval
 exactly and may have a single point

---
 esl/simulation/parameter/sampler.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index 21c2c76..ab0d33c 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -81,6 +81,23 @@ namespace esl::simulation::parameter {
             return result_;
         }
 
+        ///
+        /// \brief  The n-th of a number of equally spaced points in an interval.
+        ///         The first and last point are the bounds of the interval, a
+        ///         single point is the lower bound.
+        ///
+        template<typename number_t_>
+        number_t_ grid_point(const parameter::interval<number_t_> &p, unsigned int n, unsigned int points)
+        {
+            if(0 == n){
+                return p.lower;
+            }
+            if(points - 1 == n){
+                return p.upper;
+            }
+            return p.lower + (p.upper - p.lower) / (points - 1) * n;
+        }
+
         ///
         /// \brief  Samples the parameter space in a grid
         ///
@@ -101,7 +118,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(d);
                 indices_.emplace(p, 0);
                 for(unsigned int s = 0; s < d; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / (d - 1) * s;
+                    auto v = grid_point(*p, s, d);
                     values_[p].emplace_back(v);
                 }
             }
@@ -146,7 +163,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(density);
                 indices_[p].reserve(density);
                 for(unsigned int s = 0; s < density; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / (density - 1) * s;
+                    auto v = grid_point(*p, s, density);
                     auto i = values_[p]. emplace_back(v);
                     indices_[p]. emplace_back(s);
                 }
-- 
2.43.0


From 1f3879e5f53979a1cd7b06c932ec6e29d7827d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 54/91] fix: impact markets read the side and the quantity of
 an order from the right fields

---
 esl/economics/markets/impact_function/market.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index b5e9559..93c2ec8 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -163,10 +163,10 @@ namespace esl::economics::markets::impact_function {
                 volumes_.emplace(p, 0.);
 
 
-                if(order_message::buy == i.first ){
-                    volumes_[p] += double(i.second);
-                }else if(order_message::sell == i.first ){
-                    volumes_[p] -= double(i.second);
+                if(order_message::buy == i.second ){
+                    volumes_[p] += double(i.first);
+                }else if(order_message::sell == i.second ){
+                    volumes_[p] -= double(i.first);
                 }
             }
         }
-- 
2.43.0


From c218cd4636711fdc6b67e400c340374518b1be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 55/91] fix: orders for properties that an impact market does
 not trade are ignored

---
 esl/economics/markets/impact_function/market.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index 93c2ec8..5131a28 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -173,7 +173,11 @@ namespace esl::economics::markets::impact_function {
 
         std::map<identity<law::property>, double> impacts_;
         for(const auto &[p, v]: volumes_){
-            auto old_ = double(traded_properties[p]);
+            auto quote_ = traded_properties.find(p);
+            if(traded_properties.end() == quote_){
+                continue;   // not traded in this market
+            }
+            auto old_ = double(quote_->second);
             impacts_.emplace(p->identifier, (old_ + impact_function(v)) / old_  );
         }
 
-- 
2.43.0


From b756734d369c53a8a6b194de1caa85335a95c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 56/91] fix: text with line breaks is quoted in delimited
 records

---
 esl/data/format/delimiter_separated_values.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/data/format/delimiter_separated_values.hpp b/esl/data/format/delimiter_separated_values.hpp
index fce8edd..d5a5cc7 100644
--- a/esl/data/format/delimiter_separated_values.hpp
+++ b/esl/data/format/delimiter_separated_values.hpp
@@ -52,6 +52,8 @@ namespace esl::data::format::delimiter_separated_values {
             quote_ = true;
         } else if(text.find(escape) != std::string::npos) {
             quote_ = true;
+        } else if(text.find_first_of("\r\n") != std::string::npos) {
+            quote_ = true;  // the text must not end the record
         }
 
         std::stringstream stream_;
-- 
2.43.0


From b5210a84146ad5055e5e02c41b1139f0efd29db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 57/91] fix: strings in delimited records are escaped, and the
 header can be included more than once

---
 .../format/delimiter_separated_values.hpp     | 46 ++++++++-----------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/esl/data/format/delimiter_separated_values.hpp b/esl/data/format/delimiter_separated_values.hpp
index d5a5cc7..76b5968 100644
--- a/esl/data/format/delimiter_separated_values.hpp
+++ b/esl/data/format/delimiter_separated_values.hpp
@@ -27,7 +27,9 @@
 
 #include <ostream>
 #include <sstream>
+#include <string>
 #include <tuple>
+#include <type_traits>
 #include <vector>
 
 
@@ -41,7 +43,7 @@ namespace esl::data::format::delimiter_separated_values {
     /// \param quote
     /// \param escape
     /// \return
-    std::string render( const std::string &text
+    inline std::string render( const std::string &text
                       , const char delimiter = ','
                       , const char quote = '"'
                       , const char escape = '\\'
@@ -75,42 +77,30 @@ namespace esl::data::format::delimiter_separated_values {
     }
 
 
-    template<typename element_t_>
-    void extract_element(std::ostream &s, element_t_ v)
-    {
-        s << v;
-    }
-
     ///
-    /// \brief  Specialization for strings, which must be escaped.
+    /// \brief  Writes one element, strings must be escaped.
     ///
     /// \param s
     /// \param v
-    template<>
-    void extract_element(std::ostream &s, const std::string &v)
-    {
-        s << render(v);
-    }
-
-
-    template<typename... elements_t_>
-    static void extract_element( std::ostream &s
-                               , std::string &&first
-                               , elements_t_ &&... rest)
+    template<typename element_t_>
+    void extract_element(std::ostream &s, const element_t_ &v)
     {
-        char delimiter_ = ',';
-        s << render(first) << delimiter_;
-        extract_element(s, std::forward<elements_t_>(rest)...);
+        if constexpr(std::is_convertible_v<const element_t_ &, std::string>) {
+            s << render(v);
+        } else {
+            s << v;
+        }
     }
 
     template<typename element_t_, typename... elements_t_>
-    static void extract_element(std::ostream &s
-                               , element_t_ &&first
-                               , elements_t_ &&... rest)
+    void extract_element( std::ostream &s
+                        , const element_t_ &first
+                        , const elements_t_ &... rest)
     {
         char delimiter_ = ',';
-        s << first << delimiter_;
-        extract_element(s, std::forward<elements_t_>(rest)...);
+        delimiter_separated_values::extract_element(s, first);
+        s << delimiter_;
+        delimiter_separated_values::extract_element(s, rest...);
     }
 
     ///
@@ -123,7 +113,7 @@ namespace esl::data::format::delimiter_separated_values {
                     const std::tuple<element_t_...> &tuple)
     {
         auto print_ = [&](auto... elements_) {
-            return extract_element(stream, elements_...);
+            return delimiter_separated_values::extract_element(stream, elements_...);
         };
         std::apply(print_, tuple);
         stream << std::endl;
-- 
2.43.0


From cecc75a2078dbec5181b62c31417a95cf72f4823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 58/91] fix: printing a queue lists all its elements

---
 esl/data/representation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/representation.hpp b/esl/data/representation.hpp
index d6b0173..1ef1eb0 100644
--- a/esl/data/representation.hpp
+++ b/esl/data/representation.hpp
@@ -237,7 +237,7 @@ namespace std {
         if(!queue.empty()){
             stream << queue.front();
             queue.pop();
-            for(size_t c = 0; c < queue.size(); ++c){
+            while(!queue.empty()){
                 stream << ", " << queue.front();
                 queue.pop();
             }
-- 
2.43.0


From 1529bc11a01cca0dae7733bd221efcd37c3a6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 59/91] fix: sets and lists can be printed

---
 esl/data/representation.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/esl/data/representation.hpp b/esl/data/representation.hpp
index 1ef1eb0..b909013 100644
--- a/esl/data/representation.hpp
+++ b/esl/data/representation.hpp
@@ -38,6 +38,8 @@
 #include <queue>
 #include <list>
 #include <forward_list>
+#include <array>
+#include <iterator>
 
 #include <boost/container/flat_map.hpp>
 
@@ -108,7 +110,7 @@ namespace std {
         stream << '{';
         if(!set.empty()) {
             stream << *set.cbegin();
-            for(auto i = set.cbegin() + 1; i != set.end(); ++i) {
+            for(auto i = std::next(set.cbegin()); i != set.end(); ++i) {
                 stream << ", " << *i;
             }
         }
@@ -163,7 +165,7 @@ namespace std {
         stream << '{';
         if(!set.empty()) {
             stream << *set.cbegin();
-            for(auto i = set.cbegin() + 1; i != set.end(); ++i) {
+            for(auto i = std::next(set.cbegin()); i != set.end(); ++i) {
                 stream << ", " << *i;
             }
         }
@@ -260,7 +262,7 @@ namespace std {
         stream << '[';
         if(!list.empty()) {
             stream << *list.cbegin();
-            for(auto i = list.cbegin() + 1; i != list.end(); ++i) {
+            for(auto i = std::next(list.cbegin()); i != list.end(); ++i) {
                 stream << " -> " << *i;
             }
         }
@@ -282,7 +284,7 @@ namespace std {
         stream << '[';
         if(!list.empty()) {
             stream << *list.cbegin();
-            for(auto i = list.cbegin() + 1; i != list.end(); ++i) {
+            for(auto i = std::next(list.cbegin()); i != list.end(); ++i) {
                 stream << " <-> " << *i;
             }
         }
-- 
2.43.0


From 5a05c80c509b11fbffdf9b6609094a2c00b3bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 60/91] fix: prices are restored when loading from an archive

---
 esl/economics/price.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index 2cbdd59..cb22f19 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -343,6 +343,16 @@ namespace esl::economics {
             std::string res_ = stream_.str();
 
             archive & boost::serialization::make_nvp("price", res_);
+
+            if constexpr(archive_t::is_loading::value) {
+                std::stringstream loaded_(res_);
+                std::array<char, 3> code_ = {'X', 'X', 'X'};
+                char separator_ = ' ';
+                std::uint64_t denominator_ = 0;
+                loaded_ >> code_[0] >> code_[1] >> code_[2]
+                        >> value >> separator_ >> denominator_;
+                valuation = iso_4217(code_, denominator_);
+            }
         }
     };
 }
@@ -366,12 +376,9 @@ namespace boost::serialization {
                                        , const unsigned int file_version
                                        )
         {
+            (void) archive;
             (void) file_version;
-            std::int64_t value_ = 0;
-            archive >> value_;
-            esl::economics::iso_4217 code_;
-            archive >> code_;
-            ::new(t)esl::economics::price(value_, code_);
+            ::new(t)esl::economics::price();
         }
 } // namespace boost::serialization
 
-- 
2.43.0


From 11fc86e6764fae20fa756a8e34e9d66701a568d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 61/91] fix: quotes are restored when loading from an archive

---
 esl/economics/markets/quote.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index df3bd16..68a4b43 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -380,7 +380,6 @@ namespace esl::economics::markets {
                 //exchange_rate re;
                 //archive >> boost::serialization::make_nvp("exchange_rate", re);
                 //type.emplace<0>(re);
-            } else if(1 == index_) {
                 price p;
                 archive >> boost::serialization::make_nvp("price", p);
                 type.emplace<price>(p);
-- 
2.43.0


From 1f7849383b702f8cf0b561dc54a053392c23684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 62/91] fix: rational numbers are not truncated to 32 bits in
 archives

---
 esl/mathematics/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/mathematics/rational.hpp b/esl/mathematics/rational.hpp
index b25fa48..10358e7 100644
--- a/esl/mathematics/rational.hpp
+++ b/esl/mathematics/rational.hpp
@@ -42,7 +42,7 @@ namespace boost::serialization {
               unsigned version)
     {
         (void)version;
-        int n = r.numerator(), d = r.denominator();
+        T n = r.numerator(), d = r.denominator();
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
     }
@@ -51,7 +51,7 @@ namespace boost::serialization {
     void load(archive_t &archive, boost::rational<T> &r, unsigned version)
     {
         (void)version;
-        int n, d;
+        T n, d;
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
         r = boost::rational<T>(n, d);
-- 
2.43.0


From bb2bec70d175fe707b93c053b75f3ab269e744eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 63/91] fix: exchange rates can be archived

---
 esl/economics/exchange_rate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 8bb7c79..dcb7295 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -156,7 +156,7 @@ namespace esl::economics {
             (void)version;
             archive &boost::serialization::make_nvp(
                 "rate_std::uint64_t_",
-                boost::serialization::base_object<rate<>>(*this));
+                boost::serialization::base_object<rate<std::uint64_t>>(*this));
         }
     };
 }
-- 
2.43.0


From 111bd211c8898df03b9f96ae065bdbaa30f0783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 64/91] fix: archived messages include their header

---
 esl/interaction/message.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/interaction/message.hpp b/esl/interaction/message.hpp
index f7580cd..a32be53 100644
--- a/esl/interaction/message.hpp
+++ b/esl/interaction/message.hpp
@@ -73,7 +73,7 @@ namespace esl::interaction {
         {
             (void)version;
 
-            BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
 
             archive &boost::serialization::make_nvp(
                 "type_code_t⟨type_code_⟩",
-- 
2.43.0


From 8f5881077126c897a10bc40e7ac5c319aa0d174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 65/91] fix: archived dividend messages include their header

---
 esl/economics/finance/dividend.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/finance/dividend.hpp b/esl/economics/finance/dividend.hpp
index e1df7e0..f6145a7 100644
--- a/esl/economics/finance/dividend.hpp
+++ b/esl/economics/finance/dividend.hpp
@@ -123,7 +123,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_announcement_message,
@@ -172,7 +172,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_record,
-- 
2.43.0


From 2c733429d684e046c595466637f5cc7aae22aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 66/91] fix: country codes can be archived

---
 esl/geography/iso_3166_1_alpha_2.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esl/geography/iso_3166_1_alpha_2.hpp b/esl/geography/iso_3166_1_alpha_2.hpp
index 09091e7..0afb4c2 100644
--- a/esl/geography/iso_3166_1_alpha_2.hpp
+++ b/esl/geography/iso_3166_1_alpha_2.hpp
@@ -35,6 +35,7 @@
 
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/nvp.hpp>
+#include <boost/serialization/array.hpp>
 
 #include <esl/exception.hpp>
 
-- 
2.43.0


From d5c5c16fc47d15b862587df761476653363a4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 67/91] fix: dividend policies can be archived

---
 esl/economics/finance/dividend.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esl/economics/finance/dividend.hpp b/esl/economics/finance/dividend.hpp
index f6145a7..686e1bb 100644
--- a/esl/economics/finance/dividend.hpp
+++ b/esl/economics/finance/dividend.hpp
@@ -30,6 +30,9 @@
 #include <tuple>
 #include <utility>
 
+#include <boost/serialization/map.hpp>
+
+#include <esl/data/serialization.hpp>
 #include <esl/economics/currencies.hpp>
 #include <esl/economics/finance/share_class.hpp>
 #include <esl/economics/price.hpp>
-- 
2.43.0


From e19b2380320157cdf1a865d4323ed0e656e8501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 68/91] fix: quote and order messages can be archived

---
 esl/economics/markets/order_message.hpp | 2 +-
 esl/economics/markets/quote_message.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_message.hpp b/esl/economics/markets/order_message.hpp
index 9760e82..69bdfac 100644
--- a/esl/economics/markets/order_message.hpp
+++ b/esl/economics/markets/order_message.hpp
@@ -69,7 +69,7 @@ struct order_message
     void serialize(archive_t &archive, const unsigned int version)
     {
         (void)version;
-        archive &make_nvp(
+        archive &boost::serialization::make_nvp(
             "interaction〈message_type_,type_code_〉",
             boost::serialization::base_object<
             interaction::message<message_type_, type_code_>>(
diff --git a/esl/economics/markets/quote_message.hpp b/esl/economics/markets/quote_message.hpp
index 414a14e..926ea50 100644
--- a/esl/economics/markets/quote_message.hpp
+++ b/esl/economics/markets/quote_message.hpp
@@ -75,7 +75,7 @@ namespace esl::economics::markets {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            archive &make_nvp(
+            archive &boost::serialization::make_nvp(
                 "interaction〈message_type_,type_code_〉",
                 boost::serialization::base_object<
                     interaction::message<message_type_, type_code_>>(*this));
-- 
2.43.0


From 8cd47a95c2c580ad60915d2a9912014ff86306fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 69/91] fix: legal entity identifiers can be archived

---
 esl/law/legal_entity.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esl/law/legal_entity.hpp b/esl/law/legal_entity.hpp
index ce5f8d6..b4b49c2 100644
--- a/esl/law/legal_entity.hpp
+++ b/esl/law/legal_entity.hpp
@@ -31,6 +31,7 @@
 #include <tuple>
 #include <utility>
 
+#include <boost/serialization/array.hpp>
 #include <boost/serialization/nvp.hpp>
 #include <boost/multiprecision/cpp_int.hpp>
 
-- 
2.43.0


From b0dc907393371fe8fb2ef30476f711835c34cad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 70/91] fix: the orders in an order message to an impact market
 are archived

---
 esl/economics/markets/impact_function/order.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/impact_function/order.hpp b/esl/economics/markets/impact_function/order.hpp
index 7a1ef53..23350d2 100644
--- a/esl/economics/markets/impact_function/order.hpp
+++ b/esl/economics/markets/impact_function/order.hpp
@@ -28,6 +28,9 @@
 
 #include <boost/serialization/nvp.hpp>
 #include <boost/serialization/serialization.hpp>
+#include <boost/serialization/shared_ptr.hpp>
+#include <boost/serialization/unordered_map.hpp>
+#include <boost/serialization/utility.hpp>
 
 #include <esl/economics/markets/order_message.hpp>
 
@@ -41,7 +44,7 @@ namespace esl::economics::markets::impact_function {
         enum side_t
         { buy
         , sell
-        } side;
+        } side = buy;
 
         law::property_map<std::pair<std::uint64_t, side_t>> volumes;
 
@@ -63,6 +66,8 @@ namespace esl::economics::markets::impact_function {
             typedef markets::order_message<order_message, interaction::library_message_code<0x00B2U>()>
                 order_message_type;
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(order_message_type);
+            archive &BOOST_SERIALIZATION_NVP(side);
+            archive &BOOST_SERIALIZATION_NVP(volumes);
         }
     };
 }
-- 
2.43.0


From fb912a2804618a99cda43ec2a365e3adb7e9bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 71/91] fix: fractions are allocated by rounding each of them
 up or down only

---
 esl/algorithms.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index f031d91..3addbae 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -220,14 +220,18 @@ namespace esl {
         sort(indices_.begin(),
              indices_.end(),
              [&fractions](size_t i1, size_t i2) {
-                 return (fractions[i1] - std::nearbyint(fractions[i1]))
-                        > (fractions[i2] - std::nearbyint(fractions[i2]));
+                 return (fractions[i1] - std::round(fractions[i1]))
+                        > (fractions[i2] - std::round(fractions[i2]));
              });
 
-        for(size_t i = 0; i < (target_ - near_); ++i) {
+        for(int i = 0; i < target_ - near_; ++i) {
             ++result_[indices_[i]];
         }
 
+        for(int i = 0; i < near_ - target_; ++i) {
+            --result_[indices_[indices_.size() - 1 - i]];
+        }
+
         return result_;
     }
 
-- 
2.43.0


From e1ee2bc70148468d98e2630d004821fce0cf34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 72/91] fix: allocated fractions are rounded rather than
 truncated to integers

---
 esl/algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index 3addbae..9decd65 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -207,7 +207,7 @@ namespace esl {
         for(const auto &f : fractions) {
             sum_ += f;
             near_ += round(f);
-            result_.push_back(round(abs(f)));
+            result_.push_back(round(std::abs(f)));
         }
 
         int target_ = round(sum_);
-- 
2.43.0


From f0088df6a2a4a725149ed77bf177f71769eb4c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 73/91] fix: a participant that also receives something else is
 sent the property it buys

---
 esl/economics/markets/walras/price_setter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 2a49d43..c4d1434 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -445,9 +445,8 @@ namespace esl::economics::markets::walras {
 
                     if(uint64_t(v) > 0){
                         //LOG(trace) << p << " purchased additional " << v << std::endl;
-                        accounting::inventory_filter<law::property> purchased_;
-                        purchased_.insert(property_, quantity(uint64_t(v)));
-                        send_.emplace(p, purchased_);
+                        auto s = send_.emplace(p, accounting::inventory_filter<law::property>()).first;
+                        s->second.insert(property_, quantity(uint64_t(v)));
 
                         // they should send cash for the purchase
                         auto r = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
-- 
2.43.0


From 045ddc57e6bd0894d62cc5727f4f674bb59bf575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 74/91] fix: a participant that receives at least as much as it
 owes does not pay it as well

---
 esl/economics/markets/walras/price_setter.cpp | 50 ++++++++-----------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index c4d1434..e5a7b6e 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -486,39 +486,29 @@ namespace esl::economics::markets::walras {
         }
 
         // apply netting
-        for(auto &[p, i_r] : receive_) {
-            auto offset_ = send_.find(p);
-            if(send_.end() == offset_) {
-                continue;
-            }
-
-            for(auto &[k, v] : i_r.items) {
-                if(0 == v.amount){
-                    //i_r.items.erase(k);
-                    continue;
-                }
-
-                auto property_ = offset_->second.items.find(k);
-                if(offset_->second.items.end() == property_) {
-                    continue;
-                }
-                // receiving more than sending
-                if(v > property_->second) {
-                    auto diff_ = v - property_->second;
-                    v          = diff_;
-                    offset_->second.items.erase(property_);
-                } else if(v < property_->second) {  // sending more than recv
-                    auto diff_        = property_->second - v;
-                    property_->second = diff_;
-                    //i_r.items.erase(k);
-                } else {  // sending and rececing same amount
-                    //i_r.items.erase(k);
-                    offset_->second.items.erase(property_);
+        for(auto r = receive_.begin(); r != receive_.end();) {
+            auto &received_ = r->second.items;
+            auto offset_ = send_.find(r->first);
+            for(auto i = received_.begin(); i != received_.end();) {
+                auto &v = i->second;
+                if(send_.end() != offset_) {
+                    auto property_ = offset_->second.items.find(i->first);
+                    if(offset_->second.items.end() != property_) {
+                        // only the difference is transferred
+                        auto netted_ = std::min(v.amount, property_->second.amount);
+                        v -= quantity(netted_);
+                        property_->second -= quantity(netted_);
+                        if(0 == property_->second.amount) {
+                            offset_->second.items.erase(property_);
+                        }
+                    }
                 }
+                i = (0 == v.amount) ? received_.erase(i) : std::next(i);
             }
-            if(i_r.items.empty()){
-                receive_.erase(p);
+            if(send_.end() != offset_ && offset_->second.items.empty()) {
+                send_.erase(offset_);
             }
+            r = received_.empty() ? receive_.erase(r) : std::next(r);
         }
 
 
-- 
2.43.0


From 7a38cf466340832f96492a8737aad3839377287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 75/91] fix: a tatonnement solver that fails does not abort the
 process, and the error handler of GSL is restored

---
 esl/economics/markets/walras/tatonnement.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index 6a785d1..a34f2d0 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -393,6 +393,17 @@ namespace esl::economics::markets::tatonnement {
             throw esl::invalid_parameters(error_no_solvers_);
         }
 
+        // solvers that fail report this through their status, so that the next
+        // method is tried; the previous error handler is restored on return
+        struct silence_errors
+        {
+            gsl_error_handler_t *previous = gsl_set_error_handler(&handler);
+            ~silence_errors()
+            {
+                gsl_set_error_handler(previous);
+            }
+        } silence_errors_;
+
         for(auto method_: methods){
             // for every method we try, we need to reset our variables
             active_.clear();
@@ -417,9 +428,6 @@ namespace esl::economics::markets::tatonnement {
                 if(1 == quotes.size()){
                     constexpr double absolute_tolerance = 1e-6;
 
-                    // capture previous error handler to restore later
-                    auto old_handler_ = gsl_set_error_handler (&handler);
-
                     // solver and solver type
                     const gsl_root_fdfsolver_type *solver_type_;
                     gsl_root_fdfsolver *s;
@@ -471,8 +479,6 @@ namespace esl::economics::markets::tatonnement {
                         return result_;
                     }
                     gsl_root_fdfsolver_free (s);
-                    // reset the old error handler.
-                    gsl_set_error_handler(old_handler_);
                 } else {
                     // else, we solve for multiple roots at once
                     // TODO: set adaptively
-- 
2.43.0


From 5abd67dbdd1834831ac87b7bfed083d516d56795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 76/91] fix: the circuit breaker limits the prices found by
 every method of tatonnement

---
 esl/economics/markets/walras/tatonnement.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index a34f2d0..68b00f3 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -623,6 +623,9 @@ namespace esl::economics::markets::tatonnement {
                     std::map<esl::identity<esl::law::property>, double> result_;
                     for(size_t i = 0; i < active_.size(); ++i) {
                         auto scalar_ = gsl_vector_get (minimizer->x, i);
+                        // apply circuit breaker
+                        scalar_ = std::min(scalar_, circuit_breaker.second);
+                        scalar_ = std::max(scalar_, circuit_breaker.first);
                         result_.insert({mapping_index_[i], scalar_});
                     }
                     gsl_multimin_fdfminimizer_free(minimizer);
@@ -696,6 +699,9 @@ namespace esl::economics::markets::tatonnement {
                     std::map<esl::identity<esl::law::property>, double> result_;
                     for(size_t i = 0; i < active_.size(); ++i) {
                         auto scalar_ = gsl_vector_get (minimizer->x, i);
+                        // apply circuit breaker
+                        scalar_ = std::min(scalar_, circuit_breaker.second);
+                        scalar_ = std::max(scalar_, circuit_breaker.first);
                         result_.insert({mapping_index_[i], scalar_});
                     }
                     gsl_multimin_fminimizer_free(minimizer);
@@ -791,7 +797,10 @@ namespace esl::economics::markets::tatonnement {
                 std::map<esl::identity<esl::law::property>, double> result_;
                 for(size_t i = 0; i < active_.size(); ++i) {
                     //LOG(trace) << "outcome: " << multipliers_[i] << std::endl;
-                    result_.emplace(mapping_index_[i], multipliers_[i]);
+                    // apply circuit breaker
+                    auto scalar_ = std::min(multipliers_[i], circuit_breaker.second);
+                    scalar_ = std::max(scalar_, circuit_breaker.first);
+                    result_.emplace(mapping_index_[i], scalar_);
                 }
 
                 gsl_multiroot_fsolver_free (solver_);
-- 
2.43.0


From 89c32d85a2029deaa2e666bd9c8f4efcc5f6a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 77/91] fix: a property that no participant demands keeps its
 price when a Walrasian market clears

---
 esl/economics/markets/walras/price_setter.cpp | 4 +++-
 esl/economics/markets/walras/tatonnement.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index e5a7b6e..b499114 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -392,7 +392,9 @@ namespace esl::economics::markets::walras {
 
         ////////////////////////////////////////////////////////////////////////
         auto transfers_ = compute_transfers(traded_properties, volumes_, orders_);
-        output_volumes_->put(step.lower, { std::uint64_t(volumes_.begin()->second )} );
+        if(!volumes_.empty()) {
+            output_volumes_->put(step.lower, { std::uint64_t(volumes_.begin()->second )} );
+        }
 
 
         //  send_: we, the market maker, send items to participant
diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index 68b00f3..ef1b53e 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -283,8 +283,9 @@ namespace esl::economics::markets::tatonnement {
 
         std::vector<variable> result_;
         for(auto [k, v]: quotes) {
-            assert(terms_map.end() != terms_map.find(*k));
-            result_.push_back(terms_map.find(*k)->second);
+            // properties for which there is no excess demand keep their price
+            auto i = terms_map.emplace(*k, variable(0.)).first;
+            result_.push_back(i->second);
         }
         return result_;
     }
-- 
2.43.0


From e7bd8deef4a75bb142226e1db914af002fcb95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 78/91] fix: tatonnement for a single property iterates until
 excess demand vanishes

---
 esl/economics/markets/walras/tatonnement.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index ef1b53e..0a87076 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -455,6 +455,9 @@ namespace esl::economics::markets::tatonnement {
                         ++iteration_;
                         // perform one solver step
                         status_ = gsl_root_fdfsolver_iterate(s);
+                        if(GSL_SUCCESS != status_){
+                            break;
+                        }
                         // store initial position to compute delta
                         xt = gsl_root_fdfsolver_root(s);
                         auto errors_ = uniroot_function_value(xt, this);
@@ -462,10 +465,8 @@ namespace esl::economics::markets::tatonnement {
                             best_error_ = errors_;
                             best_quote_ = xt;
                         }
-                        if(abs(errors_) < absolute_tolerance){
-                            status_ = GSL_SUCCESS;
-                            break;
-                        }
+                        // a successful iteration is not yet a solution
+                        status_ = gsl_root_test_residual(errors_, absolute_tolerance);
                         //status_ = gsl_root_test_delta (xt, x0, delta_absolute_tolerance, delta_relative_tolerance);
                     } while (GSL_CONTINUE == status_ && iteration_ < max_iterations);
 
-- 
2.43.0


From 579dfb2d8f1907d4606cd241e83cb580fd7716fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:21 +0000
Subject: [PATCH 79/91] fix: shareholders learn the currency of a changed quote

---
 esl/economics/finance/shareholder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 9081424..2425ee5 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -73,7 +73,7 @@ namespace esl::economics::finance {
                     if(prices.end() == i){
                         prices.emplace(k, std::get<price>(v.type));
                     }else{
-                        i->second.value = std::get<price>(v.type).value;
+                        i->second = std::get<price>(v.type);
                     }
                 }
                 return step.upper;
-- 
2.43.0


From 678be2a9ba25c349af7589135c47f670f1d13024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 80/91] fix: market identifier codes are refused unless they
 have four symbols

---
 esl/economics/markets/iso_10383.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/iso_10383.hpp b/esl/economics/markets/iso_10383.hpp
index 928cdca..58d28c5 100644
--- a/esl/economics/markets/iso_10383.hpp
+++ b/esl/economics/markets/iso_10383.hpp
@@ -61,7 +61,8 @@ namespace esl::economics::markets {
         /// \brief Construct an ISO 10383 code from a 4 symbol string.
         /// \param  code A  4 symbol alphanumeric code A-Z | 0-9
         explicit iso_10383(const std::string &code)
-        : iso_10383(std::array<char, 4> {code[0], code[1], code[2], code[3]})
+        : iso_10383(4 == code.size() ? std::array<char, 4> {code[0], code[1], code[2], code[3]}
+        : throw esl::exception("market identifier code needs to be four symbols"))
         {
 
         }
-- 
2.43.0


From 5d168a6d232902e1782cd52e06ba2dc662538a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:18 +0000
Subject: [PATCH 81/91] fix: minor units of CLF, TND and UYI follow ISO 4217

---
 esl/economics/currencies.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/economics/currencies.hpp b/esl/economics/currencies.hpp
index 155c12d..3145ea3 100644
--- a/esl/economics/currencies.hpp
+++ b/esl/economics/currencies.hpp
@@ -68,7 +68,7 @@ namespace esl::economics {
         constexpr iso_4217 CHE = iso_4217({'C', 'H', 'E'});
         constexpr iso_4217 CHF = iso_4217({'C', 'H', 'F'});
         constexpr iso_4217 CHW = iso_4217({'C', 'H', 'W'});
-        constexpr iso_4217 CLF = iso_4217({'C', 'L', 'F'});
+        constexpr iso_4217 CLF = iso_4217({'C', 'L', 'F'}, 10000);
         constexpr iso_4217 CLP = iso_4217({'C', 'L', 'P'}, 1);
         constexpr iso_4217 CNY = iso_4217({'C', 'N', 'Y'});
         constexpr iso_4217 COP = iso_4217({'C', 'O', 'P'});
@@ -177,7 +177,7 @@ namespace esl::economics {
         constexpr iso_4217 THB = iso_4217({'T', 'H', 'B'});
         constexpr iso_4217 TJS = iso_4217({'T', 'J', 'S'});
         constexpr iso_4217 TMT = iso_4217({'T', 'M', 'T'});
-        constexpr iso_4217 TND = iso_4217({'T', 'N', 'D'});
+        constexpr iso_4217 TND = iso_4217({'T', 'N', 'D'}, 1000);
         constexpr iso_4217 TOP = iso_4217({'T', 'O', 'P'});
         constexpr iso_4217 TRY = iso_4217({'T', 'R', 'Y'});
         constexpr iso_4217 TTD = iso_4217({'T', 'T', 'D'});
@@ -187,7 +187,7 @@ namespace esl::economics {
         constexpr iso_4217 UGX = iso_4217({'U', 'G', 'X'}, 1);
         constexpr iso_4217 USD = iso_4217({'U', 'S', 'D'});
 //        constexpr iso_4217 USN = iso_4217({'U', 'S', 'N'});
-        constexpr iso_4217 UYI = iso_4217({'U', 'Y', 'I'});
+        constexpr iso_4217 UYI = iso_4217({'U', 'Y', 'I'}, 1);
         constexpr iso_4217 UYU = iso_4217({'U', 'Y', 'U'});
         constexpr iso_4217 UZS = iso_4217({'U', 'Z', 'S'});
         constexpr iso_4217 VEF = iso_4217({'V', 'E', 'F'});
-- 
2.43.0


From 86ec2c9af1390d7605e8c3a77d7e4fd360433e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:18 +0000
Subject: [PATCH 82/91] fix: Andorra has a country name

---
 esl/geography/countries.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/geography/countries.hpp b/esl/geography/countries.hpp
index 4a1d429..f2117a2 100644
--- a/esl/geography/countries.hpp
+++ b/esl/geography/countries.hpp
@@ -302,6 +302,8 @@ namespace esl::geography {
         using namespace countries;
         using detail::unique_hash;
         switch(unique_hash(c)) {
+        case unique_hash(AD):
+            return "Andorra";
         case unique_hash(AE):
             return "United Arab Emirates";
         case unique_hash(AF):
-- 
2.43.0


From 0657551aded3ea5eeaf3ea9f0f60c6c5cf43f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 83/91] fix: rounding away from zero compiles and leaves whole
 numbers unchanged

---
 esl/algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index 9decd65..9a19c3a 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -155,7 +155,7 @@ namespace esl {
         template<typename floating_t_, typename integer_t_ = int64_t>
         integer_t_ integer_away_from_zero(floating_t_ value)
         {
-            return integer_t_(std::trunc(value) + sign(value));
+            return integer_t_(value < 0 ? std::floor(value) : std::ceil(value));
         }
     }  // namespace rounding
 
-- 
2.43.0


From 4e4472f42d1bfddd5a8db6f1659ac315e316364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 84/91] fix: every quote has its own level in the fixed-range
 book, also with small lots

With a lot size below the number of minor units of the currency, such as
the default of one, prices up to a whole currency unit apart shared a level:
a buy order with limit 1.50 rested and traded at 2.00.
---
 .../markets/order_book/static_order_book.hpp          | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 635b65d..6e65619 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -143,13 +143,20 @@ namespace esl::economics::markets::order_book {
             std::function<quote(const mathematics::interval<quote> &limits, const limit &limit)> decode;
 
             ///
-            /// \brief  Computes the required number of tick levels
+            /// \brief  Computes the required number of tick levels. There is at
+            ///         least one level for every quote that can be expressed
+            ///         within the limits, so that different quotes never share
+            ///         a level.
             /// \return
             size_t span(size_t lot, size_t ticks) const
             {
+                const size_t units_ = std::visit([](const auto &k) {
+                    return size_t(k.valuation.denominator);
+                }, valid_limits.lower.type);
+
                 return static_cast<size_t>(round(
                     (double(valid_limits.upper) - double(valid_limits.lower)) * lot
-                    * ticks)) + 1;
+                    * std::max(ticks, units_))) + 1;
             }
 
         public:
-- 
2.43.0


From 92c8fb5ae6896000703b89c227cf4ef0d93497d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:15 +0000
Subject: [PATCH 85/91] fix: the OpenBook reader compiles when it is included

It used names without their namespaces and without including their headers.
---
 esl/data/format/openbook.hpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/esl/data/format/openbook.hpp b/esl/data/format/openbook.hpp
index 72ed269..ae17627 100644
--- a/esl/data/format/openbook.hpp
+++ b/esl/data/format/openbook.hpp
@@ -28,11 +28,34 @@
 #ifndef ESL_OPENBOOK_HPP
 #define ESL_OPENBOOK_HPP
 
+#include <array>
+#include <bit>
+#include <cmath>
+#include <cstdint>
+#include <fstream>
+#include <functional>
+#include <iostream>
+#include <string>
+#include <tuple>
+#include <vector>
+
 #include <boost/algorithm/string.hpp>
 
+#include <esl/economics/currencies.hpp>
+#include <esl/economics/markets/order_book/order.hpp>
+#include <esl/economics/markets/quote.hpp>
+#include <esl/economics/price.hpp>
+#include <esl/simulation/time.hpp>
+
 
 
 namespace esl::data {
+    using economics::price;
+    using economics::currencies::USD;
+    using economics::markets::quote;
+    using economics::markets::order_book::limit_order;
+    using simulation::time_point;
+
     namespace detail {
     /// 
     /// \brief  Utility function, not for general use. 
@@ -62,7 +85,7 @@ namespace esl::data {
     /// \brief VERSION 1.2b for files created 2017-04-20 and after
     ///
     // template<unsigned int major_version = 1, unsigned int minor_version = 2>
-    void read_openbook(
+    inline void read_openbook(
         const std::string &filename,
         std::function<void(const std::string &, char, char, time_point,
                            const quote &, const std::uint32_t &,
@@ -321,8 +344,8 @@ namespace esl::data {
     ///
     ///
     ///
-    std::vector<std::tuple<std::string, char, char, time_point, quote,
-                           std::uint32_t, limit_order::side_t>>
+    inline std::vector<std::tuple<std::string, char, char, time_point, quote,
+                                  std::uint32_t, limit_order::side_t>>
     parse_main_session(const std::string &filename,
                        const std::string &filter_symbol)
     {
-- 
2.43.0


From 74c4bcb6a020d3f4ebcf24f61e4154fd4a1b35f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:15 +0000
Subject: [PATCH 86/91] fix: OpenBook times do not wrap around after 71 minutes

Milliseconds since midnight were multiplied by 1000 in 32 bits.
---
 esl/data/format/openbook.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/format/openbook.hpp b/esl/data/format/openbook.hpp
index ae17627..7eef93a 100644
--- a/esl/data/format/openbook.hpp
+++ b/esl/data/format/openbook.hpp
@@ -315,7 +315,7 @@ namespace esl::data {
             //    << char('0' + PriceScaleCode) << "," << ChgQty << "," << Side
             //    << std::endl;
 
-            time_point time_ = SourceTime * 1000 + SourceTimeMicroSecs;
+            time_point time_ = time_point(SourceTime) * 1000 + SourceTimeMicroSecs;
 
             auto denom_ = std::pow<std::uint64_t>(10, PriceScaleCode);
             auto quote_ =
-- 
2.43.0


From 799692a11dda7d61c00cfe07d67f60fd51f2d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:15 +0000
Subject: [PATCH 87/91] fix: OpenBook prices with fewer than two decimals are
 read

They were given a lot size of zero, for which quote() throws.
---
 esl/data/format/openbook.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/esl/data/format/openbook.hpp b/esl/data/format/openbook.hpp
index 7eef93a..1fb1b29 100644
--- a/esl/data/format/openbook.hpp
+++ b/esl/data/format/openbook.hpp
@@ -318,8 +318,12 @@ namespace esl::data {
             time_point time_ = time_point(SourceTime) * 1000 + SourceTimeMicroSecs;
 
             auto denom_ = std::pow<std::uint64_t>(10, PriceScaleCode);
-            auto quote_ =
-                quote(price(PriceNumerator, USD), denom_ / USD.denominator);
+            // additional digits are represented by the lot size, which can
+            // not represent fewer digits than the currency has
+            auto quote_ = denom_ < USD.denominator
+                ? quote(price(static_cast<std::int64_t>(
+                                  PriceNumerator * (USD.denominator / denom_)), USD), 1)
+                : quote(price(PriceNumerator, USD), denom_ / USD.denominator);
 
             callback(Symbol, TradingStatus, ReasonCode, time_, quote_, ChgQty,
                      (Side == 'B' ? limit_order::side_t::buy
-- 
2.43.0


From 5dee04790c0d32ceff28d2b7b21795aa071a0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:34 +0000
Subject: [PATCH 88/91] fix: risk neutral market makers quote the limit of the
 Avellaneda-Stoikov spread

With gamma = 0 the spread was not a number, which was converted to an integer.
---
 esl/economics/markets/order_book/avellaneda_stoikov.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/order_book/avellaneda_stoikov.hpp b/esl/economics/markets/order_book/avellaneda_stoikov.hpp
index 30758eb..a83109d 100644
--- a/esl/economics/markets/order_book/avellaneda_stoikov.hpp
+++ b/esl/economics/markets/order_book/avellaneda_stoikov.hpp
@@ -66,7 +66,9 @@ namespace esl::economics::markets::order_book{
         assert(0 <= theta && theta <= 1.0);
         assert(sigma > 0.);
         double reservation_ = double(mid) - (double(n_long) - double(n_short)) * gamma * sigma*sigma * (1. - theta);
-        double spread_ = gamma * (sigma * sigma) * (1. - theta) + 2./gamma * std::log(1+gamma/k);
+        // log(1 + gamma/k) / gamma tends to 1/k under risk neutrality
+        double spread_ = gamma * (sigma * sigma) * (1. - theta)
+                       + (gamma > 0. ? 2./gamma * std::log1p(gamma/k) : 2./k);
         auto bid_ = static_cast<std::int64_t>(std::floor( (reservation_ - spread_/2) * mid.valuation.denominator));
         auto ask_ = static_cast<std::int64_t>(std::ceil( (reservation_ + spread_/2) * mid.valuation.denominator));
 
-- 
2.43.0


From 05e50ab33b680a8ea15a3e88811abb0470666865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:34 +0000
Subject: [PATCH 89/91] fix: bondholders know the latest price of a bond

They kept the first one they were told.
---
 esl/economics/finance/bondholder.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/esl/economics/finance/bondholder.cpp b/esl/economics/finance/bondholder.cpp
index c33f311..599a683 100644
--- a/esl/economics/finance/bondholder.cpp
+++ b/esl/economics/finance/bondholder.cpp
@@ -45,8 +45,13 @@ namespace esl::economics::finance {
                 (void) seed;
                 for(auto &[k, v] : m->proposed){
                     assert(std::holds_alternative<price>(v.type));
-                    auto p = std::make_pair(k, std::get<price>(v.type));
-                    this->bond_prices.insert(std::move(p));
+                    auto p = std::get<price>(v.type);
+                    auto i = this->bond_prices.find(k);
+                    if(this->bond_prices.end() == i){
+                        this->bond_prices.emplace(k, p);
+                    }else{
+                        i->second = p;
+                    }
                 }
                 return step.upper;
             };
-- 
2.43.0


From da42bbe11a3a0ef3c0882c06f9973a603d4e4cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:21 +0000
Subject: [PATCH 90/91] fix: queues of elements that can only be moved, or only
 be copied, compile

---
 esl/computation/blocking_queue.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/esl/computation/blocking_queue.hpp b/esl/computation/blocking_queue.hpp
index 988d37c..fb6649a 100644
--- a/esl/computation/blocking_queue.hpp
+++ b/esl/computation/blocking_queue.hpp
@@ -75,7 +75,8 @@ namespace esl::computation {
         ///
         /// \param item The item of type 'element_t_' to enqueue
         /// \return     void
-        typename std::enable_if<std::is_copy_constructible<element_t_>::value, void>::type
+        template<typename specialization_ = element_t_>
+        typename std::enable_if<std::is_copy_constructible<specialization_>::value, void>::type
         push(const element_t_ &item)
         {
             {
@@ -94,7 +95,8 @@ namespace esl::computation {
         ///
         /// \param item The item of type 'element_t_' to enqueue
         /// \return     void
-        typename std::enable_if<std::is_move_constructible<element_t_>::value, void>::type
+        template<typename specialization_ = element_t_>
+        typename std::enable_if<std::is_move_constructible<specialization_>::value, void>::type
         push(element_t_ &&item)
         {
             {
@@ -113,7 +115,8 @@ namespace esl::computation {
         ///
         /// \param item
         /// \return bool    'true' if item was put into the queue, false otherwise
-        typename std::enable_if<std::is_copy_constructible<element_t_>::value, bool>::type
+        template<typename specialization_ = element_t_>
+        typename std::enable_if<std::is_copy_constructible<specialization_>::value, bool>::type
         try_push(const element_t_ &item)
         {
             {
@@ -133,7 +136,8 @@ namespace esl::computation {
         ///
         /// \param item
         /// \return bool    'true' if item was put into the queue, false otherwise
-        typename std::enable_if<std::is_move_constructible<element_t_>::value,
+        template<typename specialization_ = element_t_>
+        typename std::enable_if<std::is_move_constructible<specialization_>::value,
                                 bool>::type
         try_push(element_t_ &&item)
         {
@@ -172,7 +176,8 @@ namespace esl::computation {
             return true;
         }
 
-        typename std::enable_if<std::is_move_assignable<element_t_>::value, bool>::type
+        template<typename specialization_ = element_t_>
+        typename std::enable_if<std::is_move_assignable<specialization_>::value, bool>::type
         pop(element_t_ &item)
         {
             std::unique_lock lock_(mutex_);
@@ -222,7 +227,7 @@ namespace esl::computation {
         /// \return bool    'true' if successfully removed and copied an element
         ///                 'false' if the queue is empty or locked
         template<typename specialization_ = element_t_>
-        typename std::enable_if<std::is_move_assignable<element_t_>::value, bool>::type
+        typename std::enable_if<std::is_move_assignable<specialization_>::value, bool>::type
         try_pop(element_t_ &item)
         {
             std::unique_lock lock_(mutex_, std::try_to_lock);
-- 
2.43.0


From 1e5ec4bdc0d135051a7003922c685dafc58f398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:35 +0000
Subject: [PATCH 91/91] fix: timings of agents are written to archives and read
 from them

The members were wrapped for the archive, which was not given them.
---
 esl/computation/timing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/computation/timing.hpp b/esl/computation/timing.hpp
index 2264ac5..f18e5dd 100644
--- a/esl/computation/timing.hpp
+++ b/esl/computation/timing.hpp
@@ -56,12 +56,12 @@ namespace esl::computation {
         {
             (void)version;
 
-            boost::serialization::make_nvp(
+            archive & boost::serialization::make_nvp(
                 "messaging",
                 boost::serialization::make_binary_object(&messaging,
                                                          sizeof(messaging)));
 
-            boost::serialization::make_nvp(
+            archive & boost::serialization::make_nvp(
                 "acting",
                 boost::serialization::make_binary_object(&acting,
                                                          sizeof(acting)));
-- 
2.43.0

