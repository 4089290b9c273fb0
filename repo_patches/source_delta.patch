From 519d2d56d179a46e1274e3fd816d54837d2191cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 01/57] fix: rebuild projection index after removing synapses
 of a postsynaptic neuron

---
 knp/core-library/impl/projection.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/knp/core-library/impl/projection.cpp b/knp/core-library/impl/projection.cpp
index 924afe7..1784884 100644
--- a/knp/core-library/impl/projection.cpp
+++ b/knp/core-library/impl/projection.cpp
@@ -235,16 +235,11 @@ template <typename SynapseType>
 size_t knp::core::Projection<SynapseType>::remove_postsynaptic_neuron_synapses(size_t neuron_index)  //!OCLINT
 {
     const size_t starting_size = parameters_.size();
-    bool was_index_updated = is_index_updated_;
-    // Basic exception safety.
-    is_index_updated_ = false;
     auto synapses_to_remove = find_synapses(neuron_index, Search::by_postsynaptic);
+    // Synapses that remain are renumbered, the index must be rebuilt.
+    is_index_updated_ = false;
     std::sort(synapses_to_remove.begin(), synapses_to_remove.end());
     remove_by_index(parameters_, synapses_to_remove);
-    if (was_index_updated)
-        for (auto &synapse : synapses_to_remove) index_.erase(synapse);
-
-    is_index_updated_ = was_index_updated;
     return starting_size - parameters_.size();
 }
 
-- 
2.43.0


From dbc7db7fdf84b5213b3414922c5120c816d056c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 02/57] fix: remove the listed neurons of a population whatever
 the order of their indexes

---
 knp/core-library/include/knp/core/population.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/knp/core-library/include/knp/core/population.h b/knp/core-library/include/knp/core/population.h
index 63918f0..32f39f7 100644
--- a/knp/core-library/include/knp/core/population.h
+++ b/knp/core-library/include/knp/core/population.h
@@ -27,6 +27,7 @@
 #include <knp/neuron-traits/all_traits.h>
 
 #include <functional>
+#include <set>
 #include <utility>
 #include <vector>
 
@@ -208,10 +209,11 @@ public:  // NOLINT
      */
     void remove_neurons(const std::vector<size_t> &neuron_indexes)
     {
-        size_t index_shift = 0;
-        for (const auto &index : neuron_indexes)
+        // Each neuron is removed once, beginning from the last one, so that the indexes left are not shifted.
+        const std::set<size_t> indexes(neuron_indexes.begin(), neuron_indexes.end());
+        for (auto index = indexes.rbegin(); index != indexes.rend(); ++index)
         {
-            remove_neuron(index - index_shift++);
+            remove_neuron(*index);
         }
     }
 
-- 
2.43.0


From f5885184afd41c352540844c6fb9918750234787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 03/57] fix: reading an empty message from a stream clears the
 previous contents

---
 knp/core-library/impl/messaging/spike_message.cpp           | 2 --
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 2 --
 2 files changed, 4 deletions(-)

diff --git a/knp/core-library/impl/messaging/spike_message.cpp b/knp/core-library/impl/messaging/spike_message.cpp
index f6e9244..f090a9a 100644
--- a/knp/core-library/impl/messaging/spike_message.cpp
+++ b/knp/core-library/impl/messaging/spike_message.cpp
@@ -58,8 +58,6 @@ std::istream &operator>>(std::istream &stream, SpikeMessage &msg)
     size_t neurons_count = 0;
     stream >> msg.header_.sender_uid_ >> msg.header_.send_time_ >> neurons_count;
 
-    if (0 == neurons_count) return stream;
-
     msg.neuron_indexes_.resize(neurons_count);
     for (size_t i = 0; i < neurons_count; ++i)
     {
diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 96e9f1f..4942916 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -82,8 +82,6 @@ std::istream &operator>>(std::istream &stream, SynapticImpactMessage &msg)
         impacts_count;
 
     msg.is_forcing_ = forcing_buf;
-    if (0 == impacts_count) return stream;
-
     msg.impacts_.resize(impacts_count);
     for (size_t i = 0; i < impacts_count; ++i)
     {
-- 
2.43.0


From 2f04a903a370efc88aab6c0c3d90f71771b363e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 04/57] fix: compare synapse types of synaptic impacts

---
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 4942916..53ac452 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -32,7 +32,7 @@ namespace knp::core::messaging
 
 bool SynapticImpact::operator==(const SynapticImpact &other) const
 {
-    return connection_index_ == other.connection_index_ &&
+    return connection_index_ == other.connection_index_ && synapse_type_ == other.synapse_type_ &&
            presynaptic_neuron_index_ == other.presynaptic_neuron_index_ &&
            postsynaptic_neuron_index_ == other.postsynaptic_neuron_index_ && impact_value_ == other.impact_value_;
 }
-- 
2.43.0


From 4447eb1a2b7e099d09dec7f75a4da747f0bcfb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 05/57] fix: removing a receiver does not use an erased
 subscription iterator

---
 knp/core-library/impl/message_endpoint.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/core-library/impl/message_endpoint.cpp b/knp/core-library/impl/message_endpoint.cpp
index cf29d86..c546778 100644
--- a/knp/core-library/impl/message_endpoint.cpp
+++ b/knp/core-library/impl/message_endpoint.cpp
@@ -129,11 +129,15 @@ void MessageEndpoint::remove_receiver(const UID &receiver)
 {
     SPDLOG_DEBUG("Removing receiver {}...", std::string(receiver));
 
-    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end(); ++sub_iter)
+    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end();)
     {
         if (get_receiver_uid(sub_iter->second) == receiver)
         {
-            subscriptions_.erase(sub_iter);
+            sub_iter = subscriptions_.erase(sub_iter);
+        }
+        else
+        {
+            ++sub_iter;
         }
     }
     update_senders();
-- 
2.43.0


From 76cca96570fc9fd94f24a3af062044aab76732b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 06/57] fix: CPU message bus delivers messages in the order
 they were sent

---
 .../impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp | 10 ++++------
 .../impl/message_bus_cpu_impl/message_bus_cpu_impl.h   |  5 +++--
 .../message_bus_cpu_impl/message_endpoint_cpu_impl.h   |  9 +++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
index 8c1fe76..6f5fdf4 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
@@ -68,9 +68,9 @@ size_t MessageBusCPUImpl::step()
     const std::lock_guard lock(mutex_);
     if (messages_to_route_.empty()) return 0;  // No more messages left for endpoints to receive.
     // Sending a message to every endpoint.
-    auto message = std::move(messages_to_route_.back());
+    auto message = std::move(messages_to_route_.front());
     // Remove message from container.
-    messages_to_route_.pop_back();
+    messages_to_route_.pop_front();
     const knp::core::UID sender_uid = std::visit([](const auto &msg) { return msg.header_.sender_uid_; }, message);
     for (auto endpoint_data_containers : endpoint_data_)
     {
@@ -92,10 +92,8 @@ core::MessageEndpoint MessageBusCPUImpl::create_endpoint()
 {
     const std::lock_guard lock(mutex_);
 
-    using VT = std::vector<messaging::MessageVariant>;
-
-    auto messages_to_send_v{std::make_shared<VT>()};
-    auto recv_messages_v{std::make_shared<VT>()};
+    auto messages_to_send_v{std::make_shared<std::vector<messaging::MessageVariant>>()};
+    auto recv_messages_v{std::make_shared<std::deque<messaging::MessageVariant>>()};
 
     auto endpoint = MessageEndpointCPU(std::make_shared<MessageEndpointCPUImpl>(messages_to_send_v, recv_messages_v));
     endpoint_data_.emplace_back(messages_to_send_v, recv_messages_v, endpoint.get_senders_ptr());
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
index 9bd0299..f8db24a 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
@@ -26,6 +26,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <deque>
 #include <list>
 #include <memory>
 #include <mutex>
@@ -53,14 +54,14 @@ public:
     [[nodiscard]] core::MessageEndpoint create_endpoint() override;
 
 private:
-    std::vector<knp::core::messaging::MessageVariant> messages_to_route_;
+    std::deque<knp::core::messaging::MessageVariant> messages_to_route_;
 
     // This is a list of endpoint data:
     // First vector is a pointer to a set of messages the endpoint is sending.
     // Second vector is a set of messages endpoint is receiving.
     // Third set contains message senders, and is kept updated by endpoints when they add or remove them.
     std::list<std::tuple<
-        std::weak_ptr<std::vector<messaging::MessageVariant>>, std::weak_ptr<std::vector<messaging::MessageVariant>>,
+        std::weak_ptr<std::vector<messaging::MessageVariant>>, std::weak_ptr<std::deque<messaging::MessageVariant>>,
         std::weak_ptr<std::unordered_set<knp::core::UID, knp::core::uid_hash>>>>
         endpoint_data_;
     std::mutex mutex_;
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
index 8ac94ea..5f0b078 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
@@ -24,6 +24,7 @@
 #include <spdlog/spdlog.h>
 
 #include <algorithm>
+#include <deque>
 #include <memory>
 #include <mutex>
 #include <unordered_set>
@@ -45,7 +46,7 @@ class MessageEndpointCPUImpl : public MessageEndpointImpl
 public:
     MessageEndpointCPUImpl(
         std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send,
-        std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages)
+        std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages)
         : messages_to_send_(std::move(messages_to_send)), received_messages_(std::move(received_messages))
     {
         SPDLOG_DEBUG("CPU message endpoint creating...");
@@ -70,14 +71,14 @@ public:
             return {};
         }
 
-        auto result = std::move(received_messages_->back());
-        received_messages_->pop_back();
+        auto result = std::move(received_messages_->front());
+        received_messages_->pop_front();
         return result;
     }
 
 private:
     std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send_;
-    std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages_;
+    std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages_;
     std::unordered_set<knp::core::UID, knp::core::uid_hash> senders_;
     std::mutex mutex_;
 };
-- 
2.43.0


From 32589a40afea196470fcae5447adbcfefe8a5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 07/57] fix: CPU message bus and endpoints lock the same mutex
 around their messages

---
 .../message_bus_cpu_impl.cpp                  | 15 ++++++----
 .../message_bus_cpu_impl.h                    |  3 +-
 .../message_endpoint_cpu_impl.h               | 30 ++++++++++++-------
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
index 6f5fdf4..4350ce2 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
@@ -54,10 +54,12 @@ void MessageBusCPUImpl::update()
         }
 
         // Read all sent messages to an internal buffer.
+        const std::lock_guard send_lock(send_container_ptr->mutex_);
+        auto &sent_messages = send_container_ptr->messages_;
         messages_to_route_.insert(
-            messages_to_route_.end(), std::make_move_iterator(send_container_ptr->begin()),
-            std::make_move_iterator(send_container_ptr->end()));
-        send_container_ptr->clear();
+            messages_to_route_.end(), std::make_move_iterator(sent_messages.begin()),
+            std::make_move_iterator(sent_messages.end()));
+        sent_messages.clear();
         ++iter;
     }
 }
@@ -80,7 +82,8 @@ size_t MessageBusCPUImpl::step()
         if ((!recv_ptr) || (!allowed_senders_ptr)) continue;
         if (allowed_senders_ptr->find(sender_uid) != allowed_senders_ptr->end())
         {
-            recv_ptr->emplace_back(message);
+            const std::lock_guard recv_lock(recv_ptr->mutex_);
+            recv_ptr->messages_.emplace_back(message);
         }
     }
 
@@ -92,8 +95,8 @@ core::MessageEndpoint MessageBusCPUImpl::create_endpoint()
 {
     const std::lock_guard lock(mutex_);
 
-    auto messages_to_send_v{std::make_shared<std::vector<messaging::MessageVariant>>()};
-    auto recv_messages_v{std::make_shared<std::deque<messaging::MessageVariant>>()};
+    auto messages_to_send_v{std::make_shared<MessageQueueCPU>()};
+    auto recv_messages_v{std::make_shared<MessageQueueCPU>()};
 
     auto endpoint = MessageEndpointCPU(std::make_shared<MessageEndpointCPUImpl>(messages_to_send_v, recv_messages_v));
     endpoint_data_.emplace_back(messages_to_send_v, recv_messages_v, endpoint.get_senders_ptr());
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
index f8db24a..a9d71d7 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
@@ -41,6 +41,7 @@
 namespace knp::core::messaging::impl
 {
 class MessageEndpointCPU;
+struct MessageQueueCPU;
 
 class MessageBusCPUImpl : public MessageBusImpl
 {
@@ -61,7 +62,7 @@ private:
     // Second vector is a set of messages endpoint is receiving.
     // Third set contains message senders, and is kept updated by endpoints when they add or remove them.
     std::list<std::tuple<
-        std::weak_ptr<std::vector<messaging::MessageVariant>>, std::weak_ptr<std::deque<messaging::MessageVariant>>,
+        std::weak_ptr<MessageQueueCPU>, std::weak_ptr<MessageQueueCPU>,
         std::weak_ptr<std::unordered_set<knp::core::UID, knp::core::uid_hash>>>>
         endpoint_data_;
     std::mutex mutex_;
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
index 5f0b078..5dcd4f2 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
@@ -37,6 +37,16 @@
 namespace knp::core::messaging::impl
 {
 
+/**
+ * @brief Messages passed between an endpoint and the bus, which may be used by different threads.
+ */
+struct MessageQueueCPU
+{
+    std::deque<messaging::MessageVariant> messages_;
+    std::mutex mutex_;
+};
+
+
 /**
  * @brief Endpoint implementation class for CPU message bus.
  * @note It should never be used explicitly.
@@ -45,8 +55,7 @@ class MessageEndpointCPUImpl : public MessageEndpointImpl
 {
 public:
     MessageEndpointCPUImpl(
-        std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send,
-        std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages)
+        std::shared_ptr<MessageQueueCPU> messages_to_send, std::shared_ptr<MessageQueueCPU> received_messages)
         : messages_to_send_(std::move(messages_to_send)), received_messages_(std::move(received_messages))
     {
         SPDLOG_DEBUG("CPU message endpoint creating...");
@@ -54,9 +63,9 @@ public:
 
     void send_message(const knp::core::messaging::MessageVariant &message) override
     {
-        const std::lock_guard lock(mutex_);
+        const std::lock_guard lock(messages_to_send_->mutex_);
 
-        messages_to_send_->push_back(message);
+        messages_to_send_->messages_.push_back(message);
         SPDLOG_TRACE("Message with type index = {} was sent", message.index());
     }
 
@@ -64,23 +73,22 @@ public:
 
     std::optional<knp::core::messaging::MessageVariant> receive_message() override
     {
-        const std::lock_guard lock(mutex_);
+        const std::lock_guard lock(received_messages_->mutex_);
 
-        if (received_messages_->empty())
+        if (received_messages_->messages_.empty())
         {
             return {};
         }
 
-        auto result = std::move(received_messages_->front());
-        received_messages_->pop_front();
+        auto result = std::move(received_messages_->messages_.front());
+        received_messages_->messages_.pop_front();
         return result;
     }
 
 private:
-    std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send_;
-    std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages_;
+    std::shared_ptr<MessageQueueCPU> messages_to_send_;
+    std::shared_ptr<MessageQueueCPU> received_messages_;
     std::unordered_set<knp::core::UID, knp::core::uid_hash> senders_;
-    std::mutex mutex_;
 };
 
 }  // namespace knp::core::messaging::impl
-- 
2.43.0


From e1c9e8e6144f969ace09c83d06064017561863a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 08/57] fix: ZMQ bus neither blocks nor loses messages when
 more than 1000 are in flight

---
 .../message_bus_zmq_impl.cpp                  | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
index 72fad81..34836bb 100644
--- a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
+++ b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
@@ -43,6 +43,22 @@ using std::chrono_literals::operator""ms;
 #endif
 
 
+// A socket with a high water mark blocks the sender or loses messages when the mark is reached.
+void disable_water_marks(zmq::socket_t &socket)
+{
+    const int unlimited = 0;
+#if defined(__GNUC__)
+#    pragma GCC diagnostic push
+#    pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+#endif
+    socket.setsockopt(ZMQ_SNDHWM, &unlimited, sizeof(unlimited));
+    socket.setsockopt(ZMQ_RCVHWM, &unlimited, sizeof(unlimited));
+#if defined(__GNUC__)
+#    pragma GCC diagnostic pop
+#endif
+}
+
+
 class MessageEndpointZMQ : public MessageEndpoint
 {
 public:
@@ -61,6 +77,8 @@ MessageBusZMQImpl::MessageBusZMQImpl()
       publish_socket_(context_, zmq::socket_type::pub)
 {
     SPDLOG_DEBUG("ZMQ message bus creating...");
+    disable_water_marks(router_socket_);
+    disable_water_marks(publish_socket_);
     SPDLOG_DEBUG("Router socket binding to {}...", router_sock_address_);
     router_socket_.bind(router_sock_address_);
     SPDLOG_DEBUG("Publish socket binding to {}...", publish_sock_address_);
@@ -148,6 +166,8 @@ MessageEndpoint MessageBusZMQImpl::create_endpoint()
 {
     zmq::socket_t sub_socket{context_, zmq::socket_type::sub};
     zmq::socket_t pub_socket{context_, zmq::socket_type::dealer};
+    disable_water_marks(sub_socket);
+    disable_water_marks(pub_socket);
 
 // #if (ZMQ_VERSION >= ZMQ_MAKE_VERSION(4, 3, 4))
 //         sub_socket_.set(zmq::sockopt::subscribe, "");
-- 
2.43.0


From 4629d99fac480041b75295e391fdab2ee0ecc79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 09/57] fix: BLIFAT bursting phase counts down to the reflexive
 impact

---
 .../cpu-library/impl/populations/blifat/blifat_impl.h     | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
index 0c31824..30f1321 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
@@ -37,11 +37,7 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_)
-    {
-        --neuron.bursting_phase_;
-        neuron.potential_ += neuron.reflexive_weight_;
-    }
+    if (neuron.bursting_phase_ && !--neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
 
     neuron.pre_impact_potential_ = neuron.potential_;
 }
@@ -59,7 +55,7 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.is_being_forced_ = false;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
+    if (neuron.bursting_phase_ && !--neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
 
     neuron.pre_impact_potential_ = neuron.potential_;
 }
-- 
2.43.0


From 57cdd4dbb982d2c4f755d493c2189c82ae939403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 10/57] fix: a BLIFAT neuron that never fired is not in its
 refractory period

---
 .../cpu-library/impl/populations/blifat/blifat_impl.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
index 30f1321..1c26127 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
@@ -31,7 +31,8 @@ namespace knp::backends::cpu::populations::impl::blifat
 inline void calculate_pre_impact_single_neuron_state_impl(
     knp::neuron_traits::neuron_parameters<knp::neuron_traits::BLIFATNeuron> &neuron)
 {
-    ++neuron.n_time_steps_since_last_firing_;
+    if (neuron.n_time_steps_since_last_firing_ != std::numeric_limits<std::size_t>::max())
+        ++neuron.n_time_steps_since_last_firing_;
     neuron.dynamic_threshold_ *= neuron.threshold_decay_;
     neuron.postsynaptic_trace_ *= neuron.postsynaptic_trace_decay_;
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
@@ -46,7 +47,8 @@ inline void calculate_pre_impact_single_neuron_state_impl(
 inline void calculate_pre_impact_single_neuron_state_impl(
     knp::neuron_traits::neuron_parameters<knp::neuron_traits::SynapticResourceSTDPBLIFATNeuron> &neuron)
 {
-    ++neuron.n_time_steps_since_last_firing_;
+    if (neuron.n_time_steps_since_last_firing_ != std::numeric_limits<std::size_t>::max())
+        ++neuron.n_time_steps_since_last_firing_;
     neuron.dynamic_threshold_ *= neuron.threshold_decay_;
     neuron.postsynaptic_trace_ *= neuron.postsynaptic_trace_decay_;
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
-- 
2.43.0


From d3acdd26eecf4bf4c7dcfca9013f1c2143767529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 11/57] fix: presynaptic and postsynaptic UIDs of impact
 messages on the multi-threaded backend

---
 .../backends/cpu-library/impl/projections/delta/delta_impl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
index 032a563..ff1b2a2 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
@@ -165,8 +165,8 @@ void calculate_projection_multithreaded_impl(
         {
             knp::core::messaging::SynapticImpactMessage message_out{
                 {projection_uid, step_n},
-                postsynaptic_uid,
                 presynaptic_uid,
+                postsynaptic_uid,
                 training::stdp::is_forced(projection),
                 {value.second}};
             future_messages.insert(std::make_pair(value.first, message_out));
-- 
2.43.0


From b4dbd29ba28972056173502f887f8fb7233d73a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 12/57] fix: multi-threaded backend processes all spike
 messages a projection received

---
 .../impl/backend.cpp                          | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 8b75e80..4a3520f 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -232,16 +232,19 @@ void send_message(ProjectionWrapper &projection, core::MessageEndpoint &endpoint
     }
 }
 
-inline std::unordered_map<uint64_t, size_t> convert_spikes(const core::messaging::SpikeMessage &message)
+inline std::unordered_map<uint64_t, size_t> convert_spikes(const std::vector<core::messaging::SpikeMessage> &messages)
 {
     std::unordered_map<knp::core::Step, size_t> result;
-    for (auto neuron_idx : message.neuron_indexes_)
+    for (const auto &message : messages)
     {
-        auto iter = result.find(neuron_idx);
-        if (result.end() == iter)
-            result.insert({neuron_idx, 1});
-        else
-            ++(iter->second);
+        for (auto neuron_idx : message.neuron_indexes_)
+        {
+            auto iter = result.find(neuron_idx);
+            if (result.end() == iter)
+                result.insert({neuron_idx, 1});
+            else
+                ++(iter->second);
+        }
     }
     return result;
 }
@@ -264,7 +267,7 @@ void MultiThreadedCPUBackend::calculate_projections()
         }
 
         // Looping over synapses.
-        converted_message_buffer.emplace_back(convert_spikes(msg_buf[0]));
+        converted_message_buffer.emplace_back(convert_spikes(msg_buf));
         const auto proj_size = std::visit([](const auto &proj) { return proj.size(); }, projection.arg_);
         for (size_t synapse_index = 0; synapse_index < proj_size; synapse_index += projection_part_size_)
         {
-- 
2.43.0


From fa7312b612d15fe3819604eaa9d99294a14d37c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 13/57] fix: ISI period continues while the time since the last
 spike is less than its maximum

The subtraction of unsigned steps was reversed and always wrapped around, so a period never continued.
---
 .../knp/backends/cpu-library/impl/populations/training/stdp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
index d65489e..35759f4 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
@@ -105,13 +105,13 @@ neuron_traits::ISIPeriodType update_isi(
             neuron.first_isi_spike_ = step;
             break;
         case neuron_traits::ISIPeriodType::period_started:
-            if (neuron.last_step_ - step < neuron.isi_max_)
+            if (step - neuron.last_step_ < neuron.isi_max_)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_continued;
             }
             break;
         case neuron_traits::ISIPeriodType::period_continued:
-            if (neuron.last_step_ - step >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
+            if (step - neuron.last_step_ >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_started;
                 neuron.first_isi_spike_ = step;
-- 
2.43.0


From cfd6b323fd5b74c96dcbca95230f4122992debaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 14/57] fix: stability change of a dopamine reward inside the
 ISI period

The unsigned difference to the maximum ISI wrapped around, so a reward that came early reduced the stability.
---
 .../backends/cpu-library/impl/populations/altai/altai_stdp.h   | 2 +-
 .../backends/cpu-library/impl/populations/blifat/blifat_stdp.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
index b6ca4d1..b2d99d0 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
@@ -142,7 +142,7 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = step - neuron.first_isi_spike_ - neuron.isi_max_;
+                const double difference = static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_;
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - std::fabs(difference) / neuron.isi_max_, -1.0);
             }
diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
index 7e697a7..9080a8c 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
@@ -145,7 +145,8 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = std::fabs(step - neuron.first_isi_spike_ - neuron.isi_max_);
+                const double difference =
+                    std::fabs(static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_);
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - difference / neuron.isi_max_, -1.0);
             }
-- 
2.43.0


From fa3d81555aa83ac2dbfd0e434acc36fb0f8a27ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 15/57] fix: plasticity interval does not begin before step 0

When a neuron spiked earlier than the dopamine plasticity period, the interval began at a wrapped around step, so that
synapses which spiked inside the interval did not count as contributed.
---
 .../backends/cpu-library/impl/populations/altai/altai_stdp.h    | 2 +-
 .../backends/cpu-library/impl/populations/blifat/blifat_stdp.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
index b2d99d0..691f052 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
@@ -56,7 +56,7 @@ inline void process_spiking_neurons_impl(
         {
             neuron.additional_threshold_ += synapse.get().weight_ * (synapse.get().weight_ > 0);
             const bool had_spike = training::stdp::is_point_in_interval(
-                step - synapse.get().rule_.dopamine_plasticity_period_, step,
+                step - std::min<uint64_t>(step, synapse.get().rule_.dopamine_plasticity_period_), step,
                 synapse.get().rule_.last_spike_step_ + synapse.get().delay_ - 1);
             // While period continues we don't change has_contributed from true to false.
             if (neuron_traits::ISIPeriodType::period_continued != neuron.isi_status_ || had_spike)
diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
index 9080a8c..4c93ad9 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
@@ -56,7 +56,7 @@ inline void process_spiking_neurons_impl(
         {
             neuron.additional_threshold_ += synapse.get().weight_ * (synapse.get().weight_ > 0);
             const bool had_spike = training::stdp::is_point_in_interval(
-                step - synapse.get().rule_.dopamine_plasticity_period_, step,
+                step - std::min<uint64_t>(step, synapse.get().rule_.dopamine_plasticity_period_), step,
                 synapse.get().rule_.last_spike_step_ + synapse.get().delay_ - 1);
             // While period continues we don't change has_contributed from true to false.
             if (neuron_traits::ISIPeriodType::period_continued != neuron.isi_status_ || had_spike)
-- 
2.43.0


From 94cea5da98ed29f73d304824b0e4392e9e7a3615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 16/57] fix: multi-threaded backend sends one impact for each
 spike of a presynaptic neuron

Impacts of repeated spikes were merged into one with a multiplied value, which is wrong for blocking synapses: their
value is a period and does not add up.
---
 .../backends/cpu-library/impl/projections/delta/delta_impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
index ff1b2a2..3b8fd4c 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
@@ -141,12 +141,13 @@ void calculate_projection_multithreaded_impl(
         }
 
         knp::core::messaging::SynapticImpact impact{
-            synapse_index, std::get<core::synapse_data>(synapse).weight_ * iter->second,
+            synapse_index, std::get<core::synapse_data>(synapse).weight_,
             std::get<core::synapse_data>(synapse).output_type_,
             static_cast<uint32_t>(std::get<core::source_neuron_id>(synapse)),
             static_cast<uint32_t>(std::get<core::target_neuron_id>(synapse))};
 
-        container.emplace_back(key, impact);
+        // One impact for each spike.
+        container.insert(container.end(), iter->second, {key, impact});
     }
     // Add impacts to future messages queue, it is a shared resource.
     const std::lock_guard lock_guard(mutex);
-- 
2.43.0


From 1bab3ecf0d4c364d21faeb27d59807cb1ff0ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 17/57] fix: multi-threaded backend receives synaptic impacts
 sent before a step at that step

As on the single-threaded backend. They reached populations one step later.
---
 knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 4a3520f..9e829e3 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -313,6 +313,8 @@ std::vector<size_t> MultiThreadedCPUBackend::get_supported_population_indexes()
 void MultiThreadedCPUBackend::_step()
 {
     SPDLOG_DEBUG("Starting step #{}...", get_step());
+    get_message_bus().route_messages();
+    get_message_endpoint().receive_all_messages();
     calculate_populations();
     get_message_bus().route_messages();
     get_message_endpoint().receive_all_messages();
-- 
2.43.0


From a4d8674c9d33236b1cd8afd104feda1cc04f5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 18/57] fix: presynaptic history of additive STDP takes the
 spikes of the presynaptic neuron

The presynaptic spike times of a synapse were those of its postsynaptic neuron.
---
 .../cpu-library/impl/projections/training/stdp/additive_stdp.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index b3bcc8c..f3f2e2a 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -156,7 +156,7 @@ inline void init_projection(
             append_spike_times(
                 projection, msg,
                 [&projection](uint32_t neuron_index)
-                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_postsynaptic); },
+                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_presynaptic); },
                 &knp::synapse_traits::STDPAdditiveRule<Synapse>::presynaptic_spike_times_);
         }
         if (processing_type == ProcessingType::STDPOnly)
-- 
2.43.0


From 4f867f7fcb0bdf89ba56903ae385cb158fba5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 19/57] fix: additive STDP depresses synapses whose presynaptic
 spike follows the postsynaptic one

The difference of the spike times was unsigned, so such pairs never had an effect. As the time constant tau_minus is
to decrease the weight, they have a negative amplitude; simultaneous spikes keep their effect.
---
 .../impl/projections/training/stdp/additive_stdp.h        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index f3f2e2a..6fc9881 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -50,8 +50,8 @@ public:
     [[nodiscard]] float stdp_w(float weight_diff) const
     {
         // Zhang et al. 1998.
-        return weight_diff > 0 ? a_plus_ * std::exp(-weight_diff / tau_plus_)
-                               : a_minus_ * std::exp(weight_diff / tau_minus_);
+        return weight_diff >= 0 ? a_plus_ * std::exp(-weight_diff / tau_plus_)
+                                : a_minus_ * std::exp(weight_diff / tau_minus_);
     }
 
     [[nodiscard]] float stdp_delta_w(
@@ -69,7 +69,7 @@ public:
             for (const auto &t_n : postsynaptic_spikes)
             {
                 // cppcheck-suppress useStlAlgorithm
-                w_j += stdp_w(static_cast<float>(t_n - t_f));
+                w_j += stdp_w(static_cast<float>(static_cast<int64_t>(t_n - t_f)));
             }
         }
         return w_j;
@@ -184,7 +184,7 @@ inline void modify_weights(knp::core::Projection<AdditiveSTDPSynapse<Synapse>> &
 
         if (rule.presynaptic_spike_times_.size() >= period && rule.postsynaptic_spike_times_.size() >= period)
         {
-            STDPFormula stdp_formula(rule.tau_plus_, rule.tau_minus_, 1, 1);
+            STDPFormula stdp_formula(rule.tau_plus_, rule.tau_minus_, 1, -1);
             SPDLOG_TRACE("Old weight = {}.", std::get<knp::core::synapse_data>(proj).weight_);
             std::get<knp::core::synapse_data>(proj).weight_ +=
                 stdp_formula(rule.presynaptic_spike_times_, rule.postsynaptic_spike_times_);
-- 
2.43.0


From 5452b80e0b540c5d34b6b9490993b99aa633a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 20/57] fix: names and indexes of the types a backend supports

Indexes in the list of supported types were used as indexes in the list of all types.
---
 knp/meta-library/include/knp/meta/stringify.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/meta-library/include/knp/meta/stringify.h b/knp/meta-library/include/knp/meta/stringify.h
index ebcc688..0948038 100644
--- a/knp/meta-library/include/knp/meta/stringify.h
+++ b/knp/meta-library/include/knp/meta/stringify.h
@@ -92,7 +92,7 @@ std::vector<size_t> get_supported_type_indexes()
     std::vector<size_t> result;
     result.reserve(boost::mp11::mp_size<SupportedTypes>::value);
 
-    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<SupportedTypes, AllTypes>>([&result](auto i)
+    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<AllTypes, SupportedTypes>>([&result](auto i)
                                                                                         { result.push_back(i); });
 
     return result;
@@ -115,7 +115,7 @@ std::vector<std::string> get_supported_type_names(const NamesType &type_names)
     std::vector<std::string> result;
     result.reserve(boost::mp11::mp_size<SupportedTypes>::value);
 
-    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<SupportedTypes, AllTypes>>(
+    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<AllTypes, SupportedTypes>>(
         [&type_names, &result](auto i) { result.push_back(std::get<i>(type_names)); });
 
     return result;
-- 
2.43.0


From e6be35b23aadcdda6b11205ccf77646ac2bf1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 21/57] fix: UID of a CPU device depends only on its name and
 survives moving

The UID was made in a random name space, and moving a device gave it another one, so no device could be selected.
---
 knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp | 10 +++++++---
 knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp     | 14 +++++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
index 4c0f8d2..bff85f4 100644
--- a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
@@ -32,7 +32,7 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
+static const core::UID ns_uid{false};
 
 
 /**
@@ -49,11 +49,14 @@ public:
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
 {
     cpu_name_ = "Unknown CPU " + std::to_string(cpu_num_);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(ns_uid)(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_num_{std::move(other.cpu_num_)}, cpu_name_{std::move(other.cpu_name_)} {}
+CPU::CPU(CPU&& other)
+    : Device(other), cpu_num_{std::move(other.cpu_num_)}, cpu_name_{std::move(other.cpu_name_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -61,6 +64,7 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
     std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
diff --git a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
index 363ae42..be6bbd3 100644
--- a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
@@ -44,7 +44,7 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
+static const core::UID ns_uid{false};
 
 
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
@@ -55,11 +55,17 @@ CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<Cp
 
     cpu_name_ = pcm_instance->getCPUBrandString() + " " + pcm_instance->getCPUFamilyModelString() + " " +
                 std::to_string(cpu_num);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(ns_uid)(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_name_{std::move(other.cpu_name_)}, power_meter_{std::move(other.power_meter_)} {}
+CPU::CPU(CPU&& other)
+    : Device(other),
+      cpu_num_{other.cpu_num_},
+      cpu_name_{std::move(other.cpu_name_)},
+      power_meter_{std::move(other.power_meter_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -67,6 +73,8 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
+    std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
     return *this;
-- 
2.43.0


From 7d252421d89ea492f4663e6abe15b0a47eed0166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 22/57] fix: selecting devices selects every named one and
 nothing else

---
 knp/core-library/impl/backend.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 3542aea..504f523 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -166,6 +166,7 @@ void Backend::_uninit()
 
 void Backend::select_devices(const std::set<UID>& uids)
 {
+    devices_.clear();
     for (auto&& device : get_devices())
     {
         SPDLOG_DEBUG("Trying UID {}...", std::string(device->get_uid()));
@@ -173,7 +174,7 @@ void Backend::select_devices(const std::set<UID>& uids)
         {
             SPDLOG_INFO("Device with UID {} was selected.", std::string(device->get_uid()));
             devices_.push_back(std::move(device));
-            return;
+            continue;
         }
         SPDLOG_TRACE("Device with UID {} was not selected.", std::string(device->get_uid()));
     }
-- 
2.43.0


From 4159a22f7c63c0d993e602b0b546d4b225f3c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 23/57] fix: backend is not running after a predicate ended the
 run

---
 knp/core-library/impl/backend.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 504f523..0563c7b 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -89,6 +89,7 @@ void Backend::start()
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
@@ -109,6 +110,7 @@ void Backend::start(const RunPredicate& run_predicate)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
@@ -137,6 +139,7 @@ void Backend::start(const RunPredicate& pre_step, const RunPredicate& post_step)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
-- 
2.43.0


From b320606e60d5d6fe554ca59f79c6a45577d4953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 24/57] fix: remove populations and projections from CPU
 backends

---
 .../impl/backend.cpp                          | 31 +++++++++++++++++++
 .../knp/backends/cpu-multi-threaded/backend.h |  4 +--
 .../impl/backend.cpp                          | 31 +++++++++++++++++++
 .../backends/cpu-single-threaded/backend.h    |  4 +--
 4 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 9e829e3..c9f63b3 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -31,6 +31,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <functional>
 #include <unordered_map>
 #include <vector>
@@ -373,6 +374,36 @@ void MultiThreadedCPUBackend::load_all_populations(const std::vector<knp::core::
 }
 
 
+void MultiThreadedCPUBackend::remove_projections(const std::vector<knp::core::UID> &uids)
+{
+    for (const auto &uid : uids)
+    {
+        const auto removed = std::remove_if(
+            projections_.begin(), projections_.end(),
+            [&uid](const auto &projection)
+            { return std::visit([](const auto &arg) { return arg.get_uid(); }, projection.arg_) == uid; });
+        if (removed == projections_.end()) continue;
+        projections_.erase(removed, projections_.end());
+        get_message_endpoint().remove_receiver(uid);
+    }
+}
+
+
+void MultiThreadedCPUBackend::remove_populations(const std::vector<knp::core::UID> &uids)
+{
+    for (const auto &uid : uids)
+    {
+        const auto removed = std::remove_if(
+            populations_.begin(), populations_.end(),
+            [&uid](const auto &population)
+            { return std::visit([](const auto &arg) { return arg.get_uid(); }, population) == uid; });
+        if (removed == populations_.end()) continue;
+        populations_.erase(removed, populations_.end());
+        get_message_endpoint().remove_receiver(uid);
+    }
+}
+
+
 std::vector<std::unique_ptr<knp::core::Device>> MultiThreadedCPUBackend::get_devices() const
 {
     std::vector<std::unique_ptr<knp::core::Device>> result;
diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h b/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
index 68ed000..84a4c37 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
@@ -315,14 +315,14 @@ public:
      *
      * @param uids UIDs of projections to remove.
      */
-    void remove_projections(const std::vector<knp::core::UID> &uids) override {}
+    void remove_projections(const std::vector<knp::core::UID> &uids) override;
 
     /**
      * @brief Remove populations with given UIDs from the backend.
      *
      * @param uids UIDs of populations to remove.
      */
-    void remove_populations(const std::vector<knp::core::UID> &uids) override {}
+    void remove_populations(const std::vector<knp::core::UID> &uids) override;
 
 public:
     /**
diff --git a/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
index 40c8f12..3515e18 100644
--- a/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
@@ -32,6 +32,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <vector>
 
 #include <boost/mp11.hpp>
@@ -186,6 +187,36 @@ void SingleThreadedCPUBackend::load_all_populations(const std::vector<knp::core:
 }
 
 
+void SingleThreadedCPUBackend::remove_projections(const std::vector<knp::core::UID> &uids)
+{
+    for (const auto &uid : uids)
+    {
+        const auto removed = std::remove_if(
+            projections_.begin(), projections_.end(),
+            [&uid](const auto &projection)
+            { return std::visit([](const auto &arg) { return arg.get_uid(); }, projection.arg_) == uid; });
+        if (removed == projections_.end()) continue;
+        projections_.erase(removed, projections_.end());
+        get_message_endpoint().remove_receiver(uid);
+    }
+}
+
+
+void SingleThreadedCPUBackend::remove_populations(const std::vector<knp::core::UID> &uids)
+{
+    for (const auto &uid : uids)
+    {
+        const auto removed = std::remove_if(
+            populations_.begin(), populations_.end(),
+            [&uid](const auto &population)
+            { return std::visit([](const auto &arg) { return arg.get_uid(); }, population) == uid; });
+        if (removed == populations_.end()) continue;
+        populations_.erase(removed, populations_.end());
+        get_message_endpoint().remove_receiver(uid);
+    }
+}
+
+
 std::vector<std::unique_ptr<knp::core::Device>> SingleThreadedCPUBackend::get_devices() const
 {
     std::vector<std::unique_ptr<knp::core::Device>> result;
diff --git a/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h b/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
index 5cbb49d..e346e30 100644
--- a/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
+++ b/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
@@ -284,14 +284,14 @@ public:
      *
      * @param uids UIDs of projections to remove.
      */
-    void remove_projections(const std::vector<knp::core::UID> &uids) override {}
+    void remove_projections(const std::vector<knp::core::UID> &uids) override;
 
     /**
      * @brief Remove populations with given UIDs from the backend.
      *
      * @param uids UIDs of populations to remove.
      */
-    void remove_populations(const std::vector<knp::core::UID> &uids) override {}
+    void remove_populations(const std::vector<knp::core::UID> &uids) override;
 
 public:
     /**
-- 
2.43.0


From 080edd2fcc9a0f2267e9e7c3602d871ee7e9e195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:53 +0000
Subject: [PATCH 25/57] fix: posting a task to the thread pool does not wait
 for the task

---
 .../thread_pool/thread_pool_executor.h        | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
index 95fab97..f9e8ca3 100644
--- a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
+++ b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
@@ -52,6 +52,19 @@ public:
     {
     }
 
+    /**
+     * @brief Copy pool executor.
+     * 
+     * @details Both executors count the same tasks. The destructor of a copy does not wait for them, otherwise
+     * `boost::asio::post`, which makes temporary copies of an executor, would return after the task is completed.
+     * 
+     * @param other executor to copy.
+     */
+    ThreadPoolExecutor(const ThreadPoolExecutor &other)
+        : context_(other.context_), task_count_(other.task_count_), is_copy_(true)
+    {
+    }
+
     /**
      * @brief Get thread pool context.
      * 
@@ -94,7 +107,10 @@ public:
     /**
      * @brief Blocking destructor that waits for all tasks to be completed.
      */
-    ~ThreadPoolExecutor() { join(); }
+    ~ThreadPoolExecutor()
+    {
+        if (!is_copy_) join();
+    }
 
 private:
     template <class Func>
@@ -148,6 +164,7 @@ private:
 
     ThreadPoolContext &context_;
     std::shared_ptr<size_t> task_count_;
+    const bool is_copy_ = false;
 };
 
 }  // namespace knp::backends::cpu_executors
-- 
2.43.0


From 2a77e124d3edc2274720e6c88ea22882a1f96605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 26/57] fix: channels whose UIDs share a hash bucket are not
 joined into one

---
 knp/base-framework/impl/model_loader.cpp | 33 ++++++++----------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/knp/base-framework/impl/model_loader.cpp b/knp/base-framework/impl/model_loader.cpp
index 2770968..96e4261 100644
--- a/knp/base-framework/impl/model_loader.cpp
+++ b/knp/base-framework/impl/model_loader.cpp
@@ -34,31 +34,20 @@ void ModelLoader::init_channels(
     knp::framework::Model &model, const std::unordered_multimap<core::UID, core::UID, core::uid_hash> &channels,
     GenType channel_gen)
 {
-    for (size_t i = 0; i < channels.bucket_count(); ++i)
+    // Equal keys are adjacent in the container, but a bucket may contain several different keys.
+    for (auto channel_iter = channels.begin(); channel_iter != channels.end();)
     {
-        auto bucket_iter = channels.begin(i);
-        if (channels.end(i) == bucket_iter) continue;
-        auto channel_uid = bucket_iter->first;
+        const auto channel_uid = channel_iter->first;
 
         std::vector<core::UID> p_uids;
-        p_uids.reserve(channels.bucket_size(i));
-
-        std::transform(
-            bucket_iter, channels.end(i), std::back_inserter(p_uids),
-#ifdef __clang__
-#    pragma clang diagnostic push
-#    pragma clang diagnostic ignored "-Wunused-lambda-capture"
-#endif
-            [&channel_uid](const auto &bucket)
-            {
-                SPDLOG_TRACE(
-                    "Inserting channel {} peer bucket UID = {}...", std::string(channel_uid),
-                    std::string(bucket.second));
-                return bucket.second;
-            });
-#ifdef __clang__
-#    pragma clang diagnostic pop
-#endif
+
+        for (const auto channel_end = channels.equal_range(channel_uid).second; channel_iter != channel_end;
+             ++channel_iter)
+        {
+            SPDLOG_TRACE(
+                "Inserting channel {} peer UID = {}...", std::string(channel_uid), std::string(channel_iter->second));
+            p_uids.push_back(channel_iter->second);
+        }
         (this->*channel_gen)(model, channel_uid, p_uids);
     }
 }
-- 
2.43.0


From 0b963ca9ab7eb60bc5dcde7a12902ee64392a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 27/57] fix: inputs of a step are not sent when the predicate
 ends the run before it

---
 knp/base-framework/impl/model_executor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/model_executor.cpp b/knp/base-framework/impl/model_executor.cpp
index 71c18be..1b50e13 100644
--- a/knp/base-framework/impl/model_executor.cpp
+++ b/knp/base-framework/impl/model_executor.cpp
@@ -96,13 +96,14 @@ void ModelExecutor::start(core::Backend::RunPredicate run_predicate)
     get_backend()->start(
         [this, run_predicate](knp::core::Step step)
         {
+            // Run user predicate. If it ends the run, the step is not executed, so its inputs must not be sent.
+            if (!run_predicate(step)) return false;
             // Sending inputs from the channels.
             for (auto &i_ch : loader_.get_inputs())
             {
                 i_ch.send(step);
             }
-            // Run user predicate.
-            return run_predicate(step);
+            return true;
         },
         [this](knp::core::Step)
         {
-- 
2.43.0


From bc4876842afc352f1f116470fe2723f2c240a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 28/57] fix: reading an output channel for a huge or empty
 interval of steps

---
 knp/base-framework/impl/output_channel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/output_channel.cpp b/knp/base-framework/impl/output_channel.cpp
index 056f217..213e1b7 100644
--- a/knp/base-framework/impl/output_channel.cpp
+++ b/knp/base-framework/impl/output_channel.cpp
@@ -56,11 +56,11 @@ std::vector<core::messaging::SpikeMessage> OutputChannel::read_some_from_buffer(
 {
     std::vector<core::messaging::SpikeMessage> result;
 
-    result.reserve(starting_step + final_step + 1);
     // Here we assume that buffer is sorted.
     auto begin_iter = std::lower_bound(message_buffer_.begin(), message_buffer_.end(), starting_step, comp_lower);
-    auto end_iter = std::upper_bound(message_buffer_.begin(), message_buffer_.end(), final_step, comp_upper);
+    auto end_iter = std::upper_bound(begin_iter, message_buffer_.end(), final_step, comp_upper);
 
+    result.reserve(std::distance(begin_iter, end_iter));
     std::move(begin_iter, end_iter, std::back_inserter(result));
     message_buffer_.erase(begin_iter, end_iter);
     return result;
-- 
2.43.0


From 5ae5d9764a6955b3b99f5f8d4503e8290c41f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 29/57] fix: sequence converter does not interpret an
 uninitialised value when its stream ends

---
 .../knp/framework/io/in_converters/sequence_converter.h      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
index fbae413..9bab543 100644
--- a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
+++ b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
@@ -80,8 +80,9 @@ public:
         core::messaging::SpikeData message_data;
         for (size_t i = 0; i < data_size_; ++i)
         {
-            ValueType value;
-            *stream_ >> value;
+            ValueType value{};
+            // There are no spikes where the stream has no values.
+            if (!(*stream_ >> value)) break;
             if (interpret_(value))
             {
                 message_data.push_back(i);
-- 
2.43.0


From 6fa2aaf161f0f0fe5886fb6646380646147dbbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 30/57] fix: select no groups in GroupWtaRandomHandler when no
 winners are requested

---
 knp/base-framework/impl/message_handlers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/message_handlers.cpp b/knp/base-framework/impl/message_handlers.cpp
index e7c6cb6..15d81b7 100644
--- a/knp/base-framework/impl/message_handlers.cpp
+++ b/knp/base-framework/impl/message_handlers.cpp
@@ -69,7 +69,7 @@ knp::core::messaging::SpikeData KWtaRandomHandler::operator()(std::vector<knp::c
 knp::core::messaging::SpikeData GroupWtaRandomHandler::operator()(
     const std::vector<knp::core::messaging::SpikeMessage> &messages)
 {
-    if (messages.empty())
+    if (messages.empty() || 0 == num_winners_)
     {
         return {};
     }
-- 
2.43.0


From fb6ac8eef2b397c0bbf3ff8f4c1991edeafa46d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 31/57] fix: honour the logging period in the model status
 logger

---
 knp/base-framework/impl/monitoring/model.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/knp/base-framework/impl/monitoring/model.cpp b/knp/base-framework/impl/monitoring/model.cpp
index 7d9e255..7a50d52 100644
--- a/knp/base-framework/impl/monitoring/model.cpp
+++ b/knp/base-framework/impl/monitoring/model.cpp
@@ -231,10 +231,13 @@ void add_status_logger(
         std::visit([&populations_uids](auto const &neuron) { populations_uids.push_back(neuron.get_uid()); }, neuron);
     }
     model_executor.add_observer<knp::core::messaging::SpikeMessage>(
-        [&log_stream](const std::vector<knp::core::messaging::SpikeMessage> &messages)
+        [&log_stream, &model_executor, logging_period, messages_amount = static_cast<size_t>(0)](
+            const std::vector<knp::core::messaging::SpikeMessage> &messages) mutable
         {
-            if (messages.empty()) return;
-            log_stream << messages.size() << std::endl;
+            messages_amount += messages.size();
+            if (model_executor.get_backend()->get_step() % logging_period != 0 || 0 == messages_amount) return;
+            log_stream << messages_amount << std::endl;
+            messages_amount = 0;
         },
         populations_uids);
 }
-- 
2.43.0


From f7a36a8f61904a883ab1674d50e272b97d63856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 32/57] fix: keep aligned connections in range when population
 sizes are not divisible

---
 .../include/knp/framework/projection/synapse_generators.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/projection/synapse_generators.h b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
index 9333512..32f4791 100644
--- a/knp/base-framework/include/knp/framework/projection/synapse_generators.h
+++ b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
@@ -100,20 +100,18 @@ template <typename SynapseType>
             syn_gen](size_t index) -> std::optional<typename knp::core::Projection<SynapseType>::Synapse>
     {
         size_t from_index = 0;
-        size_t pack_size = 0;
         size_t to_index = 0;
 
+        // Sizes may be not divisible: neurons of the larger population are distributed evenly anyway.
         if (presynaptic_pop_size >= postsynaptic_pop_size)
         {
             from_index = index;
-            pack_size = presynaptic_pop_size / postsynaptic_pop_size;
-            to_index = index / pack_size;
+            to_index = index * postsynaptic_pop_size / presynaptic_pop_size;
         }
         else
         {
             to_index = index;
-            pack_size = postsynaptic_pop_size / presynaptic_pop_size;
-            from_index = index / pack_size;
+            from_index = index * presynaptic_pop_size / postsynaptic_pop_size;
         }
         return std::make_tuple(syn_gen(from_index, to_index), from_index, to_index);
     };
-- 
2.43.0


From 7803ee4079e10ccf5052e513268a0cef11a33056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 33/57] fix: last label of a dataset without a trailing newline
 and images cut short

---
 .../impl/data_processing/classification/dataset.cpp  |  2 +-
 .../impl/data_processing/classification/image.cpp    | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/knp/base-framework/impl/data_processing/classification/dataset.cpp b/knp/base-framework/impl/data_processing/classification/dataset.cpp
index b23f457..cea89a4 100644
--- a/knp/base-framework/impl/data_processing/classification/dataset.cpp
+++ b/knp/base-framework/impl/data_processing/classification/dataset.cpp
@@ -29,7 +29,7 @@ namespace knp::framework::data_processing::classification
 
 void Dataset::split(size_t frames_for_training, size_t frames_for_inference)
 {
-    if (dataset_.size() < frames_for_inference + frames_for_training)
+    if (dataset_.size() < frames_for_training || dataset_.size() - frames_for_training < frames_for_inference)
     {
         SPDLOG_ERROR(
             "Incorrect split size. Dataset is too small. Required {} frames for training, and {} frames for inference, "
diff --git a/knp/base-framework/impl/data_processing/classification/image.cpp b/knp/base-framework/impl/data_processing/classification/image.cpp
index 68f1d81..bf1a9c5 100644
--- a/knp/base-framework/impl/data_processing/classification/image.cpp
+++ b/knp/base-framework/impl/data_processing/classification/image.cpp
@@ -38,19 +38,17 @@ void Dataset::process_labels_and_images(
 
     dataset_.reserve(max_images_amount);
 
-    while (images_stream.good() && labels_stream.good())
+    for (size_t i = 0; i < max_images_amount; ++i)
     {
-        images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size);
-        auto spikes_frame = image_to_spikes(image_reading_buffer);
+        // Neither a partial image nor an image without a label is a part of the dataset.
+        if (!images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size)) break;
 
         std::string str;
-        if (!std::getline(labels_stream, str).good()) break;
+        if (!std::getline(labels_stream, str)) break;
         int label = std::stoi(str);
 
         // Push to training data set because we dont know dataset size yet for a split
-        dataset_.push_back({label, std::move(spikes_frame)});
-
-        if (dataset_.size() == max_images_amount) break;
+        dataset_.push_back({label, image_to_spikes(image_reading_buffer)});
     }
 }
 
-- 
2.43.0


From fb983917a6ba24dff8397075610a0c6f2c5f95de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 34/57] fix: position_network is defined as it is declared

---
 knp/base-framework/impl/visualizer/visualize_network.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/visualizer/visualize_network.cpp b/knp/base-framework/impl/visualizer/visualize_network.cpp
index 97cef63..80e7e65 100644
--- a/knp/base-framework/impl/visualizer/visualize_network.cpp
+++ b/knp/base-framework/impl/visualizer/visualize_network.cpp
@@ -507,8 +507,7 @@ void position_network_test(
  * @return node coordinates.
  */
 std::vector<cv::Point2i> position_network(
-    const NetworkGraph &graph, const std::vector<int> &nodes, const cv::Size &screen_size, int margin,
-    int num_iterations)
+    const NetworkGraph &graph, const std::vector<int> &nodes, cv::Size screen_size, int margin, int num_iterations)
 {
     VisualGraph vis_graph(nodes, build_adjacency_list(graph));
     vis_graph.iterate(num_iterations);
-- 
2.43.0


From d71cecd14dd4b3d730793b882148c5bd11d22363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 35/57] fix: visualizer skips projections to populations that
 are not in the network

---
 knp/base-framework/impl/visualizer/visualize_network.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/base-framework/impl/visualizer/visualize_network.cpp b/knp/base-framework/impl/visualizer/visualize_network.cpp
index 80e7e65..759a4cb 100644
--- a/knp/base-framework/impl/visualizer/visualize_network.cpp
+++ b/knp/base-framework/impl/visualizer/visualize_network.cpp
@@ -159,6 +159,8 @@ AdjacencyList build_adjacency_list(const NetworkGraph &graph)
     adj_list.resize(graph.nodes_.size() + 1);
     for (const auto &edge : graph.edges_)
     {
+        // The target population is not in the graph.
+        if (edge.index_to_ < 0) continue;
         int index = edge.index_from_;
         if (index < 0) index = static_cast<int>(graph.nodes_.size());
         adj_list[index].push_back(edge.index_to_);
-- 
2.43.0


From 16a2f3a3467d2759fa460f989d8a2b2214b28739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 36/57] fix: edges to nodes that are not drawn do not attract
 the first drawn node

---
 knp/base-framework/impl/visualizer/graph_physics.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/visualizer/graph_physics.cpp b/knp/base-framework/impl/visualizer/graph_physics.cpp
index e8c36f8..9b3eb29 100644
--- a/knp/base-framework/impl/visualizer/graph_physics.cpp
+++ b/knp/base-framework/impl/visualizer/graph_physics.cpp
@@ -44,7 +44,11 @@ VisualGraph::VisualGraph(const std::vector<int> &nodes, const std::vector<std::v
     for (auto &edge : edges_mat_) edge.resize(nodes.size());
     for (size_t i = 0; i < nodes.size(); ++i)
     {
-        for (size_t index : adj_list[points_[i].index_]) edges_mat_[i][point_by_original_index[index]] = true;
+        for (size_t index : adj_list[points_[i].index_])
+        {
+            auto point_iter = point_by_original_index.find(index);
+            if (point_iter != point_by_original_index.end()) edges_mat_[i][point_iter->second] = true;
+        }
     }
 }
 
-- 
2.43.0


From 019e41ffa51990158be876bbc25f5b2f5987a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 37/57] fix: drawn subgraph is annotated with the names of its
 own nodes

---
 knp/base-framework/impl/visualizer/visualize_network.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/visualizer/visualize_network.cpp b/knp/base-framework/impl/visualizer/visualize_network.cpp
index 759a4cb..3d8e3c4 100644
--- a/knp/base-framework/impl/visualizer/visualize_network.cpp
+++ b/knp/base-framework/impl/visualizer/visualize_network.cpp
@@ -270,7 +270,7 @@ cv::Mat draw_annotated_subgraph(
         cv::circle(
             out_img, {static_cast<int>(point.x), static_cast<int>(point.y)}, params.node_radius, params.node_color, -1);
         cv::Point2i text_start = point;
-        std::string name = graph.nodes_[i].name_;
+        std::string name = graph.nodes_[nodes[i]].name_;
         int baseline = 0;
         auto text_size = cv::getTextSize(name, cv::FONT_HERSHEY_SIMPLEX, 0.7, 2, &baseline);
         text_start.x = std::max(params.text_margin, text_start.x - text_size.width / 2);
-- 
2.43.0


From 7acd3749f2e1f73a5e8f22e2977954b002670333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 38/57] fix: a backend library stays loaded while something
 that it made exists

---
 knp/base-framework/impl/backend_loader.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/knp/base-framework/impl/backend_loader.cpp b/knp/base-framework/impl/backend_loader.cpp
index 4d2f322..9edb77c 100644
--- a/knp/base-framework/impl/backend_loader.cpp
+++ b/knp/base-framework/impl/backend_loader.cpp
@@ -24,6 +24,8 @@
 #include <spdlog/spdlog.h>
 
 #include <functional>
+#include <mutex>
+#include <vector>
 
 #include <boost/dll/import.hpp>
 
@@ -31,6 +33,20 @@
 namespace knp::framework
 {
 
+namespace
+{
+// Backends and the objects they create, such as message endpoints, can outlive the loader, and their code is in the
+// backend library. So a loaded backend library stays loaded until the process ends.
+void keep_loaded(const std::function<BackendLoader::BackendCreateFunction> &creator)
+{
+    static std::mutex mutex;
+    static auto *loaded = new std::vector<std::function<BackendLoader::BackendCreateFunction>>();
+    const std::lock_guard<std::mutex> lock(mutex);
+    loaded->push_back(creator);
+}
+}  // namespace
+
+
 std::function<BackendLoader::BackendCreateFunction> BackendLoader::make_creator(
     const std::filesystem::path &backend_path)
 {
@@ -49,6 +65,7 @@ std::function<BackendLoader::BackendCreateFunction> BackendLoader::make_creator(
     SPDLOG_DEBUG("Created backend creator.");
 
     creators_[backend_path.string()] = creator;
+    keep_loaded(creator);
 
     return creator;
 }
-- 
2.43.0


From 4cc11096c2758ba0719892adc371dbf0f17a66b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 39/57] fix: is_reset of AltAI neurons in Python is not is_diff

---
 knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp b/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
index f263c62..1a85a10 100644
--- a/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
+++ b/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
@@ -34,7 +34,7 @@ void export_altai_lif()
             "neuron receives a spike, the `potential` parameter takes a value by which the potential threshold is "
             "exceeded.")
         .add_property(
-            "is_reset", &alif_params::is_diff_,
+            "is_reset", &alif_params::is_reset_,
             "If `is_reset` flag is set to `true` and neuron potential exceeds its threshold value after the neuron "
             "receives a spike, the `potential` parameter takes a value of the `potential_reset_value` parameter.")
         .add_property(
-- 
2.43.0


From e00ac118b249d0550c6669bdf18e3ff4c73060a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 40/57] fix: networks and output channels taken in Python keep
 their owners

---
 knp/python-framework/impl/base_framework/cpp/model.cpp          | 2 +-
 knp/python-framework/impl/base_framework/cpp/model_executor.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/python-framework/impl/base_framework/cpp/model.cpp b/knp/python-framework/impl/base_framework/cpp/model.cpp
index cbe1ab9..e7408c1 100644
--- a/knp/python-framework/impl/base_framework/cpp/model.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/model.cpp
@@ -33,7 +33,7 @@ void export_model()
         // .add_property("tags", &knp::framework::Model::get_tags)
         .add_property(
             "network",
-            py::make_function(&get_network_from_model, py::return_value_policy<py::reference_existing_object>()),
+            py::make_function(&get_network_from_model, py::return_internal_reference<>()),
             &set_network_to_model, "Network associated with model.")
         .add_property("input_channels", &get_model_input_channels, "Return all input channels UIDs.")
         .add_property("output_channels", &get_model_output_channels, "Return all output channels UIDs.");
diff --git a/knp/python-framework/impl/base_framework/cpp/model_executor.cpp b/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
index 1f049f7..eb4f330 100644
--- a/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
@@ -39,6 +39,6 @@ void export_model_executor()
         .def("stop_learning", &knp::framework::ModelExecutor::stop_learning, "Lock synapse weights.")
         .def("get_backend", &knp::framework::ModelExecutor::get_backend, "Get reference of backend object.")
         .def(
-            "get_output_channel", &get_output_channel, py::return_value_policy<py::reference_existing_object>(),
+            "get_output_channel", &get_output_channel, py::return_internal_reference<>(),
             "Get output channel reference.");
 }
-- 
2.43.0


From daed2718a3f6c0c60b883b0dbfa42b0e2340e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 41/57] fix: save networks without populations or projections
 in SONATA format

---
 knp/base-framework/impl/sonata/save_network.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/sonata/save_network.cpp b/knp/base-framework/impl/sonata/save_network.cpp
index a1564cf..94eece2 100644
--- a/knp/base-framework/impl/sonata/save_network.cpp
+++ b/knp/base-framework/impl/sonata/save_network.cpp
@@ -87,7 +87,7 @@ std::string make_projections_list(const Network &network)
             },
             *iter);
     }
-    result.resize(result.size() - 1);  // Remove last comma.
+    if (!result.empty()) result.pop_back();  // Remove last comma.
     return result;
 }
 
@@ -105,7 +105,7 @@ std::string make_populations_list(const Network &network)
             },
             *iter);
     }
-    result.resize(result.size() - 1);  // Remove last comma.
+    if (!result.empty()) result.pop_back();  // Remove last comma.
     return result;
 }
 
-- 
2.43.0


From 0cd3319b9745c416d051c6605d6cfe37b674bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 42/57] fix: load populations and projections without elements
 from SONATA format

---
 .../impl/sonata/load_network.cpp              | 16 ++++++++++----
 .../impl/sonata/save_network.cpp              | 22 +++++++++++++++++--
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/knp/base-framework/impl/sonata/load_network.cpp b/knp/base-framework/impl/sonata/load_network.cpp
index cb21d6d..f413f83 100644
--- a/knp/base-framework/impl/sonata/load_network.cpp
+++ b/knp/base-framework/impl/sonata/load_network.cpp
@@ -60,6 +60,16 @@ std::vector<std::string> get_projection_names(const HighFive::File &file)
 }
 
 
+int read_type_id(const HighFive::Group &group, const std::string &name)
+{
+    if (group.hasAttribute(name)) return group.getAttribute(name).read<int>();
+
+    const auto types = group.getDataSet(name).read<std::vector<int>>();
+    if (types.empty()) throw std::runtime_error("Could not find type in dataset \"" + name + "\".");
+    return types[0];  // One type only.
+}
+
+
 std::vector<core::AllProjectionsVariant> load_projections(const fs::path &proj_h5_file)
 {
     if (!fs::is_regular_file(proj_h5_file))
@@ -72,8 +82,7 @@ std::vector<core::AllProjectionsVariant> load_projections(const fs::path &proj_h
     for (size_t i = 0; i < num_projections; ++i)
     {
         std::string proj_name = group.getObjectName(i);
-        int proj_type =
-            group.getGroup(proj_name).getDataSet("edge_type_id").read<std::vector<int>>()[0];  // One type only.
+        int proj_type = read_type_id(group.getGroup(proj_name), "edge_type_id");
         // TODO: Check if type is in type_file.
         if (proj_type == get_synapse_type_id<synapse_traits::DeltaSynapse>())
             result.emplace_back(load_projection<synapse_traits::DeltaSynapse>(group, proj_name));
@@ -100,8 +109,7 @@ std::vector<core::AllPopulationsVariant> load_populations(const fs::path &pop_h5
     for (size_t i = 0; i < num_populations; ++i)
     {
         const std::string proj_name = group.getObjectName(i);
-        const int neuron_type =
-            group.getGroup(proj_name).getDataSet("node_type_id").read<std::vector<int>>()[0];  // One type only.
+        const int neuron_type = read_type_id(group.getGroup(proj_name), "node_type_id");
         // Check if type is in type_file.
         if (neuron_type == get_neuron_type_id<neuron_traits::BLIFATNeuron>())
             result.emplace_back(load_population<neuron_traits::BLIFATNeuron>(group, proj_name));
diff --git a/knp/base-framework/impl/sonata/save_network.cpp b/knp/base-framework/impl/sonata/save_network.cpp
index 94eece2..aa11f6b 100644
--- a/knp/base-framework/impl/sonata/save_network.cpp
+++ b/knp/base-framework/impl/sonata/save_network.cpp
@@ -161,7 +161,16 @@ KNP_DECLSPEC void save_network(const Network &network, const fs::path &dir)
 
     for (auto iter = network.begin_projections(); iter != network.end_projections(); ++iter)
     {
-        std::visit([&h5_proj_file](const auto &projection) { add_projection_to_h5(h5_proj_file, projection); }, *iter);
+        std::visit(
+            [&h5_proj_file](const auto &projection)
+            {
+                using SynapseType = typename std::decay_t<decltype(projection)>::ProjectionSynapseType;
+                add_projection_to_h5(h5_proj_file, projection);
+                // Type of the projection, as there can be no synapses to have it.
+                h5_proj_file.getGroup("edges/" + std::string(projection.get_uid()))
+                    .createAttribute("edge_type_id", get_synapse_type_id<SynapseType>());
+            },
+            *iter);
         std::visit(
             [&path_to_synapse_csv](const auto &projection) {
                 add_synapse_type_to_csv<typename std::decay_t<decltype(projection)>::ProjectionSynapseType>(
@@ -176,7 +185,16 @@ KNP_DECLSPEC void save_network(const Network &network, const fs::path &dir)
     h5_pop_file.createGroup("nodes");
     for (auto iter = network.begin_populations(); iter != network.end_populations(); ++iter)
     {
-        std::visit([&h5_pop_file](const auto &population) { add_population_to_h5(h5_pop_file, population); }, *iter);
+        std::visit(
+            [&h5_pop_file](const auto &population)
+            {
+                using NeuronType = typename std::decay_t<decltype(population)>::PopulationNeuronType;
+                add_population_to_h5(h5_pop_file, population);
+                // Type of the population, as there can be no neurons to have it.
+                h5_pop_file.getGroup("nodes/" + std::string(population.get_uid()))
+                    .createAttribute("node_type_id", get_neuron_type_id<NeuronType>());
+            },
+            *iter);
         std::visit(
             [&path_to_neurons_csv](const auto &population)
             {
-- 
2.43.0


From 954b8d7cd04f47f8f889773a3b02a51faedc45a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:57 +0000
Subject: [PATCH 43/57] fix: keep all neuron parameters in SONATA format

---
 knp/base-framework/impl/sonata/types/altai_lif_neuron.cpp | 8 ++++++++
 knp/base-framework/impl/sonata/types/blifat_neuron.cpp    | 4 ++++
 knp/base-framework/impl/sonata/types/lif_neuron.cpp       | 2 ++
 .../impl/sonata/types/resource_altai_lif_neuron.cpp       | 8 ++++++++
 .../impl/sonata/types/resource_blifat_neuron.cpp          | 4 ++++
 5 files changed, 26 insertions(+)

diff --git a/knp/base-framework/impl/sonata/types/altai_lif_neuron.cpp b/knp/base-framework/impl/sonata/types/altai_lif_neuron.cpp
index df1121d..d41020f 100644
--- a/knp/base-framework/impl/sonata/types/altai_lif_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/altai_lif_neuron.cpp
@@ -64,6 +64,10 @@ void save_dynamic(const core::Population<neuron_traits::AltAILIF> &population, H
     SPDLOG_TRACE("Saving AltAI-LIF neurons dynamic parameters.");
     auto dyn_group = group0.createGroup(dynamic_subgroup_name);
     PUT_NEURON_TO_DATASET(population, potential_, dyn_group);
+    PUT_NEURON_TO_DATASET(population, pre_impact_potential_, dyn_group);
+    PUT_NEURON_TO_DATASET(population, dopamine_value_, dyn_group);
+    PUT_NEURON_TO_DATASET(population, additional_threshold_, dyn_group);
+    PUT_NEURON_TO_DATASET(population, activity_time_, dyn_group);
 }
 
 
@@ -102,6 +106,10 @@ void load_dynamic_parameters(
     const size_t group_size = target.size();
     auto dyn_group = group0.getGroup(dynamic_subgroup_name);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, potential_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, pre_impact_potential_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, dopamine_value_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, additional_threshold_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, activity_time_, dyn_group, group_size);
 }
 
 
diff --git a/knp/base-framework/impl/sonata/types/blifat_neuron.cpp b/knp/base-framework/impl/sonata/types/blifat_neuron.cpp
index 59efd1b..801cbf0 100644
--- a/knp/base-framework/impl/sonata/types/blifat_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/blifat_neuron.cpp
@@ -78,6 +78,7 @@ void save_dynamic(const core::Population<knp::neuron_traits::BLIFATNeuron> &popu
     PUT_NEURON_TO_DATASET(population, bursting_phase_, dynamic_group);
     PUT_NEURON_TO_DATASET(population, total_blocking_period_, dynamic_group);
     PUT_NEURON_TO_DATASET(population, dopamine_value_, dynamic_group);
+    PUT_NEURON_TO_DATASET(population, additional_threshold_, dynamic_group);
     PUT_NEURON_TO_DATASET(population, random_number_generator_state_, dynamic_group);
 }
 
@@ -113,6 +114,7 @@ void load_static_parameters(
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, absolute_refractory_period_, group0, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, potential_reset_value_, group0, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, min_potential_, group0, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, stochastic_stimulation_, group0, group_size);
 }
 
 
@@ -127,6 +129,8 @@ void load_dynamic_parameters(
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, bursting_phase_, dyn_group, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, total_blocking_period_, dyn_group, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, dopamine_value_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, additional_threshold_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, random_number_generator_state_, dyn_group, group_size);
 }
 
 
diff --git a/knp/base-framework/impl/sonata/types/lif_neuron.cpp b/knp/base-framework/impl/sonata/types/lif_neuron.cpp
index 0f9ea84..39f0600 100644
--- a/knp/base-framework/impl/sonata/types/lif_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/lif_neuron.cpp
@@ -50,6 +50,7 @@ void save_static(const core::Population<neuron_traits::LIFNeuron> &population, H
     PUT_NEURON_TO_DATASET(population, activation_threshold_, group);
     PUT_NEURON_TO_DATASET(population, leak_coefficient_, group);
     PUT_NEURON_TO_DATASET(population, refract_period_, group);
+    PUT_NEURON_TO_DATASET(population, potential_reset_value_, group);
 }
 
 
@@ -81,6 +82,7 @@ void load_static_parameters(
     LOAD_NEURONS_PARAMETER(target, neuron_traits::LIFNeuron, activation_threshold_, group0, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::LIFNeuron, leak_coefficient_, group0, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::LIFNeuron, refract_period_, group0, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::LIFNeuron, potential_reset_value_, group0, group_size);
 }
 
 
diff --git a/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp b/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
index 590fb0b..b323aab 100644
--- a/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/resource_altai_lif_neuron.cpp
@@ -84,6 +84,7 @@ void add_population_to_h5<core::Population<knp::neuron_traits::SynapticResourceS
     PUT_NEURON_TO_DATASET(population, potential_reset_value_, group);
     // Synaptic rule parameters.
     PUT_NEURON_TO_DATASET(population, free_synaptic_resource_, group);
+    PUT_NEURON_TO_DATASET(population, synapse_sum_threshold_coefficient_, group);
     PUT_NEURON_TO_DATASET(population, synaptic_resource_threshold_, group);
     PUT_NEURON_TO_DATASET(population, resource_drain_coefficient_, group);
     PUT_NEURON_TO_DATASET(population, stability_, group);
@@ -110,6 +111,9 @@ void add_population_to_h5<core::Population<knp::neuron_traits::SynapticResourceS
     auto dynamic_group = group.createGroup("dynamics_params");
     PUT_NEURON_TO_DATASET(population, dopamine_value_, dynamic_group);
     PUT_NEURON_TO_DATASET(population, additional_threshold_, dynamic_group);
+    PUT_NEURON_TO_DATASET(population, potential_, dynamic_group);
+    PUT_NEURON_TO_DATASET(population, pre_impact_potential_, dynamic_group);
+    PUT_NEURON_TO_DATASET(population, activity_time_, dynamic_group);
 }
 
 
@@ -149,6 +153,7 @@ load_population<neuron_traits::SynapticResourceSTDPAltAILIFNeuron>(
     LOAD_NEURONS_PARAMETER_DEF(target, potential_reset_value_, group, group_size, default_params);
     // Synaptic rule parameters.
     LOAD_NEURONS_PARAMETER_DEF(target, free_synaptic_resource_, group, group_size, default_params);
+    LOAD_NEURONS_PARAMETER_DEF(target, synapse_sum_threshold_coefficient_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, synaptic_resource_threshold_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, resource_drain_coefficient_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, stability_, group, group_size, default_params);
@@ -174,6 +179,9 @@ load_population<neuron_traits::SynapticResourceSTDPAltAILIFNeuron>(
     auto dyn_group = group.getGroup("dynamics_params");
     LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, dopamine_value_, dyn_group, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, additional_threshold_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, potential_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, pre_impact_potential_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::AltAILIF, activity_time_, dyn_group, group_size);
 
     const knp::core::UID uid{boost::lexical_cast<boost::uuids::uuid>(population_name)};
     return core::Population<ResourceNeuron>(
diff --git a/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp b/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
index b487cbc..0f0db1d 100644
--- a/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
+++ b/knp/base-framework/impl/sonata/types/resource_blifat_neuron.cpp
@@ -95,6 +95,7 @@ void add_population_to_h5<core::Population<knp::neuron_traits::SynapticResourceS
     // Synaptic rule parameters.
     // TODO: Do we need to split them into static-dynamic as well? Probably not.
     PUT_NEURON_TO_DATASET(population, free_synaptic_resource_, group0);
+    PUT_NEURON_TO_DATASET(population, synapse_sum_threshold_coefficient_, group0);
     PUT_NEURON_TO_DATASET(population, synaptic_resource_threshold_, group0);
     PUT_NEURON_TO_DATASET(population, resource_drain_coefficient_, group0);
     PUT_NEURON_TO_DATASET(population, stability_, group0);
@@ -171,8 +172,10 @@ load_population<neuron_traits::SynapticResourceSTDPBLIFATNeuron>(
     LOAD_NEURONS_PARAMETER_DEF(target, absolute_refractory_period_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, potential_reset_value_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, min_potential_, group, group_size, default_params);
+    LOAD_NEURONS_PARAMETER_DEF(target, stochastic_stimulation_, group, group_size, default_params);
     // Synaptic rule parameters.
     LOAD_NEURONS_PARAMETER_DEF(target, free_synaptic_resource_, group, group_size, default_params);
+    LOAD_NEURONS_PARAMETER_DEF(target, synapse_sum_threshold_coefficient_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, synaptic_resource_threshold_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, resource_drain_coefficient_, group, group_size, default_params);
     LOAD_NEURONS_PARAMETER_DEF(target, stability_, group, group_size, default_params);
@@ -203,6 +206,7 @@ load_population<neuron_traits::SynapticResourceSTDPBLIFATNeuron>(
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, total_blocking_period_, dyn_group, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, dopamine_value_, dyn_group, group_size);
     LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, additional_threshold_, dyn_group, group_size);
+    LOAD_NEURONS_PARAMETER(target, neuron_traits::BLIFATNeuron, random_number_generator_state_, dyn_group, group_size);
 
     const knp::core::UID uid{boost::lexical_cast<boost::uuids::uuid>(population_name)};
     return core::Population<ResourceNeuron>(
-- 
2.43.0


From e362b17dcb4f54a3dbbf997bd68ac6e661e95ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:55 +0000
Subject: [PATCH 44/57] fix: load neuron indexes of any size from JSON

---
 knp/base-framework/impl/storage/native/data_storage_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/storage/native/data_storage_json.cpp b/knp/base-framework/impl/storage/native/data_storage_json.cpp
index 7cb3bbc..f11dffc 100644
--- a/knp/base-framework/impl/storage/native/data_storage_json.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_json.cpp
@@ -204,7 +204,7 @@ auto read_nodes(const rapidjson::Document::Object &spikes_group)
     for (auto val_iter = nodes_array.Begin(); val_iter != nodes_array.End(); ++val_iter)
     {
         // std::transform isn't compiled by MSVC.
-        nodes.push_back(val_iter->GetInt());  // cppcheck-suppress useStlAlgorithm
+        nodes.push_back(val_iter->GetInt64());  // cppcheck-suppress useStlAlgorithm
     }
 
     return nodes;
-- 
2.43.0


From a6d9f1b3facd85d341af420edd3fbed63ff041de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 45/57] fix: keep steps of stored messages exactly

---
 .../impl/storage/native/data_storage_common.cpp        | 10 ++++++++--
 .../impl/storage/native/data_storage_common.h          |  2 +-
 .../impl/storage/native/data_storage_hdf5.cpp          |  8 ++++----
 .../impl/storage/native/data_storage_json.cpp          |  4 ++--
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/knp/base-framework/impl/storage/native/data_storage_common.cpp b/knp/base-framework/impl/storage/native/data_storage_common.cpp
index ca40964..0b5b4c1 100644
--- a/knp/base-framework/impl/storage/native/data_storage_common.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_common.cpp
@@ -23,6 +23,8 @@
 
 #include <knp/core/messaging/messaging.h>
 
+#include <cmath>
+#include <limits>
 #include <unordered_map>
 #include <utility>
 #include <vector>
@@ -31,7 +33,7 @@
 namespace knp::framework::io::storage::native
 {
 std::vector<knp::core::messaging::SpikeMessage> convert_node_time_arrays_to_messages(
-    const std::vector<int64_t> &nodes, const std::vector<float> &timestamps, const knp::core::UID &uid,
+    const std::vector<int64_t> &nodes, const std::vector<double> &timestamps, const knp::core::UID &uid,
     float time_per_step)
 {
     if (nodes.size() != timestamps.size()) throw std::runtime_error("Different array sizes: nodes and timestamps.");
@@ -39,7 +41,11 @@ std::vector<knp::core::messaging::SpikeMessage> convert_node_time_arrays_to_mess
     std::unordered_map<knp::core::Step, Message> message_map;  // This is a result buffer.
     for (size_t i = 0; i < timestamps.size(); ++i)
     {
-        auto step = static_cast<knp::core::Step>(timestamps[i] / time_per_step);
+        // Timestamps can have float precision, so a timestamp of a step may be slightly less than it should be.
+        const double ratio = timestamps[i] / time_per_step;
+        const double nearest = std::round(ratio);
+        const bool is_whole = std::abs(ratio - nearest) <= nearest * std::numeric_limits<float>::epsilon();
+        auto step = static_cast<knp::core::Step>(is_whole ? nearest : ratio);
         auto index = nodes[i];
         auto iterator = message_map.find(step);
         if (iterator == message_map.end())
diff --git a/knp/base-framework/impl/storage/native/data_storage_common.h b/knp/base-framework/impl/storage/native/data_storage_common.h
index 0f29501..678c4d1 100644
--- a/knp/base-framework/impl/storage/native/data_storage_common.h
+++ b/knp/base-framework/impl/storage/native/data_storage_common.h
@@ -32,6 +32,6 @@ constexpr std::array<int64_t, 2> VERSION{0, 1};
 
 
 std::vector<knp::core::messaging::SpikeMessage> convert_node_time_arrays_to_messages(
-    const std::vector<int64_t> &nodes, const std::vector<float> &timestamps, const knp::core::UID &uid,
+    const std::vector<int64_t> &nodes, const std::vector<double> &timestamps, const knp::core::UID &uid,
     float time_per_step);
 }  // namespace knp::framework::io::storage::native
diff --git a/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp b/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp
index 539652a..bc9e1b5 100644
--- a/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_hdf5.cpp
@@ -122,7 +122,7 @@ KNP_DECLSPEC std::vector<core::messaging::SpikeMessage> load_messages_from_h5(
         throw std::runtime_error("Different number of elements in node and timestamp datasets.");
 
     // Reading data from datasets to vectors.
-    std::vector<float> timestamps(timestamps_dataset.getElementCount());
+    std::vector<double> timestamps(timestamps_dataset.getElementCount());
     timestamps_dataset.read(timestamps);
     std::vector<int64_t> nodes(node_dataset.getElementCount());
     node_dataset.read(nodes);
@@ -148,7 +148,7 @@ KNP_DECLSPEC void save_messages_to_h5(
     size_t total_size = std::accumulate(messages.begin(), messages.end(), size_t{0}, add_size);
 
     // Reserving dataset vectors.
-    std::vector<float> timestamps;
+    std::vector<double> timestamps;
     std::vector<int64_t> nodes;
     timestamps.reserve(total_size);
     nodes.reserve(total_size);
@@ -165,8 +165,8 @@ KNP_DECLSPEC void save_messages_to_h5(
     // Forming dataset vectors.
     for (const auto &msg : sorted_messages)
     {
-        const std::vector<float> values(
-            msg.neuron_indexes_.size(), static_cast<float>(msg.header_.send_time_) * time_per_step);
+        const std::vector<double> values(
+            msg.neuron_indexes_.size(), static_cast<double>(msg.header_.send_time_) * time_per_step);
         timestamps.insert(timestamps.end(), values.begin(), values.end());
         nodes.insert(nodes.end(), msg.neuron_indexes_.begin(), msg.neuron_indexes_.end());
     }
diff --git a/knp/base-framework/impl/storage/native/data_storage_json.cpp b/knp/base-framework/impl/storage/native/data_storage_json.cpp
index f11dffc..dc48b4f 100644
--- a/knp/base-framework/impl/storage/native/data_storage_json.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_json.cpp
@@ -222,13 +222,13 @@ auto read_timestamps(const rapidjson::Document::Object &spikes_group)
         throw std::runtime_error("No \"value\" array in \"timestamps\" group.");
     const auto &timestamps_array = timestamps_group["value"].GetArray();
 
-    std::vector<float> timestamps;
+    std::vector<double> timestamps;
     timestamps.reserve(timestamps_array.Size());
     // No const reference val possible.
     for (auto val_iter = timestamps_array.Begin(); val_iter != timestamps_array.End(); ++val_iter)
     {
         // std::transform isn't compiled by MSVC.
-        timestamps.push_back(static_cast<float>(val_iter->GetDouble()));  // cppcheck-suppress useStlAlgorithm
+        timestamps.push_back(val_iter->GetDouble());  // cppcheck-suppress useStlAlgorithm
     }
 
     return timestamps;
-- 
2.43.0


From d878c495895ca061c9712533947b3dd4c0c2511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 46/57] fix: refuse JSON data files with values of unexpected
 types

---
 .../impl/storage/native/data_storage_json.cpp         | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/knp/base-framework/impl/storage/native/data_storage_json.cpp b/knp/base-framework/impl/storage/native/data_storage_json.cpp
index dc48b4f..c57ea47 100644
--- a/knp/base-framework/impl/storage/native/data_storage_json.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_json.cpp
@@ -21,6 +21,17 @@
 
 #include <knp/framework/io/storage/native/data_storage_json.h>
 
+#include <stdexcept>
+
+// A value of an unexpected type in a data file is an error, not an undefined behavior.
+#undef RAPIDJSON_ASSERT
+#define RAPIDJSON_ASSERT_THROWS
+#define RAPIDJSON_ASSERT(condition)                                                      \
+    do                                                                                   \
+    {                                                                                    \
+        if (!(condition)) throw std::runtime_error("Wrong format of a JSON data file."); \
+    } while (false)
+
 #include <rapidjson/document.h>
 #include <rapidjson/istreamwrapper.h>
 #include <spdlog/spdlog.h>
-- 
2.43.0


From 7e0a7dd741b856989203bdb28579aa3b7900d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 47/57] fix: report failures of saving messages to JSON

---
 knp/base-framework/impl/storage/native/data_storage_json.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/base-framework/impl/storage/native/data_storage_json.cpp b/knp/base-framework/impl/storage/native/data_storage_json.cpp
index c57ea47..cc25246 100644
--- a/knp/base-framework/impl/storage/native/data_storage_json.cpp
+++ b/knp/base-framework/impl/storage/native/data_storage_json.cpp
@@ -318,6 +318,8 @@ KNP_DECLSPEC void save_messages_to_json(
     std::string times_res = (format_times % count % time_string).str();
     std::string file_string = (format_file % header_string % spike_attributes % nodes_res % times_res).str();
     std::ofstream out_file(path_to_save, std::ofstream::out);
+    out_file.exceptions(std::ofstream::badbit | std::ofstream::failbit);
     out_file << file_string;
+    out_file.close();
 }
 }  // namespace knp::framework::io::storage::native
-- 
2.43.0


From 08eaa0867c4f62df13cfddb8e7d4258d6bcec415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:31 +0000
Subject: [PATCH 48/57] fix: aggregated spikes log had a column name for each
 sender, its rows one for each name

---
 knp/base-framework/impl/monitoring/model.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/knp/base-framework/impl/monitoring/model.cpp b/knp/base-framework/impl/monitoring/model.cpp
index 7a50d52..b6ee607 100644
--- a/knp/base-framework/impl/monitoring/model.cpp
+++ b/knp/base-framework/impl/monitoring/model.cpp
@@ -27,6 +27,7 @@
 
 #include <algorithm>
 #include <map>
+#include <set>
 #include <string>
 #include <tuple>
 
@@ -108,11 +109,11 @@ SpikeProcessor make_projection_weights_observer_function(
 void write_aggregated_spikes_logger_header(
     std::ostream &log_stream, const std::map<knp::core::UID, std::string> &senders_names)
 {
-    std::vector<std::string> vec(senders_names.size());
-    std::transform(senders_names.begin(), senders_names.end(), vec.begin(), [](const auto &val) { return val.second; });
-    std::sort(vec.begin(), vec.end());
+    // Spikes of senders with the same name are counted together, so each name has one column.
+    std::set<std::string> names;
+    for (const auto &val : senders_names) names.insert(val.second);
     log_stream << "Index";
-    for (const auto &name : vec) log_stream << ", " << name;
+    for (const auto &name : names) log_stream << ", " << name;
     log_stream << std::endl;
 }
 
-- 
2.43.0


From 4eeed4027cecf9800a620b20888abc0f102afe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:07 +0000
Subject: [PATCH 49/57] fix: values below the first logging level are treated
 as none

---
 knp/base-framework/impl/logging.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/logging.cpp b/knp/base-framework/impl/logging.cpp
index 991df46..bda4ab1 100644
--- a/knp/base-framework/impl/logging.cpp
+++ b/knp/base-framework/impl/logging.cpp
@@ -30,7 +30,7 @@ namespace knp::framework::logging
 KNP_DECLSPEC spdlog::level::level_enum convert_level_to_spdlog_level(Level level)
 {
     auto spdlog_level = static_cast<spdlog::level::level_enum>(level);
-    if (spdlog_level >= spdlog::level::level_enum::n_levels)
+    if (spdlog_level < spdlog::level::level_enum::trace || spdlog_level >= spdlog::level::level_enum::n_levels)
     {
         SPDLOG_ERROR("Could not convert logging level to spdlog's logging level. Returning level \"none\".");
         spdlog_level = spdlog::level::off;
@@ -42,7 +42,7 @@ KNP_DECLSPEC spdlog::level::level_enum convert_level_to_spdlog_level(Level level
 KNP_DECLSPEC Level convert_spdlog_level_to_level(spdlog::level::level_enum spdlog_level)
 {
     auto level = static_cast<Level>(spdlog_level);
-    if (level > none)
+    if (level < trace || level > none)
     {
         SPDLOG_ERROR("Could not convert spdlog's logging level to knp's logging level. Returning level \"none\".");
         level = none;
-- 
2.43.0


From 9fb6e329f3d601dc60cdce68c8751c95eec14a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:07 +0000
Subject: [PATCH 50/57] fix: observers can be added from Python with a list of
 senders

---
 .../base_framework/cpp/model_executor_utility.h   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h b/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h
index ae87104..1022996 100644
--- a/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h
+++ b/knp/python-framework/impl/base_framework/cpp/model_executor_utility.h
@@ -111,20 +111,27 @@ void start_model_executor_predicate(knp::framework::ModelExecutor &self, const p
 }
 
 
+std::vector<knp::core::UID> get_senders(const py::list &senders)
+{
+    return {py::stl_input_iterator<knp::core::UID>(senders), py::stl_input_iterator<knp::core::UID>()};
+}
+
+
 void add_executor_spike_observer(
-    knp::framework::ModelExecutor &self, const py::object &message_proc, const std::vector<knp::core::UID> &senders)
+    knp::framework::ModelExecutor &self, const py::object &message_proc, const py::list &senders)
 {
     self.add_observer(
-        std::function{BinaryFunction<void, std::vector<knp::core::messaging::SpikeMessage>>{message_proc}}, senders);
+        std::function{BinaryFunction<void, std::vector<knp::core::messaging::SpikeMessage>>{message_proc}},
+        get_senders(senders));
 }
 
 
 void add_executor_impact_observer(
-    knp::framework::ModelExecutor &self, const py::object &impact_proc, const std::vector<knp::core::UID> &senders)
+    knp::framework::ModelExecutor &self, const py::object &impact_proc, const py::list &senders)
 {
     self.add_observer(
         std::function{BinaryFunction<void, std::vector<knp::core::messaging::SynapticImpactMessage>>{impact_proc}},
-        senders);
+        get_senders(senders));
 }
 
 
-- 
2.43.0


From 0ecf4b7073807546f7cf446909bc6cd510f4d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:07 +0000
Subject: [PATCH 51/57] fix: impacts of a message can be read and changed in
 Python

---
 knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp b/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
index 308a5bc..f7f4827 100644
--- a/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
+++ b/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
@@ -40,6 +40,8 @@ void export_synaptic_impact()
             "postsynaptic_neuron_index", &msg::SynapticImpact::postsynaptic_neuron_index_,
             "Index of the postsynaptic neuron connected to the synapse.");
 
+    py::class_<std::vector<msg::SynapticImpact>>("SynapticImpacts", "List of synaptic impacts.")
+        .def(py::vector_indexing_suite<std::vector<msg::SynapticImpact>>());
 
     py::class_<msg::SynapticImpactMessage>("SynapticImpactMessage", "Structure of the synaptic impact message.")
         .def_readwrite("header", &msg::SynapticImpactMessage::header_, "Message header.")
-- 
2.43.0


From 6f3de579be2db74d0c180cc78132792f2d156be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:36 +0000
Subject: [PATCH 52/57] fix: searches are right after a generator or a
 predicate has searched in the projection

---
 knp/core-library/impl/projection.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/knp/core-library/impl/projection.cpp b/knp/core-library/impl/projection.cpp
index 1784884..15d74de 100644
--- a/knp/core-library/impl/projection.cpp
+++ b/knp/core-library/impl/projection.cpp
@@ -198,6 +198,8 @@ size_t knp::core::Projection<SynapseType>::add_synapses(
     {
         if (auto data = generator(i))
         {
+            // The generator may search in the projection, which updates the index.
+            is_index_updated_ = false;
             parameters_.emplace_back(std::move(data.value()));
         }
     }
@@ -226,7 +228,14 @@ size_t knp::core::Projection<SynapseType>::remove_synapse_if(std::function<bool(
 {
     const size_t starting_size = parameters_.size();
     is_index_updated_ = false;
-    parameters_.resize(std::remove_if(parameters_.begin(), parameters_.end(), predicate) - parameters_.begin());
+    const auto is_removed = [this, &predicate](const Synapse &synapse)
+    {
+        const bool result = predicate(synapse);
+        // The predicate may search in the projection, which updates the index.
+        is_index_updated_ = false;
+        return result;
+    };
+    parameters_.resize(std::remove_if(parameters_.begin(), parameters_.end(), is_removed) - parameters_.begin());
     return starting_size - parameters_.size();
 }
 
-- 
2.43.0


From 15e3de12439b0d0ffe4c02758b17aae88c1a9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:45 +0000
Subject: [PATCH 53/57] fix: values that Python predicates of a backend return
 are converted while they live

---
 knp/python-framework/impl/core/cpp/backend_wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/backend_wrapper.h b/knp/python-framework/impl/core/cpp/backend_wrapper.h
index 857011e..4b72efe 100644
--- a/knp/python-framework/impl/core/cpp/backend_wrapper.h
+++ b/knp/python-framework/impl/core/cpp/backend_wrapper.h
@@ -204,7 +204,7 @@ void export_backend()
                 [](core::Backend &self, py::object &run_predicate)
                 {
                     self.start(
-                        [&run_predicate](core::Step step)
+                        [&run_predicate](core::Step step) -> bool
                         {
                             auto res = py::call<py::object>(run_predicate.ptr(), step);
                             return py::extract<bool>(res);
@@ -217,12 +217,12 @@ void export_backend()
                 [](core::Backend &self, py::object &pre_step, py::object &post_step)
                 {
                     self.start(
-                        [&pre_step](core::Step step)
+                        [&pre_step](core::Step step) -> bool
                         {
                             auto res = py::call<py::object>(pre_step.ptr(), step);
                             return py::extract<bool>(res);
                         },
-                        [&post_step](core::Step step)
+                        [&post_step](core::Step step) -> bool
                         {
                             auto res = py::call<py::object>(post_step.ptr(), step);
                             return py::extract<bool>(res);
-- 
2.43.0


From d538c341beb3ab3c8ddb04a299c57b896aacb1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:59 +0000
Subject: [PATCH 54/57] fix: converter to a set takes any output size

---
 .../include/knp/framework/io/out_converters/convert_set.h  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h b/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h
index a70e534..cb491ee 100644
--- a/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h
+++ b/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h
@@ -24,6 +24,7 @@
 #include <knp/core/impexp.h>
 #include <knp/core/messaging/spike_message.h>
 
+#include <algorithm>
 #include <set>
 #include <vector>
 
@@ -64,8 +65,10 @@ public:
             result.insert(message.neuron_indexes_.cbegin(), message.neuron_indexes_.cend());
         }
 
-        // Ignore extra neurons.
-        auto iter = result.lower_bound(output_size_);
+        // Ignore extra neurons. Output size can be greater than any index, so it is not converted to an index.
+        auto iter = std::find_if(
+            result.begin(), result.end(),
+            [this](core::messaging::SpikeIndex index) { return index >= output_size_; });
         result.erase(iter, result.end());
         return result;
     }
-- 
2.43.0


From d0c8f8bdf3405db9983563cdc14bf3104ebc7499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:59 +0000
Subject: [PATCH 55/57] fix: group winner handler takes any number of winners

---
 knp/base-framework/impl/message_handlers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/message_handlers.cpp b/knp/base-framework/impl/message_handlers.cpp
index 15d81b7..8d958dd 100644
--- a/knp/base-framework/impl/message_handlers.cpp
+++ b/knp/base-framework/impl/message_handlers.cpp
@@ -140,7 +140,7 @@ knp::core::messaging::SpikeData KWtaPerGroup::operator()(
     }
 
     knp::core::messaging::SpikeData result;
-    result.reserve(group_borders_.size() * winners_per_group_);
+    result.reserve(spikes.size());
     for (auto &spike_group : spikes_per_group)
     {
         knp::core::messaging::SpikeData result_buf = select_random_n(spike_group, winners_per_group_, random_engine_);
-- 
2.43.0


From ab899635f791f48d825ad9b332f6d7f84c9c962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:59 +0000
Subject: [PATCH 56/57] fix: image dataset takes any limit of images

---
 knp/base-framework/impl/data_processing/classification/image.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/knp/base-framework/impl/data_processing/classification/image.cpp b/knp/base-framework/impl/data_processing/classification/image.cpp
index bf1a9c5..209be8e 100644
--- a/knp/base-framework/impl/data_processing/classification/image.cpp
+++ b/knp/base-framework/impl/data_processing/classification/image.cpp
@@ -36,7 +36,6 @@ void Dataset::process_labels_and_images(
 
     std::vector<uint8_t> image_reading_buffer(image_size, 0);
 
-    dataset_.reserve(max_images_amount);
 
     for (size_t i = 0; i < max_images_amount; ++i)
     {
-- 
2.43.0


From 8915b55bcc5c3b0abc31ee1a7a755a48b57dfcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:59 +0000
Subject: [PATCH 57/57] fix: graph layout is stable for nodes with many edges

---
 knp/base-framework/impl/visualizer/graph_physics.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/visualizer/graph_physics.cpp b/knp/base-framework/impl/visualizer/graph_physics.cpp
index 9b3eb29..9136b41 100644
--- a/knp/base-framework/impl/visualizer/graph_physics.cpp
+++ b/knp/base-framework/impl/visualizer/graph_physics.cpp
@@ -21,6 +21,7 @@
 #include "graph_physics.h"
 
 #include <algorithm>
+#include <cmath>
 #include <limits>
 #include <unordered_map>
 #include <utility>
@@ -72,7 +73,15 @@ cv::Vec2d VisualGraph::get_force(const PhysicsPoint &target, const PhysicsPoint
 // velocities.
 void VisualGraph::iterate()
 {
-    double dt = 0.2;
+    // Springs of a point with many edges are stiff together: with a long time step points would fly away.
+    size_t max_edges = 1;
+    for (size_t i = 0; i < points_.size(); ++i)
+    {
+        size_t edges = 0;
+        for (size_t j = 0; j < points_.size(); ++j) edges += i != j && (edges_mat_[i][j] || edges_mat_[j][i]);
+        max_edges = std::max(max_edges, edges);
+    }
+    const double dt = std::min(0.2, 1.0 / std::sqrt(spring_strength_ * static_cast<double>(max_edges)));
     // Calculate forces.
     std::vector<cv::Vec2d> forces;
     forces.resize(points_.size(), {0.0, 0.0});
-- 
2.43.0

