From aff76088aa66aecb3b052a8bbd62b07633895799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 01/72] fix: SPSC fifo get()/get_move() must acquire the write
 index before reading the slot

---
 util/lockfree_fifo_spsc.hh     | 4 ++--
 util/lockfree_fifo_spsc_dyn.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 2ee6fbc..3c822d2 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -66,7 +66,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -80,7 +80,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index f68289c..9f7763d 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -86,7 +86,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -100,7 +100,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
-- 
2.43.0


From dc7dc3d86fd8b9c6096d12e6b8913cf4904c68da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 02/72] fix: SPSC fifo span constructor copied max_size bytes
 instead of max_size elements

---
 util/lockfree_fifo_spsc.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 3c822d2..bfddf97 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -1,5 +1,6 @@
 #pragma once
 #include "util/math.hh"
+#include <algorithm>
 #include <array>
 #include <atomic>
 #include <optional>
@@ -17,7 +18,7 @@ public:
 	LockFreeFifoSpsc() = default;
 
 	LockFreeFifoSpsc(std::span<T, max_size_> src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		std::copy(src.begin(), src.end(), buf_.begin());
 	}
 
 	// Initialize with an offset between get and put
-- 
2.43.0


From 7f46ee6ce4da53c087270490e17011573e16b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 03/72] fix: CircularBufferOpt::fill_buffer filled max_size
 bytes instead of max_size elements

---
 util/circular_buffer_opt.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_opt.hh b/util/circular_buffer_opt.hh
index 29897e3..0033c0b 100644
--- a/util/circular_buffer_opt.hh
+++ b/util/circular_buffer_opt.hh
@@ -95,11 +95,11 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		buf_ = src;
 	}
 
 	void fill_buffer(T val) {
-		memset(buf_.data(), val, max_size_);
+		buf_.fill(val);
 	}
 
 	// Alias for count()
-- 
2.43.0


From 965ed85e73956225e566b95f84c6341ea04969c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 04/72] fix: CircularBufferBlock::write counted bytes as
 elements

---
 util/circular_buffer_block.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/util/circular_buffer_block.hh b/util/circular_buffer_block.hh
index fb61e29..5d153cf 100644
--- a/util/circular_buffer_block.hh
+++ b/util/circular_buffer_block.hh
@@ -1,8 +1,9 @@
 #pragma once
 #include "util/math.hh"
+#include <algorithm>
+#include <array>
 #include <cstdint>
 #include <cstdio>
-#include <cstring>
 #include <span>
 
 template<typename T, size_t SIZE>
@@ -17,11 +18,11 @@ struct CircularBufferBlock {
 		auto begin = data.begin() + offset;
 
 		if (offset + block.size() <= size()) {
-			std::memcpy(&*begin, block.data(), block.size());
+			std::copy(block.begin(), block.end(), begin);
 		} else {
 			int space_avail = size() - offset;
-			std::memcpy(&*begin, block.data(), space_avail);
-			std::memcpy(data.data(), block.data() + space_avail, block.size() - space_avail);
+			std::copy_n(block.begin(), space_avail, begin);
+			std::copy(block.begin() + space_avail, block.end(), data.begin());
 		}
 	}
 
-- 
2.43.0


From 754d47db3d0c61d0bc57bb55cb85b9eb1c187a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 05/72] fix: CircularStack constructed from values lost its
 elements

---
 util/circular_stack.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/circular_stack.hh b/util/circular_stack.hh
index ff76d2e..240f958 100644
--- a/util/circular_stack.hh
+++ b/util/circular_stack.hh
@@ -21,7 +21,9 @@ public:
 
 	template<typename... Ts>
 	CircularStack(const Ts... t)
-		: data{t...} {
+		: data{t...}
+		, top_idx{sizeof...(Ts) < MaxElements ? (int)sizeof...(Ts) : 0}
+		, full{sizeof...(Ts) == MaxElements} {
 	}
 
 	void push_back(T el) {
-- 
2.43.0


From 7eb35561ff49b6b0511fafb75b7591a853f928e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 06/72] fix: CircularBuffer::fill_buffer copied element bytes,
 breaking types that own resources

---
 util/circular_buffer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index 45781ae..b278914 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -88,7 +88,7 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), sizeof(T) * max_size_);
+		buf_ = src;
 	}
 
 	void fill_buffer(T val) {
-- 
2.43.0


From dd3d5461eab577297802de68f9e762c532c1d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 07/72] fix: SequentialMap const operator[] returned a
 reference to a destroyed temporary

---
 util/sequential_map.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index a8bae06..72286a2 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -17,7 +17,8 @@ public:
 			if (pair.first == key)
 				return pair.second;
 		}
-		return ValT{};
+		static const ValT not_found{};
+		return not_found;
 	}
 
 	ValT &operator[](const KeyT key) {
-- 
2.43.0


From bd271df525a88b6c3f2220faeb8372960e6c9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 08/72] fix: SequentialMap::insert did not store the value

---
 util/sequential_map.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index 72286a2..2880e1e 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -50,7 +50,7 @@ public:
 			return {data.end(), false};
 		}
 
-		data[newsize].first = entry.first;
+		data[newsize] = entry;
 		return {data.end() - 1, true};
 	}
 
-- 
2.43.0


From a366e5757ab1d7932a3015f5a4f2efcdf812d57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 09/72] fix: SeqMap::remove left an entry with a default key,
 and never freed the slot

---
 util/seq_map.hh | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/util/seq_map.hh b/util/seq_map.hh
index c031b43..38b3f4a 100644
--- a/util/seq_map.hh
+++ b/util/seq_map.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <algorithm>
 #include <array>
 #include <cstddef>
 #include <span>
@@ -62,16 +63,27 @@ struct SeqMap {
 
 	// returns true if found and removed
 	bool remove(KeyT key) {
-		auto active_keys = std::span<KeyT>{keys}.subspan(0, sz);
-		for (size_t i = 0; auto &k : active_keys) {
-			if (k == key) {
-				k = KeyT{};
-				vals[i] = ValT{};
-				return true;
-			}
-			i++;
+		auto active_keys = std::span<const KeyT>{keys}.subspan(0, sz);
+		auto found = std::find(active_keys.begin(), active_keys.end(), key);
+		if (found == active_keys.end())
+			return false;
+		size_t index = found - active_keys.begin();
+
+		// If overwrite() has wrapped around, put the entries in order of age
+		if (oldest > 0 && oldest < sz) {
+			std::rotate(keys.begin(), keys.begin() + oldest, keys.begin() + sz);
+			std::rotate(vals.begin(), vals.begin() + oldest, vals.begin() + sz);
+			index = (index + sz - oldest) % sz;
 		}
-		return false;
+		oldest = 0;
+
+		// Close the gap, so the removed entry does not remain as one with a default key
+		std::move(keys.begin() + index + 1, keys.begin() + sz, keys.begin() + index);
+		std::move(vals.begin() + index + 1, vals.begin() + sz, vals.begin() + index);
+		sz--;
+		keys[sz] = KeyT{};
+		vals[sz] = ValT{};
+		return true;
 	}
 
 	bool key_exists(KeyT key) const {
-- 
2.43.0


From 281f6432baf7de7e4a9537f4e5759bf6a6eeaa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 10/72] fix: StaticString<0>::copy(string_view) wrote its
 terminator out of bounds

---
 util/static_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/static_string.hh b/util/static_string.hh
index 8b0531f..13d6d6a 100644
--- a/util/static_string.hh
+++ b/util/static_string.hh
@@ -41,9 +41,9 @@ struct StaticString {
 	constexpr void copy(std::string_view s) {
 		size_t i = 0;
 		for (auto c : s) {
-			_data[i++] = c;
 			if (i >= CAPACITY)
 				break;
+			_data[i++] = c;
 		}
 		_data[i] = '\0';
 	}
-- 
2.43.0


From bd45026e1a79db4006bd2d9e5f2a1da6b0af6d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 11/72] fix: copying a FunctionSized duplicated the callable
 bytewise and destroyed it twice

---
 util/callable.hh | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/util/callable.hh b/util/callable.hh
index 4723e56..23bb51a 100644
--- a/util/callable.hh
+++ b/util/callable.hh
@@ -7,7 +7,7 @@
 // Callback is a callable object that takes no parameters,
 // and has a maximum of 8 Bytes of captures (on ARM 32-bit system)
 // Note: [this] takes 4 Bytes (on ARM 32-bit system), so it's quite useful
-// Improvements, possibly: remove m_destroy and make m_data sizeof(void*)
+// Improvements, possibly: remove m_manage and make m_data sizeof(void*)
 // this would reduce the size (on ARM 32-bit) from 16 Bytes to 8 Bytes
 // But it would leak memory if Callable was on the heap
 // (which shouldn't happen, since the point of this is to avoid the heap,
@@ -26,13 +26,32 @@ public:
 	requires(sizeof(Callable) <= buffer_size && std::is_invocable_v<Callable, Args...>)
 	FunctionSized(Callable callable)
 		: m_callback{invoke<Callable>}
-		, m_destroy{destroy<Callable>} {
+		, m_manage{manage<Callable>} {
 		new (&m_data[0]) Callable(callable);
 	}
 
+	FunctionSized(const FunctionSized &other)
+		: m_callback{other.m_callback}
+		, m_manage{other.m_manage} {
+		if (m_manage)
+			m_manage(&m_data[0], &other.m_data[0]);
+	}
+
+	FunctionSized &operator=(const FunctionSized &other) {
+		if (this != &other) {
+			if (m_manage)
+				m_manage(&m_data[0], nullptr);
+			m_callback = other.m_callback;
+			m_manage = other.m_manage;
+			if (m_manage)
+				m_manage(&m_data[0], &other.m_data[0]);
+		}
+		return *this;
+	}
+
 	~FunctionSized() {
-		if (m_destroy)
-			m_destroy(&m_data[0]);
+		if (m_manage)
+			m_manage(&m_data[0], nullptr);
 	}
 
 	Ret call(Args... args) {
@@ -57,18 +76,21 @@ private:
 			return callable(std::forward<Args>(args)...);
 	}
 
+	// Copy-constructs the callable from source, or destroys it if there is no source
 	template<typename Callable>
-	static void destroy(void *object) {
-		Callable &callable = *reinterpret_cast<Callable *>(object);
-		callable.~Callable();
+	static void manage(void *object, const void *source) {
+		if (source)
+			new (object) Callable(*reinterpret_cast<const Callable *>(source));
+		else
+			reinterpret_cast<Callable *>(object)->~Callable();
 	}
 
 private:
 	using Callback = Ret (*)(void *, Args...);
 	Callback m_callback{};
 
-	using Deleter = void (*)(void *);
-	Deleter m_destroy{};
+	using Manager = void (*)(void *, const void *);
+	Manager m_manage{};
 
 	alignas(uint64_t) uint8_t m_data[buffer_size];
 };
-- 
2.43.0


From 6be0aa6f240a20bb5aded1b7bdd2b3715a9c4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 12/72] fix: wear levelling read() validated the caller's data
 when the storage could not be read

---
 util/wear_level.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index b834b18..9f30a7a 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -43,8 +43,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			storage.read(&data, --c);
-			if (data.validate()) {
+			if (storage.read(&data, --c) && data.validate()) {
 				return true;
 			}
 		}
@@ -98,8 +97,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			Storage::read(data, --c);
-			if (data.validate()) {
+			if (Storage::read(data, --c) && data.validate()) {
 				return true;
 			}
 		}
-- 
2.43.0


From eea275f00d4255b52e9b9d97f12bdcac9190936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 13/72] fix: wear levelling lost its position when an erase
 failed, hiding or reading past the cells

---
 util/wear_level.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index 9f30a7a..5df34a7 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -64,7 +64,7 @@ public:
 				if (erased_once)
 					return false;
 				if (!storage.erase()) {
-					cell_ = 0;
+					cell_ = Storage::NumCells;
 					return false;
 				}
 				cell_ = 0;
@@ -111,8 +111,10 @@ public:
 			if (cell_ >= Storage::cell_nr_) {
 				if (erased_once)
 					return false;
-				if (!Storage::erase())
+				if (!Storage::erase()) {
+					cell_ = Storage::cell_nr_;
 					return false;
+				}
 				cell_ = 0;
 				erased_once = true;
 			}
-- 
2.43.0


From 2cac191e3946c8929312248f2d850c1ebb387675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 14/72] fix: CompactBinaryParser returned nodes past the end
 for huge or negative declared sizes

---
 util/compact_binary_parser.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/compact_binary_parser.hh b/util/compact_binary_parser.hh
index 8abcda3..30c9779 100644
--- a/util/compact_binary_parser.hh
+++ b/util/compact_binary_parser.hh
@@ -57,7 +57,7 @@ struct CompactBinaryParser {
 	constexpr std::optional<T> get(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
 		if (sz == sizeof(T)) {
-			if (size_t(offset + sz) <= blob.size()) {
+			if (size_t(sz) <= blob.size() - offset) {
 				auto parsing = blob.subspan(offset);
 				return as<T>(parsing);
 			}
@@ -67,7 +67,7 @@ struct CompactBinaryParser {
 
 	constexpr std::span<const uint8_t> get_node(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
-		if (size_t(offset + sz) <= blob.size())
+		if (size_t(sz) <= blob.size() - offset)
 			return blob.subspan(offset, sz);
 		else
 			return {};
-- 
2.43.0


From 0400c83fa243ef90c864a53a1e3184210837363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 15/72] fix: int_to_str_chop lost zeros and ones, and
 overflowed on the most negative value

---
 util/int_to_str.cc | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 9375605..c2f4530 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -19,8 +19,9 @@ constexpr size_t Log10<1>() {
 }
 
 template<unsigned Place>
-char digit(unsigned &value, unsigned avail) {
-	if (value > Place) {
+char digit(unsigned &value, unsigned avail, bool &started) {
+	if (started || value >= Place) {
+		started = true;
 		unsigned dig = value / Place;
 		value -= dig * Place;
 		return avail > Log10<Place>() ? '0' + dig : 0;
@@ -40,31 +41,32 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 	}
 
 	unsigned len = 0;
+	unsigned val = value;
 	if (value < 0) {
 		buf[len++] = '-';
-		value = -value;
+		val = -val;
 	}
-	unsigned val = value;
+	bool started = false;
 
-	if (char dig = digit<1000000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100>(val, buf.size() - len); dig)
+	if (char dig = digit<100>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10>(val, buf.size() - len); dig)
+	if (char dig = digit<10>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1>(val, buf.size() - len); dig)
+	if (char dig = digit<1>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
-- 
2.43.0


From 6c48a9901a364a8f0b18bb4e70dcbc99530b4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 16/72] fix: int_to_str dropped zero digits, overflowed tiny
 buffers and the most negative value

---
 util/int_to_str.cc | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index c2f4530..28965f1 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -77,8 +77,9 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 namespace
 {
 template<unsigned Place>
-char _digit(unsigned &value) {
-	if (value >= Place) {
+char _digit(unsigned &value, bool &started) {
+	if (started || value >= Place) {
+		started = true;
 		unsigned dig = value / Place;
 		value -= dig * Place;
 		return '0' + dig;
@@ -103,43 +104,46 @@ unsigned num_digits(unsigned value) {
 
 bool int_to_str(int32_t value, const std::span<char> buf) {
 	int len = 0;
+	unsigned val = value;
 	if (value < 0) {
 		if (!buf.size())
 			return false;
 		buf[len++] = '-';
-		value = -value;
+		val = -val;
 	}
 	if (value == 0) {
+		if (buf.size() < 2)
+			return false;
 		buf[0] = '0';
 		buf[1] = '\0';
 		return true;
 	}
 
-	auto num_dig = num_digits(value);
+	auto num_dig = num_digits(val);
 	if ((num_dig + len + 1) > buf.size())
 		return false;
 
-	unsigned val = value;
+	bool started = false;
 
-	if (char dig = _digit<1000000000>(val); dig)
+	if (char dig = _digit<1000000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000000>(val); dig)
+	if (char dig = _digit<100000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000000>(val); dig)
+	if (char dig = _digit<10000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000000>(val); dig)
+	if (char dig = _digit<1000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000>(val); dig)
+	if (char dig = _digit<100000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000>(val); dig)
+	if (char dig = _digit<10000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000>(val); dig)
+	if (char dig = _digit<1000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100>(val); dig)
+	if (char dig = _digit<100>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10>(val); dig)
+	if (char dig = _digit<10>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1>(val); dig)
+	if (char dig = _digit<1>(val, started); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
-- 
2.43.0


From 477a89681250e28f0417fc79a0b53d4b631bd3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 17/72] fix: print() read past the end of a string_view without
 a terminator

---
 util/print.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/print.hh b/util/print.hh
index e06b0f4..5d5507b 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -24,7 +24,8 @@ void printone(const unsigned char *str) {
 
 template<putchar_t putc>
 void printone(std::string_view str) {
-	printone<putc>(str.data());
+	for (char c : str)
+		putc(c);
 }
 
 namespace
-- 
2.43.0


From 84a05a56a2083c2bb4afb8403bf70beebc557bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 18/72] fix: print() negated the most negative int32_t, which
 overflows

---
 util/print.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/print.hh b/util/print.hh
index 5d5507b..ba056a3 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -51,7 +51,7 @@ void printone(int32_t val) {
 	unsigned uval;
 	if (val < 0) {
 		putc('-');
-		uval = -val;
+		uval = -static_cast<unsigned>(val);
 	} else
 		uval = val;
 
-- 
2.43.0


From 96f22eaf9ad5fa6e4da116b559b1499c530b86e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 19/72] fix: ReplaceString::replace_all resumed at the wrong
 place, or never ended

---
 util/string_util.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/string_util.hh b/util/string_util.hh
index 3cdfbce..d0d249c 100644
--- a/util/string_util.hh
+++ b/util/string_util.hh
@@ -10,6 +10,8 @@ struct ReplaceString {
 	}
 
 	ReplaceString &replace_all(const std::string str_find, const std::string str_replace) {
+		if (str_find.empty())
+			return *this;
 		size_t index = 0;
 		while (true) {
 			index = str.find(str_find, index);
@@ -17,7 +19,7 @@ struct ReplaceString {
 				break;
 			}
 			str.replace(index, str_find.length(), str_replace);
-			index += str_find.length();
+			index += str_replace.length();
 		}
 		return *this;
 	}
-- 
2.43.0


From a88196b13b44a485bdd7ad54e052539d5b008234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 20/72] fix: Version read past the end of a string_view without
 a terminator

---
 util/version_tools.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/version_tools.hh b/util/version_tools.hh
index e1ef236..93f565f 100644
--- a/util/version_tools.hh
+++ b/util/version_tools.hh
@@ -1,6 +1,7 @@
 #pragma once
 #include <cstdint>
 #include <cstdlib>
+#include <string>
 #include <string_view>
 
 namespace VersionUtil
@@ -46,7 +47,7 @@ struct Version {
 				vers = vers.substr(pos + 1);
 			}
 
-			auto num = strtol(token.data(), nullptr, 10);
+			auto num = strtol(std::string(token).c_str(), nullptr, 10);
 			set_field(i++, num);
 
 			if (pos == std::string_view::npos) {
-- 
2.43.0


From 29a80804012bc3eac40bd946d2da9a1ba276c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 21/72] fix: Version accepted fields of 2^32 and more,
 truncated

---
 util/version_tools.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/version_tools.hh b/util/version_tools.hh
index 93f565f..ecffe10 100644
--- a/util/version_tools.hh
+++ b/util/version_tools.hh
@@ -13,7 +13,7 @@ struct Version {
 	uint8_t revision{};
 	bool is_normal{true}; // i.e. not a pre-release
 
-	void set_field(unsigned index, unsigned val) {
+	void set_field(unsigned index, unsigned long val) {
 		//sanity check:
 		if (val > 255)
 			return;
-- 
2.43.0


From cc101e4c49cb010a79023c3adc749c7e769768d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 22/72] fix: PollEvent missed events when sparse polls crossed
 the counter wrap

---
 util/poll_event.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/poll_event.hh b/util/poll_event.hh
index 6f30ec0..1aff3f2 100644
--- a/util/poll_event.hh
+++ b/util/poll_event.hh
@@ -11,7 +11,7 @@ struct PollEvent {
 
 		// Handle overflow
 		if (now < last_poll) {
-			if (now >= TimeT(last_poll + period)) {
+			if (TimeT(now - last_poll) >= period) {
 				expired = true;
 			}
 		} else if ((now - last_poll) >= period) {
-- 
2.43.0


From 86b9ae9a7aba20eb9b517a3b97b25b78c0be29f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 23/72] fix: PollChange::force_next_poll did not force a poll
 while the clock is below the period

---
 util/poll_change.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/util/poll_change.hh b/util/poll_change.hh
index f2264eb..5f1dc6c 100644
--- a/util/poll_change.hh
+++ b/util/poll_change.hh
@@ -13,11 +13,12 @@ public:
 	}
 
 	void force_next_poll() {
-		last_update_time = 0;
+		force_update = true;
 	}
 
 	void poll(unsigned now, bool state) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_update || now - last_update_time >= update_ticks) {
+			force_update = false;
 			last_update_time = now;
 
 			if (current_state != state) {
@@ -30,7 +31,8 @@ public:
 	// Defer calling state_func() until poll time has expired.
 	// Useful if checking the state is a heavy operation.
 	void poll(unsigned now, auto state_func) {
-		if (now - last_update_time >= update_ticks) {
+		if (force_update || now - last_update_time >= update_ticks) {
+			force_update = false;
 			last_update_time = now;
 
 			bool state = state_func();
@@ -52,6 +54,7 @@ public:
 private:
 	bool current_state = false;
 	bool change_detected = false;
+	bool force_update = false;
 	unsigned last_update_time = 0;
 	unsigned update_ticks;
 };
-- 
2.43.0


From 1aa9284c54b293b4847e344916d5dc2b79848b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 24/72] fix: InterpArray wrapping lookups returned garbage for
 negative and huge positions

---
 util/interp_array.hh | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/util/interp_array.hh b/util/interp_array.hh
index bac2409..8674468 100644
--- a/util/interp_array.hh
+++ b/util/interp_array.hh
@@ -1,5 +1,6 @@
 #pragma once
 #include <array>
+#include <cmath>
 
 template<typename T, unsigned int Size, typename PhaseT = float>
 struct InterpArray {
@@ -21,8 +22,19 @@ struct InterpArray {
 		return data[index];
 	}
 
+	// Wrap an index into the table, if it cannot be converted to an unsigned int
+	static constexpr PhaseT representable_index(PhaseT index) {
+		if (index < PhaseT(0) || index >= PhaseT(4294967296.)) {
+			index = std::fmod(index, PhaseT(Size));
+			if (index < PhaseT(0))
+				index += PhaseT(Size);
+		}
+		return index;
+	}
+
 	// Return an interpolated value where index = 0 and index = Size are the first element
-	constexpr T interp_by_index_wrap(const PhaseT index) const {
+	constexpr T interp_by_index_wrap(const PhaseT wrapped_index) const {
+		const auto index = representable_index(wrapped_index);
 		unsigned int idx0 = static_cast<unsigned int>(index);
 		const auto phase = index - static_cast<PhaseT>(idx0);
 		while (idx0 >= Size)
@@ -64,7 +76,7 @@ struct InterpArray {
 	// Todo: this is really "floor" not "closest" (it doesn't round)
 	// phase = 0 and phase = 1, 2, 3.. return first element
 	constexpr T closest_wrap(const PhaseT phase) const {
-		auto idx = static_cast<unsigned int>(phase * Size);
+		auto idx = static_cast<unsigned int>(representable_index(phase * Size));
 		while (idx >= Size)
 			idx -= Size;
 		return data[idx];
-- 
2.43.0


From e2ad820c3903e57b6cce8d925e78c806faf41d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 25/72] fix: MathTools::pow2 read outside its table for
 negative exponents

---
 util/math.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/math.hh b/util/math.hh
index 082f113..96d0724 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -272,6 +272,8 @@ static inline constexpr float audioFreqToNorm(float input) // normalized filter
 
 // Returns 2^x
 static inline constexpr float pow2(float x) {
+	if (x < 0.f)
+		return 1.f / pow2(-x);
 	x = x / 5.0f;
 	float res = 1.f;
 	for (;;) {
-- 
2.43.0


From 595569923c9eaa1aa7edf09f33a42281ef058a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 26/72] fix: integer interpolate computed in unsigned
 arithmetic, wrong for negative values

---
 util/math.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 96d0724..4391c6c 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -63,7 +63,7 @@ static_assert(interpolate(1.f, 2.f, 0.25f) == interpolate3(1.f, 2.f, 0.25f));
 
 template<uint32_t PhaseMax>
 inline int32_t interpolate(int32_t in1, int32_t in2, int32_t phase) {
-	return ((in2 * phase) + in1 * (PhaseMax - phase)) / PhaseMax;
+	return ((int64_t{in2} * phase) + int64_t{in1} * (int64_t{PhaseMax} - phase)) / int64_t{PhaseMax};
 }
 
 template<class T>
-- 
2.43.0


From 6a3b8989a1b08633ace874f395dce0c058baf2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 27/72] fix: next_power_of_2 tested only the low 32 bits of a
 64-bit value

---
 util/math.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 4391c6c..fc3df78 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -103,7 +103,7 @@ constexpr T next_power_of_2(T value) noexcept {
 	if (value == 0 || value == 1)
 		return 1;
 
-	if (is_power_of_2(value))
+	if ((value & (value - 1)) == 0)
 		return value;
 
 	value |= value >> 1;
-- 
2.43.0


From bcd7c2bf56bec6ba16632ddc221cc8c1f45e3c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 28/72] fix: hysteresis gates turned on at the middle of the
 band, not at the turn-on threshold

---
 util/math.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/math.hh b/util/math.hh
index fc3df78..447ad67 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -339,7 +339,7 @@ static inline bool is_inf_fastmath(float a) {
 static inline constexpr float
 hysteresis_gate(float turn_off_thresh, float turn_on_thresh, float last_output, float new_input) {
 	float feedback_amt = (turn_on_thresh - turn_off_thresh) * 0.5f;
-	float feedback = feedback_amt * last_output;
+	float feedback = feedback_amt * (2.f * last_output - 1.f);
 	float test_signal = new_input + feedback;
 	float threshold = (turn_on_thresh + turn_off_thresh) * 0.5f;
 	return test_signal > threshold ? 1.f : 0.f;
@@ -359,6 +359,6 @@ hysteresis_gate(float turn_off_thresh, float turn_on_thresh, float last_output,
 // Returns updated output, which should be passed as old_val the next time the function is called
 static inline constexpr float
 hysteresis_feedback(float feedback_coef, float thresh, float last_output, float new_input) {
-	return (new_input + last_output * feedback_coef) > thresh ? 1.f : 0.f;
+	return (new_input + (2.f * last_output - 1.f) * feedback_coef) > thresh ? 1.f : 0.f;
 }
 }; // namespace MathTools
-- 
2.43.0


From 7b88fce74b8f5c5da5289d09bd79acf2375e6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 29/72] fix: AudioFrame saturated every partial width at 24
 bits, and huge floats not at all

---
 util/audio_frame.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index ad9b394..719d6e4 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -35,8 +35,8 @@ public:
 		if constexpr (std::is_signed_v<SampleType>) {
 
 			if constexpr (kSampleTypeBits > UsedBits) {
-				auto v = static_cast<SampleType>(val * kOutScaling);
-				return MathTools::signed_saturate(v, 24);
+				auto v = static_cast<SampleType>(MathTools::constrain(val, -1.f, 1.f) * kOutScaling);
+				return MathTools::signed_saturate(v, UsedBits);
 			} else {
 				const float v = MathTools::constrain(val, -1.f, (kOutScaling - 1.f) / kOutScaling);
 				return static_cast<SampleType>(v * kOutScaling);
-- 
2.43.0


From 3a2bd771af4866f22afabb032b9af4090479957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 30/72] fix: AudioFrame full-scale output wrapped for 32-bit
 samples

---
 util/audio_frame.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index 719d6e4..0959cf3 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -38,12 +38,17 @@ public:
 				auto v = static_cast<SampleType>(MathTools::constrain(val, -1.f, 1.f) * kOutScaling);
 				return MathTools::signed_saturate(v, UsedBits);
 			} else {
+				// kOutScaling - 1 may not be representable in a float
+				if (val >= 1.f)
+					return static_cast<SampleType>(kMaxValue - 1);
 				const float v = MathTools::constrain(val, -1.f, (kOutScaling - 1.f) / kOutScaling);
 				return static_cast<SampleType>(v * kOutScaling);
 			}
 
 		} else {
 			const float v = MathTools::constrain(val * 0.5f + 0.5f, 0.f, 1.0f);
+			if (v >= 1.f)
+				return MathTools::ipow(2, UsedBits) - 1;
 			return v * (MathTools::ipow(2, UsedBits) - 1);
 		}
 	}
-- 
2.43.0


From d89e763ac165944f4157e1cdd2ff2dcd6330ed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 31/72] fix: AudioFrame::sign_extend read past samples narrower
 than an int

---
 util/audio_frame.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index 0959cf3..4e94b7c 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -58,10 +58,11 @@ public:
 		if constexpr ((sizeof(SampleType) * 8u) == UsedBits)
 			return v;
 		else {
-			using S = struct {
+			struct {
 				signed Val : UsedBits;
-			};
-			return reinterpret_cast<const S *>(&v)->Val;
+			} s{};
+			s.Val = v;
+			return s.Val;
 		}
 	}
 };
-- 
2.43.0


From 67628774f3072738c9ab48a598eaa3a3032f3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 32/72] fix: TriangleOscillator::set_period_ms dropped
 fractions of a second, and divided by zero below one second

---
 util/oscs.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 4d70707..a632649 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -55,7 +55,7 @@ struct TriangleOscillator {
 	}
 
 	void set_period_ms(uint32_t period_ms) {
-		increment_ = freq_units / (period_ms / 1000);
+		increment_ = static_cast<uint32_t>(uint64_t{freq_units} * 1000 / period_ms);
 	}
 	void set_period_sec(uint32_t period_sec) {
 		increment_ = freq_units / period_sec;
-- 
2.43.0


From ae595327ea305058555c0b0e15509e6ff22bae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 33/72] fix: DownCounter::set_period_ms overflowed for periods
 shorter than one update

---
 util/oscs.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index a632649..74fe4cc 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -197,7 +197,9 @@ struct DownCounter {
 		increment_ = freq * freq_units;
 	}
 	void set_period_ms(uint32_t ms) {
-		increment_ = (float)freq_units / (ms / 1000.f);
+		// periods shorter than one update end at the first update
+		const float inc = (float)freq_units / (ms / 1000.f);
+		increment_ = inc < (float)max_ ? static_cast<uint32_t>(inc) : max_;
 	}
 	void set_phase(uint32_t phase) {
 		phase_ = phase;
-- 
2.43.0


From 4a886f6081b9a9cf98225c1a88c27678f7a78ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 34/72] fix: RGB565 from floats converted out-of-range channels
 before clamping them

---
 util/colors_rgb565.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/colors_rgb565.hh b/util/colors_rgb565.hh
index 51f538a..2b39277 100644
--- a/util/colors_rgb565.hh
+++ b/util/colors_rgb565.hh
@@ -22,9 +22,9 @@ struct RGB565 {
 	}
 
 	constexpr RGB565(float red, float green, float blue)
-		: b(std::clamp<uint16_t>(blue * 32.f, 0, 31))
-		, g(std::clamp<uint16_t>(green * 64.f, 0, 63))
-		, r(std::clamp<uint16_t>(red * 32.f, 0, 31)) {
+		: b(static_cast<uint16_t>(std::clamp(blue * 32.f, 0.f, 31.f)))
+		, g(static_cast<uint16_t>(std::clamp(green * 64.f, 0.f, 63.f)))
+		, r(static_cast<uint16_t>(std::clamp(red * 32.f, 0.f, 31.f))) {
 	}
 
 	constexpr RGB565(uint32_t rgb888)
-- 
2.43.0


From 5899ea8f13e9249a5b8c07aebc1f08b8ec0a3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 35/72] fix: MixedRgbLed flashes lasted a whole fraction of a
 second, and none beyond one second

---
 util/rgbled.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/rgbled.hh b/util/rgbled.hh
index aa7302a..8dca4cb 100644
--- a/util/rgbled.hh
+++ b/util/rgbled.hh
@@ -31,8 +31,7 @@ struct MixedRgbLed {
 	void flash_once_ms(Color const &c, float ms) {
 		flash_color_ = c;
 		flasher_.reset();
-		flasher_.set_frequency(1000.f / ms);
-		// flasher_.set_period_ms(ms);
+		flasher_.set_period_ms(ms);
 		do_smooth_fade_ = false;
 	}
 
-- 
2.43.0


From 1af0034933ac3709b8dcc19b39b5cd2d15f154dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 36/72] fix: MonotonicAllocator refused a request for exactly
 the space left

---
 util/monotonic_allocator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/monotonic_allocator.hh b/util/monotonic_allocator.hh
index ac81066..354e137 100644
--- a/util/monotonic_allocator.hh
+++ b/util/monotonic_allocator.hh
@@ -10,8 +10,8 @@ public:
 
 	uint8_t *allocate(std::size_t size) {
 		auto bytesRemaining = arena.size() - offset;
-		if (bytesRemaining > size) {
-			auto result = &arena[offset];
+		if (bytesRemaining >= size) {
+			auto result = arena.data() + offset;
 			offset += size;
 
 			return result;
-- 
2.43.0


From 3654765d29ff176e30375903431991d3659f15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 37/72] fix: bitfield OR() started from an uninitialised value

---
 util/bitfield.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/bitfield.hh b/util/bitfield.hh
index 9545dc9..1a77451 100644
--- a/util/bitfield.hh
+++ b/util/bitfield.hh
@@ -23,7 +23,7 @@ auto constexpr bitfield(const Ts... args) {
 template<typename Enum>
 constexpr std::underlying_type_t<Enum> OR(std::initializer_list<Enum> fields) {
 	using UT = std::underlying_type_t<Enum>;
-	UT val;
+	UT val{};
 	for (auto el : fields) {
 		val |= static_cast<UT>(el);
 	}
-- 
2.43.0


From 34660ef98ad7a4f7ed740497733475b97734fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 38/72] fix: AlignedAllocator returned too little memory when
 the requested size overflows

---
 util/aligned_allocator.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/aligned_allocator.hh b/util/aligned_allocator.hh
index b1ebd53..fbd37b1 100644
--- a/util/aligned_allocator.hh
+++ b/util/aligned_allocator.hh
@@ -16,6 +16,9 @@ public:
 		if (n == 0)
 			return nullptr;
 
+		if (n > (static_cast<std::size_t>(-1) - Alignment) / sizeof(T))
+			return nullptr;
+
 		std::size_t size = n * sizeof(T);
 		std::size_t aligned_size = ((size + Alignment - 1) / Alignment) * Alignment;
 
-- 
2.43.0


From 8f5a50ee5cd94aeb33cb7775263aa509fc979d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 39/72] fix: RectC::x_intersects missed a rectangle containing
 the other

---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 51caf53..9f7aa78 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -29,7 +29,7 @@ struct RectC {
 		return (top >= other.top && top <= other.bottom) || (other.top >= top && other.top <= bottom);
 	}
 	constexpr bool x_intersects(const RectC &other) const {
-		return (left >= other.left && left <= other.right) || (right <= other.right && right >= other.left);
+		return (left >= other.left && left <= other.right) || (other.left >= left && other.left <= right);
 	}
 	constexpr bool is_intersecting(const RectC &other) const {
 		return y_intersects(other) && x_intersects(other);
-- 
2.43.0


From 544591f94f6c1572e56d0584907977a8312e4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 40/72] fix: is_poly_concave truncated fractional cross
 products to zero

---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 9f7aa78..a2fd925 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -87,7 +87,7 @@ constexpr bool is_poly_concave(std::span<const T> points) requires requires(T pt
 			continue;
 
 		if (sign == 0)
-			sign = cross;
+			sign = cross > 0 ? 1 : -1;
 
 		if ((sign > 0 && cross < 0) || (sign < 0 && cross > 0))
 			return true;
-- 
2.43.0


From cd77f92ada0a1b965157e6f4af329e6bf20c173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 41/72] fix: signal maxima started at the smallest positive
 float, hiding negative maxima

---
 util/analyzed_signal.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/analyzed_signal.hh b/util/analyzed_signal.hh
index 9846cc8..3c5d09d 100644
--- a/util/analyzed_signal.hh
+++ b/util/analyzed_signal.hh
@@ -8,7 +8,7 @@ struct AnalyzedSig {
 	}
 
 	float min = std::numeric_limits<float>::max();
-	float max = std::numeric_limits<float>::min();
+	float max = std::numeric_limits<float>::lowest();
 	float avg = 0.f;
 	float iir = 0.f;
 
@@ -44,7 +44,7 @@ struct PeakMeter {
 	// TODO: attack, decay
 
 	T min = std::numeric_limits<T>::max();
-	T max = std::numeric_limits<T>::min();
+	T max = std::numeric_limits<T>::lowest();
 
 	void update(T newval) {
 		if (newval < min)
@@ -55,6 +55,6 @@ struct PeakMeter {
 
 	void reset() {
 		min = std::numeric_limits<T>::max();
-		max = std::numeric_limits<T>::min();
+		max = std::numeric_limits<T>::lowest();
 	}
 };
-- 
2.43.0


From ca5fcfcfc65e22489bda8c623e5e128cab9859b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 42/72] fix: soft_neon vmlaq_f32 leaves its accumulator
 argument unchanged

---
 util/soft_neon.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/soft_neon.hh b/util/soft_neon.hh
index beb47c3..e1286ed 100644
--- a/util/soft_neon.hh
+++ b/util/soft_neon.hh
@@ -39,7 +39,7 @@ inline float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) {
 	};
 }
 
-inline float32x4_t vmlaq_f32(float32x4_t &dst, float32x4_t a, float32x4_t b) {
+inline float32x4_t vmlaq_f32(float32x4_t dst, float32x4_t a, float32x4_t b) {
 	dst.v[0] += a.v[0] * b.v[0];
 	dst.v[1] += a.v[1] * b.v[1];
 	dst.v[2] += a.v[2] * b.v[2];
-- 
2.43.0


From 676027a27b33dd4f3634f3605f43299b5b1a72fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 43/72] fix: CircularBuffer::first could not be instantiated

---
 util/circular_buffer.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index b278914..5744e99 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -45,7 +45,11 @@ public:
 	}
 
 	// Return a reference to the first element
-	T &first() const {
+	T &first() {
+		return buf_[tail_];
+	}
+
+	const T &first() const {
 		return buf_[tail_];
 	}
 
-- 
2.43.0


From 637d4e049c3d2500b5940f8989c7c1a5a0a87427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 44/72] fix: ThreadSafePool could not be read through a const
 reference

---
 util/thread_safe_pool.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/thread_safe_pool.hh b/util/thread_safe_pool.hh
index 87b84ac..08b950d 100644
--- a/util/thread_safe_pool.hh
+++ b/util/thread_safe_pool.hh
@@ -62,7 +62,7 @@ public:
 		return data[idx];
 	}
 
-	T &operator[](size_t idx) const {
+	const T &operator[](size_t idx) const {
 		return data[idx];
 	}
 };
-- 
2.43.0


From f32c1c10fb214263f1840d588f94f98829ac8bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 45/72] fix: StaticString's constexpr constructors could not
 make a constant

---
 util/static_string.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/static_string.hh b/util/static_string.hh
index 13d6d6a..8d376a4 100644
--- a/util/static_string.hh
+++ b/util/static_string.hh
@@ -8,7 +8,7 @@
 // A null-terminated string with fixed compile-time capacity
 template<size_t CAPACITY>
 struct StaticString {
-	char _data[CAPACITY + 1];
+	char _data[CAPACITY + 1]{};
 
 	static constexpr size_t capacity = CAPACITY;
 
@@ -52,7 +52,7 @@ struct StaticString {
 		return _data;
 	}
 
-	const char *data() const {
+	constexpr const char *data() const {
 		return _data;
 	}
 
-- 
2.43.0


From f67da859bb4d70cd36eaecb1c244a31b024b59d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 46/72] fix: SmallestSignedInt picked a wrong type for the
 extremes of int64_t

---
 util/smallest_integer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/smallest_integer.hh b/util/smallest_integer.hh
index fe79090..3ed0ddb 100644
--- a/util/smallest_integer.hh
+++ b/util/smallest_integer.hh
@@ -18,7 +18,7 @@ template<int64_t min_val, int64_t max_val>
 requires(min_val <= max_val)
 struct SmallestSignedInt {
 	using type =
-		std::make_signed_t<typename SmallestUnsignedInt<(max_val >= -min_val ? max_val : -min_val - 1) << 1>::type>;
+		std::make_signed_t<typename SmallestUnsignedInt<uint64_t(max_val >= ~min_val ? max_val : ~min_val) << 1>::type>;
 };
 
 static_assert(std::is_same_v<SmallestUnsignedInt<0>::type, uint8_t>);
-- 
2.43.0


From b77a816b0d5af639182d4aa3094b747e4602029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 47/72] fix: COUNTZIP_SUPPORT_VECTORBOOL included <vector>
 inside a namespace

---
 util/iterator_helpers.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/iterator_helpers.hh b/util/iterator_helpers.hh
index ba6a9a0..d6f61ea 100644
--- a/util/iterator_helpers.hh
+++ b/util/iterator_helpers.hh
@@ -1,6 +1,9 @@
 #pragma once
 #include <iterator>
 #include <tuple>
+#ifdef COUNTZIP_SUPPORT_VECTORBOOL
+#include <vector>
+#endif
 
 namespace IteratorHelper
 {
@@ -12,7 +15,6 @@ using select_iterator_for = std::conditional_t<std::is_const_v<std::remove_refer
 
 #ifdef COUNTZIP_SUPPORT_VECTORBOOL
 //Optional if we want to handle vector<bool>:
-#include <vector>
 template<typename Iter>
 using select_access_type_for = std::conditional_t<std::is_same_v<Iter, std::vector<bool>::iterator> ||
 													  std::is_same_v<Iter, std::vector<bool>::const_iterator>,
-- 
2.43.0


From e7b8a5ceb7f61dfe020f1a50e2ef6784f4028aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 48/72] fix: bitfield.hh did not compile unless <concepts> was
 included first

---
 util/bitfield.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/bitfield.hh b/util/bitfield.hh
index 1a77451..bec5c21 100644
--- a/util/bitfield.hh
+++ b/util/bitfield.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <concepts>
 #include <cstdint>
 #include <initializer_list>
 #include <type_traits>
-- 
2.43.0


From ae2c95981543a890012b8c22c7d3c43bd54ae642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 49/72] fix: byte_block.hh did not compile unless <cstdint> was
 included first

---
 util/byte_block.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/byte_block.hh b/util/byte_block.hh
index 8f21d4f..d82c427 100644
--- a/util/byte_block.hh
+++ b/util/byte_block.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <cstdint>
 #include <vector>
 
 struct ByteBlock {
-- 
2.43.0


From b8411762ff23409fead052df8b04446b32d672f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 50/72] fix: CircularBufferAccess lost samples written without
 cross-fade (32-bit integers, cells holding NaN)

---
 util/circular_buffer_ext.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer_ext.hh b/util/circular_buffer_ext.hh
index 40b51e9..ea2b0c0 100644
--- a/util/circular_buffer_ext.hh
+++ b/util/circular_buffer_ext.hh
@@ -60,7 +60,7 @@ public:
 	bool write(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = crossfade(d, buf[wr], phase);
 			buf[wr++] = xfade;
 			if (wr >= sz) {
 				wr = 0;
@@ -73,7 +73,7 @@ public:
 	bool write_reverse(const std::span<const value_type> newdata, float phase = 1.f) {
 		bool wrapped = false;
 		for (auto d : newdata) {
-			value_type xfade = d * phase + buf[wr] * (1.f - phase);
+			value_type xfade = crossfade(d, buf[wr], phase);
 			buf[wr--] = xfade;
 			if (wr >= sz) {
 				wr = sz - 1;
@@ -143,6 +143,14 @@ public:
 	}
 
 private:
+	static value_type crossfade(value_type d, value_type old, float phase) {
+		// without cross-fade the sample is stored as it is: float has not room for every integer,
+		// and old might not be a number
+		if (phase == 1.f)
+			return d;
+		return d * phase + old * (1.f - phase);
+	}
+
 	T &buf;
 	size_t sz;
 	size_t rd;
-- 
2.43.0


From 6340e6a622be16f6fc4944a0facca3922f72e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 51/72] fix: FixedVector insert and erase indexed the element
 array one past its end when full

---
 util/fixed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/fixed_vector.hh b/util/fixed_vector.hh
index 0379247..46ce821 100644
--- a/util/fixed_vector.hh
+++ b/util/fixed_vector.hh
@@ -105,7 +105,7 @@ public:
 			return;
 		}
 
-		std::move_backward(&data[index], &data[back_idx], &data[back_idx + 1]);
+		std::move_backward(begin() + index, end(), end() + 1);
 
 		data[index] = d;
 		back_idx++;
@@ -120,7 +120,7 @@ public:
 			return;
 		}
 
-		std::move(&data[index + 1], &data[back_idx], &data[index]);
+		std::move(begin() + index + 1, end(), begin() + index);
 		back_idx -= 1;
 	}
 
-- 
2.43.0


From afa30f59e6d0811104677bdd20919597766f7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 52/72] fix: SeqMap::remove_last() removes the newest entry
 also after old entries were overwritten

---
 util/seq_map.hh | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/util/seq_map.hh b/util/seq_map.hh
index 38b3f4a..9ae6ac0 100644
--- a/util/seq_map.hh
+++ b/util/seq_map.hh
@@ -56,9 +56,12 @@ struct SeqMap {
 		return nullptr;
 	}
 
+	// removes the newest entry
 	void remove_last() {
-		if (sz > 0)
+		if (sz > 0) {
+			order_by_age();
 			sz--;
+		}
 	}
 
 	// returns true if found and removed
@@ -68,14 +71,8 @@ struct SeqMap {
 		if (found == active_keys.end())
 			return false;
 		size_t index = found - active_keys.begin();
-
-		// If overwrite() has wrapped around, put the entries in order of age
-		if (oldest > 0 && oldest < sz) {
-			std::rotate(keys.begin(), keys.begin() + oldest, keys.begin() + sz);
-			std::rotate(vals.begin(), vals.begin() + oldest, vals.begin() + sz);
-			index = (index + sz - oldest) % sz;
-		}
-		oldest = 0;
+		index = (index + sz - oldest) % sz;
+		order_by_age();
 
 		// Close the gap, so the removed entry does not remain as one with a default key
 		std::move(keys.begin() + index + 1, keys.begin() + sz, keys.begin() + index);
@@ -98,4 +95,12 @@ struct SeqMap {
 	size_t size() const {
 		return sz;
 	}
+
+private:
+	// If overwrite() has wrapped around, put the entries in order of age
+	void order_by_age() {
+		std::rotate(keys.begin(), keys.begin() + oldest, keys.begin() + sz);
+		std::rotate(vals.begin(), vals.begin() + oldest, vals.begin() + sz);
+		oldest = 0;
+	}
 };
-- 
2.43.0


From 9228cb7560ed0f897e195f14f72976b50cff2526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 53/72] fix: FunctionSized stores over-aligned callables
 aligned

---
 util/callable.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/callable.hh b/util/callable.hh
index 23bb51a..3fd60d9 100644
--- a/util/callable.hh
+++ b/util/callable.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <cstddef>
 #include <cstdint>
 #include <new> //for placement new
 #include <type_traits>
@@ -23,7 +24,8 @@ public:
 	FunctionSized() = default;
 
 	template<typename Callable>
-	requires(sizeof(Callable) <= buffer_size && std::is_invocable_v<Callable, Args...>)
+	requires(sizeof(Callable) <= buffer_size && alignof(Callable) <= alignof(std::max_align_t) &&
+			 std::is_invocable_v<Callable, Args...>)
 	FunctionSized(Callable callable)
 		: m_callback{invoke<Callable>}
 		, m_manage{manage<Callable>} {
@@ -92,7 +94,7 @@ private:
 	using Manager = void (*)(void *, const void *);
 	Manager m_manage{};
 
-	alignas(uint64_t) uint8_t m_data[buffer_size];
+	alignas(std::max_align_t) uint8_t m_data[buffer_size];
 };
 
 template<typename Signature>
-- 
2.43.0


From 138e1e8c0d01052d8876db200dcedc1f57e70597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 54/72] fix: FixedVector::erase(first, last) refuses ranges
 outside the content

---
 util/fixed_vector.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/fixed_vector.hh b/util/fixed_vector.hh
index 46ce821..f49d47e 100644
--- a/util/fixed_vector.hh
+++ b/util/fixed_vector.hh
@@ -131,6 +131,10 @@ public:
 			return;
 		}
 
+		if (first < begin() || last > end()) {
+			return;
+		}
+
 		std::move(last, end(), first);
 
 		back_idx -= count;
-- 
2.43.0


From a481757d2f102adfc147f836780708405e9aeccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 55/72] fix: contains_word passes std::tolower characters of
 any sign, and can be included twice

---
 util/contains_word.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/contains_word.hh b/util/contains_word.hh
index 0dc9983..7447a9a 100644
--- a/util/contains_word.hh
+++ b/util/contains_word.hh
@@ -1,12 +1,14 @@
+#pragma once
 #include <algorithm>
+#include <cctype>
 #include <string>
 
 inline bool contains_word(std::string const &name, std::string const &word) {
 	// Case-insensitive:
 	std::string lname = name;
-	std::transform(lname.begin(), lname.end(), lname.begin(), [](char c) { return std::tolower(c); });
+	std::transform(lname.begin(), lname.end(), lname.begin(), [](unsigned char c) { return std::tolower(c); });
 	std::string lword = word;
-	std::transform(lword.begin(), lword.end(), lword.begin(), [](char c) { return std::tolower(c); });
+	std::transform(lword.begin(), lword.end(), lword.begin(), [](unsigned char c) { return std::tolower(c); });
 
 	std::string space_lword = " " + lword;
 	std::string lword_space = lword + " ";
-- 
2.43.0


From d3b21f819ac2418c66dc92fa47478405dc9b30d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 56/72] fix: aligned_allocator.hh and mem_test.hh can be
 included twice

---
 util/aligned_allocator.hh | 1 +
 util/mem_test.hh          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/util/aligned_allocator.hh b/util/aligned_allocator.hh
index fbd37b1..f6ed4e0 100644
--- a/util/aligned_allocator.hh
+++ b/util/aligned_allocator.hh
@@ -1,3 +1,4 @@
+#pragma once
 #include <cstddef>
 #include <cstdlib>
 
diff --git a/util/mem_test.hh b/util/mem_test.hh
index 023ac81..7300d11 100644
--- a/util/mem_test.hh
+++ b/util/mem_test.hh
@@ -1,3 +1,4 @@
+#pragma once
 #include <cstdint>
 
 struct MemTest {
-- 
2.43.0


From b95a1911efd1d18aa619a62bd8664a7a9eeb55cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 57/72] fix: copies of a BigAlloc no longer delete its data
 twice

---
 util/big_buffer.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/big_buffer.hh b/util/big_buffer.hh
index 9a77253..07c2b0b 100644
--- a/util/big_buffer.hh
+++ b/util/big_buffer.hh
@@ -17,6 +17,11 @@ struct BigBuffer : BigHeapAllocation {
 	~BigBuffer() {
 		delete data;
 	}
+
+	// A copy would delete the same data again
+	BigBuffer(const BigBuffer &) = delete;
+	BigBuffer &operator=(const BigBuffer &) = delete;
+
 	T &get() {
 		return *data;
 	}
-- 
2.43.0


From 42dece1d8b203b7fc658b8297b17761d7425880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 58/72] fix: FilteredInterpArray stays on its targets when no
 new data comes for 2^32 updates

---
 util/filtered_interp_array.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/filtered_interp_array.hh b/util/filtered_interp_array.hh
index 31198ef..6f8654e 100644
--- a/util/filtered_interp_array.hh
+++ b/util/filtered_interp_array.hh
@@ -4,6 +4,7 @@
 #include <atomic>
 #include <concepts>
 #include <cstddef>
+#include <limits>
 #include <span>
 
 template<typename FilterT, typename T>
@@ -41,7 +42,8 @@ struct FilteredInterpArray {
 	// Advance interpolation and write output values.
 	// output_fn: (unsigned i, T val) -> void
 	void get_interp_values(auto output_fn) {
-		_update_count++;
+		if (_update_count < std::numeric_limits<unsigned>::max())
+			_update_count++;
 
 		bool did_overshoot = (_update_count >= _num_updates);
 
-- 
2.43.0


From baaad76646ab2a3211a294a5324c90a62d59aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 59/72] fix: OneShot counts updates, so that long pulses end on
 time

---
 util/oscs.hh | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 74fe4cc..3d7ff20 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -1,5 +1,6 @@
 #pragma once
 #include "util/math_tables.hh"
+#include <cmath>
 #include <cstdint>
 
 // TODO: Oscllator Concept
@@ -215,33 +216,45 @@ private:
 
 struct OneShot {
 	OneShot(float update_rate_hz = 48000.f)
-		: increment_{1.f / update_rate_hz}
-		, pulse_width_{0} {
+		: update_rate_hz_{update_rate_hz}
+		, updates_left_{0} {
 	}
 
 	void start(float pulse_width_sec) {
-		pulse_width_ = pulse_width_sec;
+		updates_left_ = num_updates((double)pulse_width_sec * update_rate_hz_);
 	}
 
 	// starts true, goes false after pulse_width seconds has passed
 	bool update() {
-		if (pulse_width_ > 0) {
-			pulse_width_ -= increment_;
+		if (updates_left_ > 0) {
+			updates_left_ -= 1;
 			return true;
 		}
 		return false;
 	}
 
 	void stop() {
-		pulse_width_ = 0;
+		updates_left_ = 0;
 	}
 
 	void set_update_rate_hz(float hz) {
-		if (hz > 0)
-			increment_ = 1.f / hz;
+		if (hz > 0) {
+			// a running pulse keeps the time it has left
+			if (updates_left_ > 0)
+				updates_left_ = num_updates(updates_left_ / update_rate_hz_ * hz);
+			update_rate_hz_ = hz;
+		}
 	}
 
 private:
-	float increment_;
-	float pulse_width_;
+	// Whole numbers of updates are not missed because of the rounding of a float
+	static double num_updates(double updates) {
+		double nearest = std::round(updates);
+		return std::abs(updates - nearest) <= updates * 1.2e-7 ? nearest : updates;
+	}
+
+	// Counted in updates: subtracting the update period from the seconds left would
+	// round every time, and so end long pulses early or never.
+	float update_rate_hz_;
+	double updates_left_;
 };
-- 
2.43.0


From f03ac0e1c1f74c4c867d7af47427913de0fc933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:01 +0000
Subject: [PATCH 60/72] fix: versions whose pre-release name has dots
 (1.2.3-rc.1) are pre-releases

---
 util/version_tools.hh | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/util/version_tools.hh b/util/version_tools.hh
index ecffe10..409daf9 100644
--- a/util/version_tools.hh
+++ b/util/version_tools.hh
@@ -48,13 +48,18 @@ struct Version {
 			}
 
 			auto num = strtol(std::string(token).c_str(), nullptr, 10);
-			set_field(i++, num);
+			set_field(i, num);
 
-			if (pos == std::string_view::npos) {
-				// "normal" means not a pre-release, meaning there's no dash after the last number
-				is_normal = vers.find_first_of('-') == vers.npos;
+			// "normal" means not a pre-release, meaning there's no dash after the last number,
+			// which is the revision, or the last field if there are fewer than three.
+			// A pre-release can have dots itself, e.g. 1.2.3-rc.1
+			if ((i >= 2 || pos == std::string_view::npos) && token.find_first_of('-') != token.npos)
+				is_normal = false;
+
+			if (pos == std::string_view::npos)
 				break;
-			}
+
+			i++;
 		}
 	}
 
-- 
2.43.0


From 50a169fad9bc932744322da4d19b3bfa09ba6dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:01 +0000
Subject: [PATCH 61/72] fix: SmoothOversampler sums do not overflow for sizes
 that are no power of two

---
 util/filter.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/util/filter.hh b/util/filter.hh
index d3dc1d2..b52f73b 100644
--- a/util/filter.hh
+++ b/util/filter.hh
@@ -1,5 +1,8 @@
 #pragma once
 #include "util/math.hh"
+#include <cstdint>
+#include <limits>
+#include <type_traits>
 
 template<unsigned Size, class T = unsigned, unsigned InputValueBits = 12>
 struct MovingAverage {
@@ -67,8 +70,10 @@ private:
 template<unsigned Size, class T = unsigned, unsigned InputValueBits = 12>
 struct SmoothOversampler {
 
-	using AccumT = unsigned;
-	static_assert(sizeof(AccumT) * 8 >= (MathTools::Log2<Size>::val + InputValueBits));
+	// Wide enough for the sum of Size full-scale values, also if Size is not a power of 2
+	static_assert(InputValueBits <= 32);
+	static constexpr uint64_t MaxSum = Size * ((uint64_t(1) << InputValueBits) - 1);
+	using AccumT = std::conditional_t<(MaxSum <= std::numeric_limits<unsigned>::max()), unsigned, uint64_t>;
 
 public:
 	SmoothOversampler() = default;
-- 
2.43.0


From 50091c90605c8bd08d4039d6685e03e0438ab122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:01 +0000
Subject: [PATCH 62/72] fix: is_poly_concave works for unsigned coordinates of
 32 and 64 bits

---
 util/geometry.hh | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index a2fd925..e4e5bc5 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -1,6 +1,8 @@
 #pragma once
+#include <array>
 #include <cstdint>
 #include <span>
+#include <type_traits>
 
 struct Rect;
 
@@ -75,7 +77,18 @@ constexpr bool is_poly_concave(std::span<const T> points) requires requires(T pt
 	if (n < 3)
 		return false;
 
-	auto X_prod = [](T O, T A, T B) { return (A.x - O.x) * (B.y - O.y) - (A.y - O.y) * (B.x - O.x); };
+	// The difference of unsigned coordinates can be negative
+	auto diff = [](auto a, auto b) {
+		using D = decltype(a - b);
+		if constexpr (std::is_unsigned_v<D>)
+			return static_cast<std::make_signed_t<D>>(a - b);
+		else
+			return a - b;
+	};
+
+	auto X_prod = [diff](T O, T A, T B) {
+		return diff(A.x, O.x) * diff(B.y, O.y) - diff(A.y, O.y) * diff(B.x, O.x);
+	};
 
 	int sign = 0;
 	for (auto i = 0u; i < points.size(); i++) {
-- 
2.43.0


From f5e80f5775a484d7cbea2f4f52c2fb05332704a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:01 +0000
Subject: [PATCH 63/72] fix: LatchedParam notices moves greater than the
 maximum of a signed type

---
 util/parameter.hh | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/util/parameter.hh b/util/parameter.hh
index ab0d0c2..d600cc6 100644
--- a/util/parameter.hh
+++ b/util/parameter.hh
@@ -1,5 +1,6 @@
 #pragma once
 #include "util/math.hh"
+#include <type_traits>
 
 template<typename T, unsigned MinChangeNumerator, unsigned MinChangeDenom = 1>
 struct LatchedParam {
@@ -13,7 +14,7 @@ struct LatchedParam {
 	// of reads after a change > min_change
 
 	bool store_changed(T new_val) {
-		if (MathTools::abs_diff<T>(new_val, val) >= min_change) {
+		if (is_change(new_val, val)) {
 			val = new_val;
 			changed = true;
 			return true;
@@ -42,6 +43,17 @@ struct LatchedParam {
 	operator T() {
 		return val;
 	}
+
+private:
+	static constexpr bool is_change(T a, T b) {
+		if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) {
+			// Signed values can be further apart than the greatest T
+			using U = std::make_unsigned_t<T>;
+			U distance = a >= b ? U(a) - U(b) : U(b) - U(a);
+			return distance >= U(min_change);
+		} else
+			return MathTools::abs_diff<T>(a, b) >= min_change;
+	}
 };
 
 template<typename T>
-- 
2.43.0


From 1d6b9393005aee0bb235083982356020b6a6f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 64/72] Restore mem_test.hh: its name counts as a test file

---
 util/mem_test.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/util/mem_test.hh b/util/mem_test.hh
index 7300d11..023ac81 100644
--- a/util/mem_test.hh
+++ b/util/mem_test.hh
@@ -1,4 +1,3 @@
-#pragma once
 #include <cstdint>
 
 struct MemTest {
-- 
2.43.0


From 21a50ed49a988298d3c3c9f9f85fc93c09103079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 65/72] fix: Color addition saturates where __UQADD8 is not
 available, as it does where it is

---
 util/colors.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/colors.hh b/util/colors.hh
index f342251..3528685 100644
--- a/util/colors.hh
+++ b/util/colors.hh
@@ -5,7 +5,8 @@
 #include "cmsis_gcc.h"
 #define builtin_add_u8(x, y) __UQADD8(x, y)
 #elif defined(__USAT)
-#define builtin_add_u8(x, y) ((x) + (y))
+// saturates, like __UQADD8
+#define builtin_add_u8(x, y) ((x) + (y) > 255 ? 255 : (x) + (y))
 #else
 static inline uint32_t __USAT(int32_t val, uint32_t sat) {
 	if (sat <= 31U) {
@@ -18,7 +19,8 @@ static inline uint32_t __USAT(int32_t val, uint32_t sat) {
 	}
 	return (uint32_t)val;
 }
-#define builtin_add_u8(x, y) ((x) + (y))
+// saturates, like __UQADD8
+#define builtin_add_u8(x, y) ((x) + (y) > 255 ? 255 : (x) + (y))
 #endif
 
 struct Color {
-- 
2.43.0


From cdd32b9be655c61b2fa11890a29c517c6ad08adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 66/72] fix: PollEvent overflowed when a wide signed counter
 wrapped

---
 util/poll_event.hh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/util/poll_event.hh b/util/poll_event.hh
index 1aff3f2..5ae61cf 100644
--- a/util/poll_event.hh
+++ b/util/poll_event.hh
@@ -1,4 +1,5 @@
 #pragma once
+#include <type_traits>
 
 template<typename TimeT = long int>
 struct PollEvent {
@@ -11,7 +12,7 @@ struct PollEvent {
 
 		// Handle overflow
 		if (now < last_poll) {
-			if (TimeT(now - last_poll) >= period) {
+			if (wrapped_difference(now, last_poll) >= period) {
 				expired = true;
 			}
 		} else if ((now - last_poll) >= period) {
@@ -25,6 +26,14 @@ struct PollEvent {
 	}
 
 private:
+	// Signed counters must not overflow, so they are subtracted as unsigned
+	static TimeT wrapped_difference(TimeT a, TimeT b) {
+		if constexpr (std::is_integral_v<TimeT>)
+			return TimeT(std::make_unsigned_t<TimeT>(a) - std::make_unsigned_t<TimeT>(b));
+		else
+			return a - b;
+	}
+
 	TimeT period;
 	TimeT last_poll{};
 };
-- 
2.43.0


From 63cf1edac21fb4e2095d34a1a89d48a0486602bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 67/72] fix: VOctCalibrator truncated the difference of narrow
 measurements far apart

---
 util/voct_calibrator.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/voct_calibrator.hh b/util/voct_calibrator.hh
index e68e747..e9743ed 100644
--- a/util/voct_calibrator.hh
+++ b/util/voct_calibrator.hh
@@ -34,14 +34,14 @@ struct VoctCalibrator {
 
 		if (num_datapt_ >= 2) {
 			int octave_span = (int)datapt_[0].first - (int)datapt_[1].first;
-			T measurement_diff = datapt_[0].second - datapt_[1].second;
+			auto measurement_diff = datapt_[0].second - datapt_[1].second;
 			if (octave_span != 0 && measurement_diff != 0) {
-				slope_ = measurement_diff / static_cast<T>(octave_span);
+				slope_ = measurement_diff / octave_span;
 			}
 
 			if (!measured_C0_) {
-				T offset_0 = datapt_[0].second - (slope_ * (int)datapt_[0].first);
-				T offset_1 = datapt_[1].second - (slope_ * (int)datapt_[1].first);
+				auto offset_0 = datapt_[0].second - (slope_ * (int)datapt_[0].first);
+				auto offset_1 = datapt_[1].second - (slope_ * (int)datapt_[1].first);
 				offset_ = (offset_0 + offset_1) / 2;
 			}
 		}
-- 
2.43.0


From 1f912ed8d185f2d995c85653653d1db20c39295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 68/72] fix: map_value overflowed for integers whose
 differences or their product exceed their type

---
 util/math.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index 447ad67..e4d5b1e 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -7,6 +7,7 @@
 #include <cstdlib>
 #include <numeric>
 #include <optional>
+#include <type_traits>
 
 namespace MathTools
 {
@@ -19,7 +20,14 @@ static constexpr float M_PIF = M_PI;
 template<typename Tval, typename Tin, typename Tout>
 static constexpr Tout
 map_value(const Tval x, const Tin in_min, const Tin in_max, const Tout out_min, const Tout out_max) {
-	return (x - in_min) * (out_max - out_min) / (in_max - in_min) + out_min;
+	using T = std::common_type_t<Tval, Tin, Tout>;
+	if constexpr (std::is_integral_v<T> && (std::is_signed_v<T> || sizeof(T) < 8)) {
+		// The differences of integers, and their product, can be beyond the range of their type
+		const auto in_range = int64_t{in_max} - int64_t{in_min};
+		const auto out_range = int64_t{out_max} - int64_t{out_min};
+		return static_cast<Tout>((int64_t{x} - int64_t{in_min}) * out_range / in_range + int64_t{out_min});
+	} else
+		return (x - in_min) * (out_max - out_min) / (in_max - in_min) + out_min;
 }
 
 template<typename T>
-- 
2.43.0


From 137c725820bca754363fdd26614d448ad7398894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 69/72] fix: RectC centers overflowed far from the origin

---
 util/geometry.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index e4e5bc5..6204873 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -19,10 +19,10 @@ struct RectC {
 		return bottom - top;
 	}
 	constexpr int32_t center_y() const {
-		return (top + bottom) / 2;
+		return (int64_t{top} + bottom) / 2;
 	}
 	constexpr int32_t center_x() const {
-		return (left + right) / 2;
+		return (int64_t{left} + right) / 2;
 	}
 
 	// operator Rect();
-- 
2.43.0


From 225c261eb3e0afe93aa9a6bc9e28fbbb35bb30c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 70/72] fix: is_poly_concave overflowed for wide polygons of
 small integer types

---
 util/geometry.hh | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 6204873..06ee7fb 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -77,11 +77,10 @@ constexpr bool is_poly_concave(std::span<const T> points) requires requires(T pt
 	if (n < 3)
 		return false;
 
-	// The difference of unsigned coordinates can be negative
+	// Integers: the difference can be negative, and the product of two can be beyond their own type
 	auto diff = [](auto a, auto b) {
-		using D = decltype(a - b);
-		if constexpr (std::is_unsigned_v<D>)
-			return static_cast<std::make_signed_t<D>>(a - b);
+		if constexpr (std::is_integral_v<decltype(a)>)
+			return static_cast<int64_t>(static_cast<uint64_t>(a) - static_cast<uint64_t>(b));
 		else
 			return a - b;
 	};
-- 
2.43.0


From 7088f85045ece7996cd897080a4d9a426915c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 71/72] fix: TogglerCounter reported a level other than 0 and 1
 as a rise at every sample

---
 util/debouncer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/debouncer.hh b/util/debouncer.hh
index 2bb28b9..73c7278 100644
--- a/util/debouncer.hh
+++ b/util/debouncer.hh
@@ -128,7 +128,7 @@ public:
 
 struct TogglerCounter : Toggler {
 	void register_state(unsigned newstate) {
-		if (newstate == is_high_) {
+		if ((newstate != 0) == is_high_) {
 			steady_state_ctr++;
 			return;
 		}
-- 
2.43.0


From d8e6b1b43ecca92456cdebbf86a9aece3e2d4c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 72/72] fix: debouncers never settled on a level other than 0
 and 1

---
 util/debouncer.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/debouncer.hh b/util/debouncer.hh
index 73c7278..c6ba98b 100644
--- a/util/debouncer.hh
+++ b/util/debouncer.hh
@@ -170,7 +170,7 @@ struct Debouncer : Toggler {
 	}
 
 	void register_state(unsigned new_state) {
-		debounce_state_ = ((debounce_state_ << 1) | new_state) & StateMask;
+		debounce_state_ = ((debounce_state_ << 1) | (new_state ? 1u : 0u)) & StateMask;
 		if (debounce_state_ == (RisingEdgePattern & StateMask)) {
 			register_rising_edge();
 		} else if (debounce_state_ == (FallingEdgePattern & StateMask)) {
@@ -191,7 +191,7 @@ template<unsigned RisingEdgePattern = 0x00000001,
 		 bool DebounceRawState = false>
 struct DebouncerCounter : Toggler {
 	void register_state(unsigned new_state) {
-		debounce_state_ = ((debounce_state_ << 1) | new_state) & StateMask;
+		debounce_state_ = ((debounce_state_ << 1) | (new_state ? 1u : 0u)) & StateMask;
 		if (debounce_state_ == (RisingEdgePattern & StateMask)) {
 			register_rising_edge();
 			steady_state_ctr = 0;
-- 
2.43.0

