From 26ab5105141fa7222377246909bdc5a96e0f3643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 01/83] fix: let vmem iterators work without a log

---
 src/x/vmem_iterator.x.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/x/vmem_iterator.x.h b/src/x/vmem_iterator.x.h
index 5af16f6..693c7a8 100644
--- a/src/x/vmem_iterator.x.h
+++ b/src/x/vmem_iterator.x.h
@@ -154,7 +154,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->next(*this);
@@ -166,7 +168,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -180,7 +184,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->prev(*this);
@@ -192,7 +198,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -247,7 +255,9 @@ namespace abc {
 			throw exception<std::runtime_error, Log>("vmem_iterator::deref() Dereferencing invalid iterator", 0x10606);
 		}
 
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		}
 
 		return *p;
 	}
-- 
2.43.0


From cd7495eaa11858518f457a5b56e3d286d30ab60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 02/83] fix: empty the source list when splicing into an empty
 vmem_linked

---
 src/x/vmem_linked.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_linked.x.h b/src/x/vmem_linked.x.h
index f40416c..b7898a7 100644
--- a/src/x/vmem_linked.x.h
+++ b/src/x/vmem_linked.x.h
@@ -523,6 +523,10 @@ namespace abc {
 		else if (empty()) {
 			// Take over the other state.
 			*_state = *other._state;
+
+			// Empty other state.
+			other._state->front_page_pos = vmem_page_pos_nil;
+			other._state->back_page_pos = vmem_page_pos_nil;
 		}
 		else {
 			// Connect the back page of this and the front page of the other.
-- 
2.43.0


From b7dfcd180f4aa4a85cd47b69fc428c6f11ce8936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 03/83] fix: reset the item count when a vmem container is
 cleared

---
 src/x/vmem_container.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 0f6a69d..e5a3b5d 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1088,6 +1088,10 @@ namespace abc {
 	inline void vmem_container<T, Header, Pool, Log>::clear() noexcept {
 		vmem_linked<Pool, Log> linked(_state, _pool, _log);
 		linked.clear();
+
+		if (linked.empty()) {
+			_state->total_item_count = 0;
+		}
 	}
 
 
-- 
2.43.0


From e8429d882fbafc712cf46db86d7056b8dff007c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 04/83] fix: free an erased vmem container page only once

---
 src/x/vmem_container.x.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index e5a3b5d..263c277 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1026,12 +1026,9 @@ namespace abc {
 				(long long)page_pos);
 		}
 
+		// This also frees the page.
 		bool ok = erase_page_pos(page_pos);
 
-		if (ok) {
-			page.free();
-		}
-
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::optional, 0x1047a, "vmem_container::erase_page() Done. ok=%d, page_pos=0x%llx",
 				ok, (long long)page_pos);
-- 
2.43.0


From e889c32dcada36fe96250e36d6433e4746deaa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 05/83] fix: keep the result of merging the next vmem container
 page

---
 src/x/vmem_container.x.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 263c277..0bce334 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -868,8 +868,8 @@ namespace abc {
 			result = balance_merge_next(itr, page, container_page);
 		}
 
-		// Try the previous page.
-		if (container_page->prev_page_pos != vmem_page_pos_nil) {
+		// Try the previous page, unless the next page has already been merged.
+		if (result.page_leads[1].operation == vmem_container_page_lead_operation::none && container_page->prev_page_pos != vmem_page_pos_nil) {
 			result = balance_merge_prev(itr, page, container_page);
 		}
 
-- 
2.43.0


From 85f16a6c4f22abf0d8193150fef05a3383b22c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 06/83] fix: split vmem container pages that fit a single item

---
 src/x/vmem_container.x.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 0bce334..aa23cdd 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -581,7 +581,8 @@ namespace abc {
 				(long long)page_pos, (long long)new_page_pos);
 		}
 
-		constexpr std::size_t new_page_item_count = page_capacity() / 2;
+		// When a page fits a single item, that item moves to the new page to free up the slot.
+		constexpr std::size_t new_page_item_count = page_capacity() > 1 ? page_capacity() / 2 : 1;
 		constexpr std::size_t page_item_count = page_capacity() - new_page_item_count;
 		std::memmove(&new_container_page->items[0], &container_page->items[page_item_count], new_page_item_count * sizeof(T));
 		new_container_page->item_count = new_page_item_count;
-- 
2.43.0


From 0070ee188b3c43328fe7b82e6dbee8885f9254ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 07/83] fix: return a valid end() when the only item on the
 last vmem page is erased

---
 src/x/vmem_container.x.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index aa23cdd..42f5013 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -784,6 +784,11 @@ namespace abc {
 
 				erase_page(page);
 				container_page = nullptr;
+
+				if (!result.iterator.can_deref()) {
+					// The back page has changed.
+					result.iterator = end_itr();
+				}
 			}
 		}
 
-- 
2.43.0


From b8338f7a4e8ecb702d7f1046f0ef13b1696e71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 08/83] fix: insert a range into a vmem container in order,
 wherever pages split

---
 src/x/vmem_container.x.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 42f5013..781af0b 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -385,15 +385,27 @@ namespace abc {
 	template <typename T, typename Header, typename Pool, typename Log>
 	template <typename InputItr>
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::insert(const_iterator itr, InputItr first, InputItr last) {
+		// Every insert may move items among pages, so the only usable iterator is the one to the last inserted item.
 		iterator ret(itr);
+		std::size_t count = 0;
 
 		for (InputItr item = first; item != last; item++) {
-			if (!insert(itr++, *item).can_deref()) {
+			iterator item_itr = insert(itr, *item);
+			if (!item_itr.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x1044e, "vmem_container::insert() Breaking from the loop.");
 				}
 				break;
 			}
+
+			count++;
+			ret = item_itr;
+			itr = ++item_itr;
+		}
+
+		// Go back to the first inserted item.
+		for (; count > 1; count--) {
+			ret--;
 		}
 
 		return ret;
-- 
2.43.0


From 6c31dce039b1cd9fa8be96fdc1d5a8dbfe388215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 09/83] fix: erase exactly the given range of a vmem container

---
 src/x/vmem_container.x.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 781af0b..3d06bea 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -723,9 +723,15 @@ namespace abc {
 
 	template <typename T, typename Header, typename Pool, typename Log>
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::erase(const_iterator first, const_iterator last) {
+		// Every erase may move items among pages, which invalidates last.
+		std::size_t count = 0;
+		for (const_iterator item_itr = first; item_itr != last && item_itr.can_deref(); item_itr++) {
+			count++;
+		}
+
 		iterator itr = first;
 
-		while (itr != last) {
+		for (; count > 0; count--) {
 			if (!itr.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x10464, "vmem_container::erase(first, last) Breaking from the loop.");
-- 
2.43.0


From 999ea1e8246cb68d5ed39f085f104b9414b54f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 10/83] fix: return chars above 0x7f from a vmem string stream

---
 src/x/vmem_string.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 548aa61..ed5c4bc 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -83,7 +83,7 @@ namespace abc {
 
 		base::setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return std::char_traits<Char>::to_int_type(_get_ch);
 	}
 
     template <typename Char, typename Pool, typename Log>
-- 
2.43.0


From 942c8f96cc8f02755daca328fd21a5964ca4598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 11/83] fix: don't stop inserting a range into a vmem map at a
 key that is present

---
 src/x/vmem_map.x.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 708a649..293a199 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -295,7 +295,8 @@ namespace abc {
 	template <typename InputItr>
 	inline void vmem_map<Key, T, Pool, Log>::insert(InputItr first, InputItr last) {
 		for (InputItr item_itr = first; item_itr != last; item_itr++) {
-			if (!insert(*item_itr).second) {
+			// A key that is already present is not a failure.
+			if (!insert(*item_itr).first.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x10518, "vmem_map::insert() Breaking from the loop.");
 				}
-- 
2.43.0


From d368777bdf4cc39ea01ee1ee938cededcb925ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 12/83] fix: look for a vmem map key only among the items on
 the page

---
 src/x/vmem_map.x.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 293a199..a7db3eb 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -750,13 +750,13 @@ namespace abc {
 					item_pos++;
 				}
 
-				found = vmem_are_equal(value_page->items[item_pos].key, key);
+				found = item_pos < value_page->item_count && vmem_are_equal(value_page->items[item_pos].key, key);
 			}
 		}
 
 		result.ok = found;
 
-		if (page_pos != vmem_item_pos_nil && item_pos != vmem_item_pos_nil) {
+		if (page_pos != vmem_page_pos_nil && item_pos != vmem_item_pos_nil) {
 			result.iterator = iterator(this, page_pos, item_pos, vmem_iterator_edge::none, _log);
 		}
 
-- 
2.43.0


From 33d454ddd9f0d5dc70225180075f448b42c6d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 13/83] fix: let the const find() and contains() of a vmem map
 compile

---
 src/x/vmem_map.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index a7db3eb..4146258 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -778,7 +778,7 @@ namespace abc {
 
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::const_iterator vmem_map<Key, T, Pool, Log>::find(const Key& key) const noexcept {
-		return const_cast<vmem_map<Key, T, Pool, Log>>(this)->find(key);
+		return const_cast<vmem_map<Key, T, Pool, Log>*>(this)->find(key);
 	}
 
 
-- 
2.43.0


From b8f489c810553f62ab6d19097ded709308ab77ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:20 +0000
Subject: [PATCH 14/83] fix: keep vmem container items within the page that has
 a slot for them

---
 src/x/vmem_container.x.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 3d06bea..7784c3b 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -522,11 +522,13 @@ namespace abc {
 		bool ok = insert_page_after(itr.page_pos(), new_page, new_container_page);
 
 		if (ok) {
-			if (balance) {
+			// An item that goes before the end of the page needs a slot there, while the only item on a page moves just for that.
+			bool is_inner = itr.item_pos() != vmem_item_pos_nil && itr.item_pos() < container_page->item_count;
+			if (is_inner || (balance && page_capacity() > 1)) {
 				balance_split(itr.page_pos(), container_page, new_page.pos(), new_container_page);
 			}
 
-			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() <= container_page->item_count) {
+			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() <= container_page->item_count && container_page->item_count < page_capacity()) {
 				// Inserting to the former page.
 				result = insert_with_capacity(itr, item, container_page);
 			}
-- 
2.43.0


From 9f6d2e859dcc489ff8cefe809a9be4ba0c7b57b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 15/83] fix: keep the key levels of a vmem map consistent with
 its value pages

---
 src/i/vmem_map.i.h |  19 ++++--
 src/x/vmem_map.x.h | 141 +++++++++++++++++++++++++++++----------------
 2 files changed, 105 insertions(+), 55 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index f4d02c7..683447c 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -458,11 +458,22 @@ namespace abc {
 		result2 update_key_levels(bool is_insert, find_result2&& find_result, value_level_result2&& values_result) noexcept;
 
 		/**
-		 * @brief				Returns the position of a key on a key page.
-		 * @param key_page_pos	Key page position.
-		 * @param key			Key
+		 * @brief					Finds the key item that references a given child page.
+		 * @param keys				Key level.
+		 * @param key_page_pos		Position of the key page to start from.
+		 * @param child_page_pos	Position of the child page.
+		 * @return					Iterator. It can't be dereferenced if there is no such key item.
 		 */
-		vmem_item_pos_t key_item_pos(vmem_page_pos_t key_page_pos, const Key& key) noexcept;
+		key_level_iterator find_child(vmem_map_key_level<Key, Pool, Log>& keys, vmem_page_pos_t key_page_pos, vmem_page_pos_t child_page_pos) noexcept;
+
+		/**
+		 * @brief					Replaces the key of a given child page at the levels above a given one.
+		 * @param key_stack_itr		Key level of the child page.
+		 * @param path_itr			Position on the path that corresponds to `key_stack_itr`.
+		 * @param child_page_pos	Position of the child page.
+		 * @param key				New key.
+		 */
+		void replace_key(key_level_stack_iterator key_stack_itr, path_reverse_iterator path_itr, vmem_page_pos_t child_page_pos, const Key& key) noexcept;
 
 	public:
 		/**
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 4146258..67473f0 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -433,15 +433,15 @@ namespace abc {
 					key_level_result2 keys_result;
 					if (is_insert) {
 						// page_leads[0] - insert; new page
-						// page_leads[1] - original; used only when a new level is created
-						
-						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[0].items[0].key);
-						if (parent_item_pos == vmem_item_pos_nil) {
+						// page_leads[1] - original; the new page goes right after it
+
+						key_level_iterator parent_keys_itr = find_child(parent_keys, parent_page_pos, page_leads[1].page_pos);
+						if (!parent_keys_itr.can_deref()) {
 							ok = false;
 							break;
 						}
 
-						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
+						parent_keys_itr = key_level_iterator(&parent_keys, parent_keys_itr.page_pos(), parent_keys_itr.item_pos() + 1, vmem_iterator_edge::none, _log);
 
 						vmem_map_key<Key> key_item;
 						vmem_copy(key_item.key, page_leads[0].items[0].key);
@@ -451,31 +451,26 @@ namespace abc {
 					}
 					else {
 						// page_leads[0] - replace or none; doesn't create new leads
-						// page_leads[1] - erase
-
-						if (page_leads[0].operation == vmem_container_page_lead_operation::replace) {
-							vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[0].items[0].key);
-							if (parent_item_pos == vmem_item_pos_nil) {
-								ok = false;
-								break;
-							}
+						// page_leads[1] - erase or none
 
-							key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
-							if (parent_keys_itr.can_deref()) {
-								vmem_ptr<vmem_map_key<Key>, Pool, Log> key_ptr = parent_keys_itr.operator->();
-								vmem_copy(key_ptr->key, page_leads[0].items[1].key);
-							}
+						// A key that has been replaced on a child page remains a valid lower bound for that page.
+						if (page_leads[1].operation == vmem_container_page_lead_operation::none) {
+							break;
 						}
 
-						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].items[0].key);
-						if (parent_item_pos == vmem_item_pos_nil) {
+						key_level_iterator parent_keys_itr = find_child(parent_keys, parent_page_pos, page_leads[1].page_pos);
+						if (!parent_keys_itr.can_deref()) {
 							ok = false;
 							break;
 						}
 
-						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
-
 						keys_result = parent_keys.erase2(parent_keys_itr);
+
+						// The keys of an erased first child belong to the previous page now. The levels above must reflect that.
+						if (keys_result.page_leads[0].operation == vmem_container_page_lead_operation::replace
+							&& (keys_result.page_leads[1].operation == vmem_container_page_lead_operation::none || keys_result.page_leads[1].page_pos != keys_result.page_leads[0].page_pos)) {
+							replace_key(key_stack_itr, path_itr, keys_result.page_leads[0].page_pos, keys_result.page_leads[0].items[1].key);
+						}
 					}
 
 					if (!keys_result.iterator.is_valid()) {
@@ -487,10 +482,8 @@ namespace abc {
 						break;
 					}
 
-					if (page_leads[0].operation != vmem_container_page_lead_operation::none || page_leads[1].operation != vmem_container_page_lead_operation::none) {
-						page_leads[0] = keys_result.page_leads[0];
-						page_leads[1] = keys_result.page_leads[1];
-					}
+					page_leads[0] = keys_result.page_leads[0];
+					page_leads[1] = keys_result.page_leads[1];
 
 					key_stack_itr++;
 					path_itr--;
@@ -519,15 +512,25 @@ namespace abc {
 						}
 					}
 					else {
-						if (!_key_stack.empty()) {
-							std::size_t top_keys_size = 2;
+						// A top level that consists of a single key is not needed.
+						bool pop = true;
+						while (pop && !_key_stack.empty()) {
 							{
-								vmem_container_state top_keys_state = _key_stack.back();
-								vmem_map_key_level<Key, Pool, Log> top_keys(&top_keys_state, _pool, _log);
-								top_keys_size = top_keys.size();
+								// IMPORTANT: Save the vmem_ptr instance to keep the page locked.
+								vmem_ptr<vmem_container_state, Pool, Log> top_keys_state_ptr = _key_stack.backptr();
+								pop = top_keys_state_ptr.operator->() != nullptr;
+
+								if (pop) {
+									vmem_map_key_level<Key, Pool, Log> top_keys(top_keys_state_ptr.operator->(), _pool, _log);
+									pop = top_keys.size() <= 1;
+
+									if (pop) {
+										top_keys.clear();
+									}
+								}
 							}
 
-							if (top_keys_size == 1) {
+							if (pop) {
 								_key_stack.pop_back();
 							}
 						}
@@ -557,39 +560,75 @@ namespace abc {
 
 
 	template <typename Key, typename T, typename Pool, typename Log>
-	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t key_page_pos, const Key& key) noexcept {
+	inline typename vmem_map<Key, T, Pool, Log>::key_level_iterator vmem_map<Key, T, Pool, Log>::find_child(vmem_map_key_level<Key, Pool, Log>& keys, vmem_page_pos_t key_page_pos, vmem_page_pos_t child_page_pos) noexcept {
 		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10525, "vmem_map::key_item_pos() Start. key_page_pos=0x%llx..., key=0x%llx...",
-				(long long)key_page_pos, *(long long*)&key);
+			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10525, "vmem_map::find_child() Start. key_page_pos=0x%llx, child_page_pos=0x%llx",
+				(long long)key_page_pos, (long long)child_page_pos);
 		}
 
-		vmem_item_pos_t item_pos = vmem_item_pos_nil;
-		vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
+		key_level_iterator result(nullptr);
 
-		if (page.ptr() == nullptr) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::warning, 0x10526, "vmem_map::key_item_pos() Could not load key page pos=0x%llx", (long long)key_page_pos);
-			}
-		}
-		else {
-			vmem_map_key_page<Key>* key_page = reinterpret_cast<vmem_map_key_page<Key>*>(page.ptr());
+		while (key_page_pos != vmem_page_pos_nil && !result.is_valid()) {
+			vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
 
-			item_pos = 0;
-			for (std::size_t i = 0; i < key_page->item_count && vmem_is_less(key_page->items[i].key, key); i++) {
+			if (page.ptr() == nullptr) {
 				if (_log != nullptr) {
-					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10527, "vmem_map::key_item_pos() item[%zu]=0x%llx..., key=0x%llx...",
-						i, *(long long*)&key_page->items[i].key, *(long long*)&key);
+					_log->put_any(category::abc::vmem, severity::warning, 0x10526, "vmem_map::find_child() Could not load key page pos=0x%llx", (long long)key_page_pos);
 				}
 
-				item_pos++;
+				break;
 			}
+
+			vmem_map_key_page<Key>* key_page = reinterpret_cast<vmem_map_key_page<Key>*>(page.ptr());
+
+			for (vmem_item_pos_t i = 0; i < key_page->item_count; i++) {
+				if (key_page->items[i].page_pos == child_page_pos) {
+					result = key_level_iterator(&keys, key_page_pos, i, vmem_iterator_edge::none, _log);
+					break;
+				}
+			}
+
+			// A child that has been merged may belong to the next key page.
+			key_page_pos = key_page->next_page_pos;
 		}
 
 		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10528, "vmem_map::key_item_pos() Done. item_pos=0x%x", item_pos);
+			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10528, "vmem_map::find_child() Done. page_pos=0x%llx, item_pos=0x%x", (long long)result.page_pos(), result.item_pos());
 		}
 
-		return item_pos;
+		return result;
+	}
+
+
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline void vmem_map<Key, T, Pool, Log>::replace_key(key_level_stack_iterator key_stack_itr, path_reverse_iterator path_itr, vmem_page_pos_t child_page_pos, const Key& key) noexcept {
+		// The first key on a page is also a key at the level above.
+		bool is_first = true;
+
+		while (is_first) {
+			key_stack_itr++;
+			path_itr--;
+
+			if (key_stack_itr == _key_stack.end() || !path_itr.can_deref()) {
+				break;
+			}
+
+			// IMPORTANT: Save the vmem_ptr instance to keep the page locked.
+			vmem_ptr<vmem_container_state, Pool, Log> key_level_state_ptr = key_stack_itr.operator->();
+
+			vmem_map_key_level<Key, Pool, Log> parent_keys(key_level_state_ptr.operator->(), _pool, _log);
+
+			key_level_iterator parent_keys_itr = find_child(parent_keys, *path_itr, child_page_pos);
+			if (!parent_keys_itr.can_deref()) {
+				break;
+			}
+
+			vmem_ptr<vmem_map_key<Key>, Pool, Log> key_ptr = parent_keys_itr.operator->();
+			vmem_copy(key_ptr->key, key);
+
+			child_page_pos = parent_keys_itr.page_pos();
+			is_first = parent_keys_itr.item_pos() == 0;
+		}
 	}
 
 
-- 
2.43.0


From 50da97fa70f6ba1580750cadd3894c54836890ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 16/83] fix: don't keep the key stack page of a vmem map locked
 while its key levels are updated

---
 src/x/vmem_map.x.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 67473f0..a3f7810 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -424,11 +424,23 @@ namespace abc {
 				while ((page_leads[0].operation != vmem_container_page_lead_operation::none || page_leads[1].operation != vmem_container_page_lead_operation::none)
 						&& key_stack_itr != _key_stack.end()
 						&& path_itr != find_result.path.rbegin()) {
-					// IMPORTANT: Save the vmem_ptr instance to keep the page locked.
-					vmem_ptr<vmem_container_state, Pool, Log> key_level_state_ptr = key_stack_itr.operator->();
+					// Use a copy of the state, because keeping its page locked leaves fewer pages for the key level itself.
+					vmem_container_state key_level_state;
+					vmem_page_pos_t parent_page_pos = vmem_page_pos_nil;
+					{
+						vmem_ptr<vmem_container_state, Pool, Log> key_level_state_ptr = key_stack_itr.operator->();
+						vmem_ptr<vmem_page_pos_t, Pool, Log> parent_page_pos_ptr = path_itr.operator->();
+
+						ok = key_level_state_ptr.operator->() != nullptr && parent_page_pos_ptr.operator->() != nullptr;
+						if (!ok) {
+							break;
+						}
 
-					vmem_map_key_level<Key, Pool, Log> parent_keys(key_level_state_ptr.operator->(), _pool, _log);
-					vmem_page_pos_t parent_page_pos = *path_itr;
+						key_level_state = *key_level_state_ptr;
+						parent_page_pos = *parent_page_pos_ptr;
+					}
+
+					vmem_map_key_level<Key, Pool, Log> parent_keys(&key_level_state, _pool, _log);
 
 					key_level_result2 keys_result;
 					if (is_insert) {
@@ -482,6 +494,17 @@ namespace abc {
 						break;
 					}
 
+					{
+						vmem_ptr<vmem_container_state, Pool, Log> key_level_state_ptr = key_stack_itr.operator->();
+
+						ok = key_level_state_ptr.operator->() != nullptr;
+						if (!ok) {
+							break;
+						}
+
+						*key_level_state_ptr = key_level_state;
+					}
+
 					page_leads[0] = keys_result.page_leads[0];
 					page_leads[1] = keys_result.page_leads[1];
 
-- 
2.43.0


From bb44580762de451be35279d733b0644a55cdfff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 17/83] fix: fail to lock a vmem page that cannot be mapped

---
 src/x/vmem_pool.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index c29ca93..643ef8f 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -787,6 +787,10 @@ namespace abc {
 				i, (long long)page_pos, ptr, errno);
 		}
 
+		if (ptr == MAP_FAILED) {
+			return nullptr;
+		}
+
 		_mapped_page_count++;
 
 		// Set the slot.
-- 
2.43.0


From 203d10434b92a85d0d96e973143b13a3ac948542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 18/83] fix: don't leave a partial page in a vmem pool file

---
 src/x/vmem_pool.x.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 643ef8f..84e87fb 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -426,7 +426,7 @@ namespace abc {
 			_log->put_any(category::abc::vmem, severity::abc::optional, 0x104b7, "vmem_pool::create_page() Start");
 		}
 
-		vmem_page_pos_t page_off = lseek(_fd, 0, SEEK_END);
+		off_t page_off = lseek(_fd, 0, SEEK_END);
 		vmem_page_pos_t page_pos = page_off / vmem_page_size;
 
 		if (_log != nullptr) {
@@ -435,9 +435,14 @@ namespace abc {
 		}
 
 		std::uint8_t blank_page[vmem_page_size] = { };
-		ssize_t wb = write(_fd, blank_page, vmem_page_size);
+		ssize_t wb = page_off >= 0 ? write(_fd, blank_page, vmem_page_size) : -1;
 
 		if (wb != vmem_page_size) {
+			// A partial page would shift all the pages after it.
+			if (wb > 0 && ftruncate(_fd, page_off) != 0 && _log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::warning, 0x10398, "vmem_pool::create_page() Could not remove a partial page. errno=%d", errno);
+			}
+
 			page_pos = vmem_page_pos_nil;
 
 			if (_log != nullptr) {
-- 
2.43.0


From e2e7647ead5aa2a9a73a9c9e78ed809a1d5192ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:29 +0000
Subject: [PATCH 19/83] fix: release a vmem pool that cannot be opened, and
 empty its file if it cannot be initialized

---
 src/i/vmem_pool.i.h |  5 ++++
 src/x/vmem_pool.x.h | 73 +++++++++++++++++++++++++++++++--------------
 2 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/src/i/vmem_pool.i.h b/src/i/vmem_pool.i.h
index 9c71eb0..6f43dfd 100644
--- a/src/i/vmem_pool.i.h
+++ b/src/i/vmem_pool.i.h
@@ -164,6 +164,11 @@ namespace abc {
 
 	// Constructor helpers
 	private:
+		/**
+		 * @brief				Unmaps all the pages, and closes the file.
+		 */
+		void release() noexcept;
+
 		/**
 		 * @brief				Verifies arguments before opening the pool file. Throws on error.
 		 * @param file_path		Pool file path.
diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 84e87fb..3fab280 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -50,6 +50,7 @@ namespace abc {
 	template <std::size_t MaxMappedPages, typename Log>
 	inline vmem_pool<MaxMappedPages, Log>::vmem_pool(const char* file_path, Log* log)
 		: _ready(false)
+		, _fd(-1)
 		, _mapped_page_count(0)
 		, _mapped_pages{ }
 		, _mapped_page_totals{ }
@@ -61,13 +62,20 @@ namespace abc {
 
 		verify_args_or_throw(file_path);
 
-		bool is_init = open_pool_or_throw(file_path);
+		try {
+			bool is_init = open_pool_or_throw(file_path);
 
-		if (!is_init) {
-			init_pool_or_throw();
-		}
+			if (!is_init) {
+				init_pool_or_throw();
+			}
 
-		verify_pool_or_throw();
+			verify_pool_or_throw();
+		}
+		catch (...) {
+			// The destructor won't be called.
+			release();
+			throw;
+		}
 
 		_ready = true;
 
@@ -111,20 +119,7 @@ namespace abc {
 				return;
 			}
 
-			for (std::size_t i = 0; i < _mapped_page_count; i++) {
-				std::size_t dummy_unmapped_count = 0;
-				std::size_t dummy_empty_i = _mapped_page_count;
-
-				if (_log != nullptr) {
-					_log->put_any(category::abc::vmem, severity::abc::optional, 0x10712, "vmem_pool::~vmem_pool() Unmap page i=%zu", i);
-				}
-				unmap_mapped_page(i, _mapped_pages[i].keep_count + 1, dummy_empty_i, dummy_unmapped_count);
-			}
-
-			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10713, "vmem_pool::~vmem_pool() Close file fd=%d", _fd);
-			}
-			close(_fd);
+			release();
 		}
 
 		_ready = false;
@@ -136,6 +131,28 @@ namespace abc {
 		}
 	}
 
+
+	template <std::size_t MaxMappedPages, typename Log>
+	inline void vmem_pool<MaxMappedPages, Log>::release() noexcept {
+		for (std::size_t i = 0; i < _mapped_page_count; i++) {
+			std::size_t dummy_unmapped_count = 0;
+			std::size_t dummy_empty_i = _mapped_page_count;
+
+			if (_log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10712, "vmem_pool::~vmem_pool() Unmap page i=%zu", i);
+			}
+			unmap_mapped_page(i, _mapped_pages[i].keep_count + 1, dummy_empty_i, dummy_unmapped_count);
+		}
+
+		if (_log != nullptr) {
+			_log->put_any(category::abc::vmem, severity::abc::optional, 0x10713, "vmem_pool::~vmem_pool() Close file fd=%d", _fd);
+		}
+		if (_fd >= 0) {
+			close(_fd);
+		}
+	}
+
+
 	template <std::size_t MaxMappedPages, typename Log>
 	inline void vmem_pool<MaxMappedPages, Log>::verify_args_or_throw(const char* file_path) {
 		if (Pool::max_mapped_pages() < vmem_min_mapped_pages) {
@@ -164,13 +181,13 @@ namespace abc {
 			throw exception<std::runtime_error, Log>("vmem_pool::open_pool_or_throw() Not found vmem file", 0x1037e, _log);
 		}
 
-		vmem_page_pos_t file_size = lseek(_fd, 0, SEEK_END);
+		off_t file_size = lseek(_fd, 0, SEEK_END);
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::debug, 0x1037f, "vmem_pool::open_pool_or_throw() size=0x%llx", (long long)file_size);
 		}
 
-		if ((file_size & (vmem_page_size - 1)) != 0) {
+		if (file_size < 0 || (file_size & (vmem_page_size - 1)) != 0) {
 			throw exception<std::runtime_error, Log>("vmem_pool::open_pool_or_throw() Corrupt vmem file - size", 0x10380, _log);
 		}
 
@@ -189,8 +206,18 @@ namespace abc {
 		// IMPORTANT! Keep this order:
 		// root  (0)
 		// start (1)
-		create_root_page_or_throw();
-		create_start_page_or_throw();
+		try {
+			create_root_page_or_throw();
+			create_start_page_or_throw();
+		}
+		catch (...) {
+			// A file with content is considered initialized.
+			if (ftruncate(_fd, 0) != 0 && _log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::warning, 0x10381, "vmem_pool::init_pool_or_throw() Could not empty the vmem file. errno=%d", errno);
+			}
+
+			throw;
+		}
 	}
 
 
-- 
2.43.0


From 15da5242e03d030e91b2b5768058eed34b8ddf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:19 +0000
Subject: [PATCH 20/83] fix: report a vmem string stream write that could not
 be stored

---
 src/x/vmem_string.x.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index ed5c4bc..7977e66 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -88,10 +88,17 @@ namespace abc {
 
     template <typename Char, typename Pool, typename Log>
 	inline typename std::basic_streambuf<Char>::int_type vmem_basic_string_streambuf<Char, Pool, Log>::overflow(typename base::int_type ch) {
-		_string->push_back(_put_ch);
-		_string->push_back(ch);
+		if (sync() != 0) {
+			return std::char_traits<Char>::eof();
+		}
 
-		base::setp(&_put_ch, &_put_ch + 1);
+		if (std::char_traits<Char>::eq_int_type(ch, std::char_traits<Char>::eof())) {
+			return std::char_traits<Char>::not_eof(ch);
+		}
+
+		if (!_string->insert(_string->end(), std::char_traits<Char>::to_char_type(ch)).can_deref()) {
+			return std::char_traits<Char>::eof();
+		}
 
 		return ch;
 	}
@@ -99,7 +106,9 @@ namespace abc {
     template <typename Char, typename Pool, typename Log>
 	inline int vmem_basic_string_streambuf<Char, Pool, Log>::sync() {
 		if (base::pptr() != &_put_ch) {
-			_string->push_back(_put_ch);
+			if (!_string->insert(_string->end(), _put_ch).can_deref()) {
+				return -1;
+			}
 		}
 
 		base::setp(&_put_ch, &_put_ch + 1);
-- 
2.43.0


From 79abe717130a984403fbff53223a49067f3d95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:05 +0000
Subject: [PATCH 21/83] fix: fail a vmem map operation before anything changes
 if its key levels could not be updated

---
 src/i/vmem_map.i.h |  9 +++++++
 src/x/vmem_map.x.h | 60 ++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 64 insertions(+), 5 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index 683447c..f7dc8da 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -448,6 +448,15 @@ namespace abc {
 
 	// update_key_levels() helpers
 	private:
+		/**
+		 * @brief				Checks, before anything has been changed, that the key levels could be updated.
+		 * @details				For insert, makes sure the pool has all the pages that may be needed.
+		 * @param is_insert		`true` = insert; `false` = erase.
+		 * @param find_result	`find_result2`
+		 * @return				`true` = the operation may proceed; `false` = the operation must fail.
+		 */
+		bool can_update_key_levels(bool is_insert, const find_result2& find_result) noexcept;
+
 		/**
 		 * @brief				Inserts/erases keys throughout key levels as necessary after an insert/erase to the value level has finished.
 		 * @param is_insert		`true` = insert; `false` = erase.
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index a3f7810..d0e4998 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -314,11 +314,13 @@ namespace abc {
 
 		value_level_iterator values_itr(&_values, find_result.iterator.page_pos(), find_result.iterator.item_pos(), find_result.iterator.edge(), _log);
 
-		value_level_result2 values_result = _values.insert2(values_itr, item);
-
 		result2 result(nullptr);
-		if (values_result.iterator.is_valid()) {
-			result = update_key_levels(true, std::move(find_result), std::move(values_result));
+		if (can_update_key_levels(true, find_result)) {
+			value_level_result2 values_result = _values.insert2(values_itr, item);
+
+			if (values_result.iterator.can_deref()) {
+				result = update_key_levels(true, std::move(find_result), std::move(values_result));
+			}
 		}
 
 		if (_log != nullptr) {
@@ -377,7 +379,10 @@ namespace abc {
 
 		value_level_iterator values_itr(&_values, find_result.iterator.page_pos(), find_result.iterator.item_pos(), find_result.iterator.edge(), _log);
 
-		value_level_result2 values_result = _values.erase2(values_itr);
+		value_level_result2 values_result;
+		if (can_update_key_levels(false, find_result)) {
+			values_result = _values.erase2(values_itr);
+		}
 
 		result2 result(nullptr);
 		if (values_result.iterator.is_valid()) {
@@ -396,6 +401,51 @@ namespace abc {
 	// ..............................................................
 
 
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline bool vmem_map<Key, T, Pool, Log>::can_update_key_levels(bool is_insert, const find_result2& find_result) noexcept {
+		// The path may be incomplete, because it is stored on pages too.
+		bool ok = find_result.path.size() == _key_stack.size();
+
+		if (ok && is_insert && find_result.iterator.is_valid()) {
+			bool is_full = false;
+			{
+				vmem_page<Pool, Log> page(_pool, find_result.iterator.page_pos(), _log);
+
+				ok = page.ptr() != nullptr;
+				if (ok) {
+					is_full = reinterpret_cast<vmem_map_value_page<Key, T>*>(page.ptr())->item_count == value_level_container::page_capacity();
+				}
+			}
+
+			if (ok && is_full) {
+				// One page for the values, one for each key level, one for a new key level, and one for the key stack.
+				const std::size_t page_count = _key_stack.size() + 3;
+
+				vmem_linked_state pages_state;
+				vmem_linked<Pool, Log> pages(&pages_state, _pool, _log);
+
+				for (std::size_t i = 0; ok && i < page_count; i++) {
+					vmem_page<Pool, Log> page(_pool, _log);
+
+					ok = page.ptr() != nullptr;
+					if (ok) {
+						pages.push_front(page.pos());
+					}
+				}
+
+				// The pages go to the list of free pages of the pool, from where they will be allocated.
+				pages.clear();
+			}
+		}
+
+		if (!ok && _log != nullptr) {
+			_log->put_any(category::abc::vmem, severity::warning, 0x107b4, "vmem_map::can_update_key_levels() key_stack.size=%zu, path.size=%zu", _key_stack.size(), find_result.path.size());
+		}
+
+		return ok;
+	}
+
+
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::result2 vmem_map<Key, T, Pool, Log>::update_key_levels(bool is_insert, find_result2&& find_result, value_level_result2&& values_result) noexcept {
 		if (_log != nullptr) {
-- 
2.43.0


From b9295a641496267e21b9023fed12f31d34a38a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 22/83] fix: let a hex digit follow a JSON \u escape

---
 src/json.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index 102102c..567361c 100644
--- a/src/json.h
+++ b/src/json.h
@@ -571,7 +571,15 @@ namespace abc {
 
 	template <std::size_t MaxLevels, typename Log>
 	inline std::size_t json_istream<MaxLevels, Log>::get_hex(char* buffer, std::size_t size) {
-		return get_chars(ascii::is_hex, buffer, size);
+		std::size_t gcount = 0;
+
+		// The chars that follow may also be hex digits.
+		while (gcount < size - 1 && base::is_good() && ascii::is_hex(peek_char())) {
+			buffer[gcount++] = base::get();
+		}
+		buffer[gcount] = '\0';
+
+		return gcount;
 	}
 
 
-- 
2.43.0


From a6ecbf8beabda90925d202c579499c31f8596df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 23/83] fix: stop reading JSON at the end of the input

---
 src/json.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/json.h b/src/json.h
index 567361c..19ef02c 100644
--- a/src/json.h
+++ b/src/json.h
@@ -185,7 +185,7 @@ namespace abc {
 		do {
 			item = get_or_skip_token(nullptr, 0);
 		}
-		while (state::levels() > base_levels);
+		while (base::is_good() && state::levels() > base_levels);
 
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::json, severity::abc::optional, 0x10102, "json_istream::skip_value() <<< item=%4.4x", item);
@@ -379,6 +379,11 @@ namespace abc {
 			for (;;) {
 				gcount += get_or_skip_string_content(buffer != nullptr ? buffer + gcount : nullptr, size - gcount);
 
+				if (!base::is_good()) {
+					base::set_bad();
+					break;
+				}
+
 				ch = peek_char();
 				if (ch == '"') {
 					base::get();
@@ -599,7 +604,12 @@ namespace abc {
 	inline std::size_t json_istream<MaxLevels, Log>::get_chars(CharPredicate&& predicate, char* buffer, std::size_t size) {
 		std::size_t gcount = 0;
 
-		while (base::is_good() && predicate(peek_char())) {
+		while (base::is_good()) {
+			char ch = peek_char();
+			if (!base::is_good() || !predicate(ch)) {
+				break;
+			}
+
 			if (gcount == size - 1) {
 				base::set_fail();
 				break;
@@ -617,7 +627,12 @@ namespace abc {
 	inline std::size_t json_istream<MaxLevels, Log>::skip_chars(CharPredicate&& predicate) {
 		std::size_t gcount = 0;
 		
-		while (base::is_good() && predicate(peek_char())) {
+		while (base::is_good()) {
+			char ch = peek_char();
+			if (!base::is_good() || !predicate(ch)) {
+				break;
+			}
+
 			base::get();
 			gcount++;
 		}
-- 
2.43.0


From 6ead0832dac63e163fc7612b3bcc99ec933264d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 24/83] fix: keep a JSON string within the buffer of its token

---
 src/json.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/json.h b/src/json.h
index 19ef02c..6b40c35 100644
--- a/src/json.h
+++ b/src/json.h
@@ -213,7 +213,7 @@ namespace abc {
 
 		if (state::expect_property()) {
 			if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::property;
 
@@ -284,7 +284,7 @@ namespace abc {
 				gcount += sizeof(double);
 			}
 			else if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::string;
 				}
@@ -392,6 +392,11 @@ namespace abc {
 				else if (ch == '\\') {
 					char ech = get_escaped_char();
 					if (buffer != nullptr) {
+						if (gcount == size - 1) {
+							base::set_fail();
+							break;
+						}
+
 						buffer[gcount++] = ech;
 					}
 				}
-- 
2.43.0


From 62c86b728fe7197afd16114a418d56b1fb761ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 25/83] fix: keep a long JSON number within its buffer

---
 src/i/json.i.h |  8 ++++++++
 src/json.h     | 18 +++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/i/json.i.h b/src/i/json.i.h
index 59c4a11..3e2c271 100644
--- a/src/i/json.i.h
+++ b/src/i/json.i.h
@@ -284,6 +284,14 @@ namespace abc {
 		 */
 		std::size_t get_digits(char* buffer, std::size_t size);
 
+		/**
+		 * @brief			Reads a single char that belongs to a number, and copies it to the buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_number_char(char* buffer, std::size_t size);
+
 		/**
 		 * @brief			Skips a sequence of spaces from the stream.
 		 * @return			Number of chars skipped.
diff --git a/src/json.h b/src/json.h
index 6b40c35..18327d4 100644
--- a/src/json.h
+++ b/src/json.h
@@ -434,18 +434,18 @@ namespace abc {
 
 		ch = peek_char();
 		if (ch == '.') {
-			digits[gcount++] = base::get();
+			gcount += get_number_char(digits + gcount, sizeof(digits) - gcount);
 
 			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
 		}
 
 		ch = peek_char();
 		if (ch == 'e' || ch == 'E') {
-			digits[gcount++] = base::get();
+			gcount += get_number_char(digits + gcount, sizeof(digits) - gcount);
 
 			ch = peek_char();
 			if (ch == '+' || ch == '-') {
-				digits[gcount++] = base::get();
+				gcount += get_number_char(digits + gcount, sizeof(digits) - gcount);
 			}
 
 			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
@@ -599,6 +599,18 @@ namespace abc {
 	}
 
 
+	template <std::size_t MaxLevels, typename Log>
+	inline std::size_t json_istream<MaxLevels, Log>::get_number_char(char* buffer, std::size_t size) {
+		if (size <= 1) {
+			base::set_fail();
+			return 0;
+		}
+
+		*buffer = base::get();
+		return 1;
+	}
+
+
 	template <std::size_t MaxLevels, typename Log>
 	inline std::size_t json_istream<MaxLevels, Log>::skip_spaces() {
 		return skip_chars(ascii::json::is_space);
-- 
2.43.0


From 1b3d432b863671a9a812c439685075a0a6306cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 26/83] fix: fail on an unknown JSON escape

---
 src/json.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/json.h b/src/json.h
index 18327d4..d9b9ece 100644
--- a/src/json.h
+++ b/src/json.h
@@ -550,6 +550,14 @@ namespace abc {
 					ch = '\0';
 				}
 			}
+			else {
+				if (log_local != nullptr) {
+					log_local->put_any(category::abc::json, severity::important, 0x107b5, "json_istream::get_escaped_char() ch='%c' (\\u%4.4x). Unexpected after '\\'.", ch, ch);
+				}
+
+				base::set_bad();
+				ch = '\0';
+			}
 		}
 		else {
 			if (log_local != nullptr) {
-- 
2.43.0


From 067475017045582cc3a8d9385a55066b5723b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 27/83] fix: log only the given chars of a JSON write

---
 src/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index d9b9ece..ca3335b 100644
--- a/src/json.h
+++ b/src/json.h
@@ -1029,7 +1029,7 @@ namespace abc {
 	inline std::size_t json_ostream<MaxLevels, Log>::put_chars(const char* buffer, std::size_t size) {
 		Log* log_local = state::log();
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::json, severity::abc::optional, 0x10121, "json_ostream::put_chars() buffer='%s' >>>", buffer);
+			log_local->put_any(category::abc::json, severity::abc::optional, 0x10121, "json_ostream::put_chars() buffer='%.*s' >>>", (int)size, buffer);
 		}
 
 		std::size_t pcount = 0;
-- 
2.43.0


From 7a13ace19c0c8284145546b39b6ac042a27eecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 28/83] fix: escape the chars of a JSON string that need it

---
 src/i/json.i.h |  8 ++++++++
 src/json.h     | 30 ++++++++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/i/json.i.h b/src/i/json.i.h
index 3e2c271..1ff56ed 100644
--- a/src/i/json.i.h
+++ b/src/i/json.i.h
@@ -452,6 +452,14 @@ namespace abc {
 		 */
 		std::size_t put_char(char ch);
 
+	private:
+		/**
+		 * @brief			Writes the inner part of a string or a property name to the stream, escaping chars as necessary.
+		 * @param buffer	The content to write.
+		 * @param size		Content length.
+		 */
+		void put_string_content(const char* buffer, std::size_t size);
+
 	private:
 		/**
 		 * @brief			State flag whether comma `,` should be written before the next value. true = skip. false = write.
diff --git a/src/json.h b/src/json.h
index ca3335b..29fc56d 100644
--- a/src/json.h
+++ b/src/json.h
@@ -896,7 +896,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\"", 1);
 
 		_skip_comma = false;
@@ -925,7 +925,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\":", 2);
 
 		_skip_comma = true;
@@ -1025,6 +1025,32 @@ namespace abc {
 	}
 
 
+	template <std::size_t MaxLevels, typename Log>
+	inline void json_ostream<MaxLevels, Log>::put_string_content(const char* buffer, std::size_t size) {
+		std::size_t begin = 0;
+
+		for (std::size_t i = 0; i < size; i++) {
+			const unsigned char ch = buffer[i];
+
+			if (ch == '"' || ch == '\\' || ch < 0x20) {
+				put_chars(buffer + begin, i - begin);
+				begin = i + 1;
+
+				char escape[6 + 1];
+				if (ch < 0x20) {
+					std::snprintf(escape, sizeof(escape), "\\u%4.4x", (unsigned)ch);
+				}
+				else {
+					std::snprintf(escape, sizeof(escape), "\\%c", ch);
+				}
+				put_chars(escape, std::strlen(escape));
+			}
+		}
+
+		put_chars(buffer + begin, size - begin);
+	}
+
+
 	template <std::size_t MaxLevels, typename Log>
 	inline std::size_t json_ostream<MaxLevels, Log>::put_chars(const char* buffer, std::size_t size) {
 		Log* log_local = state::log();
-- 
2.43.0


From 70226c96dff13648348cc76d87e0a9fbae4f2994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 29/83] fix: truncate a log line that doesn't fit in its buffer

---
 src/table.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index 819a4f2..61946fe 100644
--- a/src/table.h
+++ b/src/table.h
@@ -140,8 +140,13 @@ namespace abc {
 
 	template <std::size_t Size>
 	inline void line_ostream<Size>::put_anyv(const char* format, va_list vlist) noexcept {
-		int pc = std::vsnprintf(_buffer + _pcount, Size - _pcount, format, vlist);
-		_pcount += pc;
+		// The buffer has room for a trailing null char past Size.
+		int pc = std::vsnprintf(_buffer + _pcount, Size - _pcount + 1, format, vlist);
+
+		// vsnprintf() returns the length of the whole text, even when it has been truncated.
+		if (pc > 0) {
+			_pcount = static_cast<std::size_t>(pc) < Size - _pcount ? _pcount + pc : Size;
+		}
 	}
 
 
-- 
2.43.0


From 34d0651d1bbc21ef5a7e55d65838069f2cc8cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 30/83] fix: don't put a line that has been moved

---
 src/table.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/table.h b/src/table.h
index 61946fe..27922db 100644
--- a/src/table.h
+++ b/src/table.h
@@ -93,6 +93,9 @@ namespace abc {
 		, _sb(std::move(other._sb))
 		, _pcount(other._pcount) {
 		std::memmove(_buffer, other._buffer, sizeof(char) * (Size + 2));
+
+		other._table = nullptr;
+		other._pcount = 0;
 	}
 
 
-- 
2.43.0


From cfd32769e7d55be7f17dc306ce046767c7663612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 31/83] fix: keep log lines from different threads whole

---
 src/i/table.i.h | 7 +++++++
 src/table.h     | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/i/table.i.h b/src/i/table.i.h
index 0232bc2..c04e119 100644
--- a/src/i/table.i.h
+++ b/src/i/table.i.h
@@ -27,6 +27,7 @@ SOFTWARE.
 
 #include <streambuf>
 #include <ostream>
+#include <mutex>
 #include <thread>
 
 #include "../size.h"
@@ -79,6 +80,12 @@ namespace abc {
 		 * @brief			Puts a new line.
 		 */
 		void put_blank_line() noexcept;
+
+	private:
+		/**
+		 * @brief			Keeps the lines that come from different threads whole.
+		 */
+		std::mutex _mutex;
 	};
 
 
diff --git a/src/table.h b/src/table.h
index 27922db..7a0af08 100644
--- a/src/table.h
+++ b/src/table.h
@@ -50,6 +50,8 @@ namespace abc {
 		}
 
 		try {
+			std::lock_guard<std::mutex> lock(_mutex);
+
 			base::write(line, line_size);
 			base::flush();
 		}
@@ -60,6 +62,8 @@ namespace abc {
 
 	inline void table_ostream::put_blank_line() noexcept {
 		try {
+			std::lock_guard<std::mutex> lock(_mutex);
+
 			*this << endl;
 			base::flush();
 		}
-- 
2.43.0


From 48fae2203950da6fdb55cad0025169d16f470c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 32/83] fix: calculate the date of a timestamp past Feb 2096

---
 src/timestamp.h | 59 ++++++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 35 deletions(-)

diff --git a/src/timestamp.h b/src/timestamp.h
index 1f78ae2..30d7825 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -72,6 +72,9 @@ namespace abc {
 	static constexpr date_count_t days_per_100_years = days_per_100_years_leap - 1;
 	static constexpr date_count_t days_per_400_years = days_per_100_years_leap + 3 * days_per_100_years;
 
+	static constexpr date_count_t epoch_year_400_years = 1600;
+	static constexpr date_count_t days_from_epoch_400_years = 135139; // From Mar 1, 1600 to Mar 1, 1970.
+
 
 	// --------------------------------------------------------------
 
@@ -178,47 +181,33 @@ namespace abc {
 
 		// Now the epoch is Mar 1, 1970.
 
-		// There is a well-known number of days per 400 years.
-		if (remaining_days >= days_per_400_years) {
-			year += 400 * (remaining_days / days_per_400_years);
-			remaining_days = remaining_days % days_per_400_years;
-		}
-
-		// The first century bounary is leap.
-		if (remaining_days >= days_per_100_years_leap) {
-			year += 100;
-			remaining_days -= days_per_100_years_leap;
-		}
-
-		// The following century boundaries are not leap.
-		// We artificailly make them leap.
-		if (remaining_days >= days_per_100_years) {
-			remaining_days += (remaining_days / days_per_100_years);
-		}
+		// Move it further back to Mar 1, 1600 - the start of a 400-year cycle.
+		year = epoch_year_400_years;
+		remaining_days += days_from_epoch_400_years;
 
-		// Now we have homogenious 4-year chunks.
-		if (remaining_days >= days_per_4_years) {
-			year += 4 * (remaining_days / days_per_4_years);
-			remaining_days = remaining_days % days_per_4_years;
-		}
+		// There is a well-known number of days per 400 years.
+		year += 400 * (remaining_days / days_per_400_years);
+		remaining_days = remaining_days % days_per_400_years;
 
-		// Out of any remaining years, the first one is not leap.
-		if (remaining_days >= days_per_1_year) {
-			year++;
-			remaining_days -= days_per_1_year;
+		// Only the last century ends on a leap day.
+		date_count_t centuries = remaining_days / days_per_100_years;
+		if (centuries > 3) {
+			centuries = 3;
 		}
+		year += 100 * centuries;
+		remaining_days -= centuries * days_per_100_years;
 
-		// The second year is leap.
-		if (remaining_days >= days_per_1_year_leap) {
-			year++;
-			remaining_days -= days_per_1_year_leap;
-		}
+		// Each chunk of 4 years ends on a leap day, except possibly the last one.
+		year += 4 * (remaining_days / days_per_4_years);
+		remaining_days = remaining_days % days_per_4_years;
 
-		// The remaining year(s) are not leap.
-		if (remaining_days >= days_per_1_year) {
-			year += (remaining_days / days_per_1_year);
-			remaining_days = remaining_days % days_per_1_year;
+		// Only the last year ends on a leap day.
+		date_count_t years = remaining_days / days_per_1_year;
+		if (years > 3) {
+			years = 3;
 		}
+		year += years;
+		remaining_days -= years * days_per_1_year;
 
 		// The remaining days are within 1 year (and we are based at Mar 1).
 
-- 
2.43.0


From 67d3e4287f0562be3723a64f32548867639e6ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 33/83] fix: count each char once towards the size of a
 multifile

---
 src/multifile.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index be5892a..1582488 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -161,9 +161,14 @@ namespace abc {
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline std::streamsize size_multifile_streambuf<MaxPath, Clock, Log>::xsputn(const char* s, std::streamsize count) {
-		_current_size += count;
+		// Only count the chars that leave the buffer. sync() counts the ones that stay there.
+		std::size_t buffered = pcount();
 
-		return base::xsputn(s, count);
+		std::streamsize put_count = base::xsputn(s, count);
+
+		_current_size += buffered + put_count - pcount();
+
+		return put_count;
 	}
 
 
-- 
2.43.0


From 0d9f6268a1ece5179ef568a1b598992448a243b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 34/83] fix: put a test line of severity 0

---
 src/log.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log.h b/src/log.h
index 56c2efa..04e214e 100644
--- a/src/log.h
+++ b/src/log.h
@@ -226,6 +226,7 @@ namespace abc {
 
 		char buf_severity[2 * severity::abc::debug + 1];
 		severity = severity <= severity::abc::debug ? severity : severity::abc::debug;
+		severity = severity >= severity::critical ? severity : severity::critical;
 		std::memset(buf_severity, ' ', 2 * severity);
 		buf_severity[2 * (severity - 1)] = '\0';
 		base::put_any(buf_severity);
-- 
2.43.0


From 838ef66c2a7b7810787e58401c825c5ea89b025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 35/83] fix: report the end of a socket stream, and don't
 mistake char 255 for it

---
 src/socket.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 513e35e..6225113 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -552,11 +552,15 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::underflow() {
-		_socket->receive(&_get_ch, sizeof(char));
+		if (_socket->receive(&_get_ch, sizeof(char)) == 0) {
+			setg(&_get_ch, &_get_ch, &_get_ch);
+
+			return traits_type::eof();
+		}
 
 		setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return traits_type::to_int_type(_get_ch);
 	}
 
 
-- 
2.43.0


From 61e8a16867717881cb90f7386af4b6ed8226e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 36/83] fix: send each char of a socket stream once, and report
 failed sends

---
 src/socket.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 6225113..a2205f9 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -566,24 +566,31 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::overflow(std::streambuf::int_type ch) {
-		_socket->send(&_put_ch, sizeof(char));
-		_socket->send(&ch, sizeof(char));
+		if (sync() != 0) {
+			return traits_type::eof();
+		}
 
-		setp(&_put_ch, &_put_ch + 1);
+		if (!traits_type::eq_int_type(ch, traits_type::eof())) {
+			char put_ch = traits_type::to_char_type(ch);
+			if (_socket->send(&put_ch, sizeof(char)) == 0) {
+				return traits_type::eof();
+			}
+		}
 
-		return ch;
+		return traits_type::not_eof(ch);
 	}
 
 
 	template <typename Socket, typename Log>
 	inline int socket_streambuf<Socket, Log>::sync() {
+		bool is_sent = true;
 		if (pptr() != &_put_ch) {
-			_socket->send(&_put_ch, sizeof(char));
+			is_sent = _socket->send(&_put_ch, sizeof(char)) != 0;
 		}
 
 		setp(&_put_ch, &_put_ch + 1);
 
-		return 0;
+		return is_sent ? 0 : -1;
 	}
 
 }
-- 
2.43.0


From 6b3df92d98b87acef906bfd9c78a92e131c0121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 37/83] fix: don't get killed by SIGPIPE when sending on a
 connection the peer has closed

---
 src/socket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index a2205f9..53e5b1e 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -363,10 +363,10 @@ namespace abc {
 				throw exception<std::logic_error, Log>("client_socket::send() !dgram", 0x10018, log_local);
 			}
 
-			sent_size = ::sendto(base::fd(), buffer, size, 0, &address->value, address->size);
+			sent_size = ::sendto(base::fd(), buffer, size, MSG_NOSIGNAL, &address->value, address->size);
 		}
 		else {
-			sent_size = ::send(base::fd(), buffer, size, 0);
+			sent_size = ::send(base::fd(), buffer, size, MSG_NOSIGNAL);
 		}
 
 		if (sent_size < 0) {
-- 
2.43.0


From e290209e2a28e38e470322589df83188d3030281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 38/83] fix: make room for an IPv6 address in socket::address

---
 src/i/socket.i.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/i/socket.i.h b/src/i/socket.i.h
index 68395d5..36c2ea1 100644
--- a/src/i/socket.i.h
+++ b/src/i/socket.i.h
@@ -90,8 +90,11 @@ namespace abc {
 		 * @brief				Convenience wrapper around `sockaddr`.
 		 */
 		struct address {
-			sockaddr			value;
-			socklen_t			size = sizeof(sockaddr);
+			union {
+				sockaddr			value;
+				sockaddr_storage	storage;
+			};
+			socklen_t			size = sizeof(sockaddr_storage);
 		};
 
 		using backlog_size_t = int;
-- 
2.43.0


From 8ea02979903930a1827c768ddb68ac4cda4c8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 39/83] fix: go on sending and receiving after a signal

---
 src/socket.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 53e5b1e..c3f21b7 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -27,6 +27,7 @@ SOFTWARE.
 
 #include <stdexcept>
 #include <memory>
+#include <cerrno>
 
 #include "exception.h"
 #include "tag.h"
@@ -363,10 +364,16 @@ namespace abc {
 				throw exception<std::logic_error, Log>("client_socket::send() !dgram", 0x10018, log_local);
 			}
 
-			sent_size = ::sendto(base::fd(), buffer, size, MSG_NOSIGNAL, &address->value, address->size);
+			do {
+				sent_size = ::sendto(base::fd(), buffer, size, MSG_NOSIGNAL, &address->value, address->size);
+			}
+			while (sent_size < 0 && errno == EINTR);
 		}
 		else {
-			sent_size = ::send(base::fd(), buffer, size, MSG_NOSIGNAL);
+			do {
+				sent_size = ::send(base::fd(), buffer, size, MSG_NOSIGNAL);
+			}
+			while (sent_size < 0 && errno == EINTR);
 		}
 
 		if (sent_size < 0) {
@@ -408,10 +415,16 @@ namespace abc {
 				throw exception<std::logic_error, Log>("client_socket::receive() !dgram", 0x1001e, log_local);
 			}
 
-			 received_size = ::recvfrom(base::fd(), buffer, size, 0, &address->value, &address->size);
+			do {
+				received_size = ::recvfrom(base::fd(), buffer, size, 0, &address->value, &address->size);
+			}
+			while (received_size < 0 && errno == EINTR);
 		}
 		else {
-			 received_size = ::recv(base::fd(), buffer, size, 0);
+			do {
+				received_size = ::recv(base::fd(), buffer, size, 0);
+			}
+			while (received_size < 0 && errno == EINTR);
 		}
 
 		if (received_size < 0) {
-- 
2.43.0


From bb54803e2317ce857f8de4293aa430d77ae2ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 40/83] fix: don't read past the address when logging it

---
 src/socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.h b/src/socket.h
index c3f21b7..f7c3100 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -267,7 +267,7 @@ namespace abc {
 		}
 
 		if (_log != nullptr) {
-			_log->put_binary(category::abc::socket, severity::abc::optional, 0x1079b, addr.sa_data, addr_len);
+			_log->put_binary(category::abc::socket, severity::abc::optional, 0x1079b, &addr, addr_len);
 			_log->put_any(category::abc::socket, severity::abc::optional, 0x1079c, "basic_socket::tie(innermost) %s(), err=%d", tt == socket::tie::bind ? "bind" : "connect", err);
 		}
 
-- 
2.43.0


From 13c63ed486cd47c02a7b500b6293cf1e207ac1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 41/83] fix: keep the char in either direction when moving a
 socket_streambuf

---
 src/socket.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/socket.h b/src/socket.h
index f7c3100..aa06a67 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -554,8 +554,10 @@ namespace abc {
 		, _log(other._log)
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		setg(&_get_ch, &_get_ch, &_get_ch);
+		setg(&_get_ch, &_get_ch + (other.gptr() - other.eback()), &_get_ch + (other.egptr() - other.eback()));
+
 		setp(&_put_ch, &_put_ch + 1);
+		pbump((int)(other.pptr() - other.pbase()));
 
 		other._socket = nullptr;
 		other.setg(nullptr, nullptr, nullptr);
-- 
2.43.0


From 8f6967f8539a7571550921c0678add56a5e0e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 42/83] fix: connect a TLS socket that has no log

---
 src/openssl_socket.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index ed8e3c8..e7fa33d 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -266,13 +266,19 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_set_fd()", 0x10785, log_local);
 		}
 
-		log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		}
 		int ret = SSL_connect(_ssl);
-		log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+		}
 
 		if (ret != 1) {
 			int err = SSL_get_error(_ssl, ret);
-			log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+			if (log_local != nullptr) {
+				log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+			}
 
 			throw exception<std::runtime_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_connect()", 0x10789, log_local);
 		}
-- 
2.43.0


From 3c8c76156cf4e77ad5c04c39775f79ba6dadf30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 43/83] fix: don't get killed by SIGPIPE when a TLS peer has
 closed the connection

---
 src/i/openssl_socket.i.h | 42 ++++++++++++++++++++++++++++++++++++++++
 src/openssl_socket.h     | 33 +++++++++++++++++++++++++++++++
 2 files changed, 75 insertions(+)

diff --git a/src/i/openssl_socket.i.h b/src/i/openssl_socket.i.h
index 9f75a3f..7d89371 100644
--- a/src/i/openssl_socket.i.h
+++ b/src/i/openssl_socket.i.h
@@ -26,6 +26,7 @@ SOFTWARE.
 #pragma once
 
 #include <cstdint>
+#include <signal.h>
 #include <openssl/ssl.h>
 
 #include "../size.h"
@@ -39,6 +40,47 @@ namespace abc {
 	class openssl_tcp_server_socket;
 
 
+	/**
+	 * @brief					Suppresses SIGPIPE on the current thread, because OpenSSL writes to the socket without `MSG_NOSIGNAL`.
+	 */
+	class openssl_sigpipe_guard {
+	public:
+		/**
+		 * @brief				Constructor. Blocks SIGPIPE.
+		 */
+		openssl_sigpipe_guard() noexcept;
+
+		/**
+		 * @brief				Destructor. Discards a SIGPIPE raised since construction, and restores the signal mask.
+		 */
+		~openssl_sigpipe_guard() noexcept;
+
+		/**
+		 * @brief				Deleted.
+		 */
+		openssl_sigpipe_guard(const openssl_sigpipe_guard& other) = delete;
+
+	private:
+		/**
+		 * @brief				Whether a SIGPIPE was already pending upon construction.
+		 */
+		bool _was_pending;
+
+		/**
+		 * @brief				Set of SIGPIPE only.
+		 */
+		sigset_t _sigpipe;
+
+		/**
+		 * @brief				The signal mask upon construction.
+		 */
+		sigset_t _mask;
+	};
+
+
+	// --------------------------------------------------------------
+
+
 	/**
 	 * @brief					TCP client socket functionality with OpenSSL encryption.
 	 * @tparam Log				Logging facility.
diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index e7fa33d..740cb12 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -25,7 +25,9 @@ SOFTWARE.
 
 #pragma once
 
+#include <cerrno>
 #include <cstring>
+#include <ctime>
 #include <memory>
 
 #include "i/openssl_socket.i.h"
@@ -34,6 +36,32 @@ SOFTWARE.
 
 namespace abc {
 
+	inline openssl_sigpipe_guard::openssl_sigpipe_guard() noexcept {
+		sigset_t pending;
+		sigemptyset(&pending);
+		sigpending(&pending);
+		_was_pending = sigismember(&pending, SIGPIPE) == 1;
+
+		sigemptyset(&_sigpipe);
+		sigaddset(&_sigpipe, SIGPIPE);
+		pthread_sigmask(SIG_BLOCK, &_sigpipe, &_mask);
+	}
+
+
+	inline openssl_sigpipe_guard::~openssl_sigpipe_guard() noexcept {
+		if (!_was_pending) {
+			timespec no_wait{ };
+			while (sigtimedwait(&_sigpipe, nullptr, &no_wait) == -1 && errno == EINTR) {
+			}
+		}
+
+		pthread_sigmask(SIG_SETMASK, &_mask, nullptr);
+	}
+
+
+	// --------------------------------------------------------------
+
+
 	template <typename Log>
 	inline openssl_tcp_client_socket<Log>::openssl_tcp_client_socket(bool verify_server, socket::family_t family, Log* log)
 		: base(family, log)
@@ -120,6 +148,7 @@ namespace abc {
 		}
 
 		if (_ssl != nullptr) {
+			openssl_sigpipe_guard guard;
 			SSL_shutdown(_ssl);
 			SSL_free(_ssl);
 			_ssl = nullptr;
@@ -183,6 +212,7 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::send() !_ssl", 0x10776, log_local);
 		}
 
+		openssl_sigpipe_guard guard;
 		int sent_size = SSL_write(_ssl, buffer, (int)size);
 
 		if (sent_size < 0) {
@@ -222,6 +252,7 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::receive() !_ssl", 0x1077d, log_local);
 		}
 
+		openssl_sigpipe_guard guard;
 		int received_size = SSL_read(_ssl, buffer, (int)size);
 
 		if (received_size < 0) {
@@ -269,6 +300,7 @@ namespace abc {
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
 		}
+		openssl_sigpipe_guard guard;
 		int ret = SSL_connect(_ssl);
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
@@ -389,6 +421,7 @@ namespace abc {
 		const bool verify_server = false; // This value doesn't matter.
 		openssl_tcp_client_socket<Log> openssl_client(fd, _ctx, verify_server, base::family(), base::log());
 
+		openssl_sigpipe_guard guard;
 		int stat = SSL_accept(openssl_client._ssl);
 		if (stat <= 0) {
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::accept() SSL_accept()", 0x10796, log_local);
-- 
2.43.0


From ac83ab3cfd1791a87919d19b880b5b0439566f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 44/83] fix: don't lose the data of a TLS client that only
 sends

---
 src/openssl_socket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 740cb12..05eda9a 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -353,6 +353,9 @@ namespace abc {
 
 		SSL_CTX_set_verify(_ctx, _verify_client ? SSL_VERIFY_PEER : SSL_VERIFY_NONE, nullptr);
 
+		// Sessions are not resumed. A client that only sends would close with unread tickets, which resets the connection, and may lose what it has sent.
+		SSL_CTX_set_num_tickets(_ctx, 0);
+
 		SSL_CTX_set_default_passwd_cb(_ctx, pem_passwd_cb);
 		SSL_CTX_set_default_passwd_cb_userdata(_ctx, _pkey_file_password);
 
-- 
2.43.0


From 1ce69588ae38f68382043506e02215e774d85bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 45/83] fix: don't write the end of a TLS session to another
 socket that got the same descriptor

---
 src/i/openssl_socket.i.h |  5 +++++
 src/openssl_socket.h     | 16 ++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/i/openssl_socket.i.h b/src/i/openssl_socket.i.h
index 7d89371..a03ff3e 100644
--- a/src/i/openssl_socket.i.h
+++ b/src/i/openssl_socket.i.h
@@ -114,6 +114,11 @@ namespace abc {
 		virtual ~openssl_tcp_client_socket() noexcept;
 
 	public:
+		/**
+		 * @brief				Ends the TLS session, and closes the socket.
+		 */
+		void close() noexcept;
+
 		/**
 		 * @brief				Connects the socket to the given port on the given host name.
 		 * @param host			Host name.
diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 05eda9a..af100c4 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -147,9 +147,9 @@ namespace abc {
 			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1076e, "openssl_tcp_client_socket::~openssl_tcp_client_socket() _ssl=%p >>>", _ssl);
 		}
 
+		close();
+
 		if (_ssl != nullptr) {
-			openssl_sigpipe_guard guard;
-			SSL_shutdown(_ssl);
 			SSL_free(_ssl);
 			_ssl = nullptr;
 		}
@@ -165,6 +165,18 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void openssl_tcp_client_socket<Log>::close() noexcept {
+		// Once the descriptor is closed, another thread may get the same one. Nothing may be written to it any more.
+		if (base::is_open() && _ssl != nullptr) {
+			openssl_sigpipe_guard guard;
+			SSL_shutdown(_ssl);
+		}
+
+		base::close();
+	}
+
+
 	template <typename Log>
 	inline void openssl_tcp_client_socket<Log>::connect(const char* host, const char* port) {
 		Log* log_local = base::log();
-- 
2.43.0


From 750bcc59d12525eceeb75ecd630711a0acbe6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 46/83] fix: make the reset() of the HTTP streams compile and
 reset the stream state

---
 src/http.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/http.h b/src/http.h
index 67c8cb7..2eab8ce 100644
--- a/src/http.h
+++ b/src/http.h
@@ -727,7 +727,8 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_request_istream<Log>::reset() {
-		base::reset(http::item::method);
+		abc::istream::reset();
+		http_state<Log>::reset(http::item::method);
 	}
 
 
@@ -845,7 +846,8 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_request_ostream<Log>::reset() {
-		base::reset(http::item::method);
+		abc::ostream::reset();
+		http_state<Log>::reset(http::item::method);
 	}
 
 
@@ -930,7 +932,8 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_response_istream<Log>::reset() {
-		base::reset(http::item::protocol);
+		abc::istream::reset();
+		http_state<Log>::reset(http::item::protocol);
 	}
 
 
@@ -1005,7 +1008,8 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_response_ostream<Log>::reset() {
-		base::reset(http::item::protocol);
+		abc::ostream::reset();
+		http_state<Log>::reset(http::item::protocol);
 	}
 
 
-- 
2.43.0


From 540146c6b9eb142bff2770df8c3257af67205df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 47/83] fix: do not store an end-of-file char in an HTTP body

---
 src/http.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http.h b/src/http.h
index 2eab8ce..b1af753 100644
--- a/src/http.h
+++ b/src/http.h
@@ -323,7 +323,12 @@ namespace abc {
 		std::size_t gcount = 0;
 
 		while (base::is_good() && gcount < size) {
-			buffer[gcount++] = base::get();
+			int ch = base::get();
+			if (ch == std::istream::traits_type::eof()) {
+				break;
+			}
+
+			buffer[gcount++] = ch;
 		}
 
 		return gcount;
-- 
2.43.0


From add184e580dd715802bc96cef123d80d2be901d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 48/83] fix: do not log past the end of an HTTP item that is
 not NUL-terminated

---
 src/http.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/http.h b/src/http.h
index b1af753..cd1d71b 100644
--- a/src/http.h
+++ b/src/http.h
@@ -259,7 +259,7 @@ namespace abc {
 		set_gstate(gcount, http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%s', gcount=%zu", buffer, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%.*s', gcount=%zu", (int)gcount, buffer, gcount);
 		}
 	}
 
@@ -476,7 +476,7 @@ namespace abc {
 		}
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%s', size=%zu, gcount=%zu", buffer, size, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%.*s', size=%zu, gcount=%zu", (int)size, buffer, size, gcount);
 		}
 
 		return gcount;
@@ -512,7 +512,7 @@ namespace abc {
 		set_pstate(http::item::header_value);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -556,7 +556,7 @@ namespace abc {
 		set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -598,7 +598,7 @@ namespace abc {
 		set_pstate(http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -876,7 +876,7 @@ namespace abc {
 		base::set_pstate(http::item::resource);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -901,7 +901,7 @@ namespace abc {
 		base::set_pstate(http::item::protocol);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -1048,7 +1048,7 @@ namespace abc {
 		base::set_pstate(http::item::reason_phrase);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%.*s', size=%zu, pcount=%zu", (int)size, buffer, size, pcount);
 		}
 	}
 
@@ -1076,7 +1076,7 @@ namespace abc {
 		base::set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%s', size=%zu, pcount=%zu", buffer != nullptr ? buffer : "<nullptr>", size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%.*s', size=%zu, pcount=%zu", buffer != nullptr ? (int)size : -1, buffer != nullptr ? buffer : "<nullptr>", size, pcount);
 		}
 	}
 
-- 
2.43.0


From 26b15752a145aff5aa71d3879d6208aec2ca6dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 49/83] fix: fail instead of silently truncating an invalid
 HTTP method, resource, status code, or reason phrase

---
 src/http.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http.h b/src/http.h
index cd1d71b..29e26c0 100644
--- a/src/http.h
+++ b/src/http.h
@@ -871,6 +871,8 @@ namespace abc {
 
 		std::size_t pcount = base::put_token(buffer, size);
 
+		base::set_bad_if(base::is_good() && pcount < size);
+
 		base::put_space();
 
 		base::set_pstate(http::item::resource);
@@ -896,6 +898,8 @@ namespace abc {
 
 		std::size_t pcount = base::put_prints(buffer, size);
 
+		base::set_bad_if(base::is_good() && pcount < size);
+
 		base::put_space();
 
 		base::set_pstate(http::item::protocol);
@@ -1043,6 +1047,8 @@ namespace abc {
 
 		std::size_t pcount = base::put_digits(buffer, size);
 
+		base::set_bad_if(base::is_good() && pcount < size);
+
 		base::put_space();
 
 		base::set_pstate(http::item::reason_phrase);
@@ -1069,6 +1075,8 @@ namespace abc {
 			}
 
 			pcount = base::put_prints_and_spaces(buffer, size);
+
+			base::set_bad_if(base::is_good() && pcount < size);
 		}
 
 		base::put_crlf();
-- 
2.43.0


From ac07d172c8e4a7c4ef0f08bf1cb5b4fdfae0e966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 50/83] fix: keep the state of a stream that is moved

---
 src/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream.h b/src/stream.h
index fc0626e..dfb18d5 100644
--- a/src/stream.h
+++ b/src/stream.h
@@ -40,7 +40,7 @@ namespace abc {
 	template <typename Stream>
 	inline stream<Stream>::stream(stream&& other)
 		: base(std::move(other)) {
-		base::rdbuf(other.rdbuf());
+		base::set_rdbuf(other.rdbuf());
 	}
 
 
-- 
2.43.0


From eb101f7544d2b7f2ce9ea1a7d4911ad28242fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 51/83] fix: initialize the gcount of an input stream that is
 moved

---
 src/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream.h b/src/stream.h
index dfb18d5..df9cbcf 100644
--- a/src/stream.h
+++ b/src/stream.h
@@ -136,7 +136,8 @@ namespace abc {
 
 
 	inline istream::istream(istream&& other)
-		: base(std::move(other)) {
+		: base(std::move(other))
+		, _gcount(other._gcount) {
 	}
 
 
-- 
2.43.0


From d09422e56920bb234dffd17d0ad9186436ba60e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 52/83] fix: send the reason phrase, not the status code twice,
 in the default REST response

---
 src/endpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index b533685..689234e 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -242,7 +242,7 @@ namespace abc {
 			set_shutdown_requested();
 		}
 
-		send_simple_response(http, status_code::OK, status_code::OK, content_type::text, "TODO: Override process_rest_request().", 0x102eb);
+		send_simple_response(http, status_code::OK, reason_phrase::OK, content_type::text, "TODO: Override process_rest_request().", 0x102eb);
 	}
 
 
-- 
2.43.0


From 3218d4695d80f4caa5b18fd27454e0fbd13db71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 53/83] fix: don't serve files from outside of the root dir of
 an endpoint

---
 src/endpoint.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 689234e..4c0460a 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -171,7 +171,7 @@ namespace abc {
 
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
-	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* /*resource*/, const char* path) {
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* resource, const char* path) {
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e4, "Received File Path = '%s'", path);
 		}
@@ -182,6 +182,14 @@ namespace abc {
 			return;
 		}
 
+		// A resource must not lead out of the root dir.
+		for (const char* segment = std::strstr(resource, "/.."); segment != nullptr; segment = std::strstr(segment + 1, "/..")) {
+			if (segment[3] == '/' || segment[3] == '\0') {
+				send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", 0x102e7);
+				return;
+			}
+		}
+
 		// Check if the file exists.
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::optional, 0x102e6, "Root dir = '%s'", _config->root_dir);
-- 
2.43.0


From bd001559fa58eada4788946b7c49d31dbc30e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 54/83] fix: respond 404, not 200 without a body, to a request
 for a directory or an unreadable file

---
 src/endpoint.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 4c0460a..31b95dc 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -198,8 +198,13 @@ namespace abc {
 		struct stat st;
 		int err = ::stat(path, &st);
 
+		std::ifstream file;
+		if (err == 0 && S_ISREG(st.st_mode)) {
+			file.open(path);
+		}
+
 		// If the file was not opened, return 404.
-		if (err != 0) {
+		if (!file.is_open()) {
 			send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", 0x102e7);
 			return;
 		}
@@ -231,7 +236,6 @@ namespace abc {
 		http.put_header_value(fsize_buffer);
 		http.end_headers();
 
-		std::ifstream file(path);
 		char file_chunk[Limits::file_chunk_size];
 		for (std::size_t sent_size = 0; sent_size < fsize; sent_size += Limits::file_chunk_size) {
 			file.read(file_chunk, sizeof(file_chunk));
-- 
2.43.0


From daecfe3f77a8da06f8c2ee5a67d672858af633cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 55/83] fix: don't send more of a file that is growing than its
 Content-Length

---
 src/endpoint.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 31b95dc..71b8540 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <algorithm>
 #include <iostream>
 #include <fstream>
 #include <system_error>
@@ -238,7 +239,7 @@ namespace abc {
 
 		char file_chunk[Limits::file_chunk_size];
 		for (std::size_t sent_size = 0; sent_size < fsize; sent_size += Limits::file_chunk_size) {
-			file.read(file_chunk, sizeof(file_chunk));
+			file.read(file_chunk, std::min(sizeof(file_chunk), fsize - sent_size));
 			http.put_body(file_chunk, file.gcount());
 		}
 	}
-- 
2.43.0


From 34a51b1273eb8d6b1da3f002cb1943c13ccc3e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 56/83] fix: don't process a request whose request line is
 invalid or incomplete

---
 src/endpoint.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/endpoint.h b/src/endpoint.h
index 71b8540..388fe4d 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -135,6 +135,12 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e1, "Received Protocol = '%s'", protocol);
 		}
 
+		// Don't process a request whose request line is invalid or hasn't been fully received.
+		const abc::http_request_istream<Log>& request = http;
+		if (!request.good()) {
+			return;
+		}
+
 		// It's OK to read a request as long as we don't return a broken response.
 		if (_is_shutdown_requested) {
 			return;
-- 
2.43.0


From 097116c09c3a49859c15e904e1edc20f612ac34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 57/83] fix: complete the shutdown of an endpoint only once,
 after all requests have been processed

---
 src/endpoint.h     | 44 ++++++++++++++++++++++----------------------
 src/i/endpoint.i.h |  5 +++++
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 388fe4d..2616a20 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -52,7 +52,8 @@ namespace abc {
 		: _config(config)
 		, _log(log)
 		, _requests_in_progress(0)
-		, _is_shutdown_requested(false) {
+		, _is_shutdown_requested(false)
+		, _is_shutdown_completed(false) {
 	}
 
 
@@ -141,32 +142,31 @@ namespace abc {
 			return;
 		}
 
-		// It's OK to read a request as long as we don't return a broken response.
-		if (_is_shutdown_requested) {
-			return;
-		}
-
+		// Count this request before checking for shutdown. Otherwise, shutdown may complete while this request is being processed.
 		++_requests_in_progress;
 
-		// This endpoint supports two kinds of requests:
-		//    a) requests for static files
-		//    b) REST requests
-		if (is_file_request(method, resource)) {
-			process_file_request(http, method, resource, path);
-		}
-		else {
-			process_rest_request(http, method, resource);
-		}
+		// It's OK to read a request as long as we don't return a broken response.
+		if (!_is_shutdown_requested) {
+			// This endpoint supports two kinds of requests:
+			//    a) requests for static files
+			//    b) REST requests
+			if (is_file_request(method, resource)) {
+				process_file_request(http, method, resource, path);
+			}
+			else {
+				process_rest_request(http, method, resource);
+			}
 
-		// Don't forget to flush!
-		http.flush();
-		if (_log != nullptr) {
-			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::optional, 0x102e2, "Response sent");
-			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e3, "End handling request (%s)", _config->port);
-			_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
+			// Don't forget to flush!
+			http.flush();
+			if (_log != nullptr) {
+				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::optional, 0x102e2, "Response sent");
+				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e3, "End handling request (%s)", _config->port);
+				_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
+			}
 		}
 
-		if (--_requests_in_progress == 0 && _is_shutdown_requested) {
+		if (--_requests_in_progress == 0 && _is_shutdown_requested && !_is_shutdown_completed.exchange(true)) {
 			if (_log != nullptr) {
 				_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102f3, "Stopped endpoint (%s)", _config->port);
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 7cfb4b6..4f88f96 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -372,6 +372,11 @@ namespace abc {
 		 * @brief				Flag that gets set when `POST /shutdown` is received.
 		 */
 		std::atomic_bool _is_shutdown_requested;
+
+		/**
+		 * @brief				Flag that gets set when the `std::promise` is signaled.
+		 */
+		std::atomic_bool _is_shutdown_completed;
 	};
 
 
-- 
2.43.0


From 71b12972e7c3f637590e017f043f5a3790d356c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 58/83] fix: don't let a failed connection or request terminate
 an endpoint

---
 src/endpoint.h | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 2616a20..43a5cd7 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -90,9 +90,17 @@ namespace abc {
 		}
 
 		while (_requests_in_progress != 0 || !_is_shutdown_requested) {
-			// Accept the next request and process it asynchronously.
-			ClientSocket connection = listener.accept();
-			std::thread(process_request_thread_func, this, std::move(connection)).detach();
+			// A failure to accept a connection must not stop the endpoint.
+			try {
+				// Accept the next request and process it asynchronously.
+				ClientSocket connection = listener.accept();
+				std::thread(process_request_thread_func, this, std::move(connection)).detach();
+			}
+			catch (const std::exception& ex) {
+				if (_log != nullptr) {
+					_log->put_any(abc::category::abc::endpoint, abc::severity::critical, 0x107b7, "Exception while accepting a connection: %s", ex.what());
+				}
+			}
 		}
 	}
 
@@ -150,11 +158,18 @@ namespace abc {
 			// This endpoint supports two kinds of requests:
 			//    a) requests for static files
 			//    b) REST requests
-			if (is_file_request(method, resource)) {
-				process_file_request(http, method, resource, path);
+			try {
+				if (is_file_request(method, resource)) {
+					process_file_request(http, method, resource, path);
+				}
+				else {
+					process_rest_request(http, method, resource);
+				}
 			}
-			else {
-				process_rest_request(http, method, resource);
+			catch (const std::exception& ex) {
+				if (_log != nullptr) {
+					_log->put_any(abc::category::abc::endpoint, abc::severity::critical, 0x107b6, "Exception while handling request: %s", ex.what());
+				}
 			}
 
 			// Don't forget to flush!
-- 
2.43.0


From 8417c1117e9719ffcac79a6887e409da55179a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 59/83] fix: report through the future when an endpoint can't
 start

---
 src/endpoint.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 43a5cd7..dc08b29 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -69,7 +69,12 @@ namespace abc {
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::start_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr) {
-		this_ptr->start();
+		try {
+			this_ptr->start();
+		}
+		catch (...) {
+			this_ptr->_promise.set_exception(std::current_exception());
+		}
 	}
 
 
-- 
2.43.0


From c257a8f5a956d9cb9c0e1a63c0d15a4888f686a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 60/83] fix: read the headers of a request before closing its
 connection, so that the response gets through

---
 src/endpoint.h     | 18 ++++++++++++++++++
 src/i/endpoint.i.h |  6 ++++++
 2 files changed, 24 insertions(+)

diff --git a/src/endpoint.h b/src/endpoint.h
index dc08b29..b7fafb6 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -184,6 +184,9 @@ namespace abc {
 				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e3, "End handling request (%s)", _config->port);
 				_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 			}
+
+			// Closing a connection that has unread data resets it, and the client may not get the whole response.
+			skip_headers(http);
 		}
 
 		if (--_requests_in_progress == 0 && _is_shutdown_requested && !_is_shutdown_completed.exchange(true)) {
@@ -197,6 +200,21 @@ namespace abc {
 	}
 
 
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::skip_headers(abc::http_request_istream<Log>& http) {
+		char header[Limits::resource_size + 1];
+
+		while (http.good() && http.next() != abc::http::item::body) {
+			if (http.next() == abc::http::item::header_name) {
+				http.get_header_name(header, sizeof(header));
+			}
+			else {
+				http.get_header_value(header, sizeof(header));
+			}
+		}
+	}
+
+
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* resource, const char* path) {
 		if (_log != nullptr) {
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 4f88f96..1261f0b 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -346,6 +346,12 @@ namespace abc {
 		 */
 		static void process_request_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr, ClientSocket&& connection);
 
+		/**
+		 * @brief				Reads and ignores the headers of a request that haven't been read.
+		 * @param http			Reference to a `http_request_istream`.
+		 */
+		static void skip_headers(http_request_istream<Log>& http);
+
 	protected:
 		/**
 		 * @brief				The config settings pass in to the constructor.
-- 
2.43.0


From 6b4cac34639b40ac91fc322ca6afcfc7200fdb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 61/83] fix: change a list of vmem pages only if all pages
 involved could be mapped

---
 src/x/vmem_linked.x.h | 21 ++++++++++++++-------
 src/x/vmem_pool.x.h   |  7 ++++++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/x/vmem_linked.x.h b/src/x/vmem_linked.x.h
index b7898a7..999f727 100644
--- a/src/x/vmem_linked.x.h
+++ b/src/x/vmem_linked.x.h
@@ -378,11 +378,14 @@ namespace abc {
 			_log->put_any(category::abc::vmem, severity::abc::important, 0x10499, "vmem_linked::erase() Start. itr.page_pos=0x%llx", (long long)itr.page_pos());
 		}
 
+		// While the page is locked, next() and erase_nostate() can load it.
+		vmem_page<Pool, Log> page(_pool, itr.page_pos(), _log);
+
 		// The result, upon success, is the next of itr.
 		iterator result = next(itr);
 
 		vmem_page_pos_t back_page_pos = vmem_page_pos_nil;
-		bool ok = erase_nostate(itr, back_page_pos);
+		bool ok = page.ptr() != nullptr && erase_nostate(itr, back_page_pos);
 
 		if (ok) {
 			// Update the front page pos.
@@ -427,11 +430,15 @@ namespace abc {
 			}
 		}
 
+		// Load both neighbors before changing either.
+		vmem_page<Pool, Log> prev_page(nullptr);
+		vmem_linked_page* prev_linked_page = nullptr;
+
 		if (ok) {
 			if (linked_page->prev_page_pos != vmem_page_pos_nil) {
 				// There is a prev page.
-				vmem_page<Pool, Log> prev_page(_pool, linked_page->prev_page_pos, _log);
-				vmem_linked_page* prev_linked_page = reinterpret_cast<vmem_linked_page*>(prev_page.ptr());
+				prev_page = vmem_page<Pool, Log>(_pool, linked_page->prev_page_pos, _log);
+				prev_linked_page = reinterpret_cast<vmem_linked_page*>(prev_page.ptr());
 
 				if (prev_linked_page == nullptr) {
 					ok = false;
@@ -440,10 +447,6 @@ namespace abc {
 						_log->put_any(category::abc::vmem, severity::warning, 0x1049d, "vmem_linked::erase_nostate() Could not load prev page.");
 					}
 				}
-
-				if (ok) {
-					prev_linked_page->next_page_pos = linked_page->next_page_pos;
-				}
 			}
 		}
 
@@ -473,6 +476,10 @@ namespace abc {
 		}
 
 		if (ok) {
+			if (prev_linked_page != nullptr) {
+				prev_linked_page->next_page_pos = linked_page->next_page_pos;
+			}
+
 			linked_page = nullptr;
 			page.free();
 		}
diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 3fab280..70c55da 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -403,9 +403,14 @@ namespace abc {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10393, "vmem_pool::pop_free_page_pos() Non-empty");
 				}
 
-				page_pos = free_pages_linked.back();
+				page_pos = root_page->free_pages.back_page_pos;
 				free_pages_linked.pop_back();
 
+				if (root_page->free_pages.back_page_pos == page_pos) {
+					// The page is still on the list.
+					page_pos = vmem_page_pos_nil;
+				}
+
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10394, "vmem_pool::pop_free_page_pos() Found free page. page_pos=0x%llx", (long long)page_pos);
 				}
-- 
2.43.0


From 4f309da8da13cf1cfbcf95d0e0daf57b927fdeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 62/83] fix: don't erase or merge a page of a vmem container
 that could not be taken out of its list

---
 src/i/vmem_linked.i.h    |  2 +-
 src/x/vmem_container.x.h | 81 +++++++++++++++++++++++-----------------
 src/x/vmem_linked.x.h    |  6 ++-
 3 files changed, 52 insertions(+), 37 deletions(-)

diff --git a/src/i/vmem_linked.i.h b/src/i/vmem_linked.i.h
index 09f4d43..15bf1f6 100644
--- a/src/i/vmem_linked.i.h
+++ b/src/i/vmem_linked.i.h
@@ -156,7 +156,7 @@ namespace abc {
 		 * @param itr			Iterator.
 		 * @return				Iterator referencing the page next to the newly linked one.
 		 */
-		iterator erase(const_iterator itr);
+		iterator erase(const_iterator itr, bool* erased = nullptr);
 
 		/**
 		 * @brief				Unlinks all the pages.
diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 7784c3b..811b5ee 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -802,13 +802,16 @@ namespace abc {
 				result.page_leads[1] = page_lead(vmem_container_page_lead_operation::erase, page.pos());
 				vmem_copy(result.page_leads[1].items[0], container_page->items[0]);
 
-				erase_page(page);
-				container_page = nullptr;
-
-				if (!result.iterator.can_deref()) {
+				if (!erase_page(page)) {
+					// Nothing has changed.
+					result = result2();
+				}
+				else if (!result.iterator.can_deref()) {
 					// The back page has changed.
 					result.iterator = end_itr();
 				}
+
+				container_page = nullptr;
 			}
 		}
 
@@ -942,23 +945,27 @@ namespace abc {
 
 				// page_leads[0] - none
 				// page_leads[1] - erase
-				result.page_leads[0] = page_lead();
-				result.page_leads[1] = page_lead(vmem_container_page_lead_operation::erase, next_page.pos());
-				vmem_copy(result.page_leads[1].items[0], next_container_page->items[0]);
+				page_lead erase_lead(vmem_container_page_lead_operation::erase, next_page.pos());
+				vmem_copy(erase_lead.items[0], next_container_page->items[0]);
 
 				// Merge the items from the next page into this one.
-				std::memmove(&container_page->items[container_page->item_count], &next_container_page->items[0], next_container_page->item_count * sizeof(T));
+				auto next_item_count = next_container_page->item_count;
+				std::memmove(&container_page->items[container_page->item_count], &next_container_page->items[0], next_item_count * sizeof(T));
 
-				// Fix the next item, if it was item[0] on the next page.
-				if (itr.page_pos() == next_page.pos()) {
-					result.iterator = iterator(this, page.pos(), container_page->item_count, vmem_iterator_edge::none, _log);
-				}
+				// Free the next page.
+				if (erase_page(next_page)) {
+					result.page_leads[0] = page_lead();
+					result.page_leads[1] = erase_lead;
+
+					// Fix the next item, if it was item[0] on the next page.
+					if (itr.page_pos() == next_page.pos()) {
+						result.iterator = iterator(this, page.pos(), container_page->item_count, vmem_iterator_edge::none, _log);
+					}
 
-				// Update the item count on this page.
-				container_page->item_count += next_container_page->item_count;
+					// Update the item count on this page.
+					container_page->item_count += next_item_count;
+				}
 
-				// Free the next page.
-				erase_page(next_page);
 				next_container_page = nullptr;
 			}
 		}
@@ -1007,29 +1014,33 @@ namespace abc {
 
 				// page_leads[0] - none
 				// page_leads[1] - erase
-				result.page_leads[0] = page_lead();
-				result.page_leads[1] = page_lead(vmem_container_page_lead_operation::erase, page.pos());
-				vmem_copy(result.page_leads[1].items[0], container_page->items[0]);
+				page_lead erase_lead(vmem_container_page_lead_operation::erase, page.pos());
+				vmem_copy(erase_lead.items[0], container_page->items[0]);
 
 				// Merge the items from this page into the previous one.
-				std::memmove(&prev_container_page->items[prev_container_page->item_count], &container_page->items[0], container_page->item_count * sizeof(T));
+				auto page_item_count = container_page->item_count;
+				std::memmove(&prev_container_page->items[prev_container_page->item_count], &container_page->items[0], page_item_count * sizeof(T));
 
-				// Update the result only if itr references this page.
-				// If we deleted the last item on this page, itr references item[0] on the next page, and will not be affected by this balancing.
-				if (itr.page_pos() == page.pos()) {
-					if (itr.item_pos() != vmem_item_pos_nil) {
-						result.iterator = iterator(this, prev_page.pos(), itr.item_pos() + prev_container_page->item_count, vmem_iterator_edge::none, _log);
-					}
-					else {
-						result.iterator = iterator(this, prev_page.pos(), itr.item_pos(), itr.edge(), _log);
+				// Free this page.
+				if (erase_page(page)) {
+					result.page_leads[0] = page_lead();
+					result.page_leads[1] = erase_lead;
+
+					// Update the result only if itr references this page.
+					// If we deleted the last item on this page, itr references item[0] on the next page, and will not be affected by this balancing.
+					if (itr.page_pos() == page.pos()) {
+						if (itr.item_pos() != vmem_item_pos_nil) {
+							result.iterator = iterator(this, prev_page.pos(), itr.item_pos() + prev_container_page->item_count, vmem_iterator_edge::none, _log);
+						}
+						else {
+							result.iterator = iterator(this, prev_page.pos(), itr.item_pos(), itr.edge(), _log);
+						}
 					}
-				}
 
-				// Update the item count on the previous page.
-				prev_container_page->item_count += container_page->item_count;
+					// Update the item count on the previous page.
+					prev_container_page->item_count += page_item_count;
+				}
 
-				// Free this page.
-				erase_page(page);
 				container_page = nullptr;
 			}
 		}
@@ -1074,8 +1085,8 @@ namespace abc {
 		vmem_linked<Pool, Log> linked(_state, _pool, _log);
 
 		vmem_linked_iterator<Pool, Log> itr(&linked, page_pos, vmem_item_pos_nil, vmem_iterator_edge::none, _log);
-		linked.erase(itr);
-		bool ok = true;
+		bool ok = false;
+		linked.erase(itr, &ok);
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::optional, 0x1047c, "vmem_container::erase_page_pos() Done. ok=%d, page_pos=0x%llx",
diff --git a/src/x/vmem_linked.x.h b/src/x/vmem_linked.x.h
index 999f727..025f460 100644
--- a/src/x/vmem_linked.x.h
+++ b/src/x/vmem_linked.x.h
@@ -369,7 +369,7 @@ namespace abc {
 
 
 	template <typename Pool, typename Log>
-	inline typename vmem_linked<Pool, Log>::iterator vmem_linked<Pool, Log>::erase(const_iterator itr) {
+	inline typename vmem_linked<Pool, Log>::iterator vmem_linked<Pool, Log>::erase(const_iterator itr, bool* erased) {
 		if (itr.page_pos() == vmem_page_pos_nil || itr.edge() != vmem_iterator_edge::none) {
 			throw exception<std::logic_error, Log>("vmem_linked::erase(itr)", 0x10498);
 		}
@@ -402,6 +402,10 @@ namespace abc {
 			result = end();
 		}
 
+		if (erased != nullptr) {
+			*erased = ok;
+		}
+
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::important, 0x1049a, "vmem_linked::erase() Done. itr.page_pos=0x%llx, result.page_pos=0x%llx, result.edge=%u",
 				(long long)itr.page_pos(), (long long)result.page_pos(), result.edge());
-- 
2.43.0


From 62954670bd0860d3e429f6ca8b52b362e76c1556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 63/83] fix: don't terminate when the key levels of a vmem map
 could not be mapped

---
 src/x/vmem_map.x.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index d0e4998..44385b3 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -404,7 +404,8 @@ namespace abc {
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline bool vmem_map<Key, T, Pool, Log>::can_update_key_levels(bool is_insert, const find_result2& find_result) noexcept {
 		// The path may be incomplete, because it is stored on pages too.
-		bool ok = find_result.path.size() == _key_stack.size();
+		bool ok = find_result.path.size() == _key_stack.size()
+			&& (find_result.iterator.is_valid() || _values.empty());
 
 		if (ok && is_insert && find_result.iterator.is_valid()) {
 			bool is_full = false;
@@ -784,13 +785,20 @@ namespace abc {
 		find_result2 result(_pool, _log);
 
 		if (!_key_stack.empty()) {
+			// There are key levels.
+			{
+				vmem_ptr<vmem_container_state, Pool, Log> key_level_state_ptr = _key_stack.backptr();
+
+				if (key_level_state_ptr.operator->() != nullptr) {
+					page_pos = key_level_state_ptr->front_page_pos;
+				}
+			}
+
 			if (_log != nullptr) {
 				_log->put_any(category::abc::vmem, severity::abc::debug, 0x1052e, "vmem_map::find2() %zu key levels. root page_pos=0x%llx",
-					_key_stack.size(), (long long)_key_stack.back().front_page_pos);
+					_key_stack.size(), (long long)page_pos);
 			}
 
-			// There are key levels.
-			page_pos = _key_stack.back().front_page_pos;
 			result.path.push_back(page_pos);
 
 			for (std::size_t lev = 0; page_pos != vmem_page_pos_nil && lev < _key_stack.size(); lev++) {
-- 
2.43.0


From 09aa1a5119ae6bcbd634c9c9793c8d1bcb11e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 64/83] fix: gpio_smbus reports errors, and refuses blocks that
 do not fit, also without a log

---
 src/x/gpio_smbus.x.h | 91 ++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 45 deletions(-)

diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index f2412b3..a77b850 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -130,9 +130,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_ioctl_data msg{ };
@@ -143,9 +143,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e3, "gpio_smbus::put_nodata() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -161,9 +161,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -178,9 +178,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e6, "gpio_smbus::put_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -196,9 +196,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -213,9 +213,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e9, "gpio_smbus::put_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -231,17 +231,17 @@ namespace abc {
 		if (size > I2C_SMBUS_BLOCK_MAX) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106eb, "gpio_smbus::put_block() size > I2C_SMBUS_BLOCK_MAX. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ec, "gpio_smbus::put_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -257,9 +257,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ed, "gpio_smbus::put_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -275,9 +275,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -290,9 +290,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f0, "gpio_smbus::get_noreg() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -311,18 +311,18 @@ namespace abc {
 		if (!get_noreg(target, byte0)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f2, "gpio_smbus::get_noreg_2() byte0 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		std::uint8_t byte1;
 		if (!get_noreg(target, byte1)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f3, "gpio_smbus::get_noreg_2() byte1 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? ((byte0 << 8) | byte1) : ((byte1 << 8) | byte0);
@@ -340,9 +340,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -356,9 +356,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f6, "gpio_smbus::get_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -376,9 +376,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -392,9 +392,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f9, "gpio_smbus::get_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? swap_bytes(data.word) : data.word;
@@ -412,9 +412,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -429,17 +429,17 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fc, "gpio_smbus::get_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (data.block[0] > size) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fd, "gpio_smbus::get_block() block[0] = %d, size = %d", data.block[0], (int)size);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		size = data.block[0];
@@ -458,18 +458,18 @@ namespace abc {
 		if (_addr == addr) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::debug, 0x106ff, "gpio_smbus::ensure_address() Skip.");
-
-				return true;
 			}
+
+			return true;
 		}
 
 		long laddr = addr;
 		if (safe_ioctl(I2C_SLAVE_FORCE, laddr) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x10700, "gpio_smbus::ensure_address() I2C_SLAVE failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		_addr = addr;
@@ -490,7 +490,8 @@ namespace abc {
 			return ioctl(_fd, command, arg);
 		}
 		catch (...) {
-			return ENOLCK;
+			errno = ENOLCK;
+			return -1;
 		}
 	}
 
-- 
2.43.0


From 5d66a5fc5593bf7b31c7287fdbd8b497e604cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 65/83] fix: gpio_smbus does not let another thread change the
 target between setting it and the transfer

---
 src/i/gpio_smbus.i.h |  4 ++--
 src/x/gpio_smbus.x.h | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/i/gpio_smbus.i.h b/src/i/gpio_smbus.i.h
index 4cb6f20..344c9be 100644
--- a/src/i/gpio_smbus.i.h
+++ b/src/i/gpio_smbus.i.h
@@ -232,9 +232,9 @@ namespace abc {
 		gpio_smbus_address_t _addr;
 
 		/**
-		 * @brief						ioctl() mutex. 
+		 * @brief						ioctl() mutex. Also keeps other threads from changing the target's address before a transfer is done.
 		 */
-		std::mutex _ioctl_mutex;
+		std::recursive_mutex _ioctl_mutex;
 
 		/**
 		 * @brief						The log passed in to the constructor.
diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index a77b850..206caea 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -127,6 +127,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_nodata(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
@@ -158,6 +160,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t byte) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
@@ -193,6 +197,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t word) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
@@ -236,6 +242,8 @@ namespace abc {
 			return false;
 		}
 
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ec, "gpio_smbus::put_block() ensure_address() failed. errno = %d", errno);
@@ -272,6 +280,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_noreg(const gpio_smbus_target<Log>& target, std::uint8_t& byte) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
@@ -307,6 +317,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_noreg_2(const gpio_smbus_target<Log>& target, std::uint16_t& word) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		std::uint8_t byte0;
 		if (!get_noreg(target, byte0)) {
 			if (_log != nullptr) {
@@ -337,6 +349,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t& byte) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
@@ -373,6 +387,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t& word) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
@@ -409,6 +425,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_block(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, void* block, std::size_t& size) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
@@ -486,7 +504,7 @@ namespace abc {
 	template <typename Arg>
 	int gpio_smbus<Log>::safe_ioctl(int command, Arg arg) noexcept {
 		try {
-			std::lock_guard<std::mutex> lock(_ioctl_mutex);
+			std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
 			return ioctl(_fd, command, arg);
 		}
 		catch (...) {
-- 
2.43.0


From 92793e74a100180630162c1a1ffcb09ff03b84ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 66/83] fix: a gpio_line that is moved is not closed;
 constructors that fail do not leak descriptors

---
 src/i/gpio_line.i.h  | 2 +-
 src/x/gpio_line.x.h  | 9 +++++++++
 src/x/gpio_smbus.x.h | 3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/i/gpio_line.i.h b/src/i/gpio_line.i.h
index 1452d49..f5703ff 100644
--- a/src/i/gpio_line.i.h
+++ b/src/i/gpio_line.i.h
@@ -53,7 +53,7 @@ namespace abc {
 		/**
 		 * @brief			Move constructor.
 		 */
-		gpio_line(gpio_line<Log>&& other) noexcept = default;
+		gpio_line(gpio_line<Log>&& other) noexcept;
 
 		/**
 		 * @brief			Deleted.
diff --git a/src/x/gpio_line.x.h b/src/x/gpio_line.x.h
index 845c69e..d2cfd9b 100644
--- a/src/x/gpio_line.x.h
+++ b/src/x/gpio_line.x.h
@@ -73,6 +73,7 @@ namespace abc {
 
 		int ret = ioctl(fd, gpio_ioctl::get_line, &line_request);
 		if (ret < 0) {
+			close(fd);
 			throw exception<std::runtime_error, Log>("gpio_line::gpio_line() ioctl() < 0", 0x106cb);
 		}
 
@@ -88,6 +89,14 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline gpio_line<Log>::gpio_line(gpio_line<Log>&& other) noexcept
+		: _fd(other._fd)
+		, _log(other._log) {
+		other._fd = -1;
+	}
+
+
 	template <typename Log>
 	inline gpio_line<Log>::~gpio_line() noexcept {
 		if (_fd >= 0) {
diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index 206caea..e6287d0 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -98,6 +98,9 @@ namespace abc {
 		}
 
 		if (safe_ioctl(I2C_FUNCS, &_functionality) < 0) {
+			close(_fd);
+			_fd = -1;
+
 			throw exception<std::logic_error, Log>("gpio_smbus::gpio_smbus() I2C_FUNCS failed", 0x106df);
 		}
 
-- 
2.43.0


From 93bdcadd52199a6f4b5bb59afc36abe23cfb9c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 67/83] fix: gpio_pwm_emulator and gpio_smbus_motion_tracker
 throw on bad arguments instead of terminating the process

---
 src/x/gpio_pwm_emulator.x.h         | 6 ++++--
 src/x/gpio_smbus_motion_tracker.x.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/x/gpio_pwm_emulator.x.h b/src/x/gpio_pwm_emulator.x.h
index e1b7739..2e79905 100644
--- a/src/x/gpio_pwm_emulator.x.h
+++ b/src/x/gpio_pwm_emulator.x.h
@@ -46,8 +46,7 @@ namespace abc {
 		, _period(gpio_pwm_period(frequency))
 		, _duty_cycle(0)
 		, _quit(false)
-		, _log(log)
-		, _thread(thread_func, this) {
+		, _log(log) {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106ce, "gpio_pwm_emulator::gpio_pwm_emulator() Start.");
 		}
@@ -60,6 +59,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() max_pulse_width", 0x106d0);
 		}
 
+		// Start the thread only when nothing can fail any more.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106d1, "gpio_pwm_emulator::gpio_pwm_emulator() Done.");
 		}
diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index 0b12045..f511455 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -43,8 +43,7 @@ namespace abc {
 		, _speed(0)
 		, _run(false)
 		, _quit(false)
-		, _log(log)
-		, _thread(thread_func, this) {
+		, _log(log) {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10753, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Start.");
 		}
@@ -53,6 +52,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() motion", 0x10754);
 		}
 
+		// Start the thread only when nothing can fail any more.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10755, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Done.");
 		}
-- 
2.43.0


From aeb0cbbdb5c8dfd4d9d226874ff82c89fc1a83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 68/83] fix: gpio_smbus_motion_tracker does not miss being
 started or destroyed before its thread waits

---
 src/x/gpio_smbus_motion_tracker.x.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index f511455..a7aa925 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -67,7 +67,10 @@ namespace abc {
 			_log->put_any(category::abc::gpio, severity::abc::optional, 0x10756, "gpio_smbus_motion_tracker::~gpio_smbus_motion_tracker() Start.");
 		}
 
-		_quit = true;
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_quit = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -89,7 +92,10 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline void gpio_smbus_motion_tracker<DistanceScale, Log>::start() {
-		_run = true;
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_run = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -193,7 +199,7 @@ namespace abc {
 				// Sleep until the owning instance fires the condition.
 				{
 					std::unique_lock<std::mutex> lock(this_ptr->_control_mutex);
-					this_ptr->_control_condition.wait(lock);
+					this_ptr->_control_condition.wait(lock, [this_ptr] () -> bool { return this_ptr->_quit || this_ptr->_run; });
 
 					quit = this_ptr->_quit;
 					run = this_ptr->_run;
-- 
2.43.0


From 631af6bda23233be4a4a40a67dcabb55f3962d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 69/83] fix: gpio_smbus_motion_tracker does not lose an
 adjustment made while it is running

---
 src/x/gpio_smbus_motion_tracker.x.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index a7aa925..d60604f 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -241,6 +241,8 @@ namespace abc {
 				// There is a previous set of measurements.
 				// Do the calculations.
 
+				// Don't overwrite a value that has been set by the owner in the meantime.
+
 				// Calculate seconds as a floating point number.
 				std::chrono::microseconds::rep microsec = std::chrono::duration_cast<std::chrono::microseconds>(curr_time_point - prev_time_point).count();
 				gpio_smbus_motion_value_t sec = (static_cast<gpio_smbus_motion_value_t>(microsec) / std::micro::den) * std::micro::num;
@@ -255,8 +257,8 @@ namespace abc {
 
 				if (std::abs(gyro) < 0.000001) { // 0.001 degrees / sec
 					// Straight line.
-					this_ptr->_depth = prev_depth + distance * std::cos(direction_rad);
-					this_ptr->_width = prev_width + distance * std::sin(direction_rad);
+					this_ptr->_depth.compare_exchange_strong(prev_depth, prev_depth + distance * std::cos(direction_rad));
+					this_ptr->_width.compare_exchange_strong(prev_width, prev_width + distance * std::sin(direction_rad));
 				}
 				else {
 					// Arch.
@@ -265,12 +267,12 @@ namespace abc {
 					gpio_smbus_motion_value_t straight_depth = radius * std::sin(gyro_rad);
 					gpio_smbus_motion_value_t straight_width = radius * (1 - std::cos(gyro_rad));
 
-					this_ptr->_depth = prev_depth + straight_depth * std::cos(direction_rad) - straight_width * std::sin(direction_rad);
-					this_ptr->_width = prev_width + straight_depth * std::sin(direction_rad) + straight_width * std::cos(direction_rad);
-					this_ptr->_direction = prev_direction + gyro;
+					this_ptr->_depth.compare_exchange_strong(prev_depth, prev_depth + straight_depth * std::cos(direction_rad) - straight_width * std::sin(direction_rad));
+					this_ptr->_width.compare_exchange_strong(prev_width, prev_width + straight_depth * std::sin(direction_rad) + straight_width * std::cos(direction_rad));
+					this_ptr->_direction.compare_exchange_strong(prev_direction, prev_direction + gyro);
 				}
 
-				this_ptr->_speed = prev_speed + (prev_accel * sec) + (accel_accel * sec * sec / 2.0);
+				this_ptr->_speed.compare_exchange_strong(prev_speed, prev_speed + (prev_accel * sec) + (accel_accel * sec * sec / 2.0));
 			}
 
 			prev_time_point = curr_time_point;
-- 
2.43.0


From 9d379cb5cbb93dc10727d9de9c9ba420e0c081b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 70/83] fix: gpio_smbus_pwm does not divide by zero at
 frequencies that make the period short

---
 src/x/gpio_smbus_pwm.x.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/x/gpio_smbus_pwm.x.h b/src/x/gpio_smbus_pwm.x.h
index 76b264f..4028412 100644
--- a/src/x/gpio_smbus_pwm.x.h
+++ b/src/x/gpio_smbus_pwm.x.h
@@ -173,7 +173,10 @@ namespace abc {
 			autoreload_bit_count++;
 		}
 
-		return static_cast<gpio_smbus_clock_frequency_t>(((1ULL << autoreload_bit_count) / 1000ULL) * 1000ULL);
+		std::uint64_t autoreload = 1ULL << autoreload_bit_count;
+
+		// Round to thousands, unless that gives 0.
+		return static_cast<gpio_smbus_clock_frequency_t>(autoreload < 1000ULL ? autoreload : (autoreload / 1000ULL) * 1000ULL);
 	}
 
 
-- 
2.43.0


From 1cd2ba1c6c18917f8ed83e94a2eecdbc49b84c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 71/83] fix: gpio_ultrasonic::measure_distance() heeds
 max_distance of every call, not only of the first one

---
 src/x/gpio_ultrasonic.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/gpio_ultrasonic.x.h b/src/x/gpio_ultrasonic.x.h
index 06a82e2..e7efb5c 100644
--- a/src/x/gpio_ultrasonic.x.h
+++ b/src/x/gpio_ultrasonic.x.h
@@ -52,7 +52,7 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline std::size_t gpio_ultrasonic<DistanceScale, Log>::measure_distance(std::size_t max_distance) const noexcept {
-		static const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
+		const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
 
 		// Clear and send a pulse.
 		_trigger_line.put_level(gpio_level::low, microseconds(10));
-- 
2.43.0


From 2c74b9cd3af9f9d59f8ea57728ee4daee5dc2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 72/83] fix: gpio_smbus_motion does not take an uninitialized
 value for a channel that could not be read

---
 src/x/gpio_smbus_motion.x.h | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index 80884b6..c5e6fd4 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -129,38 +129,45 @@ namespace abc {
 		std::uint16_t temp_ui16;
 
 		if ((mask & gpio_smbus_motion_channel::accel_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16);
-			measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16)) {
+				measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16);
-			measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16)) {
+				measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16);
-			measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16)) {
+				measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16);
-			measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16)) {
+				measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16);
-			measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16)) {
+				measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16);
-			measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16)) {
+				measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::temperature) != 0) {
-			_smbus->get_word(_smbus_target, reg_temperature, temp_ui16);
-			measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_temperature, temp_ui16)) {
+				measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if (_log != nullptr) {
-- 
2.43.0


From 11a123f272c5beba5e63726f477372e30caf934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 73/83] fix: gpio_smbus_motion::calibrate() does not overflow
 its sums, and works without a log

---
 src/x/gpio_smbus_motion.x.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index c5e6fd4..df3e666 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -68,7 +68,11 @@ namespace abc {
 
 	template <typename Log>
 	inline void gpio_smbus_motion<Log>::calibrate(gpio_smbus_motion_channel_t mask) noexcept {
-		gpio_smbus_motion_measurements measurements{ };
+		// The sums exceed the range of gpio_smbus_motion_measurement_t.
+		struct {
+			std::int32_t accel_x, accel_y, accel_z;
+			std::int32_t gyro_x, gyro_y, gyro_z;
+		} measurements{ };
 
 		constexpr int reps_skip = 5;
 		constexpr int reps_take = 20;
@@ -82,8 +86,10 @@ namespace abc {
 				continue;
 			}
 
-			_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
-				mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			if (_log != nullptr) {
+				_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
+					mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			}
 
 			measurements.accel_x += temp.accel_x;
 			measurements.accel_y += temp.accel_y;
-- 
2.43.0


From 26494e46195eb8bfcc12c34feacb055326016ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 74/83] fix: a test that throws something other than
 std::exception fails instead of ending the process

---
 src/test.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/test.h b/src/test.h
index 3f3c419..0b784c3 100644
--- a/src/test.h
+++ b/src/test.h
@@ -334,6 +334,12 @@ namespace abc {
 						log->put_any(category::any, severity::critical, tag::none, "    %s%sEXCEPTION%s %s", color::begin, color::red, color::end, ex.what());
 					}
 				}
+				catch(...) {
+					method_passed = false;
+					if (log != nullptr) {
+						log->put_any(category::any, severity::critical, tag::none, "    %s%sEXCEPTION%s unknown", color::begin, color::red, color::end);
+					}
+				}
 
 				if (method_passed) {
 					if (log != nullptr) {
-- 
2.43.0


From 8d944f315f09eeabc30a50d82339942521d681a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:43 +0000
Subject: [PATCH 75/83] fix: vmem_pool with a log does not divide by zero when
 its first page cannot be mapped

---
 src/x/vmem_pool.x.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 70c55da..aab24fe 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -886,6 +886,11 @@ namespace abc {
 	inline void vmem_pool<MaxMappedPages, Log>::log_totals() noexcept {
 		if (_log != nullptr) {
 			vmem_page_hit_count_t total_lock_count = _mapped_page_totals.hit_count + _mapped_page_totals.miss_count;
+			if (total_lock_count == 0) {
+				// No page has been mapped yet.
+				return;
+			}
+
 			vmem_page_hit_count_t hit_percent = (_mapped_page_totals.hit_count * 100) / total_lock_count;
 			vmem_page_hit_count_t miss_percent = (_mapped_page_totals.miss_count * 100) / total_lock_count;
 
-- 
2.43.0


From 39149655263c4896b7b03432b43a72fcc6d58cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:47 +0000
Subject: [PATCH 76/83] fix: multifile streams do not cut the file name when
 the path is one char too long

---
 src/multifile.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index 1582488..ae2f564 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -54,12 +54,15 @@ namespace abc {
 		}
 
 		_path_length = std::strlen(path);
-		if (_path_length + 1 + filename_length > MaxPath) {
+		bool has_separator = _path_length > 0 && path[_path_length - 1] == path_separator;
+
+		// The separator, the file name, and a terminator are added to the path.
+		if (_path_length + (has_separator ? 0 : 1) + filename_length + 1 > MaxPath) {
 			throw exception<std::logic_error, Log>("multifile_streambuf::multifile_streambuf(std::strlen(path))", 0x102b1, log);
 		}
 
 		std::strncpy(_path, path, _path_length);
-		if (_path[_path_length - 1] != path_separator) {
+		if (!has_separator) {
 			_path[_path_length++] = path_separator;
 		}
 
-- 
2.43.0


From ee6fc7f61835b705eea3835212fa5d671134d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 77/83] fix: moving a vmem string stream buffer does not lose
 the char it holds

---
 src/x/vmem_string.x.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 7977e66..03344e5 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -57,8 +57,10 @@ namespace abc {
 		, _get_itr(std::move(other._get_itr))
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		base::setg(&_get_ch, &_get_ch + 1, &_get_ch + 1);
+		// A char that has not been got yet, or has not been inserted yet, moves along.
+		base::setg(&_get_ch, &_get_ch + (other.gptr() - other.eback()), &_get_ch + 1);
 		base::setp(&_put_ch, &_put_ch + 1);
+		base::pbump(static_cast<int>(other.pptr() - other.pbase()));
 
 		other._string = nullptr;
 		other._log = nullptr;
-- 
2.43.0


From d79c59c2fa7b7a92e367342395a2fff045045857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 78/83] fix: moving a buffer_streambuf keeps its positions

---
 src/buffer_streambuf.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer_streambuf.h b/src/buffer_streambuf.h
index 6ab0780..62a98c6 100644
--- a/src/buffer_streambuf.h
+++ b/src/buffer_streambuf.h
@@ -110,7 +110,13 @@ namespace abc {
 
 	template <typename Char>
 	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(basic_buffer_streambuf<Char>&& other) noexcept
-		: basic_buffer_streambuf<Char>(other._get_begin_ptr, other._get_end_ptr, other._put_begin_ptr, other._put_end_ptr) {
+		// The copy constructor of the base copies the current positions.
+		: std::basic_streambuf<Char>(other)
+		, _get_begin_ptr(other._get_begin_ptr)
+		, _get_end_ptr(other._get_end_ptr)
+		, _put_begin_ptr(other._put_begin_ptr)
+		, _put_end_ptr(other._put_end_ptr) {
+		other.reset(nullptr, nullptr, nullptr, nullptr);
 	}
 
 
-- 
2.43.0


From e6549d4d01cc782cc5074a0c613613ce71051211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:13 +0000
Subject: [PATCH 79/83] fix: a vmem_temp that has been moved does not clear the
 container

---
 src/i/vmem_list.i.h |  8 +++++++-
 src/x/vmem_list.x.h | 15 +++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/i/vmem_list.i.h b/src/i/vmem_list.i.h
index 46afa5c..2107843 100644
--- a/src/i/vmem_list.i.h
+++ b/src/i/vmem_list.i.h
@@ -185,7 +185,7 @@ namespace abc {
 		/**
 		 * @brief				Move constructor.
 		 */
-		vmem_temp<Container>(vmem_temp<Container>&& other) noexcept = default;
+		vmem_temp<Container>(vmem_temp<Container>&& other) noexcept;
 
 		/**
 		 * @brief				Deleted.
@@ -196,6 +196,12 @@ namespace abc {
 		 * @brief				Destructor constructor.
 		 */
 		~vmem_temp<Container>() noexcept;
+
+	private:
+		/**
+		 * @brief				`true` = clear the container upon destruction; `false` = the container has been moved.
+		 */
+		bool _is_owner;
 	};
 
 
diff --git a/src/x/vmem_list.x.h b/src/x/vmem_list.x.h
index 51aaab3..ff10037 100644
--- a/src/x/vmem_list.x.h
+++ b/src/x/vmem_list.x.h
@@ -54,13 +54,24 @@ namespace abc {
 	template <typename Container>
 	template <typename... Args>
 	vmem_temp<Container>::vmem_temp(Args&&... args)
-		: Container(std::forward<Args>(args)...) {
+		: Container(std::forward<Args>(args)...)
+		, _is_owner(true) {
+	}
+
+
+	template <typename Container>
+	vmem_temp<Container>::vmem_temp(vmem_temp<Container>&& other) noexcept
+		: Container(std::move(other))
+		, _is_owner(other._is_owner) {
+		other._is_owner = false;
 	}
 
 
 	template <typename Container>
 	vmem_temp<Container>::~vmem_temp() noexcept {
-		Container::clear();
+		if (_is_owner) {
+			Container::clear();
+		}
 	}
 
 }
-- 
2.43.0


From 3dcf48acfe6dcf17e99688dd9473463e4c18bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 80/83] fix: a find result of a vmem_map keeps its path when it
 is moved

---
 src/i/vmem_map.i.h | 13 ++++++++++---
 src/x/vmem_map.x.h | 16 ++++++++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index f7dc8da..f0da59e 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -244,17 +244,24 @@ namespace abc {
 		/**
 		 * @brief				Move constructor.
 		 */
-		vmem_map_find_result2(vmem_map_find_result2&& other) noexcept = default;
+		vmem_map_find_result2(vmem_map_find_result2&& other) noexcept;
 
 		/**
 		 * @brief				Copy constructor.
 		 */
 		vmem_map_find_result2(const vmem_map_find_result2& other) = delete;
 
-		vmem_map_find_result2& operator =(vmem_map_find_result2&& other) noexcept = default;
+	private:
+		/**
+		 * @brief				Pointer to the `vmem_pool` instance of the path stack.
+		 */
+		Pool* _pool;
 
+		/**
+		 * @brief				Pointer to the `log_ostream` instance of the path stack.
+		 */
+		Log* _log;
 
-	private:
 		/**
 		 * @brief				State for the path stack.
 		 */
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 44385b3..a3f3ba0 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -67,10 +67,26 @@ namespace abc {
 	template <typename Key, typename T, typename Pool, typename Log>
 	vmem_map_find_result2<Key, T, Pool, Log>::vmem_map_find_result2(Pool* pool, Log* log) noexcept
 		: vmem_map_result2<Key, T, Pool, Log>(nullptr)
+		, _pool(pool)
+		, _log(log)
 		, path(&_path_state, pool, log) {
 	}
 
 
+	template <typename Key, typename T, typename Pool, typename Log>
+	vmem_map_find_result2<Key, T, Pool, Log>::vmem_map_find_result2(vmem_map_find_result2&& other) noexcept
+		: vmem_map_result2<Key, T, Pool, Log>(std::move(other))
+		, _pool(other._pool)
+		, _log(other._log)
+		, _path_state(other._path_state)
+		, path(&_path_state, other._pool, other._log) {
+		// The pages of the path belong to this instance now.
+		other._path_state.front_page_pos = vmem_page_pos_nil;
+		other._path_state.back_page_pos = vmem_page_pos_nil;
+		other._path_state.total_item_count = 0;
+	}
+
+
 	// --------------------------------------------------------------
 
 
-- 
2.43.0


From 71a6e886a99f63ffedb7eee7cda9fdad6393fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:26 +0000
Subject: [PATCH 81/83] fix: a header value may end with a fold of one space

A fold is three chars. A value that ended with exactly those was refused, while one with one more space was accepted.
---
 src/http.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.h b/src/http.h
index 29e26c0..fbdb497 100644
--- a/src/http.h
+++ b/src/http.h
@@ -687,7 +687,7 @@ namespace abc {
 			if (ascii::is_space(buffer[sp])) {
 				sp++;
 			}
-			else if (sp + 3 < size && buffer[sp] == '\r' && buffer[sp + 1] == '\n' && ascii::is_space(buffer[sp + 2])) {
+			else if (sp + 2 < size && buffer[sp] == '\r' && buffer[sp + 1] == '\n' && ascii::is_space(buffer[sp + 2])) {
 				sp += 3;
 			}
 			else {
-- 
2.43.0


From 8e55c9d3bbf7526ac4fdc13028316cefaa06c8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:34 +0000
Subject: [PATCH 82/83] fix: gpio_line::expect_level() keeps to its timeout in
 any unit

The time was cut to the unit of the timeout, so a wait of one second took two.
---
 src/x/gpio_line.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/gpio_line.x.h b/src/x/gpio_line.x.h
index d2cfd9b..bd69d6f 100644
--- a/src/x/gpio_line.x.h
+++ b/src/x/gpio_line.x.h
@@ -133,7 +133,7 @@ namespace abc {
 		gpio_level_t current_level = get_level();
 
 		while (current_level != level) {
-			if (std::chrono::duration_cast<Duration>(current_tp - start_tp) > timeout) {
+			if (current_tp - start_tp > timeout) {
 				return gpio_level::invalid;
 			}
 
-- 
2.43.0


From db69fd72074c63e09e03064c7f6af533326a66eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:10 +0000
Subject: [PATCH 83/83] fix: timestamp::reset() to a time point changes the
 time point too

---
 src/timestamp.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/timestamp.h b/src/timestamp.h
index 30d7825..f8bdcbd 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -102,6 +102,8 @@ namespace abc {
 
 	template <typename Clock>
 	inline void timestamp<Clock>::reset(std::chrono::time_point<Clock> tp) noexcept {
+		base::operator =(tp);
+
 		std::chrono::nanoseconds tp_nanoseconds_since_epoch = std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch());
 		reset(tp_nanoseconds_since_epoch.count());
 	}
-- 
2.43.0

