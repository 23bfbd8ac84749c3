From 0b214d6a5e0b478887102d81305da0ac8d3ea1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 01/15] fix: decode 57 to 63 bit numbers, and refuse truncated
 or oversized ones

---
 src/serialize/primitives.rs | 49 ++++++++++---------------------------
 1 file changed, 13 insertions(+), 36 deletions(-)

diff --git a/src/serialize/primitives.rs b/src/serialize/primitives.rs
index 55a6816..f95af01 100644
--- a/src/serialize/primitives.rs
+++ b/src/serialize/primitives.rs
@@ -69,49 +69,26 @@ impl Serializable for u64 {
 }
 
 impl Deserializable for u64 {
-    fn deserialize(mut input: &[u8]) -> Option<(&[u8], Self)> {
+    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let mut out = 0;
-        let mut eaten = 0;
-
-        // We eat all the bytes that start with 1
-        while input.is_empty() == false && eaten < 9 {
-            // We shift the 7 data bits forwards, so they're all in front
-            let byte = input[0];
-            let more_bytes = byte & 0b1000_0000 == 0b1000_0000;
-            let byte = byte << 1;
-            out >>= 7;
-            // We make the byte u64, and shift the data aaaaall the way to the front
-            let byte = u64::from(byte) << (64 - 8);
-            out |= byte;
-
-            input = &input[1..];
-            eaten += 1;
-
-            if more_bytes == false {
-                break;
-            }
 
-            if eaten > 10 {
+        // Each byte carries 7 bits, so no more than 10 are needed
+        for (index, byte) in input.iter().take(10).enumerate() {
+            let data = u64::from(byte & 0b0111_1111);
+            // The 10th byte only has room for a single bit
+            if index == 9 && data > 1 {
                 return None;
             }
-        }
+            out |= data << (index * 7);
 
-        // This means there is one last byte with 1 bit of real data
-        if eaten == 9 {
-            out >>= 1;
-            if *input.get(0)? == 1 {
-                out |= 0b1000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000;
+            let more_bytes = byte & 0b1000_0000 == 0b1000_0000;
+            if more_bytes == false {
+                return Some((&input[index + 1..], out));
             }
-            input = &input[1..];
-            Some((input, out))
-        } else if eaten == 0 {
-            None
-        } else {
-            // We need to remove the extra padding from the beginning
-            let reset_shift = 64 - (eaten * 7);
-            let out = out >> reset_shift;
-            Some((input, out))
         }
+
+        // Either the input ended in the middle of a number, or it's too long
+        None
     }
 }
 
-- 
2.43.0


From 52e5c52c6693713482da4a28686ad2b03117c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 02/15] fix: refuse a string whose length exceeds the remaining
 input

---
 src/serialize/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 593cbf9..746cda0 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -121,7 +121,7 @@ fn test() {
 impl Deserializable for String {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (input, len) = usize::deserialize(input)?;
-        let bytes = &input[..len];
+        let bytes = input.get(..len)?;
         let string = String::from_utf8(bytes.to_vec()).ok()?;
         Some((&input[len..], string))
     }
-- 
2.43.0


From 8bf336d92947223589e6142e005d5cc094a43e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 03/15] fix: refuse arrays of another length instead of
 panicking

---
 src/serialize/collections.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 746cda0..b5e92aa 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -187,7 +187,9 @@ impl<T: Serializable, const N: usize> Serializable for [T; N] {
 impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollection for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
@@ -201,7 +203,9 @@ impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollectio
 impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
-- 
2.43.0


From 9e9410113708f88438d682807a61cca9ade7c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 04/15] fix: never reserve room for more items than the
 remaining input can hold

---
 src/classic_indexes/categorical.rs | 4 ++--
 src/classic_indexes/tag.rs         | 2 +-
 src/data/vendor.rs                 | 4 ++--
 src/serialize/collections.rs       | 8 ++++----
 src/serialize/nodes.rs             | 2 +-
 src/serialize/sequential_array.rs  | 2 +-
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 2800703..7a77bb2 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -51,7 +51,7 @@ impl<'a> Category<'a> {
         let (input, name) = String::deserialize(input)?;
         let (mut input, options_len) = usize::deserialize(input)?;
 
-        let mut options = Vec::with_capacity(options_len);
+        let mut options = Vec::with_capacity(options_len.min(input.len()));
         for _ in 0..options_len {
             let (input_after_name, name) = String::deserialize(input)?;
 
@@ -162,7 +162,7 @@ impl<'a> CategoryIndex<'a> {
         products: &'a [Product<'a>],
     ) -> Option<(&'i [u8], CategoryIndex<'a>)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut cats = Vec::with_capacity(len);
+        let mut cats = Vec::with_capacity(len.min(input.len()));
         let mut next_option_serialization_id = 0;
         for _ in 0..len {
             let (new_input, cat) =
diff --git a/src/classic_indexes/tag.rs b/src/classic_indexes/tag.rs
index b1b5b14..24024bc 100644
--- a/src/classic_indexes/tag.rs
+++ b/src/classic_indexes/tag.rs
@@ -60,7 +60,7 @@ impl<'a> TagIndex<'a> {
     ) -> Option<(&'i [u8], TagIndex<'a>)> {
         let (input, tag_len) = usize::deserialize(input)?;
         let mut input = input;
-        let mut tags = Vec::with_capacity(tag_len);
+        let mut tags = Vec::with_capacity(tag_len.min(input.len()));
         for id in 0..tag_len {
             let (new_input, name) = String::deserialize(input)?;
 
diff --git a/src/data/vendor.rs b/src/data/vendor.rs
index f53ce78..84dcb87 100644
--- a/src/data/vendor.rs
+++ b/src/data/vendor.rs
@@ -97,8 +97,8 @@ impl<'arena> ArenaDeserializableCollection<'arena, Vendor> for VendorManager<'ar
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut tags = AHashMap::with_capacity(len);
-        let mut by_id = Vec::with_capacity(len);
+        let mut tags = AHashMap::with_capacity(len.min(input.len()));
+        let mut by_id = Vec::with_capacity(len.min(input.len()));
         for id in 0..len {
             let (new_input, name) = String::deserialize(input)?;
             input = new_input;
diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index b5e92aa..73e9383 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -38,7 +38,7 @@ impl Serializable for Vec<usize> {
 impl<T: Deserializable> Deserializable for Vec<T> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize(input)?;
             input = new_input;
@@ -59,7 +59,7 @@ impl<'arena, T: ArenaDeserializable<'arena, T>> ArenaDeserializableCollection<'a
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, item) = T::deserialize_arena(input, arena)?;
             input = new_input;
@@ -150,7 +150,7 @@ where
         'arena: 'input,
     {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize_arena(new_input, arena)?;
@@ -164,7 +164,7 @@ where
 impl<K: Deserializable + Eq + Hash, V: Deserializable> Deserializable for AHashMap<K, V> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (mut input, len) = usize::deserialize(input)?;
-        let mut out = AHashMap::with_capacity(len);
+        let mut out = AHashMap::with_capacity(len.min(input.len()));
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
             let (new_input, value) = V::deserialize(new_input)?;
diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index adb7c99..77cb8f7 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -82,7 +82,7 @@ impl<'arena, G: GramAtom, const N: usize> GramIndex<'arena, G, Product<'arena>,
         let (input, roots) = AHashMap::deserialize_arena(input, node_arena)?;
 
         let (mut input, data_len) = usize::deserialize(input)?;
-        let mut data = AHashMap::with_capacity(data_len);
+        let mut data = AHashMap::with_capacity(data_len.min(input.len()));
         for _ in 0..data_len {
             let (next_input, gram) = <[G; N]>::deserialize(input)?;
             let (next_input, products, _) =
diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 22643b3..3ca368a 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -28,7 +28,7 @@ where
 {
     let (mut input, len) = usize::deserialize(input)?;
 
-    let mut output = Vec::with_capacity(len);
+    let mut output = Vec::with_capacity(len.min(input.len()));
     let mut previous = None;
     for _ in 0..len {
         let (new_input, parsed) = T::deserialize(input)?;
-- 
2.43.0


From 4c2eb71e5c33afaceaaf7032989feb3a381801a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 05/15] fix: refuse sequential arrays whose sum overflows

---
 src/serialize/sequential_array.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 3ca368a..29c52cf 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -1,5 +1,22 @@
 use super::{Deserializable, Serializable};
 
+/// Numbers whose sum may not fit
+pub trait CheckedAdd: Sized {
+    fn sum(self, other: Self) -> Option<Self>;
+}
+
+macro_rules! checked_add {
+    ($($number:ty),*) => {
+        $(impl CheckedAdd for $number {
+            fn sum(self, other: Self) -> Option<Self> {
+                self.checked_add(other)
+            }
+        })*
+    };
+}
+
+checked_add!(u8, u32, u64, usize);
+
 pub fn serialize<T, I, Out: FnMut(u8)>(input: I, output: &mut Out)
 where
     T: std::ops::Sub<Output = T> + Ord + Serializable + Copy,
@@ -24,7 +41,7 @@ where
 
 pub fn deserialize<T>(input: &[u8]) -> Option<(&[u8], Vec<T>)>
 where
-    T: std::ops::Add<Output = T> + Ord + Serializable + Deserializable + Copy,
+    T: CheckedAdd + Ord + Serializable + Deserializable + Copy,
 {
     let (mut input, len) = usize::deserialize(input)?;
 
@@ -35,7 +52,7 @@ where
         input = new_input;
 
         let item = match previous {
-            Some(previous) => parsed + previous,
+            Some(previous) => parsed.sum(previous)?,
             None => parsed,
         };
 
-- 
2.43.0


From 1deaaa0e4ca004495e4684d1f61890d82f05fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 06/15] fix: refuse gram trees nested too deep to decode on the
 stack

---
 src/serialize/nodes.rs | 51 +++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index 77cb8f7..ccaf6cd 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -27,6 +27,41 @@ impl<G: GramAtom> Serializable for &GramNode<'_, G> {
     }
 }
 
+// A tree is as deep as the grams are long, anything deeper than this is not a tree we made
+const MAX_NODE_DEPTH: usize = 256;
+
+fn deserialize_node<'input, 'arena, G: GramAtom>(
+    input: &'input [u8],
+    arena: &'arena Arena<GramNode<'arena, G>>,
+    depth: usize,
+) -> Option<(&'input [u8], &'arena GramNode<'arena, G>)> {
+    if depth > MAX_NODE_DEPTH {
+        return None;
+    }
+    let (input, item) = <G as Deserializable>::deserialize(input)?;
+    let (input, weight) = f32::deserialize(input)?;
+
+    let (mut input, children) = usize::deserialize(input)?;
+    let mut by_occurances = Vec::with_capacity(children.min(input.len()));
+    for _ in 0..children {
+        let (new_input, child) = deserialize_node(input, arena, depth + 1)?;
+        input = new_input;
+        by_occurances.push(child);
+    }
+    let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
+        map.insert(item.item, *item);
+        map
+    });
+
+    let node: &'arena GramNode<'arena, G> = arena.alloc(GramNode {
+        item,
+        weight,
+        by_occurances,
+        items,
+    });
+    Some((input, node))
+}
+
 impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena, G> {
     fn deserialize_arena<'input>(
         input: &'input [u8],
@@ -35,21 +70,7 @@ impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena,
     where
         'arena: 'input,
     {
-        let (input, item) = <G as Deserializable>::deserialize(input)?;
-        let (input, weight) = f32::deserialize(input)?;
-        let (input, by_occurances) = Vec::deserialize_arena(input, arena)?;
-        let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
-            map.insert(item.item, *item);
-            map
-        });
-
-        let node: &'arena GramNode<'arena, G> = arena.alloc(GramNode {
-            item,
-            weight,
-            by_occurances,
-            items,
-        });
-        Some((input, node))
+        deserialize_node(input, arena, 1)
     }
 }
 
-- 
2.43.0


From d7b4bc95e919ae491d62f0af1e14d8b244b050eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 07/15] fix: number category options in the order they are
 saved in

---
 src/classic_indexes/categorical.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 7a77bb2..ac3acc1 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -122,7 +122,6 @@ impl<'a> CategoryIndex<'a> {
         container: &'a ProductContainer<'a>,
     ) -> CategoryIndex<'a> {
         let mut categories: Vec<Category> = Vec::new();
-        let mut next_serialization_id = 0;
         // Then we register the categories for the options now they're read only
         for (i, options) in options_list.into_iter().enumerate() {
             for raw_option in options {
@@ -140,9 +139,8 @@ impl<'a> CategoryIndex<'a> {
                     let option = match category.options.iter_mut().find(|o| o.name == raw_value) {
                         Some(v) => v,
                         None => {
-                            let new =
-                                CategoryOption::new(raw_value.to_string(), next_serialization_id);
-                            next_serialization_id += 1;
+                            // The real id is assigned when all options are known
+                            let new = CategoryOption::new(raw_value.to_string(), 0);
                             category.options.push(new);
                             let just_inserted = category.options.len() - 1;
                             category.options.get_mut(just_inserted).unwrap()
@@ -154,6 +152,12 @@ impl<'a> CategoryIndex<'a> {
             }
         }
 
+        // Ids aren't saved, but follow from the order options are saved in, so we use that order
+        let options = categories.iter_mut().flat_map(|c| c.options.iter_mut());
+        for (serialization_id, option) in options.enumerate() {
+            option.serialization_id = serialization_id;
+        }
+
         CategoryIndex(categories)
     }
 
-- 
2.43.0


From 3efbdcbb05f8e9ca9566978b1a62a4353116dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 08/15] fix: keep image urls aligned with products when some
 have no media

---
 src/data/raw_parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index f9a4f26..f8098c9 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -73,9 +73,13 @@ fn to_intermediate(input: Vec<RawProduct<'_>>) -> impl Iterator<Item = Intermedi
 
         let mut other_string = AHashMap::with_capacity(1);
 
-        if !media.is_empty() {
-            other_string.insert("image_url", media.swap_remove(0).url);
-        }
+        // Features are found by product position, so a product without media also needs a value
+        let image_url = if media.is_empty() {
+            ""
+        } else {
+            media.swap_remove(0).url
+        };
+        other_string.insert("image_url", image_url);
 
         let mut other_numeric = AHashMap::with_capacity(1);
 
-- 
2.43.0


From bc4a26900c32375f27683b4fd8f8d483e5f14537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 09/15] fix: keep the beginning of a long text that starts with
 a space

---
 src/serialize/collections.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 73e9383..fa0be56 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -94,7 +94,8 @@ fn limit_string_len(input: &str, max_len: usize) -> &str {
                 None => &input[0..offset],
             };
         }
-        if char == ' ' {
+        // Cutting at the very first character would leave nothing
+        if char == ' ' && offset > 0 {
             last_candidate = Some(offset);
         }
     }
-- 
2.43.0


From 18df5897a0027bd6a672c7736f59a6ef0144de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 10/15] fix: apply exact feature filters

---
 src/js_interactable/feature_filter.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/js_interactable/feature_filter.rs b/src/js_interactable/feature_filter.rs
index 707aa02..fe62652 100644
--- a/src/js_interactable/feature_filter.rs
+++ b/src/js_interactable/feature_filter.rs
@@ -39,20 +39,18 @@ impl FeatureFilter {
             let feature = entry.get(0).as_string()?;
             let values = entry.get(1);
 
-            if let Some(from) = get_value(&values, "from") {
-                if let Some(to) = get_value(&values, "to") {
-                    out.push(FeatureFilter {
-                        data: FilterData::Range { from, to },
-                        feature,
-                    });
-                    continue;
-                }
-            }
+            let from = get_value(&values, "from")?;
+            let to = get_value(&values, "to")?;
             let exact = get_value(&values, "exact")?;
-            out.push(FeatureFilter {
-                feature,
-                data: FilterData::Exact(exact),
-            });
+
+            // Reading a key that isn't there gives undefined
+            let has_range = !(from.is_undefined() && to.is_undefined());
+            let data = if has_range || exact.is_undefined() {
+                FilterData::Range { from, to }
+            } else {
+                FilterData::Exact(exact)
+            };
+            out.push(FeatureFilter { data, feature });
         }
         Some(out)
     }
-- 
2.43.0


From f78c7a8ba76c9a32b99adc4400ebb5ae29c1ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 11/15] fix: compare tags and keywords by their number of
 characters

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a08707..edd1359 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -149,7 +149,7 @@ impl TagSuggestionResult {
 #[wasm_bindgen]
 pub fn tag_suggestion(query: &str) -> Option<TagSuggestionResult> {
     fn overlap(original: &str, other: &str, min_len: usize) -> f32 {
-        let min_len_found = original.len().min(other.len());
+        let min_len_found = original.chars().count().min(other.chars().count());
         if min_len_found < min_len {
             return 0.0;
         }
-- 
2.43.0


From 1d9f45a11cbe41177f236c7120642f794da910cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 12/15] fix: count products, not occurrences, when removing too
 common grams

---
 src/ngram/indexer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ngram/indexer.rs b/src/ngram/indexer.rs
index bcb4c09..683d27e 100644
--- a/src/ngram/indexer.rs
+++ b/src/ngram/indexer.rs
@@ -149,7 +149,14 @@ impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex<'a, G, Data, N> {
         let maximum_product_amount = (products_amount as f32) * DATA_CUTOFF_PERCENTAGE;
         #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
         let maximum_product_amount = maximum_product_amount as usize;
-        data_map.retain(|_, data| data.len() < maximum_product_amount);
+        data_map.retain(|_, data| {
+            // A gram is listed once per occurrence, and the occurrences in a product are adjacent
+            let repeats = data
+                .windows(2)
+                .filter(|pair| pair[0].cmp(pair[1]).is_eq())
+                .count();
+            data.len() - repeats < maximum_product_amount
+        });
 
         // We also sort the data for easier access later
         for (_, data) in data_map.iter_mut() {
-- 
2.43.0


From 0a8aefe54957f015dcf4a18e6011adb091e939a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 13/15] fix: read numeric ids of 20 digits or with leading
 zeroes without overflow

---
 src/data/product.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/data/product.rs b/src/data/product.rs
index 382dee3..681944d 100644
--- a/src/data/product.rs
+++ b/src/data/product.rs
@@ -18,15 +18,16 @@ pub struct Product<'a> {
 
 impl Product<'_> {
     pub fn get_id(&self) -> u64 {
-        let mut out = 0;
-        let mut multiplier = 1;
+        let mut out: u64 = 0;
+        let mut multiplier: u64 = 1;
         for char in self.id.chars().rev() {
             let n = match char.to_digit(10) {
                 Some(v) => u64::from(v),
                 None => break,
             };
-            out += n * multiplier;
-            multiplier *= 10;
+            // The multiplier passes what fits after 20 digits, where only zeroes may remain
+            out = out.wrapping_add(n.wrapping_mul(multiplier));
+            multiplier = multiplier.wrapping_mul(10);
         }
         out
     }
-- 
2.43.0


From 0d347f45f8f5c5e4ccfe2773c5b6e6e8fa1f0eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 14/15] fix: report prices that are not finite numbers instead
 of panicking

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index edd1359..92a8b9f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -205,6 +205,13 @@ pub fn index_and_serialize_with_n<const N: usize>(
     products: Vec<RawProduct>,
     arena: &'static SuperAlloc,
 ) -> Result<Vec<u8>, Box<dyn std::error::Error>> {
+    for product in &products {
+        let price: f32 = product.price.min.amount.parse()?;
+        if !price.is_finite() {
+            return Err("Prices must be finite numbers".into());
+        }
+    }
+
     let (prods, classic_index) = optimize(products, arena);
 
     let iter = prods.products.iter().map(|p| {
-- 
2.43.0


From 7fc2e130e5052567f4acc61401512ff81a462ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 15/15] fix: accept escape sequences in every text of the
 catalogue

---
 src/classic_indexes/tag.rs |  8 +++++---
 src/data/raw_parser.rs     | 37 ++++++++++++++++++++++---------------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/classic_indexes/tag.rs b/src/classic_indexes/tag.rs
index 24024bc..2b721df 100644
--- a/src/classic_indexes/tag.rs
+++ b/src/classic_indexes/tag.rs
@@ -1,3 +1,5 @@
+use std::borrow::Cow;
+
 use ahash::{AHashMap, AHashSet};
 
 use crate::{
@@ -86,10 +88,10 @@ impl<'a> TagIndex<'a> {
     }
 
     pub fn index<'out>(
-        tags_for_product: Vec<Vec<&str>>,
+        tags_for_product: Vec<Vec<Cow<'_, str>>>,
         container: &'out ProductContainer<'out>,
     ) -> TagIndex<'out> {
-        let mut products_for_tag: AHashMap<&str, Vec<&Product>> = AHashMap::new();
+        let mut products_for_tag: AHashMap<Cow<'_, str>, Vec<&Product>> = AHashMap::new();
         for (id, tags) in tags_for_product.into_iter().enumerate() {
             let product = &container.products[id];
             for tag in tags {
@@ -104,7 +106,7 @@ impl<'a> TagIndex<'a> {
             products_for_tag
                 .into_iter()
                 .enumerate()
-                .map(|(id, (name, products))| crate::classic_indexes::Tag::new(name, products, id))
+                .map(|(id, (name, products))| crate::classic_indexes::Tag::new(&name, products, id))
                 .collect(),
         )
     }
diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index f8098c9..d1625c4 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -1,5 +1,5 @@
 use serde::Deserialize;
-use std::sync::Arc;
+use std::{borrow::Cow, sync::Arc};
 
 use ahash::AHashMap;
 
@@ -26,16 +26,21 @@ pub struct ProductPrice {
 
 #[derive(Deserialize, PartialEq, Eq, Debug, Clone)]
 pub struct MediaItem<'a> {
-    pub url: &'a str,
+    #[serde(borrow)]
+    pub url: Cow<'a, str>,
 }
 
 #[derive(Deserialize, PartialEq, Eq, Debug, Clone)]
 pub struct RawProduct<'a> {
     pub description: String,
-    pub tags: Vec<&'a str>,
-    pub title: &'a str,
-    pub vendor: &'a str,
-    pub id: &'a str,
+    #[serde(borrow)]
+    pub tags: Vec<Cow<'a, str>>,
+    #[serde(borrow)]
+    pub title: Cow<'a, str>,
+    #[serde(borrow)]
+    pub vendor: Cow<'a, str>,
+    #[serde(borrow)]
+    pub id: Cow<'a, str>,
     pub options: Vec<RawProductOption<'a>>,
     pub price: ProductPrice,
     pub media: Vec<MediaItem<'a>>,
@@ -43,18 +48,20 @@ pub struct RawProduct<'a> {
 
 #[derive(Deserialize, PartialEq, Eq, Debug, Clone)]
 pub struct RawProductOption<'a> {
-    pub name: &'a str,
-    pub values: Vec<&'a str>,
+    #[serde(borrow)]
+    pub name: Cow<'a, str>,
+    #[serde(borrow)]
+    pub values: Vec<Cow<'a, str>>,
 }
 
 pub struct IntermediateRawProduct<'a> {
-    pub title: &'a str,
+    pub title: Cow<'a, str>,
     pub description: String,
-    pub tags: Vec<&'a str>,
-    pub vendor: &'a str,
-    pub id: &'a str,
+    pub tags: Vec<Cow<'a, str>>,
+    pub vendor: Cow<'a, str>,
+    pub id: Cow<'a, str>,
     pub options: Vec<RawProductOption<'a>>,
-    pub other_string: AHashMap<&'a str, &'a str>,
+    pub other_string: AHashMap<&'a str, Cow<'a, str>>,
     pub other_numeric: AHashMap<&'a str, f32>,
 }
 
@@ -75,7 +82,7 @@ fn to_intermediate(input: Vec<RawProduct<'_>>) -> impl Iterator<Item = Intermedi
 
         // Features are found by product position, so a product without media also needs a value
         let image_url = if media.is_empty() {
-            ""
+            Cow::Borrowed("")
         } else {
             media.swap_remove(0).url
         };
@@ -106,7 +113,7 @@ pub fn optimize(
 
     // We insert all the tags/vendors
     for product in &input {
-        vendors.insert(product.vendor);
+        vendors.insert(&product.vendor);
     }
 
     let vendors: Arc<VendorManager<'static>> = Arc::new(vendors);
-- 
2.43.0

