From 5229139a3ba12b7c8d3d92ca43edacab8f29ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 1/9] fix: write the /B key in Transition::opaque

---
 src/transitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transitions.rs b/src/transitions.rs
index 83d3b65..885eb08 100644
--- a/src/transitions.rs
+++ b/src/transitions.rs
@@ -57,7 +57,7 @@ impl Transition<'_> {
 
     /// Write the `/B` attribute for the `Fly` transition. PDF 1.5+.
     pub fn opaque(&mut self, opaque: f32) -> &mut Self {
-        self.pair(Name(b"F"), opaque);
+        self.pair(Name(b"B"), opaque);
         self
     }
 }
-- 
2.43.0


From 8e53e624017447dcbe29c0bb079c17015c1f4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 2/9] fix: write the /PC key in
 AdditionalActions::annot_page_close

---
 src/actions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions.rs b/src/actions.rs
index 470e26e..769be02 100644
--- a/src/actions.rs
+++ b/src/actions.rs
@@ -339,7 +339,7 @@ impl AdditionalActions<'_> {
     /// shall be performed when the page containing the annotation is closed.
     /// Only permissible for annotations. PDF 1.5+.
     pub fn annot_page_close(&mut self) -> Action<'_> {
-        self.insert(Name(b"PV")).start()
+        self.insert(Name(b"PC")).start()
     }
 
     /// Start writing the `/PV` dictionary. This sets the action action that
-- 
2.43.0


From b51cc0a6221faa6f81e142be406cb7a54846fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 3/9] fix: write the /AppearanceFilter key in
 SignatureSeedValue::appearance_filter

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index 6726fc7..e3357a4 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -726,7 +726,7 @@ impl SignatureSeedValue<'_> {
     /// the appearance must be available and used to sign the document.
     /// PDF 2.0+.
     pub fn appearance_filter(&mut self, signature_appearance: TextStr<'_>) -> &mut Self {
-        self.pair(Name(b"LockDocument"), signature_appearance);
+        self.pair(Name(b"AppearanceFilter"), signature_appearance);
         self
     }
 }
-- 
2.43.0


From b68eb1581d947d69fad15afdd6c5553b9ea2f45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 4/9] fix: write the /SignaturePolicyCommitmentType key in
 CertificateSeedValue

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index e3357a4..64b876a 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -998,7 +998,7 @@ impl CertificateSeedValue<'_> {
         &mut self,
         commitment_types: impl IntoIterator<Item = Str<'b>>,
     ) -> &mut Self {
-        self.insert(Name(b"SignaturePolicyHashAlgorithm"))
+        self.insert(Name(b"SignaturePolicyCommitmentType"))
             .array()
             .items(commitment_types);
         self
-- 
2.43.0


From 3e187d5cecf82b73403588bf00ac6f3e5ab46d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 5/9] fix: map StructRole::RP to StructRole2::RP

---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 535eb44..85992fc 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -973,7 +973,7 @@ impl StructRole {
             Self::Warichu => Some(StructRole2::Warichu),
             Self::RB => Some(StructRole2::RB),
             Self::RT => Some(StructRole2::RT),
-            Self::RP => Some(StructRole2::WP),
+            Self::RP => Some(StructRole2::RP),
             Self::WT => Some(StructRole2::WT),
             Self::WP => Some(StructRole2::WP),
             Self::Figure => Some(StructRole2::Figure),
-- 
2.43.0


From 3c1bc0adfd4880ccb081204f3d11ef0339df3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 6/9] fix: do not overflow when registering i32::MIN in the
 limits

---
 src/buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buf.rs b/src/buf.rs
index f6f69f0..b389ba3 100644
--- a/src/buf.rs
+++ b/src/buf.rs
@@ -192,7 +192,7 @@ impl Limits {
     }
 
     pub(crate) fn register_int(&mut self, val: i32) {
-        self.int = self.int.max(val.abs());
+        self.int = self.int.max(val.saturating_abs());
     }
 
     pub(crate) fn register_real(&mut self, val: f32) {
-- 
2.43.0


From 5c1079f7fdf4e61802c29f4a72172d00579f04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 7/9] fix: make the xref stream field wide enough for free
 object numbers

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ffa495e..6e8f38b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -379,7 +379,11 @@ impl Pdf {
         // Include the reference of the xref stream in the offsets as well!
         let xref_offset = buf.len();
         offsets.push((xref_id, xref_offset));
-        let field_width = determine_field_width(xref_offset);
+
+        // The field holds byte offsets, but also the object numbers which link
+        // the free list.
+        let max_id = offsets.iter().map(|p| p.0.get()).max().unwrap_or(0);
+        let field_width = determine_field_width(xref_offset.max(max_id as usize));
 
         let mut writer = XRefStreamWriter::new(field_width);
         let xref_len = write_offsets(offsets, &mut writer);
-- 
2.43.0


From 32fa10d087903dfca54bbb0aa8fce1b212f322f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 8/9] fix: separate an empty name from the token that follows
 it

---
 src/content.rs | 8 ++++++--
 src/object.rs  | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 36224fc..b30474b 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -148,9 +148,13 @@ impl Drop for Operation<'_> {
         let pad_byte = if self.first { b'\n' } else { b' ' };
 
         // For example, in case we previously wrote a BT operator and then a
-        // `[]` operand in the next operation, we don't need to pad them.
+        // `[]` operand in the next operation, we don't need to pad them. A
+        // trailing slash is an empty name and always needs padding.
         if (self.settings.pretty
-            || self.buf.last().is_some_and(|b| !is_delimiter_character(*b)))
+            || self
+                .buf
+                .last()
+                .is_some_and(|b| *b == b'/' || !is_delimiter_character(*b)))
             && !self.buf.is_empty()
         {
             self.buf.push(pad_byte);
diff --git a/src/object.rs b/src/object.rs
index a16146f..b25c07f 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -689,10 +689,13 @@ impl<'a> Obj<'a> {
         //
         // Therefore, if either the previous byte is a delimiter character or
         // the current token starts with one, we don't need to add a whitespace
-        // for padding.
+        // for padding. The exception is a trailing slash: It is an empty name,
+        // which would merge with the current token.
 
-        let ends_with_delimiter =
-            self.buf.last().copied().is_some_and(is_delimiter_character);
+        let ends_with_delimiter = self
+            .buf
+            .last()
+            .is_some_and(|b| *b != b'/' && is_delimiter_character(*b));
 
         if self.needs_padding && !T::STARTS_WITH_DELIMITER && !ends_with_delimiter {
             self.buf.extend(b" ");
-- 
2.43.0


From f47bc1191056532b92c851de74d63854a0bb546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 9/9] fix: register the length of date strings in the limits

---
 src/object.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/object.rs b/src/object.rs
index b25c07f..eac079c 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -604,6 +604,7 @@ impl Sealed for Date {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
+        let start = buf.len();
         buf.extend(b"(D:");
 
         (|| {
@@ -628,6 +629,7 @@ impl Sealed for Date {
         })();
 
         buf.push(b')');
+        buf.limits.register_str_len(buf.len() - start - 2);
     }
 }
 
-- 
2.43.0

