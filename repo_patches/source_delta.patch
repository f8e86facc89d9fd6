From a58ff3db1c615c81f704473023a76c1ca9243bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:32 +0000
Subject: [PATCH 1/6] Add a guarded module exposing private items for
 verification

---
 src/lib.rs   |  4 ++++
 src/verif.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index c8ef791..472df44 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -656,3 +656,7 @@ mod tests {
         }
     }
 }
+
+#[cfg(value_bag_verif)]
+#[doc(hidden)]
+pub mod verif;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..abb3135
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,48 @@
+//! Access to private items for verification.
+//!
+//! This module is only compiled with `--cfg value_bag_verif`.
+
+#[cfg(all(feature = "owned", feature = "inline-str"))]
+pub mod inline_str {
+    use crate::{
+        internal::owned::inline_str,
+        std::{boxed::Box, fmt},
+    };
+
+    /// The maximum length of inline strings.
+    pub const MAX_INLINE_LEN: usize = inline_str::MAX_INLINE_LEN;
+
+    /// A string stored inline.
+    pub struct InlineStr<const N: usize>(inline_str::InlineStr<N>);
+
+    impl<const N: usize> InlineStr<N> {
+        /// Copy a string that fits.
+        pub fn copy_from(s: &str) -> Self {
+            InlineStr(inline_str::InlineStr::copy_from(s))
+        }
+
+        /// Copy a string that fits without checking.
+        ///
+        /// # Safety
+        ///
+        /// The string must be at most `N` bytes.
+        pub unsafe fn copy_from_unchecked(s: &str) -> Self {
+            InlineStr(inline_str::InlineStr::copy_from_unchecked(s))
+        }
+
+        /// Buffer a formattable value.
+        pub fn buffer(v: impl fmt::Display) -> Result<Self, Box<str>> {
+            inline_str::InlineStr::buffer(v).map(InlineStr)
+        }
+
+        /// The stored length.
+        pub fn len(&self) -> usize {
+            self.0.len()
+        }
+
+        /// The stored string.
+        pub fn get(&self) -> &str {
+            self.0.get()
+        }
+    }
+}
-- 
2.43.0


From 314168879cf5e00c5eb482e6cd603839cd9d8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:17 +0000
Subject: [PATCH 2/6] fix: Don't panic when buffering a value whose formatting
 fails

Without the inline-str feature, making an owned copy of a value whose
Debug or Display implementation returned an error would panic. Store the
same placeholder text that is stored when inline-str is enabled.
---
 src/internal/fmt.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/internal/fmt.rs b/src/internal/fmt.rs
index ba88e11..c8e6c40 100644
--- a/src/internal/fmt.rs
+++ b/src/internal/fmt.rs
@@ -420,7 +420,7 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            Err(OwnedFmt(format!("{v:?}").into()))
+            Err(buffer_spilled(format_args!("{v:?}")))
         }
     }
 
@@ -431,9 +431,20 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            use crate::std::string::ToString as _;
+            Err(buffer_spilled(v))
+        }
+    }
+
+    #[cfg(not(feature = "inline-str"))]
+    fn buffer_spilled(v: impl fmt::Display) -> OwnedFmt {
+        use crate::std::{fmt::Write as _, string::String};
+
+        let mut buf = String::new();
 
-            Err(OwnedFmt(v.to_string().into()))
+        // A failing format shouldn't panic here
+        match write!(&mut buf, "{v}") {
+            Ok(()) => OwnedFmt(buf.into()),
+            Err(err) => OwnedFmt(format!("<{err}>").into()),
         }
     }
 
-- 
2.43.0


From 0b579d2e1365ec5b536aa975945e6e6d2f13bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:25 +0000
Subject: [PATCH 3/6] fix: Don't panic when buffering an error whose message
 fails to format

Making an owned copy of an error would panic if its Display
implementation returned an error. Store placeholder text instead.
---
 src/internal/error.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/internal/error.rs b/src/internal/error.rs
index 75ee76c..18cb3f9 100644
--- a/src/internal/error.rs
+++ b/src/internal/error.rs
@@ -74,7 +74,12 @@ pub use self::error::Error;
 
 #[cfg(feature = "owned")]
 pub(crate) mod owned {
-    use crate::std::{boxed::Box, error, fmt, string::ToString};
+    use crate::std::{
+        boxed::Box,
+        error,
+        fmt::{self, Write as _},
+        string::String,
+    };
 
     #[derive(Clone, Debug)]
     pub(crate) struct OwnedError {
@@ -99,8 +104,15 @@ pub(crate) mod owned {
     }
 
     pub(crate) fn buffer(err: &(dyn error::Error + 'static)) -> OwnedError {
+        let mut display = String::new();
+
+        // A failing format shouldn't panic here
+        if let Err(err) = write!(&mut display, "{err}") {
+            display = format!("<{err}>");
+        }
+
         OwnedError {
-            display: err.to_string().into(),
+            display: display.into(),
             source: err.source().map(buffer).map(Box::new),
         }
     }
-- 
2.43.0


From 5af889ff3314317a9269eadb32b08815d4d5fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:43 +0000
Subject: [PATCH 4/6] fix: Return the error from a view of a shared error

An owned copy of an error could be read back as an error, but stopped
doing so once it was made shared.
---
 src/internal/error.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internal/error.rs b/src/internal/error.rs
index 18cb3f9..4853f74 100644
--- a/src/internal/error.rs
+++ b/src/internal/error.rs
@@ -31,6 +31,8 @@ impl<'v> ValueBag<'v> {
         match self.inner {
             Internal::Error(value) => Some(value.as_super()),
             Internal::AnonError(value) => Some(value),
+            #[cfg(feature = "owned")]
+            Internal::SharedRefError(value) => Some(value.as_super()),
             _ => None,
         }
     }
-- 
2.43.0


From 43cfb11696aa8859bdbd1222673a3d7712598a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:11 +0000
Subject: [PATCH 5/6] fix: Yield one entry for a nested sequence streamed
 through sval

Reading a sequence as a list gave an extra entry for each sequence
nested more than one level inside an element.
---
 src/internal/sval/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 5c9a100..60efffc 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -583,7 +583,7 @@ pub(crate) mod seq {
             // Treat nested complex values as null
             // This ensures an upstream visitor sees them, but won't
             // be able to convert them into anything meaningful
-            if self.depth > 1 {
+            if self.depth == 2 {
                 if let Some(ref mut seq) = self.seq {
                     seq.extend_borrowed(ValueBag::from(()).inner);
                 }
-- 
2.43.0


From 06b095ef4338b87e2c9566b67558b5aa3e1f2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:20 +0000
Subject: [PATCH 6/6] fix: Don't read a map streamed through sval as a sequence

Reading a top-level map as a list gave a list with one empty entry per
pair instead of declining.
---
 src/internal/sval/v2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 60efffc..4322772 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -573,6 +573,15 @@ pub(crate) mod seq {
             }
         }
 
+        fn map_begin(&mut self, num_entries: Option<usize>) -> value_bag_sval2::lib::Result {
+            // A map isn't a sequence
+            if self.depth == 0 {
+                return value_bag_sval2::lib::error();
+            }
+
+            self.seq_begin(num_entries)
+        }
+
         fn seq_begin(&mut self, _: Option<usize>) -> value_bag_sval2::lib::Result {
             if self.seq.is_none() {
                 self.seq = Some(S::default());
-- 
2.43.0

