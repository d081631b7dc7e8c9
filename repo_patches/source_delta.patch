From ada58d486d769009d13d61b492b561529b4707df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 1/9] fix: keep every error when chaining onto an error that is
 already a chain

---
 src/error.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 75168e0..d61adcc 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -234,7 +234,13 @@ impl Error {
     /// assert_eq!(unchained, vec!["1", "2", "3"]);
     /// ```
     pub fn chain(self, mut error: Error) -> Self {
-        error.prev = Some(Box::new(self));
+        // `error` may already be a chain: keep all of it by going to its end.
+        let mut prev = &mut error.prev;
+        while let Some(e) = prev {
+            prev = &mut e.prev;
+        }
+
+        *prev = Some(Box::new(self));
         error
     }
 
-- 
2.43.0


From e26b2a4b522de7aac9c22b46872bc4915233fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 2/9] fix: attribute every error in the chain a provider
 returns to that provider

---
 src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d61adcc..e8a1d95 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -147,8 +147,13 @@ impl Error {
     }
 
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
-        if self.tag.is_default() {
-            self.tag = tag;
+        let mut error = Some(&mut self);
+        while let Some(e) = error {
+            if e.tag.is_default() {
+                e.tag = tag;
+            }
+
+            error = e.prev.as_deref_mut();
         }
 
         self
-- 
2.43.0


From c72a507f902c74feda2f40a74773a294f4cf843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 3/9] fix: extraction of an inner value reports the full path
 of a nested failure

---
 src/error.rs   | 7 +++++++
 src/figment.rs | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index e8a1d95..e061f4b 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -146,6 +146,13 @@ impl Error {
         self
     }
 
+    /// Prefixes the components of `path`, the path of the value being processed
+    /// when `self` occurred.
+    pub(crate) fn prefixed_path(self, path: &str) -> Self {
+        let keys: Vec<_> = path.split('.').take_while(|k| !k.is_empty()).collect();
+        keys.into_iter().rev().fold(self, |e, key| e.prefixed(key))
+    }
+
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
         let mut error = Some(&mut self);
         while let Some(e) = error {
diff --git a/src/figment.rs b/src/figment.rs
index 76d0277..9ae4f52 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -569,7 +569,7 @@ impl Figment {
     pub fn extract_inner<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.prefixed_path(path))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -603,7 +603,7 @@ impl Figment {
     pub fn extract_inner_lossy<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.prefixed_path(path))
     }
 
     /// Returns an iterator over the metadata for all of the collected values in
-- 
2.43.0


From 5a30228a2a6769910c6afc8431765b4588920f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 4/9] fix: attribute a custom error on an inner value to that
 value's provider

---
 src/figment.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/figment.rs b/src/figment.rs
index 9ae4f52..a6633e7 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -569,7 +569,8 @@ impl Figment {
     pub fn extract_inner<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.prefixed_path(path))
+        T::deserialize(de)
+            .map_err(|e| e.prefixed_path(path).retagged(value.tag()).resolved(self))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -603,7 +604,8 @@ impl Figment {
     pub fn extract_inner_lossy<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.prefixed_path(path))
+        T::deserialize(de)
+            .map_err(|e| e.prefixed_path(path).retagged(value.tag()).resolved(self))
     }
 
     /// Returns an iterator over the metadata for all of the collected values in
-- 
2.43.0


From d57aca987bd6b8587fc33c8727c54379e8385af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 5/9] fix: attribute a custom error on an array element to that
 element's provider

---
 src/value/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b4ceb6f..87cca3c 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -248,7 +248,7 @@ impl<'v, 'de, D, F> de::SeqAccess<'de> for SeqDe<'v, D, F>
             // item.map_tag(|metadata| metadata.path.push(self.count.to_string()));
             self.len -= 1;
             seed.deserialize((self.make_deserializer)(item))
-                .map_err(|e: Error| e.prefixed(&i.to_string()))
+                .map_err(|e: Error| e.prefixed(&i.to_string()).retagged(item.tag()))
                 .map(Some)
         } else {
             Ok(None)
-- 
2.43.0


From 122ccd7f35b087d1ad9c68e427a22f92a7722fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 6/9] fix: keep an Env provider's lowercase setting when adding
 a filter or map

---
 src/providers/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/providers/env.rs b/src/providers/env.rs
index 64c8965..4005dd6 100644
--- a/src/providers/env.rs
+++ b/src/providers/env.rs
@@ -136,7 +136,7 @@ impl Env {
             filter_map: Box::new(move |key| f(filter_map(key))),
             profile: self.profile,
             prefix: self.prefix,
-            lowercase: true,
+            lowercase: self.lowercase,
         }
     }
 
-- 
2.43.0


From cf6a4ccd96716c24837c2b20cef50572123eb5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 7/9] fix: a jail given an invalid variable no longer aborts
 the process when it ends

---
 src/jail.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jail.rs b/src/jail.rs
index 4dea3ba..ed73387 100644
--- a/src/jail.rs
+++ b/src/jail.rs
@@ -2,7 +2,7 @@ use std::fs::{File, self};
 use std::io::{Write, BufWriter};
 use std::path::{Path, PathBuf};
 use std::fmt::Display;
-use std::ffi::{OsStr, OsString};
+use std::ffi::OsString;
 use std::collections::HashMap;
 
 use tempfile::TempDir;
@@ -344,11 +344,12 @@ impl Jail {
     /// ```
     pub fn set_env<K: AsRef<str>, V: Display>(&mut self, k: K, v: V) {
         let key = k.as_ref();
-        if !self.saved_env_vars.contains_key(OsStr::new(key)) {
-            self.saved_env_vars.insert(key.into(), std::env::var_os(key));
-        }
+        let saved = std::env::var_os(key);
 
+        // This panics if the name or value is invalid. Only save the variable
+        // once it is known not to, or restoring it would panic while dropping.
         std::env::set_var(key, v.to_string());
+        self.saved_env_vars.entry(key.into()).or_insert(saved);
     }
 }
 
-- 
2.43.0


From 594d15b6276130c3b6a9b9e1143ced9005e80c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 8/9] fix: keep the internal fields of magic values out of
 error paths

---
 src/error.rs    | 10 ++++++++++
 src/value/de.rs |  9 ++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index e061f4b..c69d980 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -146,6 +146,16 @@ impl Error {
         self
     }
 
+    /// Removes the first key of the path if it is one of `keys`: the fields of
+    /// a magic value, which are not part of the configuration.
+    pub(crate) fn unprefixed(mut self, keys: &[&str]) -> Self {
+        if self.path.first().map_or(false, |k| keys.contains(&k.as_str())) {
+            self.path.remove(0);
+        }
+
+        self
+    }
+
     /// Prefixes the components of `path`, the path of the value being processed
     /// when `self` occurred.
     pub(crate) fn prefixed_path(self, path: &str) -> Self {
diff --git a/src/value/de.rs b/src/value/de.rs
index 87cca3c..42d0884 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -112,9 +112,12 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
 
         let (config, tag) = (self.config, self.value.tag());
         let result = match name {
-            Value::NAME => Value::deserialize_from(self, visitor),
-            RelativePathBuf::NAME => RelativePathBuf::deserialize_from(self, visitor),
-            Tagged::<()>::NAME => Tagged::<()>::deserialize_from(self, visitor),
+            Value::NAME => Value::deserialize_from(self, visitor)
+                .map_err(|e| e.unprefixed(Value::FIELDS)),
+            RelativePathBuf::NAME => RelativePathBuf::deserialize_from(self, visitor)
+                .map_err(|e| e.unprefixed(RelativePathBuf::FIELDS)),
+            Tagged::<()>::NAME => Tagged::<()>::deserialize_from(self, visitor)
+                .map_err(|e| e.unprefixed(Tagged::<()>::FIELDS)),
             // SelectedProfile::NAME => SelectedProfile::deserialize_from(self, visitor),
             _ => self.deserialize_any(visitor)
         };
-- 
2.43.0


From 1fbcf06e41bd8c0c792e7e477e1d4d130a1d0dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 9/9] fix: the source recorded for a file provider is the file
 its data was read from

---
 src/figment.rs        |  6 +++---
 src/provider.rs       | 12 ++++++++++++
 src/providers/data.rs | 42 ++++++++++++++++++++++++++++++++----------
 3 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/figment.rs b/src/figment.rs
index a6633e7..cfa6291 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -148,12 +148,12 @@ impl Figment {
             self.profile = self.profile.coalesce(profile, order);
         }
 
-        let mut metadata = provider.metadata();
+        let tag = Tag::next();
+        let (mut metadata, data) = provider.__provide();
         metadata.provide_location = Some(Location::caller());
 
-        let tag = Tag::next();
         self.metadata.insert(tag, metadata);
-        self.value = match (provider.data(), self.value) {
+        self.value = match (data, self.value) {
             (Ok(_), e@Err(_)) => e,
             (Err(e), Ok(_)) => Err(e.retagged(tag)),
             (Err(e), Err(prev)) => Err(e.retagged(tag).chain(prev)),
diff --git a/src/provider.rs b/src/provider.rs
index a73aa91..333761a 100644
--- a/src/provider.rs
+++ b/src/provider.rs
@@ -99,6 +99,13 @@ pub trait Provider {
     /// you have a good usecase for this, let me know!
     #[doc(hidden)]
     fn __metadata_map(&self) -> Option<Map<Tag, Metadata>> { None }
+
+    /// The metadata and the data at one moment: where the former depends on
+    /// the latter's source, they agree on what that source is.
+    #[doc(hidden)]
+    fn __provide(&self) -> (Metadata, Result<Map<Profile, Dict>, Error>) {
+        (self.metadata(), self.data())
+    }
 }
 
 /// This is exactly `<T as Provider>`.
@@ -115,6 +122,11 @@ impl<T: Provider> Provider for &T {
     fn __metadata_map(&self) -> Option<Map<Tag, Metadata>> {
         T::__metadata_map(self)
     }
+
+    #[doc(hidden)]
+    fn __provide(&self) -> (Metadata, Result<Map<Profile, Dict>, Error>) {
+        T::__provide(self)
+    }
 }
 
 /// This is exactly equivalent to [`Serialized::global(K, V)`].
diff --git a/src/providers/data.rs b/src/providers/data.rs
index d135de8..f87b3a6 100644
--- a/src/providers/data.rs
+++ b/src/providers/data.rs
@@ -354,26 +354,33 @@ impl<F: Format> Data<F> {
     }
 }
 
-impl<F: Format> Provider for Data<F> {
-    fn metadata(&self) -> Metadata {
+impl<F: Format> Data<F> {
+    /// Locates the source file, if the source is a file and there is one.
+    fn locate(&self) -> Option<PathBuf> {
+        match &self.source {
+            Source::String(_) => None,
+            Source::File { path, search, required: _ } => Self::resolve(path, *search),
+        }
+    }
+
+    fn metadata_of(&self, file: Option<&Path>) -> Metadata {
         use Source::*;
         match &self.source {
             String(_) => Metadata::named(format!("{} source string", F::NAME)),
-            File { path, search, required: _ } => {
-                let path = Self::resolve(path, *search).unwrap_or_else(|| path.clone());
-                Metadata::from(format!("{} file", F::NAME), path.as_path())
+            File { path, .. } => {
+                Metadata::from(format!("{} file", F::NAME), file.unwrap_or(path))
             }
         }
     }
 
-    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
+    fn data_of(&self, file: Option<&Path>) -> Result<Map<Profile, Dict>, Error> {
         use Source as S;
         let map: Result<Map<Profile, Dict>, _> = match (&self.source, &self.profile) {
-            (S::File { path, required, search }, profile) => {
-                match Self::resolve(path, *search) {
+            (S::File { path, required, .. }, profile) => {
+                match file {
                     Some(path) => match profile {
-                        Some(prof) => F::from_path(&path).map(|v| prof.collect(v)),
-                        None => F::from_path(&path),
+                        Some(prof) => F::from_path(path).map(|v| prof.collect(v)),
+                        None => F::from_path(path),
                     },
                     None if !required => Ok(Map::new()),
                     None => {
@@ -390,6 +397,21 @@ impl<F: Format> Provider for Data<F> {
     }
 }
 
+impl<F: Format> Provider for Data<F> {
+    fn metadata(&self) -> Metadata {
+        self.metadata_of(self.locate().as_deref())
+    }
+
+    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
+        self.data_of(self.locate().as_deref())
+    }
+
+    fn __provide(&self) -> (Metadata, Result<Map<Profile, Dict>, Error>) {
+        let file = self.locate();
+        (self.metadata_of(file.as_deref()), self.data_of(file.as_deref()))
+    }
+}
+
 /// Trait implementable by text-based [`Data`] format providers.
 ///
 /// Instead of implementing [`Provider`] directly, types that refer to data
-- 
2.43.0

