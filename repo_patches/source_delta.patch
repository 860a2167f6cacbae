From ee3cc3fccedbaadcedcf3c2c8e3e21877436706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 1/6] fix: never list unknown builders as leafs

Invalidating (or mutably looking up) a builder which is not known, or purging
one, left its id in known_leaf_builder. The next garbage collection then
panicked when it looked for the weak reference of that builder.
---
 src/cache/internal.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index f117c85..ecdf954 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -744,6 +744,7 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 		// Remove weak reference of builder since we will remove all references
 		// to it
 		self.known_builders.remove(&bid);
+		self.known_leaf_builder.remove(&bid);
 
 		// Purge artifact & dyn state
 		self.artifacts.remove(&bid);
@@ -835,8 +836,10 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			}
 
 			// bid it self has been invalidated, means it has no more dependents, and thus it is a
-			// leaf now!
-			self.known_leaf_builder.insert(bid);
+			// leaf now! Except, when it is not known (any more), only known builder can be leafs.
+			if self.is_builder_known_by_id(bid) {
+				self.known_leaf_builder.insert(bid);
+			}
 
 			self.artifacts.remove(&bid);
 
@@ -854,8 +857,10 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			}
 		}
 
-		// Now, `builder` has no more depenencies, i.e. it is a leaf
-		self.known_leaf_builder.insert(*builder);
+		// Now, `builder` has no more depenencies, i.e. it is a leaf, provided that it is known
+		if self.is_builder_known_by_id(*builder) {
+			self.known_leaf_builder.insert(*builder);
+		}
 	}
 
 	/// Removes the given promise with its cached artifact from the cache and
-- 
2.43.0


From 351e7a1eef887778cc5a8d55261099d3abc1bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 2/6] fix: keep dependents mapping while invalidating the
 dependents

lookup_mut and get_mut panicked for every artifact with dependents, because the
mapping required to invalidate the dependents had already been removed.
---
 src/cache/internal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index ecdf954..d3f666a 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -851,7 +851,9 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 	/// `BuilderId`, only invalidates dependents not the given build itself.
 	///
 	fn invalidate_dependents(&mut self, builder: &BuilderId) {
-		if let Some(set) = self.dependents.remove(builder) {
+		// Notice, the mapping of `builder` must be kept for now, because invalidating its dependents
+		// requires their counterpart mapping and removes them from it.
+		if let Some(set) = self.dependents.get(builder).cloned() {
 			for dep in set {
 				self.invalidate_by_id(&dep);
 			}
-- 
2.43.0


From efa883e9b6e929e9944156baf813eb3a23f11355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 3/6] fix: collect whole chains of unreachable builders at once

A garbage collection only removed unreachable builders which were leafs before
it, so their then unreachable dependencies stayed in the cache.
---
 src/cache/internal.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index d3f666a..1f765fb 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -890,6 +890,16 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 	///
 	pub(crate) fn garbage_collection(&mut self) {
 
+		// Removing a builder might turn its dependencies into leafs, or drop
+		// the last reference to some other builder. Thus repeat it until there
+		// are no more unreachable leafs.
+		while self.collect_unreachable_leafs() {}
+	}
+
+	/// Removes all unreachable leaf builders and returns whether there were any.
+	///
+	fn collect_unreachable_leafs(&mut self) -> bool {
+
 		// Just checking there is programming flaw here, it's really not relevant for run time.
 		debug_assert!(
 			// Check invarinant. All known builders are either leaf builders or have at least one
@@ -909,12 +919,16 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			.copied()
 			.collect();
 
+		let found_any = !unreachable_builder_ids.is_empty();
+
 		for bid in unreachable_builder_ids {
 			self.invalidate_by_id(&bid);
 			self.dyn_states.remove(&bid);
 			self.known_builders.remove(&bid);
 			self.known_leaf_builder.remove(&bid);
 		}
+
+		found_any
 	}
 
 	/// Enlist given builder as known builder, that is to keep its weak
-- 
2.43.0


From 2e0384c50c43996011a009fe74e13f5dfd877f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 4/6] fix: end the invalidation record of TextualDoc with a
 line break

The next record was written onto the same line.
---
 src/diagnostics/textual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diagnostics/textual.rs b/src/diagnostics/textual.rs
index 9265f75..0f7c818 100644
--- a/src/diagnostics/textual.rs
+++ b/src/diagnostics/textual.rs
@@ -278,13 +278,13 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for TextualDoc<W> {
 		
 		let bs = self.builder_str(builder);
 		if self.opts.show_addresses {
-			write!(self.output(),
+			writeln!(self.output(),
 				"[{:p}] {}",
 				builder.id(),
 				bs,
 			).unwrap();
 		} else {
-			write!(self.output(),
+			writeln!(self.output(),
 				"{}",
 				bs,
 			).unwrap();
-- 
2.43.0


From e96f29578ff903c60fb7bfd0221271fedc1025a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 5/6] fix: escape artifact names and values in the output of
 VisgraphDoc

Quotes and backslashes (e.g. any string artifact) made the graph malformed.
---
 src/diagnostics/visgraph.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/diagnostics/visgraph.rs b/src/diagnostics/visgraph.rs
index 91fc1d3..77852ca 100644
--- a/src/diagnostics/visgraph.rs
+++ b/src/diagnostics/visgraph.rs
@@ -105,6 +105,12 @@ pub struct VisgraphDoc<W: Write> {
 	count: (u64, u64),
 }
 
+/// Escapes given text for the use within a quoted DOT string.
+///
+fn escape(text: &str) -> String {
+	text.replace('\\', "\\\\").replace('"', "\\\"")
+}
+
 impl<W: Write> VisgraphDoc<W> {
 	/// Creates a new Visgraph Doctor
 	///
@@ -194,7 +200,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 		let s = if self.opts.show_artifact_values {
 			format!(" :\n{}", artifact.dbg_text)
 		} else {
-			"".into()
+			String::new()
 		};
 		
 		writeln!(self.output(),
@@ -202,8 +208,8 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			count.0,
 			count.1,
 			artifact.value.can_as_ptr(),
-			artifact.type_name,
-			s
+			escape(artifact.type_name),
+			escape(&s)
 		).unwrap();
 			
 		writeln!(self.output(),
-- 
2.43.0


From 957e3a043e959f814bc6827f5081750b09262c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 6/6] fix: print artifact addresses as plain addresses in the
 doctors

The debug format of wide pointers contains more than the address by now.
---
 src/diagnostics/textual.rs  | 2 +-
 src/diagnostics/visgraph.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diagnostics/textual.rs b/src/diagnostics/textual.rs
index 0f7c818..65ee7b6 100644
--- a/src/diagnostics/textual.rs
+++ b/src/diagnostics/textual.rs
@@ -225,7 +225,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for TextualDoc<W> {
 				count.1,
 				builder.id(),
 				bs,
-				artifact.value.can_as_ptr(),
+				artifact.value.can_as_ptr() as *const (),
 			).unwrap();
 		} else {
 			write!(self.output(),
diff --git a/src/diagnostics/visgraph.rs b/src/diagnostics/visgraph.rs
index 77852ca..67e2206 100644
--- a/src/diagnostics/visgraph.rs
+++ b/src/diagnostics/visgraph.rs
@@ -207,7 +207,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			r##"  "{0}.{1}-{2:p}" [label = "#{0}.{1} {3}{4}", shape = box]"##,
 			count.0,
 			count.1,
-			artifact.value.can_as_ptr(),
+			artifact.value.can_as_ptr() as *const (),
 			escape(artifact.type_name),
 			escape(&s)
 		).unwrap();
@@ -217,7 +217,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			builder.id(),
 			count.0,
 			count.1,
-			artifact.value.can_as_ptr()
+			artifact.value.can_as_ptr() as *const ()
 		).unwrap();
 		
 		self.output().flush().unwrap();
-- 
2.43.0

