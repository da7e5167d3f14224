From 1252b8ab717ee49e27d69a98c32b8500013355e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 1/6] fix: keep unknown builders out of the leaf list, so that
 garbage_collection does not panic after purge

---
 src/cache/internal.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index f117c85..a02717b 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -744,6 +744,7 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 		// Remove weak reference of builder since we will remove all references
 		// to it
 		self.known_builders.remove(&bid);
+		self.known_leaf_builder.remove(&bid);
 
 		// Purge artifact & dyn state
 		self.artifacts.remove(&bid);
@@ -835,8 +836,10 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			}
 
 			// bid it self has been invalidated, means it has no more dependents, and thus it is a
-			// leaf now!
-			self.known_leaf_builder.insert(bid);
+			// leaf now! Unless it is not known at all (never used or just purged).
+			if self.is_builder_known_by_id(bid) {
+				self.known_leaf_builder.insert(bid);
+			}
 
 			self.artifacts.remove(&bid);
 
@@ -854,8 +857,10 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			}
 		}
 
-		// Now, `builder` has no more depenencies, i.e. it is a leaf
-		self.known_leaf_builder.insert(*builder);
+		// Now, `builder` has no more depenencies, i.e. it is a leaf, if it is known at all
+		if self.is_builder_known_by_id(*builder) {
+			self.known_leaf_builder.insert(*builder);
+		}
 	}
 
 	/// Removes the given promise with its cached artifact from the cache and
-- 
2.43.0


From 2598c98755e64cbe5093631cba8beca263f9c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 2/6] fix: get_mut and lookup_mut panicked for artifacts with
 dependents

---
 src/cache/internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index a02717b..14f84d3 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -851,7 +851,8 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 	/// `BuilderId`, only invalidates dependents not the given build itself.
 	///
 	fn invalidate_dependents(&mut self, builder: &BuilderId) {
-		if let Some(set) = self.dependents.remove(builder) {
+		// Keep the mapping in place, since `invalidate_by_id` relies on it.
+		if let Some(set) = self.dependents.get(builder).cloned() {
 			for dep in set {
 				self.invalidate_by_id(&dep);
 			}
-- 
2.43.0


From 1e46b2708e58d601f67628ec7eebeb63b96b19e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 3/6] fix: garbage_collection removes all unreachable builders,
 not only the leafs among them

---
 src/cache/internal.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index 14f84d3..a3997ff 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -900,6 +900,16 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 				.all(|bid| !self.dependents[bid].is_empty())
 		);
 
+		// Removing a builder may turn its dependencies into leafs, or even make
+		// them unreachable, so continue until there is nothing left to remove.
+		while self.collect_leaf_builders() {}
+	}
+
+	/// Removes all those leaf builders which became unreachable, and returns
+	/// whether there were any.
+	///
+	fn collect_leaf_builders(&mut self) -> bool {
+
 		// Only check the leaf builders
 		let unreachable_builder_ids: Vec<_> = self.known_leaf_builder.iter()
 			// Only retain those which can't be upgraded (i.e. no strong
@@ -908,12 +918,16 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			.copied()
 			.collect();
 
+		let found = !unreachable_builder_ids.is_empty();
+
 		for bid in unreachable_builder_ids {
 			self.invalidate_by_id(&bid);
 			self.dyn_states.remove(&bid);
 			self.known_builders.remove(&bid);
 			self.known_leaf_builder.remove(&bid);
 		}
+
+		found
 	}
 
 	/// Enlist given builder as known builder, that is to keep its weak
-- 
2.43.0


From d0d3758ecdc3de0288b00793a8058aca1143c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 4/6] fix: end the textual doctor's invalidation line with a
 line break

---
 src/diagnostics/textual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diagnostics/textual.rs b/src/diagnostics/textual.rs
index 9265f75..0f7c818 100644
--- a/src/diagnostics/textual.rs
+++ b/src/diagnostics/textual.rs
@@ -278,13 +278,13 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for TextualDoc<W> {
 		
 		let bs = self.builder_str(builder);
 		if self.opts.show_addresses {
-			write!(self.output(),
+			writeln!(self.output(),
 				"[{:p}] {}",
 				builder.id(),
 				bs,
 			).unwrap();
 		} else {
-			write!(self.output(),
+			writeln!(self.output(),
 				"{}",
 				bs,
 			).unwrap();
-- 
2.43.0


From 72e213c191d04ee73782dd1322105976073765df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:59 +0000
Subject: [PATCH 5/6] fix: escape artifact values in the graph doctor's labels

---
 src/diagnostics/visgraph.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/diagnostics/visgraph.rs b/src/diagnostics/visgraph.rs
index 91fc1d3..2f81f77 100644
--- a/src/diagnostics/visgraph.rs
+++ b/src/diagnostics/visgraph.rs
@@ -81,10 +81,7 @@ impl Default for VisgraphDocOptions {
 ///   "0x7faf30005090" [label = "alloc::rc::Rc<daab::test::BuilderLeaf>"]
 ///   "0x7faf30003960" -> "0x7faf30005090"
 ///   "0x7faf30005090" [label = "alloc::rc::Rc<daab::test::BuilderLeaf>"]
-///   "0.0-0x7faf30015710" [label = "#0.0 daab::test::Leaf :
-/// Leaf {
-///     id: 0,
-/// }", shape = box]
+///   "0.0-0x7faf30015710" [label = "#0.0 daab::test::Leaf :\nLeaf {\n    id: 0,\n}", shape = box]
 ///   "0x7faf30005090" -> "0.0-0x7faf30015710" [arrowhead = "none"]
 /// }
 /// ```
@@ -197,13 +194,15 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			"".into()
 		};
 		
+		// The values may contain quotes, which have to be escaped
+		let label = format!("#{}.{} {}{}", count.0, count.1, artifact.type_name, s);
+		
 		writeln!(self.output(),
-			r##"  "{0}.{1}-{2:p}" [label = "#{0}.{1} {3}{4}", shape = box]"##,
+			r#"  "{}.{}-{:p}" [label = {:?}, shape = box]"#,
 			count.0,
 			count.1,
 			artifact.value.can_as_ptr(),
-			artifact.type_name,
-			s
+			label
 		).unwrap();
 			
 		writeln!(self.output(),
-- 
2.43.0


From 622939c578d0ed695a7c0e1f872fe22bd227a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:59 +0000
Subject: [PATCH 6/6] fix: compare artifact handles by address only, not by
 vtable

---
 src/diagnostics/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diagnostics/mod.rs b/src/diagnostics/mod.rs
index b76735d..f8f5677 100644
--- a/src/diagnostics/mod.rs
+++ b/src/diagnostics/mod.rs
@@ -160,14 +160,16 @@ impl<ArtCan> ArtifactHandle<ArtCan> {
 
 impl<ArtCan> Hash for ArtifactHandle<ArtCan> where ArtCan: CanBase {
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		(self.value.can_as_ptr()).hash(state);
+		// Only the address, the vtable pointer is not unique for a type
+		(self.value.can_as_ptr() as *const ()).hash(state);
 	}
 }
 
 impl<ArtCan> PartialEq for ArtifactHandle<ArtCan> where ArtCan: CanBase {
 	fn eq(&self, other: &Self) -> bool {
-		(self.value.can_as_ptr())
-			.eq(&other.value.can_as_ptr())
+		// Only the address, the vtable pointer is not unique for a type
+		(self.value.can_as_ptr() as *const ())
+			.eq(&(other.value.can_as_ptr() as *const ()))
 	}
 }
 
-- 
2.43.0

