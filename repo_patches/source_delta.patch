From 8ca77d404c28f146181d6e01e107dd8305671dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 1/8] fix: forget purged and never known builders as leafs

purge() removed a builder's weak reference but left (or put) its id in the set
of known leafs, and invalidating a builder the cache never saw put its id there
too. The next garbage_collection() then panicked looking up that id.
---
 src/cache/internal.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index f117c85..ac4eeee 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -752,6 +752,9 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 		// Invalidate dependents
 		self.invalidate_by_id(&promise.id());
 
+		// The builder is no longer known, thus it is no known leaf either
+		self.known_leaf_builder.remove(&bid);
+
 		#[cfg(feature = "diagnostics")]
 		self.doctor.invalidate(&BuilderHandle::new(promise));
 	}
@@ -835,8 +838,10 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			}
 
 			// bid it self has been invalidated, means it has no more dependents, and thus it is a
-			// leaf now!
-			self.known_leaf_builder.insert(bid);
+			// leaf now! Unless it is not known at all, e.g. if it has never been used with this cache.
+			if self.is_builder_known_by_id(bid) {
+				self.known_leaf_builder.insert(bid);
+			}
 
 			self.artifacts.remove(&bid);
 
@@ -854,8 +859,10 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 			}
 		}
 
-		// Now, `builder` has no more depenencies, i.e. it is a leaf
-		self.known_leaf_builder.insert(*builder);
+		// Now, `builder` has no more depenencies, i.e. it is a leaf (if it is known at all)
+		if self.is_builder_known_by_id(*builder) {
+			self.known_leaf_builder.insert(*builder);
+		}
 	}
 
 	/// Removes the given promise with its cached artifact from the cache and
-- 
2.43.0


From a5ecfd1173c323ad8979a2fa233fe108af3434b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 2/8] fix: keep the dependents mapping while invalidating
 dependents

lookup_mut() and get_mut() of an artifact with dependents panicked, because the
dependents mapping was removed before the dependents, which unregister
themselves from it, were invalidated.
---
 src/cache/internal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index ac4eeee..f29b455 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -853,10 +853,14 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 	/// `BuilderId`, only invalidates dependents not the given build itself.
 	///
 	fn invalidate_dependents(&mut self, builder: &BuilderId) {
-		if let Some(set) = self.dependents.remove(builder) {
+		// Keep the mapping while invalidating, because each invalidated dependent
+		// unregisters itself from there.
+		if let Some(set) = self.dependents.get(builder).cloned() {
 			for dep in set {
 				self.invalidate_by_id(&dep);
 			}
+
+			self.dependents.remove(builder);
 		}
 
 		// Now, `builder` has no more depenencies, i.e. it is a leaf (if it is known at all)
-- 
2.43.0


From 6d18742d844c33226e6e74885e3288da3db94b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 3/8] fix: forget the dependencies of a failed build attempt on
 retry

The dependencies of an unsuccessful build were kept and merged into those of a
later attempt. So invalidating a builder dropped artifacts that were built
without using it, and garbage collection held on to builders which nothing
depends on any more.
---
 src/cache/internal.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/cache/internal.rs b/src/cache/internal.rs
index f29b455..3c0625d 100644
--- a/src/cache/internal.rs
+++ b/src/cache/internal.rs
@@ -443,6 +443,10 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 		// Ensure there is a DynState
 		self.ensure_dyn_state(promise);
 
+		// Forget what a previous but failed attempt resolved, only the
+		// dependencies of the following attempt are relevant
+		self.forget_dependencies(&promise.id());
+
 		// Create Resolver prerequisites
 		let ent = BuilderEntry::new(promise);
 		#[cfg(feature = "diagnostics")]
@@ -849,6 +853,25 @@ impl<ArtCan, BCan> RawCache<ArtCan, BCan>
 
 	}
 
+	/// Removes all dependency relations to the builders used by the given one.
+	///
+	/// Does not affect the dependents of the given builder.
+	///
+	fn forget_dependencies(&mut self, builder: &BuilderId) {
+		if let Some(set) = self.dependencies.remove(builder) {
+			for dep in set {
+				if let Some(users) = self.dependents.get_mut(&dep) {
+					users.remove(builder);
+
+					// Without any dependents left, `dep` became a leaf
+					if users.is_empty() {
+						self.known_leaf_builder.insert(dep);
+					}
+				}
+			}
+		}
+	}
+
 	/// Auxiliary invalidation function using an untyped (aka `dyn Any`)
 	/// `BuilderId`, only invalidates dependents not the given build itself.
 	///
-- 
2.43.0


From 2205aac104682e329bef4569a322e82ac6f0f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 4/8] fix: print plain addresses of artifacts in diagnostics

Formatting the fat pointer of a can prints its metadata too on recent Rust
versions. That broke the node names of VisgraphDoc and the addresses of
TextualDoc.
---
 src/diagnostics/textual.rs  | 2 +-
 src/diagnostics/visgraph.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diagnostics/textual.rs b/src/diagnostics/textual.rs
index 9265f75..10fcae7 100644
--- a/src/diagnostics/textual.rs
+++ b/src/diagnostics/textual.rs
@@ -225,7 +225,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for TextualDoc<W> {
 				count.1,
 				builder.id(),
 				bs,
-				artifact.value.can_as_ptr(),
+				artifact.value.can_as_ptr() as *const (),
 			).unwrap();
 		} else {
 			write!(self.output(),
diff --git a/src/diagnostics/visgraph.rs b/src/diagnostics/visgraph.rs
index 91fc1d3..4bd3ccb 100644
--- a/src/diagnostics/visgraph.rs
+++ b/src/diagnostics/visgraph.rs
@@ -201,7 +201,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			r##"  "{0}.{1}-{2:p}" [label = "#{0}.{1} {3}{4}", shape = box]"##,
 			count.0,
 			count.1,
-			artifact.value.can_as_ptr(),
+			artifact.value.can_as_ptr() as *const (),
 			artifact.type_name,
 			s
 		).unwrap();
@@ -211,7 +211,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			builder.id(),
 			count.0,
 			count.1,
-			artifact.value.can_as_ptr()
+			artifact.value.can_as_ptr() as *const ()
 		).unwrap();
 		
 		self.output().flush().unwrap();
-- 
2.43.0


From f138c6a5e32b8e662a5cca117d501f900fec7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 5/8] fix: escape artifact values in VisgraphDoc labels

A debug text with quotes or backslashes, such as that of any string, ended the
label prematurely and rendered the entire DOT output invalid.
---
 src/diagnostics/visgraph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diagnostics/visgraph.rs b/src/diagnostics/visgraph.rs
index 4bd3ccb..7438919 100644
--- a/src/diagnostics/visgraph.rs
+++ b/src/diagnostics/visgraph.rs
@@ -192,7 +192,12 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 		).unwrap();
 		
 		let s = if self.opts.show_artifact_values {
-			format!(" :\n{}", artifact.dbg_text)
+			// Escape for being used in a quoted DOT string
+			let text = artifact.dbg_text
+				.replace('\\', "\\\\")
+				.replace('"', "\\\"");
+
+			format!(" :\n{}", text)
 		} else {
 			"".into()
 		};
-- 
2.43.0


From 45d68ccc4282b1e01ed7666f7bbe5eb803540943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 6/8] fix: terminate the invalidation line of TextualDoc

The event following an invalidation was appended to the same line.
---
 src/diagnostics/textual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diagnostics/textual.rs b/src/diagnostics/textual.rs
index 10fcae7..65ee7b6 100644
--- a/src/diagnostics/textual.rs
+++ b/src/diagnostics/textual.rs
@@ -278,13 +278,13 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for TextualDoc<W> {
 		
 		let bs = self.builder_str(builder);
 		if self.opts.show_addresses {
-			write!(self.output(),
+			writeln!(self.output(),
 				"[{:p}] {}",
 				builder.id(),
 				bs,
 			).unwrap();
 		} else {
-			write!(self.output(),
+			writeln!(self.output(),
 				"{}",
 				bs,
 			).unwrap();
-- 
2.43.0


From 3d70c68fc8fa666d0c34f4d3fd051ff23e7bd9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 7/8] fix: label builders in VisgraphDoc with their actual text

The labels of builders were Rust string literals, whose escapes (such as
\t or \u{301}) are no DOT escapes. Builder texts and artifact type names
are escaped like artifact values now.
---
 src/diagnostics/visgraph.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/diagnostics/visgraph.rs b/src/diagnostics/visgraph.rs
index 7438919..1a7f009 100644
--- a/src/diagnostics/visgraph.rs
+++ b/src/diagnostics/visgraph.rs
@@ -129,6 +129,12 @@ impl<W: Write> VisgraphDoc<W> {
 		}
 	}
 	
+	/// Escapes given text for being used in a quoted DOT string.
+	fn escape(text: &str) -> String {
+		text.replace('\\', "\\\\")
+			.replace('"', "\\\"")
+	}
+	
 	fn output(&mut self) -> &mut W {
 		self.output.as_mut().unwrap()
 	}
@@ -158,16 +164,16 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 
 		let s = self.builder_str(builder);
 		writeln!(self.output(),
-			r#"  "{:p}" [label = {:?}]"#,
+			r#"  "{:p}" [label = "{}"]"#,
 			builder.id(),
-			s
+			Self::escape(s)
 		).unwrap();
 
 		let s = self.builder_str(used);
 		writeln!(self.output(),
-			r#"  "{:p}" [label = {:?}]"#,
+			r#"  "{:p}" [label = "{}"]"#,
 			used.id(),
-			s
+			Self::escape(s)
 		).unwrap();
 
 		writeln!(self.output(),
@@ -186,18 +192,13 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 		
 		let s = self.builder_str(builder);
 		writeln!(self.output(),
-			r#"  "{:p}" [label = {:?}]"#,
+			r#"  "{:p}" [label = "{}"]"#,
 			builder.id(),
-			s
+			Self::escape(s)
 		).unwrap();
 		
 		let s = if self.opts.show_artifact_values {
-			// Escape for being used in a quoted DOT string
-			let text = artifact.dbg_text
-				.replace('\\', "\\\\")
-				.replace('"', "\\\"");
-
-			format!(" :\n{}", text)
+			format!(" :\n{}", Self::escape(&artifact.dbg_text))
 		} else {
 			"".into()
 		};
@@ -207,7 +208,7 @@ impl<ArtCan: CanBase, BCan, W: Write> Doctor<ArtCan, BCan> for VisgraphDoc<W> {
 			count.0,
 			count.1,
 			artifact.value.can_as_ptr() as *const (),
-			artifact.type_name,
+			Self::escape(artifact.type_name),
 			s
 		).unwrap();
 			
-- 
2.43.0


From 5609a79275b7c8fe827bab1ad37eea1156ce8d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 8/8] fix: compare artifact handles by address only

The wide pointer also contains the vtable, which is not unique per type, so
handles of the same artifact could be unequal and hash differently.
---
 src/diagnostics/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diagnostics/mod.rs b/src/diagnostics/mod.rs
index b76735d..de8488f 100644
--- a/src/diagnostics/mod.rs
+++ b/src/diagnostics/mod.rs
@@ -160,14 +160,16 @@ impl<ArtCan> ArtifactHandle<ArtCan> {
 
 impl<ArtCan> Hash for ArtifactHandle<ArtCan> where ArtCan: CanBase {
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		(self.value.can_as_ptr()).hash(state);
+		// Only consider the address, because there might be multiple vtables
+		// for the same type.
+		(self.value.can_as_ptr() as *const ()).hash(state);
 	}
 }
 
 impl<ArtCan> PartialEq for ArtifactHandle<ArtCan> where ArtCan: CanBase {
 	fn eq(&self, other: &Self) -> bool {
-		(self.value.can_as_ptr())
-			.eq(&other.value.can_as_ptr())
+		(self.value.can_as_ptr() as *const ())
+			.eq(&(other.value.can_as_ptr() as *const ()))
 	}
 }
 
-- 
2.43.0

