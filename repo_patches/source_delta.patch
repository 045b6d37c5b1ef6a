From 491ef8432fa7549a6303cd2e82782e119723147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 1/5] fix: make Position::make_move leave the position intact
 if the record cannot grow

The board was advanced before the record was grown, so that a failed
allocation (a panic) left a position whose board and record disagree.
---
 shogi_core/src/position.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index 56b2243..6a50915 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -313,6 +313,8 @@ impl Position {
     /// If it returns None, it is guaranteed that self is not modified.
     #[must_use]
     pub fn make_move(&mut self, mv: Move) -> Option<()> {
+        // Ensure the record can grow before anything is modified: if this panics, `self` is left as it was.
+        self.moves.reserve(1);
         self.inner.make_move(mv)?;
         self.moves.push(mv);
         Some(())
-- 
2.43.0


From f048b192c96f84ed0f350b77c4c53e2f3ed5f88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 2/5] fix: forget the king's square when the king is removed or
 replaced

piece_set only ever set king_square, so that king_position kept reporting
a square without a king, and positions with equal contents compared
unequal.
---
 shogi_core/src/position.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index 6a50915..3d51c82 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -599,6 +599,11 @@ impl PartialPosition {
             let piece_kind = piece.piece_kind();
             self.piece_bb[piece_kind.array_index()] =
                 single.andnot(self.piece_bb[piece_kind.array_index()]);
+            if piece_kind == PieceKind::King {
+                // The king is not on `square` anymore. Another king of the same color may remain.
+                self.king_square[piece.color().array_index()] =
+                    self.piece_bitboard(piece).pop().into();
+            }
         }
         if let Some(piece) = piece {
             let piece_kind = piece.piece_kind();
-- 
2.43.0


From c8a3e3d2e418e8aec28471d905be96fbf98d5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 3/5] fix: keep Bitboard::shift_right(0 | 1) from setting a bit
 off the board

A square in files 8 and 9 left a phantom bit in the first word, which
count() counted and equality saw.
---
 shogi_core/src/bitboard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shogi_core/src/bitboard.rs b/shogi_core/src/bitboard.rs
index 8dc553b..dd0219a 100644
--- a/shogi_core/src/bitboard.rs
+++ b/shogi_core/src/bitboard.rs
@@ -343,7 +343,7 @@ impl Bitboard {
         debug_assert!(delta <= 9);
         let data = if delta <= 1 {
             [
-                self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta),
+                (self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta)) & Self::MASK0,
                 self.0[1] >> (9 * delta),
             ]
         } else if delta <= 7 {
-- 
2.43.0


From 05368ca483ad68c530366888e4f705db0db0e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 4/5] Simulation hook: export the global allocator of the
 no-std C library under --cfg shogi_sim

---
 shogi_core_c/src/lib.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/shogi_core_c/src/lib.rs b/shogi_core_c/src/lib.rs
index e10d492..28b3617 100644
--- a/shogi_core_c/src/lib.rs
+++ b/shogi_core_c/src/lib.rs
@@ -12,3 +12,38 @@ mod no_std;
 
 #[doc(hidden)]
 pub use shogi_core::*;
+
+/// Direct access to the global allocator, for simulation only: never compiled unless built with `--cfg shogi_sim`.
+#[cfg(all(shogi_sim, feature = "alloc", not(feature = "std")))]
+mod shogi_sim {
+    use alloc::alloc::{alloc, alloc_zeroed, dealloc, realloc, Layout};
+
+    #[no_mangle]
+    pub unsafe extern "C" fn shogi_sim_alloc(size: usize, align: usize) -> *mut u8 {
+        alloc(Layout::from_size_align_unchecked(size, align))
+    }
+
+    #[no_mangle]
+    pub unsafe extern "C" fn shogi_sim_alloc_zeroed(size: usize, align: usize) -> *mut u8 {
+        alloc_zeroed(Layout::from_size_align_unchecked(size, align))
+    }
+
+    #[no_mangle]
+    pub unsafe extern "C" fn shogi_sim_dealloc(ptr: *mut u8, size: usize, align: usize) {
+        dealloc(ptr, Layout::from_size_align_unchecked(size, align))
+    }
+
+    #[no_mangle]
+    pub unsafe extern "C" fn shogi_sim_realloc(
+        ptr: *mut u8,
+        size: usize,
+        align: usize,
+        new_size: usize,
+    ) -> *mut u8 {
+        realloc(
+            ptr,
+            Layout::from_size_align_unchecked(size, align),
+            new_size,
+        )
+    }
+}
-- 
2.43.0


From 67cd52dcb53e68aa44174ba6bcf189b9f803a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:32 +0000
Subject: [PATCH 5/5] fix: align the no-std arena so that blocks have the
 requested alignment

---
 shogi_core_c/src/no_std.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shogi_core_c/src/no_std.rs b/shogi_core_c/src/no_std.rs
index 522c9be..b647ba1 100644
--- a/shogi_core_c/src/no_std.rs
+++ b/shogi_core_c/src/no_std.rs
@@ -69,7 +69,12 @@ mod simple_alloc {
         remaining: AtomicUsize, // we allocate from the top, counting down
     }
 
-    static mut ARENA_BSS: UnsafeCell<[u8; ARENA_SIZE]> = UnsafeCell::new([0x00; ARENA_SIZE]);
+    // Blocks are aligned relative to the start of the arena, so the arena itself must be aligned
+    // to MAX_SUPPORTED_ALIGN.
+    #[repr(C, align(4096))]
+    struct Arena(UnsafeCell<[u8; ARENA_SIZE]>);
+
+    static mut ARENA_BSS: Arena = Arena(UnsafeCell::new([0x00; ARENA_SIZE]));
 
     #[global_allocator]
     static ALLOCATOR: SimpleAllocator = SimpleAllocator {
@@ -107,7 +112,7 @@ mod simple_alloc {
             {
                 return null_mut();
             };
-            (ARENA_BSS.get() as *mut u8).add(allocated)
+            (ARENA_BSS.0.get() as *mut u8).add(allocated)
         }
         unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}
     }
-- 
2.43.0

