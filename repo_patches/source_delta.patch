From 0dd5b5749dbb90dd297e99fb7ecd97a7fcfdfede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 1/4] fix: keep Bitboard::shift_right within the 81 squares

For delta <= 1 the bits of file 8 (delta = 0) or file 9 (delta = 1) shifted
into the first word spilled into its unused top bit, producing an invalid
Bitboard that compares unequal to the right one and makes pop misbehave.
---
 shogi_core/src/bitboard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shogi_core/src/bitboard.rs b/shogi_core/src/bitboard.rs
index 8dc553b..dd0219a 100644
--- a/shogi_core/src/bitboard.rs
+++ b/shogi_core/src/bitboard.rs
@@ -343,7 +343,7 @@ impl Bitboard {
         debug_assert!(delta <= 9);
         let data = if delta <= 1 {
             [
-                self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta),
+                (self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta)) & Self::MASK0,
                 self.0[1] >> (9 * delta),
             ]
         } else if delta <= 7 {
-- 
2.43.0


From a50e94eb5bbde236fb9ceb74e02ada070d9171ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 2/4] fix: update the king's square when piece_set removes a
 king

piece_set only recorded kings being placed, so after a king was removed or
overwritten king_position still returned its old square, and two positions
that compare equal field by field could differ under ==.
---
 shogi_core/src/position.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index 56b2243..bf8cadd 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -601,11 +601,12 @@ impl PartialPosition {
         if let Some(piece) = piece {
             let piece_kind = piece.piece_kind();
             self.piece_bb[piece_kind.array_index()] |= single;
-            if let Piece::B_K = piece {
-                self.king_square[0] = OptionSquare::from(Some(square));
-            }
-            if let Piece::W_K = piece {
-                self.king_square[1] = OptionSquare::from(Some(square));
+        }
+        // `king_square` must follow the board also when a king is removed or overwritten.
+        for king in [Piece::B_K, Piece::W_K] {
+            if old == Some(king) || piece == Some(king) {
+                let king_square = self.piece_bitboard(king).pop();
+                self.king_square[king.color().array_index()] = OptionSquare::from(king_square);
             }
         }
     }
-- 
2.43.0


From 54095a87f52263b1a55524160c3a6fc56ceee3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 3/4] fix: align the arena of the no_std allocator

The allocator aligns offsets from the start of the arena, but nothing aligned
the arena itself, so the pointers it returned could be misaligned.
---
 shogi_core_c/src/no_std.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shogi_core_c/src/no_std.rs b/shogi_core_c/src/no_std.rs
index 522c9be..e68726a 100644
--- a/shogi_core_c/src/no_std.rs
+++ b/shogi_core_c/src/no_std.rs
@@ -69,7 +69,12 @@ mod simple_alloc {
         remaining: AtomicUsize, // we allocate from the top, counting down
     }
 
-    static mut ARENA_BSS: UnsafeCell<[u8; ARENA_SIZE]> = UnsafeCell::new([0x00; ARENA_SIZE]);
+    // Offsets in the arena are rounded to multiples of the requested alignment,
+    // so the arena itself must be aligned to MAX_SUPPORTED_ALIGN.
+    #[repr(C, align(4096))]
+    struct Arena(UnsafeCell<[u8; ARENA_SIZE]>);
+
+    static mut ARENA_BSS: Arena = Arena(UnsafeCell::new([0x00; ARENA_SIZE]));
 
     #[global_allocator]
     static ALLOCATOR: SimpleAllocator = SimpleAllocator {
@@ -107,7 +112,7 @@ mod simple_alloc {
             {
                 return null_mut();
             };
-            (ARENA_BSS.get() as *mut u8).add(allocated)
+            (ARENA_BSS.0.get() as *mut u8).add(allocated)
         }
         unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}
     }
-- 
2.43.0


From 1e21726895eeba74cc62950985d7c958d4efff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 4/4] hook: expose Bitboard_not to Kani

---
 shogi_core/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shogi_core/src/lib.rs b/shogi_core/src/lib.rs
index ac8ccf4..4afa1e5 100644
--- a/shogi_core/src/lib.rs
+++ b/shogi_core/src/lib.rs
@@ -69,6 +69,11 @@ pub use crate::illegal_move_kind::IllegalMoveKind;
 #[doc(inline)]
 pub use crate::legality::{LegalityChecker, PositionStatus};
 
+// Verification hook: the one exported C function that has no Rust path.
+#[cfg(kani)]
+#[doc(hidden)]
+pub use crate::bitboard::Bitboard_not;
+
 /// Types that are exposed to C.
 pub mod c_compat {
     #[doc(inline)]
-- 
2.43.0

