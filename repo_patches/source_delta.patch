From 7b7522e1f04f5f76341556f39e2f0a6d69750562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 1/2] fix: include the side to move in the keys of a
 constructed position

do_move toggles Key::COLOR, but Position::new started from zero whatever the
side to move was: a position with White to move had another key when it was
constructed than when it was reached by moves, and the same key as the position
with Black to move.
---
 src/position.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index be77b16..73e8460 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -15,6 +15,9 @@ impl Position {
     pub fn new(partial: shogi_core::PartialPosition) -> Position {
         let inner = PartialPosition::from(partial);
         let mut keys = (Key::ZERO, Key::ZERO);
+        if inner.side == Color::White {
+            keys.0 ^= Key::COLOR;
+        }
         for sq in Square::all() {
             if let Some(p) = inner.board[sq.array_index()] {
                 keys.0 ^= ZOBRIST_TABLE.board(sq, p);
-- 
2.43.0


From aee9943ae84143166d89f83fc4fd2b76c2b219b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:17 +0000
Subject: [PATCH 2/2] fix: derive the pointer that Bitboard::values writes
 through from a mutable borrow

Storing through a pointer obtained from MaybeUninit::as_ptr, that is from a
shared borrow, is undefined behaviour.
---
 src/bitboard/aarch64.rs | 4 ++--
 src/bitboard/x86_64.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitboard/aarch64.rs b/src/bitboard/aarch64.rs
index 120170a..7160f45 100644
--- a/src/bitboard/aarch64.rs
+++ b/src/bitboard/aarch64.rs
@@ -62,8 +62,8 @@ impl Bitboard {
     #[inline(always)]
     fn values(self) -> [u64; 2] {
         unsafe {
-            let m = MaybeUninit::<[u64; 2]>::uninit();
-            aarch64::vst1q_u64(m.as_ptr() as *mut _, self.0);
+            let mut m = MaybeUninit::<[u64; 2]>::uninit();
+            aarch64::vst1q_u64(m.as_mut_ptr() as *mut _, self.0);
             m.assume_init()
         }
     }
diff --git a/src/bitboard/x86_64.rs b/src/bitboard/x86_64.rs
index 2732df2..33034e4 100644
--- a/src/bitboard/x86_64.rs
+++ b/src/bitboard/x86_64.rs
@@ -66,8 +66,8 @@ impl Bitboard {
     #[inline(always)]
     fn values(&self) -> [i64; 2] {
         unsafe {
-            let m = MaybeUninit::<[i64; 2]>::uninit();
-            x86_64::_mm_storeu_si128(m.as_ptr() as *mut _, self.0);
+            let mut m = MaybeUninit::<[i64; 2]>::uninit();
+            x86_64::_mm_storeu_si128(m.as_mut_ptr() as *mut _, self.0);
             m.assume_init()
         }
     }
-- 
2.43.0

