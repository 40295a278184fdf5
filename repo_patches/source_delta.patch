From 9a18dc52b282e80a9d29040ac3f7b5655992b10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 01/34] fix: bear off the ace point with any larger die

find_src_of_bearoff_with never looked at point index 0.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 472c878..e4c1e5e 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -141,7 +141,7 @@ class AbstractBoard(object):
     for i in range(die - 1, 6):
       if self.has_chequer_to_move(i):
         return None
-    for i in range(die, 0, -1):
+    for i in range(die - 1, -1, -1):
       if self.has_chequer_to_move(i):
         return i
     return None# no chequer on board!
-- 
2.43.0


From a2ec77a1b458b78a425e7b7bf87062e04e7ea7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 02/34] fix: no source beyond the bar when looking for a move
 to a point

guess_your_single_pm_from_dest raised IndexError for far destinations.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 8907add..95e9534 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -331,7 +331,7 @@ class MoveFactory(object):
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
       if b.is_open_to_land(dest):
-        if b.has_chequer_to_move(dest + die):
+        if dest + die <= BAR and b.has_chequer_to_move(dest + die):
           return PartialMove(die, dest+die, dest, b.is_hitting_to_land(dest))
         else:
           # no source chequer, try another die.
-- 
2.43.0


From d09104e133617f7336ecacd101f5029b3b680380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 03/34] fix: asking for a bear-off move leaves the caller's
 dice alone

---
 bglib/model/move.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 95e9534..c62fcb4 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -327,6 +327,7 @@ class MoveFactory(object):
       if src is not None: # src== 0 is valid,as ace point
         return PartialMove(die, src, dest, False)
       else:
+        available = AvailableToPlay(rolled=None, copy_src=available)
         available.consume(die)
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
-- 
2.43.0


From e288940b2fc414a5d96d88f6052ecd6ac1c49e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 04/34] fix: asking which moves to take back does not take them
 back

guess_your_multiple_partial_undoes left the inverses played on the board.
---
 bglib/model/move.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index c62fcb4..9d6958b 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -417,7 +417,9 @@ class MoveFactory(object):
       elif inverse.dest < dest:
         b.make_partial_move(inverse)
         available.add(inverse.die)
-        return self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
+        mv = self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
+        b.make_partial_move(pm)
+        return mv
       else:
         assert(inverse.dest > dest)
         return self.Error('Overrun, bad (src, dest)=(%s, %s)'%
-- 
2.43.0


From 81ee9c6594335d652b27c12ca60c83e6d6b77d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 05/34] fix: a move refused for want of a die is not kept

MoveFactory.append recorded the move before finding out that its die was gone.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 9d6958b..b0c502a 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -188,11 +188,11 @@ class MoveFactory(object):
 
   def append(self, pm):
     assert(isinstance(pm, PartialMove))
-    self.move.append(pm)
     if pm.is_undo():
       self.available.add(pm.die)
     else:
       self.available.consume(pm.die)
+    self.move.append(pm)
     self.board.make_partial_move(pm)
 
   def add(self, mv):
-- 
2.43.0


From 8e89b8a68e6d64dcef2b908fa1f4607611a93c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 06/34] fix: consuming a missing die raises a proper exception

The bare raise had nothing to re-raise.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index b0c502a..88e6950 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -52,7 +52,7 @@ class AvailableToPlay(object):
       assert self[die] > 0
       self[die] -= 1
     else:
-      raise
+      raise ValueError('die %s is not available'%(die,))
 
   def add(self, die):
     assert(die in [1, 2, 3, 4, 5, 6])
-- 
2.43.0


From 01fba4e7221555218c79138c6f8f866f7f66f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 07/34] fix: guess_your_making_point asks about the board after
 the first move

It used None for board and dice in the second question and left the first
move played on the board.
---
 bglib/model/move.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 88e6950..f0c71d8 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -439,10 +439,13 @@ class MoveFactory(object):
     pm = self.guess_your_single_pm_from_dest(dest)
     if pm:
       pms.append(pm)
-      available = available.consume(pm.die)
+      available.consume(pm.die)
+      rewind = PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting)
+      b.make_partial_move(pm)
       pm = self.guess_your_single_pm_from_dest(
-                dest, b=b.make_partial_move(pm),
+                dest, b=b,
                 available=available)
+      b.make_partial_move(rewind)
       if pm:
         pms.append(pm)
         return pms
-- 
2.43.0


From 580c478e38039ffb0f61faa5bfa22d3dd44a8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 08/34] fix: dice may not be picked up while a chequer on the
 bar can enter

---
 bglib/model/move.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index f0c71d8..1ca1cde 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -208,6 +208,7 @@ class MoveFactory(object):
     if self.board.has_chequer_to_move(bar):
       if not self.guess_your_single_pm_from_source(bar):
         return True #dance
+      return False # must enter
 
     for pt in POINTS:
       if self.board.has_chequer_to_move(pt):
-- 
2.43.0


From 511b7e2f2bb52459091298c63180189be9ab2f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 09/34] fix: asking to pick up the dice does not rewind the
 position

is_leagal_to_pickup_dice took the moves back on the board it was asked about.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 1ca1cde..5962812 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -221,7 +221,7 @@ class MoveFactory(object):
       return True
             
     #rewind all moves and check for blocked moves.
-    mf = MoveFactory(self.board, self.move, self.available)
+    mf = MoveFactory(BoardEditor(self.board), self.move, self.available)
     inverses  = []
     for pm in mf.move:
       inverses.append(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
-- 
2.43.0


From a53949f109a149af9d3d50f6dc5fd9690e8eca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 10/34] fix: you may not double a dead cube either

is_leagal_to_double compared your score with <= but his with <.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index e4c1e5e..20fc109 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -162,7 +162,7 @@ class AbstractBoard(object):
       if self.on_inner_action == YOU:
         if self.match_length == MONEY_GAME:
           return True
-        if your_score <= self.match_length - pow(2, self.cube_in_logarithm):
+        if your_score < self.match_length - pow(2, self.cube_in_logarithm):
           return True
       return False
     elif self.on_action == HIM:
-- 
2.43.0


From ca57c9feb9a6811d2e91df5baafdf5cea50ff20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 11/34] fix: boards can be hashed

Board.__hash__ returned None, so hash(), sets and dicts failed.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 20fc109..5142502 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -211,7 +211,7 @@ class Board(AbstractBoard):
     raise TypeError('Tried to mutate immutable object attr of "%s" with %s'%(name, value))
 
   def __hash__(self):
-    pass
+    return hash(tuple([getattr(self, key) for key in sorted(AbstractBoard.defaults)]))
 
   def __copy__(self):
     return self #immutable
-- 
2.43.0


From 33fd5900dcf7ec424bf8835802f0d5f64c929579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:47 +0000
Subject: [PATCH 12/34] fix: a position ID always has ten bytes

Positions whose bits fill whole bytes (6, 14 or 22 chequers in all) came out
one byte short.
---
 bglib/encoding/gnubgid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 752b575..243b25f 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -55,8 +55,9 @@ def seq2bytes (xs):
       count += 1
       yield byte.pack()
   if byte.count != 0:
+    count += 1
     yield byte.pad()
-  while count < 9:
+  while count < 10:
     count += 1
     yield byte.pad()
 
-- 
2.43.0


From 115ec017be755d424c1de1cdee32c482a75e7f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 13/34] fix: decoding an ID of impossible length ends

One character past a whole base64 group can never be padded; the loop added
padding for ever.
---
 bglib/encoding/gnubgid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 243b25f..9795050 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -105,7 +105,7 @@ def decode_position(s):
     try:
       bin = standard_b64decode(s)
     except TypeError, e:
-      if str(e) != 'Incorrect padding':
+      if str(e) != 'Incorrect padding' or s.endswith('=='):
         raise
       s += '='
     else:
@@ -203,7 +203,7 @@ def decode_match(s):
     try:
       bin = standard_b64decode(s)
     except TypeError, e:
-      if str(e) != 'Incorrect padding':
+      if str(e) != 'Incorrect padding' or s.endswith('=='):
         raise
       s += '='
     else:
-- 
2.43.0


From a3b825c12eaa50ed54f455f3ab52eabd3f42e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 14/34] fix: a bad score in an XGID is reported as a decoding
 error

The message had one placeholder for two values.
---
 bglib/encoding/xgid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index 007b50e..f7af650 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -115,7 +115,7 @@ def decode(model, s):
   try:
     model.score = (int(his_score), int(your_score))
   except ValueError:
-    raise bglib.encoding.DecodeError('got bad data, non interger score: %s '%(his_score, your_score,))
+    raise bglib.encoding.DecodeError('got bad data, non interger score: %s %s '%(his_score, your_score,))
 
   try:
     is_crawford_jacoby = int(is_crawford_jacoby)
-- 
2.43.0


From 0b3f7cb8eb59cb9fe9b61dbbe4f7a61196c0248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 15/34] fix: a FIBS board of the opponent's turn can be decoded

---
 bglib/encoding/FIBS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 20c977e..cc9ea8c 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -118,7 +118,7 @@ def decode(m, s):
     m.rolled = fibs.his_dice
     m.on_action = HIM
     m.on_inner_action = HIM
-    m.game_state = bglib.model.constants.on_going
+    m.game_state = ON_GOING
   else:
     m.rolled=(0, 0)
     m.on_action = INVALID
-- 
2.43.0


From 7fbdb388b2963e645403e6e7787920803ac26211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 16/34] fix: decoding a FIBS board clears an earlier double

---
 bglib/encoding/FIBS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index cc9ea8c..d7f912d 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -133,6 +133,8 @@ def decode(m, s):
       m.on_inner_action = HIM
     elif m.on_action == HIM:
       m.on_inner_action = YOU
+  else:
+    m.doubled = False
 
   m.resign_offer = RESIGN_NONE
   # can't define!
-- 
2.43.0


From a15c57fdf65492b964d9a196f4453dd4a20254a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 17/34] fix: a FIBS board of a finished game can be decoded

---
 bglib/encoding/FIBS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index d7f912d..563b069 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -120,8 +120,10 @@ def decode(m, s):
     m.on_inner_action = HIM
     m.game_state = ON_GOING
   else:
+    # nobody is on turn
     m.rolled=(0, 0)
-    m.on_action = INVALID
+    m.on_action = YOU
+    m.on_inner_action = YOU
     m.game_state = FINISHED
     #m.game_state = bglib.model.constants.resigned
     #ugh! There is no way to define it
-- 
2.43.0


From f25734453fa1f81385cea7cf6150851123271085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:38 +0000
Subject: [PATCH 18/34] fix: bear-off indexes of fifteen chequers turn back
 into positions

---
 bglib/encoding/bearoff/nori.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/nori.py b/bglib/encoding/bearoff/nori.py
index 2f90d2b..52003fa 100644
--- a/bglib/encoding/bearoff/nori.py
+++ b/bglib/encoding/bearoff/nori.py
@@ -32,7 +32,7 @@ def oneside_upto6_t2k(t):
 
 
 def oneside_upto6_k2t(n):
-  for c in range(15):
+  for c in range(16):
     if n < sigmaD[c]:
       k = 0
       xs = [0, 0, 0, 0, 0, 0]
-- 
2.43.0


From b480daf716e52ee26c7a3c257d8a3034f1194049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:38 +0000
Subject: [PATCH 19/34] fix: a side with no chequers left stands zero points
 back

---
 bglib/encoding/bearoff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/__init__.py b/bglib/encoding/bearoff/__init__.py
index dec5e92..8701935 100644
--- a/bglib/encoding/bearoff/__init__.py
+++ b/bglib/encoding/bearoff/__init__.py
@@ -13,7 +13,7 @@ from tonic.combination import fact, C, C_Hash, C_RHash
 
 def backward(t):
   i = 24
-  while not t[i]:
+  while i >= 0 and not t[i]:
     i -= 1
   return i + 1
 
-- 
2.43.0


From b91239f0671d7eaccd3ac13f4f671d88630cfe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:14 +0000
Subject: [PATCH 20/34] fix: an inherited attribute no ancestor declares falls
 back to its default

point.fill and home.fill (default True) raised AttributeError as soon as the
element was inside a position, which does not declare fill.
---
 bglib/image/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 7e4647d..eaf85d2 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -282,13 +282,15 @@ class BaseElement(object):
       a = self.attributes.get(name, None)
       if a:
         return a.get()
-      elif self.DTD_ATTLIST[name].is_inherit() and self.parent is not None:
-        return getattr(self.parent, name)
-      else:
+      if self.DTD_ATTLIST[name].is_inherit() and self.parent is not None:
         try:
-          return self.DTD_ATTLIST[name].default
+          return getattr(self.parent, name)
         except AttributeError:
-          raise AttributeError('Element %s is not assigned a value of attribute "%s".'%(self.name, name))
+          pass # no ancestor has a value.
+      try:
+        return self.DTD_ATTLIST[name].default
+      except AttributeError:
+        raise AttributeError('Element %s is not assigned a value of attribute "%s".'%(self.name, name))
     raise AttributeError('Element %s does not have such attribute "%s".'%(self.name, name))
 
   @classmethod
-- 
2.43.0


From 4b2c7ed9cdc262b8c0dccac6d2768ef7dd9da07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:14 +0000
Subject: [PATCH 21/34] fix: the text False in a style sheet is the boolean
 False

flip: False (or fill, hide_count) was read as True, and a selector such as
point[flip=False] matched the flipped points.
---
 bglib/image/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index eaf85d2..ac266b5 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -133,7 +133,7 @@ class URIAttribute(StringAttribute):
   
 class BoolAttribute(BaseAttribute):
   def parse(self, s):
-    return bool(s)
+    return bool(s) and s != 'False'
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
@@ -149,7 +149,7 @@ class HideCountAttribute(BoolAttribute):
   default = False
   name = 'hide_count'
   def parse(self, s):
-    return bool(s)
+    return bool(s) and s != 'False'
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
-- 
2.43.0


From b3464f1d6dca88495589ebcb2597068335bea905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:39 +0000
Subject: [PATCH 22/34] fix: drawing at a size whose scale rounds up no longer
 fails

341 * (389 / 341.0) is a little more than 389, so a 341 wide board asked to
fit 389 pixels died on an assertion.
---
 bglib/image/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index ac266b5..1cd821a 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -315,8 +315,9 @@ class Board(BaseElement):
     assert xmag > 0.0
     assert ymag > 0.0
     self.mag = min(xmag, ymag)
-    assert self.width * self.mag <= bound[0]
-    assert self.height * self.mag <= bound[1]
+    # in pixels, as it is drawn: width * (bound / width) may round above bound.
+    assert self.apply_mag(self.width) <= bound[0]
+    assert self.apply_mag(self.height) <= bound[1]
 
 Element.register(Board)
 
-- 
2.43.0


From 99ac06c193579141a3337ecac8cbbc7105f0b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:20 +0000
Subject: [PATCH 23/34] fix: a resignation offered after rolling or after a
 taken double is pictured

BoardEditor.offer_resign allows both; the picture showed the roller to move, or
a double that had long been taken, instead of the resignation to decide.
---
 bglib/image/base.py | 49 ++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 1cd821a..fcd9452 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -767,7 +767,9 @@ class ElementTree(object):
       chequer.append(str(chequer_count))
       self.home[HIM].append(chequer)
 
-    if not board.doubled or board.on_inner_action == board.on_action:
+    resigning = board.resign_offer in bglib.model.constants.RESIGN_TYPES and \
+                board.on_inner_action != board.on_action
+    if not board.doubled or board.on_inner_action == board.on_action or resigning:
       if board.cube_owner == YOU:
         cube = Element('cube')
         cube.append(str(board.cube_in_logarithm))
@@ -783,20 +785,31 @@ class ElementTree(object):
       else:
         assert False
 
+    # a resignation may be offered after rolling, or after a double was taken.
+    if resigning and board.on_inner_action == HIM:
+      self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
+      self.action.append('him to accept your resignation or not.')
+      resign = Element('resign')
+      resign.append(str(board.resign_offer))
+      self.field[HIM].append(resign)
+      if board.rolled == (0, 0):
+        return
+
+    if resigning and board.on_inner_action == YOU:
+      self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
+      self.action.append('you to accept his resignation or not.')
+      resign = Element('resign')
+      resign.append(str(board.resign_offer))
+      self.field[YOU].append(resign)
+      if board.rolled == (0, 0):
+        return
+
     if board.on_action == YOU and board.rolled == (0, 0):
       if not board.doubled and board.on_inner_action == YOU:
         self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
         self.action.append('you to roll or double.')
         return
 
-      if not board.doubled and board.on_inner_action == HIM and board.resign_offer in bglib.model.constants.RESIGN_TYPES:
-        self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
-        self.action.append('him to accept your resignation or not.')
-        resign = Element('resign')
-        resign.append(str(board.resign_offer))
-        self.field[HIM].append(resign)
-        return
-
       if board.doubled and board.on_inner_action == HIM:
         cube = Element('cube')
         cube.append(str(board.cube_in_logarithm+1))
@@ -811,8 +824,9 @@ class ElementTree(object):
         return
 
     if board.on_action == YOU and  board.rolled != (0, 0):
-      self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
-      self.action.append('you to move.')
+      if not resigning:
+        self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
+        self.action.append('you to move.')
       die = Element('die', id='right')
       die.append(str(board.rolled[0]))
       self.field[YOU].append(die)
@@ -826,14 +840,6 @@ class ElementTree(object):
         self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
         self.action.append('him to roll or double.')
         return
-      if not board.doubled and board.on_inner_action == YOU and board.resign_offer in bglib.model.constants.RESIGN_TYPES:
-        self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
-        self.action.append('you to accept his resignation or not.')
-        resign = Element('resign')
-        resign.append(str(board.resign_offer))
-        self.field[YOU].append(resign)
-        return
-
       if board.doubled and board.on_inner_action == YOU:
         self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
         cube = Element('cube')
@@ -848,8 +854,9 @@ class ElementTree(object):
         return
 
     if board.on_action == HIM and  board.rolled !=(0, 0):
-      self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
-      self.action.append('him to move.')
+      if not resigning:
+        self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
+        self.action.append('him to move.')
       die = Element('die', id='right')
       die.append( str(board.rolled[0]))
       self.field[HIM].append(die)
-- 
2.43.0


From d2d2957912b42d6d6e6d9c82021a3f85c0ad7258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:18 +0000
Subject: [PATCH 24/34] fix: dispatch an event to every subscriber when a
 handler unregisters one

A handler that unregistered its own subscriber made the next one be
skipped, because the list was changed while it was iterated.
---
 bglib/protocol/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 7be76ed..0a62189 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -116,7 +116,9 @@ class Session(Transport):
     if self._termination_requested:
       self.terminated.set()
       thread.exit()
-    for subscriber in self.subscribers:
+    for subscriber in self.subscribers[:]:
+      if subscriber not in self.subscribers:
+        continue # a handler unregistered it meanwhile.
       try:
         f = getattr(subscriber, name)
       except AttributeError:
-- 
2.43.0


From 6b89103fb395a1982d310e464555d55470dba387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:26 +0000
Subject: [PATCH 25/34] fix: keep parent links of document nodes in step with
 the tree

Editor.append attached a node to the closest acceptable ancestor but left
its parent link on another node, so leaving it went to the wrong place;
leaving an element directly under the root lost the editor's place.
---
 bglib/doc/doctree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 2b97462..eaaf033 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -330,7 +330,7 @@ class Editor(object):
     node = self.current
     while node:
       if isinstance(node, *klasses):
-        self.current = node.parent
+        self.current = node.parent or self.root
         return
       node = node.parent
       #implicitly leaving node.
@@ -342,6 +342,7 @@ class Editor(object):
     c = self.current
     while c and not c.is_acceptable(node):
       c = c.parent
+    node.parent = c
     c.append(node)
     self.current = c
     return node
-- 
2.43.0


From a5b4bb0d504e5a44bfa8b5fa8cd482a19feb8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:33 +0000
Subject: [PATCH 26/34] fix: escape double quotes in attribute values

A double quote in an attribute value ended the attribute.
---
 bglib/doc/doctree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index eaaf033..f8daee6 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -66,7 +66,7 @@ class BgWikiElementNode(Node):
       return ''
     if self.attrs:
       import bglib.doc.html as html
-      attrs = ' '.join(['%s="%s"'%(key, html.escape(item)) for key, item in self.attrs.items()])
+      attrs = ' '.join(['%s="%s"'%(key, html.escape(item).replace('"', '&quot;')) for key, item in self.attrs.items()])
       #attrs = ' '.join(['%s="%s"'%(key, item) for key, item in self.attrs.items()])
     else:
       attrs = ''
-- 
2.43.0


From 513582957a3b9321925b7072a7d36c418a8e1027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:42 +0000
Subject: [PATCH 27/34] fix: accept macros without arguments

_parse_position(None) raised TypeError for [[Position]].
---
 bglib/doc/macro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 70de7b1..12d8766 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -188,6 +188,8 @@ _arg_pattern = re.compile(
                       )
 
 def _parse_position(s):
+  if s is None:
+    return None
   matchobj = _arg_pattern.match(s)
   if not matchobj:
     return None
-- 
2.43.0


From b7668b55a3de6da38a8a8f5f7341033d639a1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:49 +0000
Subject: [PATCH 28/34] fix: escape the text of an automatic anchor

The URL was put into the page unescaped.
---
 bglib/doc/bgwiki.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index c42bd5d..feaa57a 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -468,7 +468,7 @@ class LineFormatter(BaseFormatter):
                       **{'class':"ext-link", 'title':"title"})
     a.set_url(url)
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(match)
+    editor.append_text(url)
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
-- 
2.43.0


From 16bf7c0450b9294f6e3999c63d718a8896f32891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:57 +0000
Subject: [PATCH 29/34] fix: list items without a sign in a list of signed ones

ItemizeElement.open raised KeyError for such an item.
---
 bglib/doc/doctree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index f8daee6..f343a8f 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -157,10 +157,10 @@ class ItemizeElement(LineElement):
     
   def open(self):
     style = self.attrs['style']
-    if style is None:
+    m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
+    if style is None or m is None:
       return '<%s>'%(self.html_element)
     else:
-      m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
       return '<%s %s>'%(self.html_element, style[m])
 
 
-- 
2.43.0


From 78fd6840867b3ea8268c1f0634f047cecce89a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:05 +0000
Subject: [PATCH 30/34] fix: table of contents with inline elements in headings

TocVisitor.de_anchor returned None for them, which then was rendered.
---
 bglib/doc/macro.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 12d8766..ed6fab3 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -131,9 +131,10 @@ class TocVisitor(bglib.doc.doctree.Visitor):
             text += n.text
         return bglib.doc.doctree.Text(parent, text=text)
       else:
-        pass
-      return None
-        
+        # other inline elements: keep only what reads as text.
+        children = [self.de_anchor(n, parent) for n in node.children]
+        return bglib.doc.doctree.Text(parent, text=''.join([n.text for n in children]))
+
 
   def enter(self, node):
     editor = self.editor
-- 
2.43.0


From 120f4e3b596cfaccc2d54ab956c74ab7d5ca29ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:12 +0000
Subject: [PATCH 31/34] fix: check where empty lines stand in a Snowie text
 record

Empty lines were never checked against ACCEPTABLES, so that a leading one
let a record without match length pass, and one between headers let an
incomplete game pass.
---
 bglib/record/snowietxt.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bglib/record/snowietxt.py b/bglib/record/snowietxt.py
index 75a81e6..9a14be9 100644
--- a/bglib/record/snowietxt.py
+++ b/bglib/record/snowietxt.py
@@ -18,8 +18,8 @@ DEBUG = False
 
 ACCEPTABLES = {
   None: ('handle_mathclength',),
-  'handle_emptyline':('handle_gameheader',),
-  'handle_mathclength': ('handle_gameheader',),
+  'handle_emptyline':('handle_gameheader', 'handle_emptyline'),
+  'handle_mathclength': ('handle_gameheader', 'handle_emptyline'),
   'handle_gameheader': ('handle_playerheader',),
   'handle_playerheader': ('handle_moves',),
   'handle_moves': ('handle_moves', 'handle_emptyline', 'handle_gameheader'),
@@ -31,11 +31,10 @@ def statevalidate(method):
     current = self.state
     #func.im_self.state
     next = method.__name__
-    if next != 'handle_emptyline':
-      if next not in ACCEPTABLES[current]:
-        if DEBUG:
-          print args[1]
-        raise ValueError('current:%s, next:%s'%(current, next))
+    if next not in ACCEPTABLES[current]:
+      if DEBUG:
+        print args[1]
+      raise ValueError('current:%s, next:%s'%(current, next))
     if current == 'handle_moves' and next == 'handle_moves':
       self.count += 1
     else:
-- 
2.43.0


From 23e45fac992e00156a8d81704835b64add91dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:01 +0000
Subject: [PATCH 32/34] fix: the position macro left its picture open: text
 after it stood inside the position span

---
 bglib/doc/macro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index ed6fab3..ad698ac 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -213,6 +213,7 @@ def Position(editor, args):
     return False
   editor.enter(bglib.doc.doctree.SpanElement, **{"class":"position"})
   editor.enter(bglib.doc.doctree.ImgElement, src='/image?'+urllib.urlencode(d, True))
+  editor.leave(bglib.doc.doctree.ImgElement)
   editor.leave(bglib.doc.doctree.SpanElement)
   return True
 register(Position)
-- 
2.43.0


From bf98cfdad91ddd313648ae311e74fb012e32636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:01 +0000
Subject: [PATCH 33/34] fix: attribute values and texts were written into the
 XML of a board without escaping

---
 bglib/image/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index fcd9452..0bff8c8 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -6,6 +6,7 @@
 #
 
 import os.path
+from xml.sax.saxutils import escape
 
 import bglib.image.css
 import bglib.model.constants
@@ -236,13 +237,13 @@ class BaseElement(object):
   def format(self, indent):
     s = ' '*indent + "<%s"%(self.name)
     for n, v in self.attributes.items():
-      s+= ' %s="%s"'%(n, str(v))
+      s+= ' %s="%s"'%(n, escape(str(v), {'"': '&quot;'}))
     s+=">\n"
     for c in self.children:
       if isinstance(c, BaseElement):
         s += c.format(indent+2)
       else:
-        s += ' '*(indent +2) + str(c) + '\n'
+        s += ' '*(indent +2) + escape(str(c)) + '\n'
     s+= ' '*indent + "</%s>\n"%(self.name)
     return s
 
-- 
2.43.0


From 503ba011466eef43f5da59e2187d1fea8e59eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:16 +0000
Subject: [PATCH 34/34] fix: a move factory handed an empty stock of dice took
 the whole roll again

---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 5962812..fe9588a 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -177,7 +177,7 @@ class MoveFactory(object):
       self.move = Move(src=move)
     else:
       self.move = Move()
-    if available:
+    if available is not None:
       self.available = AvailableToPlay(copy_src=available)
     else:
       self.available = AvailableToPlay(self.board.rolled)
-- 
2.43.0

