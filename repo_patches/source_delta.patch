From 51728ac2d1519472cb2e3c531183f0a4a07cd908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 01/66] fix: AABB lookup returns no removed boxes and keeps a
 degenerate closest box

closest_candidates() returned identifiers of removed objects when every box had
been removed (adding a point after deleting the last point or segment raised
KeyError), and an empty list for a query equal to a zero-size box.
---
 src/bgem/polygons/aabb_lookup.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/aabb_lookup.py b/src/bgem/polygons/aabb_lookup.py
index ea788f6..905a1e5 100644
--- a/src/bgem/polygons/aabb_lookup.py
+++ b/src/bgem/polygons/aabb_lookup.py
@@ -72,9 +72,10 @@ class AABB_Lookup:
         :return: List of IDs.
         """
         boxes = self.boxes[:self.n_boxes, :]
-        if boxes.shape[0] == 0 :
+        if np.all(boxes[:, 0] == self.inf):
+            # no boxes, or all boxes removed
             return []
-        inf_dists = np.max(np.maximum(self.boxes[:, 0:2] - point, point - self.boxes[:, 2:4]), axis=1)
+        inf_dists = np.max(np.maximum(boxes[:, 0:2] - point, point - boxes[:, 2:4]), axis=1)
         if np.amin(inf_dists) > 0.0:
             # closest box not containing the point
             i_closest = np.argmin(inf_dists)
@@ -89,7 +90,7 @@ class AABB_Lookup:
         #except:
         #    pass
         l2_max = np.sqrt(2) * l_inf_max
-        return np.where(inf_dists < l2_max)[0]
+        return np.where(inf_dists <= l2_max)[0]
 
 
     def intersect_candidates(self, box):
-- 
2.43.0


From 2ff94d840ec7029c7969d5914aa1440b0d1546e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 02/66] fix: add_line splits at free points; joined segment
 gets its new direction vector

A line added over an existing free point ran through it, leaving a point in the
interior of a segment. join_segments kept the direction vector of the shorter
original segment, so later rotation and projection used a stale direction.
---
 src/bgem/polygons/decomp.py   | 1 +
 src/bgem/polygons/polygons.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 4562395..fb28ff3 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -320,6 +320,7 @@ class Decomposition:
         seg0.next[seg_side_next] = (seg0, seg_side_prev)
 
         seg0.vtxs[seg0_in_vtx] = seg1.vtxs[seg1_in_vtx]
+        seg0.update_vector()
         if b_seg1_insert is None:
             assert seg0.is_dendrite()
             seg0.connect_free_vtx(seg0_in_vtx, seg0.wire[out_vtx])
diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 79ae31a..4cd7d23 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -480,6 +480,8 @@ class PolygonDecomposition:
         box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance)
         candidates = self.segments_lookup.intersect_candidates(box)
         candidate_pt = {pt for seg_id in candidates for pt in self.segments[seg_id].vtxs}
+        # free points have no segment, but the new line must not pass through them
+        candidate_pt |= {self.points[pt_id] for pt_id in self.points_lookup.intersect_candidates(box)}
         candidate_pt = candidate_pt.difference(omit)
         # new line close to existing vertices, snap to them
         for pt in candidate_pt:
-- 
2.43.0


From 23c252fcc1fc2556df9175812b04284678f817a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 03/66] fix: keep the lookup boxes up to date when points move
 or segments join

After move_points (or joining two segments) snapping and intersection search
used the old bounding boxes, so points and lines added near the new position
missed the moved objects.
---
 src/bgem/polygons/polygons.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 4cd7d23..2ebecf5 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -253,6 +253,15 @@ class PolygonDecomposition:
         """
         for pt in points:
             pt.move(displacement)
+        # keep the lookup boxes consistent with the new positions
+        for pt in points:
+            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))
+            for seg, side in pt.segments():
+                self._update_segment_box(seg)
+
+    def _update_segment_box(self, seg):
+        box = aabb_lookup.make_aabb([seg.vtxs[0].xy, seg.vtxs[1].xy], margin=self.tolerance)
+        self.segments_lookup.add_object(seg.id, box)
 
 
     def get_last_polygon_changes(self):
@@ -680,6 +689,7 @@ class PolygonDecomposition:
         seg1 = self.segments[seg1.id]
         self.segments_lookup.rm_object(seg1.id)
         self.decomp.join_segments(mid_pt, seg0, seg1)
+        self._update_segment_box(seg0)
         yield "Join segments", mid_pt
 
         self._split_segment(seg0, mid_pt)
-- 
2.43.0


From 6e88227093d3a634904189cfb51bb607abb0e464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 04/66] fix: nesting of a bubble cut off inside a polygon

Deleting the segment that connects an inner part to the boundary of its polygon
made the cut-off part its own parent when it contained a dendrite, and left the
inner wires that do not touch the new hole under the old parent.
---
 src/bgem/polygons/decomp.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index fb28ff3..347894e 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -519,10 +519,15 @@ class Decomposition:
             for ch in list(a_wire.childs):
                 ch.set_parent(outer_wire)
             # possible wires in the new inner_wire bubble
-            for seg, side in inner_wire.segments():
-                side_wire = seg.wire[1-side]
-                assert side_wire == inner_wire or inner_wire.contains_wire(side_wire)
-                side_wire.set_parent(inner_wire)
+            # (all of them, not just those adjacent to the inner_wire)
+            bubble_wires = {inner_wire}
+            queue = [inner_wire]
+            while queue:
+                for side_wire in queue.pop().neighbors():
+                    if side_wire not in bubble_wires:
+                        bubble_wires.add(side_wire)
+                        side_wire.set_parent(inner_wire)
+                        queue.append(side_wire)
 
             #self._update_wire_parents(orig_parent, outer_wire, inner_wire)
 
-- 
2.43.0


From 5aa8f02cbb6fb2b6a153e1a2222d851a6ec3a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 05/66] fix: undo restores what the undone polygon operation
 changed

Undoing the insertion of a segment that already existed deleted it, and undoing
a removal lost the attributes of the removed point or segment and of the
polygon that the removal had merged.
---
 src/bgem/polygons/polygons.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 2ebecf5..3d0385c 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -646,11 +646,14 @@ class PolygonDecomposition:
     def _add_segment(self, a_pt, b_pt):
         a_pt = self.points[a_pt.id]
         b_pt = self.points[b_pt.id]
+        n_segments = len(self.segments)
         seg = self.decomp.new_segment(a_pt, b_pt)
         self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance))
+        is_new = len(self.segments) > n_segments
         yield "Add segment", seg
 
-        self._rm_segment(seg)
+        if is_new:
+            self._rm_segment(seg)
 
     @undo.undoable
     def _rm_point(self, pt):
@@ -659,16 +662,20 @@ class PolygonDecomposition:
         self.decomp.remove_free_point(pt)
         yield "Remove point"
 
-        self._add_point(pt.xy, pt.poly)
+        self._add_point(pt.xy, pt.poly).attr = pt.attr
 
     @undo.undoable
     def _rm_segment(self, seg):
         seg = self.segments[seg.id]
+        polygon_attrs = [poly.attr for poly in seg.polygons()]
         self.segments_lookup.rm_object(seg.id)
         self.decomp.delete_segment(seg)
         yield "Remove segment"
 
-        self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        new_seg = self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        new_seg.attr = seg.attr
+        for poly, attr in zip(new_seg.polygons(), polygon_attrs):
+            poly.attr = attr
 
     @undo.undoable
     def _split_segment(self, seg, mid_pt):
-- 
2.43.0


From fbdb425c637a9bb1faf3c6e93f177a10652d22e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 06/66] fix: merging two close crossings of a new line works
 without segment attributes

add_line raised AttributeError when the new line crossed two segments closer than
the tolerance and they carried no attribute; undoing the merge used the already
modified end points.
---
 src/bgem/polygons/polygons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 3d0385c..d9e9fa4 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -527,11 +527,11 @@ class PolygonDecomposition:
         b_diff = (a.xy - b.xy) #/2
         #a_can_move = self.check_displacment([a],  a_diff)
         b_can_move = self.check_displacment([b],  b_diff)
-        b_can_move = b_can_move and not b.segment[0].attr.boundary
+        b_can_move = b_can_move and not getattr(b.segment[0].attr, 'boundary', False)
         if b_can_move:
             #a.move(a_diff)
             for seg, b_idx in list(b.segments()):
-                seg_vtxs = seg.vtxs
+                seg_vtxs = list(seg.vtxs)
                 self._rm_segment(seg)
                 seg_vtxs[b_idx] = a
                 self._add_segment(*seg_vtxs)
-- 
2.43.0


From cb536afde6579f015ffb532461cd38506ebc4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 07/66] fix: joining segments of opposite orientation keeps the
 wire's segment on its own side

---
 src/bgem/polygons/decomp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 347894e..0ad5a50 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -327,11 +327,12 @@ class Decomposition:
         else:
             seg0.connect_vtx(seg0_in_vtx, b_seg1_insert)
 
-        # fix possible wire references
+        # fix possible wire references, sides are swapped if the segments have opposite orientation
+        swapped = seg0_in_vtx == seg1_out_vtx
         for side in [left_side, right_side]:
             wire = seg1.wire[side]
             if wire.segment == (seg1, side):
-                wire.segment = (seg0, side)
+                wire.segment = (seg0, 1 - side if swapped else side)
 
         # fix pt_to_seg
         self.pt_to_seg[seg0.point_ids()] = seg0
-- 
2.43.0


From b61fa933fe1934213db2fcea1dc707de73885163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 08/66] fix: redocount counts the redos

---
 src/bgem/undo.py | 650 +++++++++++++++++++++++------------------------
 1 file changed, 325 insertions(+), 325 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index d1ca510..7d2bcae 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,325 +1,325 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        stack().setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_type is None:
-            stack().resetreceiver()
-            stack().append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-        self._receiver = self._undos
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._undos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        self.setreceiver([])
-        yield
-        self.resetreceiver()
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            self._redos.clear()
-            self.docallback()
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint != self.undocount()
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        stack().setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        if exc_type is None:
+            stack().resetreceiver()
+            stack().append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+        self._receiver = self._undos
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._redos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        self.setreceiver([])
+        yield
+        self.resetreceiver()
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            self._redos.clear()
+            self.docallback()
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        self._savepoint = self.undocount()
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint != self.undocount()
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From 268c4e124c91c65e50af6fe584b99d59f52eae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 09/66] fix: undo groups can be nested, left by an exception
 and used when undo is disabled

---
 src/bgem/undo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 7d2bcae..a51c624 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -101,11 +101,14 @@ class _Group:
         self._stack = []
 
     def __enter__(self):
+        self._outer = stack()._receiver
         stack().setreceiver(self._stack)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_type is None:
-            stack().resetreceiver()
+        # Return to the enclosing receiver (another group, the stack, or none if undo is disabled).
+        stack()._receiver = self._outer
+        # After an exception, what has been done so far still has to be undoable.
+        if exc_type is None or self._stack:
             stack().append(self)
         return False
 
-- 
2.43.0


From 1450ad9d291c2e6c8f0b1b969976292bc52687e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 10/66] fix: undo and redo do not switch recording on again
 when it is disabled

---
 src/bgem/undo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index a51c624..c72e639 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -273,9 +273,10 @@ class Stack:
     @contextlib.contextmanager
     def _pausereceiver(self):
         ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
         self.setreceiver([])
         yield
-        self.resetreceiver()
+        self._receiver = receiver
 
     def setreceiver(self, receiver=None):
         ''' Set an object to receiver commands pushed onto the stack.
-- 
2.43.0


From ce2557e0f6bf2d4f46f3f997d8c4d85a1b073f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 11/66] fix: haschanged notices a different action at the same
 undo count

---
 src/bgem/undo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index c72e639..5d85a6f 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -299,16 +299,20 @@ class Stack:
             self._redos.clear()
             self.docallback()
 
+    def _position(self):
+        ''' Identify the current point of the undo history. '''
+        return self.undocount(), self._undos[-1] if self._undos else None
+
     def savepoint(self):
         ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
+        self._savepoint = self._position()
 
     def haschanged(self):
         ''' Return *True* if the state has changed since the savepoint. 
         
         This will always return *True* if the savepoint has not been set.
         '''
-        return self._savepoint is None or self._savepoint != self.undocount()
+        return self._savepoint is None or self._savepoint != self._position()
 
 
 _stack = None
-- 
2.43.0


From 584d83b9606353b12a1be7b24022189820f13b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 12/66] fix: keep the original line endings of undo.py

---
 src/bgem/undo.py | 666 +++++++++++++++++++++++------------------------
 1 file changed, 333 insertions(+), 333 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 5d85a6f..cf0bda5 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,333 +1,333 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        self._outer = stack()._receiver
-        stack().setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        # Return to the enclosing receiver (another group, the stack, or none if undo is disabled).
-        stack()._receiver = self._outer
-        # After an exception, what has been done so far still has to be undoable.
-        if exc_type is None or self._stack:
-            stack().append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-        self._receiver = self._undos
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._redos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        receiver = self._receiver
-        self.setreceiver([])
-        yield
-        self._receiver = receiver
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            self._redos.clear()
-            self.docallback()
-
-    def _position(self):
-        ''' Identify the current point of the undo history. '''
-        return self.undocount(), self._undos[-1] if self._undos else None
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        self._savepoint = self._position()
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint != self._position()
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        self._outer = stack()._receiver
+        stack().setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        # Return to the enclosing receiver (another group, the stack, or none if undo is disabled).
+        stack()._receiver = self._outer
+        # After an exception, what has been done so far still has to be undoable.
+        if exc_type is None or self._stack:
+            stack().append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+        self._receiver = self._undos
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._redos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
+        self.setreceiver([])
+        yield
+        self._receiver = receiver
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            self._redos.clear()
+            self.docallback()
+
+    def _position(self):
+        ''' Identify the current point of the undo history. '''
+        return self.undocount(), self._undos[-1] if self._undos else None
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        self._savepoint = self._position()
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint != self._position()
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From 8bed0e22cd6adcc84020f23041cfe1ec6eccb9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 13/66] fix: overlay maps the polygons inside holes and of
 drawings without segments

---
 src/bgem/polygons/merge.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index 944a682..27997d3 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -128,6 +128,7 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
             maps_other[2][new_seg.wire[l].polygon.id] = other_left_poly.id
 
     # Fill remaining maps_other[2] items using DFS
+    maps_other[2].setdefault(decomp.outer_polygon.id, other.outer_polygon.id)
     for poly_id in decomp.polygons.keys():
         maps_other[2].setdefault(poly_id, None)
     for new_poly, other_poly in list(maps_other[2].items()):
@@ -136,10 +137,12 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
             while stack:
                 p_id = stack.pop(-1)
                 maps_other[2][p_id] = other_poly
-                for seg, side in decomp.polygons[p_id].outer_wire.segments():
-                    ngh_poly = seg.wire[1 - side].polygon
-                    if maps_other[2][ngh_poly.id] is None:
-                        stack.append(ngh_poly.id)
+                outer_wire = decomp.polygons[p_id].outer_wire
+                for wire in [outer_wire, *outer_wire.childs]:
+                    for seg, side in wire.segments():
+                        ngh_poly = seg.wire[1 - side].polygon
+                        if maps_other[2][ngh_poly.id] is None:
+                            stack.append(ngh_poly.id)
 
     # # Check
     # for p in decomp.polygons.values():
-- 
2.43.0


From 51d10b2307cd5b70c2b3cafd7aa05e367909273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 14/66] fix: overlay splits the added lines at the vertices
 they touch

---
 src/bgem/polygons/merge.py    | 57 ++++++++++++++++++-----------------
 src/bgem/polygons/polygons.py | 24 ++++++++++-----
 2 files changed, 46 insertions(+), 35 deletions(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index 27997d3..2aa69c3 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -98,34 +98,35 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
         other_right_poly, other_left_poly = seg.polygons()
         # print(decomp)
         # print('add line {} {}'.format(a, b))
-        line_div = decomp._add_line_seg_intersections(new_a_pt, new_b_pt)
-        # TODO: modify to changes in _add_line_seg_intersections
-        # we have no seg_b, and the new line may be curved by snapping.
-        for t, (mid_pt, seg_a, seg_b) in line_div.items():
-            maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)
-            assert seg_a.id not in maps_other[1]
-            #maps_other[1][seg_b.id] = maps_other[1].get(seg_a.id, None)  # Should still be None, unless there is common edge
-
-        for new_seg, change, side in decomp._add_line_new_segments(new_a_pt, new_b_pt, line_div):
-            maps_other[1][new_seg.id] = seg.id
-            #maps_self[1].setdefault(new_seg.id, None)
-
-            # Update polygon maps for a segment which is part of segment in other decomposition.
-            change_type, orig_poly, new_poly = change
-            assert change_type not in [PolygonChange.remove, PolygonChange.join]
-            if change_type == PolygonChange.add or change_type == PolygonChange.split:
-                # Fix maps for changed polygons
-                maps_self[2][new_poly.id] = maps_self[2].get(orig_poly.id, orig_poly.id)
-                maps_other[2][new_poly.id] = maps_other[2].get(orig_poly.id, None)
-            # Just omit changes: PolygonChange.shape, PolygonChange.none
-
-            # Partial fill of maps_other[2]
-            if side:
-                r, l = right_side, left_side
-            else:
-                l, r = right_side, left_side
-            maps_other[2][new_seg.wire[r].polygon.id] = other_right_poly.id
-            maps_other[2][new_seg.wire[l].polygon.id] = other_left_poly.id
+        for pt_0, pt_1 in decomp._line_parts(new_a_pt, new_b_pt, {new_a_pt, new_b_pt}):
+            line_div = decomp._add_line_seg_intersections(pt_0, pt_1)
+            # TODO: modify to changes in _add_line_seg_intersections
+            # we have no seg_b, and the new line may be curved by snapping.
+            for t, (mid_pt, seg_a, seg_b) in line_div.items():
+                maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)
+                assert seg_a.id not in maps_other[1]
+                #maps_other[1][seg_b.id] = maps_other[1].get(seg_a.id, None)  # Should still be None, unless there is common edge
+
+            for new_seg, change, side in decomp._add_line_new_segments(pt_0, pt_1, line_div):
+                maps_other[1][new_seg.id] = seg.id
+                #maps_self[1].setdefault(new_seg.id, None)
+
+                # Update polygon maps for a segment which is part of segment in other decomposition.
+                change_type, orig_poly, new_poly = change
+                assert change_type not in [PolygonChange.remove, PolygonChange.join]
+                if change_type == PolygonChange.add or change_type == PolygonChange.split:
+                    # Fix maps for changed polygons
+                    maps_self[2][new_poly.id] = maps_self[2].get(orig_poly.id, orig_poly.id)
+                    maps_other[2][new_poly.id] = maps_other[2].get(orig_poly.id, None)
+                # Just omit changes: PolygonChange.shape, PolygonChange.none
+
+                # Partial fill of maps_other[2]
+                if side:
+                    r, l = right_side, left_side
+                else:
+                    l, r = right_side, left_side
+                maps_other[2][new_seg.wire[r].polygon.id] = other_right_poly.id
+                maps_other[2][new_seg.wire[l].polygon.id] = other_left_poly.id
 
     # Fill remaining maps_other[2] items using DFS
     maps_other[2].setdefault(decomp.outer_polygon.id, other.outer_polygon.id)
diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index d9e9fa4..52796df 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -484,8 +484,20 @@ class PolygonDecomposition:
         points that are closer then tolerance. This may produce an error later on.
         However healing this is nontrivial, since we have to merge two segments.
         """
+        new_segments = []
+        for pt_0, pt_1 in self._line_parts(a_pt, b_pt, omit):
+            # no snapping, subdivide by intersections
+            line_div = self._add_line_seg_intersections(pt_0, pt_1)
+            new_segments += [seg for seg, change, side in self._add_line_new_segments(pt_0, pt_1, line_div)]
+        return new_segments
+
+    def _line_parts(self, a_pt, b_pt, omit):
+        """
+        Subdivide a new line at the existing points within tolerance.
+        Generator of pairs of subsequent points; a pair has to be processed before taking the next one.
+        """
         if a_pt == b_pt:
-            return []
+            return
         box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance)
         candidates = self.segments_lookup.intersect_candidates(box)
         candidate_pt = {pt for seg_id in candidates for pt in self.segments[seg_id].vtxs}
@@ -505,12 +517,10 @@ class PolygonDecomposition:
                 #     assert False
                 # subdivide segment, snap to existing mid point
                 omit_pt = omit | {pt}
-                return self.add_line_for_points(a_pt, pt, omit=omit_pt) + \
-                       self.add_line_for_points(pt, b_pt, omit=omit_pt)
-
-        # no snapping, subdivide by intersections
-        line_div = self._add_line_seg_intersections(a_pt, b_pt)
-        return [seg for seg, change, side in self._add_line_new_segments(a_pt, b_pt, line_div)]
+                yield from self._line_parts(a_pt, pt, omit_pt)
+                yield from self._line_parts(pt, b_pt, omit_pt)
+                return
+        yield a_pt, b_pt
 
     def merge_points(self, a, b):
         """
-- 
2.43.0


From 63cc98b2e3bf2b568c640166a79deb4fbf778a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 15/66] fix: read physical names that contain spaces

A name written by write_ascii (or by gmsh, quoted) with a space in it was silently dropped by read.
---
 src/bgem/gmsh/gmsh_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 4b42ed4..e6415cb 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -121,6 +121,7 @@ class GmshIO:
             elif readmode:
                 columns = line.split()
                 if readmode == 5:
+                    columns = line.split(None, 2)
                     if len(columns) == 3:
                         self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
 
-- 
2.43.0


From 001cfb5066bcfd6ba8a3b23c077989a0d6bb089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 16/66] fix: read elements with few tags and nodes

Lines of up to five numbers (point elements with up to one tag, lines without tags) were silently skipped.
---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index e6415cb..1ca21b9 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -148,7 +148,7 @@ class GmshIO:
                     except ValueError as e:
                         print('Node format error: ' + line, e)
                         readmode = 0
-                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 5:
+                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 1:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From 5bec30060829d1dc0dfdbcab93b7cd858aa1c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 17/66] fix: read version 1.0 mesh files

ftype was unbound without a $MeshFormat section.
---
 src/bgem/gmsh/gmsh_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 1ca21b9..7dab8d8 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -97,6 +97,7 @@ class GmshIO:
             mshfile = open(self.filename, 'r')
 
         readmode = 0
+        ftype = 0  # version 1.0 files have no $MeshFormat section
         print('Reading %s' % mshfile.name)
         line = 'a'
         while line:
-- 
2.43.0


From a58c8c395e28ad24ecdf177021028fd50e8ad03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 18/66] fix: write element data given by a vector or to the
 current mesh file

The reshaped values were thrown away and the file opened for None was passed to open again.
---
 src/bgem/gmsh/gmsh_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 7dab8d8..0286ff4 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -266,7 +266,7 @@ class GmshIO:
         """
         n_els = values.shape[0]
         n_comp = np.atleast_1d(values[0]).shape[0]
-        np.reshape(values, (n_els, n_comp))
+        values = np.reshape(values, (n_els, n_comp))
         header_dict = dict(
             field=str(name),
             time=0,
@@ -301,7 +301,7 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From 1a712c8c6ee2d3cf36cd030a2314f60985b9144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 19/66] fix: node merging tolerance of HealMesh is relative to
 the mesh size

The bounding box was computed from the node ids instead of their coordinates, so the absolute tolerance grew with the number of nodes.
---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 67911e1..5ccfb72 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -229,7 +229,7 @@ class HealMesh:
         self.modified_elements = set()
         aabb_min = np.full(3, +np.inf)
         aabb_max = np.full(3, -np.inf)
-        for n in self.mesh.nodes:
+        for n in self.mesh.nodes.values():
             aabb_max = np.maximum(aabb_max, n)
             aabb_min = np.minimum(aabb_min, n)
         diam = np.max(aabb_max - aabb_min)
-- 
2.43.0


From b7e406f92bce2d2b6c076aae8ec4757f0b6a9ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 20/66] fix: heal also the elements changed by the last healing
 step

The loop ended when the queue was empty, before the elements modified by the last step were put in it.
---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 5ccfb72..7868b9c 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -447,7 +447,7 @@ class HealMesh:
         orig_n_el = self.max_ele_id
         el_to_check = collections.deque(self.mesh.elements.keys())
         modified = []
-        while el_to_check:
+        while el_to_check or modified:
             el_to_check.extend(modified)
             modified = []
             # prevent infinite loop
-- 
2.43.0


From 987bed0cc4f676dc4dcce1f7a92b728ad8ad7b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 21/66] fix: do not go on healing a removed element

After an isolated degenerate element was removed, the following checks still worked with it and failed an assertion or raised KeyError.
---
 src/bgem/gmsh/heal_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 7868b9c..9289a82 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -457,9 +457,9 @@ class HealMesh:
             if eid in self.mesh.elements:
                 ele = self._make_element(eid)
                 modified = self._check_dupl_nodes(ele)
-                if modified: continue
+                if modified or eid not in self.mesh.elements: continue
                 modified = self._check_degen_nodes(ele)
-                if modified: continue
+                if modified or eid not in self.mesh.elements: continue
                 modified = self._check_duplicate_element(ele)
                 if modified: continue
 
-- 
2.43.0


From d45f5cfbfc46bbab8563f4ba5345a7ddf73eb056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 22/66] fix: quality of a flat tetrahedron with nodes on a
 common circle

The product is zero or negative by roundoff e.g. for four corners of a square, healing such element failed an assertion.
---
 src/bgem/gmsh/heal_mesh.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 9289a82..eb3ae43 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -101,9 +101,12 @@ class Tetrahedron(ShapeBase):
             # circum radius
             a,b,c,A,B,C = self.edge_lens
             x_area = (a*A + b*B + c*C)*(a*A + b*B - c*C)*(a*A - b*B + c*C)*(-a*A + b*B + c*C)
-            assert x_area > 0, x_area
-            R = np.sqrt(x_area) / 24 / max(1e-300, V)
-            self._gamma = 3 * r/max(1e-300, R)
+            if x_area > 0:
+                R = np.sqrt(x_area) / 24 / max(1e-300, V)
+                self._gamma = 3 * r/max(1e-300, R)
+            else:
+                # zero up to roundoff: flat tetrahedron with nodes on a common circle
+                self._gamma = 0.0
         return self._gamma
 
 
-- 
2.43.0


From cb671df85f37d2e04c0309380de37580216046df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 23/66] fix: check of the flattened tetrahedron does not depend
 on the mesh size

The determinant of a mesh of the size of a kilometre is not zero up to 1e-8, healing failed the assertion.
---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index eb3ae43..d2c2424 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -676,7 +676,7 @@ class HealMesh:
         normal_component = ele.shape.nodes @ common_normal
         avg = np.average(normal_component)
         flat_nodes = ele.shape.nodes - (normal_component - avg)[:, None] * common_normal[None, :]
-        assert np.isclose(np.linalg.det(flat_nodes[1:, :] - flat_nodes[0, :]), 0.0)
+        assert np.isclose(np.linalg.det((flat_nodes[1:, :] - flat_nodes[0, :]) / np.max(ele.shape.edge_lens)), 0.0)
 
         # cases for projected shapes
         cos_face_norm = ele.shape.face_normals @ common_normal
-- 
2.43.0


From 8817c8aa5520cb098a3b8d422a8c11663f7b6e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 24/66] fix: rectangle extends the given list of sides

---
 src/bgem/gmsh/gmsh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index e0df451..07f0bb7 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -259,8 +259,7 @@ class GeometryOCC:
         return self.object(dim, res)
 
     def rectangle(self, xy_sides=[1, 1], center=[0, 0, 0]):
-        xy_sides.append(0)
-        corner = np.array(center) - np.array(xy_sides) / 2
+        corner = np.array(center) - np.array([*xy_sides[0:2], 0]) / 2
         rec_tag = self.model.addRectangle(*corner.tolist(), *xy_sides[0:2])
         self._need_synchronize = True
         return self.object(2, rec_tag)
-- 
2.43.0


From a1a6b892285447c8f6d449a03c4338a7fe4288fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 25/66] fix: keep_only leaves the removed shapes in the model
 to mesh

---
 src/bgem/gmsh/gmsh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 07f0bb7..4501118 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -465,9 +465,11 @@ class GeometryOCC:
         all_dimtags = set(gmsh.model.getEntities())
         remove_dimtags = all_dimtags.difference(set(group_dimtags))
         try:
-            self.model.remove(list(remove_dimtags), recursive=False)
+            # a shape can be removed only after the shapes it bounds
+            self.model.remove(sorted(remove_dimtags, reverse=True), recursive=False)
         except ValueError:
             pass
+        self._need_synchronize = True
 
     def all_entities(self):
         self.synchronize()
-- 
2.43.0


From 5d4c6687f3163b7d416dd362a5568ce65f816f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 26/66] fix: copy of a set of shapes of several dimensions
 loses the lower ones

---
 src/bgem/gmsh/gmsh.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 4501118..ecdfece 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -548,7 +548,13 @@ class ObjectSet:
         return self
 
     def copy(self) -> 'ObjectSet':
-        copy_tags = self.factory.model.copy(self.dim_tags)
+        # a single call for shapes of different dimensions copies only those of the highest one
+        copy_of = {}
+        for dim in range(4):
+            tags = [dimtag for dimtag in self.dim_tags if dimtag[0] == dim]
+            if tags:
+                copy_of[dim] = iter(self.factory.model.copy(tags))
+        copy_tags = [next(copy_of[dim]) for dim, tag in self.dim_tags]
         self.factory._need_synchronize = True
         return ObjectSet(self.factory, copy_tags, self.regions)
 
-- 
2.43.0


From 715a24cb07912891bf068d6c615b2246d5cfba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 27/66] fix: fragment of a single shape fails or loses the
 shape

---
 src/bgem/gmsh/gmsh.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index ecdfece..e9a27d8 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -368,6 +368,10 @@ class GeometryOCC:
             message = "\nall dimtags: {}, ...".format(str(all_dimtags[:20]))
             raise BoolOperationError(message) from err
 
+        if not tags_map:
+            # single shape, nothing to fragment
+            tags_map = [[dimtag] for dimtag in all_dimtags]
+
         # assign regions
         new_sets = []
         begin = 0
@@ -732,6 +736,10 @@ class ObjectSet:
             message = "\nobj dimtags: {}\ntool dimtags: {}".format(str(self.dim_tags[:10]), str(tool_objects.dim_tags[:10]))
             raise BoolOperationError(message) from err
 
+        if not old_tags_map:
+            # single shape and no tool, nothing to do
+            old_tags_map = [[dimtag] for dimtag in self.dim_tags]
+
         # assign regions
         assert len(self.regions) == len(self.dim_tags), (len(self.regions), len(self.dim_tags))
         old_tags_objects = [ObjectSet(self.factory, new_subtags, [reg])
-- 
2.43.0


From e8e0e4058370f0ffc2c863fe7a5e39312249036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 28/66] fix: failures of the geometry kernel are not turned
 into BoolOperationError, GetBoundaryError

---
 src/bgem/gmsh/gmsh.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index e9a27d8..c6a75a4 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -364,7 +364,7 @@ class GeometryOCC:
 
         try:
             new_tags, tags_map = self.model.fragment(all_dimtags, [], removeObject=True, removeTool=True)
-        except ValueError as err:
+        except Exception as err:
             message = "\nall dimtags: {}, ...".format(str(all_dimtags[:20]))
             raise BoolOperationError(message) from err
 
@@ -471,7 +471,7 @@ class GeometryOCC:
         try:
             # a shape can be removed only after the shapes it bounds
             self.model.remove(sorted(remove_dimtags, reverse=True), recursive=False)
-        except ValueError:
+        except Exception:
             pass
         self._need_synchronize = True
 
@@ -581,7 +581,7 @@ class ObjectSet:
         self.factory.synchronize()
         try:
             dimtags = gmsh.model.getBoundary(self.dim_tags, combined=combined, oriented=False)
-        except ValueError as err :
+        except Exception as err :
             message = "\nobj dimtags: {}".format(str(self.dim_tags[:10]))
             raise GetBoundaryError(message) from err
         regions = [Region.default_region[dim] for dim, tag in dimtags]
@@ -663,7 +663,7 @@ class ObjectSet:
         self.factory.synchronize()
         try:
             dimtags = gmsh.model.getBoundary(self.dim_tags, combined=False, oriented=False, recursive=True)
-        except ValueError as err :
+        except Exception as err :
             message = "\nobj dimtags: {} ...".format(str(self.dim_tags[:10]))
             raise GetBoundaryError(message) from err
         nodes = [(dim, tag) for dim, tag in dimtags if dim == 0]
@@ -732,7 +732,7 @@ class ObjectSet:
         tool_objects = self.factory.group(*tool_objects).copy()
         try:
             new_tags, old_tags_map = operation(self.dim_tags, tool_objects.dim_tags, removeObject=True, removeTool=True)
-        except ValueError as err :
+        except Exception as err :
             message = "\nobj dimtags: {}\ntool dimtags: {}".format(str(self.dim_tags[:10]), str(tool_objects.dim_tags[:10]))
             raise BoolOperationError(message) from err
 
-- 
2.43.0


From 8f666e353d23335de1a00725d6c8fedf33994c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 29/66] fix: names made unique may coincide with names of other
 regions

---
 src/bgem/gmsh/gmsh.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index c6a75a4..e189224 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -402,12 +402,13 @@ class GeometryOCC:
             reg_names[reg.name].add(reg.id)
 
         # make used region names unique
-        for id_set in reg_names.values():
+        used_names = set(reg_names)
+        for name, id_set in reg_names.items():
             if len(id_set) > 1:
-                for i, id in enumerate(sorted(id_set)
-
-                                       ):
-                    reg_to_tags[id][0].set_unique_name(i)
+                free_idx = (i for i in itertools.count() if "{}_{}".format(name, i) not in used_names)
+                for id in sorted(id_set):
+                    reg_to_tags[id][0].set_unique_name(next(free_idx))
+                    used_names.add(reg_to_tags[id][0].name)
 
         # set physical groups
         for reg, tags in reg_to_tags.values():
-- 
2.43.0


From 3a8e73f5410e520454ab0f52f6a4473c6e4a9cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 30/66] fix: order of corners of the rectangle made from
 vertices

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index e189224..798cb5b 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -326,7 +326,7 @@ class GeometryOCC:
 
     def make_rectangle(self, scale) -> int:
         # Vertices of the rectangle
-        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, 1, 0), (-1, -1, 0)])
+        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, -1, 0), (-1, 1, 0)])
         corners = shifts[:, :] * scale[None, :]
         point_tags = [self.model.addPoint(*corner) for corner in corners]
         lines = [self.model.addLine(point_tags[i - 1], point_tags[i]) for i in range(4)]
-- 
2.43.0


From b0ad59c21c22ee9ce689b34d99d0b3accfd5957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 31/66] fix: polygon is not synchronized before its boundary or
 mesh

---
 src/bgem/gmsh/gmsh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 798cb5b..12f08c1 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -295,6 +295,7 @@ class GeometryOCC:
         lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]
         loop = self.model.addCurveLoop(lines, tag=-1)
         surface = self.model.addPlaneSurface([loop], tag=-1)
+        self._need_synchronize = True
         return self.object(2, surface)
 
 
-- 
2.43.0


From 4c0572ff279ccc6842cb55cca2640a4050862826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 32/66] fix: polygon with integer mesh step fails

---
 src/bgem/gmsh/gmsh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 12f08c1..dd2d8c6 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -288,8 +288,8 @@ class GeometryOCC:
         """
         if mesh_step is None:
             mesh_step = 0.0
-        if type(mesh_step) is float:
-            mesh_step = np.full(len(points), mesh_step)
+        if np.ndim(mesh_step) == 0:
+            mesh_step = np.full(len(points), mesh_step, dtype=float)
         vertices = [self.model.addPoint(*p, step, tag=-1) for p, step in zip(points, mesh_step)]
         vertices.append(vertices[0])
         lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]
-- 
2.43.0


From ba2e1cfee21b5d4edc93ec2320e2d7fdd2349d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 33/66] fix: threshold field ignores the upper bound

---
 src/bgem/gmsh/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index 8b17524..dc50e62 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -45,7 +45,7 @@ def distance_edges(curves, nodes_per_edge=8, coordinate_fields=None) -> Field:
 def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     """
     field_min, threshold_min = lower_bound
-    field_max, threshold_max = lower_bound
+    field_max, threshold_max = upper_bound
 
     threshold = threshold_min IF field <= field_min
     threshold = threshold_max IF field >= field_max
@@ -61,7 +61,7 @@ def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     gmsh_field.setNumber(id, "DistMin", field_min)
     gmsh_field.setNumber(id, "LcMin", threshold_min)
     if upper_bound:
-        field_max, threshold_max = lower_bound
+        field_max, threshold_max = upper_bound
         gmsh_field.setNumber(id, "DistMax", field_max)
         gmsh_field.setNumber(id, "LcMax", threshold_max)
     else:
-- 
2.43.0


From f2ffccf5a6c4a8c9d6d7fc5057392b47a2354eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 34/66] fix: restricted field has no effect

---
 src/bgem/gmsh/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index dc50e62..c1a49f4 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -138,8 +138,8 @@ def restrict(field:Field, *object_sets, add_boundary=False):
     points, edges, faces, volumes = group.split_by_dimension()
     id = gmsh_field.add('Restrict')
     gmsh_field.setNumber(id, "IField", field)
-    gmsh_field.setNumbers(id, "VerticesList", points.tags)
-    gmsh_field.setNumbers(id, "EdgesList", edges.tags)
-    gmsh_field.setNumbers(id, "FacesList", faces.tags)
-    gmsh_field.setNumbers(id, "RegionsList", volumes.tags)
+    gmsh_field.setNumbers(id, "PointsList", points.tags)
+    gmsh_field.setNumbers(id, "CurvesList", edges.tags)
+    gmsh_field.setNumbers(id, "SurfacesList", faces.tags)
+    gmsh_field.setNumbers(id, "VolumesList", volumes.tags)
     return id
\ No newline at end of file
-- 
2.43.0


From 24e06ce0dd4d951f605371a7a346a6314bbf2d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 35/66] fix: equidistant knots of an integer range are
 truncated

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 89a67be..abe520e 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -37,7 +37,7 @@ class SplineBasis:
         :return: SplineBasis object.
         """
         n = n_intervals + 2 * degree + 1
-        knots = np.array((knot_range[0],) * n)
+        knots = np.array((knot_range[0],) * n, dtype=float)
         diff = (knot_range[1] - knot_range[0]) / n_intervals
         for i in range(degree + 1, n - degree):
             knots[i] = (i - degree) * diff + knot_range[0]
-- 
2.43.0


From 1f1c20992c2d3d8402daa26dd0ce364f4eb896a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 36/66] fix: linear poles of a basis not starting at zero are
 shifted

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index abe520e..fc878c7 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -235,7 +235,7 @@ class SplineBasis:
         Return poles of basis functions to get a f(x) = x.
         :return:
         """
-        poles= [ 0.0 ]
+        poles= [ self.knots[0] ]
         for i in range(self.size-1):
             pp = poles[-1] + (self.knots[i + self.degree + 1] - self.knots[i  + 1]) / float(self.degree)
             poles.append(pp)
-- 
2.43.0


From 018243c4eadbbda130d3683068c0edabf09f4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 37/66] fix: rational curves and surfaces given by a list of
 poles fail

---
 src/bgem/bspline/bspline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index fc878c7..c5d81c6 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -381,8 +381,8 @@ class Curve:
 
         if rational:
             # precomputations
-            self._weights = poles[:, self.dim]
-            self._poles = (poles[:, 0:self.dim].T * self._weights ).T
+            self._weights = self.poles[:, self.dim]
+            self._poles = (self.poles[:, 0:self.dim].T * self._weights ).T
 
         # BIH tree
         self._boxes = None
@@ -513,8 +513,8 @@ class Surface:
         # Rational surface indicator.
         if rational:
             # precomputations
-            self._weights = poles[:, :, self.dim]
-            self._poles = (poles[:, :, 0:self.dim].T * self._weights.T ).T
+            self._weights = self.poles[:, :, self.dim]
+            self._poles = (self.poles[:, :, 0:self.dim].T * self._weights.T ).T
 
     @property
     def u_basis(self):
-- 
2.43.0


From 7fabf1b06b52d4e053ad985636e41244ffa9abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 38/66] fix: bounding box of rational curves and surfaces
 contains the weights

---
 src/bgem/bspline/bspline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index c5d81c6..a4dd94e 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -434,7 +434,8 @@ class Curve:
         Return Axes Aligned Bounding Box of the poles, which should be also bounding box of the curve itself.
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         """
-        return np.array( [np.amin(self.poles, axis=0), np.amax(self.poles, axis=0)] )
+        poles = self.poles[:, 0:self.dim]
+        return np.array( [np.amin(poles, axis=0), np.amax(poles, axis=0)] )
 
     def bounding_boxes(self):
         """
@@ -585,7 +586,8 @@ class Surface:
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         TODO: test
         """
-        return np.array( [np.amin(self.poles, axis=(0,1)), np.amax(self.poles, axis=(0,1))] )
+        poles = self.poles[:, :, 0:self.dim]
+        return np.array( [np.amin(poles, axis=(0,1)), np.amax(poles, axis=(0,1))] )
 
 
     def bounding_boxes(self):
-- 
2.43.0


From bb773991dd66d4d9beee98c10235185597dcd3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 39/66] fix: boxes of patches of degree other than 2 or of
 rational splines

---
 src/bgem/bspline/bspline.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index a4dd94e..784efda 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -444,7 +444,8 @@ class Curve:
         :return:
         """
         tree = bih.BIH()
-        boxes = [bih.AABB(self.poles[it:it + 3, :].tolist()) for it in range(self.basis.n_intervals)]
+        dt = self.basis.degree + 1
+        boxes = [bih.AABB(self.poles[it:it + dt, 0:self.dim].tolist()) for it in range(self.basis.n_intervals)]
         tree.add_boxes(boxes)
         tree.construct()
 
@@ -599,14 +600,16 @@ class Surface:
         tree = bih.BIH()
         n_patch = self.u_basis.n_intervals * self.v_basis.n_intervals
 
-        patch_poles = np.zeros([9, 3, n_patch])
+        du = self.u_basis.degree + 1
+        dv = self.v_basis.degree + 1
+        patch_poles = np.zeros([du * dv, self.dim, n_patch])
         i_patch = 0
         for iu in range(self.u_basis.n_intervals):
             for iv in range(self.v_basis.n_intervals):
                 n_points = 0
-                for i in range(0, 3):
-                    for j in range(0, 3):
-                        patch_poles[n_points, :, i_patch] = self.poles[iu + i, iv + j, :]
+                for i in range(0, du):
+                    for j in range(0, dv):
+                        patch_poles[n_points, :, i_patch] = self.poles[iu + i, iv + j, 0:self.dim]
                         n_points += 1
                 assert i_patch == self.patch_pos2id(iu, iv)
                 i_patch += 1
-- 
2.43.0


From e02d2c801dbfc36e10fd58d4a2e11e1fdecf5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 40/66] fix: deep copy of a rational surface is not rational

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 784efda..3ed2c9f 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -570,7 +570,7 @@ class Surface:
         u_basis = copy.copy(self.u_basis)
         v_basis = copy.copy(self.v_basis)
         poles = copy.copy(self.poles)
-        return Surface( ( u_basis, v_basis), poles)
+        return Surface( ( u_basis, v_basis), poles, self.rational)
 
     def eval_array(self, uv_points):
         """
-- 
2.43.0


From 6bd28126f5af28d1a0c33e0795d0e8a4a95b67ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 41/66] fix: copy of a Z surface follows the transforms of the
 original

---
 src/bgem/bspline/bspline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 3ed2c9f..e8dbb13 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -815,7 +815,11 @@ class Z_Surface:
         bs.Surface for Z coordinates (Z poles).
         :return: A copy of the Z_Surface object.
         """
-        return copy.copy(self)
+        z_surf = copy.copy(self)
+        # the XY mapping is a method bound to the original
+        z_surf.xy_to_uv = self.xy_to_uv.__func__.__get__(z_surf)
+        z_surf.uv_to_xy = self.uv_to_xy.__func__.__get__(z_surf)
+        return z_surf
 
 
     """
-- 
2.43.0


From 03c782f4fda38de0b4b9cc7e78e2d270ad5c93fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 42/66] fix: transform of a bilinear Z surface fails

---
 src/bgem/bspline/bspline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index e8dbb13..d3dc262 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -768,10 +768,11 @@ class Z_Surface:
             assert xy_mat.shape == (2, 3)
 
             self._xy_mat = xy_mat
-            self._mat_uv_to_xy = np.dot(xy_mat[0:2,0:2], self._mat_uv_to_xy)
             quad_center = surf_center[0:2]
-            self._xy_shift = xy_mat[0:2, 2] + np.dot(xy_mat[0:2,0:2], (self._xy_shift - quad_center)) + quad_center
-            self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)
+            if self.uv_to_xy == self._linear_uv_to_xy:
+                self._mat_uv_to_xy = np.dot(xy_mat[0:2,0:2], self._mat_uv_to_xy)
+                self._xy_shift = xy_mat[0:2, 2] + np.dot(xy_mat[0:2,0:2], (self._xy_shift - quad_center)) + quad_center
+                self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)
             # transform quad
             self.quad = np.dot(self.quad - quad_center, xy_mat[0:2,0:2].T) + xy_mat[0:2, 2] + quad_center
 
-- 
2.43.0


From 71b18a345ad1f19ade439c8135f2b126558e7c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 43/66] fix: bounding box of a Z surface with negative Z scale
 is inverted

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index d3dc262..4605f59 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -936,7 +936,7 @@ class Z_Surface:
         xyz_box = np.empty( (2, 3) )
         xyz_box[0, 0:2] = np.amin(self.quad, axis=0)
         xyz_box[1, 0:2] = np.amax(self.quad, axis=0)
-        xyz_box[:, 2] = self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1]
+        xyz_box[:, 2] = np.sort(self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1])
         return xyz_box
 
 
-- 
2.43.0


From cad7bd9f94e087a0534f544e963b762a92ca3606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 44/66] fix: applied Z transform is still reported by
 get_transform

---
 src/bgem/bspline/bspline.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 4605f59..dffe3de 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -806,8 +806,7 @@ class Z_Surface:
             self.z_surface = self.z_surface.deep_copy()
             self.z_surface.poles *= self._z_mat[0]
             self.z_surface.poles += self._z_mat[1]
-            self._z_mat = np.array([1.0, 0.0])
-            self._have_z_mat = False
+            self._reset_transform_z()
 
 
     def get_copy(self):
-- 
2.43.0


From d8fcf5fe2e85982249570a793725bf00a2f72f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 45/66] fix: z_eval_array of a scaled grid surface differs from
 eval_array

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index dffe3de..c750d0a 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -1165,7 +1165,7 @@ class GridSurface:
             u_loc = np.array([1 - uv_loc[0], uv_loc[0]])
             v_loc = np.array([1 - uv_loc[1], uv_loc[1]])
             Z_mat = self.grid_uvz[iu: (iu + 2), iv: (iv + 2), 2]
-            result[i] = self.z_surface.z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface.z_mat[1]
+            result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]
         return result
 
 
-- 
2.43.0


From 6bd59a10266d75d54f2de3d882000cb598c102fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 46/66] fix: overhang of planes and lines given by integers
 fails

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 4843f28..8f8c757 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -47,7 +47,7 @@ def bilinear_surface(vtxs, overhang=0.0):
     :return: ( Surface, vtxs_uv )
     """
     assert len(vtxs) == 4, "n vtx: {}".format(len(vtxs))
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = np.roll(vtxs, -1, axis=0) - vtxs
         dv *= overhang
@@ -78,7 +78,7 @@ def line(vtxs, overhang = 0.0):
     :return: Curve2D
     '''
     assert len(vtxs) == 2
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = overhang*(vtxs[1] - vtxs[0])
         vtxs[0] -= dv
-- 
2.43.0


From 4b3bebae340a36acd702bf74863e61a77b1f3359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 47/66] fix: approximation of points with weights fails

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 8f8c757..31a24e8 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -431,8 +431,8 @@ class SurfaceApprox:
         g_vec = self._z_quad_points[:]
         if self._weights is not None:
             W = scipy.sparse.diags(self._w_quad_points, 0)
-            wg_vec = np.dot(W, g_vec)
-            wb_mat = np.dot(W, b_mat)
+            wg_vec = W.dot(g_vec)
+            wb_mat = W.dot(b_mat)
         else:
             wg_vec = g_vec
             wb_mat = b_mat
-- 
2.43.0


From 34c8a60cd5e14252499018af271207c4b8223a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 48/66] fix: approximation error ignores points above the
 surface

---
 src/bgem/bspline/bspline_approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 31a24e8..f049f5a 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -461,7 +461,7 @@ class SurfaceApprox:
         logging.info('Computing error ...')
         start_time = time.time()
         diff = b_mat.dot(z_vec) - g_vec
-        self.error = max_diff = np.max(diff)
+        self.error = max_diff = np.max(np.abs(diff))
         logging.info("Approximation error (max norm): {}".format(max_diff) )
         end_time = time.time()
         logging.info('Computed in: {} s'.format(end_time - start_time))
-- 
2.43.0


From ee9c9508d5c78abca96edee3cb87f408b65244fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 49/66] fix: point evaluation of a Z surface fails

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index c750d0a..6221e81 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -866,7 +866,7 @@ class Z_Surface:
         :param u, v: Evaluation point.
         :return: D-dimensional numpy array. D - is dimension given by dimension of poles.
         """
-        z = self.z_surface.eval(u, v)
+        z = self.z_surface.eval(u, v)[0]
         z = self._z_mat[0] * z + self._z_mat[1]
         uv_points = np.array([[u, v]])
         x, y = self.uv_to_xy( uv_points )[0]
-- 
2.43.0


From 0e3b32df0dd1dedce54905d3b188eca74cc476e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 50/66] fix: approximation by a single interval in both
 directions fails

---
 src/bgem/bspline/bspline_approx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index f049f5a..67e1348 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -443,9 +443,11 @@ class SurfaceApprox:
 
         logging.info('Computing A and B svds approximation ...')
         start_time = time.time()
-        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=10, tol=1e-2, which='LM', v0=None,
+        # number of Lanczos vectors must be smaller than the size of the matrix, which is at least 9
+        ncv = min(10, bb_mat.shape[0] - 1)
+        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=ncv, tol=1e-2, which='LM', v0=None,
                                            maxiter=300, return_singular_vectors=False)
-        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=10, tol=1e-2, which='LM',
+        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=ncv, tol=1e-2, which='LM',
                                           maxiter=300, return_eigenvectors=False)
         c_mat = bb_mat + self.regularization_weight * (bb_norm[0] / a_norm[0]) * a_mat
         end_time = time.time()
-- 
2.43.0


From 41e4e89ea7c0e1d349a3b82de2aa336bf63f3036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 51/66] fix: number the shapes of a BREP model anew for every
 writing or printing

---
 src/bgem/bspline/brep_writer.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 7deb770..d6af1a4 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -77,6 +77,7 @@ class Location:
         # checks
         check_matrix(matrix, [3, 4], (int, float))
         self.matrix=matrix
+        self.id = None
 
     def _dfs(self, groups):
         """
@@ -84,7 +85,8 @@ class Location:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if not hasattr(self, 'id'):
+        if self.id != 0 and self not in groups['indexed']:
+            groups['indexed'].add(self)
             id=len(groups['locations'])+1
             self.id = id
             groups['locations'].append(self)
@@ -112,6 +114,7 @@ class ComposedLocation(Location):
         check_matrix(pows, [ l ], int)
 
         self.location_powers=location_powers
+        self.id = None
 
 
     def _dfs(self, groups):
@@ -194,7 +197,8 @@ class Curve3D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if self not in groups['indexed']:
+            groups['indexed'].add(self)
             id = len(groups['curves_3d']) + 1
             self.id = id
             groups['curves_3d'].append(self)
@@ -249,7 +253,8 @@ class Curve2D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if self not in groups['indexed']:
+            groups['indexed'].add(self)
             id = len(groups['curves_2d']) + 1
             self.id = id
             groups['curves_2d'].append(self)
@@ -331,7 +336,8 @@ class Surface:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if self not in groups['indexed']:
+            groups['indexed'].add(self)
             id = len(groups['surfaces']) + 1
             self.id = id
             groups['surfaces'].append(self)
@@ -601,8 +607,9 @@ class Shape:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if hasattr(self, 'id'):
+        if self in groups['indexed']:
             return
+        groups['indexed'].add(self)
         for sub_ref in self.childs:
             sub_ref.location._dfs(groups)
             sub_ref.shape._dfs(groups)
@@ -643,7 +650,8 @@ class Shape:
         # print("Index")
         # print(compound.__class__.__name__) #prints class name
 
-        groups = dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
+        # 'indexed': objects already numbered by this pass
+        groups = dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[], indexed=set())
         self._dfs(groups)  # pridej jako parametr dictionary listu jednotlivych grup. v listech primo objekty
         location._dfs(groups)
         # print(groups)
-- 
2.43.0


From 18d8bd6d2dea20a6cd0e7403b6b89183a293f7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 52/66] fix: location of a written BREP model is not applied

---
 src/bgem/bspline/brep_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index d6af1a4..ad4cce6 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -1093,7 +1093,7 @@ def write_model(stream, compound, location):
         #print("# {} id: {} childs: {}\n".format(shape.shpname, shape.id,
         #                                        [ch.id for ch in shape.subshapes()]))
         shape._brep_output(stream, groups)
-    stream.write("\n+1 0")
+    stream.write("\n+1 {}".format(location.id))
     #stream.write("0\n")
 
 
-- 
2.43.0


From 4fdd161a5c74ea36f37a7e43be719f47b9575454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 53/66] fix: plane through three points changes the list of
 points

---
 src/bgem/bspline/brep_writer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index ad4cce6..c421838 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -381,7 +381,6 @@ class Approx:
         :return: ( Surface, vtxs_uv )
         """
         assert len(vtxs) == 3, "n vtx: {}".format(len(vtxs))
-        vtxs.append( (0,0,0) )
         vtxs = np.array(vtxs)
         vv = vtxs[1] + vtxs[2] - vtxs[0]
         vtx4 = [ vtxs[0], vtxs[1], vv, vtxs[2]]
-- 
2.43.0


From 5fec37427b8d85078eaaa8ab354021a02410aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 54/66] fix: edge reorients vertex references shared with other
 edges

---
 src/bgem/bspline/brep_writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index c421838..aa7b63a 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -868,9 +868,10 @@ class Edge(Shape):
         assert(len(vertices) == 2)
 
         super().__init__(vertices)
-        # Overwrite vertex orientation
-        self.childs[0].orientation = Orient.Forward
-        self.childs[1].orientation = Orient.Reversed
+        # Overwrite vertex orientation, references given by the caller are left untouched.
+        first, last = self.childs
+        self.childs = [ShapeRef(first.shape, Orient.Forward, first.location),
+                       ShapeRef(last.shape, Orient.Reversed, last.location)]
 
     def set_edge_flags(self, same_parameter, same_range, degenerated):
         """
-- 
2.43.0


From c8a5b4790bfd963163af7fc42af682eaf33884a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 55/66] fix: wire is not closed by an appended edge

---
 src/bgem/bspline/brep_writer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index aa7b63a..1f862a6 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -709,6 +709,12 @@ class Wire(Shape):
         self.set_flags((0, 1, 0, 1, 0, 0, 0))  # modified, orientable
         self._set_closed()
 
+    def append(self, shape_ref):
+        super().append(shape_ref)
+        # not yet set during the construction
+        if hasattr(self, 'flags'):
+            self._set_closed()
+
     def _set_closed(self):
         '''
         Return true for the even parity of vertices.
-- 
2.43.0


From cef4330bc99b44530553cb5e765025927ee77209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 56/66] fix: flags of BREP vertices are overwritten by those of
 other shapes

---
 src/bgem/bspline/brep_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 1f862a6..cb5a24d 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -990,8 +990,6 @@ class Vertex(Shape):
         """
         check_matrix(point, [3], scalar_types)
 
-        # These flags are produced by OCC for vertices.
-        self.flags = ShapeFlag(0, 1, 0, 1, 1, 0, 1)
         # Coordinates in the 3D space. [X, Y, Z]
         self.point=np.array(point)
         # tolerance of representations.
@@ -1004,6 +1002,8 @@ class Vertex(Shape):
         self.sub_types=[]
 
         super().__init__(childs=[])
+        # These flags are produced by OCC for vertices.
+        self.flags = ShapeFlag(0, 1, 0, 1, 1, 0, 1)
 
     def attach_to_3d_curve(self, t, curve, location=Location()):
         """
-- 
2.43.0


From c3694062ba7ddee4db431dcab470781a85ab0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 57/66] fix: identity factor cuts off the composed location in
 the BREP file

---
 src/bgem/bspline/brep_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index cb5a24d..6ab5e02 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -126,7 +126,9 @@ class ComposedLocation(Location):
     def _brep_output(self, stream, groups):
         stream.write("2 ")
         for loc, pow in self.location_powers:
-            stream.write("{} {} ".format(loc.id, pow))
+            # zero, the number of the identity, ends the list
+            if loc.id != 0:
+                stream.write("{} {} ".format(loc.id, pow))
         stream.write("0\n")
 
 def check_knots(deg, knots, N):
-- 
2.43.0


From c9203f185393f91d2df47921b8d2e236016d5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:08 +0000
Subject: [PATCH 58/66] fix: intersection with a curve parallel to the surface
 raises LinAlgError

---
 src/bgem/bspline/isec_curve_surf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/isec_curve_surf.py b/src/bgem/bspline/isec_curve_surf.py
index cb276d7..e6d9edc 100644
--- a/src/bgem/bspline/isec_curve_surf.py
+++ b/src/bgem/bspline/isec_curve_surf.py
@@ -84,7 +84,11 @@ class IsecCurveSurf:
                 break
 
             delta_xyz = delta_xyz.flatten()
-            uvt = uvt - la.solve(J, delta_xyz)
+            try:
+                uvt = uvt - la.solve(J, delta_xyz)
+            except la.LinAlgError:
+                # the curve is parallel to the surface, no single intersection
+                break
             uvt = np.maximum(uvt, min_bounds)
             uvt = np.minimum(uvt, max_bounds)
 
-- 
2.43.0


From 9076985d9037e4569b296322ef5e17059570fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:46 +0000
Subject: [PATCH 59/66] fix: write_mesh without a file name and format never
 ends

---
 src/bgem/gmsh/gmsh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index dd2d8c6..4b7a278 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -449,9 +449,12 @@ class GeometryOCC:
         Write a mesh generated by 'make_mesh' to the file 'filename'.
         Format is given by extension (see MeshFormat for supported formats)
         If 'filename' is not provided it is determined by the model name given in constructor.
-        In such case the format is given by the 'format' parameter.
+        In such case the format is given by the 'format' parameter, 'msh' by default.
         """
         if filename is None:
+            if format == MeshFormat.auto:
+                # there is no extension to guess the format from
+                format = MeshFormat.msh
             gmsh.option.setNumber('Mesh.Format', format)
             extension = format.name
             filename = "{}.{}".format(self.model_name, extension)
-- 
2.43.0


From 4af26a8028d3d03011ddca61b0a6bb36d767b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:01 +0000
Subject: [PATCH 60/66] fix: snapping between parallel segments fails

---
 src/bgem/polygons/polygons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 52796df..27206b7 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -409,6 +409,9 @@ class PolygonDecomposition:
                 nb /= np.linalg.norm(nb)
                 if nb @ (point - xb) < 0:
                     nb = -nb
+                if abs(ua @ nb) < 1e-10 * np.linalg.norm(ua):
+                    # parallel segments, no point of 'seg_a' is farther from 'seg_b' than the other ones
+                    return (1, seg_a, ta)
                 t = (self.tolerance - (xa - xb) @ nb) / (ua @ nb)
                 xt = xa + t * ua
                 assert np.linalg.norm(xt - seg_b.parametric(self.seg_project_point(ub, xb, xt))) > self.tolerance*0.99
-- 
2.43.0


From 0e435faec855f971fba61ee59838d1cb1f1852c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 61/66] fix: flatness of a tetrahedron is twice the ratio of
 altitude and edge

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index d2c2424..d09f006 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -42,7 +42,7 @@ class ShapeBase:
         dim = self.dim
         max_edge = max(1e-300, np.max(self.edge_lens))
         if dim == 3:
-            alt = 6 * np.abs(self.measure) / max(1e-300, np.max(self.face_areas))
+            alt = 3 * np.abs(self.measure) / max(1e-300, np.max(self.face_areas))
         else:
             alt = 2 * np.abs(self.measure) / max_edge
 
-- 
2.43.0


From 6a95de09de90e291218b6c00e0bacf82737d30b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 62/66] fix: gradient error measure of a tetrahedron depends on
 the order of nodes

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index d09f006..85365bc 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -86,7 +86,7 @@ class Tetrahedron(ShapeBase):
     def smooth_grad_error_indicator(self):
         faces = self.face_areas
         e_lens = self.edge_lens
-        e_faces = [[0, 1], [0, 2], [1, 2], [0, 3], [1, 3], [2, 3]] # faces joining the edge
+        e_faces = [[0, 1], [0, 2], [1, 2], [2, 3], [1, 3], [0, 3]] # faces joining the edge
         sum_pairs = max(1e-300, np.sum([faces[i] * faces[j] * elen ** 2 for (i,j),elen in zip(e_faces, e_lens)]))
         regular = (2.0 * np.sqrt(2.0 / 3.0) / 9.0)
         quality = np.abs(self.measure) * (np.sum(faces) / sum_pairs) ** (3.0/4.0) / regular
-- 
2.43.0


From 03b5d0b14f6874e6e2a9a8039417474ddb5f706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 63/66] fix: gradient error measure of a regular tetrahedron is
 not one

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 85365bc..c0d02b2 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -88,7 +88,7 @@ class Tetrahedron(ShapeBase):
         e_lens = self.edge_lens
         e_faces = [[0, 1], [0, 2], [1, 2], [2, 3], [1, 3], [0, 3]] # faces joining the edge
         sum_pairs = max(1e-300, np.sum([faces[i] * faces[j] * elen ** 2 for (i,j),elen in zip(e_faces, e_lens)]))
-        regular = (2.0 * np.sqrt(2.0 / 3.0) / 9.0)
+        regular = np.sqrt(2.0) / 12.0 * (8.0 * np.sqrt(3.0) / 9.0) ** (3.0/4.0)
         quality = np.abs(self.measure) * (np.sum(faces) / sum_pairs) ** (3.0/4.0) / regular
         return quality
 
-- 
2.43.0


From 498e2eebd945dcca33762436c253554898dad357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 64/66] fix: quality of elements with coincident nodes is nan

---
 src/bgem/gmsh/heal_mesh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index c0d02b2..7291f52 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -97,7 +97,7 @@ class Tetrahedron(ShapeBase):
             faces = self.face_areas
             V = np.abs(self.measure)
             # inradius
-            r = 3*V / sum(faces)
+            r = 3*V / max(1e-300, sum(faces))
             # circum radius
             a,b,c,A,B,C = self.edge_lens
             x_area = (a*A + b*B + c*C)*(a*A + b*B - c*C)*(a*A - b*B + c*C)*(-a*A + b*B + c*C)
@@ -166,7 +166,11 @@ class Triangle(ShapeBase):
             #r = np.sqrt(s*(s-a)*(s-b)*(s-c)) / s
             #R = a*b*c / 4 / r / s
             #gamma =  2 * r / R
-            alt_gamma = 8 * (s/a-1)*(s/b-1)*(s/c-1)
+            if min(a, b, c) > 0:
+                alt_gamma = 8 * (s/a-1)*(s/b-1)*(s/c-1)
+            else:
+                # nodes at the same place
+                alt_gamma = 0.0
             #assert np.isclose(gamma, alt_gamma)
             self._gamma =  alt_gamma
         return self._gamma
-- 
2.43.0


From 4b2b229d8f939050957fb66c92236d06626bdbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 65/66] fix: surrounding polygons are plotted again over the
 polygons inside of them

---
 src/bgem/polygons/plot_polygons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/polygons/plot_polygons.py b/src/bgem/polygons/plot_polygons.py
index fd7ea5d..3174257 100644
--- a/src/bgem/polygons/plot_polygons.py
+++ b/src/bgem/polygons/plot_polygons.py
@@ -7,6 +7,7 @@ def _plot_polygon(polygon):
     if polygon is None or polygon.displayed or polygon.outer_wire.is_root():
         return []
 
+    polygon.displayed = True
     # recursion
     assert polygon.outer_wire.parent.polygon != polygon, polygon.id
     patches = _plot_polygon(polygon.outer_wire.parent.polygon)
-- 
2.43.0


From 0414ddf5431fe7146c997aed19d1f823e1458ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 66/66] fix: healing goes on with an element removed by its
 repair

---
 src/bgem/gmsh/heal_mesh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 7291f52..fd2c417 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -473,7 +473,7 @@ class HealMesh:
                 if ele.shape.dim < 2: continue
                 if ele.shape.gmsh_gamma() > self.gamma_tol: continue
                 modified = self._check_flat_tetra(ele)
-                if modified: continue
+                if modified or eid not in self.mesh.elements: continue
                 modified = self._check_flat_triangle(ele)
                 if modified: continue
                 modified = self._check_small_edge(ele)
@@ -594,7 +594,8 @@ class HealMesh:
                 new_node_ids[i_pos] = nid_proj
                 self.add_element((el_type, el_tags, new_node_ids))
 
-        return self.reset_modified()
+        # the removed element is reported, since there may be no other one
+        return [*self.reset_modified(), ele.eid]
 
 
     # def _heal_degenerate_flat(self, eid, flat_nodes, loc_points):
-- 
2.43.0

