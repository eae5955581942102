From 63642b006b815321967c45537398a29b6785deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 01/22] fix: compare node keys with Object.is when committing a
 patch

The renderer decides with Object.is whether a node is kept, but the commit
decided with !==. A NaN key therefore unmounted and remounted the same block
(its content vanished), and 0 against -0 patched a node that had been rendered
from scratch (a TypeError).
---
 src/commit.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commit.ts b/src/commit.ts
index 125c7e2..669b98f 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -4,6 +4,7 @@ import {
   type RenderNode,
   type RenderRoot,
 } from './base.js';
+import { is } from './compare.js';
 
 export function mount(node: RenderNode): void {
   mountChild(node, null);
@@ -41,7 +42,7 @@ function applyPatch(
     reparentChild(oldNode, index, parent);
     return;
   }
-  if (oldNode.type !== newNode.type || oldNode.key !== newNode.key) {
+  if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
     unmountChild(oldNode);
     mountChild(newNode, getSiblingDOMNode(newNode));
   } else if (newNode.type === Bind) {
-- 
2.43.0


From 8749370086f4eb0e98dbe23f89e9c06a2d6f011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 02/22] fix: tell partials apart that split the same strings
 differently

The interpolation cache was keyed by the flattened strings of the partials and
one position per partial, so Partial`a${x}b` followed by Partial`c` hit the
entry of Partial`a` followed by Partial`b${x}c` and produced its template.
---
 src/velement.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/velement.ts b/src/velement.ts
index dae71c6..d2b7186 100644
--- a/src/velement.ts
+++ b/src/velement.ts
@@ -52,8 +52,12 @@ export class Partial {
     for (let i = 0, l = values.length; i < l; i++) {
       const value = values[i]!;
       if (value instanceof Partial) {
-        literalStrings.push(...value.strings);
-        literalPositions.push(i);
+        for (const string of value.strings) {
+          literalStrings.push(string);
+          // Recorded per string, so that partials that split the same strings
+          // differently do not share an interpolation.
+          literalPositions.push(i);
+        }
         flattenedValues.push(...value.values);
       } else {
         flattenedValues.push(value);
-- 
2.43.0


From 44aee1b5439ae8f5e0d9a576c77dd123bc63fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 03/22] fix: drop the captures of a route that only matches a
 prefix

A leaf route matching a proper prefix of the URL is passed over for its next
sibling, but its captures stayed in the list handed to the resolver.
---
 src/addons/router/router.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/addons/router/router.ts b/src/addons/router/router.ts
index 88c336b..0621d0c 100644
--- a/src/addons/router/router.ts
+++ b/src/addons/router/router.ts
@@ -57,11 +57,12 @@ export class Router<TResult> {
       );
 
       if (captures !== null) {
-        collectedCaptures.push(...captures);
         if (components.length === componentIndex + patterns.length) {
+          collectedCaptures.push(...captures);
           return resolver?.(collectedCaptures, url);
         }
         if (childRoutes.length > 0) {
+          collectedCaptures.push(...captures);
           routes = childRoutes;
           routeIndex = 0;
           componentIndex += patterns.length;
-- 
2.43.0


From 8026e650a35327d0753645af5a695315b7dcc462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 04/22] fix: do not match 'NaN' as an integer

Number.parseInt('NaN') is NaN, whose string equals the component.
---
 src/addons/router/matchers.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/router/matchers.ts b/src/addons/router/matchers.ts
index 11b6438..a6c7e12 100644
--- a/src/addons/router/matchers.ts
+++ b/src/addons/router/matchers.ts
@@ -27,7 +27,7 @@ export function encoded(component: string): string {
 
 export function integer(component: string): number | undefined {
   const n = Number.parseInt(component, 10);
-  return n.toString() === component ? n : undefined;
+  return Number.isInteger(n) && n.toString() === component ? n : undefined;
 }
 
 export function keyword<const T extends string>(s: T): Matcher<T> {
-- 
2.43.0


From 6c6f219a765c8f2c132556a56739083b69453af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 05/22] fix: skip deleted nodes while iterating a linked list

Deleting the node being visited and then its successor left the iterator with
a stale link, so a signal notified a subscriber that had been unsubscribed.
---
 src/addons/signal/linked-list.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/linked-list.ts b/src/addons/signal/linked-list.ts
index a93a955..c3fc72f 100644
--- a/src/addons/signal/linked-list.ts
+++ b/src/addons/signal/linked-list.ts
@@ -20,7 +20,10 @@ export class LinkedList<T> implements Iterable<T> {
 
   *[Symbol.iterator](): Generator<T> {
     for (let node = this._head; node !== null; node = node.next) {
-      yield node.value;
+      // A node deleted during the iteration may still lead to another one.
+      if (isNodeOwned(node, this)) {
+        yield node.value;
+      }
     }
   }
 
-- 
2.43.0


From 3d3a4bcc37c3cf3ee9e9ed690df3707fd7613ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 06/22] fix: end the transition when its action throws

isPending stayed true for good after a synchronous error of the action.
---
 src/addons/hooks.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/addons/hooks.ts b/src/addons/hooks.ts
index d49b3f1..714a958 100644
--- a/src/addons/hooks.ts
+++ b/src/addons/hooks.ts
@@ -113,7 +113,13 @@ export function Transition(): HookFunction<
           setIsPending(false, { transition });
         };
         setIsPending(true, { flushSync: true });
-        const result = action(transition);
+        let result: T;
+        try {
+          result = action(transition);
+        } catch (error) {
+          endTransition();
+          throw error;
+        }
         if (result instanceof Promise) {
           result.then(endTransition, endTransition);
         } else {
-- 
2.43.0


From 37b4123d0d57ed9b732ae011f81681fcea5ffe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 07/22] fix: run an effect or ref cleanup at most once

A cleanup was forgotten only after it (and the next setup) had returned, so an
error thrown by either ran the same cleanup again at the next update or unmount.
---
 src/component.ts |  9 ++++++---
 src/dom/part.ts  | 10 +++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 1153477..3ea503b 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -175,7 +175,9 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
   connect(node: RenderNode.ComponentNode<TProps>): void {
     for (const hook of this._context!._hooks) {
       if (hook.type === HookType.EFFECT && hook.dirty) {
-        hook.cleanup?.();
+        const { cleanup } = hook;
+        hook.cleanup = undefined;
+        cleanup?.();
         hook.cleanup = hook.setup();
         hook.dirty = false;
       }
@@ -185,9 +187,10 @@ export class FunctionComponent<TProps = any, TReturn = unknown>
 
   disconnect(): void {
     for (const hook of this._context!._hooks) {
-      if (hook.type === HookType.EFFECT && hook.cleanup !== undefined) {
-        hook.cleanup();
+      if (hook.type === HookType.EFFECT) {
+        const { cleanup } = hook;
         hook.cleanup = undefined;
+        cleanup?.();
       }
     }
     this._connectedNode = null;
diff --git a/src/dom/part.ts b/src/dom/part.ts
index dd78029..cf682e3 100644
--- a/src/dom/part.ts
+++ b/src/dom/part.ts
@@ -257,15 +257,19 @@ export class ElementPart extends DOMPart {
 
   override commitUpdate(oldValue: unknown, newValue: unknown): void {
     if (oldValue !== newValue) {
-      this._cleanup?.();
-      this._cleanup = undefined;
+      this._runCleanup();
       this.commitMount(newValue);
     }
   }
 
   override commitUnmount(_value: unknown, _cascade: boolean): void {
-    this._cleanup?.();
+    this._runCleanup();
+  }
+
+  private _runCleanup(): void {
+    const cleanup = this._cleanup;
     this._cleanup = undefined;
+    cleanup?.();
   }
 }
 
-- 
2.43.0


From 75d81f90c9e9cd9711904c4e7f6214db2e59fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 08/22] fix: do not compute a state eagerly past deferred
 actions

An action whose lanes an earlier render skipped waits in the hook, not in the
dispatcher. The next dispatch still reduced the current state eagerly, so it
overwrote the deferred action (two increments gave 1) or was dropped as a no-op
although the deferred action changed the state afterwards.
---
 src/component.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/component.ts b/src/component.ts
index 3ea503b..c917d99 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -377,7 +377,12 @@ export class RenderContext {
           const { pendingActions, currentState, reducer } = dispatcher;
           let eagerState: TState | undefined;
 
-          if (pendingActions.length === 0) {
+          // An action deferred by an earlier render comes before this one, so
+          // the current state is not the state this action applies to.
+          if (
+            pendingActions.length === 0 &&
+            reducerHook.memoizedActions.length === 0
+          ) {
             const areStatesEqual = options.areStatesEqual ?? is;
             eagerState = reducer(currentState, payload);
 
@@ -403,12 +408,13 @@ export class RenderContext {
         currentState: getInitialState(initialState),
         pendingActions: [],
       };
-      currentHook = {
+      const reducerHook: Hook.ReducerHook<TState, TAction> = {
         type: HookType.REDUCER,
         memoizedState: dispatcher.currentState,
         memoizedActions: [],
         dispatcher,
       };
+      currentHook = reducerHook;
       this._hooks.push(currentHook);
     }
 
-- 
2.43.0


From 7972bcc8e087020ce80c9faa3823999ea0dbf5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 09/22] fix: keep lanes staged for the updates a flush leaves
 behind

A flush stops at the first update that is not staged yet. It then forgot every
staged lane, so a staged update behind that one (its host callback fired first)
was never flushed and its handle never settled.
---
 src/runtime.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime.ts b/src/runtime.ts
index 7c6a91e..70f16ff 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -578,7 +578,11 @@ export class Runtime implements Renderer, Dispatcher {
       }
     }
 
-    this._stagedLanes = NoLanes;
+    // The lanes of the updates left in the queue stay staged: their callbacks
+    // have run already and nothing would flush them otherwise.
+    if (this._updateQueue.peek() === undefined) {
+      this._stagedLanes = NoLanes;
+    }
   }
 }
 
-- 
2.43.0


From ea297ceb00f0761869cc3eb6a60bf24d91242887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 10/22] fix: start a new batch at an update with a user handler

Such an update joined a batch of flushSync updates when both were staged. The
batch was then committed synchronously and the handler never ran.
---
 src/runtime.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/runtime.ts b/src/runtime.ts
index 70f16ff..3542064 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -527,6 +527,13 @@ export class Runtime implements Renderer, Dispatcher {
           // defer it so it commits as its own batch.
           break;
         }
+        if (
+          this._flushLanes !== NoLanes &&
+          update.lanes & UserHandlerLane
+        ) {
+          // The handler commits its own update only, not the batch before it.
+          break;
+        }
         this._flushLanes |= update.lanes;
         this._updateBatch.push(this._updateQueue.dequeue()!);
       } while (!(this._flushLanes & UserHandlerLane));
-- 
2.43.0


From 0ee8c2c4128251db36a657c5445096d61363dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 11/22] fix: render from scratch after an unmount of the same
 batch

---
 src/dom/root.ts | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/dom/root.ts b/src/dom/root.ts
index 177f47c..2bb27e1 100644
--- a/src/dom/root.ts
+++ b/src/dom/root.ts
@@ -33,9 +33,11 @@ export class DOMRoot {
         pendingLanes: AllLanes,
         prepare: (_lanes, renderer) => {
           const element = wrap(value);
-          this._root.left =
-            this._root.right !== null
-              ? renderer.diff(this._root.right, element, scope, 0, this._root)
+          // There is nothing left to diff against once an unmount is prepared.
+          const oldNode = this._root.left !== null ? this._root.right : null;
+          const newNode =
+            oldNode !== null
+              ? renderer.diff(oldNode, element, scope, 0, this._root)
               : renderer.render(
                   element,
                   scope,
@@ -43,13 +45,21 @@ export class DOMRoot {
                   this._root,
                   new ContainerPart(this._container),
                 );
+          this._root.left = newNode;
           return () => {
-            if (this._root.right !== null) {
-              patch(this._root.right, this._root.left!);
+            if (this._root.left !== newNode) {
+              // Superseded by another update of the same batch.
+              return;
+            }
+            if (oldNode !== null) {
+              patch(oldNode, newNode);
             } else {
-              mount(this._root.left!);
+              if (this._root.right !== null) {
+                unmount(this._root.right);
+              }
+              mount(newNode);
             }
-            this._root.right = this._root.left;
+            this._root.right = newNode;
           };
         },
       },
@@ -64,6 +74,7 @@ export class DOMRoot {
         scope,
         pendingLanes: AllLanes,
         prepare: () => {
+          this._root.left = null;
           return () => {
             if (this._root.right !== null) {
               unmount(this._root.right);
-- 
2.43.0


From 78ad31f6086de21b0ac358db9d2e557f28b4297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 12/22] fix: place fragment children before the siblings in
 place

Children were anchored to the work-in-progress tree, whose nodes may not be
mounted yet, may be removed, or may belong to another parent.
---
 src/base.ts    |   2 -
 src/commit.ts  | 115 +++++++++++++++++++++++++++++++------------------
 src/runtime.ts |   5 ---
 3 files changed, 73 insertions(+), 49 deletions(-)

diff --git a/src/base.ts b/src/base.ts
index 7803f46..d49d64e 100644
--- a/src/base.ts
+++ b/src/base.ts
@@ -77,7 +77,6 @@ export type Mutation =
   | {
       type: MutationType.INSERT;
       node: RenderNode;
-      afterNode: RenderNode | undefined;
     }
   | {
       type: MutationType.UPDATE;
@@ -89,7 +88,6 @@ export type Mutation =
       type: MutationType.UPDATE_AND_MOVE;
       oldNode: RenderNode;
       newNode: RenderNode;
-      afterNode: RenderNode | undefined;
       index: number;
     }
   | {
diff --git a/src/commit.ts b/src/commit.ts
index 669b98f..bef87a6 100644
--- a/src/commit.ts
+++ b/src/commit.ts
@@ -1,5 +1,6 @@
 import {
   Bind,
+  type Mutation,
   MutationType,
   type RenderNode,
   type RenderRoot,
@@ -38,9 +39,11 @@ function applyPatch(
   index: number,
   parent: RenderNode | RenderRoot | null,
 ): void {
-  if (oldNode === newNode && isCommitted(oldNode)) {
+  if (oldNode === newNode) {
     reparentChild(oldNode, index, parent);
-    return;
+    if (isCommitted(oldNode)) {
+      return;
+    }
   }
   if (oldNode.type !== newNode.type || !is(oldNode.key, newNode.key)) {
     unmountChild(oldNode);
@@ -58,43 +61,68 @@ function applyPatch(
     }
   } else if (typeof newNode.type === 'function') {
     applyPatch(newNode.right[0]!, newNode.left[0]!, 0, newNode);
+    newNode.right = newNode.left.slice();
   } else {
-    for (const mutation of newNode.state.mutations.splice(0)) {
-      switch (mutation.type) {
-        case MutationType.INSERT:
-          mountChild(
-            mutation.node,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
-          break;
-        case MutationType.UPDATE:
-          applyPatch(
-            mutation.oldNode,
-            mutation.newNode,
-            mutation.index,
-            newNode,
-          );
-          break;
-        case MutationType.UPDATE_AND_MOVE:
-          applyPatch(
-            mutation.oldNode,
-            mutation.newNode,
-            mutation.index,
-            newNode,
-          );
-          moveChild(
-            mutation.newNode,
-            mutation.afterNode !== undefined
-              ? getChildDOMNode(mutation.afterNode)
-              : null,
-          );
-          break;
-        case MutationType.REMOVE:
-          unmountChild(mutation.node);
-          break;
-      }
+    applyMutations(newNode, newNode.state.mutations.splice(0));
+  }
+}
+
+function applyMutations(
+  parent: RenderNode.FragmentNode,
+  mutations: Mutation[],
+): void {
+  // The children in place, by new index. A child to insert or to move comes in
+  // only after its following siblings are known, so it is never an anchor
+  // before that.
+  const children: RenderNode[] = new Array(parent.left.length);
+  const pendings: Exclude<Mutation, { type: MutationType.REMOVE }>[] =
+    new Array(parent.left.length);
+
+  for (const mutation of mutations) {
+    switch (mutation.type) {
+      case MutationType.INSERT:
+        pendings[mutation.node.index] = mutation;
+        break;
+      case MutationType.UPDATE:
+        children[mutation.index] = mutation.oldNode;
+        pendings[mutation.index] = mutation;
+        break;
+      case MutationType.UPDATE_AND_MOVE:
+        pendings[mutation.index] = mutation;
+        break;
+      case MutationType.REMOVE:
+        unmountChild(mutation.node);
+        break;
+    }
+  }
+
+  parent.right = children;
+
+  for (const mutation of pendings) {
+    switch (mutation.type) {
+      case MutationType.INSERT:
+        mountChild(mutation.node, getSiblingDOMNode(mutation.node));
+        children[mutation.node.index] = mutation.node;
+        break;
+      case MutationType.UPDATE:
+        applyPatch(
+          mutation.oldNode,
+          mutation.newNode,
+          mutation.index,
+          parent,
+        );
+        children[mutation.index] = mutation.newNode;
+        break;
+      case MutationType.UPDATE_AND_MOVE:
+        applyPatch(
+          mutation.oldNode,
+          mutation.newNode,
+          mutation.index,
+          parent,
+        );
+        moveChild(mutation.newNode, getSiblingDOMNode(mutation.newNode));
+        children[mutation.index] = mutation.newNode;
+        break;
     }
   }
 }
@@ -103,22 +131,25 @@ function getChildDOMNode(node: RenderNode): ChildNode | null {
   if (typeof node.type === 'object') {
     return node.state.block.staticNodes[0]!;
   }
-  for (const child of node.left) {
+  for (const child of node.right) {
     const domNode = getChildDOMNode(child);
     if (domNode !== null) {
       return domNode;
     }
   }
-  return getSiblingDOMNode(node);
+  return null;
 }
 
 function getSiblingDOMNode(node: RenderNode): ChildNode | null {
   const part = node.part;
   // Only called on non-detached nodes, so parent is never null.
   while (node.parent!.type != null) {
-    const children = isCommitted(node) ? node.parent!.right : node.parent!.left;
+    const children: (RenderNode | undefined)[] = node.parent!.right;
     for (let i = node.index + 1, l = children.length; i < l; i++) {
-      const child = children[i]!;
+      const child = children[i];
+      if (child === undefined) {
+        continue;
+      }
       if (child.part !== part) {
         break;
       }
diff --git a/src/runtime.ts b/src/runtime.ts
index 3542064..ea5f14e 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -358,7 +358,6 @@ export class Runtime implements Renderer, Dispatcher {
           newMutations.push({
             type: MutationType.INSERT,
             node: newChild,
-            afterNode: newChildren[newTail + 1],
           });
           newChildren[newHead] = newChild;
           newHead++;
@@ -427,14 +426,12 @@ export class Runtime implements Renderer, Dispatcher {
           type: MutationType.UPDATE_AND_MOVE,
           oldNode: oldChildren[oldTail]!,
           newNode: tailChild,
-          afterNode: oldChildren[oldHead],
           index: newHead,
         });
         newMutations.push({
           type: MutationType.UPDATE_AND_MOVE,
           oldNode: oldChildren[oldHead]!,
           newNode: headChild,
-          afterNode: newChildren[newTail + 1],
           index: newTail,
         });
         newChildren[newHead] = tailChild;
@@ -481,7 +478,6 @@ export class Runtime implements Renderer, Dispatcher {
               type: MutationType.UPDATE_AND_MOVE,
               oldNode: oldChildren[oldIndex]!,
               newNode: newChild,
-              afterNode: newChildren[newTail + 1],
               index: newTail,
             });
             newChildren[newTail] = newChild;
@@ -497,7 +493,6 @@ export class Runtime implements Renderer, Dispatcher {
             newMutations.push({
               type: MutationType.INSERT,
               node: newChild,
-              afterNode: newChildren[newTail + 1],
             });
             newChildren[newTail] = newChild;
           }
-- 
2.43.0


From 220dd54e694c1e5c1f2ee95b5f797a57057fb249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 13/22] fix: render the outermost update of a batch first

An update prepared before one of its ancestors patched a tree which the
ancestor had diffed already.
---
 src/runtime.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime.ts b/src/runtime.ts
index ea5f14e..69a414a 100644
--- a/src/runtime.ts
+++ b/src/runtime.ts
@@ -540,6 +540,10 @@ export class Runtime implements Renderer, Dispatcher {
       try {
         const commitBatch: Commit[] = [];
 
+        // A render supersedes the updates pending below it, so the outermost
+        // comes first whatever its priority.
+        this._updateBatch.sort(compareScopes);
+
         for (const update of this._updateBatch) {
           const { lanes, transaction } = update;
           if (transaction.pendingLanes & lanes) {
@@ -615,6 +619,10 @@ function compareUpdates(update1: Update, update2: Update): number {
   if (highestLane1 !== highestLane2) {
     return highestLane1 - highestLane2;
   }
+  return compareScopes(update1, update2);
+}
+
+function compareScopes(update1: Update, update2: Update): number {
   const level1 = update1.transaction.scope.level;
   const level2 = update2.transaction.scope.level;
   return level1 - level2;
-- 
2.43.0


From 419dfed921a500a178db0a0a6819dcf3ea831ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 14/22] fix: honor the delay of a callback without
 scheduler.postTask

---
 src/dom/adapter.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dom/adapter.ts b/src/dom/adapter.ts
index b383209..9420367 100644
--- a/src/dom/adapter.ts
+++ b/src/dom/adapter.ts
@@ -57,6 +57,10 @@ export class DOMAdapter implements HostAdapter {
       return scheduler.postTask(callback, options);
     } else {
       return new Promise((resolve) => {
+        if (options?.delay !== undefined && options.delay > 0) {
+          setTimeout(resolve, options.delay);
+          return;
+        }
         switch (options?.priority) {
           case 'user-blocking': {
             const channel = new MessageChannel();
-- 
2.43.0


From 46e9b3f9da9c68df5b2765b3f57082d1bb46bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 15/22] fix: do not apply an eager state to a passthrough state

---
 src/component.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/component.ts b/src/component.ts
index c917d99..6207051 100644
--- a/src/component.ts
+++ b/src/component.ts
@@ -355,7 +355,10 @@ export class RenderContext {
       for (const action of memoizedActions) {
         const { payload, lanes, revertLanes } = action;
         if ((lanes & renderLanes) === lanes) {
-          nextState = action.eagerState ?? reducer(nextState, payload);
+          // A passthrough state has another base than the eager one.
+          nextState =
+            (options.passthrough ? undefined : action.eagerState) ??
+            reducer(nextState, payload);
           action.lanes = revertLanes;
         } else if ((revertLanes & renderLanes) === revertLanes) {
           action.revertLanes = NoLanes;
-- 
2.43.0


From b59eb237997e253ff7b7e73a6ed685d72525c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 16/22] fix: do not write NaN back into an assigned value of
 derived state

---
 src/addons/signal/derivable.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 8c288c3..15ca6d2 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -290,7 +290,7 @@ function finalizeValue<T>(target: T): T {
     for (const key of Reflect.ownKeys(target as object)) {
       const originalValue = (target as any)[key];
       const finalizedValue = finalizeValue(originalValue);
-      if (originalValue !== finalizedValue) {
+      if (!Object.is(originalValue, finalizedValue)) {
         (target as any)[key] = finalizedValue;
       }
     }
-- 
2.43.0


From 39789467817304341a1b453323d33b0a8149db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 17/22] fix: fail an in-memory navigation whose handler throws

---
 src/addons/router/adapter.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/addons/router/adapter.ts b/src/addons/router/adapter.ts
index 003b20a..0bdb625 100644
--- a/src/addons/router/adapter.ts
+++ b/src/addons/router/adapter.ts
@@ -167,10 +167,10 @@ export class InMemoryAdapter implements NavigationAdapter {
           : 'push';
     const scene = { url, state, navigationType };
     const interceptor: NavigationInterceptor = {
-      async intercept({ handler } = {}) {
-        const promise = handler?.();
-        if (promise !== undefined) {
-          promises.push(promise);
+      intercept({ handler } = {}) {
+        if (handler !== undefined) {
+          // Handle an error thrown by the handler like a rejection.
+          promises.push((async () => handler())());
         }
       },
       scroll() {},
-- 
2.43.0


From c2f599fa366f0702bfd55db9796133294b1d5810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 18/22] fix: follow a signal after reading it has thrown

---
 src/addons/signal/signal.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addons/signal/signal.ts b/src/addons/signal/signal.ts
index 164eb59..b24ec7d 100644
--- a/src/addons/signal/signal.ts
+++ b/src/addons/signal/signal.ts
@@ -74,13 +74,13 @@ export abstract class Signal<T> implements Bindable, HookObject<T> {
 
     context.useEffect(() => {
       const checkForChanges = () => {
+        batched = false;
         if (
           snapshot.version < this.version &&
           !is(snapshot.value, this.value)
         ) {
           context.forceUpdate();
         }
-        batched = false;
       };
       let batched = true;
       queueMicrotask(checkForChanges);
-- 
2.43.0


From 6276e8cae68c303c9467442d12dc40a5e4d3a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 19/22] fix: do not run setters on the copy of a derived value

A property with an accessor was assigned to the shallow copy like any
other one. This ran its setter on the copy, so that a setter which writes
to a nested object changed the object of the original value.
---
 src/addons/signal/derivable.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 15ca6d2..3b236d6 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -143,6 +143,18 @@ export function unwrap<T>(value: T): T {
 function commitValue<T>(receiver: Derivable<T>): T {
   let pendingValue = receiver._source.value;
   if (receiver._flags & FLAG_NEEDS_COMMIT) {
+    // An accessor is backed by other properties. Its changes are passed on to
+    // them first because its setter must not run on the clone, which still
+    // shares nested objects with the original.
+    for (const prop of receiver._properties!.values()) {
+      if (
+        prop._source instanceof Accessor &&
+        prop._flags & FLAG_PENDING_VALUE
+      ) {
+        commitValue(prop);
+        prop._flags &= ~FLAG_PENDING_VALUE;
+      }
+    }
     pendingValue = shallowClone(pendingValue);
     for (const [key, prop] of receiver._properties!.entries()) {
       if (prop._flags & FLAG_DELETED_PROPERTY) {
-- 
2.43.0


From 29e396291ad6053938e4ffa895571810e2cde513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 20/22] fix: refuse operations on drafts that would change the
 original

Defining a property on a draft, changing its prototype or freezing it was
applied to the original value, which must stay as it is.
---
 src/addons/signal/derivable.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 3b236d6..af79e2f 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -199,6 +199,11 @@ function draftTarget<T>(
   trackProperty: typeof getProperty = getProperty,
 ): { proxy: T; revoke: () => void } {
   const { proxy, revoke } = Proxy.revocable(target, {
+    // Operations that cannot be kept aside are refused because they would be
+    // applied to the original otherwise.
+    defineProperty() {
+      return false;
+    },
     deleteProperty(target, key) {
       const prop = getProperty(receiver, target, key);
       const success = !!(prop._flags & FLAG_CONFIGURABLE_PROPERTY);
@@ -282,6 +287,12 @@ function draftTarget<T>(
       }
       return baseKeys;
     },
+    preventExtensions() {
+      return false;
+    },
+    setPrototypeOf() {
+      return false;
+    },
   });
   const revokeBatch = [revoke];
   return {
-- 
2.43.0


From 80af4a96fd4aba0c45d93bb378a2d8bfb7e20d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:19 +0000
Subject: [PATCH 21/22] fix: do not find or list properties of drafts that were
 only read

---
 src/addons/signal/derivable.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index af79e2f..29911e1 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -382,6 +382,7 @@ function resolveProperty<T>(
   const descriptor = getPropertyDescriptor(target, key);
 
   if (descriptor === undefined) {
+    // The property does not exist until it is assigned.
     return new Derivable(
       new Atom<unknown>(undefined),
       receiver,
@@ -389,7 +390,8 @@ function resolveProperty<T>(
       FLAG_CONFIGURABLE_PROPERTY |
         FLAG_ENUMERABLE_PROPERTY |
         FLAG_WRITABLE_PROPERTY |
-        FLAG_DYNAMIC_PROPERTY,
+        FLAG_DYNAMIC_PROPERTY |
+        FLAG_DELETED_PROPERTY,
     );
   }
 
-- 
2.43.0


From b472cfe0ebbac24f8975bd4d17f7469fb9f688fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:39 +0000
Subject: [PATCH 22/22] fix: describe properties of drafts with their present
 values

---
 src/addons/signal/derivable.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/addons/signal/derivable.ts b/src/addons/signal/derivable.ts
index 29911e1..5fb9aa8 100644
--- a/src/addons/signal/derivable.ts
+++ b/src/addons/signal/derivable.ts
@@ -237,13 +237,16 @@ function draftTarget<T>(
       }
       if (prop._flags & FLAG_DYNAMIC_PROPERTY) {
         return {
-          value: prop._source.value,
+          value: commitValue(prop),
           writable: true,
           enumerable: true,
           configurable: true,
         };
       }
-      return Reflect.getOwnPropertyDescriptor(target, key);
+      const descriptor = Reflect.getOwnPropertyDescriptor(target, key);
+      return descriptor !== undefined && 'value' in descriptor
+        ? { ...descriptor, value: commitValue(prop) }
+        : descriptor;
     },
     set(target, key, value, _proxyReceiver) {
       const prop = getProperty(receiver, target, key);
-- 
2.43.0

