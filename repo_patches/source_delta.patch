From f4b9719c3c4ab3366d9bb42b052dc398c41dc9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:10 +0000
Subject: [PATCH 001/129] fix: keep the new element when inserting in the
 middle of a linked list

InsertValueInLinkedList() linked the successor in place of the new element
when the position was neither the first nor the last.  The value was lost and
the element count no longer matched the list.
---
 wizard/hashmap.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 6253f67..368a1c9 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1046,10 +1046,9 @@ WizardExport WizardBooleanType InsertValueInLinkedList(
               element=element->next;
               next->next=element->next;
             }
-            next=next->next;
-            element->next=next;
             if (list_info->next == next->next)
               list_info->next=next;
+            element->next=next;
           }
     }
   list_info->elements++;
-- 
2.43.0


From a17c22dba7d47be360f0802025defa94665fff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:22 +0000
Subject: [PATCH 002/129] fix: release the replaced element when inserting in a
 sorted linked list

Replacing the first element leaked it, and a cursor that stood on a replaced
element was left pointing to released memory.
---
 wizard/hashmap.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 368a1c9..5991db8 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1122,11 +1122,15 @@ WizardExport WizardBooleanType InsertValueInSortedLinkedList(
       {
         if (i == 0)
           {
-            *replace=next->next->value;
-            next->next=next->next->next;
-            if (element != (ElementInfo *) NULL)
-              element->next=(ElementInfo *) RelinquishWizardMemory(
-                element->next);
+            ElementInfo
+              *replaced;
+
+            replaced=next->next;
+            *replace=replaced->value;
+            next->next=replaced->next;
+            if (list_info->next == replaced)
+              list_info->next=next;
+            replaced=(ElementInfo *) RelinquishWizardMemory(replaced);
             list_info->elements--;
           }
         if (element != (ElementInfo *) NULL)
-- 
2.43.0


From 166dfaa67273e453812f72c5310a9fe22f13a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:23 +0000
Subject: [PATCH 003/129] fix: count a replaced hash-map entry only once

PutEntryInHashmap() removed the entry it replaced without adjusting the entry
count, so the map reported more entries than it held and was never empty
again.
---
 wizard/hashmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 5991db8..656e186 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1541,6 +1541,7 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
             if (compare == WizardTrue)
               {
                 (void) RemoveElementFromLinkedList(list_info,i);
+                hashmap_info->entries--;
                 if (hashmap_info->relinquish_key != (void *(*)(void *)) NULL)
                   entry->key=hashmap_info->relinquish_key(entry->key);
                 if (hashmap_info->relinquish_value != (void *(*)(void *)) NULL)
-- 
2.43.0


From cbc52287549e268b026151000034bb32fd877eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:49 +0000
Subject: [PATCH 004/129] fix: keep a hash-map iteration intact across lookups

Looking up, removing or putting a key walked its bucket with the cursor that
the iteration over the map uses.  Entries of that bucket were then skipped or
returned twice by the iteration in progress.
---
 wizard/hashmap.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 656e186..c668b05 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -713,6 +713,9 @@ WizardExport void *GetValueFromHashmap(HashmapInfo *hashmap_info,
   LinkedListInfo
     *list_info;
 
+   ElementInfo
+    *next;
+
    EntryInfo
     *entry;
 
@@ -731,10 +734,9 @@ WizardExport void *GetValueFromHashmap(HashmapInfo *hashmap_info,
   list_info=hashmap_info->map[hash % hashmap_info->capacity];
   if (list_info != (LinkedListInfo *) NULL)
     {
-      list_info->next=list_info->head;
-      entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
-      while (entry != (EntryInfo *) NULL)
+      for (next=list_info->head; next != (ElementInfo *) NULL; next=next->next)
       {
+        entry=(EntryInfo *) next->value;
         if (entry->hash == hash)
           {
             WizardBooleanType
@@ -751,7 +753,6 @@ WizardExport void *GetValueFromHashmap(HashmapInfo *hashmap_info,
                 return(value);
               }
           }
-        entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
       }
     }
   UnlockSemaphoreInfo(hashmap_info->semaphore);
@@ -1496,6 +1497,9 @@ static WizardBooleanType IncreaseHashmapCapacity(HashmapInfo *hashmap_info)
 WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
   const void *key,const void *value)
 {
+  ElementInfo
+    *element;
+
   EntryInfo
     *entry,
     *next;
@@ -1525,10 +1529,10 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
     }
   else
     {
-      list_info->next=list_info->head;
-      entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
-      for (i=0; entry != (EntryInfo *) NULL; i++)
+      element=list_info->head;
+      for (i=0; element != (ElementInfo *) NULL; i++)
       {
+        entry=(EntryInfo *) element->value;
         if (entry->hash == next->hash)
           {
             WizardBooleanType
@@ -1550,7 +1554,7 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
                 break;
               }
           }
-        entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
+        element=element->next;
       }
     }
   if (InsertValueInLinkedList(list_info,0,next) == WizardFalse)
@@ -1743,6 +1747,9 @@ WizardExport void *RemoveElementFromLinkedList(LinkedListInfo *list_info,
 WizardExport void *RemoveEntryFromHashmap(HashmapInfo *hashmap_info,
   const void *key)
 {
+  ElementInfo
+    *element;
+
   EntryInfo
     *entry;
 
@@ -1767,10 +1774,10 @@ WizardExport void *RemoveEntryFromHashmap(HashmapInfo *hashmap_info,
   list_info=hashmap_info->map[hash % hashmap_info->capacity];
   if (list_info != (LinkedListInfo *) NULL)
     {
-      list_info->next=list_info->head;
-      entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
-      for (i=0; entry != (EntryInfo *) NULL; i++)
+      element=list_info->head;
+      for (i=0; element != (ElementInfo *) NULL; i++)
       {
+        entry=(EntryInfo *) element->value;
         if (entry->hash == hash)
           {
             WizardBooleanType
@@ -1797,7 +1804,7 @@ WizardExport void *RemoveEntryFromHashmap(HashmapInfo *hashmap_info,
                 return(value);
               }
           }
-        entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
+        element=element->next;
       }
     }
   UnlockSemaphoreInfo(hashmap_info->semaphore);
-- 
2.43.0


From 39ab5cddc6b7d183aa1da27ac01e91b14295c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:49 +0000
Subject: [PATCH 005/129] fix: accept a hash-map capacity of zero

The capacity is only an initial estimate, but a map created with an estimate
of zero divided by zero on its first use.
---
 wizard/hashmap.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index c668b05..43e16e3 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1328,12 +1328,12 @@ WizardExport HashmapInfo *NewHashmap(const size_t capacity,
   hashmap_info->relinquish_key=relinquish_key;
   hashmap_info->relinquish_value=relinquish_value;
   hashmap_info->entries=0;
-  hashmap_info->capacity=capacity;
-  hashmap_info->map=(LinkedListInfo **) AcquireQuantumMemory((size_t)
-    capacity+1UL,sizeof(*hashmap_info->map));
+  hashmap_info->capacity=capacity == 0 ? 1UL : capacity;
+  hashmap_info->map=(LinkedListInfo **) AcquireQuantumMemory(
+    hashmap_info->capacity+1UL,sizeof(*hashmap_info->map));
   if (hashmap_info->map == (LinkedListInfo **) NULL)
     ThrowWizardFatalError(CacheDomain,MemoryError);
-  (void) memset(hashmap_info->map,0,(size_t) capacity*
+  (void) memset(hashmap_info->map,0,hashmap_info->capacity*
     sizeof(*hashmap_info->map));
   hashmap_info->semaphore=AcquireSemaphoreInfo();
   hashmap_info->signature=WizardSignature;
-- 
2.43.0


From 47fa577c9d3a314e4bd338855d3a12ccac5db153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:49 +0000
Subject: [PATCH 006/129] fix: release the message when hashing a string key

HashStringType() leaked a copy of the key on every hash-map access.
---
 wizard/hashmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 43e16e3..ca62280 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -908,6 +908,7 @@ WizardExport size_t HashStringType(const void *string)
   message=StringToStringInfo((const char *) string);
   UpdateHash(hashmap_info,message);
   FinalizeHash(hashmap_info);
+  message=DestroyStringInfo(message);
   hash=0;
   digest=GetHashDigest(hashmap_info);
   datum=GetStringInfoDatum(digest);
-- 
2.43.0


From bebce8a83eb1a8abcdf69b2265a082a8866999cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:33 +0000
Subject: [PATCH 007/129] fix: keep the splay-tree iterator off removed nodes

Deleting, removing or replacing the node an iterator would return next left the
iterator with a released key, which the next step of the iteration compared.
---
 wizard/splay-tree.c | 46 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/wizard/splay-tree.c b/wizard/splay-tree.c
index 40be8b1..7ce3dca 100644
--- a/wizard/splay-tree.c
+++ b/wizard/splay-tree.c
@@ -118,6 +118,7 @@ static int
     const void *);
 
 static void
+  AdvanceSplayTreeIterator(SplayTreeInfo *),
   SplaySplayTree(SplayTreeInfo *,const void *);
 
 /*
@@ -170,6 +171,8 @@ WizardExport WizardBooleanType AddValueToSplayTree(SplayTreeInfo *splay_tree,
           ((splay_tree->root->key < key) ? -1 : 0);
       if (compare == 0)
         {
+          if (splay_tree->next == splay_tree->root->key)
+            splay_tree->next=(void *) key;
           if ((splay_tree->relinquish_value != (void *(*)(void *)) NULL) &&
               (splay_tree->root->value != (void *) NULL))
             splay_tree->root->value=splay_tree->relinquish_value(
@@ -217,6 +220,45 @@ WizardExport WizardBooleanType AddValueToSplayTree(SplayTreeInfo *splay_tree,
   return(WizardTrue);
 }
 
+/*
+%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
+%                                                                             %
+%                                                                             %
+%                                                                             %
++   A d v a n c e S p l a y T r e e I t e r a t o r                           %
+%                                                                             %
+%                                                                             %
+%                                                                             %
+%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
+%
+%  AdvanceSplayTreeIterator() moves an iterator that is about to return the
+%  root node to its successor.  Call it before the root node is removed.
+%
+%  The format of the AdvanceSplayTreeIterator method is:
+%
+%      void AdvanceSplayTreeIterator(SplayTreeInfo *splay_tree)
+%
+%  A description of each parameter follows.
+%
+%    o splay_tree: The splay-tree info.
+%
+*/
+static void AdvanceSplayTreeIterator(SplayTreeInfo *splay_tree)
+{
+  NodeInfo
+    *node;
+
+  if (splay_tree->next != splay_tree->root->key)
+    return;
+  splay_tree->next=(void *) NULL;
+  node=splay_tree->root->right;
+  if (node == (NodeInfo *) NULL)
+    return;
+  while (node->left != (NodeInfo *) NULL)
+    node=node->left;
+  splay_tree->next=node->key;
+}
+
 /*
 %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
 %                                                                             %
@@ -538,6 +580,7 @@ WizardExport WizardBooleanType DeleteNodeByValueFromSplayTree(
             UnlockSemaphoreInfo(splay_tree->semaphore);
             return(WizardFalse);
           }
+        AdvanceSplayTreeIterator(splay_tree);
         left=splay_tree->root->left;
         right=splay_tree->root->right;
         if ((splay_tree->relinquish_value != (void *(*)(void *)) NULL) &&
@@ -625,6 +668,7 @@ WizardExport WizardBooleanType DeleteNodeFromSplayTree(
       UnlockSemaphoreInfo(splay_tree->semaphore);
       return(WizardFalse);
     }
+  AdvanceSplayTreeIterator(splay_tree);
   left=splay_tree->root->left;
   right=splay_tree->root->right;
   if ((splay_tree->relinquish_value != (void *(*)(void *)) NULL) &&
@@ -1197,6 +1241,7 @@ WizardExport void *RemoveNodeByValueFromSplayTree(SplayTreeInfo *splay_tree,
             UnlockSemaphoreInfo(splay_tree->semaphore);
             return(key);
           }
+        AdvanceSplayTreeIterator(splay_tree);
         left=splay_tree->root->left;
         right=splay_tree->root->right;
         if ((splay_tree->relinquish_value != (void *(*)(void *)) NULL) &&
@@ -1284,6 +1329,7 @@ WizardExport void *RemoveNodeFromSplayTree(SplayTreeInfo *splay_tree,
       UnlockSemaphoreInfo(splay_tree->semaphore);
       return(value);
     }
+  AdvanceSplayTreeIterator(splay_tree);
   left=splay_tree->root->left;
   right=splay_tree->root->right;
   value=splay_tree->root->value;
-- 
2.43.0


From 3fcb244b6c3b2cbf6f40c7e7dd625b29127cf573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:59 +0000
Subject: [PATCH 008/129] fix: test list bounds under the lock

The linked-list methods compared the element count with the capacity or index
before they took the lock.  A second thread could fill, shorten or empty the
list in between, which exceeded the capacity or dereferenced a missing element.
The element count is now also read under the lock.
---
 wizard/hashmap.c | 72 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 18 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index ca62280..62a8ffe 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -154,14 +154,18 @@ WizardExport WizardBooleanType AppendValueToLinkedList(
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (list_info->elements == list_info->capacity)
-    return(WizardFalse);
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
     return(WizardFalse);
   next->value=(void *) value;
   next->next=(ElementInfo *) NULL;
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == list_info->capacity)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      next=(ElementInfo *) RelinquishWizardMemory(next);
+      return(WizardFalse);
+    }
   if (list_info->next == (ElementInfo *) NULL)
     list_info->next=next;
   if (list_info->elements == 0)
@@ -450,9 +454,12 @@ WizardExport void *GetLastValueInLinkedList(LinkedListInfo *list_info)
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (list_info->elements == 0)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == 0)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   value=list_info->tail->value;
   UnlockSemaphoreInfo(list_info->semaphore);
   return(value);
@@ -678,9 +685,15 @@ WizardExport size_t GetNumberOfEntriesInHashmap(
 WizardExport size_t GetNumberOfElementsInLinkedList(
   const LinkedListInfo *list_info)
 {
+  size_t
+    elements;
+
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  return(list_info->elements);
+  LockSemaphoreInfo(list_info->semaphore);
+  elements=list_info->elements;
+  UnlockSemaphoreInfo(list_info->semaphore);
+  return(elements);
 }
 
 /*
@@ -799,9 +812,12 @@ WizardExport void *GetValueFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (index >= list_info->elements)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (index >= list_info->elements)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (index == 0)
     {
       value=list_info->head->value;
@@ -1003,15 +1019,19 @@ WizardExport WizardBooleanType InsertValueInLinkedList(
   assert(list_info->signature == WizardSignature);
   if (value == NULL)
     return(WizardFalse);
-  if ((index > list_info->elements) ||
-      (list_info->elements == list_info->capacity))
-    return(WizardFalse);
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
     return(WizardFalse);
   next->value=(void *) value;
   next->next=(ElementInfo *) NULL;
   LockSemaphoreInfo(list_info->semaphore);
+  if ((index > list_info->elements) ||
+      (list_info->elements == list_info->capacity))
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      next=(ElementInfo *) RelinquishWizardMemory(next);
+      return(WizardFalse);
+    }
   if (list_info->elements == 0)
     {
       if (list_info->next == (ElementInfo *) NULL)
@@ -1108,14 +1128,18 @@ WizardExport WizardBooleanType InsertValueInSortedLinkedList(
   if ((compare == (int (*)(const void *,const void *)) NULL) ||
       (value == (const void *) NULL))
     return(WizardFalse);
-  if (list_info->elements == list_info->capacity)
-    return(WizardFalse);
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
     return(WizardFalse);
   next->value=(void *) value;
   element=(ElementInfo *) NULL;
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == list_info->capacity)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      next=(ElementInfo *) RelinquishWizardMemory(next);
+      return(WizardFalse);
+    }
   next->next=list_info->head;
   while (next->next != (ElementInfo *) NULL)
   {
@@ -1213,7 +1237,8 @@ WizardExport WizardBooleanType IsLinkedListEmpty(
 {
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  return(list_info->elements == 0 ? WizardTrue : WizardFalse);
+  return(GetNumberOfElementsInLinkedList(list_info) == 0 ? WizardTrue :
+    WizardFalse);
 }
 
 /*
@@ -1609,9 +1634,14 @@ WizardExport void *RemoveElementByValueFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if ((list_info->elements == 0) || (value == NULL))
+  if (value == NULL)
     return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == 0)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (value == list_info->head->value)
     {
       if (list_info->next == list_info->head)
@@ -1687,9 +1717,12 @@ WizardExport void *RemoveElementFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (index >= list_info->elements)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (index >= list_info->elements)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (index == 0)
     {
       if (list_info->next == list_info->head)
@@ -1842,9 +1875,12 @@ WizardExport void *RemoveLastElementFromLinkedList(LinkedListInfo *list_info)
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (list_info->elements == 0)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == 0)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (list_info->next == list_info->tail)
     list_info->next=(ElementInfo *) NULL;
   if (list_info->elements == 1UL)
-- 
2.43.0


From 6ef1aae6e5717fe2613ea72764978741f30df291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:19 +0000
Subject: [PATCH 009/129] fix: read the hash-map entry count under the lock

Replacing an entry lowers the count and raises it again.
Another thread that asked for the count in between got a number the map never had.
---
 wizard/hashmap.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 62a8ffe..c4f499b 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -653,9 +653,15 @@ WizardExport void *GetNextValueInLinkedList(LinkedListInfo *list_info)
 WizardExport size_t GetNumberOfEntriesInHashmap(
   const HashmapInfo *hashmap_info)
 {
+  size_t
+    entries;
+
   assert(hashmap_info != (HashmapInfo *) NULL);
   assert(hashmap_info->signature == WizardSignature);
-  return(hashmap_info->entries);
+  LockSemaphoreInfo(hashmap_info->semaphore);
+  entries=hashmap_info->entries;
+  UnlockSemaphoreInfo(hashmap_info->semaphore);
+  return(entries);
 }
 
 /*
@@ -1207,7 +1213,8 @@ WizardExport WizardBooleanType IsHashmapEmpty(const HashmapInfo *hashmap_info)
 {
   assert(hashmap_info != (HashmapInfo *) NULL);
   assert(hashmap_info->signature == WizardSignature);
-  return(hashmap_info->entries == 0 ? WizardTrue : WizardFalse);
+  return(GetNumberOfEntriesInHashmap(hashmap_info) == 0 ? WizardTrue :
+    WizardFalse);
 }
 
 /*
-- 
2.43.0


From 0567f07540d75ca1d1f14a75d185109cbb5099fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:19 +0000
Subject: [PATCH 010/129] fix: test for an empty splay-tree under the lock

The tree could become empty between the test and the lock.
The lookup then dereferenced a null root.
---
 wizard/splay-tree.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/wizard/splay-tree.c b/wizard/splay-tree.c
index 7ce3dca..9192ae2 100644
--- a/wizard/splay-tree.c
+++ b/wizard/splay-tree.c
@@ -653,9 +653,12 @@ WizardExport WizardBooleanType DeleteNodeFromSplayTree(
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(WizardFalse);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(WizardFalse);
+    }
   SplaySplayTree(splay_tree,key);
   splay_tree->key=(void *) NULL;
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
@@ -818,10 +821,13 @@ WizardExport const void *GetNextKeyInSplayTree(SplayTreeInfo *splay_tree)
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
+  LockSemaphoreInfo(splay_tree->semaphore);
   if ((splay_tree->root == (NodeInfo *) NULL) ||
       (splay_tree->next == (void *) NULL))
-    return((void *) NULL);
-  LockSemaphoreInfo(splay_tree->semaphore);
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,splay_tree->next);
   splay_tree->next=(void *) NULL;
   node=splay_tree->root->right;
@@ -872,10 +878,13 @@ WizardExport const void *GetNextValueInSplayTree(SplayTreeInfo *splay_tree)
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
+  LockSemaphoreInfo(splay_tree->semaphore);
   if ((splay_tree->root == (NodeInfo *) NULL) ||
       (splay_tree->next == (void *) NULL))
-    return((void *) NULL);
-  LockSemaphoreInfo(splay_tree->semaphore);
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,splay_tree->next);
   splay_tree->next=(void *) NULL;
   node=splay_tree->root->right;
@@ -928,9 +937,12 @@ WizardExport const void *GetValueFromSplayTree(SplayTreeInfo *splay_tree,
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return((void *) NULL);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,key);
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
     compare=splay_tree->compare(splay_tree->root->key,key);
@@ -1201,9 +1213,12 @@ WizardExport void *RemoveNodeByValueFromSplayTree(SplayTreeInfo *splay_tree,
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   key=(void *) NULL;
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(key);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(key);
+    }
   next=(NodeInfo *) GetFirstSplayTreeNode(splay_tree);
   while (next != (NodeInfo *) NULL)
   {
@@ -1314,9 +1329,12 @@ WizardExport void *RemoveNodeFromSplayTree(SplayTreeInfo *splay_tree,
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   value=(void *) NULL;
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(value);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(value);
+    }
   SplaySplayTree(splay_tree,key);
   splay_tree->key=(void *) NULL;
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
-- 
2.43.0


From 30b35a23fb367e978115b2554bd99efb8e990e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:16 +0000
Subject: [PATCH 011/129] fix: carry the eighth word from block to block in
 SHA-224

The transform did not add the last register to the accumulator.
Every digest of a message that needs more than one block was wrong.
---
 wizard/sha2224.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/sha2224.c b/wizard/sha2224.c
index bf17f6d..54cf2cb 100644
--- a/wizard/sha2224.c
+++ b/wizard/sha2224.c
@@ -566,6 +566,7 @@ static void TransformSHA2224(SHA2224Info *sha_info)
   sha_info->accumulator[4]=Trunc32(sha_info->accumulator[4]+E);
   sha_info->accumulator[5]=Trunc32(sha_info->accumulator[5]+F);
   sha_info->accumulator[6]=Trunc32(sha_info->accumulator[6]+G);
+  sha_info->accumulator[7]=Trunc32(sha_info->accumulator[7]+H);
   /*
     Reset working registers.
   */
-- 
2.43.0


From e9857c290b619e1cc5069c5da2269fac91e6d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:57 +0000
Subject: [PATCH 012/129] fix: use the 16-byte block size of the Serpent cipher

The cipher modes advanced 32 bytes per block while the Serpent block
function transforms 16, so half of every message was left as it was.
---
 wizard/serpent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/serpent.c b/wizard/serpent.c
index 3d751fe..5b9b98a 100644
--- a/wizard/serpent.c
+++ b/wizard/serpent.c
@@ -70,7 +70,7 @@ struct _SerpentInfo
   (value)|=(*p++) << 16; \
   (value)|=(*p++) << 24; \
 }
-#define SerpentBlocksize 32
+#define SerpentBlocksize 16
 #define Write32Bits(p,value) \
 { \
   *p++=(unsigned char) (value); \
-- 
2.43.0


From fe0b147ca03c1df7de89745c0e09451ade6ffae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:10 +0000
Subject: [PATCH 013/129] fix: stop at the end of a wildcard pattern whose
 range is not closed

A pattern such as "[a-" made the matcher read past the end of the
pattern.
---
 wizard/token.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/token.c b/wizard/token.c
index cf17c46..2f38806 100644
--- a/wizard/token.c
+++ b/wizard/token.c
@@ -328,7 +328,7 @@ WizardExport WizardBooleanType GlobExpression(const char *expression,
             {
               c=(*pattern);
               pattern+=2;
-              if (*pattern == ']')
+              if ((*pattern == ']') || (*pattern == '\0'))
                 {
                   done=WizardTrue;
                   break;
-- 
2.43.0


From 01bdecbff01bbbee7001185a7d7ce9dceebde909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:10 +0000
Subject: [PATCH 014/129] fix: match wildcard alternatives exactly

An alternative matched any prefix of itself, alternatives that all
failed were skipped as if they had matched, only the first matching
alternative was tried, and an escape at the end of the pattern made the
matcher read past it.
---
 wizard/token.c | 72 +++++++++++++++++++-------------------------------
 1 file changed, 27 insertions(+), 45 deletions(-)

diff --git a/wizard/token.c b/wizard/token.c
index 2f38806..b2e9c3a 100644
--- a/wizard/token.c
+++ b/wizard/token.c
@@ -378,61 +378,43 @@ WizardExport WizardBooleanType GlobExpression(const char *expression,
       }
       case '{':
       {
-         const char
-          *p;
+        const char
+          *p,
+          *q;
 
-        pattern++;
-        while ((*pattern != '}') && (*pattern != '\0'))
+        /*
+          Try each alternative with the remainder of the pattern.
+        */
+        for (q=pattern+1; (*q != '}') && (*q != '\0'); q++)
+          if ((*q == '\\') && (*(q+1) != '\0'))
+            q++;
+        done=WizardTrue;
+        if (*q == '\0')
+          break;
+        while (*pattern != '}')
         {
           p=expression;
           match=WizardTrue;
-          while ((*p != '\0') && (*pattern != '\0') &&
-                 (*pattern != ',') && (*pattern != '}') &&
-                 (match != WizardFalse))
+          for (pattern++; (*pattern != '}') && (*pattern != ','); pattern++)
           {
             if (*pattern == '\\')
               pattern++;
-            match=(*pattern == *p) ? WizardTrue : WizardFalse;
-            p++;
-            pattern++;
+            if ((*p == '\0') || (*pattern != *p))
+              match=WizardFalse;
+            else
+              p++;
           }
-          if (*pattern == '\0')
+          if (match == WizardFalse)
+            continue;
+          if (*(q+1) == '\0')
             {
-              match=WizardFalse;
-              done=WizardTrue;
-              break;
+              if (*p == '\0')
+                return(WizardTrue);
+              continue;
             }
-          if (match != WizardFalse)
-            {
-              expression=p;
-               while ((*pattern != '}') && (*pattern != '\0'))
-               {
-                 pattern++;
-                 if (*pattern == '\\')
-                   {
-                     pattern++;
-                     if (*pattern == '}')
-                       pattern++;
-                   }
-               }
-             }
-           else
-             {
-               while ((*pattern != '}') && (*pattern != ',') &&
-                      (*pattern != '\0'))
-               {
-                 pattern++;
-                 if (*pattern == '\\')
-                   {
-                     pattern++;
-                     if ((*pattern == '}') || (*pattern == ','))
-                       pattern++;
-                   }
-               }
-             }
-            if (*pattern != '\0')
-              pattern++;
-          }
+          if (GlobExpression(p,q+1,case_insensitive) != WizardFalse)
+            return(WizardTrue);
+        }
         break;
       }
       case '\\':
-- 
2.43.0


From 36f3ccd63e3e1b90a7bae0177dea48bc721f4c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:40 +0000
Subject: [PATCH 015/129] fix: stop scanning a token at the end of the text

An opening parenthesis without a closing one made the scanner step over
the terminator and read past the text.
---
 wizard/token.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wizard/token.c b/wizard/token.c
index b2e9c3a..502c3e6 100644
--- a/wizard/token.c
+++ b/wizard/token.c
@@ -198,11 +198,15 @@ WizardExport void GetNextToken(const char *start,const char **end,
         if (*p == '>')
           break;
         if (*p == '(')
-          for (p++; *p != '\0'; p++)
           {
-            if (i < (ssize_t) (extent-1))
-              token[i++]=(*p);
-            if ((*p == ')') && (*(p-1) != '\\'))
+            for (p++; *p != '\0'; p++)
+            {
+              if (i < (ssize_t) (extent-1))
+                token[i++]=(*p);
+              if ((*p == ')') && (*(p-1) != '\\'))
+                break;
+            }
+            if (*p == '\0')
               break;
           }
       }
-- 
2.43.0


From 1368b76d322c25d93692aa4961d1d764e1d5f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:40 +0000
Subject: [PATCH 016/129] fix: do not write before the token buffer for an
 empty url()

For the token "url(" the scanner stored a terminator one byte before
the caller's buffer.
---
 wizard/token.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/token.c b/wizard/token.c
index 502c3e6..ca536dd 100644
--- a/wizard/token.c
+++ b/wizard/token.c
@@ -224,7 +224,8 @@ WizardExport void GetNextToken(const char *start,const char **end,
         offset++;
       i=(ssize_t) strlen(token);
       (void) CopyWizardString(token,token+offset,WizardPathExtent);
-      token[i-offset-1]='\0';
+      if (i > offset)
+        token[i-offset-1]='\0';
     }
   while (isspace((int) ((unsigned char) *p)) != 0)
     p++;
-- 
2.43.0


From c96157f6c68f564fe6601cd1ea172c07b694540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:40 +0000
Subject: [PATCH 017/129] fix: do not read before an empty path when taking its
 root

A path that consists only of a sub-node such as "[2]" left an empty
component, and the byte before it was read and possibly cleared.
---
 wizard/utility.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/utility.c b/wizard/utility.c
index 0014b9e..0c3e4e2 100644
--- a/wizard/utility.c
+++ b/wizard/utility.c
@@ -485,6 +485,8 @@ WizardExport void GetPathComponent(const char *path,PathType type,
     }
     case RootPath:
     {
+      if (*component == '\0')
+        break;
       for (p=component+(strlen(component)-1); p > component; p--)
       {
         if (IsBasenameSeparator(*p) != WizardFalse)
-- 
2.43.0


From 45fc5dc6f420cba8fb5e9a3f9c1c42e36d3bad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:05 +0000
Subject: [PATCH 018/129] fix: keep the leading colon of a path without a
 filesystem

The empty text before the colon was taken for an existing filesystem, so
the colon was dropped from every component of the path.
---
 wizard/utility.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/utility.c b/wizard/utility.c
index 0c3e4e2..f9786b6 100644
--- a/wizard/utility.c
+++ b/wizard/utility.c
@@ -445,7 +445,7 @@ WizardExport void GetPathComponent(const char *path,PathType type,
         */
         (void) CopyWizardString(filesystem,component,(size_t)
           (p-component+1));
-        if (IsDirectory(filesystem) < 0)
+        if ((*filesystem == '\0') || (IsDirectory(filesystem) < 0))
           *filesystem='\0';
         else         
           for (q=component; *q != '\0'; q++)
-- 
2.43.0


From 4a76309a239a4996fff5bd26fb0ace391a892de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:32 +0000
Subject: [PATCH 019/129] fix: remove the filesystem from a path without
 reading past it

The copy loop went on after the terminator until the old end of the path,
reading beyond the path by the length of the filesystem name.
---
 wizard/utility.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wizard/utility.c b/wizard/utility.c
index f9786b6..4f0cd51 100644
--- a/wizard/utility.c
+++ b/wizard/utility.c
@@ -448,8 +448,7 @@ WizardExport void GetPathComponent(const char *path,PathType type,
         if ((*filesystem == '\0') || (IsDirectory(filesystem) < 0))
           *filesystem='\0';
         else         
-          for (q=component; *q != '\0'; q++)
-            *q=(*++p);
+          (void) memmove(component,p+1,strlen(p+1)+1);
         break;
       }
   *subnode='\0';
-- 
2.43.0


From 74ee0a876c7fe5b30ba5a87b7dc1962380e3c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:08 +0000
Subject: [PATCH 020/129] fix: report the right length when a copied string
 fills its buffer

CopyWizardString() returned one less than the number of characters it
copied whenever the copy ended at the end of the destination.  For a
buffer of one character it returned the largest size_t.
---
 wizard/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/string.c b/wizard/string.c
index 580c2bf..85a9415 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -802,7 +802,7 @@ WizardExport size_t CopyWizardString(char *destination,const char *source,
     }
   if (length != 0)
     *q='\0';
-  return((size_t) (p-source-1));
+  return((size_t) (p-source));
 }
 
 /*
-- 
2.43.0


From b42e34eabca6074dfbb3da93bdefe930e5f8f22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:08 +0000
Subject: [PATCH 021/129] fix: append counted strings at the end of the
 existing bytes

ConcatenateStringInfo() copied the source past the new length, so the
appended bytes were left undefined and the copy could leave the block.
---
 wizard/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wizard/string.c b/wizard/string.c
index 85a9415..81071b5 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -716,7 +716,6 @@ WizardExport void ConcatenateStringInfo(StringInfo *string_info,
   length+=source->length;
   if (~length < WizardPathExtent)
     ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
-  string_info->length=length;
   if (string_info->datum == (unsigned char *) NULL)
     string_info->datum=(unsigned char *) AcquireQuantumMemory(length+
       WizardPathExtent,sizeof(*string_info->datum));
@@ -726,7 +725,9 @@ WizardExport void ConcatenateStringInfo(StringInfo *string_info,
       sizeof(*string_info->datum));
   if (string_info->datum == (unsigned char *) NULL)
     ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
-  (void) memcpy(string_info->datum+length,source->datum,source->length);
+  (void) memcpy(string_info->datum+string_info->length,source->datum,
+    source->length);
+  string_info->length=length;
 }
 
 /*
-- 
2.43.0


From 209d5dbd7cad442c62a96cdb9fd0c2349002a2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:08 +0000
Subject: [PATCH 022/129] fix: do not loop forever when substituting an empty
 string

SubstituteString() matched an empty search string at the terminator and
then searched beyond it.
---
 wizard/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/string.c b/wizard/string.c
index 81071b5..c8edc01 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -2311,6 +2311,8 @@ WizardExport WizardBooleanType SubstituteString(char **string,
     offset;
 
   status=WizardFalse;
+  if (*search == '\0')
+    return(status);
   search_extent=0,
   replace_extent=0;
   for (p=strchr(*string,*search); p != (char *) NULL; p=strchr(p+1,*search))
-- 
2.43.0


From 60a2a453bfc0b7fe1b70eb846ee591ab8d5a27ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:06 +0000
Subject: [PATCH 023/129] fix: stop reading at the end of a file after an
 interrupted call

ReadFileChunk() and WriteFileChunk() looked at errno even when the
system call did not fail.  A stale EINTR made them loop forever at the
end of the file.
---
 wizard/file.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wizard/file.c b/wizard/file.c
index 42e9b62..e98b72c 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -619,7 +619,9 @@ WizardExport WizardBooleanType ReadFileChunk(FileInfo *file_info,void *data,
   {
     count=read(file_info->file,(unsigned char *) data+i,Min(length-i,(size_t)
       WizardMaxBufferExtent));
-    if (count <= 0)
+    if (count == 0)
+      break;
+    if (count < 0)
       {
         count=0;
         if (errno != EINTR)
@@ -863,7 +865,9 @@ WizardExport WizardBooleanType WriteFileChunk(FileInfo *file_info,
   for (i=0; i < (ssize_t) length; i+=count)
   {
     count=write(file_info->file,(unsigned char *) data+i,length-i);
-    if (count <= 0)
+    if (count == 0)
+      break;
+    if (count < 0)
       {
         count=0;
         if (errno != EINTR)
-- 
2.43.0


From 23608c50d6db29c9b601c6409cc9b27f2c018e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:26 +0000
Subject: [PATCH 024/129] fix: never remove a file lock that somebody else
 holds

DestroyFileInfo() removed the lock file even when the lock was never
acquired.  Giving up waiting for a lock took it away from its holder.
---
 wizard/file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wizard/file.c b/wizard/file.c
index e98b72c..9138d32 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -80,6 +80,9 @@ struct _FileInfo
   SemaphoreInfo
     *semaphore;
 
+  WizardBooleanType
+    locked;
+
   time_t
     timestamp;
 
@@ -208,6 +211,7 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
         WizardDelay(1000);
         continue;
       }
+    file_info->locked=WizardTrue;
     pid=(ssize_t) getpid();
     status=WriteFileChunk(file_info,&pid,sizeof(pid));
     tid=GetWizardThreadId();
@@ -810,6 +814,9 @@ static WizardBooleanType RelinquishFileLock(FileInfo *file_info,
   char
     *path;
 
+  if (file_info->locked == WizardFalse)
+    return(WizardTrue);
+  file_info->locked=WizardFalse;
   path=AcquireString(file_info->path);
   AppendFileExtension("lck",path);
   if (remove_utf8(path) == -1)
-- 
2.43.0


From 4ef5e03f6071e329823802b621e4aefe45c4c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:26 +0000
Subject: [PATCH 025/129] fix: notice a failed write of the lock owner

The status of writing the process id was overwritten by the status of
writing the thread id.
---
 wizard/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/file.c b/wizard/file.c
index 9138d32..518d9a3 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -215,7 +215,7 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
     pid=(ssize_t) getpid();
     status=WriteFileChunk(file_info,&pid,sizeof(pid));
     tid=GetWizardThreadId();
-    status=WriteFileChunk(file_info,&tid,sizeof(tid));
+    status&=WriteFileChunk(file_info,&tid,sizeof(tid));
     if (close(file_info->file) == -1)
       (void) ThrowWizardException(exception,GetWizardModule(),FileError,
         "unable to close file `%s': %s",path,strerror(errno));
-- 
2.43.0


From 4d15cdb950c6259fc671f58bd1f85df7c9d95042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:26 +0000
Subject: [PATCH 026/129] fix: acquire a file lock that was just released or
 whose owner died

AcquireFileLock() gave up when the lock disappeared while it looked at
it, and also after it removed the lock of a dead process.  Two waiting
processes could both remove it, the second one removing the new lock of
the first.  Only the lock file whose owner was found dead is removed
now.
---
 wizard/file.c | 60 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/wizard/file.c b/wizard/file.c
index 518d9a3..ff93791 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -55,6 +55,8 @@
 #endif
 #if defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
 #include <windows.h>
+#else
+#include <sys/file.h>
 #endif
 
 /*
@@ -127,6 +129,34 @@ static size_t GetWizardThreadId(void)
 #endif
 }
 
+static WizardBooleanType RemoveStaleFileLock(FileInfo *file_info,
+  const char *path,ExceptionInfo *exception)
+{
+  /*
+    The owner is gone: remove its lock unless another process just did.
+  */
+#if defined(LOCK_EX)
+  struct stat
+    attributes,
+    properties;
+
+  if (flock(file_info->file,LOCK_EX) == -1)
+    return(WizardFalse);
+  if ((fstat(file_info->file,&properties) == -1) ||
+      (stat_utf8(path,&attributes) == -1) ||
+      (properties.st_ino != attributes.st_ino) ||
+      (properties.st_dev != attributes.st_dev))
+    return(WizardTrue);
+#endif
+  if ((remove_utf8(path) == -1) && (errno != ENOENT))
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),FileError,
+        "unable to remove file `%s': %s",path,strerror(errno));
+      return(WizardFalse);
+    }
+  return(WizardTrue);
+}
+
 static WizardBooleanType AcquireFileLock(FileInfo *file_info,
   ExceptionInfo *exception)
 {
@@ -163,15 +193,15 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
           break;
         file_info->file=open_utf8(path,O_RDONLY,0);
         if (file_info->file == -1)
-          break;
+          {
+            if (errno != ENOENT)
+              break;
+            continue;
+          }
         pid=(-1);
         tid=(~0UL);
         status=ReadFileChunk(file_info,&pid,sizeof(pid));
         status&=ReadFileChunk(file_info,&tid,sizeof(tid));
-        if (close(file_info->file) == -1)
-          (void) ThrowWizardException(exception,GetWizardModule(),FileError,
-            "unable to close file `%s': %s",path,strerror(errno));
-        file_info->file=(-1);
         if (status != WizardFalse)
           {
             WizardBooleanType
@@ -179,6 +209,11 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
 
             if ((pid == (ssize_t) getpid()) && (tid == GetWizardThreadId()))
               {
+                if (close(file_info->file) == -1)
+                  (void) ThrowWizardException(exception,GetWizardModule(),
+                    FileError,"unable to close file `%s': %s",path,
+                    strerror(errno));
+                file_info->file=(-1);
                 path=DestroyString(path);
                 UnlockSemaphoreInfo(file_info->semaphore);
                 return(WizardTrue);
@@ -200,14 +235,17 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
               {
                 if (errno != ESRCH)
                   break;
-                i--;
-                if (remove_utf8(path) == -1)
-                  (void) ThrowWizardException(exception,GetWizardModule(),
-                    FileError,"unable to remove file `%s': %s",path,
-                    strerror(errno));
-                break;
+                if (RemoveStaleFileLock(file_info,path,exception) == WizardFalse)
+                  break;
+                (void) close(file_info->file);
+                file_info->file=(-1);
+                continue;
               }
           }
+        if (close(file_info->file) == -1)
+          (void) ThrowWizardException(exception,GetWizardModule(),FileError,
+            "unable to close file `%s': %s",path,strerror(errno));
+        file_info->file=(-1);
         WizardDelay(1000);
         continue;
       }
-- 
2.43.0


From 43b15cd35dfb4e0321de0941ec7dbb92c94c4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:13 +0000
Subject: [PATCH 027/129] fix: report a corrupt keyring instead of aborting

The error message named the file of a file info that was already
destroyed, so an empty or damaged keyring stopped the program.
---
 wizard/keyring.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 7283079..0d974e8 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -230,9 +230,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   magick=DestroyStringInfo(magick);
@@ -244,9 +244,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,filetype) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   filetype=DestroyStringInfo(filetype);
@@ -257,9 +257,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
   {
     if (signature != WizardSignature)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     keyring_info->signature=signature;
@@ -275,9 +275,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     id=AcquireStringInfo(length);
@@ -286,9 +286,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     key=AcquireStringInfo(length);
@@ -297,9 +297,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     nonce=AcquireStringInfo(length);
@@ -320,9 +320,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     id=DestroyStringInfo(id);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
   }
@@ -476,10 +476,10 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   offset=lseek(GetFileDescriptor(file_info),0,SEEK_END);
   if (offset == -1)
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "unable to seek keyring `%s': %s",GetFilePath(file_info),
         strerror(errno));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   status&=WriteFile32Bits(file_info,keyring_info->signature);
@@ -606,9 +606,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   magick=DestroyStringInfo(magick);
@@ -620,9 +620,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,filetype) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   filetype=DestroyStringInfo(filetype);
@@ -633,9 +633,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
   {
     if (keyring_info.signature != WizardSignature)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     status&=ReadFile32Bits(file_info,&length);
@@ -650,9 +650,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     id=AcquireStringInfo(length);
@@ -661,9 +661,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     key=AcquireStringInfo(length);
@@ -672,9 +672,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     nonce=AcquireStringInfo(length);
@@ -714,9 +714,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     id=DestroyStringInfo(id);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
   }
-- 
2.43.0


From a61e1770d650638d5841a08584e4ff39e0724094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:09 +0000
Subject: [PATCH 028/129] fix: use a keyring record only after it was read
 completely

A key was returned although its nonce was cut short or could not be
read.  Lengths larger than the file were allocated before reading.
---
 wizard/keyring.c | 231 +++++++++++++++++++----------------------------
 1 file changed, 93 insertions(+), 138 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 0d974e8..80b3daf 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -192,30 +192,94 @@ WizardExport KeyringInfo *DestroyKeyringInfo(KeyringInfo *keyring_info)
 %    o exception: Return any errors or warnings in this structure.
 %
 */
+
+static void DestroyKeyringRecord(KeyringInfo *record)
+{
+  if (record->nonce != (StringInfo *) NULL)
+    record->nonce=DestroyStringInfo(record->nonce);
+  if (record->key != (StringInfo *) NULL)
+    record->key=DestroyStringInfo(record->key);
+  if (record->id != (StringInfo *) NULL)
+    record->id=DestroyStringInfo(record->id);
+}
+
+static StringInfo *ReadKeyringString(FileInfo *file_info)
+{
+  size_t
+    length;
+
+  StringInfo
+    *string_info;
+
+  if (ReadFile32Bits(file_info,&length) == WizardFalse)
+    return((StringInfo *) NULL);
+  if (length > (size_t) GetFileProperties(file_info)->st_size)
+    return((StringInfo *) NULL);
+  string_info=AcquireStringInfo(length);
+  if (ReadFileChunk(file_info,GetStringInfoDatum(string_info),length) ==
+      WizardFalse)
+    string_info=DestroyStringInfo(string_info);
+  return(string_info);
+}
+
+static WizardBooleanType ReadKeyringKey(FileInfo *file_info,KeyringInfo *record)
+{
+  size_t
+    length;
+
+  WizardSizeType
+    timestamp;
+
+  WizardStatusType
+    status;
+
+  /*
+    Read the key that follows the record signature.
+  */
+  (void) memset(record,0,sizeof(*record));
+  length=0;
+  status=ReadFile32Bits(file_info,&length);
+  status&=ReadFile16Bits(file_info,&record->protocol_major);
+  status&=ReadFile16Bits(file_info,&record->protocol_minor);
+  timestamp=(WizardSizeType) length;
+  if ((record->protocol_major != 1) || (record->protocol_minor != 0))
+    status&=ReadFile64Bits(file_info,&timestamp);
+  record->timestamp=(time_t) timestamp;
+  if (status == WizardFalse)
+    return(WizardFalse);
+  record->id=ReadKeyringString(file_info);
+  if (record->id != (StringInfo *) NULL)
+    record->key=ReadKeyringString(file_info);
+  if (record->key != (StringInfo *) NULL)
+    record->nonce=ReadKeyringString(file_info);
+  if (record->nonce == (StringInfo *) NULL)
+    {
+      DestroyKeyringRecord(record);
+      return(WizardFalse);
+    }
+  return(WizardTrue);
+}
+
 WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
   ExceptionInfo *exception)
 {
   FileInfo
     *file_info;
 
+  KeyringInfo
+    record;
+
   WizardStatusType
     status;
 
   StringInfo
     *filetype,
-    *id,
-    *key,
     *magick,
-    *nonce,
     *target;
 
   size_t
-    length,
     signature;
 
-  WizardSizeType
-    timestamp;
-
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   WizardAssert(KeymapDomain,keyring_info != (KeyringInfo *) NULL);
   WizardAssert(KeymapDomain,keyring_info->signature == WizardSignature);
@@ -251,80 +315,28 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     }
   filetype=DestroyStringInfo(filetype);
   target=DestroyStringInfo(target);
-  signature=0;
-  length=0;
-  while (ReadFile32Bits(file_info,&signature) != 0)
+  while (ReadFile32Bits(file_info,&signature) != WizardFalse)
   {
-    if (signature != WizardSignature)
-      {
-        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-          "corrupt key ring file `%s'",GetFilePath(file_info));
-        file_info=DestroyFileInfo(file_info,exception);
-        return(WizardFalse);
-      }
-    keyring_info->signature=signature;
-    status&=ReadFile32Bits(file_info,&length);
-    status&=ReadFile16Bits(file_info,&keyring_info->protocol_major);
-    status&=ReadFile16Bits(file_info,&keyring_info->protocol_minor);
-    if ((keyring_info->protocol_major == 1) &&
-        (keyring_info->protocol_minor == 0))
-      timestamp=(time_t) length;
-    else
-      status&=ReadFile64Bits(file_info,&timestamp);
-    keyring_info->timestamp=(time_t) timestamp;
-    status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((signature != WizardSignature) ||
+        (ReadKeyringKey(file_info,&record) == WizardFalse))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
-    id=AcquireStringInfo(length);
-    status&=ReadFileChunk(file_info,GetStringInfoDatum(id),
-      GetStringInfoLength(id));
-    status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if (CompareStringInfo(keyring_info->id,record.id) == 0)
       {
-        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-          "corrupt key ring file `%s'",GetFilePath(file_info));
-        file_info=DestroyFileInfo(file_info,exception);
-        return(WizardFalse);
-      }
-    key=AcquireStringInfo(length);
-    status&=ReadFileChunk(file_info,GetStringInfoDatum(key),
-      GetStringInfoLength(key));
-    status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
-      {
-        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-          "corrupt key ring file `%s'",GetFilePath(file_info));
-        file_info=DestroyFileInfo(file_info,exception);
-        return(WizardFalse);
-      }
-    nonce=AcquireStringInfo(length);
-    status&=ReadFileChunk(file_info,GetStringInfoDatum(nonce),
-      GetStringInfoLength(nonce));
-    if (CompareStringInfo(keyring_info->id,id) == 0)
-      {
-        SetKeyringKey(keyring_info,key);
-        SetKeyringNonce(keyring_info,nonce);
-        nonce=DestroyStringInfo(nonce);
-        key=DestroyStringInfo(key);
-        id=DestroyStringInfo(id);
+        keyring_info->protocol_major=record.protocol_major;
+        keyring_info->protocol_minor=record.protocol_minor;
+        keyring_info->timestamp=record.timestamp;
+        SetKeyringKey(keyring_info,record.key);
+        SetKeyringNonce(keyring_info,record.nonce);
+        DestroyKeyringRecord(&record);
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardTrue);
       }
-    nonce=DestroyStringInfo(nonce);
-    key=DestroyStringInfo(key);
-    id=DestroyStringInfo(id);
-    if (status == WizardFalse)
-      {
-        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-          "corrupt key ring file `%s'",GetFilePath(file_info));
-        file_info=DestroyFileInfo(file_info,exception);
-        return(WizardFalse);
-      }
+    DestroyKeyringRecord(&record);
   }
   file_info=DestroyFileInfo(file_info,exception);
   return(WizardFalse);
@@ -550,24 +562,19 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     *file_info;
 
   KeyringInfo
-    keyring_info;
+    record;
 
   ssize_t
     count;
 
   StringInfo
     *filetype,
-    *id,
-    *key,
     *magick,
-    *nonce,
     *target;
 
   size_t
-    length;
-
-  WizardSizeType
-    timestamp;
+    length,
+    signature;
 
   WizardStatusType
     status;
@@ -627,61 +634,18 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     }
   filetype=DestroyStringInfo(filetype);
   target=DestroyStringInfo(target);
-  length=0;
-  (void) memset(&keyring_info,0,sizeof(keyring_info));
-  while (ReadFile32Bits(file_info,&keyring_info.signature) != 0)
+  while (ReadFile32Bits(file_info,&signature) != WizardFalse)
   {
-    if (keyring_info.signature != WizardSignature)
+    if ((signature != WizardSignature) ||
+        (ReadKeyringKey(file_info,&record) == WizardFalse))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
-    status&=ReadFile32Bits(file_info,&length);
-    status&=ReadFile16Bits(file_info,&keyring_info.protocol_major);
-    status&=ReadFile16Bits(file_info,&keyring_info.protocol_minor);
-    if ((keyring_info.protocol_major == 1) &&
-        (keyring_info.protocol_minor == 0))
-      timestamp=(time_t) length;
-    else
-      status&=ReadFile64Bits(file_info,&timestamp);
-    keyring_info.timestamp=(time_t) timestamp;
-    status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
-      {
-        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-          "corrupt key ring file `%s'",GetFilePath(file_info));
-        file_info=DestroyFileInfo(file_info,exception);
-        return(WizardFalse);
-      }
-    id=AcquireStringInfo(length);
-    status&=ReadFileChunk(file_info,GetStringInfoDatum(id),
-      GetStringInfoLength(id));
-    status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
-      {
-        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-          "corrupt key ring file `%s'",GetFilePath(file_info));
-        file_info=DestroyFileInfo(file_info,exception);
-        return(WizardFalse);
-      }
-    key=AcquireStringInfo(length);
-    status&=ReadFileChunk(file_info,GetStringInfoDatum(key),
-      GetStringInfoLength(key));
-    status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
-      {
-        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-          "corrupt key ring file `%s'",GetFilePath(file_info));
-        file_info=DestroyFileInfo(file_info,exception);
-        return(WizardFalse);
-      }
-    nonce=AcquireStringInfo(length);
-    status&=ReadFileChunk(file_info,GetStringInfoDatum(nonce),
-      GetStringInfoLength(nonce));
     keyring_rdf=AcquireString("  <keyring:Key rdf:about=\"");
-    hex=StringInfoToHexString(id);
+    hex=StringInfoToHexString(record.id);
     (void) ConcatenateString(&keyring_rdf,hex);
     hex=DestroyString(hex);
     (void) ConcatenateString(&keyring_rdf,"\">\n");
@@ -690,17 +654,17 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     (void) ConcatenateString(&keyring_rdf,canonical_path);
     (void) ConcatenateString(&keyring_rdf,"\"/>\n");
     (void) ConcatenateString(&keyring_rdf,"    <keyring:nonce>");
-    hex=StringInfoToHexString(nonce);
+    hex=StringInfoToHexString(record.nonce);
     (void) ConcatenateString(&keyring_rdf,hex);
     hex=DestroyString(hex);
     (void) ConcatenateString(&keyring_rdf,"</keyring:nonce>\n");
     (void) ConcatenateString(&keyring_rdf,"    <keyring:timestamp>");
-    (void) FormatWizardTime(keyring_info.timestamp,WizardPathExtent,message);
+    (void) FormatWizardTime(record.timestamp,WizardPathExtent,message);
     (void) ConcatenateString(&keyring_rdf,message);
     (void) ConcatenateString(&keyring_rdf,"</keyring:timestamp>\n");
     (void) ConcatenateString(&keyring_rdf,"    <keyring:protocol>");
     (void) FormatLocaleString(message,WizardPathExtent,"%u.%u",
-      keyring_info.protocol_major,(unsigned int) keyring_info.protocol_minor);
+      record.protocol_major,(unsigned int) record.protocol_minor);
     (void) ConcatenateString(&keyring_rdf,message);
     (void) ConcatenateString(&keyring_rdf,"</keyring:protocol>\n");
     (void) ConcatenateString(&keyring_rdf,"  </keyring:Key>\n");
@@ -709,16 +673,7 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     keyring_rdf=DestroyString(keyring_rdf);
     if (count != (ssize_t) length)
       ThrowFileException(exception,FileError,GetFilePath(file_info));
-    nonce=DestroyStringInfo(nonce);
-    key=DestroyStringInfo(key);
-    id=DestroyStringInfo(id);
-    if (status == WizardFalse)
-      {
-        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-          "corrupt key ring file `%s'",GetFilePath(file_info));
-        file_info=DestroyFileInfo(file_info,exception);
-        return(WizardFalse);
-      }
+    DestroyKeyringRecord(&record);
   }
   canonical_path=DestroyString(canonical_path);
   file_info=DestroyFileInfo(file_info,exception);
-- 
2.43.0


From 56ed33965a1140b946abe056c0758310d17ebf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:05 +0000
Subject: [PATCH 029/129] fix: store a key after the last complete key of the
 keyring

ImportKeyringKey() reported success although writing failed.  After a
failed or unfinished store it appended further keys behind the broken
one, where no lookup finds them.  It also looked for a duplicate under
one lock and appended under another, so two processes could store the
same key.
---
 wizard/keyring.c | 131 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 93 insertions(+), 38 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 80b3daf..d2a6a82 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -433,60 +433,40 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   FileInfo
     *file_info;
 
+  int
+    file;
+
   KeyringInfo
-    *import_info;
+    record;
 
   WizardStatusType
     status;
 
   size_t
-    length;
+    length,
+    signature;
 
   StringInfo
     *filetype,
-    *magick;
+    *magick,
+    *target;
 
   WizardOffsetType
-    offset;
+    extent,
+    offset,
+    start;
 
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   WizardAssert(KeymapDomain,keyring_info != (KeyringInfo *) NULL);
   WizardAssert(KeymapDomain,keyring_info->signature == WizardSignature);
   WizardAssert(KeymapDomain,exception != (ExceptionInfo *) NULL);
-  import_info=AcquireKeyringInfo(keyring_info->path);
-  SetKeyringId(import_info,keyring_info->id);
-  if (ExportKeyringKey(import_info,exception) != WizardFalse)
-    {
-      char
-        *id;
-
-      /*
-        Duplicate keys are not allowed in the keyring.
-      */
-      id=StringInfoToHexString(keyring_info->id);
-      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-        "unable to import key `%s' (its already in the keyring): %s",id,
-        keyring_info->path);
-      id=DestroyString(id);
-      import_info=DestroyKeyringInfo(import_info);
-      return(WizardFalse);
-    }
-  import_info=DestroyKeyringInfo(import_info);
   file_info=AcquireFileInfo(keyring_info->path,KeyringFilename,WriteFileMode,
     exception);
   if (file_info == (FileInfo *) NULL)
     return(WizardFalse);
-  magick=GetWizardMagick(WizardMagick,sizeof(WizardMagick));
-  status=WriteFileChunk(file_info,GetStringInfoDatum(magick),
-    GetStringInfoLength(magick));
-  magick=DestroyStringInfo(magick);
-  filetype=GetWizardMagick((unsigned char *) KeyringFiletype,
-    strlen(KeyringFiletype));
-  status&=WriteFileChunk(file_info,GetStringInfoDatum(filetype),
-    GetStringInfoLength(filetype));
-  filetype=DestroyStringInfo(filetype);
-  offset=lseek(GetFileDescriptor(file_info),0,SEEK_END);
-  if (offset == -1)
+  file=GetFileDescriptor(file_info);
+  extent=lseek(file,0,SEEK_END);
+  if ((extent == -1) || (lseek(file,0,SEEK_SET) == -1))
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "unable to seek keyring `%s': %s",GetFilePath(file_info),
@@ -494,6 +474,75 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
+  magick=GetWizardMagick(WizardMagick,sizeof(WizardMagick));
+  filetype=GetWizardMagick((unsigned char *) KeyringFiletype,
+    strlen(KeyringFiletype));
+  ConcatenateStringInfo(magick,filetype);
+  filetype=DestroyStringInfo(filetype);
+  start=0;
+  offset=(WizardOffsetType) GetStringInfoLength(magick);
+  if (extent < offset)
+    status=WriteFileChunk(file_info,GetStringInfoDatum(magick),
+      GetStringInfoLength(magick));
+  else
+    {
+      /*
+        Find the end of the last complete key.  A key that was not completely
+        stored ends the file and is replaced.
+      */
+      target=CloneStringInfo(magick);
+      status=ReadFileChunk(file_info,GetStringInfoDatum(target),
+        GetStringInfoLength(target));
+      if (CompareStringInfo(target,magick) != 0)
+        status=WizardFalse;
+      target=DestroyStringInfo(target);
+      while ((status != WizardFalse) &&
+             (ReadFile32Bits(file_info,&signature) != WizardFalse))
+      {
+        if (signature != WizardSignature)
+          {
+            status=WizardFalse;
+            break;
+          }
+        if (ReadKeyringKey(file_info,&record) == WizardFalse)
+          break;
+        if (CompareStringInfo(keyring_info->id,record.id) == 0)
+          {
+            char
+              *id;
+
+            /*
+              Duplicate keys are not allowed in the keyring.
+            */
+            id=StringInfoToHexString(keyring_info->id);
+            (void) ThrowWizardException(exception,GetWizardModule(),
+              KeyringError,
+              "unable to import key `%s' (its already in the keyring): %s",id,
+              GetFilePath(file_info));
+            id=DestroyString(id);
+            DestroyKeyringRecord(&record);
+            magick=DestroyStringInfo(magick);
+            file_info=DestroyFileInfo(file_info,exception);
+            return(WizardFalse);
+          }
+        DestroyKeyringRecord(&record);
+        offset=lseek(file,0,SEEK_CUR);
+      }
+      if ((status == WizardFalse) || (offset == -1) ||
+          (lseek(file,0,SEEK_CUR) != extent))
+        {
+          (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+            "corrupt key ring file `%s'",GetFilePath(file_info));
+          magick=DestroyStringInfo(magick);
+          file_info=DestroyFileInfo(file_info,exception);
+          return(WizardFalse);
+        }
+      start=offset;
+      if ((ftruncate(file,offset) == -1) ||
+          (lseek(file,offset,SEEK_SET) == -1))
+        status=WizardFalse;
+    }
+  magick=DestroyStringInfo(magick);
   status&=WriteFile32Bits(file_info,keyring_info->signature);
   status&=WriteFile32Bits(file_info,0U);
   status&=WriteFile16Bits(file_info,keyring_info->protocol_major);
@@ -511,11 +560,17 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   status&=WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->nonce),
     length);
   if (status == WizardFalse)
-    (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-      "unable to write keyring `%s': %s",GetFilePath(file_info),
-      strerror(errno));
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "unable to write keyring `%s': %s",GetFilePath(file_info),
+        strerror(errno));
+      if (ftruncate(file,start) == -1)
+        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+          "unable to write keyring `%s': %s",GetFilePath(file_info),
+          strerror(errno));
+    }
   file_info=DestroyFileInfo(file_info,exception);
-  return(WizardTrue);
+  return(status == 0 ? WizardFalse : WizardTrue);
 }
 
 /*
-- 
2.43.0


From 98316f043b5cefb5da01e4ed4efc4d9c60afb1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:59 +0000
Subject: [PATCH 030/129] fix: keep no key after a failed authentication

A failed attempt left the key of an earlier attempt, or the result of
deciphering with the wrong passphrase, where the caller reads the key.
---
 wizard/secret.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wizard/secret.c b/wizard/secret.c
index 38f0966..434aea1 100644
--- a/wizard/secret.c
+++ b/wizard/secret.c
@@ -180,6 +180,8 @@ WizardExport WizardBooleanType AuthenticateSecretKey(SecretInfo *secret_info,
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   WizardAssert(AuthenticateDomain,secret_info != (SecretInfo *) NULL);
   WizardAssert(AuthenticateDomain,secret_info->signature == WizardSignature);
+  if (secret_info->key != (StringInfo *) NULL)
+    secret_info->key=DestroyStringInfo(secret_info->key);
   SetKeyringId(secret_info->keyring_info,secret_info->id);
   status=ExportKeyringKey(secret_info->keyring_info,exception);
   if (status == WizardFalse)
@@ -193,8 +195,6 @@ WizardExport WizardBooleanType AuthenticateSecretKey(SecretInfo *secret_info,
   SetCipherKey(secret_info->cipher_info,phrase);
   SetCipherNonce(secret_info->cipher_info,GetKeyringNonce(
     secret_info->keyring_info));
-  if (secret_info->key != (StringInfo *) NULL)
-    secret_info->key=DestroyStringInfo(secret_info->key);
   secret_info->key=CloneStringInfo(GetKeyringKey(secret_info->keyring_info));
   (void) DecipherCipher(secret_info->cipher_info,secret_info->key);
   ConstructHMAC(secret_info->hmac_info,phrase,secret_info->key);
@@ -203,6 +203,7 @@ WizardExport WizardBooleanType AuthenticateSecretKey(SecretInfo *secret_info,
   if (CompareStringInfo(secret_info->id,digest) != 0)
     {
       digest=DestroyStringInfo(digest);
+      secret_info->key=DestroyStringInfo(secret_info->key);
       return(WizardFalse);
     }
   digest=DestroyStringInfo(digest);
-- 
2.43.0


From c98bc6a3c8add6a19d0335dc7527ebe2113aa113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:49 +0000
Subject: [PATCH 031/129] fix: report a secret key that could not be stored

The status of the keyring was dropped, so generating a key succeeded even
when it was never written.
---
 wizard/secret.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/secret.c b/wizard/secret.c
index 434aea1..abf5b78 100644
--- a/wizard/secret.c
+++ b/wizard/secret.c
@@ -333,7 +333,7 @@ WizardExport WizardBooleanType GenerateSecretKey(SecretInfo *secret_info,
   status=ImportKeyringKey(secret_info->keyring_info,exception);
   phrase=DestroyStringInfo(phrase);
   key=DestroyStringInfo(key);
-  return(WizardTrue);
+  return(status);
 }
 
 /*
-- 
2.43.0


From 80da8a69b60cf0f0c0a10691d5669b8d536eee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:48 +0000
Subject: [PATCH 032/129] fix: report an incomplete LZMA stream

A message that was cut, or that does not fit the given length, was restored
as far as it went and reported as complete.
---
 wizard/lzma.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/lzma.c b/wizard/lzma.c
index 2e52e63..f0ff402 100644
--- a/wizard/lzma.c
+++ b/wizard/lzma.c
@@ -261,7 +261,7 @@ WizardExport WizardBooleanType IncreaseLZMA(LZMAInfo *lzma_info,
       return(WizardFalse);
     }
   status=lzma_code(&stream,LZMA_FINISH);
-  if ((status != LZMA_STREAM_END) && (status != LZMA_OK))
+  if (status != LZMA_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
@@ -356,7 +356,7 @@ WizardExport WizardBooleanType RestoreLZMA(LZMAInfo *lzma_info,
       return(WizardFalse);
     }
   status=lzma_code(&stream,LZMA_FINISH);
-  if ((status != LZMA_STREAM_END) && (status != LZMA_OK))
+  if (status != LZMA_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
-- 
2.43.0


From e2247e27839753e5f8bbf09f3ef93112b8f050e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:48 +0000
Subject: [PATCH 033/129] fix: restart a running timer that is reset

Starting a running timer afresh kept its old start, so it went on counting
from there.
---
 wizard/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/timer.c b/wizard/timer.c
index adbd1f9..fcbc2ac 100644
--- a/wizard/timer.c
+++ b/wizard/timer.c
@@ -390,7 +390,7 @@ WizardExport void StartTimer(TimerInfo *timer_info,
       timer_info->user.total=0.0;
       timer_info->elapsed.total=0.0;
     }
-  if (timer_info->state != RunningTimerState)
+  if ((reset != WizardFalse) || (timer_info->state != RunningTimerState))
     {
       timer_info->elapsed.start=ElapsedTime();
       timer_info->user.start=UserTime();
-- 
2.43.0


From 4bb050002934b21f726610ceaf011c9e1e3a7725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:15 +0000
Subject: [PATCH 034/129] fix: release the compressor when a message cannot be
 processed

Each damaged message leaked the state of the zip or bzip library, several
megabytes in the case of bzip.
---
 wizard/bzip.c | 2 ++
 wizard/zip.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/wizard/bzip.c b/wizard/bzip.c
index fec4060..8648f69 100644
--- a/wizard/bzip.c
+++ b/wizard/bzip.c
@@ -249,6 +249,7 @@ WizardExport WizardBooleanType IncreaseBZIP(BZIPInfo *bzip_info,
   status=BZ2_bzCompress(&stream,BZ_FINISH);
   if (status != BZ_STREAM_END)
     {
+      (void) BZ2_bzCompressEnd(&stream);
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to increase entropy `%s'",strerror(errno));
       return(WizardFalse);
@@ -328,6 +329,7 @@ WizardExport WizardBooleanType RestoreBZIP(BZIPInfo *bzip_info,
   status=BZ2_bzDecompress(&stream);
   if (status != BZ_STREAM_END)
     {
+      (void) BZ2_bzDecompressEnd(&stream);
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
       return(WizardFalse);
diff --git a/wizard/zip.c b/wizard/zip.c
index 3005d67..faa30cd 100644
--- a/wizard/zip.c
+++ b/wizard/zip.c
@@ -243,6 +243,7 @@ WizardExport WizardBooleanType IncreaseZIP(ZIPInfo *zip_info,
   status=deflate(&stream,Z_FINISH);
   if (status != Z_STREAM_END)
     {
+      (void) deflateEnd(&stream);
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to increase entropy `%s'",strerror(errno));
       return(WizardFalse);
@@ -323,6 +324,7 @@ WizardExport WizardBooleanType RestoreZIP(ZIPInfo *zip_info,const size_t length,
   status=inflate(&stream,Z_FINISH);
   if (status != Z_STREAM_END)
     {
+      (void) inflateEnd(&stream);
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
       return(WizardFalse);
-- 
2.43.0


From a6371f11f2c0d38dbc6a95cbbedf09d29f4d97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:15 +0000
Subject: [PATCH 035/129] fix: reset a timer to zero

Resetting kept the time counted so far, and continuing afterwards reported
the time since the system started.
---
 wizard/timer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wizard/timer.c b/wizard/timer.c
index fcbc2ac..18fb837 100644
--- a/wizard/timer.c
+++ b/wizard/timer.c
@@ -347,8 +347,10 @@ WizardExport void ResetTimer(TimerInfo *timer_info)
   assert(timer_info != (TimerInfo *) NULL);
   assert(timer_info->signature == WizardSignature);
   StopTimer(timer_info);
-  timer_info->elapsed.stop=0.0;
-  timer_info->user.stop=0.0;
+  timer_info->elapsed.start=timer_info->elapsed.stop;
+  timer_info->elapsed.total=0.0;
+  timer_info->user.start=timer_info->user.stop;
+  timer_info->user.total=0.0;
 }
 
 /*
-- 
2.43.0


From e0153c03cf0e9c097483a4512101f4423d767676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:00 +0000
Subject: [PATCH 036/129] fix: ignore a corrupt random reservoir instead of
 aborting

The name of the reservoir was asked from a file that had just been closed,
which ends the program.
---
 wizard/random.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index ad344d5..8a7a82e 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -689,9 +689,11 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
+      magick=DestroyStringInfo(magick);
+      target=DestroyStringInfo(target);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
@@ -706,9 +708,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
     {
       filetype=DestroyStringInfo(filetype);
       target=DestroyStringInfo(target);
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
@@ -727,9 +729,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
   status&=ReadFile32Bits(file_info,&length);
   if (status == WizardFalse)
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
-- 
2.43.0


From 08f13b8b401bdc795ac078b1e507b7c3cddabbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:25 +0000
Subject: [PATCH 037/129] fix: acquire a file lock whose owner died before it
 wrote its identity

A lock file without a complete owner was waited for in vain.  The owner now
writes its identity under an exclusive lock, so an incomplete one that is not
locked has no owner any more.
---
 wizard/file.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/wizard/file.c b/wizard/file.c
index ff93791..d56ea1d 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -157,6 +157,27 @@ static WizardBooleanType RemoveStaleFileLock(FileInfo *file_info,
   return(WizardTrue);
 }
 
+static WizardBooleanType RemoveTornFileLock(FileInfo *file_info,
+  const char *path,ExceptionInfo *exception)
+{
+#if defined(LOCK_EX)
+  struct stat
+    properties;
+
+  /*
+    The owner writes its identity under an exclusive lock: if it is incomplete
+    once we have that lock, the owner is gone.
+  */
+  if ((flock(file_info->file,LOCK_EX) == -1) ||
+      (fstat(file_info->file,&properties) == -1) ||
+      (properties.st_size >= (off_t) (sizeof(ssize_t)+sizeof(size_t))))
+    return(WizardFalse);
+  return(RemoveStaleFileLock(file_info,path,exception));
+#else
+  return(WizardFalse);
+#endif
+}
+
 static WizardBooleanType AcquireFileLock(FileInfo *file_info,
   ExceptionInfo *exception)
 {
@@ -242,6 +263,13 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
                 continue;
               }
           }
+        else
+          if (RemoveTornFileLock(file_info,path,exception) != WizardFalse)
+            {
+              (void) close(file_info->file);
+              file_info->file=(-1);
+              continue;
+            }
         if (close(file_info->file) == -1)
           (void) ThrowWizardException(exception,GetWizardModule(),FileError,
             "unable to close file `%s': %s",path,strerror(errno));
@@ -249,11 +277,32 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
         WizardDelay(1000);
         continue;
       }
-    file_info->locked=WizardTrue;
+#if defined(LOCK_EX)
+    {
+      struct stat
+        properties;
+
+      if ((flock(file_info->file,LOCK_EX) == 0) &&
+          (fstat(file_info->file,&properties) == 0) &&
+          (properties.st_nlink == 0))
+        {
+          /*
+            Another process took our lock for one of a process that is gone.
+          */
+          (void) close(file_info->file);
+          file_info->file=(-1);
+          continue;
+        }
+    }
+#endif
     pid=(ssize_t) getpid();
     status=WriteFileChunk(file_info,&pid,sizeof(pid));
     tid=GetWizardThreadId();
     status&=WriteFileChunk(file_info,&tid,sizeof(tid));
+    if (status == WizardFalse)
+      (void) remove_utf8(path);
+    else
+      file_info->locked=WizardTrue;
     if (close(file_info->file) == -1)
       (void) ThrowWizardException(exception,GetWizardModule(),FileError,
         "unable to close file `%s': %s",path,strerror(errno));
-- 
2.43.0


From 4625eb8af5137befc05be0f97457e5a2ee38dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:59 +0000
Subject: [PATCH 038/129] fix: go on without the random device when it cannot
 be read

A failed read was taken as a length, which ended the program.  A device at
its end was read for ever when an earlier call had been interrupted.
---
 wizard/random.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index 8a7a82e..4cca75f 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -346,12 +346,14 @@ static ssize_t ReadRandom(int file,unsigned char *source,size_t length)
   for (q=source; length != 0; length-=count)
   {
     count=(ssize_t) read(file,q,length);
-    if (count <= 0)
+    if (count == 0)
+      break;
+    if (count < 0)
       {
         count=0;
         if (errno == EINTR)
           continue;
-        return(-1);
+        break;
       }
     q+=count;
     offset+=count;
-- 
2.43.0


From 8c2a9b060449f4479314da1160716ec0d9e08aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:08 +0000
Subject: [PATCH 039/129] fix: bound the length of the random reservoir by its
 file

A damaged length made the program allocate up to 4 GB, or end when it could
not.
---
 wizard/random.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/random.c b/wizard/random.c
index 4cca75f..271b8f4 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -729,7 +729,8 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
       random_info->timestamp=(time_t) timestamp;
     }
   status&=ReadFile32Bits(file_info,&length);
-  if (status == WizardFalse)
+  if ((status == WizardFalse) ||
+      (length > (size_t) GetFileProperties(file_info)->st_size))
     {
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
-- 
2.43.0


From 6386f82530a09f14cde8a92fb7750e23352db0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:26 +0000
Subject: [PATCH 040/129] fix: remove an option that is listed with an
 exclamation mark

The mark was skipped and then looked for in the name, so "all,!blob" selected
blob events as well.
---
 wizard/option.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/option.c b/wizard/option.c
index 4433680..98276d3 100644
--- a/wizard/option.c
+++ b/wizard/option.c
@@ -470,7 +470,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
     {
       if (LocaleCompare(token,option_info[i].mnemonic) == 0)
         {
-          if (*token == '!')
+          if (negate != WizardFalse)
             option_types=option_types &~ option_info[i].type;
           else
             option_types=option_types | option_info[i].type;
@@ -488,7 +488,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
         for (i=0; option_info[i].mnemonic != (char *) NULL; i++)
           if (LocaleCompare(token,option_info[i].mnemonic) == 0)
             {
-              if (*token == '!')
+              if (negate != WizardFalse)
                 option_types=option_types &~ option_info[i].type;
               else
                 option_types=option_types | option_info[i].type;
-- 
2.43.0


From 91b63394320b05331e13935246581d48ad8f64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:32 +0000
Subject: [PATCH 041/129] fix: recognise command options

The names of command options start with a sign, which was skipped before they
were compared, so parameters of options were expanded as file names.
---
 wizard/option.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/option.c b/wizard/option.c
index 98276d3..c5ba4c1 100644
--- a/wizard/option.c
+++ b/wizard/option.c
@@ -452,7 +452,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
     while (((isspace((int) ((unsigned char) *p)) != 0) || (*p == ',')) &&
            (*p != '\0'))
       p++;
-    if ((*p == '-') || (*p == '+'))
+    if (((*p == '-') || (*p == '+')) && (option != WizardCommandOptions))
       p++;
     negate=(*p == '!') ? WizardTrue : WizardFalse;
     if (negate != WizardFalse)
-- 
2.43.0


From fc6ed5254e9247776c6ecee60a8fe81f6644eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:44 +0000
Subject: [PATCH 042/129] fix: read streams completely and report read errors

---
 wizard/blob.c     | 21 +++++++++++++++------
 wizard/string.c   |  4 +++-
 wizard/xml-tree.c | 18 ++++++++++++------
 3 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 7cb3ff6..e0cad8f 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -599,18 +599,25 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
       for (i=0; blob != (unsigned char *) NULL; i+=count)
       {
         count=read(file,blob+i,quantum);
-        if (count <= 0)
+        if (count == 0)
+          break;
+        if (count < 0)
           {
             count=0;
-            if (errno != EINTR)
-              break;
+            if (errno == EINTR)
+              continue;
+            (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
+              "unable to read file `%s': %s",filename,strerror(errno));
+            blob=(unsigned char *) RelinquishWizardMemory(blob);
+            (void) close(file);
+            return(NULL);
           }
-        if (~((size_t) i) < (quantum+1))
+        if (~((size_t) i+count) < (quantum+1))
           {
             blob=(unsigned char *) RelinquishWizardMemory(blob);
             break;
           }
-        blob=(unsigned char *) ResizeQuantumMemory(blob,i+quantum+1,
+        blob=(unsigned char *) ResizeQuantumMemory(blob,i+count+quantum+1,
           sizeof(*blob));
         if ((size_t) (i+count) >= extent)
           break;
@@ -667,7 +674,9 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
       for (i=0; i < *length; i+=count)
       {
         count=read(file,blob+i,Min(*length-i,(size_t) SSIZE_MAX));
-        if (count <= 0)
+        if (count == 0)
+          break;
+        if (count < 0)
           {
             count=0;
             if (errno != EINTR)
diff --git a/wizard/string.c b/wizard/string.c
index c8edc01..e319117 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -602,7 +602,9 @@ WizardExport StringInfo *ConfigureFileToStringInfo(const char *filename)
       {
         count=read(file,string+i,(size_t) WizardMin(length-i,(size_t)
           SSIZE_MAX));
-        if (count <= 0)
+        if (count == 0)
+          break;
+        if (count < 0)
           {
             count=0;
             if (errno != EINTR)
diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index bd9ceee..a91b8c7 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -682,18 +682,22 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       for (i=0; xml != (char *) NULL; i+=count)
       {
         count=read(file,xml+i,quantum);
-        if (count <= 0)
+        if (count == 0)
+          break;
+        if (count < 0)
           {
             count=0;
-            if (errno != EINTR)
-              break;
+            if (errno == EINTR)
+              continue;
+            xml=(char *) RelinquishWizardMemory(xml);
+            break;
           }
-        if (~((size_t) i) < (quantum+1))
+        if (~((size_t) i+count) < (quantum+1))
           {
             xml=(char *) RelinquishWizardMemory(xml);
             break;
           }
-        xml=(char *) ResizeQuantumMemory(xml,i+quantum+1,sizeof(*xml));
+        xml=(char *) ResizeQuantumMemory(xml,i+count+quantum+1,sizeof(*xml));
         if ((size_t) (i+count) >= extent)
           break;
       }
@@ -731,7 +735,9 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       for (i=0; i < length; i+=count)
       {
         count=read(file,xml+i,(size_t) WizardMin(length-i,(ssize_t) SSIZE_MAX));
-        if (count <= 0)
+        if (count == 0)
+          break;
+        if (count < 0)
           {
             count=0;
             if (errno != EINTR)
-- 
2.43.0


From 72578f54ebacf646dbed453146e22d31bdb7f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:36 +0000
Subject: [PATCH 043/129] fix: report a failed write when a blob is closed

---
 wizard/blob.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index e0cad8f..96f8da2 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -250,7 +250,6 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     return(WizardTrue);
   if (SyncBlob(blob_info) != 0)
     ThrowBlobException(blob_info);
-  status=blob_info->status;
   switch (blob_info->type)
   {
     case UndefinedStream:
@@ -259,7 +258,7 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     case FileStream:
     case PipeStream:
     {
-      if ((status != 0) && (ferror(blob_info->file_info.file) != 0))
+      if (ferror(blob_info->file_info.file) != 0)
         ThrowBlobException(blob_info);
       break;
     }
@@ -286,7 +285,6 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     case BlobStream:
       break;
   }
-  blob_info->status=status;
   blob_info->size=GetBlobSize(blob_info);
   blob_info->eof=WizardFalse;
   blob_info->error=0;
@@ -340,7 +338,6 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
       break;
   }
   (void) DetachBlob(blob_info);
-  blob_info->status=status;
   return(blob_info->status != 0 ? WizardFalse : WizardTrue);
 }
 
@@ -1043,6 +1040,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
       return((BlobInfo *) NULL);
     }
   GetBlobInfo(blob_info);
+  blob_info->mode=mode;
   switch (mode)
   {
     default: type="r"; break;
@@ -1743,7 +1741,9 @@ WizardExport int SyncBlob(BlobInfo *blob_info)
     case ZipStream:
     {
 #if defined(WIZARDSTOOLKIT_ZLIB_DELEGATE)
-      status=gzflush(blob_info->file_info.gzfile,Z_SYNC_FLUSH);
+      if ((blob_info->mode == WriteBlobMode) ||
+          (blob_info->mode == WriteBinaryBlobMode))
+        status=gzflush(blob_info->file_info.gzfile,Z_SYNC_FLUSH);
 #endif
       break;
     }
-- 
2.43.0


From 7be98803f59dcc315c235a87757b40d46e58a0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:36 +0000
Subject: [PATCH 044/129] fix: stop at the end of a blob after an interrupted
 call

---
 wizard/blob.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 96f8da2..0ce0000 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1537,6 +1537,26 @@ WizardExport int ReadBlobByte(BlobInfo *blob_info)
 %    o data: the area to place the information requested from the blob.
 %
 */
+
+static WizardBooleanType IsBlobInterrupted(BlobInfo *blob_info)
+{
+  switch (blob_info->type)
+  {
+    case StandardStream:
+    case FileStream:
+    case PipeStream:
+    {
+      if ((errno != EINTR) || (ferror(blob_info->file_info.file) == 0))
+        return(WizardFalse);
+      clearerr(blob_info->file_info.file);
+      return(WizardTrue);
+    }
+    default:
+      break;
+  }
+  return(WizardFalse);
+}
+
 WizardExport ssize_t ReadBlobChunk(BlobInfo *blob_info,const size_t length,
   void *data)
 {
@@ -1557,11 +1577,17 @@ WizardExport ssize_t ReadBlobChunk(BlobInfo *blob_info,const size_t length,
   {
     count=ReadBlob(blob_info,(size_t) WizardMin(length-i,SSIZE_MAX),
       (unsigned char *) data+i);
+    if (count == (ssize_t) (length-i))
+      continue;
+    if (IsBlobInterrupted(blob_info) != WizardFalse)
+      {
+        count=WizardMax(count,0);
+        continue;
+      }
     if (count <= 0)
       {
         count=0;
-        if (errno != EINTR)
-          break;
+        break;
       }
   }
   return(i);
@@ -2157,8 +2183,7 @@ WizardExport ssize_t WriteBlobChunk(BlobInfo *blob_info,const size_t length,
     if (count <= 0)
       {
         count=0;
-        if (errno != EINTR)
-          break;
+        break;
       }
   }
   return(i);
-- 
2.43.0


From f6ba43395d5bc0c9d8c060f3eafcdbff5eef3dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:36 +0000
Subject: [PATCH 045/129] fix: extend a blob without overwriting its content

---
 wizard/blob.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 0ce0000..9c83fb0 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1644,20 +1644,22 @@ WizardExport WizardBooleanType SetBlobExtent(BlobInfo *blob_info,
 
       if (extent != (WizardSizeType) ((off_t) extent))
         return(WizardFalse);
-      offset=fseek(blob_info->file_info.file,0,SEEK_END);
+      if (fseek(blob_info->file_info.file,0,SEEK_END) < 0)
+        return(WizardFalse);
+      offset=ftell(blob_info->file_info.file);
       if (offset < 0)
         return(WizardFalse);
       if ((WizardSizeType) offset >= extent)
         break;
-      offset=fseek(blob_info->file_info.file,(WizardOffsetType) extent-1,
-        SEEK_SET);
-      if (offset < 0)
-        break;
+      if (fseek(blob_info->file_info.file,(WizardOffsetType) extent-1,
+          SEEK_SET) < 0)
+        return(WizardFalse);
       count=(ssize_t) fwrite((const unsigned char *) "",1,1,
         blob_info->file_info.file);
-      offset=fseek(blob_info->file_info.file,offset,SEEK_SET);
       if (count != 1)
         return(WizardFalse);
+      if (fseek(blob_info->file_info.file,offset,SEEK_SET) < 0)
+        return(WizardFalse);
       break;
     }
     case PipeStream:
@@ -1680,24 +1682,26 @@ WizardExport WizardBooleanType SetBlobExtent(BlobInfo *blob_info,
           WizardOffsetType
             offset;
 
+          if (blob_info->file_info.file == (FILE *) NULL)
+            return(WizardFalse);
           (void) UnmapBlob(blob_info->data,blob_info->length);
           RelinquishWizardResource(MapResource,blob_info->length);
-          if (blob_info->file_info.file == (FILE *) NULL)
+          if (fseek(blob_info->file_info.file,0,SEEK_END) < 0)
             return(WizardFalse);
-          offset=fseek(blob_info->file_info.file,0,SEEK_END);
+          offset=ftell(blob_info->file_info.file);
           if (offset < 0)
             return(WizardFalse);
           if ((WizardSizeType) offset >= extent)
             break;
-          offset=fseek(blob_info->file_info.file,(WizardOffsetType) extent-1,
-            SEEK_SET);
-          if (offset < 0)
+          if (fseek(blob_info->file_info.file,(WizardOffsetType) extent-1,
+              SEEK_SET) < 0)
             return(WizardFalse);
           count=(ssize_t) fwrite((const unsigned char *) "",1,1,
             blob_info->file_info.file);
-          offset=fseek(blob_info->file_info.file,offset,SEEK_SET);
           if (count != 1)
             return(WizardFalse);
+          if (fseek(blob_info->file_info.file,offset,SEEK_SET) < 0)
+            return(WizardFalse);
           (void) AcquireWizardResource(MapResource,extent);
           blob_info->data=(unsigned char *) MapBlob(fileno(
             blob_info->file_info.file),WriteMode,0,(size_t) extent);
-- 
2.43.0


From bf458414b4c784a676c6fd81204215d08b266c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:06 +0000
Subject: [PATCH 046/129] fix: read an included configuration file

---
 wizard/xml-tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index a91b8c7..108cf11 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -714,7 +714,7 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       xml[length]='\0';
       return(xml);
     }
-  length=(size_t) WizardMin(offset,(WizardOffsetType) extent);
+  length=WizardMin((size_t) offset,extent);
   xml=(char *) NULL;
   if (~length >= (WizardPathExtent-1))
     xml=(char *) AcquireQuantumMemory(length+WizardPathExtent,sizeof(*xml));
-- 
2.43.0


From a6bb9bac0418c3656bdbeb97250deb0f4ea05407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:28 +0000
Subject: [PATCH 047/129] fix: notice the end of a compressed blob

---
 wizard/blob.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 9c83fb0..396e186 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -486,7 +486,10 @@ WizardExport int EOFBlob(BlobInfo *blob_info)
     }
     case ZipStream:
     {
-      blob_info->eof=WizardFalse;
+#if defined(WIZARDSTOOLKIT_ZLIB_DELEGATE)
+      blob_info->eof=gzeof(blob_info->file_info.gzfile) != 0 ? WizardTrue :
+        WizardFalse;
+#endif
       break;
     }
     case BZipStream:
@@ -497,7 +500,8 @@ WizardExport int EOFBlob(BlobInfo *blob_info)
 
       status=0;
       (void) BZ2_bzerror(blob_info->file_info.bzfile,&status);
-      blob_info->eof=status == BZ_UNEXPECTED_EOF ? WizardTrue : WizardFalse;
+      if (status == BZ_UNEXPECTED_EOF)
+        blob_info->eof=WizardTrue;
 #endif
       break;
     }
@@ -1416,6 +1420,8 @@ WizardExport ssize_t ReadBlob(BlobInfo *blob_info,const size_t length,
     {
 #if defined(WIZARDSTOOLKIT_BZLIB_DELEGATE)
       count=(ssize_t) BZ2_bzread(blob_info->file_info.bzfile,q,(int) length);
+      if ((count >= 0) && (count != (ssize_t) length))
+        blob_info->eof=WizardTrue;
 #endif
       break;
     }
-- 
2.43.0


From a11476a54f40e179d52bd6f412c6ba23ed574a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:52 +0000
Subject: [PATCH 048/129] fix: pad every chunk of an enciphered file

A last chunk that was padded up to the chunk size could not be told from a
full one, so its padding ended up in the deciphered file.
---
 utilities/encipher.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utilities/encipher.c b/utilities/encipher.c
index 3183cd4..dae2279 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -675,6 +675,15 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
     return(WizardFalse);
   content_info->cipher_info=AcquireCipherInfo(content_info->cipher,
     content_info->mode);
+  blocksize=GetCipherBlocksize(content_info->cipher_info);
+  if ((content_info->mode != CFBMode) &&
+      ((content_info->chunksize % blocksize) == 0))
+    {
+      /*
+        Pad each chunk, otherwise a padded last chunk looks like a full one.
+      */
+      content_info->chunksize++;
+    }
   content_info->authenticate_info=AcquireAuthenticateInfo(
     content_info->authenticate_method,content_info->keyring,
     content_info->key_hash);
@@ -824,7 +833,6 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
     content_info->entropy_info=AcquireEntropyInfo(content_info->entropy,
       content_info->level);
   pad=0;
-  blocksize=GetCipherBlocksize(content_info->cipher_info);
   ciphertext=(StringInfo *) NULL;
   for (plaintext=AcquireStringInfo(content_info->chunksize); ; )
   {
-- 
2.43.0


From 2369a21f06b4feb987931ca953555a18e6ac1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:30 +0000
Subject: [PATCH 049/129] fix: use the key length given on the command line

The option's name was converted to a number instead of its argument, so
-key-length always asked for a key of no bits.
---
 utilities/decipher.c | 2 +-
 utilities/encipher.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index d091e26..10b3f31 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -404,7 +404,7 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
               ThrowCipherException(OptionError,"missing key length: `%s'",
                 option);
             content_info->key_length=(unsigned int) StringToDouble(
-              option,(char **) NULL);
+              argv[i],(char **) NULL);
             break;
           }
         if (LocaleCompare("keyring",option+1) == 0)
diff --git a/utilities/encipher.c b/utilities/encipher.c
index dae2279..2baae43 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -405,7 +405,7 @@ WizardExport WizardBooleanType EncipherCommand(int argc,char **argv,
               ThrowCipherException(OptionError,"missing key length: `%s'",
                 option);
             content_info->key_length=(unsigned int) StringToDouble(
-              option,(char **) NULL);
+              argv[i],(char **) NULL);
             break;
           }
         if (LocaleCompare("keyring",option+1) == 0)
-- 
2.43.0


From 7a1c74356cff00c7cdfec9d71de6b8dfb7606090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:26 +0000
Subject: [PATCH 050/129] fix: reject padding longer than the deciphered chunk

The length wrapped around and decipher ended with a memory allocation
failure on damaged content.
---
 utilities/decipher.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index 10b3f31..443598d 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -770,7 +770,12 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
     plaintext=DecipherCipher(content_info->cipher_info,ciphertext);
     if ((content_info->mode != CFBMode) &&
         ((pad != 0) || (EOFBlob(content_info->cipherblob) != WizardFalse)))
-      length-=GetStringInfoDatum(plaintext)[length-1]+1;
+      {
+        if ((size_t) GetStringInfoDatum(plaintext)[length-1] >= length)
+          ThrowDecipherContentException(FileError,"corrupt cipher chunk `%s': "
+            "`%s'",cipher_filename);
+        length-=GetStringInfoDatum(plaintext)[length-1]+1;
+      }
     SetStringInfoLength(plaintext,length);
     if (entropy != NoEntropy)
       {
-- 
2.43.0


From 302d8456f5246656783430a2d1559f3ec2979d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:26 +0000
Subject: [PATCH 051/129] fix: reject enciphered content that ends inside a
 chunk

A file cut inside the digest of a chunk or the trailer of the properties was
deciphered without an error.
---
 utilities/content.c  |  6 ++++++
 utilities/decipher.c | 15 +++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index 8bd4a32..442d4a7 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -593,6 +593,12 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
   }
   c=ReadBlobByte(cipher_blob);
   c=ReadBlobByte(cipher_blob);
+  if (c == EOF)
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),AuthenticateError,
+        "authentication error: `%s'",GetBlobFilename(cipher_blob));
+      return(WizardFalse);
+    }
   return(WizardTrue);
 }
 
diff --git a/utilities/decipher.c b/utilities/decipher.c
index 443598d..6bfb03b 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -653,7 +653,8 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
     chunk;
 
   WizardBooleanType
-    status;
+    status,
+    trailer;
 
   /*
     Open plaintext and ciphertext content files.
@@ -744,6 +745,8 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   pad=blocksize-content_info->chunksize % blocksize;
   if (pad == blocksize)
     pad=0;
+  trailer=(content_info->mode != CFBMode) && (pad == 0) ? WizardTrue :
+    WizardFalse;  /* padding may follow the last chunk */
   ciphertext=AcquireStringInfo(content_info->chunksize);
   for (chunk=0; ; chunk++)
   {
@@ -754,6 +757,9 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
           hmac));
         if (count <= 0)
           break;
+        if ((count != (ssize_t) length) && (trailer == WizardFalse))
+          ThrowDecipherContentException(FileError,"truncated cipher chunk "
+            "`%s': `%s'",cipher_filename);
       }
     if (content_info->entropy != NoEntropy)
       entropy=(EntropyType) ReadBlobByte(content_info->cipherblob);
@@ -764,7 +770,12 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
     count=ReadBlobChunk(content_info->cipherblob,length,GetStringInfoDatum(
       ciphertext));
     if (count <= 0)
-      break;
+      {
+        if ((content_info->hmac != NoHash) && (trailer == WizardFalse))
+          ThrowDecipherContentException(FileError,"truncated cipher chunk "
+            "`%s': `%s'",cipher_filename);
+        break;
+      }
     length=(size_t) count;
     SetStringInfoLength(ciphertext,length);
     plaintext=DecipherCipher(content_info->cipher_info,ciphertext);
-- 
2.43.0


From 56b6d22548aa033a2553d4e32d8be3136d1ee7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:04 +0000
Subject: [PATCH 052/129] fix: end the parsing of damaged cipher properties

An unprintable character or a foreign element in the properties kept
decipher in an endless loop, and a long key was written past its buffer.
---
 utilities/content.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index 442d4a7..49b73be 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -256,7 +256,7 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
               break;
             if (c == (int) '=')
               break;
-            if ((size_t) (p-key) < WizardPathExtent)
+            if ((size_t) (p-key) < (WizardPathExtent-1))
               *p++=(char) c;
             c=ReadBlobByte(cipher_blob);
           } while (c != EOF);
@@ -332,6 +332,8 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
         c=ReadBlobByte(cipher_blob);
     }
     options=DestroyString(options);
+    if ((isgraph(c) == 0) && (c != EOF))
+      c=ReadBlobByte(cipher_blob);
   }
   if ((bytes == 0) || (digest == (char *) NULL))
     {
@@ -389,7 +391,10 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
     tag=GetXMLTreeTag(node);
     content=GetXMLTreeContent(node);
     if (strncmp(tag,"cipher:",7) != 0)
-      continue;
+      {
+        node=GetXMLTreeSibling(node);
+        continue;
+      }
     tag+=7;
     switch (*tag)
     {
-- 
2.43.0


From b564524b0f14daccdd6149e997fee2c07460ee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:08 +0000
Subject: [PATCH 053/129] fix: read back written timestamps

A timestamp with an offset east of Greenwich lost its seconds and was
reported as unrecognized by decipher.  The offset was applied with the wrong
sign, and offsets of part of an hour were not written.
---
 wizard/string.c  | 13 +++++++------
 wizard/utility.c | 48 +++++++++++++++++++++++++-----------------------
 2 files changed, 32 insertions(+), 29 deletions(-)

diff --git a/wizard/string.c b/wizard/string.c
index e319117..d742aae 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -1143,14 +1143,15 @@ WizardExport ssize_t FormatWizardTime(const time_t time,const size_t length,
       (void) memcpy(&gm_time,my_time,sizeof(gm_time));
   }
 #endif
-  timezone=(time_t) ((local_time.tm_min-gm_time.tm_min)/60+
-    local_time.tm_hour-gm_time.tm_hour+24*((local_time.tm_year-
-    gm_time.tm_year) != 0 ? (local_time.tm_year-gm_time.tm_year) :
-    (local_time.tm_yday-gm_time.tm_yday)));
+  timezone=(time_t) (local_time.tm_min-gm_time.tm_min+60*(local_time.tm_hour-
+    gm_time.tm_hour+24*((local_time.tm_year-gm_time.tm_year) != 0 ?
+    (local_time.tm_year-gm_time.tm_year) : (local_time.tm_yday-
+    gm_time.tm_yday))));
   count=FormatLocaleString(timestamp,length,
-    "%04d-%02d-%02dT%02d:%02d:%02d%+03ld:00",local_time.tm_year+1900,
+    "%04d-%02d-%02dT%02d:%02d:%02d%c%02ld:%02ld",local_time.tm_year+1900,
     local_time.tm_mon+1,local_time.tm_mday,local_time.tm_hour,
-    local_time.tm_min,local_time.tm_sec,(long) timezone);
+    local_time.tm_min,local_time.tm_sec,timezone < 0 ? '-' : '+',
+    labs((long) timezone)/60,labs((long) timezone) % 60);
   return(count);
 }
 
diff --git a/wizard/utility.c b/wizard/utility.c
index 4f0cd51..7804085 100644
--- a/wizard/utility.c
+++ b/wizard/utility.c
@@ -958,7 +958,10 @@ WizardExport const char *ParseWizardTime(const char *timestamp,time_t *target)
     value;
 
   ssize_t
-    timezone;
+    days,
+    sign,
+    timezone,
+    year;
 
    const char
     *p;
@@ -970,31 +973,16 @@ WizardExport const char *ParseWizardTime(const char *timestamp,time_t *target)
     separators[] = "--T::-:";
 
   struct tm
-    gm_time,
-    local_time,
     target_time;
 
-  *target=time((time_t *) NULL);
-#if defined(WIZARDSTOOLKIT_HAVE_LOCALTIME_R)
-  (void) localtime_r(target,&local_time);
-#else
-  (void) memcpy(&local_time,localtime(target),sizeof(local_time));
-#endif
-#if defined(WIZARDSTOOLKIT_HAVE_GMTIME_R)
-  (void) gmtime_r(target,&gm_time);
-#else
-  (void) memcpy(&gm_time,gmtime(target),sizeof(gm_time));
-#endif
-  timezone=(ssize_t) ((local_time.tm_min-gm_time.tm_min)/60+local_time.tm_hour-
-    gm_time.tm_hour+24*((local_time.tm_year-gm_time.tm_year) != 0 ?
-    (local_time.tm_year-gm_time.tm_year) : (local_time.tm_yday-
-    gm_time.tm_yday)));
   (void) memset(&target_time,0,sizeof(target_time));
+  sign=(-1);
+  timezone=0;
   p=timestamp;
-  for (i=0; ; i++)
+  for (i=0; i < (ssize_t) sizeof(separators); i++)
   {
     value=StringToDouble(p,&q);
-    if (*q != separators[i])
+    if ((*q != separators[i]) && ((i != 5) || (*q != '+')))
       break;
     switch (i)
     {
@@ -1003,8 +991,15 @@ WizardExport const char *ParseWizardTime(const char *timestamp,time_t *target)
       case 2: target_time.tm_mday=(int) (value+0.5); break;
       case 3: target_time.tm_hour=(int) (value+0.5); break;
       case 4: target_time.tm_min=(int) (value+0.5); break;
-      case 5: target_time.tm_sec=(int) (value+0.5); break;
-      case 6: timezone+=(int) (value+0.5); break;
+      case 5:
+      {
+        target_time.tm_sec=(int) (value+0.5);
+        if (*q == '+')
+          sign=1;
+        break;
+      }
+      case 6: timezone+=60*sign*(int) (value+0.5); break;
+      case 7: timezone+=sign*(int) (value+0.5); break;
       default: break;
     }
     p=q;
@@ -1012,7 +1007,14 @@ WizardExport const char *ParseWizardTime(const char *timestamp,time_t *target)
       break;
     p++;
   }
-  *target=mktime(&target_time)-3600*timezone;
+  /*
+    Count the days since the Epoch, a year starts in March.
+  */
+  year=target_time.tm_year+1900-(target_time.tm_mon < 2 ? 1 : 0);
+  days=365*year+year/4-year/100+year/400+(153*((target_time.tm_mon+10) % 12)+2)/
+    5+target_time.tm_mday-719469;
+  *target=(time_t) 60*(60*(24*days+target_time.tm_hour)+target_time.tm_min-
+    timezone)+target_time.tm_sec;
   return(p);
 }
 
-- 
2.43.0


From 37b05f0373add041878ba9b644ef106957115c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:08 +0000
Subject: [PATCH 054/129] fix: report unusable cipher properties

Missing or unknown properties ended decipher with an assertion, and a chunk
size of zero passed for an empty file.
---
 utilities/content.c  | 5 +++++
 utilities/decipher.c | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/utilities/content.c b/utilities/content.c
index 49b73be..6c7afd3 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -420,6 +420,9 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
         if (strcmp(tag,"chunksize") == 0)
           {
             content_info->chunksize=(unsigned int) StringToUnsignedLong(content);
+            if (content_info->chunksize == 0)
+              (void) ThrowWizardException(exception,GetWizardModule(),
+                OptionError,"unrecognized chunk size: `%s'",content);
             break;
           }
         if (strcmp(tag,"create-date") == 0)
@@ -587,6 +590,8 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
     node=GetXMLTreeSibling(node);
   }
   rdf=DestroyXMLTree(rdf);
+  if (GetExceptionSeverity(exception) >= ErrorException)
+    return(WizardFalse);
   /*
     Consume trailer (i.e. <?cipherpacket?>).
   */
diff --git a/utilities/decipher.c b/utilities/decipher.c
index 6bfb03b..e522437 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -691,6 +691,9 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
     }
   if (status == WizardFalse)
     return(WizardFalse);
+  if (content_info->id == (char *) NULL)
+    ThrowDecipherContentException(AuthenticateError,"authentication error: "
+      "`%s': `%s'",cipher_filename);
   content_info->authenticate_info=AcquireAuthenticateInfo(
     content_info->authenticate_method,content_info->keyring,
     content_info->key_hash);
-- 
2.43.0


From 62ef0258cd5bd1131bb0256e0a24681ecab870e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:36 +0000
Subject: [PATCH 055/129] fix: let a command that reports an error fail

Errors from closing or writing files were printed, or not even that, and the
command exited successfully.
---
 utilities/decipher.c |  8 +++++---
 utilities/digest.c   | 12 +++++++-----
 utilities/encipher.c |  8 +++++---
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index e522437..8741b38 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -903,9 +903,11 @@ static int WizardMain(int argc,char **argv)
     if ((status == WizardFalse) ||
         (GetExceptionSeverity(exception) != UndefinedException))
       {
-        if ((GetExceptionSeverity(exception) < ErrorException) &&
-            (regard_warnings == WizardFalse))
-          status=WizardTrue;
+        if (GetExceptionSeverity(exception) >= ErrorException)
+          status=WizardFalse;
+        else
+          if (regard_warnings == WizardFalse)
+            status=WizardTrue;
         CatchException(exception);
       }
   }
diff --git a/utilities/digest.c b/utilities/digest.c
index 4a290fc..2e140f2 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -499,7 +499,7 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
       modify_date=DestroyString(modify_date);
   }
   if (CloseBlob(authenticate_blob) == WizardFalse)
-    status=WizardFalse;
+    ThrowFileException(exception,FileError,argv[argc-1]);
   authenticate_blob=DestroyBlob(authenticate_blob);
   if (hash == UndefinedHash)
     ThrowDigestException(OptionError,"missing a digest RDF file: `%s'",
@@ -781,7 +781,7 @@ WizardExport WizardBooleanType DigestCommand(int argc,char **argv,
   }
   (void) WriteBlobString(digest_blob,"</rdf:RDF>\n");
   if (CloseBlob(digest_blob) == WizardFalse)
-    status=WizardFalse;
+    ThrowFileException(exception,FileError,argv[argc-1]);
   /*
     Free resources.
   */
@@ -855,9 +855,11 @@ static int WizardMain(int argc,char **argv)
     if ((status == WizardFalse) ||
         (GetExceptionSeverity(exception) != UndefinedException))
       {
-        if ((GetExceptionSeverity(exception) < ErrorException) &&
-            (regard_warnings == WizardFalse))
-          status=WizardTrue;
+        if (GetExceptionSeverity(exception) >= ErrorException)
+          status=WizardFalse;
+        else
+          if (regard_warnings == WizardFalse)
+            status=WizardTrue;
         CatchException(exception);
       }
   }
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 2baae43..53767eb 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -976,9 +976,11 @@ static int WizardMain(int argc,char **argv)
     if ((status == WizardFalse) ||
         (GetExceptionSeverity(exception) != UndefinedException))
       {
-        if ((GetExceptionSeverity(exception) < ErrorException) &&
-            (regard_warnings == WizardFalse))
-          status=WizardTrue;
+        if (GetExceptionSeverity(exception) >= ErrorException)
+          status=WizardFalse;
+        else
+          if (regard_warnings == WizardFalse)
+            status=WizardTrue;
         CatchException(exception);
       }
   }
-- 
2.43.0


From 957019ce861104bf08d3103139f19e30cefc4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:45 +0000
Subject: [PATCH 056/129] fix: fail to open a file that cannot be rewound

The bytes read to recognize compressed files were missing from its content.
---
 wizard/blob.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 396e186..defd559 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1159,7 +1159,14 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
           (void) memset(magick,0,sizeof(magick));
           count=(ssize_t) fread(magick,1,sizeof(magick),
             blob_info->file_info.file);
-          (void) fseek(blob_info->file_info.file,-((off_t) count),SEEK_CUR);
+          if (fseek(blob_info->file_info.file,-((off_t) count),SEEK_CUR) < 0)
+            {
+              (void) fclose(blob_info->file_info.file);
+              (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
+                "unable to open file `%s': %s",filename,strerror(errno));
+              blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+              return((BlobInfo *) NULL);
+            }
 #if defined(WIZARDSTOOLKIT_POSIX_SUPPORT)
           (void) fflush(blob_info->file_info.file);
 #endif
-- 
2.43.0


From d6828dba6b2a72f3f5c87fdaee1c4f2ecdba3c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:21 +0000
Subject: [PATCH 057/129] fix: parse digest lists as XML when authenticating
 them

Names with blanks or special characters were not found, an entry of a
damaged list was skipped silently and an unprintable character kept the
command in an endless loop.
---
 utilities/digest.c | 410 ++++++++++++++++++---------------------------
 1 file changed, 166 insertions(+), 244 deletions(-)

diff --git a/utilities/digest.c b/utilities/digest.c
index 2e140f2..626d085 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -114,6 +114,63 @@ static void DigestUsage()
   Exit(0);
 }
 
+static XMLTreeInfo *ReadDigestRDF(const char *filename,ExceptionInfo *exception)
+{
+  BlobInfo
+    *digest_blob;
+
+  ExceptionInfo
+    *sans_exception;
+
+  ssize_t
+    count;
+
+  StringInfo
+    *content,
+    *digests;
+
+  XMLTreeInfo
+    *rdf;
+
+  digest_blob=OpenBlob(filename,ReadBinaryBlobMode,WizardTrue,exception);
+  if (digest_blob == (BlobInfo *) NULL)
+    return((XMLTreeInfo *) NULL);
+  digests=AcquireStringInfo(0);
+  for (content=AcquireStringInfo(WizardMaxBufferExtent); ; )
+  {
+    count=ReadBlobChunk(digest_blob,WizardMaxBufferExtent,GetStringInfoDatum(
+      content));
+    if (count <= 0)
+      break;
+    SetStringInfoLength(content,(size_t) count);
+    ConcatenateStringInfo(digests,content);
+  }
+  content=DestroyStringInfo(content);
+  if (CloseBlob(digest_blob) == WizardFalse)
+    ThrowFileException(exception,FileError,filename);
+  digest_blob=DestroyBlob(digest_blob);
+  /*
+    The digests must be complete to be authenticated.
+  */
+  content=AcquireStringInfo(1);
+  ResetStringInfo(content);
+  ConcatenateStringInfo(digests,content);
+  content=DestroyStringInfo(content);
+  sans_exception=AcquireExceptionInfo();
+  rdf=NewXMLTree((const char *) GetStringInfoDatum(digests),sans_exception);
+  if ((rdf == (XMLTreeInfo *) NULL) ||
+      (GetExceptionSeverity(sans_exception) != UndefinedException))
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),FileError,
+        "corrupt digests `%s'",filename);
+      if (rdf != (XMLTreeInfo *) NULL)
+        rdf=DestroyXMLTree(rdf);
+    }
+  sans_exception=DestroyExceptionInfo(sans_exception);
+  digests=DestroyStringInfo(digests);
+  return(rdf);
+}
+
 static WizardBooleanType AuthenticateDigest(int argc,char **argv,
   ExceptionInfo *exception)
 {
@@ -132,19 +189,20 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
 
   BlobInfo
     *authenticate_blob,
-    *content_blob,
-    *digest_blob;
+    *content_blob;
 
   char
-    *create_date,
     date[WizardPathExtent],
-    *digest,
-    key[WizardPathExtent],
+    *errant_digest,
     *message,
+    *option;
+
+  const char
+    *create_date,
+    *digest,
     *modify_date,
-    *option,
-    *options,
     *path,
+    *tag,
     *timestamp;
 
   HashInfo
@@ -153,15 +211,9 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
   HashType
     hash;
 
-  int
-    c;
-
    ssize_t
     i;
 
-  size_t
-    length;
-
   ssize_t
     count;
 
@@ -171,6 +223,11 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
   WizardBooleanType
     status;
 
+  XMLTreeInfo
+    *child,
+    *node,
+    *rdf;
+
   status=WizardFalse;
   authenticate_blob=OpenBlob(argv[argc-1],WriteBinaryBlobMode,WizardTrue,
     exception);
@@ -257,246 +314,111 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
     /*
       Read message digests from a file and verify them.
     */
-    digest_blob=OpenBlob(argv[i],ReadBinaryBlobMode,WizardTrue,exception);
-    if (digest_blob == (BlobInfo *) NULL)
-      return(WizardFalse);
-    (void) memset(key,0,sizeof(key));
-    create_date=ConstantString("unknown");
-    digest=ConstantString("unknown");
-    path=ConstantString("unknown");
-    modify_date=ConstantString("unknown");
-    timestamp=ConstantString("unknown");
+    rdf=ReadDigestRDF(argv[i],exception);
+    if (rdf == (XMLTreeInfo *) NULL)
+      {
+        (void) CloseBlob(authenticate_blob);
+        authenticate_blob=DestroyBlob(authenticate_blob);
+        return(WizardFalse);
+      }
     hash=SHA2256Hash;
-    for (c=ReadBlobByte(digest_blob); (c != '>') && (c != EOF); )
+    for (child=GetXMLTreeChild(rdf,(const char *) NULL);
+         child != (XMLTreeInfo *) NULL; child=GetXMLTreeOrdered(child))
     {
-      length=WizardPathExtent;
-      options=AcquireString((char *) NULL);
-      while ((isgraph(c) != WizardFalse) && (c != '>') && (c != EOF))
+      if ((LocaleCompare(GetXMLTreeTag(child),"digest:Content") != 0) &&
+          (LocaleCompare(GetXMLTreeTag(child),"rdf:Description") != 0))
+        continue;
+      create_date="unknown";
+      digest="unknown";
+      modify_date="unknown";
+      timestamp="unknown";
+      path=GetXMLTreeAttribute(child,"rdf:about");
+      if (path == (const char *) NULL)
+        path="unknown";
+      for (node=GetXMLTreeChild(child,(const char *) NULL);
+           node != (XMLTreeInfo *) NULL; node=GetXMLTreeOrdered(node))
       {
-         char
-          *p;
+        ssize_t
+          algorithm;
 
-        if ((isalnum(c) == WizardFalse) && (c != '/'))
-          c=ReadBlobByte(digest_blob);
+        tag=GetXMLTreeTag(node);
+        if (LocaleCompare(tag,"digest:create-date") == 0)
+          create_date=GetXMLTreeContent(node);
         else
-          {
-            /*
-              Get the key.
-            */
-            p=key;
-            do
-            {
-              if (isspace((int) ((unsigned char) c)) != 0)
-                break;
-              if (c == (int) '>')
-                break;
-              if ((size_t) (p-key) < WizardPathExtent)
-                *p++=(char) c;
-              c=ReadBlobByte(digest_blob);
-            } while (c != EOF);
-            *p='\0';
-            p=options;
-            while (isspace((int) ((unsigned char) c)) != 0)
-              c=ReadBlobByte(digest_blob);
-            if (c == (int) '>')
-              {
-                /*
-                  Get the value.
-                */
-                c=ReadBlobByte(digest_blob);
-                while ((c != (int) '<') && (c != EOF))
+          if (LocaleCompare(tag,"digest:modify-date") == 0)
+            modify_date=GetXMLTreeContent(node);
+          else
+            if (LocaleCompare(tag,"digest:timestamp") == 0)
+              timestamp=GetXMLTreeContent(node);
+            else
+              if (LocaleNCompare(tag,"digest:",7) == 0)
                 {
-                  if ((size_t) (p-options+1) >= length)
-                    {
-                      *p='\0';
-                      length<<=1;
-                      options=(char *) ResizeQuantumMemory(options,length+
-                        WizardPathExtent,sizeof(*options));
-                      if (options == (char *) NULL)
-                        break;
-                      p=options+strlen(options);
-                    }
-                  if (options == (char *) NULL)
-                    {
-                      (void) ThrowWizardException(exception,GetWizardModule(),
-                        ResourceError,"memory allocation failed: `%s'",
-                        GetBlobFilename(digest_blob));
-                      return(WizardFalse);
-                    }
-                  *p++=(char) c;
-                  c=ReadBlobByte(digest_blob);
-                  if (*options != '<')
-                    if (isspace((int) ((unsigned char) c)) != 0)
-                      break;
+                  algorithm=ParseWizardOption(WizardHashOptions,WizardFalse,
+                    tag+7);
+                  if (algorithm < 0)
+                    continue;
+                  hash=(HashType) algorithm;
+                  digest=GetXMLTreeContent(node);
                 }
-              }
-            *p='\0';
-            /*
-              Interpret key.
-            */
-            switch (*key)
-            {
-              case 'd':
-              case 'D':
-              {
-                if (LocaleCompare(key,"digest:create-date") == 0)
-                  {
-                    StripString(options);
-                    create_date=ConstantString(options);
-                    break;
-                  }
-                if (LocaleCompare(key,"digest:modify-date") == 0)
-                  {
-                    StripString(options);
-                    modify_date=ConstantString(options);
-                    break;
-                  }
-                if (LocaleCompare(key,"digest:timestamp") == 0)
-                  {
-                    StripString(options);
-                    timestamp=ConstantString(options);
-                    break;
-                  }
-                if (LocaleNCompare(key,"digest:",7) == 0)
-                  {
-                    ssize_t
-                      algorithm;
-
-                    algorithm=ParseWizardOption(WizardHashOptions,WizardFalse,
-                      key+7);
-                    if (algorithm < 0)
-                      break;
-                    hash=(HashType) algorithm;
-                    StripString(options);
-                    digest=ConstantString(options);
-                    break;
-                  }
-                break;
-              }
-              case 'r':
-              case 'R':
-              {
-                if (LocaleNCompare(key,"rdf:about",9) == 0)
-                  {
-                    StripString(key+10);
-                    if (path != (char *) NULL)
-                      path=DestroyString(path);
-                    path=ConstantString(key+10);
-                    if (digest != (char *) NULL)
-                      {
-                        digest=DestroyString(digest);
-                        digest=ConstantString("unknown");
-                      }
-                    if (timestamp != (char *) NULL)
-                      {
-                        timestamp=DestroyString(timestamp);
-                        timestamp=ConstantString("timestamp");
-                      }
-                    if (create_date != (char *) NULL)
-                      {
-                        create_date=DestroyString(create_date);
-                        create_date=ConstantString("unknown");
-                      }
-                    if (modify_date != (char *) NULL)
-                      {
-                        modify_date=DestroyString(modify_date);
-                        modify_date=ConstantString("unknown");
-                      }
-                    break;
-                  }
-                break;
-              }
-              case '/':
-              {
-                if ((LocaleCompare(key,"/digest:Content") == 0) ||
-                    (LocaleCompare(key,"/rdf:Description") == 0))
-                  {
-                    content_blob=OpenBlob(path,ReadBinaryBlobMode,WizardFalse,
-                      exception);
-                    if (content_blob == (BlobInfo *) NULL)
-                      break;
-                    /*
-                      Compute content message digest and verify.
-                    */
-                    hash_info=AcquireHashInfo(hash);
-                    InitializeHash(hash_info);
-                    for (content=AcquireStringInfo(WizardMaxBufferExtent); ; )
-                    {
-                      count=ReadBlobChunk(content_blob,WizardMaxBufferExtent,
-                        GetStringInfoDatum(content));
-                      if (count <= 0)
-                        break;
-                      length=(size_t) count;
-                      SetStringInfoLength(content,length);
-                      UpdateHash(hash_info,content);
-                    }
-                    FinalizeHash(hash_info);
-                    content=DestroyStringInfo(content);
-                    if (strcmp(digest,GetHashHexDigest(hash_info)) != 0)
-                      {
-                        char
-                          algorithm[WizardPathExtent];
-
-                        message=AcquireString("Path: ");
-                        (void) ConcatenateString(&message,path);
-                        (void) ConcatenateString(&message,"\n");
-                        (void) ConcatenateString(&message,"  create date: ");
-                        (void) ConcatenateString(&message,create_date);
-                        (void) ConcatenateString(&message,"\n");
-                        (void) ConcatenateString(&message,"  modify date: ");
-                        (void) ConcatenateString(&message,modify_date);
-                        (void) ConcatenateString(&message,"\n");
-                        (void) FormatLocaleString(algorithm,WizardPathExtent,"%s",
-                          WizardOptionToMnemonic(WizardHashOptions,hash));
-                        (void) ConcatenateString(&message,"  hash: ");
-                        (void) ConcatenateString(&message,algorithm);
-                        (void) ConcatenateString(&message,"\n");
-                        (void) ConcatenateString(&message,"  digest (");
-                        (void) ConcatenateString(&message,timestamp);
-                        (void) ConcatenateString(&message,"):\n    ");
-                        (void) ConcatenateString(&message,digest);
-                        (void) ConcatenateString(&message,"\n");
-                        (void) ConcatenateString(&message,"  errant digest (");
-                        (void) FormatWizardTime(time((time_t *) NULL),
-                          WizardPathExtent,date);
-                        (void) ConcatenateString(&message,date);
-                        (void) ConcatenateString(&message,"):\n    ");
-                        (void) ConcatenateString(&message,GetHashHexDigest(
-                          hash_info));
-                        (void) ConcatenateString(&message,"\n");
-                        count=WriteBlobString(authenticate_blob,message);
-                        if (count != (ssize_t) strlen(message))
-                          ThrowFileException(exception,FileError,argv[argc-1]);
-                        message=DestroyString(message);
-                      }
-                    hash_info=DestroyHashInfo(hash_info);
-                    if (CloseBlob(content_blob) == WizardFalse)
-                      ThrowFileException(exception,FileError,argv[i]);
-                    content_blob=DestroyBlob(content_blob);
-                    break;
-                  }
-              }
-              default:
-                break;
-            }
-          }
-        while (isspace((int) ((unsigned char) c)) != 0)
-          c=ReadBlobByte(digest_blob);
       }
-      options=DestroyString(options);
-      if (CloseBlob(digest_blob) == WizardFalse)
-        ThrowFileException(exception,FileError,argv[i]);
+      content_blob=OpenBlob(path,ReadBinaryBlobMode,WizardFalse,exception);
+      if (content_blob == (BlobInfo *) NULL)
+        continue;
+      /*
+        Compute content message digest and verify.
+      */
+      hash_info=AcquireHashInfo(hash);
+      InitializeHash(hash_info);
+      for (content=AcquireStringInfo(WizardMaxBufferExtent); ; )
+      {
+        count=ReadBlobChunk(content_blob,WizardMaxBufferExtent,
+          GetStringInfoDatum(content));
+        if (count <= 0)
+          break;
+        SetStringInfoLength(content,(size_t) count);
+        UpdateHash(hash_info,content);
+      }
+      FinalizeHash(hash_info);
+      content=DestroyStringInfo(content);
+      errant_digest=GetHashHexDigest(hash_info);
+      if (strcmp(digest,errant_digest) != 0)
+        {
+          message=AcquireString("Path: ");
+          (void) ConcatenateString(&message,path);
+          (void) ConcatenateString(&message,"\n");
+          (void) ConcatenateString(&message,"  create date: ");
+          (void) ConcatenateString(&message,create_date);
+          (void) ConcatenateString(&message,"\n");
+          (void) ConcatenateString(&message,"  modify date: ");
+          (void) ConcatenateString(&message,modify_date);
+          (void) ConcatenateString(&message,"\n");
+          (void) ConcatenateString(&message,"  hash: ");
+          (void) ConcatenateString(&message,WizardOptionToMnemonic(
+            WizardHashOptions,hash));
+          (void) ConcatenateString(&message,"\n");
+          (void) ConcatenateString(&message,"  digest (");
+          (void) ConcatenateString(&message,timestamp);
+          (void) ConcatenateString(&message,"):\n    ");
+          (void) ConcatenateString(&message,digest);
+          (void) ConcatenateString(&message,"\n");
+          (void) ConcatenateString(&message,"  errant digest (");
+          (void) FormatWizardTime(time((time_t *) NULL),WizardPathExtent,date);
+          (void) ConcatenateString(&message,date);
+          (void) ConcatenateString(&message,"):\n    ");
+          (void) ConcatenateString(&message,errant_digest);
+          (void) ConcatenateString(&message,"\n");
+          count=WriteBlobString(authenticate_blob,message);
+          if (count != (ssize_t) strlen(message))
+            ThrowFileException(exception,FileError,argv[argc-1]);
+          message=DestroyString(message);
+        }
+      errant_digest=DestroyString(errant_digest);
+      hash_info=DestroyHashInfo(hash_info);
+      if (CloseBlob(content_blob) == WizardFalse)
+        ThrowFileException(exception,FileError,path);
+      content_blob=DestroyBlob(content_blob);
     }
-    if (path != (char *) NULL)
-      path=DestroyString(path);
-    if (digest != (char *) NULL)
-      digest=DestroyString(digest);
-    if (timestamp != (char *) NULL)
-      timestamp=DestroyString(timestamp);
-    if (create_date != (char *) NULL)
-      create_date=DestroyString(create_date);
-    if (modify_date != (char *) NULL)
-      modify_date=DestroyString(modify_date);
+    rdf=DestroyXMLTree(rdf);
   }
   if (CloseBlob(authenticate_blob) == WizardFalse)
     ThrowFileException(exception,FileError,argv[argc-1]);
-- 
2.43.0


From d9460fcb4cb5574130b13b28d943c7495cde9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:37 +0000
Subject: [PATCH 058/129] fix: let a command fail when it fails without a
 message

The status of a command that fails without reporting an error was replaced
by success.  A keyring that cannot be opened for a new key is now reported.
---
 utilities/decipher.c | 3 ++-
 utilities/digest.c   | 5 +++--
 utilities/encipher.c | 3 ++-
 wizard/keyring.c     | 7 ++++++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index 8741b38..6e5810f 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -906,7 +906,8 @@ static int WizardMain(int argc,char **argv)
         if (GetExceptionSeverity(exception) >= ErrorException)
           status=WizardFalse;
         else
-          if (regard_warnings == WizardFalse)
+          if ((GetExceptionSeverity(exception) != UndefinedException) &&
+              (regard_warnings == WizardFalse))
             status=WizardTrue;
         CatchException(exception);
       }
diff --git a/utilities/digest.c b/utilities/digest.c
index 626d085..251b77d 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -228,7 +228,7 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
     *node,
     *rdf;
 
-  status=WizardFalse;
+  status=WizardTrue;
   authenticate_blob=OpenBlob(argv[argc-1],WriteBinaryBlobMode,WizardTrue,
     exception);
   if (authenticate_blob == (BlobInfo *) NULL)
@@ -780,7 +780,8 @@ static int WizardMain(int argc,char **argv)
         if (GetExceptionSeverity(exception) >= ErrorException)
           status=WizardFalse;
         else
-          if (regard_warnings == WizardFalse)
+          if ((GetExceptionSeverity(exception) != UndefinedException) &&
+              (regard_warnings == WizardFalse))
             status=WizardTrue;
         CatchException(exception);
       }
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 53767eb..61036f7 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -979,7 +979,8 @@ static int WizardMain(int argc,char **argv)
         if (GetExceptionSeverity(exception) >= ErrorException)
           status=WizardFalse;
         else
-          if (regard_warnings == WizardFalse)
+          if ((GetExceptionSeverity(exception) != UndefinedException) &&
+              (regard_warnings == WizardFalse))
             status=WizardTrue;
         CatchException(exception);
       }
diff --git a/wizard/keyring.c b/wizard/keyring.c
index d2a6a82..a882ede 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -463,7 +463,12 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   file_info=AcquireFileInfo(keyring_info->path,KeyringFilename,WriteFileMode,
     exception);
   if (file_info == (FileInfo *) NULL)
-    return(WizardFalse);
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "unable to open keyring `%s': %s",keyring_info->path == (char *) NULL ?
+        KeyringFilename : keyring_info->path,strerror(errno));
+      return(WizardFalse);
+    }
   file=GetFileDescriptor(file_info);
   extent=lseek(file,0,SEEK_END);
   if ((extent == -1) || (lseek(file,0,SEEK_SET) == -1))
-- 
2.43.0


From 665de40a9f57a106bd5ab28fb5590e74656f0894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:42 +0000
Subject: [PATCH 059/129] fix: leave room for the end of converted XML

Text that starts with a byte-order mark is converted from UTF-16.  The
converted text was ended one byte past its memory, and text that converts
to nothing was accessed before its first byte.
---
 wizard/xml-tree.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 108cf11..576b465 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1391,7 +1391,7 @@ static char *ConvertUTF16ToUTF8(const char *content,size_t *length)
     }
   }
   *length=(size_t) j;
-  utf8=(char *) ResizeQuantumMemory(utf8,*length,sizeof(*utf8));
+  utf8=(char *) ResizeQuantumMemory(utf8,*length+1,sizeof(*utf8));
   if (utf8 != (char *) NULL)
     utf8[*length]='\0';
   return(utf8);
@@ -2041,6 +2041,13 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
         "memory allocation failed `%s'",strerror(errno));
       return((XMLTreeInfo *) NULL);
     }
+  if (length == 0)
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),OptionWarning,
+        "root tag missing");
+      utf8=DestroyString(utf8);
+      return((XMLTreeInfo *) NULL);
+    }
   terminal=utf8[length-1];
   utf8[length-1]='\0';
   p=utf8;
-- 
2.43.0


From 58c7415f03ef7eaea24302cd656ab4dc3cdec609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:01 +0000
Subject: [PATCH 060/129] fix: accept entities that refer to characters or
 other entities

The search for the entity of a reference stopped at the first other entity.
Every declaration with a reference was rejected as circular.
---
 wizard/xml-tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 576b465..fbd6955 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1636,7 +1636,7 @@ static WizardBooleanType ValidateEntities(char *tag,char *xml,
       return(WizardFalse);
     i=0;
     while ((entities[i] != (char *) NULL) &&
-           (strncmp(entities[i],xml+1,strlen(entities[i])) == 0))
+           (strncmp(entities[i],xml+1,strlen(entities[i])) != 0))
       i+=2;
     if ((entities[i] != (char *) NULL) &&
         (ValidateEntities(tag,entities[i+1],depth+1,entities) == 0))
-- 
2.43.0


From 482e9c3ae37fe5d964679751383a19ee8fcc2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:13 +0000
Subject: [PATCH 061/129] fix: read every attribute declaration of an XML
 document

A declaration with a default value ended the reading of the document type.
Attributes of a tag were added to those of the first declared tag.
---
 wizard/xml-tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index fbd6955..6d01dec 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1837,8 +1837,7 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
             *xml='\0';
             i=0;
             while ((root->attributes[i] != (char **) NULL) &&
-                   (n != (char *) NULL) &&
-                   (strcmp(n,root->attributes[i][0]) != 0))
+                   (strcmp(t,root->attributes[i][0]) != 0))
               i++;
             while ((*(n=xml+strspn(xml+1,XMLWhitespace)+1) != '\0') &&
                    (*n != '>'))
@@ -1927,6 +1926,7 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
                 root->attributes[i][j+1]=ParseEntities(v,root->entities,*c);
               root->attributes[i][j]=ConstantString(n);
             }
+            xml=n;
         }
       else
         if (strncmp(xml, "<!--", 4) == 0)
-- 
2.43.0


From 302dcf05fe6731ca35679927d4c3afef2255f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:23 +0000
Subject: [PATCH 062/129] fix: write the children of an XML tag without content
 inside the tag

---
 wizard/xml-tree.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 6d01dec..207653e 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2772,7 +2772,8 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
     *length+=FormatLocaleString(*source+(*length),*extent,"\"");
     j+=3;
   }
-  *length+=FormatLocaleString(*source+(*length),*extent,*xml_info->content ?
+  *length+=FormatLocaleString(*source+(*length),*extent,
+    (*xml_info->content != '\0') || (xml_info->child != (XMLTreeInfo *) NULL) ?
     ">" : "/>");
   if (xml_info->child != (XMLTreeInfo *) NULL)
     *source=XMLTreeTagToXML(xml_info->child,source,length,extent,0,attributes);
@@ -2786,7 +2787,8 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
       if (*source == (char *) NULL)
         return((char *) NULL);
     }
-  if (*xml_info->content != '\0')
+  if ((*xml_info->content != '\0') ||
+      (xml_info->child != (XMLTreeInfo *) NULL))
     *length+=FormatLocaleString(*source+(*length),*extent,"</%s>",
       xml_info->tag);
   while ((offset < xml_info->offset) && (content[offset] != '\0'))
-- 
2.43.0


From 0e5a754ad671548a58f5ef18ab65fd34ea50b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:21 +0000
Subject: [PATCH 063/129] fix: keep every child of an XML tree reachable

Removing the first of several children with the same tag hid the others.
Inserting a child before the first one of its tag listed the tag twice.
---
 wizard/xml-tree.c | 92 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 69 insertions(+), 23 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 207653e..73d287f 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1273,9 +1273,21 @@ WizardExport XMLTreeInfo *InsertTagIntoXMLTree(XMLTreeInfo *xml_info,
     }
   else
     {
-      if ((previous != (XMLTreeInfo *) NULL) && (node != (XMLTreeInfo *) NULL))
-        previous->sibling=node->sibling;
       child->next=node;
+      if (node == head)
+        {
+          /*
+            The first child is replaced as the first of its tag.
+          */
+          child->sibling=node->sibling;
+          node->sibling=(XMLTreeInfo *) NULL;
+          return(child);
+        }
+      if (node != (XMLTreeInfo *) NULL)
+        {
+          previous->sibling=node->sibling;
+          node->sibling=(XMLTreeInfo *) NULL;
+        }
       previous=(XMLTreeInfo *) NULL;
       node=head;
       while ((node != (XMLTreeInfo *) NULL) && (node->offset <= offset))
@@ -2463,40 +2475,74 @@ WizardExport XMLTreeInfo *NewXMLTreeTag(const char *tag)
 WizardExport XMLTreeInfo *PruneTagFromXMLTree(XMLTreeInfo *xml_info)
 {
   XMLTreeInfo
-    *node;
+    *head,
+    *node,
+    *previous,
+    *sibling;
 
   WizardAssert(ResourceDomain,xml_info != (XMLTreeInfo *) NULL);
   WizardAssert(ResourceDomain,(xml_info->signature == WizardSignature) ||
          (((XMLTreeRoot *) xml_info)->signature == WizardSignature));
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
-  if (xml_info->next != (XMLTreeInfo *) NULL)
-    xml_info->next->sibling=xml_info->sibling;
   if (xml_info->parent != (XMLTreeInfo *) NULL)
     {
+      /*
+        Find the first child of this tag.
+      */
+      previous=(XMLTreeInfo *) NULL;
+      head=xml_info->parent->child;
+      while ((head != (XMLTreeInfo *) NULL) &&
+             (strcmp(head->tag,xml_info->tag) != 0))
+      {
+        previous=head;
+        head=head->sibling;
+      }
+      if (head != xml_info)
+        {
+          for (node=head; node != (XMLTreeInfo *) NULL; node=node->next)
+            if (node->next == xml_info)
+              {
+                node->next=xml_info->next;
+                break;
+              }
+        }
+      else
+        {
+          /*
+            The next child of this tag becomes the first.  The first children
+            of their tag are in the order of the children.
+          */
+          sibling=xml_info->sibling;
+          if (xml_info->next != (XMLTreeInfo *) NULL)
+            {
+              if (previous != (XMLTreeInfo *) NULL)
+                previous->sibling=sibling;
+              node=xml_info->ordered;
+              while ((node != (XMLTreeInfo *) NULL) &&
+                     (node != xml_info->next))
+              {
+                if (node == sibling)
+                  {
+                    previous=sibling;
+                    sibling=sibling->sibling;
+                  }
+                node=node->ordered;
+              }
+              xml_info->next->sibling=sibling;
+              sibling=xml_info->next;
+            }
+          if (previous != (XMLTreeInfo *) NULL)
+            previous->sibling=sibling;
+        }
       node=xml_info->parent->child;
       if (node == xml_info)
         xml_info->parent->child=xml_info->ordered;
       else
         {
-          while (node->ordered != xml_info)
+          while ((node != (XMLTreeInfo *) NULL) && (node->ordered != xml_info))
             node=node->ordered;
-          node->ordered=node->ordered->ordered;
-          node=xml_info->parent->child;
-          if (strcmp(node->tag,xml_info->tag) != 0)
-            {
-              while (strcmp(node->sibling->tag,xml_info->tag) != 0)
-                node=node->sibling;
-              if (node->sibling != xml_info)
-                node=node->sibling;
-              else
-                node->sibling=(xml_info->next != (XMLTreeInfo *) NULL) ?
-                  xml_info->next : node->sibling->sibling;
-            }
-          while ((node->next != (XMLTreeInfo *) NULL) &&
-                 (node->next != xml_info))
-            node=node->next;
-          if (node->next != (XMLTreeInfo *) NULL)
-            node->next=node->next->next;
+          if (node != (XMLTreeInfo *) NULL)
+            node->ordered=xml_info->ordered;
         }
     }
   xml_info->ordered=(XMLTreeInfo *) NULL;
-- 
2.43.0


From 72da77773f3187e071870dbc71d80143652217fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:33 +0000
Subject: [PATCH 064/129] fix: write UTF-8 text of an XML tree as it is

Text that is already UTF-8 was converted from Latin-1 when it was written.
A file with such a name could not be found again in a list of digests.
---
 wizard/xml-tree.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 73d287f..495de44 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -334,6 +334,34 @@ static unsigned char *ConvertLatin1ToUTF8(const unsigned char *content)
   return(utf8);
 }
 
+static WizardBooleanType IsUTF8Content(const unsigned char *content)
+{
+  const unsigned char
+    *p;
+
+  size_t
+    i,
+    length;
+
+  for (p=content; *p != '\0'; p+=length)
+  {
+    length=1;
+    if (*p < 0x80)
+      continue;
+    if ((*p < 0xc2) || (*p > 0xf4))
+      return(WizardFalse);
+    length=*p < 0xe0 ? 2 : *p < 0xf0 ? 3 : 4;
+    if (((*p == 0xe0) && (*(p+1) < 0xa0)) || ((*p == 0xf0) && (*(p+1) < 0x90)))
+      return(WizardFalse);
+    if (((*p == 0xed) && (*(p+1) > 0x9f)) || ((*p == 0xf4) && (*(p+1) > 0x8f)))
+      return(WizardFalse);
+    for (i=1; i < length; i++)
+      if ((*(p+i) & 0xc0) != 0x80)
+        return(WizardFalse);
+  }
+  return(WizardTrue);
+}
+
 WizardExport char *CanonicalXMLContent(const char *content,
   const WizardBooleanType pedantic)
 {
@@ -354,7 +382,10 @@ WizardExport char *CanonicalXMLContent(const char *content,
   unsigned char
     *utf8;
 
-  utf8=ConvertLatin1ToUTF8((const unsigned char *) content);
+  if (IsUTF8Content((const unsigned char *) content) != WizardFalse)
+    utf8=(unsigned char *) ConstantString(content);
+  else
+    utf8=ConvertLatin1ToUTF8((const unsigned char *) content);
   if (utf8 == (unsigned char *) NULL)
     return((char *) NULL);
   for (p=utf8; *p != '\0'; p++)
-- 
2.43.0


From bd59ed413a7e15fc3f7079be4d40221606e5511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:48 +0000
Subject: [PATCH 065/129] fix: set and remove attributes of an XML tag safely

The value of a further attribute was read before it was set.  Removing an
attribute moved bytes of memory that is not the tree's.
---
 wizard/xml-tree.c | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 495de44..c55a8d3 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2638,17 +2638,13 @@ WizardExport XMLTreeInfo *SetXMLTreeAttribute(XMLTreeInfo *xml_info,
         xml_info->attributes=(char **) ResizeQuantumMemory(
           xml_info->attributes,(size_t) (i+4),sizeof(*xml_info->attributes));
       else
-        {
-          xml_info->attributes=(char **) AcquireQuantumMemory(4,
-            sizeof(*xml_info->attributes));
-          if (xml_info->attributes != (char **) NULL)
-            xml_info->attributes[1]=ConstantString("");
-        }
+        xml_info->attributes=(char **) AcquireQuantumMemory(4,
+          sizeof(*xml_info->attributes));
       if (xml_info->attributes == (char **) NULL)
         ThrowFatalException(ResourceFatalError,"unable to acquire string `%s'");
       xml_info->attributes[i]=ConstantString(tag);
+      xml_info->attributes[i+1]=(char *) NULL;
       xml_info->attributes[i+2]=(char *) NULL;
-      (void) strlen(xml_info->attributes[i+1]);
     }
   /*
     Add new value to an existing attribute.
@@ -2664,14 +2660,7 @@ WizardExport XMLTreeInfo *SetXMLTreeAttribute(XMLTreeInfo *xml_info,
   if (xml_info->attributes[i] != (char *) NULL)
     xml_info->attributes[i]=DestroyString(xml_info->attributes[i]);
   (void) memmove(xml_info->attributes+i,xml_info->attributes+i+2,(size_t)
-    (j-i)*sizeof(*xml_info->attributes));
-  xml_info->attributes=(char **) ResizeQuantumMemory(xml_info->attributes,
-    (size_t) (j+2),sizeof(*xml_info->attributes));
-  if (xml_info->attributes == (char **) NULL)
-    ThrowFatalException(ResourceFatalError,"unable to acquire string `%s'");
-  j-=2;
-  (void) memmove(xml_info->attributes[j+1]+(i/2),xml_info->attributes[j+1]+
-    (i/2)+1,(size_t) (((j+2)/2)-(i/2))*sizeof(**xml_info->attributes));
+    (j-i-1)*sizeof(*xml_info->attributes));
   return(xml_info);
 }
 
-- 
2.43.0


From 66a583a4a2984d62109c15afcfe41cdd8f04e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:26 +0000
Subject: [PATCH 066/129] fix: keep the table of MIME types as it is on a
 lookup

---
 wizard/mime.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index 8aa9e57..3cbb7fe 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -380,9 +380,6 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
     }
     p=(const MimeInfo *) GetNextValueInLinkedList(mime_cache);
   }
-  if (mime_info != (const MimeInfo *) NULL)
-    (void) InsertValueInLinkedList(mime_cache,0,
-      RemoveElementByValueFromLinkedList(mime_cache,p));
   UnlockSemaphoreInfo(mime_semaphore);
   return(mime_info);
 }
-- 
2.43.0


From 9e2e6375ce48d6e20eab7ce71595c795c65a6d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:26 +0000
Subject: [PATCH 067/129] fix: do not match every content with a MIME type that
 has no signature

---
 wizard/mime.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/mime.c b/wizard/mime.c
index 3cbb7fe..8b8f8b2 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -365,6 +365,8 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
       case StringData:
       default:
       {
+        if (p->magic == (unsigned char *) NULL)
+          break;
         for (i=0; i <= (ssize_t) p->extent; i++)
         {
           if ((size_t) (p->offset+i+p->length) > length)
-- 
2.43.0


From 3753924bd0d2abf24be91703c2157b3d8af48228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:26 +0000
Subject: [PATCH 068/129] fix: find byte and short signatures at the end of the
 content

---
 wizard/mime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index 8b8f8b2..b7b3121 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -282,7 +282,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
     {
       case ByteData:
       {
-        if ((size_t) (p->offset+4) > length)
+        if ((size_t) (p->offset+1) > length)
           break;
         q=magic+p->offset;
         value=(ssize_t) (*q++);
@@ -300,7 +300,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
       }
       case ShortData:
       {
-        if ((size_t) (p->offset+4) > length)
+        if ((size_t) (p->offset+2) > length)
           break;
         q=magic+p->offset;
         endian=p->endian;
-- 
2.43.0


From 7db41f44f9f33ddeb1d1cfc82c98af72283d2789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:26 +0000
Subject: [PATCH 069/129] fix: apply the mask of a MIME type to the content

---
 wizard/mime.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index b7b3121..c6ac5ca 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -293,7 +293,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
           }
         else
           {
-            if ((p->value & p->mask) == value)
+            if ((p->value & p->mask) == (value & p->mask))
               mime_info=p;
           }
         break;
@@ -323,7 +323,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
           }
         else
           {
-            if ((p->value & p->mask) == value)
+            if ((p->value & p->mask) == (value & p->mask))
               mime_info=p;
           }
         break;
@@ -357,7 +357,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
           }
         else
           {
-            if ((p->value & p->mask) == value)
+            if ((p->value & p->mask) == (value & p->mask))
               mime_info=p;
           }
         break;
-- 
2.43.0


From d882f399f2ac42c203019590b5768db705a304bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:43 +0000
Subject: [PATCH 070/129] fix: sort the list of MIME types by name

---
 wizard/mime.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index c6ac5ca..1a08191 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -520,12 +520,12 @@ extern "C" {
 static int MimeCompare(const void *x,const void *y)
 {
    char
-    *p,
-    *q;
+    **p,
+    **q;
 
-  p=(char *) x;
-  q=(char *) y;
-  return(strcasecmp(p,q));
+  p=(char **) x;
+  q=(char **) y;
+  return(strcasecmp(*p,*q));
 }
 
 #if defined(__cplusplus) || defined(c_plusplus)
-- 
2.43.0


From 4b4d83c0bd9443451e3c8e16f85c6f3c2f1cb62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:54 +0000
Subject: [PATCH 071/129] fix: read hexadecimal escapes of MIME signatures

---
 wizard/mime.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/wizard/mime.c b/wizard/mime.c
index 1a08191..5abd778 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -910,6 +910,19 @@ static WizardBooleanType LoadMimeCache(LinkedListInfo *mime_cache,
                   mime_info->length++;
                   continue;
                 }
+              if ((*p == 'x') && (isxdigit((int) ((unsigned char) p[1])) != 0))
+                {
+                  char
+                    digits[3];
+
+                  (void) CopyWizardString(digits,p+1,3);
+                  if (isxdigit((int) ((unsigned char) digits[1])) == 0)
+                    digits[1]='\0';
+                  *q++=(unsigned char) strtol(digits,(char **) NULL,16);
+                  p+=strlen(digits)+1;
+                  mime_info->length++;
+                  continue;
+                }
               switch (*p)
               {
                 case 'b': *q='\b'; break;
-- 
2.43.0


From 56835a4f3881ba6016af1099e6cc69a04f357e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:14 +0000
Subject: [PATCH 072/129] fix: refuse resource requests whose total overflows

---
 wizard/resource.c | 52 ++++++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 361db6c..bf0fe8f 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -385,6 +385,22 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
 %    o size: The number of bytes needed from for this resource.
 %
 */
+
+static inline WizardBooleanType IncreaseResource(WizardOffsetType *resource,
+  const WizardSizeType size,const WizardSizeType limit)
+{
+  WizardSizeType
+    total;
+
+  total=(WizardSizeType) *resource+size;
+  if ((total < size) || ((WizardOffsetType) total < 0))
+    return(WizardFalse);
+  if ((limit != WizardResourceInfinity) && (total >= limit))
+    return(WizardFalse);
+  *resource=(WizardOffsetType) total;
+  return(WizardTrue);
+}
+
 WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
   const WizardSizeType size)
 {
@@ -420,13 +436,8 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MemoryResource:
     {
-      resource_info.memory+=size;
-      limit=resource_info.memory_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.memory < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.memory-=(WizardOffsetType) size;
+      status=IncreaseResource(&resource_info.memory,size,
+        resource_info.memory_limit);
       (void) FormatWizardSize((WizardSizeType) resource_info.memory,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.memory_limit,WizardTrue,
@@ -435,13 +446,8 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MapResource:
     {
-      resource_info.map+=size;
-      limit=resource_info.map_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.map < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.map-=(WizardOffsetType) size;
+      status=IncreaseResource(&resource_info.map,size,
+        resource_info.map_limit);
       (void) FormatWizardSize((WizardSizeType) resource_info.map,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.map_limit,WizardTrue,
@@ -450,13 +456,8 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case DiskResource:
     {
-      resource_info.disk+=size;
-      limit=resource_info.disk_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.disk < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.disk-=(WizardOffsetType) size;
+      status=IncreaseResource(&resource_info.disk,size,
+        resource_info.disk_limit);
       (void) FormatWizardSize((WizardSizeType) resource_info.disk,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.disk_limit,WizardTrue,
@@ -465,13 +466,8 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case FileResource:
     {
-      resource_info.file+=size;
-      limit=resource_info.file_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.file < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.file-=(WizardOffsetType) size;
+      status=IncreaseResource(&resource_info.file,size,
+        resource_info.file_limit);
       (void) FormatWizardSize((WizardSizeType) resource_info.file,WizardFalse,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize((WizardSizeType) resource_info.file_limit,
-- 
2.43.0


From fd091c31e658dfbe1028435dc9f7d356cc31ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:14 +0000
Subject: [PATCH 073/129] fix: leave the area resource alone when a request is
 refused

---
 wizard/resource.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index bf0fe8f..916854a 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -424,10 +424,11 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
   {
     case AreaResource:
     {
-      resource_info.area=(WizardOffsetType) size;
       limit=resource_info.area_limit;
       status=(resource_info.area_limit == WizardResourceInfinity) ||
         (size < limit) ? WizardTrue : WizardFalse;
+      if (status != WizardFalse)
+        resource_info.area=(WizardOffsetType) size;
       (void) FormatWizardSize((WizardSizeType) resource_info.area,WizardFalse,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.area_limit,WizardFalse,
@@ -755,7 +756,7 @@ WizardExport void RelinquishWizardResource(const ResourceType type,
   {
     case AreaResource:
     {
-      resource_info.area=(WizardOffsetType) size;
+      resource_info.area=0;
       (void) FormatWizardSize((WizardSizeType) resource_info.area,
         WizardFalse,WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.area_limit,
-- 
2.43.0


From 7bdeaa8a386200eb1a7665b1b08b709a023d4009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:14 +0000
Subject: [PATCH 074/129] fix: remove a temporary file that the resource limits
 refuse

---
 wizard/resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 916854a..f83bd36 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -341,7 +341,7 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
       if (close(file) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to close file `%s': %s",filename,strerror(errno));
-      if (remove_utf8(path) == -1)
+      if (remove_utf8(filename) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to remove file `%s': %s",filename,strerror(errno));
       return(-1);
-- 
2.43.0


From 16a0aa25d29f34ae9c9e934dc10b40d20c23a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:14 +0000
Subject: [PATCH 075/129] fix: return the file resource of a released temporary
 file

---
 wizard/resource.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index f83bd36..de6f408 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -842,21 +842,14 @@ WizardExport WizardBooleanType RelinquishUniqueFileResource(const char *path,
 {
   WizardAssert(ResourceDomain,path != (const char *) NULL);
   (void) LogWizardEvent(ResourceEvent,GetWizardModule(),"%s",path);
-  if (temporary_resources != (SplayTreeInfo *) NULL)
+  if ((temporary_resources != (SplayTreeInfo *) NULL) &&
+      (DeleteNodeFromSplayTree(temporary_resources,path) != WizardFalse))
     {
-       char
-        *p;
-
-      ResetSplayTreeIterator(temporary_resources);
-      p=(char *) GetNextKeyInSplayTree(temporary_resources);
-      while (p != (char *) NULL)
-      {
-        if (LocaleCompare(p,path) == 0)
-          break;
-        p=(char *) GetNextKeyInSplayTree(temporary_resources);
-      }
-      if (p != (char *) NULL)
-        (void) DeleteNodeFromSplayTree(temporary_resources,p);
+      /*
+        The file is removed along with its node.
+      */
+      RelinquishWizardResource(FileResource,1);
+      return(WizardTrue);
     }
   if (trash == WizardFalse)
     return(WizardTrue);
-- 
2.43.0


From ab238b91fab0e12c06c69f799e48c15b8f3b61dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:14 +0000
Subject: [PATCH 076/129] fix: return only those resources that virtual memory
 acquired

---
 wizard/memory.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wizard/memory.c b/wizard/memory.c
index e82d8a2..8e98562 100644
--- a/wizard/memory.c
+++ b/wizard/memory.c
@@ -496,8 +496,8 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
           memory_info->type=AlignedVirtualMemory;
           return(memory_info);
         }
+      RelinquishWizardResource(MemoryResource,length);
     }
-  RelinquishWizardResource(MemoryResource,length);
   if (AcquireWizardResource(MapResource,length) != WizardFalse)
     {
       /*
@@ -543,12 +543,12 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
               (void) close(file);
               (void) RelinquishUniqueFileResource(memory_info->filename,
                 WizardTrue);
-              *memory_info->filename = '\0';
             }
+          *memory_info->filename='\0';
+          RelinquishWizardResource(DiskResource,length);
         }
-      RelinquishWizardResource(DiskResource,length);
+      RelinquishWizardResource(MapResource,length);
     }
-  RelinquishWizardResource(MapResource,length);
   if (memory_info->blob == NULL)
     {
       memory_info->blob=AcquireWizardMemory(length);
-- 
2.43.0


From 3c83c27b9f0cbe877fe43c7aef0c477086103c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:14 +0000
Subject: [PATCH 077/129] fix: map anonymous memory for reading and writing

---
 wizard/blob.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index defd559..c131907 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -948,7 +948,6 @@ WizardExport void *MapBlob(int file,const MapMode mode,
 #else
     return((unsigned char *) NULL);
 #endif
-  flags|=MAP_PRIVATE;
   switch (mode)
   {
     case ReadMode:
-- 
2.43.0


From 54a1433cf922fd6e26724286c722151bb6427fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:47 +0000
Subject: [PATCH 078/129] fix: return random values below one

---
 wizard/random.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index 271b8f4..41ab893 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -189,7 +189,7 @@ WizardExport RandomInfo *AcquireRandomInfo(const HashType hash)
   random_info->reservoir=AcquireStringInfo(GetHMACDigestsize(
     random_info->hmac_info));
   ResetStringInfo(random_info->reservoir);
-  random_info->normalize=(double) (1.0/(WizardULLConstant(~0) >> 11));
+  random_info->normalize=(double) (1.0/((WizardULLConstant(~0) >> 11)+1));
   random_info->seed[0]=WizardULLConstant(0x76e15d3efefdcbbf);
   random_info->seed[1]=WizardULLConstant(0xc5004e441c522fb3);
   random_info->seed[2]=WizardULLConstant(0x77710069854ee241);
@@ -882,16 +882,11 @@ WizardExport unsigned long GetRandomSecretKey(const RandomInfo *random_info)
 */
 WizardExport double GetRandomValue(RandomInfo *random_info)
 {
-  unsigned long
-    key,
-    range;
+  WizardSizeType
+    key;
 
-  range=(~0UL);
-  do
-  {
-    SetRandomKey(random_info,sizeof(key),(unsigned char *) &key);
-  } while (key == range);
-  return((double) key/range);
+  SetRandomKey(random_info,sizeof(key),(unsigned char *) &key);
+  return((double) ((key >> 11)*random_info->normalize));
 }
 
 /*
-- 
2.43.0


From f743ef9293f502ac4156029f937ffc9544223c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:58 +0000
Subject: [PATCH 079/129] fix: draw pseudo-random values one at a time

---
 wizard/random.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index 41ab893..2b4301b 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -785,16 +785,20 @@ WizardExport double GetPseudoRandomValue(RandomInfo *random_info)
 {
 #define RandomROTL(x,k) (((x) << (k)) | ((x) >> (64-(k))))
 
-  const WizardSizeType
-    alpha = (random_info->seed[1] << 17),
-    value = (random_info->seed[0]+random_info->seed[3]);
+  WizardSizeType
+    alpha,
+    value;
 
+  LockSemaphoreInfo(random_info->semaphore);
+  alpha=random_info->seed[1] << 17;
+  value=random_info->seed[0]+random_info->seed[3];
   random_info->seed[2]^=random_info->seed[0];
   random_info->seed[3]^=random_info->seed[1];
   random_info->seed[1]^=random_info->seed[2];
   random_info->seed[0]^=random_info->seed[3];
   random_info->seed[2]^=alpha;
   random_info->seed[3]=RandomROTL(random_info->seed[3],45);
+  UnlockSemaphoreInfo(random_info->semaphore);
   return((double) ((value >> 11)*random_info->normalize));
 }
 
-- 
2.43.0


From d199c2741f83b550b8fd0c973abc7601ec2d7347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:54 +0000
Subject: [PATCH 080/129] fix: fold only exact repeats of an exception

Messages that differ in case only, such as those about two files, were
taken for a repeat and lost.
---
 wizard/exception.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index c32c5b2..dea54f6 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -917,6 +917,14 @@ WizardExport WarningHandler SetWarningHandler(WarningHandler handler)
 %    o description: The exception description.
 %
 */
+
+static inline WizardBooleanType IsSameMessage(const char *p,const char *q)
+{
+  if ((p == (const char *) NULL) || (q == (const char *) NULL))
+    return(p == q ? WizardTrue : WizardFalse);
+  return(strcmp(p,q) == 0 ? WizardTrue : WizardFalse);
+}
+
 WizardExport WizardBooleanType ThrowException(ExceptionInfo *exception,
   const ExceptionType severity,const char *reason,const char *description)
 {
@@ -931,8 +939,8 @@ WizardExport WizardBooleanType ThrowException(ExceptionInfo *exception,
   p=(ExceptionInfo *) GetLastValueInLinkedList((LinkedListInfo *)
     exception->exceptions);
   if ((p != (ExceptionInfo *) NULL) && (p->severity == severity) &&
-      (LocaleCompare(exception->reason,reason) == 0) &&
-      (LocaleCompare(exception->description,description) == 0))
+      (IsSameMessage(exception->reason,reason) != WizardFalse) &&
+      (IsSameMessage(exception->description,description) != WizardFalse))
     {
       UnlockSemaphoreInfo(exception->semaphore);
       return(WizardTrue);
-- 
2.43.0


From 987ec564e7bd352e620c236e4df52e59fdc6e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:54 +0000
Subject: [PATCH 081/129] fix: deliver an exception to the handler of its own
 severity

Whether an exception went to the handler for fatal errors depended on the
latest exception instead of on the one delivered.
---
 wizard/exception.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index dea54f6..289be57 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -242,7 +242,7 @@ WizardExport void CatchException(ExceptionInfo *exception)
       WizardWarning(p->severity,p->reason,p->description);
     if ((p->severity >= ErrorException) && (p->severity < FatalErrorException))
       WizardError(p->severity,p->reason,p->description);
-    if (exception->severity >= FatalErrorException)
+    if (p->severity >= FatalErrorException)
       WizardFatalError(p->severity,p->reason,p->description);
     p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
       exception->exceptions);
-- 
2.43.0


From c80d1581f3f0a9b3fab5b109a88c2f7cc05594f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:54 +0000
Subject: [PATCH 082/129] fix: return when an exception inherits from itself

The list grew while it was copied, so the call never returned.
---
 wizard/exception.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index 289be57..66ffa05 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -666,7 +666,7 @@ WizardExport void InheritException(ExceptionInfo *exception,
   assert(exception->signature == WizardSignature);
   assert(relative != (ExceptionInfo *) NULL);
   assert(relative->signature == WizardSignature);
-  if (relative->exceptions == (void *) NULL)
+  if ((relative == exception) || (relative->exceptions == (void *) NULL))
     return;
   LockSemaphoreInfo(relative->semaphore);
   ResetLinkedListIterator((LinkedListInfo *) relative->exceptions);
-- 
2.43.0


From 65465a1146448140f0215cd2e34fdb1c00d7d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:35 +0000
Subject: [PATCH 083/129] fix: keep exceptions thrown while others are caught

An exception thrown after the last one was delivered and before the list
was cleared was lost without being delivered.
---
 wizard/exception.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index 66ffa05..90050cc 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -175,16 +175,11 @@ static void *DestroyExceptionElement(void *exception)
   return((void *) NULL);
 }
 
-WizardExport void ClearWizardException(ExceptionInfo *exception)
+static void ClearExceptions(ExceptionInfo *exception)
 {
-   ExceptionInfo
+  ExceptionInfo
     *p;
 
-  assert(exception != (ExceptionInfo *) NULL);
-  assert(exception->signature == WizardSignature);
-  if (exception->exceptions == (void *) NULL)
-    return;
-  LockSemaphoreInfo(exception->semaphore);
   p=(ExceptionInfo *) RemoveLastElementFromLinkedList((LinkedListInfo *)
     exception->exceptions);
   while (p != (ExceptionInfo *) NULL)
@@ -196,6 +191,16 @@ WizardExport void ClearWizardException(ExceptionInfo *exception)
   exception->severity=UndefinedException;
   exception->reason=(char *) NULL;
   exception->description=(char *) NULL;
+}
+
+WizardExport void ClearWizardException(ExceptionInfo *exception)
+{
+  assert(exception != (ExceptionInfo *) NULL);
+  assert(exception->signature == WizardSignature);
+  if (exception->exceptions == (void *) NULL)
+    return;
+  LockSemaphoreInfo(exception->semaphore);
+  ClearExceptions(exception);
   UnlockSemaphoreInfo(exception->semaphore);
   errno=0;
 }
@@ -247,8 +252,9 @@ WizardExport void CatchException(ExceptionInfo *exception)
     p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
       exception->exceptions);
   }
+  ClearExceptions(exception);
   UnlockSemaphoreInfo(exception->semaphore);
-  ClearWizardException(exception);
+  errno=0;
 }
 
 /*
-- 
2.43.0


From 34e94f9541af98608c02cd4a32e358e1b3357222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:20 +0000
Subject: [PATCH 084/129] fix: inherit exceptions without a deadlock

Two threads whose exceptions inherited from each other each held the lock
the other one needed.  Take both locks in a fixed order.
---
 wizard/exception.c | 60 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index 90050cc..81b0a45 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -95,6 +95,10 @@ static void
 /*
   Global declarations.
 */
+static WizardBooleanType
+  AppendException(ExceptionInfo *,const ExceptionType,const char *,
+    const char *);
+
 static ErrorHandler
   error_handler = DefaultErrorHandler;
 
@@ -668,23 +672,37 @@ WizardExport void InheritException(ExceptionInfo *exception,
    const ExceptionInfo
     *p;
 
+  WizardBooleanType
+    status;
+
   assert(exception != (ExceptionInfo *) NULL);
   assert(exception->signature == WizardSignature);
   assert(relative != (ExceptionInfo *) NULL);
   assert(relative->signature == WizardSignature);
-  if ((relative == exception) || (relative->exceptions == (void *) NULL))
+  if ((relative == exception) || (relative->exceptions == (void *) NULL) ||
+      (exception->exceptions == (void *) NULL))
     return;
+  status=WizardTrue;
+  if (exception < relative)
+    LockSemaphoreInfo(exception->semaphore);
   LockSemaphoreInfo(relative->semaphore);
+  if (exception > relative)
+    LockSemaphoreInfo(exception->semaphore);
   ResetLinkedListIterator((LinkedListInfo *) relative->exceptions);
   p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
     relative->exceptions);
   while (p != (const ExceptionInfo *) NULL)
   {
-    (void) ThrowException(exception,p->severity,p->reason,p->description);
+    status=AppendException(exception,p->severity,p->reason,p->description);
+    if (status == WizardFalse)
+      break;
     p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
       relative->exceptions);
   }
   UnlockSemaphoreInfo(relative->semaphore);
+  UnlockSemaphoreInfo(exception->semaphore);
+  if (status == WizardFalse)
+    ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
 }
 
 /*
@@ -931,32 +949,21 @@ static inline WizardBooleanType IsSameMessage(const char *p,const char *q)
   return(strcmp(p,q) == 0 ? WizardTrue : WizardFalse);
 }
 
-WizardExport WizardBooleanType ThrowException(ExceptionInfo *exception,
+static WizardBooleanType AppendException(ExceptionInfo *exception,
   const ExceptionType severity,const char *reason,const char *description)
 {
-   ExceptionInfo
+  ExceptionInfo
     *p;
 
-  assert(exception != (ExceptionInfo *) NULL);
-  assert(exception->signature == WizardSignature);
-  if (exception->exceptions == (void *) NULL)
-    return(WizardTrue);
-  LockSemaphoreInfo(exception->semaphore);
   p=(ExceptionInfo *) GetLastValueInLinkedList((LinkedListInfo *)
     exception->exceptions);
   if ((p != (ExceptionInfo *) NULL) && (p->severity == severity) &&
       (IsSameMessage(exception->reason,reason) != WizardFalse) &&
       (IsSameMessage(exception->description,description) != WizardFalse))
-    {
-      UnlockSemaphoreInfo(exception->semaphore);
-      return(WizardTrue);
-    }
+    return(WizardTrue);
   p=(ExceptionInfo *) AcquireWizardMemory(sizeof(*p));
   if (p == (ExceptionInfo *) NULL)
-    {
-      UnlockSemaphoreInfo(exception->semaphore);
-      ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
-    }
+    return(WizardFalse);
   (void) memset(p,0,sizeof(*p));
   p->severity=severity;
   if (reason != (const char *) NULL)
@@ -968,10 +975,27 @@ WizardExport WizardBooleanType ThrowException(ExceptionInfo *exception,
   exception->severity=p->severity;
   exception->reason=p->reason;
   exception->description=p->description;
+  return(WizardTrue);
+}
+
+WizardExport WizardBooleanType ThrowException(ExceptionInfo *exception,
+  const ExceptionType severity,const char *reason,const char *description)
+{
+  WizardBooleanType
+    status;
+
+  assert(exception != (ExceptionInfo *) NULL);
+  assert(exception->signature == WizardSignature);
+  if (exception->exceptions == (void *) NULL)
+    return(WizardTrue);
+  LockSemaphoreInfo(exception->semaphore);
+  status=AppendException(exception,severity,reason,description);
   UnlockSemaphoreInfo(exception->semaphore);
+  if (status == WizardFalse)
+    ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
   return(WizardTrue);
 }
-
+
 /*
 %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
 %                                                                             %
-- 
2.43.0


From 2139476017d16c3530e85a9604e8478cad9e3ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:14 +0000
Subject: [PATCH 085/129] fix: wipe a string before its memory is released

Strings hold keys, seeds and digests.  They stayed readable in the heap
after the object that owned them was destroyed.
---
 wizard/string.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wizard/string.c b/wizard/string.c
index d742aae..8ebcbfb 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -862,8 +862,11 @@ WizardExport StringInfo *DestroyStringInfo(StringInfo *string_info)
   WizardAssert(StringDomain,string_info != (StringInfo *) NULL);
   WizardAssert(StringDomain,string_info->signature == WizardSignature);
   if (string_info->datum != (unsigned char *) NULL)
-    string_info->datum=(unsigned char *) RelinquishWizardMemory(
-      string_info->datum);
+    {
+      (void) ResetWizardMemory(string_info->datum,0,string_info->length);
+      string_info->datum=(unsigned char *) RelinquishWizardMemory(
+        string_info->datum);
+    }
   string_info->signature=(~WizardSignature);
   string_info=(StringInfo *) RelinquishWizardMemory(string_info);
   return(string_info);
-- 
2.43.0


From 9a874ae90a1e07a4a11a398b9ddda730c9bfe856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:14 +0000
Subject: [PATCH 086/129] fix: wipe the key schedule of a cipher before its
 memory is released

The round keys allow the cipher key to be recovered.
---
 wizard/aes.c     | 16 ++++++++++++----
 wizard/chacha.c  |  1 +
 wizard/serpent.c |  1 +
 wizard/twofish.c |  1 +
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/wizard/aes.c b/wizard/aes.c
index 229ed9e..38fb900 100644
--- a/wizard/aes.c
+++ b/wizard/aes.c
@@ -478,11 +478,19 @@ WizardExport AESInfo *DestroyAESInfo(AESInfo *aes_info)
   WizardAssert(CipherDomain,aes_info != (AESInfo *) NULL);
   WizardAssert(CipherDomain,aes_info->signature == WizardSignature);
   if (aes_info->decipher_key != (unsigned int *) NULL)
-    aes_info->decipher_key=(unsigned int *)
-      RelinquishWizardMemory(aes_info->decipher_key);
+    {
+      (void) ResetWizardMemory(aes_info->decipher_key,0,60UL*
+        sizeof(*aes_info->decipher_key));
+      aes_info->decipher_key=(unsigned int *)
+        RelinquishWizardMemory(aes_info->decipher_key);
+    }
   if (aes_info->encipher_key != (unsigned int *) NULL)
-    aes_info->encipher_key=(unsigned int *)
-      RelinquishWizardMemory(aes_info->encipher_key);
+    {
+      (void) ResetWizardMemory(aes_info->encipher_key,0,60UL*
+        sizeof(*aes_info->encipher_key));
+      aes_info->encipher_key=(unsigned int *)
+        RelinquishWizardMemory(aes_info->encipher_key);
+    }
   if (aes_info->key != (StringInfo *) NULL)
     aes_info->key=DestroyStringInfo(aes_info->key);
   aes_info->signature=(~WizardSignature);
diff --git a/wizard/chacha.c b/wizard/chacha.c
index 2485694..515346e 100644
--- a/wizard/chacha.c
+++ b/wizard/chacha.c
@@ -168,6 +168,7 @@ WizardExport ChachaInfo *DestroyChachaInfo(ChachaInfo *chacha_info)
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   WizardAssert(CipherDomain,chacha_info != (ChachaInfo *) NULL);
   WizardAssert(CipherDomain,chacha_info->signature == WizardSignature);
+  (void) ResetWizardMemory(chacha_info,0,sizeof(*chacha_info));
   chacha_info->signature=(~WizardSignature);
   chacha_info=(ChachaInfo *) RelinquishWizardMemory(chacha_info);
   return(chacha_info);
diff --git a/wizard/serpent.c b/wizard/serpent.c
index 5b9b98a..a47b921 100644
--- a/wizard/serpent.c
+++ b/wizard/serpent.c
@@ -361,6 +361,7 @@ WizardExport SerpentInfo *DestroySerpentInfo(SerpentInfo *serpent_info)
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   WizardAssert(CipherDomain,serpent_info != (SerpentInfo *) NULL);
   WizardAssert(CipherDomain,serpent_info->signature == WizardSignature);
+  (void) ResetWizardMemory(serpent_info,0,sizeof(*serpent_info));
   serpent_info->signature=(~WizardSignature);
   serpent_info=(SerpentInfo *) RelinquishWizardMemory(serpent_info);
   return(serpent_info);
diff --git a/wizard/twofish.c b/wizard/twofish.c
index 2ba03ce..972ab2d 100644
--- a/wizard/twofish.c
+++ b/wizard/twofish.c
@@ -247,6 +247,7 @@ WizardExport TwofishInfo *DestroyTwofishInfo(TwofishInfo *twofish_info)
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   WizardAssert(CipherDomain,twofish_info != (TwofishInfo *) NULL);
   WizardAssert(CipherDomain,twofish_info->signature == WizardSignature);
+  (void) ResetWizardMemory(twofish_info,0,sizeof(*twofish_info));
   twofish_info->signature=(~WizardSignature);
   twofish_info=(TwofishInfo *) RelinquishWizardMemory(twofish_info);
   return(twofish_info);
-- 
2.43.0


From 12c9828936b84b7ac0d3a6c615d1b8899aca39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:14 +0000
Subject: [PATCH 087/129] fix: wipe the state of a hash before its memory is
 released

The state of a keyed hash is as good as its key.
---
 wizard/crc64.c   | 1 +
 wizard/md5.c     | 8 ++++++--
 wizard/sha1.c    | 8 ++++++--
 wizard/sha2224.c | 8 ++++++--
 wizard/sha2256.c | 8 ++++++--
 wizard/sha2384.c | 8 ++++++--
 wizard/sha2512.c | 8 ++++++--
 wizard/sha3.c    | 1 +
 8 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/wizard/crc64.c b/wizard/crc64.c
index 2f38432..380b2f9 100644
--- a/wizard/crc64.c
+++ b/wizard/crc64.c
@@ -144,6 +144,7 @@ WizardExport CRC64Info *DestroyCRC64Info(CRC64Info *crc_info)
   if (crc_info->crc_xor != (WizardSizeType *) NULL)
     crc_info->crc_xor=(WizardSizeType *)
       RelinquishWizardMemory(crc_info->crc_xor);
+  (void) ResetWizardMemory(crc_info,0,sizeof(*crc_info));
   crc_info->signature=(~WizardSignature);
   crc_info=(CRC64Info *) RelinquishWizardMemory(crc_info);
   return(crc_info);
diff --git a/wizard/md5.c b/wizard/md5.c
index 77e77f0..60882ef 100644
--- a/wizard/md5.c
+++ b/wizard/md5.c
@@ -149,8 +149,12 @@ WizardExport MD5Info *DestroyMD5Info(MD5Info *md5_info)
   assert(md5_info != (MD5Info *) NULL);
   assert(md5_info->signature == WizardSignature);
   if (md5_info->accumulator != (unsigned int *) NULL)
-    md5_info->accumulator=(unsigned int *)
-      RelinquishWizardMemory(md5_info->accumulator);
+    {
+      (void) ResetWizardMemory(md5_info->accumulator,0,4UL*
+        sizeof(*md5_info->accumulator));
+      md5_info->accumulator=(unsigned int *) RelinquishWizardMemory(
+        md5_info->accumulator);
+    }
   if (md5_info->message != (StringInfo *) NULL)
     md5_info->message=DestroyStringInfo(md5_info->message);
   if (md5_info->digest != (StringInfo *) NULL)
diff --git a/wizard/sha1.c b/wizard/sha1.c
index 6e3b556..dac579e 100644
--- a/wizard/sha1.c
+++ b/wizard/sha1.c
@@ -163,8 +163,12 @@ WizardExport SHA1Info *DestroySHA1Info(SHA1Info *sha_info)
   assert(sha_info != (SHA1Info *) NULL);
   assert(sha_info->signature == WizardSignature);
   if (sha_info->accumulator != (unsigned int *) NULL)
-    sha_info->accumulator=(unsigned int *)
-      RelinquishWizardMemory(sha_info->accumulator);
+    {
+      (void) ResetWizardMemory(sha_info->accumulator,0,SHA1Blocksize*
+        sizeof(*sha_info->accumulator));
+      sha_info->accumulator=(unsigned int *) RelinquishWizardMemory(
+        sha_info->accumulator);
+    }
   if (sha_info->message != (StringInfo *) NULL)
     sha_info->message=DestroyStringInfo(sha_info->message);
   if (sha_info->digest != (StringInfo *) NULL)
diff --git a/wizard/sha2224.c b/wizard/sha2224.c
index 54cf2cb..c226721 100644
--- a/wizard/sha2224.c
+++ b/wizard/sha2224.c
@@ -161,8 +161,12 @@ WizardExport SHA2224Info *DestroySHA2224Info(SHA2224Info *sha_info)
   assert(sha_info != (SHA2224Info *) NULL);
   assert(sha_info->signature == WizardSignature);
   if (sha_info->accumulator != (unsigned int *) NULL)
-    sha_info->accumulator=(unsigned int *) RelinquishWizardMemory(
-      sha_info->accumulator);
+    {
+      (void) ResetWizardMemory(sha_info->accumulator,0,SHA2224Blocksize*
+        sizeof(*sha_info->accumulator));
+      sha_info->accumulator=(unsigned int *) RelinquishWizardMemory(
+        sha_info->accumulator);
+    }
   if (sha_info->message != (StringInfo *) NULL)
     sha_info->message=DestroyStringInfo(sha_info->message);
   if (sha_info->digest != (StringInfo *) NULL)
diff --git a/wizard/sha2256.c b/wizard/sha2256.c
index 2aa0683..61ad3ef 100644
--- a/wizard/sha2256.c
+++ b/wizard/sha2256.c
@@ -162,8 +162,12 @@ WizardExport SHA2256Info *DestroySHA2256Info(SHA2256Info *sha_info)
   assert(sha_info != (SHA2256Info *) NULL);
   assert(sha_info->signature == WizardSignature);
   if (sha_info->accumulator != (unsigned int *) NULL)
-    sha_info->accumulator=(unsigned int *) RelinquishWizardMemory(
-      sha_info->accumulator);
+    {
+      (void) ResetWizardMemory(sha_info->accumulator,0,SHA2256Blocksize*
+        sizeof(*sha_info->accumulator));
+      sha_info->accumulator=(unsigned int *) RelinquishWizardMemory(
+        sha_info->accumulator);
+    }
   if (sha_info->message != (StringInfo *) NULL)
     sha_info->message=DestroyStringInfo(sha_info->message);
   if (sha_info->digest != (StringInfo *) NULL)
diff --git a/wizard/sha2384.c b/wizard/sha2384.c
index b44928c..4db98a5 100644
--- a/wizard/sha2384.c
+++ b/wizard/sha2384.c
@@ -162,8 +162,12 @@ WizardExport SHA2384Info *DestroySHA2384Info(SHA2384Info *sha_info)
   assert(sha_info != (SHA2384Info *) NULL);
   assert(sha_info->signature == WizardSignature);
   if (sha_info->accumulator != (WizardSizeType *) NULL)
-    sha_info->accumulator=(WizardSizeType *) RelinquishWizardMemory(
-      sha_info->accumulator);
+    {
+      (void) ResetWizardMemory(sha_info->accumulator,0,SHA2384Blocksize*
+        sizeof(*sha_info->accumulator));
+      sha_info->accumulator=(WizardSizeType *) RelinquishWizardMemory(
+        sha_info->accumulator);
+    }
   if (sha_info->message != (StringInfo *) NULL)
     sha_info->message=DestroyStringInfo(sha_info->message);
   if (sha_info->digest != (StringInfo *) NULL)
diff --git a/wizard/sha2512.c b/wizard/sha2512.c
index bfce0e4..de3e012 100644
--- a/wizard/sha2512.c
+++ b/wizard/sha2512.c
@@ -162,8 +162,12 @@ WizardExport SHA2512Info *DestroySHA2512Info(SHA2512Info *sha_info)
   assert(sha_info != (SHA2512Info *) NULL);
   assert(sha_info->signature == WizardSignature);
   if (sha_info->accumulator != (WizardSizeType *) NULL)
-    sha_info->accumulator=(WizardSizeType *)
-      RelinquishWizardMemory(sha_info->accumulator);
+    {
+      (void) ResetWizardMemory(sha_info->accumulator,0,SHA2512Blocksize*
+        sizeof(*sha_info->accumulator));
+      sha_info->accumulator=(WizardSizeType *) RelinquishWizardMemory(
+        sha_info->accumulator);
+    }
   if (sha_info->message != (StringInfo *) NULL)
     sha_info->message=DestroyStringInfo(sha_info->message);
   if (sha_info->digest != (StringInfo *) NULL)
diff --git a/wizard/sha3.c b/wizard/sha3.c
index 5c2069f..8d47f6c 100644
--- a/wizard/sha3.c
+++ b/wizard/sha3.c
@@ -212,6 +212,7 @@ WizardExport SHA3Info *DestroySHA3Info(SHA3Info *sha_info)
   assert(sha_info->signature == WizardSignature);
   if (sha_info->digest != (StringInfo *) NULL)
     sha_info->digest=DestroyStringInfo(sha_info->digest);
+  (void) ResetWizardMemory(sha_info,0,sizeof(*sha_info));
   sha_info->signature=(~WizardSignature);
   sha_info=(SHA3Info *) RelinquishWizardMemory(sha_info);
   return(sha_info);
-- 
2.43.0


From 646cf0c7a053d0f95422fea124bbd65508bbe903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:14 +0000
Subject: [PATCH 088/129] fix: wipe all of the seed of a random generator

Only the first of its four words was cleared.
---
 wizard/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/random.c b/wizard/random.c
index 2b4301b..5f3f262 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -298,7 +298,7 @@ WizardExport RandomInfo *DestroyRandomInfo(RandomInfo *random_info)
     random_info->nonce=DestroyStringInfo(random_info->nonce);
   if (random_info->hmac_info != (HMACInfo *) NULL)
     random_info->hmac_info=DestroyHMACInfo(random_info->hmac_info);
-  (void) memset(random_info->seed,0,sizeof(*random_info->seed));
+  (void) ResetWizardMemory(random_info->seed,0,sizeof(random_info->seed));
   random_info->signature=(~WizardSignature);
   UnlockSemaphoreInfo(random_info->semaphore);
   RelinquishSemaphoreInfo(&random_info->semaphore);
-- 
2.43.0


From 5245ef4b83e4f9d3e57e0e49475563300858e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:41 +0000
Subject: [PATCH 089/129] fix: leave room for a cipher block behind content
 read from a stream

Strings are followed by that much room, which is used when they are cloned
or enciphered.  A short file read through the standard input had less.
---
 wizard/blob.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index c131907..56294de 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -596,7 +596,8 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
       quantum=(size_t) WizardMaxBufferExtent;
       if ((fstat(file,&file_info) == 0) && (file_info.st_size > 0))
         quantum=Min((size_t) file_info.st_size,WizardMaxBufferExtent);
-      blob=(unsigned char *) AcquireQuantumMemory(quantum,sizeof(*blob));
+      blob=(unsigned char *) AcquireQuantumMemory(quantum+MaxCipherBlocksize,
+        sizeof(*blob));
       for (i=0; blob != (unsigned char *) NULL; i+=count)
       {
         count=read(file,blob+i,quantum);
@@ -613,13 +614,13 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
             (void) close(file);
             return(NULL);
           }
-        if (~((size_t) i+count) < (quantum+1))
+        if (~((size_t) i+count) < (quantum+MaxCipherBlocksize))
           {
             blob=(unsigned char *) RelinquishWizardMemory(blob);
             break;
           }
-        blob=(unsigned char *) ResizeQuantumMemory(blob,i+count+quantum+1,
-          sizeof(*blob));
+        blob=(unsigned char *) ResizeQuantumMemory(blob,i+count+quantum+
+          MaxCipherBlocksize,sizeof(*blob));
         if ((size_t) (i+count) >= extent)
           break;
       }
-- 
2.43.0


From 0d7313358d2f0fc3f5d9d1673f4bd9a603c438a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:41 +0000
Subject: [PATCH 090/129] fix: wipe the room behind a string before its memory
 is released

Enciphering leaves bytes of the last block there.
---
 wizard/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/string.c b/wizard/string.c
index 8ebcbfb..26b5423 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -863,7 +863,8 @@ WizardExport StringInfo *DestroyStringInfo(StringInfo *string_info)
   WizardAssert(StringDomain,string_info->signature == WizardSignature);
   if (string_info->datum != (unsigned char *) NULL)
     {
-      (void) ResetWizardMemory(string_info->datum,0,string_info->length);
+      (void) ResetWizardMemory(string_info->datum,0,string_info->length+
+        MaxCipherBlocksize);
       string_info->datum=(unsigned char *) RelinquishWizardMemory(
         string_info->datum);
     }
-- 
2.43.0


From e58506b919cd39c0b231305cf5e779105ba0a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:11 +0000
Subject: [PATCH 091/129] fix: do not rotate a log file that is not open

A limit of `unlimited' became a negative number of bytes, so the first
event closed a stream that had not been opened and crashed.
---
 wizard/log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wizard/log.c b/wizard/log.c
index f4b50ff..8e8331e 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -1336,7 +1336,9 @@ WizardBooleanType LogWizardEventList(const LogEventType type,const char *module,
       file_info.st_size=0;
       if (log_info->file != (FILE *) NULL)
         (void) fstat(fileno(log_info->file),&file_info);
-      if (file_info.st_size > (WizardOffsetType) (1024*1024*log_info->limit))
+      if ((log_info->file != (FILE *) NULL) &&
+          ((WizardSizeType) file_info.st_size/1024/1024 >= log_info->limit) &&
+          ((WizardSizeType) file_info.st_size > 1024*1024*log_info->limit))
         {
           (void) fprintf(log_info->file,"</log>\n");
           (void) fclose(log_info->file);
-- 
2.43.0


From 8ab3c6ba5668ad3d5b26026829d5fa7fdc316060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:11 +0000
Subject: [PATCH 092/129] fix: report a missing log after the log semaphore is
 released

Reporting logs the exception, which takes the semaphore again.  Looking
up a log that does not exist never returned.
---
 wizard/log.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wizard/log.c b/wizard/log.c
index 8e8331e..e2737a0 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -409,13 +409,13 @@ WizardExport const LogInfo *GetLogInfo(const char *name,
       break;
     p=(const LogInfo *) GetNextValueInLinkedList(log_cache);
   }
-  if (p == (LogInfo *) NULL)
-    (void) ThrowWizardException(exception,GetWizardModule(),OptionWarning,
-      "no such element `%s'",name);
-  else
+  if (p != (LogInfo *) NULL)
     (void) InsertValueInLinkedList(log_cache,0,
       RemoveElementByValueFromLinkedList(log_cache,p));
   UnlockSemaphoreInfo(log_semaphore);
+  if (p == (LogInfo *) NULL)
+    (void) ThrowWizardException(exception,GetWizardModule(),OptionWarning,
+      "no such element `%s'",name);
   return(p);
 }
 
-- 
2.43.0


From 6eec6ccfa4f72969a7e426e709d759c5d16cd726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:11 +0000
Subject: [PATCH 093/129] fix: match logs without a name

A log has no name when its configuration gives none.  Listing the logs
that match a pattern dereferenced it.
---
 wizard/log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wizard/log.c b/wizard/log.c
index e2737a0..7c6f2c7 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -502,7 +502,8 @@ WizardExport const LogInfo **GetLogInfoList(const char *pattern,
   for (i=0; p != (const LogInfo *) NULL; )
   {
     if ((p->stealth == WizardFalse) &&
-        (GlobExpression(p->name,pattern,WizardFalse) != WizardFalse))
+        (GlobExpression(p->name == (char *) NULL ? "" : p->name,pattern,
+         WizardFalse) != WizardFalse))
       preferences[i++]=p;
     p=(const LogInfo *) GetNextValueInLinkedList(log_cache);
   }
@@ -595,7 +596,8 @@ WizardExport char **GetLogList(const char *pattern,
   for (i=0; p != (const LogInfo *) NULL; )
   {
     if ((p->stealth == WizardFalse) &&
-        (GlobExpression(p->name,pattern,WizardFalse) != WizardFalse))
+        (GlobExpression(p->name == (char *) NULL ? "" : p->name,pattern,
+         WizardFalse) != WizardFalse))
       preferences[i++]=ConstantString(p->name);
     p=(const LogInfo *) GetNextValueInLinkedList(log_cache);
   }
-- 
2.43.0


From 0b8d148bc7f9065235a286cf9ea2b7ec160ae1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:11 +0000
Subject: [PATCH 094/129] fix: list the handlers a log has

The handler names were chosen by their place in the table instead of by
their bit, so the list named handlers the log does not have.
---
 wizard/log.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/wizard/log.c b/wizard/log.c
index 7c6f2c7..0071e32 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -768,14 +768,9 @@ WizardExport WizardBooleanType ListLogInfo(FILE *file,ExceptionInfo *exception)
         length=0;
         for (j=0; j < (ssize_t) (8*sizeof(LogHandlerType)); j++)
         {
-          size_t
-            mask;
-
           if (*LogHandlers[j].name == '\0')
             break;
-          mask=1;
-          mask<<=j;
-          if ((log_info[i]->handler_mask & mask) != 0)
+          if ((log_info[i]->handler_mask & LogHandlers[j].handler) != 0)
             {
               (void) fprintf(file,"%s ",LogHandlers[j].name);
               length+=strlen(LogHandlers[j].name);
-- 
2.43.0


From a2fe5c71427eb068ddf6608da7ce5abe40ec5718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:45 +0000
Subject: [PATCH 095/129] fix: set the log format while no event is being
 logged

Events are formatted under the semaphore of the log, but the format was
replaced under another one.  An event logged meanwhile read the format
after it was released.
---
 wizard/log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wizard/log.c b/wizard/log.c
index 0071e32..88d90d1 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -1784,11 +1784,13 @@ WizardExport void SetLogFormat(const char *format)
   exception=AcquireExceptionInfo();
   log_info=(LogInfo *) GetLogInfo("*",exception);
   exception=DestroyExceptionInfo(exception);
-  LockSemaphoreInfo(log_semaphore);
+  if (log_info->event_semaphore == (SemaphoreInfo *) NULL)
+    ActivateSemaphoreInfo(&log_info->event_semaphore);
+  LockSemaphoreInfo(log_info->event_semaphore);
   if (log_info->format != (char *) NULL)
     log_info->format=DestroyString(log_info->format);
   log_info->format=ConstantString(format);
-  UnlockSemaphoreInfo(log_semaphore);
+  UnlockSemaphoreInfo(log_info->event_semaphore);
 }
 
 /*
-- 
2.43.0


From 224f47b66a0f456ab7c460fd37b02c1703a70394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:45 +0000
Subject: [PATCH 096/129] fix: close the log while no event is being logged

Events are written under the semaphore of the log, but the file was closed
under another one.  An event logged meanwhile was written to a closed
stream.
---
 wizard/log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wizard/log.c b/wizard/log.c
index 88d90d1..316559a 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -348,14 +348,16 @@ WizardExport void CloseWizardLog(void)
   exception=AcquireExceptionInfo();
   log_info=(LogInfo *) GetLogInfo("*",exception);
   exception=DestroyExceptionInfo(exception);
-  LockSemaphoreInfo(log_semaphore);
+  if (log_info->event_semaphore == (SemaphoreInfo *) NULL)
+    ActivateSemaphoreInfo(&log_info->event_semaphore);
+  LockSemaphoreInfo(log_info->event_semaphore);
   if (log_info->file != (FILE *) NULL)
     {
       (void) fprintf(log_info->file,"</log>\n");
       (void) fclose(log_info->file);
       log_info->file=(FILE *) NULL;
     }
-  UnlockSemaphoreInfo(log_semaphore);
+  UnlockSemaphoreInfo(log_info->event_semaphore);
 }
 
 /*
-- 
2.43.0


From 51a1a61e7033acc50541fdc96998ee2baf1fbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:59 +0000
Subject: [PATCH 097/129] fix: list a log while its format does not change

Listing read the format of a log without its semaphore.  It could print
memory that was released when another thread set the format.
---
 wizard/log.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wizard/log.c b/wizard/log.c
index 316559a..19f6bac 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -739,6 +739,9 @@ WizardExport WizardBooleanType ListLogInfo(FILE *file,ExceptionInfo *exception)
   const LogInfo
     **log_info;
 
+  SemaphoreInfo
+    **semaphore;
+
   ssize_t
     j;
 
@@ -759,6 +762,10 @@ WizardExport WizardBooleanType ListLogInfo(FILE *file,ExceptionInfo *exception)
   {
     if (log_info[i]->stealth != WizardFalse)
       continue;
+    semaphore=(SemaphoreInfo **) &log_info[i]->event_semaphore;
+    if (*semaphore == (SemaphoreInfo *) NULL)
+      ActivateSemaphoreInfo(semaphore);
+    LockSemaphoreInfo(*semaphore);
     if ((path == (const char *) NULL) ||
         (LocaleCompare(path,log_info[i]->path) != 0))
       {
@@ -796,6 +803,7 @@ WizardExport WizardBooleanType ListLogInfo(FILE *file,ExceptionInfo *exception)
     if (log_info[i]->format != (char *) NULL)
       (void) fprintf(file,"%s",log_info[i]->format);
     (void) fprintf(file,"\n");
+    UnlockSemaphoreInfo(*semaphore);
   }
   (void) fflush(file);
   log_info=(const LogInfo **) RelinquishWizardMemory((void *) log_info);
-- 
2.43.0


From f07c1e368ef8eb2e30ccf7df4d9c4f19c5b18338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:24 +0000
Subject: [PATCH 098/129] fix: search the configuration home of the user

The directory below XDG_CONFIG_HOME was listed together with the name of the
file.  The name was appended once more, so no file was ever found there.
---
 wizard/configure.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wizard/configure.c b/wizard/configure.c
index 7c31e2f..3fa4346 100644
--- a/wizard/configure.c
+++ b/wizard/configure.c
@@ -838,8 +838,7 @@ WizardExport LinkedListInfo *GetConfigurePaths(const char *filename,
           Search $XDG_CONFIG_HOME/ImageMagick.
         */
         (void) FormatLocaleString(path,WizardPathExtent,
-          "%s%sWizardsToolkit%s%s",home,DirectorySeparator,DirectorySeparator,
-          filename);
+          "%s%sWizardsToolkit%s",home,DirectorySeparator,DirectorySeparator);
         (void) AppendValueToLinkedList(paths,ConstantString(path));
         home=DestroyString(home);
       }
-- 
2.43.0


From 434ff4f4920602f61f41c9e149ff42870a3bb98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:24 +0000
Subject: [PATCH 099/129] fix: ignore configuration settings without a name

A lookup compared the name of every setting.  A setting without a name in a
configuration file crashed it.
---
 wizard/configure.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/configure.c b/wizard/configure.c
index 3fa4346..27ab847 100644
--- a/wizard/configure.c
+++ b/wizard/configure.c
@@ -352,7 +352,7 @@ WizardExport const ConfigureInfo *GetConfigureInfo(const char *name,
     }
   while (p != (const ConfigureInfo *) NULL)
   {
-    if (strcasecmp(name,p->name) == 0)
+    if ((p->name != (char *) NULL) && (strcasecmp(name,p->name) == 0))
       break;
     p=(const ConfigureInfo *) GetNextValueInLinkedList(configure_cache);
   }
@@ -451,7 +451,7 @@ WizardExport const ConfigureInfo **GetConfigureInfoList(const char *pattern,
   p=(const ConfigureInfo *) GetNextValueInLinkedList(configure_cache);
   for (i=0; p != (const ConfigureInfo *) NULL; )
   {
-    if ((p->stealth == WizardFalse) &&
+    if ((p->stealth == WizardFalse) && (p->name != (char *) NULL) &&
         (GlobExpression(p->name,pattern,WizardFalse) != WizardFalse))
       options[i++]=p;
     p=(const ConfigureInfo *) GetNextValueInLinkedList(configure_cache);
@@ -544,7 +544,7 @@ WizardExport char **GetConfigureList(const char *pattern,
   p=(const ConfigureInfo *) GetNextValueInLinkedList(configure_cache);
   for (i=0; p != (const ConfigureInfo *) NULL; )
   {
-    if ((p->stealth == WizardFalse) &&
+    if ((p->stealth == WizardFalse) && (p->name != (char *) NULL) &&
         (GlobExpression(p->name,pattern,WizardFalse) != WizardFalse))
       options[i++]=ConstantString(p->name);
     p=(const ConfigureInfo *) GetNextValueInLinkedList(configure_cache);
-- 
2.43.0


From 95800bc3d0810485fd4cb9e2edb4ddbf78fc43f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:24 +0000
Subject: [PATCH 100/129] fix: include configuration files by absolute path

The path of the including file was put in front of every included path, even
of an absolute one.  The other configuration files accept absolute paths.
---
 wizard/configure.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wizard/configure.c b/wizard/configure.c
index 27ab847..f48494d 100644
--- a/wizard/configure.c
+++ b/wizard/configure.c
@@ -1113,7 +1113,10 @@ static WizardBooleanType LoadConfigureCache(LinkedListInfo *configure_cache,
             if (*path != '\0')
               (void) ConcatenateWizardString(path,DirectorySeparator,
                 WizardPathExtent);
-            (void) ConcatenateWizardString(path,attribute,WizardPathExtent);
+            if (*attribute == *DirectorySeparator)
+              (void) CopyWizardString(path,attribute,WizardPathExtent);
+            else
+              (void) ConcatenateWizardString(path,attribute,WizardPathExtent);
             xml=FileToXML(path,~0UL);
             status&=LoadConfigureCache(configure_cache,xml,path,depth+1,
               exception);
-- 
2.43.0


From f697f7ba1e2e436ea021c435380d6d9a1621d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:19 +0000
Subject: [PATCH 101/129] fix: count configuration settings while none is
 looked up

A lookup removes a setting from the list for a moment.  A list counted at
that moment was one too short and was written past its end.
---
 wizard/configure.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wizard/configure.c b/wizard/configure.c
index f48494d..7792832 100644
--- a/wizard/configure.c
+++ b/wizard/configure.c
@@ -439,14 +439,17 @@ WizardExport const ConfigureInfo **GetConfigureInfoList(const char *pattern,
   p=GetConfigureInfo("*",exception);
   if (p == (const ConfigureInfo *) NULL)
     return((const ConfigureInfo **) NULL);
+  LockSemaphoreInfo(configure_semaphore);
   options=(const ConfigureInfo **) AcquireQuantumMemory((size_t)
     GetNumberOfElementsInLinkedList(configure_cache)+1UL,sizeof(*options));
   if (options == (const ConfigureInfo **) NULL)
-    return((const ConfigureInfo **) NULL);
+    {
+      UnlockSemaphoreInfo(configure_semaphore);
+      return((const ConfigureInfo **) NULL);
+    }
   /*
     Generate configure list.
   */
-  LockSemaphoreInfo(configure_semaphore);
   ResetLinkedListIterator(configure_cache);
   p=(const ConfigureInfo *) GetNextValueInLinkedList(configure_cache);
   for (i=0; p != (const ConfigureInfo *) NULL; )
@@ -534,12 +537,13 @@ WizardExport char **GetConfigureList(const char *pattern,
   if (p == (const ConfigureInfo *) NULL)
     return((char **) NULL);
   LockSemaphoreInfo(configure_semaphore);
-  UnlockSemaphoreInfo(configure_semaphore);
   options=(char **) AcquireQuantumMemory((size_t)
     GetNumberOfElementsInLinkedList(configure_cache)+1UL,sizeof(*options));
   if (options == (char **) NULL)
-    return((char **) NULL);
-  LockSemaphoreInfo(configure_semaphore);
+    {
+      UnlockSemaphoreInfo(configure_semaphore);
+      return((char **) NULL);
+    }
   ResetLinkedListIterator(configure_cache);
   p=(const ConfigureInfo *) GetNextValueInLinkedList(configure_cache);
   for (i=0; p != (const ConfigureInfo *) NULL; )
-- 
2.43.0


From ee848b5bb68018899dd8ef117a99b196f4fe239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:10 +0000
Subject: [PATCH 102/129] fix: list the first locale message

The list of tags went on after the first message, which the lookup before it
had already read.
---
 wizard/locale.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/locale.c b/wizard/locale.c
index c0c8322..17f54e8 100644
--- a/wizard/locale.c
+++ b/wizard/locale.c
@@ -698,6 +698,7 @@ WizardExport char **GetLocaleList(const char *pattern,
   if (messages == (char **) NULL)
     return((char **) NULL);
   LockSemaphoreInfo(locale_semaphore);
+  ResetSplayTreeIterator(locale_cache);
   p=(const LocaleInfo *) GetNextValueInSplayTree(locale_cache);
   for (i=0; p != (const LocaleInfo *) NULL; )
   {
-- 
2.43.0


From eeeebb291d4cd0bcc52825a788c1de972858ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:50 +0000
Subject: [PATCH 103/129] fix: read several locale elements of a locale file

The end of a locale element left a slash in front of the tags of all later
messages, so that they were not found.
---
 wizard/locale.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/locale.c b/wizard/locale.c
index 17f54e8..366bd72 100644
--- a/wizard/locale.c
+++ b/wizard/locale.c
@@ -1287,7 +1287,8 @@ static WizardBooleanType LoadLocaleCache(SplayTreeInfo *locale_cache,
     if (LocaleCompare(keyword,"</locale>") == 0)
       {
         ChopLocaleComponents(tag,1);
-        (void) ConcatenateWizardString(tag,"/",WizardLocaleExtent);
+        if (*tag != '\0')
+          (void) ConcatenateWizardString(tag,"/",WizardLocaleExtent);
         continue;
       }
     if (LocaleCompare(keyword,"<localemap>") == 0)
-- 
2.43.0


From 505cd1abfef51ba470f89c7f7d8849ceabaa8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:50 +0000
Subject: [PATCH 104/129] fix: find the locale messages behind one with a slash

The end of a message cut the text of the message off the tag by counting
slashes.  A slash in the text, or a message outside of any group, spoiled the
tags of all later messages.
---
 wizard/locale.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wizard/locale.c b/wizard/locale.c
index 366bd72..0ad958f 100644
--- a/wizard/locale.c
+++ b/wizard/locale.c
@@ -1163,7 +1163,8 @@ static WizardBooleanType LoadLocaleCache(SplayTreeInfo *locale_cache,
     *p;
 
   size_t
-    extent;
+    extent,
+    tag_extent;
 
   WizardStatusType
     status;
@@ -1178,6 +1179,7 @@ static WizardBooleanType LoadLocaleCache(SplayTreeInfo *locale_cache,
   status=WizardTrue;
   locale_info=(LocaleInfo *) NULL;
   *tag='\0';
+  tag_extent=0;
   *message='\0';
   *keyword='\0';
   fatal_handler=SetFatalErrorHandler(LocaleFatalErrorHandler);
@@ -1300,6 +1302,7 @@ static WizardBooleanType LoadLocaleCache(SplayTreeInfo *locale_cache,
         /*
           Message element.
         */
+        tag_extent=strlen(tag);
         while ((*token != '>') && (*q != '\0'))
         {
           (void) CopyWizardString(keyword,token,WizardLocaleExtent);
@@ -1333,15 +1336,12 @@ static WizardBooleanType LoadLocaleCache(SplayTreeInfo *locale_cache,
         if (status == WizardFalse)
           ThrowFatalException(ResourceFatalError,
             "memory allocation failed `%s'");
-        (void) ConcatenateWizardString(tag,message,WizardLocaleExtent);
-        (void) ConcatenateWizardString(tag,"\n",WizardLocaleExtent);
         q++;
         continue;
       }
     if (LocaleCompare(keyword,"</message>") == 0)
       {
-        ChopLocaleComponents(tag,2);
-        (void) ConcatenateWizardString(tag,"/",WizardLocaleExtent);
+        tag[tag_extent]='\0';
         continue;
       }
     if (*keyword == '<')
-- 
2.43.0


From ae916c3fe39c5d531f510dc728def2ad750b051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:42 +0000
Subject: [PATCH 105/129] fix: keep a wildcard argument that matches no file

An argument with a wildcard that matched only directories of another
directory was dropped from the command line.  The next argument took its
place.
---
 utilities/utility.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/utilities/utility.c b/utilities/utility.c
index d7d9762..55cab51 100644
--- a/utilities/utility.c
+++ b/utilities/utility.c
@@ -175,6 +175,7 @@ static void ExpandFilename(char *path)
 WizardExport WizardBooleanType ExpandFilenames(int *argc,char ***argv)
 {
   char
+    *argument,
     **filelist,
     filename[WizardPathExtent],
     home_directory[WizardPathExtent],
@@ -188,7 +189,8 @@ WizardExport WizardBooleanType ExpandFilenames(int *argc,char ***argv)
 
    ssize_t
     i,
-    j;
+    j,
+    k;
 
   size_t
     number_files;
@@ -256,7 +258,8 @@ WizardExport WizardBooleanType ExpandFilenames(int *argc,char ***argv)
       number_files+1,sizeof(*vector));
     if (vector == (char **) NULL)
       return(WizardFalse);
-    count--;
+    k=(--count);
+    argument=vector[k];
     for (j=0; j < (ssize_t) number_files; j++)
     {
       (void) CopyWizardString(filename,path,WizardPathExtent);
@@ -277,6 +280,10 @@ WizardExport WizardBooleanType ExpandFilenames(int *argc,char ***argv)
         }
     }
     filelist=(char **) RelinquishWizardMemory(filelist);
+    if (count == k)
+      vector[count++]=argument;
+    else
+      argument=DestroyString(argument);
   }
   vector[count]=(char *) NULL;
   if (IsEventLogging() != WizardFalse)
-- 
2.43.0


From 2d3289604d79eb9987e0875c96f5f063bfe482b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:07:53 +0000
Subject: [PATCH 106/129] fix: release the arguments of a key export once

The export released the command line and its caller released it again.
---
 utilities/keyring.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utilities/keyring.c b/utilities/keyring.c
index 1824b37..d3cc10f 100644
--- a/utilities/keyring.c
+++ b/utilities/keyring.c
@@ -377,7 +377,6 @@ WizardExport WizardBooleanType KeyringCommand(int argc,char **argv,
     if (LocaleCompare(option+1,"export") == 0)
       {
         status=ExportKeyring(argc,argv,exception);
-        DestroyKeyring();
         return(status);
       }
   }
-- 
2.43.0


From e493eabb2611a4de3a5b127f62b9d92fe61c2567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:25 +0000
Subject: [PATCH 107/129] fix: export a key from the keyrings that are named

The key was exported from the default keyring as soon as its id was read.
The name of a keyring behind it crashed the command.
---
 utilities/keyring.c | 72 ++++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/utilities/keyring.c b/utilities/keyring.c
index d3cc10f..c4ffc77 100644
--- a/utilities/keyring.c
+++ b/utilities/keyring.c
@@ -120,6 +120,28 @@ static void KeyringUsage()
   exit(0);
 }
 
+static WizardBooleanType ExportKey(const char *keyring,const StringInfo *id,
+  const char *filename,WizardBooleanType *found,ExceptionInfo *exception)
+{
+  KeyringInfo
+    *keyring_info;
+
+  WizardBooleanType
+    status;
+
+  status=WizardFalse;
+  keyring_info=AcquireKeyringInfo(keyring);
+  SetKeyringId(keyring_info,id);
+  if (ExportKeyringKey(keyring_info,exception) != WizardFalse)
+    {
+      *found=WizardTrue;
+      SetKeyringPath(keyring_info,filename);
+      status=ImportKeyringKey(keyring_info,exception);
+    }
+  keyring_info=DestroyKeyringInfo(keyring_info);
+  return(status);
+}
+
 WizardExport WizardBooleanType ExportKeyring(int argc,char **argv,
   ExceptionInfo *exception)
 {
@@ -149,9 +171,6 @@ WizardExport WizardBooleanType ExportKeyring(int argc,char **argv,
     *keyring,
     *option;
 
-  KeyringInfo
-    *keyring_info;
-
   ssize_t
     i;
 
@@ -159,12 +178,14 @@ WizardExport WizardBooleanType ExportKeyring(int argc,char **argv,
     *id;
 
   WizardBooleanType
+    found,
     status;
 
   /*
     Parse command-line options.
   */
   status=WizardFalse;
+  found=WizardFalse;
   keyring=(const char *) NULL;
   id=(StringInfo *) NULL;
   filename=argv[argc-1];
@@ -205,6 +226,8 @@ WizardExport WizardBooleanType ExportKeyring(int argc,char **argv,
               if (i == (ssize_t) argc)
                 ThrowKeyringException(OptionError,"missing key id: `%s'",
                   option);
+              if (id != (StringInfo *) NULL)
+                id=DestroyStringInfo(id);
               id=HexStringToStringInfo(argv[i]);
               break;
             }
@@ -283,30 +306,33 @@ WizardExport WizardBooleanType ExportKeyring(int argc,char **argv,
           break;
         }
       }
+    if (IsWizardOption(option) != WizardFalse)
+      continue;
     /*
       Export key from keyring.
     */
-    keyring_info=AcquireKeyringInfo(keyring);
-    SetKeyringId(keyring_info,id);
-    if (ExportKeyringKey(keyring_info,exception) == WizardFalse)
-      {
-        char
-          *hex_id;
-
-        hex_id=StringInfoToHexString(id);
-        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-          "no such key `%s': `%s'",hex_id,keyring == (const char *) NULL ? "" :
-          keyring);
-        hex_id=DestroyString(hex_id);
-      }
-    else
-      {
-        SetKeyringPath(keyring_info,filename);
-        status=ImportKeyringKey(keyring_info,exception);
-      }
-    id=DestroyStringInfo(id);
-    keyring_info=DestroyKeyringInfo(keyring_info);
+    if (id == (StringInfo *) NULL)
+      ThrowKeyringException(OptionError,"missing key id: `%s'",option);
+    keyring=option;
+    if (found == WizardFalse)
+      status=ExportKey(keyring,id,filename,&found,exception);
   }
+  if (id == (StringInfo *) NULL)
+    ThrowKeyringException(OptionError,"missing key id: `%s'",filename);
+  if (keyring == (const char *) NULL)
+    status=ExportKey(keyring,id,filename,&found,exception);
+  if (found == WizardFalse)
+    {
+      char
+        *hex_id;
+
+      hex_id=StringInfoToHexString(id);
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "no such key `%s': `%s'",hex_id,keyring == (const char *) NULL ? "" :
+        keyring);
+      hex_id=DestroyString(hex_id);
+    }
+  id=DestroyStringInfo(id);
   /*
     Free resources.
   */
-- 
2.43.0


From 86b74b5bd203f19f97c90d9e50bebe5078cf8a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:25 +0000
Subject: [PATCH 108/129] fix: do not list the argument of an option as a
 keyring

---
 utilities/keyring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utilities/keyring.c b/utilities/keyring.c
index c4ffc77..dfb0bcd 100644
--- a/utilities/keyring.c
+++ b/utilities/keyring.c
@@ -512,6 +512,8 @@ WizardExport WizardBooleanType KeyringCommand(int argc,char **argv,
           break;
         }
       }
+    if (IsWizardOption(option) != WizardFalse)
+      continue;
     status=PrintKeyringProperties(argv[i],keyring_blob,exception);
   }
   if (argc == 2)
-- 
2.43.0


From 62f79fca42c0ce1ac53703dd4247d6a8959d8aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:25 +0000
Subject: [PATCH 109/129] fix: let a keyring command that reports an error fail

A keyring that cannot be read was reported, but the command exited
successfully.
---
 utilities/keyring.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utilities/keyring.c b/utilities/keyring.c
index dfb0bcd..7c065bb 100644
--- a/utilities/keyring.c
+++ b/utilities/keyring.c
@@ -593,9 +593,12 @@ static int WizardMain(int argc,char **argv)
     if ((status == WizardFalse) ||
         (GetExceptionSeverity(exception) != UndefinedException))
       {
-        if ((GetExceptionSeverity(exception) < ErrorException) &&
-            (regard_warnings == WizardFalse))
-          status=WizardTrue;
+        if (GetExceptionSeverity(exception) >= ErrorException)
+          status=WizardFalse;
+        else
+          if ((GetExceptionSeverity(exception) != UndefinedException) &&
+              (regard_warnings == WizardFalse))
+            status=WizardTrue;
         CatchException(exception);
       }
   }
-- 
2.43.0


From 8ddbcda72a122fea876c1867fcd75cf7cfc96714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:18 +0000
Subject: [PATCH 110/129] fix: write the unit of the chunk size once

---
 utilities/content.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/content.c b/utilities/content.c
index 6c7afd3..30768ad 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -675,7 +675,7 @@ WizardExport WizardBooleanType PrintCipherProperties(
     content_info->random_hash));
   (void) FormatWizardSize(content_info->chunksize,WizardFalse,WizardPathExtent,
     chunksize);
-  (void) fprintf(file,"  Chunksize: %sB\n",chunksize);
+  (void) fprintf(file,"  Chunksize: %s\n",chunksize);
   (void) fprintf(file,"  Dates:\n");
   (void) fprintf(file,"    modify: %s\n",timestamp);
   (void) FormatWizardTime(content_info->create_date,WizardPathExtent,timestamp);
-- 
2.43.0


From e6c5558b51cbdb18dc2d0485c45e7d3b34073b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:18 +0000
Subject: [PATCH 111/129] fix: let cipher-info fail for a file it cannot read

The error was reported, but the command exited successfully.
---
 utilities/cipher-info.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utilities/cipher-info.c b/utilities/cipher-info.c
index e9fd523..81316ce 100644
--- a/utilities/cipher-info.c
+++ b/utilities/cipher-info.c
@@ -350,9 +350,12 @@ static int WizardMain(int argc,char **argv)
     if ((status == WizardFalse) ||
         (GetExceptionSeverity(exception) != UndefinedException))
       {
-        if ((GetExceptionSeverity(exception) < ErrorException) &&
-            (regard_warnings == WizardFalse))
-          status=WizardTrue;
+        if (GetExceptionSeverity(exception) >= ErrorException)
+          status=WizardFalse;
+        else
+          if ((GetExceptionSeverity(exception) != UndefinedException) &&
+              (regard_warnings == WizardFalse))
+            status=WizardTrue;
         CatchException(exception);
       }
   }
-- 
2.43.0


From ffd4910c64adc4524706e7b2c1654410255030c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:37 +0000
Subject: [PATCH 112/129] fix: restore the signal handler for terminal output
 after a passphrase

The handler that interrupts the passphrase prompt stayed installed, so the
signal did not stop the process any more.
---
 wizard/passphrase.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/passphrase.c b/wizard/passphrase.c
index fc0415e..e460dd0 100644
--- a/wizard/passphrase.c
+++ b/wizard/passphrase.c
@@ -247,6 +247,7 @@ static WizardBooleanType GetPhrase(const char *prompt,PassphraseMode flags,
   (void) sigaction(SIGTERM,&sigterm,(struct sigaction *) NULL);
   (void) sigaction(SIGTSTP,&sigtstp,(struct sigaction *) NULL);
   (void) sigaction(SIGTTIN,&sigttin,(struct sigaction *) NULL);
+  (void) sigaction(SIGTTOU,&sigttou,(struct sigaction *) NULL);
   if (input != STDIN_FILENO)
     input=close(input)-1;
   if (signal_number != 0)
-- 
2.43.0


From 2325f5c1d676cc01fc4de073dd4085f6d42a7cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:02 +0000
Subject: [PATCH 113/129] fix: restore the terminal after a passphrase although
 a signal arrives

A signal that interrupted the restoring call left the terminal without echo.
---
 wizard/passphrase.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/passphrase.c b/wizard/passphrase.c
index e460dd0..bea231a 100644
--- a/wizard/passphrase.c
+++ b/wizard/passphrase.c
@@ -238,7 +238,8 @@ static WizardBooleanType GetPhrase(const char *prompt,PassphraseMode flags,
     Restore old terminal settings and signals.
   */
   if (memcmp(&attributes,&save_attributes,sizeof(attributes)) != 0)
-    (void) tcsetattr(input,_T_FLUSH,&save_attributes);
+    while ((tcsetattr(input,_T_FLUSH,&save_attributes) == -1) &&
+           (errno == EINTR) && (signal_number != (sig_atomic_t) SIGTTOU)) ;
   (void) sigaction(SIGALRM,&sigalrm,(struct sigaction *) NULL);
   (void) sigaction(SIGHUP,&sighup,(struct sigaction *) NULL);
   (void) sigaction(SIGINT,&sigint,(struct sigaction *) NULL);
-- 
2.43.0


From 4c5ebf7d1fddd1a0787e67b92ebd506366d7afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:02 +0000
Subject: [PATCH 114/129] fix: do not accept a passphrase that could not be
 read

The result of the newline that follows the passphrase replaced the result of
the read, so a failed or interrupted read returned what was typed so far.
---
 wizard/passphrase.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/passphrase.c b/wizard/passphrase.c
index bea231a..2e29d41 100644
--- a/wizard/passphrase.c
+++ b/wizard/passphrase.c
@@ -232,8 +232,8 @@ static WizardBooleanType GetPhrase(const char *prompt,PassphraseMode flags,
   }
   *p=(unsigned char) '\0';
   SetStringInfoLength(phrase,(size_t) (p-GetStringInfoDatum(phrase)));
-  if ((attributes.c_lflag & ECHO) == 0)
-    count=write(output,"\n",1);
+  if (((attributes.c_lflag & ECHO) == 0) && (write(output,"\n",1) == -1))
+    count=(-1);
   /*
     Restore old terminal settings and signals.
   */
-- 
2.43.0


From d27686d5b5b849dbc9accaa8e5fa69a16e1ef812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:02 +0000
Subject: [PATCH 115/129] fix: release a passphrase that is not confirmed

---
 wizard/passphrase.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wizard/passphrase.c b/wizard/passphrase.c
index 2e29d41..8d8ea95 100644
--- a/wizard/passphrase.c
+++ b/wizard/passphrase.c
@@ -318,6 +318,8 @@ WizardExport StringInfo *GetPassphrase(ExceptionInfo *exception)
       {
         (void) ThrowWizardException(exception,GetWizardModule(),
           AuthenticateError,"unable to get pass phrase `%s'",strerror(errno));
+        phrase=DestroyStringInfo(phrase);
+        rephrase=DestroyStringInfo(rephrase);
         return((StringInfo *) NULL);
       }
     status=GetPhrase("Enter same passphrase again: ",EchoOffMode,rephrase);
@@ -325,6 +327,8 @@ WizardExport StringInfo *GetPassphrase(ExceptionInfo *exception)
       {
         (void) ThrowWizardException(exception,GetWizardModule(),
           AuthenticateError,"unable to get pass phrase `%s'",strerror(errno));
+        phrase=DestroyStringInfo(phrase);
+        rephrase=DestroyStringInfo(rephrase);
         return((StringInfo *) NULL);
       }
     if (CompareStringInfo(phrase,rephrase) == 0)
-- 
2.43.0


From 16c21953f4f318d6d6ff97a8da27a503bc5eeedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:52:17 +0000
Subject: [PATCH 116/129] fix: give back the temporary files counted when the
 toolkit stops

---
 wizard/resource.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index de6f408..1d30f26 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -976,7 +976,14 @@ WizardExport void ResourceComponentTerminus(void)
     ActivateSemaphoreInfo(&resource_semaphore);
   LockSemaphoreInfo(resource_semaphore);
   if (temporary_resources != (SplayTreeInfo *) NULL)
-    temporary_resources=DestroySplayTree(temporary_resources);
+    {
+      /*
+        The files are removed along with their nodes.
+      */
+      resource_info.file-=(WizardOffsetType) GetNumberOfNodesInSplayTree(
+        temporary_resources);
+      temporary_resources=DestroySplayTree(temporary_resources);
+    }
   UnlockSemaphoreInfo(resource_semaphore);
   RelinquishSemaphoreInfo(&resource_semaphore);
 }
-- 
2.43.0


From 3ae6e9564f47839b7294b05282c65acb8c3e0af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:34 +0000
Subject: [PATCH 117/129] fix: destroy the generator of file names when the
 toolkit stops, not in a signal handler

---
 wizard/resource.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 1d30f26..e506f89 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -522,8 +522,6 @@ WizardExport void AsynchronousResourceComponentTerminus(void)
     (void) remove_utf8(path);
     path=(const char *) GetNextKeyInSplayTree(temporary_resources);
   }
-  if (random_info != (RandomInfo *) NULL)
-    random_info=DestroyRandomInfo(random_info);
 }
 
 /*
@@ -984,6 +982,8 @@ WizardExport void ResourceComponentTerminus(void)
         temporary_resources);
       temporary_resources=DestroySplayTree(temporary_resources);
     }
+  if (random_info != (RandomInfo *) NULL)
+    random_info=DestroyRandomInfo(random_info);
   UnlockSemaphoreInfo(resource_semaphore);
   RelinquishSemaphoreInfo(&resource_semaphore);
 }
-- 
2.43.0


From 77fccb25bbde145aa6f06e6a516b87d1138abba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:36:33 +0000
Subject: [PATCH 118/129] fix: do not close a descriptor twice when removing a
 file fails

A failed close still releases the descriptor.  It was closed again with the
file info, which could close another file that got the same descriptor.
---
 wizard/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/file.c b/wizard/file.c
index d56ea1d..b4ee33e 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -483,6 +483,7 @@ WizardExport WizardBooleanType DestroyFile(FileInfo *file_info,
   if (file_info->file >= 0)
     if (close(file_info->file) == -1)
       {
+        file_info->file=(-1);
         (void) ThrowWizardException(exception,GetWizardModule(),FileError,
           "unable to close file `%s': %s",file_info->path,strerror(errno));
         return(WizardFalse);
-- 
2.43.0


From 0dc26d29571ec283db8e8d588c3e6c524255d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:02:35 +0000
Subject: [PATCH 119/129] fix: give back the tree of XML text without a root
 tag

---
 wizard/xml-tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index c55a8d3..5ca2cc8 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2082,14 +2082,14 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
         "memory allocation failed `%s'",strerror(errno));
-      return((XMLTreeInfo *) NULL);
+      return(DestroyXMLTree(&root->root));
     }
   if (length == 0)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),OptionWarning,
         "root tag missing");
       utf8=DestroyString(utf8);
-      return((XMLTreeInfo *) NULL);
+      return(DestroyXMLTree(&root->root));
     }
   terminal=utf8[length-1];
   utf8[length-1]='\0';
@@ -2101,7 +2101,7 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
       (void) ThrowWizardException(exception,GetWizardModule(),OptionWarning,
         "root tag missing");
       utf8=DestroyString(utf8);
-      return((XMLTreeInfo *) NULL);
+      return(DestroyXMLTree(&root->root));
     }
   attribute=(char **) NULL;
   l=0;
-- 
2.43.0


From 82cc1966c6d614f1cef2b35c01b3f8dd61f73c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:02:35 +0000
Subject: [PATCH 120/129] fix: write XML attributes that have no value

---
 wizard/xml-tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 5ca2cc8..48ca614 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2806,8 +2806,9 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
       }
     *length+=FormatLocaleString(*source+(*length),*extent," %s=\"",
       xml_info->attributes[i]);
-    (void) EncodePredefinedEntities(xml_info->attributes[i+1],-1,source,length,
-      extent,WizardTrue);
+    if (xml_info->attributes[i+1] != (char *) NULL)
+      (void) EncodePredefinedEntities(xml_info->attributes[i+1],-1,source,
+        length,extent,WizardTrue);
     *length+=FormatLocaleString(*source+(*length),*extent,"\"");
   }
   i=0;
-- 
2.43.0


From f209faa67a096605ec203a568cdc4a130d5668fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:03:19 +0000
Subject: [PATCH 121/129] fix: give back the memory of a corrupt keyring

---
 wizard/keyring.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index a882ede..14fe030 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -296,6 +296,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      magick=DestroyStringInfo(magick);
+      target=DestroyStringInfo(target);
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
@@ -310,6 +312,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      filetype=DestroyStringInfo(filetype);
+      target=DestroyStringInfo(target);
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
@@ -675,6 +679,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      magick=DestroyStringInfo(magick);
+      target=DestroyStringInfo(target);
+      canonical_path=DestroyString(canonical_path);
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
@@ -689,6 +696,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      filetype=DestroyStringInfo(filetype);
+      target=DestroyStringInfo(target);
+      canonical_path=DestroyString(canonical_path);
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
@@ -701,6 +711,7 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        canonical_path=DestroyString(canonical_path);
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
-- 
2.43.0


From 88010f8f05b705fbcbbd83807177bf84c6cec561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:03:19 +0000
Subject: [PATCH 122/129] fix: give back the passphrase with its secret

---
 wizard/secret.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/secret.c b/wizard/secret.c
index abf5b78..bb6df0a 100644
--- a/wizard/secret.c
+++ b/wizard/secret.c
@@ -253,6 +253,8 @@ WizardExport SecretInfo *DestroySecretInfo(SecretInfo *secret_info)
     secret_info->id=DestroyStringInfo(secret_info->id);
   if (secret_info->digest != (StringInfo *) NULL)
     secret_info->digest=DestroyStringInfo(secret_info->digest);
+  if (secret_info->passphrase != (char *) NULL)
+    secret_info->passphrase=DestroyString(secret_info->passphrase);
   secret_info->signature=(~WizardSignature);
   secret_info=(SecretInfo *) RelinquishWizardMemory(secret_info);
   return(secret_info);
-- 
2.43.0


From a517d53265291068f7ac2a78bd40ecb29baaca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:03:19 +0000
Subject: [PATCH 123/129] fix: give back the semaphore of a blob that cannot be
 opened

---
 wizard/blob.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wizard/blob.c b/wizard/blob.c
index 56294de..9677fc7 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1080,6 +1080,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
+          RelinquishSemaphoreInfo(&blob_info->semaphore);
           blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
           return((BlobInfo *) NULL);
         }
@@ -1111,6 +1112,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
+          RelinquishSemaphoreInfo(&blob_info->semaphore);
           blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
           return((BlobInfo *) NULL);
         }
@@ -1129,6 +1131,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
+          RelinquishSemaphoreInfo(&blob_info->semaphore);
           blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
           return((BlobInfo *) NULL);
         }
@@ -1164,6 +1167,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
               (void) fclose(blob_info->file_info.file);
               (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
                 "unable to open file `%s': %s",filename,strerror(errno));
+              RelinquishSemaphoreInfo(&blob_info->semaphore);
               blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
               return((BlobInfo *) NULL);
             }
@@ -1266,6 +1270,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
         "unable to open file `%s': %s",filename,strerror(errno));
+      RelinquishSemaphoreInfo(&blob_info->semaphore);
       blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
       return((BlobInfo *) NULL);
     }
-- 
2.43.0


From ddfabd03e2e7d8b2526254d630d18e72c1d29ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:19:59 +0000
Subject: [PATCH 124/129] fix: report that there is no memory for an XML tree

---
 wizard/xml-tree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 48ca614..a4c2aa5 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2076,6 +2076,12 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
       return((XMLTreeInfo *) NULL);
     }
   root=(XMLTreeRoot *) NewXMLTreeTag((char *) NULL);
+  if (root == (XMLTreeRoot *) NULL)
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
+        "memory allocation failed `%s'",strerror(errno));
+      return((XMLTreeInfo *) NULL);
+    }
   length=strlen(xml);
   utf8=ConvertUTF16ToUTF8(xml,&length);
   if (utf8 == (char *) NULL)
-- 
2.43.0


From 75564f25b893f8251d3e2ca0b17fbf4380256e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:19:59 +0000
Subject: [PATCH 125/129] fix: report that there is no memory to write an XML
 tree

---
 wizard/xml-tree.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index a4c2aa5..797e307 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2751,14 +2751,20 @@ static char *EncodePredefinedEntities(const char *source,ssize_t offset,
       content=DestroyString(content);
     }
   if (canonical_content == (char *) NULL)
-    return(*destination);
+    {
+      *destination=DestroyString(*destination);
+      return(*destination);
+    }
   if ((*length+strlen(canonical_content)+WizardPathExtent) > *extent)
     {
       *extent=(*length)+strlen(canonical_content)+WizardPathExtent;
       *destination=(char *) ResizeQuantumMemory(*destination,*extent,
         sizeof(**destination));
       if (*destination == (char *) NULL)
-        return(*destination);
+        {
+          canonical_content=DestroyString(canonical_content);
+          return(*destination);
+        }
     }
   *length+=FormatLocaleString(*destination+(*length),*extent,"%s",
     canonical_content);
@@ -2790,6 +2796,8 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
   offset=0;
   *source=EncodePredefinedEntities(content+start,(ssize_t) (xml_info->offset-
     start),source,length,extent,WizardFalse);
+  if (*source == (char *) NULL)
+    return((char *) NULL);
   if ((*length+strlen(xml_info->tag)+WizardPathExtent) > *extent)
     {
       *extent=(*length)+strlen(xml_info->tag)+WizardPathExtent;
@@ -2815,6 +2823,8 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
     if (xml_info->attributes[i+1] != (char *) NULL)
       (void) EncodePredefinedEntities(xml_info->attributes[i+1],-1,source,
         length,extent,WizardTrue);
+    if (*source == (char *) NULL)
+      return((char *) NULL);
     *length+=FormatLocaleString(*source+(*length),*extent,"\"");
   }
   i=0;
@@ -2842,6 +2852,8 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
       attributes[i][j]);
     (void) EncodePredefinedEntities(attributes[i][j+1],-1,source,length,extent,
       WizardTrue);
+    if (*source == (char *) NULL)
+      return((char *) NULL);
     *length+=FormatLocaleString(*source+(*length),*extent,"\"");
     j+=3;
   }
@@ -2853,6 +2865,8 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
   else
     *source=EncodePredefinedEntities(xml_info->content,-1,source,length,extent,
       WizardFalse);
+  if (*source == (char *) NULL)
+    return((char *) NULL);
   if ((*length+strlen(xml_info->tag)+WizardPathExtent) > *extent)
     {
       *extent=(*length)+strlen(xml_info->tag)+WizardPathExtent;
@@ -2949,6 +2963,8 @@ WizardExport char *XMLTreeInfoToXML(XMLTreeInfo *xml_info)
   xml=XMLTreeTagToXML(xml_info,&xml,&length,&extent,0,root->attributes);
   xml_info->parent=parent;
   xml_info->ordered=ordered;
+  if (xml == (char *) NULL)
+    return(xml);
   if (parent == (XMLTreeInfo *) NULL)
     for (i=0; root->processing_instructions[i] != (char **) NULL; i++)
     {
-- 
2.43.0


From 06ab3c2505b4921d88773b1ac0909dc7494e0f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:29:12 +0000
Subject: [PATCH 126/129] fix: report that there is no memory to clone a whole
 splay-tree

---
 wizard/splay-tree.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wizard/splay-tree.c b/wizard/splay-tree.c
index 9192ae2..6653830 100644
--- a/wizard/splay-tree.c
+++ b/wizard/splay-tree.c
@@ -409,8 +409,12 @@ WizardExport SplayTreeInfo *CloneSplayTree(SplayTreeInfo *splay_tree,
   while (next != (NodeInfo *) NULL)
   {
     SplaySplayTree(splay_tree,next);
-    (void) AddValueToSplayTree(clone_tree,clone_key(splay_tree->root->key),
-      clone_value(splay_tree->root->value));
+    if (AddValueToSplayTree(clone_tree,clone_key(splay_tree->root->key),
+        clone_value(splay_tree->root->value)) == WizardFalse)
+      {
+        clone_tree=DestroySplayTree(clone_tree);
+        break;
+      }
     next=(NodeInfo *) NULL;
     node=splay_tree->root->right;
     if (node != (NodeInfo *) NULL)
-- 
2.43.0


From 7b20da397d9e168ea30075f80cda73682ee6425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:29:30 +0000
Subject: [PATCH 127/129] fix: report that there is no memory for an XML tag

---
 wizard/xml-tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 797e307..42621c1 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2006,8 +2006,9 @@ static void ParseOpenTag(XMLTreeRoot *root,char *tag,char **attributes)
     xml_info->tag=ConstantString(tag);
   else
     xml_info=AddChildToXMLTree(xml_info,tag,strlen(xml_info->content));
-  if (xml_info != (XMLTreeInfo *) NULL)
-    xml_info->attributes=attributes;
+  if (xml_info == (XMLTreeInfo *) NULL)
+    ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
+  xml_info->attributes=attributes;
   root->node=xml_info;
 }
 
-- 
2.43.0


From 5913724fce2cc8b223c22499e1d82172f5009baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:09 +0000
Subject: [PATCH 128/129] fix: keep an entry of a hash-map counted when the map
 cannot grow

---
 wizard/hashmap.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index c4f499b..71f8e36 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1596,13 +1596,9 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
       UnlockSemaphoreInfo(hashmap_info->semaphore);
       return(WizardFalse);
     }
-  if (list_info->elements >= (hashmap_info->capacity-1))
-    if (IncreaseHashmapCapacity(hashmap_info) == WizardFalse)
-      {
-        UnlockSemaphoreInfo(hashmap_info->semaphore);
-        return(WizardFalse);
-      }
   hashmap_info->entries++;
+  if (list_info->elements >= (hashmap_info->capacity-1))
+    (void) IncreaseHashmapCapacity(hashmap_info);
   UnlockSemaphoreInfo(hashmap_info->semaphore);
   return(WizardTrue);
 }
-- 
2.43.0


From d79e8b83d2fc5d25556f786eaf7a19088261b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:46:52 +0000
Subject: [PATCH 129/129] fix: unlock the log before the names of its
 preferences are copied

---
 wizard/log.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wizard/log.c b/wizard/log.c
index 19f6bac..f16aeaa 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -573,7 +573,8 @@ WizardExport char **GetLogList(const char *pattern,
     *p;
 
    ssize_t
-    i;
+    i,
+    j;
 
   /*
     Allocate log list.
@@ -600,10 +601,15 @@ WizardExport char **GetLogList(const char *pattern,
     if ((p->stealth == WizardFalse) &&
         (GlobExpression(p->name == (char *) NULL ? "" : p->name,pattern,
          WizardFalse) != WizardFalse))
-      preferences[i++]=ConstantString(p->name);
+      preferences[i++]=p->name;
     p=(const LogInfo *) GetNextValueInLinkedList(log_cache);
   }
   UnlockSemaphoreInfo(log_semaphore);
+  /*
+    A fatal error is logged: copy the names once the log is unlocked.
+  */
+  for (j=0; j < i; j++)
+    preferences[j]=ConstantString(preferences[j]);
   qsort((void *) preferences,(size_t) i,sizeof(*preferences),LogCompare);
   preferences[i]=(char *) NULL;
   *number_preferences=(size_t) i;
-- 
2.43.0

