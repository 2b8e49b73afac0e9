From 9b63cda7861eb0931a629d7848ebde92160451d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 01/41] fix: delete all earlier transactions inside the pulse
 rejection interval

When a transaction in the rejection interval is deleted because its value
differs from the new transaction, transactions before it in the interval do
not immediately precede a marked transaction and must be deleted too, even
if they have the same value as the new one (LRM 08 section 10.5.2.2).
---
 src/rt/model.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index fc5bd30..1724fe2 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2564,25 +2564,28 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
                                       rt_source_t *source, waveform_t *w,
                                       uint64_t when, uint64_t reject)
 {
-   waveform_t *last = &(source->u.driver.waveforms);
+   waveform_t *last = &(source->u.driver.waveforms), *keep = last;
    waveform_t *it   = last->next;
    while (it != NULL && it->when < when) {
-      // If the current transaction is within the pulse rejection interval
-      // and the value is different to that of the new transaction then
-      // delete the current transaction
       assert(it->when >= m->now);
-      if (it->when >= when - reject
-          && !cmp_values(nexus, it->value, w->value)) {
-         waveform_t *next = it->next;
-         last->next = next;
-         free_value(nexus, it->value);
-         free_waveform(m, it);
-         it = next;
-      }
-      else {
+      if (it->when < when - reject)
+         keep = last = it;   // Before the pulse rejection interval
+      else if (cmp_values(nexus, it->value, w->value))
          last = it;
-         it = it->next;
+      else {
+         // If the current transaction is within the pulse rejection
+         // interval and the value is different to that of the new
+         // transaction then delete the current transaction and any
+         // earlier ones in the interval which now no longer immediately
+         // precede a transaction with the same value: LRM 08 10.5.2.2
+         waveform_t *end = it->next;
+         for (last = keep, it = keep->next; it != end; it = last->next) {
+            last->next = it->next;
+            free_value(nexus, it->value);
+            free_waveform(m, it);
+         }
       }
+      it = last->next;
    }
    last->next = w;
 
-- 
2.43.0


From 2c5dac7a71902322163770588af5cb1fea5904f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 02/41] fix: compare only the bytes of a driver value which are
 defined

copy_value_ptr loads eight bytes regardless of the width of the nexus so the
upper bytes of a narrow value hold neighbouring elements and must not take
part in the comparison for pulse rejection.
---
 src/rt/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 1724fe2..e70a20e 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1153,7 +1153,7 @@ static inline bool cmp_values(rt_nexus_t *n, rt_value_t a, rt_value_t b)
 {
    const size_t valuesz = n->width * n->size;
    if (valuesz <= sizeof(rt_value_t))
-      return a.qword == b.qword;
+      return memcmp(a.bytes, b.bytes, valuesz) == 0;   // Rest is undefined
    else
       return cmp_bytes(a.ext, b.ext, valuesz);
 }
-- 
2.43.0


From 274f249990e766dbc97fe47913aaff26bac004a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 03/41] fix: keep forcing and disconnected state of sources
 when splitting a nexus

Splitting a nexus left the new half connected to a source which had been
disconnected or released, resurrecting the stale value, and asserted if a
force, release, or deposit was still pending in the same cycle.
---
 src/rt/model.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index e70a20e..408bb83 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1481,6 +1481,7 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
                          rt_source_t *old, int offset)
 {
    rt_source_t *new = add_source(m, nexus, old->tag);
+   new->disconnected = old->disconnected;
 
    switch (old->tag) {
    case SOURCE_PORT:
@@ -1542,7 +1543,12 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
    case SOURCE_DEPOSIT:
       split_value(nexus, &(new->u.pseudo.value), &(old->u.pseudo.value),
                   offset);
-      assert(!old->pseudoqueued);   // TODO
+
+      // Pending update from an earlier force, release, or deposit
+      if (old->pseudoqueued) {
+         deltaq_insert_pseudo_source(m, new);
+         new->pseudoqueued = 1;
+      }
       break;
 
    case SOURCE_IMPLICIT:
-- 
2.43.0


From f946ed449e87545f9f168ef5b85520226476bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 04/41] fix: represent null transactions explicitly in
 projected waveforms

---
 src/rt/model.c   | 62 ++++++++++++++++++++++++++----------------------
 src/rt/structs.h |  3 ++-
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 408bb83..fe76648 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1259,6 +1259,7 @@ static rt_source_t *add_source(rt_model_t *m, rt_nexus_t *n, source_kind_t kind)
 
          waveform_t *w0 = &(src->u.driver.waveforms);
          w0->when  = TIME_HIGH;
+         w0->null  = 0;
          w0->next  = NULL;
       }
       break;
@@ -1511,6 +1512,7 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
          waveform_t *w_new = &(new->u.driver.waveforms);
          waveform_t *w_old = &(old->u.driver.waveforms);
          w_new->when = w_old->when;
+         w_new->null = w_old->null;
          w_new->next = NULL;
 
          split_value(nexus, &w_new->value, &w_old->value, offset);
@@ -1529,6 +1531,7 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
          for (w_old = w_old->next; w_old; w_old = w_old->next) {
             w_new = (w_new->next = alloc_waveform(m));
             w_new->when = w_old->when;
+            w_new->null = w_old->null;
             w_new->next = NULL;
 
             split_value(nexus, &w_new->value, &w_old->value, offset);
@@ -2576,7 +2579,8 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
       assert(it->when >= m->now);
       if (it->when < when - reject)
          keep = last = it;   // Before the pulse rejection interval
-      else if (cmp_values(nexus, it->value, w->value))
+      else if (it->null == w->null
+               && (w->null || cmp_values(nexus, it->value, w->value)))
          last = it;
       else {
          // If the current transaction is within the pulse rejection
@@ -2610,6 +2614,26 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
    return already_scheduled;
 }
 
+static void flush_fast_update(rt_model_t *m, rt_nexus_t *n, rt_source_t *d)
+{
+   if ((n->flags & NET_F_FAST_DRIVER) && d->fastqueued) {
+      // A fast update to this driver is already scheduled
+      waveform_t *w0 = alloc_waveform(m);
+      w0->when  = m->now;
+      w0->null  = 0;
+      w0->next  = NULL;
+      w0->value = alloc_value(m, n);
+
+      const uint8_t *prev = value_ptr(n, &(d->u.driver.waveforms.value));
+      copy_value_ptr(n, &w0->value, prev);
+
+      assert(d->u.driver.waveforms.next == NULL);
+      d->u.driver.waveforms.next = w0;
+   }
+
+   n->flags &= ~NET_F_FAST_DRIVER;
+}
+
 static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
                          uint64_t reject, const void *value, rt_proc_t *proc)
 {
@@ -2654,24 +2678,11 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       rt_source_t *d = find_driver(n, proc);
       assert(d != NULL);
 
-      if ((n->flags & NET_F_FAST_DRIVER) && d->fastqueued) {
-         // A fast update to this driver is already scheduled
-         waveform_t *w0 = alloc_waveform(m);
-         w0->when  = m->now;
-         w0->next  = NULL;
-         w0->value = alloc_value(m, n);
-
-         const uint8_t *prev = value_ptr(n, &(d->u.driver.waveforms.value));
-         copy_value_ptr(n, &w0->value, prev);
-
-         assert(d->u.driver.waveforms.next == NULL);
-         d->u.driver.waveforms.next = w0;
-      }
-
-      n->flags &= ~NET_F_FAST_DRIVER;
+      flush_fast_update(m, n, d);
 
       waveform_t *w = alloc_waveform(m);
       w->when  = m->now + after;
+      w->null  = 0;
       w->next  = NULL;
       w->value = alloc_value(m, n);
 
@@ -2691,12 +2702,13 @@ static void sched_disconnect(rt_model_t *m, rt_nexus_t *nexus, uint64_t after,
    const uint64_t when = m->now + after;
 
    // Need update_driver to clear disconnected flag
-   nexus->flags &= ~NET_F_FAST_DRIVER;
+   flush_fast_update(m, nexus, d);
 
    waveform_t *w = alloc_waveform(m);
-   w->when = -when;   // Use sign bit to represent null
-   w->next = NULL;
-   w->value.qword = 0;
+   w->when  = when;
+   w->null  = 1;
+   w->next  = NULL;
+   w->value = alloc_value(m, nexus);
 
    if (!insert_transaction(m, nexus, d, w, when, reject))
       deltaq_insert_driver(m, after, d);
@@ -3021,14 +3033,7 @@ static void update_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *source)
       free_value(n, w_now->value);
       *w_now = *w_next;
       free_waveform(m, w_next);
-      source->disconnected = 0;
-      update_driving(m, n, false);
-   }
-   else if (unlikely(w_next != NULL && w_next->when == -m->now)) {
-      // Disconnect source due to null transaction
-      *w_now = *w_next;
-      free_waveform(m, w_next);
-      source->disconnected = 1;
+      source->disconnected = w_now->null;
       update_driving(m, n, false);
    }
 }
@@ -3148,6 +3153,7 @@ static void update_implicit_signal(rt_model_t *m, rt_implicit_t *imp)
          // TODO: this should happen inside the callback
          waveform_t *w = alloc_waveform(m);
          w->when  = m->now + imp->delay;
+         w->null  = 0;
          w->next  = NULL;
          w->value = alloc_value(m, n0);
 
diff --git a/src/rt/structs.h b/src/rt/structs.h
index e5f28ab..0a15566 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -98,7 +98,8 @@ typedef union {
 STATIC_ASSERT(sizeof(rt_value_t) == 8);
 
 struct waveform {
-   uint64_t    when;
+   uint64_t    when : 63;
+   uint64_t    null : 1;     // Null transaction disconnects the driver
    waveform_t *next;
    rt_value_t  value;
 };
-- 
2.43.0


From 0011c1fb68ad8a8f71110e8c05c76640be3923aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 05/41] fix: return current value of the driver for
 'driving_value with fast drivers

---
 src/rt/model.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index fe76648..d3c3bd6 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2614,6 +2614,19 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
    return already_scheduled;
 }
 
+static const void *driver_value(rt_nexus_t *n, rt_source_t *d)
+{
+   if ((n->flags & NET_F_FAST_DRIVER) && d->fastqueued) {
+      // The current waveform element already holds the pending value
+      if (n->flags & NET_F_EFFECTIVE)
+         return nexus_driving(n);
+      else
+         return nexus_effective(n);
+   }
+   else
+      return value_ptr(n, &(d->u.driver.waveforms.value));
+}
+
 static void flush_fast_update(rt_model_t *m, rt_nexus_t *n, rt_source_t *d)
 {
    if ((n->flags & NET_F_FAST_DRIVER) && d->fastqueued) {
@@ -2626,6 +2639,7 @@ static void flush_fast_update(rt_model_t *m, rt_nexus_t *n, rt_source_t *d)
 
       const uint8_t *prev = value_ptr(n, &(d->u.driver.waveforms.value));
       copy_value_ptr(n, &w0->value, prev);
+      copy_value_ptr(n, &(d->u.driver.waveforms.value), driver_value(n, d));
 
       assert(d->u.driver.waveforms.next == NULL);
       d->u.driver.waveforms.next = w0;
@@ -4377,13 +4391,7 @@ void *x_driving_value(sig_shared_t *ss, uint32_t offset, int32_t count)
          jit_msg(NULL, DIAG_FATAL, "process %s does not contain a driver "
                  "for %s", istr(proc->name), istr(tree_ident(s->where)));
 
-      const uint8_t *driving;
-      if (n->flags & NET_F_FAST_DRIVER)
-         driving = nexus_effective(n);
-      else
-         driving = value_ptr(n, &(src->u.driver.waveforms.value));
-
-      memcpy(p, driving, n->width * n->size);
+      memcpy(p, driver_value(n, src), n->width * n->size);
       p += n->width * n->size;
 
       count -= n->width;
-- 
2.43.0


From fd8de7cdba9a85ad2a5b3747930f45905067acfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 06/41] fix: apply pulse rejection to each scalar subelement of
 a composite signal

---
 src/rt/model.c | 68 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index d3c3bd6..8068740 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2569,32 +2569,66 @@ static rt_source_t *find_driver(rt_nexus_t *nexus, rt_proc_t *proc)
    return NULL;
 }
 
+static bool keep_element(rt_nexus_t *n, waveform_t *it, waveform_t *w, int elt)
+{
+   // Each scalar subelement has its own projected output waveform: a
+   // transaction inside the pulse rejection interval is only kept if it
+   // and every later one before the new transaction have the same value
+   // as the new transaction, LRM 08 section 10.5.2.2
+
+   const size_t off = elt * n->size;
+   for (; it != NULL && it->when < w->when; it = it->next) {
+      if (it->null != w->null)
+         return false;
+      else if (!w->null && memcmp(value_ptr(n, &it->value) + off,
+                                  value_ptr(n, &w->value) + off, n->size))
+         return false;
+   }
+
+   return true;
+}
+
+static bool reject_transaction(rt_nexus_t *n, waveform_t *it, waveform_t *w,
+                               waveform_t *prev)
+{
+   int nkeep = 0;
+   for (int i = 0; i < n->width; i++) {
+      if (keep_element(n, it, w, i))
+         nkeep++;
+   }
+
+   if (nkeep == 0 || (nkeep < n->width && prev->null))
+      return true;
+
+   // Where only some elements of this transaction are deleted the others
+   // hold the value from before the pulse rejection interval
+   for (int i = 0; nkeep < n->width && i < n->width; i++) {
+      const size_t off = i * n->size;
+      if (!keep_element(n, it, w, i))
+         memcpy(value_ptr(n, &it->value) + off,
+                value_ptr(n, &prev->value) + off, n->size);
+   }
+
+   return false;
+}
+
 static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
                                       rt_source_t *source, waveform_t *w,
                                       uint64_t when, uint64_t reject)
 {
-   waveform_t *last = &(source->u.driver.waveforms), *keep = last;
+   waveform_t *last = &(source->u.driver.waveforms), *prev = last;
    waveform_t *it   = last->next;
    while (it != NULL && it->when < when) {
       assert(it->when >= m->now);
       if (it->when < when - reject)
-         keep = last = it;   // Before the pulse rejection interval
-      else if (it->null == w->null
-               && (w->null || cmp_values(nexus, it->value, w->value)))
-         last = it;
-      else {
-         // If the current transaction is within the pulse rejection
-         // interval and the value is different to that of the new
-         // transaction then delete the current transaction and any
-         // earlier ones in the interval which now no longer immediately
-         // precede a transaction with the same value: LRM 08 10.5.2.2
-         waveform_t *end = it->next;
-         for (last = keep, it = keep->next; it != end; it = last->next) {
-            last->next = it->next;
-            free_value(nexus, it->value);
-            free_waveform(m, it);
-         }
+         prev = last = it;   // Before the pulse rejection interval
+      else if (reject_transaction(nexus, it, w, prev)) {
+         last->next = it->next;
+         free_value(nexus, it->value);
+         free_waveform(m, it);
       }
+      else
+         last = it;
       it = last->next;
    }
    last->next = w;
-- 
2.43.0


From 4fd0533d73d6aaa84bf677956cf87abf1c918604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 07/41] fix: initial value of 'delayed is the initial value of
 the prefix

---
 src/lower.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 9b35f29..c32c1a7 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -8203,8 +8203,9 @@ static void lower_implicit_decl(lower_unit_t *parent, tree_t decl)
 
    case IMPLICIT_DELAYED:
       {
-         vcode_reg_t init_reg =
-            lower_default_value(parent, type, VCODE_INVALID_REG);
+         // The initial value is the initial value of the prefix
+         tree_t prefix = tree_value(tree_value(decl));
+         vcode_reg_t init_reg = lower_rvalue(parent, prefix);
 
          lower_sub_signals(parent, type, type, type, decl, NULL, var,
                            VCODE_INVALID_REG, init_reg, VCODE_INVALID_REG,
-- 
2.43.0


From a9d0ccc03969aaca5177145184ab255652a579ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 08/41] fix: keep all outputs and converted ports when
 splitting a nexus

---
 src/rt/model.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 8068740..5f8b16b 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1489,8 +1489,15 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
       {
          new->u.port.input = old->u.port.input;
 
-         if (old->u.port.conv_func != NULL)
+         if (old->u.port.conv_func != NULL) {
             new->u.port.conv_func = old->u.port.conv_func;
+            split_value(nexus, &(new->u.port.conv_result),
+                        &(old->u.port.conv_result), offset);
+
+            // Must also be updated when an input of the conversion changes
+            new->chain_output = old->chain_output;
+            old->chain_output = new;
+         }
          else {
             if (old->u.port.input->width == offset)
                new->u.port.input = old->u.port.input->chain;  // Cycle breaking
@@ -1614,14 +1621,28 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
       assert(old_o->tag == SOURCE_PORT || old_o->tag == SOURCE_IMPLICIT);
 
       if (old_o->tag == SOURCE_PORT && old_o->u.port.conv_func != NULL) {
-         new->outputs = old_o;
-         add_conversion_input(m, old_o->u.port.conv_func, new);
+         // The outputs of type conversions are shared between all their
+         // inputs and are always at the end of the list
+         rt_source_t **p = &(new->outputs);
+         for (; *p && ((*p)->tag != SOURCE_PORT || !(*p)->u.port.conv_func);
+              p = &((*p)->chain_output));
+         if (*p == NULL)
+            *p = old_o;
+
+         rt_conv_func_t *cf = old_o->u.port.conv_func;
+         if (find_conversion_input(cf, old) && !find_conversion_input(cf, new))
+            add_conversion_input(m, cf, new);
+      }
+      else if (old_o->tag == SOURCE_IMPLICIT) {
+         rt_source_t *s =
+            add_source(m, old_o->u.port.output, SOURCE_IMPLICIT);
+         s->u.port.input = new;
+         s->chain_output = new->outputs;
+         new->outputs = s;
       }
       else {
          rt_nexus_t *out_n;
-         if (old_o->tag == SOURCE_IMPLICIT)
-            out_n = old_o->u.port.output;
-         else if (old_o->u.port.output->width == offset)
+         if (old_o->u.port.output->width == offset)
             out_n = old_o->u.port.output->chain;   // Cycle breaking
          else {
             RT_LOCK(old_o->u.port.output->signal->lock);
@@ -1629,7 +1650,7 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
          }
 
          for (rt_source_t *s = &(out_n->sources); s; s = s->chain_input) {
-            if (s->tag != old_o->tag)
+            if (s->tag != SOURCE_PORT)
                continue;
             else if (s->u.port.input == new || s->u.port.input == old) {
                s->u.port.input = new;
-- 
2.43.0


From d696f0668794c44ffe7e3c1f20ffbadf26209c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 09/41] fix: convert effective value of actual for ports of
 mode in

---
 src/rt/model.c   | 119 +++++++++++++++++++++++++++++++++++++++--------
 src/rt/structs.h |   1 +
 2 files changed, 101 insertions(+), 19 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 5f8b16b..04e81d0 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -165,6 +165,7 @@ static void put_driving(rt_model_t *m, rt_nexus_t *n, const void *value);
 static void put_effective(rt_model_t *m, rt_nexus_t *n, const void *value);
 static void update_implicit_signal(rt_model_t *m, rt_implicit_t *imp);
 static bool run_trigger(rt_model_t *m, rt_trigger_t *t);
+static void update_converted_inputs(rt_model_t *m, rt_nexus_t *n);
 static void reset_scope(rt_model_t *m, rt_scope_t *s);
 static void async_run_process(rt_model_t *m, void *arg);
 static void async_update_property(rt_model_t *m, void *arg);
@@ -2126,6 +2127,36 @@ static void calculate_initial_value(rt_model_t *m, rt_nexus_t *n)
    }
 }
 
+static inline bool is_effective_conversion(rt_nexus_t *n, rt_source_t *o)
+{
+   // The conversion function for a port of mode in is applied to the
+   // effective value of the actual
+   if (o->tag != SOURCE_PORT || o->u.port.conv_func == NULL)
+      return false;
+   else
+      return o->u.port.conv_func->mode_in && (n->flags & NET_F_EFFECTIVE);
+}
+
+static void mark_conversion_inputs(rt_nexus_t *n)
+{
+   // If one input of a conversion has separate driving and effective
+   // values then the function must wait for those values and so be
+   // called after all of its inputs have been updated
+   for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
+      if (!is_effective_conversion(n, o))
+         continue;
+
+      rt_conv_func_t *cf = o->u.port.conv_func;
+      for (int i = 0; i < cf->ninputs; i++) {
+         rt_nexus_t *in = cf->inputs[i].nexus;
+         if (!(in->flags & NET_F_EFFECTIVE)) {
+            in->flags |= NET_F_EFFECTIVE;
+            mark_conversion_inputs(in);
+         }
+      }
+   }
+}
+
 static int nexus_rank(rt_nexus_t *n)
 {
    if (n->rank > 0)
@@ -2429,6 +2460,9 @@ void model_reset(rt_model_t *m)
    model_thread_t *thread = model_thread(m);
    thread->tlab = tlab_acquire(m->mspace);
 
+   for (rt_nexus_t *n = m->nexuses; n != NULL; n = n->chain)
+      mark_conversion_inputs(n);
+
    // The signals in the model are updated as follows in an order such
    // that if a given signal R depends upon the current value of another
    // signal S, then the current value of S is updated prior to the
@@ -2468,6 +2502,20 @@ void model_reset(rt_model_t *m)
       n->flags &= ~NET_F_PENDING;
 
       calculate_effective_value(m, n);
+      update_converted_inputs(m, n);
+   }
+
+   // Ports of mode in whose value is a conversion of an effective value
+   while (heap_size(m->driving_heap) > 0) {
+      rt_nexus_t *n = heap_extract_min(m->driving_heap);
+      n->flags &= ~NET_F_PENDING;
+
+      rt_source_t *s = &(n->sources);
+      convert_driving(s->u.port.conv_func);
+
+      const void *result = value_ptr(n, &s->u.port.conv_result);
+      memcpy(nexus_effective(n), result, n->size * n->width);
+      memcpy(nexus_last_value(n), result, n->size * n->width);
    }
 
    tlab_reset(thread->tlab);   // No allocations can be live past here
@@ -3008,6 +3056,26 @@ static void enqueue_effective(rt_model_t *m, rt_nexus_t *n)
    heap_insert(m->effective_heap, MAX_RANK - n->rank, n);
 }
 
+static void defer_driving_update(rt_model_t *m, rt_nexus_t *n)
+{
+   if (n->flags & NET_F_PENDING)
+      return;
+
+   TRACE("defer %s driving value update", trace_nexus(n));
+   heap_insert(m->driving_heap, n->rank, n);
+   n->flags |= NET_F_PENDING;
+}
+
+static void update_converted_inputs(rt_model_t *m, rt_nexus_t *n)
+{
+   for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
+      if (is_effective_conversion(n, o)) {
+         o->u.port.conv_func->when = TIME_HIGH;   // Must be called again
+         defer_driving_update(m, o->u.port.output);
+      }
+   }
+}
+
 static void update_effective(rt_model_t *m, rt_nexus_t *n)
 {
    n->active_delta = m->iteration;
@@ -3015,6 +3083,9 @@ static void update_effective(rt_model_t *m, rt_nexus_t *n)
 
    calculate_effective_value(m, n);
 
+   if (n->event_delta == m->iteration && n->last_event == m->now)
+      update_converted_inputs(m, n);
+
    if (n->n_sources > 0) {
       for (rt_source_t *s = &(n->sources); s; s = s->chain_input) {
          if (s->tag != SOURCE_PORT)
@@ -3048,16 +3119,6 @@ static void put_driving(rt_model_t *m, rt_nexus_t *n, const void *value)
       put_effective(m, n, value);
 }
 
-static void defer_driving_update(rt_model_t *m, rt_nexus_t *n)
-{
-   if (n->flags & NET_F_PENDING)
-      return;
-
-   TRACE("defer %s driving value update", trace_nexus(n));
-   heap_insert(m->driving_heap, n->rank, n);
-   n->flags |= NET_F_PENDING;
-}
-
 static void update_driving(rt_model_t *m, rt_nexus_t *n, bool safe)
 {
    if (n->n_sources == 1 || safe) {
@@ -3075,7 +3136,9 @@ static void update_driving(rt_model_t *m, rt_nexus_t *n, bool safe)
          for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
             switch (o->tag) {
             case SOURCE_PORT:
-               if (o->u.port.conv_func != NULL)
+               if (is_effective_conversion(n, o))
+                  ;   // Wait until after the effective value is updated
+               else if (o->u.port.conv_func != NULL)
                   defer_driving_update(m, o->u.port.output);
                else
                   update_driving(m, o->u.port.output, false);
@@ -3387,15 +3450,17 @@ static void model_cycle(rt_model_t *m)
 
    deferq_run(m, &m->driverq);
 
-   while (heap_size(m->driving_heap) > 0) {
-      rt_nexus_t *n = heap_extract_min(m->driving_heap);
-      update_driving(m, n, true);
-   }
+   do {
+      while (heap_size(m->driving_heap) > 0) {
+         rt_nexus_t *n = heap_extract_min(m->driving_heap);
+         update_driving(m, n, true);
+      }
 
-   while (heap_size(m->effective_heap) > 0) {
-      rt_nexus_t *n = heap_extract_min(m->effective_heap);
-      update_effective(m, n);
-   }
+      while (heap_size(m->effective_heap) > 0) {
+         rt_nexus_t *n = heap_extract_min(m->effective_heap);
+         update_effective(m, n);
+      }
+   } while (heap_size(m->driving_heap) > 0);
 
    sync_event_cache(m);
 
@@ -4723,6 +4788,7 @@ void *x_port_conversion(const ffi_closure_t *driving,
    rt_conv_func_t *cf = static_alloc(m, total_bytes);
    cf->driving   = *driving;
    cf->effective = *effective;
+   cf->mode_in   = false;
    cf->ninputs   = 0;
    cf->maxinputs = tail_max_inputs;
    cf->outputs   = NULL;
@@ -4733,6 +4799,17 @@ void *x_port_conversion(const ffi_closure_t *driving,
    return cf;
 }
 
+static int instance_depth(rt_signal_t *s)
+{
+   int depth = 0;
+   for (rt_scope_t *it = s->parent; it != NULL; it = it->parent) {
+      if (!is_signal_scope(it))
+         depth++;
+   }
+
+   return depth;
+}
+
 void x_convert_in(void *ptr, sig_shared_t *ss, uint32_t offset, int32_t count)
 {
    rt_signal_t *s = container_of(ss, rt_signal_t, shared);
@@ -4750,6 +4827,10 @@ void x_convert_in(void *ptr, sig_shared_t *ss, uint32_t offset, int32_t count)
 
       add_conversion_input(m, cf, n);
 
+      // The formal is always declared in an inner scope
+      rt_nexus_t *out_n = cf->outputs->u.port.output;
+      cf->mode_in = instance_depth(out_n->signal) > instance_depth(s);
+
       rt_source_t **p = &(n->outputs);
       for (; *p != NULL && *p != cf->outputs; p = &((*p)->chain_output));
       *p = cf->outputs;
diff --git a/src/rt/structs.h b/src/rt/structs.h
index 0a15566..c7b7e26 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -140,6 +140,7 @@ typedef struct _rt_conv_func {
    rt_source_t   *outputs;
    uint64_t       when;
    unsigned       iteration;
+   bool           mode_in;
    conv_input_t   tail[];
 } rt_conv_func_t;
 
-- 
2.43.0


From b022146b1c13701ecc89df67c745d5e3ed3dec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 10/41] fix: trapping multiplication and subtraction from zero
 in MIR

Trapping multiplication was built as a subtraction so constants were
folded wrongly and X * X gave zero.  Subtracting from zero returned the
right operand.  Constant operands of a trapping operation are now only
folded if the result can be represented.
---
 src/mir/mir-node.c | 48 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 9328d96..8e89a0d 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -980,6 +980,28 @@ static mir_value_t mir_build_arith(mir_unit_t *mu, mir_op_t op, mir_type_t type,
    return result;
 }
 
+static bool mir_can_represent(mir_unit_t *mu, mir_type_t type, int64_t value)
+{
+   switch (mir_get_class(mu, type)) {
+   case MIR_TYPE_INT:
+   case MIR_TYPE_OFFSET:
+      break;
+   default:
+      return true;
+   }
+
+   switch (mir_get_repr(mu, type)) {
+   case MIR_REPR_I8:  return value >= INT8_MIN && value <= INT8_MAX;
+   case MIR_REPR_I16: return value >= INT16_MIN && value <= INT16_MAX;
+   case MIR_REPR_I32: return value >= INT32_MIN && value <= INT32_MAX;
+   case MIR_REPR_U1:  return value >= 0 && value <= 1;
+   case MIR_REPR_U8:  return value >= 0 && value <= UINT8_MAX;
+   case MIR_REPR_U16: return value >= 0 && value <= UINT16_MAX;
+   case MIR_REPR_U32: return value >= 0 && value <= UINT32_MAX;
+   default:           return true;
+   }
+}
+
 static mir_value_t mir_build_add_op(mir_unit_t *mu, mir_op_t op,
                                     mir_type_t type, mir_value_t left,
                                     mir_value_t right, mir_value_t locus)
@@ -992,10 +1014,11 @@ static mir_value_t mir_build_add_op(mir_unit_t *mu, mir_op_t op,
       return right;
    else if (rconst && rval == 0)
       return left;
-   else if (lconst && rconst && !__builtin_add_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_add_overflow(lval, rval, &cval)
+            && (op == MIR_OP_ADD || mir_can_represent(mu, type, cval)))
       return mir_const(mu, type, cval);
 
-   double lreal, rreal;
+   double lreal = 0.0, rreal = 0.0;
    const bool lconst_real = mir_get_const_real(mu, left, &lreal);
    const bool rconst_real = mir_get_const_real(mu, right, &rreal);
 
@@ -1034,11 +1057,10 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst = mir_get_const(mu, left, &lval);
    const bool rconst = mir_get_const(mu, right, &rval);
 
-   if (lconst && lval == 0)
-      return right;
-   else if (rconst && rval == 0)
+   if (rconst && rval == 0)
       return left;
-   else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval)
+            && (op == MIR_OP_SUB || mir_can_represent(mu, type, cval)))
       return mir_const(mu, type, cval);
    else if (mir_equals(left, right))
       return mir_get_class(mu, type) == MIR_TYPE_REAL
@@ -1048,9 +1070,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst_real = mir_get_const_real(mu, left, &lreal);
    const bool rconst_real = mir_get_const_real(mu, right, &rreal);
 
-   if (lconst_real && (lreal == 0.0 || lreal == -0.0))
-      return right;
-   else if (rconst_real && (rreal == 0.0 || rreal == -0.0))
+   if (rconst_real && (rreal == 0.0 || rreal == -0.0))
       return left;
    else if (lconst_real && rconst_real)
       return mir_const_real(mu, type, lreal - rreal);
@@ -1110,7 +1130,8 @@ mir_value_t mir_build_trap_neg(mir_unit_t *mu, mir_type_t type,
 mir_value_t mir_build_abs(mir_unit_t *mu, mir_type_t type, mir_value_t value)
 {
    int64_t lconst;
-   if (mir_get_const(mu, value, &lconst))
+   if (mir_get_const(mu, value, &lconst) && lconst != INT64_MIN
+       && mir_can_represent(mu, type, llabs(lconst)))
       return mir_const(mu, type, llabs(lconst));
 
    mir_value_t result = mir_build_1(mu, MIR_OP_ABS, type, MIR_NULL_STAMP,
@@ -1133,7 +1154,8 @@ static mir_value_t mir_build_mul_op(mir_unit_t *mu, mir_op_t op,
       return left;
    else if (rconst && rval == 0)
       return right;
-   else if (lconst && rconst && !__builtin_mul_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_mul_overflow(lval, rval, &cval)
+            && (op == MIR_OP_MUL || mir_can_represent(mu, type, cval)))
       return mir_const(mu, type, cval);
 
    double lreal, rreal;
@@ -1160,7 +1182,7 @@ mir_value_t mir_build_trap_mul(mir_unit_t *mu, mir_type_t type,
                                mir_value_t left, mir_value_t right,
                                mir_value_t locus)
 {
-   return mir_build_sub_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
+   return mir_build_mul_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
 }
 
 mir_value_t mir_build_div(mir_unit_t *mu, mir_type_t type, mir_value_t left,
@@ -1170,7 +1192,7 @@ mir_value_t mir_build_div(mir_unit_t *mu, mir_type_t type, mir_value_t left,
    const bool lconst = mir_get_const(mu, left, &lval);
    const bool rconst = mir_get_const(mu, right, &rval);
 
-   if (lconst && rconst && rval != 0)
+   if (lconst && rconst && rval != 0 && rval != -1)
       return mir_const(mu, type, lval / rval);
    else if (rconst && rval == 1)
       return left;
-- 
2.43.0


From a0dd9d7c3d4b1577429e3ae9ac272ddd1e0732cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 11/41] fix: bounds of results of division, negation, abs, mod,
 rem and exponentiation

The bounds of the type were used and so the range check on assignment
was elided.  Also do not fold constants where the operation overflows.
---
 src/vcode.c | 116 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 99 insertions(+), 17 deletions(-)

diff --git a/src/vcode.c b/src/vcode.c
index 8bb0a8f..2c43d7a 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3847,6 +3847,16 @@ void emit_store_indirect(vcode_reg_t reg, vcode_reg_t ptr)
    VCODE_ASSERT(vtype_is_scalar(r->type), "cannot store non-scalar type");
 }
 
+static bool vcode_can_represent(vcode_reg_t reg, int64_t value)
+{
+   vcode_type_t type = vcode_reg_type(reg);
+   if (vtype_kind(type) != VCODE_TYPE_INT)
+      return true;
+
+   int64_t low = value, high = value;
+   return vtype_clamp_to_repr(vtype_repr(type), &low, &high);
+}
+
 static vcode_reg_t emit_arith(vcode_op_t kind, vcode_reg_t lhs, vcode_reg_t rhs,
                               vcode_reg_t locus)
 {
@@ -3879,8 +3889,11 @@ static vcode_reg_t emit_mul_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const)
-      return emit_const(vcode_reg_type(lhs), lconst * rconst);
+   int64_t result;
+   if (l_is_const && r_is_const
+       && !__builtin_mul_overflow(lconst, rconst, &result)
+       && vcode_can_represent(lhs, result))
+      return emit_const(vcode_reg_type(lhs), result);
    else if (r_is_const && rconst == 1)
       return lhs;
    else if (l_is_const && lconst == 1)
@@ -3952,7 +3965,7 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const && rconst != 0)
+   if (l_is_const && r_is_const && rconst != 0 && rconst != -1)
       return emit_const(vcode_reg_type(lhs), lconst / rconst);
    else if (r_is_const && rconst == 1)
       return lhs;
@@ -3960,14 +3973,27 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
    vcode_reg_t reg = emit_arith(VCODE_OP_DIV, lhs, rhs, VCODE_INVALID_REG);
 
    vtype_t *bl = vcode_type_data(vcode_reg_data(lhs)->bounds);
+   vtype_t *br = vcode_type_data(vcode_reg_data(rhs)->bounds);
 
-   if (bl->kind == VCODE_TYPE_INT && r_is_const && rconst != 0) {
+   if (bl->kind == VCODE_TYPE_REAL) {
+      reg_t *rr = vcode_reg_data(reg);
+      rr->bounds = vtype_real(-INFINITY, INFINITY);
+   }
+   else if (r_is_const && rconst > 0) {
       reg_t *rr = vcode_reg_data(reg);
       rr->bounds = vtype_int(bl->low / rconst, bl->high / rconst);
    }
-   else if (bl->kind == VCODE_TYPE_REAL) {
+   else if (bl->low >= 0 && br->low >= 0) {
       reg_t *rr = vcode_reg_data(reg);
-      rr->bounds = vtype_real(-INFINITY, INFINITY);
+      rr->bounds = vtype_int(0, bl->high);
+   }
+   else {
+      // The magnitude of the result is at most that of the dividend
+      const int64_t neg_low = ssub64(0, bl->low);
+      const int64_t neg_high = ssub64(0, bl->high);
+
+      reg_t *rr = vcode_reg_data(reg);
+      rr->bounds = vtype_int(MIN(bl->low, neg_high), MAX(bl->high, neg_low));
    }
 
    return reg;
@@ -3993,6 +4019,12 @@ vcode_reg_t emit_trap_exp(vcode_reg_t lhs, vcode_reg_t rhs, vcode_reg_t locus)
    VCODE_ASSERT(vcode_reg_kind(result) == VCODE_TYPE_INT,
                 "trapping exp may only be used with integer types");
 
+   vcode_type_t vtype = vcode_reg_type(lhs);
+   int64_t low = INT64_MIN, high = INT64_MAX;
+   vtype_clamp_to_repr(vtype_repr(vtype), &low, &high);
+
+   vcode_reg_data(result)->bounds = vtype_int(low, high);
+
    return result;
 }
 
@@ -4016,8 +4048,17 @@ vcode_reg_t emit_mod(vcode_reg_t lhs, vcode_reg_t rhs)
 
       return reg;
    }
-   else
-      return emit_arith(VCODE_OP_MOD, lhs, rhs, VCODE_INVALID_REG);
+   else {
+      // The result may be zero even if that is not a value of the type
+      vcode_reg_t reg = emit_arith(VCODE_OP_MOD, lhs, rhs, VCODE_INVALID_REG);
+
+      vtype_t *vt = vcode_type_data(vcode_reg_type(lhs));
+
+      reg_t *rr = vcode_reg_data(reg);
+      rr->bounds = vtype_int(MIN(0, vt->low), MAX(0, vt->high));
+
+      return reg;
+   }
 }
 
 vcode_reg_t emit_rem(vcode_reg_t lhs, vcode_reg_t rhs)
@@ -4032,9 +4073,13 @@ vcode_reg_t emit_rem(vcode_reg_t lhs, vcode_reg_t rhs)
    vtype_t *bl = vcode_type_data(vcode_reg_data(lhs)->bounds);
    vtype_t *br = vcode_type_data(vcode_reg_data(rhs)->bounds);
 
-   if (bl->low >= 0 && br->low >= 0) {
-      reg_t *rr = vcode_reg_data(reg);
-      rr->bounds = vtype_int(0, br->high - 1);
+   reg_t *rr = vcode_reg_data(reg);
+
+   if (bl->low >= 0 && br->low >= 0)
+      rr->bounds = vtype_int(0, MAX(0, br->high - 1));
+   else {
+      // The result has the sign of the dividend and is no larger in magnitude
+      rr->bounds = vtype_int(MIN(0, bl->low), MAX(0, bl->high));
    }
 
    return reg;
@@ -4046,8 +4091,11 @@ static vcode_reg_t emit_add_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const)
-      return emit_const(vcode_reg_type(lhs), lconst + rconst);
+   int64_t result;
+   if (l_is_const && r_is_const
+       && !__builtin_add_overflow(lconst, rconst, &result)
+       && vcode_can_represent(lhs, result))
+      return emit_const(vcode_reg_type(lhs), result);
    else if (r_is_const && rconst == 0)
       return lhs;
    else if (l_is_const && lconst == 0)
@@ -4102,8 +4150,11 @@ static vcode_reg_t emit_sub_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const)
-      return emit_const(vcode_reg_type(lhs), lconst - rconst);
+   int64_t result;
+   if (l_is_const && r_is_const
+       && !__builtin_sub_overflow(lconst, rconst, &result)
+       && vcode_can_represent(lhs, result))
+      return emit_const(vcode_reg_type(lhs), result);
    else if (r_is_const && rconst == 0)
       return lhs;
    else if (l_is_const && lconst == 0)
@@ -4396,6 +4447,13 @@ vcode_reg_t emit_neg(vcode_reg_t lhs)
    vcode_add_arg(op, lhs);
    op->result = vcode_add_reg(vcode_reg_type(lhs));
 
+   if (vcode_reg_kind(lhs) != VCODE_TYPE_REAL) {
+      vtype_t *bl = vcode_type_data(vcode_reg_data(lhs)->bounds);
+      const int64_t low = ssub64(0, bl->high), high = ssub64(0, bl->low);
+
+      vcode_reg_data(op->result)->bounds = vtype_int(low, high);
+   }
+
    return op->result;
 }
 
@@ -4416,19 +4474,35 @@ vcode_reg_t emit_trap_neg(vcode_reg_t lhs, vcode_reg_t locus)
    VCODE_ASSERT(vcode_reg_kind(lhs) == VCODE_TYPE_INT,
                 "trapping neg may only be used with integer types");
 
-   return (op->result = vcode_add_reg(vcode_reg_type(lhs)));
+   vtype_t *bl = vcode_type_data(vcode_reg_data(lhs)->bounds);
+   int64_t low = ssub64(0, bl->high), high = ssub64(0, bl->low);
+   vtype_clamp_to_repr(vtype_repr(vcode_reg_type(lhs)), &low, &high);
+
+   op->result = vcode_add_reg(vcode_reg_type(lhs));
+   vcode_reg_data(op->result)->bounds = vtype_int(low, high);
+
+   return op->result;
 }
 
 vcode_reg_t emit_abs(vcode_reg_t lhs)
 {
    int64_t lconst;
-   if (vcode_reg_const(lhs, &lconst))
+   if (vcode_reg_const(lhs, &lconst) && lconst != INT64_MIN
+       && vcode_can_represent(lhs, llabs(lconst)))
       return emit_const(vcode_reg_type(lhs), llabs(lconst));
 
    op_t *op = vcode_add_op(VCODE_OP_ABS);
    vcode_add_arg(op, lhs);
    op->result = vcode_add_reg(vcode_reg_type(lhs));
 
+   if (vcode_reg_kind(lhs) != VCODE_TYPE_REAL) {
+      vtype_t *bl = vcode_type_data(vcode_reg_data(lhs)->bounds);
+      int64_t low = 0, high = MAX(ssub64(0, bl->low), bl->high);
+      vtype_clamp_to_repr(vtype_repr(vcode_reg_type(lhs)), &low, &high);
+
+      vcode_reg_data(op->result)->bounds = vtype_int(low, high);
+   }
+
    return op->result;
 }
 
@@ -4470,6 +4544,14 @@ vcode_reg_t emit_select(vcode_reg_t test, vcode_reg_t rtrue,
    vcode_add_arg(op, rfalse);
    op->result = vcode_add_reg(vcode_reg_type(rtrue));
 
+   if (vcode_reg_kind(rtrue) == VCODE_TYPE_INT) {
+      vtype_t *bt = vcode_type_data(vcode_reg_data(rtrue)->bounds);
+      vtype_t *bf = vcode_type_data(vcode_reg_data(rfalse)->bounds);
+
+      vcode_reg_data(op->result)->bounds =
+         vtype_int(MIN(bt->low, bf->low), MAX(bt->high, bf->high));
+   }
+
    VCODE_ASSERT(vtype_eq(vcode_reg_type(test), vtype_bool()),
                 "select test must have bool type");
    VCODE_ASSERT(vtype_eq(vcode_reg_type(rtrue), vcode_reg_type(rfalse)),
-- 
2.43.0


From ba61ca48ba958487b22cb29cbb371e50e66696b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 12/41] fix: detect overflow of abs operator

---
 src/jit/jit-exits.c | 15 +++++++++++++--
 src/jit/jit-irgen.c | 37 +++++++++++++++++++++++++++++--------
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/jit/jit-exits.c b/src/jit/jit-exits.c
index ce6c13a..934b517 100644
--- a/src/jit/jit-exits.c
+++ b/src/jit/jit-exits.c
@@ -199,6 +199,10 @@ void x_exponent_fail(int64_t value, tree_t where)
 
 void x_overflow(int64_t lhs, int64_t rhs, tree_t where)
 {
+   if (where == NULL)
+      jit_msg(NULL, DIAG_FATAL, "result of abs %"PRIi64" cannot be represented",
+              lhs);
+
    LOCAL_TEXT_BUF tb = tb_new();
    if (tree_kind(where) == T_FCALL) {
       switch (tree_subkind(tree_ref(where))) {
@@ -206,6 +210,8 @@ void x_overflow(int64_t lhs, int64_t rhs, tree_t where)
          tb_printf(tb, "%"PRIi64" + %"PRIi64, lhs, rhs);
          break;
       case S_MUL:
+      case S_MUL_PI:
+      case S_MUL_IP:
          tb_printf(tb, "%"PRIi64" * %"PRIi64, lhs, rhs);
          break;
       case S_SUB:
@@ -214,6 +220,11 @@ void x_overflow(int64_t lhs, int64_t rhs, tree_t where)
       case S_NEGATE:
          tb_printf(tb, "-(%"PRIi64")", lhs);
          break;
+      case S_DIV:
+      case S_DIV_PP:
+      case S_DIV_PI:
+         tb_printf(tb, "%"PRIi64" / -1", lhs);
+         break;
       case S_EXP:
          tb_printf(tb, "%"PRIi64" ** %"PRIi64, lhs, rhs);
          break;
@@ -557,8 +568,8 @@ void __nvc_do_exit(jit_exit_t which, jit_anchor_t *anchor, jit_scalar_t *args,
 
    case JIT_EXIT_OVERFLOW:
       {
-         int32_t lhs   = args[0].integer;
-         int32_t rhs   = args[1].integer;
+         int64_t lhs   = args[0].integer;
+         int64_t rhs   = args[1].integer;
          tree_t  where = args[2].pointer;
 
          x_overflow(lhs, rhs, where);
diff --git a/src/jit/jit-irgen.c b/src/jit/jit-irgen.c
index 5f91d0f..bc62135 100644
--- a/src/jit/jit-irgen.c
+++ b/src/jit/jit-irgen.c
@@ -1629,19 +1629,24 @@ static void irgen_op_neg(jit_irgen_t *g, mir_value_t n)
       g->map[n.id] = j_fneg(g, arg0);
 }
 
+static int64_t irgen_int_min(jit_size_t size)
+{
+   switch (size) {
+   case JIT_SZ_8: return INT8_MIN;
+   case JIT_SZ_16: return INT16_MIN;
+   case JIT_SZ_32: return INT32_MIN;
+   case JIT_SZ_64: return INT64_MIN;
+   default: return 0;
+   }
+}
+
 static void irgen_op_trap_neg(jit_irgen_t *g, mir_value_t n)
 {
    jit_value_t arg0 = irgen_get_arg(g, n, 0);
    jit_value_t locus = irgen_get_arg(g, n, 1);
 
-   int64_t cmp;
-   switch (irgen_jit_size(g, mir_get_type(g->mu, n))) {
-   case JIT_SZ_8: cmp = INT8_MIN; break;
-   case JIT_SZ_16: cmp = INT16_MIN; break;
-   case JIT_SZ_32: cmp = INT32_MIN; break;
-   case JIT_SZ_64: cmp = INT64_MIN; break;
-   default: cmp = 0;
-   }
+   const jit_size_t size = irgen_jit_size(g, mir_get_type(g->mu, n));
+   const int64_t cmp = irgen_int_min(size);
 
    irgen_label_t *cont = irgen_alloc_label(g);
    j_cmp(g, JIT_CC_GT, arg0, jit_value_from_int64(cmp));
@@ -1666,6 +1671,22 @@ static void irgen_op_abs(jit_irgen_t *g, mir_value_t n)
       g->map[n.id] = j_csel(g, neg, arg0);
    }
    else {
+      mir_type_t type = mir_get_type(g->mu, n);
+
+      if (irgen_repr_signed(mir_get_repr(g->mu, type))) {
+         irgen_label_t *cont = irgen_alloc_label(g);
+         const jit_size_t size = irgen_jit_size(g, type);
+         j_cmp(g, JIT_CC_GT, arg0, jit_value_from_int64(irgen_int_min(size)));
+         j_jump(g, JIT_CC_T, cont);
+
+         j_send(g, 0, arg0);
+         j_send(g, 1, jit_value_from_int64(0));
+         j_send(g, 2, jit_null_ptr());
+         macro_exit(g, JIT_EXIT_OVERFLOW);
+
+         irgen_bind_label(g, cont);
+      }
+
       jit_value_t neg = j_neg(g, arg0);
       j_cmp(g, JIT_CC_LT, arg0, jit_value_from_int64(0));
       g->map[n.id] = j_csel(g, neg, arg0);
-- 
2.43.0


From eb5a2335c2e60ccadc784e1e2f9012ea4480f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 13/41] fix: checks for division by zero and overflow with
 physical types

Also check for overflow dividing the most negative value by -1, which
crashed with 64-bit types.
---
 src/lower.c | 137 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 99 insertions(+), 38 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index c32c1a7..6e94150 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -1621,35 +1621,111 @@ static vcode_reg_t lower_name_attr(lower_unit_t *lu, tree_t decl,
    return emit_wrap(mem_reg, &dim0, 1);
 }
 
+static vcode_reg_t lower_div_rem(tree_t fcall, subprogram_kind_t kind,
+                                 vcode_reg_t r0, vcode_reg_t r1)
+{
+   // Dividing the most negative value by -1 overflows: replace the
+   // divisor with one in this case and then fix up the result
+
+   vcode_type_t vtype = vcode_reg_type(r0);
+
+   if (vtype_kind(vtype) == VCODE_TYPE_INT) {
+      vcode_type_t left = vcode_reg_bounds(r0), right = vcode_reg_bounds(r1);
+
+      const int64_t low = vtype_low(left);
+      if ((low == INT8_MIN || low == INT16_MIN
+           || low == INT32_MIN || low == INT64_MIN)
+          && vtype_low(right) <= -1 && vtype_high(right) >= -1) {
+
+         vcode_reg_t test_reg =
+            emit_cmp(VCODE_CMP_EQ, r1, emit_const(vtype, -1));
+         vcode_reg_t denom_reg =
+            emit_select(test_reg, emit_const(vtype, 1), r1);
+
+         if (kind == S_DIV) {
+            vcode_reg_t numer_reg =
+               emit_select(test_reg, r0, emit_const(vtype, 0));
+            vcode_reg_t neg_reg =
+               emit_trap_neg(numer_reg, lower_debug_locus(fcall));
+            vcode_reg_t div_reg = emit_div(r0, denom_reg);
+
+            return emit_select(test_reg, neg_reg, div_reg);
+         }
+         else
+            r1 = denom_reg;
+      }
+   }
+
+   switch (kind) {
+   case S_DIV: return emit_div(r0, r1);
+   case S_REM: return emit_rem(r0, r1);
+   case S_MOD: return emit_mod(r0, r1);
+   default: should_not_reach_here();
+   }
+}
+
+static vcode_reg_t lower_physical_mul_div(tree_t fcall, subprogram_kind_t kind,
+                                          vcode_reg_t r0, vcode_reg_t r1)
+{
+   // The operands may have different types: calculate the result using
+   // the widest representation and check it is in range afterwards
+
+   vcode_type_t vwide = vtype_int(INT64_MIN, INT64_MAX);
+   vcode_reg_t left_reg = emit_cast(vwide, vcode_reg_bounds(r0), r0);
+   vcode_reg_t right_reg = emit_cast(vwide, vcode_reg_bounds(r1), r1);
+
+   vcode_reg_t locus = lower_debug_locus(fcall);
+
+   vcode_reg_t wide_reg;
+   if (kind == S_MUL)
+      wide_reg = emit_trap_mul(left_reg, right_reg, locus);
+   else {
+      emit_zero_check(right_reg, locus);
+      wide_reg = lower_div_rem(fcall, S_DIV, left_reg, right_reg);
+   }
+
+   vcode_type_t rtype = lower_type(tree_type(fcall));
+
+   if (!vtype_eq(rtype, vwide)) {
+      vcode_reg_t low_reg = emit_const(vwide, vtype_low(rtype));
+      vcode_reg_t high_reg = emit_const(vwide, vtype_high(rtype));
+      vcode_reg_t dir_reg = emit_const(vtype_bool(), RANGE_TO);
+      emit_range_check(wide_reg, low_reg, high_reg, dir_reg, locus, locus);
+   }
+
+   return emit_cast(rtype, VCODE_INVALID_TYPE, wide_reg);
+}
+
 static vcode_reg_t lower_arith(tree_t fcall, subprogram_kind_t kind,
                                vcode_reg_t r0, vcode_reg_t r1)
 {
-   type_t type = tree_type(fcall);
+   const bool is_real = type_is_real(tree_type(fcall));
 
    switch (kind) {
    case S_ADD:
-      if (type_is_integer(type))
-         return emit_trap_add(r0, r1, lower_debug_locus(fcall));
-      else
+      if (is_real)
          return emit_add(r0, r1);
-   case S_MUL:
-      if (type_is_integer(type))
-         return emit_trap_mul(r0, r1, lower_debug_locus(fcall));
       else
+         return emit_trap_add(r0, r1, lower_debug_locus(fcall));
+   case S_MUL:
+      if (is_real)
          return emit_mul(r0, r1);
-   case S_SUB:
-      if (type_is_integer(type))
-         return emit_trap_sub(r0, r1, lower_debug_locus(fcall));
       else
+         return emit_trap_mul(r0, r1, lower_debug_locus(fcall));
+   case S_SUB:
+      if (is_real)
          return emit_sub(r0, r1);
-   case S_MOD: return emit_mod(r0, r1);
-   case S_REM: return emit_rem(r0, r1);
-   case S_DIV: return emit_div(r0, r1);
-   case S_EXP:
-      if (type_is_integer(type))
-         return emit_trap_exp(r0, r1, lower_debug_locus(fcall));
       else
+         return emit_trap_sub(r0, r1, lower_debug_locus(fcall));
+   case S_MOD:
+   case S_REM:
+   case S_DIV:
+      return lower_div_rem(fcall, kind, r0, r1);
+   case S_EXP:
+      if (is_real)
          return emit_exp(r0, r1);
+      else
+         return emit_trap_exp(r0, r1, lower_debug_locus(fcall));
    default:
       fatal_trace("invalid subprogram kind %d in lower_arith", kind);
    }
@@ -2127,7 +2203,7 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
    case S_MOD:
    case S_REM:
    case S_DIV:
-      if (type_is_integer(r1_type)) {
+      if (!type_is_real(r1_type)) {
          vcode_reg_t locus = lower_debug_locus(fcall);
          emit_zero_check(r1, locus);
       }
@@ -2150,12 +2226,12 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
       }
    case S_NEGATE:
       {
-         if (type_is_integer(r0_type)) {
+         if (type_is_real(r0_type))
+            return emit_neg(r0);
+         else {
             vcode_reg_t locus = lower_debug_locus(fcall);
             return emit_trap_neg(r0, locus);
          }
-         else
-            return emit_neg(r0);
       }
    case S_ABS:
       return emit_abs(r0);
@@ -2231,17 +2307,8 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
                           emit_mul(emit_cast(vreal, vreal, r0), r1));
       }
    case S_MUL_IP:
-      {
-         vcode_type_t rtype = lower_type(tree_type(fcall));
-         vcode_reg_t cast_reg = emit_cast(rtype, rtype, r0);
-         return emit_mul(cast_reg, r1);
-      }
    case S_MUL_PI:
-      {
-         vcode_type_t rtype = lower_type(tree_type(fcall));
-         vcode_reg_t cast_reg = emit_cast(rtype, rtype, r1);
-         return emit_mul(r0, cast_reg);
-      }
+      return lower_physical_mul_div(fcall, S_MUL, r0, r1);
    case S_DIV_PR:
       {
          vcode_type_t vreal = vtype_real(-DBL_MAX, DBL_MAX);
@@ -2262,18 +2329,12 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
       {
          vcode_reg_t locus = lower_debug_locus(fcall);
          emit_zero_check(r1, locus);
-         vcode_reg_t div_reg = emit_div(r0, r1);
+         vcode_reg_t div_reg = lower_div_rem(fcall, S_DIV, r0, r1);
          vcode_type_t rtype = lower_type(tree_type(fcall));
          return emit_cast(rtype, rtype, div_reg);
       }
    case S_DIV_PI:
-      {
-         vcode_reg_t locus = lower_debug_locus(fcall);
-         emit_zero_check(r1, locus);
-         vcode_type_t rtype = lower_type(tree_type(fcall));
-         vcode_reg_t cast_reg = emit_cast(rtype, rtype, r1);
-         return emit_div(r0, cast_reg);
-      }
+      return lower_physical_mul_div(fcall, S_DIV, r0, r1);
    default:
       fatal_at(tree_loc(fcall), "cannot lower builtin %d", builtin);
    }
-- 
2.43.0


From 8eb665f1784d9712518b6a9928e7a1af1a50992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 14/41] fix: unconstrained port with conversion function of
 constant bounds

---
 src/lower.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index 6e94150..2a55ffc 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -12293,6 +12293,11 @@ static vcode_reg_t lower_constrain_port(lower_unit_t *lu, tree_t port, int pos,
          type_t type = tree_type(value);
          if (type_is_record(type))
             bounds_reg = lower_default_value(lu, type, VCODE_INVALID_REG);
+         else if (type_is_array(type) && type_const_bounds(type)) {
+            // There is no variable for the bounds of this type
+            vcode_type_t velem = lower_type(type_elem_recur(type));
+            bounds_reg = emit_null(vtype_pointer(velem));
+         }
          else
             bounds_reg = lower_get_type_bounds(lu, type);
       }
-- 
2.43.0


From b58d22226332b79c615a9fc307db4285b131ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 15/41] fix: crash in stack trace of port conversion with
 element or slice

---
 src/jit/jit-core.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jit/jit-core.c b/src/jit/jit-core.c
index 1c59b45..b6d6bf1 100644
--- a/src/jit/jit-core.c
+++ b/src/jit/jit-core.c
@@ -561,6 +561,12 @@ static void jit_emit_trace(diag_t *d, const loc_t *loc, object_t *enclosing,
       case T_PARAM_DECL:
          diag_trace(d, loc, "Parameter %s", istr(tree_ident(tree)));
          break;
+      case T_ARRAY_REF:
+      case T_ARRAY_SLICE:
+      case T_RECORD_REF:
+         // The actual designator or formal name of a converted port
+         diag_trace(d, loc, "Port conversion");
+         break;
       default:
          {
             const char *class = class_str(class_of(tree));
-- 
2.43.0


From 9e3a316cb8f337d8430879a30bbd7ce67940b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 16/41] fix: infinite loop searching full hash table with two
 slots

---
 src/hash.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 5af46e5..3cf4e22 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -22,6 +22,10 @@
 #include <string.h>
 #include <assert.h>
 
+// Tables grow when more than half full so with fewer slots than this there
+// might not be an empty one to end an unsuccessful search
+#define MIN_SIZE 4
+
 ////////////////////////////////////////////////////////////////////////////////
 // Hash table of pointers to pointers
 
@@ -41,7 +45,7 @@ static inline int hash_slot(unsigned size, const void *key)
 hash_t *hash_new(int size)
 {
    hash_t *h = xmalloc(sizeof(hash_t));
-   h->size    = next_power_of_2(size);
+   h->size    = next_power_of_2(MAX(size, MIN_SIZE));
    h->members = 0;
 
    char *mem = xcalloc(h->size * 2 * sizeof(void *));
@@ -192,7 +196,7 @@ static inline int shash_slot(shash_t *h, const char *key)
 shash_t *shash_new(int size)
 {
    shash_t *h = xmalloc(sizeof(shash_t));
-   h->size    = next_power_of_2(size);
+   h->size    = next_power_of_2(MAX(size, MIN_SIZE));
    h->members = 0;
 
    char *mem = xcalloc(h->size * 2 * sizeof(void *));
@@ -330,7 +334,7 @@ static inline int ihash_slot(ihash_t *h, uint64_t key)
 ihash_t *ihash_new(int size)
 {
    ihash_t *h = xmalloc(sizeof(ihash_t));
-   h->size    = next_power_of_2(size);
+   h->size    = next_power_of_2(MAX(size, MIN_SIZE));
    h->members = 0;
 
    const size_t bytes =
@@ -438,7 +442,7 @@ struct _hset {
 hset_t *hset_new(int size)
 {
    hset_t *h = xmalloc(sizeof(hset_t));
-   h->size    = next_power_of_2(size);
+   h->size    = next_power_of_2(MAX(size, MIN_SIZE));
    h->members = 0;
    h->keys    = xcalloc_array(h->size, sizeof(void *));
 
@@ -829,7 +833,7 @@ static inline int ghash_slot(ghash_t *h, const char *key)
 ghash_t *ghash_new(int size, ghash_hash_fn_t hash_fn, ghash_cmp_fn_t cmp_fn)
 {
    ghash_t *h = xmalloc(sizeof(ghash_t));
-   h->size    = next_power_of_2(size);
+   h->size    = next_power_of_2(MAX(size, MIN_SIZE));
    h->members = 0;
    h->hash_fn = hash_fn;
    h->cmp_fn  = cmp_fn;
-- 
2.43.0


From c7ff4924494ae16b92fb65cbb9e0f963c8eef90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 17/41] fix: crash with part of record field associated in port
 map

---
 src/lower.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 2a55ffc..c28a0c1 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -12097,8 +12097,17 @@ static void lower_direct_mapped_port(lower_unit_t *lu, driver_set_t *ds,
             kind  = tree_kind(name);
          }
 
-         if (kind != T_REF)
+         if (kind != T_REF) {
+            // Part of a record field or array element: no other fields
+            // of this port can be direct mapped either
+            tree_t ref = name_to_ref(name);
+            if (ref != NULL && type_is_record(tree_type(ref))) {
+               if (*poison == NULL)
+                  *poison = hset_new(32);
+               hset_insert(*poison, tree_ref(ref));
+            }
             return;
+         }
 
          port = tree_ref(name);
       }
-- 
2.43.0


From 38f00cb9e79fca986234c369aedbe48e1ca97d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 18/41] fix: check returned value against result subtype of
 function

---
 src/lower.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index c28a0c1..6d4d472 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6440,16 +6440,25 @@ static void lower_return(lower_unit_t *lu, tree_t stmt)
 
       vcode_reg_t value_reg = lower_rvalue(lu, value);
 
+      type_t result = tree_type(stmt);
+
       if (type_is_scalar(type)) {
-         lower_check_scalar_bounds(lu, value_reg, type, value, NULL);
+         lower_check_scalar_bounds(lu, value_reg, result, value, NULL);
          emit_return(value_reg);
       }
       else if (type_is_access(type)) {
          type_t access = type_designated(type);
          emit_return(lower_incomplete_access(value_reg, access));
       }
-      else if (type_is_array(type))
-         emit_return(lower_coerce_arrays(lu, type, tree_type(stmt), value_reg));
+      else if (type_is_array(type)) {
+         if (!type_is_unconstrained(result)) {
+            vcode_reg_t locus = lower_debug_locus(value);
+            lower_check_array_sizes(lu, result, type, VCODE_INVALID_REG,
+                                    value_reg, locus);
+         }
+
+         emit_return(lower_coerce_arrays(lu, type, result, value_reg));
+      }
       else
          emit_return(value_reg);
    }
-- 
2.43.0


From 895e1b09737015e867721ec569f2136b7e3a991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 19/41] fix: check operand of qualified expression belongs to
 subtype

---
 src/lower.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 6d4d472..bad036d 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5114,10 +5114,20 @@ static vcode_reg_t lower_qualified(lower_unit_t *lu, tree_t expr)
 
    vcode_reg_t value_reg = lower_rvalue(lu, value);
 
-   if (type_is_array(to_type))
+   if (type_is_array(to_type)) {
+      if (!type_is_unconstrained(to_type)) {
+         vcode_reg_t locus = lower_debug_locus(value);
+         lower_check_array_sizes(lu, to_type, from_type, VCODE_INVALID_REG,
+                                 value_reg, locus);
+      }
+
       return lower_coerce_arrays(lu, from_type, to_type, value_reg);
-   else
-      return value_reg;
+   }
+
+   if (type_is_scalar(to_type))
+      lower_check_scalar_bounds(lu, value_reg, to_type, value, NULL);
+
+   return value_reg;
 }
 
 static vcode_reg_t lower_cond_value(lower_unit_t *lu, tree_t expr)
-- 
2.43.0


From 28feb57a41b06bd2bef350393b76ba13f3eec0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 20/41] fix: check elements of array aggregate belong to
 element subtype

---
 src/lower.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index bad036d..ce1c299 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -4008,6 +4008,9 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
       // Initialise the array with the default value
       if (type_is_scalar(elem_type) && !multidim) {
          vcode_reg_t def_reg = lower_rvalue(lu, def_value);
+         if (tree_kind(def_value) != T_LITERAL)   // Checked statically
+            lower_check_scalar_bounds(lu, def_reg, elem_type,
+                                      def_value, NULL);
          emit_memset(mem_reg, def_reg, len_reg);
       }
       else {
@@ -4268,8 +4271,12 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
       }
       else if (type_is_record(elem_type))
          emit_copy(ptr_reg, value_regs[i], VCODE_INVALID_REG);
-      else
+      else {
+         if (type_is_scalar(elem_type))
+            lower_check_scalar_bounds(lu, value_regs[i], elem_type,
+                                      value, NULL);
          emit_store_indirect(value_regs[i], ptr_reg);
+      }
 
       if (loop_bb != VCODE_INVALID_BLOCK) {
          assert(tree_subkind(a) == A_RANGE);
-- 
2.43.0


From e83037f9c47703f741eb18507f690fc44feb909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 21/41] fix: check result of 'succ, 'pred, 'leftof and 'rightof
 of enumerations

---
 src/lower.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index ce1c299..0a72225 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5052,14 +5052,24 @@ static vcode_reg_t lower_attr_ref(lower_unit_t *lu, tree_t expr)
       {
          tree_t value = tree_value(tree_param(expr, 0));
          vcode_reg_t arg_reg = lower_attr_param(lu, value, NULL, C_CONSTANT);
-         return emit_add(arg_reg, emit_const(vcode_reg_type(arg_reg), 1));
+         vcode_reg_t off_reg = emit_const(vcode_reg_type(arg_reg), 1);
+         vcode_reg_t value_reg = emit_add(arg_reg, off_reg);
+         if (type_is_enum(tree_type(expr)))
+            lower_check_scalar_bounds(lu, value_reg, tree_type(expr),
+                                      expr, NULL);
+         return value_reg;
       }
 
    case ATTR_PRED:
       {
          tree_t value = tree_value(tree_param(expr, 0));
          vcode_reg_t arg_reg = lower_attr_param(lu, value, NULL, C_CONSTANT);
-         return emit_sub(arg_reg, emit_const(vcode_reg_type(arg_reg), 1));
+         vcode_reg_t off_reg = emit_const(vcode_reg_type(arg_reg), 1);
+         vcode_reg_t value_reg = emit_sub(arg_reg, off_reg);
+         if (type_is_enum(tree_type(expr)))
+            lower_check_scalar_bounds(lu, value_reg, tree_type(expr),
+                                      expr, NULL);
+         return value_reg;
       }
 
    case ATTR_LEFTOF:
@@ -5070,7 +5080,12 @@ static vcode_reg_t lower_attr_ref(lower_unit_t *lu, tree_t expr)
          type_t type = tree_type(expr);
          const int dir =
             (type_is_enum(type) || direction_of(type, 0) == RANGE_TO) ? -1 : 1;
-         return emit_add(arg_reg, emit_const(vcode_reg_type(arg_reg), dir));
+         vcode_reg_t off_reg = emit_const(vcode_reg_type(arg_reg), dir);
+         vcode_reg_t value_reg = emit_add(arg_reg, off_reg);
+         if (type_is_enum(tree_type(expr)))
+            lower_check_scalar_bounds(lu, value_reg, tree_type(expr),
+                                      expr, NULL);
+         return value_reg;
       }
 
    case ATTR_RIGHTOF:
@@ -5081,7 +5096,12 @@ static vcode_reg_t lower_attr_ref(lower_unit_t *lu, tree_t expr)
          type_t type = tree_type(expr);
          const int dir =
             (type_is_enum(type) || direction_of(type, 0) == RANGE_TO) ? 1 : -1;
-         return emit_add(arg_reg, emit_const(vcode_reg_type(arg_reg), dir));
+         vcode_reg_t off_reg = emit_const(vcode_reg_type(arg_reg), dir);
+         vcode_reg_t value_reg = emit_add(arg_reg, off_reg);
+         if (type_is_enum(tree_type(expr)))
+            lower_check_scalar_bounds(lu, value_reg, tree_type(expr),
+                                      expr, NULL);
+         return value_reg;
       }
 
    case ATTR_POS:
-- 
2.43.0


From 594039710711e371028d96a9d1c9d5ad61d0668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 22/41] fix: inputs of resolution function of composite
 subelement

---
 src/rt/model.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 04e81d0..3e3fff1 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1746,27 +1746,30 @@ static void setup_signal(rt_model_t *m, rt_signal_t *s, tree_t where,
    m->n_signals++;
 }
 
-static void copy_sub_signal_sources(rt_scope_t *scope, void *buf, int stride)
+static void copy_sub_signal_sources(rt_scope_t *scope, void *buf, int stride,
+                                    int count)
 {
    assert(is_signal_scope(scope));
 
    for (int i = 0; i < scope->signals.count; i++) {
       rt_signal_t *s = scope->signals.items[i];
       rt_nexus_t *n = &(s->nexus);
-      for (unsigned i = 0; i < s->n_nexus; i++) {
+      for (unsigned j = 0; j < s->n_nexus; j++, n = n->chain) {
          unsigned o = 0;
-         for (rt_source_t *src = &(n->sources); src; src = src->chain_input) {
+         for (rt_source_t *src = &(n->sources); src && o < count;
+              src = src->chain_input) {
             const void *data = source_value(n, src);
             if (data == NULL)
                continue;
 
-            memcpy(buf + s->offset + (o++ * stride), data, n->size * n->width);
+            memcpy(buf + s->offset + n->offset + (o++ * stride), data,
+                   n->size * n->width);
          }
       }
    }
 
    for (int i = 0; i < scope->children.count; i++)
-      copy_sub_signal_sources(scope->children.items[i], buf, stride);
+      copy_sub_signal_sources(scope->children.items[i], buf, stride, count);
 }
 
 static void convert_driving(rt_conv_func_t *cf)
@@ -1908,13 +1911,16 @@ static void call_resolution(rt_model_t *m, rt_nexus_t *n, res_memo_t *r,
             rscope = scope;
       }
 
-      TRACE("resolved composite signal needs %d bytes", scope->size);
+      TRACE("resolved composite signal needs %d bytes", rscope->size);
 
       model_thread_t *thread = model_thread(m);
       assert(thread->tlab != NULL);
 
-      uint8_t *inputs = tlab_alloc(thread->tlab, nonnull * scope->size);
-      copy_sub_signal_sources(scope, inputs, scope->size);
+      // The inputs are elements of the resolved composite type which may
+      // itself be a subelement of the signal
+      uint8_t *inputs = tlab_alloc(thread->tlab, nonnull * rscope->size);
+      copy_sub_signal_sources(rscope, inputs - rscope->offset, rscope->size,
+                              nonnull);
 
       jit_scalar_t result;
       if (jit_try_call(m->jit, r->closure.handle, &result,
-- 
2.43.0


From 3f7d01b86fb4acace2870cf7e2161a91bff8cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 23/41] fix: listing forced values of wide and split signals

---
 src/rt/model.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 3e3fff1..1525ec5 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -3891,16 +3891,16 @@ void get_forcing_value(rt_signal_t *s, uint8_t *value)
 {
    uint8_t *p = value;
    rt_nexus_t *n = &(s->nexus);
-   for (int i = 0; i < s->n_nexus; i++) {
+   for (int i = 0; i < s->n_nexus; i++, n = n->chain) {
       assert(n->n_sources > 0);
-      rt_source_t *s = NULL;
-      for (s = &(n->sources); s; s = s->chain_input) {
-         if (s->tag == SOURCE_FORCING)
+      rt_source_t *src = NULL;
+      for (src = &(n->sources); src; src = src->chain_input) {
+         if (src->tag == SOURCE_FORCING)
             break;
       }
-      assert(s != NULL);
+      assert(src != NULL);
 
-      memcpy(p, s->u.pseudo.value.bytes, n->width * n->size);
+      memcpy(p, value_ptr(n, &(src->u.pseudo.value)), n->width * n->size);
       p += n->width * n->size;
    }
    assert(p == value + s->shared.size);
-- 
2.43.0


From 7c34530497b23803aa9f2b2974cc24228122e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:07 +0000
Subject: [PATCH 24/41] fix: effective values of inout ports with conversions
 or connected to inner ports

---
 src/rt/model.c   | 118 ++++++++++++++++++++++++++++++++++-------------
 src/rt/structs.h |   1 +
 2 files changed, 86 insertions(+), 33 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 1525ec5..97aee20 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -165,7 +165,9 @@ static void put_driving(rt_model_t *m, rt_nexus_t *n, const void *value);
 static void put_effective(rt_model_t *m, rt_nexus_t *n, const void *value);
 static void update_implicit_signal(rt_model_t *m, rt_implicit_t *imp);
 static bool run_trigger(rt_model_t *m, rt_trigger_t *t);
-static void update_converted_inputs(rt_model_t *m, rt_nexus_t *n);
+static void update_effective_inputs(rt_model_t *m, rt_nexus_t *n, bool event);
+static void defer_driving_update(rt_model_t *m, rt_nexus_t *n);
+static int instance_depth(rt_signal_t *s);
 static void reset_scope(rt_model_t *m, rt_scope_t *s);
 static void async_run_process(rt_model_t *m, void *arg);
 static void async_update_property(rt_model_t *m, void *arg);
@@ -1484,6 +1486,7 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
 {
    rt_source_t *new = add_source(m, nexus, old->tag);
    new->disconnected = old->disconnected;
+   new->mode_in = old->mode_in;
 
    switch (old->tag) {
    case SOURCE_PORT:
@@ -1824,6 +1827,29 @@ static void convert_effective(rt_conv_func_t *cf)
    tlab_reset(thread->tlab);   // No allocations can be live past here
 }
 
+static inline bool is_mode_in(rt_source_t *src)
+{
+   // True if this source is the actual associated with a port of mode in
+   if (src->tag != SOURCE_PORT)
+      return false;
+   else if (src->u.port.conv_func != NULL)
+      return src->u.port.conv_func->mode_in;
+   else
+      return src->mode_in;
+}
+
+static inline void *port_value(rt_source_t *src)
+{
+   rt_nexus_t *input = src->u.port.input;
+
+   if (!(input->flags & NET_F_EFFECTIVE))
+      return nexus_effective(input);
+   else if ((input->flags & NET_F_INOUT) && src->mode_in)
+      return nexus_effective(input);   // Actual is an inout port
+   else
+      return nexus_driving(input);
+}
+
 static void *source_value(rt_nexus_t *nexus, rt_source_t *src)
 {
    switch (src->tag) {
@@ -1834,12 +1860,8 @@ static void *source_value(rt_nexus_t *nexus, rt_source_t *src)
          return value_ptr(nexus, &(src->u.driver.waveforms.value));
 
    case SOURCE_PORT:
-      if (likely(src->u.port.conv_func == NULL)) {
-         if (src->u.port.input->flags & NET_F_EFFECTIVE)
-            return nexus_driving(src->u.port.input);
-         else
-            return nexus_effective(src->u.port.input);
-      }
+      if (likely(src->u.port.conv_func == NULL))
+         return port_value(src);
       else {
          convert_driving(src->u.port.conv_func);
          return value_ptr(nexus, &src->u.port.conv_result);
@@ -2062,12 +2084,8 @@ static void calculate_driving_value(rt_model_t *m, rt_nexus_t *n)
          // signal, then the driving value of S is the driving value of
          // the formal part of the association element that associates S
          // with that port
-         if (likely(s0->u.port.conv_func == NULL)) {
-            if (s0->u.port.input->flags & NET_F_EFFECTIVE)
-               put_driving(m, n, nexus_driving(s0->u.port.input));
-            else
-               put_driving(m, n, nexus_effective(s0->u.port.input));
-         }
+         if (likely(s0->u.port.conv_func == NULL))
+            put_driving(m, n, port_value(s0));
          else {
             convert_driving(s0->u.port.conv_func);
             put_driving(m, n, value_ptr(n, &(s0->u.port.conv_result)));
@@ -2094,7 +2112,7 @@ static void calculate_effective_value(rt_model_t *m, rt_nexus_t *n)
    // of the association element that associates an actual with S
    if (n->flags & NET_F_INOUT) {
       for (rt_source_t *s = n->outputs; s; s = s->chain_output) {
-         if (s->tag == SOURCE_PORT) {
+         if (s->tag == SOURCE_PORT && !is_mode_in(s)) {
             if (likely(s->u.port.conv_func == NULL))
                put_effective(m, n, nexus_effective(s->u.port.output));
             else {
@@ -2133,14 +2151,16 @@ static void calculate_initial_value(rt_model_t *m, rt_nexus_t *n)
    }
 }
 
-static inline bool is_effective_conversion(rt_nexus_t *n, rt_source_t *o)
+static inline bool is_effective_input(rt_nexus_t *n, rt_source_t *o)
 {
-   // The conversion function for a port of mode in is applied to the
-   // effective value of the actual
-   if (o->tag != SOURCE_PORT || o->u.port.conv_func == NULL)
+   // The value of a port of mode in is the effective value of the actual
+   // after applying any conversion function
+   if (!is_mode_in(o))
       return false;
+   else if (o->u.port.conv_func != NULL)
+      return !!(n->flags & NET_F_EFFECTIVE);
    else
-      return o->u.port.conv_func->mode_in && (n->flags & NET_F_EFFECTIVE);
+      return !!(n->flags & NET_F_INOUT);
 }
 
 static void mark_conversion_inputs(rt_nexus_t *n)
@@ -2149,7 +2169,18 @@ static void mark_conversion_inputs(rt_nexus_t *n)
    // values then the function must wait for those values and so be
    // called after all of its inputs have been updated
    for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
-      if (!is_effective_conversion(n, o))
+      if (o->tag != SOURCE_PORT || o->u.port.conv_func == NULL)
+         continue;
+      else if (!is_mode_in(o) && (n->flags & NET_F_INOUT)) {
+         // The effective value of the actual must also be converted
+         rt_nexus_t *out = o->u.port.output;
+         if (!(out->flags & NET_F_EFFECTIVE)) {
+            out->flags |= NET_F_EFFECTIVE;
+            mark_conversion_inputs(out);
+         }
+         continue;
+      }
+      else if (!is_effective_input(n, o))
          continue;
 
       rt_conv_func_t *cf = o->u.port.conv_func;
@@ -2508,20 +2539,33 @@ void model_reset(rt_model_t *m)
       n->flags &= ~NET_F_PENDING;
 
       calculate_effective_value(m, n);
-      update_converted_inputs(m, n);
+      update_effective_inputs(m, n, true);
    }
 
-   // Ports of mode in whose value is a conversion of an effective value
+   // Ports of mode in whose value depends on the effective value of the
+   // actual
    while (heap_size(m->driving_heap) > 0) {
       rt_nexus_t *n = heap_extract_min(m->driving_heap);
       n->flags &= ~NET_F_PENDING;
+      n->event_delta = DELTA_CYCLE_MAX;   // Replaces the value set above
 
-      rt_source_t *s = &(n->sources);
-      convert_driving(s->u.port.conv_func);
+      calculate_initial_value(m, n);
+
+      if (n->flags & NET_F_EFFECTIVE) {
+         heap_extract_min(m->effective_heap);   // Always this nexus
+         n->flags &= ~NET_F_PENDING;
+
+         calculate_effective_value(m, n);
+         memcpy(nexus_last_value(n), nexus_effective(n), n->size * n->width);
+      }
 
-      const void *result = value_ptr(n, &s->u.port.conv_result);
-      memcpy(nexus_effective(n), result, n->size * n->width);
-      memcpy(nexus_last_value(n), result, n->size * n->width);
+      for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
+         if (is_mode_in(o)) {
+            if (o->u.port.conv_func != NULL)
+               o->u.port.conv_func->when = TIME_HIGH;
+            defer_driving_update(m, o->u.port.output);
+         }
+      }
    }
 
    tlab_reset(thread->tlab);   // No allocations can be live past here
@@ -3072,10 +3116,14 @@ static void defer_driving_update(rt_model_t *m, rt_nexus_t *n)
    n->flags |= NET_F_PENDING;
 }
 
-static void update_converted_inputs(rt_model_t *m, rt_nexus_t *n)
+static void update_effective_inputs(rt_model_t *m, rt_nexus_t *n, bool event)
 {
    for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
-      if (is_effective_conversion(n, o)) {
+      if (!is_effective_input(n, o))
+         continue;
+      else if (o->u.port.conv_func == NULL)
+         defer_driving_update(m, o->u.port.output);
+      else if (event) {
          o->u.port.conv_func->when = TIME_HIGH;   // Must be called again
          defer_driving_update(m, o->u.port.output);
       }
@@ -3089,12 +3137,12 @@ static void update_effective(rt_model_t *m, rt_nexus_t *n)
 
    calculate_effective_value(m, n);
 
-   if (n->event_delta == m->iteration && n->last_event == m->now)
-      update_converted_inputs(m, n);
+   const bool event = n->event_delta == m->iteration && n->last_event == m->now;
+   update_effective_inputs(m, n, event);
 
    if (n->n_sources > 0) {
       for (rt_source_t *s = &(n->sources); s; s = s->chain_input) {
-         if (s->tag != SOURCE_PORT)
+         if (s->tag != SOURCE_PORT || is_mode_in(s))
             continue;
          else if (s->u.port.conv_func != NULL) {
             rt_conv_func_t *cf = s->u.port.conv_func;
@@ -3142,7 +3190,7 @@ static void update_driving(rt_model_t *m, rt_nexus_t *n, bool safe)
          for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
             switch (o->tag) {
             case SOURCE_PORT:
-               if (is_effective_conversion(n, o))
+               if (is_effective_input(n, o))
                   ;   // Wait until after the effective value is updated
                else if (o->u.port.conv_func != NULL)
                   defer_driving_update(m, o->u.port.output);
@@ -4307,6 +4355,9 @@ void x_map_signal(sig_shared_t *src_ss, uint32_t src_offset,
 
    assert(src_s != dst_s);
 
+   // The formal is always declared in an inner scope
+   const bool mode_in = instance_depth(dst_s) > instance_depth(src_s);
+
    rt_model_t *m = get_model();
 
    rt_nexus_t *src_n = split_nexus(m, src_s, src_offset, count);
@@ -4327,6 +4378,7 @@ void x_map_signal(sig_shared_t *src_ss, uint32_t src_offset,
 
       rt_source_t *port = add_source(m, dst_n, SOURCE_PORT);
       port->u.port.input = src_n;
+      port->mode_in = mode_in;
 
       port->chain_output = src_n->outputs;
       src_n->outputs = port;
diff --git a/src/rt/structs.h b/src/rt/structs.h
index c7b7e26..1da30a3 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -165,6 +165,7 @@ typedef struct _rt_source {
    unsigned        sigqueued : 1;
    unsigned        pseudoqueued : 1;
    unsigned        was_active : 1;
+   unsigned        mode_in : 1;
    union {
       rt_port_t   port;
       rt_driver_t driver;
-- 
2.43.0


From be1343ed9c6760993d5339892ada4ac7e02aa000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 25/41] fix: resolution of constrained array subtype with
 element resolution

---
 src/lower.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 0a72225..6e3a6a0 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -7683,7 +7683,7 @@ static void lower_resolution_wrapper(lower_unit_t *lu, object_t *obj)
 
    vcode_type_t velem = lower_type(type_elem_recur(elem));
    vcode_reg_t vbounds = lower_bounds(elem);
-   vcode_type_t rtype = lower_func_result_type(type);
+   vcode_type_t rtype = lower_func_result_type(elem);
    vcode_type_t atype = vtype_pointer(velem);
    vcode_type_t vuint32 = vtype_int(0, UINT32_MAX);
    vcode_type_t voffset = vtype_offset();
@@ -7744,7 +7744,7 @@ static void lower_resolution_var(lower_unit_t *lu, tree_t decl, type_t type)
       nlits_reg = emit_const(vtype_offset(), 0);
 
    vcode_type_t velem = lower_type(type_elem_recur(type));
-   vcode_type_t rtype = lower_func_result_type(type);
+   vcode_type_t rtype = lower_func_result_type(elem);
    vcode_type_t atype = vtype_pointer(velem);
 
    ident_t prefix;
-- 
2.43.0


From da4e9eeb90760f911aeba39240a67b496d4ba451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 26/41] fix: activity of inout ports and of ports with
 conversions

---
 src/rt/model.c | 84 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 73 insertions(+), 11 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 97aee20..7ac1cd2 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -3127,6 +3127,8 @@ static void update_effective_inputs(rt_model_t *m, rt_nexus_t *n, bool event)
          o->u.port.conv_func->when = TIME_HIGH;   // Must be called again
          defer_driving_update(m, o->u.port.output);
       }
+      else if (o->u.port.output->flags & NET_F_EFFECTIVE)
+         defer_driving_update(m, o->u.port.output);   // May be active
    }
 }
 
@@ -3140,6 +3142,14 @@ static void update_effective(rt_model_t *m, rt_nexus_t *n)
    const bool event = n->event_delta == m->iteration && n->last_event == m->now;
    update_effective_inputs(m, n, event);
 
+   if (n->flags & NET_F_INOUT) {
+      // The port may be active although it has no active source
+      for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
+         if (o->tag == SOURCE_IMPLICIT)
+            schedule_implicit_update(m, o->u.pseudo.nexus);
+      }
+   }
+
    if (n->n_sources > 0) {
       for (rt_source_t *s = &(n->sources); s; s = s->chain_input) {
          if (s->tag != SOURCE_PORT || is_mode_in(s))
@@ -3876,6 +3886,30 @@ int model_exit_status(rt_model_t *m)
       return get_vhdl_assert_exit_status();
 }
 
+static rt_nexus_t *associated_actual(rt_nexus_t *n)
+{
+   // A port of mode inout is active when the actual is active
+   while (n->flags & NET_F_INOUT) {
+      rt_source_t *o = n->outputs;
+      for (; o; o = o->chain_output) {
+         if (o->tag == SOURCE_PORT && !is_mode_in(o))
+            break;
+      }
+
+      if (o == NULL)
+         break;
+
+      n = o->u.port.output;
+   }
+
+   return n;
+}
+
+static inline rt_nexus_t *source_input(rt_source_t *s, rt_nexus_t *input)
+{
+   return is_mode_in(s) ? associated_actual(input) : input;
+}
+
 static bool nexus_active(rt_model_t *m, rt_nexus_t *nexus)
 {
    if (nexus->n_sources > 0) {
@@ -3883,13 +3917,14 @@ static bool nexus_active(rt_model_t *m, rt_nexus_t *nexus)
          if (s->tag == SOURCE_PORT) {
             rt_conv_func_t *cf = s->u.port.conv_func;
             if (cf == NULL) {
-               RT_LOCK(s->u.port.input->signal->lock);
-               if (nexus_active(m, s->u.port.input))
+               rt_nexus_t *input = source_input(s, s->u.port.input);
+               RT_LOCK(input->signal->lock);
+               if (nexus_active(m, input))
                   return true;
             }
             else {
                for (int i = 0; i < cf->ninputs; i++) {
-                  if (nexus_active(m, cf->inputs[i].nexus))
+                  if (nexus_active(m, source_input(s, cf->inputs[i].nexus)))
                      return true;
                }
             }
@@ -3916,13 +3951,15 @@ static uint64_t nexus_last_active(rt_model_t *m, rt_nexus_t *nexus)
           if (s->tag == SOURCE_PORT) {
             rt_conv_func_t *cf = s->u.port.conv_func;
             if (cf == NULL) {
-               RT_LOCK(s->u.port.input->signal->lock);
-               last = MIN(last, nexus_last_active(m, s->u.port.input));
+               rt_nexus_t *input = source_input(s, s->u.port.input);
+               RT_LOCK(input->signal->lock);
+               last = MIN(last, nexus_last_active(m, input));
             }
             else {
                for (int i = 0; i < cf->ninputs; i++) {
-                  RT_LOCK(cf->inputs[i]->signal->lock);
-                  last = MIN(last, nexus_last_active(m, cf->inputs[i].nexus));
+                  rt_nexus_t *input = source_input(s, cf->inputs[i].nexus);
+                  RT_LOCK(input->signal->lock);
+                  last = MIN(last, nexus_last_active(m, input));
                }
             }
          }
@@ -4220,7 +4257,7 @@ int32_t x_test_net_active(sig_shared_t *ss, uint32_t offset, int32_t count)
    rt_model_t *m = get_model();
    rt_nexus_t *n = split_nexus(m, s, offset, count);
    for (; count > 0; n = n->chain) {
-      if (nexus_active(m, n))
+      if (nexus_active(m, associated_actual(n)))
          return 1;
 
       count -= n->width;
@@ -4331,7 +4368,7 @@ int64_t x_last_active(sig_shared_t *ss, uint32_t offset, int32_t count)
    rt_model_t *m = get_model();
    rt_nexus_t *n = split_nexus(m, s, offset, count);
    for (; count > 0; n = n->chain) {
-      last = MIN(last, nexus_last_active(m, n));
+      last = MIN(last, nexus_last_active(m, associated_actual(n)));
 
       count -= n->width;
       assert(count >= 0);
@@ -4415,6 +4452,32 @@ void x_map_const(sig_shared_t *ss, uint32_t offset,
    }
 }
 
+static void mark_effective(rt_nexus_t *n)
+{
+   n->flags |= NET_F_EFFECTIVE;
+   n->flags &= ~NET_F_FAST_DRIVER;
+
+   if (n->n_sources == 0)
+      return;
+
+   // This signal is active whenever one of its sources is active
+   for (rt_source_t *s = &(n->sources); s; s = s->chain_input) {
+      if (s->tag != SOURCE_PORT)
+         continue;
+      else if (s->u.port.conv_func == NULL) {
+         if (!(s->u.port.input->flags & NET_F_EFFECTIVE))
+            mark_effective(s->u.port.input);
+      }
+      else {
+         rt_conv_func_t *cf = s->u.port.conv_func;
+         for (int i = 0; i < cf->ninputs; i++) {
+            if (!(cf->inputs[i].nexus->flags & NET_F_EFFECTIVE))
+               mark_effective(cf->inputs[i].nexus);
+         }
+      }
+   }
+}
+
 void x_map_implicit(sig_shared_t *src_ss, uint32_t src_offset,
                     sig_shared_t *dst_ss, uint32_t dst_offset,
                     uint32_t count)
@@ -4444,8 +4507,7 @@ void x_map_implicit(sig_shared_t *src_ss, uint32_t src_offset,
       src->chain_output = n->outputs;
       n->outputs = src;
 
-      n->flags |= NET_F_EFFECTIVE;   // Update outputs when active
-      n->flags &= ~NET_F_FAST_DRIVER;
+      mark_effective(n);   // Update outputs when active
    }
 }
 
-- 
2.43.0


From 98437cfe582fc7415b58388ce6f200cfdd883ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 27/41] fix: memoised resolution function of enumeration
 subtype with bounds

---
 src/lower.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 6e3a6a0..7e16d92 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -7732,13 +7732,8 @@ static void lower_resolution_var(lower_unit_t *lu, tree_t decl, type_t type)
    vcode_reg_t nlits_reg;
    if (type_is_enum(elem)) {
       // This resolution function can potentially be memoised
-      if (type_kind(elem) == T_SUBTYPE) {
-         int64_t low, high;
-         range_bounds(range_of(elem, 0), &low, &high);
-         nlits_reg = emit_const(vtype_offset(), high - low + 1);
-      }
-      else
-         nlits_reg = emit_const(vtype_offset(), type_enum_literals(elem));
+      type_t base = type_base_recur(elem);
+      nlits_reg = emit_const(vtype_offset(), type_enum_literals(base));
    }
    else
       nlits_reg = emit_const(vtype_offset(), 0);
-- 
2.43.0


From f9b39f2917cb178c3d4a217b4aa0223ce3592ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 28/41] fix: range choices in aggregates of case choices

---
 src/common.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/common.c b/src/common.c
index 1e5df95..a9c7723 100644
--- a/src/common.c
+++ b/src/common.c
@@ -1624,6 +1624,25 @@ unsigned get_case_choice_char(tree_t value, int depth)
                   if (depth >= loffset && depth <= roffset)
                      return get_case_choice_char(base, depth - loffset);
                }
+               break;
+
+            case A_RANGE:
+               {
+                  int64_t low, high;
+                  if (!folded_bounds(tree_range(a, 0), &low, &high))
+                     fatal_at(tree_loc(a), "sorry, this expression is not "
+                              "currently supported in a case choice");
+
+                  if (low > high)
+                     break;
+
+                  const int64_t first = rebase_index(type, 0, low);
+                  const int64_t last = rebase_index(type, 0, high);
+
+                  if (depth >= MIN(first, last) && depth <= MAX(first, last))
+                     return assume_int(tree_value(a));
+               }
+               break;
             }
          }
 
-- 
2.43.0


From 2c4d307c90828e4688da55adff8252fef40f284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 29/41] fix: conversion functions overwrote values being
 resolved

---
 src/rt/model.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 7ac1cd2..f173fac 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1792,6 +1792,7 @@ static void convert_driving(rt_conv_func_t *cf)
          istr(jit_get_name(m->jit, cf->driving.handle)));
 
    model_thread_t *thread = model_thread(m);
+   const uint32_t mark = thread->tlab->alloc;
 
    jit_scalar_t context = { .pointer = cf->driving.context };
    jit_scalar_t arg = { .pointer = cf }, result;
@@ -1799,7 +1800,8 @@ static void convert_driving(rt_conv_func_t *cf)
                      thread->tlab))
       m->force_stop = true;
 
-   tlab_reset(thread->tlab);   // No allocations can be live past here
+   // The caller may be building the inputs of a resolution function
+   thread->tlab->alloc = mark;
 }
 
 static void convert_effective(rt_conv_func_t *cf)
@@ -1817,6 +1819,7 @@ static void convert_effective(rt_conv_func_t *cf)
          istr(jit_get_name(m->jit, cf->effective.handle)));
 
    model_thread_t *thread = model_thread(m);
+   const uint32_t mark = thread->tlab->alloc;
 
    jit_scalar_t context = { .pointer = cf->effective.context };
    jit_scalar_t arg = { .pointer = cf }, result;
@@ -1824,7 +1827,7 @@ static void convert_effective(rt_conv_func_t *cf)
                      thread->tlab))
       m->force_stop = true;
 
-   tlab_reset(thread->tlab);   // No allocations can be live past here
+   thread->tlab->alloc = mark;   // No allocations can be live past here
 }
 
 static inline bool is_mode_in(rt_source_t *src)
-- 
2.43.0


From 2bb8fee48afcc443b5c68af243987f1a6bccbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:56 +0000
Subject: [PATCH 30/41] fix: comparison of two null arrays with < and >

---
 src/lower.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 7e16d92..fb9f165 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -10421,8 +10421,18 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
    else {
       vcode_block_t check_r_len_bb = emit_block();
 
+      vcode_block_t l_done_bb = exit_bb;
+      if (pred == VCODE_CMP_LT)
+         l_done_bb = emit_block();
+
       vcode_reg_t len_ge_l = emit_cmp(VCODE_CMP_GEQ, i_loaded, left_len);
-      emit_cond(len_ge_l, exit_bb, check_r_len_bb);
+      emit_cond(len_ge_l, l_done_bb, check_r_len_bb);
+
+      if (pred == VCODE_CMP_LT) {
+         // A null array is not less than another null array
+         vcode_select_block(l_done_bb);
+         emit_cond(len_eq, fail_bb, exit_bb);
+      }
 
       vcode_select_block(check_r_len_bb);
 
-- 
2.43.0


From 0893c9197d04bc71964f27a3fc094db31862b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:56 +0000
Subject: [PATCH 31/41] fix: sla and sra shifted in the element of the wrong
 end

---
 src/vhdl/vhdl-predef.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/vhdl/vhdl-predef.c b/src/vhdl/vhdl-predef.c
index 3fe340b..777fb53 100644
--- a/src/vhdl/vhdl-predef.c
+++ b/src/vhdl/vhdl-predef.c
@@ -78,27 +78,35 @@ static void predef_bit_shift(mir_unit_t *mu, tree_t decl,
    mir_block_t body_bb = mir_add_block(mu);
    mir_block_t exit_bb = mir_add_block(mu);
 
+   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
+   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
+
    mir_value_t def_val = MIR_NULL_VALUE;
    switch (kind) {
    case S_SLL: case S_SRL: case S_ROL: case S_ROR:
       def_val = zero;
       break;
-   case S_SRA:
+   case S_SLA: case S_SRA:
       {
+         // Arithmetic shift to the left replicates the rightmost element
+         // and arithmetic shift to the right the leftmost
          mir_value_t len_minus_1 = mir_build_sub(mu, t_offset, len, one);
          mir_value_t last_ptr = mir_build_array_ref(mu, data, len_minus_1);
-         def_val = mir_build_load(mu, last_ptr);
+         mir_value_t first = mir_build_load(mu, data);
+         mir_value_t last = mir_build_load(mu, last_ptr);
+
+         if (kind == S_SLA)
+            def_val = mir_build_select(mu, elem->type, shift_is_neg,
+                                       first, last);
+         else
+            def_val = mir_build_select(mu, elem->type, shift_is_neg,
+                                       last, first);
       }
       break;
-   case S_SLA:
-      def_val = mir_build_load(mu, data);
-      break;
    default:
       should_not_reach_here();
    }
 
-   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
-   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
    mir_build_jump(mu, cmp_bb);
 
    mir_set_cursor(mu, cmp_bb, MIR_APPEND);
-- 
2.43.0


From dc5b5afd14d1276b46e28070229121f45f72405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:04 +0000
Subject: [PATCH 32/41] fix: bounds of elements of concatenated arrays of
 unconstrained arrays

---
 src/lower.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index fb9f165..46ffb5b 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -3768,18 +3768,32 @@ static vcode_reg_t lower_aggregate_bounds(lower_unit_t *lu, tree_t expr,
       dims[0].dir   = dir_reg;
 
       tree_t a0 = tree_value(tree_assoc(expr, 0));
+      type_t a0_type = tree_type(a0);
       vcode_reg_t a0_reg = value_regs[0];
       assert(a0_reg != VCODE_INVALID_REG);
 
-      if (vcode_reg_kind(a0_reg) == VCODE_TYPE_UARRAY) {
+      int skip = 1;
+      switch (tree_subkind(tree_assoc(expr, 0))) {
+      case A_CONCAT:
+      case A_SLICE:
+         // The bounds of the elements follow those of the array itself
+         a0_type = type_elem(a0_type);
+         if (type_const_bounds(a0_type))
+            a0_reg = VCODE_INVALID_REG;
+         else
+            skip = 0;
+         break;
+      }
+
+      if (a0_reg != VCODE_INVALID_REG
+          && vcode_reg_kind(a0_reg) == VCODE_TYPE_UARRAY) {
          for (int i = 1; i < ndims; i++) {
-            dims[i].left  = emit_uarray_left(a0_reg, i - 1);
-            dims[i].right = emit_uarray_right(a0_reg, i - 1);
-            dims[i].dir   = emit_uarray_dir(a0_reg, i - 1);
+            dims[i].left  = emit_uarray_left(a0_reg, i - skip);
+            dims[i].right = emit_uarray_right(a0_reg, i - skip);
+            dims[i].dir   = emit_uarray_dir(a0_reg, i - skip);
          }
       }
       else {
-         type_t a0_type = tree_type(a0);
          for (int i = 1; i < ndims; i++) {
             dims[i].left  = lower_array_left(lu, a0_type, i - 1, a0_reg);
             dims[i].right = lower_array_right(lu, a0_type, i - 1, a0_reg);
-- 
2.43.0


From 075617e258f1296f6ade1fda0b1529285a8b61c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:04 +0000
Subject: [PATCH 33/41] fix: choices of aggregate targets were ignored

---
 src/lower.c | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 46ffb5b..f543780 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5792,6 +5792,55 @@ static int lower_count_target_parts(tree_t target, int depth)
       return depth == 0 ? 2 : 1;
 }
 
+static void lower_target_assoc_order(tree_t target, int *order)
+{
+   // Elements of the value are assigned to parts of the target according
+   // to the choices which need not be in the same order as the elements
+
+   type_t type = tree_type(target);
+   const int nassocs = tree_assocs(target);
+   const bool is_record = type_is_record(type);
+
+   range_kind_t dir = RANGE_TO;
+   int64_t left, right;
+   const bool sorted =
+      is_record || calculate_aggregate_bounds(target, &dir, &left, &right);
+
+   int64_t *keys LOCAL = xmalloc_array(nassocs, sizeof(int64_t));
+
+   for (int i = 0; i < nassocs; i++) {
+      tree_t a = tree_assoc(target, i);
+
+      int64_t key = i;
+      switch (sorted ? tree_subkind(a) : A_POS) {
+      case A_NAMED:
+         if (is_record)
+            key = tree_pos(tree_ref(tree_name(a)));
+         else {
+            const int64_t name = assume_int(tree_name(a));
+            key = dir == RANGE_TO ? name : -name;
+         }
+         break;
+      case A_SLICE:
+         {
+            int64_t low, high;
+            range_bounds(tree_range(a, 0), &low, &high);
+            key = dir == RANGE_TO ? low : -high;
+         }
+         break;
+      }
+
+      int pos = i;
+      for (; pos > 0 && keys[pos - 1] > key; pos--) {
+         keys[pos] = keys[pos - 1];
+         order[pos] = order[pos - 1];
+      }
+
+      keys[pos] = key;
+      order[pos] = i;
+   }
+}
+
 static void lower_fill_target_parts(lower_unit_t *lu, tree_t target,
                                     part_kind_t kind, target_part_t **ptr)
 {
@@ -5812,8 +5861,11 @@ static void lower_fill_target_parts(lower_unit_t *lu, tree_t target,
       vcode_reg_t sum_reg = emit_const(vtype_offset(), 0);
 
       const int nassocs = tree_assocs(target);
+      int *order LOCAL = xmalloc_array(nassocs, sizeof(int));
+      lower_target_assoc_order(target, order);
+
       for (int i = 0; i < nassocs; i++) {
-         tree_t value = tree_value(tree_assoc(target, i));
+         tree_t value = tree_value(tree_assoc(target, order[i]));
 
          part_kind_t newkind;
          if (is_record)
-- 
2.43.0


From 4dd627534749c1ba746de03a5bdb404cd4395e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:04 +0000
Subject: [PATCH 34/41] fix: multidimensional arrays of different shapes could
 be equal

---
 src/lower.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index f543780..013fb95 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -10442,15 +10442,19 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
    assert(dimension_of(right_type) == ndims);
 
    vcode_reg_t left_len = lower_array_len(lu, left_type, 0, lhs_array);
-   for (int i = 1; i < ndims; i++) {
-      vcode_reg_t dim_len = lower_array_len(lu, left_type, i, lhs_array);
-      left_len = emit_mul(dim_len, left_len);
-   }
-
    vcode_reg_t right_len = lower_array_len(lu, right_type, 0, rhs_array);
+   vcode_reg_t shape_eq = VCODE_INVALID_REG;
+   if (ndims > 1)
+      shape_eq = emit_cmp(VCODE_CMP_EQ, left_len, right_len);
+
    for (int i = 1; i < ndims; i++) {
-      vcode_reg_t dim_len = lower_array_len(lu, right_type, i, rhs_array);
-      right_len = emit_mul(dim_len, right_len);
+      vcode_reg_t left_dim = lower_array_len(lu, left_type, i, lhs_array);
+      vcode_reg_t right_dim = lower_array_len(lu, right_type, i, rhs_array);
+      vcode_reg_t dim_eq = emit_cmp(VCODE_CMP_EQ, left_dim, right_dim);
+      shape_eq = emit_and(shape_eq, dim_eq);
+
+      left_len = emit_mul(left_dim, left_len);
+      right_len = emit_mul(right_dim, right_len);
    }
 
    vcode_type_t voffset = vtype_offset();
@@ -10469,10 +10473,17 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
 
    vcode_reg_t len_eq = emit_cmp(VCODE_CMP_EQ, left_len, right_len);
 
-   if (pred == VCODE_CMP_EQ)
-      emit_cond(len_eq, test_bb, fail_bb);
-   else
+   if (pred != VCODE_CMP_EQ)
       emit_jump(test_bb);
+   else if (ndims == 1)
+      emit_cond(len_eq, test_bb, fail_bb);
+   else {
+      // Arrays of different shapes are only equal if both are null
+      vcode_reg_t is_null =
+         emit_cmp(VCODE_CMP_EQ, left_len, emit_const(vtype_offset(), 0));
+      vcode_reg_t same = emit_or(shape_eq, is_null);
+      emit_cond(emit_and(len_eq, same), test_bb, fail_bb);
+   }
 
    // Loop test
 
-- 
2.43.0


From 7cb7c2a81c8ec2037864a59ae52bd3c9e3bfad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:47 +0000
Subject: [PATCH 35/41] fix: std_logic_signed "=" extended vectors with 'H' or
 'L' instead of '1' or '0'

---
 src/jit/jit-intrin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/jit-intrin.c b/src/jit/jit-intrin.c
index 99eed2a..356a1cc 100644
--- a/src/jit/jit-intrin.c
+++ b/src/jit/jit-intrin.c
@@ -1350,7 +1350,7 @@ static inline const uint8_t *__conv_signed(jit_func_t *func,
    if (unlikely(result[pad] == _X))
       memset(result, _X, size);
    else
-      memset(result, *(uint8_t *)input, pad);
+      memset(result, result[pad], pad);
 
    return result;
 }
-- 
2.43.0


From 87fdc5bb386796c3b9ba438fd07dc05c66831753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:47 +0000
Subject: [PATCH 36/41] fix: assertions failing while a resolution function is
 memoised were counted

---
 src/rt/assert.c |  6 ++++++
 src/rt/assert.h |  1 +
 src/rt/model.c  | 10 ++++++++++
 3 files changed, 17 insertions(+)

diff --git a/src/rt/assert.c b/src/rt/assert.c
index 2bcb43d..17a6f2a 100644
--- a/src/rt/assert.c
+++ b/src/rt/assert.c
@@ -510,6 +510,12 @@ int64_t get_vhdl_assert_count(vhdl_severity_t severity)
    return counts[severity];
 }
 
+void set_vhdl_assert_count(vhdl_severity_t severity, int64_t count)
+{
+   assert(severity <= SEVERITY_FAILURE);
+   counts[severity] = count;
+}
+
 void clear_vhdl_assert(void)
 {
    for (int i = SEVERITY_NOTE; i <= SEVERITY_FAILURE; i++)
diff --git a/src/rt/assert.h b/src/rt/assert.h
index 54cafcb..5bb041e 100644
--- a/src/rt/assert.h
+++ b/src/rt/assert.h
@@ -33,6 +33,7 @@ void set_status_severity(vhdl_severity_t severity);
 void set_stderr_severity(vhdl_severity_t severity);
 
 int64_t get_vhdl_assert_count(vhdl_severity_t severity);
+void set_vhdl_assert_count(vhdl_severity_t severity, int64_t count);
 void clear_vhdl_assert(void);
 void set_vhdl_assert_enable(vhdl_severity_t severity, bool enable);
 bool get_vhdl_assert_enable(vhdl_severity_t severity);
diff --git a/src/rt/model.c b/src/rt/model.c
index f173fac..3ccf965 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1035,6 +1035,13 @@ static res_memo_t *memo_resolution_fn(rt_model_t *m, rt_signal_t *signal,
 
    jit_set_silent(m->jit, true);
 
+   // Failures for values which may never occur should not be counted
+   int64_t counts[SEVERITY_FAILURE + 1];
+   for (int i = 0; i <= SEVERITY_FAILURE; i++)
+      counts[i] = get_vhdl_assert_count(i);
+
+   clear_vhdl_assert();
+
    // Memoise the function for all two value cases
 
    for (int i = 0; i < nlits; i++) {
@@ -1076,6 +1083,9 @@ static res_memo_t *memo_resolution_fn(rt_model_t *m, rt_signal_t *signal,
    jit_set_silent(m->jit, false);
    jit_reset_exit_status(m->jit);
 
+   for (int i = 0; i <= SEVERITY_FAILURE; i++)
+      set_vhdl_assert_count(i, counts[i]);
+
    set_exit_severity(old_severity);
 
    return memo;
-- 
2.43.0


From ec7973846d0a03d9820921604354b6b77916e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:00 +0000
Subject: [PATCH 37/41] fix: PSL until and before checked the wrong cycles

The left operand of until was still required to hold after the right
operand became true, before never failed, and until! and until!_ were not
checked at the end of simulation.
---
 src/psl/psl-fsm.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/psl/psl-fsm.c b/src/psl/psl-fsm.c
index 69539bb..836972b 100644
--- a/src/psl/psl-fsm.c
+++ b/src/psl/psl-fsm.c
@@ -316,20 +316,24 @@ static fsm_state_t *build_until(psl_fsm_t *fsm, fsm_state_t *state,
    psl_node_t lhs = psl_operand(p, 0);
    psl_node_t rhs = psl_operand(p, 1);
 
+   state->strong = !!(psl_flags(p) & PSL_F_STRONG);
+
+   // Once the right operand holds the left is not required any more
    if (psl_flags(p) & PSL_F_INCLUSIVE) {
       fsm_state_t *test = add_state(fsm, p);
       add_edge(fsm, state, test, EDGE_EPSILON, lhs);
 
       fsm_state_t *new = add_state(fsm, p);
       add_edge(fsm, test, new, EDGE_NEXT, rhs);
-      add_edge(fsm, test, state, EDGE_NEXT, NULL);
+      add_edge(fsm, test, state, EDGE_NEXT, not_guard(rhs));
 
       return new;
    }
    else {
       fsm_state_t *new = add_state(fsm, p);
       add_edge(fsm, state, new, EDGE_NEXT, rhs);
-      add_edge(fsm, state, state, EDGE_NEXT, lhs);
+      add_edge(fsm, state, state, EDGE_NEXT,
+               and_guard(fsm, lhs, not_guard(rhs)));
 
       return new;
    }
@@ -552,20 +556,21 @@ static fsm_state_t *build_before(psl_fsm_t *fsm, fsm_state_t *state,
                                  psl_node_t p)
 {
    fsm_state_t *accept = add_state(fsm, p);
-   fsm_state_t *fail = add_state(fsm, p);
 
    state->strong = !!(psl_flags(p) & PSL_F_STRONG);
 
-   if (psl_flags(p) & PSL_F_INCLUSIVE) {
-      add_edge(fsm, state, accept, EDGE_EPSILON, psl_operand(p, 0));
-      add_edge(fsm, state, fail, EDGE_EPSILON, psl_operand(p, 1));
-   }
-   else {
-      add_edge(fsm, state, fail, EDGE_EPSILON, psl_operand(p, 1));
-      add_edge(fsm, state, accept, EDGE_EPSILON, psl_operand(p, 0));
-   }
+   psl_node_t lhs = psl_operand(p, 0);
+   psl_node_t rhs = psl_operand(p, 1);
+
+   // There is no edge to take when the right operand holds first
+   if (psl_flags(p) & PSL_F_INCLUSIVE)
+      add_edge(fsm, state, accept, EDGE_EPSILON, lhs);
+   else
+      add_edge(fsm, state, accept, EDGE_EPSILON,
+               and_guard(fsm, lhs, not_guard(rhs)));
 
-   add_edge(fsm, state, state, EDGE_NEXT, NULL);
+   add_edge(fsm, state, state, EDGE_NEXT,
+            and_guard(fsm, not_guard(lhs), not_guard(rhs)));
 
    return accept;
 }
-- 
2.43.0


From fca4006eab470c4b7f0d167768c94720c063b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:00 +0000
Subject: [PATCH 38/41] fix: cover directives missed later matches of a
 sequence

---
 src/psl/psl-fsm.c   |  2 +-
 src/psl/psl-lower.c | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/psl/psl-fsm.c b/src/psl/psl-fsm.c
index 836972b..e1b8c26 100644
--- a/src/psl/psl-fsm.c
+++ b/src/psl/psl-fsm.c
@@ -749,7 +749,7 @@ static void psl_prune_dfs(psl_fsm_t *fsm, fsm_state_t *state,
    *fsm->tail = state;
    fsm->tail = &(state->next);
 
-   if (state->accept && state->guard == NULL)
+   if (state->accept && state->guard == NULL && fsm->kind != FSM_COVER)
       state->edges = NULL;   // Unreachable
 
    for (fsm_edge_t *e = state->edges; e; e = e->next) {
diff --git a/src/psl/psl-lower.c b/src/psl/psl-lower.c
index 74339c1..4e01e2a 100644
--- a/src/psl/psl-lower.c
+++ b/src/psl/psl-lower.c
@@ -184,12 +184,21 @@ static void psl_lower_state(lower_unit_t *lu, psl_fsm_t *fsm,
                      VCODE_INVALID_REG);
       }
 
-      emit_return(VCODE_INVALID_REG);
+      if (fsm->kind == FSM_COVER) {
+         // The sequence may match again after more cycles
+         if (state->guard != NULL) {
+            emit_jump(cont_bb);
+            vcode_select_block(cont_bb);
+         }
+      }
+      else {
+         emit_return(VCODE_INVALID_REG);
 
-      if (state->guard == NULL)
-         return;
-      else
-         vcode_select_block(cont_bb);
+         if (state->guard == NULL)
+            return;
+         else
+            vcode_select_block(cont_bb);
+      }
    }
 
    vcode_reg_t taken_reg = vfalse;
-- 
2.43.0


From b5f95ffba78e976f19627a0ddfaa0f2f73d90ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 39/41] fix: until!_ was not recognised in PSL directives

---
 src/lexer.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer.l b/src/lexer.l
index a8ac02e..ca05cd0 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -610,6 +610,7 @@ BEFORE            ?i:before
 <PSL>{UNION}             { TOKEN(tUNION); }
 <PSL>{UNTIL}!            { TOKEN(tUNTIL1); }
 <PSL>{UNTIL}_            { TOKEN(tUNTIL_); }
+<PSL>{UNTIL}!_           { TOKEN(tUNTIL1_); }
 <PSL>{UNTIL}_!           { TOKEN(tUNTIL1_); }
 <PSL>{ABORT}             { TOKEN(tABORT); }
 <PSL>{ASYNC_ABORT}       { TOKEN(tASYNC_ABORT); }
-- 
2.43.0


From 1156d4f739993a135f8152e1767f06e530522f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:16 +0000
Subject: [PATCH 40/41] fix: suffix implication after goto or non-consecutive
 repetition

The default edge of a state with a compound guard could not be built, and
a sequence that could no longer match failed the assertion.
---
 src/psl/psl-fsm.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/psl/psl-fsm.c b/src/psl/psl-fsm.c
index e1b8c26..93802d0 100644
--- a/src/psl/psl-fsm.c
+++ b/src/psl/psl-fsm.c
@@ -136,12 +136,29 @@ static inline psl_guard_t and_guard(psl_fsm_t *fsm, psl_guard_t left,
    return make_binop_guard(fsm, BINOP_AND, left, right);
 }
 
-static psl_guard_t not_guard(psl_guard_t g)
+static psl_guard_t not_guard(psl_fsm_t *fsm, psl_guard_t g)
 {
-   assert(psl_guard_kind(g) == GUARD_EXPR);
+   if (g == NULL)
+      return tag_pointer(NULL, GUARD_FALSE);
 
-   psl_node_t p = psl_guard_expr(g);
-   return tag_pointer(p, p == NULL ? GUARD_FALSE : GUARD_NOT);
+   switch (psl_guard_kind(g)) {
+   case GUARD_BINOP:
+      {
+         const guard_binop_t *bop = psl_guard_binop(g);
+         return make_binop_guard(fsm,
+                                 bop->kind == BINOP_AND ? BINOP_OR : BINOP_AND,
+                                 not_guard(fsm, bop->left),
+                                 not_guard(fsm, bop->right));
+      }
+   case GUARD_NOT:
+      return psl_guard_expr(g);
+   case GUARD_FALSE:
+      return NULL;
+   case GUARD_EXPR:
+      return tag_pointer(psl_guard_expr(g), GUARD_NOT);
+   default:
+      should_not_reach_here();
+   }
 }
 
 static psl_guard_t build_else_guard(psl_fsm_t *fsm, fsm_state_t *state)
@@ -149,7 +166,7 @@ static psl_guard_t build_else_guard(psl_fsm_t *fsm, fsm_state_t *state)
    psl_guard_t g = NULL;
 
    for (fsm_edge_t *e = state->edges; e; e = e->next)
-      g = and_guard(fsm, g, not_guard(e->guard));
+      g = and_guard(fsm, g, not_guard(fsm, e->guard));
 
    return g;
 }
@@ -325,7 +342,7 @@ static fsm_state_t *build_until(psl_fsm_t *fsm, fsm_state_t *state,
 
       fsm_state_t *new = add_state(fsm, p);
       add_edge(fsm, test, new, EDGE_NEXT, rhs);
-      add_edge(fsm, test, state, EDGE_NEXT, not_guard(rhs));
+      add_edge(fsm, test, state, EDGE_NEXT, not_guard(fsm, rhs));
 
       return new;
    }
@@ -333,7 +350,7 @@ static fsm_state_t *build_until(psl_fsm_t *fsm, fsm_state_t *state,
       fsm_state_t *new = add_state(fsm, p);
       add_edge(fsm, state, new, EDGE_NEXT, rhs);
       add_edge(fsm, state, state, EDGE_NEXT,
-               and_guard(fsm, lhs, not_guard(rhs)));
+               and_guard(fsm, lhs, not_guard(fsm, rhs)));
 
       return new;
    }
@@ -493,11 +510,9 @@ static fsm_state_t *build_repeat(psl_fsm_t *fsm, fsm_state_t *state,
       else if (noncon && !goto_rep) {
          assert(psl_kind(seq) == P_HDL_EXPR);
          fsm_state_t *aux = add_state(fsm, p);
-         fsm_state_t *dead = add_state(fsm, p);
          fsm_state_t *wait = add_state(fsm, p);
          add_edge(fsm, state, aux, EDGE_NEXT, NULL);
-         add_edge(fsm, aux, dead, EDGE_EPSILON, seq);
-         add_edge(fsm, aux, wait, EDGE_EPSILON, build_else_guard(fsm, aux));
+         add_edge(fsm, aux, wait, EDGE_EPSILON, not_guard(fsm, seq));
          add_edge(fsm, wait, aux, EDGE_NEXT, NULL);
          add_edge(fsm, wait, state, EDGE_EPSILON, NULL);
       }
@@ -567,10 +582,10 @@ static fsm_state_t *build_before(psl_fsm_t *fsm, fsm_state_t *state,
       add_edge(fsm, state, accept, EDGE_EPSILON, lhs);
    else
       add_edge(fsm, state, accept, EDGE_EPSILON,
-               and_guard(fsm, lhs, not_guard(rhs)));
+               and_guard(fsm, lhs, not_guard(fsm, rhs)));
 
    add_edge(fsm, state, state, EDGE_NEXT,
-            and_guard(fsm, not_guard(lhs), not_guard(rhs)));
+            and_guard(fsm, not_guard(fsm, lhs), not_guard(fsm, rhs)));
 
    return accept;
 }
-- 
2.43.0


From bed35af24a1f2a181e02ea45c2e7c20fd8b5bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:02 +0000
Subject: [PATCH 41/41] fix: suffix implication of sequences that match and
 continue never failed

The condition on the right of |-> was ignored in any cycle where the
sequence on the left matches but can also match again later.
---
 src/psl/psl-fsm.c | 125 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 110 insertions(+), 15 deletions(-)

diff --git a/src/psl/psl-fsm.c b/src/psl/psl-fsm.c
index 93802d0..c66a23c 100644
--- a/src/psl/psl-fsm.c
+++ b/src/psl/psl-fsm.c
@@ -41,6 +41,8 @@
 static fsm_state_t *build_node(psl_fsm_t *fsm, fsm_state_t *state,
                                psl_node_t p);
 static void psl_simplify(psl_fsm_t *fsm);
+static void psl_simplify_from(psl_fsm_t *fsm, fsm_state_t *state,
+                              bit_mask_t *visited);
 
 static fsm_state_t *add_state(psl_fsm_t *fsm, psl_node_t where)
 {
@@ -306,17 +308,17 @@ static fsm_state_t *build_logical(psl_fsm_t *fsm, fsm_state_t *state,
 
    case PSL_LOGIC_OR:
       {
-         fsm_state_t *accept = add_state(fsm, p), *final;
+         fsm_state_t *accept = add_state(fsm, p);
+         fsm_state_t *other = add_state(fsm, p);
 
          // At least one operand must be Boolean
-         if (psl_kind(lhs) == P_HDL_EXPR) {
-            add_edge(fsm, state, accept, EDGE_EPSILON, lhs);
-            final = build_node(fsm, state, rhs);
-         }
-         else {
-            add_edge(fsm, state, accept, EDGE_EPSILON, rhs);
-            final = build_node(fsm, state, lhs);
-         }
+         const bool left_bool = psl_kind(lhs) == P_HDL_EXPR;
+         psl_node_t expr = left_bool ? lhs : rhs;
+
+         add_edge(fsm, state, accept, EDGE_EPSILON, expr);
+         add_edge(fsm, state, other, EDGE_EPSILON, not_guard(fsm, expr));
+
+         fsm_state_t *final = build_node(fsm, other, left_bool ? rhs : lhs);
 
          add_edge(fsm, final, accept, EDGE_EPSILON, NULL);
          return accept;
@@ -590,24 +592,105 @@ static fsm_state_t *build_before(psl_fsm_t *fsm, fsm_state_t *state,
    return accept;
 }
 
+static psl_guard_t ready_guard(psl_fsm_t *fsm, fsm_state_t *state,
+                               fsm_state_t *final)
+{
+   // Return the condition under which the state machine can move on from
+   // this state or has reached the final state in the current cycle
+
+   if (state == final)
+      return NULL;
+
+   psl_guard_t g = tag_pointer(NULL, GUARD_FALSE);
+
+   for (fsm_edge_t *e = state->edges; e; e = e->next) {
+      psl_guard_t edge = e->guard;
+
+      if (e->kind == EDGE_EPSILON) {
+         psl_guard_t dest = ready_guard(fsm, e->dest, final);
+         if (dest != NULL && psl_guard_kind(dest) == GUARD_FALSE)
+            continue;
+
+         edge = and_guard(fsm, edge, dest);
+      }
+
+      if (edge == NULL)
+         return NULL;
+      else if (psl_guard_kind(g) == GUARD_FALSE)
+         g = edge;
+      else
+         g = or_guard(fsm, g, edge);
+   }
+
+   return g;
+}
+
+static void connect_overlap(psl_fsm_t *fsm, fsm_state_t *state,
+                            fsm_state_t *right, psl_guard_t ready,
+                            bit_mask_t *visited)
+{
+   if (mask_test_and_set(visited, state->id))
+      return;
+
+   for (fsm_edge_t *e = state->edges; e; e = e->next)
+      connect_overlap(fsm, e->dest, right, ready, visited);
+
+   if (!state->accept)
+      return;
+
+   // The sequence may match in this cycle and also continue: this must
+   // not hide a failure of the right hand side
+   if (ready != NULL) {
+      psl_guard_t cont = ready;
+      if (state->guard != NULL)
+         cont = or_guard(fsm, not_guard(fsm, state->guard), ready);
+
+      for (fsm_edge_t *e = state->edges; e; e = e->next)
+         e->guard = and_guard(fsm, e->guard, cont);
+   }
+
+   add_edge(fsm, state, right, EDGE_EPSILON, state->guard);
+
+   state->accept = false;
+   state->guard = NULL;
+}
+
 static fsm_state_t *build_suffix_impl(psl_fsm_t *fsm, fsm_state_t *state,
                                       psl_node_t p)
 {
-   fsm_state_t *left = build_node(fsm, state, psl_operand(p, 0));
+   fsm_state_t *initial = add_state(fsm, p);
+   fsm_state_t *left = build_node(fsm, initial, psl_operand(p, 0));
    fsm_state_t *right = add_state(fsm, p);
    fsm_state_t *vacuous = add_state(fsm, p);
 
-   if (psl_subkind(p) == PSL_SUFFIX_OVERLAP)
-      add_edge(fsm, left, right, EDGE_EPSILON, NULL);
-   else
+   if (psl_subkind(p) != PSL_SUFFIX_OVERLAP)
       add_edge(fsm, left, right, EDGE_NEXT, NULL);
 
+   fsm_state_t *final = build_node(fsm, right, psl_operand(p, 1));
+
    LOCAL_BIT_MASK visited;
    mask_init(&visited, fsm->next_id);
 
-   connect_default(fsm, state, vacuous, &visited);
+   if (psl_subkind(p) == PSL_SUFFIX_OVERLAP) {
+      left->accept = true;
+      psl_simplify_from(fsm, initial, &visited);
 
-   fsm_state_t *final = build_node(fsm, right, psl_operand(p, 1));
+      mask_clearall(&visited);
+      connect_overlap(fsm, initial, right, ready_guard(fsm, right, final),
+                      &visited);
+
+      // The sequence may continue after the right hand side holds
+      fsm_state_t *done = add_state(fsm, p);
+      add_edge(fsm, final, done, EDGE_NEXT, NULL);
+      final = done;
+   }
+
+   mask_clearall(&visited);
+   mask_set(&visited, right->id);   // Has its own default edges
+
+   connect_default(fsm, initial, vacuous, &visited);
+
+   add_edge(fsm, state, initial, EDGE_EPSILON, NULL);
    add_edge(fsm, vacuous, final, EDGE_EPSILON, NULL);
 
    return final;
@@ -740,6 +823,18 @@ static void psl_simplify_dfs(psl_fsm_t *fsm, fsm_state_t *state,
    }
 }
 
+static void psl_simplify_from(psl_fsm_t *fsm, fsm_state_t *state,
+                              bit_mask_t *visited)
+{
+   if (mask_test(visited, state->id))
+      return;
+
+   psl_simplify_dfs(fsm, state, visited);
+
+   for (fsm_edge_t *e = state->edges; e; e = e->next)
+      psl_simplify_from(fsm, e->dest, visited);
+}
+
 static void psl_simplify(psl_fsm_t *fsm)
 {
    LOCAL_BIT_MASK visited;
-- 
2.43.0

