From 0b031b7f60ae022ba804d9e613ddef2e2bcf4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 01/41] fix: do not abort when every tile of the map is already
 listed as dirty

---
 operationqueue.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/operationqueue.c b/operationqueue.c
index 7cbe890..5e2793f 100644
--- a/operationqueue.c
+++ b/operationqueue.c
@@ -199,8 +199,10 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
            // Prune duplicate tiles that cause us to almost exceed max
            self->dirty_tiles_n = remove_duplicate_tiles(self->dirty_tiles, self->dirty_tiles_n);
        }
-       assert(self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2);
-       self->dirty_tiles[self->dirty_tiles_n++] = index;
+       // If the list is still full, every tile in the map is dirty, including this one
+       if (self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2) {
+           self->dirty_tiles[self->dirty_tiles_n++] = index;
+       }
     }
     fifo_push(op_queue, (void *)op);
 }
-- 
2.43.0


From 05f024d5f844b0279dae795460b013ed4eb50aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 02/41] fix: keep posterized colours premultiplied

Rounding a channel up to the next posterize level could make it larger than the
pixel's alpha, which is not a valid premultiplied colour.
---
 brushmodes.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/brushmodes.c b/brushmodes.c
index f0c68b6..f642652 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -146,9 +146,10 @@ void draw_dab_pixels_BlendMode_Posterize (uint16_t * mask,
       float g = (float)rgba[1] / (1<<15);
       float b = (float)rgba[2] / (1<<15);
 
-      uint32_t post_r = (1<<15) * ROUND(r * posterize_num) / posterize_num;
-      uint32_t post_g = (1<<15) * ROUND(g * posterize_num) / posterize_num;
-      uint32_t post_b = (1<<15) * ROUND(b * posterize_num) / posterize_num;
+      // rounding up must not leave the colour above its alpha (premultiplied)
+      uint32_t post_r = MIN((1<<15) * ROUND(r * posterize_num) / posterize_num, rgba[3]);
+      uint32_t post_g = MIN((1<<15) * ROUND(g * posterize_num) / posterize_num, rgba[3]);
+      uint32_t post_b = MIN((1<<15) * ROUND(b * posterize_num) / posterize_num, rgba[3]);
       
       uint32_t opa_a = mask[0]*(uint32_t)opacity/(1<<15); // topAlpha
       uint32_t opa_b = (1<<15)-opa_a; // bottomAlpha
-- 
2.43.0


From 6823b1ba61ab9c37cb16a65e1f925911e359f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 03/41] fix: do not overflow or divide by zero when colorizing
 a white pixel with black

The luminance difference of white and black does not fit in an int16_t; the
wrapped value led to a division by zero (crash) and to wrong colours.
---
 brushmodes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brushmodes.c b/brushmodes.c
index f642652..e5b7991 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -210,14 +210,14 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     // temporary representation inflation.
     const uint16_t botlum = LUMA(*botr, *botg, *botb) / (1<<15);
     const uint16_t toplum = LUMA(topr, topg, topb) / (1<<15);
-    const int16_t diff = botlum - toplum;
+    const int32_t diff = (int32_t)botlum - toplum;
     int32_t r = topr + diff;
     int32_t g = topg + diff;
     int32_t b = topb + diff;
 
     // Spec: ClipColor()
     // Clip out of band values
-    int32_t lum = LUMA(r, g, b) / (1<<15);
+    int32_t lum = CLAMP((int32_t)(LUMA(r, g, b) / (1<<15)), 0, 1<<15);
     int32_t cmin = MIN3(r, g, b);
     int32_t cmax = MAX3(r, g, b);
     if (cmin < 0) {
-- 
2.43.0


From 8500b141ea73c2d14c993723246efe5a8193f85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:30 +0000
Subject: [PATCH 04/41] fix: report every dab of an atomic section in the
 changed rectangles

The number of bounding boxes in use was overwritten by each dab, so a dab that
painted nothing (or symmetry being switched off) hid the earlier ones.  It was
also uninitialised before the first atomic section.
---
 mypaint-tiled-surface.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b19c4dd..542e23a 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -794,7 +794,8 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             break;
         }
     }
-    self->num_bboxes_dirtied = MIN(self->num_bboxes, num_bboxes_used);
+    // Bounding boxes used by earlier dabs remain in use until the next begin_atomic
+    self->num_bboxes_dirtied = MAX(self->num_bboxes_dirtied, MIN(self->num_bboxes, num_bboxes_used));
     return surface_modified;
 #undef DDI
 }
@@ -949,6 +950,7 @@ mypaint_tiled_surface_init(MyPaintTiledSurface *self,
     self->threadsafe_tile_requests = FALSE;
 
     self->num_bboxes = NUM_BBOXES_DEFAULT;
+    self->num_bboxes_dirtied = 0;
     self->bboxes = self->default_bboxes;
     memset(self->bboxes, 0, sizeof(MyPaintRectangle) * NUM_BBOXES_DEFAULT);
 
-- 
2.43.0


From 50e58b48a91b80ada4cb1fe20ab1c46b78723fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:30 +0000
Subject: [PATCH 05/41] fix: do not write outside an empty list of changed
 rectangles

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 542e23a..fd1c400 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -120,7 +120,7 @@ mypaint_tiled_surface_end_atomic(MyPaintTiledSurface *self, MyPaintRectangles *r
 
     operation_queue_clear_dirty_tiles(self->operation_queue);
 
-    if (roi) {
+    if (roi && roi->num_rectangles > 0) {
         const int roi_rects = roi->num_rectangles;
         const int num_dirty = self->num_bboxes_dirtied;
         // Clear out the input rectangles that will be overwritten
-- 
2.43.0


From 966573cb9297518707f22df1a368d803c31aa651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 06/41] fix: keep snowflake bounding box index in range when
 they could not be grown

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index fd1c400..cfe08e5 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -763,7 +763,7 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             for (int dab_count = 0; dab_count < symm.num_lines; dab_count++) {
                 // If the number of bboxes cannot fit all snowflake dabs, use half for the rotational dabs
                 // and the other half for the reflected dabs. This is not always optimal, but seldom bad.
-                const int bbox_idx = offset + MIN(roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
+                const int bbox_idx = MIN(offset + roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
                 mypaint_transform_point(&matrices[base_idx + dab_count], x, y, &x_out, &y_out);
                 DDI(x_out, y_out, base_angle - dab_count * rot_angle, bbox_idx);
             }
-- 
2.43.0


From d5854b72ad1969c0776478b7063a3c2c1bb98ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 07/41] fix: keep the colour sampling interval of huge radii
 within its 16 bit type

A wrapped interval of zero crashed with a division by zero.
---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index cfe08e5..6caee97 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -853,7 +853,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
     //
     // For really small radii we'll sample every pixel
     // in the dab to avoid biasing.
-    const int sample_interval = radius <= 2.0f ? 1 : (int)(radius * 7);
+    const int sample_interval = radius <= 2.0f ? 1 : (int)MIN(radius * 7, UINT16_MAX);
     const float random_sample_rate = 1.0f / (7 * radius);
 
     #pragma omp parallel for schedule(static) if(self->threadsafe_tile_requests && tiles_n > 3)
-- 
2.43.0


From 78b4d8d32d10c0d1e5ddb4bc8db1cba43ebccf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 08/41] fix: recover when the backend cannot provide a tile

The operations of a tile that could not be had stayed queued while the tile
was no longer listed as dirty, so nothing drawn to it showed up afterwards
(and one operation was leaked). Reading a colour aborted when none of the
tiles could be had.
---
 mypaint-tiled-surface.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 6caee97..b613434 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -579,6 +579,12 @@ process_tile(MyPaintTiledSurface *self, int tx, int ty)
     uint16_t * rgba_p = request_data.buffer;
     if (!rgba_p) {
         printf("Warning: Unable to get tile!\n");
+        // Drop the operations: left in the queue they would keep the tile from
+        // being listed as dirty again, and nothing drawn to it would show up.
+        while (op) {
+            free(op);
+            op = operation_queue_pop(self->operation_queue, tile_index);
+        }
         return;
     }
 
@@ -822,6 +828,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
     *color_r = 0.0f;
     *color_g = 1.0f;
     *color_b = 0.0f;
+    *color_a = 0.0f;
 
     // WARNING: some code duplication with draw_dab
 
@@ -871,7 +878,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
         uint16_t * rgba_p = request_data.buffer;
         if (!rgba_p) {
           printf("Warning: Unable to get tile!\n");
-          break;
+          continue;
         }
 
         // first, we calculate the mask (opacity for each pixel)
@@ -898,7 +905,9 @@ void get_color (MyPaintSurface *surface, float x, float y,
       }
     }
 
-    assert(sum_weight > 0.0f);
+    if (!(sum_weight > 0.0f)) {
+      return; // none of the tiles could be read
+    }
     sum_a /= sum_weight;
 
     // For legacy sampling, we need to divide
-- 
2.43.0


From 3a31452b43059bc30f823299c9c2167979e7e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 09/41] fix: free pending operations together with their queue

fifo_free() handed the list item instead of its payload to the free function,
so destroying a surface with pending operations leaked all of them.
---
 fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fifo.c b/fifo.c
index 1d71ab7..3eb365f 100644
--- a/fifo.c
+++ b/fifo.c
@@ -59,7 +59,8 @@ void fifo_free(struct fifo* queue, FifoUserFreeFunction user_free)
     while ((item = queue->first) != NULL)
     {
         queue->first = item->next;
-        user_free(item);
+        user_free(item->payload);
+        free(item);
     }
     free(queue);
 }
-- 
2.43.0


From 83c3ddd58516f1b001c88c4eca5552ab86c4cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 10/41] fix: survive failed allocations while queueing dabs

A failed allocation crashed; now the tile concerned misses the dab.
---
 fifo.c                  |  8 +++++++-
 fifo.h                  |  2 +-
 mypaint-tiled-surface.c |  3 +++
 operationqueue.c        | 35 ++++++++++++++++++++++++++++++-----
 tilemap.c               |  7 +++++++
 5 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/fifo.c b/fifo.c
index 3eb365f..5a3165b 100644
--- a/fifo.c
+++ b/fifo.c
@@ -41,6 +41,8 @@ struct fifo
 struct fifo* fifo_new(void)
 {
     struct fifo *ret = (struct fifo *) malloc(sizeof(struct fifo));
+    if (!ret)
+        return NULL;
     ret->first = NULL;
     ret->last = NULL;
     ret->item_count = 0;
@@ -69,10 +71,13 @@ void fifo_free(struct fifo* queue, FifoUserFreeFunction user_free)
  * fifo_push:
  *
  * Add item to queue.
+ * Returns 0 if there is not enough memory to do so.
  */
-void fifo_push(struct fifo* queue, void* data)
+int fifo_push(struct fifo* queue, void* data)
 {
     struct fifo_item *item = (struct fifo_item*) malloc(sizeof(struct fifo_item));
+    if (!item)
+        return 0;
     item->next = NULL;
     item->payload = data;
     if (!queue->last)
@@ -80,6 +85,7 @@ void fifo_push(struct fifo* queue, void* data)
     else
         queue->last->next = item;
     queue->last = item;
+    return 1;
 }
 
 /*
diff --git a/fifo.h b/fifo.h
index 1ed9709..432ee51 100644
--- a/fifo.h
+++ b/fifo.h
@@ -7,7 +7,7 @@ typedef void (*FifoUserFreeFunction) (void *item_data);
 Fifo* fifo_new(void);
 void fifo_free(Fifo* self, FifoUserFreeFunction data_free);
 
-void fifo_push(Fifo* self, void* data);
+int fifo_push(Fifo* self, void* data);
 void* fifo_pop(Fifo* self);
 
 void* fifo_peek_first(Fifo *queue);
diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b613434..5032fac 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -681,6 +681,9 @@ gboolean draw_dab_internal (MyPaintTiledSurface *self, float x, float y,
         for (int tx = tx1; tx <= tx2; tx++) {
             const TileIndex tile_index = {tx, ty};
             OperationDataDrawDab *op_copy = (OperationDataDrawDab *)malloc(sizeof(OperationDataDrawDab));
+            if (!op_copy) {
+                continue; // not enough memory, this tile misses the dab
+            }
             *op_copy = *op;
             operation_queue_add(self->operation_queue, tile_index, op_copy);
         }
diff --git a/operationqueue.c b/operationqueue.c
index 5e2793f..4ca9440 100644
--- a/operationqueue.c
+++ b/operationqueue.c
@@ -71,6 +71,15 @@ operation_queue_resize(OperationQueue *self, int new_size)
         const int new_map_size = new_size*2*new_size*2;
         TileIndex *new_dirty_tiles = (TileIndex *)malloc(new_map_size*sizeof(TileIndex));
 
+        if (!new_tile_map || !new_dirty_tiles) {
+            // Not enough memory, stick to what we have
+            if (new_tile_map) {
+                tile_map_free(new_tile_map, FALSE);
+            }
+            free(new_dirty_tiles);
+            return FALSE;
+        }
+
         if (self->tile_map) {
             tile_map_copy_to(self->tile_map, new_tile_map);
             for(int i = 0; i < self->dirty_tiles_n; i++) {
@@ -84,7 +93,7 @@ operation_queue_resize(OperationQueue *self, int new_size)
         self->tile_map = new_tile_map;
         self->dirty_tiles = new_dirty_tiles;
 
-        return FALSE;
+        return TRUE;
     }
 }
 
@@ -172,16 +181,22 @@ operation_queue_clear_dirty_tiles(OperationQueue *self)
 /* Add an operation to the queue for tile @index
  * Note: if an operation affects more than one tile, it must be added once per tile.
  *
+ * Takes ownership of @op, and drops it if there is not enough memory to queue it.
+ *
  * Concurrency: This function is not thread-safe on the same @self instance. */
 void
 operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab *op)
 {
     while (!tile_map_contains(self->tile_map, index)) {
 #ifdef HEAVY_DEBUG
-        operation_queue_resize(self, self->tile_map->size+1);
+        const gboolean resized = operation_queue_resize(self, self->tile_map->size+1);
 #else
-        operation_queue_resize(self, self->tile_map->size*2);
+        const gboolean resized = operation_queue_resize(self, self->tile_map->size*2);
 #endif
+        if (!resized) {
+            operation_delete_func(op);
+            return;
+        }
     }
 
     Fifo **queue_pointer = (Fifo **)tile_map_get(self->tile_map, index);
@@ -190,10 +205,21 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
     if (op_queue == NULL) {
         // Lazy initialization
         op_queue = fifo_new();
+        if (!op_queue) {
+            operation_delete_func(op);
+            return;
+        }
         *queue_pointer = op_queue;
     }
 
-    if (fifo_peek_first(op_queue) == NULL) {
+    const gboolean was_empty = fifo_peek_first(op_queue) == NULL;
+
+    if (!fifo_push(op_queue, (void *)op)) {
+        operation_delete_func(op);
+        return;
+    }
+
+    if (was_empty) {
         // Critical section, not thread-safe
        if (!(self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2)) {
            // Prune duplicate tiles that cause us to almost exceed max
@@ -204,7 +230,6 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
            self->dirty_tiles[self->dirty_tiles_n++] = index;
        }
     }
-    fifo_push(op_queue, (void *)op);
 }
 
 /* Pop an operation off the queue for tile @index
diff --git a/tilemap.c b/tilemap.c
index efc29a0..84b2074 100644
--- a/tilemap.c
+++ b/tilemap.c
@@ -25,12 +25,19 @@ TileMap *
 tile_map_new(int size, size_t item_size, TileMapItemFreeFunc item_free_func)
 {
     TileMap *self = (TileMap *)malloc(sizeof(TileMap));
+    if (!self) {
+        return NULL;
+    }
 
     self->size = size;
     self->item_size = item_size;
     self->item_free_func = item_free_func;
     const int map_size = 2*self->size*2*self->size;
     self->map = malloc(map_size*self->item_size);
+    if (!self->map) {
+        free(self);
+        return NULL;
+    }
     for(int i = 0; i < map_size; i++) {
         self->map[i] = NULL;
     }
-- 
2.43.0


From bfbc6933435390cc00279ec109d03adbbbd984a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 11/41] fix: keep the current symmetry working when a larger
 one cannot be allocated

---
 mypaint-symmetry.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-symmetry.c b/mypaint-symmetry.c
index 76c870e..475075d 100644
--- a/mypaint-symmetry.c
+++ b/mypaint-symmetry.c
@@ -19,7 +19,9 @@ allocate_symmetry_matrices(MyPaintSymmetryData* data, int num_matrices)
     void* allocated = realloc(data->symmetry_matrices, bytes);
     if (!allocated) {
         allocation_failure_warning(num_matrices);
-        data->num_symmetry_matrices = 0;
+        if (!data->symmetry_matrices) {
+            data->num_symmetry_matrices = 0;
+        } // else the previous (smaller) allocation is still there and in use
         return FALSE;
     } else {
         data->symmetry_matrices = allocated;
-- 
2.43.0


From 1a332814742d940276573c8da38cd82c51f9a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 12/41] fix: release everything when a fixed size surface
 cannot be allocated

---
 mypaint-fixed-tiled-surface.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 287e324..59257b6 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -100,6 +100,9 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     assert(height > 0);
 
     MyPaintFixedTiledSurface *self = (MyPaintFixedTiledSurface *)malloc(sizeof(MyPaintFixedTiledSurface));
+    if (!self) {
+        return NULL;
+    }
 
     mypaint_tiled_surface_init(&self->parent, tile_request_start, tile_request_end);
 
@@ -118,8 +121,12 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     assert(buffer_size >= width*height*4*sizeof(uint16_t));
 
     uint16_t * buffer = (uint16_t *)malloc(buffer_size);
-    if (!buffer) {
+    self->null_tile = (uint16_t *)malloc(tile_size);
+    if (!buffer || !self->null_tile) {
         fprintf(stderr, "CRITICAL: unable to allocate enough memory: %zu bytes", buffer_size);
+        mypaint_tiled_surface_destroy(&self->parent);
+        free(buffer);
+        free(self->null_tile);
         free(self);
         return NULL;
     }
@@ -127,7 +134,6 @@ mypaint_fixed_tiled_surface_new(int width, int height)
 
     self->tile_buffer = buffer;
     self->tile_size = tile_size;
-    self->null_tile = (uint16_t *)malloc(tile_size);
     self->tiles_width = tiles_width;
     self->tiles_height = tiles_height;
     self->height = height;
-- 
2.43.0


From 267bc9f2c07126c41e6d958a85c05af92438a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 13/41] fix: fill new fixed size surfaces with valid pixel
 values

Channel values range from 0 to 1 << 15, the initial fill of 0xffff is out of
that range and makes blend modes overflow.
---
 mypaint-fixed-tiled-surface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 59257b6..7a8422d 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -130,7 +130,10 @@ mypaint_fixed_tiled_surface_new(int width, int height)
         free(self);
         return NULL;
     }
-    memset(buffer, 255, buffer_size);
+    // Opaque white. Channel values are 15 bit fixed point, 1.0 is (1 << 15)
+    for (size_t i = 0; i < buffer_size / sizeof(uint16_t); i++) {
+        buffer[i] = 1 << 15;
+    }
 
     self->tile_buffer = buffer;
     self->tile_size = tile_size;
-- 
2.43.0


From 02f8b574ca72aebbd8529fd0aa9130e5b26819c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 14/41] fix: address smudge buckets by bucket, not by float, in
 the state accessors

Neighbouring buckets overlapped, and negative indices were accepted.
---
 mypaint-brush.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 9533265..0c48472 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -459,8 +459,8 @@ mypaint_brush_set_smudge_bucket_state(
     float prev_r, float prev_g, float prev_b, float prev_a,
     float prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     bucket[SMUDGE_R] = r;
     bucket[SMUDGE_G] = g;
     bucket[SMUDGE_B] = b;
@@ -491,8 +491,8 @@ mypaint_brush_get_smudge_bucket_state(
     float* prev_r, float* prev_g, float* prev_b, float* prev_a,
     float* prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     *r = bucket[SMUDGE_R];
     *g = bucket[SMUDGE_G];
     *b = bucket[SMUDGE_B];
-- 
2.43.0


From 82d720db65dfa38bda4a4f46d0e250514d6a764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 15/41] fix: clear the smudge buckets that were used on reset

The memory cleared started at the wrong place (so used buckets kept their
colour), buckets written through the state accessors were not cleared at all,
and the range was uninitialized for brushes without buckets.
---
 mypaint-brush.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 0c48472..5dbefe6 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -141,6 +141,18 @@ void settings_base_values_have_changed (MyPaintBrush *self);
 
 #include "glib/mypaint-brush.c"
 
+// Keep track of the range of buckets that need to be cleared on reset
+static void
+mark_bucket_used(MyPaintBrush *self, int bucket_index)
+{
+    if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
+      self->min_bucket_used = bucket_index;
+    }
+    if (self->max_bucket_used < bucket_index) {
+      self->max_bucket_used = bucket_index;
+    }
+}
+
 void
 brush_reset(MyPaintBrush *self)
 {
@@ -159,7 +171,7 @@ brush_reset(MyPaintBrush *self)
       if (min_index != -1) {
         int max_index = self->max_bucket_used;
         size_t num_bytes = (max_index - min_index + 1) * sizeof(self->smudge_buckets[0]) * SMUDGE_BUCKET_SIZE;
-        memset(self->smudge_buckets + min_index, 0, num_bytes);
+        memset(self->smudge_buckets + min_index * SMUDGE_BUCKET_SIZE, 0, num_bytes);
         self->min_bucket_used = -1;
         self->max_bucket_used = -1;
       }
@@ -208,6 +220,8 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     } else {
       self->smudge_buckets = NULL;
       self->num_buckets = 0;
+      self->min_bucket_used = -1;
+      self->max_bucket_used = -1;
     }
 
     self->refcount = 1;
@@ -470,6 +484,7 @@ mypaint_brush_set_smudge_bucket_state(
     bucket[PREV_COL_B] = prev_b;
     bucket[PREV_COL_A] = prev_a;
     bucket[PREV_COL_RECENTNESS] = prev_color_recentness;
+    mark_bucket_used(self, bucket_index);
     return TRUE;
   }
   return FALSE;
@@ -908,12 +923,7 @@ void print_inputs(MyPaintBrush *self, float* inputs)
       return &STATE(self, SMUDGE_RA);
     }
     const int bucket_index = CLAMP(roundf(SETTING(self, SMUDGE_BUCKET)), 0, self->num_buckets - 1);
-    if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
-      self->min_bucket_used = bucket_index;
-    }
-    if (self->max_bucket_used < bucket_index) {
-      self->max_bucket_used = bucket_index;
-    }
+    mark_bucket_used(self, bucket_index);
     return &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
   }
 
-- 
2.43.0


From 643980d4cff7b1fb51e89610280db397026c7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 16/41] fix: do not use uninitialized or stale setting values
 after a reset

The first update of a stroke calculated the grid map inputs from setting
values that were uninitialized, or left over from before the reset.
---
 mypaint-brush.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 5dbefe6..52406ad 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -162,6 +162,10 @@ brush_reset(MyPaintBrush *self)
     self->skipped_dtime = 0;
     // Clear states
     memset(self->states, 0, sizeof(self->states));
+    // No value has been calculated yet, and the first update already needs some of them
+    for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
+        self->settings_value[i] = mypaint_mapping_get_base_value(self->settings[i]);
+    }
     // Set the flip state such that it will be at "1" for the first
     // dab, and then switch between -1 and 1 for the subsequent dabs.
     STATE(self, FLIP) = -1;
-- 
2.43.0


From 26791d51c937dfa86c8b3ca07c1698014739e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 17/41] fix: start at the pointer position after a reset, also
 with slow tracking

The first event after a reset was pulled towards the end of the previous
stroke (or the origin).
---
 mypaint-brush.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 52406ad..c6dc020 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1404,9 +1404,12 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         }
       }
 
-      const float fac = 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
-      x = STATE(self, X) + (x - STATE(self, X)) * fac;
-      y = STATE(self, Y) + (y - STATE(self, Y)) * fac;
+      // The first position after a reset is unrelated to the current one
+      if (!(dtime > max_dtime || self->reset_requested)) {
+        const float fac = 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
+        x = STATE(self, X) + (x - STATE(self, X)) * fac;
+        y = STATE(self, Y) + (y - STATE(self, Y)) * fac;
+      }
     }
 
     if (dtime > max_dtime || self->reset_requested) {
-- 
2.43.0


From 093c83dc44f3882468706fe64143eae3005f15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 18/41] fix: use the real tilt and barrel rotation when
 bridging a pause

The event inserted for tablets that do not report motion without pressure
pretended an extreme tilt.
---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index c6dc020..650fa55 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1360,7 +1360,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     if (dtime > 0.100 && pressure && STATE(self, PRESSURE) == 0) {
       // Workaround for tablets that don't report motion events without pressure.
       // This is to avoid linear interpolation of the pressure between two events.
-      mypaint_brush_stroke_to (self, surface, x, y, 0.0, 90.0, 0.0, dtime-0.0001, viewzoom, viewrotation, 0.0, linear);
+      mypaint_brush_stroke_to (self, surface, x, y, 0.0, xtilt, ytilt, dtime-0.0001, viewzoom, viewrotation, barrel_rotation, linear);
       dtime = 0.0001;
     }
 
-- 
2.43.0


From 54354131b717344ddc902d0588acaaa39166f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 19/41] fix: report zero declination per axis for a stylus
 without tilt

The inputs are documented as 0 when the stylus is perpendicular to the
tablet, and are close to 0 for tiny tilts, but were 90 for none at all.
---
 mypaint-brush.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 650fa55..ba1c526 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1319,8 +1319,8 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
 
     float tilt_ascension = 0.0;
     float tilt_declination = 90.0;
-    float tilt_declinationx = 90.0;
-    float tilt_declinationy = 90.0;
+    float tilt_declinationx = 0.0;
+    float tilt_declinationy = 0.0;
     if (xtilt != 0 || ytilt != 0) {
       // shield us from insane tilt input
       xtilt = CLAMP(xtilt, -1.0, 1.0);
-- 
2.43.0


From 65cb0bc4ca9e69b867b45db74c9249ddc961e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 20/41] fix: keep the barrel rotation input in its documented
 range

The input is documented (and limited in brush editors) to -180..180 degrees
but was reported in 0..360.
---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index ba1c526..2da16fe 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -828,7 +828,7 @@ void print_inputs(MyPaintBrush *self, float* inputs)
     INPUT(TILT_DECLINATIONY) = STATE(self, DECLINATIONY);
 
     INPUT(CUSTOM) = STATE(self, CUSTOM_INPUT);
-    INPUT(BARREL_ROTATION) = mod_arith(STATE(self, BARREL_ROTATION), 360);
+    INPUT(BARREL_ROTATION) = mod_arith(STATE(self, BARREL_ROTATION) + 180.0, 360.0) - 180.0;
 
     if (self->print_inputs) {
         print_inputs(self, inputs);
-- 
2.43.0


From 514d6b9550cd58bc8cad77f7d91d2cea6ef3a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 21/41] fix: do not share a static result between all brushes
 when mixing colours

Brushes smudging in different threads raced for the result, and with a
negative paint mode the previous result leaked into the next one.
---
 helpers.c       | 8 +++-----
 helpers.h       | 2 +-
 mypaint-brush.c | 6 ++++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/helpers.c b/helpers.c
index d0a227c..ca0b229 100644
--- a/helpers.c
+++ b/helpers.c
@@ -561,10 +561,10 @@ spectral_to_rgb (float *spectral, float *rgb_) {
 
 //function to make it easy to blend two spectral colors via weighted geometric mean
 //a is the current smudge state, b is the get_color or brush color
-float * mix_colors(float *a, float *b, float fac, float paint_mode)
+void mix_colors(float *a, float *b, float fac, float paint_mode, float result[4])
 {
-  static float result[4] = {0};  
-  
+  result[0] = result[1] = result[2] = 0.0f;
+
   float opa_a = fac;
   float opa_b = 1.0-opa_a;
   result[3] = CLAMP(opa_a * a[3] + opa_b * b[3], 0.0f, 1.0f);
@@ -601,8 +601,6 @@ float * mix_colors(float *a, float *b, float fac, float paint_mode)
       result[i] = result[i] * paint_mode + (1-paint_mode) * (a[i] * opa_a + b[i] * opa_b);
     }
   }
-
-  return result;
 }
 
 #endif //HELPERS_C
diff --git a/helpers.h b/helpers.h
index 0cb252c..901a650 100644
--- a/helpers.h
+++ b/helpers.h
@@ -41,7 +41,7 @@ float mod_arith(float a, float N);
 
 float smallest_angular_difference(float angleA, float angleB);
 
-float * mix_colors(float *a, float *b, float fac, float paint_mode);
+void mix_colors(float *a, float *b, float fac, float paint_mode, float result[4]);
 
 void
 rgb_to_spectral (float r, float g, float b, float *spectral_);
diff --git a/mypaint-brush.c b/mypaint-brush.c
index 2da16fe..58b8a1e 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -997,7 +997,8 @@ void print_inputs(MyPaintBrush *self, float* inputs)
                                         smudge_bucket[SMUDGE_A]};
           float sampled_color[4] = {r, g, b, a};
 
-          float* smudge_new = mix_colors(prev_smudge_color, sampled_color, update_factor, paint_factor);
+          float smudge_new[4];
+          mix_colors(prev_smudge_color, sampled_color, update_factor, paint_factor, smudge_new);
           smudge_bucket[SMUDGE_R] = smudge_new[SMUDGE_R];
           smudge_bucket[SMUDGE_G] = smudge_new[SMUDGE_G];
           smudge_bucket[SMUDGE_B] = smudge_new[SMUDGE_B];
@@ -1033,7 +1034,8 @@ void print_inputs(MyPaintBrush *self, float* inputs)
               float smudge_color[4] = {smudge_bucket[SMUDGE_R], smudge_bucket[SMUDGE_G], smudge_bucket[SMUDGE_B],
                                        smudge_bucket[SMUDGE_A]};
               float brush_color[4] = {*color_r, *color_g, *color_b, 1.0};
-              float* color_new = mix_colors(smudge_color, brush_color, smudge_factor, paint_factor);
+              float color_new[4];
+              mix_colors(smudge_color, brush_color, smudge_factor, paint_factor, color_new);
               *color_r = color_new[SMUDGE_R];
               *color_g = color_new[SMUDGE_G];
               *color_b = color_new[SMUDGE_B];
-- 
2.43.0


From 10b5c2e5038f45034bb645bfda7cc88ba0ec431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 22/41] fix: survive insane pen events

Non-finite tilt and coordinates between 1e8 and 1e10 aborted; non-finite
pressure, time, zoom, rotation, and the zoom of 0 used for events with insane
coordinates poisoned the brush state with NaN until the next reset.
---
 mypaint-brush.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 58b8a1e..03c2fd7 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1325,8 +1325,8 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     float tilt_declinationy = 0.0;
     if (xtilt != 0 || ytilt != 0) {
       // shield us from insane tilt input
-      xtilt = CLAMP(xtilt, -1.0, 1.0);
-      ytilt = CLAMP(ytilt, -1.0, 1.0);
+      xtilt = isfinite(xtilt) ? CLAMP(xtilt, -1.0, 1.0) : 0.0;
+      ytilt = isfinite(ytilt) ? CLAMP(ytilt, -1.0, 1.0) : 0.0;
       assert(isfinite(xtilt) && isfinite(ytilt));
 
       tilt_ascension = DEGREES(atan2(-xtilt, ytilt));
@@ -1341,15 +1341,18 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       assert(isfinite(tilt_declinationy));
     }
 
-    if (pressure <= 0.0) pressure = 0.0;
+    if (!isfinite(pressure) || pressure <= 0.0) pressure = 0.0;
+    if (!isfinite(viewzoom) || viewzoom <= 0.0) viewzoom = 1.0;
+    if (!isfinite(viewrotation)) viewrotation = 0.0;
+    if (!isfinite(barrel_rotation)) barrel_rotation = 0.0;
     if (!isfinite(x) || !isfinite(y) ||
-        (x > 1e10 || y > 1e10 || x < -1e10 || y < -1e10)) {
+        (x >= 1e8 || y >= 1e8 || x <= -1e8 || y <= -1e8)) {
       // workaround attempt for https://gna.org/bugs/?14372
       printf("Warning: ignoring brush::stroke_to with insane inputs (x = %f, y = %f)\n", (double)x, (double)y);
       x = 0.0;
       y = 0.0;
       pressure = 0.0;
-      viewzoom = 0.0;
+      viewzoom = 1.0;
       viewrotation = 0.0;
       barrel_rotation = 0.0;
     }
@@ -1357,7 +1360,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     assert(x < 1e8 && y < 1e8 && x > -1e8 && y > -1e8);
 
     if (dtime < 0) printf("Time jumped backwards by dtime=%f seconds!\n", dtime);
-    if (dtime <= 0) dtime = 0.0001; // protect against possible division by zero bugs
+    if (!(dtime > 0)) dtime = 0.0001; // protect against possible division by zero bugs
 
     if (dtime > 0.100 && pressure && STATE(self, PRESSURE) == 0) {
       // Workaround for tablets that don't report motion events without pressure.
-- 
2.43.0


From 7391878b60ad8ebbe597c5541920108104f90933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 23/41] fix: do not crash on malformed brush definitions

Settings or inputs that are not objects, points that are not pairs, point
counts of 1 or above 64, decreasing abscissae and non-finite values crashed
or aborted.
---
 mypaint-brush.c | 58 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 03c2fd7..a628a83 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1583,6 +1583,37 @@ obj_get(json_object *self, const gchar *key, json_object **obj_out) {
 #endif
 }
 
+// Get the coordinates of a mapping point, if it is a pair of usable values
+static gboolean
+get_mapping_point(json_object *mapping_point, float *x, float *y)
+{
+    if (!json_object_is_type(mapping_point, json_type_array) || json_object_array_length(mapping_point) < 2) {
+        return FALSE;
+    }
+    *x = json_object_get_double(json_object_array_get_idx(mapping_point, 0));
+    *y = json_object_get_double(json_object_array_get_idx(mapping_point, 1));
+    return isfinite(*x) && isfinite(*y);
+}
+
+// Whether the points can be used as a mapping (the mapping functions treat violations as programming errors)
+static gboolean
+mapping_points_valid(json_object *points)
+{
+    const int n = json_object_array_length(points);
+    if (n == 1 || n > 64) {
+        return FALSE;
+    }
+    float x_prev = 0.0;
+    for (int i = 0; i < n; i++) {
+        float x, y;
+        if (!get_mapping_point(json_object_array_get_idx(points, i), &x, &y) || (i > 0 && x < x_prev)) {
+            return FALSE;
+        }
+        x_prev = x;
+    }
+    return TRUE;
+}
+
 static gboolean
 update_brush_setting_from_json_object(MyPaintBrush *self,
                                       char *setting_name,
@@ -1607,7 +1638,11 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         fprintf(stderr, "Warning: No 'base_value' field for setting: %s\n", setting_name);
         return FALSE;
     }
-    const double base_value = json_object_get_double(base_value_obj);
+    const float base_value = json_object_get_double(base_value_obj);
+    if (!isfinite(base_value)) {
+        fprintf(stderr, "Warning: Unusable 'base_value' for setting: %s\n", setting_name);
+        return FALSE;
+    }
     mypaint_brush_set_base_value(self, setting_id, base_value);
 
     // Inputs
@@ -1616,6 +1651,10 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         fprintf(stderr, "Warning: No 'inputs' field for setting: %s\n", setting_name);
         return FALSE;
     }
+    if (!json_object_is_type(inputs, json_type_object)) {
+        fprintf(stderr, "Warning: Wrong inputs type for setting: %s\n", setting_name);
+        return FALSE;
+    }
     json_object_object_foreach(inputs, input_name, input_obj) {
         MyPaintBrushInput input_id = mypaint_brush_input_from_cname(input_name);
 
@@ -1630,6 +1669,12 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
             return FALSE;
         }
 
+        if (!mapping_points_valid(input_obj)) {
+            fprintf(stderr, "Warning: Unusable mapping points for setting: %s, input: %s\n",
+                    setting_name, input_name);
+            return FALSE;
+        }
+
         const int number_of_mapping_points = json_object_array_length(input_obj);
 
         mypaint_brush_set_mapping_n(self, setting_id, input_id, number_of_mapping_points);
@@ -1637,10 +1682,8 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         for (int i=0; i<number_of_mapping_points; i++) {
             json_object *mapping_point = json_object_array_get_idx(input_obj, i);
 
-            json_object *x_obj = json_object_array_get_idx(mapping_point, 0);
-            const float x = json_object_get_double(x_obj);
-            json_object *y_obj = json_object_array_get_idx(mapping_point, 1);
-            const float y = json_object_get_double(y_obj);
+            float x, y;
+            get_mapping_point(mapping_point, &x, &y);
 
             mypaint_brush_set_mapping_point(self, setting_id, input_id, i, x, y);
         }
@@ -1671,6 +1714,11 @@ update_brush_from_json_object(MyPaintBrush *self)
         return FALSE;
     }
 
+    if (!json_object_is_type(settings, json_type_object)) {
+        fprintf(stderr, "Error: Wrong type of 'settings' field for brush\n");
+        return FALSE;
+    }
+
     gboolean updated_any = FALSE;
     json_object_object_foreach(settings, setting_name, setting_obj) {
       updated_any |= update_brush_setting_from_json_object(self, setting_name, setting_obj);
-- 
2.43.0


From 0075fb8e5785ebb0c0fbe3ebaf0555950c1eabbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:16 +0000
Subject: [PATCH 24/41] fix: space the first motion after a reset by the base
 values

The dabs-per-radius/second states are zero after a reset until the settings
have been evaluated for the first time, so the motion from the first to the
second event of a stroke did not paint anything.
---
 mypaint-brush.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index a628a83..2d57531 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -166,6 +166,10 @@ brush_reset(MyPaintBrush *self)
     for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
         self->settings_value[i] = mypaint_mapping_get_base_value(self->settings[i]);
     }
+    // The motion up to the next event is spaced by the base values, like it is measured with the base radius
+    STATE(self, DABS_PER_BASIC_RADIUS) = BASEVAL(self, DABS_PER_BASIC_RADIUS);
+    STATE(self, DABS_PER_ACTUAL_RADIUS) = BASEVAL(self, DABS_PER_ACTUAL_RADIUS);
+    STATE(self, DABS_PER_SECOND) = BASEVAL(self, DABS_PER_SECOND);
     // Set the flip state such that it will be at "1" for the first
     // dab, and then switch between -1 and 1 for the subsequent dabs.
     STATE(self, FLIP) = -1;
-- 
2.43.0


From 3eeb5dbcc8c8132d0926fd21d2dfaa0eaf81e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:16 +0000
Subject: [PATCH 25/41] fix: do not look at the pressure from before a reset

Whether the first event after a reset was preceded by an event without
pressure depended on the pressure before the reset.
---
 mypaint-brush.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 2d57531..40d0541 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1366,7 +1366,8 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     if (dtime < 0) printf("Time jumped backwards by dtime=%f seconds!\n", dtime);
     if (!(dtime > 0)) dtime = 0.0001; // protect against possible division by zero bugs
 
-    if (dtime > 0.100 && pressure && STATE(self, PRESSURE) == 0) {
+    // No interpolation happens when the state is about to be reset
+    if (dtime > 0.100 && pressure && STATE(self, PRESSURE) == 0 && !self->reset_requested) {
       // Workaround for tablets that don't report motion events without pressure.
       // This is to avoid linear interpolation of the pressure between two events.
       mypaint_brush_stroke_to (self, surface, x, y, 0.0, xtilt, ytilt, dtime-0.0001, viewzoom, viewrotation, barrel_rotation, linear);
-- 
2.43.0


From fc7158eb0e7b9b5afbee19154179b5285c7086de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:43 +0000
Subject: [PATCH 26/41] fix: report a stroke split found while bridging a pause

The result of the inserted event without pressure was dropped, so a stroke
was not split when the pause was only noticed with the next pen-down event.
---
 mypaint-brush.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 40d0541..a0aebd1 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1366,11 +1366,12 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     if (dtime < 0) printf("Time jumped backwards by dtime=%f seconds!\n", dtime);
     if (!(dtime > 0)) dtime = 0.0001; // protect against possible division by zero bugs
 
+    int split = FALSE;
     // No interpolation happens when the state is about to be reset
     if (dtime > 0.100 && pressure && STATE(self, PRESSURE) == 0 && !self->reset_requested) {
       // Workaround for tablets that don't report motion events without pressure.
       // This is to avoid linear interpolation of the pressure between two events.
-      mypaint_brush_stroke_to (self, surface, x, y, 0.0, xtilt, ytilt, dtime-0.0001, viewzoom, viewrotation, barrel_rotation, linear);
+      split = mypaint_brush_stroke_to (self, surface, x, y, 0.0, xtilt, ytilt, dtime-0.0001, viewzoom, viewrotation, barrel_rotation, linear);
       dtime = 0.0001;
     }
 
@@ -1384,7 +1385,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       dtime = self->skipped_dtime;
 
       if (self->skip > 0.001 && !(dtime > max_dtime || self->reset_requested))
-        return FALSE;
+        return split;
 
       // skipped
       self->skip = 0;
@@ -1570,7 +1571,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         }
       }
     }
-    return FALSE;
+    return split;
   }
 
 // Compat wrapper, for supporting libjson
-- 
2.43.0


From b205b90ad11ed1226b7262aefbd48d9fb1e9d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:13 +0000
Subject: [PATCH 27/41] fix: do not hang when dabs are closer together than the
 coordinates can tell apart

---
 mypaint-brush.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index a0aebd1..ddf2c08 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -20,6 +20,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <math.h>
+#include <float.h>
 #include <assert.h>
 
 #if MYPAINT_CONFIG_USE_GLIB
@@ -1299,9 +1300,12 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     const float res1 = dist / STATE(self, ACTUAL_RADIUS) * STATE(self, DABS_PER_ACTUAL_RADIUS);
     const float res2 = dist / base_radius * STATE(self, DABS_PER_BASIC_RADIUS);
     const float res3 = dt * STATE(self, DABS_PER_SECOND);
+    // dabs closer together than the coordinates can tell apart would never get there
+    const float max_coord = MAX(MAX(fabsf(x), fabsf(y)), MAX(fabsf(STATE(self, X)), fabsf(STATE(self, Y))));
+    const float max_dabs = hypotf(dx, dy) / (max_coord * FLT_EPSILON + FLT_MIN);
     //on first load if isnan the engine messes up and won't paint
     //until you switch modes
-    float res4 = res1 + res2 + res3;
+    float res4 = MIN(res1 + res2, max_dabs) + res3;
     if (isnan(res4) || res4 < 0.0) { res4 = 0.0; }
     return res4;
   }
-- 
2.43.0


From be732c4ebff4c418c4d934c416c457bf5213f4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 28/41] fix: sample the smudge colour at the nearest pixel also
 at negative coordinates

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index ddf2c08..c36f3b7 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1146,7 +1146,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         (SETTING(self, SMUDGE) != 0.0 || !mypaint_mapping_is_constant(self->settings[MYPAINT_BRUSH_SETTING_SMUDGE]))) {
         float* const bucket = fetch_smudge_bucket(self);
         gboolean return_early = update_smudge_color(
-            self, surface, bucket, smudge_length, ROUND(x), ROUND(y), radius, legacy_smudge, paint_factor);
+            self, surface, bucket, smudge_length, floorf(x + 0.5f), floorf(y + 0.5f), radius, legacy_smudge, paint_factor);
         if (return_early) {
           return FALSE;
         }
-- 
2.43.0


From 00bf5a02994cfe0bec3e3c8c34a5c80b55f38c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 29/41] fix: survive extreme zooms, rotations and time steps

---
 mypaint-brush.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index c36f3b7..9c56d81 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1351,8 +1351,10 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
 
     if (!isfinite(pressure) || pressure <= 0.0) pressure = 0.0;
     if (!isfinite(viewzoom) || viewzoom <= 0.0) viewzoom = 1.0;
-    if (!isfinite(viewrotation)) viewrotation = 0.0;
-    if (!isfinite(barrel_rotation)) barrel_rotation = 0.0;
+    viewzoom = CLAMP(viewzoom, 1e-6f, 1e6f); // speeds are multiplied and divided by it
+    // angles this large have no precision left, and overflow when converted to degrees
+    if (!(fabsf(viewrotation) < 1e8)) viewrotation = 0.0;
+    if (!(fabsf(barrel_rotation) < 1e8)) barrel_rotation = 0.0;
     if (!isfinite(x) || !isfinite(y) ||
         (x >= 1e8 || y >= 1e8 || x <= -1e8 || y <= -1e8)) {
       // workaround attempt for https://gna.org/bugs/?14372
@@ -1368,7 +1370,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     assert(x < 1e8 && y < 1e8 && x > -1e8 && y > -1e8);
 
     if (dtime < 0) printf("Time jumped backwards by dtime=%f seconds!\n", dtime);
-    if (!(dtime > 0)) dtime = 0.0001; // protect against possible division by zero bugs
+    if (!(dtime > 1e-9)) dtime = 0.0001; // protect against possible division by zero bugs, and overflow
 
     int split = FALSE;
     // No interpolation happens when the state is about to be reset
-- 
2.43.0


From 21cf28f530fe62f77652b9c3f7f444bfd4d0e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 30/41] fix: keep the extent of a buffer given to the GEGL
 surface

---
 gegl/mypaint-gegl-surface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 0057d42..ea91973 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -76,8 +76,9 @@ tile_request_start(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *reque
     } else {
         read_write_flags = GEGL_BUFFER_READWRITE;
 
-        // Extend the bounding box
-        gegl_rectangle_bounding_box(&self->extent_rect, &self->extent_rect, &tile_bbox);
+        // Extend the bounding box. The buffer may have been handed over (or
+        // extended) by the application: never shrink what it covers.
+        gegl_rectangle_bounding_box(&self->extent_rect, gegl_buffer_get_extent(self->buffer), &tile_bbox);
         gboolean success = gegl_buffer_set_extent(self->buffer, &self->extent_rect);
         g_assert(success);
     }
-- 
2.43.0


From be111d464b5e9e185169e2dd03aea2d9bf8c185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:58 +0000
Subject: [PATCH 31/41] fix: access shifted buffers in the GEGL surface by
 copying

---
 gegl/mypaint-gegl-surface.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index ea91973..28d70d6 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -51,7 +51,13 @@ buffer_is_native(MyPaintGeglTiledSurface *self) {
     const gboolean correct_format = gegl_buffer_get_format(self->buffer) == self->format;
     const gboolean correct_tile_size = tile_height == tile_size && tile_width == tile_size;
 
-    return correct_format && correct_tile_size;
+    // The tiles of a shifted buffer do not start at multiples of the tile size
+    int shift_x = 0;
+    int shift_y = 0;
+    g_object_get(self->buffer, "shift-x", &shift_x, "shift-y", &shift_y, NULL);
+    const gboolean aligned_tiles = shift_x % tile_size == 0 && shift_y % tile_size == 0;
+
+    return correct_format && correct_tile_size && aligned_tiles;
 }
 
 void *
-- 
2.43.0


From 0408eefee9c6db9074ffba91fd9f946d44385356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 32/41] fix: do not write tiles back to the GEGL buffer that
 were only read

---
 gegl/mypaint-gegl-surface.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 28d70d6..694cbc7 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -146,8 +146,10 @@ tile_request_end(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request
 
         g_assert(request->buffer);
         gegl_rectangle_set(&tile_bbox, request->tx*tile_size, request->ty*tile_size, tile_size, tile_size);
-        gegl_buffer_set(self->buffer, &tile_bbox, 0, self->format,
-                        request->buffer, GEGL_AUTO_ROWSTRIDE);
+        if (!request->readonly) { // the conversion may be lossy: only reading must not change anything
+            gegl_buffer_set(self->buffer, &tile_bbox, 0, self->format,
+                            request->buffer, GEGL_AUTO_ROWSTRIDE);
+        }
         gegl_free(request->buffer);
     }
 
-- 
2.43.0


From 93b3568d6932786dc2d890969cf1202351308987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:25 +0000
Subject: [PATCH 33/41] fix: extend the GEGL buffer by one thread at a time

---
 gegl/mypaint-gegl-surface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 694cbc7..87a0a3d 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -77,6 +77,10 @@ tile_request_start(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *reque
 
     int read_write_flags;
 
+    // Threads may ask for several tiles at once: the buffer must not be extended
+    // while another thread extends it too, or looks up its tile in it.
+#pragma omp critical (gegl_buffer_access)
+    {
     if (request->readonly) {
         read_write_flags = GEGL_BUFFER_READ;
     } else {
@@ -125,6 +129,7 @@ tile_request_start(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *reque
                         request->buffer, GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE);
         g_assert(request->buffer);
     }
+    }
 }
 
 static void
-- 
2.43.0


From 1bf726bd442fdf91024cf74b9a580424f94aee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 34/41] fix: annotate that the GEGL surface takes its own
 reference of a buffer

---
 gegl/mypaint-gegl-surface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 87a0a3d..fca6084 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -190,7 +190,8 @@ mypaint_gegl_tiled_surface_get_buffer(MyPaintGeglTiledSurface *self)
 
 /**
  * mypaint_gegl_tiled_surface_set_buffer:
- * @buffer: (transfer full): The buffer which shall back this surface.
+ * @buffer: (transfer none) (nullable): The buffer which shall back this surface.
+ * The surface keeps a reference of its own. NULL: use a new, empty buffer.
  *
  */
 void
-- 
2.43.0


From 2bc886de77478f3dff3ad73d76a64c8718e82a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:51 +0000
Subject: [PATCH 35/41] fix: keep the buffer of the GEGL surface when the new
 one is refused

---
 gegl/mypaint-gegl-surface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index fca6084..80a3b61 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -201,12 +201,13 @@ mypaint_gegl_tiled_surface_set_buffer(MyPaintGeglTiledSurface *self, GeglBuffer
         return;
     }
 
+    g_return_if_fail(!buffer || GEGL_IS_BUFFER(buffer));
+
     if (self->buffer) {
         g_object_unref(self->buffer);
     }
 
     if (buffer) {
-        g_return_if_fail(GEGL_IS_BUFFER(buffer));
         g_object_ref(buffer);
         self->buffer = buffer;
     } else {
-- 
2.43.0


From b97e50b4c59b75a9f709038840d0d62324474941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 36/41] fix: initialize the optional save_png function of tiled
 surfaces

---
 mypaint-tiled-surface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 5032fac..1d765ac 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -954,6 +954,7 @@ mypaint_tiled_surface_init(MyPaintTiledSurface *self,
     self->parent.get_color = get_color;
     self->parent.begin_atomic = begin_atomic_default;
     self->parent.end_atomic = end_atomic_default;
+    self->parent.save_png = NULL; // optional, provided by subclasses
 
     self->tile_request_end = tile_request_end;
     self->tile_request_start = tile_request_start;
-- 
2.43.0


From 91654567e56fed01b165ff6753ef0e6dba7e1c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 37/41] fix: return the object from the boxed copy functions

---
 glib/mypaint-brush.c     | 22 +++++++++++++++++++---
 glib/mypaint-gegl-glib.c | 10 +++++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/glib/mypaint-brush.c b/glib/mypaint-brush.c
index d351c68..d5cfe0f 100644
--- a/glib/mypaint-brush.c
+++ b/glib/mypaint-brush.c
@@ -3,6 +3,22 @@
 
 #include <glib-object.h>
 
+// A boxed copy has to return the copy, which is another reference to the same object
+
+static gpointer
+brush_boxed_copy (gpointer brush)
+{
+    mypaint_brush_ref((MyPaintBrush *)brush);
+    return brush;
+}
+
+static gpointer
+surface_boxed_copy (gpointer surface)
+{
+    mypaint_surface_ref((MyPaintSurface *)surface);
+    return surface;
+}
+
 GType
 mypaint_brush_get_type (void)
 {
@@ -10,7 +26,7 @@ mypaint_brush_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintBrush",
-                                            (GBoxedCopyFunc) mypaint_brush_ref,
+                                            brush_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_brush_unref);
     }
 
@@ -24,7 +40,7 @@ mypaint_surface_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
+                                            surface_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_surface_unref);
     }
 
@@ -38,7 +54,7 @@ mypaint_fixed_tiled_surface_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintFixedTiledSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
+                                            surface_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_surface_unref);
     }
 
diff --git a/glib/mypaint-gegl-glib.c b/glib/mypaint-gegl-glib.c
index 09ac3cb..000eebc 100644
--- a/glib/mypaint-gegl-glib.c
+++ b/glib/mypaint-gegl-glib.c
@@ -8,6 +8,14 @@
 
 #include "mypaint-surface.h"
 
+// A boxed copy has to return the copy, which is another reference to the same object
+static gpointer
+surface_boxed_copy (gpointer surface)
+{
+    mypaint_surface_ref((MyPaintSurface *)surface);
+    return surface;
+}
+
 GType
 mypaint_gegl_tiled_surface_get_type (void)
 {
@@ -15,7 +23,7 @@ mypaint_gegl_tiled_surface_get_type (void)
 
     if (!type) {
         type = g_boxed_type_register_static("MyPaintGeglTiledSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
+                                            surface_boxed_copy,
                                             (GBoxedFreeFunc) mypaint_surface_unref);
     }
 
-- 
2.43.0


From 6c612c2460ba6786a3ab533a77dc7e49a356a556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:45 +0000
Subject: [PATCH 38/41] fix: antialias small rotated dabs the same on both
 sides

---
 mypaint-tiled-surface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 1d765ac..72e1f02 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -251,7 +251,8 @@ calculate_rr(int xp, int yp, float x, float y, float aspect_ratio,
 static inline float
 sign_point_in_line( float px, float py, float vx, float vy )
 {
-    return (px - vx) * (-vy) - (vx) * (py - vy);
+    // which side of the line through zero with direction (vx, vy)
+    return px * vy - vx * py;
 }
 
 static inline void
@@ -317,7 +318,7 @@ calculate_rr_antialiased(int xp, int yp, float x, float y, float aspect_ratio,
         return rr_near;
 
     // check on which side of the dab's line is the pixel center
-    float center_sign = sign_point_in_line( pixel_center_x, pixel_center_y, cs, -sn );
+    float center_sign = sign_point_in_line( pixel_center_x, pixel_center_y, cs, sn );
 
     // radius of a circle with area=1
     //   A = pi * r * r
-- 
2.43.0


From 73fbcab20fc516d485eb097ddac96be3266a5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:01 +0000
Subject: [PATCH 39/41] fix: do not place dabs at undefined positions when the
 offset multiplier overflows

---
 mypaint-brush.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 9c56d81..ff84b6a 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -611,8 +611,9 @@ Offsets
 directional_offsets(const MyPaintBrush* const self, const float base_radius, const int brush_flip)
 {
     const float offset_mult = expf(SETTING(self, OFFSET_MULTIPLIER));
+    const float base_mul = base_radius * offset_mult;
     // Sanity check - it is easy to reach infinite multipliers w. logarithmic parameters
-    if (!isfinite(offset_mult)) {
+    if (!isfinite(base_mul)) {
         Offsets offs = {0.0f, 0.0f};
         return offs;
     }
@@ -682,7 +683,6 @@ directional_offsets(const MyPaintBrush* const self, const float base_radius, con
     // Clamp the final offsets to avoid potential memory issues (extreme memory use from redraws)
     // Allow offsets up to the 1080 * 3 pixels. Unlikely to hamper anyone artistically.
     const float lim = 3240;
-    const float base_mul = base_radius * offset_mult;
     Offsets offs = {CLAMP(dx * base_mul, -lim, lim),  CLAMP(dy * base_mul, -lim, lim)};
     return offs;
 }
-- 
2.43.0


From bd7ef29dd1ca3df1bb631fcfca08e150c8a2e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:01 +0000
Subject: [PATCH 40/41] fix: keep the pigment strength used for smudging within
 its range

---
 mypaint-brush.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index ff84b6a..8b280fa 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1132,6 +1132,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     const float paint_factor = SETTING(self, PAINT_MODE);
     const gboolean paint_setting_constant = mypaint_mapping_is_constant(self->settings[MYPAINT_BRUSH_SETTING_PAINT_MODE]);
     const gboolean legacy_smudge = paint_factor <= 0.0 && paint_setting_constant;
+    const float smudge_paint_factor = CLAMP(paint_factor, 0.0f, 1.0f);
 
     //convert to RGB here instead of later
     // color part
@@ -1146,7 +1147,8 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         (SETTING(self, SMUDGE) != 0.0 || !mypaint_mapping_is_constant(self->settings[MYPAINT_BRUSH_SETTING_SMUDGE]))) {
         float* const bucket = fetch_smudge_bucket(self);
         gboolean return_early = update_smudge_color(
-            self, surface, bucket, smudge_length, floorf(x + 0.5f), floorf(y + 0.5f), radius, legacy_smudge, paint_factor);
+            self, surface, bucket, smudge_length, floorf(x + 0.5f), floorf(y + 0.5f), radius, legacy_smudge,
+            smudge_paint_factor);
         if (return_early) {
           return FALSE;
         }
@@ -1158,7 +1160,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     if (smudge_value > 0.0) {
       float* const bucket = fetch_smudge_bucket(self);
       eraser_target_alpha =
-          apply_smudge(bucket, smudge_value, legacy_smudge, paint_factor, &color_h, &color_s, &color_v);
+          apply_smudge(bucket, smudge_value, legacy_smudge, smudge_paint_factor, &color_h, &color_s, &color_v);
     }
 
     // eraser
-- 
2.43.0


From 490ee5d002d0fab696d4d7fd77868e8abe4f93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:01 +0000
Subject: [PATCH 41/41] fix: keep the strength of snapping to pixels within its
 range

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 8b280fa..f63544e 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1238,7 +1238,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     }
 
     // snap to pixel
-    float snapToPixel = SETTING(self, SNAP_TO_PIXEL);
+    float snapToPixel = MIN(SETTING(self, SNAP_TO_PIXEL), 1.0f);
     if (snapToPixel > 0.0)
     {
       // linear interpolation between non-snapped and snapped
-- 
2.43.0

